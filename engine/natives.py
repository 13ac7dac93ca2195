"""Functions without a body in the module: the verification intrinsics, the C++ run-time, libc."""
import z3
import rt
import codegen
from rt import S, UNDEF, NULL, CxxThrow, Limit, EndPath, Split


def cstr(p):
    o, off = p
    out = []
    while True:
        b = rt.byte_at(o, off)
        if b == 0 or b is UNDEF:
            break
        out.append(chr(b))
        off += 1
    return ''.join(out)


def make(prog_ref):
    N = {}

    def nat(name):
        def d(f):
            N[name] = f
            return f
        return d

    # ---- verification intrinsics
    N['vp_u64'] = lambda nm: rt.fresh_bv(cstr(nm), 64)
    N['vp_u32'] = lambda nm: rt.fresh_bv(cstr(nm), 32)
    N['vp_u8'] = lambda nm: rt.fresh_bv(cstr(nm), 8)
    N['vp_bool'] = lambda nm: rt.fresh_bool(cstr(nm))

    @nat('vp_assume')
    def _(c):
        rt.assume(c)

    @nat('vp_assert')
    def _(c, nm):
        rt.obligation(cstr(nm), c)

    @nat('vp_case')
    def _(n, nm):
        n = rt.conc(n)
        i = S.ncase
        S.ncase += 1
        name = rt.sym_name(cstr(nm))
        if i < len(S.fixed):
            v = S.fixed[i]
        elif i < S.split_depth:
            raise Split(n)
        else:
            v = rt.choose(n)
        S.case_vals.append((name, v))
        return v

    @nat('vp_conc')
    def _(x):
        return rt.conc(x)

    @nat('vp_known')
    def _(c):
        """the truth value if it is determined, else 2"""
        if type(c) is int:
            return c
        k = rt.bool_known(c)
        return 2 if k is None else k

    N['vp_and'] = lambda a, b: rt.binop('and', 1, a, b)
    N['vp_or'] = lambda a, b: rt.binop('or', 1, a, b)
    N['vp_not'] = lambda a: rt.mknot(a)
    N['vp_implies'] = lambda a, b: rt.binop('or', 1, rt.mknot(a), b)
    N['vp_iff'] = lambda a, b: rt.mknot(rt.binop('xor', 1, a, b))
    N['vp_ite'] = lambda c, a, b: rt.select_w(c, a, b, 64)
    N['vp_eq'] = lambda a, b: rt.icmp('eq', 64, a, b)

    @nat('vp_uf1')
    def _(nm, a):
        return rt.uf(cstr(nm), [a], 64)

    @nat('vp_uf2')
    def _(nm, a, b):
        return rt.uf(cstr(nm), [a, b], 64)

    @nat('vp_ufb')
    def _(nm, a, b):
        return rt.uf(cstr(nm), [a, b], 1)

    @nat('vp_alloc')
    def _(n, nm):
        return rt.heap_alloc(n, cstr(nm))

    @nat('vp_raw')
    def _(n, nm):
        """storage that is not counted as a heap block"""
        if type(n) is not int and not isinstance(n, z3.BitVecRef):
            raise Limit('vp_raw size')
        return (rt.Obj(n, 'ghost', cstr(nm)), 0)

    @nat('vp_free')
    def _(p, n):
        rt.heap_free(p, n)

    @nat('vp_free_any')
    def _(p):
        rt.heap_free(p)

    @nat('vp_kill')
    def _(p):
        p[0].alive = False

    N['vp_live'] = lambda: S.heap_live
    N['vp_is_alive'] = lambda p: 1 if type(p) is tuple and p[0] is not None and p[0].alive else 0
    N['vp_same_object'] = lambda p, q: 1 if type(p) is tuple and type(q) is tuple and p[0] is q[0] else 0

    @nat('vp_object_size')
    def _(p):
        return p[0].size

    N['vp_base'] = lambda p: (p[0], 0)

    @nat('vp_opaque')
    def _(p, n):
        o, off = p
        o.opq = (o.opq or []) + [(off, off + rt.conc(n), None)]

    @nat('vp_guard')
    def _(p, n, nm):
        """an access to the range is a violation of the obligation nm until vp_transparent"""
        o, off = p
        o.opq = (o.opq or []) + [(off, off + rt.conc(n), cstr(nm))]

    @nat('vp_transparent')
    def _(p):
        p[0].opq = None

    @nat('vp_is_opaque')
    def _(p):
        return 1 if type(p) is tuple and p[0] is not None and p[0].opq else 0

    @nat('vp_freeze')
    def _(p, n, nm):
        o, off = p
        n = rt.conc(n)
        o.frozen = (o.frozen or []) + [(off, off + n, cstr(nm))]

    @nat('vp_unfreeze')
    def _(p):
        p[0].frozen = None

    @nat('vp_gset')
    def _(p, slot, v):
        o = p[0]
        if o.ghost is None:
            o.ghost = {}
        o.ghost[(p[1], rt.conc(slot))] = v

    @nat('vp_gsetb')
    def _(p, slot, v):
        N['vp_gset'](p, slot, v)

    def gget(p, slot):
        if type(p) is not tuple or p[0] is None:
            raise Limit('ghost of a null object')
        g = p[0].ghost
        k = (p[1], rt.conc(slot))
        if g is None or k not in g:
            raise Limit('ghost field %s of %s not set' % (k, p[0].name))
        return g[k]
    N['vp_gget'] = gget
    N['vp_ggetb'] = gget
    N['vp_ggetp'] = gget
    N['vp_gsetp'] = N['vp_gset']

    @nat('vp_ghas')
    def _(p, slot):
        if type(p) is not tuple or p[0] is None or p[0].ghost is None:
            return 0
        return 1 if (p[1], rt.conc(slot)) in p[0].ghost else 0

    @nat('vp_note')
    def _(nm, v):
        S.notes.append((cstr(nm), v))

    @nat('vp_enable')
    def _(key, mode):
        k = cstr(key)
        keys = prog_ref[0].contract_keys
        if k.endswith('*'):
            ks = [x for x in keys if x.startswith(k[:-1])]
        else:
            ks = [k] if k in keys else []
        if not ks:
            raise Limit('unknown contract ' + k)
        for x in ks:
            if not keys[x] and not k.endswith('*'):
                S.notes_missing.add(x)
            S.enabled[x] = rt.conc(mode)

    @nat('vp_decline')
    def _():
        raise codegen.Decline()

    @nat('vp_disable')
    def _(key):
        S.enabled.pop(cstr(key), None)

    @nat('vp_env')
    def _(before, after):
        S.env = before[0].fn if before[0] is not None else None
        S.env_after = after[0].fn if after[0] is not None else None

    @nat('vp_limit')
    def _(nm):
        raise Limit(cstr(nm))

    @nat('vp_end')
    def _():
        raise EndPath()

    @nat('vp_cover')
    def _(nm):
        k = cstr(nm)
        if S.depth >= len(S.trail):
            rt.ensure_feasible()
            S.cover[k] = S.cover.get(k, 0) + 1

    @nat('vp_ghost_begin')
    def _():
        S.ghostmode += 1

    @nat('vp_ghost_end')
    def _():
        S.ghostmode -= 1

    # ---- C++ run-time
    def new(n):
        return rt.heap_alloc(n, 'new')
    N['_Znwm'] = new
    N['_Znam'] = new
    N['_ZnwmRKSt9nothrow_t'] = lambda n, t: rt.heap_alloc(n, 'new')
    N['_ZnwmSt11align_val_t'] = lambda n, a: rt.heap_alloc(n, 'new')
    @nat('vp_symbolic_sizes')
    def _(c):
        S.symsizes = c

    @nat('vp_malloc_fails')
    def _(c):
        S.malloc_fails = c

    @nat('malloc')
    def _(n):
        if S.malloc_fails and rt.br(rt.fresh_bool('malloc fails')):
            return NULL
        return rt.heap_alloc(n, 'malloc')
    N['free'] = lambda p: rt.heap_free(p)
    N['_ZdlPv'] = lambda p: rt.heap_free(p)
    N['_ZdaPv'] = lambda p: rt.heap_free(p)
    N['_ZdlPvm'] = lambda p, n: rt.heap_free(p, n)
    N['_ZdlPvmSt11align_val_t'] = lambda p, n, a: rt.heap_free(p, n)

    @nat('__assert_fail')
    def _(msg, file, line, fn):
        rt.violation('assert: ' + cstr(msg))

    @nat('__cxa_allocate_exception')
    def _(n):
        return (rt.Obj(n, 'exception', 'exception'), 0)

    @nat('__cxa_free_exception')
    def _(p):
        p[0].alive = False

    @nat('__cxa_throw')
    def _(p, ti, dtor):
        raise CxxThrow(p, ti[0].name, dtor)

    @nat('__cxa_begin_catch')
    def _(e):
        S.caught.append(e)
        return e.obj

    @nat('__cxa_end_catch')
    def _():
        e = S.caught.pop()

    @nat('__cxa_rethrow')
    def _():
        if not S.caught:
            rt.violation('control: rethrow outside a handler')
        raise S.caught[-1]

    @nat('__cxa_get_exception_ptr')
    def _(e):
        return e.obj

    @nat('__clang_call_terminate')
    def _(e):
        rt.violation('control: std::terminate')

    @nat('_ZSt9terminatev')
    def _():
        rt.violation('control: std::terminate')

    @nat('abort')
    def _():
        rt.violation('control: abort')

    @nat('__cxa_pure_virtual')
    def _():
        rt.violation('control: pure virtual call')

    @nat('__cxa_guard_acquire')
    def _(p):
        return 1 if rt.cell_read(p[0], p[1], 1) == 0 else 0

    @nat('__cxa_guard_release')
    def _(p):
        rt.cell_write(p[0], p[1], 1, 1)

    @nat('__cxa_guard_abort')
    def _(p):
        pass

    N['sched_yield'] = lambda: 0
    N['__cxa_atexit'] = lambda f, a, d: 0
    N['__cxa_thread_atexit'] = lambda f, a, d: 0

    def thrower(ti):
        def f(*a):
            raise CxxThrow((rt.Obj(16, 'exception', ti), 0), ti)
        return f
    N['_ZSt17__throw_bad_allocv'] = thrower('@_ZTISt9bad_alloc')
    N['_ZSt28__throw_bad_array_new_lengthv'] = thrower('@_ZTISt9bad_alloc')
    N['_ZSt20__throw_out_of_rangePKc'] = thrower('@_ZTISt12out_of_range')
    N['_ZSt24__throw_out_of_range_fmtPKcz'] = thrower('@_ZTISt12out_of_range')
    N['_ZSt20__throw_length_errorPKc'] = thrower('@_ZTISt12length_error')
    N['_ZSt19__throw_logic_errorPKc'] = thrower('@_ZTISt11logic_error')
    N['_ZNSt9bad_allocD1Ev'] = lambda p: None
    N['_ZNSt9bad_allocD2Ev'] = lambda p: None
    N['_ZNSt9exceptionD2Ev'] = lambda p: None
    for c in ('12out_of_range', '16invalid_argument', '11logic_error', '13runtime_error', '12length_error'):
        N['_ZNSt%sC1EPKc' % c] = lambda p, m: None
        N['_ZNSt%sD1Ev' % c] = lambda p: None
        N['_ZNSt%sD2Ev' % c] = lambda p: None

    # ---- memory
    N['memcpy'] = lambda d, s, n: (rt.memcpy(d, s, n), d)[1]
    N['memmove'] = lambda d, s, n: (rt.memcpy(d, s, n), d)[1]
    N['memset'] = lambda d, b, n: (rt.memset(d, b, n), d)[1]

    def memcmp(a, b, n):
        n = rt.conc(n)
        for i in range(n):
            x = rt.ld(rt.gep(a, i), 1)
            y = rt.ld(rt.gep(b, i), 1)
            if rt.br(rt.icmp('eq', 8, x, y)):
                continue
            return 0xffffffff if rt.br(rt.icmp('ult', 8, x, y)) else 1
        return 0
    N['memcmp'] = memcmp
    N['bcmp'] = memcmp

    N['llvm.eh.typeid.for.p0'] = N['llvm.eh.typeid.for'] = lambda p: codegen.typeid_no(prog_ref[0], p[0].name) if p[0] is not None else 1

    def star(name, dn):
        n = name[1:]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return lambda d, s, k, v=0: rt.memcpy(d, s, k)
        if n.startswith('llvm.memset'):
            return lambda d, b, k, v=0: rt.memset(d, b, k)
        p = n.split('.')
        if p[0] != 'llvm':
            return None
        w = int(p[-1][1:]) if p[-1][0] == 'i' and p[-1][1:].isdigit() else 64
        op = '.'.join(p[1:-1])
        if op == 'ctpop':
            return lambda a: rt.ctpop(a, w)
        if op == 'ctlz':
            return lambda a, z=0: rt.ctlz(a, w)
        if op == 'cttz':
            return lambda a, z=0: rt.cttz(a, w)
        if op in ('umax', 'umin', 'smax', 'smin'):
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op]

            def mm(a, b):
                return rt.select_w(rt.icmp(pred, w, a, b), a, b, w)
            return mm
        if op == 'expect':
            return lambda a, b: a
        if op == 'objectsize':
            return lambda *a: rt.M64
        if op in ('uadd.with.overflow', 'umul.with.overflow', 'usub.with.overflow'):
            def ov(a, b):
                if op[1:4] == 'add':
                    r = rt.binop('add', w, a, b)
                    return (r, rt.icmp('ult', w, r, a))
                if op[1:4] == 'sub':
                    return (rt.binop('sub', w, a, b), rt.icmp('ult', w, a, b))
                if type(a) is int and type(b) is int:
                    return ((a * b) & ((1 << w) - 1), int(a * b >> w != 0))
                r = rt.binop('mul', w, a, b)
                big = rt.binop('mul', 2 * w, rt.cast_zext(a, w, 2 * w), rt.cast_zext(b, w, 2 * w))
                return (r, rt.icmp('ne', 2 * w, big, rt.cast_zext(r, w, 2 * w)))
            return ov
        if op == 'usub.sat':
            return lambda a, b: rt.select_w(rt.icmp('ult', w, a, b), 0, rt.binop('sub', w, a, b), w)
        if n == 'llvm.trap':
            return lambda: rt.violation('control: trap')
        if op in ('stacksave', 'stackrestore') or n.startswith('llvm.stack'):
            return lambda *a: NULL
        if op == 'abs':
            def ab(a, z=0):
                return rt.select_w(rt.icmp('slt', w, a, 0), rt.binop('sub', w, 0, a), a, w)
            return ab
        if n.startswith('llvm.threadlocal.address'):
            return lambda p: p
        return None
    N['*'] = star
    return N
