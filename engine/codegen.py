"""LLVM IR function -> Python function (on the run-time of rt.py)."""
import re
import z3
import rt
from rt import (S, UNDEF, NULL, CxxThrow, Violation, Limit, EndPath, Obj)

M = {1: 1, 8: 255, 16: 65535, 32: (1 << 32) - 1, 64: (1 << 64) - 1}
IGNORED = ('@llvm.lifetime.', '@llvm.dbg.', '@llvm.experimental.noalias', '@llvm.assume', '@llvm.invariant',
           '@llvm.donothing', '@llvm.prefetch', '@llvm.var.annotation')


class Decline(Exception):
    """a contract does not apply to a call: the body runs"""


class Program:
    """one module + natives + contracts"""

    def __init__(self, mod, natives, demangled=None):
        self.mod = mod
        self.natives = natives
        self.compiled = {}
        self.src = {}
        self.contract_of = {}     # function name -> [(contract function, mode, key)]
        self.demangled = demangled or {}
        self.missing = set()
        self.no_inline = set()

    def dem(self, name):
        return self.demangled.get(name, name)

    # ---- calls
    def get(self, name):
        """callable for a function symbol"""
        c = self.compiled.get(name)
        if c is not None:
            return c
        n = self.natives.get(name[1:].strip('"'))
        if n is not None:
            self.compiled[name] = n
            return n
        f = self.mod.func(name)
        if f is None:
            dn = self.dem(name)
            h = self.natives.get('*')
            r = h(name, dn) if h else None
            if r is None:
                def r(*a, _n=dn):
                    raise Limit('call of a function without body: ' + _n)
            self.compiled[name] = r
            return r
        body = Gen(self, f).compile()
        cs = self.contract_of.get(name)
        if cs:
            fn = self.wrap_contract(name, body, cs)
        else:
            fn = body
        self.compiled[name] = fn
        return fn

    def wrap_contract(self, name, body, cs):
        prog = self

        def call(*args):
            n = S.stack.get(name, 0)
            if not S.in_env:
                for cname, mode, key in cs:
                    m = S.enabled.get(key)
                    if m is None:
                        continue
                    if m == 1 and n == 0:
                        continue            # verified here: the body runs once, recursion uses the contract
                    if S.inline_contract_depth == 0:
                        S.inline_contract_depth += 1
                        S.ghostmode += 1
                        try:
                            S.contracts_used[key] = S.contracts_used.get(key, 0) + 1
                            return prog.get(cname)(*args)
                        except Decline:
                            S.contracts_used[key] -= 1
                            continue
                        finally:
                            S.inline_contract_depth -= 1
                            S.ghostmode -= 1
            S.stack[name] = n + 1
            try:
                return body(*args)
            finally:
                S.stack[name] = n
        return call

    # ---- globals
    def glob(self, name):
        """pointer to a global or function"""
        p = S.globals.get(name)
        if p is not None:
            return p
        g = self.mod.global_def(name)
        if g is None:
            if name in self.mod.funcs or name in self.mod.decls or name in self.mod.aliases:
                o = Obj(0, 'func', name)
                o.fn = name
                p = (o, 0)
            else:
                o = Obj(1 << 20, 'extern', name)
                p = (o, 0)
            S.globals[name] = p
            return p
        const, ty, init, tls = g
        size = self.mod.size_align(ty)[0]
        o = Obj(size, 'global', name)
        p = (o, 0)
        S.globals[name] = p
        if init is not None:
            self.store_const(o, 0, ty, init)
        if const:
            o.frozen = [(0, size, 'the constant ' + self.dem(name))]
        return p

    def store_const(self, o, off, ty, v):
        mod = self.mod
        ty = mod.resolve(ty)
        k = v[0]
        if k == 'undef':
            return
        if k == 'zero':
            size = mod.size_align(ty)[0]
            if ty[0] in ('i', 'ptr'):
                o.cells[off] = (0 if ty[0] == 'i' else NULL, size)
                return
            if ty[0] == 'st':
                for i in range(len(ty[1])):
                    fo, ft = mod.field_offset(ty, i)
                    self.store_const(o, off + fo, ft, v)
                # padding is zero too
                return
            if ty[0] == 'arr':
                es = mod.size_align(ty[2])[0]
                for i in range(ty[1]):
                    self.store_const(o, off + i * es, ty[2], v)
                return
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (b, 1)
            return
        if k == 'agg':
            if ty[0] == 'st':
                for i, (et, ev) in enumerate(v[1]):
                    fo, ft = mod.field_offset(ty, i)
                    self.store_const(o, off + fo, ft, ev)
            else:
                es = mod.size_align(ty[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.store_const(o, off + i * es, ty[2], ev)
            return
        val = self.const(ty, v)
        o.cells[off] = (val, mod.size_align(ty)[0])

    def const(self, ty, v):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'glob':
            return self.glob(v[1])
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] == 'i':
                return 0
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'st':
                return tuple(self.const(e, v) for e in t[1])
            if t[0] == 'arr':
                return tuple(self.const(t[2], v) for _ in range(t[1]))
        if k == 'agg':
            return tuple(self.const(et, ev) for et, ev in v[1])
        if k == 'gep':
            _, bt, ops = v
            base = self.const(ops[0][0], ops[0][1])
            off = 0
            t = bt
            for i, (it, iv) in enumerate(ops[1:]):
                n = rt.sgn(self.const(it, iv), it[1])
                if i == 0:
                    off += n * self.mod.size_align(t)[0]
                else:
                    r = self.mod.resolve(t)
                    if r[0] == 'st':
                        fo, t = self.mod.field_offset(t, n)
                        off += fo
                    else:
                        t = r[2]
                        off += n * self.mod.size_align(t)[0]
            return rt.gep(base, off)
        if k == 'cast':
            _, op, ft, fv, tt = v
            x = self.const(ft, fv)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return x
            if op == 'trunc':
                return rt.cast_trunc(x, ft[1], tt[1])
            return rt.cast_zext(x, ft[1], tt[1])
        if k == 'cebin':
            return rt.binop(v[1], v[2][1], self.const(v[2], v[3]), self.const(v[2], v[4]))
        if k == 'ceicmp':
            return rt.icmp(v[1], v[2][1] if v[2][0] == 'i' else 0, self.const(v[2], v[3]), self.const(v[2], v[4]))
        raise Limit('constant ' + repr(v)[:80])


class Gen:
    def __init__(self, prog, f):
        self.prog = prog
        self.mod = prog.mod
        self.f = f
        self.names = {}
        self.out = []
        self.env = {}
        self.nk = 0

    def v(self, loc):
        n = self.names.get(loc)
        if n is None:
            n = self.names[loc] = 'v%d' % len(self.names)
        return n

    def k(self, obj):
        n = 'k%d' % self.nk
        self.nk += 1
        self.env[n] = obj
        return n

    def val(self, ty, v):
        k = v[0]
        if k == 'loc':
            return self.v(v[1])
        if k == 'int':
            return str(v[1])
        if k == 'null':
            return 'NULL'
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t[0] in ('st', 'arr'):
                return self.undef_agg(t)
            return 'UNDEF'
        if k == 'glob':
            return 'glob(%r)' % v[1]
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] == 'i':
                return '0'
            if t[0] == 'ptr':
                return 'NULL'
        return 'const(%s, %s)' % (self.k(ty), self.k(v))

    def undef_agg(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'st':
            return '(' + ''.join(self.undef_agg(e) + ',' for e in t[1]) + ')'
        if t[0] == 'arr':
            return '(' + ''.join(self.undef_agg(t[2]) + ',' for _ in range(t[1])) + ')'
        return 'UNDEF'

    def compile(self):
        f = self.f
        preds = {b: 0 for b in f.order}
        for b in f.order:
            for s in self.succs(f.blocks[b]):
                preds[s] += 1
        entry = f.order[0]
        preds[entry] += 1
        self.preds = preds
        # heads: blocks that are dispatched
        self.heads = [b for b in f.order if b == entry or preds[b] > 1]
        self.head_no = {b: i for i, b in enumerate(self.heads)}
        self.lines = []
        self.pending = []
        bodies = []
        i = 0
        while i < len(self.heads):
            self.lines = []
            self.emit_block(self.heads[i], 0, 0)
            bodies.append(self.lines)
            i += 1
        params = [self.v(n) for _, n, _ in f.params]
        src = ['def fn(%s%s):' % (', '.join(params), ', *va' if f.vararg else '')]
        src.append(' S.callstack.append(%r)' % f.name)
        src.append(' S.steps += 1')
        src.append(' S.funcs.add(%r)' % f.name)
        for (ty, n, byval) in f.params:
            if byval is not None:
                sz = self.mod.size_align(byval)[0]
                src.append(' _b = alloca(%d, "byval"); memcpy(_b, %s, %d); %s = _b' % (sz, self.v(n), sz, self.v(n)))
        src.append(' _locals = []')
        src.append(' bb = 0')
        src.append(' try:')
        if len(bodies) == 1 and not any('continue' in l for l in bodies[0]):
            src += ['  ' + l for l in bodies[0]]
        else:
            src.append('  while 1:')
            self.dispatch(src, bodies, 0, len(bodies), 3)
        src.append(' finally:')
        src.append('  S.callstack.pop()')
        src.append('  for _o in _locals: _o.alive = False')
        code = '\n'.join(src)
        env = {'S': S, 'UNDEF': UNDEF, 'NULL': NULL, 'CxxThrow': CxxThrow, 'rt': rt, 'glob': self.prog.glob,
               'const': self.prog.const, 'ld': rt.ld, 'st': rt.st, 'binop': rt.binop, 'icmp': rt.icmp,
               'br': rt.br, 'alloca': rt.alloca, 'memcpy': rt.memcpy, 'conc': rt.conc, 'gep': rt.gep,
               'scale': rt.scale, 'get': self.prog.get, 'prog': self.prog, 'tick': tick}
        env.update(self.env)
        try:
            exec(compile(code, f.name, 'exec'), env)
        except SyntaxError as e:
            raise Limit('codegen %s: %s\n%s' % (f.name, e, code))
        self.prog.src[f.name] = code
        return env['fn']

    def dispatch(self, src, bodies, lo, hi, ind):
        pad = ' ' * ind
        if hi - lo == 1:
            src += [pad + l for l in bodies[lo]]
            return
        if hi - lo <= 4:
            for i in range(lo, hi):
                kw = 'if' if i == lo else 'elif'
                if i == hi - 1:
                    src.append(pad + 'else:')
                else:
                    src.append(pad + '%s bb == %d:' % (kw, i))
                src += [pad + ' ' + l for l in bodies[i]]
            return
        mid = (lo + hi) // 2
        src.append(pad + 'if bb < %d:' % mid)
        self.dispatch(src, bodies, lo, mid, ind + 1)
        src.append(pad + 'else:')
        self.dispatch(src, bodies, mid, hi, ind + 1)

    def succs(self, insts):
        if not insts:
            return []
        t = insts[-1]
        k = t[0]
        if k == 'br':
            return [t[2]]
        if k == 'condbr':
            return [t[3], t[4]]
        if k == 'switch':
            return [t[4]] + [l for _, l in t[5]]
        if k == 'invoke':
            return [t[5], t[6]]
        return []

    def put(self, ind, s):
        self.lines.append(' ' * ind + s)

    def edge(self, frm, to, ind, depth):
        """transfer control along the edge"""
        phis = [i for i in self.f.blocks[to] if i[0] == 'phi']
        if phis:
            lhs, rhs = [], []
            for p in phis:
                for v, b in p[3]:
                    if b == frm:
                        lhs.append(self.v(p[1]))
                        rhs.append(self.val(p[2], v))
                        break
            if len(lhs) == 1:
                if lhs[0] != rhs[0]:
                    self.put(ind, '%s = %s' % (lhs[0], rhs[0]))
            else:
                self.put(ind, '%s = %s' % (', '.join(lhs), ', '.join(rhs)))
        if self.preds[to] == 1 and to not in self.head_no:
            if depth < 30:
                self.emit_block(to, ind, depth + 1)
                return
            self.head_no[to] = len(self.heads)
            self.heads.append(to)
        if self.head_no[to] <= self.cur_head:
            self.put(ind, 'tick()')
        self.put(ind, 'bb = %d; continue' % self.head_no[to])

    def emit_block(self, b, ind, depth):
        if depth == 0:
            self.cur_head = self.head_no[b]
        insts = self.f.blocks[b]
        for ins in insts:
            k = ins[0]
            if k == 'phi':
                continue
            getattr(self, 'i_' + k)(ins, b, ind, depth)

    # ---- instructions
    def asg(self, ind, res, e):
        if res is None:
            self.put(ind, e)
        else:
            self.put(ind, '%s = %s' % (self.v(res), e))

    def i_bin(self, ins, b, ind, depth):
        _, res, op, ty, x, y = ins
        t = self.mod.resolve(ty)
        if t[0] != 'i':
            return self.unsupported(ind, 'vector ' + op)
        w = t[1]
        a, c = self.val(ty, x), self.val(ty, y)
        r = self.v(res)
        if w in (32, 64, 8, 16) and op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            tests = []
            for q, s in ((x, a), (y, c)):
                if q[0] != 'int':
                    tests.append('type(%s) is int' % s)
            fast = '(%s %s %s)' % (a, sym, c)
            if op in ('add', 'sub', 'mul'):
                fast += ' & %d' % M[w]
            if tests:
                self.put(ind, '%s = %s if %s else binop(%r, %d, %s, %s)' % (r, fast, ' and '.join(tests), op, w, a, c))
            else:
                self.put(ind, '%s = %s' % (r, fast))
            return
        self.put(ind, '%s = binop(%r, %d, %s, %s)' % (r, op, w, a, c))

    def i_icmp(self, ins, b, ind, depth):
        _, res, pred, ty, x, y = ins
        t = self.mod.resolve(ty)
        a, c = self.val(ty, x), self.val(ty, y)
        r = self.v(res)
        if t[0] == 'ptr':
            if pred in ('eq', 'ne') and y[0] == 'null':
                self.put(ind, '%s = %d if type(%s) is tuple and %s[0] is not None else icmp(%r, 0, %s, NULL)' % (
                    r, 0 if pred == 'eq' else 1, a, a, pred, a))
            else:
                self.put(ind, '%s = icmp(%r, 0, %s, %s)' % (r, pred, a, c))
            return
        if t[0] != 'i':
            return self.unsupported(ind, 'icmp of ' + t[0])
        w = t[1]
        if pred[0] != 's':
            sym = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
            tests = ['type(%s) is int' % s for q, s in ((x, a), (y, c)) if q[0] != 'int']
            if tests:
                self.put(ind, '%s = (1 if %s %s %s else 0) if %s else icmp(%r, %d, %s, %s)' % (
                    r, a, sym, c, ' and '.join(tests), pred, w, a, c))
                return
        self.put(ind, '%s = icmp(%r, %d, %s, %s)' % (r, pred, w, a, c))

    def i_cast(self, ins, b, ind, depth):
        _, res, op, ft, x, tt = ins
        f, t = self.mod.resolve(ft), self.mod.resolve(tt)
        a = self.val(ft, x)
        r = self.v(res)
        if op in ('bitcast', 'addrspacecast'):
            self.put(ind, '%s = %s' % (r, a))
        elif op == 'ptrtoint':
            self.put(ind, '%s = 0 if %s == NULL else %s' % (r, a, a))
        elif op == 'inttoptr':
            self.put(ind, '%s = rt.addr_ptr(%s)' % (r, a))
        elif f[0] == 'i' and t[0] == 'i':
            if op == 'zext':
                self.put(ind, '%s = %s if type(%s) is int else rt.cast_zext(%s, %d, %d)' % (r, a, a, a, f[1], t[1]))
            elif op == 'trunc':
                self.put(ind, '%s = %s & %d if type(%s) is int else rt.cast_trunc(%s, %d, %d)' % (
                    r, a, (1 << t[1]) - 1, a, a, f[1], t[1]))
            else:
                self.put(ind, '%s = rt.cast_sext(%s, %d, %d)' % (r, a, f[1], t[1]))
        else:
            self.unsupported(ind, 'cast ' + op)

    def i_gep(self, ins, b, ind, depth):
        _, res, bt, ops = ins
        base = self.val(*ops[0])
        const = 0
        var = []
        t = bt
        for i, (it, iv) in enumerate(ops[1:]):
            if i == 0:
                es = self.mod.size_align(t)[0]
            else:
                r = self.mod.resolve(t)
                if r[0] == 'st':
                    fo, t = self.mod.field_offset(t, iv[1])
                    const += fo
                    continue
                t = r[2]
                es = self.mod.size_align(t)[0]
            if iv[0] == 'int':
                const += rt.sgn(iv[1], it[1]) * es
            else:
                var.append('scale(%s, %d, %d)' % (self.val(it, iv), it[1], es))
        r = self.v(res)
        if not var:
            if const == 0:
                self.put(ind, '%s = %s' % (r, base))
            else:
                self.put(ind, '%s = gep(%s, %d)' % (r, base, const))
            return
        e = var[0]
        for x in var[1:]:
            e = 'rt.addoff(%s, %s)' % (e, x)
        if const:
            e = 'rt.addoff(%s, %d)' % (e, const)
        self.put(ind, '%s = gep(%s, %s)' % (r, base, e))

    def load_expr(self, ty, p):
        t = self.mod.resolve(ty)
        if t[0] == 'i':
            if t[1] == 1:
                return 'rt.cast_trunc(ld(%s, 1), 8, 1)' % p
            if t[1] not in (8, 16, 32, 64):
                return 'rt.cast_trunc(ld(%s, %d), %d, %d)' % (p, self.mod.size_align(t)[0], self.mod.size_align(t)[0] * 8, t[1])
            return 'ld_int(%s, %d)' % (p, t[1] // 8) if t[1] == 64 else 'ld(%s, %d)' % (p, t[1] // 8)
        if t[0] == 'ptr':
            return 'ld_ptr(%s)' % p
        if t[0] == 'st':
            parts = []
            for i in range(len(t[1])):
                fo, ft = self.mod.field_offset(t, i)
                parts.append(self.load_expr(ft, 'gep(%s, %d)' % (p, fo)))
            return '(' + ''.join(x + ',' for x in parts) + ')'
        if t[0] == 'arr':
            es = self.mod.size_align(t[2])[0]
            return '(' + ''.join(self.load_expr(t[2], 'gep(%s, %d)' % (p, i * es)) + ',' for i in range(t[1])) + ')'
        return None

    def i_load(self, ins, b, ind, depth):
        _, res, ty, pv, order = ins
        self.env['ld_ptr'] = ld_ptr
        self.env['ld_int'] = ld_int
        p = self.val(('ptr',), pv)
        e = self.load_expr(ty, p)
        if e is None:
            return self.unsupported(ind, 'load of ' + repr(ty))
        if order:
            self.put(ind, 'rt_atomic("load", %s, %r, prog)' % (p, order))
            self.env['rt_atomic'] = atomic_hook
            self.env['rt_atomic_after'] = atomic_after
            self.put(ind, '%s = %s' % (self.v(res), e))
            self.put(ind, 'rt_atomic_after("load", %s, %r, %s, %s, prog)' % (p, order, self.v(res), self.v(res)))
            return
        self.put(ind, '%s = %s' % (self.v(res), e))

    def store_stmts(self, ty, v, p, ind):
        t = self.mod.resolve(ty)
        if t[0] == 'i':
            if t[1] == 1:
                self.put(ind, 'st(%s, 1, rt.cast_zext(%s, 1, 8))' % (p, v))
            else:
                self.put(ind, 'st(%s, %d, %s)' % (p, self.mod.size_align(t)[0], v))
            return True
        if t[0] == 'ptr':
            self.put(ind, 'st(%s, 8, %s)' % (p, v))
            return True
        if t[0] == 'st':
            for i in range(len(t[1])):
                fo, ft = self.mod.field_offset(t, i)
                self.store_stmts(ft, '%s[%d]' % (v, i), 'gep(%s, %d)' % (p, fo), ind)
            return True
        if t[0] == 'arr':
            es = self.mod.size_align(t[2])[0]
            for i in range(t[1]):
                self.store_stmts(t[2], '%s[%d]' % (v, i), 'gep(%s, %d)' % (p, i * es), ind)
            return True
        return False

    def i_store(self, ins, b, ind, depth):
        _, _, ty, v, pv, order = ins
        p = self.val(('ptr',), pv)
        x = self.val(ty, v)
        if order:
            self.env['rt_atomic'] = atomic_hook
            self.env['rt_atomic_after'] = atomic_after
            self.put(ind, 'rt_atomic("store", %s, %r, prog)' % (p, order))
        if not self.store_stmts(ty, x, p, ind):
            self.unsupported(ind, 'store of ' + repr(ty))
        if order:
            self.put(ind, 'rt_atomic_after("store", %s, %r, %s, %s, prog)' % (p, order, x, x))

    def i_alloca(self, ins, b, ind, depth):
        _, res, ty, n = ins
        sz = self.mod.size_align(ty)[0]
        r = self.v(res)
        if n == ('int', 1):
            self.put(ind, '%s = alloca(%d, %r); _locals.append(%s[0])' % (r, sz, res, r))
        else:
            self.put(ind, '%s = alloca(%d * conc(%s), %r); _locals.append(%s[0])' % (r, sz, self.val(('i', 64), n), res, r))

    def i_rmw(self, ins, b, ind, depth):
        _, res, op, ty, pv, v, order = ins
        self.env['rmw'] = rmw
        t = self.mod.resolve(ty)
        w = 64 if t[0] == 'ptr' else t[1]
        self.put(ind, '%s = rmw(%r, %s, %d, %s, %r, prog, %r)' % (
            self.v(res) if res else '_', op, self.val(('ptr',), pv), w, self.val(ty, v), order, t[0] == 'ptr'))

    def i_cmpxchg(self, ins, b, ind, depth):
        _, res, ty, pv, old, new, weak, o1, o2 = ins
        self.env['cmpxchg'] = cmpxchg
        t = self.mod.resolve(ty)
        w = 0 if t[0] == 'ptr' else t[1]
        self.put(ind, '%s = cmpxchg(%s, %d, %s, %s, %r, %r, %r, prog)' % (
            self.v(res), self.val(('ptr',), pv), w, self.val(ty, old), self.val(ty, new), weak, o1, o2))

    def i_fence(self, ins, b, ind, depth):
        self.env['rt_atomic'] = atomic_hook
        self.env['rt_atomic_after'] = atomic_after
        self.put(ind, 'rt_atomic("fence", NULL, %r, prog)' % ins[2])
        self.put(ind, 'rt_atomic_after("fence", NULL, %r, 0, 0, prog)' % ins[2])

    def i_select(self, ins, b, ind, depth):
        _, res, ty, c, x, y, ct = ins
        t = self.mod.resolve(ty)
        if self.mod.resolve(ct)[0] != 'i':
            return self.unsupported(ind, 'vector select')
        cs, a, d = self.val(('i', 1), c), self.val(ty, x), self.val(ty, y)
        if t[0] == 'i':
            self.put(ind, '%s = (%s if %s else %s) if type(%s) is int else rt.select_w(%s, %s, %s, %d)' % (
                self.v(res), a, cs, d, cs, cs, a, d, t[1]))
        else:
            self.put(ind, '%s = %s if br(%s) else %s' % (self.v(res), a, cs, d))

    def i_freeze(self, ins, b, ind, depth):
        _, res, ty, v = ins
        t = self.mod.resolve(ty)
        a = self.val(ty, v)
        if t[0] == 'i':
            self.put(ind, '%s = %s if %s is not UNDEF else rt.fresh_bv("freeze", %d)' % (self.v(res), a, a, t[1])
                     if t[1] != 1 else '%s = %s if %s is not UNDEF else rt.fresh_bool("freeze")' % (self.v(res), a, a))
        else:
            self.put(ind, '%s = %s' % (self.v(res), a))

    def i_extractvalue(self, ins, b, ind, depth):
        _, res, ty, v, idx = ins
        self.put(ind, '%s = %s%s' % (self.v(res), self.val(ty, v), ''.join('[%d]' % i for i in idx)))

    def i_insertvalue(self, ins, b, ind, depth):
        _, res, ty, v, e, idx = ins
        self.env['insv'] = insv
        self.put(ind, '%s = insv(%s, %r, %s)' % (self.v(res), self.val(ty, v), tuple(idx), self.val(('x',), e)
                                                 if e[0] in ('loc', 'int', 'null', 'glob') else 'UNDEF' if e[0] == 'undef' else '0'))

    def call_expr(self, callee, args, ind):
        if callee[0] == 'glob':
            n = callee[1]
            if any(n.startswith(p) for p in IGNORED):
                return None
            a = ', '.join(self.val(ty, v) for ty, v in args)
            nm = 'c%d' % self.nk
            self.nk += 1
            prog = self.prog
            self.env[nm] = Lazy(prog, n)
            return '%s.f(%s)' % (nm, a)
        a = ', '.join(self.val(ty, v) for ty, v in args)
        self.env['callptr'] = callptr
        return 'callptr(prog, %s%s)' % (self.val(('ptr',), callee), ', ' + a if a else '')

    def i_call(self, ins, b, ind, depth):
        _, res, rty, callee, args = ins
        e = self.call_expr(callee, args, ind)
        if e is None:
            return
        self.asg(ind, res, e)

    def i_invoke(self, ins, b, ind, depth):
        _, res, rty, callee, args, n, u = ins
        e = self.call_expr(callee, args, ind)
        lp = None
        for i in self.f.blocks[u]:
            if i[0] == 'landingpad':
                lp = i
                break
        if e is None:
            self.edge(b, n, ind, depth)
            return
        self.put(ind, 'try:')
        self.asg(ind + 1, res, e)
        self.put(ind + 1, '_t = 0')
        self.put(ind, 'except CxxThrow as _e:')
        self.env['lands'] = lands
        self.put(ind + 1, '_x = _e; _t = 1; _sel = lands(prog, _e, %s)' % self.k((lp[2], lp[3])))
        self.put(ind + 1, 'if _sel is None: raise')
        self.put(ind, 'if _t:')
        self.edge(b, u, ind + 1, depth)
        self.put(ind, 'else:')
        self.edge(b, n, ind + 1, depth)

    def i_landingpad(self, ins, b, ind, depth):
        self.put(ind, '%s = (_x, _sel)' % self.v(ins[1]))

    def i_resume(self, ins, b, ind, depth):
        self.put(ind, 'raise %s[0]' % self.val(('x',), ins[2]))

    def i_ret(self, ins, b, ind, depth):
        _, _, ty, v = ins
        self.put(ind, 'return' if v is None else 'return ' + self.val(ty, v))

    def i_br(self, ins, b, ind, depth):
        self.edge(b, ins[2], ind, depth)

    def i_condbr(self, ins, b, ind, depth):
        _, _, c, x, y = ins
        cs = self.val(('i', 1), c)
        self.put(ind, 'if (%s if type(%s) is int else br(%s)):' % (cs, cs, cs))
        self.edge(b, x, ind + 1, depth)
        self.put(ind, 'else:')
        self.edge(b, y, ind + 1, depth)

    def i_switch(self, ins, b, ind, depth):
        _, _, ty, v, d, cases = ins
        a = self.val(ty, v)
        w = ty[1]
        first = True
        for cv, l in cases:
            self.put(ind, '%s br(icmp("eq", %d, %s, %d)):' % ('if' if first else 'elif', w, a, cv))
            self.edge(b, l, ind + 1, depth)
            first = False
        if cases:
            self.put(ind, 'else:')
            self.edge(b, d, ind + 1, depth)
        else:
            self.edge(b, d, ind, depth)

    def i_unreachable(self, ins, b, ind, depth):
        self.put(ind, 'rt.violation("control: unreachable code reached")')

    def i_unsupported(self, ins, b, ind, depth):
        self.unsupported(ind, ins[2])

    def i_asm(self, ins, b, ind, depth):
        s = ins[2]
        if '""' in s or '"pause"' in s or '"rep; nop"' in s:
            return
        self.unsupported(ind, s)

    def unsupported(self, ind, what):
        self.put(ind, 'raise rt.Limit(%r)' % ('unsupported instruction: ' + what[:160]))


class Lazy:
    """callee resolved at its first call"""

    def __init__(self, prog, n):
        self.prog = prog
        self.n = n

    def __getattr__(self, a):
        if a != 'f':
            raise AttributeError(a)
        f = self.prog.get(self.n)
        self.f = f
        return f


MAX_STEPS = 400000


def tick():
    S.path_steps += 1
    if S.path_steps > S.opts.get('max_loop', 20000):
        raise Limit('loop bound of the tool reached')


def ld_ptr(p):
    v = rt.ld(p, 8)
    if type(v) is tuple:
        return v
    return rt.addr_ptr(v)


def ld_int(p, n):
    v = rt.ld(p, n)
    if type(v) is tuple and v[0] is None and v[1] == 0:
        return 0
    return v


def insv(agg, idx, e):
    if agg is UNDEF:
        agg = (UNDEF,) * (idx[0] + 2)
    i = idx[0]
    l = list(agg)
    if len(idx) == 1:
        l[i] = e
    else:
        l[i] = insv(l[i], idx[1:], e)
    return tuple(l)


def callptr(prog, p, *args):
    if p is UNDEF:
        rt.violation('mem: call through an indeterminate pointer')
    if type(p) is not tuple or p[0] is None:
        rt.violation('mem: call through a null or wild pointer')
    if p[0].fn is None:
        raise Limit('call through a data pointer')
    return prog.get(p[0].fn)(*args)


def atomic_hook(kind, p, order, prog):
    if S.env is not None and not S.in_env:
        S.in_env = True
        S.ghostmode += 1
        try:
            prog.get(S.env)(KINDS[kind], p, ORDERS.get(order, 0))
        finally:
            S.in_env = False
            S.ghostmode -= 1


def atomic_after(kind, p, order, old, new, prog):
    if S.env_after is not None and not S.in_env:
        S.in_env = True
        S.ghostmode += 1
        try:
            prog.get(S.env_after)(KINDS[kind], p, ORDERS.get(order, 0), as_u64(old), as_u64(new))
        finally:
            S.in_env = False
            S.ghostmode -= 1


def as_u64(v):
    if type(v) is tuple:
        return v if v[0] is not None else v[1]
    if type(v) is int or v is UNDEF:
        return v
    if isinstance(v, z3.BoolRef):
        return rt.cast_zext(v, 1, 64)
    if v.size() < 64:
        return z3.ZeroExt(64 - v.size(), v)
    return v


KINDS = {'load': 0, 'store': 1, 'rmw': 2, 'cmpxchg': 3, 'fence': 4}
ORDERS = {'unordered': 0, 'monotonic': 1, 'acquire': 2, 'release': 3, 'acq_rel': 4, 'seq_cst': 5}


def rmw(op, p, w, v, order, prog, isptr):
    atomic_hook('rmw', p, order, prog)
    old = ld_ptr(p) if isptr else rt.ld(p, w // 8)
    if op == 'xchg':
        new = v
    elif op in ('add', 'sub', 'and', 'or', 'xor'):
        new = rt.binop(op, w, old, v)
    else:
        raise Limit('atomicrmw ' + op)
    rt.st(p, w // 8, new)
    atomic_after('rmw', p, order, old, new, prog)
    return old


def cmpxchg(p, w, old, new, weak, o1, o2, prog):
    atomic_hook('cmpxchg', p, o1, prog)
    cur = ld_ptr(p) if w == 0 else rt.ld(p, w // 8)
    eq = rt.br(rt.icmp('eq', w, cur, old))
    if eq and weak and S.spurious < 2 and rt.br(rt.fresh_bool('spurious')):
        S.spurious += 1     # at most two spurious failures per path
        eq = 0
    if eq:
        rt.st(p, 8 if w == 0 else w // 8, new)
        atomic_after('cmpxchg', p, o1, cur, new, prog)
    else:
        atomic_after('load', p, o2, cur, cur, prog)
    return (cur, eq)


def lands(prog, ex, lp):
    """selector, or None when the exception passes this frame"""
    cleanup, clauses = lp
    for c in clauses:
        if c[0] == 'null':
            return 1
        if c[0] == 'filter':
            continue
        if c[0] == 'glob' and type_matches(prog, ex.ti, c[1]):
            return typeid_no(prog, c[1])
    return 0 if cleanup else None


def typeid_no(prog, n):
    t = getattr(prog, 'typeids', None)
    if t is None:
        t = prog.typeids = {}
    if n not in t:
        t[n] = len(t) + 2
    return t[n]


BASES = {
    '@_ZTISt9bad_alloc': ['@_ZTISt9exception'],
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
    '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt13runtime_error': ['@_ZTISt9exception'],
    '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'],
}


def type_matches(prog, ti, c):
    if ti == c:
        return True
    if c in BASES.get(ti, ()):
        return True
    g = prog.mod.global_def(ti)
    if g and g[2] and g[2][0] == 'agg':
        for et, ev in g[2][1][2:]:
            if ev[0] == 'glob' and type_matches(prog, ev[1], c):
                return True
    return False
