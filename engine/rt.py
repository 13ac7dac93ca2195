"""Run-time of the verification-condition generator: symbolic values, memory, path exploration.

A path of a harness is executed once; every branch on a symbolic condition is a decision which the
exploration later flips, so that after the last path the decisions form a complete case split of the
harness' input space.  Every obligation met on a path is the formula  (path condition => claim)  and is
given to the solver there and then.
"""
import sys
import time
import z3

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()
NULL = (None, 0)
BVRef = z3.BitVecRef
BoolRef = z3.BoolRef
M64 = (1 << 64) - 1


class Violation(Exception):
    """a failed obligation: ends the path"""


class Limit(Exception):
    """the tool cannot decide this path"""


class EndPath(Exception):
    """assumption false: nothing to check on this path"""


class Split(Exception):
    def __init__(self, n):
        self.n = n


class CxxThrow(Exception):
    def __init__(self, obj, ti, dtor=NULL):
        self.obj = obj
        self.ti = ti
        self.dtor = dtor


class Obj:
    __slots__ = ('id', 'size', 'cells', 'alive', 'kind', 'base', 'name', 'ghost', 'opq', 'frozen', 'fn')

    def __init__(self, size, kind, name):
        self.size = size
        self.kind = kind
        self.name = name
        self.cells = {}
        self.alive = True
        self.ghost = None
        self.opq = None
        self.frozen = None
        self.fn = None
        S.nobj += 1
        self.id = S.nobj
        self.base = S.next_addr
        if type(size) is int:
            S.next_addr += (size + 79) // 16 * 16
        else:
            S.next_addr += 1 << 32

    def __repr__(self):
        return '<%s#%d %s[%s]>' % (self.kind, self.id, self.name, self.size)


class State:
    pass


S = State()

SOLVER_TIMEOUT_MS = 20000


def init_task(fixed, split_depth, deadline, opts):
    """start the exploration of one harness (or one part of it)"""
    S.fixed = fixed
    S.split_depth = split_depth
    S.deadline = deadline
    S.opts = opts
    S.solver = z3.Solver()
    S.solver.set('timeout', opts.get('timeout_ms', SOLVER_TIMEOUT_MS))
    S.trail = []
    S.oblog = []
    S.obl = {}            # name -> [discharged, failed, undecided]
    S.failures = []
    S.limits = {}
    S.paths = 0
    S.done_paths = 0
    S.thrown_paths = 0
    S.queries = 0
    S.solver_s = 0.0
    S.slow = 0.0
    S.mem_checks = 0
    S.funcs = set()
    S.contracts_used = {}
    S.notes_missing = set()
    S.base_model = None
    S.cur_level_new = True
    S.steps = 0
    S.cover = {}
    S.const_globals = {}
    S.const_next_addr = 0x10000


def init_path():
    S.depth = 0
    S.obn = 0
    S.names = {}
    S.known = {}
    S.keep = []
    S.boolof = {}
    S.ncase = 0
    S.nobj = 0
    S.next_addr = 0x100000000
    S.globals = {}
    S.heap_live = 0
    S.heap_objs = {}
    S.enabled = {}
    S.stack = {}
    S.caught = []
    S.env = None
    S.spurious = 0
    S.symsizes = 0
    S.malloc_fails = 0
    S.env_after = None
    S.inputs = []
    S.notes = []
    S.callstack = []
    S.path_steps = 0
    S.in_env = False
    S.replaying = len(S.trail) > 0
    S.ghostmode = 0
    S.inline_contract_depth = 0
    S.case_vals = []
    S.tls = {}
    S.writes = None
    S.depth_calls = 0


# ---------------------------------------------------------------- solver
def check(*assum):
    t = time.time()
    S.queries += 1
    if t > S.deadline:
        raise Limit('time budget')
    r = S.solver.check(*assum)
    dt = time.time() - t
    S.solver_s += dt
    if dt > S.slow:
        S.slow = dt
    return r


def fresh_check(cond):
    """retry an undecided query on a fresh solver"""
    s = z3.SolverFor('QF_UFBV')
    s.set('timeout', S.opts.get('timeout_ms', SOLVER_TIMEOUT_MS) * 2)
    s.add(*S.solver.assertions())
    s.add(cond)
    t = time.time()
    S.queries += 1
    r = s.check()
    S.solver_s += time.time() - t
    return r, s


def get_model():
    m = S.base_model
    if m is None:
        r = check()
        if r == z3.sat:
            m = S.solver.model()
        elif r == z3.unsat:
            raise EndPath()
        else:
            raise Limit('solver undecided (path)')
        S.base_model = m
    return m


def add_constraint(c):
    """assume c on the present path (not replayed)"""
    S.solver.add(c)


def bool_known(c):
    """0/1 or None, without a solver call"""
    k = S.known.get(c.get_id())
    if k is not None:
        return k
    s = z3.simplify(c)
    if z3.is_true(s):
        return 1
    if z3.is_false(s):
        return 0
    return None


def remember(e, v):
    S.known[e.get_id()] = v
    S.keep.append(e)
    if isinstance(e, BoolRef) and not z3.is_not(e):
        n = z3.Not(e)
        S.known[n.get_id()] = 1 - v
        S.keep.append(n)


def same_decision(t, c):
    """a replayed decision is the one that was taken"""
    e = t[5]
    if (c is None) != (e is None) or c is not None and c.get_id() != e.get_id() and not c.eq(e):
        raise Limit('a path could not be replayed')


def br(c):
    """branch on a condition: 0 or 1"""
    if type(c) is int:
        return c & 1
    if c is UNDEF:
        violation('mem: branch on an indeterminate value')
    k = bool_known(c)
    if k is not None:
        return k
    d = S.depth
    S.depth = d + 1
    tr = S.trail
    if d < len(tr):
        v = tr[d][0]
        same_decision(tr[d], c)
        remember(c, v)
        return v
    S.replaying = False
    m = get_model()
    mv = m.eval(c, model_completion=True)
    v = 1 if z3.is_true(mv) else 0
    other = z3.Not(c) if v else c
    r = check(other)
    if r == z3.unsat:
        tr.append([v, None, False, None, None, c])
    else:
        om = None
        if r == z3.sat:
            om = S.solver.model()
        elif r != z3.sat:
            # keep both sides; an infeasible one only costs time
            pass
        S.solver.push()
        S.solver.add(c if v else z3.Not(c))
        tr.append([v, [1 - v], True, c, om, c])
    remember(c, v)
    return v


def conc(e, limit=None, what='value'):
    """fork over the concrete values of a bit-vector"""
    if type(e) is int:
        return e
    if e is UNDEF:
        violation('mem: use of an indeterminate value')
    if type(e) is tuple:
        return ptr_addr(e)
    if isinstance(e, BoolRef):
        return br(e)
    k = S.known.get(e.get_id())
    if k is not None:
        return k
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        v = s.as_long()
        remember(e, v)
        return v
    d = S.depth
    S.depth = d + 1
    tr = S.trail
    if d < len(tr):
        v = tr[d][0]
        same_decision(tr[d], e)
        remember(e, v)
        return v
    S.replaying = False
    limit = limit or S.opts.get('conc_limit', 40)
    m = get_model()
    v0 = m.eval(e, model_completion=True).as_long()
    vals = [v0]
    S.solver.push()
    try:
        S.solver.add(e != v0)
        while True:
            r = check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Limit('solver undecided (%s)' % what)
            v = S.solver.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Limit('too many values for a %s' % what)
            S.solver.add(e != v)
    finally:
        S.solver.pop()
    if len(vals) == 1:
        tr.append([v0, None, False, None, None, e])
    else:
        S.solver.push()
        S.solver.add(e == v0)
        tr.append([v0, vals[1:], True, e, None, e])
    remember(e, v0)
    return v0


def choose(n):
    """free choice among n alternatives (no constraint)"""
    d = S.depth
    S.depth = d + 1
    tr = S.trail
    if d < len(tr):
        same_decision(tr[d], None)
        return tr[d][0]
    S.replaying = False
    S.solver.push()
    tr.append([0, list(range(1, n)) or None, True, None, S.base_model, None])
    return 0


def backtrack():
    """to the next unexplored alternative; False when there is none"""
    tr = S.trail
    while tr:
        e = tr[-1]
        if e[1]:
            S.solver.pop()
            v = e[1].pop(0)
            if not e[1]:
                e[1] = None
            e[0] = v
            S.solver.push()
            c = e[3]
            if c is not None:
                if isinstance(c, BoolRef):
                    S.solver.add(c if v else z3.Not(c))
                else:
                    S.solver.add(c == v)
            S.base_model = e[4] if len(e) > 4 else None
            return True
        if e[2]:
            S.solver.pop()
        tr.pop()
    return False


def assume(c):
    if type(c) is int:
        if not c & 1:
            raise EndPath()
        return
    if c is UNDEF:
        raise Limit('assumption on an indeterminate value')
    k = bool_known(c)
    if k == 1:
        return
    if k == 0:
        raise EndPath()
    learn(c)
    remember(c, 1)
    if S.depth < len(S.trail):
        return          # asserted on an earlier path with the same prefix
    S.solver.add(c)
    m = S.base_model
    if m is not None and not z3.is_true(m.eval(c, model_completion=True)):
        S.base_model = None


def learn(c):
    """x == const gives the value of x where the same expression occurs again"""
    if z3.is_eq(c):
        a, b = c.arg(0), c.arg(1)
        if z3.is_bv_value(b):
            remember(a, b.as_long())
        elif z3.is_bv_value(a):
            remember(b, a.as_long())
    elif z3.is_and(c):
        for x in c.children():
            learn(x)
    elif z3.is_app(c) and c.num_args() == 0:
        remember(c, 1)


def ensure_feasible():
    get_model()


def where():
    cs = S.callstack
    return cs[-1] if cs else '?'


def obligation(name, c):
    """claim c on this path"""
    o = S.obl.get(name)
    if o is None:
        o = S.obl[name] = [0, 0, 0]
    if type(c) is int:
        if c & 1:
            if S.depth >= len(S.trail):
                o[0] += 1
            return
        ensure_feasible()
        o[1] += 1
        fail(name, None)
    if c is UNDEF:
        o[1] += 1
        ensure_feasible()
        fail(name + ' (indeterminate value)', None)
    # what is remembered decides later branches: a replay has to remember the same
    i = S.obn
    S.obn = i + 1
    if S.depth < len(S.trail):
        if S.oblog[i]:
            remember(c, 1)
        return          # decided on an earlier path with the same prefix
    del S.oblog[i:]
    S.oblog.append(False)
    k = bool_known(c)
    if k == 1:
        o[0] += 1
        return
    nc = z3.Not(c)
    r = check(nc)
    if r == z3.unknown:
        r, s2 = fresh_check(nc)
        if r == z3.sat:
            o[1] += 1
            fail(name, s2.model())
    if r == z3.unsat:
        o[0] += 1
        S.oblog[i] = True
        remember(c, 1)
        return
    if r == z3.sat:
        o[1] += 1
        fail(name, S.solver.model())
    o[2] += 1
    S.limits['undecided obligation ' + name] = S.limits.get('undecided obligation ' + name, 0) + 1


def fail(name, model):
    if model is None:
        model = get_model()
    inp = []
    for nm, sym in S.inputs:
        if type(sym) is int:
            inp.append((nm, sym))
        elif isinstance(sym, BoolRef):
            inp.append((nm, 1 if z3.is_true(model.eval(sym, model_completion=True)) else 0))
        else:
            inp.append((nm, model.eval(sym, model_completion=True).as_long()))
    notes = []
    for nm, v in S.notes:
        if type(v) is int:
            notes.append((nm, v))
        elif isinstance(v, BVRef):
            notes.append((nm, model.eval(v, model_completion=True).as_long()))
    S.failures.append({'obligation': name, 'cases': list(S.case_vals), 'inputs': inp, 'notes': notes,
                       'callstack': [demangle_cb(x) for x in S.callstack[-12:]]})
    raise Violation(name)


demangle_cb = str


def violation(name):
    """an implicit obligation is broken on this path"""
    ensure_feasible()
    o = S.obl.setdefault(name, [0, 0, 0])
    o[1] += 1
    fail(name, None)


# ---------------------------------------------------------------- symbols
def sym_name(nm):
    k = S.names.get(nm, 0)
    S.names[nm] = k + 1
    return nm if k == 0 else '%s#%d' % (nm, k)


_bvcache = {}


def fresh_bv(nm, w):
    n = sym_name(nm)
    key = (n, w)
    v = _bvcache.get(key)
    if v is None:
        v = _bvcache[key] = z3.BitVec(n, w)
    S.inputs.append((n, v))
    return v


def fresh_bool(nm):
    n = sym_name(nm)
    key = (n, 0)
    v = _bvcache.get(key)
    if v is None:
        v = _bvcache[key] = z3.Bool(n)
    S.inputs.append((n, v))
    return v


_ufs = {}


def uf(nm, args, w):
    f = _ufs.get((nm, len(args), w))
    if f is None:
        dom = [z3.BitVecSort(64)] * len(args)
        rng = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
        f = _ufs[(nm, len(args), w)] = z3.Function(nm, *dom, rng)
    return f(*[z3.BitVecVal(a, 64) if type(a) is int else a for a in args])


# ---------------------------------------------------------------- integers
def tobv(a, w):
    if type(a) is int:
        return z3.BitVecVal(a, w)
    if type(a) is tuple:
        if type(a[1]) is int:
            return z3.BitVecVal(ptr_addr(a), w)
        return a[1] + (a[0].base if a[0] is not None else 0)
    if isinstance(a, BoolRef):
        return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return a


def ptr_addr(p):
    o, off = p
    if o is None:
        return off & M64 if type(off) is int else off
    if type(off) is int:
        return (o.base + off) & M64
    return off + o.base


def addr_ptr(a):
    if type(a) is tuple:
        return a
    if a is UNDEF:
        return a
    if type(a) is int:
        if a == 0:
            return NULL
        for o in list(S.heap_objs.values()):
            if type(o.size) is int and o.base <= a <= o.base + o.size:
                return (o, a - o.base)
        return (None, a)
    return (None, a)


def norm(r, w):
    """constant-fold"""
    return r


def binop(op, w, a, b):
    if a is UNDEF or b is UNDEF:
        if op == 'and' and (a == 0 or b == 0):
            return 0
        return UNDEF
    ta, tb = type(a), type(b)
    if w == 1:
        return bool_binop(op, a, b)
    if ta is int and tb is int:
        return int_binop(op, w, a, b)
    if ta is tuple or tb is tuple:
        r = ptr_binop(op, a, b)
        if r is not None:
            return r
        if ta is tuple:
            a = ptr_addr(a)
        if tb is tuple:
            b = ptr_addr(b)
        return binop(op, w, a, b)
    if ta is int:
        if a == 0:
            if op in ('add', 'or', 'xor'):
                return b
            if op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
                return 0
        elif op == 'mul' and a == 1:
            return b
        a = z3.BitVecVal(a, w)
    elif tb is int:
        if b == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if op in ('and', 'mul'):
                return 0
        elif b == (1 << w) - 1 and op == 'and':
            return a
        elif b == 1 and op in ('mul', 'udiv'):
            return a
        b = z3.BitVecVal(b, w)
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = a & b
    elif op == 'or':
        r = a | b
    elif op == 'xor':
        r = a ^ b
    elif op == 'shl':
        r = a << b
    elif op == 'lshr':
        r = z3.LShR(a, b)
    elif op == 'ashr':
        r = a >> b
    elif op in ('udiv', 'urem', 'sdiv', 'srem'):
        if br(b == 0):
            violation('arith: division by zero')
        if op == 'udiv':
            r = z3.UDiv(a, b)
        elif op == 'urem':
            r = z3.URem(a, b)
        elif op == 'sdiv':
            r = a / b
        else:
            r = z3.SRem(a, b)
    else:
        raise Limit('binop ' + op)
    k = S.known.get(r.get_id())
    if k is not None:
        return k
    r2 = z3.simplify(r) if z3.is_bv_value(a) and z3.is_bv_value(b) else r
    if z3.is_bv_value(r2):
        return r2.as_long()
    return r


def int_binop(op, w, a, b):
    m = (1 << w) - 1
    if op == 'add':
        return (a + b) & m
    if op == 'sub':
        return (a - b) & m
    if op == 'mul':
        return (a * b) & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op in ('shl', 'lshr', 'ashr'):
        if b >= w:
            return UNDEF
        if op == 'shl':
            return (a << b) & m
        if op == 'lshr':
            return a >> b
        return (sgn(a, w) >> b) & m
    if b == 0:
        violation('arith: division by zero')
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = sgn(a, w), sgn(b, w)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    if op == 'sdiv':
        return q & m
    if op == 'srem':
        return (x - q * y) & m
    raise Limit('binop ' + op)


def sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def ptr_binop(op, a, b):
    if op == 'sub' and type(a) is tuple and type(b) is tuple and a[0] is b[0]:
        x, y = a[1], b[1]
        if type(x) is int and type(y) is int:
            return (x - y) & M64
        return tobv(x if type(x) is not int else x & M64, 64) - tobv(y if type(y) is not int else y & M64, 64)
    if op == 'add':
        if type(a) is tuple and type(b) is not tuple:
            return gep(a, b if type(b) is not int else sgn(b, 64))
        if type(b) is tuple and type(a) is not tuple:
            return gep(b, a if type(a) is not int else sgn(a, 64))
    if op == 'sub' and type(a) is tuple and type(b) is int:
        return gep(a, -sgn(b, 64))
    if op == 'and' and type(a) is tuple and type(b) is int:
        # alignment tests
        if a[0] is not None and b < 16 and type(a[1]) is int:
            return ptr_addr(a) & b
        if a[0] is not None and b & 15 == 0 and b >> 32 == 0xffffffff and type(a[1]) is int:
            return (a[0], a[1] & ~(~b & 0xf))
    return None


def bool_binop(op, a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op in ('xor', 'add', 'sub'):
            return a ^ b
        if op == 'mul':
            return a & b
        raise Limit('i1 ' + op)
    if ta is int:
        a, b, ta, tb = b, a, tb, ta
    if tb is int:
        if op == 'and':
            return a if b else 0
        if op == 'or':
            return 1 if b else a
        if op == 'xor':
            return mknot(a) if b else a
        raise Limit('i1 ' + op)
    if op == 'and':
        return z3.And(a, b)
    if op == 'or':
        return z3.Or(a, b)
    if op == 'xor':
        return z3.Xor(a, b)
    raise Limit('i1 ' + op)


def mknot(c):
    if type(c) is int:
        return 1 - c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def icmp(pred, w, a, b):
    """w: width; pointers have w == 0"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ta, tb = type(a), type(b)
    if ta is tuple or tb is tuple:
        return ptr_icmp(pred, a, b)
    if w == 1:
        a1, b1 = a, b
        if pred == 'eq':
            return mknot(bool_binop('xor', a1, b1))
        if pred == 'ne':
            return bool_binop('xor', a1, b1)
        if pred == 'ult':
            return bool_binop('and', mknot(a1), b1)
        if pred == 'ugt':
            return bool_binop('and', a1, mknot(b1))
        raise Limit('icmp i1 ' + pred)
    if ta is int and tb is int:
        if pred == 'eq':
            return 1 if a == b else 0
        if pred == 'ne':
            return 1 if a != b else 0
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        if p == 'lt':
            return 1 if a < b else 0
        if p == 'le':
            return 1 if a <= b else 0
        if p == 'gt':
            return 1 if a > b else 0
        return 1 if a >= b else 0
    if (tb is int and b == 0) or (ta is int and a == 0):
        x = a if tb is int else b
        if pred in ('eq', 'ne'):
            bo = S.boolof.get(x.get_id())
            if bo is not None:
                return bo if pred == 'ne' else mknot(bo)
    if pred == 'eq':
        if ta is int:
            a, b = b, a
        return a == b
    if pred == 'ne':
        if ta is int:
            a, b = b, a
        return mknot(a == b)
    a = tobv(a, w)
    b = tobv(b, w)
    if pred == 'ult':
        return z3.ULT(a, b)
    if pred == 'ule':
        return z3.ULE(a, b)
    if pred == 'ugt':
        return z3.UGT(a, b)
    if pred == 'uge':
        return z3.UGE(a, b)
    if pred == 'slt':
        return a < b
    if pred == 'sle':
        return a <= b
    if pred == 'sgt':
        return a > b
    return a >= b


def ptr_icmp(pred, a, b):
    if type(a) is not tuple:
        a = addr_ptr(a)
    if type(b) is not tuple:
        b = addr_ptr(b)
    oa, fa = a
    ob, fb = b
    if pred in ('eq', 'ne'):
        if oa is ob:
            if type(fa) is int and type(fb) is int:
                r = 1 if fa == fb else 0
            else:
                r = tobv(fa if type(fa) is not int else fa & M64, 64) == tobv(fb if type(fb) is not int else fb & M64, 64)
        else:
            r = 0
        return r if pred == 'eq' else mknot(r)
    if oa is ob:
        if type(fa) is int and type(fb) is int:
            x, y = fa, fb
            p = pred[1:]
            return int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        x = tobv(fa if type(fa) is not int else fa & M64, 64)
        y = tobv(fb if type(fb) is not int else fb & M64, 64)
        return icmp('s' + pred[1:], 64, x, y)
    return icmp('u' + pred[1:], 64, ptr_addr(a), ptr_addr(b))


def cast_zext(a, fw, tw):
    if type(a) is int or a is UNDEF:
        return a
    if fw == 1:
        r = z3.If(a, z3.BitVecVal(1, tw), z3.BitVecVal(0, tw))
        S.boolof[r.get_id()] = a
        S.keep.append(r)
        return r
    if type(a) is tuple:
        raise Limit('zext of a pointer')
    r = z3.ZeroExt(tw - fw, a)
    bo = S.boolof.get(a.get_id())
    if bo is not None:
        S.boolof[r.get_id()] = bo
        S.keep.append(r)
    k = S.known.get(a.get_id())
    if k is not None:
        return k
    return r


def cast_sext(a, fw, tw):
    if a is UNDEF:
        return a
    if type(a) is int:
        return sgn(a, fw) & ((1 << tw) - 1)
    if fw == 1:
        return z3.If(a, z3.BitVecVal((1 << tw) - 1, tw), z3.BitVecVal(0, tw))
    if type(a) is tuple:
        raise Limit('sext of a pointer')
    return z3.SignExt(tw - fw, a)


def cast_trunc(a, fw, tw):
    if a is UNDEF:
        return a
    if type(a) is tuple:
        a = ptr_addr(a)
    if type(a) is int:
        return a & ((1 << tw) - 1)
    bo = S.boolof.get(a.get_id())
    if tw == 1:
        if bo is not None:
            return bo
        return z3.Extract(0, 0, a) == 1
    r = z3.Extract(tw - 1, 0, a)
    if bo is not None:
        S.boolof[r.get_id()] = bo
        S.keep.append(r)
    k = S.known.get(r.get_id())
    if k is not None:
        return k
    return r


def select(c, a, b):
    if type(c) is int:
        return a if c & 1 else b
    if c is UNDEF:
        violation('mem: select on an indeterminate value')
    k = bool_known(c)
    if k is not None:
        return a if k else b
    ta, tb = type(a), type(b)
    if ta is int and tb is int and a == b:
        return a
    if ta is tuple or tb is tuple or a is UNDEF or b is UNDEF:
        return a if br(c) else b
    if isinstance(a, BoolRef) or isinstance(b, BoolRef):
        return z3.If(c, a if ta is not int else z3.BoolVal(bool(a)), b if tb is not int else z3.BoolVal(bool(b)))
    if ta is int and tb is int:
        return None     # caller supplies the width
    w = (a if ta is not int else b).size()
    return z3.If(c, tobv(a, w), tobv(b, w))


def select_w(c, a, b, w):
    r = select(c, a, b)
    if r is None:
        if w == 1:
            return c if a else mknot(c)
        r = z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        if b == 0 and a == 1:
            S.boolof[r.get_id()] = c
            S.keep.append(r)
    return r


def gep(p, off):
    if p is UNDEF:
        return UNDEF
    if off is UNDEF:
        return UNDEF
    if type(p) is not tuple:
        p = addr_ptr(p)
    o, f = p
    if type(off) is int and type(f) is int:
        return (o, f + off)
    x = tobv(off if type(off) is not int else off & M64, 64) + tobv(f if type(f) is not int else f & M64, 64)
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return (o, sgn(x.as_long(), 64))
    return (o, x)


def scale(i, w, k):
    """sign-extended index times element size"""
    if i is UNDEF:
        return UNDEF
    if type(i) is int:
        return sgn(i, w) * k
    if type(i) is tuple:
        i = ptr_addr(i)
        return i * k
    if w < 64:
        i = z3.SignExt(64 - w, i)
    if k == 1:
        return i
    return i * k


def addoff(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return tobv(a if type(a) is not int else a & M64, 64) + tobv(b if type(b) is not int else b & M64, 64)


# ---------------------------------------------------------------- memory
def deref(p, n, write):
    """(obj, concrete offset) of a valid access of n bytes"""
    if p is UNDEF:
        violation('mem: dereference of an indeterminate pointer')
    if type(p) is not tuple:
        p = addr_ptr(p)
    o, off = p
    if o is None:
        violation('mem: null or wild pointer dereference')
    if type(off) is not int:
        sz = o.size
        if type(sz) is int:
            ok = z3.And(z3.ULE(off, sz - n if sz >= n else 0), z3.BoolVal(sz >= n))
            if not br(ok):
                violation('mem: access out of bounds of a %s object' % o.kind)
        off = sgn(conc(off, what='symbolic address'), 64)
    if not o.alive:
        violation('mem: access to a freed %s object' % o.kind)
    if type(o.size) is int:
        if off < 0 or off + n > o.size:
            violation('mem: access out of bounds of a %s object' % o.kind)
    elif n:
        ok = z3.And(z3.UGE(o.size, off + n))
        if off < 0 or not br(ok):
            violation('mem: access out of bounds of a %s object' % o.kind)
    if o.opq and S.ghostmode == 0:
        for a, b, nm in o.opq:
            if off < b and off + n > a:
                if nm is not None:
                    violation(nm)
                raise Limit('access to the interior of an abstracted object (%s)' % o.name)
    if write and o.frozen:
        for a, b, nm in o.frozen:
            if off < b and off + n > a:
                violation('frame: write to ' + nm)
    return o, off


def ld(p, n):
    """load n bytes (value of any kind)"""
    if type(p) is tuple:
        o, off = p
        if o is not None and type(off) is int and o.alive and o.opq is None:
            c = o.cells.get(off)
            if c is not None and c[1] == n:
                S.mem_checks += 1
                return c[0]
    return ld_slow(p, n)


def ld_slow(p, n):
    o, off = deref(p, n, False)
    S.mem_checks += 1
    return cell_read(o, off, n)


def cell_read(o, off, n):
    c = o.cells.get(off)
    if c is not None and c[1] == n:
        return c[0]
    # assemble from bytes
    parts = []
    any_undef = False
    for i in range(n):
        b = byte_at(o, off + i)
        if b is UNDEF:
            any_undef = True
        parts.append(b)
    if any_undef:
        if all(x is UNDEF for x in parts):
            return UNDEF
        return UNDEF
    if any(type(x) is tuple for x in parts):
        raise Limit('partial access to a stored pointer')
    if all(type(x) is int for x in parts):
        v = 0
        for i, x in enumerate(parts):
            v |= x << (8 * i)
        return v
    return z3.simplify(z3.Concat(*[tobv(x, 8) for x in reversed(parts)])) if n > 1 else parts[0]


def byte_at(o, off):
    for k in range(0, 16):
        c = o.cells.get(off - k)
        if c is not None:
            if c[1] > k:
                v, w = c
                if v is UNDEF:
                    return UNDEF
                if type(v) is int:
                    return (v >> (8 * k)) & 255
                if type(v) is tuple:
                    if v[0] is None and v[1] == 0:
                        return 0
                    if w == 1:
                        return v
                    a = ptr_addr(v)
                    if type(a) is int:
                        return (a >> (8 * k)) & 255
                    return v
                if isinstance(v, BoolRef):
                    v = tobv(v, 8 * w)
                return z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)) if w > 1 else v
            return UNDEF if k else UNDEF
    return UNDEF


def st(p, n, v):
    if type(p) is tuple:
        o, off = p
        if o is not None and type(off) is int and o.alive and o.frozen is None and o.opq is None:
            c = o.cells.get(off)
            if c is not None and c[1] == n:
                S.mem_checks += 1
                o.cells[off] = (v, n)
                return
    o, off = deref(p, n, True)
    S.mem_checks += 1
    cell_write(o, off, n, v)


def cell_write(o, off, n, v):
    cells = o.cells
    c = cells.get(off)
    if c is not None and c[1] == n:
        cells[off] = (v, n)
        return
    clear_range(o, off, n)
    cells[off] = (v, n)


def clear_range(o, off, n):
    """drop the cells in [off, off+n), keeping the bytes of partial overlaps"""
    cells = o.cells
    if not cells:
        return
    if n > 64:
        todo = [k for k, c in cells.items() if k < off + n and k + c[1] > off]
    else:
        todo = [k for k in range(off - 15, off + n) if k in cells and k + cells[k][1] > off]
    for k in todo:
        v, w = cells[k]
        if k < off or k + w > off + n:
            keep = []
            for i in range(w):
                if not (off <= k + i < off + n):
                    keep.append((k + i, byte_at(o, k + i)))
            del cells[k]
            for kk, b in keep:
                if b is not UNDEF:
                    cells[kk] = (b, 1)
        else:
            del cells[k]


def memcpy(d, s, n):
    n = conc(n, what='memcpy length')
    if n == 0:
        return
    so, soff = deref(s, n, False)
    do, doff = deref(d, n, True)
    S.mem_checks += 2
    items = []
    lo = soff
    # whole cells, bytes at the borders
    covered = []
    for k in range(soff - 15, soff + n):
        c = so.cells.get(k)
        if c is None:
            continue
        v, w = c
        if k + w <= soff:
            continue
        if k >= soff and k + w <= soff + n:
            items.append((k - soff, v, w))
        else:
            for i in range(w):
                if soff <= k + i < soff + n:
                    items.append((k + i - soff, byte_at(so, k + i), 1))
    clear_range(do, doff, n)
    for k, v, w in items:
        do.cells[doff + k] = (v, w)


def memset(d, b, n):
    n = conc(n, what='memset length')
    if n == 0:
        return
    o, off = deref(d, n, True)
    S.mem_checks += 1
    clear_range(o, off, n)
    if type(b) is not int:
        for i in range(n):
            o.cells[off + i] = (b, 1)
        return
    i = 0
    w8 = int.from_bytes(bytes([b & 255]) * 8, 'little')
    while i + 8 <= n and (off + i) % 8 == 0:
        o.cells[off + i] = (w8, 8)
        i += 8
    while i < n:
        o.cells[off + i] = (b & 255, 1)
        i += 1


def alloca(size, name):
    o = Obj(size, 'stack', name)
    return (o, 0)


def heap_alloc(size, name='heap'):
    if type(size) is not int:
        if S.symsizes:
            o = Obj(size, 'heap', name)
            S.heap_objs[o.id] = o
            S.heap_live += 1
            return (o, 0)
        size = conc(size, what='allocation size')
    if size > 1 << 40:
        raise Limit('huge allocation')
    o = Obj(size, 'heap', name)
    S.heap_objs[o.id] = o
    S.heap_live += 1
    return (o, 0)


def heap_free(p, size=None):
    if type(p) is not tuple:
        p = addr_ptr(p)
    if p is UNDEF:
        violation('mem: free of an indeterminate pointer')
    o, off = p
    if o is None:
        if off == 0:
            return
        violation('mem: free of a wild pointer')
    if type(off) is not int:
        off = sgn(conc(off), 64)
    if o.kind != 'heap' or off != 0:
        violation('mem: free of a pointer that was not allocated')
    if not o.alive:
        violation('mem: double free')
    if size is not None:
        obligation('mem: deallocation size equals allocation size',
                   icmp('eq', 64, size, o.size))
    o.alive = False
    S.heap_live -= 1
    S.heap_objs.pop(o.id, None)


# ---------------------------------------------------------------- misc bit operations
def ctpop(a, w):
    if a is UNDEF:
        return UNDEF
    if type(a) is int:
        return bin(a).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r


def ctlz(a, w):
    if a is UNDEF:
        return UNDEF
    if type(a) is int:
        return w - a.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def cttz(a, w):
    if a is UNDEF:
        return UNDEF
    if type(a) is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
    return r
