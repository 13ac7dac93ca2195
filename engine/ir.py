"""Reader for textual LLVM 18 IR (opaque pointers), as written by clang/opt on x86-64."""
import re

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
  | (?P<punct>\.\.\.|[(){}\[\]<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("token? " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        out.append((k, t))
    return out


PARAM_WORDS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'allocptr', 'noext',
               'dead_on_unwind', 'writable', 'allocalign', 'inalloca', 'swifterror'}
PARAM_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'captures', 'range',
               'elementtype', 'preallocated', 'initializes', 'nofpclass'}
CALL_WORDS = {'tail', 'musttail', 'notail', 'fastcc', 'coldcc', 'ccc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
              'afn', 'reassoc', 'fast'}


class P:
    """Token stream."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise IRError("expected %r at %r in %r" % (s, self.t[self.i:self.i + 4], self.t[:8]))

    def skip_parens(self):
        self.exp('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # ---- types
    def type(self):
        k, t = self.t[self.i]
        self.i += 1
        if k == 'word':
            if t[0] == 'i' and t[1:].isdigit():
                r = ('i', int(t[1:]))
            elif t == 'ptr':
                r = ('ptr',)
            elif t == 'void':
                r = ('void',)
            elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
                r = ('fp', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}[t])
            elif t in ('label', 'metadata', 'token', 'opaque'):
                r = (t,)
            else:
                raise IRError("type? " + t)
        elif k == 'loc':
            r = self.m.named(t)
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('st', self._tlist('}'), False)
        elif t == '<':
            if self.acc('{'):
                l = self._tlist('}')
                self.exp('>')
                r = ('st', l, True)
            else:
                n = int(self.next())
                self.exp('x')
                e = self.type()
                self.exp('>')
                r = ('vec', n, e)
        else:
            raise IRError("type? " + t)
        if r[0] == 'ptr' and self.peek() == 'addrspace':
            self.next()
            self.skip_parens()
        return r

    def _tlist(self, end):
        l = []
        if self.acc(end):
            return tuple(l)
        while True:
            l.append(self.type())
            if self.acc(end):
                return tuple(l)
            self.exp(',')

    def fntype_opt(self):
        """after a return type in a call: optional '(args...)' function type"""
        if self.peek() == '(':
            self.skip_parens()

    # ---- values
    def value(self, ty):
        k, t = self.t[self.i]
        if k == 'loc':
            self.i += 1
            return ('loc', t)
        if k == 'glob':
            self.i += 1
            return ('glob', t)
        if k == 'num':
            self.i += 1
            if ty[0] == 'fp':
                return ('fp', t)
            v = int(t)
            return ('int', v & ((1 << ty[1]) - 1))
        if k == 'str':
            self.i += 1
            return ('bytes', unescape(t))
        if t == 'true':
            self.i += 1
            return ('int', 1)
        if t == 'false':
            self.i += 1
            return ('int', 0)
        if t == 'null':
            self.i += 1
            return ('null',)
        if t in ('undef', 'poison'):
            self.i += 1
            return ('undef',)
        if t == 'zeroinitializer':
            self.i += 1
            return ('zero',)
        if t in ('none',):
            self.i += 1
            return ('undef',)
        if t == '{' or t == '[' or t == '<':
            self.i += 1
            if t == '<' and self.peek() == '{':
                self.i += 1
                r = self._vlist('}')
                self.exp('>')
                return ('agg', r)
            return ('agg', self._vlist({'{': '}', '[': ']', '<': '>'}[t]))
        if t == 'getelementptr':
            self.i += 1
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.i += 1
            if self.peek() == 'inrange':
                self.i += 1
                self.skip_parens()
            self.exp('(')
            bt = self.type()
            self.exp(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.i += 1
                    if self.peek() == '(':
                        self.skip_parens()
                et = self.type()
                ops.append((et, self.value(et)))
                if self.acc(')'):
                    break
                self.exp(',')
            return ('gep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.i += 1
            self.exp('(')
            ft = self.type()
            v = self.value(ft)
            self.exp('to')
            tt = self.type()
            self.exp(')')
            return ('cast', t, ft, v, tt)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.i += 1
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.i += 1
            self.exp('(')
            t1 = self.type()
            a = self.value(t1)
            self.exp(',')
            t2 = self.type()
            b = self.value(t2)
            self.exp(')')
            return ('cebin', t, t1, a, b)
        if t == 'icmp':
            self.i += 1
            pred = self.next()
            self.exp('(')
            t1 = self.type()
            a = self.value(t1)
            self.exp(',')
            t2 = self.type()
            b = self.value(t2)
            self.exp(')')
            return ('ceicmp', pred, t1, a, b)
        if t in ('dso_local_equivalent', 'no_cfi'):
            self.i += 1
            return self.value(ty)
        raise IRError("value? %s %s" % (k, t))

    def _vlist(self, end):
        l = []
        if self.acc(end):
            return l
        while True:
            ty = self.type()
            l.append((ty, self.value(ty)))
            if self.acc(end):
                return l
            self.exp(',')

    def tv(self):
        ty = self.type()
        self.param_attrs()
        return ty, self.value(ty)

    def param_attrs(self):
        at = {}
        while self.i < len(self.t):
            k, t = self.t[self.i]
            if k != 'word':
                break
            if t in PARAM_WORDS:
                self.i += 1
            elif t in PARAM_PAREN:
                self.i += 1
                self.skip_parens()
            elif t == 'align':
                self.i += 1
                if self.acc('('):
                    self.next()
                    self.exp(')')
                else:
                    self.next()
            else:
                break
        return at


def unescape(s):
    assert s.startswith('c"')
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'header', 'lines', 'parsed', 'params', 'ret', 'vararg', 'blocks', 'order', 'line0')


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.typedefs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.global_lines = {}
        self._layout = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                f = Func()
                f.name = m.group(1)
                f.header = l
                f.lines = lines[i + 1:j]
                f.parsed = False
                f.line0 = i
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                self.decls[m.group(1)] = l
            elif l.startswith('%'):
                name, _, rest = l.partition(' = type ')
                self.typedefs[name] = rest
            elif l.startswith('@'):
                name = l.split(' = ', 1)[0]
                rest = l.split(' = ', 1)[1]
                if re.search(r'\balias\b', rest.split('@')[0]):
                    self.aliases[name] = rest
                else:
                    self.global_lines[name] = rest
            i += 1

    def named(self, n):
        return ('named', n)

    def resolve(self, ty):
        while ty[0] == 'named':
            n = ty[1]
            t = self.types.get(n)
            if t is None:
                d = self.typedefs[n]
                if d.strip() == 'opaque':
                    t = ('st', (), False)
                else:
                    t = P(tokenize(d), self).type()
                self.types[n] = t
            ty = t
        return ty

    def size_align(self, ty):
        r = self._layout.get(ty)
        if r is None:
            r = self._size_align(ty)
            self._layout[ty] = r
        return r

    def _size_align(self, ty):
        k = ty[0]
        if k == 'named':
            return self.size_align(self.resolve(ty))
        if k == 'i':
            n = ty[1]
            b = (n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return ((b + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'fp':
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[ty[1]]
        if k == 'arr':
            s, a = self.size_align(ty[2])
            return (s * ty[1], a)
        if k == 'vec':
            s, a = self.size_align(ty[2])
            return (s * ty[1], s * ty[1])
        if k == 'st':
            off, al = 0, 1
            for e in ty[1]:
                s, a = self.size_align(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise IRError("size of " + repr(ty))

    def field_offset(self, ty, idx):
        ty = self.resolve(ty)
        off = 0
        for i, e in enumerate(ty[1]):
            s, a = self.size_align(e)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, e
            off += s
        raise IRError("field")

    # ---- globals
    GLOBAL_SKIP = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'appending',
                   'common', 'available_externally', 'extern_weak', 'dso_local', 'dso_preemptable', 'hidden',
                   'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'externally_initialized'}

    def global_def(self, name):
        """(is_const, type, init or None, thread_local)"""
        g = self.globals.get(name)
        if g is not None:
            return g
        line = self.global_lines.get(name)
        if line is None:
            return None
        p = P(tokenize(line), self)
        tls = False
        external = False
        while True:
            t = p.peek()
            if t in self.GLOBAL_SKIP:
                if t == 'external':
                    external = True
                p.next()
            elif t == 'thread_local':
                tls = True
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            elif t == 'addrspace':
                p.next()
                p.skip_parens()
            else:
                break
        const = p.next() == 'constant'
        ty = p.type()
        init = None
        if p.peek() is not None and p.peek() != ',' and not external:
            init = p.value(ty)
        g = (const, ty, init, tls)
        self.globals[name] = g
        return g

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            a = self.aliases.get(name)
            if a:
                tgt = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', a)[-1]
                return self.func(tgt)
            return None
        if not f.parsed:
            self.parse_func(f)
        return f

    HDR_SKIP = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'external', 'dso_local',
                'hidden', 'protected', 'default', 'fastcc', 'coldcc', 'ccc', 'available_externally', 'noundef',
                'nonnull', 'signext', 'zeroext', 'noalias', 'unnamed_addr', 'define'}

    def parse_func(self, f):
        toks = tokenize(f.header)
        p = P(toks, self)
        while True:
            t = p.peek()
            if t in self.HDR_SKIP:
                p.next()
            elif t in PARAM_PAREN:
                p.next()
                p.skip_parens()
            elif t == 'align':
                p.next()
                p.next()
            else:
                break
        f.ret = p.type()
        p.next()  # name
        p.exp('(')
        params = []
        f.vararg = False
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    f.vararg = True
                    p.exp(')')
                    break
                ty = p.type()
                byval = None
                # byval needs a copy
                save = p.i
                while p.kind() == 'word':
                    if p.peek() == 'byval':
                        p.next()
                        p.exp('(')
                        byval = p.type()
                        p.exp(')')
                    elif p.peek() in PARAM_WORDS:
                        p.next()
                    elif p.peek() in PARAM_PAREN:
                        p.next()
                        p.skip_parens()
                    elif p.peek() == 'align':
                        p.next()
                        if p.acc('('):
                            p.next()
                            p.exp(')')
                        else:
                            p.next()
                    else:
                        break
                nm = p.next() if p.kind() == 'loc' else '%%arg%d' % len(params)
                params.append((ty, nm, byval))
                if p.acc(')'):
                    break
                p.exp(',')
        f.params = params
        blocks = {}
        order = []
        cur = None
        lines = f.lines
        i = 0
        first = True
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l or l.isspace():
                continue
            if l[0] not in ' ;':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur = '%' + m.group(1)
                    blocks[cur] = []
                    order.append(cur)
                    first = False
                    continue
            s = l.strip()
            if s.startswith(';'):
                continue
            if s.startswith('#dbg_'):
                continue
            if first:
                # unnamed entry: its number is the number of unnamed params
                cur = '%entry.unnamed'
                blocks[cur] = []
                order.append(cur)
                first = False
            # multi-line: switch and landingpad, invoke
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            elif re.match(r'(%\S+ = )?invoke ', s):
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif 'landingpad ' in s:
                while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            blocks[cur].append(s)
        f.blocks = {b: [self.parse_inst(s) for s in ss] for b, ss in blocks.items()}
        f.order = order
        f.parsed = True

    def parse_inst(self, s):
        try:
            return self._parse_inst(s)
        except (IRError, IndexError, AttributeError) as e:
            return ('unsupported', None, s + '  // ' + repr(e))

    def _parse_inst(self, s):
        p = P(tokenize(s), self)
        res = None
        if len(p.t) > 1 and p.t[0][0] == 'loc' and p.t[1][1] == '=':
            res = p.next()
            p.next()
        op = p.next()
        if op in CALL_WORDS and op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return ('bin', res, op, ty, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
                  'fptrunc', 'frem'):
            return ('unsupported', res, s)
        if op == 'icmp':
            while p.peek() in ('samesign',):
                p.next()
            pred = p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return ('icmp', res, pred, ty, a, b)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ft = p.type()
            v = p.value(ft)
            p.exp('to')
            tt = p.type()
            return ('cast', res, op, ft, v, tt)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.exp(',')
            ops = [p.tv()]
            while p.acc(','):
                if p.kind() == 'meta':
                    break
                ops.append(p.tv())
            return ('gep', res, bt, ops)
        if op == 'load':
            atomic = False
            while p.peek() in ('atomic', 'volatile'):
                if p.next() == 'atomic':
                    atomic = True
            ty = p.type()
            p.exp(',')
            pt, pv = p.tv()
            order = None
            if atomic:
                while p.kind() == 'word' and p.peek() not in ('align',):
                    w = p.next()
                    if w == 'syncscope':
                        p.skip_parens()
                    else:
                        order = w
            return ('load', res, ty, pv, order)
        if op == 'store':
            atomic = False
            while p.peek() in ('atomic', 'volatile'):
                if p.next() == 'atomic':
                    atomic = True
            vt, v = p.tv()
            p.exp(',')
            pt, pv = p.tv()
            order = None
            if atomic:
                while p.kind() == 'word' and p.peek() not in ('align',):
                    w = p.next()
                    if w == 'syncscope':
                        p.skip_parens()
                    else:
                        order = w
            return ('store', None, vt, v, pv, order)
        if op == 'alloca':
            ty = p.type()
            n = ('int', 1)
            if p.acc(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return ('alloca', res, ty, n)
        if op == 'atomicrmw':
            while p.peek() == 'volatile':
                p.next()
            rop = p.next()
            pt, pv = p.tv()
            p.exp(',')
            vt, v = p.tv()
            order = p.next()
            return ('rmw', res, rop, vt, pv, v, order)
        if op == 'cmpxchg':
            weak = False
            while p.peek() in ('weak', 'volatile'):
                if p.next() == 'weak':
                    weak = True
            pt, pv = p.tv()
            p.exp(',')
            vt, old = p.tv()
            p.exp(',')
            vt, new = p.tv()
            o1 = p.next()
            o2 = p.next()
            return ('cmpxchg', res, vt, pv, old, new, weak, o1, o2)
        if op == 'fence':
            return ('fence', None, p.next())
        if op == 'phi':
            ty = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(ty)
                p.exp(',')
                b = p.next()
                p.exp(']')
                inc.append((v, b))
                if not p.acc(','):
                    break
            return ('phi', res, ty, inc)
        if op == 'select':
            ct, c = p.tv()
            p.exp(',')
            t1, a = p.tv()
            p.exp(',')
            t2, b = p.tv()
            return ('select', res, t1, c, a, b, ct)
        if op == 'freeze':
            ty, v = p.tv()
            return ('freeze', res, ty, v)
        if op == 'extractvalue':
            ty, v = p.tv()
            idx = []
            while p.acc(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return ('extractvalue', res, ty, v, idx)
        if op == 'insertvalue':
            ty, v = p.tv()
            p.exp(',')
            et, e = p.tv()
            idx = []
            while p.acc(','):
                if p.kind() == 'meta':
                    break
                idx.append(int(p.next()))
            return ('insertvalue', res, ty, v, e, idx)
        if op in ('call', 'invoke'):
            while p.peek() in CALL_WORDS or p.peek() in PARAM_WORDS or p.peek() in PARAM_PAREN or p.peek() == 'align':
                w = p.next()
                if w in PARAM_PAREN:
                    p.skip_parens()
                elif w == 'align':
                    if p.acc('('):
                        p.next()
                        p.exp(')')
                    else:
                        p.next()
            rt = p.type()
            p.fntype_opt()
            if p.peek() == 'asm':
                return ('asm', res, s)
            callee = p.value(('ptr',))
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    ty = p.type()
                    if ty[0] == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x in '({':
                                d += 1
                            elif x in ')}':
                                d -= 1
                        args.append((ty, ('undef',)))
                    else:
                        byval = None
                        save = p.i
                        while p.kind() == 'word' and (p.peek() in PARAM_WORDS or p.peek() in PARAM_PAREN or p.peek() == 'align'):
                            w = p.next()
                            if w == 'byval':
                                p.exp('(')
                                byval = p.type()
                                p.exp(')')
                            elif w in PARAM_PAREN:
                                p.skip_parens()
                            elif w == 'align':
                                if p.acc('('):
                                    p.next()
                                    p.exp(')')
                                else:
                                    p.next()
                        args.append((ty, p.value(ty)))
                    if p.acc(')'):
                        break
                    p.exp(',')
            if op == 'call':
                return ('call', res, rt, callee, args)
            while p.peek() != 'to':
                p.next()
            p.next()
            p.exp('label')
            n = p.next()
            p.exp('unwind')
            p.exp('label')
            u = p.next()
            return ('invoke', res, rt, callee, args, n, u)
        if op == 'ret':
            ty = p.type()
            if ty[0] == 'void':
                return ('ret', None, ty, None)
            return ('ret', None, ty, p.value(ty))
        if op == 'br':
            if p.acc('label'):
                return ('br', None, p.next())
            p.type()
            c = p.value(('i', 1))
            p.exp(',')
            p.exp('label')
            a = p.next()
            p.exp(',')
            p.exp('label')
            b = p.next()
            return ('condbr', None, c, a, b)
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            p.exp('label')
            d = p.next()
            p.exp('[')
            cases = []
            while not p.acc(']'):
                ct = p.type()
                cv = p.value(ct)
                p.exp(',')
                p.exp('label')
                cases.append((cv[1], p.next()))
            return ('switch', None, ty, v, d, cases)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'resume':
            ty, v = p.tv()
            return ('resume', None, v)
        if op == 'landingpad':
            ty = p.type()
            cleanup = False
            clauses = []
            while p.i < len(p.t):
                w = p.next()
                if w == 'cleanup':
                    cleanup = True
                elif w == 'catch':
                    ct, cv = p.tv()
                    clauses.append(cv)
                elif w == 'filter':
                    ct, cv = p.tv()
                    clauses.append(('filter',))
            return ('landingpad', res, cleanup, clauses)
        if op == 'va_arg':
            return ('unsupported', res, s)
        return ('unsupported', res, s)
