"""Parser for the subset of LLVM-18 textual IR that clang -O0 (+mem2reg) emits for C++.

Types are tuples:  ('i',N) ('p',) ('v',) ('f',N) ('a',n,T) ('s',(T..),packed) ('n',name) ('vec',n,T)
Constants/operands are tuples: ('r',name) ('g',name) ('c',int) ('undef',) ('zero',) ('agg',[ops]) ('str',bytes)
  ('gep',T,base,[(ty,op)..]) ('cast',kind,ty,op,ty2) ('bin',op,ty,a,b)
"""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<meta>!\{[^}]*\}|![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_$][-a-zA-Z$._0-9]*)
 | (?P<comdat>\$"[^"]*")
 | (?P<p>[\[\](){}<>,=*:|])
''', re.X)


class Err(Exception):
    pass


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Err('lex: ' + s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


PARAM_ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'inalloca',
                    'preallocated', 'elementtype', 'range', 'nofpclass', 'captures', 'initializes', 'align',
                    'memory', 'allocsize', 'alignstack', 'vscale_range'}
CONST_WORDS = {'null', 'true', 'false', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'ptrtoint',
               'inttoptr', 'bitcast', 'sub', 'add', 'mul', 'xor', 'and', 'or', 'trunc', 'icmp', 'select', 'shl',
               'asm', 'blockaddress', 'dso_local_equivalent', 'no_cfi', 'addrspacecast'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.eat(v):
            raise Err('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def skip_paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    # ---- types
    def ty(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('p',)
                if self.peek() == 'addrspace':
                    self.next()
                    self.skip_paren()
            elif v == 'void':
                t = ('v',)
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
                t = ('f', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}[v])
            elif v in ('label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise Err('type ' + v)
        elif k == 'loc':
            t = ('n', unq(v))
        elif v == '[':
            n = int(self.next())
            self.exp('x')
            e = self.ty()
            self.exp(']')
            t = ('a', n, e)
        elif v == '{':
            t = self.struct_body('}')
        elif v == '<':
            if self.eat('{'):
                f = self.struct_body('}')
                self.exp('>')
                t = ('s', f[1], True)
            else:
                n = int(self.next())
                self.exp('x')
                e = self.ty()
                self.exp('>')
                t = ('vec', n, e)
        else:
            raise Err('type tok %r' % v)
        # function type suffix
        while self.peek() == '(' and self.kind() == 'p':
            # only in call sites with explicit fn type; caller handles by flag
            j = self.i
            self.skip_paren()
            t = ('fn', t)
        while self.eat('*'):
            t = ('p',)
        return t

    def struct_body(self, end):
        f = []
        if self.eat(end):
            return ('s', (), False)
        while True:
            f.append(self.ty())
            if self.eat(end):
                break
            self.exp(',')
        return ('s', tuple(f), False)

    # ---- operands
    def skip_attrs(self):
        while True:
            k, v = self.t[self.i] if self.i < len(self.t) else (None, None)
            if k == 'id' and v not in CONST_WORDS:
                self.i += 1
                if v == 'align' and self.kind() == 'num':
                    self.i += 1
                elif self.peek() == '(':
                    self.skip_paren()
            elif k == 'str' or k == 'attr':
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                return

    def op(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('r', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                return ('c', 0)
            return ('c', int(v, 0) & ((1 << ty[1]) - 1 if ty[0] == 'i' else (1 << 64) - 1))
        if k == 'cstr':
            b = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(b):
                if b[i] == '\\':
                    out.append(int(b[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(b[i]))
                    i += 1
            return ('str', bytes(out))
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v in ('false', 'null', 'none'):
                return ('c', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                while self.kind() == 'id':
                    w = self.next()
                    if self.peek() == '(' and w == 'inrange':
                        self.skip_paren()
                        break
                self.exp('(')
                T = self.ty()
                self.exp(',')
                self.eat('inrange')
                bt = self.ty()
                base = self.op(bt)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.ty()
                    idx.append((it, self.op(it)))
                self.exp(')')
                return ('gep', T, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
                self.exp('(')
                t1 = self.ty()
                o = self.op(t1)
                self.exp('to')
                t2 = self.ty()
                self.exp(')')
                return ('cast', v, t1, o, t2)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek() in ('nsw', 'nuw'):
                    self.next()
                self.exp('(')
                t1 = self.ty()
                a = self.op(t1)
                self.exp(',')
                t2 = self.ty()
                b = self.op(t2)
                self.exp(')')
                return ('bin', v, t1, a, b)
            if v == 'asm':
                flags = []
                while self.kind() == 'id':
                    flags.append(self.next())
                a = self.next()
                self.exp(',')
                c = self.next()
                return ('asm', a, c)
        if v == '{' or v == '[' or v == '<':
            packed = False
            if v == '<' and self.eat('{'):
                packed = True
                end = '}'
            else:
                end = {'{': '}', '[': ']', '<': '>'}[v]
            els = []
            if not self.eat(end):
                while True:
                    t = self.ty()
                    els.append((t, self.op(t)))
                    if self.eat(end):
                        break
                    self.exp(',')
            if packed:
                self.exp('>')
            return ('agg', els)
        raise Err('operand %r in %s' % (v, ' '.join(x[1] for x in self.t)))

    def tyop(self):
        t = self.ty()
        self.skip_attrs()
        return t, self.op(t)


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


class Func:
    __slots__ = ('name', 'ret', 'params', 'lines', 'blocks', 'entry', 'compiled', 'vararg')

    def __init__(s):
        s.blocks = None
        s.lines = None
        s.compiled = None
        s.vararg = False


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (ty, init or None, const, align)
        self.funcs = {}
        self.aliases = {}
        self._layout = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l:
                continue
            c = l[0]
            if c == '%':
                p = P(lex(l), self)
                name = unq(p.next())
                p.exp('=')
                p.exp('type')
                self.types[name] = p.ty() if p.peek() != 'opaque' else ('s', (), False)
            elif c == '@':
                self.global_(l)
            elif l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self.header(l, True)
                f.lines = body
                self.funcs[f.name] = f
            elif l.startswith('declare'):
                f = self.header(l, False)
                self.funcs.setdefault(f.name, f)

    def global_(self, l):
        p = P(lex(l), self)
        name = unq(p.next())
        p.exp('=')
        ext = False
        while p.kind() == 'id' and p.peek() not in ('global', 'constant', 'alias', 'ifunc'):
            w = p.next()
            if w in ('external', 'extern_weak', 'available_externally'):
                ext = True
            if p.peek() == '(':
                p.skip_paren()
        k = p.next()
        if k == 'alias':
            p.ty()
            p.exp(',')
            t = p.ty()
            self.aliases[name] = p.op(t)
            return
        t = p.ty()
        init = None
        if p.i < len(p.t) and p.peek() != ',' and not (ext and p.peek() != 'zeroinitializer'):
            init = p.op(t)
        al = 16
        m = re.search(r', align (\d+)', l)
        if m:
            al = int(m.group(1))
        self.globals[name] = (t, init, k == 'constant', al)

    def header(self, l, defn):
        p = P(lex(l), self)
        p.next()
        f = Func()
        # linkage / attrs until type
        while True:
            k, v = p.t[p.i]
            if k == 'id' and not (v in ('ptr', 'void', 'float', 'double', 'half', 'x86_fp80', 'fp128') or re.fullmatch(r'i\d+', v)):
                p.i += 1
                if p.peek() == '(':
                    p.skip_paren()
                elif v == 'align' and p.kind() == 'num':
                    p.i += 1
            else:
                break
        # return type, then attrs cannot appear between type and name
        j = p.i
        k, v = p.t[p.i]
        f.ret = self._ret_ty(p)
        f.name = unq(p.next())
        p.exp('(')
        f.params = []
        if not p.eat(')'):
            n = 0
            while True:
                if p.eat('...'):
                    f.vararg = True
                else:
                    t = p.ty()
                    p.skip_attrs()
                    if p.kind() == 'loc':
                        nm = unq(p.next())
                    else:
                        nm = str(n)
                    f.params.append((t, nm))
                    n += 1
                if p.eat(')'):
                    break
                p.exp(',')
        return f

    def _ret_ty(self, p):
        return p.ty()

    # ---- layout
    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        c = self._layout.get(t)
        if c is not None:
            return c
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            r = (s, min(s, 16))
            if t[1] == 128:
                r = (16, 16)
        elif k == 'p':
            r = (8, 8)
        elif k == 'f':
            r = {32: (4, 4), 64: (8, 8), 16: (2, 2), 80: (16, 16), 128: (16, 16)}[t[1]]
        elif k == 'a':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 's':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            if not t[2]:
                off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'n':
            r = self.size_align(self.types[t[1]])
        elif k in ('v', 'fn'):
            r = (1, 1)
        else:
            raise Err('size of %r' % (t,))
        self._layout[t] = r
        return r

    def field_off(self, t, i):
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if not t[2]:
                off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise Err('field')

    # ---- function bodies
    def body(self, f):
        """-> list of blocks [(label, [instr token lists])]"""
        out = []
        cur = None
        pend = None
        for l in f.lines:
            if not l or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                lab = l.split(':')[0]
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = (lab, [])
                out.append(cur)
                continue
            if cur is None:
                # implicit entry label: number = count of params (unnamed)
                cur = (None, [])
                out.append(cur)
            if l.startswith('    ') or l.startswith('  ]'):
                cur[1][-1] += ' ' + strip_comment(l).strip()
            else:
                cur[1].append(strip_comment(l).strip())
        return out


def strip_comment(l):
    if ';' in l:
        # comments only appear after code; strings may contain ';' only in asm
        if '"' not in l:
            return l[:l.index(';')]
    return l
