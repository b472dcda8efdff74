"""A loaded IR module: addresses of globals and functions, constant evaluation, lazily generated Python functions."""
import ir
import xops as X
from codegen import FnGen, Unsupported

M64 = (1 << 64) - 1
SHIFT = 24
STATIC_FIRST = 16          # object ids of globals/functions start here
DYN_FIRST = 1 << 16        # object ids of run-time objects start here


class FnTable(dict):
    def __init__(self, prog):
        self.prog = prog

    def __missing__(self, name):
        f = self.prog.compile(name)
        self[name] = f
        return f


class Prog:
    def __init__(self, path, models):
        self.path = path
        self.mod = ir.Module(open(path).read())
        self.models = models
        self.FN = FnTable(self)
        self.addr = {}       # symbol -> address
        self.at = {}         # id -> ('g'|'f'|'x', name)
        self.next_id = STATIC_FIRST
        self.types = []
        self.tyix = {}
        self.const_objs = {}   # id -> cells dict of constant globals
        self.executed = set()
        self.sources = {}

    def canon(self, name):
        seen = 0
        while name in self.mod.aliases and name not in self.models:
            op = self.mod.aliases[name]
            if op[0] != 'g':
                break
            name = op[1]
        return name

    def note_callee(self, name):
        pass

    def tyid(self, t):
        i = self.tyix.get(t)
        if i is None:
            i = self.tyix[t] = len(self.types)
            self.types.append(t)
        return i

    def symaddr(self, name):
        name = self.canon(name)
        a = self.addr.get(name)
        if a is None:
            i = self.next_id
            self.next_id += 1
            kind = 'f' if (name in self.mod.funcs or name in self.models) else 'g' if name in self.mod.globals else 'x'
            self.at[i] = (kind, name)
            al = 16
            if kind == 'g':
                al = max(self.mod.globals[name][3], 1)
            a = self.addr[name] = (i << SHIFT) + al
        return a

    def const(self, ty, op):
        k = op[0]
        if k == 'c':
            return op[1]
        if k == 'g':
            return self.symaddr(op[1])
        if k in ('undef', 'zero'):
            return 0
        if k == 'gep':
            base = self.const(('p',), op[2])
            cur = op[1]
            off = 0
            for n, (it, ix) in enumerate(op[3]):
                i = self.const(it, ix)
                w = it[1] if it[0] == 'i' else 64
                if i >> (w - 1):
                    i -= 1 << w
                if n == 0:
                    off += i * self.mod.size_align(cur)[0]
                else:
                    c = self.mod.resolve(cur)
                    if c[0] == 's':
                        o, cur = self.mod.field_off(c, i)
                        off += o
                    else:
                        cur = c[2]
                        off += i * self.mod.size_align(cur)[0]
            return (base + off) & M64
        if k == 'cast':
            v = self.const(op[2], op[3])
            if op[1] == 'trunc':
                v &= (1 << op[4][1]) - 1
            return v
        if k == 'bin':
            a = self.const(op[2], op[3])
            b = self.const(op[2], op[4])
            w = op[2][1] if op[2][0] == 'i' else 64
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b,
                 'shl': a << (b & 127)}[op[1]]
            return r & ((1 << w) - 1)
        raise Unsupported('const %r' % (op,))

    def fill(self, cells, off, ty, op):
        """write the constant initialiser op of type ty into cells"""
        t = self.mod.resolve(ty)
        k = op[0]
        if t[0] in ('i', 'p', 'f'):
            s = self.mod.size_align(t)[0]
            if k == 'undef':
                return
            cells[off] = (s, self.const(t, op))
            return
        if k == 'undef':
            return
        if k == 'str':
            for i, c in enumerate(op[1]):
                cells[off + i] = (1, c)
            return
        if t[0] == 's':
            for i, f in enumerate(t[1]):
                o, _ = self.mod.field_off(t, i)
                if k == 'zero':
                    self.fill(cells, off + o, f, ('zero',))
                else:
                    self.fill(cells, off + o, op[1][i][0], op[1][i][1])
            if k == 'zero':
                pass
            return
        if t[0] in ('a', 'vec'):
            es = self.mod.size_align(t[2])[0]
            for i in range(t[1]):
                self.fill(cells, off + i * es, t[2], ('zero',) if k == 'zero' else op[1][i][1])
            return
        raise Unsupported('init %r' % (t,))

    def global_cells(self, name):
        ty, init, const, al = self.mod.globals[name]
        cells = {}
        if init is not None:
            self.fill(cells, 0, ty, init)
        elif name == '__libc_single_threaded':
            cells[0] = (1, 0)      # the library code takes its multi-threaded paths
        elif not name.startswith(('_ZT', '_ZSt4cout', '_ZSt4cerr')):
            raise Unsupported('access to external variable ' + name)
        return self.mod.size_align(ty)[0], cells, const

    def compile(self, name):
        name = self.canon(name)
        m = self.models.get(name)
        if m is not None:
            return m
        f = self.mod.funcs.get(name)
        if f is None or f.lines is None:
            pm = self.models.get('*prefix*')
            r = pm(name) if pm else None
            if r is not None:
                return r

            def missing(M, *a, _n=name):
                raise Unsupported('call of external function ' + _n)
            return missing
        self.executed.add(name)
        src = FnGen(self, f).gen()
        self.sources[name] = src
        g = {'X': X, 'U': X.UNDEF, 'FN': self.FN, 'CxxThrow': X.CxxThrow}
        exec(compile(src, name[:80], 'exec'), g)
        return g['F']
