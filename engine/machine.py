"""Sequential symbolic machine: memory, exceptions, decisions, and models of the runtime the code links against."""
import sys
import time
import traceback
import z3
import xops as X
from xops import UNDEF, CxxThrow
from codegen import Unsupported
from prog import SHIFT, DYN_FIRST

M64 = (1 << 64) - 1
OFFMASK = (1 << SHIFT) - 1
sys.setrecursionlimit(20000)


class Violation(Exception):
    def __init__(self, kind, msg, model=None):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind
        self.msg = msg
        self.model = model
        self.where = None


class Infeasible(Exception):
    pass


class Blocked(Exception):
    """the call waits for ever, as the harness expects"""


class Inconclusive(Exception):
    pass


class Obj:
    __slots__ = ('id', 'base', 'size', 'cells', 'state', 'kind', 'align', 'name', 'poison', 'const', 'aligned_new', 'snap', 'owner')

    def __init__(self, id, base, size, kind, align, name=''):
        self.id = id
        self.base = base
        self.size = size
        self.cells = {}
        self.state = 1
        self.kind = kind
        self.align = align
        self.name = name
        self.poison = None
        self.const = False
        self.aligned_new = False


vbyte = X.byte


class Machine:
    event_mode = False

    def __init__(self, prog, prefix=(), limit=400000):
        self.prog = prog
        self.n = 0
        self.limit = limit
        self.objs = {}
        self.next_id = DYN_FIRST
        self.trace = list(prefix)
        self.npre = len(prefix)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.solver = None
        self.queries = 0
        self.qtime = 0.0
        self.inputs = []      # (width, value)
        self.obs = []
        self.reached = set()
        self.checks = 0
        self.symchecks = 0
        self.exc = {}
        self.caught = []
        self.tids = {}
        self.fault = None
        self.fault_n = 0
        self.spurious = 0
        self.blocks = False
        self.allow_leak = False
        self.streamed = []
        self.nvar = 0
        self.snaps = {}
        self.bigalloc = False
        self.known = {}       # z3 ast id -> truth value implied by the path condition

    # ------------------------------------------------------------------ solver and decisions
    def get_solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 60000)
            for c in self.pc:
                self.solver.add(c.e)
        return self.solver

    def add(self, c):
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(c.e)

    def sat(self, c):
        s = self.get_solver()
        t = time.time()
        r = s.check(c.e) if c is not None else s.check()
        self.qtime += time.time() - t
        self.queries += 1
        return r

    def fresh(self, w, name='v'):
        self.nvar += 1
        return X.var('%s%d' % (name, self.nvar), w)

    def branch(self, c):
        if type(c) is int:
            return c
        if c is UNDEF:
            self.violation('uninit', 'branch depends on an uninitialised value')
        k = self.known.get(c)
        nc = X.bnot(c)
        if self.pos < self.npre:
            d = self.trace[self.pos]
            self.pos += 1
            if k is None:
                self.known[c] = d
                self.known[nc] = 1 - d
                self.add(c if d else nc)
            return d
        if k is not None:
            self.trace.append(k)
            self.pos += 1
            return k
        t = self.sat(c)
        if t == z3.unsat:
            d = 0
        else:
            f = self.sat(nc)
            if f == z3.unsat:
                d = 1
            else:
                self.pending.append(self.trace + [0])
                d = 1
        self.trace.append(d)
        self.pos += 1
        self.known[c] = d
        self.known[nc] = 1 - d
        self.add(c if d else nc)
        return d

    def switch(self, v, w, cases):
        if v is UNDEF:
            self.violation('uninit', 'switch on an uninitialised value')
        DEF = -1

        def eq(k):
            return X.icmp(self, 'eq', v, k, w)
        other = X.band(*[X.bnot(eq(k)) for k in cases])
        if self.pos < self.npre:
            d = self.trace[self.pos]
            self.pos += 1
        else:
            alts = [k for k in cases if type(eq(k)) is X.T and self.sat(eq(k)) != z3.unsat]
            if other == 1 or type(other) is X.T and self.sat(other) != z3.unsat:
                alts.append(DEF)
            d = alts[0]
            for a in alts[1:]:
                self.pending.append(self.trace + [a])
            self.trace.append(d)
            self.pos += 1
        if d == DEF:
            if other != 1:
                self.add(other)
            k = 0
            while k in cases:
                k += 1
            return k
        self.add(eq(d))
        return d

    def values(self, v, limit):
        """the values v can have, sorted (one more than the limit if there are too many)"""
        vals = []
        s = self.get_solver()
        s.push()
        t = time.time()
        while len(vals) <= limit:
            self.queries += 1
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                s.pop()
                raise Inconclusive('concretisation')
            x = s.model().eval(v.e, model_completion=True).as_long()
            vals.append(x)
            s.add(v.e != x)
        s.pop()
        self.qtime += time.time() - t
        vals.sort()
        return vals

    def conc(self, v, what, limit=64):
        """make a value concrete, forking over all values the path condition allows"""
        if type(v) is int:
            return v
        if v is UNDEF:
            self.violation('uninit', 'use of an uninitialised value as ' + what)
        if self.pos < self.npre:
            d = self.trace[self.pos]
            self.pos += 1
        else:
            vals = self.values(v, limit)
            if len(vals) > limit:
                self.too_many(what)
            d = vals[0]
            for a in vals[1:]:
                self.pending.append(self.trace + [a])
            self.trace.append(d)
            self.pos += 1
        self.add(X.icmp(self, 'eq', v, d, v.w))
        return d

    def too_many(self, what):
        if not any(x in what for x in ('address', 'pointer', 'operand')):
            raise Inconclusive('too many values of ' + what)
        self.violation('wild', 'unconstrained value used as ' + what)

    def require(self, c, kind, msg):
        """assert that c holds for every input on this path"""
        self.checks += 1
        if type(c) is int:
            if not c:
                self.violation(kind, msg)
            return
        if c is UNDEF:
            self.violation('uninit', 'checked value is uninitialised: ' + msg)
        self.symchecks += 1
        if self.known.get(c) == 1:
            return
        nc = X.bnot(c)
        if self.pos >= self.npre:
            r = self.sat(nc)
            if r == z3.sat:
                self.violation(kind, msg, self.solver.model())
            if r != z3.unsat:
                raise Inconclusive('check: ' + msg)
        self.known[c] = 1
        self.known[nc] = 0

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise Infeasible()
            return
        if c is UNDEF:
            self.violation('uninit', 'assumption on an uninitialised value')
        self.add(c)
        if self.pos >= self.npre:
            if self.sat(None) == z3.unsat:
                raise Infeasible()

    def violation(self, kind, msg, model=None):
        raise Violation(kind, msg, model)

    def model_inputs(self, model=None):
        if model is None:
            if any(type(v) is not int for _, v in self.inputs) or self.pc:
                s = self.get_solver()
                r = s.check()
                self.queries += 1
                if r != z3.sat:
                    return None
                model = s.model()
        out = []
        for w, v in self.inputs:
            out.append(self.ev(model, v))
        return out

    @staticmethod
    def ev(model, v):
        if type(v) is int:
            return v
        if v is UNDEF:
            return None
        r = model.eval(v.e, model_completion=True)
        if z3.is_bool(r):
            return 1 if z3.is_true(r) else 0
        return r.as_long()

    # ------------------------------------------------------------------ control
    def loophead(self, site):
        pass

    def backedge(self, site, same=0):
        if self.n > self.limit:
            if self.blocks:
                raise Blocked()
            self.violation('hang', 'no termination within %d instructions' % self.limit)

    def unreachable(self):
        self.violation('ub', 'control reached an unreachable point')

    def icall(self, f, args):
        if type(f) is not int:
            f = self.conc(f, 'a function pointer', 16)
        e = self.prog.at.get(f >> SHIFT)
        if e is None or e[0] != 'f' or self.prog.addr[e[1]] != f:
            self.violation('wild', 'call through an invalid function pointer %#x' % f)
        fn = self.prog.FN[e[1]]
        return fn(self, *args)

    def landing(self, xe, clauses, cleanup):
        if xe is None:
            raise Unsupported('landing')
        for c in clauses:
            if type(c) is tuple:
                raise Unsupported('exception specification filter')
            if c == 0 or self.ti_match(xe.tinfo, c):
                return (xe.obj, self.typeid(c))
        if not cleanup:
            raise CxxThrow(xe.obj, xe.tinfo)
        return (xe.obj, 0)

    def resume(self, v):
        e = self.exc[v[0]]
        raise CxxThrow(v[0], e['ti'])

    def typeid(self, c):
        return self.tids.setdefault(c, len(self.tids) + 1)

    def symname(self, a):
        e = self.prog.at.get(a >> SHIFT)
        return e[1] if e else None

    STDEXC = {'_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
              '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
              '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt13runtime_error': '_ZTISt9exception',
              '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt8bad_cast': '_ZTISt9exception'}

    def ti_match(self, t, c):
        if t == c:
            return True
        nc = self.symname(c)
        seen = [t]
        while seen:
            x = seen.pop()
            if x == c:
                return True
            nx = self.symname(x)
            if nx in self.STDEXC:
                if self.STDEXC[nx] == nc:
                    return True
                seen.append(self.prog.symaddr(self.STDEXC[nx]))
                continue
            g = self.prog.mod.globals.get(nx)
            if g and g[1] is not None:
                seen.extend(b for b, off, fl in self.ti_bases(x))
        return False

    def ti_bases(self, ti):
        """[(base ti, offset_or_vbase_offset, flags)] of a class type_info"""
        vt = self.symname(self.load(ti, 8, 1))
        if vt == '_ZTVN10__cxxabiv120__si_class_type_infoE':
            return [(self.load(ti + 16, 8, 1), 0, 2)]
        if vt == '_ZTVN10__cxxabiv121__vmi_class_type_infoE':
            n = self.load(ti + 20, 4, 1)
            r = []
            for i in range(n):
                b = self.load(ti + 24 + 16 * i, 8, 1)
                of = X.sgn(self.load(ti + 32 + 16 * i, 8, 1), 64)
                r.append((b, of >> 8, of & 255))
            return r
        return []

    def dynamic_cast(self, src, sti, dti, hint):
        src = self.conc(src, 'dynamic_cast operand')
        vt = self.load(src, 8, 8)
        top = X.sgn(self.load(vt - 16, 8, 8), 64)
        wti = self.load(vt - 8, 8, 8)
        whole = src + top
        subs = {}

        def walk(a, ti, pub, acc):
            k = (a, ti)
            acc[k] = acc.get(k, False) or pub
            for b, off, fl in self.ti_bases(ti):
                if fl & 1:
                    v = self.load(a, 8, 8)
                    o = X.sgn(self.load(v + off, 8, 8), 64)
                else:
                    o = off
                walk(a + o, b, pub and bool(fl & 2), acc)
        walk(whole, wti, True, subs)
        cands = []
        for (a, ti), pub in subs.items():
            if ti == dti:
                acc = {}
                walk(a, ti, True, acc)
                if acc.get((src, sti)):
                    cands.append(a)
        if len(cands) == 1:
            return cands[0]
        if len(cands) > 1:
            return 0
        if subs.get((src, sti)):
            ds = [a for (a, ti), pub in subs.items() if ti == dti and pub]
            if len(ds) == 1:
                return ds[0]
        return 0

    # ------------------------------------------------------------------ memory
    def newobj(self, size, align, kind, name=''):
        i = self.next_id
        self.next_id += 1
        o = Obj(i, (i << SHIFT) + align, size, kind, align, name)
        self.objs[i] = o
        return o

    def alloca(self, fo, size, align):
        i = self.next_id
        self.next_id += 1
        o = Obj(i, (i << SHIFT) + align, size, 'stack', align)
        self.objs[i] = o
        fo.append(o)
        return o.base

    def byval(self, fo, src, size, align):
        a = self.alloca(fo, size, align)
        self.memcpy(a, src, size)
        return a

    def popframe(self, fo):
        for o in fo:
            o.state = 2

    def life_start(self, a):
        o = self.objs.get(a >> SHIFT)
        if o is not None:
            o.state = 1
            o.cells = {}
            o.poison = None

    def life_end(self, a):
        o = self.objs.get(a >> SHIFT)
        if o is not None:
            o.state = 2

    def static_obj(self, i):
        e = self.prog.at.get(i)
        if e is None or e[0] != 'g':
            if e is not None and e[0] == 'f':
                self.violation('wild', 'data access to function ' + e[1])
            return None
        size, cells, const = self.prog.global_cells(e[1])
        a = self.prog.addr[e[1]]
        o = Obj(i, a, size, 'global', 16, e[1])
        o.cells = cells
        o.const = const
        self.objs[i] = o
        return o

    def find(self, a, size, al, what):
        """object containing [a, a+size) after all access checks; a is concrete"""
        o = self.objs.get(a >> SHIFT)
        if o is None:
            o = self.static_obj(a >> SHIFT)
            if o is None:
                if a < 4096:
                    self.violation('null', '%s through a null pointer (+%d)' % (what, a))
                self.violation('wild', '%s through an invalid pointer %#x' % (what, a))
        if o.state != 1:
            self.violation('uaf', '%s of %s memory (%s, %d bytes, offset %d)' % (
                what, 'freed' if o.state == 0 else 'out-of-scope', o.kind + ' ' + o.name, o.size, a - o.base))
        off = a - o.base
        if type(o.size) is int:
            if off < 0 or off + size > o.size:
                self.violation('bounds', '%s of %d bytes at offset %d of a %d-byte %s object' % (what, size, off, o.size, o.kind))
        else:
            self.require(X.icmp(self, 'uge', o.size, off + size, 64) if off >= 0 else 0, 'bounds', what + ' outside a block of computed size')
        if al > 1 and a & (al - 1):
            self.violation('align', 'misaligned %s (address %% %d = %d) in a %s object aligned to %d' % (what, al, a % al, o.kind, o.align))
        if o.poison:
            for lo, hi in o.poison:
                if off < hi and off + size > lo:
                    self.violation('dead', '%s of a destroyed object (%s, offset %d)' % (what, o.kind, off))
        return o

    def addr(self, a, what):
        if type(a) is int:
            return a
        return self.conc(a, what)

    def load(self, a, size, al=1):
        if type(a) is not int:
            a = self.conc(a, 'an address to read from')
        o = self.objs.get(a >> SHIFT)
        if o is None or o.state != 1 or o.poison or a & (al - 1):
            o = self.find(a, size, al, 'read')
        off = a - o.base
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        o = self.find(a, size, al, 'read')
        return self.load_slow(o, off, size)

    def load_slow(self, o, off, size):
        by = self.bytes_at(o, off, size)
        if all(b is UNDEF for b in by):
            return UNDEF
        if all(type(b) is int or b is UNDEF for b in by):
            r = 0
            for i, b in enumerate(by):
                if b is not UNDEF:
                    r |= b << (8 * i)
            return r
        return X.concat([0 if b is UNDEF else b for b in by])

    def bytes_at(self, o, off, size):
        out = [UNDEF] * size
        cells = o.cells
        for k in range(off - 31, off + size):
            c = cells.get(k)
            if c is not None:
                s, v = c
                if k + s > off:
                    for i in range(s):
                        j = k + i - off
                        if 0 <= j < size:
                            out[j] = vbyte(v, i)
        return out

    def store(self, a, size, v, al=1):
        if type(a) is not int:
            a = self.conc(a, 'an address to write to')
        o = self.find(a, size, al, 'write')
        if o.const:
            self.violation('const', 'write to a constant object ' + o.name)
        off = a - o.base
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            if cells:
                self.clear(o, off, size)
        if v is UNDEF:
            cells.pop(off, None)
        else:
            cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        if size > 64:
            ks = [k for k in cells if k < off + size and k + cells[k][0] > off]
        else:
            ks = [k for k in range(off - 31, off + size) if k in cells and k + cells[k][0] > off]
        for k in ks:
            s, v = cells.pop(k)
            if k < off or k + s > off + size:
                for i in range(s):
                    if not (off <= k + i < off + size):
                        b = vbyte(v, i)
                        if b is not UNDEF:
                            cells[k + i] = (1, b)

    def load_agg(self, a, tid):
        return self._load_agg(self.addr(a, 'an address to read from'), self.prog.types[tid])

    def _load_agg(self, a, t):
        mod = self.prog.mod
        t = mod.resolve(t)
        if t[0] == 's':
            return tuple(self._load_agg(a + mod.field_off(t, i)[0], f) for i, f in enumerate(t[1]))
        if t[0] in ('a', 'vec'):
            s = mod.size_align(t[2])[0]
            return tuple(self._load_agg(a + s * i, t[2]) for i in range(t[1]))
        return self.load(a, mod.size_align(t)[0], 1)

    def store_agg(self, a, v, tid):
        self._store_agg(self.addr(a, 'an address to write to'), v, self.prog.types[tid])

    def _store_agg(self, a, v, t):
        mod = self.prog.mod
        t = mod.resolve(t)
        if t[0] == 's':
            for i, f in enumerate(t[1]):
                self._store_agg(a + mod.field_off(t, i)[0], v[i], f)
            return
        if t[0] in ('a', 'vec'):
            s = mod.size_align(t[2])[0]
            for i in range(t[1]):
                self._store_agg(a + s * i, v[i], t[2])
            return
        self.store(a, mod.size_align(t)[0], v, 1)

    def memcpy(self, d, s, n):
        n = self.conc(n, 'a memcpy length')
        if n == 0:
            return
        d = self.addr(d, 'an address to write to')
        s = self.addr(s, 'an address to read from')
        so = self.find(s, n, 1, 'read')
        do = self.find(d, n, 1, 'write')
        if do.const:
            self.violation('const', 'write to a constant object ' + do.name)
        soff, doff = s - so.base, d - do.base
        got = []
        for k in range(soff - 31, soff + n):
            c = so.cells.get(k)
            if c is None or k + c[0] <= soff:
                continue
            if k >= soff and k + c[0] <= soff + n:
                got.append((k - soff, c[0], c[1]))
            else:
                for i in range(c[0]):
                    if soff <= k + i < soff + n:
                        b = vbyte(c[1], i)
                        if b is not UNDEF:
                            got.append((k + i - soff, 1, b))
        self.clear(do, doff, n)
        for k, sz, v in got:
            do.cells[doff + k] = (sz, v)

    def memset(self, d, v, n):
        n = self.conc(n, 'a memset length', 256)
        if n == 0:
            return
        d = self.addr(d, 'an address to write to')
        o = self.find(d, n, 1, 'write')
        off = d - o.base
        self.clear(o, off, n)
        if v is UNDEF:
            return
        i = 0
        if type(v) is int:
            while i < n and (off + i) % 8:
                o.cells[off + i] = (1, v)
                i += 1
            w = int.from_bytes(bytes([v]) * 8, 'little')
            while i + 8 <= n:
                o.cells[off + i] = (8, w)
                i += 8
        while i < n:
            o.cells[off + i] = (1, v)
            i += 1

    # ------------------------------------------------------------------ atomics (sequential)
    def aload(self, a, size, al, ordr):
        return self.load(a, size, al)

    def astore(self, a, size, v, al, ordr):
        self.store(a, size, v, al)

    def rmwop(self, op, old, v, w):
        if op == 'xchg':
            return v
        if op in ('add', 'sub', 'and', 'or', 'xor'):
            return X.bin(self, op, old, v, w)
        if op == 'nand':
            return X.bin(self, 'xor', X.bin(self, 'and', old, v, w), (1 << w) - 1, w)
        pred = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
        return X.select(self, X.icmp(self, pred, old, v, w), old, v, w)

    def rmw(self, op, a, size, v, w, ordr):
        a = self.addr(a, 'an address to write to')
        old = self.load(a, size, size)
        self.store(a, size, self.rmwop(op, old, v, w), size)
        return old

    def cmpxchg(self, a, size, c, n, weak, o1, o2):
        a = self.addr(a, 'an address to write to')
        old = self.load(a, size, size)
        eq = self.branch(X.icmp(self, 'eq', old, c, size * 8))
        if not eq:
            return (old, 0)
        if weak and self.spurious > 0:
            spur = self.fresh(1, 'spur')
            self.inputs.append((1, spur))
            if self.branch(spur):
                self.spurious -= 1
                return (old, 0)
        self.store(a, size, n, size)
        return (old, 1)

    def fence(self, ordr):
        pass

    # ------------------------------------------------------------------ heap
    def alloc(self, size, align, kind, aligned_new=False, nothrow=False):
        if self.fault is not None:
            k = self.fault_n
            self.fault_n += 1
            if self.branch(X.icmp(self, 'eq', self.fault, k, 32)):
                self.reached.add('alloc-failed')
                if nothrow:
                    return 0
                self.throw_std('_ZTISt9bad_alloc')
        if type(size) is not int:
            if size is UNDEF:
                self.violation('uninit', 'allocation of an uninitialised size')
            if not self.bigalloc:
                size = self.conc(size, 'an allocation size')
        align = self.conc(align, 'an alignment')
        if align == 0 or align & (align - 1):
            self.violation('ub', 'alignment %d is no power of two' % align)
        if type(size) is int and size > (1 << 22):
            if self.bigalloc:
                pass
            elif nothrow:
                return 0
            else:
                self.throw_std('_ZTISt9bad_alloc')
        o = self.newobj(size, align, 'heap', kind)
        o.aligned_new = aligned_new
        return o.base

    def free(self, p, kind, size=None, align=None):
        p = self.addr(p, 'a pointer to free')
        if p == 0:
            return
        o = self.objs.get(p >> SHIFT)
        if o is None or o.kind != 'heap':
            self.violation('badfree', 'release of a pointer that was never allocated (%s)' % ('%#x' % p if o is None else o.kind + ' object'))
        if o.state == 0:
            self.violation('doublefree', 'memory released twice (%s)' % o.name)
        if p != o.base:
            self.violation('badfree', 'release of a pointer %d bytes into its block' % (p - o.base))
        if o.name != kind:
            self.violation('mismatch', 'memory from %s released by the counterpart of %s' % (o.name, kind))
        if align is not None:
            align = self.conc(align, 'an alignment')
        if kind != 'malloc':
            if o.aligned_new != (align is not None):
                self.violation('mismatch', 'aligned and unaligned forms of new/delete mixed')
            if align is not None and align != o.align:
                self.violation('mismatch', 'memory aligned to %d released with alignment %d' % (o.align, align))
        if size is not None:
            self.require(X.icmp(self, 'eq', size, o.size, 64), 'mismatch', 'sized delete with a size that differs from the allocated one')
        o.state = 0
        o.cells = {}

    def throw_std(self, ti):
        o = self.newobj(16, 16, 'exc', ti)
        o.cells[0] = (8, self.prog.symaddr(ti.replace('_ZTI', '_ZTV')) + 16)
        t = self.prog.symaddr(ti)
        self.exc[o.base] = {'ti': t, 'dtor': 0, 'handlers': 0, 'rethrown': False}
        raise CxxThrow(o.base, t)

    def live_heap(self):
        return [o for o in self.objs.values() if o.kind == 'heap' and o.state == 1]

    # ------------------------------------------------------------------ intrinsics
    def asm(self, text, cons, args):
        t = text.strip('"').strip()
        if t in ('', 'pause', 'rep nop', 'rep; nop', 'nop', 'yield'):
            return UNDEF
        if t == 'mfence' or t.startswith('lock; '):
            self.fence('seq_cst')
            return UNDEF
        raise Unsupported('inline asm ' + text)

    def intrinsic(self, name, a):
        p = name.split('.')
        k = p[1]
        if k in ('memcpy', 'memmove'):
            return self.memcpy(a[0], a[1], a[2])
        if k == 'memset':
            return self.memset(a[0], a[1], a[2])
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and p[2] == 'with':
            w = int(p[4][1:])
            x, y = a
            if x is UNDEF or y is UNDEF:
                return (UNDEF, UNDEF)
            op = k[1:]
            if type(x) is int and type(y) is int:
                if k[0] == 's':
                    x, y = X.sgn(x, w), X.sgn(y, w)
                r = {'mul': x * y, 'add': x + y, 'sub': x - y}[op]
                m = r & ((1 << w) - 1)
                back = X.sgn(m, w) if k[0] == 's' else m
                return (m, int(back != r))
            A, B = X.bv(x, w), X.bv(y, w)
            ext = z3.ZeroExt if k[0] == 'u' else z3.SignExt
            f = X.BOPS[op]
            r = f(A, B)
            if k == 'umul' and (type(y) is int or type(x) is int):
                cst, var = (y, A) if type(y) is int else (x, B)
                ov = z3.BoolVal(False) if cst == 0 else z3.UGT(var, z3.BitVecVal(((1 << w) - 1) // cst, w))
            else:
                e = w if op == 'mul' else 1
                ov = f(ext(e, A), ext(e, B)) != ext(e, r)
            return (X.norm(r, w), X.norm(ov, 1))
        if k in ('assume', 'donothing', 'prefetch', 'sideeffect', 'invariant', 'var', 'annotation'):
            if k == 'assume' and a and type(a[0]) is int and not a[0]:
                self.violation('ub', 'false assumption')
            if k == 'invariant' and p[2] == 'start':
                return 0
            return a[0] if k == 'annotation' else None
        if k in ('expect', 'launder', 'strip', 'threadlocal', 'ptr', 'ssa'):
            return a[0]
        if k == 'trap' or k == 'ubsantrap' or k == 'debugtrap':
            self.violation('abort', 'trap')
        if k == 'eh' and p[2] == 'typeid':
            return self.typeid(a[0])
        if k in ('umax', 'umin', 'smax', 'smin'):
            w = int(p[2][1:])
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            return X.select(self, X.icmp(self, pred, a[0], a[1], w), a[0], a[1], w)
        if k in ('stacksave', 'stackrestore'):
            return 0
        if k == 'is' and p[2] == 'constant':
            return 0
        if k == 'objectsize':
            return M64
        if k == 'x86':
            if 'pause' in name:
                self.pause()
                return None
            if 'fence' in name:
                self.fence('seq_cst')
                return None
        if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'abs') and type(a[0]) is int:
            w = int(p[2][1:])
            x = a[0]
            if k == 'ctpop':
                return x.bit_count()
            if k == 'ctlz':
                return w - x.bit_length()
            if k == 'cttz':
                return (x & -x).bit_length() - 1 if x else w
            if k == 'bswap':
                return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            return abs(X.sgn(x, w))
        raise Unsupported('intrinsic ' + name)

    def pause(self):
        pass

    def finish(self):
        """end of a path: everything obtained must have been given back"""
        if not self.allow_leak:
            l = self.live_heap()
            if l:
                self.violation('leak', '%d heap block(s) never released (%s)' % (
                    len(l), ', '.join('%s %s bytes' % (o.name, o.size) for o in l[:4])))


def where():
    """call chain of generated functions in the current exception, innermost last"""
    out = []
    tb = sys.exc_info()[2]
    for f in traceback.extract_tb(tb):
        if f.name == 'F':
            out.append(f.filename)
    return out


# ---------------------------------------------------------------------- models of library and harness functions
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


for arr, knd in (('w', 'new'), ('a', 'new[]')):
    def mk(knd=knd, arr=arr):
        MODELS['_Zn%sm' % arr] = lambda M, n: M.alloc(n, 16, knd)
        MODELS['_Zn%smRKSt9nothrow_t' % arr] = lambda M, n, t: M.alloc(n, 16, knd, nothrow=True)
        MODELS['_Zn%smSt11align_val_t' % arr] = lambda M, n, al: M.alloc(n, al, knd, True)
        MODELS['_Zn%smSt11align_val_tRKSt9nothrow_t' % arr] = lambda M, n, al, t: M.alloc(n, al, knd, True, True)
        d = 'l' if arr == 'w' else 'a'
        MODELS['_Zd%sPv' % d] = lambda M, p: M.free(p, knd)
        MODELS['_Zd%sPvm' % d] = lambda M, p, s: M.free(p, knd, s)
        MODELS['_Zd%sPvRKSt9nothrow_t' % d] = lambda M, p, t: M.free(p, knd)
        MODELS['_Zd%sPvSt11align_val_t' % d] = lambda M, p, al: M.free(p, knd, None, al)
        MODELS['_Zd%sPvmSt11align_val_t' % d] = lambda M, p, s, al: M.free(p, knd, s, al)
    mk()

MODELS['malloc'] = lambda M, n: M.alloc(n, 16, 'malloc', nothrow=True)
MODELS['free'] = lambda M, p: M.free(p, 'malloc')
MODELS['aligned_alloc'] = lambda M, al, n: M.alloc(n, al, 'malloc', nothrow=True)


@model('calloc')
def _calloc(M, n, s):
    t = M.conc(X.bin(M, 'mul', n, s, 64), 'an allocation size')
    p = M.alloc(t, 16, 'malloc', nothrow=True)
    if p:
        M.memset(p, 0, t)
    return p


@model('memcpy', 'memmove')
def _memcpy(M, d, s, n):
    M.memcpy(d, s, n)
    return d


@model('memset')
def _memset(M, d, v, n):
    M.memset(d, X.trunc(v, 32, 8), n)
    return d


@model('memcmp', 'bcmp')
def _memcmp(M, a, b, n):
    n = M.conc(n, 'a memcmp length')
    for i in range(n):
        x, y = M.load(a + i, 1), M.load(b + i, 1)
        if M.branch(X.icmp(M, 'ne', x, y, 8)):
            return 1 if M.branch(X.icmp(M, 'ugt', x, y, 8)) else (1 << 32) - 1
    return 0


@model('strlen')
def _strlen(M, a):
    n = 0
    while M.conc(M.load(a + n, 1), 'a character') != 0:
        n += 1
    return n


@model('strcmp')
def _strcmp(M, a, b):
    i = 0
    while True:
        x, y = M.conc(M.load(a + i, 1), 'a character'), M.conc(M.load(b + i, 1), 'a character')
        if x != y:
            return 1 if x > y else (1 << 32) - 1
        if x == 0:
            return 0
        i += 1


# ---- exceptions
@model('__cxa_allocate_exception')
def _cae(M, n):
    o = M.newobj(M.conc(n, 'a size'), 16, 'exc', 'exception')
    return o.base


@model('__cxa_free_exception')
def _cfe(M, p):
    M.objs[p >> SHIFT].state = 0


@model('__cxa_throw')
def _ct(M, p, ti, dtor):
    M.exc[p] = {'ti': ti, 'dtor': dtor, 'handlers': 0, 'rethrown': False}
    raise CxxThrow(p, ti)


@model('__cxa_begin_catch')
def _cbc(M, p):
    e = M.exc[p]
    e['handlers'] += 1
    e['rethrown'] = False
    M.caught.append(p)
    return p


@model('__cxa_get_exception_ptr')
def _cgep(M, p):
    return p


@model('__cxa_end_catch')
def _cec(M):
    p = M.caught.pop()
    e = M.exc[p]
    e['handlers'] -= 1
    if e['handlers'] == 0 and not e['rethrown']:
        if e['dtor']:
            M.icall(e['dtor'], (p,))
        M.objs[p >> SHIFT].state = 0


@model('__cxa_rethrow')
def _cr(M):
    if not M.caught:
        M.violation('terminate', 'rethrow without an active exception')
    p = M.caught[-1]
    M.exc[p]['rethrown'] = True
    raise CxxThrow(p, M.exc[p]['ti'])


@model('_ZSt9terminatev', '__clang_call_terminate')
def _term(M, *a):
    M.violation('terminate', 'std::terminate called (exception leaves a noexcept function)')


@model('abort', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__assert_fail', '_exit', 'exit')
def _abort(M, *a):
    M.violation('abort', 'abort or failed assertion')


@model('__cxa_pure_virtual', '__cxa_deleted_virtual')
def _pure(M, *a):
    M.violation('ub', 'pure virtual function called')


MODELS['__dynamic_cast'] = lambda M, a, s, d, h: M.dynamic_cast(a, s, d, h)


@model('__cxa_bad_cast')
def _badcast(M):
    M.throw_std('_ZTISt8bad_cast')


for _n, _t in (('_ZSt20__throw_bad_weak_ptrv', '_ZTISt12bad_weak_ptr'), ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length'),
               ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error')):
    MODELS[_n] = lambda M, *a, _t=_t: M.throw_std(_t)

for _n in ('_ZNSt9bad_allocD1Ev', '_ZNSt9bad_allocD2Ev', '_ZNSt20bad_array_new_lengthD1Ev', '_ZNSt20bad_array_new_lengthD2Ev',
           '_ZNSt12bad_weak_ptrD1Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev'):
    MODELS[_n] = lambda M, p: None

for _n in ('__cxa_atexit', 'atexit', '__cxa_thread_atexit'):
    MODELS[_n] = lambda M, *a: 0
for _n in ('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
    MODELS[_n] = lambda M, *a: None


@model('__cxa_guard_acquire')
def _cga(M, p):
    v = M.load(p, 1)
    return 0 if v == 1 else 1


@model('__cxa_guard_release')
def _cgr(M, p):
    M.store(p, 1, 1)


MODELS['__cxa_guard_abort'] = lambda M, p: None


@model('sched_yield', 'pthread_yield', 'usleep', 'nanosleep', 'clock_nanosleep', '_ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE')
def _yield(M, *a):
    M.pause()
    return 0


@model('_ZNSt19_Sp_make_shared_tag5_S_eqERKSt9type_info')
def _speq(M, ti):
    return 1 if M.symname(ti) == '_ZTISt19_Sp_make_shared_tag' else 0


@model('pthread_mutex_lock')
def _mlock(M, p):
    v = M.load(p, 4)
    if type(v) is int and v != 0:
        if M.blocks:
            raise Blocked()
        M.violation('hang', 'self-deadlock on a mutex')
    M.store(p, 4, 1)
    return 0


@model('pthread_mutex_unlock')
def _munlock(M, p):
    M.store(p, 4, 0)
    return 0


MODELS['pthread_mutex_trylock'] = lambda M, p: 16 if M.load(p, 4) != 0 else _mlock(M, p)


# ---- harness intrinsics
def inp(M, w, v):
    M.inputs.append((w, v))
    return v


MODELS['sv_u8'] = lambda M: inp(M, 8, M.fresh(8, 'u8_'))
MODELS['sv_u32'] = lambda M: inp(M, 32, M.fresh(32, 'u32_'))
MODELS['sv_u64'] = lambda M: inp(M, 64, M.fresh(64, 'u64_'))
MODELS['sv_bool'] = lambda M: inp(M, 1, M.fresh(1, 'b'))


@model('sv_choose')
def _choose(M, n):
    """an input in [0,n), forked over immediately (all values are feasible: the variable is new)"""
    if n == 1:
        return inp(M, 32, 0)
    v = M.fresh(32, 'c')
    M.inputs.append((32, v))
    if M.pos < M.npre:
        d = M.trace[M.pos]
    else:
        d = 0
        for k in range(1, n):
            M.pending.append(M.trace + [k])
        M.trace.append(0)
    M.pos += 1
    M.add(X.icmp(M, 'eq', v, d, 32))
    M.inputs[-1] = (32, d)
    return d


@model('sv_pick')
def _pick(M, n):
    """a symbolic input in [0,n), left symbolic"""
    v = M.fresh(32, 'p')
    M.inputs.append((32, v))
    M.add(X.icmp(M, 'ult', v, n, 32))
    return v


MODELS['sv_assume'] = lambda M, c: M.assume(c)


CS = {}


def cstr(M, p):
    r = CS.get((M.prog.path, p))
    if r is None:
        r = CS[(M.prog.path, p)] = cstr_(M, p)
    return r


def cstr_(M, p):
    s = b''
    o = M.objs.get(p >> SHIFT) or M.static_obj(p >> SHIFT)
    off = p - o.base
    while True:
        c = o.cells[off][1]
        if c == 0:
            return s.decode()
        s += bytes([c])
        off += 1


@model('sv_check')
def _check(M, c, msg):
    if M.event_mode:
        return M.ev_check(c, msg)
    if type(c) is int and c:
        M.checks += 1
        return
    M.require(c, 'check', cstr(M, msg))


@model('sv_fail')
def _fail(M, msg):
    M.violation('check', cstr(M, msg))


@model('sv_reach')
def _reach(M, msg):
    M.reached.add(cstr(M, msg))


MODELS['sv_obs'] = lambda M, v: M.obs.append(v)


@model('sv_poison')
def _poison(M, p, n):
    o = M.find(p, n, 1, 'destruction')
    off = p - o.base
    o.poison = (o.poison or []) + [(off, off + n)]


@model('sv_unpoison')
def _unpoison(M, p, n):
    o = M.objs.get(p >> SHIFT) or M.static_obj(p >> SHIFT)
    if o is None or o.state != 1 or not (0 <= p - o.base and p - o.base + n <= o.size):
        M.violation('uaf', 'object constructed outside a live block')
    if o.poison:
        off = p - o.base
        o.poison = [x for x in o.poison if not (x[0] >= off and x[1] <= off + n)] or None


@model('sv_fault_arm')
def _farm(M, k):
    M.fault = k
    M.fault_n = 0


@model('sv_fault_disarm')
def _fdis(M):
    M.fault = None


MODELS['sv_alloc_count'] = lambda M: M.fault_n
MODELS['sv_live'] = lambda M: len(M.live_heap())


MODELS['sv_tid'] = lambda M: (M.tid if M.event_mode and not M.post else -1) & 0xffffffff


@model('sv_allow_leak')
def _al(M):
    M.allow_leak = True


@model('sv_blocks')
def _blocks(M):
    M.blocks = True
    M.limit = M.n + 1500000


@model('sv_spurious')
def _spur(M, n):
    M.spurious = n


@model('sv_bigalloc')
def _big(M, on):
    M.bigalloc = bool(on)


def _objof(M, p):
    p = M.addr(p, 'a pointer')
    o = M.objs.get(p >> SHIFT)
    if o is None and p >> SHIFT and M.prog.at.get(p >> SHIFT, 'f')[0] == 'g':
        o = M.static_obj(p >> SHIFT)
    return o


@model('sv_objsize')
def _osz(M, p):
    o = _objof(M, p)
    return 0 if o is None else o.size


@model('sv_objalign')
def _oal(M, p):
    o = _objof(M, p)
    return 0 if o is None else o.align


@model('sv_objoff')
def _oof(M, p):
    o = _objof(M, p)
    return M64 if o is None or o.state != 1 else (p - o.base) & M64


@model('sv_is_live')
def _isl(M, p):
    o = _objof(M, p)
    return 1 if o is not None and o.state == 1 else 0


@model('sv_uninit')
def _uni(M, p, n):
    p = M.addr(p, 'a pointer')
    o = M.find(p, n, 1, 'inspection')
    return int(all(b is UNDEF for b in M.bytes_at(o, p - o.base, n)))


@model('sv_snap')
def _snap(M, p):
    o = _objof(M, p)
    M.snaps[o.id] = dict(o.cells)


@model('sv_diff_inc')
def _diff(M, p, oldval):
    """offset of the only cell of the object at p that went from oldval+d to oldval+d+1 since sv_snap; (off<<16|size<<8|d&255), or ~0"""
    o = _objof(M, p)
    old = M.snaps[o.id]
    ch = [(k, c) for k, c in o.cells.items() if old.get(k) != c]
    r = M64
    if len(ch) == 1:
        k, (s, v) = ch[0]
        if k in old and old[k][0] == s and type(v) is int and type(old[k][1]) is int and v == old[k][1] + 1:
            d = old[k][1] - oldval
            if -2 <= d <= 2:
                r = (k << 16) | (s << 8) | (d & 255)
    M.inputs.append((64, r))
    return r


@model('_ZNSolsEPKv')
def _osl(M, os, v):
    M.streamed.append(v)
    return os


@model('_ZNSo9_M_insertIPKvEERSoT_')
def _osl2(M, os, v):
    M.streamed.append(v)
    return os


MODELS['_ZNSo5writeEPKcl'] = lambda M, os, p, n: os


@model('sv_ostream')
def _sos(M):
    o = M.newobj(512, 16, 'stream', 'ostream')
    return o.base


MODELS['sv_streamed_count'] = lambda M: len(M.streamed)
MODELS['sv_streamed'] = lambda M, i: M.streamed[M.conc(i, 'index')]
