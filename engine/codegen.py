"""Translate LLVM IR functions into Python functions over (concrete int | z3 term | UNDEF | tuple) values.

Every generated function has the signature f(M, a0, a1, ...) where M is the machine (memory, path condition,
decisions).  Integer registers are Python ints in [0,2^w) when concrete and z3 BitVec terms otherwise; i1 registers are
0/1 or z3 Bool terms; pointers are 64-bit integers.
"""
import re
from ir import P, lex, Err, unq

INTLIKE = ('i', 'p')


class Unsupported(Exception):
    pass


def width(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'p':
        return 64
    if t[0] == 'f':
        return t[1]
    raise Unsupported('width of %r' % (t,))


class FnGen:
    def __init__(self, prog, f):
        self.prog = prog
        self.mod = prog.mod
        self.f = f
        self.names = {}
        self.out = []
        self.has_alloca = False
        self.ninstr = 0

    def v(self, name):
        n = self.names.get(name)
        if n is None:
            n = self.names[name] = 'v%d' % len(self.names)
        return n

    # ---- operand -> python expression
    def o(self, ty, op):
        k = op[0]
        if k == 'r':
            return self.v(op[1])
        if k == 'c':
            return str(op[1])
        if k == 'undef':
            if ty[0] in ('s', 'n', 'a'):
                return self.agg_zero(ty, 'U')
            return 'U'
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] in ('i', 'p', 'f'):
                return '0'
            return self.agg_zero(t, '0')
        if k == 'agg':
            return '(' + ''.join(self.o(t, x) + ',' for t, x in op[1]) + ')'
        return str(self.prog.const(ty, op))

    def agg_zero(self, t, z):
        t = self.mod.resolve(t)
        if t[0] == 's':
            return '(' + ''.join(self.agg_zero(x, z) + ',' for x in t[1]) + ')'
        if t[0] in ('a', 'vec'):
            return '(' + ''.join(self.agg_zero(t[2], z) + ',' for _ in range(t[1])) + ')'
        return z

    @staticmethod
    def isc(e):
        return e.isdigit()

    def both(self, a, b):
        c = []
        if not self.isc(a):
            c.append('type(%s) is int' % a)
        if not self.isc(b):
            c.append('type(%s) is int' % b)
        return ' and '.join(c) if c else 'True'

    # ---- generation
    def gen(self):
        blocks = self.mod.body(self.f)
        f = self.f
        params = [self.v(n) for _, n in f.params]
        # parse all instructions
        self.blk = {}
        order = []
        for i, (lab, ins) in enumerate(blocks):
            if lab is None:
                lab = '%entry%'
            order.append(lab)
            self.blk[lab] = [lex(x) for x in ins]
        # entry label may be numeric (unnamed): phi refs to it use the number = count of unnamed params
        self.entry = order[0]
        unn = sum(1 for _, n in f.params if n.isdigit())
        self.entry_alias = str(unn)
        self.phis = {}
        self.succ = {}
        self.term = {}
        self.code = {}
        npred = {l: 0 for l in order}
        for lab in order:
            self.cur = lab
            phis = []
            body = []
            for toks in self.blk[lab]:
                self.ninstr += 1
                r = self.instr(toks)
                if r is None:
                    continue
                if r[0] == 'phi':
                    phis.append(r)
                elif r[0] == 'term':
                    self.term[lab] = r
                    for s in r[1]:
                        npred[s] += 1
                else:
                    body.extend(r[1])
            self.phis[lab] = phis
            self.code[lab] = body
        npred[order[0]] += 1
        self.npred = npred
        self.idx = {l: i for i, l in enumerate(order)}
        self.preinit = set()
        self.heads = {x for lab in order for x in self.term[lab][1] if self.idx[x] <= self.idx[lab]}
        # emit
        self.disp = [l for l in order if l == order[0] or npred[l] > 1]
        self.emitted = set()
        emits = []
        queue = list(self.disp)
        self.need = list(self.disp)
        self.dispset = set(self.disp)
        i = 0
        while i < len(self.need):
            l = self.need[i]
            lines = []
            self.emit_block(l, lines, 0, l)
            emits.append((l, lines))
            i += 1
        self.bno = {l: i for i, (l, _) in enumerate(emits)}
        L = []
        L.append('def F(M%s):' % ''.join(', ' + p for p in params) if not f.vararg else 'def F(M%s, *va):' % ''.join(', ' + p for p in params))
        ind = ' '
        if self.has_alloca:
            L.append(' fo = []')
            L.append(' try:')
            ind = '  '
        single = len(emits) == 1 and not any('@GOTO' in x for x in emits[0][1])
        if single:
            for x in emits[0][1]:
                L.append(ind + x)
        else:
            if self.preinit:
                L.append(ind + ' = '.join(sorted(self.preinit)) + ' = None')
            L.append(ind + 'b = 0')
            L.append(ind + 'while True:')
            self.tree(emits, 0, len(emits), ind + ' ', L)
        if self.has_alloca:
            L.append(' finally:')
            L.append('  M.popframe(fo)')
        src = '\n'.join(L)
        src = re.sub(r'@GOTO(\{[^}]*\})', lambda m: self.goto(m.group(1)[1:-1]), src)
        return src

    def goto(self, key):
        return 'b = %d' % self.bno[key]

    def tree(self, emits, lo, hi, ind, L):
        if hi - lo == 1:
            for x in emits[lo][1]:
                L.append(ind + x)
            return
        mid = (lo + hi) // 2
        L.append(ind + 'if b < %d:' % mid)
        self.tree(emits, lo, mid, ind + ' ', L)
        L.append(ind + 'else:')
        self.tree(emits, mid, hi, ind + ' ', L)

    def emit_block(self, lab, out, depth, root):
        ind = ' ' * depth
        n = len(self.blk[lab])
        if n > 1:
            out.append(ind + 'M.n += %d' % n)
        for x in self.code[lab]:
            for y in x.split('\n'):
                out.append(ind + y)
        t = self.term[lab]
        kind = t[2]
        if kind == 'ret' or kind == 'raise':
            for y in t[3]:
                out.append(ind + y)
            return
        if kind == 'br':
            self.edge(lab, t[1][0], out, depth, root)
        elif kind == 'cbr':
            c = t[3]
            if self.isc(c):
                self.edge(lab, t[1][0] if c != '0' else t[1][1], out, depth, root)
                return
            out.append(ind + 'if (%s if type(%s) is int else M.branch(%s)):' % (c, c, c))
            self.edge(lab, t[1][0], out, depth + 1, root)
            out.append(ind + 'else:')
            self.edge(lab, t[1][1], out, depth + 1, root)
        elif kind == 'switch':
            c, w, cases = t[3]
            out.append(ind + 'sw = %s if type(%s) is int else M.switch(%s, %d, %s)' % (
                c, c, c, w, '(' + ''.join('%d,' % x[0] for x in cases) + ')'))
            first = True
            for val, l in cases:
                out.append(ind + ('if' if first else 'elif') + ' sw == %d:' % val)
                first = False
                self.edge(lab, l, out, depth + 1, root)
            if first:
                self.edge(lab, t[1][0], out, depth, root)
            else:
                out.append(ind + 'else:')
                self.edge(lab, t[1][0], out, depth + 1, root)
        elif kind == 'invoke':
            code, normal, unwind = t[3]
            out.append(ind + 'try:')
            for y in code:
                out.append(ind + ' ' + y)
            out.append(ind + 'except CxxThrow as ex:')
            out.append(ind + ' xe = ex')
            self.edge(lab, unwind, out, depth + 1, root, force=True)
            if out[-1].strip() != 'continue':
                out.append(ind + ' continue')
            self.edge(lab, normal, out, depth, root)

    def edge(self, a, b, out, depth, root, force=False):
        ind = ' ' * depth
        # phi moves
        dst, src = [], []
        for ph in self.phis[b]:
            for (val, pl) in ph[3]:
                if pl == a or (a == self.entry and (pl == self.entry_alias or pl == 'entry')):
                    dst.append(ph[1])
                    src.append(self.o(ph[2], val))
                    break
            else:
                raise Unsupported('phi edge')
        if self.idx[b] <= self.idx[a]:
            self.preinit.update(dst)
            # (did the values carried to the next iteration change?)
            same = ' and '.join('%s is %s' % (x, y) if not y.lstrip('-').isdigit() else '%s == %s' % (x, y) for x, y in zip(dst, src)) or '1'
            out.append(ind + 'M.backedge(%r, %s)' % (self.f.name + ':' + b, same))
        elif b in self.heads:
            out.append(ind + 'M.loophead(%r)' % (self.f.name + ':' + b))
        if dst:
            out.append(ind + '%s = %s' % (', '.join(dst), ', '.join(src)))
        if self.npred[b] > 1 or depth > 40 or force:
            if b not in self.dispset:
                self.dispset.add(b)
                self.need.append(b)
            out.append(ind + '@GOTO{%s}' % b)
            out.append(ind + 'continue')
        else:
            self.emit_block(b, out, depth, root)

    # ---- instructions
    def instr(self, toks):
        p = P(toks, self.mod)
        dest = None
        if p.kind() == 'loc' and len(toks) > 1 and toks[1][1] == '=':
            dest = self.v(unq(p.next()))
            p.next()
        op = p.next()
        m = getattr(self, 'i_' + op.replace('.', '_'), None)
        if m is None:
            if op in BINOPS:
                return self.binop(op, p, dest)
            if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.castop(op, p, dest)
            raise Unsupported('instruction ' + op + ' : ' + ' '.join(x[1] for x in toks))
        return m(p, dest)

    def binop(self, op, p, dest):
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            p.next()
        t = p.ty()
        a = self.o(t, p.op(t))
        p.exp(',')
        b = self.o(t, p.op(t))
        w = width(t)
        M = (1 << w) - 1
        slow = 'X.bin(M, %r, %s, %s, %d)' % (op, a, b, w)
        if op in ('add', 'sub', 'mul'):
            s = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            e = '(%s %s %s) & %d' % (a, s, b, M)
        elif op in ('and', 'or', 'xor'):
            s = {'and': '&', 'or': '|', 'xor': '^'}[op]
            e = '%s %s %s' % (a, s, b)
        else:
            return ('code', ['%s = %s' % (dest, slow)])
        return ('code', ['%s = (%s) if %s else %s' % (dest, e, self.both(a, b), slow)])

    def castop(self, op, p, dest):
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.ty()
        a = self.o(t, p.op(t))
        p.exp('to')
        t2 = p.ty()
        if op in ('bitcast', 'addrspacecast'):
            return ('code', ['%s = %s' % (dest, a)])
        w, w2 = width(t), width(t2)
        if op in ('ptrtoint', 'inttoptr'):
            op = 'zext' if w2 >= w else 'trunc'
            if w == w2:
                return ('code', ['%s = %s' % (dest, a)])
        if op == 'zext':
            return ('code', ['%s = %s if type(%s) is int else X.zext(%s, %d, %d)' % (dest, a, a, a, w, w2)])
        if op == 'trunc':
            return ('code', ['%s = %s & %d if type(%s) is int else X.trunc(%s, %d, %d)' % (dest, a, (1 << w2) - 1, a, a, w, w2)])
        return ('code', ['%s = X.sext(%s, %d, %d)' % (dest, a, w, w2)])

    def i_icmp(self, p, dest):
        while p.peek() in ('samesign',):
            p.next()
        pred = p.next()
        t = p.ty()
        a = self.o(t, p.op(t))
        p.exp(',')
        b = self.o(t, p.op(t))
        w = width(t)
        slow = 'X.icmp(M, %r, %s, %s, %d)' % (pred, a, b, w)
        s = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pred)
        if s:
            return ('code', ['%s = (1 if %s %s %s else 0) if %s else %s' % (dest, a, s, b, self.both(a, b), slow)])
        return ('code', ['%s = %s' % (dest, slow)])

    def i_alloca(self, p, dest):
        p.eat('inalloca')
        t = p.ty()
        n = '1'
        al = 1
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
            elif p.peek() == 'addrspace':
                p.next()
                p.skip_paren()
            elif p.kind() == 'meta':
                break
            else:
                nt = p.ty()
                n = self.o(nt, p.op(nt))
        s, a = self.mod.size_align(t)
        self.has_alloca = True
        if n == '1':
            return ('code', ['%s = M.alloca(fo, %d, %d)' % (dest, s, max(a, al))])
        return ('code', ['%s = M.alloca(fo, %d * M.conc(%s, "alloca"), %d)' % (dest, s, n, max(a, al))])

    def mem_tail(self, p):
        ordr = None
        al = 1
        scope = False
        while p.i < len(p.t):
            x = p.next()
            if x == ',':
                if p.eat('align'):
                    al = int(p.next())
                elif p.kind() == 'meta':
                    break
            elif x in ORDERS:
                ordr = x
            elif x == 'syncscope':
                p.skip_paren()
        return al, ordr

    def i_load(self, p, dest):
        atomic = p.eat('atomic')
        p.eat('volatile')
        t = p.ty()
        p.exp(',')
        pt = p.ty()
        a = self.o(pt, p.op(pt))
        al, ordr = self.mem_tail(p)
        rt = self.mod.resolve(t)
        if rt[0] in ('s', 'a', 'vec'):
            return ('code', ['%s = M.load_agg(%s, %d)' % (dest, a, self.prog.tyid(rt))])
        s, _ = self.mod.size_align(rt)
        if atomic:
            e = 'M.aload(%s, %d, %d, %r)' % (a, s, al, ordr)
        else:
            e = 'M.load(%s, %d, %d)' % (a, s, al)
        if rt == ('i', 1):
            return ('code', ['%s = %s' % (dest, e), '%s = %s & 1 if type(%s) is int else X.trunc(%s, 8, 1)' % (dest, dest, dest, dest)])
        return ('code', ['%s = %s' % (dest, e)])

    def i_store(self, p, dest):
        atomic = p.eat('atomic')
        p.eat('volatile')
        t = p.ty()
        v = self.o(t, p.op(t))
        p.exp(',')
        pt = p.ty()
        a = self.o(pt, p.op(pt))
        al, ordr = self.mem_tail(p)
        rt = self.mod.resolve(t)
        if rt[0] in ('s', 'a', 'vec'):
            return ('code', ['M.store_agg(%s, %s, %d)' % (a, v, self.prog.tyid(rt))])
        s, _ = self.mod.size_align(rt)
        if rt == ('i', 1) and not self.isc(v):
            v = '(%s if type(%s) is int else X.zext(%s, 1, 8))' % (v, v, v)
        if atomic:
            return ('code', ['M.astore(%s, %d, %s, %d, %r)' % (a, s, v, al, ordr)])
        return ('code', ['M.store(%s, %d, %s, %d)' % (a, s, v, al)])

    def i_atomicrmw(self, p, dest):
        p.eat('volatile')
        op = p.next()
        pt = p.ty()
        a = self.o(pt, p.op(pt))
        p.exp(',')
        t = p.ty()
        v = self.o(t, p.op(t))
        al, ordr = self.mem_tail(p)
        s, _ = self.mod.size_align(t)
        w = width(t)
        return ('code', ['%s = M.rmw(%r, %s, %d, %s, %d, %r)' % (dest, op, a, s, v, w, ordr)])

    def i_cmpxchg(self, p, dest):
        weak = p.eat('weak')
        p.eat('volatile')
        pt = p.ty()
        a = self.o(pt, p.op(pt))
        p.exp(',')
        t = p.ty()
        c = self.o(t, p.op(t))
        p.exp(',')
        t2 = p.ty()
        n = self.o(t2, p.op(t2))
        os = []
        while p.i < len(p.t):
            x = p.next()
            if x in ORDERS:
                os.append(x)
            elif x == 'syncscope':
                p.skip_paren()
            elif x == ',':
                break
        s, _ = self.mod.size_align(t)
        return ('code', ['%s = M.cmpxchg(%s, %d, %s, %s, %r, %r, %r)' % (dest, a, s, c, n, bool(weak), os[0], os[1])])

    def i_fence(self, p, dest):
        if p.peek() == 'syncscope':
            p.next()
            p.skip_paren()
            return None   # single-thread fences only constrain the compiler
        return ('code', ['M.fence(%r)' % p.next()])

    def i_getelementptr(self, p, dest):
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
        T = p.ty()
        p.exp(',')
        bt = p.ty()
        base = self.o(bt, p.op(bt))
        const = 0
        terms = []
        cur = T
        first = True
        while p.eat(','):
            if p.kind() == 'meta':
                break
            it = p.ty()
            ix = p.op(it)
            e = self.o(it, ix)
            if first:
                scale = self.mod.size_align(T)[0]
                first = False
            else:
                c = self.mod.resolve(cur)
                if c[0] == 's':
                    off, cur = self.mod.field_off(c, int(e))
                    const += off
                    continue
                cur = c[2]
                scale = self.mod.size_align(cur)[0]
            if self.isc(e):
                x = int(e)
                w = width(it)
                if x >> (w - 1):
                    x -= 1 << w
                const += x * scale
            else:
                terms.append((e, width(it), scale))
        if not terms:
            if const == 0:
                return ('code', ['%s = %s' % (dest, base)])
            if self.isc(base):
                return ('code', ['%s = %d' % (dest, (int(base) + const) & ((1 << 64) - 1))])
            return ('code', ['%s = %s + %d if type(%s) is int else X.bin(M, "add", %s, %d, 64)' % (
                dest, base, const, base, base, const & ((1 << 64) - 1))])
        return ('code', ['%s = X.gep(M, %s, %d, (%s))' % (dest, base, const, ''.join('(%s, %d, %d),' % t for t in terms))])

    def i_phi(self, p, dest):
        t = p.ty()
        inc = []
        while True:
            p.exp('[')
            v = p.op(t)
            p.exp(',')
            l = unq(p.next())
            p.exp(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return ('phi', dest, t, inc)

    def i_select(self, p, dest):
        ct = p.ty()
        c = self.o(ct, p.op(ct))
        p.exp(',')
        t = p.ty()
        a = self.o(t, p.op(t))
        p.exp(',')
        t2 = p.ty()
        b = self.o(t2, p.op(t2))
        if t[0] in ('i', 'p', 'f'):
            slow = 'X.select(M, %s, %s, %s, %d)' % (c, a, b, width(t))
        else:
            slow = '(%s if M.branch(%s) else %s)' % (a, c, b)
        return ('code', ['%s = (%s if %s else %s) if type(%s) is int else %s' % (dest, a, c, b, c, slow)])

    def i_freeze(self, p, dest):
        t = p.ty()
        a = self.o(t, p.op(t))
        return ('code', ['%s = 0 if %s is U else %s' % (dest, a, a)])

    def i_extractvalue(self, p, dest):
        t = p.ty()
        a = self.o(t, p.op(t))
        e = a
        while p.eat(','):
            if p.kind() == 'meta':
                break
            e += '[%s]' % p.next()
        return ('code', ['%s = %s' % (dest, e)])

    def i_insertvalue(self, p, dest):
        t = p.ty()
        a = self.o(t, p.op(t))
        p.exp(',')
        vt = p.ty()
        v = self.o(vt, p.op(vt))
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            idx.append(p.next())
        return ('code', ['%s = X.insert(%s, %s, (%s,))' % (dest, a, v, ','.join(idx))])

    def i_landingpad(self, p, dest):
        p.ty()
        cl = []
        cleanup = False
        while p.i < len(p.t):
            x = p.next()
            if x == 'cleanup':
                cleanup = True
            elif x == 'catch':
                t = p.ty()
                o = p.op(t)
                cl.append(self.o(t, o))
            elif x == 'filter':
                t = p.ty()
                o = p.op(t)
                cl.append('("filter",)')
            else:
                break
        return ('code', ['%s = M.landing(xe, (%s), %r)' % (dest, ''.join(c + ',' for c in cl), cleanup)])

    def i_resume(self, p, dest):
        t = p.ty()
        a = self.o(t, p.op(t))
        return ('term', [], 'raise', ['M.resume(%s)' % a])

    def i_unreachable(self, p, dest):
        return ('term', [], 'raise', ['M.unreachable()'])

    def i_ret(self, p, dest):
        if p.peek() == 'void':
            return ('term', [], 'ret', ['return None'])
        t = p.ty()
        return ('term', [], 'ret', ['return %s' % self.o(t, p.op(t))])

    def lab(self, p):
        assert p.next() == 'label'
        return unq(p.next())

    def i_br(self, p, dest):
        if p.peek() == 'label':
            return ('term', [self.lab(p)], 'br')
        t = p.ty()
        c = self.o(t, p.op(t))
        p.exp(',')
        a = self.lab(p)
        p.exp(',')
        b = self.lab(p)
        return ('term', [a, b], 'cbr', c)

    def i_switch(self, p, dest):
        t = p.ty()
        c = self.o(t, p.op(t))
        p.exp(',')
        d = self.lab(p)
        p.exp('[')
        cases = []
        while not p.eat(']'):
            ct = p.ty()
            cv = p.op(ct)
            p.exp(',')
            cases.append((cv[1], self.lab(p)))
        return ('term', [d] + [x[1] for x in cases], 'switch', (c, width(t), cases))

    def i_tail(self, p, dest):
        p.exp('call')
        return self.i_call(p, dest)

    i_musttail = i_notail = i_tail

    def call_parts(self, p, dest):
        # attrs / cc until type
        while True:
            k, v = p.t[p.i]
            if k == 'id' and not (v in ('ptr', 'void', 'float', 'double', 'half', 'x86_fp80', 'fp128') or re.fullmatch(r'i\d+', v)):
                p.i += 1
                if p.peek() == '(':
                    p.skip_paren()
                elif v == 'align' and p.kind() == 'num':
                    p.i += 1
            else:
                break
        rt = p.ty()
        while rt[0] == 'fn':
            rt = rt[1]
        callee = p.op(('p',))
        p.exp('(')
        args = []
        pre = []
        if not p.eat(')'):
            while True:
                if p.peek() == 'metadata':
                    d = 0
                    while True:
                        x = p.peek()
                        if d == 0 and x in (',', ')'):
                            break
                        if x in ('(', '{'):
                            d += 1
                        if x in (')', '}'):
                            d -= 1
                        p.next()
                    args.append('0')
                else:
                    t = p.ty()
                    byval = None
                    # scan attrs for byval
                    while True:
                        k, v = p.t[p.i]
                        if k == 'id' and v == 'byval':
                            p.next()
                            p.exp('(')
                            byval = p.ty()
                            p.exp(')')
                            continue
                        j = p.i
                        k, v = p.t[p.i]
                        from ir import CONST_WORDS
                        if k == 'id' and v not in CONST_WORDS:
                            p.i += 1
                            if v == 'align' and p.kind() == 'num':
                                p.i += 1
                            elif p.peek() == '(':
                                p.skip_paren()
                        elif k in ('str', 'attr'):
                            p.i += 1
                            if p.eat('='):
                                p.i += 1
                        else:
                            break
                    e = self.o(t, p.op(t))
                    if byval is not None:
                        s, a = self.mod.size_align(byval)
                        self.has_alloca = True
                        e = 'M.byval(fo, %s, %d, %d)' % (e, s, max(a, 8))
                    args.append(e)
                if p.eat(')'):
                    break
                p.exp(',')
        return rt, callee, args

    def call_code(self, p, dest):
        rt, callee, args = self.call_parts(p, dest)
        pre = '%s = ' % dest if dest else ''
        if callee[0] == 'asm':
            return [pre + 'M.asm(%r, %r, %s)' % (callee[1], callee[2], '(' + ''.join(a + ',' for a in args) + ')')]
        al = ''.join(', ' + a for a in args)
        if callee[0] == 'g':
            name = callee[1]
            name = self.prog.canon(name)
            if name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.lifetime') and False:
                return []
            if name.startswith('llvm.lifetime.start'):
                return ['M.life_start(%s)' % args[1]]
            if name.startswith('llvm.lifetime.end'):
                return ['M.life_end(%s)' % args[1]]
            if name.startswith('llvm.'):
                return [pre + 'M.intrinsic(%r, %s)' % (name, '(' + ''.join(a + ',' for a in args) + ')')]
            self.prog.note_callee(name)
            return [pre + 'FN[%r](M%s)' % (name, al)]
        e = self.o(('p',), callee)
        return [pre + 'M.icall(%s, (%s))' % (e, ''.join(a + ',' for a in args))]

    def i_call(self, p, dest):
        return ('code', self.call_code(p, dest))

    def i_invoke(self, p, dest):
        # split off "to label %x unwind label %y"
        code = self.call_code(p, dest)
        while p.peek() != 'to':
            p.next()
        p.next()
        n = self.lab(p)
        p.exp('unwind')
        u = self.lab(p)
        return ('term', [n, u], 'invoke', (code or ['pass'], n, u))


ORDERS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
