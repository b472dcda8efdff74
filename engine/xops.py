"""Operations on values that are Python ints, symbolic terms (class T) or UNDEF.

A T wraps a simplified z3 expression (Bool when w == 1, BitVec otherwise) and is interned, so that structurally equal
terms are the same object within a process; every operation is memoised on its operands.
"""
import z3


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()
M64 = (1 << 64) - 1
INTERN = {}
MEMO = {}


class T:
    __slots__ = ('e', 'w', 'neg')

    def __repr__(self):
        return str(self.e)


def wrap(e, w):
    """z3 expression -> int | T (e is simplified already or atomic)"""
    if z3.is_bv_value(e):
        return e.as_long()
    if w == 1:
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
    k = e.get_id()
    t = INTERN.get(k)
    if t is None:
        t = T()
        t.e = e
        t.w = w
        t.neg = None
        INTERN[k] = t
    return t


def norm(e, w=None):
    e = z3.simplify(e)
    if w is None:
        w = 1 if z3.is_bool(e) else e.size()
    return wrap(e, w)


def var(name, w):
    return wrap(z3.Bool(name) if w == 1 else z3.BitVec(name, w), w)


def reset_tables():
    if len(MEMO) > 400000 or len(INTERN) > 300000:
        MEMO.clear()
        INTERN.clear()


class CxxThrow(Exception):
    """a C++ exception in flight: obj = address of the exception object, tinfo = address of its type_info"""

    def __init__(self, obj, tinfo):
        self.obj = obj
        self.tinfo = tinfo


def bv(x, w):
    """as a z3 bit-vector of width w (a Bool becomes a 1-bit vector)"""
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if x.w == 1:
        return z3.If(x.e, z3.BitVecVal(1, max(w, 1)), z3.BitVecVal(0, max(w, 1)))
    return x.e


def boo(x):
    if type(x) is int:
        return z3.BoolVal(bool(x))
    return x.e


def bnot(t):
    if type(t) is int:
        return 1 - t
    n = t.neg
    if n is None:
        n = norm(z3.Not(t.e), 1)
        t.neg = n
        if type(n) is T and n.neg is None:
            n.neg = t
    return n


def band(*ts):
    return norm(z3.And([boo(t) for t in ts]), 1)


def bor(*ts):
    return norm(z3.Or([boo(t) for t in ts]), 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


BOPS = {'add': lambda A, B: A + B, 'sub': lambda A, B: A - B, 'mul': lambda A, B: A * B, 'and': lambda A, B: A & B,
        'or': lambda A, B: A | B, 'xor': lambda A, B: A ^ B, 'shl': lambda A, B: A << B, 'lshr': lambda A, B: z3.LShR(A, B),
        'ashr': lambda A, B: A >> B, 'udiv': lambda A, B: z3.UDiv(A, B), 'urem': lambda A, B: z3.URem(A, B),
        'sdiv': lambda A, B: A / B, 'srem': lambda A, B: z3.SRem(A, B)}


def bin(M, op, a, b, w):
    if a is UNDEF or b is UNDEF:
        # x & 0 stays defined
        if op == 'and' and ((type(a) is int and a == 0) or (type(b) is int and b == 0)):
            return 0
        return UNDEF
    mask = (1 << w) - 1
    if type(a) is int and type(b) is int:
        if op == 'add':
            return (a + b) & mask
        if op == 'sub':
            return (a - b) & mask
        if op == 'mul':
            return (a * b) & mask
        if op == 'shl':
            return (a << b) & mask if b < w else UNDEF
        if op == 'lshr':
            return a >> b if b < w else UNDEF
        if op == 'ashr':
            return (sgn(a, w) >> b) & mask if b < w else UNDEF
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if b == 0:
            M.violation('ub', 'division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = sgn(a, w), sgn(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return (q if op == 'sdiv' else sa - q * sb) & mask
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        M.require(icmp(M, 'ne', b, 0, w), 'ub', 'division by zero')
    k = (op, a, b, w)
    r = MEMO.get(k)
    if r is not None:
        return r
    if w == 1:
        A, B = boo(a), boo(b)
        if op in ('and', 'mul'):
            r = norm(z3.And(A, B), 1)
        elif op == 'or':
            r = norm(z3.Or(A, B), 1)
        elif op in ('xor', 'add', 'sub'):
            r = norm(z3.Xor(A, B), 1)
    else:
        r = norm(BOPS[op](bv(a, w), bv(b, w)), w)
    MEMO[k] = r
    return r


IOPS = {'eq': lambda A, B: A == B, 'ne': lambda A, B: A != B, 'ult': lambda A, B: z3.ULT(A, B), 'ule': lambda A, B: z3.ULE(A, B),
        'ugt': lambda A, B: z3.UGT(A, B), 'uge': lambda A, B: z3.UGE(A, B), 'slt': lambda A, B: A < B,
        'sle': lambda A, B: A <= B, 'sgt': lambda A, B: A > B, 'sge': lambda A, B: A >= B}


def icmp(M, pred, a, b, w):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is int and type(b) is int:
        if pred in ('eq', 'ne'):
            return int((a == b) == (pred == 'eq'))
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
    k = (pred, a, b, w)
    r = MEMO.get(k)
    if r is not None:
        return r
    if w == 1:
        e = boo(a) == boo(b)
        if pred not in ('eq', 'ne'):
            r = norm(IOPS[pred](bv(a, 1), bv(b, 1)), 1)
        else:
            r = norm(e if pred == 'eq' else z3.Not(e), 1)
    else:
        r = norm(IOPS[pred](bv(a, w), bv(b, w)), 1)
    MEMO[k] = r
    return r


def zext(a, w, w2):
    if a is UNDEF or type(a) is int:
        return a
    if w2 == w:
        return a
    k = ('zext', a, w2)
    r = MEMO.get(k)
    if r is None:
        if w == 1:
            r = wrap(z3.If(a.e, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)), w2)
        else:
            r = norm(z3.ZeroExt(w2 - w, a.e), w2)
        MEMO[k] = r
    return r


def trunc(a, w, w2):
    if a is UNDEF:
        return a
    if type(a) is int:
        return a & ((1 << w2) - 1)
    if w == w2:
        return a
    k = ('trunc', a, w2)
    r = MEMO.get(k)
    if r is None:
        if w2 == 1:
            r = norm(z3.Extract(0, 0, a.e) == 1, 1)
        else:
            r = norm(z3.Extract(w2 - 1, 0, a.e), w2)
        MEMO[k] = r
    return r


def sext(a, w, w2):
    if a is UNDEF:
        return a
    if type(a) is int:
        return sgn(a, w) & ((1 << w2) - 1)
    k = ('sext', a, w2)
    r = MEMO.get(k)
    if r is None:
        if w == 1:
            r = wrap(z3.If(a.e, z3.BitVecVal((1 << w2) - 1, w2), z3.BitVecVal(0, w2)), w2)
        else:
            r = norm(z3.SignExt(w2 - w, a.e), w2)
        MEMO[k] = r
    return r


def byte(v, i):
    if type(v) is int:
        return (v >> (8 * i)) & 255
    if v is UNDEF:
        return UNDEF
    k = ('byte', v, i)
    r = MEMO.get(k)
    if r is None:
        r = MEMO[k] = norm(z3.Extract(8 * i + 7, 8 * i, v.e), 8)
    return r


def concat(by):
    """little-endian list of 8-bit values -> value"""
    if len(by) == 1:
        return by[0]
    k = ('concat',) + tuple(by)
    r = MEMO.get(k)
    if r is None:
        r = MEMO[k] = norm(z3.Concat([bv(b, 8) for b in reversed(by)]), 8 * len(by))
    return r


def gep(M, base, const, terms):
    r = const
    for e, w, scale in terms:
        if e is UNDEF:
            return UNDEF
        if type(e) is int:
            r = r + sgn(e, w) * scale
        else:
            r = bin(M, 'add', r & M64 if type(r) is int else r, bin(M, 'mul', sext(e, w, 64) if w < 64 else e, scale & M64, 64), 64)
    return bin(M, 'add', base, r & M64 if type(r) is int else r, 64)


def select(M, c, a, b, w):
    if c is UNDEF:
        return UNDEF
    if type(c) is int:
        return a if c else b
    if a is UNDEF or b is UNDEF:
        return a if M.branch(c) else b
    k = ('select', c, a, b, w)
    r = MEMO.get(k)
    if r is None:
        if w == 1:
            r = norm(z3.If(c.e, boo(a), boo(b)), 1)
        else:
            r = norm(z3.If(c.e, bv(a, w), bv(b, w)), w)
        MEMO[k] = r
    return r


def insert(a, v, idx):
    if a is UNDEF:
        a = (UNDEF, UNDEF)
    l = list(a)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        l[idx[0]] = insert(l[idx[0]], v, idx[1:])
    return tuple(l)
