"""Concurrent programs: every thread's IR is executed symbolically with reads of shared memory as free symbols; all consistent
executions (C++20 / RC11-style axioms: coherence, RMW atomicity, release/acquire synchronisation incl. release sequences and
fences, no out-of-thin-air) are then one SMT problem in which reads-from, modification order and interleaving are variables.

A program is a group of functions c_NAME_init, c_NAME_t0 .. c_NAME_tN, c_NAME_post in a harness. init runs first and may
branch (each of its paths is one program instance); the threads run concurrently; post runs after all of them."""
import copy
import itertools
import multiprocessing as mp
import os
import re
import sys
import time
import z3
import creplay
import xops as X
from xops import UNDEF, CxxThrow
from machine import Machine, Obj, Violation, Infeasible, Inconclusive, MODELS, cstr, where
from codegen import Unsupported
from prog import Prog, SHIFT

VERB = os.environ.get('CONC_VERBOSE') == '2'
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


class Pruned(Exception):
    """a bound was reached, or the path needs a value nobody writes (yet)"""

    def __init__(self, why, site=None):
        Exception.__init__(self, why)
        self.why = why
        self.site = site


class Ev:
    __slots__ = ('id', 'tid', 'kind', 'obj', 'off', 'size', 'atomic', 'order', 'rv', 'wv', 'npc', 'pc', 'msg', 'chain', 'site',
                 'parent', 'depth', 'sd', 'cands', 'key', 'iter')

    def __repr__(self):
        return 'e%d(%s t%d o%s+%s)' % (self.id, self.kind, self.tid, self.obj, self.off)


class Shared:
    """what the exploration of the threads of one program instance has in common"""

    def __init__(self, prog, init, nthreads):
        self.prog = prog
        self.init = init            # Machine after c_init
        self.nthreads = nthreads
        self.evs = {}               # (tid, key) -> Ev
        self.ids = {}               # (tid, key) -> object id
        self.objinfo = {}           # id -> Obj template (thread allocated)
        self.writers = {}           # obj -> {(off,size): {tid: set(values)|None}}
        self.nid = 0
        self.changed = False
        self.feas = {}              # tid -> decision prefixes known to occur in consistent executions
        self.look = 3
        self.pckeys = {}            # path conditions by identity of their terms
        self.memo = {}
        self.alive = []
        self.numbers = set()        # (obj, off) of words of pointer size that hold numbers

    def note_write(self, tid, obj, off, size, v):
        w = self.writers.setdefault(obj, {}).setdefault((off, size), {})
        s = w.get(tid)
        if s is None:
            s = w[tid] = [set(), False]
            self.changed = True
        if type(v) is int:
            if v not in s[0]:
                s[0].add(v)
                self.changed = True
        elif not s[1]:
            s[1] = True
            self.changed = True


class EvMachine(Machine):
    event_mode = True

    def __init__(self, sh, tid, prefix, retries, max_events):
        self.sh = sh
        self.pck = 0
        Machine.__init__(self, sh.prog, prefix, 300000)
        self.tid = tid
        self.retries = retries
        self.max_events = max_events
        i = sh.init
        self.objs = {k: self.copy_obj(o) for k, o in i.objs.items()}
        for o in self.objs.values():
            o.owner = -1
        self.next_id = (tid + 1) << 28
        self.exc = {k: dict(v) for k, v in i.exc.items()}
        self.caught = list(i.caught)
        self.tids = dict(i.tids)
        self.pc = list(i.pc)
        self.known = dict(i.known)
        self.events = []
        self.nev = 0
        self.bcount = {}
        self.bmark = {}
        self.hist = {}
        self.post = tid == sh.nthreads
        self.cache = {}       # (obj,off,size) -> (value, acquire epoch, sync epoch) of plain accesses
        self.eacq = self.esync = 0
        self.frames = []
        self.wrote = {}
        self.lastpos = 0
        self.cutdone = False
        self.dirt = []
        self.waiting = None

    @staticmethod
    def copy_obj(o):
        n = Obj(o.id, o.base, o.size, o.kind, o.align, o.name)
        n.cells = dict(o.cells)
        n.state = o.state
        n.poison = list(o.poison) if o.poison else None
        n.const = o.const
        n.aligned_new = o.aligned_new
        return n

    # ---- queries, remembered across paths and rounds
    def add(self, c):
        Machine.add(self, c)
        k = (self.pck, id(c))
        self.pck = self.sh.pckeys.setdefault(k, len(self.sh.pckeys) + 1)
        self.sh.alive.append(c)

    def sat(self, c):
        k = (self.pck, id(c))
        r = self.sh.memo.get(k)
        if r is None:
            r = self.sh.memo[k] = Machine.sat(self, c)
            self.sh.alive.append(c)
        return r

    def values(self, v, limit):
        k = (self.pck, id(v), limit)
        r = self.sh.memo.get(k)
        if r is None:
            r = self.sh.memo[k] = Machine.values(self, v, limit)
            self.sh.alive.append(v)
        return r

    # ---- identity of events and objects along the decision tree
    def evkey(self, what):
        self.nev += 1
        return (what, self.nev, tuple(self.trace[:self.pos]))

    def too_many(self, what):
        # what is read from shared memory has as many values as the other threads have paths that write it
        raise Inconclusive('too many values of ' + what)

    def event(self, kind, obj=None, off=0, size=0, atomic=False, order='', rv=None, wv=None, msg=''):
        if self.pos != self.lastpos:
            self.lastpos = self.pos
            fs = self.sh.feas.get(self.tid)
            if fs is not None:
                t = tuple(self.trace[:self.pos])
                if t not in fs:
                    n = len(t)
                    k = 1
                    while k <= self.sh.look and n - k > 0 and t[:n - k] not in fs:
                        k += 1
                    if k > self.sh.look:
                        raise Pruned('cut')
        key = self.evkey(kind)
        k = (self.tid, key)
        e = self.sh.evs.get(k)
        if e is None:
            e = Ev()
            self.sh.nid += 1
            e.id = self.sh.nid
            e.key = key
            e.tid = self.tid
            self.sh.evs[k] = e
        e.kind, e.obj, e.off, e.size, e.atomic, e.order, e.msg = kind, obj, off, size, atomic, order, msg
        e.chain = self.callchain()
        e.rv, e.wv = rv, wv
        e.site = None
        e.pc = list(self.pc)
        if atomic or kind == 'D':
            self.esync += 1
            if order in ACQ:
                self.eacq += 1
        self.events.append(e)
        if len(self.events) > self.max_events:
            raise Pruned('event bound')
        return e

    @staticmethod
    def callchain():
        f = sys._getframe(2)
        out = []
        while f is not None:
            if f.f_code.co_name == 'F':
                out.append(f.f_code.co_filename)
            f = f.f_back
        return out[:4]

    # ---- objects
    def newobj(self, size, align, kind, name=''):
        if kind == 'heap':
            k = (self.tid, self.evkey('alloc'))
            i = self.sh.ids.get(k)
            if i is None:
                i = self.sh.ids[k] = ((self.tid + 1) << 28) + (1 << 27) + len(self.sh.ids)
            o = Obj(i, (i << SHIFT) + align, size, kind, align, name)
            o.owner = self.tid
            self.objs[i] = o
            self.sh.objinfo[i] = o
            e = self.event('A', i)
            return o
        o = Machine.newobj(self, size, align, kind, name)
        o.owner = self.tid
        return o

    def private(self, o):
        return o.kind in ('stack', 'exc', 'stream') and o.id >> 28 == self.tid + 1 or o.const

    def static_obj(self, i):
        o = Machine.static_obj(self, i)
        if o is not None:
            o.owner = -1
            return o
        t = self.sh.objinfo.get(i)
        if t is None:
            if (1 << 28) <= i:
                raise Unsupported('access to another thread\'s stack')
            return None
        o = Obj(t.id, t.base, t.size, t.kind, t.align, t.name)
        o.aligned_new = t.aligned_new
        o.owner = t.owner
        self.objs[i] = o
        return o

    # ---- values of shared locations
    def others(self, o, off, size):
        """what other threads (for post: all threads) may write to this location; None if nobody"""
        w = self.sh.writers.get(o.id)
        if not w:
            return None
        r = None
        for (wo, ws), by in w.items():
            if wo < off + size and off < wo + ws:
                bt = [t for t in by if t != self.tid]
                if not bt:
                    continue
                if (wo, ws) != (off, size):
                    raise Unsupported('shared accesses of different sizes to one location')
                if self.post and (o.id, off, size) in self.wrote:
                    continue        # after its own write nobody else writes any more
                r = [by[t] for t in bt]
        return r

    def readval(self, o, off, size, kind, order, atomic):
        """perform a read event; returns (value, event)"""
        by = self.others(o, off, size)
        if by is None:
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                v = c[1]
            else:
                v = self.load_slow(o, off, size)
                if v is UNDEF and o.owner not in (-1, self.tid):
                    raise Pruned('unwritten')
            e = self.event(kind, o.id, off, size, atomic, order, v)
            return v, e
        vals = set()
        sym = False
        for s in by:
            vals |= s[0]
            sym = sym or s[1]
        own = self.wrote.get((o.id, off, size))
        ini = self.initval(o, off, size) if own is None else own
        if ini is None:
            pass
        elif type(ini) is int:
            vals.add(ini)
        else:
            sym = True
        if not sym and not vals:
            raise Pruned('unwritten')
        if not sym and len(vals) == 1:
            v = next(iter(vals))
            return v, self.event(kind, o.id, off, size, atomic, order, v)
        # one symbol per event
        k = self.nev + 1
        e = self.event(kind, o.id, off, size, atomic, order, None)
        v = X.var('r%d_%d' % (self.tid, e.id), size * 8)
        e.rv = v
        if not sym and len(vals) <= 12:
            self.add(X.norm(z3.Or([v.e == x for x in sorted(vals)]), 1))
        return v, e

    def initval(self, o, off, size):
        io = self.sh.init.objs.get(o.id)
        if io is None:
            if o.id in self.sh.objinfo or o.kind != 'global':
                return None
            io = self.sh.init.static_obj(o.id)
        c = io.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        v = self.load_slow(io, off, size)
        return None if v is UNDEF else v

    def wr(self, o, off, size, v, kind, order, atomic, rv=None, e=None):
        v0 = v
        if v is not UNDEF and type(v) is not int and size == 8 and (o.id, off) not in self.sh.numbers:
            far = X.norm(z3.UGE(X.bv(v, 64) + (1 << SHIFT), 2 << SHIFT), 1)
            if kind == 'U' and (len(self.values(v, 64)) > 64 or (not far if type(far) is int else self.sat(far) == z3.unsat)):
                # not the address of an object: a counter, whose values stay symbolic
                self.sh.numbers.add((o.id, off))
                raise Renumber()
            v = self.conc(v, 'a pointer-sized value stored to shared memory')
        self.put(o, off, size, v)
        if atomic:
            self.cache.pop((o.id, off, size), None)
        else:
            for k in [k for k in self.cache if k[0] == o.id and k[1] < off + size and off < k[1] + k[2]]:
                del self.cache[k]
            self.cache[(o.id, off, size)] = (v, self.eacq, self.esync)
        self.sh.note_write(self.tid, o.id, off, size, v if v is not UNDEF else 0)
        self.wrote[(o.id, off, size)] = v if v is not UNDEF else 0
        if e is None:
            e = self.event(kind, o.id, off, size, atomic, order, rv, v if v is not UNDEF else 0)
        else:
            e.wv = v0       # the event is shared by the paths on which v has become concrete
        return e

    # ---- memory interface
    def load(self, a, size, al=1):
        if type(a) is not int:
            a = self.conc(a, 'an address to read from')
        o = self.find(a, size, al, 'read')
        if self.private(o):
            return Machine.load(self, a, size, al)
        off = a - o.base
        k = (o.id, off, size)
        c = self.cache.get(k)
        if c is not None and c[1] == self.eacq:
            # nothing was acquired since the last plain access: in an execution without data race the value is the same
            if c[2] != self.esync:
                self.event('R', o.id, off, size, False, 'na', c[0])
                self.cache[k] = (c[0], self.eacq, self.esync)
            return c[0]
        v = self.readval(o, off, size, 'R', 'na', False)[0]
        self.cache[k] = (v, self.eacq, self.esync)
        return v

    def store(self, a, size, v, al=1):
        if type(a) is not int:
            a = self.conc(a, 'an address to write to')
        o = self.find(a, size, al, 'write')
        if o.const:
            self.violation('const', 'write to a constant object ' + o.name)
        if self.private(o):
            self.put(o, a - o.base, size, v)
            return
        self.wr(o, a - o.base, size, v, 'W', 'na', False)

    def memcpy(self, d, s, n):
        n = self.conc(n, 'a memcpy length')
        if n == 0:
            return
        d = self.addr(d, 'an address to write to')
        s = self.addr(s, 'an address to read from')
        so = self.find(s, n, 1, 'read')
        do = self.find(d, n, 1, 'write')
        if self.private(so) and self.private(do):
            return Machine.memcpy(self, d, s, n)
        # piecewise, following the known layout, else 8-byte words
        parts = []
        off = 0
        base = s - so.base
        while off < n:
            c = so.cells.get(base + off) or do.cells.get(d - do.base + off)
            k = c[0] if c is not None and off + c[0] <= n else (8 if n - off >= 8 and (s + off) % 8 == 0 else 1)
            parts.append((off, k))
            off += k
        for off, k in parts:
            if self.private(so) and so.cells.get(base + off) is None and all(b is UNDEF for b in self.bytes_at(so, base + off, k)):
                continue
            v = self.load(s + off, k)
            self.store(d + off, k, v)

    def memset(self, d, v, n):
        n = self.conc(n, 'a memset length', 256)
        if n == 0:
            return
        d = self.addr(d, 'an address to write to')
        o = self.find(d, n, 1, 'write')
        if self.private(o):
            return Machine.memset(self, d, v, n)
        off = 0
        while off < n:
            c = o.cells.get(d - o.base + off)
            k = c[0] if c is not None and off + c[0] <= n else (8 if n - off >= 8 and (d + off) % 8 == 0 else 1)
            x = int.from_bytes(bytes([v]) * k, 'little')
            self.store(d + off, k, x)
            off += k

    # ---- atomics
    def aobj(self, a, size, what):
        a = self.addr(a, 'an address of an atomic access')
        o = self.find(a, size, size, what)
        return o, a - o.base

    def aload(self, a, size, al, ordr):
        o, off = self.aobj(a, size, 'read')
        if self.private(o):
            return Machine.load(self, a, size, al)
        return self.readval(o, off, size, 'R', ordr, True)[0]

    def astore(self, a, size, v, al, ordr):
        o, off = self.aobj(a, size, 'write')
        if self.private(o):
            return self.put(o, off, size, v)
        self.wr(o, off, size, v, 'W', ordr, True)

    def rmw(self, op, a, size, v, w, ordr):
        o, off = self.aobj(a, size, 'write')
        if self.private(o):
            return Machine.rmw(self, op, a, size, v, w, ordr)
        old, e = self.readval(o, off, size, 'U', ordr, True)
        if old is UNDEF:
            self.violation('uninit', 'atomic operation on an uninitialised value')
        new = self.rmwop(op, old, v, w)
        self.wr(o, off, size, new, 'U', ordr, True, e=e)
        return old

    def cmpxchg(self, a, size, c, n, weak, o1, o2):
        o, off = self.aobj(a, size, 'write')
        if self.private(o):
            return Machine.cmpxchg(self, a, size, c, n, weak, o1, o2)
        # outcome first (the order of the read depends on it); a weak exchange may fail whatever the value is
        if self.pos < self.npre:
            d = self.trace[self.pos]
        else:
            d = 1
            self.pending.append(self.trace + [0])
            self.trace.append(1)
        self.pos += 1
        if d == 1:
            old, e = self.readval(o, off, size, 'U', o1, True)
        else:
            old, e = self.readval(o, off, size, 'R', o2, True)
        if old is UNDEF:
            self.violation('uninit', 'atomic operation on an uninitialised value')
        eq = X.icmp(self, 'eq', old, c, size * 8)
        if d == 1:
            self.assume(eq)
            e.pc = list(self.pc)
            self.wr(o, off, size, n, 'U', o1, True, e=e)
            return (old, 1)
        if weak:
            e.site = eq         # spurious if this holds
        else:
            self.assume(X.bnot(eq))
            e.pc = list(self.pc)
        return (old, 0)

    def fence(self, ordr):
        self.event('F', None, atomic=True, order=ordr)

    def free(self, p, kind, size=None, align=None):
        p = self.addr(p, 'a pointer to free')
        if p == 0:
            return
        if self.objs.get(p >> SHIFT) is None:
            self.static_obj(p >> SHIFT)
        cells = self.objs.get(p >> SHIFT)
        keep = dict(cells.cells) if cells else None
        Machine.free(self, p, kind, size, align)
        self.objs[p >> SHIFT].cells = keep
        self.event('D', p >> SHIFT)

    # ---- assertions and bounds
    def ev_check(self, c, msg):
        self.checks += 1
        if type(c) is int:
            if not c:
                self.violation('check', cstr(self, msg))
            return
        if c is UNDEF:
            self.violation('uninit', 'checked value is uninitialised')
        self.symchecks += 1
        if self.known.get(c) == 1:
            return
        m = cstr(self, msg)
        e = self.event('X', None, msg='check: ' + m, wv=X.bnot(c))
        self.assume(c)

    def require(self, c, kind, msg):
        self.checks += 1
        if type(c) is int:
            if not c:
                self.violation(kind, msg)
            return
        self.event('X', None, msg=kind + ': ' + msg, wv=X.bnot(c))
        self.assume(c)

    # ---- loops
    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if not (c is not None and c[0] == size and (c[1] is v or type(v) is int and c[1] == v)):
            self.dirt.append(o)
        Machine.put(self, o, off, size, v)

    def clear(self, o, off, size):
        self.dirt.append(o)
        Machine.clear(self, o, off, size)

    def counted(self, site):
        """loops of the harness itself are bounded; others are counted"""
        fn = site.rsplit(':', 1)[0]
        return not (fn.startswith('c_') or fn.startswith('_ZL') and 'svlock' not in fn)

    def loopkey(self, site, f):
        self.frames.append(f)        # kept alive, so that its identity stays unique
        return (site, id(f))

    def loophead(self, site):
        if self.counted(site):
            k = self.loopkey(site, sys._getframe(1))
            self.bmark[k] = (len(self.events), len(self.dirt), self.next_id)
            self.bcount[k] = 0
            self.hist[k] = []

    def idle(self, m):
        """the iteration since mark m changed nothing: repeating it is waiting for another thread"""
        ne, nd, nid = m
        evs = self.events[ne:]
        if not any(e.atomic for e in evs):
            return False
        for e in evs:
            if e.kind == 'R' or e.kind == 'F':
                continue
            if e.kind == 'U' and e.rv is not None:
                if e.rv is e.wv or type(e.rv) is int and e.rv == e.wv:
                    continue
                if self.forced(X.icmp(self, 'eq', e.rv, e.wv, e.size * 8)):
                    continue
            return False
        for o in self.dirt[nd:]:
            if o.kind == 'stack' and (o.id >= nid or o.state == 2):
                continue            # a variable of the iteration
            if any(e.kind == 'U' and e.obj == o.id for e in evs) and o.kind != 'stack':
                continue            # the updates looked at above
            return False
        return True

    def forced(self, c):
        if type(c) is int:
            return bool(c)
        if self.known.get(c) == 1:
            return True
        return self.sat(X.bnot(c)) == z3.unsat

    def backedge(self, site, same=0):
        Machine.backedge(self, site)
        if not self.counted(site):
            return
        k = self.loopkey(site, sys._getframe(1))
        m = self.bmark.get(k)
        now = (len(self.events), len(self.dirt), self.next_id)
        self.bmark[k] = now
        evs = [e for e in self.events[m[0] if m else 0:] if e.atomic]
        if not evs and m is not None:
            return
        self.hist.setdefault(k, []).append([(e.kind, e.obj, e.off, e.rv) for e in evs])
        if m is not None and same and self.idle(m):
            self.waiting = evs
            raise Pruned('retry', k)
        n = self.bcount[k] = self.bcount.get(k, 0) + 1
        if n > self.retries:
            raise Pruned('retry', k)


class Renumber(Exception):
    """what the values of a word are has become known: start again"""


class Path:
    __slots__ = ('tid', 'trace', 'events', 'pc', 'end', 'msg', 'kind', 'chain', 'live', 'stuck', 'reached')


class TooMany(Exception):
    pass


def explore_thread(sh, tid, fn, retries, max_events, stats, deadline, max_paths=4000):
    paths = []
    stack = [[]]
    n = 0
    while stack:
        if time.time() > deadline:
            raise Inconclusive('time budget exhausted while exploring a thread')
        pre = stack.pop()
        n += 1
        if n > max_paths and max_paths < 4000:
            raise TooMany()
        if n > max_paths:
            raise Inconclusive('more than %d paths in a thread' % max_paths)
        M = EvMachine(sh, tid, pre, retries, max_events)
        p = Path()
        p.tid = tid
        p.msg = p.kind = None
        p.chain = []
        p.stuck = None
        try:
            try:
                sh.prog.FN[fn](M)
                p.end = 'ok'
            except CxxThrow as e:
                M.violation('terminate', 'exception %s escapes from a thread' % M.symname(e.tinfo))
        except Infeasible:
            p.end = 'infeasible'
        except Pruned as e:
            p.end = e.why
            if e.site:
                h = M.hist[e.site]
                if M.waiting is not None:
                    p.stuck = (h[-1], h[-1], M.waiting, M.waiting)
                elif len(h) >= 2 and len(h[-1]) == len(h[-2]) and all(a[:3] == b[:3] for a, b in zip(h[-1], h[-2])):
                    k = len(h[-1])
                    at = [x for x in M.events if x.atomic]
                    p.stuck = (h[-2], h[-1], at[-k:] if k else [], at[-2 * k:])
        except Violation as v:
            p.end = 'violation'
            p.kind, p.msg = v.kind, v.msg
            p.chain = where()
        p.events = M.events
        p.trace = tuple(M.trace[:M.pos])
        p.pc = list(M.pc)
        p.live = [o.id for o in M.objs.values() if o.kind == 'heap' and o.state == 1 and o.owner == tid]
        p.reached = set(M.reached)
        stats['n'] += M.n
        stats['queries'] += M.queries
        stats['qtime'] += M.qtime
        stats['checks'] += M.checks
        stack.extend(M.pending)
        if p.end != 'infeasible':
            paths.append(p)
    return paths


def explore_all(sh, *args):
    while True:
        try:
            return explore_all1(sh, *args)
        except Renumber:
            sh.writers.clear()
            sh.evs.clear()


def explore_all1(sh, names, retries, max_events, stats, deadline):
    """paths of every thread that occur in consistent executions: the least set closed under extension by one step (every prefix
    of a consistent execution is one). A decision is followed beyond the lookahead only when the solver has found an execution
    with it; what no execution takes is dropped when nothing new can be added."""
    T = len(names) - 1
    # small programs: all paths at once
    try:
        sh.feas = {}
        for it in range(40):
            sh.changed = False
            allp = [explore_thread(sh, t, fn, retries, max_events, stats, deadline, 60) for t, fn in enumerate(names)]
            if sum(len(p) for p in allp) > 100:
                break
            if not sh.changed:
                return allp
    except TooMany:
        pass
    sh.writers.clear()
    sh.evs.clear()
    sh.feas = {t: {()} for t in range(T + 1)}
    allp = [None] * (T + 1)
    allp[T] = []
    for stage in (list(range(T)), [T]):
        rounds = 0
        while True:
            rounds += 1
            if rounds > 200:
                raise Inconclusive('no fixpoint over the paths of the threads')
            sh.changed = False
            for t in stage:
                allp[t] = explore_thread(sh, t, names[t], retries, max_events, stats, deadline)
            if sh.changed:
                continue
            cuts = [p for t in stage for p in allp[t] if p.end == 'cut']
            if not cuts:
                break
            new = settle(sh, allp, cuts, stats, deadline)
            if not new:
                break
        stats['rounds'] = stats.get('rounds', 0) + rounds
        for t in stage:
            allp[t] = [p for p in allp[t] if p.end != 'cut']
    return allp


def settle(sh, allp, cuts, stats, deadline):
    """which of the paths cut off so far belong to consistent executions"""
    enc = Encoding(sh, allp, stats)
    s = make_solver(max(5, deadline - time.time()))
    for c in enc.cons:
        s.add(c)
    todo = []
    for p, ev in enc.leaves:
        if p.end == 'cut':
            todo.append((z3.Bool('q%d' % len(todo)), p, enc.at(p.tid, ev, p.pc)))
            s.add(z3.Implies(todo[-1][0], todo[-1][2]))
    new = False
    while todo:
        if new:
            s.set('timeout', 8000)          # more will be found in the next round
        t = time.time()
        s.push()
        s.add(z3.Or([q for q, _, _ in todo]))
        r = s.check()
        stats['queries'] += 1
        stats['qtime'] += time.time() - t
        if VERB:
            print('    settle', len(enc.events), len(todo), r, '%.2f' % (time.time() - t))
        if r == z3.unsat:
            s.pop()
            break
        if r != z3.sat:
            s.pop()
            if new:
                break
            if time.time() > deadline:
                raise Inconclusive('time budget exhausted while exploring the threads')
            for _, p, _ in todo:            # undecided: follow them
                confirm(sh, p)
            return True
        m = s.model()
        s.pop()
        rest = []
        for q, p, c in todo:
            if z3.is_true(m.eval(q)) or z3.is_true(m.eval(c, model_completion=True)):
                confirm(sh, p)
                new = True
            else:
                rest.append((q, p, c))
        todo = rest
    return new


def confirm(sh, p):
    fs = sh.feas[p.tid]
    for i in range(len(p.trace) + 1):
        fs.add(p.trace[:i])


def conj(ts):
    return z3.And([t.e for t in ts]) if ts else z3.BoolVal(True)


class Encoding:
    """consistent executions of one program instance as an SMT problem"""

    def __init__(self, sh, allp, stats):
        self.sh = sh
        self.allp = allp
        self.stats = stats
        self.T = sh.nthreads
        self.cons = []
        self.build()

    # ---- which events matter, and their tree
    def build(self):
        sh, T = self.sh, self.T
        acc = {}      # obj -> (off,size) -> {tid: 'r'|'w' set}
        freed = {}
        for ps in self.allp:
            for p in ps:
                for e in p.events:
                    if e.kind == 'U' and e.wv is None:
                        e.wv = e.rv         # the path ended in a violation at this operation
                    if e.kind in ('R', 'W', 'U'):
                        d = acc.setdefault(e.obj, {}).setdefault((e.off, e.size), {})
                        s = d.setdefault(e.tid, set())
                        s.add('w' if e.kind in 'WU' else 'r')
                        if e.atomic and e.order in REL + ACQ:
                            s.add('s')
                    elif e.kind == 'D':
                        freed.setdefault(e.obj, set()).add(e.tid)
        # overlapping accesses of different sizes
        for o, locs in acc.items():
            ks = list(locs)
            for a, b in itertools.combinations(ks, 2):
                if a[0] < b[0] + b[1] and b[0] < a[0] + a[1]:
                    ta, tb = locs[a], locs[b]
                    if any(x != y and ('w' in ta[x] or 'w' in tb[y]) for x in ta for y in tb):
                        raise Unsupported('shared accesses of different sizes to one location')

        def needed(e):
            if e.kind in ('F', 'X', 'A', 'D'):
                return True
            by = acc[e.obj][(e.off, e.size)]
            if any(t != e.tid and ('w' in s or e.kind in 'WU') for t, s in by.items()):
                return True
            if any(t != e.tid for t in freed.get(e.obj, ())):
                return True
            return False

        self.kept = {}
        self.leaves = []
        # the tree of kept events
        for ps in self.allp:
            for p in ps:
                par = None
                d = 0
                ev = []
                for e in p.events:
                    if not needed(e):
                        continue
                    d += 1
                    if e.id not in self.kept:
                        e.parent = par
                        e.depth = d
                        self.kept[e.id] = e
                    ev.append(e)
                    par = e
                self.leaves.append((p, ev))
        # plain accesses in a row, without a branch in between, happen together: one segment
        nk = {}
        for e in self.kept.values():
            if e.parent is not None:
                nk[e.parent.id] = nk.get(e.parent.id, 0) + 1

        def plain(e):
            return e.kind in 'RWA' and not e.atomic
        self.seg = {}
        for e in sorted(self.kept.values(), key=lambda e: (e.tid, e.depth)):
            p = e.parent
            if p is not None and plain(e) and plain(p) and nk[p.id] == 1:
                self.seg[e.id] = self.seg[p.id]
                e.sd = p.sd
            else:
                self.seg[e.id] = e.id
                e.sd = p.sd + 1 if p is not None else 1
        self.maxdepth = max([e.sd for e in self.kept.values()] + [1])
        self.VB = max(3, (self.maxdepth + 2).bit_length())
        self.TOP = (1 << self.VB) - 1
        evs = sorted(self.kept.values(), key=lambda e: (e.tid, e.depth))
        self.events = evs
        C = self.cons.append
        for t in sh.init.pc:
            C(t.e)
        self.ex = {e.id: z3.Bool('x%d' % self.seg[e.id]) for e in evs}
        # anc sets
        self.anc = {}
        for e in evs:
            self.anc[e.id] = (self.anc[e.parent.id] | {e.parent.id}) if e.parent is not None else frozenset()
        # completion of a thread
        self.complete = []
        for t in range(T + 1):
            alts = []
            for p, ev in self.leaves:
                if p.tid == t and p.end == 'ok':
                    alts.append(self.at(p.tid, ev, p.pc))
            c = z3.Bool('done%d' % t)
            C(z3.Implies(c, z3.Or(alts) if alts else z3.BoolVal(False)))
            self.complete.append(c)
        alldone = z3.And(self.complete[:T])
        C(z3.Implies(self.complete[T], alldone))
        for e in evs:
            x = self.ex[e.id]
            par = e.parent
            if par is not None:
                if self.seg[par.id] != self.seg[e.id]:
                    C(z3.Implies(x, self.ex[par.id]))
                seen = set(id(t) for t in par.pc)
                pc = [t for t in e.pc if id(t) not in seen]
            else:
                pc = e.pc
                if e.tid == T:
                    C(z3.Implies(x, alldone))
            if pc:
                C(z3.Implies(x, conj(pc)))
        # two children of one event are never both executed, even where their path conditions do not say so
        kids = {}
        for e in evs:
            kids.setdefault((e.tid, e.parent.id if e.parent else 0), []).append(e)
        for l in kids.values():
            if len(l) > 1:
                for a, b in itertools.combinations(l, 2):
                    C(z3.Not(z3.And(self.ex[a.id], self.ex[b.id])))
        self.memory_model()

    def at(self, tid, ev, pc):
        """the execution has performed exactly this path's events"""
        c = [conj(pc)]
        if ev:
            c.append(self.ex[ev[-1].id])
        if tid == self.T:
            c.append(z3.And(self.complete[:self.T]))
        return z3.And(c)

    def bvv(self, n):
        return z3.BitVecVal(n, self.VB)

    def vmax(self, a, b):
        return [x if x is y or z3.eq(x, y) else z3.If(z3.UGE(x, y), x, y) for x, y in zip(a, b)]

    def memory_model(self):
        sh, T = self.sh, self.T
        C = self.cons.append
        evs = self.events
        zero = [self.bvv(0)] * T
        locs = {}
        for e in evs:
            if e.kind in ('R', 'W', 'U'):
                locs.setdefault((e.obj, e.off, e.size), []).append(e)
        self.locs = locs
        # widths: how many writes of one location / how many segments one execution can have
        perloc = {}
        persd = {}
        for p, ev in self.leaves:
            n = {}
            for e in ev:
                if e.kind in 'WU':
                    k = (e.obj, e.off, e.size)
                    n[k] = n.get(k, 0) + 1
            for k, c in n.items():
                d = perloc.setdefault(k, [0] * (T + 1))
                d[p.tid] = max(d[p.tid], c)
            persd[p.tid] = max(persd.get(p.tid, 0), ev[-1].sd if ev else 0)
        MB = (max([sum(d) for d in perloc.values()] + [1]) + 1).bit_length()
        TB = (sum(persd.values()) + 3).bit_length()
        mo = {}
        mor = {}
        ts = {}
        self.mo, self.mor, self.ts = mo, mor, ts
        rf = {}
        self.rf = rf
        winit = {}
        self.winit = winit
        sync = [e for e in evs if e.kind in ('R', 'W', 'U')]
        for e in evs:
            ts[e.id] = z3.BitVec('ts%d' % self.seg[e.id], TB)
            if self.seg[e.id] != e.id:
                continue
            if e.parent is not None:
                C(z3.ULT(ts[e.parent.id], ts[e.id]))
            C(z3.ULT(ts[e.id], z3.BitVecVal((1 << TB) - 2, TB)))
        nacc = 0
        for loc, l in locs.items():
            writers = [e for e in l if e.kind in 'WU']
            for e in writers:
                mo[e.id] = z3.BitVec('mo%d' % e.id, MB)
                C(z3.UGT(mo[e.id], z3.BitVecVal(0, MB)))
                C(z3.ULT(mo[e.id], z3.BitVecVal(sum(perloc[loc]) + 1 if writers else 1, MB)))
            for a, b in itertools.combinations(writers, 2):
                if a.tid == b.tid:
                    if a.id in self.anc[b.id]:
                        C(z3.Implies(self.ex[b.id], z3.ULT(mo[a.id], mo[b.id])))
                        continue
                    if b.id in self.anc[a.id]:
                        C(z3.Implies(self.ex[a.id], z3.ULT(mo[b.id], mo[a.id])))
                        continue
                    continue      # different branches: never both executed
                C(z3.Implies(z3.And(self.ex[a.id], self.ex[b.id]), mo[a.id] != mo[b.id]))
            iv = self.init_of(loc)
            winit[loc] = iv
            for r in l:
                if r.kind not in 'RU':
                    continue
                mor[r.id] = z3.BitVec('mor%d' % r.id, MB)
                alts = []
                rv = X.bv(r.rv, r.size * 8) if r.rv is not UNDEF and r.rv is not None else None
                if iv is not None:
                    b = z3.Bool('rf0_%d' % r.id)
                    rf[(0, r.id)] = b
                    alts.append(b)
                    C(z3.Implies(b, mor[r.id] == 0))
                    if rv is not None:
                        C(z3.Implies(b, rv == X.bv(iv, r.size * 8)))
                for w in writers:
                    if w.id == r.id or r.id in self.anc[w.id] or (w.tid == r.tid and w.id not in self.anc[r.id]):
                        continue
                    if w.tid == T and r.tid != T:
                        continue
                    if type(r.rv) is int and type(w.wv) is int and r.rv != w.wv:
                        continue
                    b = z3.Bool('rf%d_%d' % (w.id, r.id))
                    rf[(w.id, r.id)] = b
                    alts.append(b)
                    cs = [mor[r.id] == mo[w.id]]
                    if self.seg[w.id] != self.seg[r.id]:
                        cs += [self.ex[w.id], z3.ULT(ts[w.id], ts[r.id])]
                    if rv is not None:
                        cs.append(rv == X.bv(w.wv, w.size * 8))
                    C(z3.Implies(b, z3.And(cs)))
                if r.rv is UNDEF:
                    # uninitialised padding or the like: nothing depends on it
                    C(mor[r.id] == 0)
                    continue
                if not alts:
                    # reads its own unshared value (no foreign writer), or nothing
                    if iv is None and not writers:
                        C(mor[r.id] == 0)
                        continue
                    C(z3.Not(self.ex[r.id]))
                    continue
                C(z3.Implies(self.ex[r.id], z3.Or(alts)))
                for x, y in itertools.combinations(alts, 2):
                    C(z3.Not(z3.And(x, y)))
                if r.kind == 'U':
                    C(z3.Implies(self.ex[r.id], mo[r.id] == mor[r.id] + 1))
        # ---- happens before as vector clocks (positions in the executed path of each thread)
        self.vc = {}        # after e
        rvc = {}            # what a reader that acquires gets
        relf = {}           # clock of the last release fence up to e (or None)
        pend = {}           # clock an acquire fence after e would obtain
        full = [self.bvv(self.TOP)] * T
        rfvc = {}
        for e in evs:       # topological within a thread; cross-thread clocks are variables
            if e.parent is not None:
                v = self.vc[e.parent.id]
                rl = relf[e.parent.id]
                pd = pend[e.parent.id]
            else:
                v = full if e.tid == T else zero
                rl = None
                pd = zero
            if e.tid < T:
                v = list(v)
                v[e.tid] = self.bvv(e.sd)
            if e.kind in 'RU' and e.atomic and e.tid < T:
                # the own component matters only to a release sequence that this operation continues
                got = [z3.BitVec('g%d_%d' % (e.id, t), self.VB) if t != e.tid or e.kind == 'U' and e.order not in REL else self.bvv(0)
                       for t in range(T)]
                rfvc[e.id] = got
                got = [g if t != e.tid else self.bvv(0) for t, g in enumerate(got)]
                if e.order in ACQ:
                    v = self.vmax(v, got)
                pd = self.vmax(pd, got)
            if e.kind == 'F':
                if e.order in ACQ:
                    v = self.vmax(v, pd)
                    v = list(v)
                    if e.tid < T:
                        v[e.tid] = self.bvv(e.sd)
                if e.order in REL:
                    rl = v
            self.vc[e.id] = v
            relf[e.id] = rl
            pend[e.id] = pd
            if e.kind in 'WU' and e.atomic and e.tid < T:
                own = v if e.order in REL else rl
                if e.kind == 'U':
                    own = rfvc[e.id] if own is None else self.vmax(own, rfvc[e.id])
                rvc[e.id] = own
        for (w, r), b in rf.items():
            if r not in rfvc:
                continue
            e = self.kept[r]
            src = rvc.get(w) if w else None
            cs = []
            for t in range(T):
                if z3.is_bv_value(rfvc[r][t]):
                    continue
                cs.append(rfvc[r][t] == (src[t] if src is not None else self.bvv(0)))
            if cs:
                C(z3.Implies(b, z3.And(cs)))
        # ---- coherence
        for loc, l in locs.items():
            for a, b in itertools.permutations(l, 2):
                if b.kind == 'R' and a.kind == 'R' and not (a.atomic and b.atomic):
                    pass
                if a.tid == b.tid:
                    if a.id not in self.anc[b.id]:
                        continue
                    cond = self.ex[b.id]
                else:
                    if a.tid == T:
                        continue
                    h = self.hb(a, b)
                    if z3.is_false(h):
                        continue
                    cond = z3.And(self.ex[a.id], self.ex[b.id], h)
                cs = []
                if a.kind in 'WU' and b.kind in 'WU':
                    cs.append(z3.ULT(mo[a.id], mo[b.id]))
                if a.kind in 'WU' and b.kind == 'R':
                    cs.append(z3.ULE(mo[a.id], mor[b.id]))
                if a.kind == 'R' and b.kind in 'WU':
                    cs.append(z3.ULT(mor[a.id], mo[b.id]))
                if a.kind == 'R' and b.kind == 'R':
                    cs.append(z3.ULE(mor[a.id], mor[b.id]))
                C(z3.Implies(cond, z3.And(cs)))
        # ---- seq_cst: a total order over the SC events, consistent with happens-before and with mo/rf/fr
        sc = [e for e in evs if e.order == 'seq_cst']
        self.sc = {}
        if len(sc) > 1 and any(a.tid != b.tid for a, b in itertools.combinations(sc, 2)):
            S = self.sc
            for e in sc:
                S[e.id] = z3.BitVec('sc%d' % e.id, 8)
            for a, b in itertools.combinations(sc, 2):
                if a.tid == b.tid and a.id not in self.anc[b.id] and b.id not in self.anc[a.id]:
                    continue
                C(S[a.id] != S[b.id])
            scacc = [(e, e, e) for e in sc if e.kind != 'F']
            fences = [e for e in sc if e.kind == 'F']
            # (event ordered in S, access x, where access x is after / before it)
            before = [(e, e) for e in sc if e.kind != 'F']      # S-event e "is followed by" access x
            after = list(before)
            for f in fences:
                for l in locs.values():
                    for x in l:
                        if x.tid == f.tid and f.id in self.anc[x.id]:
                            before.append((f, x))
                        if x.tid == f.tid and x.id in self.anc[f.id]:
                            after.append((f, x))
            for a, b in itertools.permutations(sc, 2):
                if a.tid == b.tid:
                    if a.id in self.anc[b.id]:
                        C(z3.Implies(self.ex[b.id], z3.ULT(S[a.id], S[b.id])))
                elif a.tid != T and b.tid != T:
                    C(z3.Implies(z3.And(self.ex[a.id], self.ex[b.id], self.hb(a, b)), z3.ULT(S[a.id], S[b.id])))
            for (fa, a) in before:
                for (fb, b) in after:
                    if fa is fb or a is b or (a.obj, a.off, a.size) != (b.obj, b.off, b.size) or a.tid == b.tid:
                        continue
                    eco = []
                    if a.kind in 'WU' and b.kind in 'WU':
                        eco.append(z3.ULT(mo[a.id], mo[b.id]))
                    if a.kind in 'WU' and b.kind in 'RU':
                        eco.append(z3.ULE(mo[a.id], mor[b.id]))
                    if a.kind in 'RU' and b.kind in 'WU':
                        eco.append(z3.ULT(mor[a.id], mo[b.id]))
                    if a.kind == 'R' and b.kind == 'R':
                        eco.append(z3.ULT(mor[a.id], mor[b.id]))
                    if eco:
                        C(z3.Implies(z3.And(self.ex[fa.id], self.ex[fb.id], self.ex[a.id], self.ex[b.id], z3.Or(eco)),
                                     z3.ULT(S[fa.id], S[fb.id])))

    def hb(self, a, b):
        """a happens before b (different threads), both executed"""
        if a.tid == self.T:
            return z3.BoolVal(False)
        if b.tid == self.T:
            return z3.BoolVal(True)
        v = self.vc[b.id][a.tid]
        if z3.is_bv_value(v):
            return z3.BoolVal(v.as_long() >= a.sd)
        return z3.UGE(v, self.bvv(a.sd))

    def init_of(self, loc):
        o, off, size = loc
        io = self.sh.init.objs.get(o)
        if io is None:
            if o in self.sh.objinfo:
                return None
            io = self.sh.init.static_obj(o)
            if io is None:
                return None
        c = io.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        v = self.sh.init.load_slow(io, off, size)
        return None if v is UNDEF else v

    # ---- what must not happen
    def bad(self):
        """[(condition, kind, message, events)]"""
        T = self.T
        out = []
        frees = {}
        accs = {}
        for e in self.events:
            if e.kind == 'D':
                frees.setdefault(e.obj, []).append(e)
            elif e.kind in ('R', 'W', 'U'):
                accs.setdefault(e.obj, []).append(e)
            elif e.kind == 'X':
                # the check is evaluated where its predecessor was executed
                out.append((z3.And(self.ex[e.id], conj([t for t in e.pc if t is not None]), X.boo(e.wv)), 'check', e.msg, [e]))
        # failing checks: their event's own guard does not include the check itself
        races = {}
        for loc, l in self.locs.items():
            for a, b in itertools.combinations(l, 2):
                if a.tid == b.tid or T in (a.tid, b.tid):
                    continue
                if a.kind == 'R' and b.kind == 'R' or a.atomic and b.atomic:
                    continue
                races.setdefault((self.seg[a.id], self.seg[b.id]), (a, b, loc))
        for a, b, loc in races.values():
            h1, h2 = self.hb(a, b), self.hb(b, a)
            c = z3.And(self.ex[a.id], self.ex[b.id], z3.Not(h1), z3.Not(h2))
            out.append((c, 'race', 'data race: %s and %s of %s' % (self.what(a), self.what(b), self.locname(loc)), [a, b]))
        for o, fs in frees.items():
            for f in fs:
                segs = set()
                for a in accs.get(o, ()):
                    if a.tid == f.tid or self.seg[a.id] in segs:
                        continue        # the thread's own accesses: found while executing it
                    segs.add(self.seg[a.id])
                    c = z3.And(self.ex[f.id], self.ex[a.id], z3.Not(self.hb(a, f)))
                    out.append((c, 'uaf', '%s not ordered before the release of its memory (%s)' % (self.what(a), self.objname(o)), [a, f]))
            for a, b in itertools.combinations(fs, 2):
                if a.tid != b.tid:
                    out.append((z3.And(self.ex[a.id], self.ex[b.id]), 'doublefree', 'memory released twice (%s)' % self.objname(o), [a, b]))
        # leaks
        fin = self.complete[T]
        heap = {o.id for o in self.sh.init.objs.values() if o.kind == 'heap' and o.state == 1} if not self.sh.init.allow_leak else set()
        for o in heap:
            c = z3.And([fin] + [z3.Not(self.ex[f.id]) for f in frees.get(o, ())])
            out.append((c, 'leak', 'memory never released (%s)' % self.objname(o), []))
        if not self.sh.init.allow_leak:
            for e in self.events:
                if e.kind == 'A':
                    c = z3.And([fin, self.ex[e.id]] + [z3.Not(self.ex[f.id]) for f in frees.get(e.obj, ())])
                    out.append((c, 'leak', 'memory never released (allocated in thread %d)' % e.tid, [e]))
        # errors inside a thread
        for p, ev in self.leaves:
            if p.end == 'violation':
                out.append((self.at(p.tid, ev, p.pc), p.kind, p.msg + ' in ' + ' < '.join(reversed(p.chain[-3:])), ev[-1:]))
            elif p.end == 'unwritten':
                out.append((self.at(p.tid, ev, p.pc), 'uninit', 'read of memory nobody has written', ev[-1:]))
        # everybody stuck
        st = {}
        for p, ev in self.leaves:
            if p.end == 'retry' and p.stuck and p.tid < T:
                h1, h2, evs, last = p.stuck
                c = [self.at(p.tid, ev, p.pc)] + [X.boo(X.bnot(x.site)) for x in last if x.site is not None]
                ok = True
                for a, b in zip(h1, h2):
                    if a[3] is None:
                        continue
                    if type(a[3]) is int and type(b[3]) is int:
                        if a[3] != b[3]:
                            ok = False
                    else:
                        s = 8 * 8
                        w = a[3].w if type(a[3]) is X.T else b[3].w
                        c.append(X.bv(a[3], w) == X.bv(b[3], w))
                if not ok:
                    continue
                for e in evs:
                    if e.kind not in 'RU' or e.rv is None:
                        continue
                    loc = (e.obj, e.off, e.size)
                    for w in self.locs.get(loc, ()):
                        if w.kind in 'WU' and w.id != e.id and w.tid != T:
                            c.append(z3.Implies(z3.And(self.ex[w.id], z3.UGT(self.mo[w.id], self.mor[e.id])) if e.id in self.mor else self.ex[w.id],
                                                X.bv(w.wv, w.size * 8) == X.bv(e.rv, e.size * 8)))
                    if e.kind == 'U' and e.wv is not None:
                        c.append(X.bv(e.wv, e.size * 8) == X.bv(e.rv, e.size * 8))
                st.setdefault(p.tid, []).append((z3.And(c), ev))
        if st:
            conds = []
            any_ = []
            for t in range(T):
                s = z3.Or([c for c, _ in st.get(t, [])]) if t in st else z3.BoolVal(False)
                conds.append(z3.Or(self.complete[t], s))
                any_.append(s)
            out.append((z3.And(z3.Or(any_), *conds), 'hang', 'threads wait for ever: ' + ', '.join('t%d' % t for t in sorted(st)),
                        []))
        return out

    def what(self, e):
        k = {'R': 'read', 'W': 'write', 'U': 'atomic update'}.get(e.kind, e.kind)
        return '%s%s in thread %d (%s)' % ('atomic ' if e.atomic and e.kind != 'U' else '', k, e.tid, short(e.chain))

    def objname(self, o):
        io = self.sh.init.objs.get(o) or self.sh.objinfo.get(o)
        if io is None:
            return 'object %d' % o
        return '%s %s, %s bytes' % (io.kind, io.name, io.size)

    def locname(self, loc):
        return '%s at offset %d' % (self.objname(loc[0]), loc[1])

    def sc_constraints(self):
        """the execution is an interleaving: every read sees the latest write in the global order"""
        c = []
        evs = [e for e in self.events]
        for a, b in itertools.combinations(evs, 2):
            if a.tid != b.tid:
                c.append(self.ts[a.id] != self.ts[b.id])
        for loc, l in self.locs.items():
            ws = [e for e in l if e.kind in 'WU']
            for a, b in itertools.permutations(ws, 2):
                if a.tid != b.tid:
                    c.append(z3.Implies(z3.And(self.ex[a.id], self.ex[b.id], z3.ULT(self.mo[a.id], self.mo[b.id])),
                                        z3.ULT(self.ts[a.id], self.ts[b.id])))
            for r in l:
                if r.kind in 'RU' and r.id in self.mor:
                    for w in ws:
                        if w.id != r.id and w.tid != r.tid:
                            c.append(z3.Implies(z3.And(self.ex[r.id], self.ex[w.id], z3.UGT(self.mo[w.id], self.mor[r.id])),
                                                z3.ULT(self.ts[r.id], self.ts[w.id])))
        return c


def short(chain):
    import subprocess
    if not chain:
        return '?'
    if chain[0] not in DEM:
        DEM[chain[0]] = subprocess.run(['c++filt', chain[0]], stdout=subprocess.PIPE, text=True).stdout.strip()
    s = DEM[chain[0]]
    s = re.sub(r'\(.*$', '', s) if len(s) > 60 else s
    return s[-70:]


DEM = {}


def make_solver(timeout):
    s = z3.SolverFor('QF_BV')
    s.set('timeout', int(timeout * 1000))
    return s


def schedule_of(enc, m):
    """executed events in the global order of the model, as text and as (tid, kind) steps"""
    ex = [e for e in enc.events if z3.is_true(m.eval(enc.ex[e.id], model_completion=True))]
    ex.sort(key=lambda e: (m.eval(enc.ts[e.id], model_completion=True).as_long(), e.tid, e.depth))
    out = []
    steps = []

    def val(v):
        if v is None or v is UNDEF:
            return '?'
        if type(v) is int:
            return '%#x' % v
        return '%#x' % m.eval(X.bv(v, v.w), model_completion=True).as_long()
    def spurious(e):
        return e.site is not None and z3.is_true(m.eval(X.boo(e.site), model_completion=True))

    for e in ex:
        d = {'R': 'read', 'W': 'write', 'U': 'rmw', 'F': 'fence', 'D': 'release of memory', 'A': 'allocation', 'X': 'check'}[e.kind]
        s = 'T%s %s%s' % (e.tid if e.tid < enc.T else 'post', d, ' ' + e.order if e.atomic else '')
        if e.kind in 'RWU':
            s += ' [%s+%d/%d]' % (enc.objname(e.obj), e.off, e.size)
            if e.kind in 'RU':
                s += ' = %s' % val(e.rv)
            if e.kind in 'WU':
                s += ' := %s' % val(e.wv)
        elif e.kind == 'D':
            s += ' %s' % enc.objname(e.obj)
        elif e.kind == 'X':
            s += ' ' + e.msg
        s += '   in ' + short(e.chain)
        out.append(s)
        if e.atomic and e.tid < enc.T:
            steps.append((e.tid, int(spurious(e))))
    # for every thread: which of its atomic operations are part of the schedule (K) and which touch nothing the others use (N;
    # S: and fail spuriously)
    flags = []
    for t in range(enc.T):
        ids = [e.id for e in ex if e.tid == t]
        best = (-1, '')
        for p, ev in enc.leaves:
            if p.tid == t and [e.id for e in ev[:len(ids)]] == ids:
                rank = 2 * z3.is_true(m.eval(conj(p.pc), model_completion=True)) + (len(ev) == len(ids))
                if rank > best[0]:
                    best = (rank, ''.join('K' if e.id in enc.kept else 'S' if spurious(e) else 'N' for e in p.events if e.atomic))
        best = best[1]
        flags.append(best)
    return out, steps, flags


def run_instance(task):
    (path, name, inputs_prefix, retries, max_events, timeout, want_labels, want_sample) = task
    t0 = time.time()
    X.MEMO.clear()
    X.INTERN.clear()
    prog = PROGS[path]
    stats = dict(n=0, queries=0, qtime=0.0, checks=0)
    res = dict(name=name, prefix=inputs_prefix, violations=[], problems=[], reached=set(), events=0, paths=0, conds=0, exec=set(),
               complete=True)
    try:
        M = Machine(prog, inputs_prefix, 400000)
        for c in GCT.get(path, ()):
            prog.FN[c](M)
        prog.FN['c_%s_init' % name](M)
        res['inputs'] = [v if type(v) is int else str(v) for _, v in M.inputs]
        ths = threads_of(prog, name)
        sh = Shared(prog, M, len(ths))
        names = ths + ['c_%s_post' % name]
        allp = explore_all(sh, names, retries, max_events, stats, t0 + timeout)
        res['paths'] = sum(len(p) for p in allp)
        enc = Encoding(sh, allp, stats)
        res['events'] = len(enc.events)
        bad = enc.bad()
        res['conds'] = len(bad)
        s = make_solver(max(5, timeout - (time.time() - t0)))
        for c in enc.cons:
            s.add(c)
        res['t_build'] = time.time() - t0
        # some execution completes, and the labels are reachable
        labels = sorted({l for ps in allp for p in ps for l in p.reached})
        t1 = time.time()
        r = s.check(enc.complete[enc.T])
        stats['queries'] += 1
        if r == z3.unsat:
            res['problems'].append('%s %s: no complete execution (vacuous)' % (name, res['inputs']))
        elif r != z3.sat:
            res['complete'] = False
        for l in labels:
            if l in want_labels:
                c = z3.Or([enc.at(p.tid, ev, p.pc) for p, ev in enc.leaves if l in p.reached])
                stats['queries'] += 1
                if s.check(c) == z3.sat:
                    res['reached'].add(l)
        conds = [b[0] for b in bad]
        stats['queries'] += 1
        r = s.check(z3.Or(conds)) if conds else z3.unsat
        if r == z3.unknown:
            res['complete'] = False
        if r == z3.unsat and want_sample:
            # one complete interleaving, to be followed by the real code
            s2 = make_solver(max(1, min(20, timeout - (time.time() - t0))))
            for c in enc.cons + enc.sc_constraints():
                s2.add(c)
            s2.add(enc.complete[enc.T])
            stats['queries'] += 1
            if s2.check() == z3.sat:
                m = s2.model()
                _, steps, flags = schedule_of(enc, m)
                res['sample'] = ([v if type(v) is int else m.eval(X.bv(v, v.w), model_completion=True).as_long() for _, v in M.inputs],
                                 flags, steps)
        if r == z3.sat:
            m = s.model()
            hit = [b for b in bad if z3.is_true(m.eval(b[0], model_completion=True))]
            # prefer an execution that is an interleaving, so that it can be replayed
            b = hit[0]
            s2 = make_solver(60)
            for c in enc.cons + enc.sc_constraints():
                s2.add(c)
            s2.add(z3.Or(conds))
            stats['queries'] += 1
            r2 = s2.check()
            inter = r2 == z3.sat
            if inter:
                m = s2.model()
                hit = [b for b in bad if z3.is_true(m.eval(b[0], model_completion=True))]
            sched, steps, flags = schedule_of(enc, m)
            res['inputs'] = [v if type(v) is int else m.eval(X.bv(v, v.w), model_completion=True).as_long() for _, v in M.inputs]
            kinds = ['hang', 'race', 'check', 'doublefree', 'uaf', 'leak']
            hit.sort(key=lambda b: kinds.index(b[1]) if b[1] in kinds else -1)
            b = hit[0]
            res['violations'].append(dict(kind=b[1], msg=b[2], entry='c_' + name, inputs=res['inputs'], schedule=sched, steps=steps, flags=flags,
                                          interleaving=inter, where=[], others=[(x[1], x[2]) for x in hit[1:6]], trace=[]))
        stats['qtime'] += time.time() - t1
    except Infeasible:
        res['infeasible'] = True
    except Violation as v:
        res['violations'].append(dict(kind=v.kind, msg='during initialisation: ' + v.msg, entry='c_' + name, inputs=[], schedule=[],
                                      steps=None, interleaving=True, where=where(), trace=[]))
    except Inconclusive as e:
        res['complete'] = False
        res['why'] = str(e)
    except (Unsupported, RecursionError) as e:
        res['problems'].append('%s: %s in %s' % (name, e, where()[-2:]))
    res.update(stats)
    res['exec'] = sorted(prog.executed)
    res['wall'] = time.time() - t0
    return res


def threads_of(prog, name):
    out = []
    i = 0
    while 'c_%s_t%d' % (name, i) in prog.mod.funcs:
        out.append('c_%s_t%d' % (name, i))
        i += 1
    return out


PROGS = {}
GCT = {}


def instances(prog, name):
    """decision prefixes of the paths of c_NAME_init"""
    out = []
    stack = [[]]
    while stack:
        pre = stack.pop()
        M = Machine(prog, pre, 400000)
        try:
            for c in GCT.get(prog.path, ()):
                prog.FN[c](M)
            prog.FN['c_%s_init' % name](M)
            out.append(list(M.trace))
        except Infeasible:
            pass
        except (Violation, CxxThrow):
            out.append(list(M.trace))
        stack.extend(M.pending)
    out.sort()
    return out


def replay(u, results, out):
    """run the found counterexamples, or else the sample executions, on the real code"""
    p = u.get('p_conc')
    if p is None:
        return
    o, _ = p.communicate()
    if p.returncode:
        out['problems'].append('native build failed: ' + o[-500:])
        return
    vs = [v for v in out['violations'] if v['steps'] is not None and v['interleaving']]
    for v in out['violations']:
        if not v['interleaving']:
            v['native'] = 'not an interleaving: allowed by the memory model, cannot be forced on this machine'
    if vs:
        rs = creplay.run(u['exe'], [creplay.line(v['entry'][2:], v['inputs'], v['flags'], v['steps']) for v in vs])
        for v, r in zip(vs, rs):
            v['native'] = r
            v['confirmed'] = r.startswith('FAIL') and not r.startswith('FAIL replay')
            # the real code followed the schedule and nothing went wrong: the model is not believed
            v['report'] = r != 'OK' or v['kind'] not in ('check', 'race', 'uaf', 'leak', 'doublefree', 'wild')
    if out['violations']:
        return
    sm = [(r['name'],) + r['sample'] for r in results if r.get('sample')]
    if not sm:
        return
    rs = creplay.run(u['exe'], [creplay.line(*x) for x in sm])
    for x, r in zip(sm, rs):
        if r == 'OK':
            out['validated'] += 1
        else:
            out['problems'].append('engine and native run disagree: %s: %s' % (creplay.line(*x), r))
    out['samples'] = [dict(program=x[0], inputs=x[1], interleaving=' '.join(str(t) for t, _ in x[3])) for x in sm[:3]]


def run_unit(u, tier, tmp, budget, ROOT, REPO):
    t0 = time.time()
    prog = Prog(u['ll'], MODELS)
    PROGS[u['ll']] = prog
    names = sorted(m.group(1) for n in prog.mod.funcs for m in [re.fullmatch(r'c_(\w+)_init', n)] if m and prog.mod.funcs[n].lines is not None)
    if tier != 'thorough':
        names = [n for n in names if not n.startswith('T')]
    if u.get('only'):
        names = [n for n in names if re.fullmatch(u['only'], n)]
    want = set()
    if not u.get('only'):
        txt = open(os.path.join(ROOT, 'harness', u['src'])).read()
        want = set(re.findall(r'sv_reach\("([^"]+)"\)', txt))
        if tier != 'thorough':
            want = {l for l in want if not l.startswith('T:')}
    out = dict(states=0, transitions=0, queries=0, solver_s=0.0, assertions=0, functions=set(), entries={}, violations=[], problems=[],
               incomplete=[], validated=0, samples=[])
    tasks = []
    retries = u.get('retries', {}).get(tier, 2)
    for n in names:
        for pre in instances(prog, n):
            tasks.append((u['ll'], n, pre, retries, u.get('max_events', 400), budget, want))
    nsample = 24 if tier == 'quick' else 80
    st = max(1, len(tasks) // nsample)
    tasks = [t + (i % st == 0,) for i, t in enumerate(tasks)]
    got = set()
    ctx = mp.get_context('fork')
    results = []
    with ctx.Pool(os.cpu_count() or 4) as pool:
        for r in pool.imap_unordered(run_instance, tasks, chunksize=1):
            results.append(r)
            if len([1 for x in results if x['violations']]) >= 4:
                out['incomplete'].append('stopped after the first violations')
                break
            if time.time() - t0 > budget + 30:
                out['incomplete'].append('time budget: %d of %d program instances decided' % (len(results), len(tasks)))
                break
        pool.terminate()
    for r in results:
        if r.get('infeasible'):
            continue
        out['states'] += r['events']
        out['transitions'] += r['n']
        out['queries'] += r['queries']
        out['solver_s'] += r['qtime']
        out['assertions'] += r['conds'] + r['checks']
        out['functions'] |= set(r['exec'])
        e = out['entries'].setdefault('c_' + r['name'], dict(instances=0, paths=0, events=0, conditions=0, complete=True, reached=[]))
        e['instances'] += 1
        e['paths'] += r['paths']
        e['events'] += r['events']
        e['conditions'] += r['conds']
        e['complete'] = e['complete'] and r['complete']
        got |= r['reached']
        e['reached'] = sorted(set(e['reached']) | r['reached'])
        out['violations'] += r['violations']
        out['problems'] += r['problems']
        if not r['complete']:
            out['incomplete'].append('%s %s %s' % (r['name'], r.get('inputs'), r.get('why', 'solver gave no answer in time')))
    miss = sorted(want - got)
    if miss and not out['violations'] and not out['incomplete']:
        out['problems'].append('vacuity: never reached in a consistent execution: ' + ', '.join(miss))
    replay(u, results, out)
    if os.environ.get('CONC_VERBOSE'):
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print('  ', r['name'], r.get('inputs'), 'paths', r['paths'], 'events', r['events'], 'conds', r['conds'], 'wall %.1f' % r['wall'],
                  'build %.1f' % r.get('t_build', 0), 'q %.1f' % r['qtime'])
    out['samples'] += [dict(program=n, instances=e['instances'], events=e['events']) for n, e in list(out['entries'].items())[:4]]
    return out
