"""Path exploration: re-execution along decision prefixes, spread over worker processes."""
import os
import time
import multiprocessing as mp
import z3
import xops as X
from machine import Machine, Violation, Infeasible, Inconclusive, Blocked, MODELS, where, CxxThrow
from codegen import Unsupported
from prog import Prog, SHIFT

G = {}    # prog table inherited by forked workers


class Res:
    __slots__ = ('status', 'kind', 'msg', 'where', 'inputs', 'obs', 'trace', 'n', 'queries', 'qtime', 'checks', 'symchecks',
                 'reached', 'entry', 'decisions', 'err')

    def __init__(self):
        self.status = 'ok'
        self.kind = self.msg = self.inputs = self.obs = self.err = None
        self.where = []


def native_inputs(M, vals):
    """Input values that coincide with an address the model gave to an object are named ("h3+8": 8 bytes into the 4th heap block), so
    that the native run can use the address that object has there."""
    if vals is None:
        return None
    order = None
    out = []
    for (w, _), x in zip(M.inputs, vals):
        if w == 64 and type(x) is int and x >> SHIFT in M.objs:
            o = M.objs[x >> SHIFT]
            if -o.align <= x - o.base <= (o.size if type(o.size) is int else 0):
                if o.kind == 'heap':
                    if order is None:
                        order = {k: i for i, k in enumerate(sorted(k for k, q in M.objs.items() if q.kind == 'heap'))}
                    x = 'h%d%+d' % (order[x >> SHIFT], x - o.base)
                else:
                    x = 'o%d' % x     # no counterpart known
        out.append(x)
    return out


def run_path(prog, entry, prefix, limit=400000, want_model=False):
    X.reset_tables()
    M = Machine(prog, prefix, limit)
    r = Res()
    r.entry = entry
    try:
        try:
            for c in G.get('ctors', {}).get(prog.path, ()):
                prog.FN[c](M)
            prog.FN[entry](M)
            M.finish()
            # what was asserted on this path was asserted under a satisfiable condition
            if M.pc and M.sat(None) == z3.unsat:
                raise Infeasible()
        except CxxThrow as e:
            M.violation('terminate', 'exception %s escapes' % M.symname(e.tinfo))
    except Blocked:
        M.reached.add('blocked')
        want_model = False
    except Infeasible:
        r.status = 'infeasible'
    except Violation as v:
        r.status = 'violation'
        r.kind, r.msg = v.kind, v.msg
        r.where = where()
        try:
            r.inputs = native_inputs(M, M.model_inputs(v.model))
        except z3.Z3Exception as e:
            r.inputs = None
        if r.inputs is None:
            r.status = 'infeasible'
    except Inconclusive as e:
        r.status = 'inconclusive'
        r.msg = str(e)
    except (Unsupported, RecursionError) as e:
        r.status = 'unsupported'
        r.msg = str(e)
        r.where = where()
    if r.status == 'ok' and want_model:
        try:
            vals = native_inputs(M, M.model_inputs())
            if vals is not None and any(type(x) is str and x[0] != 'h' for x in vals):
                vals = None
            if vals is not None:
                model = M.solver.model() if M.solver is not None and (M.pc or any(type(v) is not int for _, v in M.inputs)) else None
                r.inputs = vals
                r.obs = []
                for o in M.obs:
                    if type(o) is int:
                        r.obs.append(o)
                    elif o is X.UNDEF:
                        r.obs.append(None)
                    else:
                        r.obs.append(Machine.ev(model, o))
        except z3.Z3Exception:
            r.inputs = None
    r.trace = M.trace
    r.n = M.n
    r.decisions = len(M.trace)
    r.queries, r.qtime = M.queries, M.qtime
    r.checks, r.symchecks = M.checks, M.symchecks
    r.reached = M.reached
    return r, M.pending


def worker(task):
    key, entry, prefixes, max_paths, max_time, limit, sample = task
    prog = G[key]
    t0 = time.time()
    stack = list(prefixes)
    out = []
    agg = dict(paths=0, infeasible=0, n=0, queries=0, qtime=0.0, checks=0, symchecks=0, decisions=0, reached=set())
    cnt = 0
    while stack and cnt < max_paths and time.time() - t0 < max_time:
        pre = stack.pop()
        cnt += 1
        r, pend = run_path(prog, entry, pre, limit, want_model=(sample and cnt % sample == 1))
        stack.extend(pend)
        agg['n'] += r.n
        agg['queries'] += r.queries
        agg['qtime'] += r.qtime
        agg['checks'] += r.checks
        agg['symchecks'] += r.symchecks
        agg['decisions'] += max(0, r.decisions - len(pre))
        if r.status == 'infeasible':
            agg['infeasible'] += 1
        else:
            agg['paths'] += 1
            agg['reached'] |= r.reached
        if r.status in ('violation', 'inconclusive', 'unsupported'):
            out.append((r.status, r.kind, r.msg, r.where, r.inputs, r.trace))
            if len(out) >= 3:
                break
        elif r.inputs is not None:
            out.append(('sample', None, None, None, r.inputs, r.obs))
    agg['executed'] = sorted(prog.executed)
    return key, entry, agg, out, stack


def explore(jobs, nproc=8, budget=600.0, max_paths=None, sample=25, limit=400000, stop_on_violation=True, counts=None):
    """jobs: list of (key, entry). Returns dict (key,entry) -> result"""
    t0 = time.time()
    res = {}
    for key, entry in jobs:
        res[(key, entry)] = dict(paths=0, infeasible=0, n=0, queries=0, qtime=0.0, checks=0, symchecks=0, decisions=0,
                                 reached=set(), violations=[], problems=[], samples=[], executed=set(), complete=True, left=0)
    ctx = mp.get_context('fork')
    pending = {}
    queue = [(key, entry, [[]]) for key, entry in jobs]
    hits = set()        # entries with violations that count; the rest is cut short once there are some
    t_hit = None
    with ctx.Pool(nproc) as pool:
        active = []
        stopped = set()

        def submit():
            while queue and len(active) < nproc * 3:
                key, entry, pre = queue.pop(0)
                if (key, entry) in stopped:
                    continue
                first = res[(key, entry)]['paths'] == 0
                mp_ = 6 if len(queue) + len(active) < nproc else 60
                active.append(pool.apply_async(worker, ((key, entry, pre, mp_, 3.0, limit, sample),)))
        submit()
        while active:
            done = [a for a in active if a.ready()]
            if not done:
                active[0].wait(0.01)
                continue
            for a in done:
                active.remove(a)
                key, entry, agg, out, stack = a.get()
                r = res[(key, entry)]
                for k in ('paths', 'infeasible', 'n', 'queries', 'qtime', 'checks', 'symchecks', 'decisions'):
                    r[k] += agg[k]
                r['reached'] |= agg['reached']
                r['executed'] |= set(agg['executed'])
                for st, kind, msg, wh, inputs, tr in out:
                    if st == 'violation':
                        v = dict(kind=kind, msg=msg, where=wh, inputs=inputs, trace=tr)
                        r['violations'].append(v)
                        if counts is None or counts(key, entry, v):
                            hits.add((key, entry))
                            t_hit = t_hit or time.time()
                    elif st == 'sample':
                        if len(r['samples']) < 40:
                            r['samples'].append((inputs, tr))
                    else:
                        r['problems'].append((st, msg, wh))
                if stop_on_violation and r['violations'] or len(r['problems']) > 20:
                    stopped.add((key, entry))
                    r['left'] += len(stack)
                    if stack:
                        r['complete'] = False
                elif stack:
                    if time.time() - t0 > budget or (max_paths and r['paths'] > max_paths):
                        r['complete'] = False
                        r['left'] += len(stack)
                    else:
                        # split the frontier: shallow prefixes lead to the biggest subtrees
                        k = max(1, min(len(stack), nproc))
                        for i in range(k):
                            part = stack[i::k]
                            if part:
                                queue.append((key, entry, part))
            if t_hit and time.time() - t_hit > (5 if len(hits) >= 3 else 20) and (queue or active):
                for key, entry, _ in queue:
                    res[(key, entry)]['complete'] = False
                    res[(key, entry)]['cut'] = True
                for r in res.values():
                    if r['paths'] == 0:
                        r['cut'] = True
                break
            submit()
        pool.terminate()
    for r in res.values():
        r['elapsed'] = time.time() - t0
    return res
