"""setup_cmd: toolchain sanity, and the memory-model encoding against litmus programs with known verdicts (about half a minute)."""
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def litmus(tmp):
    import check
    import conc as C
    import creplay
    from machine import MODELS
    ll = os.path.join(tmp, 'lit.ll')
    p = check.build_ir(dict(src='litmus.cpp', defs=[]), 'quick', ll)
    o, _ = p.communicate()
    if p.returncode:
        print('litmus programs do not compile\n' + o[-2000:])
        return 1
    exe = ll + '.exe'
    b = creplay.build(ll, exe, check.CLANG, check.OPT, ROOT)
    prog = C.Prog(ll, MODELS)
    C.PROGS[ll] = prog
    names = sorted(m.group(1) for n in prog.mod.funcs for m in [re.fullmatch(r'c_(\w+)_init', n)] if m)
    tasks = [(ll, n, pre, 2, 400, 100, {'mp', 'rs', 'rsown', 'pub'}, True) for n in names for pre in C.instances(prog, n)]
    with mp.get_context('fork').Pool(os.cpu_count() or 4) as pool:
        res = pool.map(C.run_instance, tasks, chunksize=1)
    o, _ = b.communicate()
    if b.returncode:
        print('native build of the litmus programs failed\n' + o[-2000:])
        return 1
    bad = 0
    lines = []
    for r in res:
        v = r['violations']
        n = r['name']
        if bool(v) != n.startswith('BAD') or r['problems'] or not r['complete']:
            bad += 1
            print('litmus %s: unexpected verdict %s %s' % (n, [(x['kind'], x['msg']) for x in v], r['problems']))
        for x in v:
            if x['interleaving'] and x['steps'] is not None:
                lines.append((n, creplay.line(n, x['inputs'], x['flags'], x['steps']), 'FAIL'))
        if r.get('sample'):
            lines.append((n, creplay.line(n, *r['sample']), 'OK'))
    rs = creplay.run(exe, [l for _, l, _ in lines])
    for (n, l, want), got in zip(lines, rs):
        if not got.startswith(want) or got.startswith('FAIL replay'):
            bad += 1
            print('litmus %s: the native run says %s, expected %s (%s)' % (n, got, want, l))
    print('litmus: %d programs, %d native runs, %d unexpected' % (len(res), len(lines), bad))
    return bad


def main():
    for t in ('clang++-18', 'g++'):
        if not shutil.which(t):
            print('missing tool', t)
            return 1
    import z3
    s = z3.Solver()
    x = z3.BitVec('x', 32)
    s.add(x * x == 49, z3.ULT(x, 8))
    if s.check() != z3.sat or s.model()[x].as_long() != 7:
        print('z3 sanity failed')
        return 1
    import ir, codegen, prog, machine, explore, check  # noqa
    tmp = tempfile.mkdtemp(prefix='xv-selftest-')
    try:
        if litmus(tmp):
            return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print('selftest ok')
    return 0


if __name__ == '__main__':
    sys.exit(main())
