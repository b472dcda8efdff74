#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] : decide one property on /repo's current tree."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'

# kinds a native run cannot show (no sanitizer reports them); everything else is reported only if it reproduces
STANDARD_LEVEL = {'uninit', 'const', 'ub', 'align', 'wild'}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def popen(cmd):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def common_flags(unit, tier):
    d = list(unit.get('defs', []))
    d += unit.get('thorough' if tier == 'thorough' else 'quick', [])
    return ['-std=' + unit.get('std', 'c++17'), '-I' + os.path.join(REPO, 'code'), '-I' + os.path.join(ROOT, 'harness'), '-ferror-limit=0', '-fsized-deallocation',
            '-w'] + d


def build_ir(unit, tier, out, src=None):
    src = src or os.path.join(ROOT, 'harness', unit['src'])
    cmd = '%s %s -O1 -Xclang -disable-llvm-passes -fno-vectorize -g0 -S -emit-llvm %s -o %s.raw && %s -S -passes=mem2reg %s.raw -o %s' % (
        CLANG, ' '.join(common_flags(unit, tier)), src, out, OPT, out, out)
    return popen(['bash', '-c', cmd])


def build_native(unit, tier, out, src=None, extra=()):
    src = src or os.path.join(ROOT, 'harness', unit['src'])
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']
    if unit.get('spur'):
        # weak compare-exchanges become calls, so that the model's spurious failures can be followed
        base = ' '.join([CLANG, '-O1'] + san + common_flags(unit, tier) + list(extra))
        me = os.path.join(ROOT, 'engine', 'creplay.py')
        return popen(['bash', '-c', '%s -Xclang -disable-llvm-passes -S -emit-llvm %s -o %s.ll && python3 %s %s.ll %s.w.ll && %s -rdynamic %s.w.ll %s -o %s -ldl -pthread' % (
            base, src, out, me, out, out, base, out, os.path.join(ROOT, 'native', 'rt.cpp'), out)])
    return popen([CLANG, '-O1', '-g1', '-fno-omit-frame-pointer', '-rdynamic'] + san + common_flags(unit, tier) + list(extra) +
                 [src, os.path.join(ROOT, 'native', 'rt.cpp'), '-o', out, '-ldl', '-pthread'])


def drop_entries(unit, tier, tmp, out):
    """Leave out the entries of a harness that the compiler rejects (the rest may still show a violation).  The answer cannot be
    'held' then: the caller records a problem."""
    name = unit['src']
    lines = open(os.path.join(ROOT, 'harness', name)).read().split('\n')
    path = os.path.join(tmp, os.path.basename(unit['ll'])[:-3] + '.' + name)
    dropped = []
    for _ in range(12):
        text = '\n'.join(lines)
        bad = {int(m) for m in re.findall(re.escape(name) + r':(\d+):\d+: (?:error|note|fatal error)', out)}
        cut = []
        for m in re.finditer(r'^ENTRY (\w+)\(\) \{', text, re.M):
            depth, j = 1, m.end()
            while depth and j < len(text):
                depth += {'{': 1, '}': -1}.get(text[j], 0)
                j += 1
            a, b = text.count('\n', 0, m.start()), text.count('\n', 0, j)
            if any(a + 1 <= x <= b + 1 for x in bad):
                cut.append((a, b, m.group(1)))
        macros = set(re.findall(r'^#define (\w+)\((?:[^\n]*\\\n)*[^\n]*\bENTRY\b', text, re.M))
        for x in bad:
            m = re.match(r'\s*(\w+)\(', lines[x - 1])
            if m and m.group(1) in macros:
                cut.append((x - 1, x - 1, lines[x - 1].strip()))
        if not cut:
            return None
        for a, b, n in cut:
            dropped.append(n)
            for k in range(a, b + 1):
                lines[k] = ''
        open(path, 'w').write('\n'.join(lines))
        p = build_ir(unit, tier, unit['ll'], src=path)
        out, _ = p.communicate()
        if p.returncode == 0:
            unit['path'] = path
            return dropped
    return None


def native_run(exe, lines, timeout=300):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=5:allocator_may_return_null=1:detect_odr_violation=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=5'
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=env, errors='replace')
    res = []
    cur = None
    for l in p.stdout.split('\n'):
        if l.startswith('== '):
            cur = {'obs': [], 'verdict': None, 'text': []}
            res.append(cur)
        elif cur is None:
            continue
        elif l.startswith('OBS '):
            cur['obs'].append(int(l[4:]))
        elif l == 'OK':
            cur['verdict'] = 'ok'
        elif l.startswith('FAIL '):
            if not cur['verdict']:
                cur['verdict'] = l
        elif l == 'ASSUME':
            cur['verdict'] = 'assume'
        elif l.strip():
            cur['text'].append(l)
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l:
                cur['verdict'] = 'FAIL ' + l.strip()
    for c in res:
        if c['verdict'] is None:
            c['verdict'] = 'FAIL no verdict'
    return res


def uname(u):
    return ' '.join([u['src']] + [d[2:] for d in u.get('defs', [])])


def demangle(names):
    if not names:
        return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split('\n')[:len(names)]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from specs import SPECS
    spec = SPECS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='xv-%s-' % pid)
    try:
        rc = decide(pid, tier, seed, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


def decide(pid, tier, seed, spec, tmp, t0):
    import explore
    from machine import MODELS
    from prog import Prog
    known = load_known(pid)
    units = [u for u in spec['units'] if tier == 'thorough' or not u.get('thorough_only')]
    seq = [u for u in units if not u.get('conc')]
    conc = [u for u in units if u.get('conc')]
    problems = []
    for i, u in enumerate(units):
        u['ll'] = os.path.join(tmp, 'u%d.ll' % i)
        u['exe'] = os.path.join(tmp, 'u%d.exe' % i)
        u['p_ir'] = build_ir(u, tier, u['ll'])
    for u in units:
        o, _ = u['p_ir'].communicate()
        if u['p_ir'].returncode:
            dropped = drop_entries(u, tier, tmp, o)
            if not dropped:
                print('ERROR: harness %s does not compile against the current tree\n%s' % (u['src'], o[-3000:]))
                return 2
            problems.append('harness %s: entries that do not compile against the current tree were left out: %s\n%s' % (
                u['src'], ', '.join(dropped), o[-1500:]))
    for u in units:
        u['p_nat'] = None if u.get('conc') else build_native(u, tier, u['exe'], src=u.get('path'))
        if u.get('conc'):
            import creplay
            u['p_conc'] = creplay.build(u['ll'], u['exe'], CLANG, OPT, ROOT)
    budget = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 620)

    violations = []      # (unit, entry, dict)
    cov = dict(entries={}, queries=0, solver_s=0.0, assertions=0, symbolic_assertions=0, instructions=0, decisions=0)
    functions = set()
    jobs = []
    for u in seq:
        prog = Prog(u['ll'], MODELS)
        u['prog'] = prog
        explore.G[u['ll']] = prog
        ents = [n for n, f in prog.mod.funcs.items() if f.lines is not None and
                (n.startswith('h_') or (tier == 'thorough' and n.startswith('t_')))]
        if u.get('only'):
            ents = [e for e in ents if re.fullmatch(u['only'], e)]
        u['entries'] = sorted(ents)
        for e in u['entries']:
            jobs.append((u['ll'], e))
        # generate code once, before forking
        for e in u['entries']:
            explore.run_path(prog, e, [])
    by_ll = {u['ll']: u for u in units}
    incomplete = []
    states = transitions = 0
    samples_for_native = {}
    if jobs:
        res = explore.explore(jobs, nproc=os.cpu_count() or 4, budget=budget, sample=spec.get('sample', 17),
                              counts=lambda ll, e, v: not match_known(known, by_ll[ll], e, v))
        for (ll, e), r in res.items():
            u = by_ll[ll]
            states += r['paths']
            transitions += r['n']
            cov['queries'] += r['queries']
            cov['solver_s'] += r['qtime']
            cov['assertions'] += r['checks']
            cov['symbolic_assertions'] += r['symchecks']
            cov['instructions'] += r['n']
            cov['decisions'] += r['decisions']
            functions |= r['executed']
            cov['entries'][uname(u) + ':' + e] = dict(paths=r['paths'], infeasible=r['infeasible'], complete=r['complete'],
                                                      assertions=r['checks'], reached=sorted(r['reached']))
            if not r['complete'] and not r['violations']:
                incomplete.append('%s:%s (%d prefixes left)' % (u['src'], e, r['left']))
            for v in r['violations']:
                violations.append((u, e, v))
            for st, msg, wh in r['problems']:
                problems.append('%s:%s %s %s in %s' % (u['src'], e, st, msg, demangle(wh[-1:])))
            samples_for_native.setdefault(ll, []).extend((e, i, o) for i, o in r['samples'])
            if r['paths'] == 0 and not r.get('cut'):
                problems.append('%s:%s has no feasible path (vacuous)' % (u['src'], e))
        # vacuity: every label of the harness sources must be reached somewhere
        want = set()
        got = set()
        for u in seq:
            if u.get('only'):
                continue        # labels of the entries left out are not reachable
            txt = open(os.path.join(ROOT, 'harness', u['src'])).read()
            for m in re.finditer(r'sv_reach\("([^"]+)"\)', txt):
                if not m.group(1).startswith('soft:'):
                    want.add(m.group(1))
        for r in res.values():
            got |= r['reached']
        miss = sorted(want - got)
        if miss and not violations:
            problems.append('vacuity: never reached: ' + ', '.join(miss))
    # concurrency units
    conc_out = []
    if any(not match_known(known, *v) for v in violations) and conc:
        incomplete.append('concurrency programs not run: the sequential part shows violations')
        conc = []
    for u in conc:
        import conc as C
        o = C.run_unit(u, tier, tmp, max(30, budget - (time.time() - t0)), ROOT, REPO)
        conc_out.append(o)
        states += o['states']
        transitions += o['transitions']
        cov['queries'] += o['queries']
        cov['solver_s'] += o['solver_s']
        cov['assertions'] += o['assertions']
        functions |= set(o['functions'])
        for e, d in o['entries'].items():
            cov['entries'][uname(u) + ':' + e] = d
        for v in o['violations']:
            violations.append((u, v['entry'], v))
        problems += o['problems']
        incomplete += o['incomplete']

    # native validation
    validated = 0
    native_bad = []
    for u in seq:
        o, _ = u['p_nat'].communicate()
        if u['p_nat'].returncode:
            print('ERROR: native build of %s failed\n%s' % (u['src'], o[-3000:]))
            return 2
        sm = samples_for_native.get(u['ll'], [])
        # evenly over the entries
        cap = spec.get('native', 60 if tier == 'quick' else 400)
        if len(sm) > cap:
            st = len(sm) / cap
            sm = [sm[int(i * st)] for i in range(cap)]
        if sm and not any(v[0] is u and not match_known(known, *v) for v in violations):
            lines = [' '.join([e] + [str(x) for x in i]) for e, i, _ in sm]
            rs = native_run(u['exe'], lines)
            for (e, i, ob), r in zip(sm, rs):
                bad = None
                if r['verdict'].startswith('FAIL replay') and 'block that does not exist' in r['verdict']:
                    continue
                if r['verdict'] != 'ok':
                    bad = r['verdict']
                elif len(r['obs']) != len(ob) or any(a is not None and a != b for a, b in zip(ob, r['obs'])):
                    bad = 'FAIL observations differ: model %s native %s' % (ob, r['obs'])
                if bad:
                    r2 = native_run(u['exe'], [' '.join([e] + [str(x) for x in i])])[0]
                    if r2['verdict'] == 'ok' and not bad.startswith('FAIL obs'):
                        continue
                    native_bad.append((u, e, i, bad, r['text'][:20]))
                else:
                    validated += 1
    for o in conc_out:
        validated += o.get('validated', 0)

    # confirm violations on the real code
    reported = []
    unconfirmed = []
    known_hit = []
    for u, e, v in violations:
        if u.get('conc'):
            v['native'] = v.get('native', '')
            confirmed = v.get('confirmed', True)
        else:
            line = ' '.join([e] + [str(x) for x in v['inputs']])
            r = native_run(u['exe'], [line])[0]
            v['native'] = r['verdict']
            v['native_text'] = r['text'][:30]
            confirmed = r['verdict'].startswith('FAIL') and not r['verdict'].startswith('FAIL replay')
        v['confirmed'] = confirmed
        k = match_known(known, u, e, v)
        if k:
            known_hit.append((k, u, e, v))
        elif confirmed or (v['kind'] in STANDARD_LEVEL and not u.get('conc')) or (v['kind'] == 'uaf' and 'out-of-scope' in v['msg']) or \
                (u.get('conc') and v.get('report', True)):
            reported.append((u, e, v))
        else:
            unconfirmed.append((u, e, v))
    for u, e, i, bad, text in native_bad:
        if bad.startswith('FAIL obs'):
            problems.append('engine and native run disagree: %s:%s %s %s' % (u['src'], e, i, bad))
        else:
            reported.append((u, e, dict(kind='native', msg=bad, where=[], inputs=i, trace=[], native=bad, native_text=text,
                                        confirmed=True)))
    for f in known:
        if not any(k is f for k, *_ in known_hit):
            # the listed finding did not show: its harness must have been run and be clean
            pass

    funcs = [f for f in demangle(sorted(functions)) if f.startswith(('xmem::', 'xstd::')) or ' xmem::' in f or ' xstd::' in f]
    cov['solver_s'] = round(cov['solver_s'], 2)
    coverage = dict(states=states, transitions=transitions, traces_validated_against_impl=validated,
                    samples=[dict(entry=u_e, inputs=i, observations=o) for u_e, i, o in
                             [x for l in samples_for_native.values() for x in l][:6]] or
                            [s for o in conc_out for s in o.get('samples', [])][:4] or ['none'],
                    exhaustive=not incomplete and not problems,
                    functions_encoded=sorted(set(funcs))[:400], n_functions=len(set(funcs)),
                    bounds=spec['bounds'], outside=spec.get('outside', ''), incomplete=incomplete, problems=problems[:10],
                    rule='states = feasible symbolic paths (sequential) or explored event-structure nodes (concurrent); '
                         'transitions = IR instructions executed symbolically; every assertion is discharged over all '
                         'remaining values of the symbolic inputs', **cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), coverage=coverage,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s %s: %d entries, %d paths, %d instructions, %d assertions (%d symbolic), %d queries (%.1fs solver), %d native traces, %.1fs' % (
        pid, tier, len(cov['entries']), states, transitions, cov['assertions'], cov['symbolic_assertions'], cov['queries'],
        cov['solver_s'], validated, time.time() - t0))
    for k, u, e, v in known_hit:
        pass
    for f in known:
        hits = [x for x in known_hit if x[0] is f]
        if hits:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if incomplete:
        print('INCOMPLETE (time budget): ' + '; '.join(incomplete[:5]))
    if reported:
        rp = os.path.join(ROOT, 'evidence', pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump([dict(unit=u['src'], defs=u.get('defs', []) + u.get(tier, []), entry=e, kind=v['kind'], message=v['msg'],
                            call_chain=demangle(v.get('where', [])), inputs=v.get('inputs'), native_verdict=v.get('native'),
                            native_output=v.get('native_text'), schedule=v.get('schedule'))
                       for u, e, v in reported], f, indent=1, default=str)
        for u, e, v in reported[:5]:
            print('  %s:%s %s: %s | native: %s | inputs %s' % (u['src'], e, v['kind'], v['msg'], v.get('native'), v.get('inputs')))
            ch = demangle(v.get('where', []))
            if ch:
                print('     in ' + ' > '.join(x[:90] for x in ch[-4:]))
            for s in (v.get('schedule') or [])[:60]:
                print('       ' + s)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if unconfirmed:
        for u, e, v in unconfirmed[:5]:
            print('UNCONFIRMED %s:%s %s: %s | native: %s | inputs %s' % (u['src'], e, v['kind'], v['msg'], v.get('native'), v.get('inputs')))
            for s in (v.get('schedule') or [])[:60]:
                print('       ' + s)
        return 2
    if problems:
        for p in problems[:10]:
            print('ERROR: ' + p)
        return 2
    if incomplete:
        return 2 if spec.get('strict', False) else 0
    return 0


def match_known(known, u, e, v):
    for k in known:
        m = k['match']
        if m.get('entry') and m['entry'] != e:
            continue
        if m.get('kind') and m['kind'] != v['kind']:
            continue
        if m.get('inputs') is not None and m['inputs'] != v.get('inputs'):
            continue
        if m.get('msg') and m['msg'] not in v['msg']:
            continue
        if m.get('chain') and not any(m['chain'] in x for x in v.get('where') or []):
            continue
        return k
    return None


if __name__ == '__main__':
    main()
