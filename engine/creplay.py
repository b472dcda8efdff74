"""Native replay of interleavings found by the concurrency engine: builds native/crt.cpp with the very IR the engine executed."""
import os
import re
import subprocess

ORD = dict(monotonic=0, unordered=0, acquire=2, release=3, acq_rel=4, seq_cst=5)
CX = re.compile(r'^(\s*)(%\S+) = cmpxchg weak (?:volatile )?ptr (\S+), (i\d+) (\S+), i\d+ (\S+) (?:syncscope\("[^"]*"\) )?(\w+) (\w+)(?:, align \d+)?')


def rewrite(txt, tsan=True):
    out = []
    sizes = set()
    for l in txt.split('\n'):
        m = CX.match(l)
        if m:
            ind, res, p, ty, c, v, o, f = m.groups()
            sizes.add(ty)
            p, c, v = (x.rstrip(',') for x in (p, c, v))
            l = '%s%s = call { %s, i1 } @sv.cxw.%s(ptr %s, %s %s, %s %s, i32 %d, i32 %d)' % (ind, res, ty, ty, p, ty, c, ty, v, ORD[o], ORD[f])
        elif tsan and l.startswith('attributes #'):
            l = l.replace('= {', '= { sanitize_thread', 1)
        out.append(l)
    for ty in sorted(sizes):
        n = int(ty[1:])
        ext = lambda r, x: '  %s = zext %s %s to i64' % (r, ty, x) if n < 64 else '  %s = add i64 %s, 0' % (r, x)
        out.append('define internal { %s, i1 } @sv.cxw.%s(ptr %%p, %s %%c, %s %%v, i32 %%o, i32 %%f) {' % (ty, ty, ty, ty))
        out += ['  %old = alloca i64', ext('%cc', '%c'), ext('%vv', '%v'),
                '  %%r = call i32 @sv_cxw(ptr %%p, i64 %%cc, i64 %%vv, i32 %d, i32 %%o, i32 %%f, ptr %%old)' % n,
                '  %b = icmp ne i32 %r, 0', '  %ow = load i64, ptr %old',
                '  %%on = trunc i64 %%ow to %s' % ty if n < 64 else '  %on = add i64 %ow, 0',
                '  %%s1 = insertvalue { %s, i1 } undef, %s %%on, 0' % (ty, ty), '  %%s2 = insertvalue { %s, i1 } %%s1, i1 %%b, 1' % ty,
                '  ret { %s, i1 } %%s2' % ty, '}']
    if sizes:
        out.append('declare i32 @sv_cxw(ptr, i64, i64, i32, i32, i32, ptr)')
    return '\n'.join(out) + '\n'


def build(ll, exe, clang, opt, root):
    """starts the build; returns the process"""
    src = ll + '.tsan.ll'
    with open(src, 'w') as f:
        f.write(rewrite(open(ll).read()))
    cmd = ('%s -passes=tsan-module,tsan %s -o %s.bc && %s -O0 -w -c %s.bc -o %s.o && %s -std=c++17 -O1 -w -c %s/native/crt.cpp -o %s.rt.o && '
           '%s -rdynamic -no-pie %s.o %s.rt.o -o %s -ldl -pthread') % (opt, src, src, clang, src, src, clang, root, src, clang, src, src, exe)
    return subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run(exe, lines, timeout=300):
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       errors='replace')
    res = []
    for l in p.stdout.split('\n'):
        if l.startswith('== '):
            res.append(None)
        elif res and res[-1] is None and (l == 'OK' or l.startswith('FAIL ')):
            res[-1] = l
    return [r or 'FAIL no verdict' for r in res]


def line(name, inputs, flags, steps):
    return '%s %d | %s | %s | %s' % (name, len(flags), ' '.join(str(x) for x in inputs) or '-', ' '.join(f or '-' for f in flags),
                                     ' '.join('%d%s' % (t, '!' if s else '') for t, s in steps))


if __name__ == '__main__':
    import sys
    with open(sys.argv[2], 'w') as f:
        f.write(rewrite(open(sys.argv[1]).read(), tsan=False))
