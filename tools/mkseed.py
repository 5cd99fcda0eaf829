#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPEC : make seeded/ID from SPEC (a file with sections).
SPEC: lines '@file F', '@old', text, '@new', text, ... '@needs', '@breaks', '@demo' (C++ source),
      optional '@srcs' (list of src files to link, default all but Optimise), '@sh' (whole demo.sh).
Works in a scratch copy of /repo; verifies patch builds, tests pass, demo 0 without / non-0 with."""
import sys, os, subprocess, shutil, json, tempfile, re
sid, prop, spec = sys.argv[1:4]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
secs = []
cur = None
for line in open(spec):
    m = re.match(r'@(file|old|new|needs|breaks|demo|srcs|sh)\b ?(.*)$', line)
    if m:
        cur = [m.group(1), m.group(2) + ('\n' if m.group(2) else '')]
        secs.append(cur)
    elif cur:
        cur[1] += line
S = '/tmp/w/seed_' + sid
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', S])
try:
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    get = {k: v for k, v in secs}
    f = None
    for k, v in secs:
        if k == 'file': f = os.path.join(S, v.strip())
        elif k == 'old': old = v
        elif k == 'new':
            t = open(f).read()
            o, n = old.rstrip('\n'), v.rstrip('\n')
            c = t.count(o)
            assert c == 1, (c, o)
            open(f, 'w').write(t.replace(o, n))
    p = subprocess.run(['git', '-C', S, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': get['needs'].strip(), 'what_it_breaks': get['breaks'].strip()},
              open(d + '/meta.json', 'w'), indent=1)
    if 'sh' in get:
        sh = get['sh']
    else:
        srcs = get.get('srcs', 'Boundary FastMarchingMethod Heap Hole InputOutput LevelSet Mesh Sensitivity').split()
        inc = ' -I"$D"' if 'Optimise' in srcs else ''
        sh = ('#!/bin/bash\n# cwd: the repository\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
              'g++ -std=c++11 -O1 -g -w%s -Isrc "$D/demo.cpp" %s -o "$T/demo" || exit 2\ncd "$T" && timeout 120 ./demo\n'
              % (inc, ' '.join('src/%s.cpp' % s for s in srcs)))
        if inc: shutil.copy(V + '/stubs/nlopt.hpp', d + '/nlopt.hpp')
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    if 'demo' in get: open(d + '/demo.cpp', 'w').write(get['demo'])
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=S, capture_output=True, text=True)
    print(sid, 'demo clean rc', r0.returncode, (r0.stdout + r0.stderr)[-300:])
    print(sid, 'demo patched rc', r1.returncode, (r1.stdout + r1.stderr)[-300:])
    srcs_ = [g for g in os.listdir(S + '/src') if g.endswith('.cpp') and g != 'Optimise.cpp']
    # the official build and tests, with the patch applied to /repo (undone straight afterwards)
    try:
        subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        r = subprocess.run('bash /opt/vp/test.sh /tmp/w/seed_out.json', shell=True, capture_output=True, text=True)
        print('FAIL' if 'FAIL' in r.stdout or 'PASS' not in r.stdout else 'tests ok', [x for x in r.stdout.splitlines() if 'FAIL' in x])
        if len(sys.argv) > 4:
            r = subprocess.run([V + '/tools/all.sh'] + (sys.argv[4:] if sys.argv[4] != 'all' else []), capture_output=True, text=True, cwd=V)
            print('CHECKS', r.stdout[-1500:])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
finally:
    shutil.rmtree(S, ignore_errors=True)
