#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: plant the bugs of SPEC (list SEEDS of dicts id, property, edits, demo, needs, breaks) in a scratch copy,
confirm that they build, pass the stable tests and fail their demonstration, write seeded/<id>/, and run the property's check on them."""
import json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); WT = os.environ.get('WT', '/tmp/wt'); RT = 'ta-lib-rt/c/'
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO_SH = '''#!/bin/bash
# run in /repo after the build: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%sgcc -w -O1 -I ta-lib-rt/c/include -o "$t/demo" "$d/demo.c" _build/lib/libta-lib-rt.a -lm -lpthread %s || exit 3
cd "$t" && timeout 60 ./demo
'''
def setup():
    if not os.path.isdir(WT):
        sh(['cp', '-a', '/repo', WT]); shutil.rmtree(WT + '/_build', ignore_errors=True)
    os.makedirs(WT + '.vp', exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', WT).replace('/opt/vp/build.sh', WT + '.vp/build.sh')
        open(WT + '.vp/' + f, 'w').write(s)
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (WT, WT))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def edit(f, old, new, count):
    p = WT + '/' + f; b = open(p, 'rb').read(); crlf = b'\r\n' in b; s = b.decode('latin1').replace('\r\n', '\n')
    if s.count(old) != count: raise SystemExit('%s: %d occurrences of %r' % (f, s.count(old), old))
    s = s.replace(old, new)
    if crlf: s = s.replace('\n', '\r\n')
    open(p, 'wb').write(s.encode('latin1'))
def one(sd):
    sid = sd['id']; print('==', sid, sd['property'], flush=True)
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])
    for e in sd['edits']: edit(RT + e[0] if not e[0].startswith('ta-lib-rt') else e[0], e[1], e[2], e[3] if len(e) > 3 else 1)
    p = sh(['git', '-C', WT, 'diff', '--binary']).stdout if False else subprocess.run(['git', '-C', WT, 'diff'], stdout=subprocess.PIPE).stdout
    d = V + '/seeded/' + sid; os.makedirs(d, exist_ok=True); open(d + '/patch.diff', 'wb').write(p)
    open(d + '/demo.c', 'w').write(sd['demo']); open(d + '/demo.sh', 'w').write(DEMO_SH % (sd.get('pre', ''), sd.get('ld', ''))); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh(['bash', d + '/demo.sh'], cwd='/repo'); ok0 = r.returncode == 0
    if not ok0: print('  demo on the unchanged tree:', r.returncode, r.stdout[-600:])
    t = sh(['bash', WT + '.vp/test.sh', WT + '.vp/t.json'])
    passed = set(json.load(open(WT + '.vp/t.json'))['passed']); miss = sorted(STABLE - passed)
    r = sh(['bash', d + '/demo.sh'], cwd=WT); ok1 = r.returncode not in (0, 3)
    print('  tests missing: %d %s | demo base ok: %s, patched fails: %s (%s)' % (len(miss), miss[:3], ok0, ok1, r.stdout.strip()[-200:]), flush=True)
    if r.returncode == 3: print(r.stdout[-500:])
    env = dict(os.environ); env['VERIF_REPO'] = WT; env['VERIF_SEED'] = '1'
    for prop in [sd['property']] + sd.get('also', []):
        r = sh(['python3', V + '/check.py', prop, 'quick'], env=env)
        print('  %s rc %d: %s' % (prop, r.returncode, ' | '.join(l for l in r.stdout.strip().splitlines()[-4:] if 'replay:' not in l)[:420]), flush=True)
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])
    if miss or not ok0 or not ok1: print('  NOT VALID')
if __name__ == '__main__':
    setup(); S = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
    for s in S:
        if not want or s['id'] in want: one(s)
