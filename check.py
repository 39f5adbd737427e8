#!/usr/bin/env python3
"""check.py ID [quick|thorough]: build the library from /repo's working tree with sanitizers, link the harness,
run one property and write evidence/ID.json. Exit 0: held; exit 1 with a VIOLATION line: broken."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
R = REPO + '/ta-lib-rt/c'
BUILD = V + '/build'
TSAN = ['-g1', '-O1', '-fsanitize=thread']
SAN = ['-g1', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
INC = ['-I' + R + d for d in ('/include', '/src/ta_abstract', '/src/ta_abstract/frames', '/src/ta_common', '/src/ta_func')]
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'

def rd(p):
    with open(p, 'rb') as f: return f.read()

class BuildError(Exception): pass

def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout

def headers_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(R)):
        if '/ta_regtest' in d: continue
        for f in sorted(fs):
            if f.endswith(('.h', '.inc')): h.update(f.encode()); h.update(rd(d + '/' + f))
    return h.hexdigest()

def compile_all(jobs):
    """jobs: (compiler, flags, source, extra key) -> object paths, compiled once per content"""
    objs = []; todo = []
    os.makedirs(BUILD + '/obj', exist_ok=True)
    for cc, flags, src, key in jobs:
        h = hashlib.sha256(('\0'.join([cc] + flags + [src, key])).encode() + rd(src)).hexdigest()[:32]
        o = BUILD + '/obj/' + h + '.o'; objs.append(o)
        if os.path.exists(o): os.utime(o)
        else: todo.append((cc, flags, src, o))
    todo.sort(key=lambda t: -os.path.getsize(t[2]))
    def one(t):
        cc, flags, src, o = t; tmp = o + '.%d.tmp' % os.getpid()
        run([cc] + flags + ['-c', src, '-o', tmp]); os.rename(tmp, o)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(one, todo))
    return objs

def prune():
    try:
        fs = sorted(glob.glob(BUILD + '/obj/*.o'), key=os.path.getmtime)
        now = time.time()
        for f in fs[:-1200]:
            if now - os.path.getmtime(f) > 3600: os.unlink(f)
        for d in glob.glob(BUILD + '/bin-*'):
            if now - os.path.getmtime(d) > 6 * 3600: os.unlink(d)
    except OSError: pass

def lib_jobs(flags):
    hh = headers_hash(); js = []
    for f in sorted(glob.glob(R + '/src/ta_func/*.c') + glob.glob(R + '/src/ta_common/*.c') + glob.glob(R + '/src/ta_abstract/*.c')
                    + glob.glob(R + '/src/ta_abstract/frames/*.c') + glob.glob(R + '/src/ta_abstract/tables/*.c')):
        if os.path.basename(f) in ('ta_func_api.c', 'excel_glue.c', 'ta_java_defs.c'): continue
        js.append(('gcc', ['-w'] + flags + INC, f, hh))
    return js, hh

def gen_api_c():
    """ta_func_api.c made from ta_func_api.xml by the project's own generator, as its build does"""
    gflags = ['-w', '-O0', '-DTA_GEN_CODE', '-I' + R + '/src/tools/gen_code'] + INC
    hh = headers_hash() + hashlib.sha256(rd(R + '/src/tools/gen_code/gen_code.c')).hexdigest()
    srcs = [V + '/src/gen_func_api.c'] + glob.glob(R + '/src/tools/gen_code/print_*.c') + [R + '/src/ta_abstract/' + f for f in ('ta_abstract.c', 'ta_def_ui.c', 'ta_group_idx.c')] \
        + glob.glob(R + '/src/ta_abstract/tables/*.c') + glob.glob(R + '/src/ta_common/*.c')
    objs = compile_all([('gcc', gflags, s, hh) for s in srcs])
    t = tempfile.mkdtemp(prefix='gen', dir=BUILD)
    try:
        run(['gcc', '-o', t + '/gen'] + objs + ['-lm'])
        os.makedirs(t + '/c/bin'); os.makedirs(t + '/c/src/ta_abstract')
        shutil.copy(REPO + '/ta-lib-rt/ta_func_api.xml', t + '/ta_func_api.xml')
        shutil.copytree(R + '/src/ta_abstract/templates', t + '/c/src/ta_abstract/templates')
        run([t + '/gen'], cwd=t + '/c/bin', timeout=120)
        out = BUILD + '/api_%s.c' % hashlib.sha256(rd(t + '/c/src/ta_abstract/ta_func_api.c')).hexdigest()[:16]
        shutil.copy(t + '/c/src/ta_abstract/ta_func_api.c', out + '.tmp'); os.rename(out + '.tmp', out)
        return out
    finally: shutil.rmtree(t, ignore_errors=True)

def build(xml=False, san=SAN, tag=''):
    os.makedirs(BUILD, exist_ok=True); prune()
    js, hh = lib_jobs(san)
    if xml: js.append(('gcc', ['-w', '-O0'] + INC, gen_api_c(), hh))
    else: js.append(('gcc', ['-w', '-O0'], V + '/src/no_xml.c', ''))
    glue = BUILD + '/glue.gen.%d.cpp' % os.getpid()
    run([sys.executable, V + '/gen/gen_glue.py', V + '/spec/functions.json', glue])
    fin = BUILD + '/glue.%s.cpp' % hashlib.sha256(rd(glue)).hexdigest()[:16]; os.rename(glue, fin)
    own = hashlib.sha256(b''.join(rd(f) for f in sorted(glob.glob(V + '/src/*.h')))).hexdigest()
    cxx = ['-std=c++17', '-w'] + san + ['-I' + V + '/src', '-I' + R + '/include', '-I' + R + '/src/ta_common']
    js += [('g++', cxx, f, own + hh) for f in sorted(glob.glob(V + '/src/*.cpp')) + [fin]]
    objs = compile_all(js)
    b = BUILD + '/bin-' + tag + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
    if not os.path.exists(b):
        t = b + '.%d.tmp' % os.getpid()
        run(['g++'] + [f for f in san if f.startswith('-fsan')] + [WRAP] + objs + ['-o', t, '-lm', '-lpthread']); os.rename(t, b)
    return b

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=97:detect_odr_violation=0:handle_abort=1',
       'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66', 'LC_ALL': 'C'}

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    pid = sys.argv[1]; tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER')) or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    level = man.get(pid, {}).get('level', 'exploration')
    b = build(xml=(pid in XML), san=TSAN, tag='tsan-') if pid in THREADS else build(xml=(pid in XML))
    tb = time.time() - t0
    out = BUILD + '/run-%s-%d' % (pid, os.getpid()); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    env = dict(os.environ); env.update(ENV)
    known = []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'finding: property=(\S+) replay=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            p = subprocess.run([b, pid, '--replay', V + '/' + m.group(2), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if p.returncode == 1: known.append(m.group(3)); print('KNOWN-FINDING: property=%s %s' % (pid, m.group(3)))
            else: print('note: the known finding "%s" does not reproduce' % m.group(3))
    p = subprocess.run([b, pid, tier, str(seed), out], env=env)
    if not os.path.exists(out + '/result.json'):
        print('harness failed (exit %s)' % p.returncode); return 3
    r = json.load(open(out + '/result.json'))
    viol = r['violations']
    replay = ''
    if viol:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        replay = V + '/evidence/replay/' + os.path.basename(r['replay']); shutil.copy(r['replay'], replay)
    cls = r.pop('classes')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial'], 'rule': r['rule'],
                       'samples': r['samples'] or ['(none non-trivial)'], 'planned': r['planned'], 'classes': cls, 'known_findings': known},
          'assumptions': r['assumptions'] + ['The library is compiled by gcc -O1 with %s from the working tree;' % ('ThreadSanitizer' if pid in THREADS else 'AddressSanitizer and UBSan') + ' seeds other than the one used are unexplored.'],
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json.tmp' % pid, 'w') as f: json.dump(ev, f, indent=1)
    os.rename(V + '/evidence/%s.json.tmp' % pid, V + '/evidence/%s.json' % pid)
    shutil.rmtree(out, ignore_errors=True)
    print('%s %s seed %d: %d of %d cases, %d distinct non-trivial, build %.1f s, total %.1f s' % (pid, tier, seed, r['evaluations'], r['planned'], r['distinct_nontrivial'], tb, time.time() - t0))
    if viol:
        print('violated: ' + r['message']); print('to replay: %s/replay.sh %s' % (V, replay))
        print('VIOLATION property=%s replay=%s' % (pid, replay)); return 1
    return 0

XML = {'C13'}
THREADS = {'C18'}
if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        build(); print('built'); sys.exit(0)
    if len(sys.argv) > 1 and sys.argv[1] == '--build':   # prints the path of the harness binary
        print(build(xml='xml' in sys.argv)); sys.exit(0)
    try: sys.exit(main())
    except BuildError as e:
        print('build failed:\n' + str(e)); sys.exit(3)
