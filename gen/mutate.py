#!/usr/bin/env python3
"""mutate.py OUT N [SEED] [FILE...]: author's aid to find what the checks do not see. Makes N random one-place changes in the function
sources (in memory), links each with the harness and runs the properties of that one function with the cases the quick tier has for it.
Survivors are written to OUT for reading: equivalent changes, or blind spots."""
import concurrent.futures as cf, glob, json, os, random, re, subprocess, sys, hashlib, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('check', V + '/check.py'); check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
WORK = os.environ.get('MUT', '/tmp/mut'); os.makedirs(WORK, exist_ok=True); check.BUILD = WORK
FL = ['-O1', '-g0']
REF = {}
for m in re.finditer(r'REF\("(C2\d)",\w+,\d+,\d+,([^)]*)\)', open(V + '/src/p_ref.cpp').read()):
    for n in re.findall(r'"(\w+)"', m.group(2)): REF[n] = m.group(1)
BASE = ['C01', 'C09', 'C10', 'C02', 'C03', 'C05', 'C06', 'C07', 'C11', 'C12', 'C16', 'C17', 'C19', 'C20', 'C30', 'C08']
def base():
    js, hh = check.lib_jobs(FL); js.append(('gcc', ['-w', '-O0'], V + '/src/no_xml.c', ''))
    glue = WORK + '/glue.cpp'; subprocess.check_call([sys.executable, V + '/gen/gen_glue.py', V + '/spec/functions.json', glue])
    own = hashlib.sha256(b''.join(check.rd(f) for f in sorted(glob.glob(V + '/src/*.h')))).hexdigest()
    cxx = ['-std=c++17', '-w'] + FL + ['-I' + V + '/src', '-I' + check.R + '/include', '-I' + check.R + '/src/ta_common']
    js += [('g++', cxx, f, own + hh) for f in sorted(glob.glob(V + '/src/*.cpp')) + [glue]]
    objs = check.compile_all(js)
    func = {j[2]: o for j, o in zip(js, objs) if '/ta_func/ta_' in j[2]}
    rest = [o for j, o in zip(js, objs) if j[2] not in func]
    r = WORK + '/rest.o'; subprocess.check_call(['ld', '-r', '-o', r] + rest)
    return func, r
def code_lines(s):
    """(line number) of lines of code: not comment, not preprocessor"""
    out = []; inc = False
    for i, l in enumerate(s.split('\n')):
        t = re.sub(r'/\*.*?\*/', '', l)
        if inc:
            if '*/' in t: inc = False; t = t.split('*/', 1)[1]
            else: continue
        if '/*' in t: t = t.split('/*')[0]; inc = True
        t = re.sub(r'//.*', '', t)
        if t.strip() and not t.strip().startswith('#') and re.search(r'[=<>+\-*/&|!;(]', t): out.append(i)
    return out
SKIP = re.compile(r'^\s*(int|double|unsigned|static|const|ENUM|TA_RetCode|VALUE_HANDLE_INT|ARRAY|struct|typedef|extern|public|CIRCBUF_PROLOG|MALLOC|return\s*;|\{|\})')
def mutants(line):
    pre = re.match(r'\s*(/\* Generated \*/)?', line).end(); body = line[pre:]
    res = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, body):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            res.append((name, line[:pre] + body[:m.start()] + r + body[m.end():]))
    if SKIP.match(body) and not re.search(r'=', body): return []
    if re.match(r'^\s*(int|double|unsigned|static|ENUM_DECL|INPUT_TYPE|VALUE_HANDLE)', body) and '=' not in body: return []
    sub(r'(?<![<>=!\-])<(?![<=])', '<=', '<→<='); sub(r'(?<![<>])<=', '<', '<=→<')
    sub(r'(?<![<>=\-])>(?![>=])', '>=', '>→>='); sub(r'(?<![<>])>=', '>', '>=→>')
    sub(r'==', '!=', '==→!='); sub(r'!=', '==', '!=→==')
    sub(r'&&', '||', '&&→||'); sub(r'\|\|', '&&', '||→&&')
    sub(r'(?<=[\w)\]]) ?\+ ?(?=[\w(])', '-', '+→-'); sub(r'(?<=[\w)\]]) ?- ?(?=[\w(])(?!>)', '+', '-→+')
    sub(r'(?<=[\w)\]])\s*\*\s*(?=[\w(])', '/', '*→/'); sub(r'(?<=[\w)\]])\s*/\s*(?=[\w(])', '*', '/→*')
    sub(r'\+=', '-=', '+=→-='); sub(r'-=', '+=', '-=→+='); sub(r'\+\+', '--', '++→--'); sub(r'(?<!-)--(?!-)', '++', '--→++')
    sub(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1), 'n→n+1'); sub(r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1), 'n→n-1')
    sub(r'(?<![\w.])(\d+\.\d+)(?![\w.])', lambda m: repr(float(m.group(1)) * 1.01 + (0.01 if float(m.group(1)) == 0 else 0)), 'x→1.01x')
    for a, b in (('inHigh', 'inLow'), ('inLow', 'inHigh'), ('inOpen', 'inClose'), ('inClose', 'inOpen'), ('startIdx', 'endIdx'), ('optInFast', 'optInSlow'), ('Plus', 'Minus'), ('highest', 'lowest')): sub(r'\b' + a, b, a + '→' + b)
    if re.match(r'^\s*[\w(*][^;]*;\s*$', body) and not re.match(r'^\s*(return|break|case|goto|if|for|while|else|do)\b', body) and re.search(r'=|\+\+|--|\(', body): res.append(('del', line[:pre] + ' ;'))
    m = re.match(r'^(\s*)(else\s+)?if\s*\((.*)\)\s*$', body)
    if m: res += [('if→0', line[:pre] + (m.group(2) or '') + 'if( 0 )'), ('if→1', line[:pre] + (m.group(2) or '') + 'if( 1 )')]
    return res
def main():
    out, N = sys.argv[1], int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1; files = sys.argv[4:]
    func, rest = base(); rnd = random.Random(seed); util = [f for f in func if f.endswith('ta_utility.c')]
    names = sorted(f for f in func if f not in util and (not files or os.path.basename(f)[3:-2] in files)); allo = list(func.values())
    jobs = []; seen = set()
    src = {f: open(f, 'rb').read().decode('latin1').replace('\r\n', '\n').split('\n') for f in names}
    cl = {f: code_lines('\n'.join(src[f])) for f in names}
    gw = float(os.environ.get('GENW', '0.15'))
    tries = 0
    while len(jobs) < N and tries < 200 * N:
        tries += 1; f = rnd.choice(names); i = rnd.choice(cl[f]); g = '/* Generated */' in src[f][i]
        if g and rnd.random() > gw: continue
        ms = mutants(src[f][i])
        if not ms: continue
        nm, l = rnd.choice(ms)
        if (f, i, l) in seen: continue
        seen.add((f, i, l)); jobs.append((f, i, nm, l))
    def one(k):
        f, i, nm, l = jobs[k]; fn = os.path.basename(f)[3:-2]; s = list(src[f]); s[i] = l; d = WORK + '/m%d' % k; os.makedirs(d, exist_ok=True); c = d + '/' + os.path.basename(f)
        try:
            open(c, 'wb').write('\n'.join(s).encode('latin1'))
            p = subprocess.run(['gcc', '-w'] + FL + check.INC + ['-c', c, '-o', d + '/m.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: return k, 'nocompile', ''
            if open(d + '/m.o', 'rb').read() == open(func[f], 'rb').read(): return k, 'same', ''
            p = subprocess.run(['g++', check.WRAP, rest, d + '/m.o'] + [o for o in allo if o != func[f]] + ['-o', d + '/x', '-lm', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: return k, 'nolink', p.stdout.decode()[-300:]
            props = BASE[:2] + ([REF[fn]] if fn in REF else []) + (['C29'] if fn.startswith('CDL') else []) + BASE[2:]
            try: p = subprocess.run(['timeout', '300', d + '/x', '--only', fn, ','.join(props), '1', d + '/o'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=320)
            except subprocess.TimeoutExpired: return k, 'timeout', ''
            o = p.stdout.decode(errors='replace').strip()
            if p.returncode == 0: return k, 'SURVIVED', ''
            return k, 'killed', o[-160:] or 'rc %d' % p.returncode
        finally: subprocess.call(['rm', '-rf', d])
    cnt = {}; 
    with open(out, 'w') as fo, cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        for k, st, msg in ex.map(one, range(len(jobs))):
            f, i, nm, l = jobs[k]; cnt[st] = cnt.get(st, 0) + 1
            p = msg.split()[1] if msg.startswith('KILLED') else ''
            if st == 'killed': cnt['by ' + (p or 'crash')] = cnt.get('by ' + (p or 'crash'), 0) + 1
            if st in ('SURVIVED', 'timeout', 'nolink'): fo.write('%s %s:%d [%s]\n   - %s\n   + %s\n' % (st, os.path.basename(f), i + 1, nm, src[f][i].strip(), l.strip())); fo.flush()
        fo.write(json.dumps(cnt) + '\n')
if __name__ == '__main__': main()
