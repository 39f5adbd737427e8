#!/usr/bin/env python3
"""spec/functions.json -> glue.gen.cpp: one uniform descriptor (thunks) per TA function.
Only the public C prototypes are used."""
import json, sys
spec = json.load(open(sys.argv[1]))
o = open(sys.argv[2], 'w')
p = lambda s: o.write(s + '\n')
p('// generated by gen/gen_glue.py')
p('#include "glue.h"')
p('extern "C" {\n#include "ta_libc.h"\n}')
p('#define D(i) ((const double*)in[i])\n#define F(i) ((const float*)in[i])')
def q(s): return json.dumps(s)
rows = []
for f in spec:
    n = f['name']
    oa = []
    for i, t in enumerate(f['opts']):
        oa.append({'int': '(int)o[%d]', 'real': 'o[%d]', 'ma': '(TA_MAType)(int)o[%d]'}[t['type']] % i)
    ia = ['D(%d)' % i for i in range(len(f['ins']))]
    fa = ['F(%d)' % i for i in range(len(f['ins']))]
    ta = ['(%s*)out[%d]' % ('int' if t['type'] == 'int' else 'double', i) for i, t in enumerate(f['outs'])]
    sc = ['v[%d]' % i for i in range(len(f['ins']))]
    j = lambda *a: ', '.join(sum(a, []))
    st = 'struct TA_%s_State' % n
    p('static int %s_lb(const double*o){ return TA_%s_Lookback(%s); }' % (n, n, j(oa)))
    p('static int %s_b(int s,int e,const void*const*in,const double*o,int*bg,int*nb,void*const*out){ return TA_%s(%s); }' % (n, n, j(['s', 'e'], ia, oa, ['bg', 'nb'], ta)))
    p('static int %s_s(int s,int e,const void*const*in,const double*o,int*bg,int*nb,void*const*out){ return TA_S_%s(%s); }' % (n, n, j(['s', 'e'], fa, oa, ['bg', 'nb'], ta)))
    p('static int %s_i(void**st,const double*o){ return TA_%s_StateInit(%s); }' % (n, n, j(['(%s**)st' % st], oa)))
    p('static int %s_st(void*st,const double*v,void*const*out){ return TA_%s_State(%s); }' % (n, n, j(['(%s*)st' % st], sc, ta)))
    p('static int %s_bs(void*st,int s,int e,const void*const*in,int*bg,int*nb,void*const*out){ return TA_%s_BatchState(%s); }' % (n, n, j(['(%s*)st' % st, 's', 'e'], ia, ['bg', 'nb'], ta)))
    p('static int %s_f(void**st){ return TA_%s_StateFree((%s**)st); }' % (n, n, st))
    p('static int %s_sv(void*st,FILE*f){ return TA_%s_StateSave((%s*)st,f); }' % (n, n, st))
    p('static int %s_ld(void**st,FILE*f){ return TA_%s_StateLoad((%s**)st,f); }' % (n, n, st))
    fl = f['flags']
    ins = '{' + ','.join(q(t['name']) for t in f['ins']) + '}'
    opts = '{' + ','.join('{%s,%d,%r,%r,%r,%s}' % (q(t['name']), {'int': 0, 'real': 1, 'ma': 2}[t['type']], float(t['min']), float(t['max']), float(t['default']), q(t['display'])) for t in f['opts']) + '}'
    outs = '{' + ','.join('{%s,%d}' % (q(t['name']), 1 if t['type'] == 'int' else 0) for t in f['outs']) + '}'
    rows.append('{%s,%s,%s,%s,%s,%d,%d,%d,%d,%d,%s,%s,%s,%s_lb,%s_b,%s_s,%s_i,%s_st,%s_bs,%s_f,%s_sv,%s_ld}' % (
        q(n), q(f['camel']), q(f['group']), q(f['hint']), q('|'.join(fl)), 'Candlestick' in fl, 'Unstable Period' in fl, len(f['ins']), len(f['opts']), len(f['outs']),
        ins, opts, outs, n, n, n, n, n, n, n, n, n))
p('const Fn FNS[] = {\n' + ',\n'.join(rows) + '\n};')
p('const int NFN = sizeof(FNS)/sizeof(FNS[0]);')
