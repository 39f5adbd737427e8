#!/usr/bin/env python3
"""One-off: freeze the documented interface of every TA function into spec/functions.json.

Sources: the public header's prototypes (names, argument order, types, documented ranges),
ta_func_api.xml (default values, flags, groups) at the pinned commit. The result is committed and
is what the checks treat as the documented interface; it is not regenerated at check time."""
import re, json, sys, xml.etree.ElementTree as ET
R = sys.argv[1] if len(sys.argv) > 1 else '/repo'
h = open(R + '/ta-lib-rt/c/include/ta_func.h', encoding='latin1').read()
x = ET.parse(R + '/ta-lib-rt/ta_func_api.xml').getroot()
xml = {g.findtext('Abbreviation'): g for g in x.findall('FinancialFunctionGroup')}
names = re.findall(r'TA_LIB_API int TA_(\w+)_Lookback\(', h)
out = []
for n in names:
    m = re.search(r'TA_LIB_API TA_RetCode TA_%s\((.*?)\);' % n, h, re.S)
    body = m.group(1)
    # attach range comments before stripping
    toks = re.findall(r'((?:const\s+)?\w+)\s+(\*?)(\w+)(\[\])?\s*,?\s*(/\*.*?\*/)?', body)
    ins, opts, outs = [], [], []
    for ty, star, nm, arr, com in toks:
        if nm in ('startIdx', 'endIdx', 'outBegIdx', 'outNBElement'): continue
        if nm.startswith('optIn'):
            o = {'name': nm, 'type': {'int': 'int', 'double': 'real', 'TA_MAType': 'ma'}[ty]}
            if o['type'] == 'ma': o['min'], o['max'] = 0, 9
            else:
                r = re.match(r'/\* From (\S+)\s+to (\S+) \*/', com)
                def cv(s):
                    if s == 'TA_REAL_MIN': return -3e37
                    if s == 'TA_REAL_MAX': return 3e37
                    return float(s) if o['type'] == 'real' else int(s)
                o['min'], o['max'] = cv(r.group(1)), cv(r.group(2))
            opts.append(o)
        elif nm.startswith('out'):
            outs.append({'name': nm, 'type': 'int' if ty == 'int' else 'real'})
        else:
            assert ty.startswith('const'), (n, ty, nm)
            ins.append({'name': nm, 'type': 'int' if 'int' in ty else 'real'})
    g = xml[n]
    f = [q for q in g.find('Functions') if q.findtext('Type') == 'Regular'][0]
    xo = f.find('OptionalInputArguments')
    xo = list(xo) if xo is not None else []
    assert len(xo) == len(opts), n
    for o, q in zip(opts, xo):
        d = q.findtext('DefaultValue')
        o['default'] = float(d) if o['type'] == 'real' else int(d)
        o['display'] = q.findtext('Name')
        assert q.findtext('Type') == {'int': 'Integer', 'real': 'Double', 'ma': 'MA Type'}[o['type']], (n, q.findtext('Type'))
        rg = q.find('Range')
        if rg is not None:
            assert abs(float(rg.findtext('Minimum')) - o['min']) <= 1e-9*abs(o['min']), (n, o, rg.findtext('Minimum'))
            assert abs(float(rg.findtext('Maximum')) - o['max']) <= 1e-9*abs(o['max']), (n, o, rg.findtext('Maximum'))
    fl = [t.text for t in g.find('Flags')] if g.find('Flags') is not None else []
    out.append(dict(name=n, camel=g.findtext('CamelCaseName'), group=g.findtext('GroupId'),
                    hint=g.findtext('ShortDescription'), flags=fl, ins=ins, opts=opts, outs=outs))
print(len(out), set(i['name'] for f in out for i in f['ins']))
json.dump(out, open('/verif/spec/functions.json', 'w'), indent=1)
