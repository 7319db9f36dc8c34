"""writes properties.jsonl and MANIFEST.json from texts.py and registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import texts, registry
TECH = {'vn': 'static global value numbering of the optimised IR: normal form of the code compared with that of a specification function',
        'flow': 'static flow analysis over the IR (typestate / lock-set / effect rules)', 'type': 'compile-pass / compile-fail type witnesses decided by the C++ type checker'}
NOTE = {'vn': 'universal over the stated inputs under the model of the engine (unbounded integers, real arithmetic); loops are summarised, not unrolled; obligations the normal form cannot settle are reported as undecided in the evidence and never as alarms',
        'flow': 'sound over the analysed functions for the stated rule, with the listed assumptions; no path enumeration', 'type': 'decided by the type checker for every program matching the witness template'}
ids = sorted(texts.T)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i in ids: f.write(json.dumps(texts.T[i]) + '\n')
checks = []
for i in ids:
    if i not in registry.PROPS: continue
    P = registry.PROPS[i]
    kinds = []
    for u in P['units']:
        if u['engine'] not in kinds: kinds.append(u['engine'])
    checks.append(dict(property=i, quick_cmd=f'python3 engine/check.py {i}', thorough_cmd=f'python3 engine/check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
        technique=P.get('technique') or '; '.join(TECH[k] for k in kinds), level=P['level'], level_note=P.get('note') or '; '.join(NOTE[k] for k in kinds)))
na = []
for i in ids:
    if i not in registry.PROPS: na.append(dict(property=i, reason=texts.NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash build.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for i in registry.PROPS:
    if i not in texts.T: print('no text for', i)
    elif registry.PROPS[i]['title'] != texts.T[i]['title']: print('title differs', i)
print(len(ids), 'properties', len(checks), 'checks', len(na), 'not applicable')
