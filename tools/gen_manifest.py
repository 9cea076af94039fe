#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and bin/checks.json."""
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
conf=json.load(open(f'{V}/bin/checks.json'))
NOTE=("Explicit TLA+ specification. TLC checks the specification's laws exhaustively on small universes, the model's behaviours are replayed "
      "on the package built from the working tree, and randomised recorded traces of the package are validated call by call against the same "
      "specification by TLC. Assurance: complete on the model's bounds, sampled beyond them. Trusted: the projection of R objects (harness/proj.c), R, TLC.")
checks=[];na=[]
for p in props:
    c=conf.get(p['id'])
    if c is None: na.append(dict(property=p['id'],reason='Machinery for this property is still being built.')); continue
    checks.append(dict(property=p['id'],quick_cmd=f"bin/check {p['id']}",thorough_cmd=f"bin/check {p['id']} --thorough",
      technique=c.get('technique','TLA+ specification model checked with TLC; model behaviours replayed on, and recorded traces of, the real package validated against it'),
      level='model_checking',level_note=c.get('note',NOTE)))
m=dict(version=1,setup_cmd='bin/setup',checks=checks,not_applicable=na)
json.dump(m,open(f'{V}/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
