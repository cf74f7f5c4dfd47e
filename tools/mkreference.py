#!/usr/bin/env python3
"""
Writes sa/reference.json: what Synfig itself writes for a new layer of each
type. Taken from /repo/test/pick-and-mix.sif, a file saved by Synfig with one
new layer of each type (for types it has twice, the one with default contents).
Run by hand; the result is committed, so the checks don't depend on the file.
"""
import json, os, sys
import xml.etree.ElementTree as E

def tree(e):
    kids = []
    if e.text and e.text.strip():
        kids.append(e.text.strip())
    for c in e:
        kids.append(tree(c))
    return [e.tag, dict(e.attrib), kids]

r = {}
root = E.parse(sys.argv[1] if len(sys.argv) > 1 else
               '/repo/test/pick-and-mix.sif').getroot()
for l in root.iter('layer'):
    t = l.get('type')
    d = {'type': t, 'version': l.get('version'), 'params': {}}
    for p in l.findall('param'):
        x = [tree(c) for c in p]
        d['params'][p.get('name')] = x[0] if len(x) == 1 else None
    # for a switch, the last one is the empty one
    r[t] = d
with open(os.path.join(os.path.dirname(__file__), '..', 'sa',
                       'reference.json'), 'w') as f:
    json.dump(r, f, indent=0, sort_keys=True)
print(len(r))
