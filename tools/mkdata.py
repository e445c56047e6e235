#!/usr/bin/env python3
"""Authoring-time tool: turns the XML edition of the token sheet and the token definitions into the data the
specification reads (spec/data).  The checks only read the committed result."""
import json, sys, xml.etree.ElementTree as ET
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
base = repo + '/src/calculator/tokens/'
cps = lambda s: [ord(c) for c in s]
out = []
def version(e):
    if e is None: return None
    v = e.find('os-version').text or ''
    return {"model": e.find('model').text, "version": cps(v)}
def walk(e, prefix):
    for t in e:
        if t.tag not in ('token', 'two-byte'): continue
        key = prefix + [int(t.get('value')[1:], 16)]
        if t.tag == 'two-byte':
            walk(t, key); continue
        for v in t.findall('version'):
            for l in v.findall('lang'):
                if l.get('code') != 'en': continue
                acc = l.find('accessible').text or ''
                out.append({"key": key, "since": version(v.find('since')), "until": version(v.find('until')) or {"model": "", "version": []},
                            "ti": cps(l.get('ti-ascii')), "pretty": cps(l.get('display')), "accessible": cps(acc)})
walk(ET.parse(base + 'standard_tokens/8X.xml').getroot(), [])
with open('/verif/spec/data/sheet.ndjson', 'w') as f:
    for o in out: f.write(json.dumps(o, separators=(',', ':')) + '\n')
defs = json.load(open(base + 'token_definitions.json'))
with open('/verif/spec/data/definitions.ndjson', 'w') as f:
    for k in sorted(defs):
        f.write(json.dumps({"key": cps(k), "defs": [{"syntax": cps(d['syntax']), "description": cps(d['description'])} for d in defs[k]]}, separators=(',', ':')) + '\n')
print(len(out), len({tuple(o['key']) for o in out}), len(defs))
