#!/usr/bin/env python3
"""Authoring-time tool: collects the T("...") texts of the specification into data/text.json."""
import re, json, glob, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = set()
for f in glob.glob(ROOT + '/spec/*.tla'):
    s = open(f).read()
    names |= set(re.findall(r'\bT\("([^"]*)"\)', s))
    if f.endswith('Models.tla'):
        names |= set(re.findall(r'Mdl\("([^"]*)"', s))
    if f.endswith('Cli.tla'):
        names |= set(re.findall(r'Arg\("([^"]*)"', s)) | {"rename", "comment", "lock", "unlock", "archive", "unarchive", "convert", "search", "help", "version", "models", "details"}
names |= {"en", "fr", "min", "max", "smart", "pretty", "accessible", "ti"}
json.dump({n: [ord(c) for c in n] for n in sorted(names)}, open(ROOT + '/spec/data/text.json', 'w'), separators=(',', ':'))
print(len(names))
