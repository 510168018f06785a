#!/usr/bin/env python3
"""Writes DESIGN.md from dev/DESIGN.in.md, properties.jsonl, MANIFEST.json,
known-findings.txt, seeded/ and dev/notes.json."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
sys.dont_write_bytecode = True
rd = lambda f: open(os.path.join(H, f)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
title = {p['id']: p['title'] for p in props}
man = json.loads(rd('MANIFEST.json'))
claimed = {c['property'] for c in man['checks']}
notes = json.loads(rd('dev/notes.json'))
out = []
for p in props:
    if p['id'] not in claimed:
        continue
    m = importlib.import_module('rules.' + p['id']).META
    out += [f'### {p["id"]} {p["title"]}', '', p['statement'], '',
            f'*Decided by* ({m.get("technique", "static analysis: interprocedural value numbering against a reference")}). ' + m['explanation'], '',
            '*Why tests cannot.* ' + p['why_tests_cant'], '',
            '*Assumes.* ' + m.get('assumes', 'real arithmetic.') + ' ' +
            notes['bounds'].get(p['id'], ''), '']
na = [f'* **{n["property"]}** {title[n["property"]]}: {n["reason"]}.'
      for n in man['not_applicable']]
fixed, find = [], []
for l in rd('known-findings.txt').splitlines():
    if l.startswith('fixed: '):
        q, h, t = l[7:].split(' ', 2)
        fixed.append(f'* {q[9:]} `{h}` {t}')
    elif l.startswith('finding: '):
        find.append('* ' + l[9:])
seeds = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append(f'| {n} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | '
                 f'{notes["caught"].get(n, "./check " + m["property"])} |')
t = rd('dev/DESIGN.in.md')
for k, v in dict(PROPS='\n'.join(out), NA='\n'.join(na), FIXED='\n'.join(fixed),
                 FINDINGS='\n'.join(find), SEEDS='\n'.join(seeds),
                 MUT=notes['mutants']).items():
    t = t.replace(f'@@{k}@@', v)
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)
print(len(t))
