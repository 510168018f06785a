#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and lib/rules."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
sys.dont_write_bytecode = True
NA = {
    'C25': 'numerical agreement with another implementation over measured '
           'atlases: neither the atlases nor the reference program are part '
           'of the source, so nothing in the shape of the code decides it',
}
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(H, 'lib/rules', p + '.py')) and p not in NA:
        m = importlib.import_module('rules.' + p).META
        checks.append(dict(
            property=p, quick_cmd=f'./check {p}',
            thorough_cmd=f'./check {p} --tier thorough',
            technique=m.get('technique', 'static analysis: interprocedural '
                            'value numbering against a reference'),
            level='other', level_note=m['explanation'] + ' ' + m.get('assumes',
            'Real arithmetic: rounding is not modelled. The resolved syntax '
            'tree of clang and the value numbering engine are trusted.')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check yet')))
json.dump(dict(version=1, setup_cmd='python3 lib/facts.py', checks=checks,
               not_applicable=na,
               notes='Exit 2 with ANALYSIS-ERROR means that no verdict was '
               'reached (an anchor vanished or a construct is outside the '
               'analysed language).'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
