#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from bin/defs/*.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units
V = units.VERIF if hasattr(units, 'VERIF') else os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(V + '/properties.jsonl', 'w') as f:
    for pid, p in sorted(units.PROPERTIES.items()):
        f.write(json.dumps(dict(
            id=pid, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                         observe_at=p.get('observe_at', []), hook_needed=None))) + '\n')
        us = [u for u in units.UNITS if u['prop'] == pid]
        if p.get('na'):
            na.append(dict(property=pid, reason=p['na']))
            continue
        np = sum(1 for u in us if not u.get('bounded'))
        nb = len(us) - np
        level = 'proof' if nb == 0 else 'other'
        note = ('%d unit(s) proved without bound, %d bounded stand-in(s) (complete '
                'within the stated shapes, contents symbolic). ' % (np, nb)
                + p.get('note', '') + ' Trusted: cbmc 6.11, stubs for nginx core.')
        checks.append(dict(
            property=pid, quick_cmd='python3 bin/vp.py check ' + pid,
            thorough_cmd='VERIF_TIER=thorough python3 bin/vp.py check ' + pid,
            evidence_file='evidence/%s.json' % pid,
            technique='CBMC code contracts: function contracts and frame conditions '
            '(goto-instrument --dfcc) on the real C functions, discharged by cbmc; '
            'bounded contract checks where labelled',
            level=level, level_note=note.strip()))
json.dump(dict(version=1, setup_cmd='python3 bin/vp.py list', checks=checks,
               not_applicable=na,
               notes='No hooks in /repo: the units in /verif/units include the real .c files unchanged.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
