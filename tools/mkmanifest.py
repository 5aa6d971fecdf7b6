#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contract files and the table below."""
import json, re, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claimed, nbounded, btext = {}, {}, {}
for f in glob.glob(os.path.join(here, 'contracts', '**', '*.go'), recursive=True):
    for m in re.finditer(r'^//verif:prop (.*)\n((?://verif:.*\n)*)', open(f).read(), re.M):
        b = re.search(r'^//verif:bounded (.*)$', m.group(2), re.M)
        for p in m.group(1).split():
            claimed[p] = claimed.get(p, 0) + 1
            if b:
                nbounded[p] = nbounded.get(p, 0) + 1
                btext.setdefault(p, []).append(b.group(1))
NOTES = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    if i in claimed and not n.get('na'):
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': n.get('technique', 'contract-based deductive verification: contracts on the real Go functions, obligations generated from go/ssa of the current source and discharged by z3'),
            'level': n.get('level', 'other' if nbounded.get(i) == claimed[i] else 'proof'),
            'level_note': n.get('note', '') + (' ' if n.get('note') else '') + ('Bounded, not proved, for: %s. ' % '; '.join(sorted(set(btext[i]))) if i in btext else '') + ('All obligations of the property\'s contracts are discharged for all inputs; assumptions are listed in the evidence.' if nbounded.get(i, 0) < claimed[i] else 'Every input within these bounds is covered; the rest is not.'),
        })
    else:
        na.append({'property': i, 'reason': n.get('na', 'No contract has been written for this property yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
