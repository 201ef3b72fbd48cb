#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the units that exist."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
na = json.load(open(H + '/lib/not_applicable.json')) if os.path.exists(H + '/lib/not_applicable.json') else {}
checks, nota = [], []
for p in props:
    i = p['id']
    us = glob.glob('%s/units/%s/*.c' % (H, i))
    use = '%s/units/%s/USE' % (H, i)
    if (us or os.path.exists(use)) and i not in na:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': 'contract-based deductive verification: function and loop contracts on the real C functions, discharged by CBMC (goto-instrument --dfcc)',
                       'level': 'proof',
                       'level_note': 'Every obligation of the functions under contract (evidence: functions_under_contract, units) is discharged for all inputs and iterations on the current source. Trusted: CBMC, the models of libc and of replaced callees listed under assumptions. Parts the evidence labels bounded, and the random executions used to find replay inputs and to validate the trusted models, are not counted as proved.'})
    else:
        nota.append({'property': i, 'reason': na.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 lib/gen_properties.py >/dev/null && python3 -c "import ast,glob; [ast.parse(open(f).read()) for f in glob.glob(\'lib/*.py\')]"',
     'checks': checks, 'not_applicable': nota}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(nota), 'not')
