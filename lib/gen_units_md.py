#!/usr/bin/env python3
"""Writes UNITS.md: every unit with the functions it puts under contract, what it proves and what it trusts."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['# Units', '', 'Generated by `lib/gen_units_md.py` from the units themselves.  `PROOF`: discharged for all inputs and iterations;',
       '`BOUNDED`: the bound is stated and the unit is never counted as proved.  "Also used" are units of other properties on which',
       'this property relies; they are run by this check, too.', '']
n = b = 0
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    out += ['## %s %s' % (p['id'], p['title']), '']
    for f in sorted(glob.glob('%s/units/%s/*.c' % (H, p['id']))):
        d = {}
        for m in re.finditer(r'^//@ (\S+) ?(.*)$', open(f).read(), re.M):
            d.setdefault(m.group(1), []).append(m.group(2).strip())
        k = d.get('kind', ['proof'])[0]
        n += 1; b += k != 'proof'
        fn = ', '.join('`%s`' % x for x in list(dict.fromkeys(y.split()[0] for y in d.get('enforce', []) + d.get('enforce-rec', []) + d.get('fn', []) if y)) if x)
        out.append('- **%s** (%s) %s of `%s`: %s' % (os.path.basename(f)[:-2], 'BOUNDED, ' + ' '.join(d.get('bound', ['?'])) if k != 'proof' else 'PROOF', fn or '(helper)', ', '.join(d.get('src', [])), ' '.join(d.get('desc', []))))
        if d.get('trust'): out.append('  - trusted: ' + '; '.join(d['trust']))
    use = '%s/units/%s/USE' % (H, p['id'])
    if os.path.exists(use): out.append('- also used: ' + ', '.join(open(use).read().split()))
    out.append('')
out.insert(5, '\n' + '%d units, %d of them bounded.' % (n, b))
open(H + '/UNITS.md', 'w').write('\n'.join(out))
print(n, 'units,', b, 'bounded')
