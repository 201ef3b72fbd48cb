#!/usr/bin/env python3
"""Records, for the tree the contracts were written for, the form of every loop under contract
(units/shapes.json).  Not run by the checks."""
import glob, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import vx, annot
out = {}
for p in sorted(glob.glob(os.path.dirname(H) + '/units/*/*.c')):
    u = vx.parse_unit(p)
    rec = {}
    for s in u.srcs:
        q = vx.src_path(s)
        specs = {}
        for f in u.loops:
            try:
                annot.ast_function(q, f, vx.INCS, vx.DEFS)
                specs[f] = u.loops[f]
            except annot.AnnotError:
                pass
        if specs:
            annot.annotate(q, open(q).read(), specs, [], vx.INCS, vx.DEFS, record=rec)
    if rec:
        if u.name in out: raise SystemExit('two units named ' + u.name)
        out[u.name] = rec
json.dump(out, open(os.path.dirname(H) + '/units/shapes.json', 'w'), indent=0, sort_keys=True)
print(len(out), 'units,', sum(len(v) for v in out.values()), 'loops')
