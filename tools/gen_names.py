#!/usr/bin/env python3
"""gen_names.py: contracts/names.txt, the names of parameters and locals of the functions under contract as the contracts
and proof annotations use them (rule R20 of the extraction).  Run on the tree the contracts were written for."""
import sys, os, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'driver'))
import check, assemble
with tempfile.TemporaryDirectory() as d:
    exe = check.build_extractor(d)
    ovs = assemble.load_overlays()
    known = {((m + '::') if m else '') + k for m, o in ovs.items() for k in o.fns}
    items = check.extract(exe, check.expand('/repo', d), d, ovs, names=False)['items']
with open(os.path.join(HERE, '..', 'contracts', 'names.txt'), 'w') as o:
    for i in items:
        for f in (i.get('fns') or []) + [i]:
            if f.get('binders') and f['path'] in known:
                o.write('%s\t%s\n' % (f['path'], ' '.join(f['binders'])))
