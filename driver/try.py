"""try.py [mods] [verify]: assemble into /tmp/w/gen.rs (development)"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import assemble, shimgen
items = json.load(open('/tmp/w/items.json'))['items']
ovs = assemble.load_overlays()
mods = sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] else []
ver = set(sys.argv[2].split(',')) if len(sys.argv) > 2 else None
g = assemble.Gen(items, ovs, only=set(mods) or None, verify=ver)
src = g.crate(shimgen.shim(os.path.join(assemble.VERIF, 'contracts', 'shim.rs.in')))
open('/tmp/w/gen.rs', 'w').write(src)
for p in g.problems:
    print('PROBLEM', p)
