"""Short view of an evidence file: ev.py C01 ..."""
import json
import sys
for p in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % p))
    c = d['coverage']
    print(p, d['tier'], d.get('wall_s'), {k: v for k, v in c.items() if k not in ('samples', 'models')})
    for m in c.get('models', []):
        if 'trace' not in m['config']:
            print('   ', m['module'], m['config'], m['distinct_states'], m['transitions'], m['wall_s'])
    t = [m['wall_s'] for m in c.get('models', []) if 'trace' in m['config']]
    if t:
        print('    traces', len(t), max(t))
