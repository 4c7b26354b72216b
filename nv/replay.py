"""run a recorded failing input again against /repo's current tree"""
import json, sys
from . import core, dsl, gen
from .specimens import ALL

def main(path):
    d = json.load(open(path))
    print(d['what'])
    if d.get('kind') not in ('input', 'compile', 'obligation', 'crash'):
        print(json.dumps(d, indent=1)[:4000]); return 0
    core.SEED = d['seed']
    from . import check
    check.SEED = d['seed']
    specs = [s for l in check.programs(d['property'], d['tier']) for s in l if s.id == d['spec']]
    if not specs: print('no such program any more'); return 2
    P = core.Project('replay', specs); P.compile()
    if P.failed: print('does not compile:\n' + list(P.failed.values())[0]); return 1
    fails, done, total, crashed, dt = P.native(14, 3, only=d['spec'], input=d.get('input_hex'), timeout=120)
    for f in fails: print(f"{f['func']} input {f['input']} {f['args']}: got {f['got']}, contract says {f['want']}")
    if crashed: print('crashed:', crashed)
    print('reproduced' if fails or crashed else 'not reproduced')
    return 1 if fails or crashed else 0
