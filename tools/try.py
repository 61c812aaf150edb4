import sys, time, os
sys.path.insert(0, '/verif')
from pyvc.verify import *
from pyvc.source import Program
import importlib
from contracts.base import side
def load():
    import contracts, pkgutil
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module('contracts.' + m.name)
load()
prog = Program()
pat = sys.argv[1:]
to = int(os.environ.get('TO','8000'))
for key, c in side.contracts.items():
    if c.trusted or (pat and not any(p in key for p in pat)): continue
    t0 = time.time()
    v = Verifier(prog, side)
    try:
        obls = v.verify(c)
    except Unsupported as e:
        print('%-50s UNSUPPORTED %s' % (key, e)); 
        import os
        if os.environ.get('TB'): raise
        continue
    t1 = time.time()
    bad = 0; tot = 0
    for o in obls:
        for q in split_goal(o):
            tot += 1
            if bad >= int(os.environ.get('STOP', '6')): continue
            st, be, t, out = solve(q, timeout=to, cvc5=False, tries=int(os.environ.get("TRIES","3")))
            if t > float(os.environ.get('SLOW','1e9')): print('   slow %.1f' % t, st, o['name'][:90], '|', str(q['goal'])[:150].replace('\n', ' '))
            if st != 'proved':
                bad += 1
                if bad <= int(__import__('os').environ.get('MAX','6')): print('   ', st, '%.1f' % t, o['kind'], o['name'][:110], '|', str(q['goal'])[:110].replace('\n', ' '))
    vac = []
    if not bad:
     for nm, p, ax in v.normal_paths[:3]:
        st, *_ = solve({'path': p, 'ax': ax, 'goal': F_}, timeout=1500, cvc5=False, tries=1)
        vac.append(st)
    print('%-50s %d/%d obligations, exec %.1fs solve %.1fs paths %d vac %s' % (key, tot - bad, tot, t1 - t0, time.time() - t1, v.npaths, vac))
