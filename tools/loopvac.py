"""loopvac.py [PATTERN ...]: loops under contract whose third iteration has contradictory assumptions (development aid: none should)"""
import sys
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
exec(open(sys.path[0] + '/tools/try.py').read().split("prog = Program()")[0])
from pyvc.verify import *
from contracts.all import side as _s
prog = Program()
pats = [a for a in sys.argv[1:]]
for key, c in side.contracts.items():
    if c.trusted or not c.loops or pats and not any(p in key for p in pats):
        continue
    v = Verifier(prog, side)
    try:
        v.verify(c)
    except Unsupported as e:
        print(key, 'UNSUPPORTED', e)
        continue
    labs = {}
    for lab, path, ax in v.loop_states:
        labs.setdefault(lab, []).append((path, ax))
    for lab, l in labs.items():
        # the loop may not run three times in some cases, but must in one of them
        if all(solve({'path': path, 'ax': ax, 'goal': F_}, timeout=2000, cvc5=False, tries=1)[0] == 'proved' for path, ax in l):
            print('CONTRADICTORY', key, lab, flush=True)
print('done', len(side.contracts))
