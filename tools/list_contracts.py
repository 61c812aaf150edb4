import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from contracts.all import load
from contracts.base import ASSUMPTIONS
side = load()
pid = sys.argv[1]
keys = [k for k, c in side.contracts.items() if pid in c.props and not c.trusted]
print(json.dumps({'keys': keys, 'all': {k: {'trusted': bool(c.trusted), 'budget': c.budget, 'shards': c.shards} for k, c in side.contracts.items()},
                  'assumptions': ASSUMPTIONS}))
