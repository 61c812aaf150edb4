"""prove.py [PATTERN ...]: run the worker on the matching contracts, eight at a time (development aid)"""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = 'python3-vt'
man = json.loads(subprocess.run([VT, '-W', 'ignore', ROOT + '/tools/list_contracts.py', 'C00'], cwd=ROOT, env=dict(os.environ, PYTHONPATH=ROOT),
                                stdout=subprocess.PIPE, check=True).stdout)
pats = sys.argv[1:]
todo = [(k, i, c.get('shards') or 1) for k, c in man['all'].items() if not c.get('trusted') and (not pats or any(p in k for p in pats))
        for i in range(c.get('shards') or 1)]
with tempfile.TemporaryDirectory() as tmp, cf.ThreadPoolExecutor(8) as pool:
    def one(t):
        k, i, n = t
        out = '%s/%d-%d.json' % (tmp, abs(hash(k)), i)
        t0 = time.time()
        try:
            p = subprocess.run([VT, '-W', 'ignore', '-m', 'pyvc.worker', k, out, '300', str(i), str(n)], cwd=ROOT, env=dict(os.environ, PYTHONPATH=ROOT),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
            r = json.load(open(out)) if os.path.exists(out) else {'status': 'died ' + p.stderr.decode()[-200:], 'obligations': 0, 'discharged': 0, 'failed': [], 'reason': ''}
        except subprocess.TimeoutExpired:
            r = {'status': 'timeout', 'obligations': 0, 'discharged': 0, 'failed': [], 'reason': ''}
        return t, r, time.time() - t0
    for t, r, w in pool.map(one, todo):
        print('%-62s %d/%d %-10s %d/%d %.1fs %s' % (t[0], t[1], t[2], r['status'], r['discharged'], r['obligations'], w, r['reason'][-150:].replace('\n', ' ')))
        for f in r['failed'][:4]:
            print('     ', f['name'][:150])
        sys.stdout.flush()
