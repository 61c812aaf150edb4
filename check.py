#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree (see DESIGN.md). Exit 0 or 1."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'


DEADLINE = time.time() + 560


def env():
    e = dict(os.environ, PYTHONPATH=REPO + ':' + ROOT, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', REPO=REPO)
    return e


def verify_contract(key, tmp, budget, shard=0, shards=1):
    out = os.path.join(tmp, hashlib.md5(key.encode()).hexdigest() + '-%d.json' % shard)
    budget = max(20, min(budget, (DEADLINE - time.time()) / 1.1))
    dead = {'key': key, 'status': 'crashed', 'reason': '', 'obligations': 0, 'discharged': 0, 'failed': [], 'assumed': [], 'backends': {},
            'solver_s': 0.0, 'names': [], 'paths': 0, 'callees': [], 'inlined': [], 'externs': [], 'dropped': []}
    try:
        for _ in range(5):  # z3 rarely takes its process down with it: once more, then
            p = subprocess.run([VT, '-W', 'ignore', '-m', 'pyvc.worker', key, out, str(budget), str(shard), str(shards)], cwd=ROOT, env=dict(env(), PYTHONPATH=ROOT),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=budget * 1.2 + 30)
            if os.path.exists(out):
                return json.load(open(out))
            dead['reason'] = 'the generator died (%s): ' % p.returncode + p.stderr.decode()[-300:]
    except subprocess.TimeoutExpired:
        dead['reason'] = 'the generator ran out of time'
    return dead


def merge(a, b):
    if a is None:
        return b
    order = ['crashed', 'unsupported', 'vacuous', 'unproved', 'proved']
    r = a if order.index(a['status']) <= order.index(b['status']) else b
    r = dict(r)
    for k in ('obligations', 'discharged', 'solver_s'):
        r[k] = a[k] + b[k]
    r['failed'] = a['failed'] + b['failed']
    r['backends'] = {x: a['backends'].get(x, 0) + b['backends'].get(x, 0) for x in set(a['backends']) | set(b['backends'])}
    for k in ('assumed', 'names', 'callees', 'inlined', 'externs', 'dropped'):
        r[k] = sorted(set(a[k]) | set(b[k]))
    return r


def oracle(pid, tmp, seconds, seed, tag):
    out = os.path.join(tmp, 'oracle-%s.json' % tag)
    try:
        p = subprocess.run([PY, os.path.join(ROOT, 'oracles', 'run.py'), pid, '--seconds', str(seconds), '--seed', str(seed), '--out', out],
                           cwd='/tmp', env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds * 2 + 120)
        if os.path.exists(out):
            o = json.load(open(out))
            if o['failure']:
                open(os.path.join(tmp, 'violated'), 'w').close()  # provers then report what fails first time and do not insist
            return o
        err = p.stderr.decode()[-800:]
    except subprocess.TimeoutExpired:
        err = 'the search ran out of time'
    return {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failure': None, 'harness': [err], 'known': {}, 'rule': '', 'bound': ''}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    t0 = time.time()
    man = json.loads(subprocess.run([VT, '-W', 'ignore', os.path.join(ROOT, 'tools', 'list_contracts.py'), pid], cwd=ROOT,
                                    env=dict(env(), PYTHONPATH=ROOT), stdout=subprocess.PIPE, check=True).stdout)
    keys, allc = man['keys'], man['all']
    has_oracle = os.path.exists(os.path.join(ROOT, 'oracles', pid + '.py'))
    results = {}
    with tempfile.TemporaryDirectory(prefix='vc-') as tmp, cf.ThreadPoolExecutor(8) as pool:
        orc = [pool.submit(oracle, pid, tmp, 240 if thorough else 15, seed, 'a')] if has_oracle else []
        todo = set(keys)
        futs = {}
        while todo or futs:
            for k in sorted(todo, key=lambda k: -(allc[k].get('budget') or 0)):
                n = allc[k].get('shards') or 1
                for i in range(n):
                    futs[pool.submit(verify_contract, k, tmp, 330, i, n)] = k
            todo = set()
            done, _ = cf.wait(list(futs), return_when=cf.FIRST_COMPLETED)
            for d in done:
                k = futs.pop(d)
                results[k] = merge(results.get(k), d.result())
                for c in results[k]['callees']:
                    if c not in results and c not in futs.values() and c not in todo and not allc.get(c, {}).get('trusted'):
                        todo.add(c)
        orcs = [o.result() for o in orc]
        undis = [r for r in results.values() if r['status'] in ('unproved', 'vacuous') and not (r['status'] == 'vacuous' and not r['failed'])]
        vac = [r for r in results.values() if r['status'] == 'vacuous']
        fail = next((o['failure'] for o in orcs if o['failure']), None)
        if undis and not fail and has_oracle:
            # look longer for an input on which the undischarged obligation fails
            more = [pool.submit(oracle, pid, tmp, 30, seed + 17 * (i + 1), 'b%d' % i) for i in range(6)]
            orcs += [m.result() for m in more]
            fail = next((o['failure'] for o in orcs if o['failure']), None)
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    violations = []
    if fail:
        body = {'property': pid, 'case': fail['case'], 'message': fail['message'],
                'replay': 'REPO=/repo %s %s/oracles/run.py %s --replay <this file>' % (PY, ROOT, pid),
                'undischarged': [{'contract': r['key'], 'obligations': r['failed'][:5]} for r in undis]}
        path = os.path.join(ROOT, 'replay', '%s-%s.json' % (pid, hashlib.md5(json.dumps(fail, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(body, open(path, 'w'), indent=1)
        violations.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif undis:
        body = {'property': pid, 'undischarged': [{'contract': r['key'], 'reason': r['reason'], 'obligations': r['failed'][:20]} for r in undis]}
        path = os.path.join(ROOT, 'replay', '%s-obligation.json' % pid)
        json.dump(body, open(path, 'w'), indent=1)
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    proved = sorted(k for k, r in results.items() if r['status'] == 'proved')
    outside = {k: r['reason'] for k, r in results.items() if r['status'] in ('unsupported', 'crashed') or r in vac}
    nob, ndis = sum(r['obligations'] for r in results.values()), sum(r['discharged'] for r in results.values())
    be = {}
    for r in results.values():
        for b, n in r['backends'].items():
            be[b] = be.get(b, 0) + n
    trusted = ['pyvc (the VC generator in /verif/pyvc), z3, cvc5 and the Python subset semantics written down in DESIGN.md']
    trusted += ['model of a dependency: ' + x for x in sorted({e for r in results.values() for e in r['externs']})]
    trusted += ['trusted contract: ' + x for x in sorted({c for r in results.values() for c in r['callees'] if allc.get(c, {}).get('trusted')})]
    trusted += ['assumed, bounded check only: %s' % n for n in sorted({n for r in results.values() for n in r['assumed']})]
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed,
          'level': 'proof' if proved and nob and nob == ndis and not violations else 'other',
          'coverage': {
              'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt -m pyvc.worker <contract> out.json (z3, then cvc5)',
              'trusted_base': trusted,
              'backends': be, 'solver_seconds': round(sum(r['solver_s'] for r in results.values()), 1),
              'functions_proved': proved,
              'functions_verified_inline': sorted({i for r in results.values() for i in r['inlined']}),
              'functions_outside_reach': outside,
              'functions_undischarged': sorted(r['key'] for r in undis),
              'obligation_names': sorted({n for r in results.values() for n in r['names']})[:400],
              'bounded_check': 'BOUNDED, not counted as proved: the postconditions evaluated on the real code over generated inputs. ' +
                               (orcs[0]['rule'] if orcs else 'none') + (' Bound: ' + orcs[0]['bound'] if orcs else ''),
              'evaluations': sum(o['evaluations'] for o in orcs), 'distinct_nontrivial': sum(o['distinct_nontrivial'] for o in orcs),
              'rule': orcs[0]['rule'] if orcs else '', 'samples': (orcs[0]['samples'] if orcs else [])[:3],
              'harness_errors': [h for o in orcs for h in o['harness']][:3],
              'explanation': 'Obligations of the contracts on the functions listed under functions_proved were generated from the current source '
                             'and discharged; the rest of the property (see DESIGN.md) is checked on bounded inputs only.'},
          'assumptions': man['assumptions'] + ['dropped by the generator: ' + x for x in sorted({d for r in results.values() for d in r['dropped']})],
          'wall_s': round(wall, 1), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    seen = {}
    for o in orcs:
        for k, n in o['known'].items():
            seen[k] = seen.get(k, 0) + n
    kf = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)):
            if k['property'] == pid and k.get('status') == 'known':
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d/%d obligations of %d contracts discharged (%s), %d functions outside reach, %d bounded evaluations, %.0f s' % (
        pid, ndis, nob, len(results), ', '.join('%s %d' % x for x in sorted(be.items())), len(outside), ev['coverage']['evaluations'], wall))
    for k, r in sorted(outside.items()):
        print('  outside reach: %s: %s' % (k, r[:200].replace('\n', ' ')))
    for r in undis:
        for f in r['failed'][:5]:
            print('  not discharged: %s' % f['name'])
    if fail:
        print('  failing input: %s' % fail['message'][:500])
    for h in ev['coverage']['harness_errors'][:1]:
        print('  harness: ' + h[-300:].replace('\n', ' | '))
    for v in violations:
        print(v)
    sys.stdout.flush()
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
