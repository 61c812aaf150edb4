"""Verify one contract in a process of its own: python -m pyvc.worker KEY OUT.json [budget-seconds]"""
import json
import os
import sys
import time
import traceback
import warnings
warnings.simplefilter('ignore')


def run(key, budget, shard=0, shards=1, marker=''):
    import z3
    from contracts.all import load
    from .verify import Verifier, Unsupported, solve, split_goal, F_
    from .source import Program
    t0 = time.time()
    side = load()
    prog = Program()
    c = side.contracts[key]
    res = {'key': key, 'status': 'proved', 'obligations': 0, 'discharged': 0, 'backends': {}, 'failed': [], 'assumed': [], 'reason': '',
           'paths': 0, 'solver_s': 0.0, 'names': [], 'callees': [], 'inlined': [], 'vacuous': 0, 'externs': [], 'dropped': []}
    v = Verifier(prog, side)
    try:
        obls = v.verify(c)
    except Unsupported as e:
        res['status'], res['reason'] = 'unsupported', str(e)[:400]
        return res
    except RecursionError:
        res['status'], res['reason'] = 'unsupported', 'recursion limit of the generator'
        return res
    res['paths'] = v.npaths
    res['inlined'] = sorted(v.used['inlined'])
    res['externs'], res['dropped'] = sorted(v.used['externs']), sorted(v.used['dropped'])
    res['callees'] = sorted(v.used['contracts'])
    pend = []
    names = set()
    for o in obls:
        if c.is_assumed(o['name']):
            res['assumed'].append(o['name'])
            continue
        names.add(o['name'])
        for q in split_goal(o):
            pend.append((o, q))
    all_pend = pend
    pend = pend[shard::shards]
    res['obligations'] = len(pend)
    res['names'] = sorted(names)
    bad = []
    for o, q in pend:
        if time.time() - t0 > budget * 0.6:
            bad.append((o, q, 'not attempted within the time budget'))
            continue
        st, be, t, out = solve(q, timeout=c.timeout or 8000, cvc5=False, tries=3)
        res['solver_s'] += t
        if st == 'proved':
            res['discharged'] += 1
            res['backends'][be] = res['backends'].get(be, 0) + 1
        else:
            bad.append((o, q, out))
    # second round with more time, third round with the other solver
    again, bad = bad, []
    for o, q, out in again:
        if len(bad) < 8 and time.time() - t0 < budget * 0.75 and not (marker and os.path.exists(marker)):
            st, be, t, out = solve(q, timeout=c.timeout or 8000, cvc5=False, tries=5)
            res['solver_s'] += t
            if st == 'proved':
                res['discharged'] += 1
                res['backends'][be] = res['backends'].get(be, 0) + 1
                continue
        bad.append((o, q, out))
    left = []
    for n, (o, q, out) in enumerate(bad):
        if n < 8 and time.time() - t0 < budget and not (marker and os.path.exists(marker)):
            st, be, t, out = solve(q, timeout=25000, cvc5=True, tries=8)
            res['solver_s'] += t
            if st == 'proved':
                res['discharged'] += 1
                res['backends'][be] = res['backends'].get(be, 0) + 1
                continue
        left.append({'kind': o['kind'], 'name': o['name'], 'goal': str(q['goal'])[:1500], 'solver': out[:1500]})
    res['failed'] = left
    if left:
        res['status'] = 'unproved'
    # vacuity: no normal path's assumptions may be contradictory
    paths = v.normal_paths if shard == 0 else []
    vac = 0
    for nm, p, ax in paths[:8]:
        st, *_ = solve({'path': p, 'ax': ax, 'goal': F_}, timeout=1000, cvc5=False, tries=1)
        vac += st == 'proved'
    res['vacuous'] = vac
    if paths and vac == len(paths[:8]):
        res['status'], res['reason'] = 'vacuous', 'every path of the function has contradictory assumptions'
    if not all_pend:
        res['status'], res['reason'] = 'vacuous', 'no obligation was generated'
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def main():
    key, out = sys.argv[1], sys.argv[2]
    budget = float(sys.argv[3]) if len(sys.argv) > 3 else 300.0
    sys.setrecursionlimit(20000)
    try:
        r = run(key, budget, int(sys.argv[4]) if len(sys.argv) > 4 else 0, int(sys.argv[5]) if len(sys.argv) > 5 else 1,
                os.path.join(os.path.dirname(out), 'violated') if len(sys.argv) > 5 else '')
    except BaseException:
        r = {'key': key, 'status': 'crashed', 'reason': traceback.format_exc()[-1500:], 'obligations': 0, 'discharged': 0, 'failed': [],
             'assumed': [], 'backends': {}, 'solver_s': 0.0, 'names': [], 'paths': 0, 'callees': [], 'inlined': [], 'externs': [], 'dropped': []}
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f)
    os.replace(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
