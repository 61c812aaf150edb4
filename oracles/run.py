"""Contract-guided search on the real code: evaluates the postconditions of a property on concrete inputs.

usage (under /opt/venv/bin/python, PYTHONPATH=/repo:/verif):
  run.py ID --seconds N --seed S --out FILE      search
  run.py ID --replay FILE                        replay one case; exit 1 when it still fails
"""
import argparse
import importlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('REPO', '/repo')
sys.path[:0] = [REPO, ROOT]
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)


class Slow(BaseException):
    pass


def on_alarm(*_):
    raise Slow()


class Harness(Exception):
    pass


def in_repo(tb):
    """whether the innermost frame outside the standard library lies in the code under test"""
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if f.filename.startswith(ROOT + '/'):
            return False
        if f.filename.startswith(REPO + '/'):
            return True
    return False


def evaluate(mod, case, limit):
    """-> None, ('fail', message) or ('harness', message)"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        msg = mod.check(json.loads(json.dumps(case)))
        return ('fail', str(msg)) if msg else None
    except Slow:
        return ('slow', 'no answer within %gs' % limit)
    except RecursionError as e:
        return ('fail', 'endless recursion')
    except Exception as e:
        tb = sys.exc_info()[2]
        if in_repo(tb):
            last = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + '/')][-1]
            return ('fail', 'unexpected %s: %s (%s, line %d, in %s)' % (type(e).__name__, str(e)[:200], os.path.relpath(last.filename, REPO),
                                                                       last.lineno, last.name))
        return ('harness', traceback.format_exc()[-800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def failing(mod, case, limit):
    r = evaluate(mod, case, limit)
    if r and r[0] == 'slow':
        r = evaluate(mod, case, limit * 3)
        if r and r[0] == 'slow':
            r = ('fail', r[1])
    return r


def reductions(x):
    """smaller JSON values"""
    if isinstance(x, list):
        n = len(x)
        if n > 1:
            yield x[:n // 2]
            yield x[n // 2:]
        for i in range(n):
            yield x[:i] + x[i + 1:]
        for i in range(n):
            for y in reductions(x[i]):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for y in reductions(x[k]):
                yield dict(x, **{k: y})


def shrink(mod, case, msg, limit, seconds):
    t0 = time.time()
    valid = getattr(mod, 'valid', None)
    go = True
    while go and time.time() - t0 < seconds:
        go = False
        for c in reductions(case):
            if time.time() - t0 > seconds:
                break
            try:
                if valid is not None and not valid(c):
                    continue
                r = evaluate(mod, c, limit)
            except Exception:
                continue
            if r and r[0] == 'fail' and known(mod, r[1]) is None:
                case, msg, go = c, r[1], True
                break
    return case, msg


KNOWN = []


def known(mod, msg):
    for k in KNOWN:
        if k['match'] in msg:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--parts', default='')
    a = ap.parse_args()
    kf = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)):
            if k['property'] == a.id and k.get('status') == 'known':
                KNOWN.append(k)
    import warnings
    warnings.simplefilter('ignore')
    os.chdir('/tmp')
    mod = importlib.import_module('oracles.' + a.id)
    limit = getattr(mod, 'LIMIT', 10)
    if a.replay:
        d = json.load(open(a.replay))
        r = failing(mod, d['case'], limit)
        print('%s: %s' % (a.id, 'fails: ' + r[1] if r else 'holds on this input'))
        sys.exit(1 if r and r[0] == 'fail' else 0)
    rng = random.Random(a.seed * 1000003 + int(a.id[1:]))
    res = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'failure': None, 'harness': [], 'known': {}, 'rule': mod.RULE,
           'bound': getattr(mod, 'BOUND', '')}
    seen = set()
    t0 = time.time()
    fixed = list(getattr(mod, 'FIXED', ()))
    if hasattr(mod, 'fixed'):
        fixed += list(mod.fixed())
    n = 0
    while True:
        if n < len(fixed):
            case = fixed[n]
        else:
            if time.time() - t0 > a.seconds:
                break
            try:
                case = mod.gen(rng)
            except Exception:
                res['harness'].append(traceback.format_exc()[-800:])
                break
        n += 1
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            if n > len(fixed) + 1000000:
                break
            continue
        seen.add(key)
        res['evaluations'] += 1
        if not hasattr(mod, 'nontrivial') or mod.nontrivial(case):
            res['distinct_nontrivial'] += 1
            if len(res['samples']) < 3 and n > len(fixed) - 1 and len(key) < 4000:
                res['samples'].append(case)
        r = failing(mod, case, limit)
        if r is None:
            continue
        if r[0] == 'harness':
            if len(res['harness']) < 3:
                res['harness'].append(r[1])
            res['harness_n'] = res.get('harness_n', 0) + 1
            if res['harness_n'] > 2000:
                break
            continue
        k = known(mod, r[1])
        if k is not None:
            res['known'][k['id']] = res['known'].get(k['id'], 0) + 1
            continue
        c, m = shrink(mod, case, r[1], limit, 10)
        res['failure'] = {'case': c, 'message': m}
        break
    if not res['samples']:
        res['samples'] = fixed[:2]
    res['wall_s'] = round(time.time() - t0, 2)
    with open(a.out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(a.out + '.tmp', a.out)


if __name__ == '__main__':
    main()
