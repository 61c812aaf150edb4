from lgr.rfc7940 import LGRFormatTestResults
from lgr.core import LGR
from oracles.lib import *

RULE = ('random sequences of error/tested reports (also through LGR.notify_error and LGR.notify_tested) and every kind of policy, compared with '
        'the rule of the property; non-trivial when there are at least 2 reports')
BOUND = 'up to 12 reports of 5 tests, policies over 6 tests'
T = ['parse_xml', 'basic_symmetry', 'data_variant_type', 'x1', 'x2']
FIXED = [{'ops': [[0, False], [0, True], [1, True]], 'policy': [[0, 'ERROR']]}, {'ops': [[0, False]], 'policy': [[0, 'WARNING'], [1, 'IGNORE']]},
         {'ops': [], 'policy': []}, {'ops': [], 'policy': None}, {'ops': [[0, True], [0, False]], 'policy': None}]


def gen(rng):
    ops = [[rng.randrange(5), rng.random() < .6] for _ in range(rng.randint(0, 12))]
    pol = None if rng.random() < .2 else [[i, rng.choice(['ERROR', 'WARNING', 'IGNORE', 'ERROR', 'other'])] for i in rng.sample(range(6), rng.randint(0, 6))]
    return {'ops': ops, 'policy': pol}


def nontrivial(case):
    return len(case['ops']) > 1


def valid(case):
    return all(len(o) == 2 for o in case['ops']) and all(len(o) == 2 for o in case['policy'] or [])


def check(case):
    t = T + ['never']
    a = LGRFormatTestResults()
    l = LGR()
    model = {}
    for n, (i, ok) in enumerate(case['ops']):
        if n % 3 == 0:
            a.add_test_result(t[i], ok)
        else:
            (a.tested if ok else a.error)(t[i])
        (l.notify_tested if ok else l.notify_error)(t[i])
        model[t[i]] = model.get(t[i], True) and ok
        for r in (a, l.metadata.rfc7940_checks):
            if {k: bool(v) for k, v in r.test_result.items()} != model:
                return 'after %d reports the results are %s, not %s' % (n + 1, r.test_result, model)
        p = 'FAIL' if False in model.values() else 'PASS'
        if a.get_final_result() != p:
            return 'verdict without policy after %d reports: %s' % (n + 1, a.get_final_result())
    if case['policy'] is None:
        pol, want = None, 'FAIL' if False in model.values() else 'PASS'
    else:
        pol = {t[i]: v for i, v in case['policy']}
        err = any(k not in model or (not model[k] and v not in ('IGNORE', 'WARNING')) for k, v in pol.items())
        warn = any(k in model and not model[k] and v == 'WARNING' for k, v in pol.items())
        want = 'FAIL' if err else 'WARN' if warn else 'PASS'
    for g in (a.get_final_result(pol), l.get_rfc7940_validation(pol)):
        if g != want:
            return 'the verdict is %s, not %s' % (g, want)
    g = a.get_final_result(pol, verbose=True)
    if not g.endswith(want):
        return 'the verbose verdict is %r, not %s' % (g, want)
    if {k: bool(v) for k, v in a.test_result.items()} != model:
        return 'asking for the verdict changed the results'
    return None
