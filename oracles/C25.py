import lgr.validate as V
from lgr.metadata import Metadata
from oracles.labels import *

RULE = ('random sequences of validations of random rule sets with random options, some checks made to fail; each validation gives one result per configured check, in order, '
        'its own or its error, and the same result as before for equal rules and options; non-trivial when a check fails and options differ between calls')
BOUND = 'sequences of up to 6 validations of up to 2 rule sets'
ALWAYS = ['check_xml_validity', 'check_symmetry', 'check_transitivity', 'check_conditional_variants', 'rebuild_lgr', 'compute_stats']
MORE = ['check_metadata', 'check_miscellaneous']
FIXED = [{'rules': [{'chars': [[[97], None, None]], 'vars': []}] * 2, 'calls': [[0, a, False, []], [0, b, True, []], [1, a, False, []]]} for a in (None, True, False) for b in (None, True, False)]


def gen(rng):
    return {'rules': [gen_rules(rng, pc=.1) for _ in range(2)],
            'calls': [[rng.randrange(2), rng.choice([None, True, False]), rng.random() < .5, rng.sample(ALWAYS + MORE, rng.choice([0, 0, 1, 2]))] for _ in range(rng.randint(2, 6))]}


def valid(case):
    return len(case['rules']) == 2 and all(valid_rules(r) for r in case['rules']) and all(len(c) == 4 and c[0] in (0, 1) for c in case['calls'])


def nontrivial(case):
    return len({c[1] for c in case['calls']}) > 1 and any(c[3] for c in case['calls'])


def plain(x):
    """results compared by value"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if k not in ('char', 'variant', 'rule', 'duration', 'time')}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return type(x).__name__


def check(case):
    lists = {n: getattr(V, n) for n in ('CHECKS', 'RFC7940_CHECKS')}
    before = {n: list(v) for n, v in lists.items()}
    seen = {}
    rs = [build(r) for r in case['rules']]
    try:
        for which, rfc, ign, bad in case['calls']:
            l, log = rs[which], []
            opts = {'ignore_rules': ign}
            if rfc is not None:
                opts['rfc7940'] = rfc
            want = ALWAYS + (MORE if rfc else [])
            real = {n: [f for f in lists[n]] for n in lists}

            def wrap(f):
                def g(lgr, options):
                    log.append(f.__name__)
                    if lgr is not l or options != opts:
                        raise AssertionError('other rules or options are passed on')
                    if f.__name__ in bad:
                        raise LGRException('made to fail')
                    return f(lgr, options)
                g.__name__ = f.__name__
                return g
            for n in lists:
                lists[n][:] = [wrap(f) for f in real[n]]
            shown = {n: list(lists[n]) for n in lists}
            try:
                res = V.validate_lgr(l, dict(opts))
                if {n: list(lists[n]) for n in lists} != shown:
                    return 'a validation with %s changes the list of checks for the next ones' % opts
            finally:
                for n in lists:
                    lists[n][:] = real[n]
            if [x[0] for x in res] != want or log != want:
                return 'options %s: results of %s, checks run %s, expected %s' % (opts, [x[0] for x in res], log, want)
            for n, x in res:
                if isinstance(x, LGRException) and n not in bad and n not in ('check_xml_validity', 'rebuild_lgr', 'compute_stats'):
                    return '%s failed: %r' % (n, x)
                if n in bad and not isinstance(x, LGRException):
                    return 'the error of %s is not its result: %r' % (n, x)
            k = (which, rfc, ign, tuple(sorted(bad)))
            p = plain([x for x in res if x[0] not in MORE])
            if seen.setdefault(k, p) != p:
                return 'the same rules and options give %s after %s' % (p, seen[k])
    finally:
        for n in lists:
            lists[n][:] = before[n]
    return None
