from lgr.exceptions import LGRFormatException
from oracles.labels import *
import itertools

RULE = ('random actions, labels, sets of used variant types and only-variants flags: each action and the whole list, against the decision rule '
        'of the property; non-trivial when there are at least 2 actions')
BOUND = 'up to 4 actions besides the default ones, 5 variant types'
FIXED = [{'actions': [{'disp': 'd1', 'only_variants': ['x']}, {'disp': 'd2', 'all_variants': ['x']}], 'label': [97], 'types': ['x'], 'only': o} for o in (0, 1)] + \
        [{'actions': [{'disp': 'd1', 'match': 'always', 'any_variant': ['x', 'blocked']}], 'label': [97], 'types': t, 'only': 1} for t in ([], ['x'], ['x', 'invalid'], ['allocatable'])]


def gen(rng):
    return {'actions': gen_actions(rng), 'label': [97 + rng.randrange(4) for _ in range(rng.randint(1, 4))],
            'types': rng.sample(['blocked', 'allocatable', 'x', 'invalid', 'activated'], rng.choice([0, 0, 1, 1, 2, 3])), 'only': int(rng.random() < .5)}


def nontrivial(case):
    return len(case['actions']) > 1


def valid(case):
    return valid_actions(case['actions']) and len(case['label']) > 0 and all(case['types'])


def check(case):
    l = build({'chars': [], 'vars': []}, case['actions'])
    label, types, only = tuple(case['label']), set(case['types']), bool(case['only'])
    effs = l.effective_actions
    if len(effs) != len(case['actions']) + 5:
        return 'there are %d effective actions' % len(effs)
    first = (None, -1)
    for i, (spec, act) in enumerate(zip(case['actions'], effs)):
        t = set(types)
        got = act.apply(label, t, only, l.rules_lookup, l.classes_lookup, l.unicode_database)
        w, wi = first_action([spec], label, types, only)
        w = w if wi == 0 else None
        if got != w:
            return 'action %d gives %r, not %r' % (i, got, w)
        if t != types:
            return 'the action changed the set of types'
    want = first_action(case['actions'], label, types, only)
    f = getattr(l, '_apply_actions', None)
    if f is not None:
        got = f(label, set(types), only)
        if tuple(got) != want:
            return 'the disposition is %r, not %r' % (got, want)
    for kw in ({'match': 'a', 'not_match': 'b'}, {'match': '', 'not_match': ''}):
        try:
            Action('x', **kw)
            return 'an action with both a match and a not-match condition'
        except LGRFormatException:
            pass
    return None
