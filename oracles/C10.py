from oracles.labels import *

RULE = ('random rule sets and labels; the generated variant labels, with their types and only-variants flags, are compared as a set with all '
        'the replacements of the permitted segmentations; non-trivial when there is a variant')
BOUND = 'up to 6 entries of up to 3 code points, labels of up to 9 code points'
FIXED = [{'rules': {'chars': [[[97], None, None], [[98], None, None]], 'vars': [[[97], [98], 'blocked', None, None], [[97], [97], 'x', None, None], [[98], [97], None, 'first', None]]}, 'label': [97, 98, 97]},
         {'rules': {'chars': [[[97], None, None], [[98], None, None], [[97, 98], None, None]], 'vars': [[[97, 98], [99], 'blocked', None, None], [[97], [100], 'x', 'has-c', None]]}, 'label': [97, 98]},
         {'rules': {'chars': [[[97], None, None], [[98], None, None]], 'vars': [[[97], [98], 'blocked', 'first', None], [[98], [99], 'x', None, 'pre-a']]}, 'label': [97, 98, 98, 97]},
         {'rules': {'chars': [[[97], None, None], [[98], None, None]], 'vars': []}, 'label': [97, 98]}]


def gen(rng):
    r = gen_rules(rng, seqp=rng.choice([0, .3, .6]), pc=.15)
    return {'rules': r, 'label': gen_label(rng, r, .05, 3)}


def nontrivial(case):
    return bool(case['rules']['vars'])


def valid(case):
    return valid_rules(case['rules']) and len(case['label']) > 0


def check(case):
    want = generated(case['rules'], case['label'])
    if len(want) > 600:
        return None
    l = build(case['rules'])
    before = lgr_view(l)
    label = tuple(case['label'])
    f = getattr(l, '_generate_label_variants', None)
    if f is not None:
        got = set()
        for lab, types, only, chars in f(label):
            got.add((tuple(lab), frozenset(types), bool(only)))
            if tuple(c for x in chars for c in x.cp) != tuple(lab):
                return 'the entries listed for %s do not spell it' % (lab,)
        if got != want:
            return 'generated but not wanted: %s; wanted but not generated: %s' % (sorted(got - want, key=repr)[:3], sorted(want - got, key=repr)[:3])
    labs = {tuple(o[0]) for o in l.compute_label_disposition(label, include_invalid=True)}
    if labs != {w[0] for w in want} | {label}:
        return 'the labels listed are %s, not %s' % (sorted(labs), sorted({w[0] for w in want} | {label}))
    if lgr_view(l) != before:
        return 'the computation changed the rules'
    return None
