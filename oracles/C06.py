from oracles.labels import *

RULE = ('random rule sets (entries of 1 to 3 code points, when and not-when conditions) and labels; the segments and invalid parts reported by '
        'the label test are compared with a direct walk; non-trivial when the label has at least 3 code points')
BOUND = 'up to 6 entries over 5 code points, labels of up to 12 code points'
FIXED = [{'rules': {'chars': [[[97], None, None], [[97, 98], None, None], [[97, 98, 99], 'first', None]], 'vars': []}, 'label': [97, 98, 99]},
         {'rules': {'chars': [[[97], None, None], [[97, 98], 'never', None]], 'vars': []}, 'label': [97, 98, 97]},
         {'rules': {'chars': [[[97], 'never', None], [[97, 98], None, 'always']], 'vars': []}, 'label': [97, 98, 99, 97]}]


def gen(rng):
    r = gen_rules(rng, seqp=.5, pc=.2, pv=0)
    return {'rules': r, 'label': gen_label(rng, r, .15)}


def nontrivial(case):
    return len(case['label']) > 2


def valid(case):
    return valid_rules(case['rules']) and len(case['label']) > 0


def check(case):
    l = build(case['rules'])
    before = lgr_view(l)
    segs, bad = greedy(case['rules'], case['label'])
    for label in (list(case['label']), tuple(case['label'])):
        r = l.test_label_eligible(label, generate_chars=True)
        r2 = l.test_label_eligible(label)
        if r[:2] + r[3:5] != r2[:2] + r2[3:5]:
            return 'the answer depends on generate_chars: %r %r' % (r, r2)
        got = [tuple(c.cp) for c in r[-1]]
        if got != [s for _, s in segs]:
            return 'the segments are %s, not %s' % (got, [s for _, s in segs])
        if bad:
            if r[0] or r[3] != 'invalid' or r[4] != -1:
                return 'accepted with invalid parts: %r' % (r[:5],)
            if [(c, list(w) if w else None) for c, w in r[2]] != [(c, w) for _, c, w in bad]:
                return 'the invalid parts are %s, not %s' % (r[2], bad)
            if list(r[1]) != [c for _, s in segs for c in s]:
                return 'the valid part is %s' % (r[1],)
        elif not r[0]:
            return 'refused without invalid part: %r' % (r[:5],)
        elif list(r[1]) != case['label'] or r[2] != []:
            return 'parts of an accepted label: %r' % (r[:5],)
        f = getattr(l, '_test_preliminary_eligibility', None)
        if f is not None:
            q = f(label, generate_chars=True)
            if bool(q[0]) != (not bad) or list(q[1]) != [c for _, s in segs for c in s] or [c for c, _ in q[2]] != [c for _, c, _ in bad]:
                return 'the segmentation is %r' % (q[:3],)
    if lgr_view(l) != before:
        return 'the test changed the rules'
    return None
