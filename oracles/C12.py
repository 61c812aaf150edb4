from lgr.validate.symmetry import check_symmetry
from lgr.validate.transitivity import check_transitivity
from lgr.validate.conditional_variants import check_conditional_variants
from oracles.labels import *

RULE = ('random variant relations with conditions, missing targets, sequences and ranges: the verdicts and the defects reported by the three checks '
        'against a direct reading of the relation, before and after; non-trivial when there are at least 2 variants')
BOUND = 'up to 6 entries besides one range, variants of 1 or 2 code points'


def gen(rng):
    r = gen_rules(rng, pc=0, pv=rng.choice([.3, .5, .7]), seqp=.3)
    names = ['pre-a', 'post-b', 'undef1', 'undef2']
    cps = [c[0] for c in r['chars']]
    vs = []
    for cp, v, t, _, _ in r['vars']:
        v = rng.choice(cps) if rng.random() < .7 else v
        k = rng.random()
        vs.append([cp, v, t, rng.choice(names) if k < .25 else None, rng.choice(names) if .25 < k < .45 else None])
    for v in list(vs):
        if rng.random() < .7:
            same = rng.random() < .7
            vs.append([v[1], v[0], v[2], v[3] if same else None, v[4] if same else None])
    if rng.random() < .4:       # close it
        for _ in range(3):
            for a in list(vs):
                for b in list(vs):
                    if a[1] == b[0] and a[0] != b[1] and len(vs) < 60 and not any(x[0] == a[0] and x[1] == b[1] for x in vs):
                        vs.append([a[0], b[1], 'blocked', None, None])
    out, seen = [], set()
    for v in vs:
        k = (tuple(v[0]), tuple(v[1]), v[3], v[4])
        if v[0] in cps and k not in seen:
            seen.add(k)
            out.append(v)
    return {'chars': [c[0] for c in r['chars']], 'vars': out[:25], 'range': rng.choice([None, [0x70, 0x72]])}


def fixed():
    a, b, c = [97], [98], [99]
    yield {'chars': [a, b], 'vars': [[a, b, 'x', 'pre-a', None], [b, a, 'x', 'pre-a', None]], 'range': None}
    yield {'chars': [a, b], 'vars': [[a, b, 'x', 'pre-a', None], [b, a, 'x', None, 'pre-a']], 'range': None}
    yield {'chars': [a, b], 'vars': [[a, b, 'x', None, None]], 'range': None}
    yield {'chars': [a, b, c], 'vars': [[a, b, 'x', None, None], [b, c, 'x', None, None], [b, a, 'x', None, None], [c, b, 'x', None, None]], 'range': None}
    yield {'chars': [a], 'vars': [[a, b, 'x', None, None], [a, a, 'x', None, None]], 'range': [0x70, 0x72]}
    yield {'chars': [a], 'vars': [[a, [0x71], 'x', None, None]], 'range': [0x70, 0x72]}


def nontrivial(case):
    return len(case['vars']) > 1


def valid(case):
    ks = [(tuple(v[0]), tuple(v[1]), v[3], v[4]) for v in case['vars']]
    cs = [tuple(c) for c in case['chars']]
    return len(set(ks)) == len(ks) and len(set(cs)) == len(cs) and all(c for c in cs) and all(tuple(v[0]) in cs and v[1] and len(v) == 5 for v in case['vars']) and \
        (case['range'] is None or len(case['range']) == 2)


def make(case):
    l = LGR()
    for n in ('pre-a', 'post-b'):
        l.rules_lookup[n] = FakeRule(n)
        l.rules.append(n)
    for cp in case['chars']:
        l.add_cp(cp)
    if case['range']:
        l.add_range(*case['range'])
    for cp, v, t, w, n in case['vars']:
        # as when a document is read: conditions are not resolved at once
        l.add_variant(cp, v, variant_type=t, when=w, not_when=n)
    l._unicode_database = unidb()
    return l


def check(case):
    l = make(case)
    rep = {tuple(c) for c in case['chars']}
    if case['range']:
        rep |= {(c,) for c in range(case['range'][0], case['range'][1] + 1)}
    V = [(tuple(a), tuple(b), w, n) for a, b, _, w, n in case['vars']]
    before = lgr_view(l)
    for ign in (False, True):
        want = set()
        for a, b, w, n in V:
            rev = [(w2, n2) for x, y, w2, n2 in V if x == b and y == a]
            if b not in rep:
                want.add((a, b, w, n, 'not-in-repertoire', None, None))
            elif not rev:
                want.add((a, b, w, n, 'missing-symmetric-variant', None, None))
            elif not ign and w and w not in [x for x, _ in rev]:
                want.add((a, b, w, n, 'variant-contextual-rule-missing', 'when', w))
            elif not ign and n and n not in [x for _, x in rev]:
                want.add((a, b, w, n, 'variant-contextual-rule-missing', 'not-when', n))
        ok, res = check_symmetry(l, {'ignore_rules': True} if ign else {})
        got = [(d['char'].cp, d['variant'].cp, d['variant'].when, d['variant'].not_when, d['type'], d['rule_type'], d['rule']) for d in res['repertoire']]
        if set(got) != want or len(got) != len(set(got)):
            return 'symmetry%s: reported %s, not %s' % (' (ignoring conditions)' if ign else '', sorted(got, key=repr), sorted(want, key=repr))
        if bool(ok) != (not want):
            return 'symmetry: the verdict is %r with %d defects' % (ok, len(want))
    if check_symmetry(l, None)[0] != check_symmetry(l, {})[0]:
        return 'symmetry without options differs'
    want = set()
    for a, b, _, _ in V:
        if b not in rep:
            want.add((a, b))
            continue
        for x, c, _, _ in V:
            if x == b and c != a and not any(p == a and q == c for p, q, _, _ in V):
                want.add((a, c))
    ok, res = check_transitivity(l, {})
    got = {(d['char'].cp, d['variant'].cp) for d in res['repertoire']}
    if got != want:
        return 'transitivity: reported %s, not %s' % (sorted(got), sorted(want))
    if bool(ok) != (not want):
        return 'transitivity: the verdict is %r with %d defects' % (ok, len(want))
    want = []
    for a, b, w, n in V:
        if w and w.startswith('undef'):
            want.append((a, b, 'when', w))
        if n and n.startswith('undef'):
            want.append((a, b, 'not-when', n))
    ok, res = check_conditional_variants(l, {})
    got = [(d['char'].cp, d['variant'].cp, d['rule_type'], d['rule']) for d in res['repertoire']]
    if sorted(got) != sorted(want):
        return 'conditions: reported %s, not %s' % (sorted(got), sorted(want))
    if bool(ok) != (not want):
        return 'conditions: the verdict is %r with %d defects' % (ok, len(want))
    if lgr_view(l) != before:
        return 'a check changed the rules'
    return None
