from lgr.populate import populate_lgr
from lgr.validate.symmetry import check_symmetry
from lgr.validate.transitivity import check_transitivity
from oracles import C12
from oracles.labels import *

RULE = ('random variant relations as for the checks: populate, compare with the symmetric and transitive closure of the relation, populate again; '
        'non-trivial when there are at least 2 variants')
BOUND = C12.BOUND
fixed, nontrivial, valid = C12.fixed, C12.nontrivial, C12.valid
LIMIT = 20


def gen(rng):
    c = C12.gen(rng)
    c['vars'] = c['vars'][:12]
    for v in c['vars']:
        v[3] = 'pre-a' if v[3] == 'undef1' else ('post-b' if v[3] else None)
        v[4] = 'pre-a' if v[4] == 'undef1' else ('post-b' if v[4] else None)
    seen, out = set(), []
    for v in c['vars']:
        k = (tuple(v[0]), tuple(v[1]), v[3], v[4])
        if k not in seen:
            seen.add(k)
            out.append(v)
    c['vars'] = out
    return c


def check(case):
    if case['range'] and any(len(v[1]) == 1 and case['range'][0] <= v[1][0] <= case['range'][1] for v in case['vars']):
        return None         # no variant can be attached to a member of a range
    l = C12.make(case)
    rep0 = {tuple(c) for c in case['chars']}
    V0 = [(tuple(a), tuple(b), t, w, n) for a, b, t, w, n in case['vars']]
    types = {v[2] for v in V0}
    before = {c.cp: char_view(c) for c in l.repertoire.all_repertoire()}
    closed0 = check_symmetry(l, {})[0] and check_transitivity(l, {})[0]
    v0 = lgr_view(l)
    populate_lgr(l)
    if closed0 and lgr_view(l) != v0:
        return 'populating a closed set changed it'
    ok, res = check_symmetry(l, {'ignore_rules': True})
    if not ok:
        return 'after populating the symmetry check fails'
    if not check_transitivity(l, {})[0]:
        return 'after populating the transitivity check fails'
    V1 = [(c.cp, v.cp, v.type, v.when, v.not_when) for c in l.repertoire.all_repertoire() for v in c.get_variants()]
    rel = {(a, b) for a, b, _, _, _ in V1}
    # closure: connected components of the original relation
    comp = {}
    for a, b, *_ in V0:
        x, y = comp.setdefault(a, {a}), comp.setdefault(b, {b})
        if x is not y:
            x |= y
            for z in y:
                comp[z] = x
    for a, b in rel:
        if not any(a == p and b == q for p, q, *_ in V0) and not (a in comp and b in comp[a]):
            return '%s -> %s was added and is not in the closure' % (a, b)
        if a == b and not any(p == a and q == a for p, q, *_ in V0):
            return 'a reflexive variant was added to %s' % (a,)
    for a in comp:
        for b in comp[a]:
            if a != b and (a, b) not in rel:
                return '%s -> %s is missing from the closure' % (a, b)
    for a, b, t, w, n in V0:
        same = [x for x in V1 if x[0] == a and x[1] == b]
        if not any(x[2] == t and (x[3:] == (w, n) or (w, n) == (None, None)) for x in same):
            return 'the variant %s -> %s (%s, %s, %s) is lost: %s' % (a, b, t, w, n, same)
    for a, b, t, w, n in V1:
        if not any((a, b, t) == (p, q, s) for p, q, s, _, _ in V0):
            if t != 'blocked':
                return 'the variant %s -> %s was added with type %s' % (a, b, t)
    rep1 = {c.cp for c in l.repertoire.all_repertoire()}
    old = set(before)
    if not old <= rep1:
        return 'code points are lost: %s' % sorted(old - rep1)
    if rep1 - old != {b for _, b, *_ in V0} - old:
        return 'the code points added are %s' % sorted(rep1 - old)
    for c in l.repertoire.all_repertoire():
        if c.cp in before:
            v = char_view(c)
            if {k: x for k, x in v.items() if k != 'var'} != {k: x for k, x in before[c.cp].items() if k != 'var'}:
                return 'the attributes of %s have changed' % (c.cp,)
    if check_symmetry(l, {})[0]:
        v1 = lgr_view(l)
        populate_lgr(l)
        if lgr_view(l) != v1:
            return 'populating a second time changed the rules'
    return None
