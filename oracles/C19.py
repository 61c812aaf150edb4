from lgr.tools.annotate import lgr_set_annotate, annotate
from lgr.tools.diff_collisions import _generate_indexes, basic_collision, get_collisions, collision, dump_collisions
from oracles.C11 import index_of
from oracles.labels import *

RULE = ('random rule sets, labels and TLDs: the groups of labels, the reported pairs, and the labels annotated as colliding against the index labels '
        'computed independently; non-trivial when two labels collide')
BOUND = 'up to 6 entries, 6 labels of up to 4 code points, 3 TLDs'
FIXED = [{'closed': [[97, 98], [99, 100, 101]], 'labels': ['ad', 'be', 'bc', 'aa'], 'tlds': ['bd'], 'cached': ['ae']},
         {'closed': [[97, 98, 99]], 'labels': ['a', 'b', 'c'], 'tlds': [], 'cached': []},
         {'closed': [[97, 98], [99], [100]], 'labels': ['a', 'b', 'c'], 'tlds': ['d', 'c'], 'cached': []}]


def gen(rng):
    c = {}
    if rng.random() < .7:
        cps = list(range(97, 103))
        rng.shuffle(cps)
        k = rng.randint(1, 5)
        c['closed'] = [cps[:k], cps[k:]]
        mk = lambda: ''.join(chr(97 + rng.randrange(7)) for _ in range(rng.choice([1, 1, 2, 2, 3])))
    else:
        c['rules'] = gen_rules(rng, seqp=.3, pc=.1)
        mk = lambda: ''.join(map(chr, gen_label(rng, c['rules'], .05, 3)))[:4]
    c['labels'] = sorted({mk() for _ in range(rng.randint(1, 6))})
    c['tlds'] = sorted({mk() for _ in range(rng.randint(0, 3))})
    c['cached'] = [x for x in sorted({mk() for _ in range(rng.randint(0, 3))}) if x not in c['labels']]
    return c


def valid(case):
    for k in ('labels', 'tlds', 'cached'):
        if len(set(case[k])) != len(case[k]) or not all(x and x.isalpha() and x.isascii() and x.islower() for x in case[k]):
            return False
    if set(case['cached']) & set(case['labels']):
        return False
    if 'closed' in case:
        return bool(case['closed']) and all(x and all(97 <= y < 123 for y in x) for x in case['closed']) and \
            len(set(sum(case['closed'], []))) == len(sum(case['closed'], []))
    return valid_rules(case['rules'])


def rules_of(case):
    if 'closed' not in case:
        return case['rules']
    chars = [[[c], None, None] for s in case['closed'] for c in s]
    return {'chars': chars, 'vars': [[[c], [d], 'x', None, None] for s in case['closed'] for c in s for d in s if c != d]}


def groups_of(rules, labels, least=2):
    g, out = {}, []
    for l in labels:
        cp = tuple(map(ord, l))
        if greedy(rules, cp)[1]:
            out.append(l)
        else:
            g.setdefault(index_of(rules, cp), []).append(l)
    return {k: v for k, v in g.items() if len(v) >= least}, out


def nontrivial(case):
    return bool(groups_of(rules_of(case), case['labels'])[0])


def prim(idx, cats):
    return {k: sorted(l['label'] for l in v if l['cat'] in cats) for k, v in idx.items()}


def check(case):
    rules = rules_of(case)
    l = build(rules)
    before = lgr_view(l)
    labels, tlds, cached = case['labels'], set(case['tlds']), case['cached']
    for tl in (None, tlds):
        alls = labels + sorted((tl or set()) - set(labels))
        want, _ = groups_of(rules, alls)
        _, out = groups_of(rules, labels)
        full, _ = groups_of(rules, alls, 1)
        for keep in (False, True):
            got, bad = _generate_indexes(l, list(labels), tlds=tl, keep=keep, quiet=True)
            w = full if keep else want
            if prim(got, ('Primary', 'TLD')) != {k: sorted(v) for k, v in w.items()}:
                return 'the groups are %s, not %s' % (prim(got, ('Primary', 'TLD')), w)
            if sorted(bad) != sorted(out):
                return 'the labels outside the rules are %s, not %s' % (bad, out)
            for v in got.values():
                for e in v:
                    if e['cat'] == 'TLD' and e['label'] in labels or e['cat'] == 'Primary' and e['label'] not in labels:
                        return '%s is reported as %s' % (e['label'], e['cat'])
    # against labels already indexed
    cd = {}
    for x in cached:
        cp = tuple(map(ord, x))
        cd[x] = 'NotInLGR' if greedy(rules, cp)[1] else l.generate_index_label(cp)
    got = get_collisions(l, list(labels), cached_indexes=cd)
    want, _ = groups_of(rules, labels + cached)
    if prim(got, ('Primary',)) != {k: sorted(v) for k, v in want.items()}:
        return 'against the cached labels the groups are %s, not %s' % (prim(got, ('Primary',)), want)
    # reports
    for tl in ([], case['tlds']):
        text = list(basic_collision(l, list(labels), list(tl)))
        lines = [x for t in text for x in t.split('\n') if x]
        pairs = [(x.split(': ')[0], x.split(' with ')[1].split(' ')) for x in lines if ': collides with ' in x]
        got_l = sorted(tuple(sorted([a, k[1]])) for a, k in pairs if k[0] == 'label')
        got_t = sorted((a, k[1]) for a, k in pairs if k[0] == 'TLD')
        g, _ = groups_of(rules, labels)
        want_l = sorted((a, b) for v in g.values() for a in v for b in v if a < b)
        if got_l != want_l:
            return 'the report has the collisions %s, not %s' % (got_l, want_l)
        g, _ = groups_of(rules, labels + sorted(set(tl) - set(labels)))
        want_t = sorted((a, b) for v in g.values() for a in v for b in v if a != b and a in labels and b in tl)
        if got_t != want_t:
            return 'the report has the TLD collisions %s, not %s' % (got_t, want_t)
        if ('No collision' in lines) != (not want_l and not want_t and not set(labels) & set(tl)):
            return 'the report %s that there is no collision' % ('tells' if 'No collision' in lines else 'does not tell')
        if sorted(x.split(':')[0] for x in lines if x.endswith(': not in LGR')) != sorted(groups_of(rules, labels)[1]):
            return 'the report tells other labels to be outside the rules'
        text = ''.join(collision(l, list(labels), list(tl)))
        wb = groups_of(rules, labels)[1]
        part = text.split('# Labels not in LGR #')[1].split('# Collisions')[0] if '# Labels not in LGR #' in text else ''
        if sorted(x[6:] for x in part.split('\n') if x.startswith('Label ')) != sorted(wb):
            return 'the complete report tells other labels to be outside the rules'
        if not set(tl) & set(labels) and text.count('### Collision within the input file') != len(want_l):
            return 'the complete report has %d collisions, not %d' % (text.count('### Collision within the input file'), len(want_l))
    n = [(a, b) for a, b in dump_collisions(list(labels), lambda a, b: (a, b))]
    if sorted(tuple(sorted(x)) for x in n) != sorted((a, b) for a in labels for b in labels if a < b):
        return 'pairs listed: %s' % n
    # set labels
    text = list(lgr_set_annotate(l, l, list(cached), list(labels)))
    good = [x for x in cached if not greedy(rules, tuple(map(ord, x)))[1]]
    for x in labels:
        line = [t for t in text if t.startswith(x + ': ')][-1]
        cp = tuple(map(ord, x))
        if greedy(rules, cp)[1]:
            w = False
        else:
            el = l.test_label_eligible(cp)[0]
            w = el and any(not greedy(rules, tuple(map(ord, y)))[1] and index_of(rules, cp) == index_of(rules, tuple(map(ord, y))) for y in good)
        if ('collides' in line) != bool(w):
            return 'the annotation of %s among the set labels %s is %r' % (x, good, line)
    if lgr_view(l) != before:
        return 'the report changed the rules'
    return None
