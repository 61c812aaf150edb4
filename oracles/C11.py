from lgr.exceptions import NotInLGR
from oracles.labels import *

RULE = ('random rule sets and labels: the index label against the least replacement over all segmentations; in closed rule sets every variant '
        'label must have the same index; non-trivial when the label is eligible and has variants')
BOUND = 'up to 6 entries of up to 3 code points, labels of up to 9 code points'
FIXED = [{'rules': {'chars': [[[97], None, None], [[98], None, None], [[97, 98], None, None]], 'vars': [[[98], [97], 'x', None, None], [[97, 98], [96], 'x', None, None]]}, 'label': [97, 98, 98]},
         {'rules': {'chars': [[[98], None, None], [[97], None, None]], 'vars': [[[98], [97], 'x', 'first', None], [[97], [98], 'x', None, None]]}, 'label': [98, 98]},
         {'closed': [[97, 98], [99, 100, 101]], 'label': [97, 100, 98, 101]}]


def gen(rng):
    if rng.random() < .25:
        cps = list(range(97, 103))
        rng.shuffle(cps)
        k = rng.randint(1, 5)
        return {'closed': [cps[:k], cps[k:]], 'label': [97 + rng.randrange(6) for _ in range(rng.randint(1, 4))]}
    r = gen_rules(rng, seqp=rng.choice([0, .3, .6]), pc=.15)
    return {'rules': r, 'label': gen_label(rng, r, .05, 3)}


def nontrivial(case):
    return 'closed' in case or bool(case['rules']['vars'])


def valid(case):
    return len(case['label']) > 0 and (all(x for x in case['closed']) and len(set(sum(case['closed'], []))) == len(sum(case['closed'], []))
                                       if 'closed' in case else valid_rules(case['rules']))


def index_of(rules, label):
    best = None
    for p in partitions(rules, label):
        out, pre = (), ()
        rest = tuple(label)
        for seg in p:
            rest = rest[len(seg):]
            ids = [seg]
            for cp, v, t, w, n in rules['vars']:
                if tuple(cp) == seg and ok_at(w, n, pre + tuple(v) + rest, len(v), len(pre)):
                    ids.append(tuple(v))
            out += min(ids)
            pre += seg
        if best is None or out < best:
            best = out
    return best


def check(case):
    label = tuple(case['label'])
    if 'closed' in case:
        chars = [[[c], None, None] for s in case['closed'] for c in s]
        vs = [[[c], [d], 'x', None, None] for s in case['closed'] for c in s for d in s if c != d]
        rules = {'chars': chars, 'vars': vs}
    else:
        rules = case['rules']
    l = build(rules)
    before = lgr_view(l)
    if l.generate_index_label(()) != ():
        return 'the index of the empty label is %r' % (l.generate_index_label(()),)
    segs, bad = greedy(rules, label)
    if bad:
        try:
            return 'a label outside the rules has the index %r' % (l.generate_index_label(label),)
        except NotInLGR:
            return None
    want = index_of(rules, label)
    for lab in (label, list(label)):
        got = l.generate_index_label(lab)
        if tuple(got) != want or not isinstance(got, tuple):
            return 'the index is %r, not %r' % (got, want)
    if all(len(v[0]) == len(v[1]) for v in rules['vars']) and want > label:
        return 'the index is greater than the label'
    f = getattr(l, '_generate_label_partitions', None)
    if f is not None:
        got = sorted(tuple(tuple(c.cp) for c in p) for p in f(label))
        w = sorted(tuple(p) for p in partitions(rules, label))
        if got != w:
            return 'the segmentations are %s, not %s' % (got, w)
    if 'closed' in case:
        for o in l.compute_label_disposition(label, include_invalid=True):
            if l.generate_index_label(o[0]) != want:
                return 'the variant label %s has another index' % (o[0],)
    if lgr_view(l) != before:
        return 'the computation changed the rules'
    return None
