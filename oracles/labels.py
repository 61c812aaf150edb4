"""Random rule sets for the label checks, with an independent reading of their conditions."""
from lgr.core import LGR
from lgr.action import Action
from oracles.lib import *

RULES = ['pre-a', 'post-b', 'first', 'last', 'has-c', 'always', 'never']


def holds(name, label, n, i):
    label = tuple(label)
    if name == 'pre-a':
        return i > 0 and label[i - 1] == 97
    if name == 'post-b':
        return i + n < len(label) and label[i + n] == 98
    if name == 'first':
        return i == 0
    if name == 'last':
        return i + n == len(label)
    if name == 'has-c':
        return 99 in label
    return name == 'always'


class FakeRule(object):
    """stands for a whole-label or context rule: what the code under test must ask, and how it must use the answer"""
    def __init__(self, name):
        self.name = name

    def matches(self, label, rules_lookup, classes_lookup, unicode_database, anchor=None, index=0):
        return holds(self.name, label, len(anchor) if anchor is not None else 0, index)


def ok_at(when, not_when, label, n, i):
    if when is not None:
        return holds(when, label, n, i)
    if not_when is not None:
        return not holds(not_when, label, n, i)
    return True


def cond(rng, p):
    r = rng.random()
    if r < p:
        return rng.choice(RULES), None
    if r < 2 * p:
        return None, rng.choice(RULES)
    return None, None


def gen_rules(rng, seqp=.4, pc=.15, pv=.5, types=('blocked', 'allocatable', 'x', 'invalid', 'activated', None)):
    chars, seen = [], set()
    for _ in range(rng.randint(2, 6)):
        cp = [97 + rng.randrange(5) for _ in range(1 if rng.random() > seqp else rng.choice([2, 2, 3]))]
        if tuple(cp) in seen:
            continue
        seen.add(tuple(cp))
        chars.append([cp] + list(cond(rng, pc)))
    vs, sv = [], set()
    for c in chars:
        while rng.random() < pv:
            v = c[0] if rng.random() < .25 else [97 + rng.randrange(6) for _ in range(rng.choice([1, 1, 1, 2]))]
            w, n = cond(rng, pc)
            k = (tuple(c[0]), tuple(v), w, n)
            if k not in sv:
                sv.add(k)
                vs.append([c[0], v, rng.choice(types), w, n])
    return {'chars': chars, 'vars': vs}


def gen_label(rng, rules, junk=.1, maxn=4):
    lab = []
    for _ in range(rng.randint(1, maxn)):
        lab += rng.choice(rules['chars'])[0] if rules['chars'] and rng.random() > junk else [97 + rng.randrange(6)]
    return lab


def valid_rules(r):
    cs = [tuple(c[0]) for c in r['chars'] if c]
    if len(set(cs)) != len(cs) or len(cs) != len(r['chars']):
        return False
    if not all(len(c) == 3 and c[0] and all(x is None or x in RULES for x in c[1:]) for c in r['chars']):
        return False
    ks = []
    for v in r['vars']:
        if len(v) != 5 or tuple(v[0]) not in cs or not v[1] or not all(x is None or x in RULES for x in v[3:]) or v[2] == '':
            return False
        ks.append((tuple(v[0]), tuple(v[1]), v[3], v[4]))
    return len(set(ks)) == len(ks)


def build(rules, actions=()):
    l = LGR()
    for n in RULES:
        l.rules_lookup[n] = FakeRule(n)
        l.rules.append(n)
    for cp, w, n in rules['chars']:
        l.add_cp(cp, when=w, not_when=n)
    for cp, v, t, w, n in rules['vars']:
        l.add_variant(cp, v, variant_type=t, when=w, not_when=n)
    for a in actions:
        l.add_action(Action(**a))
    l._unicode_database = unidb()
    return l


def greedy(rules, label):
    """-> (segments, invalid parts), both with positions"""
    out, bad, i = [], [], 0
    label = tuple(label)
    while i < len(label):
        cands = sorted([c for c in rules['chars'] if c[0][0] == label[i]], key=lambda c: -len(c[0]))
        pend, hit = [], None
        for c in cands:
            if label[i:i + len(c[0])] != tuple(c[0]):
                continue
            if ok_at(c[1], c[2], label, len(c[0]), i):
                hit = c
                break
            pend.append(c[1] or c[2])
        if hit:
            out.append((i, tuple(hit[0])))
            i += len(hit[0])
        else:
            bad.append((i, label[i], pend or None))
            i += 1
    return out, bad


def partitions(rules, label):
    label = tuple(label)

    def go(i):
        if i == len(label):
            return [[]]
        r = []
        for c in rules['chars']:
            if label[i:i + len(c[0])] == tuple(c[0]) and ok_at(c[1], c[2], label, len(c[0]), i):
                r += [[tuple(c[0])] + p for p in go(i + len(c[0]))]
        return r
    return go(0)


def generated(rules, label):
    """the variant labels, as a set of (label, frozenset of types, only variants)"""
    vars_ = {}
    for cp, v, t, w, n in rules['vars']:
        vars_.setdefault(tuple(cp), []).append((tuple(v), t, w, n))
    orig = tuple(label)
    out = set()

    def go(i, prefix, has):
        rest = orig[i:]
        cands = sorted([c for c in rules['chars'] if rest[:len(c[0])] == tuple(c[0])], key=lambda c: -len(c[0]))
        pick = [c for c in cands if tuple(c[0]) in vars_ and ok_at(c[1], c[2], prefix + rest, len(c[0]), len(prefix))]
        if not pick:
            pick = cands[:1]
        pick = pick + [c for c in cands if any(len(p[0]) > len(c[0]) for p in pick) and c not in pick]
        res = set()
        for c in pick:
            cp = tuple(c[0])
            after = rest[len(cp):]
            perms = []
            for v, t, w, n in vars_.get(cp, []):
                if ok_at(w, n, prefix + v + after, len(v), len(prefix)):
                    perms.append((v, frozenset([t]) if t is not None else frozenset(), True))
            if not any(p[0] == cp for p in perms):
                perms.append((cp, frozenset(), False))
            for v, t, is_v in perms:
                if after:
                    for l2, t2, o2 in go(i + len(cp), prefix + v, is_v or has):
                        res.add((v + l2, t | t2, is_v and o2))
                elif has or cp in vars_:
                    res.add((v, t, is_v))
        return res
    return go(0, (), False)


def first_action(actions, label, types, only):
    """(disposition, index) of the first action that fires, default actions included"""
    dflt = [{'disp': 'invalid', 'any_variant': ['invalid']}, {'disp': 'blocked', 'any_variant': ['blocked']},
            {'disp': 'allocatable', 'any_variant': ['allocatable']}, {'disp': 'activated', 'all_variants': ['activated']}, {'disp': 'valid'}]
    for i, a in enumerate(list(actions) + dflt):
        if a.get('match') is not None and not holds(a['match'], label, 0, 0):
            continue
        if a.get('not_match') is not None and holds(a['not_match'], label, 0, 0):
            continue
        if a.get('any_variant'):
            if not (set(a['any_variant']) & set(types)):
                continue
        elif a.get('all_variants'):
            if not types or not set(types) <= set(a['all_variants']):
                continue
        elif a.get('only_variants'):
            if not only or not types or not set(types) <= set(a['only_variants']):
                continue
        return a['disp'], i
    return None, -1


def gen_actions(rng):
    out = []
    for _ in range(rng.randint(0, 4)):
        a = {'disp': rng.choice(['valid', 'invalid', 'blocked', 'allocatable', 'd1', 'd2'])}
        r = rng.random()
        if r < .25:
            a['match'] = rng.choice(RULES)
        elif r < .5:
            a['not_match'] = rng.choice(RULES)
        if rng.random() < .7:
            a[rng.choice(['any_variant', 'all_variants', 'only_variants'])] = rng.sample(['blocked', 'allocatable', 'x', 'invalid', 'activated'],
                                                                                        rng.randint(1, 3))
        out.append(a)
    return out


def valid_actions(acts):
    for a in acts:
        if not a.get('disp') or (a.get('match') is not None and a.get('not_match') is not None):
            return False
        if any(a.get(k) not in [None] + RULES for k in ('match', 'not_match')):
            return False
        if any(k in a and not (a[k] and all(a[k])) for k in ('any_variant', 'all_variants', 'only_variants')):
            return False
    return True
