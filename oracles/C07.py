from lgr.core import LGR
from lgr.rule import Rule
from lgr.classes import Class
from lgr.char import Char
from lgr.matcher import *
from lgr.exceptions import RuleError
from oracles.lib import *

RULE = ('random rules over every kind of matcher (literals, sequences, any, classes, references, choices, look-ahead and look-behind, anchor, start, '
        'end, counts), evaluated by the code with the ICU regular expressions and by an independent matcher over the rule itself, on random labels, '
        'anchors and positions; then as conditions of entries and variants; non-trivial when the rule has at least 2 matchers')
BOUND = 'rules of up to 7 matchers and depth 3, labels of up to 6 code points over an alphabet of 5 (the BMP: the picu dependency truncates code points to 16 bits)'
ALPHA = [0x61, 0x62, 0x63, 0x64, 0x65]
LIMIT = 20


def nodes(rng, depth, anchor, n=None, behind=False):
    out = []
    for _ in range(n if n is not None else rng.randint(1, 3)):
        r = rng.random()
        cnt = '' if rng.random() < .7 else rng.choice(['0', '1', '2', '0:1', '1:2', '0+', '1+', '2:3'])
        if r < .4 or depth == 0:
            k = rng.random()
            if k < .5:
                out.append(['char', [rng.choice(ALPHA) for _ in range(rng.choice([1, 1, 2]))], cnt])
            elif k < .65:
                out.append(['any', cnt])
            else:
                out.append(['class', sorted(rng.sample(ALPHA, rng.randint(1, 3))), cnt])
        elif r < .6:
            cnt = cnt if '+' not in cnt else '0:2'
            out.append(['choice', nodes(rng, depth - 1, None, rng.randint(1, 3), behind), cnt])
        elif r < .75:
            cnt = cnt if '+' not in cnt else '1:2'
            out.append(['rule', nodes(rng, depth - 1, None, None, behind), cnt])
        elif r < .82:
            cnt = cnt if '+' not in cnt else '2'
            out.append(['ref', nodes(rng, depth - 1, None, None, behind), cnt])
        elif r < .88 and not behind:
            out.append(['ahead', nodes(rng, depth - 1, None)])
        elif r < .94 and not behind:
            out.append(['behind', nodes(rng, depth - 1, None, None, True)])
        elif not behind:
            out.append(['start' if rng.random() < .4 else 'end'])
    if anchor:
        pre = [['behind', nodes(rng, 1, None, rng.randint(1, 2), True)]] if rng.random() < .5 else []
        if rng.random() < .3:
            pre = [['behind', [['start']] + (pre[0][1] if pre else [])]]
        post = [['ahead', nodes(rng, 1, None, rng.randint(1, 2))]] if rng.random() < .6 else []
        if rng.random() < .85:
            return pre + [['anchor']] + post
        return pre + [['char', [rng.choice(ALPHA)], '0:1']] + [['anchor']] + post
    return out


def gen(rng):
    a = rng.random() < .5
    lab = [rng.choice(ALPHA) for _ in range(rng.randint(1, 6))]
    i = rng.randrange(len(lab))
    n = min(rng.choice([1, 1, 2]), len(lab) - i)
    anc = lab[i:i + n]
    return {'rule': nodes(rng, 2, a), 'label': lab, 'index': i, 'anchor': anc if a or rng.random() < .5 else None,
            'bad': rng.random() < .02, 'byref': rng.random() < .2}


def fixed():
    L = [0x61, 0x62, 0x61, 0x62]
    A = ['anchor']
    for i in range(4):
        yield {'rule': [['behind', [['char', [0x61], '']]], A], 'label': L, 'index': i, 'anchor': [L[i]]}
        yield {'rule': [A, ['ahead', [['char', [0x62], '']]]], 'label': L, 'index': i, 'anchor': [L[i]]}
        yield {'rule': [['char', [0x62, 0x61], '']], 'label': L, 'index': i, 'anchor': [L[i]]}
        yield {'rule': [['start'], A, ['ahead', [['any', '0+'], ['end']]]], 'label': L, 'index': i, 'anchor': [L[i]]}
    yield {'rule': [], 'label': L, 'index': 0, 'anchor': None}
    yield {'rule': [['char', [0x61], '2:1']], 'label': L, 'index': 0, 'anchor': None, 'bad': True}
    yield {'rule': [['behind', [['char', [0x61], '1+']]], ['char', [0x62], '']], 'label': [0x61, 0x61, 0x62], 'index': 0, 'anchor': None}


    yield {'history': 'tag'}
    yield {'history': 'child'}


def history(kind):
    l = LGR()
    l._unicode_database = icu()
    r = Rule('r')
    l.rules_lookup['r'] = r
    l.rules.append('r')
    l.add_cp([0x61], tag=['t'])
    r.add_child(ClassMatcher(Class(from_tag='t')))
    c = l.add_cp([0x78], when='r') or l.get_char([0x78])
    if not l._test_context_rules(c, (0x61, 0x78), 1) or l._test_context_rules(c, (0x62, 0x78), 1):
        return 'a rule over a tag class is evaluated wrongly'
    if kind == 'tag':
        l.add_cp([0x62], tag=['t'])
        if not l._test_context_rules(c, (0x62, 0x78), 1):
            return 'a condition is still evaluated with the old members after a class its rule uses has changed'
    else:
        r.add_child(CharMatcher([0x7a]))
        if l._test_context_rules(c, (0x61, 0x78), 1):
            return 'a condition is still evaluated with the old pattern after its rule has changed'
    return None


def nontrivial(case):
    if 'history' in case:
        return True
    return repr(case['rule']).count("'") > 2


def valid(case):
    if 'history' in case:
        return True
    def ok(n):
        if not isinstance(n, list) or not n or not isinstance(n[0], str):
            return False
        k = n[0]
        if k in ('char', 'class'):
            return len(n) == 3 and len(n[1]) > 0 and all(isinstance(x, int) for x in n[1])
        if k == 'any':
            return len(n) == 2
        if k in ('choice', 'rule', 'ref'):
            return len(n) == 3 and len(n[1]) > 0 and all(map(ok, n[1]))
        if k in ('ahead', 'behind'):
            return len(n) == 2 and len(n[1]) > 0 and all(map(ok, n[1]))
        return len(n) == 1
    a, l, i = case['anchor'], case['label'], case['index']
    return all(map(ok, case['rule'])) and len(l) > 0 and i < len(l) and (a is None or (len(a) > 0 and l[i:i + len(a)] == a))


def rng_of(c):
    if not c:
        return 1, 1
    if c.endswith('+'):
        return int(c[:-1]), 99
    if ':' in c:
        return tuple(map(int, c.split(':')))
    return int(c), int(c)


def ends(ns, label, i, anchor, behind=False):
    """the positions at which a match of ns started at i may end"""
    cur = {i}
    for n in ns:
        nxt = set()
        for p in cur:
            nxt |= one(n, label, p, anchor)
        cur = nxt
    return cur


def one(n, label, p, anchor):
    k = n[0]
    L = len(label)
    if k == 'start':
        return {p} if p == 0 else set()
    if k == 'end':
        return {p} if p == L else set()
    if k == 'anchor':
        return {p + len(anchor)} if label[p:p + len(anchor)] == anchor else set()
    if k == 'ahead':
        return {p} if ends(n[1], label, p, anchor) else set()
    if k == 'behind':
        return {p} if any(p in ends(n[1], label, s, anchor) for s in range(p + 1)) else set()

    def step(q):
        if k == 'char':
            return {q + len(n[1])} if label[q:q + len(n[1])] == n[1] else set()
        if k == 'any':
            return {q + 1} if q < L else set()
        if k == 'class':
            return {q + 1} if q < L and label[q] in n[1] else set()
        if k == 'choice':
            r = set()
            for c in n[1]:
                r |= one(c, label, q, anchor)
            return r
        return ends(n[1], label, q, anchor)
    lo, hi = rng_of(n[-1])
    cur, out, done = {p}, set(), set()
    m = 0
    while True:
        if m >= lo:
            out |= cur
        if m == hi or not cur:
            break
        nx = set()
        for q in cur:
            nx |= step(q)
        m += 1
        if m > lo and nx <= out:
            break
        cur = nx
    return out


def has_anchor(ns):
    return any(n[0] == 'anchor' or (len(n) > 1 and isinstance(n[1], list) and n[1] and isinstance(n[1][0], list) and has_anchor(n[1])) for n in ns)


def model(ns, label, anchor, index):
    if not ns:
        return False
    if anchor is None or not has_anchor(ns):
        if anchor is not None:
            index = 0
        return any(ends(ns, label, s, anchor) for s in range(index, len(label) + 1))
    return bool(ends(ns, label, index, anchor))


def build(ns, add, lookup):
    for n in ns:
        k, c = n[0], (n[-1] if n[0] in ('char', 'any', 'class', 'choice', 'rule', 'ref') else None) or None
        if k == 'char':
            add(CharMatcher(list(n[1]), count=c))
        elif k == 'any':
            add(AnyMatcher(count=c))
        elif k == 'class':
            add(ClassMatcher(Class(codepoints=n[1]), count=c))
        elif k == 'choice':
            m = ChoiceMatcher(count=c)
            build(n[1], m.add_child, lookup)
            add(m)
        elif k == 'rule':
            r = Rule()
            build(n[1], r.add_child, lookup)
            add(RuleMatcher(r, count=c))
        elif k == 'ref':
            name = 'r%d' % len(lookup)
            r = lookup[name] = Rule(name)
            build(n[1], r.add_child, lookup)
            add(RuleMatcher(Rule(by_ref=name), count=c))
        elif k in ('ahead', 'behind'):
            m = LookAheadMatcher() if k == 'ahead' else LookBehindMatcher()
            build(n[1], m.add_child, lookup)
            add(m)
        else:
            add({'start': StartMatcher, 'end': EndMatcher, 'anchor': AnchorMatcher}[k]())


UP = 0x10000
KEEP = []       # databases stay alive while rules that saw them do


class Shift(object):
    def __init__(self, db):
        self.db = db

    def get_set(self, cps=None, **k):
        return self.db.get_set([c - UP for c in cps], **k) if cps is not None else self.db.get_set(**k)

    def compile_regex(self, p):
        import re
        p = re.sub(r'\\x\{([0-9A-Fa-f]+)\}', lambda m: '\\x{%X}' % (int(m.group(1), 16) - UP), p)
        rx = self.db.compile_regex(p)

        class R(object):
            def search(self, s, index=0):
                return rx.search(''.join(chr(ord(c) - UP) if ord(c) >= UP else '\u0fff' for c in s), index=index)
        return R()


class Swap(object):
    """a database with other sets"""
    def __init__(self, db):
        self.db = db

    def get_set(self, cps=None, **k):
        return self.db.get_set([SWAP[c] for c in cps], **k) if cps is not None else self.db.get_set(**k)

    def compile_regex(self, p):
        return self.db.compile_regex(p)


SWAP = {0x61: 0x62, 0x62: 0x63, 0x63: 0x61, 0x64: 0x65, 0x65: 0x64}


def mapped(ns, f, only=()):
    out = []
    for n in ns:
        n = list(n)
        if len(n) > 1 and isinstance(n[1], list):
            if n[0] in ('char', 'class'):
                if not only or n[0] in only:
                    n[1] = [f(c) for c in n[1]]
            else:
                n[1] = mapped(n[1], f, only)
        out.append(n)
    return out


def raised(ns):
    return mapped(ns, lambda c: c + UP)


def swapped(ns):
    return mapped(ns, lambda c: SWAP[c], ('class',))


def has_class(ns):
    return any(n[0] == 'class' or (len(n) > 1 and isinstance(n[1], list) and n[0] != 'char' and has_class(n[1])) for n in ns)


def check(case):
    if 'history' in case:
        return history(case['history'])
    db = icu()
    l = LGR()
    l._unicode_database = db
    lookup = l.rules_lookup
    rule = Rule('top')
    build(case['rule'], rule.add_child, lookup)
    lookup['top'] = rule
    ask = rule
    if case.get('byref'):
        ask = lookup['alias'] = Rule(by_ref='top')
    label, anchor, index = case['label'], case['anchor'], case['index']
    bad = case.get('bad')
    if bad and case['rule'] and any(n[-1] == '2:1' for n in case['rule'] if n[0] == 'char'):
        try:
            got = ask.matches(label, lookup, l.classes_lookup, db, anchor, index)
            return 'a malformed rule is answered %r' % got
        except RuleError:
            return None
    if anchor is None and has_anchor(case['rule']):
        # a rule that needs an anchor, without one: an error, not an answer
        try:
            return 'a rule with an anchor is answered %r without anchor' % ask.matches(label, lookup, l.classes_lookup, db)
        except RuleError:
            return None
    want = model(case['rule'], label, anchor, index)
    for turn in (1, 2):
        got = ask.matches(list(label), lookup, l.classes_lookup, db, anchor, index)
        if bool(got) != want:
            return 'the rule %s on %s at %s of %s, time %d: %r, not %r' % (rule, anchor, index, label, turn, got, want)
    # the same rule over code points outside the basic plane, through a database that maps them back for ICU
    up = Shift(db)
    rule2, lookup2 = Rule('top'), {}
    build(raised(case['rule']), rule2.add_child, lookup2)
    lookup2['top'] = rule2
    got = rule2.matches([c + UP for c in label], lookup2, {}, up, [c + UP for c in anchor] if anchor is not None else None, index)
    if bool(got) != want:
        return 'the rule %s on %s at %s of %s, all outside the basic plane: %r, not %r' % (rule, anchor, index, label, got, want)
    # the same rule under another database
    if has_class(case['rule']):
        other = Swap(db)
        want2 = model(swapped(case['rule']), label, anchor, index)
        got = ask.matches(list(label), lookup, l.classes_lookup, other, anchor, index)
        if bool(got) != want2:
            return 'the rule %s on %s at %s of %s, evaluated under another database: %r, not %r' % (rule, anchor, index, label, got, want2)
        KEEP.append(other)
        del KEEP[:-50]
    if anchor is not None:
        for when, nw in (('top', None), (None, 'top'), (None, None)):
            c = Char(anchor[0]) if len(anchor) == 1 else None
            if c is None:
                from lgr.char import CharSequence
                c = CharSequence(anchor)
            c.when, c.not_when = when, nw
            w = want if when else (not want if nw else True)
            got = l._test_context_rules(c, tuple(label), index)
            if bool(got) != w:
                return 'when=%s not-when=%s with the rule %s: permitted is %r, not %r' % (when, nw, want, got, w)
    return None
