from lgr.core import LGR
from lgr.classes import *
from lgr.classes import TAG_CLASSNAME_PREFIX
from lgr.exceptions import LGRFormatException, RuleError
from oracles.lib import *

RULE = ('random named classes nesting lists, tags, references, Unicode properties and the set operations, with later additions and deletions, evaluated '
        'in random order and again, against Python sets; validation of well-formed and malformed classes; non-trivial when an operation is nested')
BOUND = 'up to 4 named classes of depth 3 over 16 code points'
U = list(range(0x60, 0x70))
OPS = {'union': UnionClass, 'inter': IntersectionClass, 'diff': DifferenceClass, 'sym': SymmetricDifferenceClass, 'not': ComplementClass}
PROP = {'gc:a': {0x61, 0x62}, 'sc:b': {0x62, 0x63, 0x64}}


class FakeSet(object):
    """a set of code points with the operations of the ICU sets, the complement being relative to 16 code points"""
    def __init__(self, it=None, frozen=False):
        self.s = set(it or ())
        self.frozen = frozen

    def add(self, cp):
        assert not self.frozen
        self.s.add(cp)

    def update(self, other):
        assert not self.frozen
        self.s.update(other)

    def remove(self, cp):
        assert not self.frozen
        self.s.discard(cp)

    def complement(self):
        assert not self.frozen
        self.s = set(U) - self.s

    def freeze(self):
        self.frozen = True

    def is_frozen(self):
        return self.frozen

    def __len__(self):
        return len(self.s)

    def __iter__(self):
        return iter(sorted(self.s))

    def __contains__(self, cp):
        return cp in self.s

    def __and__(self, o):
        return FakeSet(self.s & o.s)

    def __or__(self, o):
        return FakeSet(self.s | o.s)

    def __sub__(self, o):
        return FakeSet(self.s - o.s)

    def copy(self):
        return FakeSet(self.s)
    __copy__ = copy

    def __str__(self):
        return '[%s]' % ''.join('\\x{%X}' % c for c in sorted(self.s))


class FakeDb(object):
    def get_set(self, iterable=None, pattern=None, freeze=False):
        if pattern:
            import re
            m = re.match(r'^\\p\{(.*)=(.*)\}$', pattern)
            return FakeSet(PROP['%s:%s' % m.groups()], freeze)
        return FakeSet(iterable, freeze)


def node(rng, depth, names):
    r = rng.random()
    if depth and r < .55:
        op = rng.choice(list(OPS))
        return [op, [node(rng, depth - 1, names) for _ in range({'union': rng.choice([2, 2, 3]), 'not': 1}.get(op, 2))]]
    if r < .8 or depth == 3:
        return ['set', sorted(rng.sample(U, rng.choice([0, 1, 2, 3, 5])))]
    if r < .87:
        return ['tag', rng.choice(['t1', 't2', 'none'])]
    if r < .94 and names:
        return ['ref', rng.choice(names)]
    return ['prop', rng.choice(sorted(PROP))]


def gen(rng):
    names, cls = [], []
    for i in range(rng.randint(1, 4)):
        cls.append(['c%d' % i, node(rng, 3 if rng.random() < .8 else 0, list(names))])
        names.append('c%d' % i)
    edits = [[rng.choice(names), rng.choice(['add', 'del']), rng.choice([rng.choice(U), rng.sample(U, 2)])] for _ in range(rng.randint(0, 4))]
    return {'classes': cls, 'tags': {'t1': rng.sample(U, 3), 't2': rng.sample(U, 2)}, 'edits': edits, 'order': [rng.randrange(9) for _ in range(6)],
            'bad': rng.choice([None] * 3 + ['arity', 'ref', 'name', 'noname', 'many', 'refname', 'refadd']), 'badop': rng.choice(list(OPS)),
            'deep': rng.randrange(3)}


def nontrivial(case):
    return any(n[0] in OPS and any(c[0] in OPS for c in n[1]) for _, n in case['classes'])


def valid(case):
    seen = []

    def ok(n):
        if not isinstance(n, list) or len(n) != 2:
            return False
        if n[0] in OPS:
            return all(map(ok, n[1])) and (len(n[1]) >= 2 if n[0] == 'union' else len(n[1]) == (1 if n[0] == 'not' else 2))
        return n[0] != 'ref' or n[1] in seen
    for c in case['classes']:
        if len(c) != 2 or c[0] in seen or not ok(c[1]):
            return False
        seen.append(c[0])
    return bool(seen) and all(len(e) == 3 and e[0] in seen and e[1] in ('add', 'del') and e[2] not in ([],) for e in case['edits']) and \
        all(k in case['tags'] for k in ('t1', 't2'))


def build(n, name=None):
    k, x = n
    if k in OPS:
        c = OPS[k](name)
        for y in x:
            c.add_child(build(y))
        return c
    if k == 'set':
        return Class(name, codepoints=x)
    if k == 'tag':
        return Class(name, from_tag=x)
    if k == 'ref':
        assert name is None
        return Class(by_ref=x)
    return Class(name, unicode_property=x)


def denote(n, env, tags):
    k, x = n
    if k == 'set':
        return set(x)
    if k == 'tag':
        return set(tags.get(x, ()))
    if k == 'ref':
        return set(env[x])
    if k == 'prop':
        return set(PROP[x])
    s = [denote(y, env, tags) for y in x]
    if k == 'union':
        return set().union(*s)
    if k == 'inter':
        return s[0] & s[1]
    if k == 'diff':
        return s[0] - s[1]
    if k == 'sym':
        return s[0] ^ s[1]
    return set(U) - s[0]


def snap(c):
    return (c.name, c.from_tag, c.by_ref, c.unicode_property, sorted(c.codepoints), [snap(x) for x in getattr(c, '_children', [])])


def refused(f):
    try:
        f()
        return False
    except LGRFormatException:
        return True


def check(case):
    l = LGR()
    db = FakeDb()
    for t, cps in sorted(case['tags'].items()):
        for cp in cps:
            if [cp] in l.repertoire:
                l.get_char([cp]).tags.append(t)
                c = l.classes_lookup.get(TAG_CLASSNAME_PREFIX + t)
                if c is None:
                    c = l.classes_lookup[TAG_CLASSNAME_PREFIX + t] = Class(TAG_CLASSNAME_PREFIX + t, implicit=True)
                c.add_codepoint(cp)
            else:
                l.add_cp([cp], tag=[t])
    models = {}
    for name, n in case['classes']:
        if n[0] == 'ref':
            n = ['union', [n, ['set', []]]]
        models[name] = n
        l.classes_lookup[name] = build(n, name)
        l.classes.append(name)
    for name, op, x in case['edits']:
        if models[name][0] == 'set':
            c = l.classes_lookup[name]
            (c.add_codepoint if op == 'add' else c.del_codepoint)(x)
            xs = {x} if isinstance(x, int) else set(x)
            s = set(models[name][1])
            models[name] = ['set', sorted(s | xs if op == 'add' else s - xs)]
    env = {}
    for name, _ in case['classes']:
        env[name] = denote(models[name], env, case['tags'])
    names = [c[0] for c in case['classes']]
    before = {k: snap(c) for k, c in l.classes_lookup.items()}
    for i in case['order'] + list(range(len(names))):
        name = names[i % len(names)]
        c = l.classes_lookup[name]
        got = c.get_pattern(l.rules_lookup, l.classes_lookup, db, as_set=True)
        if set(got) != env[name]:
            return '%s denotes %s, not %s' % (c, sorted(got), sorted(env[name]))
        txt = c.get_pattern(l.rules_lookup, l.classes_lookup, db)
        if txt != (str(FakeSet(env[name])) if env[name] else ''):
            return '%s has the pattern %s' % (c, txt)
        txt = c.get_pattern(l.rules_lookup, l.classes_lookup, db, True)
        if txt != (str(FakeSet(env[name])) if env[name] else ''):
            return '%s has the pattern %s inside a look-behind' % (c, txt)
        if {k: snap(c) for k, c in l.classes_lookup.items()} != before:
            return 'evaluating %s changed a class' % c
        if refused(lambda: c.validate([], l.rules_lookup, l.classes_lookup)):
            return 'the well-formed class %s is refused' % c
    b = case['bad']
    if b:
        top = OPS[case['badop']]('bad')
        inner = top
        good = [['set', [0x61]]] * 3
        n = {'union': 2, 'not': 1}.get(case['badop'], 2)

        def fill(c, k):
            for _ in range(k):
                c.add_child(build(['set', [0x61]]))
        if b == 'arity':
            fill(top, n - 1)
        elif b == 'many':
            if case['badop'] != 'union':
                fill(top, n)
                return None if refused(lambda: fill(top, 1)) else '%s takes more than %d operands' % (case['badop'], n)
            return None
        elif b == 'ref':
            fill(top, n - 1)
            top.add_child(Class(by_ref='nowhere'))
            try:
                top.get_pattern(l.rules_lookup, l.classes_lookup, db)
                return 'a class refers to an undefined one and is evaluated'
            except RuleError:
                pass
        elif b == 'name':
            fill(top, n - 1)
            top.add_child(Class('inner', codepoints=[0x61]))
        elif b == 'noname':
            top = OPS[case['badop']]()
            fill(top, n)
        elif b == 'refname':
            ok = all(refused(lambda kw=kw: Class(by_ref='c0', **kw)) for kw in ({'name': 'x'}, {'from_tag': 't1'}, {'unicode_property': 'gc:a'}, {'ref': ['1']}))
            return None if ok else 'a reference with other attributes is accepted'
        elif b == 'refadd':
            c = Class(by_ref='c0')
            return None if refused(lambda: c.add_codepoint(0x61)) and refused(lambda: c.del_codepoint(0x61)) else 'code points are added to a reference'
        parents = []
        for _ in range(case['deep']):
            outer = UnionClass('outer')
            top.name = None if b != 'noname' else top.name
            if b == 'noname':
                return None
            outer.add_child(build(['set', [0x62]]))
            outer.add_child(top)
            top = outer
        if not refused(lambda: top.validate(parents, l.rules_lookup, l.classes_lookup)):
            return 'the malformed class %s (%s) passes validation' % (top, b)
    return None
