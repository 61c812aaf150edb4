import io
from xml.sax.saxutils import escape, quoteattr
from lgr.parser.xml_parser import XMLParser
from lgr.parser.xml_serializer import serialize_lgr_xml
from lgr.char import RangeChar
from lgr.matcher import *
from lgr.classes import *
from oracles.lib import *

RULE = ('random documents with metadata, references, code points, sequences, ranges, variants, classes, rules and actions, every optional attribute '
        'present or absent: the document is read and every field compared with what was written in it, then written and read again and compared, then '
        'written a second time and compared byte for byte; non-trivial when there is a variant or a rule')
BOUND = 'up to 7 entries, 4 variants each, 3 classes, 3 rules of depth 2, 3 actions'
NS = 'urn:ietf:params:xml:ns:lgr-1.0'
TXT = ['', 'x', 'a comment', 'é & <b> "q"', '  spaces  ', 'ü\u4e00']
NAMES = ['r1', 'r2', 'r3']


def opt(rng, p, *xs):
    return rng.choice(xs) if rng.random() < p else None


def rule_node(rng, depth):
    k = rng.choice(['char', 'any', 'class', 'start', 'end', 'anchor'] + (['choice', 'rule', 'look-ahead', 'look-behind', 'union', 'complement'] if depth else []))
    a = {}
    if rng.random() < .3:
        a['comment'] = rng.choice(TXT[1:])
    if k in ('char', 'any', 'choice', 'rule', 'class', 'union', 'complement') and rng.random() < .4:
        a['count'] = rng.choice(['1', '0+', '1:2'])
    if k == 'char':
        return [k, dict(a, cp=rng.choice(['0061', '0061 0062']))]
    if k == 'class':
        r = rng.random()
        if r < .3:
            return [k, dict(a, **{'by-ref': 'c1'})]
        if r < .5:
            return [k, dict(a, **{'from-tag': 't1'})]
        if r < .6:
            return [k, dict(a, property='gc:Lu')]
        return [k, a, rng.choice(['0061 0063', '0061-0063', ' 0061\n 0070-0072 '])]
    if k == 'rule':
        if rng.random() < .4:
            return [k, dict(a, **{'by-ref': 'r1'})]
    if k in ('any', 'start', 'end', 'anchor'):
        return [k, a]
    if k in ('union', 'complement'):
        return [k, a, [['class', {}, '0061'], ['class', {'from-tag': 't1'}]][:2 if k == 'union' else 1]]
    return [k, a, [rule_node(rng, depth - 1) for _ in range(rng.randint(1, 2))]]


def gen(rng):
    md = {}
    for k, xs in (('version', ['1', '2 beta']), ('date', ['2020-01-31']), ('validity-start', ['2020-02-01']), ('validity-end', ['2021-02-28']),
                  ('unicode-version', ['6.3.0', '11.0.0', '6.2.0'])):
        v = opt(rng, .6, *xs)
        if v:
            md[k] = v
    md['vcomment'] = opt(rng, .4, *TXT)
    md['languages'] = rng.sample(['und-Latn', 'fr', 'ja'], rng.randint(0, 3))
    md['scopes'] = [[rng.choice(['example.com', '.', 'b c']), opt(rng, .5, 'domain', 'other')] for _ in range(rng.randint(0, 2))]
    md['description'] = opt(rng, .6, ['Text', None], ['<p>a & b</p>\n second', 'text/html'], ['plain\nlines ', 'text/plain'], ['', None], ['a ]]> b', 'text/html'], ['', 'text/html'])
    refs = [[i, rng.choice(TXT[1:]), opt(rng, .4, *TXT[1:])] for i in rng.sample(['0', '1', '2', '7', 'A', 'RFC-1'], rng.randint(0, 4))]
    has_meta = rng.random() < .95
    refs = refs if has_meta else []
    ids = [r[0] for r in refs]

    def attrs(tags=True, cond=True):
        a = {}
        c = opt(rng, .3, *TXT)
        if c is not None:
            a['comment'] = c
        if ids and rng.random() < .3:
            a['ref'] = ' '.join(rng.sample(ids, rng.randint(1, len(ids))))
        if tags and rng.random() < .3:
            a['tag'] = ' '.join(rng.sample(['t1', 't2', 'sc:Latn'], rng.randint(1, 2)))
        r = rng.random()
        if cond and r < .2:
            a['when'] = rng.choice(NAMES)
        elif cond and r < .4:
            a['not-when'] = rng.choice(NAMES)
        return a
    data, seen = [], set()
    for _ in range(rng.randint(0, 7)):
        if rng.random() < .2:
            f = 0x100 + rng.randrange(8) * 16
            if f in seen:
                continue
            seen.add(f)
            data.append(['range', dict(attrs(), **{'first-cp': '%04X' % f, 'last-cp': '%04X' % (f + rng.randrange(1, 9))})])
            continue
        cp = [0x61 + rng.randrange(6) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < .1:
            cp[0] = rng.choice([0x1F600, 0x20000])
        if tuple(cp) in seen:
            continue
        seen.add(tuple(cp))
        vs, sv = [], set()
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            v = [0x61 + rng.randrange(6) for _ in range(rng.choice([1, 1, 2]))]
            a = attrs(tags=False)
            k = (tuple(v), a.get('when'), a.get('not-when'))
            if k in sv:
                continue
            sv.add(k)
            t = opt(rng, .7, 'blocked', 'allocatable', 'x y')
            if t is not None:
                a['type'] = t
            vs.append(dict(a, cp=' '.join('%04X' % c for c in v)))
        data.append(['char', dict(attrs(tags=len(cp) == 1), cp=' '.join('%04X' % c for c in cp)), vs])
    cls = [['class', {'name': 'c1'}, '0061-0063 0065']]
    for i in range(rng.randint(0, 2)):
        a = {'name': 'c%d' % (i + 2)}
        if rng.random() < .4:
            a['comment'] = rng.choice(TXT[1:])
        r = rng.random()
        if r < .3:
            cls.append([rng.choice(['union', 'intersection', 'difference', 'symmetric-difference']), a, [['class', {'by-ref': 'c1'}], ['class', {}, '0061']]])
        elif r < .5:
            cls.append(['class', dict(a, **{'from-tag': 't1'})])
        elif r < .6:
            cls.append(['class', dict(a, property='gc:Lu')])
        else:
            b = dict(a, ref=ids[0]) if ids else a
            cls.append(['class', b, [['char', {'cp': '0061'}], ['range', {'first-cp': '0063', 'last-cp': '0065'}]]])
    rules = []
    for n in NAMES:
        a = {'name': n}
        if rng.random() < .3:
            a['comment'] = rng.choice(TXT[1:])
        if ids and rng.random() < .3:
            a['ref'] = ids[0]
        rules.append(['rule', a, [rule_node(rng, 2) for _ in range(rng.randint(1, 3))]])
    acts = []
    for _ in range(rng.randint(0, 3)):
        a = {'disp': rng.choice(['blocked', 'valid', 'mine'])}
        r = rng.random()
        if r < .4:
            a[rng.choice(['match', 'not-match'])] = rng.choice(NAMES)
        r = rng.random()
        if r < .6:
            a[rng.choice(['any-variant', 'all-variants', 'only-variants'])] = rng.choice(['blocked', 'blocked x'])
        if rng.random() < .3:
            a['comment'] = rng.choice(TXT[1:])
        if ids and rng.random() < .3:
            a['ref'] = ids[0]
        acts.append(a)
    return {'meta': md if has_meta else None, 'refs': refs, 'data': data, 'classes': cls, 'rules': rules, 'actions': acts}


def nontrivial(case):
    return any(d[0] == 'char' and d[2] for d in case['data'])


def el(tag, attrs, body=None):
    a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs.items())
    if body is None:
        return '<%s%s/>' % (tag, a)
    if isinstance(body, list):
        body = ''.join(el(*x) for x in body)
    else:
        body = escape(body)
    return '<%s%s>%s</%s>' % (tag, a, body, tag)


def doc(case):
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s">' % NS]
    md = case['meta']
    if md is not None:
        out.append('<meta>')
        if 'version' in md:
            out.append(el('version', {'comment': md['vcomment']} if md.get('vcomment') is not None else {}, md['version']))
        for k in ('date', 'validity-start', 'validity-end', 'unicode-version'):
            if k in md:
                out.append(el(k, {}, md[k]))
        for l in md['languages']:
            out.append(el('language', {}, l))
        for v, t in md['scopes']:
            out.append(el('scope', {'type': t} if t else {}, v))
        if md['description']:
            out.append(el('description', {'type': md['description'][1]} if md['description'][1] else {}, md['description'][0]))
        if case['refs']:
            out.append('<references>' + ''.join(el('reference', dict({'id': i}, **({'comment': c} if c else {})), v) for i, v, c in case['refs']) + '</references>')
        out.append('</meta>')
    out.append('<data>')
    for d in case['data']:
        if d[0] == 'range':
            out.append(el('range', d[1]))
        else:
            out.append(el('char', d[1], [['var', v] for v in d[2]]))
    out.append('</data><rules>')
    out += [el(*c) for c in case['classes']] + [el(*r) for r in case['rules']] + [el('action', a) for a in case['actions']]
    out.append('</rules></lgr>')
    return ''.join(out).encode('utf-8')


def cps(s):
    return [int(x, 16) for x in s.split()]


def lst(a, k):
    return a[k].split(' ') if a.get(k) else []


def expected_rep(case):
    out = []

    def base(a):
        return {'comment': a.get('comment'), 'ref': lst(a, 'ref'), 'tag': lst(a, 'tag'), 'when': a.get('when'), 'not_when': a.get('not-when')}
    for d in case['data']:
        if d[0] == 'range':
            f, l = int(d[1]['first-cp'], 16), int(d[1]['last-cp'], 16)
            for c in range(f, l + 1):
                out.append(dict(base(d[1]), cp=[c], range=[f, l], var=[]))
        else:
            vs = [[cps(v['cp']), v.get('type'), v.get('when'), v.get('not-when'), v.get('comment'), lst(v, 'ref')] for v in d[2]]
            out.append(dict(base(d[1]), cp=cps(d[1]['cp']), range=None, var=sorted(vs, key=repr)))
    return sorted(out, key=lambda d: (d['cp'], repr(d['range'])))


def snap(m):
    """the structure of a rule, a matcher or a class"""
    from lgr.rule import Rule
    d = [type(m).__name__]
    for k in sorted(vars(m)):
        if k in ('_pattern_cache',):
            continue
        v = getattr(m, k)
        if isinstance(v, (set, frozenset)):
            v = sorted(v)
        elif isinstance(v, range):
            v = list(v)
        elif isinstance(v, list) and v and not isinstance(v[0], (int, str)):
            v = [snap(x) for x in v]
        elif hasattr(v, '__dict__'):
            v = snap(v)
        d.append((k, v))
    return d


def view(l):
    m = l.metadata
    return {'rep': rep_view(l.repertoire), 'order': [list(c.cp) for c in l.repertoire], 'ranges': sorted(l.repertoire.ranges),
            'meta': [(m.version.value, m.version.comment) if m.version else None, m.date, m.validity_start, m.validity_end, m.unicode_version,
                     list(m.languages), [(s.value, s.scope_type) for s in m.scopes],
                     (m.description.value, m.description.description_type) if m.description else None],
            'refs': [(k, dict(v)) for k, v in l.reference_manager.items()],
            'classes': l.classes, 'rules': l.rules, 'tags': {k: sorted(c.codepoints) for k, c in l.get_tag_classes().items()},
            'class_objs': {k: snap(c) for k, c in l.classes_lookup.items()}, 'rule_objs': {k: snap(r) for k, r in l.rules_lookup.items()},
            'actions': [snap(a) for a in l.actions]}


def walk(n, m):
    """compares an element of the document with what was read from it"""
    from lgr.rule import Rule
    tag, a = n[0], n[1]
    body = n[2] if len(n) > 2 else None
    what = {'char': CharMatcher, 'any': AnyMatcher, 'choice': ChoiceMatcher, 'start': StartMatcher, 'end': EndMatcher, 'anchor': AnchorMatcher,
            'look-ahead': LookAheadMatcher, 'look-behind': LookBehindMatcher, 'rule': RuleMatcher}.get(tag, ClassMatcher)
    if type(m) is not what:
        return '<%s> is read as %r' % (tag, m)
    if m.comment != a.get('comment') or ('count' in a and m.count != a['count']) or ('count' not in a and getattr(m, 'count', None) is not None):
        return '<%s> is read with comment %r and count %r' % (tag, m.comment, getattr(m, 'count', None))
    if tag == 'char' and list(m.cp_or_sequence) != cps(a['cp']):
        return 'the code points of <char> are read as %s' % (m.cp_or_sequence,)
    if tag == 'rule':
        r = m._rule
        if r.by_ref != a.get('by-ref') or r.name is not None:
            return '<rule> is read as %r' % r
        return children(body or [], r.children)
    if what is ClassMatcher:
        return klass(n, m._cls)
    if isinstance(body, list):
        return children(body, m._children)
    return None


def children(ns, ms):
    if len(ns) != len(ms):
        return '%d matchers are read from %d elements' % (len(ms), len(ns))
    for n, m in zip(ns, ms):
        r = walk(n, m)
        if r:
            return r
    return None


def listed(s):
    out = set()
    for x in s.split():
        f, _, l = x.partition('-')
        out |= set(range(int(f, 16), int(l or f, 16) + 1))
    return out


def klass(n, c):
    tag, a = n[0], n[1]
    body = n[2] if len(n) > 2 else None
    T = {'class': Class, 'union': UnionClass, 'intersection': IntersectionClass, 'difference': DifferenceClass,
         'symmetric-difference': SymmetricDifferenceClass, 'complement': ComplementClass}[tag]
    if type(c) is not T:
        return '<%s> is read as %r' % (tag, c)
    if c.name != a.get('name') or c.comment != a.get('comment'):
        return '<%s> is read with name %r and comment %r' % (tag, c.name, c.comment)
    if tag == 'class':
        if c.by_ref != a.get('by-ref') or c.from_tag != a.get('from-tag') or c.unicode_property != a.get('property') or list(c.references) != lst(a, 'ref'):
            return '<class> is read as by-ref %r, from-tag %r, property %r, references %r' % (c.by_ref, c.from_tag, c.unicode_property, c.references)
        want = set()
        if isinstance(body, str):
            want = listed(body)
        elif body:
            for t, x in body:
                want |= set(cps(x['cp'])) if t == 'char' else set(range(int(x['first-cp'], 16), int(x['last-cp'], 16) + 1))
        if set(c.codepoints) != want:
            return 'the class %r has the code points %s' % (a, sorted(c.codepoints))
        return None
    if len(c._children) != len(body):
        return '<%s> has %d operands' % (tag, len(c._children))
    for x, y in zip(body, c._children):
        r = klass(x, y)
        if r:
            return r
    return None


def parse(b):
    return XMLParser(io.BytesIO(b), 'n').parse_document()


def check(case):
    l = parse(doc(case))
    v = view(l)
    v['rep'].sort(key=lambda d: (d['cp'], repr(d['range'])))
    if v['rep'] != expected_rep(case):
        e = expected_rep(case)
        bad = [x for x in v['rep'] if x not in e][:1], [x for x in e if x not in v['rep']][:1]
        return 'the repertoire is read as %s, not %s' % bad
    md = case['meta'] or {'languages': [], 'scopes': [], 'description': None}
    want = [(md['version'], md.get('vcomment')) if 'version' in md else None, md.get('date'), md.get('validity-start'), md.get('validity-end'),
            md.get('unicode-version', '6.3.0'), md['languages'], [tuple(s) for s in md['scopes']], tuple(md['description']) if md['description'] else None]
    if v['meta'] != want:
        return 'the metadata are read as %s, not %s' % (v['meta'], want)
    refs = [(i, dict({'value': t}, **({'comment': c} if c else {}))) for i, t, c in case['refs']] if case['meta'] is not None else []
    if case['meta'] is not None and v['refs'] != refs:
        return 'the references are read as %s' % v['refs']
    if v['classes'] != [c[1]['name'] for c in case['classes']] or v['rules'] != [r[1]['name'] for r in case['rules']]:
        return 'the classes are %s and the rules %s' % (v['classes'], v['rules'])
    for c in case['classes']:
        r = klass(c, l.classes_lookup[c[1]['name']])
        if r:
            return r
    for n in case['rules']:
        o = l.rules_lookup[n[1]['name']]
        if o.name != n[1]['name'] or o.comment != n[1].get('comment') or list(o.references) != lst(n[1], 'ref') or o.by_ref is not None:
            return 'the rule %s is read as %s' % (n[1], vars(o))
        r = children(n[2], o.children)
        if r:
            return r
    if len(l.actions) != len(case['actions']):
        return '%d actions are read' % len(l.actions)
    for a, o in zip(case['actions'], l.actions):
        got = [o.disp, o.match, o.not_match, sorted(o.any_variant or []), sorted(o.all_variants or []), sorted(o.only_variants or []), o.comment,
               list(o.references or [])]
        want = [a['disp'], a.get('match'), a.get('not-match'), sorted(lst(a, 'any-variant')), sorted(lst(a, 'all-variants')), sorted(lst(a, 'only-variants')),
                a.get('comment'), lst(a, 'ref')]
        if got != want:
            return 'an action is read as %s, not %s' % (got, want)
    v = view(l)
    b1 = serialize_lgr_xml(l)
    l2 = parse(b1)
    v2 = view(l2)
    for k in v:
        if v[k] != v2[k]:
            return 'after writing and reading, %s: %s, not %s' % (k, str(v2[k])[:300], str(v[k])[:300])
    if view(l) != v:
        return 'writing changed the rules'
    b2 = serialize_lgr_xml(l2)
    if b1 != b2:
        return 'writing again gives another document'
    p = parse(serialize_lgr_xml(l, pretty_print=True))
    if view(p)['rep'] != view(l)['rep']:
        return 'the indented document is read differently'
    return None


def valid(case):
    ids = {r[0] for r in case['refs']} if case['meta'] is not None else set()
    if case['meta'] is None and case['refs']:
        return False
    import re
    used = set(x for m in re.findall(rb' ref="([^"]*)"', doc(case)) for x in m.decode().split())
    names = [c[1].get('name') for c in case['classes']]
    if not used <= ids or names[:1] != ['c1'] or None in names or [r[1].get('name') for r in case['rules']][:1] != ['r1']:
        return False
    for d in case['data']:
        if d[0] == 'char' and (len(d) != 3 or not d[1].get('cp')) or (d[0] == 'range' and len(d) != 2):
            return False
    seen = [d[1].get('cp') or d[1].get('first-cp') for d in case['data']]
    if len(set(seen)) != len(seen) or any(len(x) > 2 and isinstance(x[2], list) and len(x[2]) < 2 for c in case['classes'] for x in [c]):
        return False
    md = case['meta']
    return md is None or all(len(s) == 2 and s[0] for s in md['scopes']) and (md['description'] is None or len(md['description']) == 2) and \
        set(('languages', 'scopes', 'description')) <= set(md)
