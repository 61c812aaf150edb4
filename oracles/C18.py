import copy
from lgr.tools.compare import union_lgrs, intersect_lgrs, diff_lgrs
from lgr.parser.xml_serializer import serialize_lgr_xml
from oracles import C17
from oracles.C17 import parse, doc
from oracles.lib import *

RULE = ('two random documents, the second partly taken from the first: their union and intersection against set operations on what the documents list, '
        'the comparison with itself, and both inputs before and after; non-trivial when they share a code point')
BOUND = C17.BOUND


def mix(rng, a, b):
    r = {'meta': copy.deepcopy(b['meta'] if rng.random() < .6 else a['meta']) or {'languages': [], 'scopes': [], 'description': None}, 'refs': b['refs']}
    ids = {x[0] for x in b['refs']}

    def strip(x):
        for y in x if isinstance(x, list) else [x]:
            if isinstance(y, dict):
                if 'ref' in y and not set(y['ref'].split(' ')) <= ids:
                    del y['ref']
            elif isinstance(y, list):
                strip(y)
        return x

    def key(d):
        return d[1].get('cp') or d[1].get('first-cp')
    data, seen = [], set()
    for d in a['data']:
        if rng.random() < .3:
            continue
        d = strip(copy.deepcopy(d))
        if rng.random() < .3:
            d[1]['comment'] = rng.choice(['other', 'x'])
        if rng.random() < .3:
            d[1].pop('when', None)
            d[1].pop('not-when', None)
        if d[0] == 'char':
            d[2] = [v for v in d[2] if rng.random() < .8]
            for v in d[2]:
                if rng.random() < .3:
                    v['type'] = 'mine'
                if rng.random() < .2:
                    v['comment'] = 'vc'
        seen.add(key(d))
        data.append(d)
    fulls = set()
    for d in data:
        if d[0] == 'range':
            fulls |= set(range(int(d[1]['first-cp'], 16), int(d[1]['last-cp'], 16) + 1))
    for d in b['data']:
        if key(d) in seen or rng.random() < .5:
            continue
        if d[0] == 'range' and fulls & set(range(int(d[1]['first-cp'], 16), int(d[1]['last-cp'], 16) + 1)):
            continue
        if d[0] == 'char' and len(d[1]['cp'].split()) == 1 and int(d[1]['cp'], 16) in fulls:
            continue
        data.append(copy.deepcopy(d))
    r['data'] = data
    for k in ('classes', 'rules'):
        out = []
        for x in a[k]:
            if rng.random() < .7:
                out.append(strip(copy.deepcopy(x)))
        names = [x[1]['name'] for x in out]
        out += [x for x in b[k] if x[1]['name'] not in names and rng.random() < .6]
        r[k] = out
    r['actions'] = [strip([copy.deepcopy(x)])[0] for x in a['actions'] + b['actions'] if rng.random() < .6]
    return r


def gen(rng):
    a, b = C17.gen(rng), C17.gen(rng)
    for c in (a, b):
        for s in ('classes', 'rules'):      # names that are part of other words
            for x in c[s]:
                if x[1]['name'] == 'r3':
                    x[1]['name'] = 'r'
    if rng.random() < .1:
        b = copy.deepcopy(a)
    else:
        b = mix(rng, a, b)
    return {'a': a, 'b': b} if rng.random() < .7 else {'a': b, 'b': a}


def nontrivial(case):
    return bool({x[1].get('cp') for x in case['a']['data']} & {x[1].get('cp') for x in case['b']['data']} - {None})


def valid(case):
    return False


def entries(l):
    return {c.cp: c for c in l.repertoire.all_repertoire()}


def vkey(v):
    return (v.cp, v.when, v.not_when)


def both(x, y):
    return x if y is None else y if x is None else x if x == y else '%s|%s' % (x, y)


def check(case):
    l1, l2 = parse(doc(case['a'])), parse(doc(case['b']))
    e1, e2 = entries(l1), entries(l2)
    s1, s2 = [{k: char_view(c) for k, c in e.items()} for e in (e1, e2)]
    for s in (s1, s2):
        for v in s.values():
            v['range'] = None
    o1 = [C17.view(l) for l in (l1, l2)]
    for op in ('union', 'intersection'):
        u = op == 'union'
        l = (union_lgrs if u else intersect_lgrs)(l1, l2)
        e = entries(l)
        want = (set(e1) | set(e2)) if u else (set(e1) & set(e2))
        if set(e) != want:
            return 'the %s has the code points %s, not %s' % (op, sorted(e), sorted(want))
        for k, c in e.items():
            a, b = e1.get(k), e2.get(k)
            vs = {vkey(v): v for v in c.get_variants()}
            va = {vkey(v): v for v in a.get_variants()} if a else {}
            vb = {vkey(v): v for v in b.get_variants()} if b else {}
            wv = set(va) | set(vb) if u else set(va) & set(vb)
            if set(vs) != wv:
                return 'in the %s %s has the variants %s, not %s' % (op, k, sorted(vs, key=repr), sorted(wv, key=repr))
            for x, v in vs.items():
                src = [w[x] for w in (va, vb) if x in w]
                if len({s.type for s in src}) == 1 and v.type != src[0].type:
                    return 'in the %s the variant %s of %s has type %r, not %r' % (op, x, k, v.type, src[0].type)
                if len({s.comment for s in src}) == 1 and v.comment != src[0].comment:
                    return 'in the %s the variant %s of %s has comment %r' % (op, x, k, v.comment)
            if a and b:
                wc = both(a.comment, b.comment)
                tags = set(a.tags) | set(b.tags) if u else set(a.tags) & set(b.tags)
                conds = [x if x == y else c_ for x, y, c_ in ((a.when, b.when, c.when), (a.not_when, b.not_when, c.not_when))]
            else:
                o = a or b
                wc, tags, conds = o.comment, set(o.tags), [o.when, o.not_when]
            if c.comment != wc or set(c.tags) != tags or [c.when, c.not_when] != conds:
                return 'in the %s %s has comment %r, tags %s, conditions %s; not %r, %s, %s' % (op, k, c.comment, c.tags, [c.when, c.not_when], wc, sorted(tags), conds)
        for kind in ('rules', 'classes'):
            n1, n2 = getattr(l1, kind), getattr(l2, kind)
            x1 = dict(zip(n1, getattr(l1, kind + '_xml')))
            x2 = dict(zip(n2, getattr(l2, kind + '_xml')))
            want = {}
            for n in (set(x1) | set(x2) if u else set(x1) & set(x2)):
                if n in x1 and n in x2 and x1[n] != x2[n]:
                    for i, x in ((1, x1[n]), (2, x2[n])):
                        want['%s_%d' % (n, i)] = x.replace(' name="%s"' % n, ' name="%s_%d"' % (n, i), 1)
                else:
                    want[n] = x1.get(n) or x2.get(n)
            names, xml = getattr(l, kind), getattr(l, kind + '_xml')
            if dict(zip(names, xml)) != want or len(names) != len(xml) or len(names) != len(want):
                return 'the %s of %s are %s %s, not %s' % (op, kind, names, xml, want)
        acts = [a for i, a in enumerate(l1.actions) if u or a in l2.actions]
        if u:
            acts = acts + list(l2.actions)
            acts = [a for i, a in enumerate(acts) if a not in acts[:i]]
        if list(l.actions) != acts:
            return 'the %s has the actions %s, not %s' % (op, [vars(a) for a in l.actions], [vars(a) for a in acts])
        m, m1, m2 = l.metadata, l1.metadata, l2.metadata
        for f in ('languages', 'scopes'):
            x, y = set(getattr(m1, f)), set(getattr(m2, f))
            if set(getattr(m, f)) != (x | y if u else x & y):
                return 'the %s has the %s %s' % (op, f, sorted(map(str, getattr(m, f))))
        for f in ('version', 'description'):
            x, y, z = getattr(m1, f), getattr(m2, f), getattr(m, f)
            if (x is None) != (y is None) or (x is not None and x == y):
                if z is None or not (z == (x or y)):
                    return 'the %s lost the %s' % (op, f)
            elif x is not None and f == 'version' and (z.value, z.comment) != (both(x.value, y.value), both(x.comment, y.comment)):
                return 'the %s has the version %r %r' % (op, z.value, z.comment)
        refs = [{r['value'] for r in x.reference_manager.values()} for x in (l1, l2)]
        rs = [r['value'] for r in l.reference_manager.values()]
        if set(rs) != (refs[0] | refs[1] if u else refs[0] & refs[1]) or len(rs) != len(set(rs)):
            return 'the %s has the references %s' % (op, rs)
        serialize_lgr_xml(l)
        for i, (x, s) in enumerate(((l1, s1), (l2, s2))):
            now = {k: char_view(c) for k, c in entries(x).items()}
            v = C17.view(x)
            if now != s:
                return 'the %s changed a code point of input %d' % (op, i + 1)
            for k in o1[i]:
                if k not in ('rep', 'ranges', 'order') and v[k] != o1[i][k]:
                    return 'the %s changed %s of input %d' % (op, k, i + 1)
    t = diff_lgrs(l1, l2, show_same=False)
    if not isinstance(t, str):
        return 'the comparison is %r' % (t,)
    only1, only2 = set(e1) - set(e2), set(e2) - set(e1)
    line = [x for x in t.split('\n') if x.startswith('Repertoire values differ')]
    if bool(line) != bool(only1 or only2):
        return 'the comparison %s the code points' % ('distinguishes' if line else 'does not distinguish')
    return None
