import copy
import io
from xml.sax.saxutils import escape, quoteattr
from lgr.exceptions import CharInvalidContextRule
from lgr.parser.xml_parser import XMLParser
from lgr.tools.merge_set import merge_lgr_set
from oracles.lib import *

RULE = ('sets of two or three random rule sets with overlapping code points, ranges, sequences, symmetric and transitive variants (with conditions), references '
        'that clash, rules, classes and actions sharing names: the merged set is compared with the union of the members, and every member before and after; '
        'non-trivial when two members share a code point')
BOUND = '3 members of up to 8 entries, 4 references, 3 rules each'
NS = 'urn:ietf:params:xml:ns:lgr-1.0'
CPS = [(0x61,), (0x62,), (0x63,), (0x64,), (0x65,), (0x61, 0x62), (0x63, 0x64, 0x65)]


def member(rng, script):
    cps = sorted(rng.sample(CPS, rng.randint(2, len(CPS))))
    rest = [c for c in cps]
    rng.shuffle(rest)
    groups = []
    while len(rest) > 1 and rng.random() < .6:
        n = rng.randint(2, min(3, len(rest)))
        groups.append([[list(c) for c in rest[:n]], rng.choice([None, None, None, 'r1', '!r1'])])
        rest = rest[n:]
    ids = rng.sample(['0', '1', '2', '3', 'A'], rng.randint(0, 4))
    refs = [[i, rng.choice(['one', 'two', 'three', 'four'])] for i in ids]
    some = lambda p: rng.sample(ids, rng.randint(1, len(ids))) if ids and rng.random() < p else []
    return {'script': script, 'refs': refs, 'groups': groups, 'reflexive': rng.random() < .2,
            'chars': [{'cp': list(c), 'ref': some(.5), 'tag': rng.sample(['t', 'sc:Latn'], rng.randint(0, 2)) if len(c) == 1 else [],
                       'when': rng.choice([None] * 12 + ['r1', 'r2', '!r1']), 'comment': rng.choice([None, None, 'x'])} for c in cps],
            'vref': some(.4), 'range': rng.choice([None, None, [0x6b, 0x6d], [0x6c, 0x6f]]),
            'rules': ['r1', 'r2'] + (['leading-combining-mark'] if rng.random() < .3 else []) + rng.sample(['match', 'a'], rng.randint(0, 1)),
            'classes': rng.sample(['c1', 'c2'], rng.randint(0, 2)),
            'actions': [[rng.choice(['match', 'not-match']), rng.choice(['r1', 'r2', -1]), rng.choice(['blocked', 'invalid'])] for _ in range(rng.randint(0, 2))]}


def gen(rng):
    ss = ['fr', 'en', 'und-Khmr']
    rng.shuffle(ss)
    return {'members': [member(rng, s) for s in ss[:rng.choice([2, 2, 3])]]}


def cond(c):
    return ('', '') if c is None else ('not-when', c[1:]) if c[0] == '!' else ('when', c)


def text(cp):
    return ' '.join('%04X' % c for c in cp)


def doc(m):
    o = ['<?xml version="1.0" encoding="utf-8"?><lgr xmlns="%s"><meta><version>1</version><language>%s</language><unicode-version>6.3.0</unicode-version>' % (NS, m['script'])]
    if m['refs']:
        o.append('<references>%s</references>' % ''.join('<reference id="%s">%s</reference>' % (i, escape(v)) for i, v in m['refs']))
    o.append('</meta><data>')

    def attrs(pairs):
        return ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in pairs if k and v)
    for c in m['chars']:
        o.append('<char cp="%s"%s>' % (text(c['cp']), attrs([('comment', c['comment']), ('ref', ' '.join(c['ref'])), ('tag', ' '.join(c['tag'])), cond(c['when'])])))
        for cp, cn in mappings(m, c['cp']):
            o.append('<var cp="%s"%s/>' % (text(cp), attrs([('type', 'allocatable'), ('ref', ' '.join(m['vref'])), cond(cn)])))
        o.append('</char>')
    if m['range']:
        o.append('<range first-cp="%04X" last-cp="%04X"/>' % tuple(m['range']))
    o.append('</data><rules>')
    for c in m['classes']:
        o.append('<class name="%s">0061 0063</class>' % c)
    for r in m['rules']:
        o.append('<rule name="%s"><start/><char cp="0061"/></rule>' % r)
    for k, r, d in m['actions']:
        o.append('<action disp="%s" %s="%s"/>' % (d, k, m['rules'][-1] if r == -1 else r))
    return ''.join(o + ['</rules></lgr>'])


def mappings(m, cp):
    for g, cn in m['groups']:
        if cp in g:
            for x in g:
                if x != cp or m['reflexive']:
                    yield x, cn


def nontrivial(case):
    a = [{tuple(c['cp']) for c in m['chars']} for m in case['members']]
    return bool(a[0] & a[1])


def valid(case):
    return len({m['script'] for m in case['members']}) == len(case['members']) > 1 and all(
        m['script'] and all(tuple(x['cp']) in CPS for x in m['chars']) and all(len(g[0]) > 1 and all(x in [y['cp'] for y in m['chars']] for x in g[0]) for g in m['groups'])
        and all(r in dict(m['refs']) for x in m['chars'] for r in x['ref'] + m['vref']) and len(dict(m['refs'])) == len(m['refs']) and m['rules'][:2] == ['r1', 'r2']
        and all(g[1] in (None, 'r1', '!r1') for g in m['groups']) and (not m['range'] or len(m['range']) == 2 and m['range'][0] < m['range'][1] and m['range'][0] > 0x65)
        for m in case['members'])


def parse(m):
    return XMLParser(io.BytesIO(doc(m).encode()), m['script']).parse_document()


def pre(script, n):
    return ('Common-' if n == 'leading-combining-mark' else script + '-') + n if n else n


def check(case):
    ls = [parse(m) for m in case['members']]
    for l, m in zip(ls, case['members']):
        if len(list(l.repertoire)) < len(m['chars']):
            raise AssertionError('harness: the member was not read')
    before = [lgr_view(l) for l in ls]
    given = list(ls)
    try:
        merged = merge_lgr_set(given, 'merged')
    except CharInvalidContextRule:
        return None
    if [lgr_view(l) for l in ls] != before:
        return 'merging changed a member'
    if [id(x) for x in given] != [id(x) for x in ls]:
        return 'merging changed the order of the list of members'
    want = set()
    for m in case['members']:
        want |= {tuple(c['cp']) for c in m['chars']}
        if m['range']:
            want |= {(c,) for c in range(m['range'][0], m['range'][1] + 1)}
    got = {c.cp for c in merged.repertoire.all_repertoire()}
    if got != want:
        return 'the merged set has %s for %s' % (sorted(got - want), sorted(want - got))
    vals = {r['value'] for r in merged.reference_manager.values()}
    both = {}
    for m in case['members']:
        mine = dict(m['refs'])
        lost = set(mine.values()) - vals
        if lost:
            return 'references %r of %s are lost' % (lost, m['script'])
        for c in m['chars']:
            e = merged.get_char(tuple(c['cp']))
            have = {merged.reference_manager[r]['value'] for r in e.references}
            both.setdefault(e.cp, [set(), have])[0].update(mine[r] for r in c['ref'])
            for t in c['tag']:
                if (t if ':' in t else m['script'] + '-' + t) not in e.tags:
                    return 'tag %s of %r (%s) is lost' % (t, c['cp'], m['script'])
            vs = [(v.cp, v.when, v.not_when) for v in e.get_variants()]
            for x, cn in mappings(m, c['cp']):
                k, n = cond(cn)
                v = (tuple(x), pre(m['script'], n) if k == 'when' else None, pre(m['script'], n) if k == 'not-when' else None)
                if v not in vs:
                    return 'variant %r of %r (%s) is lost: %r' % (v, c['cp'], m['script'], vs)
            if len([1 for y in case['members'] if c['cp'] in [z['cp'] for z in y['chars']]]) == 1:
                for v in e.get_variants():
                    hv = {merged.reference_manager[r]['value'] for r in v.references}
                    if (v.comment or '').startswith('New variant'):
                        continue
                    if hv != {mine[r] for r in m['vref']}:
                        return 'references of variant %r of %r: %r' % (v.cp, c['cp'], hv)
        names = list(merged.rules)
        for r in m['rules']:
            if pre(m['script'], r) not in names:
                return 'rule %s of %s is lost' % (r, m['script'])
        for r in m['classes']:
            if m['script'] + '-' + r not in merged.classes:
                return 'class %s of %s is lost' % (r, m['script'])
    for cp, (a, b) in both.items():
        if a != b:
            return 'references of %r: %r for %r' % (cp, sorted(b), sorted(a))
    wa = []
    for m in sorted(case['members'], key=lambda m: m['script'].replace('und-', 'zzz')):
        for k, r, d in m['actions']:
            n = pre(m['script'], m['rules'][-1] if r == -1 else r)
            wa.append((d, n if k == 'match' else None, n if k == 'not-match' else None))
    ga = [(a.disp, a.match, a.not_match) for a in merged.actions]
    if ga != wa:
        return 'actions %r for %r' % (ga, wa)
    return None
