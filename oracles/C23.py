import io
import logging
import re
from lgr.parser.heuristic_parser import HeuristicParser
from lgr.parser.line_parser import LineParser
from lgr.parser.rfc3743_parser import RFC3743Parser
from lgr.parser.rfc4290_parser import RFC4290Parser
from oracles.lib import *

RULE = ('random tables in the three text formats, made of entries (in upper or lower case, padded, with blanks, comments, variants and references), comments, '
        'blank lines and lines with code points outside the notation; the rules read are compared with the entries listed, the errors with the faulty lines, '
        'two readings with each other and, for tables without fault, the format guessed from the table; non-trivial with two entries')
BOUND = 'up to 7 lines, sequences of up to 3 code points, 3 variants, 20 code points'
POOL = [0x61, 0x62, 0x63, 0x64, 0xe9, 0x3b1, 0x44f, 0x4e00, 0x4e01, 0xffff, 0x1f600, 0x10abc, 0x2f800, 0x10ffff, 0x0, 0x7f, 0x1000, 0x10000, 0xfedc, 0xabcd]
BAD = ['U+1234567', 'U+110000', 'U+0000061', 'U+00611234', 'U+123456', 'U+0061z', 'U+FFFFFF', 'U+0010FFFF']
KINDS = {'4290': RFC4290Parser, '3743': RFC3743Parser, 'line': LineParser}
FIXED = [{'fmt': '4290', 'lines': [['e', [[0x61]], [[[0x62]], [[0x63]]], 0], ['b', 'U+0064-U+110000|U+00E9'], ['e', [[0x62], [0x63]], [], 5]]},
         {'fmt': '4290', 'lines': [['b', 'U+0064-ZZ|U+00E9'], ['e', [[0x62]], [], 5]]},
         {'fmt': '3743', 'lines': [['r', 1], ['r', 2], ['e', [[0x61], [1, 2]], [[[0x62], [1]]], [[[0x63, 0x64], [2]], [[0xe9], []]], 3], ['b', '00000061;0062'], ['c', '# U+0061']]},
         {'fmt': 'line', 'lines': [['e', [0x61, 0x62], 1], ['c', ''], ['b', 'U+0062 U+1234567'], ['e', [0x10ffff], 2]]}]


def seq(rng):
    return [rng.choice(POOL) for _ in range(rng.choice((1, 1, 1, 2, 3)))]


def gen(rng):
    fmt = rng.choice(sorted(KINDS))
    lines, used = [], set()
    if fmt == '3743':
        lines += [['r', n] for n in rng.sample(range(10), rng.randint(0, 3))]
    refs = [l[1] for l in lines]

    def some():
        return rng.sample(refs, rng.randint(0, len(refs)))
    for _ in range(rng.randint(1, 7)):
        k = rng.random()
        if k < .12:
            lines.append(['c', rng.choice(['', '#', '# U+0061|U+0062', '#U+0061;U+0062', '   ', '\t# x'])])
        elif k < .3:
            bad = rng.choice(BAD)
            if fmt == '4290':
                lines.append(['b', rng.choice([bad, bad + '|U+0061', 'U+0061-' + bad + '|U+0062', 'U+0063-ZZ|U+0062:U+0064', 'U+0061-|U+0062'])])
            elif fmt == '3743':
                lines.append(['b', rng.choice([bad, bad[2:] + ';0061', '0061 ' + bad + ';0062;0063', '0061,0062;0063', '0061(x);0062', '0061U+0062;0063'])])
            else:
                lines.append(['b', rng.choice([bad, 'U+0061 ' + bad, bad + ' U+0061', 'U+61'])])
            if bad == 'U+0061z' and fmt == 'line':
                lines.pop()
        else:
            s = seq(rng)
            if tuple(s) in used:
                continue
            used.add(tuple(s))
            style = rng.randint(0, 15)
            if fmt == 'line':
                lines.append(['e', s, style])
                continue
            vs, seen = [], set()
            for _ in range(rng.randint(0, 3)):
                v = seq(rng)
                if tuple(v) not in seen:
                    seen.add(tuple(v))
                    vs.append(v)
            if fmt == '4290':
                lines.append(['e', [s], [[v] for v in vs], style])
            else:
                n = rng.randint(0, len(vs))
                lines.append(['e', [s, some()], [[v, some()] for v in vs[:n]], [[v, some()] for v in vs[n:]], style])
    return {'fmt': fmt, 'lines': lines}


def entries(case):
    return [l for l in case['lines'] if l[0] == 'e']


def nontrivial(case):
    return len(entries(case)) >= 2


def cps_of(case, l):
    return tuple(l[1] if case['fmt'] == 'line' else flat4290(l[1]) if case['fmt'] == '4290' else l[1][0])


def flat4290(p):
    return [c for x in p for c in x]


def valid(case):
    if case['fmt'] not in KINDS:
        return False
    bases, refs = [cps_of(case, l) for l in entries(case)], [l[1] for l in case['lines'] if l[0] == 'r']
    if len(set(bases)) != len(bases) or len(set(refs)) != len(refs) or not all(0 < len(b) and all(0 <= c <= 0x10ffff for c in b) for b in bases):
        return False
    for l in entries(case):
        vs = variants(case, l)
        if len({v[0] for v in vs}) != len(vs) or not all(len(v[0]) and all(0 <= c <= 0x10ffff for c in v[0]) for v in vs):
            return False
        if case['fmt'] == '3743' and not set(l[1][1]).union(*[v[2] for v in vs]) <= {str(r) for r in refs} | set(refs):
            return False
    bad = {'4290': r'U\+[0-9a-fA-F]{4}', '3743': r'(U\+)?[0-9a-fA-F]{4}', 'line': ''}[case['fmt']]
    for l in case['lines']:
        if l[0] == 'b' and not (re.match(bad, l[1]) and faulty(case['fmt'], l[1])):
            return False
        if l[0] == 'c' and l[1].strip() and not l[1].strip().startswith('#'):
            return False
        if l[0] == 'r' and not (case['fmt'] == '3743' and 0 <= l[1] <= 9):
            return False
    firsts = [i for i, l in enumerate(case['lines']) if l[0] == 'e']
    return all(l[0] != 'r' or not firsts or i < firsts[0] for i, l in enumerate(case['lines']))


def faulty(fmt, text):
    """the base of the line is not a code point sequence in the notation"""
    if fmt == 'line':
        return '#' not in text and any(not (4 <= len(d) <= 6) or int(d, 16) > 0x10ffff for d in re.findall(r'U\+([0-9a-fA-F]*)', text))
    base = re.split('[|#;]', text)[0].strip()
    for p in base.split('-') if fmt == '4290' else [re.sub(r'\([0-9](,[0-9])*\)$', '', base)] if fmt == '3743' else []:
        for w in [p] if fmt == '4290' else p.split(' '):
            w = w[2:] if w.startswith('U+') else w if fmt == '3743' else 'x'
            if not re.fullmatch('[0-9a-fA-F]{4,6}', w) or int(w, 16) > 0x10ffff:
                return True
    return False


def variants(case, l):
    if case['fmt'] == '4290':
        return [(tuple(flat4290(v)), None, []) for v in l[2]]
    if case['fmt'] == '3743':
        return [(tuple(v), 'activated', [str(r) for r in rs]) for v, rs in l[2]] + [(tuple(v), None, [str(r) for r in rs]) for v, rs in l[3]]
    return []


def hexa(c, style, prefix=True):
    return ('U+' if prefix else '') + ('%0*x' if style & 1 else '%0*X') % (6 if style & 2 and c <= 0xfffff else 4, c)


def line(case, l):
    if l[0] in 'cb':
        return l[1]
    if l[0] == 'r':
        return 'Reference %d Source %d' % (l[1], l[1])
    st = l[-1]
    if case['fmt'] == 'line':
        return ' '.join(hexa(c, st) for c in l[1])
    if case['fmt'] == '4290':
        t = '-'.join(hexa(c, st) for c in flat4290(l[1]))
        if l[2] or st & 4:
            t += '|' + ':'.join('-'.join(hexa(c, st) for c in flat4290(v)) for v in l[2]) if l[2] else ''
        return t + (' # U+0064|U+0065' if st & 8 else '')

    def item(v, rs):
        return ' '.join(hexa(c, st, st & 4) for c in v) + (' ' if st & 8 and rs else '') + ('(%s)' % ','.join(map(str, rs)) if rs else '')
    t = item(*l[1])
    if l[2] or l[3]:
        t += ';' + ','.join(item(*v) for v in l[2])
    if l[3]:
        t += '; ' + ', '.join(item(*v) for v in l[3]) + (';' if st & 2 else '')
    return t + (' # 0065;0066' if st & 8 else '')


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.lines = set()

    def emit(self, record):
        m = re.search(r'line (\d+)', record.getMessage())
        if m:
            self.lines.add(int(m.group(1)))


def read(cls, text):
    h, lg = Errors(), logging.getLogger('lgr')
    lg.addHandler(h)
    level, disabled = lg.manager.disable, None
    logging.disable(logging.NOTSET)
    prop, lg.propagate = lg.propagate, False
    try:
        r = try_(lambda: cls(io.StringIO(text)).parse_document())
    finally:
        lg.removeHandler(h)
        lg.propagate = prop
        logging.disable(level)
    if r[0] != 'ok':
        return r, h.lines
    l = r[1]
    return {c.cp: (list(c.references), sorted(((v.cp, v.type, list(v.references)) for v in c.get_variants()), key=repr)) for c in l.repertoire}, h.lines


def check(case):
    text = '\n'.join(line(case, l) for l in case['lines']) + '\n'
    got, errs = read(KINDS[case['fmt']], text)
    if isinstance(got, tuple):
        return '%r: %r' % (text, got)
    want = {}
    for l in entries(case):
        want[cps_of(case, l)] = ([str(r) for r in l[1][1]] if case['fmt'] == '3743' else [], sorted(variants(case, l), key=repr))
    if got != want:
        d = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        return '%r: entry %r is read as %r, it lists %r' % (text, d[0][0], d[0][1], d[0][2])
    bad = {i + 1 for i, l in enumerate(case['lines']) if l[0] == 'b'}
    if errs != bad:
        return '%r: errors at lines %r, faults at lines %r' % (text, sorted(errs), sorted(bad))
    if read(KINDS[case['fmt']], text)[0] != got:
        return '%r: a second reading differs' % text
    mark = {'4290': '|', '3743': ';'}.get(case['fmt'])
    if mark and not bad and any(mark in line(case, l).split('#')[0] for l in entries(case)):
        other = read(HeuristicParser, text)[0]
        if other != got:
            return '%r: read as %r when the format is guessed, as %r otherwise' % (text, other, got)
    return None
