"""C23: text tables.  Regular expressions are abstracted: what a pattern matches in a text, and what its groups are, are
fixed functions of the pattern and the text.  A pattern of the code stands for one of the reference patterns below when
it behaves like it on every text of a battery (so the code may write it differently); the battery also checks the facts
assumed of the reference patterns.  The bounded check decides on real tables what the patterns accept."""
import itertools
import random
import re
from .insert import *

HEX = '[0-9a-fA-F]'
_CP = r'(?:U\+)?(?:10|0?[0-9a-fA-F])?[0-9a-fA-F]{4}'
_CHAR = _CP + r'(?: ' + _CP + r')* ?(?:\(\d(?:,\d)*\))?'
ROLES = {'notation': r'U\+((?:10|0?[0-9a-fA-F])?[0-9a-fA-F]{4})\b',
         'chars': _CHAR + r'(?:\s*,\s*' + _CHAR + r')*',
         'item': r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?',
         'digits': r'U\+([0-9a-fA-F]*)',
         'start': r'U\+([0-9a-fA-F]{4,6})'}


def _battery():
    rng = random.Random(7)
    cps = ['U+0061', '0061', 'U+61', 'U+10FFFF', 'U+110000', 'U+1234567', '1F600', '10ABC', 'U+0F0000', '001234', 'zz', '', 'U+', 'U+006g', 'aBcD', '12345', '123', '99999', '100000', '0061_', 'u+0061']
    seps = ['', ' ', ',', ', ', '-', ';', '(1)', '(1,2)', '(12)', ' (3)', '#', ':', '  ', '|', '\t']
    out = list(cps)
    for a, s, b in itertools.product(cps, seps, cps):
        out.append(a + s + b)
    for _ in range(2000):
        out.append(''.join(rng.choice(cps) + rng.choice(seps) for _ in range(rng.randint(2, 4))))
        out.append(''.join(rng.choice('U+0019aFg (),-') for _ in range(rng.randint(0, 9))))
    return out


_BATTERY = _battery()


def _behaviour(pat):
    r = re.compile(pat)
    out = []
    for t in _BATTERY:
        m = r.match(t)
        out.append((m and (m.span(), m.groups(), m.groupdict()), bool(r.fullmatch(t)), [(x.span(), x.groupdict() or x.groups()) for x in r.finditer(t)]))
    return out


_REF = {k: _behaviour(p) for k, p in ROLES.items()}
_canon = {}


def _role(text):
    if text not in _canon:
        _canon[text] = next((k for k, p in ROLES.items() if p == text), None)
        if _canon[text] is None:
            try:
                b = _behaviour(text)
                _canon[text] = next((k for k in ROLES if _REF[k] == b), text)
            except re.error:
                _canon[text] = text
    return _canon[text]


# the facts assumed of the reference patterns
for _t in _BATTERY:
    _m = re.match(ROLES['notation'], _t)
    assert _m is None or int(_m.group(1), 16) <= 0x10ffff
    for _m in re.finditer(ROLES['item'], _t):
        assert _m.group('sequence') is not None
    for _m in re.finditer(ROLES['digits'], _t):
        assert not _m.group(1) or int(_m.group(1), 16) >= 0
    for _m in re.finditer(ROLES['item'], _t):
        assert re.fullmatch(ROLES['chars'], _t.strip()) is None or all(int(w.replace('U+', ''), 16) <= 0x10ffff for w in _m.group('sequence').split())

_hit = {k: z3.Function('re_' + k, Str, Str, Bool) for k in ('match', 'fullmatch', 'search')}
_grp = {k: z3.Function('re_%s_group' % k, Str, Str, z3.IntSort(), Str) for k in ('match', 'fullmatch', 'search')}
_count = z3.Function('re_finditer_count', Str, Str, z3.IntSort())
_fgrp = z3.Function('re_finditer_group', Str, Str, z3.IntSort(), Str, Str)
_fhas = z3.Function('re_finditer_has', Str, Str, z3.IntSort(), Str, Bool)


def _rx(v):
    if not (v.x and 'regex' in v.x):
        raise Unsupported('an unknown regular expression')
    return lit(_role(v.x['regex']))


side.ext['re.compile'] = lambda ex, st, args, kw: [(st, 'ok', V(ANY, ex.fresh('regex', U), {'regex': args[0].x['lit']}))]


def _matcher(kind):
    def h(ex, st, args, kwargs):
        pat, s = _rx(args[0]), args[1].z
        yes, no = ex.split(st, _hit[kind](pat, s))
        out = []
        if no is not None:
            out.append((no, 'ok', NONEV))
        if yes is not None:
            m = ex.fresh('match', U)
            yes.fact(m != none_u)
            out.append((yes, 'ok', V(ANY, m, {'hit': (kind, pat, s)})))
        return out
    return h


for _k in _hit:
    side.externs[('any', _k)] = _matcher(_k)


def _finditer(ex, st, args, kwargs):
    pat, s = _rx(args[0]), args[1].z
    st.fact(_count(pat, s) >= 0)
    if z3.eq(pat, lit('item')):
        # every code point of a well-formed list is a hexadecimal number
        th = SeqTheory.of(Str)
        k, j = z3.Int('k!re'), z3.Int('j!re')
        ws = ex.ufn('str_split', Str, th.sort)(_fgrp(pat, s, k, lit('sequence')))
        w = th.at(ws, j)
        n = ex.opaque_str(st, 'replace', [V(STR, w), vstr('U+'), vstr('')]).z
        st.fact(z3.Implies(_hit['fullmatch'](lit('chars'), ex.opaque_str(st, 'strip', [args[1]]).z),
                           z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < th.len(ws)), ex.ufn('intparses', Str, z3.IntSort(), Bool)(n, z3.IntVal(16))), patterns=[w])))
    it = Iter(_count(pat, s), lambda s1, k: V(ANY, z3.Function('re_item', Str, Str, z3.IntSort(), U)(pat, s, k), {'hit': ('finditer', pat, s, k)}))
    return [(st, 'ok', V(Ty('iter'), it))]


side.externs[('any', 'finditer')] = _finditer


def _group(ex, st, args, kwargs):
    if not (args[0].x and 'hit' in args[0].x):
        raise Unsupported('group of an unknown object')
    hit = args[0].x['hit']
    g = args[1] if len(args) > 1 else vint(0)
    if hit[0] != 'finditer':
        z = _grp[hit[0]](hit[1], hit[2], g.z)
        if z3.eq(hit[1], lit('notation')):
            st.fact(ex.ufn('intparses', Str, z3.IntSort(), Bool)(z, z3.IntVal(16)))
        return [(st, 'ok', V(STR, z))]
    if z3.eq(hit[1], lit('digits')) and z3.is_int_value(g.z) and g.z.as_long() == 1:
        z = _fgrp(hit[1], hit[2], hit[3], lit('1'))
        st.fact(z3.Implies(strlen(z) > 0, ex.ufn('intparses', Str, z3.IntSort(), Bool)(z, z3.IntVal(16))))
    name = g.z if g.ty.k == 'str' else lit(str(z3.simplify(g.z)))
    z = _fgrp(hit[1], hit[2], hit[3], name)
    if not z3.eq(name, lit('references')):
        return [(st, 'ok', V(STR, z))]
    yes, no = ex.split(st, _fhas(hit[1], hit[2], hit[3], name))
    return [o for o in ((yes, 'ok', V(STR, z)), (no, 'ok', NONEV)) if o[0] is not None]


side.externs[('any', 'group')] = _group


def _split(sp, s, *sep):
    th = SeqTheory.of(Str)
    zs = [s.z] + [sp.ex.toz(a, ANY) for a in sep]
    return V(ty('seq[str]'), sp.ex.ufn('str_split', *([z.sort() for z in zs] + [th.sort]))(*zs))


def _S(f):
    return lambda sp, *a: f(*[x.z for x in a])


side.spec_funcs.update({
    'split': _split,
    'first': lambda sp, v: sp.ex.opaque_str(sp.st, 'stridx', [v, vint(0)]),
    'trimmed': lambda sp, v: sp.ex.opaque_str(sp.st, 'strip', [v]),
    'erased': lambda sp, v, a, b: sp.ex.opaque_str(sp.st, 'replace', [v, a, b]),
    'accepts': lambda sp, p, s: vbool(_hit['match'](p.z, s.z)),
    'fully': lambda sp, p, s: vbool(_hit['fullmatch'](p.z, s.z)),
    'group': lambda sp, p, s, n: V(STR, _grp['match'](p.z, s.z, n.z)),
    'count': lambda sp, p, s: vint(_count(p.z, s.z)),
    'itemgroup': lambda sp, p, s, k, n: V(STR, _fgrp(p.z, s.z, k.z, n.z)),
    'took': lambda sp, p, s, k, n: vbool(_fhas(p.z, s.z, k.z, n.z)),
    'parses': lambda sp, s: vbool(sp.ex.ufn('intparses', Str, z3.IntSort(), Bool)(s.z, z3.IntVal(16))),
    'hexval': lambda sp, s: vint(sp.ex.ufn('intparse', Str, z3.IntSort(), z3.IntSort())(s.z, z3.IntVal(16)))})

_N = 'lgr.parser.rfc4290_parser:'
contract(_N + 'parse_char', props=['C23'], params={'char': 'str'}, returns='list[int]',
         raises={'ValueError': "exists('i:int', 0 <= i and i < len(split(char, '-')) and not accepts('notation', split(char, '-')[i]), split(char, '-')[i])"},
         ensures=[('one code point per part', "len(result) == len(split(char, '-'))"),
                  ('each is the number its part writes', "forall('i:int', implies(0 <= i and i < len(result), result[i] == hexval(group('notation', split(char, '-')[i], 1))), result[i])")],
         locals={'codepoints': 'list[int]'},
         loops={0: {'modifies': ['codepoints'], 'inv': ['len(codepoints) == k', "forall('i:int', implies(0 <= i and i < k, result_i(codepoints, char, i)), codepoints[i])",
                            "forall('i:int', implies(0 <= i and i < k, accepts('notation', split(char, '-')[i])), split(char, '-')[i])"]}})
define('result_i(l, char, i)', "l[i] == hexval(group('notation', split(char, '-')[i], 1))")

_N = 'lgr.parser.rfc3743_parser:'
define('word(char, i, j)', "hexval(erased(split(itemgroup('item', char, i, 'sequence'))[j], 'U+', ''))")
define('item_i(r, char, i)', "len(r[i][0]) == len(split(itemgroup('item', char, i, 'sequence'))) and forall('j:int', implies(0 <= j and j < len(r[i][0]), r[i][0][j] == word(char, i, j)), r[i][0][j])"
       " and (seq(r[i][1]) == split(itemgroup('item', char, i, 'references'), ',') if took('item', char, i, 'references') else len(r[i][1]) == 0)")
contract(_N + 'parse_char', props=['C23'], params={'char': 'str'}, returns='list[tup[list[int],list[str]]]',
         raises={'ValueError': "not fully('chars', trimmed(char))"},
         locals={'codepoints': 'list[tup[list[int],list[str]]]'},
         ensures=[('one entry per item of the text', "len(result) == count('item', char)"),
                  ('each has the code points and the references its item writes', "forall('i:int', implies(0 <= i and i < len(result), item_i(result, char, i)), result[i])")],
         loops={0: {'modifies': ['codepoints'], 'inv': ['len(codepoints) == k', "forall('i:int', implies(0 <= i and i < k, fresh(codepoints[i][0]) and fresh(codepoints[i][1])), codepoints[i])", "forall('i:int', implies(0 <= i and i < k, item_i(codepoints, char, i)), codepoints[i])"]}})



def _with_list(name):
    def h(ex, st, args, kwargs):
        """the method's contract, which is stated for a sequence, at the members the list has now"""
        f = ex.prog.method('LGR', name)
        args = [V(Ty('seq', a.ty.a[0]), ex.content(st, a)[0]) if a.ty.k == 'list' and a.ty.a[0].k == 'int' else a for a in args]
        c = ex.side.contract_for_call(ex, f)
        return ex.bind(ex.bind_params(st, f, args, kwargs), lambda s, env: ex.apply_contract(s, f, c, env))
    return h


LISTS = {'lgr.core:LGR.' + n: _with_list(n) for n in ('add_cp', 'add_variant')}
# the code points a line of a one-per-line table lists
predicate('valid_digits(d: str)', '4 <= len(d) and len(d) <= 6 and hexval(d) <= 0x10ffff')
predicate('reads(t: str, x: cps)', """len(x) == count('digits', t)
   and forall('j:int', implies(0 <= j and j < len(x), x[j] == hexval(itemgroup('digits', t, j, '1')) and valid_digits(itemgroup('digits', t, j, '1'))), x[j], itemgroup('digits', t, j, '1'))""")
predicate('listed(line: str, x: cps)', "trimmed(line) != '' and first(trimmed(line)) != '#' and reads(trimmed(line), x)")
_D = "'digits', trimmed(line), "
LREP = ['self._lgr.repertoire._chardict', 'each(b for b in self._lgr.repertoire._chardict.values())', 'self._lgr.classes_lookup', 'each(c.codepoints for c in self._lgr.classes_lookup.values())']
_L = lambda e: e.replace('self._chardict', 'self._lgr.repertoire._chardict').replace('self.classes_lookup', 'self._lgr.classes_lookup')
side.fields['LGRParser'] = {'_lgr': 'LGR', 'force': 'bool'}
OLDSTAY = "forall('s:cps', implies(old(has_cp(self._lgr.repertoire, s)), has_cp(self._lgr.repertoire, s)), has_cp(self._lgr.repertoire, s), old(has_cp(self._lgr.repertoire, s)))"
ONLY = "forall('s:cps', implies(len(s) > 0 and has_cp(self._lgr.repertoire, s) and not old(has_cp(self._lgr.repertoire, s)), exists('j:int', 0 <= j and j < %s and listed(rule_file[j], s), listed(rule_file[j], s))), has_cp(self._lgr.repertoire, s))"
EACH = "forall('j:int, s:cps', implies(0 <= j and j < %s and len(s) > 0 and listed(rule_file[j], s) and not refuses(self._lgr, s), has_cp(self._lgr.repertoire, s)), listed(rule_file[j], s))"
contract('lgr.parser.line_parser:LineParser._parse_doc', props=['C23'], params={'rule_file': 'list[str]'}, locals={'codepoints': 'list[int]'}, abstract=LISTS, shards=4,
         requires=['rep_ok(self._lgr.repertoire)', 'tags_ok(self._lgr)'],
         ensures=[('nothing is lost', OLDSTAY), ('only what a line lists is added', ONLY % 'len(rule_file)'), ('each line contributes what it lists', EACH % 'len(rule_file)')],
         modifies=LREP,
         loops={0: {'inv': ['rep_ok(self._lgr.repertoire)', 'tags_ok(self._lgr)', _L(KEEPL), _L(KEEPCL), OLDSTAY, ONLY % 'k', EACH % 'k'],
                    'cuts': ["forall('s:cps', implies(len(s) > 0 and listed(rule_file[k], s) and not refuses(self._lgr, s), has_cp(self._lgr.repertoire, s)), listed(rule_file[k], s))",
                             "forall('s:cps', implies(len(s) > 0 and has_cp(self._lgr.repertoire, s) and not begin(has_cp(self._lgr.repertoire, s)), listed(rule_file[k], s)), has_cp(self._lgr.repertoire, s))",
                             "forall('s:cps', implies(begin(has_cp(self._lgr.repertoire, s)), has_cp(self._lgr.repertoire, s)), has_cp(self._lgr.repertoire, s), begin(has_cp(self._lgr.repertoire, s)))"],
                     'modifies': LREP},
                1: {'modifies': ['codepoints'], 'inv': ['len(codepoints) == k', "forall('j:int', implies(0 <= j and j < k, codepoints[j] == hexval(itemgroup('digits', line, j, '1')) and valid_digits(itemgroup('digits', line, j, '1'))), codepoints[j], itemgroup('digits', line, j, '1'))"],
                    'after': ["reads(line, seq(codepoints))", "forall('x:cps', implies(reads(line, x), x == seq(codepoints)), reads(line, x))"]}})
