"""C12: the checks of symmetry, transitivity and conditions; C02: the enumeration they walk."""
from .verdict import *
from .insert import *

contract('lgr.char:Repertoire.__iter__', props=['C02', 'C12'], opaque=True, returns='seq[CharBase]',
         requires=['rep_ok(self)'],
         ensures=[('only entries are listed', 'all(entry(self, c) for c in result)'),
                  ('every entry that is not a member of a range is listed', "forall('c:CharBase', implies(entry(self, c) and not isinstance(c, RangeChar), c in result), entry(self, c))"),
                  ('each once', 'distinct(result)'),
                  ('in ascending order of first code point, then length', "forall('i:int, j:int', implies(0 <= i and i < j and j < len(result), result[i].cp[0] < result[j].cp[0]"
                   " or result[i].cp[0] == result[j].cp[0] and len(result[i].cp) <= len(result[j].cp)), (result[i], result[j]))")],
         loops={0: {'modifies': ['yielded'], 'inv': ['all(entry(self, c) for c in yielded)', 'distinct(yielded)',
                            "forall('i:int', implies(0 <= i and i < len(yielded), yielded[i].cp[0] in seq(items)[:k]), yielded[i])",
                            "forall('c:CharBase', implies(entry(self, c) and not isinstance(c, RangeChar) and c.cp[0] in seq(items)[:k], c in yielded), entry(self, c))",
                            "forall('i:int, j:int', implies(0 <= i and i < j and j < len(yielded), yielded[i].cp[0] < yielded[j].cp[0]"
                            " or yielded[i].cp[0] == yielded[j].cp[0] and len(yielded[i].cp) <= len(yielded[j].cp)), (yielded[i], yielded[j]))"]},
                1: {'modifies': ['yielded'], 'inv': ['all(entry(self, c) for c in yielded)', 'distinct(yielded)',
                            "forall('i:int', implies(0 <= i and i < len(yielded), i < pre(len(yielded)) and yielded[i] is pre(yielded[i]) or i >= pre(len(yielded)) and yielded[i] in seq(items)[:k]), yielded[i])",
                            "len(yielded) >= pre(len(yielded))",
                            "forall('i:int', implies(0 <= i and i < pre(len(yielded)), pre(yielded[i]).cp[0] < index), pre(yielded[i]))",
                            "forall('i:int', implies(0 <= i and i < pre(len(yielded)), yielded[i] is pre(yielded[i])), yielded[i], pre(yielded[i]))",
                            "forall('i:int, j:int', implies(pre(len(yielded)) <= i and i < len(yielded) and k <= j and j < len(items), yielded[i].cp[0] == index and len(yielded[i].cp) <= len(items[j].cp) and yielded[i] is not items[j]), (yielded[i], items[j]))",
                            "forall('j:int', implies(0 <= j and j < len(items), items[j].cp[0] == index), items[j])",
                            "forall('c:CharBase', implies(pre(c in yielded), c in yielded), pre(c in yielded))",
                            "forall('j:int', implies(0 <= j and j < k and not isinstance(items[j], RangeChar), items[j] in yielded), items[j])",
                            "forall('i:int, j:int', implies(0 <= i and i < j and j < len(yielded), yielded[i].cp[0] < yielded[j].cp[0]"
                            " or yielded[i].cp[0] == yielded[j].cp[0] and len(yielded[i].cp) <= len(yielded[j].cp)), (yielded[i], yielded[j]))"]}})

side.fields['Record'] = {'char': 'CharBase', 'variant': 'Variant', 'rule_type': 'opt[str]', 'rule': 'opt[str]', 'type': 'str'}
side.fields['Metadata'].update({'rfc7940_checks': 'LGRFormatTestResults'})

contract('lgr.char:Repertoire.get_variants', props=['C12'], opaque=True, params={'cp_or_sequence': 'cps'}, returns='seq[Variant]',
         requires=['rep_ok(self)', 'rvars_ok(self)', 'len(cp_or_sequence) > 0'],
         raises={'NotInLGR': 'not has_cp(self, cp_or_sequence)'},
         ensures=[('the variants of the entry with these code points', "forall('v:Variant', (v in result) == exists('c:CharBase', entry(self, c) and c.cp == cp_or_sequence and variant(c, v), (entry(self, c), variant(c, v))), v in result)"),
                  'all(any(d.cp == cp_or_sequence and variant(d, v) for d in self._chardict[cp_or_sequence[0]]) for v in result)',
                  'all(v in result and v.cp == x for d in self._chardict[cp_or_sequence[0]] if d.cp == cp_or_sequence for x in d._variants for v in d._variants[x] if variant(d, v))',
                  ('each once', 'distinct(result)')])

define('names(l, w)', 'not is_some(w) or unopt(w) in l.rules')
predicate('named(l: LGR, v: Variant)', 'names(l, v.when) and names(l, v.not_when)')
# d tells that the condition of variant v of entry c is wrong
predicate('tells(d: Record, c: CharBase, v: Variant, t: str, r: opt[str])', 'd.char is c and d.variant is v and d.rule_type == t and d.rule == r')
predicate('unnamed(l: LGR, d: Record)', "d.rule_type == 'when' and d.rule == d.variant.when and not names(l, d.variant.when) or d.rule_type == 'not-when' and d.rule == d.variant.not_when and not names(l, d.variant.not_when)")
predicate('of(l: LGR, c: CharBase, v: Variant)', 'entry(l.repertoire, c) and not isinstance(c, RangeChar) and variant(c, v)')
ALLV = "forall('c:CharBase, v:Variant', implies(of(lgr, c, v), %s), of(lgr, c, v), (entry(lgr.repertoire, c), variant(c, v)))"
DONE = "forall('j:int, v:Variant', implies(0 <= j and j < k and of(lgr, items[j], v), %s), of(lgr, items[j], v), (items[j], variant(items[j], v)))"
TOLD = ("implies(not names(lgr, %s.when), any(tells(d, %s, %s, 'when', %s.when) for d in result['repertoire']))"
        " and implies(not names(lgr, %s.not_when), any(tells(d, %s, %s, 'not-when', %s.not_when) for d in result['repertoire']))")
def told(c, v, res):
    return (TOLD % (v, c, v, v, v, c, v, v)).replace('result[', res)
ONLY = "all(of(lgr, d.char, d.variant) and unnamed(lgr, d) for d in result['repertoire'])"
RESM = ["result['repertoire']"]
contract('lgr.validate.conditional_variants:check_conditional_variants', props=['C12'], opaque=True, params={'lgr': 'LGR', 'options': 'any'}, locals={'result.repertoire': 'list[Record]'},
         requires=['rep_ok(lgr.repertoire)', 'rvars_ok(lgr.repertoire)'],
         ensures=[('it succeeds exactly when every condition names a rule', 'result[0] == ' + ALLV % 'named(lgr, v)'),
                  ('every defect is reported', ALLV % told('c', 'v', 'result[1][')), ('only defects are reported', ONLY.replace('result[', 'result[1][')),
                  ('nothing is reported exactly when it succeeds', "result[0] == (len(result[1]['repertoire']) == 0)")],
         loops={0: {'inv': ['success == ' + DONE % 'named(lgr, v)', DONE % told('items[j]', 'v', 'result['), ONLY, "success == (len(result['repertoire']) == 0)"], 'modifies': RESM},
                1: {'inv': ["success == (entry_success and forall('j:int', implies(0 <= j and j < k, named(lgr, items[j])), items[j]))",
                            "forall('j:int', implies(0 <= j and j < k, %s), items[j])" % told('char', 'items[j]', 'result['),
                            "forall('j:int', implies(0 <= j and j < len(pre(seq(result['repertoire']))), result['repertoire'][j] is pre(seq(result['repertoire']))[j]), pre(seq(result['repertoire']))[j])",
                            "len(result['repertoire']) >= len(pre(seq(result['repertoire'])))",
                            ONLY, "success == (len(result['repertoire']) == 0)"], 'modifies': RESM}})
side.contracts['lgr.validate.conditional_variants:check_conditional_variants'].shards = 4

contract('lgr.core:LGR.notify_error', props=['C12'], opaque=True, params={'test_label': 'str'},
         ensures=[('the test counts as failed', 'failed(self.metadata.rfc7940_checks, test_label)')], modifies=['self.metadata.rfc7940_checks.test_result'])
contract('lgr.core:LGR.notify_tested', props=['C12'], opaque=True, params={'test_label': 'str'},
         ensures=[('a failure stays', 'failed(self.metadata.rfc7940_checks, test_label) == old(failed(self.metadata.rfc7940_checks, test_label))')], modifies=['self.metadata.rfc7940_checks.test_result'])
# the code points of entries and variants are accepted by the rules, as they were when they were added
define('acceptable(l)', "all(not refuses(l, c.cp) for x in l.repertoire._chardict for c in l.repertoire._chardict[x])"
       " and forall('c:CharBase, v:Variant', implies(entry(l.repertoire, c) and variant(c, v), len(v.cp) > 0 and not refuses(l, v.cp)), (entry(l.repertoire, c), variant(c, v)))")
contract('lgr.core:LGR.get_variants', props=['C12'], opaque=True, params={'cp_or_sequence': 'cps'}, returns='seq[Variant]',
         requires=['rep_ok(self.repertoire)', 'rvars_ok(self.repertoire)'],
         raises={'LGRApiInvalidParameter': 'len(cp_or_sequence) == 0', 'CharInvalidIdnaProperty': 'refuses(self, cp_or_sequence)',
                 'NotInLGR': 'len(cp_or_sequence) > 0 and not has_cp(self.repertoire, cp_or_sequence)'},
         ensures=[('the variants of the entry with these code points', "forall('v:Variant', (v in result) == exists('c:CharBase', entry(self.repertoire, c) and c.cp == cp_or_sequence and variant(c, v), (entry(self.repertoire, c), variant(c, v))), v in result)"),
                  'all(any(d.cp == cp_or_sequence and variant(d, v) for d in self.repertoire._chardict[cp_or_sequence[0]]) for v in result)',
                  'all(v in result and v.cp == x for d in self.repertoire._chardict[cp_or_sequence[0]] if d.cp == cp_or_sequence for x in d._variants for v in d._variants[x] if variant(d, v))',
                  ('each once', 'distinct(result)')])

# some variant leads back from v to c
predicate('missing(l: LGR, v: Variant)', 'not has_cp(l.repertoire, v.cp)')
_BACK = "v.cp[0] in l.repertoire._chardict and any(d.cp == v.cp and c.cp in d._variants and any(variant(d, r) and %s for r in d._variants[c.cp]) for d in l.repertoire._chardict[v.cp[0]])"
predicate('oneway(l: LGR, c: CharBase, v: Variant)', "not (" + _BACK % 'True' + ')')
define('given(w)', "is_some(w) and unopt(w) != ''")
predicate('unlike_when(l: LGR, c: CharBase, v: Variant)', "given(v.when) and not (%s)" % _BACK % 'r.when == v.when')
predicate('unlike_not(l: LGR, c: CharBase, v: Variant)', "given(v.not_when) and not (%s)" % _BACK % 'r.not_when == v.not_when')
predicate('unlike(l: LGR, c: CharBase, v: Variant)', 'unlike_when(l, c, v) or unlike_not(l, c, v)')
predicate('symmetric(l: LGR, ign: bool, c: CharBase, v: Variant)', 'not missing(l, v) and not oneway(l, c, v) and (ign or not unlike(l, c, v))')
predicate('flaw(d: Record, c: CharBase, v: Variant, t: str)', 'd.char is c and d.variant is v and d.type == t')
_F = "any(flaw(d, %s, %s, '%s') for d in %s['repertoire'])"
def flaws(c, v, res):
    return ' and '.join('implies(%s, %s)' % (w, _F % (c, v, t, res)) for w, t in (
        ('missing(lgr, %s)' % v, 'not-in-repertoire'), ('not missing(lgr, %s) and oneway(lgr, %s, %s)' % (v, c, v), 'missing-symmetric-variant'),
        ('not ign and not missing(lgr, %s) and not oneway(lgr, %s, %s) and unlike(lgr, %s, %s)' % (v, c, v, c, v), 'variant-contextual-rule-missing')))
REAL = "all(of(lgr, d.char, d.variant) and not symmetric(lgr, ign, d.char, d.variant) for d in result['repertoire'])"
SYM = "symmetric(lgr, ign, %s, %s)"
KEPT = ["forall('j:int', implies(0 <= j and j < len(pre(seq(result['repertoire']))), result['repertoire'][j] is pre(seq(result['repertoire']))[j]), pre(seq(result['repertoire']))[j])",
        "len(result['repertoire']) >= len(pre(seq(result['repertoire'])))"]
NONE = "success == (len(result['repertoire']) == 0)"
CHK = RESM + ['lgr.metadata.rfc7940_checks.test_result']
contract('lgr.validate.symmetry:check_symmetry', props=['C12'], opaque=True, shards=4, params={'lgr': 'LGR', 'options': 'opt[dict[str,bool]]'}, locals={'result.repertoire': 'list[Record]', 'reverse': 'list[Variant]'},
         lets={'ign': "is_some(options) and 'ignore_rules' in unopt(options) and unopt(options)['ignore_rules']"},
         requires=['rep_ok(lgr.repertoire)', 'rvars_ok(lgr.repertoire)', 'acceptable(lgr)', 'implies(is_some(options), unopt(options) is not lgr.metadata.rfc7940_checks.test_result)'],
         ensures=[('it succeeds exactly when every variant maps back', 'result[0] == ' + ALLV % SYM % ('c', 'v')),
                  ('every defect is reported', ALLV % flaws('c', 'v', 'result[1]')), ('only defects are reported', REAL.replace('result[', 'result[1][')),
                  ('nothing is reported exactly when it succeeds', "result[0] == (len(result[1]['repertoire']) == 0)")],
         modifies=['lgr.metadata.rfc7940_checks.test_result'],
         loops={0: {'inv': ['success == ' + DONE % SYM % ('items[j]', 'v'), DONE % flaws('items[j]', 'v', 'result'), REAL, NONE], 'modifies': CHK},
                1: {'inv': ["success == (entry_success and forall('j:int', implies(0 <= j and j < k, %s), items[j]))" % SYM % ('a', 'items[j]'),
                            "forall('j:int', implies(0 <= j and j < k, %s), items[j])" % flaws('a', 'items[j]', 'result'), REAL, NONE] + KEPT, 'modifies': CHK},
                2: {'inv': ['fresh(reverse)', "forall('r:Variant', (r in reverse) == (r in seq(items)[:k] and r.cp == a.cp), r in reverse)",
                            "forall('j:int', implies(0 <= j and j < k and items[j].cp == a.cp, items[j] in reverse), items[j])"], 'modifies': ['reverse'],
                    'after': ["all(b.cp[0] in lgr.repertoire._chardict and r.cp == a.cp for r in reverse)",
                              'implies(len(reverse) > 0, reverse[0].cp == a.cp)',
                              'oneway(lgr, a, b) == (len(reverse) == 0)', 'implies(given(b.when), unlike_when(lgr, a, b) == (not any(r.when == b.when for r in reverse)))',
                              'implies(given(b.not_when), unlike_not(lgr, a, b) == (not any(r.not_when == b.not_when for r in reverse)))']}})

# w, a variant of a variant v of c, is not a variant of c
predicate('hop(l: LGR, c: CharBase, v: Variant, w: Variant)', "v.cp[0] in l.repertoire._chardict and any(d.cp == v.cp and variant(d, w) for d in l.repertoire._chardict[v.cp[0]])")
predicate('has(c: CharBase, s: cps)', 's in c._variants and any(variant(c, x) for x in c._variants[s])')
predicate('lacks(c: CharBase, w: Variant)', 'w.cp != c.cp and not has(c, w.cp)')
predicate('closed(l: LGR, c: CharBase, v: Variant)', "v.cp[0] in l.repertoire._chardict and all(w.cp == c.cp or has(c, w.cp) for d in l.repertoire._chardict[v.cp[0]] if d.cp == v.cp for x in d._variants for w in d._variants[x] if variant(d, w))")
predicate('transitive(l: LGR, c: CharBase, v: Variant)', 'not missing(l, v) and closed(l, c, v)')
predicate('blames(d: Record, c: CharBase, v: Variant)', 'd.char is c and d.variant is v')
def gaps(c, v, res):
    return ("implies(missing(lgr, V), any(blames(d, C, V) for d in RES['repertoire'])) and implies(not missing(lgr, V), all(any(blames(d, C, w) for d in RES['repertoire'])"
            " for e in lgr.repertoire._chardict[V.cp[0]] if e.cp == V.cp for x in e._variants for w in e._variants[x] if variant(e, w) and lacks(C, w)))").replace('V', v).replace('C', c).replace('RES', res)
REALT = ("all(entry(lgr.repertoire, d.char) and not isinstance(d.char, RangeChar) and (variant(d.char, d.variant) and missing(lgr, d.variant)"
         " or lacks(d.char, d.variant) and exists('v:Variant', variant(d.char, v) and hop(lgr, d.char, v, d.variant), (variant(d.char, v), hop(lgr, d.char, v, d.variant)))) for d in result['repertoire'])")
TR = "transitive(lgr, %s, %s)"
contract('lgr.validate.transitivity:check_transitivity', props=['C12'], opaque=True, shards=4, params={'lgr': 'LGR', 'options': 'any'}, locals={'result.repertoire': 'list[Record]'},
         requires=['rep_ok(lgr.repertoire)', 'rvars_ok(lgr.repertoire)', 'acceptable(lgr)'],
         ensures=[('it succeeds exactly when every variant of a variant is a variant', 'result[0] == ' + ALLV % TR % ('c', 'v')),
                  ('every defect is reported', ALLV % gaps('c', 'v', 'result[1]')),
                  ('nothing is reported exactly when it succeeds', "result[0] == (len(result[1]['repertoire']) == 0)")],
         modifies=['lgr.metadata.rfc7940_checks.test_result'],
         loops={0: {'inv': ['success == ' + DONE % TR % ('items[j]', 'v'), DONE % gaps('items[j]', 'v', 'result'), NONE], 'modifies': CHK},
                1: {'inv': ["success == (entry_success and forall('j:int', implies(0 <= j and j < k, %s), items[j]))" % TR % ('a', 'items[j]'),
                            "forall('j:int', implies(0 <= j and j < k, %s), items[j])" % gaps('a', 'items[j]', 'result'), NONE] + KEPT, 'modifies': CHK},
                2: {'inv': ["success == (entry_success and forall('j:int', implies(0 <= j and j < k, has(a, items[j].cp)), items[j]))",
                            "forall('j:int', implies(0 <= j and j < k and lacks(a, items[j]), any(blames(d, a, items[j]) for d in result['repertoire'])), items[j])", NONE] + KEPT, 'modifies': CHK,
                    'after': ['all(w.cp != a.cp for w in items)']}})
