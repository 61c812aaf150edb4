"""C21: the verdicts of the review of a table against its reference."""
from .checks import *

side.fields.update({'ClassReport': {'class_name': 'str', 'idn_table_cp': 'set[int]', 'ref_lgr_cp': 'set[int]', 'idn_table_repertoire': 'set[int]', 'reference_lgr_repertoire': 'set[int]'},
                    'RepertoireReport': {'idn_table_char': 'opt[CharBase]', 'reference_lgr_char': 'opt[CharBase]', 'reference_lgr_rules_names': 'set[str]', 'unidb': 'any'},
                    'WholeLabelEvaluationRuleReport': {'idn_table_rule': 'opt[Rule]', 'reference_lgr_rule': 'opt[Rule]', 'idn_table_context': 'set[cps]', 'reference_lgr_context': 'set[cps]', 'idn_table_repertoire': 'set[cps]'},
                    'VariantData': {'_fwd': 'list[Variant]', '_rev': 'list[Variant]', 'in_lgr': 'bool'},
                    'VariantComparison': {'idn_var_data': 'VariantData', 'ref_var_data': 'VariantData'},
                    'VariantReport': {'idn_table_var_data': 'VariantData', 'reference_lgr_var_data': 'VariantData', 'idn_variant_set_missing': 'bool', 'reference_lgr_variant_set_missing': 'bool',
                                      'variant_compare': 'VariantComparison'}})
_R = 'lgr.tools.idn_review.'
define('meets(a, b)', "exists('x:int', x in a and x in b, x in a, x in b)")
define('extra_in(a, b, m)', "exists('x:int', x in a and x not in b and x in m, (x in a, x in m))")
define('within(a, b)', "forall('x:int', implies(x in a, x in b), x in a)")
contract(_R + 'classes:ClassReport.compute_result_and_remark', props=['C21'], returns='tup[int,str]', locals={'result': 'opt[int]'},
         requires=["exists('x:int', x in self.idn_table_cp) or meets(self.ref_lgr_cp, self.idn_table_repertoire)"],
         ensures=[('the verdict follows the table', '''result[0] == (
   IdnReviewResult.MATCH if within(self.idn_table_cp, self.ref_lgr_cp) and within(self.ref_lgr_cp, self.idn_table_cp) else (
   IdnReviewResult.MANUAL_CHECK if not exists('x:int', x in self.idn_table_cp) or not exists('x:int', x in self.ref_lgr_cp) else (
   IdnReviewResult.REVIEW if extra_in(self.idn_table_cp, self.ref_lgr_cp, self.reference_lgr_repertoire) or extra_in(self.ref_lgr_cp, self.idn_table_cp, self.idn_table_repertoire) else (
   IdnReviewResult.MANUAL_CHECK if not within(self.idn_table_cp, self.ref_lgr_cp) else IdnReviewResult.SUBSET))))''')])

define('cond(c)', "('when-' + unopt(c.when)) if given(c.when) else (('not-when-' + unopt(c.not_when)) if given(c.not_when) else '')")
predicate('tag_only(a: CharBase, b: CharBase)', "any(t not in b.tags and not starts(t, 'sc:') for t in a.tags)")
side.spec_funcs['filled'] = lambda sp, v: vbool(sp.ex.nonempty_set(sp.st, sp.ex.setz(sp.st, v)))
side.spec_funcs['text'] = lambda sp, v: sp.ex.to_str(sp.st, v)
side.spec_funcs['starts'] = lambda sp, a, b: vbool(strprefix(b.z, a.z))
contract(_R + 'repertoire:RepertoireReport.compare_char', props=['C21'], returns='tup[opt[int],str]', locals={'result': 'opt[int]', 'idn_rule_name': 'opt[str]', 'ref_rule_name': 'opt[str]'},
         requires=['implies(is_some(self.idn_table_char), len(unopt(self.idn_table_char).cp) > 0)', 'implies(is_some(self.reference_lgr_char), len(unopt(self.reference_lgr_char).cp) > 0)'],
         lets={'a': 'unopt(self.idn_table_char)', 'b': 'unopt(self.reference_lgr_char)'},
         ensures=[('an entry only the reference has is a subset', 'implies(not is_some(self.idn_table_char), result[0] == IdnReviewResult.SUBSET)'),
                  ('an entry only the table has is to be checked', 'implies(is_some(self.idn_table_char) and not is_some(self.reference_lgr_char), result[0] == IdnReviewResult.MANUAL_CHECK)'),
                  ('otherwise tags and conditions decide', '''implies(is_some(self.idn_table_char) and is_some(self.reference_lgr_char), result[0] == (
   IdnReviewResult.REVIEW if tag_only(b, a) or cond(a) != cond(b) and (cond(a) == '' or cond(b) != '') else (
   IdnReviewResult.NOTE if tag_only(a, b) or cond(a) != cond(b) else IdnReviewResult.MATCH)))''')],
         loops={0: {'inv': ["forall('t:str', (t in seq(items)) == (((t in a.tags) != (t in b.tags)) and not starts(t, 'sc:')), t in seq(items), t in a.tags, t in b.tags)",
                            "implies(is_some(result), unopt(result) == IdnReviewResult.NOTE)", "is_some(result) == (k > 0)",
                            "forall('j:int', implies(0 <= j and j < k, items[j] in a.tags and items[j] not in b.tags), items[j])"]}})

contract(_R + 'whole_label_evaluation_rules:WholeLabelEvaluationRuleReport.compare_wle', props=['C21'], returns='tup[int,str]',
         ensures=[('a rule only the reference has', '''implies(not is_some(self.idn_table_rule), result[0] == (IdnReviewResult.SUBSET if filled(self.reference_lgr_context)
   and not filled(self.idn_table_repertoire & self.reference_lgr_context) else IdnReviewResult.MANUAL_CHECK))'''),
                  ('a rule only the table has', 'implies(is_some(self.idn_table_rule) and not is_some(self.reference_lgr_rule), result[0] == IdnReviewResult.MANUAL_CHECK)'),
                  ('rules match when they read the same and apply to the same', '''implies(is_some(self.idn_table_rule) and is_some(self.reference_lgr_rule), result[0] == (IdnReviewResult.MATCH
   if text(unopt(self.idn_table_rule)) == text(unopt(self.reference_lgr_rule)) and not filled(self.idn_table_context ^ self.reference_lgr_context) else IdnReviewResult.MANUAL_CHECK))''')])

# ---- variants ------------------------------------------------------------------------------------------------
_V = _R + 'variant_sets:'
side.fields['VariantData'] = {'_fwd': 'list[Variant]', '_rev': 'list[Variant]', 'in_lgr': 'bool'}
predicate('when_of(l: list[Variant], w: str)', 'any(given(v.when) and unopt(v.when) == w for v in l)')
predicate('not_of(l: list[Variant], w: str)', 'any(given(v.not_when) and unopt(v.not_when) == w for v in l)')
predicate('has_when(l: list[Variant])', 'any(given(v.when) for v in l)')
predicate('has_not(l: list[Variant])', 'any(given(v.not_when) for v in l)')
for f, fld, of, has in (('_when', 'when', 'when_of', 'has_when'), ('_not_when', 'not_when', 'not_of', 'has_not')):
    for d, lst in (('', '_fwd'), ('_rev', '_rev')):
        contract(_V + 'VariantData.get%s%s' % (d, f), props=['C21'], opaque=True, returns='opt[str]',
                 ensures=[('none without such a condition', 'is_some(result) == %s(self.%s)' % (has, lst)),
                          ('otherwise a condition of one of the variants', 'implies(is_some(result), %s(self.%s, unopt(result)) and given(result))' % (of, lst))],
                 loops={0: {'inv': ["forall('j:int', implies(0 <= j and j < k, not given(items[j].%s)), items[j])" % fld]}})
FW = 'VariantComparison.Direction.FORWARD'
predicate('conds_say(i: list[Variant], t: list[Variant], r: int)', '''
   implies(not has_when(i) and not has_not(i) and not has_when(t) and not has_not(t), r == VariantComparison.IdnRuleCheck.MATCH)
   and implies((has_when(i) or has_not(i)) and not has_when(t) and not has_not(t), r == (VariantComparison.IdnRuleCheck.DIFFERENT if has_when(i) and has_not(i) else VariantComparison.IdnRuleCheck.LESS_CONSERVATIVE))
   and implies((has_when(t) or has_not(t)) and not has_when(i) and not has_not(i), r == (VariantComparison.IdnRuleCheck.DIFFERENT if has_when(t) and has_not(t) else VariantComparison.IdnRuleCheck.MISSING))
   and implies(has_when(i) and not has_not(i) and has_not(t) and not has_when(t) or has_when(t) and not has_not(t) and has_not(i) and not has_when(i), r == VariantComparison.IdnRuleCheck.DIFFERENT)
   and implies(has_when(i) and has_when(t) or has_not(i) and has_not(t), r == VariantComparison.IdnRuleCheck.MATCH or r == VariantComparison.IdnRuleCheck.DIFFERENT)
   and implies(r == VariantComparison.IdnRuleCheck.MATCH, has_when(i) == has_when(t) and has_not(i) == has_not(t)
       and implies(has_when(i), exists('w:str', when_of(i, w) and when_of(t, w), when_of(i, w))) and implies(has_not(i), exists('w:str', not_of(i, w) and not_of(t, w), not_of(i, w))))
   and implies(r != VariantComparison.IdnRuleCheck.MATCH and has_when(i) and has_when(t) and has_not(i) == has_not(t), exists('w:str, u:str', when_of(i, w) and when_of(t, u) and w != u, (when_of(i, w), when_of(t, u)))
       or exists('w:str, u:str', not_of(i, w) and not_of(t, u) and w != u, (not_of(i, w), not_of(t, u))))
   and implies(r != VariantComparison.IdnRuleCheck.MATCH and has_not(i) and has_not(t) and not has_when(i) and not has_when(t), exists('w:str, u:str', not_of(i, w) and not_of(t, u) and w != u, (not_of(i, w), not_of(t, u))))''')
define('rules_say(c, f, r)', 'implies(f, conds_say(c.idn_var_data._fwd, c.ref_var_data._fwd, r)) and implies(not f, conds_say(c.idn_var_data._rev, c.ref_var_data._rev, r))')
contract(_V + 'VariantComparison.check_rules', props=['C21'], opaque=True, params={'direction': 'int'}, returns='int',
         ensures=[('the conditions of both sides are compared', 'rules_say(self, direction == %s, result)' % FW),
                  'result == VariantComparison.IdnRuleCheck.MATCH or result == VariantComparison.IdnRuleCheck.LESS_CONSERVATIVE or result == VariantComparison.IdnRuleCheck.MISSING or result == VariantComparison.IdnRuleCheck.DIFFERENT'])

# the type of a variant with a condition of the kind, '' when there is none
for kind, cond in (('when', 'given(v.when)'), ('not_when', 'given(v.not_when)'), ('non_conditional', 'not given(v.when) and not given(v.not_when)')):
    predicate('kt_%s(l: list[Variant], t: opt[str])' % kind, "(any(%s and v.type == t for v in l)) or t == '' and not any(%s for v in l)" % (cond, cond))
    for d, lst in (('', '_fwd'), ('_rev', '_rev')):
        contract(_V + 'VariantData.get%s_%s_type' % (d, kind), props=['C21'], opaque=True, returns='opt[str]',
                 ensures=[('the type of a variant with this kind of condition', 'kt_%s(self.%s, result)' % (kind, lst))],
                 loops={0: {'inv': ["forall('j:int', implies(0 <= j and j < k, not (%s)), items[j])" % cond.replace('v.', 'items[j].')]}})
TC = 'VariantComparison.IdnTypeCheck.'
define('rank(x)', "0 if x == 'activated' else (1 if x == 'optionally-activated' else (2 if x == 'allocatable' else (3 if x == 'optionally-allocatable' else (4 if x == 'blocked' else 0 - 1))))")
define('versus(x, y)', "0 if x == '' or y == '' else (%sUNKNOWN if rank(x) < 0 or rank(y) < 0 else (%sLESS_CONSERVATIVE if rank(x) < rank(y) else %sMORE_CONSERVATIVE))" % (TC, TC, TC))
define('both(p, q)', "q if p == 0 else (p if q == 0 or p == q else %sUNKNOWN)" % TC)
predicate('types_say(i: list[Variant], t: list[Variant], r: opt[int])', '''exists('a:opt[str], b:opt[str], c:opt[str], x:opt[str], y:opt[str], z:opt[str]',
   kt_when(i, a) and kt_not_when(i, b) and kt_non_conditional(i, c) and kt_when(t, x) and kt_not_when(t, y) and kt_non_conditional(t, z)
   and (r == %sMATCH if a == x and b == y and c == z else let('w', both(both(versus(a, x), versus(b, y)), versus(c, z)), (not is_some(r)) if w == 0 else r == w)),
   (kt_when(i, a), kt_not_when(i, b), kt_non_conditional(i, c), kt_when(t, x), kt_not_when(t, y), kt_non_conditional(t, z)))''' % TC)
contract(_V + 'VariantComparison.check_type', props=['C21'], opaque=True, params={'direction': 'int'}, returns='opt[int]', locals={'result': 'opt[int]'},
         ensures=[('the types of both sides are compared', 'implies(direction == %s, types_say(self.idn_var_data._fwd, self.ref_var_data._fwd, result)) and implies(direction != %s, types_say(self.idn_var_data._rev, self.ref_var_data._rev, result))' % (FW, FW))])

RC = 'VariantComparison.IdnRuleCheck.'
define('shown(r, t)', '''IdnReviewResult.REVIEW if r == {R}LESS_CONSERVATIVE or (is_some(t) and (unopt(t) == {T}LESS_CONSERVATIVE or unopt(t) == {T}UNKNOWN)) else (
   IdnReviewResult.MANUAL_CHECK if r == {R}MISSING or r == {R}DIFFERENT else (
   IdnReviewResult.NOTE if is_some(t) and unopt(t) == {T}MORE_CONSERVATIVE else IdnReviewResult.MATCH))'''.format(R=RC, T=TC))
_DIR = '''exists('r:int, t:opt[int]', conds_say(i.%s, f.%s, r) and types_say(i.%s, f.%s, t) and result[0] == (shown(r, t)).name, (conds_say(i.%s, f.%s, r), types_say(i.%s, f.%s, t)))'''
contract(_V + 'VariantReport.get_result_and_remark', props=['C21'], params={'direction': 'int', 'in_idn_repertoire': 'bool'}, returns='tup[str,str]',
         requires=['self.variant_compare.idn_var_data is self.idn_table_var_data', 'self.variant_compare.ref_var_data is self.reference_lgr_var_data'],
         lets={'i': 'self.idn_table_var_data', 'f': 'self.reference_lgr_var_data'},
         ensures=[('a variant set only the reference has', 'implies(self.idn_variant_set_missing, result[0] == (IdnReviewResult.REVIEW).name)'),
                  ('a variant set only the table has', 'implies(not self.idn_variant_set_missing and self.reference_lgr_variant_set_missing, result[0] == (IdnReviewResult.MANUAL_CHECK).name)'),
                  ('a variant only the reference has', 'implies(not self.idn_variant_set_missing and not self.reference_lgr_variant_set_missing and len(i._fwd) == 0, result[0] == (IdnReviewResult.REVIEW if in_idn_repertoire else IdnReviewResult.NOTE).name)'),
                  ('a variant only the table has', 'implies(not self.idn_variant_set_missing and not self.reference_lgr_variant_set_missing and len(i._fwd) > 0 and len(f._fwd) == 0, result[0] == (IdnReviewResult.MANUAL_CHECK).name)'),
                  ('otherwise conditions and types decide', 'implies(not self.idn_variant_set_missing and not self.reference_lgr_variant_set_missing and len(i._fwd) > 0 and len(f._fwd) > 0,'
                   ' implies(direction == %s, %s) and implies(direction != %s, %s))' % (FW, _DIR % (('_fwd',) * 8), FW, _DIR % (('_rev',) * 8)))])
for f, lst in (('has_variant', '_fwd'), ('has_reverse', '_rev')):
    contract(_V + 'VariantData.' + f, props=['C21'], opaque=True, returns='bool', ensures=[('whether there is one', 'result == (len(self.%s) > 0)' % lst)])
