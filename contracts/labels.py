from .variants import *

side.fields.update({
    'LGR': {'name': 'str', 'repertoire': 'Repertoire', '_unicode_database': 'any', 'raise_on_invalid_property': 'bool', 'types': 'set[opt[str]]',
            'rules': 'list[str]', 'rules_lookup': 'dict[str,Rule]', 'rules_xml': 'list[str]', 'classes': 'list[str]',
            'classes_lookup': 'dict[str,Class]', 'classes_xml': 'list[str]', 'actions': 'list[Action]', 'actions_xml': 'list[str]'},
    'Action': {'disp': 'str', 'comment': 'opt[str]', 'references': 'list[str]', 'match': 'opt[str]', 'not_match': 'opt[str]',
               'any_variant': 'opt[fset[str]]', 'all_variants': 'opt[fset[str]]', 'only_variants': 'opt[fset[str]]'},
    'Rule': {'name': 'str'},
})

# ---- rules: an arbitrary function of the rule, the label, the anchored code points and the position ----------
_holds = z3.Function('rule_holds', Ref, SeqTheory.of(Int).sort, SeqTheory.of(Int).sort, Int, Bool)


def rule_holds(sp, rule, label, anchor, index):
    ex = sp.ex
    if rule.ty.k == 'opt':
        rule = V(rule.ty.a[0], unopt_z(rule.ty, rule.z))

    def cps(v):
        if v.ty.k == 'none':
            return SeqTheory.of(Int).none
        if v.ty.k == 'opt':
            return v.z
        if v.ty.k == 'tup':
            return ex.toz(v, CPS)
        return ex.content(sp.st, v)[0]
    return vbool(_holds(rule.z, cps(label), cps(anchor), index.z))


side.spec_funcs['rule_holds'] = rule_holds
side.spec_consts['NOCPS'] = NONEV

contract('lgr.rule:Rule.matches', trusted=True, opaque=True,
         params={'label': 'cps', 'rules_lookup': 'dict[str,Rule]', 'classes_lookup': 'dict[str,Class]', 'unicode_database': 'any', 'anchor': 'opt[cps]',
                 'index': 'int'}, returns='bool',
         ensures=['result == rule_holds(self, label, anchor, index)'])

# a code point or variant c with conditions w, n is permitted at index i of a label
define('ctx(l, w, n, cp, label, i)', 'rule_holds(l.rules_lookup[unopt(w)], label, cp, i) if is_some(w) else'
       ' ((not rule_holds(l.rules_lookup[unopt(n)], label, cp, i)) if is_some(n) else True)')
define('permitted(l, c, label, i)', 'ctx(l, c.when, c.not_when, c.cp, label, i)')
define('known(l, w)', 'implies(is_some(w), unopt(w) in l.rules_lookup)')
define('known_c(l, c)', 'known(l, c.when) and (is_some(c.when) or known(l, c.not_when))')

contract('lgr.core:LGR._test_context_rules', props=['C07'], opaque=True,
         params={'char': ['CharBase', 'Variant'], 'orig_label': 'cps', 'index': 'int'}, returns='bool',
         requires=['known_c(self, char)'],
         ensures=[('a condition holds exactly when the rule says so', 'result == permitted(self, char, orig_label, index)')])

contract('lgr.action:Action.__init__', props=['C08'],
         params={'disp': 'str', 'comment': 'opt[str]', 'ref': 'opt[list[str]]', 'match': 'opt[str]', 'not_match': 'opt[str]',
                 'any_variant': 'opt[list[str]]', 'all_variants': 'opt[list[str]]', 'only_variants': 'opt[list[str]]'},
         raises={'LGRFormatException': 'is_some(match) and is_some(not_match)'},
         ensures=[('the conditions are those given', 'self.disp == disp and self.match == match and self.not_match == not_match'),
                  ('no action has both conditions', 'not (is_some(self.match) and is_some(self.not_match))'),
                  ('types', 'is_some(self.any_variant) == (is_some(any_variant) and len(any_variant) > 0) and implies(is_some(self.any_variant), unopt(self.any_variant) == setof(unopt(any_variant)))'),
                  ('types', 'is_some(self.all_variants) == (is_some(all_variants) and len(all_variants) > 0) and implies(is_some(self.all_variants), unopt(self.all_variants) == setof(unopt(all_variants)))'),
                  ('types', 'is_some(self.only_variants) == (is_some(only_variants) and len(only_variants) > 0) and implies(is_some(self.only_variants), unopt(self.only_variants) == setof(unopt(only_variants)))'),
                  ],
         modifies=['fields(self)'], exc_modifies=['fields(self)'])

# the decision of one action
define('subset(a, b)', "forall('t:str', implies(t in a, t in b))")
predicate('act_rule(a: Action, label: cps, rl: dict[str,Rule])', '''
   rule_holds(rl[unopt(a.match)], label, None, 0) if is_some(a.match) else
   ((not rule_holds(rl[unopt(a.not_match)], label, None, 0)) if is_some(a.not_match) else True)''')
define('act_types(a, types, only)', '''
   any(t in types for t in unopt(a.any_variant)) if is_some(a.any_variant) else (
   (exists('t:opt[str]', t in types) and forall('t:opt[str]', implies(t in types, t in unopt(a.all_variants)))) if is_some(a.all_variants) else (
   (only and exists('t:opt[str]', t in types) and forall('t:opt[str]', implies(t in types, t in unopt(a.only_variants)))) if is_some(a.only_variants) else True))''')
predicate('fires(a: Action, label: cps, types: fset[opt[str]], only: bool, rl: dict[str,Rule])', 'act_rule(a, label, rl) and act_types(a, types, only)')
define('act_ok(a, rl)', 'implies(is_some(a.match), unopt(a.match) in rl) and implies(not is_some(a.match) and is_some(a.not_match), unopt(a.not_match) in rl)')

contract('lgr.action:Action.apply', props=['C08'], opaque=True,
         params={'label': 'cps', 'disp_set': ['set[opt[str]]', 'fset[opt[str]]'], 'only_variants': 'bool', 'rules_lookup': 'dict[str,Rule]', 'classes_lookup': 'dict[str,Class]',
                 'unicode_database': 'any'}, returns='opt[str]',
         requires=['act_ok(self, rules_lookup)'],
         ensures=[('it gives its disposition exactly when its conditions hold',
                   'is_some(result) == fires(self, label, setof(disp_set), only_variants, rules_lookup) and implies(is_some(result), unopt(result) == self.disp)')])

define('acts_ok(l)', 'all(act_ok(a, l.rules_lookup) for a in l.effective_actions)')
# what the actions decide for a label made with these types
_D1 = """implies(0 <= idx and idx < len(l.actions), fires(l.actions[idx], label, types, only, l.rules_lookup)
   and is_some(disp) and unopt(disp) == l.actions[idx].disp)"""
_D2 = "forall('i:int', implies(0 <= i and i < len(l.actions) and (i < idx or idx < 0), not fires(l.actions[i], label, types, only, l.rules_lookup)), seq(l.actions)[i])"
_D3 = """implies(not (0 <= idx and idx < len(l.actions)), is_some(disp) and let('t', types, let('n', len(l.actions),
      (unopt(disp) == 'invalid' and idx == n) if 'invalid' in t else (
      (unopt(disp) == 'blocked' and idx == n + 1) if 'blocked' in t else (
      (unopt(disp) == 'allocatable' and idx == n + 2) if 'allocatable' in t else (
      (unopt(disp) == 'activated' and idx == n + 3) if (exists('x:opt[str]', x in t) and forall('x:opt[str]', implies(x in t, is_some(x) and unopt(x) == 'activated')))
      else (unopt(disp) == 'valid' and idx == n + 4)))))))"""
predicate('decided(l: LGR, label: cps, types: fset[opt[str]], only: bool, disp: opt[str], idx: int)', 'implies(idx >= 0, idx < len(l.actions) + 5) and %s and %s and %s' % (_D1, _D2, _D3))
for _n, _t in (('_d1', _D1), ('_d2', _D2), ('_d3', _D3)):
    define(_n + '(l, label, types, only, disp, idx)', _t)
_A = '(self, label, setof(disp_set), only_variants, result[0], result[1])'
contract('lgr.core:LGR._apply_actions', props=['C08'], shards=4, timeout=15000, opaque=True,
         params={'label': 'cps', 'disp_set': ['set[opt[str]]', 'fset[opt[str]]'], 'only_variants': 'bool'}, returns='tup[opt[str],int]',
         requires=['all(act_ok(a, self.rules_lookup) for a in self.actions)'],
         ensures=[('the index is that of the first action that fires', 'implies(result[1] >= 0, result[1] < len(self.actions) + 5)'),
                  ('the first action of the rules that fires decides', '_d1' + _A), ('no action before it fires', '_d2' + _A),
                  ('when none of the rules fires the default actions decide', '_d3' + _A), 'result[1] >= 0',
                  ('together this is the decision', 'decided' + _A)])
