"""C09: the result of testing a label and of computing its dispositions."""
from .segments import *
from .insert import *

# a reflexive mapping of an entry that fits at a place of the label gives the type t
predicate('mapped_as(l: LGR, c: CharBase, label: cps, i: int, t: opt[str])', "exists('v:Variant', variant(c, v) and v.cp == c.cp and permitted(l, v, label, i) and v.type == t, variant(c, v))")
predicate('mapped(l: LGR, c: CharBase, label: cps, i: int)', "exists('v:Variant', variant(c, v) and v.cp == c.cp and permitted(l, v, label, i), variant(c, v))")
predicate('gives_type(l: LGR, label: cps, i: int, t: opt[str])', "exists('c:CharBase', fit(l, c, label, i) and mapped_as(l, c, label, i, t), fit(l, c, label, i))")
predicate('vconds_ok(l: LGR)', "forall('c:CharBase, v:Variant', implies(entry(l.repertoire, c) and variant(c, v), known_c(l, v)), (entry(l.repertoire, c), variant(c, v)))")
predicate('types_of(l: LGR, label: cps, on: bool, types: fset[opt[str]])', "forall('t:opt[str]', (t in types) == (on and exists('i:int', 0 <= i and i < len(label) and gives_type(l, label, i, t), gives_type(l, label, i, t))), t in types)")
predicate('all_mapped(l: LGR, label: cps)', "forall('c:CharBase, i:int', implies(0 <= i and i < len(label) and fit(l, c, label, i), mapped(l, c, label, i)), fit(l, c, label, i))")
DISP_OK = LGR_OK + ['rvars_ok(self.repertoire)', 'vconds_ok(self)', 'all(act_ok(a, self.rules_lookup) for a in self.actions)']
contract('lgr.core:LGR._test_label_disposition', props=['C09'], opaque=True, params={'label': 'cps', 'apply_reflexive_mapping': 'bool'}, returns='tup[opt[str],int]',
         locals={'disp_set': 'set[opt[str]]'},
         requires=DISP_OK,
         ensures=['result[1] >= 0', ('the actions decide on the types of the reflexive mappings in use', """exists('t:fset[opt[str]], o:bool', old(types_of(self, label, apply_reflexive_mapping, t))
      and o == (apply_reflexive_mapping and filled(t) and old(all_mapped(self, label))) and decided(self, label, t, o, result[0], result[1]), decided(self, label, t, o, result[0], result[1]))""")],
         loops={0: {'inv': ["forall('t:opt[str]', (t in disp_set) == (apply_reflexive_mapping and exists('j:int', 0 <= j and j < k and old(gives_type(self, label, j, t)), old(gives_type(self, label, j, t)))), t in disp_set)",
                            "implies(only_variants, forall('c:CharBase, j:int', implies(0 <= j and j < k and fit(self, c, label, j), mapped(self, c, label, j)), fit(self, c, label, j)))",
                            "implies(apply_reflexive_mapping and not only_variants, exists('c:CharBase, j:int', 0 <= j and j < k and fit(self, c, label, j) and not mapped(self, c, label, j), fit(self, c, label, j)))",
                            'fresh(disp_set)'], 'modifies': ['disp_set']},
                1: {'inv': ["forall('t:opt[str]', (t in disp_set) == (pre(t in disp_set) or apply_reflexive_mapping and exists('j:int', 0 <= j and j < k and fit(self, items[j], label, i) and mapped_as(self, items[j], label, i, t), items[j])), t in disp_set, pre(t in disp_set))",
                            "implies(only_variants, entry_only_variants and forall('j:int', implies(0 <= j and j < k and fit(self, items[j], label, i), mapped(self, items[j], label, i)), items[j]))",
                            "implies(apply_reflexive_mapping and entry_only_variants and not only_variants, exists('j:int', 0 <= j and j < k and fit(self, items[j], label, i) and not mapped(self, items[j], label, i), items[j]))"],
                    'after': ["forall('t:opt[str]', (t in disp_set) == (pre(t in disp_set) or apply_reflexive_mapping and old(gives_type(self, label, i, t))), t in disp_set, pre(t in disp_set))",
                              "forall('c:CharBase', implies(fit(self, c, label, i), c in items), fit(self, c, label, i))"],
                    'modifies': ['disp_set']},
                2: {'inv': ["forall('t:opt[str]', (t in disp_set) == (pre(t in disp_set) or exists('j:int', 0 <= j and j < k and permitted(self, items[j], label, i) and items[j].type == t, items[j])), t in disp_set, pre(t in disp_set))",
                            "is_variant == exists('j:int', 0 <= j and j < k and permitted(self, items[j], label, i), items[j])"],
                    'modifies': ['disp_set']}})

# logging handlers and the text they collect are outside the properties
side.ext['logging.StreamHandler'] = lambda ex, st, args, kw: [(st, 'ok', V(ANY, ex.fresh('handler', U), {'sink': True}))]
side.ext['io.StringIO'] = lambda ex, st, args, kw: [(st, 'ok', V(ANY, ex.fresh('buffer', U), {'text': True}))]
side.externs[('any', 'getvalue')] = lambda ex, st, args, kw: [(st, 'ok', V(STR, ex.fresh('logtext', sortof(STR))))]

_REP = 'list[tup[int,opt[list[opt[str]]]]]'
define('is_invalid(d)', "is_some(d) and unopt(d) == 'invalid'")
contract('lgr.core:LGR.test_label_eligible', props=['C09'], opaque=True, shards=2,
         params={'label': 'cps', 'is_variant': 'bool', 'collect_log': 'bool', 'generate_chars': 'bool'},
         requires=DISP_OK, raises={'LGRApiInvalidParameter': 'len(label) == 0'},
         cases=[('generate_chars', 'tup[bool,cps,%s,opt[str],int,str,list[CharBase]]' % 'list[tup[int,opt[list[opt[str]]]]]', []),
                ('not generate_chars', 'tup[bool,cps,%s,opt[str],int,str]' % _REP, [])],
         ensures=[('eligible exactly when the disposition is not invalid', 'result[0] == (not is_invalid(result[3]))'),
                  ('an eligible label is valid as a whole', 'implies(result[0], result[1] == label and len(result[2]) == 0)'),
                  ('the index is -1 exactly when a code point is reported', '(result[4] == -1) == (len(result[2]) > 0)'),
                  ('what is reported stands where no entry fits', 'all(old(reported(self, label, p[0])) for p in result[2])'),
                  ('otherwise the actions decide', """implies(result[4] != -1, exists('t:fset[opt[str]], o:bool', old(types_of(self, label, not is_variant, t))
      and o == (not is_variant and filled(t) and old(all_mapped(self, label))) and decided(self, label, t, o, result[3], result[4]), decided(self, label, t, o, result[3], result[4])))""")])

# the permutations themselves are the subject of C10
VSET = 'seq[tup[cps,fset[opt[str]],bool,list[any]]]'
predicate('nonempty_vars(l: LGR)', "forall('c:CharBase, v:Variant', implies(entry(l.repertoire, c) and variant(c, v), len(v.cp) > 0), (entry(l.repertoire, c), variant(c, v)))")
contract('lgr.core:LGR._generate_label_variants', trusted=True, opaque=True,
         params={'label': 'cps', 'orig_label': 'opt[cps]', 'label_prefix': 'opt[cps]', 'has_variant': 'bool', 'mixed_script_filter': 'any', 'hide_mixed_script_variants': 'bool'},
         returns=VSET, requires=DISP_OK + ['nonempty_vars(self)'],
         ensures=[('no variant is empty', 'all(len(r[0]) > 0 for r in result)')])
_LD = 'tup[cps,opt[str],opt[%s],int,fset[opt[str]],str]' % _REP
contract('lgr.core:LGR.compute_label_disposition', props=['C09'], opaque=True, shards=4,
         params={'label': 'cps', 'include_invalid': 'bool', 'collect_log': 'bool', 'hide_mixed_script_variants': 'bool', 'with_labels': 'opt[list[cps]]', 'generate_chars': 'bool'},
         returns='seq[%s]' % _LD, locals={'already_handled': 'set[cps]', 'original_label': 'opt[%s]' % _LD}, requires=DISP_OK + ['nonempty_vars(self)', 'not generate_chars'],
         raises={'LGRApiException': 'self._unicode_database is None or len(label) > 63 or len(label) == 0'},
         ensures=[('the original label comes last', 'len(result) > 0 and result[len(result) - 1][0] == label'),
                  ('each label is listed once', "forall('i:int, j:int', implies(0 <= i and i < j and j < len(result), result[i][0] != result[j][0]), (result[i], result[j]))"),
                  ('no variant is invalid unless asked for', "forall('i:int', implies(0 <= i and i < len(result) - 1 and not include_invalid, not is_invalid(result[i][1])), result[i])"),
                  ('only labels asked for', "forall('i:int', implies(0 <= i and i < len(result) - 1 and is_some(with_labels) and len(unopt(with_labels)) > 0, result[i][0] in unopt(with_labels)), result[i])")],
         loops={0: {'inv': ["all(r[0] in already_handled and r[0] != label for r in yielded)",
                            "forall('i:int, j:int', implies(0 <= i and i < j and j < len(yielded), yielded[i][0] != yielded[j][0]), (yielded[i], yielded[j]))",
                            "implies(not include_invalid, all(not is_invalid(r[1]) for r in yielded))",
                            "implies(is_some(with_labels) and len(unopt(with_labels)) > 0, all(r[0] in unopt(with_labels) for r in yielded))",
                            "implies(is_some(original_label), unopt(original_label)[0] == label and len(label) > 0)",
                            'fresh(yielded) and fresh(already_handled)'],
                    'modifies': ['yielded', 'already_handled']}})

contract('lgr.core:LGR.compute_label_disposition_summary', props=['C09'],
         params={'label': 'cps', 'include_invalid': 'bool', 'hide_mixed_script_variants': 'bool'},
         returns='tup[dict[opt[str],int],seq[%s]]' % _LD, requires=DISP_OK + ['nonempty_vars(self)'],
         raises={'LGRApiException': 'self._unicode_database is None or len(label) > 63 or len(label) == 0'},
         ensures=[('the original label comes last', 'len(result[1]) > 0 and result[1][len(result[1]) - 1][0] == label'),
                  ('each disposition listed is counted', 'all(r[1] in result[0] and result[0][r[1]] >= 1 for r in result[1])'),
                  ('only those', "forall('d:opt[str]', implies(d in result[0], any(r[1] == d for r in result[1])), d in result[0])"),
                  ('one that is listed twice counts at least two', """forall('i:int, j:int', implies(0 <= i and i < j and j < len(result[1]) and result[1][i][1] == result[1][j][1], result[0][result[1][i][1]] > 1),
                      (result[1][i], result[1][j]))"""),
                  ('a count above one is of several', """forall('d:opt[str]', implies(d in result[0] and result[0][d] > 1, exists('i:int, j:int', 0 <= i and i < j and j < len(result[1])
                      and result[1][i][1] == d and result[1][j][1] == d, (result[1][i], result[1][j]))), d in result[0])""")])
