"""C11: index labels: segmentations of a label and the least member of its variant set."""
from .permute import *



define('or_empty(p)', 'unopt(p) if is_some(p) else label[:0]')
contract('lgr.core:LGR._generate_label_partitions', props=['C11'], opaque=True, params={'label': 'cps', 'prefix': 'opt[cps]'}, returns='list[list[CharBase]]',
         locals={'all_partitions': 'list[list[CharBase]]', 'chars': 'list[CharBase]'}, lets={'P': 'unopt(prefix) if is_some(prefix) else label[:0]'},
         requires=LGR_OK + ['len(label) > 0'], decreases='len(label)',
         ensures=[('every division found is one', 'all(part(self, seq(p), P, label) for p in result)'),
                  ('of entries of the repertoire', 'all(all(entry(self.repertoire, c) for c in p) for p in result)'),
                  ('every division is found', "forall('s:seq[CharBase]', implies(part(self, s, P, label), exists('i:int', 0 <= i and i < len(result) and same(result[i], s), seq(result[i]))), part(self, s, P, label))"),
                  ('each once', "forall('i:int, j:int', implies(0 <= i and i < j and j < len(result), not same(result[i], result[j])), (result[i], result[j]))")],
         loops={0: {'inv': ['all(all(entry(self.repertoire, c) for c in p) for p in all_partitions)', 'all(part(self, seq(p), P, label) and seq(p)[0] in seq(items)[:k] for p in all_partitions)',
                            "forall('s:seq[CharBase]', implies(part(self, s, P, label) and s[0] in seq(items)[:k], exists('i:int', 0 <= i and i < len(all_partitions) and same(all_partitions[i], s), seq(all_partitions[i]))), part(self, s, P, label))",
                            "forall('i:int, j:int', implies(0 <= i and i < j and j < len(all_partitions), not same(all_partitions[i], all_partitions[j])), (all_partitions[i], all_partitions[j]))",
                            'fresh(all_partitions)'], 'modifies': ['all_partitions']},
                1: {'inv': ['len(all_partitions) == len(pre(seq(all_partitions))) + k',
                            "forall('i:int', implies(0 <= i and i < len(pre(seq(all_partitions))), all_partitions[i] is pre(seq(all_partitions))[i]), all_partitions[i], pre(seq(all_partitions))[i])",
                            "forall('j:int', implies(0 <= j and j < k, same(all_partitions[len(pre(seq(all_partitions))) + j], (char,) + seq(items[j]))), items[j])",
                            "forall('i:int', implies(len(pre(seq(all_partitions))) <= i and i < len(all_partitions), same(all_partitions[i], (char,) + seq(items[i - len(pre(seq(all_partitions)))]))), all_partitions[i])"],
                    'after': ["forall('t:seq[CharBase]', implies(part(self, t, P + char.cp, label[len(char.cp):]), part(self, (char,) + t, P, label)), part(self, t, P + char.cp, label[len(char.cp):]))",
                              "all(part(self, seq(p), P, label) for p in all_partitions)",
                              "forall('i:int', implies(len(pre(seq(all_partitions))) <= i and i < len(all_partitions), seq(all_partitions[i])[0] is char), all_partitions[i])",
                              "forall('s:seq[CharBase]', implies(part(self, s, P, label) and s[0] is char, len(s) > 1 and part(self, s[1:], P + char.cp, label[len(char.cp):]) and same(s, (char,) + s[1:])), part(self, s, P, label))",
                              "forall('s:seq[CharBase]', implies(part(self, s, P, label) and s[0] is char, exists('j:int', 0 <= j and j < len(items) and same(items[j], s[1:]), items[j])), part(self, s, P, label))",
                              "forall('s:seq[CharBase]', implies(part(self, s, P, label) and s[0] is char, exists('i:int', 0 <= i and i < len(all_partitions) and same(all_partitions[i], s), seq(all_partitions[i]))), part(self, s, P, label))"],
                    'modifies': ['all_partitions']}})


# the code points of a list of entries, and of a list of sequences, one after the other (defined by recursion on the list)
_R, _I = SeqTheory.of(Ref), SeqTheory.of(Int)
_P = SeqTheory.of(_I.sort)
_flat = z3.Function('flat', z3.ArraySort(Ref, _I.sort), _R.sort, _I.sort)
_joined = z3.Function('joined', _P.sort, _I.sort)
_h, _s, _k = z3.Const('h', z3.ArraySort(Ref, _I.sort)), z3.Const('s', _R.sort), z3.Int('k')
_p, _m = z3.Const('p', _P.sort), z3.Const('m', _I.sort)
axiom('fn_flat', z3.ForAll([_h, _s], _flat(_h, _s) != _I.none, patterns=[_flat(_h, _s)]),
      z3.ForAll([_h, _s], z3.Implies(_R.len(_s) == 0, _flat(_h, _s) == _I.empty), patterns=[_flat(_h, _s)]),
      z3.ForAll([_h, _s, _k], z3.Implies(z3.And(0 <= _k, _k < _R.len(_s)), _flat(_h, _R.drop(_s, _k)) == _I.cat(_h[_R.at(_s, _k)], _flat(_h, _R.drop(_s, _k + 1)))),
                patterns=[z3.MultiPattern(_flat(_h, _R.drop(_s, _k)), _R.at(_s, _k))]),
      z3.ForAll([_h, _s, _k], z3.Implies(z3.And(0 <= _k, _k < _R.len(_s)), _flat(_h, _R.take(_s, _k + 1)) == _I.cat(_flat(_h, _R.take(_s, _k)), _h[_R.at(_s, _k)])),
                patterns=[z3.MultiPattern(_flat(_h, _R.take(_s, _k)), _R.at(_s, _k))]))
axiom('fn_joined', _joined(_P.empty) == _I.empty, z3.ForAll([_p], _joined(_p) != _I.none, patterns=[_joined(_p)]),
      z3.ForAll([_p, _m], z3.Implies(z3.And(_p != _P.none, _m != _I.none), _joined(_P.cat(_p, _P.unit(_m))) == _I.cat(_joined(_p), _m)), patterns=[_I.cat(_joined(_p), _m)]))


def _flattened(ex, st, r, src, part, elem):
    h = ex.h(st, ('F', 'CharBase', 'cp'))
    if z3.is_app(part) and part.decl().kind() == z3.Z3_OP_SELECT and part.arg(1).eq(elem) and part.arg(0).eq(h):
        st.fact(r == _flat(h, src))


side.flattened = _flattened
side.spec_funcs['flat'] = lambda sp, v: V(CPS, _flat(sp.ex.h(sp.st, ('F', 'CharBase', 'cp')), sp.ex.content(sp.st, v)[0]))
side.spec_funcs['joined'] = lambda sp, v: V(CPS, _joined(sp.ex.content(sp.st, v)[0]))

# q may stand for entry c between prefix and suffix; m is the least that may
predicate('cand(l: LGR, c: CharBase, q: cps, prefix: cps, suffix: cps)', """q == c.cp or exists('v:Variant', variant(c, v) and v.cp == q and permitted(l, v, prefix + v.cp + suffix, len(prefix)), variant(c, v))""")
predicate('least(l: LGR, c: CharBase, m: cps, prefix: cps, suffix: cps)', """cand(l, c, m, prefix, suffix) and forall('q:cps', implies(cand(l, c, q, prefix, suffix), m <= q), cand(l, c, q, prefix, suffix))""")
# r is the least label of the variant set of the division s
predicate('index_of(l: LGR, s: seq[CharBase], r: cps)', "exists('p:seq[cps]', len(p) == len(s) and joined(p) == r and forall('j:int', implies(0 <= j and j < len(s), least(l, s[j], p[j], flat(s[:j]), flat(s[j + 1:]))), p[j], s[j]), joined(p))")
_PIECES = "len(p) == %s and joined(p) == %s and forall('j:int', implies(0 <= j and j < %s, least(self, chars[j], p[j], flat(seq(chars)[:j]), flat(seq(chars)[j + 1:]))), p[j], chars[j])"
contract('lgr.core:LGR._generate_index_label_on_partition', props=['C11'], opaque=True, params={'chars': 'list[CharBase]'}, returns='cps',
         locals={'index_label': 'list[int]', 'ids': 'list[list[int]]'},
         requires=['rep_ok(self.repertoire)', 'rvars_ok(self.repertoire)', 'vconds_ok(self)', 'all(entry(self.repertoire, c) for c in chars)'],
         ensures=[('each entry is replaced by the least that may stand there', "exists('p:seq[cps]', %s, joined(p))" % (_PIECES % ('len(chars)', 'result', 'len(chars)')))],
         loops={0: {'inv': ["exists('p:seq[cps]', %s, joined(p))" % (_PIECES % ('k', 'seq(index_label)', 'k')), 'idx == len(prefix)', 'prefix == flat(seq(chars)[:k])', 'suffix == flat(seq(chars)[k:])', 'fresh(index_label)'],
                    'cuts': ["exists('i:int', 0 <= i and i < len(ids) and seq(index_label) == begin(seq(index_label)) + seq(ids[i]) and all(seq(ids[i]) <= seq(x) for x in ids), ids[i])",
                             "forall('i:int', implies(0 <= i and i < len(ids) and all(seq(ids[i]) <= seq(x) for x in ids), least(self, char, seq(ids[i]), begin(prefix), suffix)), ids[i])",
                             "exists('i:int', 0 <= i and i < len(ids) and seq(index_label) == begin(seq(index_label)) + seq(ids[i]) and least(self, char, seq(ids[i]), begin(prefix), suffix), ids[i])",
                             'prefix == flat(seq(chars)[:k + 1])', 'suffix == flat(seq(chars)[k + 1:])',
                             "exists('m:cps', seq(index_label) == begin(seq(index_label)) + m and least(self, chars[k], m, flat(seq(chars)[:k]), flat(seq(chars)[k + 1:])), least(self, chars[k], m, flat(seq(chars)[:k]), flat(seq(chars)[k + 1:])))"],
                    'modifies': ['index_label']},
                1: {'inv': ['all(cand(self, char, seq(x), prefix, suffix) for x in ids)', 'len(ids) > 0 and seq(ids[0]) == char.cp',
                            "forall('j:int', implies(0 <= j and j < k and permitted(self, items[j], prefix + items[j].cp + suffix, idx), any(seq(x) == items[j].cp for x in ids)), items[j])",
                            'fresh(ids)', 'all(x is not index_label for x in ids)'],
                    'after': ["forall('q:cps', implies(cand(self, char, q, prefix, suffix), any(seq(x) == q for x in ids)), cand(self, char, q, prefix, suffix))"],
                    'modifies': ['ids']}})


contract('lgr.core:LGR.generate_index_label', props=['C11'], opaque=True, params={'label': 'cps', 'max_recursion': 'int'}, returns='cps',
         locals={'indexes': 'list[cps]'}, requires=LGR_OK + ['rvars_ok(self.repertoire)', 'vconds_ok(self)'], decreases='max_recursion if max_recursion > 0 else 0',
         may_raise={'NotInLGR': "len(label) > 0"},
         ensures_exc={'NotInLGR': "exists('c:int', reported(self, label, c), reported(self, label, c))"},
         ensures=[('the index label comes from a division of the label', "implies(max_recursion <= 0 and len(label) > 0, exists('s:seq[CharBase]', part(self, s, label[:0], label) and index_of(self, s, result), part(self, s, label[:0], label)))"),
                  ('no division of the label has a lower one', "implies(max_recursion <= 0 and len(label) > 0, forall('s:seq[CharBase]', implies(part(self, s, label[:0], label), exists('r:cps', index_of(self, s, r) and result <= r, index_of(self, s, r))), part(self, s, label[:0], label)))"),
                  ('the index label of nothing is nothing', 'implies(len(label) == 0, len(result) == 0)')],
         loops={0: {'inv': ['len(indexes) == k', "forall('j:int', implies(0 <= j and j < k, index_of(self, seq(partitions[j]), indexes[j])), indexes[j], partitions[j])", 'fresh(indexes)'],
                    'modifies': ['indexes']}})
