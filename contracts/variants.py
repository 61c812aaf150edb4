from .char import *

# ---- the variants of one entry ------------------------------------------------------------------
predicate('vlist_ok(c: CharBase, s: cps)', '''
   len(c._variants[s]) > 0
   and all(v.cp == s for v in c._variants[s])
   and forall('i:int, j:int', implies(0 <= i and i < j and j < len(c._variants[s]),
          c._variants[s][i].when != c._variants[s][j].when or c._variants[s][i].not_when != c._variants[s][j].not_when),
          (seq(c._variants[s])[i], seq(c._variants[s])[j]))''')
predicate('vars_ok(c: CharBase)', '''
   all(vlist_ok(c, s) for s in c._variants)
   and all(c._variants[a] is not c._variants[b] for a in c._variants for b in c._variants if a != b)''')
predicate('has_var(c: CharBase, s: cps, w: opt[str], n: opt[str])', 's in c._variants and any(v.when == w and v.not_when == n for v in c._variants[s])')
# v is one of the variants of c
predicate('variant(c: CharBase, v: Variant)', 'v.cp in c._variants and any(x is v for x in c._variants[v.cp])')

VARS = ['self._variants', 'each(b for b in self._variants.values())']
EXACT = "forall('s:cps, w:opt[str], n:opt[str]', has_var(self, s, w, n) == (%s), has_var(self, s, w, n))"

KEEPV = 'all((old(x in self._variants) and self._variants[x] is old(self._variants[x])) or fresh(self._variants[x]) for x in self._variants)'
contract('lgr.char:CharBase.add_variant', props=['C04'], shards=2, timeout=16000,
         params={'cp_or_sequence': ['cps', 'list[int]'], 'variant_type': 'opt[str]', 'when': 'opt[str]', 'not_when': 'opt[str]', 'comment': 'opt[str]',
                 'ref': 'opt[list[str]]'},
         lets={'vcp': 'seq(cp_or_sequence)'},
         requires=['vars_ok(self)', 'len(cp_or_sequence) > 0'],
         raises={'VariantAlreadyExists': 'has_var(self, vcp, when, not_when)'},
         ensures=['vars_ok(self)', ('lists of variants are not shared', KEEPV),
                  ('exactly the new mapping is added', EXACT % 'old(has_var(self, s, w, n)) or (s == vcp and w == when and n == not_when)'),
                  ('existing variants stay, one new one is added',
                   "forall('v:Variant', variant(self, v) == (old(variant(self, v)) or (v.cp == vcp and v is self._variants[vcp][len(self._variants[vcp]) - 1])), variant(self, v))"),
                  ('the variant carries the attributes given',
                   "let('v', self._variants[vcp][len(self._variants[vcp]) - 1], v.cp == vcp and v.type == variant_type and v.when == when and v.not_when == not_when"
                   " and v.comment == comment and fresh(v) and implies(is_some(ref), v.references is unopt(ref)) and implies(not is_some(ref), len(v.references) == 0))"),
                  ],
         modifies=VARS)

contract('lgr.char:CharBase.del_variant', props=['C04'],
         params={'cp_or_sequence': ['cps', 'list[int]'], 'when': 'opt[str]', 'not_when': 'opt[str]'}, returns='bool',
         lets={'vcp': 'seq(cp_or_sequence)'},
         requires=['vars_ok(self)', 'len(cp_or_sequence) > 0'],
         ensures=['vars_ok(self)', ('lists of variants are not shared', KEEPV),
                  ('it tells whether the mapping was there', 'result == old(has_var(self, vcp, when, not_when))'),
                  ('exactly that mapping is withdrawn', EXACT % 'old(has_var(self, s, w, n)) and not (s == vcp and w == when and n == not_when)'),
                  ('every other variant stays', "forall('v:Variant', variant(self, v) == (old(variant(self, v)) and not (v.cp == vcp and v.when == when and v.not_when == not_when)), variant(self, v))")],
         modifies=['when(has_var(self, vcp, when, not_when), self._variants, each(b for b in self._variants.values()))'])

contract('lgr.char:CharBase.get_variants', props=['C04'], returns='seq[Variant]',
         requires=['vars_ok(self)'],
         ensures=[('exactly the variants of the entry are listed', "forall('v:Variant', (v in result) == variant(self, v), variant(self, v))"),
                  ('only variants', 'all(variant(self, v) for v in result)'),
                  ('each once', 'distinct(result)')])

contract('lgr.char:CharBase.get_variant', props=['C04'], params={'var_cp': 'cps'}, returns='opt[list[Variant]]',
         requires=['vars_ok(self)'],
         ensures=[('the variants with the code points, if any', 'is_some(result) == (var_cp in self._variants)'),
                  'implies(is_some(result), unopt(result) is self._variants[var_cp])'])

contract('lgr.char:CharBase.get_reflexive_variants', props=['C04'], returns='list[Variant]',
         requires=['vars_ok(self)'],
         ensures=[('the variants that are the entry itself', "forall('v:Variant', (v in result) == (variant(self, v) and v.cp == self.cp), variant(self, v))"),
                  ('only those', 'all(variant(self, v) and v.cp == self.cp for v in result)')])

contract('lgr.char:CharBase.has_variant', props=['C04'], returns='bool',
         ensures=[('it tells whether there is a variant', 'result == (len(self._variants) > 0)')])

contract('lgr.char:RangeChar.add_variant', props=['C04'],
         raises={'LGRFormatException': 'True'})
contract('lgr.char:RangeChar.del_variant', props=['C04'],
         raises={'LGRFormatException': 'True'})

# ---- the variants of the repertoire ----
predicate('rvars_ok(r: Repertoire)', '''
   forall('c:CharBase', implies(entry(r, c), vars_ok(c)), entry(r, c))
   and forall('c:CharBase, d:CharBase', implies(entry(r, c) and entry(r, d) and c is not d, c._variants is not d._variants
       and all(c._variants[a] is not d._variants[b] for a in c._variants for b in d._variants)), (entry(r, c), entry(r, d)))''')
_HAD = "exists('c:CharBase', entry(self, c) and c.cp == cp_or_sequence and %s, entry(self, c))"
_RVARS = ['each(c._variants for c in self._chardict[cp_or_sequence[0]] if c.cp == cp_or_sequence)',
          'each(b for c in self._chardict[cp_or_sequence[0]] for b in c._variants.values() if c.cp == cp_or_sequence)']
contract('lgr.char:Repertoire.add_variant', props=['C04', 'C05'], opaque=True, timeout=16000,
         params={'cp_or_sequence': 'cps', 'variant_cp_or_sequence': 'cps', 'variant_type': 'opt[str]', 'when': 'opt[str]', 'not_when': 'opt[str]', 'comment': 'opt[str]',
                 'ref': 'opt[list[str]]'},
         requires=['rep_ok(self)', 'rvars_ok(self)', 'len(cp_or_sequence) > 0', 'len(variant_cp_or_sequence) > 0'],
         raises={'NotInLGR': 'not has_cp(self, cp_or_sequence)',
                 'LGRFormatException': _HAD % 'isinstance(c, RangeChar)',
                 'VariantAlreadyExists': _HAD % 'has_var(c, variant_cp_or_sequence, when, not_when)'},
         ensures=['rvars_ok(self)',
                  ('exactly that mapping of that entry is added', "forall('c:CharBase, s:cps, w:opt[str], n:opt[str]', implies(entry(self, c), has_var(c, s, w, n) == (old(has_var(c, s, w, n)) or"
                   " (c.cp == cp_or_sequence and s == variant_cp_or_sequence and w == when and n == not_when))), (entry(self, c), has_var(c, s, w, n)))"),
                  ('existing variants stay', "forall('c:CharBase, v:Variant', implies(entry(self, c) and old(variant(c, v)), variant(c, v)), (entry(self, c), old(variant(c, v))), (entry(self, c), variant(c, v)))"),
                  ('the variant carries the attributes given', "forall('c:CharBase, v:Variant', implies(entry(self, c) and variant(c, v) and not old(variant(c, v)), fresh(v) and c.cp == cp_or_sequence and v.cp == variant_cp_or_sequence"
                   " and v.type == variant_type and v.when == when and v.not_when == not_when and v.comment == comment"
                   " and implies(is_some(ref), v.references is unopt(ref)) and implies(not is_some(ref), len(v.references) == 0)), (entry(self, c), variant(c, v)))")],
         modifies=_RVARS)
