from .base import *

# ---- representation invariant of the repertoire ------------------------------------------------
predicate('bucket_ok(r: Repertoire, k: int)', '''
   len(r._chardict[k]) > 0
   and all(len(c.cp) > 0 and c.cp[0] == k for c in r._chardict[k])
   and forall('i:int, j:int', implies(0 <= i and i < j and j < len(r._chardict[k]),
          r._chardict[k][i].cp != r._chardict[k][j].cp), (seq(r._chardict[k])[i], seq(r._chardict[k])[j]))''')
predicate('rep_ok(r: Repertoire)', '''
   all(bucket_ok(r, k) for k in r._chardict)
   and forall('k1:int, k2:int', implies(k1 in r._chardict and k2 in r._chardict and k1 != k2,
          r._chardict[k1] is not r._chardict[k2]), (r._chardict[k1], r._chardict[k2]))''')
predicate('has_cp(r: Repertoire, s: cps)', 's[0] in r._chardict and any(c.cp == s for c in r._chardict[s[0]])')
# c is the entry stored for its own code points
predicate('entry(r: Repertoire, c: CharBase)', 'len(c.cp) > 0 and c.cp[0] in r._chardict and any(x is c for x in r._chardict[c.cp[0]])')

KEEP = ('all((old(x in self._chardict) and self._chardict[x] is old(self._chardict[x])) or fresh(self._chardict[x]) for x in self._chardict)')
KEEPL = KEEP.replace('old(', 'pre(').replace('fresh(', 'newer(')
REP = ['rep_ok(self)']
BUCKETS = ['self._chardict', 'each(b for b in self._chardict.values())']

contract('lgr.char:Repertoire._add_char', props=['C01', 'C03'],
         params={'char': 'CharBase'},
         requires=['rep_ok(self)', 'len(char.cp) > 0'],
         raises={'CharAlreadyExists': 'has_cp(self, char.cp)'},
         ensures=[('the representation stays well formed', 'rep_ok(self)'),
                  ('exactly the new code point is added',
                   "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) or s == char.cp)), has_cp(self, s))"),
                  ('exactly the new entry is added',
                   "forall('c:CharBase', entry(self, c) == (old(entry(self, c)) or c is char), entry(self, c))"),
                  ('lists of entries are not shared', KEEP)],
         modifies=BUCKETS)

contract('lgr.char:Repertoire._del_char', props=['C01', 'C03'],
         params={'char': 'CharBase'}, returns='bool',
         requires=['rep_ok(self)', 'len(char.cp) > 0'],
         ensures=[('the representation stays well formed', 'rep_ok(self)'),
                  ('it tells whether the code point was there', 'result == old(has_cp(self, char.cp))'),
                  ('exactly that code point is withdrawn',
                   "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) and s != char.cp)), has_cp(self, s))"),
                  ('every other entry stays',
                   "forall('c:CharBase', entry(self, c) == (old(entry(self, c)) and c.cp != char.cp), entry(self, c))"),
                  ('lists of entries are not shared', KEEP)],
         modifies=['when(has_cp(self, char.cp), self._chardict, each(b for b in self._chardict.values()))'])

contract('lgr.char:Repertoire.__contains__', props=['C01'],
         params={'k': ['CharBase', 'int', 'cps']}, returns='bool',
         requires=['rep_ok(self)', 'len(cps_of(k)) > 0'],
         ensures=[('membership is having the code points', 'result == has_cp(self, cps_of(k))')])

contract('lgr.char:Repertoire.get_char', props=['C01'],
         params={'cp_or_sequence': 'cps'}, returns='CharBase',
         requires=['rep_ok(self)', 'len(cp_or_sequence) > 0'],
         raises={'NotInLGR': 'not has_cp(self, cp_or_sequence)'},
         ensures=[('the entry found has the code points', 'result.cp == cp_or_sequence'),
                  ('the entry found is in the repertoire', 'entry(self, result)')])

contract('lgr.char:Repertoire.__getitem__', props=['C01'],
         params={'k': ['CharBase', 'int', 'cps']}, returns='CharBase',
         requires=['rep_ok(self)', 'len(cps_of(k)) > 0'],
         raises={'NotInLGR': 'not has_cp(self, cps_of(k))'},
         ensures=['result.cp == cps_of(k)', 'entry(self, result)'])

contract('lgr.char:Repertoire.add_char', props=['C01'],
         params={'cp_or_sequence': 'cps', 'comment': 'opt[str]', 'ref': 'opt[list[str]]', 'tag': 'opt[list[str]]', 'when': 'opt[str]',
                 'not_when': 'opt[str]'}, returns='CharBase',
         requires=['rep_ok(self)', 'len(cp_or_sequence) > 0'],
         raises={'CharAlreadyExists': 'has_cp(self, cp_or_sequence)'},
         ensures=['rep_ok(self)',
                  ('exactly the new code point is added',
                   "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) or s == cp_or_sequence)), has_cp(self, s))"),
                  ('exactly one new entry is added',
                   "forall('c:CharBase', entry(self, c) == (old(entry(self, c)) or c is result), entry(self, c))"),
                  ('the entry carries the attributes given',
                   'result.cp == cp_or_sequence and result.comment == comment and result.when == when and result.not_when == not_when'
                   ' and fresh(result) and len(result._variants) == 0'),
                  ('references given', 'implies(is_some(ref), result.references is unopt(ref)) and implies(not is_some(ref), len(result.references) == 0)'),
                  ('tags given', 'implies(is_some(tag), result.tags is unopt(tag)) and implies(not is_some(tag), len(result.tags) == 0)'),
                  ('it is not a range member', 'not isinstance(result, RangeChar)'),
                  ('it is a sequence exactly when it has several code points', 'isinstance(result, CharSequence) == (len(cp_or_sequence) > 1)'),
                  ('lists of entries are not shared', KEEP)],
         modifies=BUCKETS)

contract('lgr.char:Repertoire.del_char', props=['C01'],
         params={'cp_or_sequence': 'cps'},
         requires=['rep_ok(self)', 'len(cp_or_sequence) > 0'],
         raises={'NotInLGR': 'not has_cp(self, cp_or_sequence)'},
         ensures=['rep_ok(self)',
                  ('exactly that code point is withdrawn',
                   "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) and s != cp_or_sequence)), has_cp(self, s))"),
                  ('every other entry stays',
                   "forall('c:CharBase', entry(self, c) == (old(entry(self, c)) and c.cp != cp_or_sequence), entry(self, c))")],
         modifies=BUCKETS)

contract('lgr.char:Repertoire.all_repertoire', props=['C01', 'C02'],
         params={'include_sequences': 'bool', 'include_ranges': 'bool'}, returns='seq[CharBase]',
         requires=['rep_ok(self)'],
         ensures=[('exactly the entries not excluded are listed',
                   "forall('c:CharBase', (c in result) == (entry(self, c) and (include_sequences or not isinstance(c, CharSequence))"
                   " and (include_ranges or not isinstance(c, RangeChar))), entry(self, c))"),
                  ('each once', 'distinct(result)')])

contract('lgr.char:Repertoire.get_chars_from_prefix', props=['C02'],
         params={'cp': 'int', 'only_variants': 'bool'}, returns='list[CharBase]',
         requires=['rep_ok(self)'],
         raises={'NotInLGR': 'cp not in self._chardict'},
         ensures=[('exactly the entries starting with the code point',
                   "forall('c:CharBase', (c in result) == (entry(self, c) and c.cp[0] == cp and (not only_variants or len(c._variants) > 0)), entry(self, c))"),
                  ('only entries', 'all(entry(self, c) for c in result)'),
                  ('longest first', "forall('i:int, j:int', implies(0 <= i and i < j and j < len(result), len(result[i].cp) >= len(result[j].cp)), (seq(result)[i], seq(result)[j]))"),
                  ('each once', 'distinct(result)')])
