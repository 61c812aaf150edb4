from .char import *

define('overlaps(a, b, r)', 'a <= r[1] and r[0] <= b')
OVER = 'any(first_cp <= r[1] and r[0] <= last_cp for r in self.ranges)'
TAKEN = 'any(has_cp(self, (cp,)) for cp in range(first_cp, last_cp + 1))'
TAKEN2 = "exists('c:int', first_cp <= c and c <= last_cp and has_cp(self, (c,)), has_cp(self, (c,)))"

contract('lgr.char:Repertoire._check_range_overlap', props=['C03'],
         params={'first_cp': 'int', 'last_cp': 'int'}, returns='bool',
         ensures=[('it tells whether an existing range has a code point of the range', 'result == old(%s)' % OVER),
                  ('the ranges stay', 'setof(self.ranges) == old(setof(self.ranges))')],
         modifies=['self.ranges'])

contract('lgr.char:Repertoire.add_range', shards=6, props=['C03'],
         params={'first_cp': 'int', 'last_cp': 'int', 'comment': 'opt[str]', 'ref': 'opt[list[str]]', 'tag': 'opt[list[str]]', 'when': 'opt[str]',
                 'not_when': 'opt[str]', 'skip_check': 'bool'},
         requires=['rep_ok(self)', 'first_cp < last_cp'],
         raises={'RangeAlreadyExists': 'not skip_check and ' + OVER,
                 'CharAlreadyExists': '(skip_check or not %s) and %s' % (OVER, TAKEN2)},
         exc_modifies=['self.ranges'],
         ensures=['rep_ok(self)',
                  ('exactly the members are added',
                   "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) or (len(s) == 1 and first_cp <= s[0] and s[0] <= last_cp))), has_cp(self, s))"),
                  ('the range is recorded', "forall('r:tup[int,int]', (r in self.ranges) == (r in old(setof(self.ranges)) or (r[0] == first_cp and r[1] == last_cp)), r in self.ranges)"),
                  ('existing entries stay', "forall('c:CharBase', implies(old(entry(self, c)), entry(self, c)), entry(self, c), old(entry(self, c)))"),
                  ('the new entries are members of the range',
                   "forall('c:CharBase', implies(entry(self, c) and not old(entry(self, c)), isinstance(c, RangeChar) and c.first_cp == first_cp and c.last_cp == last_cp"
                   " and c.comment == comment and c.when == when and c.not_when == not_when), entry(self, c))")],
         modifies=BUCKETS + ['self.ranges'],
         loops={0: {'inv': ["forall('c:int', implies(first_cp <= c and c < first_cp + k, not has_cp(self, (c,))), has_cp(self, (c,)))"]},
                1: {'inv': ['rep_ok(self)', KEEPL,
                            "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) or (len(s) == 1 and first_cp <= s[0] and s[0] < first_cp + k))), has_cp(self, s), old(has_cp(self, s)))",
                            "forall('c:CharBase', implies(old(entry(self, c)), entry(self, c)), entry(self, c), old(entry(self, c)))",
                            "forall('c:CharBase', implies(entry(self, c) and not old(entry(self, c)), isinstance(c, RangeChar) and c.first_cp == first_cp and c.last_cp == last_cp"
                            " and c.comment == comment and c.when == when and c.not_when == not_when), entry(self, c), old(entry(self, c)))"],
                    'modifies': BUCKETS}})

contract('lgr.char:Repertoire.del_range', shards=2, props=['C03'],
         params={'first_cp': 'int', 'last_cp': 'int'},
         requires=['rep_ok(self)', 'first_cp < last_cp'],
         raises={'NotInLGR': 'not (first_cp, last_cp) in self.ranges or '
                 "exists('c:int', first_cp <= c and c <= last_cp and not has_cp(self, (c,)), has_cp(self, (c,)))"},
         ensures=['rep_ok(self)',
                  ('exactly the members are withdrawn',
                   "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) and not (len(s) == 1 and first_cp <= s[0] and s[0] <= last_cp))), has_cp(self, s))"),
                  ('every other entry stays',
                   "forall('c:CharBase', entry(self, c) == (old(entry(self, c)) and not (len(c.cp) == 1 and first_cp <= c.cp[0] and c.cp[0] <= last_cp)), entry(self, c))"),
                  ],
         modifies=BUCKETS + ['self.ranges'],
         loops={0: {'inv': ["forall('c:int', implies(first_cp <= c and c < first_cp + k, has_cp(self, (c,))), has_cp(self, (c,)))"]},
                1: {'inv': ['rep_ok(self)', KEEPL,
                            "forall('s:cps', implies(len(s) > 0, has_cp(self, s) == (old(has_cp(self, s)) and not (len(s) == 1 and first_cp <= s[0] and s[0] < first_cp + k))), has_cp(self, s), old(has_cp(self, s)))",
                            "forall('c:CharBase', entry(self, c) == (old(entry(self, c)) and not (len(c.cp) == 1 and first_cp <= c.cp[0] and c.cp[0] < first_cp + k)), entry(self, c), old(entry(self, c)))"],
                    'modifies': BUCKETS}})
