"""C10: the labels generated from a label by permuting its variants."""
from .eligible import *

# entry c stands at the start of the rest of a label whose beginning has become prefix
predicate('stands(l: LGR, c: CharBase, prefix: cps, rest: cps)', 'entry(l.repertoire, c) and at(c, rest, 0) and permitted(l, c, prefix + c.cp + rest[len(c.cp):], len(prefix))')
contract('lgr.core:LGR._get_prefix_list', props=['C10'], opaque=True, params={'label': 'cps', 'label_prefix': 'cps'}, returns='list[CharBase]',
         locals={'prefix_list': 'list[CharBase]'},
         requires=LGR_OK + ['len(label) > 0'], raises={'NotInLGR': 'label[0] not in self.repertoire._chardict'},
         ensures=[('exactly the entries with variants that stand there', "forall('c:CharBase', (c in result) == (stands(self, c, label_prefix, label) and len(c._variants) > 0), entry(self.repertoire, c))"),
                  ('only entries', 'all(entry(self.repertoire, c) for c in result)'),
                  ('each once', 'distinct(result)'),
                  ('longest first', "forall('i:int, j:int', implies(0 <= i and i < j and j < len(result), len(result[i].cp) >= len(result[j].cp)), (seq(result)[i], seq(result)[j]))")],
         loops={0: {'inv': ["forall('c:CharBase', (c in prefix_list) == (c in seq(items)[:k] and stands(self, c, label_prefix, label)), c in prefix_list, c in seq(items)[:k])",
                            'distinct(prefix_list)', 'all(entry(self.repertoire, c) and len(c._variants) > 0 for c in prefix_list)',
                            "forall('i:int, j:int', implies(0 <= i and i < j and j < len(prefix_list), len(prefix_list[i].cp) >= len(prefix_list[j].cp)), (seq(prefix_list)[i], seq(prefix_list)[j]))",
                            "forall('i:int, j:int', implies(0 <= i and i < len(prefix_list) and k <= j and j < len(items), len(prefix_list[i].cp) >= len(items[j].cp)), (seq(prefix_list)[i], items[j]))",
                            'fresh(prefix_list)'], 'modifies': ['prefix_list']}})
