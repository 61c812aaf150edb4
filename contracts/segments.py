from .labels import *

contract('lgr.char:CharBase.is_prefix_of', props=['C06'], opaque=True,
         params={'cp_sequence': ['cps', 'list[int]']}, returns='bool',
         ensures=[('an entry is a prefix exactly when the sequence starts with it',
                   'result == (len(self.cp) <= len(cp_sequence) and self.cp == seq(cp_sequence)[:len(self.cp)])')])

# every entry of several code points is a sequence; the conditions of the entries are rules that exist
predicate('typed_ok(r: Repertoire)', "forall('c:CharBase', implies(entry(r, c), isinstance(c, CharSequence) == (len(c.cp) > 1)), entry(r, c))")
predicate('conds_ok(l: LGR)', "forall('c:CharBase', implies(entry(l.repertoire, c), known_c(l, c)), entry(l.repertoire, c))")
# the code points of c are at index i of the label, and c is permitted there
predicate('at(c: CharBase, label: cps, i: int)', 'len(c.cp) <= len(label) - i and c.cp == label[i:][:len(c.cp)]')
predicate('fit(l: LGR, c: CharBase, label: cps, i: int)', 'entry(l.repertoire, c) and at(c, label, i) and permitted(l, c, label, i)')
predicate('nofit(l: LGR, label: cps, i: int)', "forall('c:CharBase', not fit(l, c, label, i), fit(l, c, label, i))")
predicate('reported(l: LGR, label: cps, cp: int)', "exists('i:int', 0 <= i and i < len(label) and label[i] == cp and nofit(l, label, i), nofit(l, label, i), label[i])")
predicate('longest(l: LGR, c: CharBase, label: cps, i: int)',
          "fit(l, c, label, i) and forall('d:CharBase', implies(fit(l, d, label, i), len(d.cp) <= len(c.cp)), fit(l, d, label, i))")


def _same(sp, a, b):
    """the same sequence of the very same objects"""
    za, th, _ = sp.ex.content(sp.st, a)
    zb = sp.ex.toz(b, Ty('seq', a.ty.a[0])) if b.ty.k == 'tup' else sp.ex.content(sp.st, b)[0]
    return vbool(th.eq(za, zb))


side.spec_funcs['same'] = _same


# s is a division of label, which follows prefix, into entries permitted at their place
predicate('part(l: LGR, s: seq[CharBase], prefix: cps, label: cps)', """len(s) > 0 and entry(l.repertoire, s[0]) and at(s[0], label, 0) and permitted(l, s[0], prefix + label, len(prefix))
    and ((len(label) == len(s[0].cp) and len(s) == 1) or (len(label) > len(s[0].cp) and part(l, s[1:], prefix + s[0].cp, label[len(s[0].cp):])))""", rec=True)

# the number of code points of the entries of a list (defined by recursion on the list)
_R, _I = SeqTheory.of(Ref), SeqTheory.of(Int)
_sumlen = z3.Function('sumlen', z3.ArraySort(Ref, _I.sort), _R.sort, Int)
_h, _s, _x = z3.Const('h', z3.ArraySort(Ref, _I.sort)), z3.Const('s', _R.sort), z3.Const('x', Ref)
axiom('fn_sumlen',
      z3.ForAll([_h, _s], z3.Implies(_R.len(_s) == 0, _sumlen(_h, _s) == 0), patterns=[_sumlen(_h, _s)]),
      z3.ForAll([_h, _s, _x], z3.Implies(_s != _R.none, _sumlen(_h, _R.cat(_s, _R.unit(_x))) == _sumlen(_h, _s) + _I.len(_h[_x])),
                patterns=[_sumlen(_h, _R.cat(_s, _R.unit(_x)))]))


def sumlen(sp, v):
    return vint(_sumlen(sp.ex.h(sp.st, ('F', 'CharBase', 'cp')), sp.ex.content(sp.st, v)[0]))


side.spec_funcs['sumlen'] = sumlen
GREEDY = "forall('k:int', implies(0 <= k and k < len(%s), let('c', %s[k], let('n', sumlen(seq(%s)[:k]), old(longest(self, c, label, n))))), %s[k])"
LGR_OK = ['rep_ok(self.repertoire)', 'typed_ok(self.repertoire)', 'conds_ok(self)']

contract('lgr.core:LGR._test_preliminary_eligibility', props=['C06'], opaque=True,
         params={'label': 'cps', 'generate_chars': 'bool'},
         requires=LGR_OK,
         locals={'label_parts': 'list[int]', 'label_invalid_parts': 'list[tup[int,opt[list[opt[str]]]]]', 'chars': 'list[CharBase]',
                 'pending_rules_not_in_lgr': 'list[opt[str]]'},
         cases=[('generate_chars', 'tup[bool,list[int],list[tup[int,opt[list[opt[str]]]]],list[CharBase]]',
                 [('every entry used is in the repertoire', 'all(entry(self.repertoire, c) for c in result[3])'),
                  ('each entry used is the longest that fits where the ones before it end', 'implies(result[0], sumlen(seq(result[3])) == len(label) and %s)' % GREEDY.replace('%s', 'result[3]')),
                  ('the entries used are a division of the label', 'implies(result[0] and len(label) > 0, part(self, seq(result[3]), label[:0], label))')]),
                ('not generate_chars', 'tup[bool,list[int],list[tup[int,opt[list[opt[str]]]]]]', [])],
         ensures=[('the label is accepted exactly when no code point is reported', 'result[0] == (len(result[2]) == 0)'),
                  ('the entries of an accepted label spell it', 'implies(result[0], seq(result[1]) == label)'),
                  ('every code point is consumed or reported', 'len(result[1]) + len(result[2]) == len(label)'),
                  ('a reported code point stands where no entry fits', 'all(old(reported(self, label, p[0])) for p in result[2])')],
         loops={0: {'inv': ['0 <= i and i <= len(label)', 'label_length == len(label)', 'result == (len(label_invalid_parts) == 0)',
                            'implies(result, seq(label_parts) == label[:i])',
                            'all(entry(self.repertoire, c) for c in chars)', 'len(label_parts) + len(label_invalid_parts) == i',
                            'implies(result, sumlen(seq(chars)) == i and %s)' % GREEDY.replace('%s', 'chars'),
                            "implies(result and i > 0 and i == len(label), part(self, seq(chars), label[:0], label))",
                            "implies(result and i < len(label), forall('t:seq[CharBase]', implies(part(self, t, label[:i], label[i:]), part(self, seq(chars) + t, label[:0], label)), part(self, t, label[:i], label[i:])))",
                            'all(old(reported(self, label, p[0])) for p in label_invalid_parts)'],
                    'cuts': ['all(old(reported(self, label, p[0])) for p in label_invalid_parts)',
                             "implies(result, len(chars) > 0 and i == begin(i) + len(chars[len(chars) - 1].cp) and longest(self, chars[len(chars) - 1], label, begin(i)))",
                             "implies(result, label[:i] == label[:begin(i)] + chars[len(chars) - 1].cp and label[i:] == label[begin(i):][len(chars[len(chars) - 1].cp):])",
                             "implies(result and i == len(label), part(self, (chars[len(chars) - 1],), label[:begin(i)], label[begin(i):]))",
                             "implies(result and i < len(label), forall('t:seq[CharBase]', implies(part(self, t, label[:i], label[i:]), part(self, (chars[len(chars) - 1],) + t, label[:begin(i)], label[begin(i):])), part(self, t, label[:i], label[i:])))"],
                    'decreases': 'len(label) - i',
                    'modifies': ['label_parts', 'label_invalid_parts', 'chars']}})
