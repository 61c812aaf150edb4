"""C24: the mixed-script filter."""
from .insert import *

side.fields.update({'BaseMixedScriptsVariantFilter': {'unidb': 'any', 'base_scripts': 'set[str]'},
                    'MixedScriptsVariantFilter': {'other_scripts': 'set[str]'}})

COMP = ("(('Katakana' in %s or 'Hiragana' in %s) and (s == 'Han' or s == 'Latin' or s == 'Katakana' or s == 'Hiragana')) or ('Hangul' in %s and s == 'Latin')"
        " or ('Han' in %s and s == 'Latin')").replace('%s', 'base_scripts')
contract('lgr.mixed_scripts_variant_filter:get_permitted_scripts', props=['C24'], opaque=True,
         params={'base_scripts': 'set[str]'}, returns='set[str]',
         ensures=['fresh(result)',
                  ('the scripts themselves and their companions, nothing else', "forall('s:str', (s in result) == (s in base_scripts or %s), s in result)" % COMP)])

# a script of a code point of the label, Common and Inherited aside
predicate('own(db: any, label: cps, s: str)', "s != 'Common' and s != 'Inherited' and any(script_of(db, c) == s for c in label)")
define('permitted_script(db, label, s)', '''own(db, label, s) or ((own(db, label, 'Katakana') or own(db, label, 'Hiragana')) and
   (s == 'Han' or s == 'Latin' or s == 'Katakana' or s == 'Hiragana')) or (own(db, label, 'Hangul') and s == 'Latin') or (own(db, label, 'Han') and s == 'Latin')''')
# a script in which the code points at index i have a variant
predicate('alt(db: any, r: Repertoire, label: cps, i: int, s: str)', '''s != 'Common' and s != 'Inherited' and
   exists('c:CharBase, v:Variant', entry(r, c) and at(c, label, i) and variant(c, v) and any(script_of(db, x) == s for x in v.cp), (entry(r, c), variant(c, v)))''')

_B = 'lgr.mixed_scripts_variant_filter:BaseMixedScriptsVariantFilter.'
_M = 'lgr.mixed_scripts_variant_filter:MixedScriptsVariantFilter.'
PASS = 'result == all(script_of(self.unidb, c) in %s for c in cp)'
contract(_B + 'cp_in_scripts', props=['C24'], opaque=True, params={'cp': 'cps', 'scripts': 'set[str]'}, returns='bool',
         ensures=[('it passes exactly when the script of every code point is among them', PASS % 'scripts')],
         loops={0: {'inv': ["forall('j:int', implies(0 <= j and j < k, script_of(self.unidb, items[j]) in scripts), items[j])"]}})
contract(_B + 'cp_in_base_scripts', props=['C24'], opaque=True, params={'cp': 'cps'}, returns='bool',
         ensures=[('it passes exactly when every code point is in a permitted script', PASS % 'self.base_scripts')])
contract(_M + 'cp_in_other_scripts', props=['C24'], opaque=True, params={'cp': 'cps'}, returns='bool',
         ensures=[('it passes exactly when every code point is in an alternative script', PASS % 'self.other_scripts')])
contract(_M + '_get_base_scripts', props=['C24'], opaque=True, params={'label': 'cps'}, returns='set[str]',
         ensures=['fresh(result)', ('the permitted scripts of the label', "forall('s:str', (s in result) == permitted_script(self.unidb, label, s), s in result)")],
         loops={0: {'inv': ['fresh(scripts)', "forall('s:str', (s in scripts) == (s != 'Common' and s != 'Inherited' and exists('j:int', 0 <= j and j < k and script_of(self.unidb, items[j]) == s, items[j])), s in scripts)"],
                    'modifies': ['scripts']}}, locals={'scripts': 'set[str]'})

predicate('begins(r: Repertoire, label: cps, i: int)', 'label[i] in r._chardict')
predicate('whole(db: any, r: Repertoire, label: cps, n: int, s: str)', '''exists('i:int', 0 <= i and i < n and begins(r, label, i), begins(r, label, i), seq(label)[i])
   and forall('i:int', implies(0 <= i and i < n and begins(r, label, i), alt(db, r, label, i, s)), begins(r, label, i), alt(db, r, label, i, s))''')
_HERE = "s != 'Common' and s != 'Inherited' and "
contract(_M + '_get_scripts_for_variants', props=['C24'], opaque=True, params={'label': 'cps', 'repertoire': 'Repertoire'}, returns='set[str]',
         locals={'scripts': 'opt[set[str]]', 'scripts_for_char': 'set[str]'},
         requires=['rep_ok(repertoire)', 'rvars_ok(repertoire)'],
         ensures=[('the scripts other than the permitted ones in which every entry of the label has a variant',
                   "forall('s:str', (s in result) == (whole(self.unidb, repertoire, label, len(label), s) and s not in self.base_scripts), s in result)")],
         loops={0: {'inv': ['implies(is_some(scripts), fresh(scripts))', "is_some(scripts) == exists('i:int', 0 <= i and i < k and begins(repertoire, label, i), begins(repertoire, label, i), seq(label)[i])",
                            "implies(is_some(scripts), forall('s:str', (s in unopt(scripts)) == whole(self.unidb, repertoire, label, k, s), s in unopt(scripts), whole(self.unidb, repertoire, label, k, s)))"]},
                1: {'inv': ['fresh(scripts_for_char)', "forall('s:str', (s in scripts_for_char) == exists('j:int, v:Variant', 0 <= j and j < k and at(items[j], label, idx) and variant(items[j], v)"
                            " and any(script_of(self.unidb, x) == s for x in v.cp), (items[j], variant(items[j], v))), s in scripts_for_char)"],
                    'modifies': ['scripts_for_char']},
                2: {'inv': ['fresh(scripts_for_char)', "forall('s:str', (s in scripts_for_char) == (entry_(s in scripts_for_char) or exists('j:int', 0 <= j and j < k and any(script_of(self.unidb, x) == s for x in items[j].cp), items[j])), s in scripts_for_char)".replace('entry_', 'pre')],
                    'modifies': ['scripts_for_char']},
                3: {'inv': ['fresh(scripts_for_char)', "forall('s:str', (s in scripts_for_char) == (entry_(s in scripts_for_char) or exists('j:int', 0 <= j and j < k and script_of(self.unidb, items[j]) == s, items[j])), s in scripts_for_char)".replace('entry_', 'pre')],
                    'modifies': ['scripts_for_char']}})
