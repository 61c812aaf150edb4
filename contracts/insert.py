from .references import *

side.fields['LGR'].update({'metadata': 'Metadata', 'reference_manager': 'ReferenceManager'})
side.fields['Metadata'] = {'languages': 'list[str]', 'unicode_version': 'str'}
side.fields['Class'] = {'name': 'opt[str]', 'comment': 'opt[str]', 'references': 'list[str]', 'from_tag': 'opt[str]', 'unicode_property': 'opt[str]',
                        'codepoints': 'set[int]', 'by_ref': 'opt[str]', 'implicit': 'bool'}

# ---- the Unicode database: arbitrary functions of the database and the code point ----
_prop = z3.Function('idna_prop', U, Int, Str)
_script = z3.Function('script_of', U, Int, Str)
side.externs[('any', 'get_idna_prop')] = lambda ex, st, args, kw: [(st, 'ok', V(STR, _prop(args[0].z, args[1].z)))]


_script4 = z3.Function('script_code_of', U, Int, Str)


def _get_script(ex, st, args, kw):
    r = (_script4 if 'alpha4' in kw else _script)(args[0].z, args[1].z)
    st.fact(r != none_str)
    return [(st, 'ok', V(STR, r))]


side.externs[('any', 'get_script')] = _get_script
side.spec_funcs['script_of'] = lambda sp, db, c: V(STR, _script(db.z, c.z))
side.spec_funcs['idna_prop'] = lambda sp, db, c: V(STR, _prop(db.z, c.z))
_VALID = "('PVALID', 'CONTEXTJ', 'CONTEXTO')"
define('refused(db, c)', 'idna_prop(db, c) not in %s' % _VALID)

contract('lgr.utils:is_idna_valid_cp_or_sequence', props=['C05'], params={'cp_or_sequence': ['cps', 'list[int]'], 'udata': 'any', 'check_all': 'bool'},
         returns='tup[bool,dict[int,str]]', locals={'all_invalid': 'dict[int,str]'},
         ensures=[('the verdict', 'result[0] == all(not refused(udata, c) for c in cp_or_sequence)'),
                  ('every refused code point is told', 'implies(check_all, forall("c:int", (c in result[1]) == (c in cp_or_sequence and refused(udata, c)), c in result[1]))'),
                  ('fresh(result[1])')],
         loops={0: {'inv': ['fresh(all_invalid)', 'implies(not check_all, len(all_invalid) == 0)',
                            'forall("c:int", (c in all_invalid) == exists("j:int", 0 <= j and j < k and items[j] == c and refused(udata, c), items[j]), c in all_invalid)',
                            '(len(all_invalid) == 0) == all(not refused(udata, items[j]) for j in range(0, k))'], 'modifies': ['all_invalid']}})
predicate('refuses(l: LGR, s: cps)', 'l.raise_on_invalid_property and l._unicode_database is not None and any(refused(l._unicode_database, c) for c in s)')


def _get_scripts(ex, st, args, kw):
    th = SeqTheory.of(Str)
    r = V(Ty('list', STR), ex.alloc(st, 'list'))
    z = ex.fresh('scripts', th.sort)
    st.fact(th.len(z) >= 0)
    ex.hset(st, ex.lkey(r.ty), r.z, z)
    return [(st, 'ok', r)]


side.externs[('Metadata', 'get_scripts')] = _get_scripts

contract('lgr.core:LGR.cp_in_script', props=['C05'], opaque=True, params={'codepoints': ['cps', 'list[int]']}, returns='tup[bool,set[str]]')
contract('lgr.core:LGR._check_convert_cp', props=['C05'], opaque=True, params={'cp_or_sequence': ['int', 'cps'], 'assert_in_script': 'bool'}, returns='cps',
         raises={'LGRApiInvalidParameter': 'len(cps_of(cp_or_sequence)) == 0', 'CharInvalidIdnaProperty': 'refuses(self, cps_of(cp_or_sequence))',
                 'CharNotInScript': 'assert_in_script and self._unicode_database is not None'},
         ensures=[('the code points given', 'result == cps_of(cp_or_sequence)')])
contract('lgr.core:LGR.check_cp', props=['C05', 'C01'], opaque=True, params={'cp_or_sequence': ['int', 'cps']}, returns='bool',
         requires=['rep_ok(self.repertoire)'],
         raises={'LGRApiInvalidParameter': 'len(cps_of(cp_or_sequence)) == 0', 'CharInvalidIdnaProperty': 'refuses(self, cps_of(cp_or_sequence))'},
         ensures=[('it tells whether the code points are in the repertoire', 'result == has_cp(self.repertoire, cps_of(cp_or_sequence))')])

for m, op in (('add', 'old(c in self.codepoints) or c in cps_of(cp)'), ('del', 'old(c in self.codepoints) and c not in cps_of(cp)')):
    contract('lgr.classes:Class.%s_codepoint' % m, props=['C05', 'C20'], opaque=True, params={'cp': ['int', 'cps']},
             raises={'LGRFormatException': 'is_some(self.by_ref)'},
             ensures=[('exactly the code points given change', 'forall("c:int", (c in self.codepoints) == (%s), c in self.codepoints)' % op)],
             modifies=['self.codepoints'],
             loops={0: {'inv': ['forall("c:int", (c in self.codepoints) == (old(c in self.codepoints) and not exists("j:int", 0 <= j and j < k and items[j] == c, items[j])), c in self.codepoints, old(c in self.codepoints))'],
                        'modifies': ['self.codepoints']}} if m == 'del' else {})

# ---- the classes of the tags ----
TAGP = "'#__internal_tag_'"
predicate('tagged(l: LGR, t: str, c: int)', TAGP + " + t in l.classes_lookup and c in l.classes_lookup[" + TAGP + " + t].codepoints")
# the classes kept for tags are plain and share no set of code points with another class
predicate('tags_ok(l: LGR)', "l.classes_lookup is not refs(l.reference_manager) and forall('t:str', implies(" + TAGP + " + t in l.classes_lookup, not is_some(l.classes_lookup[" + TAGP + " + t].by_ref)), " + TAGP + " + t in l.classes_lookup)"
          " and forall('a:str, b:str', implies(a in l.classes_lookup and b in l.classes_lookup and a != b, l.classes_lookup[a] is not l.classes_lookup[b]"
          " and l.classes_lookup[a].codepoints is not l.classes_lookup[b].codepoints), (l.classes_lookup[a], l.classes_lookup[b]))")
CLS = ['self.classes_lookup', 'each(c.codepoints for c in self.classes_lookup.values())']
KEEPC = "all((old(x in self.classes_lookup) and self.classes_lookup[x] is old(self.classes_lookup[x])) or (fresh(self.classes_lookup[x]) and fresh(self.classes_lookup[x].codepoints)) for x in self.classes_lookup)"
KEEPCL = "all((pre(x in self.classes_lookup) and self.classes_lookup[x] is pre(self.classes_lookup[x])) or (newer(self.classes_lookup[x]) and newer(self.classes_lookup[x].codepoints)) for x in self.classes_lookup)"

contract('lgr.core:LGR._add_cp_to_tag_classes', props=['C05'], opaque=True, params={'cp_or_sequence': ['int', 'cps'], 'tags': 'list[str]'},
         lets={'s': 'cps_of(cp_or_sequence)'},
         requires=['tags_ok(self)'],
         ensures=['tags_ok(self)', KEEPC,
                  ('exactly the code points join exactly the classes of the tags',
                   "forall('t:str, c:int', tagged(self, t, c) == (old(tagged(self, t, c)) or (t in tags and c in s)), tagged(self, t, c))")],
         modifies=CLS,
         loops={0: {'inv': ['tags_ok(self)', KEEPCL,
                            "forall('t:str, c:int', tagged(self, t, c) == (old(tagged(self, t, c)) or (exists('j:int', 0 <= j and j < k and items[j] == t, items[j]) and c in s)), tagged(self, t, c), old(tagged(self, t, c)))"],
                    'modifies': CLS, 'closed': [('Class', 'codepoints')]}})
contract('lgr.core:LGR._del_cp_from_tag_classes', props=['C05'], opaque=True, params={'cp_or_sequence': ['int', 'cps'], 'tags': 'list[str]'},
         lets={'s': 'cps_of(cp_or_sequence)'},
         requires=['tags_ok(self)'],
         ensures=['tags_ok(self)',
                  ('exactly the code points leave exactly the classes of the tags',
                   "forall('t:str, c:int', tagged(self, t, c) == (old(tagged(self, t, c)) and not (t in tags and c in s)), tagged(self, t, c))")],
         modifies=CLS[1:],
         loops={0: {'inv': ['tags_ok(self)',
                            "forall('t:str, c:int', tagged(self, t, c) == (old(tagged(self, t, c)) and not (exists('j:int', 0 <= j and j < k and items[j] == t, items[j]) and c in s)), tagged(self, t, c), old(tagged(self, t, c)))"],
                    'modifies': CLS[1:]}})

NEWSET = "forall('s:cps', implies(len(s) > 0, has_cp(self.repertoire, s) == (old(has_cp(self.repertoire, s)) or s == vcp)), has_cp(self.repertoire, s))"
REPB = ['self.repertoire._chardict', 'each(b for b in self.repertoire._chardict.values())']
REFDEF = 'is_some(ref) and not force and any(r not in refs(self.reference_manager) for r in unopt(ref))'
REFDUP = 'is_some(ref) and not force and not distinct(seq(unopt(ref)))'
OUTSIDE = 'validating_repertoire is not None and not override_repertoire and not force and any(not has_cp(validating_repertoire.repertoire, (c,)) for c in %s)'
STORED_REFS = ("implies(is_some(ref) and not force, seq(%s.references) == old(seq(unopt(ref)))) and implies(not is_some(ref), len(%s.references) == 0)"
               " and implies(is_some(ref), forall('r:str', (r in %s.references) == (old(r in unopt(ref)) and r in refs(self.reference_manager)), r in %s.references))")
REFLOOP = {'inv': ['fresh(references)', 'implies(not force, seq(references) == seq(items)[:k] and not exists("j:int", 0 <= j and j < k and items[j] not in refs(self.reference_manager), items[j]))',
                   "forall('r:str', (r in references) == (r in seq(items)[:k] and r in refs(self.reference_manager)), r in references)"],
           'modifies': ['references']}
contract('lgr.core:LGR.add_cp', props=['C05'], opaque=True, shards=8,
         params={'cp_or_sequence': ['int', 'cps'], 'comment': 'opt[str]', 'ref': 'opt[list[str]]', 'tag': 'opt[list[str]]', 'when': 'opt[str]', 'not_when': 'opt[str]',
                 'validating_repertoire': 'opt[LGR]', 'override_repertoire': 'bool', 'force': 'bool'}, locals={'references': 'list[str]', 'tags': 'list[str]'},
         lets={'vcp': 'cps_of(cp_or_sequence)'},
         requires=['rep_ok(self.repertoire)', 'tags_ok(self)', 'implies(validating_repertoire is not None, rep_ok(validating_repertoire.repertoire))'],
         raises={'LGRApiInvalidParameter': 'len(vcp) == 0',
                 'CharInvalidIdnaProperty': 'refuses(self, vcp) or validating_repertoire is not None and any(refuses(validating_repertoire, (c,)) for c in vcp)',
                 'CharInvalidContextRule': 'not force and is_some(when) and is_some(not_when)',
                 'NotInRepertoire': OUTSIDE % 'vcp',
                 'ReferenceNotDefined': REFDEF, 'DuplicateReference': REFDUP,
                 'LGRFormatException': 'is_some(tag) and not force and (len(vcp) > 1 and len(unopt(tag)) > 0 or not distinct(seq(unopt(tag))))',
                 'CharAlreadyExists': 'has_cp(self.repertoire, vcp)'},
         ensures=['rep_ok(self.repertoire)', 'tags_ok(self)', KEEP.replace('self._', 'self.repertoire._'), KEEPC, ('exactly the new code point is added', NEWSET),
                  ('the entry carries the attributes given', "forall('c:CharBase', implies(entry(self.repertoire, c) and not old(entry(self.repertoire, c)),"
                   " c.cp == vcp and c.comment == comment and c.when == when and c.not_when == not_when and len(c._variants) == 0 and " + STORED_REFS.replace('%s', 'c') +
                   " and implies(is_some(tag), seq(c.tags) == old(seq(unopt(tag)))) and implies(not is_some(tag), len(c.tags) == 0)), entry(self.repertoire, c))"),
                  ('existing entries stay', "forall('c:CharBase', implies(old(entry(self.repertoire, c)), entry(self.repertoire, c)), entry(self.repertoire, c), old(entry(self.repertoire, c)))"),
                  ('it joins exactly the classes of its tags', "forall('t:str, c:int', tagged(self, t, c) == (old(tagged(self, t, c)) or (is_some(tag) and t in unopt(tag) and c in vcp)), tagged(self, t, c))")],
         modifies=REPB + CLS,
         loops={0: {'inv': ["forall('j:int', implies(0 <= j and j < k, not refuses(validating_repertoire, (items[j],))), items[j])",
                            "implies(not override_repertoire and not force, forall('j:int', implies(0 <= j and j < k, has_cp(validating_repertoire.repertoire, (items[j],))), items[j]))"]},
                1: REFLOOP})

_HADL = "exists('c:CharBase', entry(self.repertoire, c) and c.cp == scp and %s, entry(self.repertoire, c))"
VREP = ['each(c._variants for c in self.repertoire._chardict[scp[0]] if c.cp == scp)',
        'each(b for c in self.repertoire._chardict[scp[0]] for b in c._variants.values() if c.cp == scp)']
contract('lgr.core:LGR.add_variant', props=['C05', 'C04'], opaque=True, shards=8,
         params={'cp_or_sequence': ['int', 'cps'], 'variant_cp': ['int', 'cps'], 'variant_type': 'opt[str]', 'when': 'opt[str]', 'not_when': 'opt[str]', 'comment': 'opt[str]', 'ref': 'opt[list[str]]',
                 'validating_repertoire': 'opt[LGR]', 'override_repertoire': 'bool', 'force': 'bool'}, locals={'references': 'list[str]'},
         lets={'scp': 'cps_of(cp_or_sequence)', 'vcp': 'cps_of(variant_cp)'},
         requires=['rep_ok(self.repertoire)', 'rvars_ok(self.repertoire)', 'implies(validating_repertoire is not None, rep_ok(validating_repertoire.repertoire))'],
         raises={'LGRApiInvalidParameter': 'len(scp) == 0 or len(vcp) == 0',
                 'CharInvalidIdnaProperty': 'refuses(self, scp) or refuses(self, vcp) or validating_repertoire is not None and any(refuses(validating_repertoire, (c,)) for c in vcp)',
                 'VariantInvalidContextRule': 'not force and is_some(when) and is_some(not_when)',
                 'NotInRepertoire': OUTSIDE % 'vcp',
                 'ReferenceNotDefined': REFDEF, 'DuplicateReference': REFDUP,
                 'NotInLGR': 'not has_cp(self.repertoire, scp)',
                 'LGRFormatException': _HADL % 'isinstance(c, RangeChar)',
                 'VariantAlreadyExists': _HADL % 'has_var(c, vcp, when, not_when)'},
         ensures=['rvars_ok(self.repertoire)',
                  ('exactly that mapping of that entry is added', "forall('c:CharBase, s:cps, w:opt[str], n:opt[str]', implies(entry(self.repertoire, c), has_var(c, s, w, n) == (old(has_var(c, s, w, n)) or"
                   " (c.cp == scp and s == vcp and w == when and n == not_when))), (entry(self.repertoire, c), has_var(c, s, w, n)))"),
                  ('existing variants stay', "forall('c:CharBase, v:Variant', implies(entry(self.repertoire, c) and old(variant(c, v)), variant(c, v)), (entry(self.repertoire, c), old(variant(c, v))), (entry(self.repertoire, c), variant(c, v)))"),
                  ('the variant carries the attributes given', "forall('c:CharBase, v:Variant', implies(entry(self.repertoire, c) and variant(c, v) and not old(variant(c, v)), c.cp == scp and v.cp == vcp"
                   " and v.type == variant_type and v.when == when and v.not_when == not_when and v.comment == comment and " + STORED_REFS.replace('%s', 'v') + "), (entry(self.repertoire, c), variant(c, v)))"),
                  ('its type is one of the types', "forall('t:opt[str]', (t in self.types) == (old(t in self.types) or t == variant_type), t in self.types)")],
         modifies=VREP + ['self.types'],
         loops={0: {'inv': ["forall('j:int', implies(0 <= j and j < k, not refuses(validating_repertoire, (items[j],))), items[j])",
                            "implies(not override_repertoire and not force, forall('j:int', implies(0 <= j and j < k, has_cp(validating_repertoire.repertoire, (items[j],))), items[j]))"]},
                1: REFLOOP})
