"""C22: references of a merged set."""
from .references import *

side.spec_funcs['isstr'] = lambda sp, v: vbool(v.z != none_str)
# identifier r of a member, once merged
define('merged_id(m, r)', 'm[r] if r in m else r')
contract('lgr.tools.merge_set:merge_references', props=['C22'],
         params={'lgr': 'LGR', 'script': 'str', 'merged_lgr': 'LGR', 'ref_mapping': 'dict[str,dict[str,str]]'},
         requires=['ref_mapping is not refs(lgr.reference_manager)', 'ref_mapping is not refs(merged_lgr.reference_manager)', 'lgr.reference_manager is not merged_lgr.reference_manager',
                   "all('value' in refs(lgr.reference_manager)[r] and ref_id_ok(r) for r in refs(lgr.reference_manager))",
                   "all('value' in refs(merged_lgr.reference_manager)[r] for r in refs(merged_lgr.reference_manager))"],
         ensures=[('every reference of the member keeps its value under its merged identifier',
                   "all(let('n', merged_id(ref_mapping[script], r), isstr(n) and n in refs(merged_lgr.reference_manager) and refs(merged_lgr.reference_manager)[n]['value'] == refs(lgr.reference_manager)[r]['value']) for r in refs(lgr.reference_manager))"),
                  ('no reference of the merged set changes',
                   "forall('t:str', implies(old(t in refs(merged_lgr.reference_manager)), t in refs(merged_lgr.reference_manager) and refs(merged_lgr.reference_manager)[t] is old(refs(merged_lgr.reference_manager)[t])), t in refs(merged_lgr.reference_manager), old(t in refs(merged_lgr.reference_manager)), refs(merged_lgr.reference_manager)[t])")],
         modifies=['ref_mapping', 'refs(merged_lgr.reference_manager)', "fields(merged_lgr.reference_manager, 'next_id')"],
         loops={0: {'inv': ['script in ref_mapping and fresh(ref_mapping[script])',
                            "forall('j:int', implies(0 <= j and j < k, let('n', merged_id(ref_mapping[script], keys[j]), isstr(n) and n in refs(merged_lgr.reference_manager) and 'value' in refs(merged_lgr.reference_manager)[n] and refs(merged_lgr.reference_manager)[n]['value'] == refs(lgr.reference_manager)[keys[j]]['value'])), keys[j])",
                            "forall('j:int', implies(k <= j and j < len(keys), keys[j] not in ref_mapping[script]), keys[j])",
                            "forall('t:str', implies(t in inserted_references, isstr(inserted_references[t]) and inserted_references[t] in refs(merged_lgr.reference_manager) and 'value' in refs(merged_lgr.reference_manager)[inserted_references[t]] and refs(merged_lgr.reference_manager)[inserted_references[t]]['value'] == t), t in inserted_references)",
                            "forall('t:str', implies(old(t in refs(merged_lgr.reference_manager)), t in refs(merged_lgr.reference_manager) and refs(merged_lgr.reference_manager)[t] is old(refs(merged_lgr.reference_manager)[t])), t in refs(merged_lgr.reference_manager), old(t in refs(merged_lgr.reference_manager)), refs(merged_lgr.reference_manager)[t])"],
                    'cuts': ["forall('j:int', implies(0 <= j and j < k, merged_id(ref_mapping[script], keys[j]) == begin(merged_id(ref_mapping[script], keys[j]))), keys[j])",
                             "merged_id(ref_mapping[script], keys[k]) in refs(merged_lgr.reference_manager)",
                             "forall('t:str', implies(begin(t in refs(merged_lgr.reference_manager)), t in refs(merged_lgr.reference_manager) and refs(merged_lgr.reference_manager)[t] is begin(refs(merged_lgr.reference_manager)[t]) and implies(begin('value' in refs(merged_lgr.reference_manager)[t]), 'value' in refs(merged_lgr.reference_manager)[t] and refs(merged_lgr.reference_manager)[t]['value'] == begin(refs(merged_lgr.reference_manager)[t]['value']))), t in refs(merged_lgr.reference_manager), begin(t in refs(merged_lgr.reference_manager)))"],
                    'modifies': ['ref_mapping[script]', 'refs(merged_lgr.reference_manager)', "fields(merged_lgr.reference_manager, 'next_id')"]}})


def _resub(ex, st, args, kwargs):
    """re.sub: some text"""
    return [(st, 'ok', ex.opaque_str(st, 're.sub', list(args)))]


side.ext['re.sub'] = _resub
_COMMON = "(%s.name == 'leading-combining-mark')"
contract('lgr.tools.merge_set:rename_rule', props=['C22'], params={'rule': 'Rule', 'rule_xml': 'str', 'script': 'str'}, returns='tup[str,str]',
         ensures=[('a rule is named after its script, a common one is common', "result[0] == ('Common-' + rule.name if rule.name == 'leading-combining-mark' else script + '-' + rule.name)")])
contract('lgr.tools.merge_set:rename_class', props=['C22'], params={'classe': 'Class', 'class_xml': 'str', 'script': 'str'}, returns='tup[str,str]', requires=['is_some(classe.name)'],
         ensures=[('a class is named after its script', "result[0] == script + '-' + unopt(classe.name)")])
contract('lgr.tools.merge_set:get_script', props=['C22'], params={'lgr': 'LGR'}, returns='str',
         ensures=[('the script is the first language', "result == (lgr.metadata.languages[0] if len(lgr.metadata.languages) > 0 else '')")])
