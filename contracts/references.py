from .labels import *

side.dict_classes['ReferenceManager'] = 'dict[str,dict[str,str]]'
side.fields['ReferenceManager'] = {'next_id': 'int'}
_wf = z3.Function('ref_id_ok', Str, Bool)


def _match(ex, st, args, kwargs):
    """re.match on the pattern of reference identifiers: some fixed set of strings"""
    return [(st, 'ok', vbool(_wf(args[1].z)))]


side.ext['re.match'] = _match


def refs(sp, v):
    return sp.ex.as_dict(sp.st, v)


def idstr(sp, v):
    return V(STR, int2str(v.z)) if v.ty.k == 'int' else v


side.spec_funcs['refs'] = refs
side.spec_funcs['idstr'] = idstr
side.spec_funcs['ref_id_ok'] = lambda sp, v: vbool(_wf(v.z))
_K = 'lgr.metadata:ReferenceManager.'
SAME = "forall('t:str', implies(%s, (t in refs(self)) == old(t in refs(self)) and implies(t in refs(self), refs(self)[t] is old(refs(self)[t]))), t in refs(self), old(t in refs(self)), refs(self)[t])"
ID = ['int', 'str']
contract(_K + '__contains__', props=['C14'], params={'k': ID}, returns='bool', ensures=[('an identifier is its text', 'result == (idstr(k) in refs(self))')])
contract(_K + 'add_reference', props=['C14'], params={'value': 'str', 'comment': 'opt[str]', 'ref_id': ['none', 'int', 'str']}, returns='str',
         raises={'ReferenceAlreadyExists': 'False if ref_id is None else idstr(ref_id) in refs(self)',
                 'ReferenceInvalidId': 'False if ref_id is None else idstr(ref_id) not in refs(self) and not ref_id_ok(idstr(ref_id))'},
         ensures=[('the identifier was not in use', 'old(result not in refs(self))'),
                  ('it is the one given, as text', 'True if ref_id is None else result == idstr(ref_id)'),
                  ('it names the reference', "result in refs(self) and fresh(refs(self)[result]) and 'value' in refs(self)[result] and refs(self)[result]['value'] == value"
                   " and ('comment' in refs(self)[result]) == is_some(comment) and implies(is_some(comment), refs(self)[result]['comment'] == unopt(comment))"),
                  ('no other reference changes', SAME % 't != result')],
         modifies=['refs(self)', "fields(self, 'next_id')"],
         loops={0: {'inv': ["forall('j:int', implies(self.next_id <= j and j < next_id, idstr(j) in refs(self)), idstr(j))", 'self.next_id <= next_id']}})
contract(_K + 'del_reference', props=['C14'], params={'ref_id': ID},
         raises={'ReferenceNotDefined': 'idstr(ref_id) not in refs(self)'},
         ensures=[('exactly that reference is withdrawn', 'idstr(ref_id) not in refs(self)'), ('no other reference changes', SAME % 't != idstr(ref_id)')],
         modifies=['refs(self)', "fields(self, 'next_id')"])
contract(_K + 'update_reference', props=['C14'], params={'ref_id': ID, 'value': 'opt[str]', 'comment': 'opt[str]'},
         raises={'ReferenceNotDefined': 'idstr(ref_id) not in refs(self)'},
         ensures=[('the same references are defined', SAME % 'True'),
                  ('the value changes when one is given', "implies(is_some(value), refs(self)[idstr(ref_id)]['value'] == unopt(value))"
                   " and implies(not is_some(value), ('value' in refs(self)[idstr(ref_id)]) == old('value' in refs(self)[idstr(ref_id)]) and implies('value' in refs(self)[idstr(ref_id)], refs(self)[idstr(ref_id)]['value'] == old(refs(self)[idstr(ref_id)]['value'])))"),
                  ('the comment changes when one is given', "implies(is_some(comment), refs(self)[idstr(ref_id)]['comment'] == unopt(comment))"
                   " and implies(not is_some(comment), ('comment' in refs(self)[idstr(ref_id)]) == old('comment' in refs(self)[idstr(ref_id)]) and implies('comment' in refs(self)[idstr(ref_id)], refs(self)[idstr(ref_id)]['comment'] == old(refs(self)[idstr(ref_id)]['comment'])))")],
         modifies=['refs(self)[idstr(ref_id)]'])
