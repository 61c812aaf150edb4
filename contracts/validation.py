"""C25: the run of the validation checks."""
from .review import *

NAMES = ['check_xml_validity', 'check_symmetry', 'check_transitivity', 'check_conditional_variants', 'rebuild_lgr', 'compute_stats', 'check_metadata', 'check_miscellaneous']
MODS = ['xml_validity', 'symmetry', 'transitivity', 'conditional_variants', 'rebuild_lgr', 'lgr_stats', 'metadata', 'miscellaneous']
_fails = z3.Function('check_fails', U, Ref, Ref, Bool)
_gives = z3.Function('check_gives', U, Ref, Ref, U)


def _check(name):
    def h(ex, st, args, kwargs):
        """a check: some outcome, or an LGRException, that depends on the rules and the options; the validation knows no more of it"""
        fn = z3.Const('check_' + name, U)
        l, o = args[0].z, args[1].z
        bad, good = st.clone(), st.clone()
        bad.cond(_fails(fn, l, o))
        good.cond(z3.Not(_fails(fn, l, o)))
        e = ex.exc(bad, 'LGRException')
        bad.fact(ex.toz(e[2], ANY) == _gives(fn, l, o))
        return [(good, 'ok', vtup([V(BOOL, ex.fresh('ok', Bool)), V(ANY, _gives(fn, l, o))])), e]
    return h


def _gives_spec(sp, name, l, o):
    return V(ANY, _gives(z3.Const('check_' + name.x['lit'], U), l.z, o.z))


side.spec_funcs['outcome'] = _gives_spec
_ent = lambda i: "result[%d][0] == '%s' and result[%d][1] == outcome('%s', lgr, options)" % (i, NAMES[i], i, NAMES[i])
contract('lgr.validate:validate_lgr', props=['C25'], shards=8, params={'lgr': 'LGR', 'options': 'dict[str,bool]'}, returns='list[tup[str,any]]', locals={'result': 'list[tup[str,any]]'},
         abstract={'lgr.validate.%s:%s' % (m, n): _check(n) for m, n in zip(MODS, NAMES)},
         lets={'more': "'rfc7940' in options and options['rfc7940']"},
         ensures=[('the checks that run depend on the options only', 'len(result) == (8 if more else 6)'),
                  ('each check gives its result or its error under its name, in order', ' and '.join(map(_ent, range(6)))),
                  ('and so do those of RFC 7940 when asked for', 'implies(more, %s)' % ' and '.join(map(_ent, (6, 7)))), 'fresh(result)'])
