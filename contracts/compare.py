"""C18: the union and the intersection of two rule sets, part by part."""
from .references import *

side.fields['Version'] = {'value': 'opt[str]', 'comment': 'opt[str]'}
_C = 'lgr.tools.compare.'
predicate('both_are(a: opt[str], b: opt[str], r: opt[str])', '''implies(not is_some(a), r == b) and implies(not is_some(b), r == a)
   and implies(is_some(a) and is_some(b), is_some(r) and implies(a == b, r == a) and implies(a != b, unopt(r) == unopt(a) + '|' + unopt(b)))''')
contract('lgr.utils:let_user_choose', props=['C18'], opaque=True, params={'first': 'opt[str]', 'second': 'opt[str]', 'separator': 'str'}, returns='opt[str]',
         requires=["separator == '|'"],
         ensures=[('what differs is offered as both', 'both_are(first, second, result)')])
for m in ('union', 'intersect'):
    contract(_C + '%s:%s_version' % (m, m), props=['C18'], params={'first': 'opt[Version]', 'second': 'opt[Version]'}, returns='opt[Version]',
             lets={'a': 'unopt(first)', 'b': 'unopt(second)'},
             ensures=[('a version only one side has', 'implies(not is_some(first), result == second) and implies(not is_some(second), result == first)'),
                      ('versions that differ are offered as both', 'implies(is_some(first) and is_some(second), is_some(result) and both_are(a.value, b.value, unopt(result).value) and both_are(a.comment, b.comment, unopt(result).comment))')])

# ---- actions, rules, classes ---------------------------------------------------------------------------------
side.spec_funcs['replaced'] = lambda sp, v, a, b: sp.ex.opaque_str(sp.st, 'replace', [v, a, b])
define('same_action(a, b)', 'a.disp == b.disp and a.match == b.match and a.not_match == b.not_match and a.any_variant == b.any_variant and a.all_variants == b.all_variants and a.only_variants == b.only_variants')
predicate('has_action(l: list[Action], a: Action)', 'any(same_action(x, a) for x in l)')
contract(_C + 'intersect:intersect_actions', props=['C18'], params={'lgr1': 'LGR', 'lgr2': 'LGR'}, returns='tup[list[Action],list[str]]',
         requires=['len(lgr1.actions) == len(lgr1.actions_xml)'],
         ensures=[('the actions both have', "forall('a:Action', (a in result[0]) == (a in lgr1.actions and has_action(lgr2.actions, a)), a in result[0], a in lgr1.actions)"),
                  ('each with its text', """len(result[0]) == len(result[1]) and forall('i:int', implies(0 <= i and i < len(result[0]),
                      exists('j:int', 0 <= j and j < len(lgr1.actions) and same_action(lgr1.actions[j], result[0][i]) and lgr1.actions_xml[j] == result[1][i], lgr1.actions[j])), result[0][i])""")])
# the line x of the rule or class called n
predicate('line(r: list[str], t: list[str], n: str, x: str)', "exists('j:int', 0 <= j and j < len(r) and r[j] == n and t[j] == x, r[j])")
_REN = """replaced(%s, 'name="' + n + '"', 'name="' + n + '_%d"')"""
# an entry (a, x) of the result made of the definitions (y and z) that both sides have of n
define('from_both(n, y, z, a, x)', "(a == n and x == y) if y == z else (a == n + '_1' and x == %s or a == n + '_2' and x == %s)" % (_REN % ('y', 1), _REN % ('z', 2)))
define('kept(n, y, z, r, t)', "line(r, t, n, y) if y == z else (line(r, t, n + '_1', %s) and line(r, t, n + '_2', %s))" % (_REN % ('y', 1), _REN % ('z', 2)))
for what in ('rules', 'classes'):
    A = {'r': 'lgr1.' + what, 't': 'lgr1.%s_xml' % what, 'u': 'lgr2.' + what, 'w': 'lgr2.%s_xml' % what}
    rng = '0 <= j and j < len({r}) and 0 <= m and m < len({u}) and {r}[j] == {u}[m]'.format(**A)
    two = '({r}[j], {u}[m])'.format(**A)
    shared = ("exists('j:int, m:int', " + rng + ' and from_both(%s[j], %s[j], %s[m], {a}, {x}), ' % (A['r'], A['t'], A['w']) + two + ')')
    allshared = "forall('j:int, m:int', implies(" + rng + ', kept(%s[j], %s[j], %s[m], {r}, {t})), ' % (A['r'], A['t'], A['w']) + two + ')'
    R, X = what, what + '_xml'
    pos = "forall('p:int', implies(0 <= p and p < len({r}), {body}), {r}[p])"
    MOD = [R, X]
    inv = ['len(%s) == len(%s)' % (R, X), '%s is not %s' % (R, X), pos.format(r=R, body=shared.format(a=R + '[p]', x=X + '[p]')),
           "forall('i:int, j:int, m:int', implies(0 <= i and i < k and items[i] == %s[j] and " % A['r'] + rng + ', kept(%s[j], %s[j], %s[m], %s, %s)), (items[i], %s[j], %s[m]))' % (A['r'], A['t'], A['w'], R, X, A['r'], A['u'])]
    contract(_C + 'intersect:intersect_%s' % what, props=['C18'], params={'lgr1': 'LGR', 'lgr2': 'LGR'}, returns='tup[list[str],list[str]]',
             requires=['len(%s) == len(%s)' % (A['r'], A['t']), 'len(%s) == len(%s)' % (A['u'], A['w']), 'distinct(seq(%s))' % A['r'], 'distinct(seq(%s))' % A['u']],
             ensures=[('nothing but what both have', 'len(result[0]) == len(result[1]) and ' + pos.format(r='result[0]', body=shared.format(a='result[0][p]', x='result[1][p]'))),
                      ('everything both have', allshared.format(c='', r='result[0]', t='result[1]'))],
             locals={R: 'list[str]', X: 'list[str]'}, loops={0: {'inv': inv, 'modifies': MOD}})
    only = '''exists('j:int', 0 <= j and j < len({r}) and {r}[j] not in setof({u}) and {a} == {r}[j] and {x} == {t}[j], {r}[j])'''
    one = lambda a, x: only.format(a=a, x=x, r=A['r'], t=A['t'], u=A['u'])
    two_ = lambda a, x: only.format(a=a, x=x, r=A['u'], t=A['w'], u=A['r'])
    body = lambda a, x, n: ' or '.join([shared.format(a=a, x=x), one(a, x), two_(a, x)][:n])
    has1 = "forall('j:int', implies(0 <= j and j < len({r}) and {r}[j] not in setof({u}){more}, line({R}, {X}, {r}[j], {t}[j])), {r}[j])"
    all1 = lambda R, X, s, more='': has1.format(R=R, X=X, more=more, **(dict(r=A['r'], t=A['t'], u=A['u']) if s == 1 else dict(r=A['u'], t=A['w'], u=A['r'])))
    prog = lambda s: "forall('i:int, j:int', implies(0 <= i and i < k and 0 <= j and j < len({r}) and items[i] == {r}[j], line({R}, {X}, {r}[j], {t}[j])), (items[i], {r}[j]))".format(R=R, X=X, **(dict(r=A['r'], t=A['t']) if s == 1 else dict(r=A['u'], t=A['w'])))
    same = 'len(%s) == len(%s) and %s is not %s' % (R, X, R, X)
    contract(_C + 'union:union_%s' % what, props=['C18'], params={'lgr1': 'LGR', 'lgr2': 'LGR'}, returns='tup[list[str],list[str]]', locals={R: 'list[str]', X: 'list[str]'},
             requires=['len(%s) == len(%s)' % (A['r'], A['t']), 'len(%s) == len(%s)' % (A['u'], A['w']), 'distinct(seq(%s))' % A['r'], 'distinct(seq(%s))' % A['u']],
             ensures=[('nothing but what one of them has', 'len(result[0]) == len(result[1]) and ' + pos.format(r='result[0]', body=body('result[0][p]', 'result[1][p]', 3))),
                      ('everything both have', allshared.format(c='', r='result[0]', t='result[1]')),
                      ('everything only the first has', all1('result[0]', 'result[1]', 1)), ('everything only the second has', all1('result[0]', 'result[1]', 2))],
             loops={0: {'inv': inv, 'modifies': MOD},
                    1: {'modifies': MOD, 'inv': [same, pos.format(r=R, body=body(R + '[p]', X + '[p]', 2)), allshared.format(c='', r=R, t=X), prog(1)]},
                    2: {'modifies': MOD, 'inv': [same, pos.format(r=R, body=body(R + '[p]', X + '[p]', 3)), allshared.format(c='', r=R, t=X), all1(R, X, 1), prog(2)]}})

predicate('offers(r: dict[str,dict[str,str]], v: str)', "exists('i:str', i in r and 'value' in r[i] and r[i]['value'] == v, i in r)")
predicate('valued(r: dict[str,dict[str,str]])', "forall('i:str', implies(i in r, 'value' in r[i]), i in r)")
for m, op in (('union', 'or'), ('intersect', 'and')):
    src = "offers(refs(first), %s) {op} offers(refs(second), %s)".format(op=op)
    contract(_C + '%s:%s_reference_manager' % (m, m), props=['C18'], params={'first': 'ReferenceManager', 'second': 'ReferenceManager'}, returns='ReferenceManager',
             requires=['valued(refs(first))', 'valued(refs(second))'],
             ensures=[('the references of %s' % ('either' if op == 'or' else 'both'), "forall('v:str', offers(refs(result), v) == (%s), offers(refs(result), v), offers(refs(first), v), offers(refs(second), v))" % (src % ('v', 'v'))),
                      ('a table of its own', 'fresh(refs(result))')],
             loops={0: {'inv': ["forall('i:str', implies(i in refs(output), 'value' in refs(output)[i] and exists('j:int', 0 <= j and j < k and items[j] == refs(output)[i]['value'], items[j])), i in refs(output))",
                                "forall('j:int', implies(0 <= j and j < k, offers(refs(output), items[j])), items[j])", 'fresh(refs(output))'],
                        'modifies': ['refs(output)', "fields(output, 'next_id')"]}})
