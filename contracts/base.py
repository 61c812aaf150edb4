"""Types of the fields of the program's classes and models of the dependencies (trusted)."""
import z3
from pyvc.smt import *
from pyvc.core import *
from pyvc.verify import Side
from pyvc.spec import Contract

side = Side()
side.fields.update({
    'Variant': {'cp': 'cps', 'type': 'opt[str]', 'when': 'opt[str]', 'not_when': 'opt[str]', 'comment': 'opt[str]',
                'references': 'list[str]'},
    'CharBase': {'cp': 'cps', 'comment': 'opt[str]', 'references': 'list[str]', 'tags': 'list[str]',
                 'when': 'opt[str]', 'not_when': 'opt[str]', '_variants': 'dict[cps,list[Variant]]'},
    'RangeChar': {'first_cp': 'int', 'last_cp': 'int'},
    'Repertoire': {'ranges': 'list[tup[int,int]]', '_chardict': 'dict[int,list[CharBase]]'},
})


def opaque_string(name):
    def h(ex, st, args, kwargs):
        r = ex.fresh('s_' + name, Str)
        st.fact(r != none_str)
        return [(st, 'ok', V(STR, r))]
    return h


for n in ('format_cp', 'cp_to_str', 'cp_to_ulabel'):
    side.func_externs['lgr.utils:' + n] = opaque_string(n)


def contract(key, **kw):
    c = Contract(key, **kw)
    side.contracts[key] = c
    return c


def define(sig, body):
    name, params = sig.rstrip(')').split('(')
    side.defs[name] = ([p.strip() for p in params.split(',') if p.strip()], body)


def predicate(sig, body, returns='bool', rec=False):
    """sig: name(x: type, y: type)"""
    name, ps = sig.rstrip(')').split('(', 1)
    parts, d, cur = [], 0, ''
    for ch in ps:
        d += ch == '['
        d -= ch == ']'
        if ch == ',' and d == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    names = [p.split(':')[0].strip() for p in parts]
    tys = [p.split(':')[1].strip() for p in parts]
    side.preds[name] = (names, tys, returns, body, rec)


def cps_of(sp, v):
    """the code points a caller means by an entry, a code point or a sequence"""
    if v.ty.k == 'int':
        return V(CPS, SeqTheory.of(Int).unit(v.z))
    if v.ty.k == 'obj':
        return sp.attr(v, 'cp')
    return v


side.spec_funcs['cps_of'] = cps_of


def _counter(ex, st, args, kwargs):
    """collections.Counter of a sequence: its members with the number of their occurrences"""
    v = args[0]
    if v.ty.k == 'opt':
        raise Unsupported('Counter of an optional value')
    z = ex.content(st, v)[0] if v.ty.k == 'list' else v.z
    et = v.ty.a[0]
    th = SeqTheory.of(sortof(et))
    d = V(Ty('dict', et, INT), ex.alloc(st, 'dict'))
    kd, kv = ex.dkeys(d.ty)
    val = ex.fresh('count', z3.ArraySort(th.elem, Int))
    w1, w2 = ex.fresh_fun('occ', th.elem, Int), ex.fresh_fun('occ', th.elem, Int)
    x, i, j = z3.Const('x_ct', th.elem), z3.Int('i_ct'), z3.Int('j_ct')
    c = z3.Select(val, x)
    st.fact(z3.ForAll([x], z3.Implies(th.has(z, x), c >= 1), patterns=[c]))
    st.fact(z3.ForAll([x], z3.Implies(c > 1, z3.And(0 <= w1(x), w1(x) < w2(x), w2(x) < th.len(z), th.at(z, w1(x)) == x, th.at(z, w2(x)) == x)), patterns=[c]))
    st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(z), th.at(z, i) == th.at(z, j)), z3.Select(val, th.at(z, i)) > 1),
                      patterns=[z3.MultiPattern(th.at(z, i), th.at(z, j))]))
    ex.hset(st, kd, d.z, th.setof(z))
    ex.hset(st, kv, d.z, val)
    return [(st, 'ok', d)]


side.ext['collections.Counter'] = _counter

ASSUMPTIONS = [
    'integers are mathematical; strings are an uninterpreted ordered sort with the operations axiomatised',
    'the iteration order of sets and of dictionaries is an arbitrary order of their members',
    'generators are evaluated eagerly (no consumer changes what a generator still has to read)',
    'calls of the logging methods have no effect and are dropped',
    'attributes have the types declared in contracts/base.py for the classes of the program',
    'objects reachable before a call do not refer to objects allocated by it (heap closure)',
]
