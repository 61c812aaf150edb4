"""Substitution that also rewrites quantifier patterns (z3.substitute leaves patterns alone)."""
import z3


def subst(e, consts, funs, _cache=None):
    """consts: {const ast-id: (const, term)}, funs: {decl-id: lambda args -> term}."""
    if _cache is None:
        _cache = {}
    return _go(e, consts, funs, _cache)


def _go(e, C, F, cache):
    key = e.get_id()
    r = cache.get(key)
    if r is not None:
        return r[1]
    if z3.is_quantifier(e):
        vs = [z3.FreshConst(e.var_sort(i), e.var_name(i)) for i in range(e.num_vars())]
        rv = list(reversed(vs))
        body = _go(z3.substitute_vars(e.body(), *rv), C, F, cache)
        pats = []
        for i in range(e.num_patterns()):
            p = e.pattern(i)
            ts = [_go(z3.substitute_vars(p.arg(j), *rv), C, F, cache) for j in range(p.num_args())]
            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        if e.is_lambda():
            r = z3.Lambda(vs, body)
        elif e.is_forall():
            r = z3.ForAll(vs, body, patterns=pats)
        else:
            r = z3.Exists(vs, body, patterns=pats)
    elif z3.is_app(e):
        if e.num_args() == 0:
            c = C.get(key)
            r = c[1] if c is not None else e
        else:
            args = e.children()
            na = [_go(a, C, F, cache) for a in args]
            f = F.get(e.decl().get_id()) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if f is not None:
                r = f(*na)
            elif all(a.eq(b) for a, b in zip(args, na)):
                r = e
            else:
                r = _rebuild(e, na)
    else:
        r = e
    cache[key] = (e, r)
    return r


def _rebuild(e, na):
    d = e.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*na)
    if k == z3.Z3_OP_OR:
        return z3.Or(*na)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*na)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(na) if len(na) > 2 else na[0] + na[1]
    if k == z3.Z3_OP_MUL:
        r = na[0]
        for x in na[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_SUB and len(na) > 2:
        r = na[0]
        for x in na[1:]:
            r = r - x
        return r
    return d(*na)


def symbols(e, seen=None, out=None):
    """all uninterpreted decl ids (consts and funs) in e"""
    if out is None:
        out, seen = set(), set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            for j in range(x.num_patterns()):
                st.append(x.pattern(j))
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.get_id())
            st.extend(x.children())
    return out
