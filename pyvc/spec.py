"""Contracts and the pure specification language (Python expression syntax, evaluated to z3 terms)."""
import ast
import z3
from .smt import *
from .core import *
from .execu import conj, disj, neg, T, F_
from .subst import symbols


class Contract:
    def __init__(self, key, params=None, requires=(), ensures=(), raises=None, modifies=(), exc_modifies=(), loops=None,
                 returns=None, props=(), trusted=False, decreases=None, virtual=False, self_type=None, inline_in_self=False,
                 may_raise=None, lets=None, note='', pure_call=False, opaque=False, hints=(), timeout=None, ensures_exc=None,
                 assumed=(), budget=None, shards=1, cases=(), locals=None, abstract=None):
        self.key, self.params = key, dict(params or {})
        self.requires = [x if isinstance(x, tuple) else (None, x) for x in requires]
        self.ensures = [x if isinstance(x, tuple) else (None, x) for x in ensures]
        self.raises = dict(raises or {})
        self.may_raise = dict(may_raise or {})      # exception -> necessary condition (not exact)
        self.modifies, self.exc_modifies = list(modifies), list(exc_modifies)
        self.loops = loops or {}
        self.returns = returns
        self.props = list(props)
        self.trusted, self.decreases, self.virtual = trusted, decreases, virtual
        self.self_type = self_type
        self.lets = dict(lets or {})
        self.note = note
        self.opaque = opaque
        self.hints = list(hints)
        self.timeout = timeout
        self.ensures_exc = ensures_exc or {}
        # parts of names of obligations the prover does not discharge: assumed by callers, decided by the bounded check only
        self.assumed = list(assumed)
        self.budget = budget
        self.abstract = dict(abstract or {})    # functions called that are modelled by a handler (trusted) while this one is verified
        self.locals = dict(locals or {})        # types of local variables that start empty
        # the result's type depends on the arguments: (condition, type, further postconditions)
        self.cases = [(c, t, [x if isinstance(x, tuple) else (None, x) for x in e]) for c, t, e in cases]
        self.shards = shards         # processes the obligations are spread over

    def is_assumed(self, name):
        return any(a in name for a in self.assumed)


class PredDef:
    def __init__(self, ex, f):
        params, tys, ret, body, rec = ex.side.preds[f]
        self.tys, self.ret = [ty(t) for t in tys], ty(ret)
        self.keys, self.fn = [], None
        st = State()
        st.heap = TraceHeap(ex)
        vs = [z3.Const('p_' + p, sortof(t)) for p, t in zip(params, self.tys)]
        env = {p: ex.unz(v, t) for p, v, t in zip(params, vs, self.tys)}
        sp = Spec(ex, st, env)
        ex.preddefs[f] = self
        self.low = None
        if rec:
            # recursive: a first pass finds what is read, with a stand-in for the recursive uses
            self.fn = z3.Function('P0_' + f, *([sortof(t) for t in self.tys] + [sortof(self.ret)]))
            sp.bool(parse(body)) if self.ret.k == 'bool' else sp.val(parse(body))
            self.keys = list(st.heap)
            # within its own definition it is written as its twin, which does not unfold any further
            self.low = self.fn = z3.Function('PR_' + f, *([st.heap[k].sort() for k in self.keys] + [sortof(t) for t in self.tys] + [sortof(self.ret)]))
        z = sp.bool(parse(body)) if self.ret.k == 'bool' else ex.toz(sp.v(body), self.ret)
        assert self.low is None or self.keys == list(st.heap)
        self.keys = list(st.heap)
        hs = [st.heap[k] for k in self.keys]
        self.fn = z3.Function('P_' + f, *([h.sort() for h in hs] + [sortof(t) for t in self.tys] + [sortof(self.ret)]))
        app = self.fn(*(hs + vs))
        self.ex, self.name, self.hs, self.vs, self.z, self._stable = ex, f, hs, vs, z, {}
        from . import smt
        smt.PRED_HEAPS['P_' + f] = len(hs)
        smt._AX['pred_' + f] = [z3.ForAll(hs + vs, app == z, patterns=[app])]
        if self.low is not None:
            smt.PRED_HEAPS['PR_' + f] = len(hs)
            smt._AX['pred_' + f].append(z3.ForAll(hs + vs, app == self.low(*(hs + vs)), patterns=[app]))


    # ---- frame: a predicate does not depend on objects younger than all it can reach -------------------------
    def stable(self, fields=True):
        """the positions of the arguments that must have existed in a closed heap for the predicate to keep its value when
        cells (fields=False: of lists, sets and dictionaries only) of younger objects change; None when that cannot be
        shown.  Proved once per run, see DESIGN.md"""
        if fields not in self._stable:
            refs = [i for i, v in enumerate(self.vs) if v.sort() == Ref]
            tries = [()] + [(refs[0],)] * bool(refs) + [tuple(refs)] * (len(refs) > 1)
            self._stable[fields] = None
            for t in tries:
                if self.prove_stable(t, fields):
                    self._stable[fields] = t
                    break
        return self._stable[fields]

    def prove_stable(self, req, fields):
        from . import smt
        from .verify import relevant_axioms, split_goal, solve
        ex = self.ex
        A = z3.Const('st_alive', z3.ArraySort(Ref, Bool))
        keys = {}

        def maps(k, i):
            if (k, i) not in keys:
                if not fields and k[0] == 'F' and i:
                    keys[k, i] = maps(k, 0)
                elif k == ('$alive',) and i == 0:
                    keys[k, i] = A
                else:
                    keys[k, i] = z3.FreshConst(z3.ArraySort(Ref, ex.hsort(k)), 'm%d' % i)
            return keys[k, i]
        inner, todo = {}, [self.z]
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() and x.decl().name().startswith('P_') and x.decl().name()[2:] in ex.preddefs:
                    inner[x.decl().name()[2:]] = ex.preddefs[x.decl().name()[2:]]
                todo.extend(x.children())
        hyp = [z3.Select(A, null)]
        r = z3.Const('r_st', Ref)
        ks = set(self.keys)
        for k in sorted(ks, key=str):
            a, b = maps(k, 0), maps(k, 1)
            if k == ('$alive',):
                hyp.append(z3.ForAll([r], z3.Implies(a[r], b[r]), patterns=[a[r], b[r]]))
            else:
                if not a.eq(b):
                    hyp.append(z3.ForAll([r], z3.Implies(A[r], a[r] == b[r]), patterns=[a[r], b[r]]))
                hyp += ex.closure(k, z3.Select(a, r), A, [r], [z3.Select(A, r)])
        hyp += [A[self.vs[i]] for i in req]
        for d in list(inner.values()) + ([self] if self.low is not None else []):
            # for its own recursive uses this is the induction hypothesis (its definition is not at hand here)
            st = req if d is self else d.stable(fields)
            if st is not None:
                l, q = [(d.low if d is self else d.fn)(*([maps(k, i) for k in d.keys] + d.vs)) for i in (0, 1)]
                eq = l == q
                g = [A[d.vs[i]] for i in st]
                eq = z3.Implies(z3.And(*g), eq) if g else eq
                hyp.append(z3.ForAll(d.vs, eq, patterns=[l, q]) if d.vs else eq)
        z0, z1 = [z3.substitute(self.z, *[(h, maps(k, i)) for h, k in zip(self.hs, self.keys)]) for i in (0, 1)]
        goal = z0 == z1
        back = {maps(k, 1).get_id(): maps(k, 0) for k in ks}
        for t in ground_terms(z1):
            if t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).get_id() in back:
                a = back[t.arg(0).get_id()]
                if not a.eq(t.arg(0)):
                    hyp.append(z3.Implies(A[t.arg(1)], a[t.arg(1)] == t))
        own = smt._AX.pop('pred_' + self.name, None)
        try:
            for q in split_goal({'path': hyp, 'goal': goal, 'ax': [], 'name': 'stable', 'kind': 'lemma'}):
                if solve(q, 2000, False, 2)[0] != 'proved':
                    return False
            return True
        finally:
            if own is not None:
                smt._AX['pred_' + self.name] = own


def ground_terms(e):
    out, seen = [], {}

    def go(x):
        k = x.get_id()
        if k in seen:
            return seen[k]
        if z3.is_var(x):
            g = False
        elif z3.is_quantifier(x):
            go(x.body())
            g = False
        else:
            g = all([go(c) for c in x.children()])
            if g:
                out.append(x)
        seen[k] = g
        return g
    go(e)
    return out


class TraceHeap(dict):
    def __init__(self, ex):
        self.ex = ex

    def get(self, k, d=None):
        if k not in self:
            self[k] = z3.Const('hp_' + '_'.join(''.join(c if c.isalnum() else '_' for c in str(x)) for x in k),
                               z3.ArraySort(Ref, self.ex.hsort(k)))
        return self[k]


_parse_cache = {}


def parse(s):
    if s not in _parse_cache:
        _parse_cache[s] = ast.parse(s.strip().replace('\n', ' '), mode='eval').body
    return _parse_cache[s]


class Spec:
    """evaluates a spec expression in a state (heap) with an environment; pure"""

    def __init__(self, ex, st, env, old=None, defs=None, result=None):
        self.ex, self.st, self.env, self.old = ex, st, dict(env), old
        self.defs = defs if defs is not None else ex.side.defs
        if result is not None:
            self.env['result'] = result

    def b(self, src):
        n = parse(src) if isinstance(src, str) else src
        return self.bool(n)

    def v(self, src):
        n = parse(src) if isinstance(src, str) else src
        return self.val(n)

    # ---- booleans
    def bool(self, n):
        if isinstance(n, ast.BoolOp):
            xs = [self.bool(x) for x in n.values]
            return conj(xs) if isinstance(n.op, ast.And) else disj(xs)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return neg(self.bool(n.operand))
        v = self.val(n)
        if v.ty.k == 'bool':
            return v.z
        if v.ty.k in ('list', 'seq'):
            c, th, _ = self.ex.content(self.st, v)
            return th.len(c) > 0 if c is not None else F_
        if v.ty.k in ('opt',):
            return neg(is_none_z(v.ty, v.z))
        if v.ty.k == 'none':
            return F_
        if v.ty.k == 'tup':
            return z3.BoolVal(bool(v.z))
        if v.ty.k == 'str':
            return v.z != empty_str
        raise Unsupported('spec truth of %r' % v.ty)

    def val(self, n):
        m = getattr(self, 'v_' + n.__class__.__name__, None)
        if m is None:
            raise Unsupported('spec expression %s' % ast.dump(n)[:60])
        return m(n)

    def v_BoolOp(self, n):
        return vbool(self.bool(n))

    def v_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return vbool(neg(self.bool(n.operand)))
        return vint(-self.val(n.operand).z)

    def v_Constant(self, n):
        v = n.value
        if v is None:
            return NONEV
        if isinstance(v, bool):
            return vbool(v)
        if isinstance(v, int):
            return vint(v)
        return vstr(v)

    def v_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id in self.ex.prog.classes:
            return V(Ty('class'), n.id)
        if n.id in ('int', 'str', 'tuple', 'list', 'bool'):
            return V(Ty('builtin'), n.id)
        c = self.ex.side.spec_consts.get(n.id)
        if c is not None:
            return c(self.ex, self.st)
        raise Unsupported('spec name %s' % n.id)

    def v_Tuple(self, n):
        return vtup([self.val(x) for x in n.elts])

    def v_List(self, n):
        return vtup([self.val(x) for x in n.elts])

    def v_IfExp(self, n):
        c = z3.simplify(self.bool(n.test))
        if z3.is_true(c) or z3.is_false(c):
            return self.val(n.body if z3.is_true(c) else n.orelse)
        a, b = self.val(n.body), self.val(n.orelse)
        t = self.ex.join(a.ty, b.ty)
        return self.ex.unz(z3.If(c, self.ex.toz(a, t), self.ex.toz(b, t)), t)

    def v_Attribute(self, n):
        v = self.val(n.value)
        return self.attr(v, n.attr)

    def attr(self, v, a):
        if v.ty.k == 'rec':
            return self.st.recs[v.z][a]
        if v.ty.k == 'opt':
            v = V(v.ty.a[0], unopt_z(v.ty, v.z))
        if v.ty.k == 'obj':
            cls = v.ty.a[0]
            ow = self.ex.field_owner(cls, a)
            if ow is not None:
                return self.ex.unz(self.ex.hget(self.st, ('F', ow, a), v.z), self.ex.field_ty(ow, a))
        if v.ty.k == 'int' and a == 'name':
            return V(STR, enum_name(v.z))
        if v.ty.k == 'class':
            en = self.ex.enum_member(v.z, a)
            if en is not None:
                return en
            if self.ex.prog.nested_class(v.z, a):
                return V(Ty('class'), a)
            ca = self.ex.prog.class_attr(v.z, a)
            if ca is not None and isinstance(ca[1], ast.Constant):
                return self.v_Constant(ca[1])
        raise Unsupported('spec attribute %s of %r' % (a, v.ty))

    def v_Subscript(self, n):
        v = self.val(n.value)
        if v.ty.k == 'opt':
            v = V(v.ty.a[0], unopt_z(v.ty, v.z))
        if isinstance(n.slice, ast.Slice):
            c, th, et = self.ex.content(self.st, v)
            lo = self.val(n.slice.lower).z if n.slice.lower is not None else None
            hi = self.val(n.slice.upper).z if n.slice.upper is not None else None
            r = c
            if hi is not None:
                r = th.take(r, hi)
            if lo is not None:
                r = th.drop(r, lo)
            return V(Ty('seq', et), r)
        i = self.val(n.slice)
        if v.ty.k == 'rec':
            return self.st.recs[v.z][i.x['lit']]
        if v.ty == Ty('obj', 'Record'):
            return self.attr(v, i.x['lit'])
        if v.ty.k == 'obj':
            dl = self.ex.side.dictlike(self.ex, v.ty.a[0])
            if dl:
                v = V(ty(dl), v.z)
        if v.ty.k == 'dict':
            kd, kv = self.ex.dkeys(v.ty)
            return self.ex.unz(z3.Select(self.ex.hget(self.st, kv, v.z), self.ex.toz(i, v.ty.a[0])), v.ty.a[1])
        if v.ty.k == 'tup':
            j = z3.simplify(i.z)
            if z3.is_int_value(j):
                return (self.ex.unz(v.z, v.ty) if z3.is_expr(v.z) else v).z[j.as_long()]
        c, th, et = self.ex.content(self.st, v)
        iz = z3.simplify(i.z)
        if z3.is_int_value(iz) and iz.as_long() < 0:
            iz = th.len(c) + iz
        return self.ex.unz(th.at(c, iz), et)

    def v_Compare(self, n):
        out = []
        l = self.val(n.left)
        for op, r in zip(n.ops, n.comparators):
            r = self.val(r)
            out.append(self.cmp(op, l, r))
            l = r
        return vbool(conj(out))

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return neg(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return neg(self.contains(b, a))
        if a.ty.k in ('int', 'bool') and b.ty.k in ('int', 'bool'):
            x, y = self.ex.toz(a, INT), self.ex.toz(b, INT)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        le = self.ex.le_fn(a.ty)
        x, y = self.ex.toz(a, a.ty), self.ex.toz(b, a.ty)
        return {ast.Lt: neg(le(y, x)), ast.LtE: le(x, y), ast.Gt: neg(le(x, y)), ast.GtE: le(y, x)}[type(op)]

    def eq(self, a, b):
        x, y = a.ty, b.ty
        if x.k in ('obj', 'list', 'dict', 'set') and y.k in ('obj', 'list', 'dict', 'set'):
            return a.z == b.z if x.k == y.k else F_
        if x.k == 'opt' and y.k == 'opt' and x != y and sortof(x) == sortof(y):
            return a.z == b.z
        if x.k == 'opt' and y.k == 'opt' and sortof(x) == sortof(y):
            return a.z == b.z
        if x.k == 'opt' and y.k in ('obj', 'list', 'str') and sortof(x) == sortof(y):
            return a.z == b.z
        if y.k == 'opt' and x.k in ('obj', 'list', 'str') and sortof(x) == sortof(y):
            return a.z == b.z
        if x.k in ('seq', 'tup') and y.k in ('seq', 'tup') and not (x.k == y.k == 'tup'):
            return self.ex.seqeq(self.st, a, b)
        if x.k == 'tup' and y.k == 'tup':
            return conj([self.eq(p, q) for p, q in zip(a.z, b.z)]) if len(a.z) == len(b.z) else F_
        return self.ex.eqz(self.st, a, b)

    def contains(self, c, x):
        k = c.ty.k
        if k == 'opt':
            c = V(c.ty.a[0], unopt_z(c.ty, c.z))
            k = c.ty.k
        if k == 'obj':
            dl = self.ex.side.dictlike(self.ex, c.ty.a[0])
            if dl:
                c = V(ty(dl), c.z)
                k = 'dict'
        if k in ('dict', 'set', 'fset'):
            return z3.Select(self.ex.setz(self.st, c), self.ex.toz(x, c.ty.a[0]))
        if k == 'tup':
            return disj([self.eq(x, y) for y in c.z])
        if k in ('list', 'seq'):
            z, th, et = self.ex.content(self.st, c)
            if z is None:
                return F_
            return th.has(z, self.ex.toz(x, et))
        if k == 'range':
            return z3.And(c.z[0] <= x.z, x.z < c.z[1])
        if k == 'str':
            return strin(x.z, c.z)
        raise Unsupported('spec in %r' % c.ty)

    def v_BinOp(self, n):
        a, b = self.val(n.left), self.val(n.right)
        if a.ty.k in ('int', 'bool') and b.ty.k in ('int', 'bool'):
            x, y = self.ex.toz(a, INT), self.ex.toz(b, INT)
            if isinstance(n.op, ast.Add):
                return vint(x + y)
            if isinstance(n.op, ast.Sub):
                return vint(x - y)
            if isinstance(n.op, ast.Mult):
                return vint(x * y)
        if isinstance(n.op, ast.Add):
            if a.ty.k == 'str':
                return self.ex.scat(a, b)
            if a.ty.k == 'tup' and b.ty.k == 'tup':
                return vtup(a.z + b.z)
            ca, th, et = self.ex.content(self.st, a)
            if ca is None:
                return b
            cb, th2, _ = self.ex.content(self.st, b)
            if cb is None:
                return a
            if th is not th2:
                cb = self.ex.toz(b, Ty('seq', et))
            return V(Ty('seq', et), th.concat(ca, cb))
        if a.ty.k in ('set', 'fset') and b.ty.k in ('set', 'fset'):
            return V(Ty('fset', a.ty.a[0]), self.ex.setop(n.op, self.ex.setz(self.st, a), self.ex.setz(self.st, b)))
        raise Unsupported('spec binop')

    # ---- calls
    def v_Call(self, n):
        if isinstance(n.func, ast.Name):
            f = n.func.id
            m = getattr(self, 'c_' + f, None)
            if m is not None:
                return m(n)
            if f in self.defs:
                return self.macro(f, n)
            if f in self.ex.side.preds:
                return self.pred(f, n)
            h = self.ex.side.spec_funcs.get(f)
            if h is not None:
                return h(self, *[self.val(a) for a in n.args])
            raise Unsupported('spec function %s' % f)
        raise Unsupported('spec call %s' % ast.unparse(n.func))

    def macro(self, f, n):
        params, body = self.defs[f]
        sub = Spec(self.ex, self.st, self.env, self.old, self.defs)
        sub.entry = self.entry
        sub.begin = self.begin
        sub.env = dict(zip(params, [self.val(a) for a in n.args]))
        sub.bound = getattr(self, 'bound', [])
        return sub.val(parse(body))

    def pred(self, f, n):
        """named predicate/function over the heap: an uninterpreted symbol with a defining axiom"""
        ex = self.ex
        d = ex.preddefs.get(f)
        if d is None:
            d = ex.preddefs[f] = PredDef(ex, f)
        args = [self.val(a) for a in n.args]
        zs = [ex.toz(a if not (a.ty.k == 'opt' and t.k != 'opt') else V(a.ty.a[0], unopt_z(a.ty, a.z)), t)
              for a, t in zip(args, d.tys)]
        for k in d.keys:
            ex.h(self.st, k)
        hs = [ex.h(self.st, k) for k in d.keys]
        if not isinstance(self.st.heap, TraceHeap):
            hs = self.strip(d, hs, zs)
        return ex.unz(d.fn(*(hs + zs)), d.ret)

    def strip(self, d, hs, zs):
        """leave out the cells of objects younger than everything the predicate reaches"""
        ex = self.ex
        news = ex.newrefs or {}

        def isnew(m, bound):
            return (z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE and m.arg(1).get_id() in news
                    and ex.born[m.arg(1).get_id()] > bound)
        al = d.keys.index(('$alive',)) if ('$alive',) in d.keys else None
        if not any(isnew(m, -1) for m in hs) and (al is None or ex.birth(hs[al]) == 0):
            return hs
        req = d.stable(any(k[0] == 'F' and isnew(m, -1) for k, m in zip(d.keys, hs)))
        if req is None:
            return hs
        bound = max([0] + [ex.vbirth(zs[i]) for i in req])
        while True:
            out = []
            for m in hs:
                while isnew(m, bound):
                    m = m.arg(0)
                out.append(m)
            b2 = max([bound] + [ex.vbirth(m) for i, m in enumerate(out) if i != al])
            if b2 == 0 and al is not None:
                out[al] = ex.h0[('$alive',)]
                return out
            if al is not None:
                b2 = max(b2, ex.birth(out[al]))
            if b2 <= bound:
                return out
            bound = b2

    def c_old(self, n):
        if self.old is None:
            return self.val(n.args[0])
        sub = Spec(self.ex, self.old, self.env, None, self.defs)
        return sub.val(n.args[0])

    entry = None
    begin = None

    def c_pre(self, n):
        """in a loop invariant: the value when the loop starts"""
        return Spec(self.ex, self.entry, self.env, None, self.defs).val(n.args[0])

    def c_begin(self, n):
        """in a cut at the end of a loop body: the value at its beginning"""
        sub = Spec(self.ex, self.begin, dict(self.env, **self.begin.env), None, self.defs)
        return sub.val(n.args[0])

    def c_newer(self, n):
        """in a loop invariant: allocated since the loop started"""
        return vbool(neg(self.ex.alive(self.entry, self.val(n.args[0]).z)))

    def c_implies(self, n):
        return vbool(z3.Implies(self.bool(n.args[0]), self.bool(n.args[1])))

    def c_iff(self, n):
        return vbool(self.bool(n.args[0]) == self.bool(n.args[1]))

    def c_len(self, n):
        v = self.val(n.args[0])
        if v.ty.k == 'opt':
            v = V(v.ty.a[0], unopt_z(v.ty, v.z))
        if v.ty.k == 'tup':
            return vint(len(v.z))
        if v.ty.k == 'str':
            return vint(strlen(v.z))
        if v.ty.k in ('dict', 'set', 'fset'):
            a = self.ex.setz(self.st, v)
            return vint(card_of(a.sort().domain())(a))
        c, th, _ = self.ex.content(self.st, v)
        return vint(th.len(c) if c is not None else 0)

    def c_isinstance(self, n):
        c = n.args[1]
        cl = V(Ty('class'), c.id) if c.id in self.ex.prog.classes else V(Ty('builtin'), c.id)
        v = self.val(n.args[0])
        return vbool(self.ex.isinst(self.st, V(v.ty, v.z), cl))

    def c_seq(self, n):
        v = self.val(n.args[0])
        if v.ty.k == 'tup':
            return v
        c, th, et = self.ex.content(self.st, v)
        return vtup([]) if c is None else V(Ty('seq', et), c)

    c_tuple = c_seq
    c_list = c_seq

    def c_setof(self, n):
        v = self.val(n.args[0])
        if v.ty.k in ('set', 'fset', 'dict'):
            return V(Ty('fset', v.ty.a[0]), self.ex.setz(self.st, v))
        c, th, et = self.ex.content(self.st, v)
        return V(Ty('fset', et), th.setof(c))

    def c_distinct(self, n):
        c, th, et = self.ex.content(self.st, self.val(n.args[0]))
        return vbool(th.distinct(c) if c is not None else T)

    def c_unopt(self, n):
        v = self.val(n.args[0])
        return self.ex.unz(unopt_z(v.ty, v.z), v.ty.a[0]) if v.ty.k == 'opt' else v

    def c_is_some(self, n):
        v = self.val(n.args[0])
        return vbool(neg(is_none_z(v.ty, v.z)) if v.ty.k == 'opt' else v.ty.k != 'none')

    def c_alive(self, n):
        return vbool(self.ex.alive(self.st, self.val(n.args[0]).z))

    def c_fresh(self, n):
        return vbool(neg(self.ex.alive(self.old, self.val(n.args[0]).z)))

    def c_range(self, n):
        xs = [self.val(a).z for a in n.args]
        if len(xs) == 1:
            xs = [z3.IntVal(0)] + xs
        return V(Ty('range'), tuple(xs))

    def c_min(self, n):
        a, b = [self.val(x).z for x in n.args]
        return vint(z3.If(a <= b, a, b))

    def c_max(self, n):
        a, b = [self.val(x).z for x in n.args]
        return vint(z3.If(a >= b, a, b))

    def c_str(self, n):
        v = self.val(n.args[0])
        return self.ex.to_str(self.st, v)

    def c_let(self, n):
        # let('x', e, body)
        sub = self.child({n.args[0].value: self.val(n.args[1])})
        return sub.val(n.args[2])

    def child(self, more):
        sub = Spec(self.ex, self.st, dict(self.env, **more), self.old, self.defs)
        sub.entry = self.entry
        sub.begin = self.begin
        return sub

    def quant(self, n, mk):
        names, vs, env, guards = [], [], {}, []
        dec = n.args[0].value
        for part in _split(dec):
            nm, t = part.split(':')
            t = ty(t.strip())
            z = z3.FreshConst(sortof(t), nm.strip())
            vs.append(z)
            if t.k in ('obj', 'list', 'dict', 'set', 'seq', 'str', 'tup'):
                w = self.ex.wf(self.st, z, t)
                if not z3.is_true(w):
                    guards.append(w)
            env[nm.strip()] = self.ex.unz(z, t) if t.k != 'tup' else self.ex.unz(z, t)
        sub = self.child(env)
        body = sub.bool(n.args[1])
        pats = []
        for a in n.args[2:]:
            if isinstance(a, (ast.Tuple, ast.List)):
                pats.append(z3.MultiPattern(*[sub.patterm(x) for x in a.elts]))
            else:
                pats.append(sub.patterm(a))
        if not pats:
            p = _pick(body, vs)
            pats = p
        for q in list(pats):        # the twin of a recursive predicate will do as well
            d = self.ex.preddefs.get(q.decl().name()[2:]) if z3.is_app(q) and q.decl().name().startswith('P_') else None
            if d is not None and d.low is not None and mk is z3.ForAll:
                pats.append(d.low(*q.children()))
        if guards:
            body = z3.Implies(conj(guards), body) if mk is z3.ForAll else conj(guards + [body])
        try:
            r = mk(vs, body, patterns=pats) if pats else mk(vs, body)
        except z3.Z3Exception:
            raise Unsupported("invalid pattern %s" % pats)
        return vbool(r)

    def patterm(self, n):
        v = self.val(n)
        if v.ty.k == 'tup':     # a tuple read out of a sequence: the element itself
            z = self.ex.toz(v, v.ty)
            if z.num_args() and all(x.num_args() == 1 and x.arg(0).eq(z.arg(0).arg(0)) for x in z.children()):
                z = z.arg(0).arg(0)
            return z
        z = v.z
        while z3.is_not(z):
            z = z.arg(0)
        return z

    def c_forall(self, n):
        return self.quant(n, z3.ForAll)

    def c_exists(self, n):
        return self.quant(n, z3.Exists)

    def gen(self, n):
        """generator expression -> (vars, guard, triggers, env)"""
        vs, guard, trig = [], [], []
        sub = self.child({})
        self.gen_wf = []
        for g in n.generators:
            it = g.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('values', 'items', 'keys'):
                d = sub.val(it.func.value)
                kind = it.func.attr
            else:
                d = sub.val(it)
                kind = None
            if d.ty.k == 'opt':
                d = V(d.ty.a[0], unopt_z(d.ty, d.z))
            if d.ty.k == 'obj':
                dl = self.ex.side.dictlike(self.ex, d.ty.a[0])
                if dl:
                    d = V(ty(dl), d.z)
            if d.ty.k == 'range':
                i = z3.FreshConst(Int, 'i')
                vs.append(i)
                guard.append(z3.And(d.z[0] <= i, i < d.z[1]))
                trig.append(None)
                x = vint(i)
            elif d.ty.k in ('list', 'seq'):
                c, th, et = self.ex.content(self.st, d)
                if c is None:
                    guard.append(F_)
                    c = SeqTheory.of(Int).empty
                    th, et = SeqTheory.of(Int), INT
                i = z3.FreshConst(Int, 'i')
                vs.append(i)
                guard.append(z3.And(0 <= i, i < th.len(c)))
                trig.append(th.at(c, i))
                x = self.ex.unz(th.at(c, i), et)
            elif d.ty.k in ('set', 'fset', 'dict'):
                a = self.ex.setz(self.st, d)
                kt = d.ty.a[0]
                q = z3.FreshConst(sortof(kt), 'x')
                vs.append(q)
                if kt.k == 'seq':       # a sequence is never the None of its sort
                    self.gen_wf.append(q != SeqTheory.of_sort(q.sort()).none)
                guard.append(z3.Select(a, q))
                trig.append(z3.Select(a, q))
                x = self.ex.unz(q, kt)
                if d.ty.k == 'dict' and kind in ('values', 'items'):
                    kd, kv = self.ex.dkeys(d.ty)
                    w = self.ex.unz(z3.Select(self.ex.hget(self.st, kv, d.z), q), d.ty.a[1])
                    x = w if kind == 'values' else vtup([x, w])
            else:
                raise Unsupported('spec iteration over %r' % d.ty)
            sub = sub.child(sub.bindt(g.target, x))
            for c in g.ifs:
                guard.append(sub.bool(c))
        return vs, guard, trig, sub

    def bindt(self, t, v):
        if isinstance(t, ast.Name):
            return {t.id: v}
        out = {}
        if v.ty.k == 'tup':
            for x, w in zip(t.elts, v.z):
                out.update(self.bindt(x, w))
            return out
        c, th, et = self.ex.content(self.st, v)
        for i, x in enumerate(t.elts):
            out.update(self.bindt(x, self.ex.unz(th.at(c, z3.IntVal(i)), et)))
        return out

    def c_all(self, n):
        if not isinstance(n.args[0], ast.GeneratorExp):
            raise Unsupported('spec all')
        g = n.args[0]
        if len(g.generators) == 1 and not isinstance(g.generators[0].iter, ast.Call):
            d = self.val(g.generators[0].iter)
            if d.ty.k == 'tup':
                out = []
                for x in d.z:
                    sub = self.child(self.bindt(g.generators[0].target, x))
                    out.append(z3.Implies(conj([sub.bool(c) for c in g.generators[0].ifs]), sub.bool(g.elt)))
                return vbool(conj(out))
        vs, guard, trig, sub = self.gen(g)
        body = sub.bool(g.elt)
        b = z3.Implies(conj(guard), body)
        return vbool(self.mkq(z3.ForAll, vs, b, trig))

    def c_any(self, n):
        g = n.args[0]
        if len(g.generators) == 1 and not isinstance(g.generators[0].iter, ast.Call):
            d = self.val(g.generators[0].iter)
            if d.ty.k == 'tup':
                out = []
                for x in d.z:
                    sub = self.child(self.bindt(g.generators[0].target, x))
                    out.append(conj([sub.bool(c) for c in g.generators[0].ifs] + [sub.bool(g.elt)]))
                return vbool(disj(out))
        vs, guard, trig, sub = self.gen(g)
        body = sub.bool(g.elt)
        return vbool(self.mkq(z3.Exists, vs, conj(guard + [body]), trig))

    def mkq(self, q, vs, body, trig):
        trig = [t for t in trig if t is not None and _ok_pat(t)]
        miss = [v for v in vs if not any(v.get_id() in _consts(t) for t in trig)]
        if not trig or miss:
            extra = _pick(body, vs) if True else []
            return q(vs, body, patterns=extra) if extra else q(vs, body)
        return q(vs, body, patterns=[z3.MultiPattern(*trig) if len(trig) > 1 else trig[0]])


def _split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            d += 1
        if ch == ']':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def _consts(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0:
            out.add(x.get_id())
        elif z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    return out


BADK = None


def _ok_pat(t):
    """no interpreted boolean/arithmetic operators in a pattern"""
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or not z3.is_app(x):
            return False
        k = x.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE,
                 z3.Z3_OP_GT, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT):
            return False
        st.extend(x.children())
    return True


def _pick(body, vs):
    """choose patterns: minimal uninterpreted/select applications covering all the variables"""
    ids = {v.get_id() for v in vs}
    cands = []
    st, seen = [body], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            k = x.decl().kind()
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and _ok_pat(x):
                cs = _consts(x) & ids
                if cs:
                    cands.append((x, cs, _size(x)))
            st.extend(x.children())
    cands.sort(key=lambda c: c[2])
    full = [c for c in cands if c[1] == ids]
    # prefer terms where the variable is a direct argument
    if full:
        m = min(c[2] for c in full)
        best = [c for c in full if c[2] <= m]
        direct = [c for c in full if c[2] <= m + 1][:3]
        return [c[0] for c in direct]
    got, pat = set(), []
    for c in cands:
        if not c[1] <= got:
            pat.append(c[0])
            got |= c[1]
        if got == ids:
            return [z3.MultiPattern(*pat)]
    return []


def _size(x):
    n, st = 0, [x]
    while st:
        y = st.pop()
        n += 1
        st.extend(y.children())
    return n
