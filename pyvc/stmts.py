"""Statements and loop rules."""
import ast
import copy
import z3
from .smt import *
from .core import *
from .execu import *
from .execu import OK, EXC, T, F_, LOGM, Lift, _hasq
from .source import Func, BUILTIN_EXC, BUILTIN_EXC_SUP
from .subst import symbols, subst


def assigned_names(stmts):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            tgt(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return out


class _StripAug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        return ast.copy_location(ast.Pass(), n)


def strip_aug(body):
    return [_StripAug().visit(copy.deepcopy(b)) for b in body]


class Stmts:
    # ------------------------------------------------------------------ blocks
    def block(self, stmts, st):
        outs = [(st, OK, None)]
        for i, s in enumerate(stmts):
            nxt = []
            for s1, k, v in outs:
                if k == OK:
                    nxt.extend(self.stmt(s, s1))
                else:
                    nxt.append((s1, k, v))
            outs = nxt
            if all(k != OK for _, k, _ in outs):
                break
        return outs

    def stmt(self, s, st):
        m = getattr(self, 'st_' + s.__class__.__name__, None)
        if m is None:
            raise Unsupported('statement %s' % s.__class__.__name__)
        return m(s, st)

    def none(self, outs):
        return [(s, k, None if k == OK else v) for s, k, v in outs]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, OK, None)]
        if isinstance(s.value, ast.Yield):
            if s.value.value is None:
                raise Unsupported('bare yield')
            return self.none(self.bind(self.ev(s.value.value, st), lambda s1, v: self.list_method(
                s1, s1.env['$yield'], 'append', [self.yielded(s1, v)], {}, None)))
        if isinstance(s.value, ast.YieldFrom):
            return self.none(self.bind(self.ev(s.value.value, st), lambda s1, v: self.list_method(
                s1, s1.env['$yield'], 'extend', [v], {}, None)))
        return self.none(self.ev(s.value, st))

    def yielded(self, st, v):
        t = st.env['$yield'].ty.a[0]
        if v.ty.k == 'opt' and t.k not in ('opt', '?', 'any'):
            self.oblige(st, 'a value is generated', neg(is_none_z(v.ty, v.z)), 'raise')
            v = self.unz(unopt_z(v.ty, v.z), v.ty.a[0])
        return v if t.k == '?' else self.snap(st, t, v)

    def st_Pass(self, s, st):
        return [(st, OK, None)]

    def st_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.env[nm] = V(Ty('module'), a.name) if a.name in self.prog.mods else V(Ty('ext'), a.name)
        return [(st, OK, None)]

    def st_ImportFrom(self, s, st):
        for a in s.names:
            nm = a.asname or a.name
            if s.module in self.prog.mods:
                if s.module + '.' + a.name in self.prog.mods and a.name not in self.prog.mods[s.module].funcs:
                    st.env[nm] = V(Ty('module'), s.module + '.' + a.name)
                else:
                    st.env[nm] = self.glob(st, self.prog.mods[s.module], a.name)
            else:
                st.env[nm] = V(Ty('ext'), '%s.%s' % (s.module, a.name))
        return [(st, OK, None)]

    def st_FunctionDef(self, s, st):
        f = Func(st.env['$mod'], s)
        f.closure = len(st.frames) - 1
        st.env[s.name] = V(Ty('func'), f)
        return [(st, OK, None)]

    def st_Return(self, s, st):
        if s.value is None:
            return [(st, 'ret', NONEV)]
        return [(s1, 'ret' if k == OK else k, v) for s1, k, v in self.ev(s.value, st)]

    def st_Break(self, s, st):
        return [(st, 'brk', None)]

    def st_Continue(self, s, st):
        return [(st, 'cont', None)]

    def st_Assert(self, s, st):
        def f(s1, b):
            a, c = self.split(s1, b)
            r = []
            if c is not None:
                r.append(self.exc(c, 'AssertionError'))
            if a is not None:
                self.narrow(a, s.test, True)
                r.append((a, OK, None))
            return r
        return self.bind(self.evcond(s.test, st), f)

    def st_If(self, s, st):
        def f(s1, b):
            a, c = self.split(s1, b)
            r = []
            if a is not None:
                self.narrow(a, s.test, True)
                r += self.block(s.body, a)
            if c is not None:
                self.narrow(c, s.test, False)
                r += self.block(s.orelse, c)
            return r
        n0 = len(st.path)
        return self.merged(n0, self.bind(self.evcond(s.test, st), f))

    @staticmethod
    def _samev(a, b):
        if a is b:
            return True
        if not isinstance(a, V) or not isinstance(b, V):
            return a == b if not isinstance(a, (list, dict)) else False
        if a.ty != b.ty or (a.x or None) != (b.x or None) and a.x is not b.x:
            return False
        if z3.is_expr(a.z) and z3.is_expr(b.z):
            return a.z.eq(b.z)
        if isinstance(a.z, list) and isinstance(b.z, list):
            return len(a.z) == len(b.z) and all(Stmts._samev(x, y) for x, y in zip(a.z, b.z))
        return a.z is b.z

    def same_state(self, a, b):
        if len(a.frames) != len(b.frames) or a.stack != b.stack or a.note is not b.note or len(a.yields) != len(b.yields):
            return False
        if any(x is not y for x, y in zip(a.yields, b.yields)):
            return False
        for f, g in zip(a.frames, b.frames):
            if f.keys() != g.keys() or not all(self._samev(f[n], g[n]) for n in f):
                return False
        if a.heap.keys() != b.heap.keys() or not all(a.heap[k].eq(b.heap[k]) for k in a.heap):
            return False
        return a.recs.keys() == b.recs.keys() and all(
            a.recs[k].keys() == b.recs[k].keys() and all(self._samev(a.recs[k][n], b.recs[k][n]) for n in a.recs[k]) for k in a.recs)

    def merged(self, n0, outs):
        """joins the paths through a statement that leave the same state behind"""
        res = []
        for o in outs:
            s, k, v = o
            if k == OK and v is None and len(s.path) - n0 <= 4 and not any(_hasq(f) for _, f in s.path[n0:]):
                for i, (s2, k2, v2) in enumerate(res):
                    if k2 == OK and v2 is None and len(s2.path) - n0 <= 4 and all(x is y or x[1].eq(y[1]) for x, y in zip(s.path[:n0], s2.path[:n0])) \
                            and not any(_hasq(f) for _, f in s2.path[n0:]) and self.same_state(s, s2):
                        c = z3.simplify(z3.Or(conj([f for _, f in s.path[n0:]]), conj([f for _, f in s2.path[n0:]])))
                        m = s2.clone()
                        m.path = m.path[:n0]
                        m.cond(c)
                        res[i] = (m, OK, None)
                        break
                else:
                    res.append(o)
            else:
                res.append(o)
        return res

    def st_Raise(self, s, st):
        if s.exc is None:
            cur = st.env.get('$exc')
            if cur is None:
                raise Unsupported('bare raise')
            return [(st, EXC, cur)]

        def f(s1, v):
            if v.ty.k == 'class':
                return [(s2, EXC if k == OK else k, w) for s2, k, w in self.construct(s1, v.z, [], {})]
            if v.ty.k == 'obj':
                return [(s1, EXC, v)]
            raise Unsupported('raise %r' % v.ty)
        return self.bind(self.ev(s.exc, st), f)

    def st_Delete(self, s, st):
        outs = [(st, OK, None)]
        for t in s.targets:
            def f(s1, _, t=t):
                if isinstance(t, ast.Name):
                    s1.env[t.id] = UNDEF
                    return [(s1, OK, None)]
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    return self.none(self.bind(self.evs([t.value, t.slice], s1), lambda s2, vs: self.delitem(s2, vs[0], vs[1])))
                raise Unsupported('del')
            outs = self.bind(outs, f)
        return outs

    def delitem(self, st, v, i):
        if v.ty.k == 'obj' and self.prog.method(v.ty.a[0], '__delitem__'):
            return self.call_method(st, v, '__delitem__', [i], {})
        if v.ty.k == 'obj' and self.side.dictlike(self, v.ty.a[0]):
            v = self.as_dict(st, v)
        if v.ty.k == 'dict':
            return self.dict_del(st, v, i)
        if v.ty.k == 'rec' and i.x and 'lit' in i.x:
            if i.x['lit'] not in st.recs[v.z]:
                return [self.exc(st, 'KeyError')]
            del st.recs[v.z][i.x['lit']]
            return [(st, OK, NONEV)]
        raise Unsupported('del item of %r' % v.ty)

    # ------------------------------------------------------------------ assignment
    def st_Assign(self, s, st):
        def f(s1, v):
            outs = [(s1, OK, None)]
            for t in s.targets:
                outs = self.bind(outs, lambda s2, _, t=t: self.assign(s2, t, v))
            return outs
        return self.bind(self.ev(s.value, st), f)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, OK, None)]
        return self.bind(self.ev(s.value, st), lambda s1, v: self.assign(s1, s.target, v))

    def st_AugAssign(self, s, st):
        t = s.target

        def op(s1, cur, rhs):
            if cur.ty.k == 'list' and isinstance(s.op, ast.Add):
                return [(s2, k, cur if k == OK else v) for s2, k, v in self.list_method(s1, cur, 'extend', [rhs], {}, s)]
            if cur.ty.k == 'set' and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                nm = {ast.BitOr: 'update', ast.Sub: 'difference_update', ast.BitAnd: 'intersection_update'}[type(s.op)]
                return [(s2, k, cur if k == OK else v) for s2, k, v in self.set_method(s1, cur, nm, [rhs], {})]
            return self.binop(s1, s.op, cur, rhs, s)
        if isinstance(t, ast.Name):
            return self.bind(self.bind(self.ev_Name(ast.Name(id=t.id, ctx=ast.Load()), st), lambda s1, cur: self.bind(
                self.ev(s.value, s1), lambda s2, rhs: op(s2, cur, rhs))), lambda s3, v: self.assign(s3, t, v))
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st), lambda s1, o: self.bind(
                self.getattr(s1, o, t.attr), lambda s2, cur: self.bind(
                    self.ev(s.value, s2), lambda s3, rhs: self.bind(
                        op(s3, cur, rhs), lambda s4, v: self.setattr(s4, o, t.attr, v)))))
        if isinstance(t, ast.Subscript):
            return self.bind(self.evs([t.value, t.slice], st), lambda s1, oi: self.bind(
                self.getitem(s1, oi[0], oi[1]), lambda s2, cur: self.bind(
                    self.ev(s.value, s2), lambda s3, rhs: self.bind(
                        op(s3, cur, rhs), lambda s4, v: self.setitem(s4, oi[0], oi[1], v)))))
        raise Unsupported('augmented assignment')

    def declared_local(self, st, name, v):
        f = st.env.get('$func')
        c = self.side.contracts.get(f.key) if f is not None else None
        t = c.locals.get(name) if c is not None and c.locals else None
        if t is None and v.ty.k == 'rec' and c is not None:
            for key, x in st.recs[v.z].items():
                t = c.locals.get(name + '.' + key)
                if t is not None and x.ty.k in ('list', 'set', 'dict') and x.ty.a[0].k == '?':
                    self.widen(x.ty.a[0].a[0], ty(t).a)
            return v
        if t is None:
            return v
        if v.ty.k in ('list', 'set', 'dict') and v.ty.a[0].k == '?':
            self.widen(v.ty.a[0].a[0], ty(t).a)
        if ty(t).k in ('opt', 'tup'):
            v = self.snap(st, ty(t), v)
        return v if v.ty == ty(t) or v.ty.k == 'obj' else self.conv(v, ty(t))

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            if v.ty.k == 'seq' and v.x and v.x.get('gen') and False:
                pass
            st.env[t.id] = self.declared_local(st, t.id, v)
            return [(st, OK, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if v.ty.k == 'tup':
                if len(v.z) != len(t.elts):
                    return [self.exc(st, 'ValueError')]
                outs = [(st, OK, None)]
                for x, w in zip(t.elts, v.z):
                    outs = self.bind(outs, lambda s, _, x=x, w=w: self.assign(s, x, w))
                return outs
            if v.ty.k in ('seq', 'list'):
                c, th, et = self.content(st, v)
                if c is None:
                    return [self.exc(st, 'ValueError')]
                a, b = self.split(st, th.len(c) == len(t.elts))
                r = []
                if b is not None:
                    r.append(self.exc(b, 'ValueError'))
                if a is not None:
                    outs = [(a, OK, None)]
                    for i, x in enumerate(t.elts):
                        outs = self.bind(outs, lambda s, _, i=i, x=x: self.assign(s, x, self.typed(s, th.at(c, z3.IntVal(i)), et)))
                    r += outs
                return r
            raise Unsupported('unpacking %r' % v.ty)
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st), lambda s, o: self.setattr(s, o, t.attr, v))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            return self.bind(self.evs([t.value, t.slice], st), lambda s, oi: self.setitem(s, oi[0], oi[1], v))
        raise Unsupported('assignment target')

    def setattr(self, st, o, a, v):
        if o.ty.k in ('opt', 'none'):
            return self.bind(self.unopt(st, o, 'AttributeError'), lambda s, w: self.setattr(s, w, a, v))
        if o.ty.k == 'any' and o.x and o.x.get('sink'):
            return [(st, OK, None)]
        if o.ty.k != 'obj':
            raise Unsupported('attribute store on %r' % o.ty)
        cls = o.ty.a[0]
        f = self.prog.setter(cls, a)
        if f is not None:
            return self.none(self.call_func(st, f, [o, v], {}))
        ow = self.field_owner(cls, a)
        if ow is None:
            key = ('field', cls, a)
            if key not in self.sites:
                if self.has_hole(v.ty) or v.ty.k in ('func', 'class', 'rec', 'iter', 'bound', 'ext', 'none'):
                    if v.ty.k in ('ext', 'func', 'none'):
                        return [(st, OK, None)]
                    raise Unsupported('undeclared field %s.%s' % (cls, a))
                self.widen(key, (v.ty,))
            self.fieldtab.setdefault(cls, {})[a] = self.sites[key][0]
            ow = cls
        ft = self.field_ty(ow, a)
        if v.ty.k in ('list', 'set', 'dict') and v.ty.a[0].k == '?' and ft.k == v.ty.k:
            self.widen(v.ty.a[0].a[0], ft.a)
        if v.ty.k in ('list', 'set', 'dict') and v.ty.a[0].k == '?' and ft.k == 'opt' and ft.a[0].k == v.ty.k:
            self.widen(v.ty.a[0].a[0], ft.a[0].a)
        if v.ty.k == 'ext' and ft.k == 'any':
            return [(st, OK, None)]
        self.hset(st, ('F', ow, a), o.z, self.coerce_checked(st, v, ft))
        return [(st, OK, None)]

    def setitem(self, st, o, i, v):
        k = o.ty.k
        if k == 'obj':
            if self.prog.method(o.ty.a[0], '__setitem__'):
                return self.none(self.call_method(st, o, '__setitem__', [i, v], {}))
            if self.side.dictlike(self, o.ty.a[0]):
                o = self.as_dict(st, o)
                k = 'dict'
        if k == 'rec':
            if i.x and 'lit' in i.x:
                if isinstance(st.recs[o.z], Frozen):
                    raise Unsupported('a stored record changes')
                st.recs[o.z][i.x['lit']] = v
                return [(st, OK, None)]
            raise Unsupported('dynamic record key')
        if k == 'dict':
            self.dict_store(st, o, i, v)
            return [(st, OK, None)]
        if k == 'list':
            if o.ty.a[0].k == '?':
                return [self.exc(st, 'IndexError')]
            c, th, et = self.content(st, o)
            iz = z3.simplify(self.toz(i, INT))
            n = th.len(c)
            ok = z3.And(-n <= iz, iz < n)
            iz = self.decide_int(st, z3.If(iz < 0, n + iz, iz))
            a, b = self.split(st, ok)
            r = []
            if b is not None:
                r.append(self.exc(b, 'IndexError'))
            if a is not None:
                self.hset(a, self.lkey(o.ty), o.z, th.upd(c, iz, self.coerce_checked(a, v, et)))
                r.append((a, OK, None))
            return r
        raise Unsupported('item store on %r' % o.ty)

    # ------------------------------------------------------------------ exceptions
    def st_Try(self, s, st):
        res = []
        for s1, k, v in self.block(s.body, st):
            if k == OK and s.orelse:
                res += self.block(s.orelse, s1)
            elif k == EXC:
                res += self.handle(s, s1, v)
            else:
                res.append((s1, k, v))
        if s.finalbody:
            out = []
            for s1, k, v in res:
                for s2, k2, v2 in self.block(s.finalbody, s1):
                    out.append((s2, k, v) if k2 == OK else (s2, k2, v2))
            res = out
        return res

    def handler_names(self, st, h):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split('.')[-1] for t in ts]

    def exc_matches(self, cls, names):
        return any(self.prog.is_sub(cls, n) for n in names)

    def handle(self, s, st, v):
        cls = v.ty.a[0]
        for h in s.handlers:
            names = self.handler_names(st, h)
            if self.exc_matches(cls, names):
                old = st.env.get('$exc')
                st.env['$exc'] = v
                if h.name:
                    st.env[h.name] = v
                outs = self.block(h.body, st)
                for s1, _, _ in outs:
                    s1.env['$exc'] = old
                    if h.name:
                        s1.env[h.name] = UNDEF
                return outs
            if not (v.x and v.x.get('exact')) and any(self.prog.is_sub(n, cls) for n in names):
                raise Unsupported('handler for a subclass of an inexact exception')
        return [(st, EXC, v)]

    def st_With(self, s, st):
        # context managers of the standard library used for resources only
        outs = [(st, OK, None)]
        for it in s.items:
            if ast.unparse(it.context_expr) not in self.side.with_ok:
                raise Unsupported('with %s' % ast.unparse(it.context_expr))
        return self.block(s.body, st)

    # ------------------------------------------------------------------ loops
    def st_While(self, s, st):
        inv = self.side.loop_inv(self, st, s)
        if inv is None:
            raise Unsupported('while loop without invariant')
        return self.inv_loop(s, st, None, inv)

    def st_For(self, s, st):
        outs = self.bind(self.ev(s.iter, st), self.iterate)
        return self.bind(outs, lambda s1, it: self.run_for(s, s1, it))

    def run_for(self, s, st, it):
        inv = self.side.loop_inv(self, st, s)
        if it.static is not None:
            outs = [(st, OK, None)]
            fin = []
            for x in it.static:
                nxt = []
                for s1, k, v in outs:
                    for s2, k2, v2 in self.bind(self.assign(s1, s.target, x), lambda s3, _: self.block(s.body, s3)):
                        if k2 in (OK, 'cont'):
                            nxt.append((s2, OK, None))
                        elif k2 == 'brk':
                            fin.append((s2, OK, None))
                        else:
                            fin.append((s2, k2, v2))
                outs = nxt
            for s1, k, v in outs:
                fin += self.block(s.orelse, s1) if s.orelse else [(s1, OK, None)]
            return fin
        if inv is not None:
            return self.inv_loop(s, st, it, inv)
        return self.for_auto(s, st, it)

    def freshv(self, st, t, name, facts=True):
        if t.k == 'tup':
            return V(t, [self.freshv(st, x, name, facts) for x in t.a])
        if t.k == 'none':
            return NONEV
        z = self.fresh(name, sortof(t))
        if facts:
            return self.typed(st, z, t)
        return V(t, z)

    NOACC = ('func', 'class', 'bound', 'module', 'ext', 'builtin', 'iter', 'rec', 'undef', 'range', 'super', 'sset')

    # ---- invariant rule
    def inv_loop(self, s, st, it, inv):
        """havoc everything the body writes, assume the invariant, check it is preserved"""
        names = [n for n in assigned_names(s.body) if n in st.env]
        tnames = assigned_names([s]) if False else []
        if it is not None:
            tn = [n for n in assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=None))])]
            names = [n for n in names if n not in tn]
        # x += ... of a list binds x to the list it was
        rebound = assigned_names(strip_aug(s.body))
        names = [n for n in names if n in rebound or st.env[n].ty.k not in ('list', 'set', 'dict')]
        label = inv.get('label') or 'line %d' % s.lineno
        entry = st.clone()
        # which heap cells are written: declared by the annotation
        before = set(self.newrefs or ())
        # init
        self.check_inv(st, entry, it, inv, z3.IntVal(0), label + ': loop invariant holds on entry')
        h = st.clone()
        for n in names:
            v = h.env[n]
            if v.ty.k in self.NOACC:
                raise Unsupported('loop variable %s of kind %s' % (n, v.ty.k))
            t = self.loopvar_ty(st, s, n, v.ty)
            h.env[n] = self.freshv(h, t, n)
        keys = self.inv_modifies(h, inv, entry)
        k = self.fresh('k', Int)
        if it is not None:
            h.fact(z3.And(0 <= k, k <= it.n))
        self.assume_inv(h, entry, it, inv, k)
        if it is not None:
            self.loop_states.append((label, h.formulas() + [k >= 2, k < it.n], self.heap_ax))
        res = []
        # exit
        ex = h.clone()
        if it is not None:
            ex.fact(k == it.n)
            for n in tn:
                ex.env[n] = V(Ty('undef'), None, 'maybe')
            exits = [(ex, OK, T)]
            body_in = h.clone()
            body_in.fact(k < it.n)
            x = it.get(body_in, k)
            starts = self.assign(body_in, s.target, x)
        else:
            exits, starts = [], []
            for s1, kk, b in self.evcond(s.test, ex):
                if kk != OK:
                    res.append((s1, kk, b))
                    continue
                a, c = self.split(s1, b)
                if c is not None:
                    self.narrow(c, s.test, False)
                    exits.append((c, OK, T))
                if a is not None:
                    self.narrow(a, s.test, True)
                    starts.append((a, OK, None))
        for s1, kk, b in exits:
            sp = self.inv_spec(s1, entry, it, k) if inv.get('after') else None
            for e in inv.get('after', ()):
                z = sp.b(e)
                self.oblige(s1, label + ': after the loop: ' + e, z, 'inv')
                s1.fact(z)
            res += self.block(s.orelse, s1) if s.orelse else [(s1, OK, None)]
        pre_dec = None
        for s1, kk, v in starts:
            if kk != OK:
                res.append((s1, kk, v))
                continue
            dec0 = self.inv_decreases(s1, entry, it, inv, k)
            for s2, k2, v2 in self.block(s.body, s1):
                self.same_recs(h, s2)
                if k2 in (OK, 'cont'):
                    self.check_modifies(h, s2, inv, entry, label, before)
                    for n in names:
                        t = h.env[n].ty
                        w = s2.env[n]
                        if w.ty != t:
                            j = self.join(t, w.ty)
                            if j != t:
                                self.set_loopvar_ty(st, s, n, j)
                            s2.env[n] = self.conv(w, t)
                    if inv.get('cuts'):
                        sp = self.inv_spec(s2, entry, it, k)
                        sp.begin = h
                        for e in inv['cuts']:
                            z = sp.b(e)
                            self.oblige(s2, label + ': at the end of the body: ' + e, z, 'inv')
                            s2.fact(z)
                    self.check_inv(s2, entry, it, inv, k + 1, label + ': loop invariant preserved')
                    if dec0 is not None:
                        dec1 = self.inv_decreases(s2, entry, it, inv, k)
                        self.oblige(s2, label + ': loop measure decreases', z3.And(dec0 >= 0, dec1 < dec0), 'aux')
                elif k2 == 'brk':
                    res.append((s2, OK, None))
                else:
                    res.append((s2, k2, v2))
        return res

    def same_recs(self, a, b):
        for rid, r in a.recs.items():
            q = b.recs[rid]
            if r.keys() != q.keys() or any(r[x] is not q[x] for x in r):
                raise Unsupported('a record changes in a loop')

    def loopvar_ty(self, st, s, n, t):
        key = ('lv', st.stack, s.lineno, s.col_offset, n)
        r = self.sites.get(key)
        if r is not None:
            return self.join(r[0], t)
        return t

    def set_loopvar_ty(self, st, s, n, t):
        key = ('lv', st.stack, s.lineno, s.col_offset, n)
        self.sites[key] = (t,)
        raise Restart()

    # ---- automatic exact summary
    def for_auto(self, s, st, it):
        tn = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=None))])
        names = [n for n in assigned_names(s.body) if n not in tn]
        accn = [n for n in names if n in st.env and st.env[n].ty.k != 'undef']
        heapaccs = {}                   # (key, ref id) -> dict(key, ref, init, sym)
        stable = set()                  # names the body re-binds to what they already were (x += ... of a list)
        for rnd in range(12):
            h = st.clone()
            accs = {}
            kill = []
            for n in accn:
                if n in stable:
                    continue
                v = h.env[n]
                if v.ty.k in self.NOACC:
                    if v.ty.k in ('func', 'class', 'bound', 'module', 'ext', 'builtin'):
                        raise Unsupported('loop re-binds %s' % n)
                    raise Unsupported('loop accumulator %s of kind %s' % (n, v.ty.k))
                t = self.loopvar_ty(st, s, n, v.ty)
                if self.has_hole(t):
                    continue
                w = self.freshv(h, t, 'acc_' + n)
                h.env[n] = w
                accs[n] = (v, w, t)
            for hk, d in heapaccs.items():
                d['sym'] = self.fresh('hacc', d['init'].sort())
                self.hset(h, d['key'], d['ref'], d['sym'])
            k = z3.FreshConst(Int, 'k')
            mark = len(self.log)
            clock = self.clock
            b0 = h.clone()
            b0.path.append(('f', z3.And(0 <= k, k < it.n)))
            npath = len(b0.path)
            x = it.get(b0, k)
            outs = self.bind(self.assign(b0, s.target, x), lambda s1, _: self.block(s.body, s1))
            # types of the accumulators
            for s1, kind, v in outs:
                self.same_recs(h, s1)
                if kind in (OK, 'cont', 'brk'):
                    for n in accn:
                        w = s1.env[n]
                        if n not in accs:
                            if n in stable and not w.z.eq(st.env[n].z):
                                raise Unsupported('loop re-binds %s' % n)
                            if not w.z.eq(st.env[n].z):
                                raise Unsupported('untyped accumulator %s is rebound' % n)
                            continue
                        if w.ty.k == 'undef':
                            raise Unsupported('accumulator deleted')
                        if w.ty != accs[n][2]:
                            j = self.join(accs[n][2], w.ty)
                            if j != accs[n][2]:
                                if self.has_hole(j):
                                    raise Unsupported('untyped accumulator %s' % n)
                                self.set_loopvar_ty(st, s, n, j)
            new = False
            for n in list(accs):
                if accs[n][2].k in ('list', 'set', 'dict') and all(
                        kind not in (OK, 'cont', 'brk') or isinstance(s1.env[n].z, z3.ExprRef) and s1.env[n].z.eq(accs[n][1].z) for s1, kind, v in outs):
                    stable.add(n)
                    new = True
            if new:
                heapaccs = {}
                continue
            for s1, kind, v in outs:
                if s1.recs != h.recs:
                    raise Unsupported('loop mutates a record')
                for key, ref in self.foreign_writes(h, s1, clock):
                    if (key, ref.get_id()) not in heapaccs:
                        heapaccs[(key, ref.get_id())] = {'key': key, 'ref': ref, 'init': self.hget(st, key, ref)}
                        new = True
                        if __import__('os').environ.get('DBG'): print('FW', rnd, key, str(ref)[:100])
            if not new:
                break
        else:
            raise Unsupported('loop effects did not stabilise')
        return self.close_loop(s, st, it, k, mark, npath, outs, accs, heapaccs, h, names, tn)

    def foreign_writes(self, h, s1, clock):
        """heap cells written by the body that were not allocated in the body"""
        out = []
        for key, a in s1.heap.items():
            if key == ('$alive',):
                continue
            base = h.heap.get(key)
            if base is None:
                base = self.h0.get(key)
                h.heap[key] = base
            while not a.eq(base):
                if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE):
                    raise Unsupported('heap effect of loop body on %r' % (key,))
                r = a.arg(1)
                if r.get_id() in (self.newrefs or {}) and self.born[r.get_id()] > clock:
                    pass
                else:
                    if self.birth(r) > clock:
                        raise Unsupported('loop body writes to an object depending on the iteration (%r)' % (key,))
                    # must not depend on k either
                    out.append((key, r))
                a = a.arg(0)
        return out

    def close_loop(self, s, st, it, k, mark, npath, outs, accs, heapaccs, h, names, tn):
        L = Lift(self, self.log[mark:], k)
        L.n, L.npath, L.it = it.n, npath, it
        self.log[mark:] = L.newsyms
        for d in heapaccs.values():
            if k.get_id() in symbols_consts(d['ref']):
                raise Unsupported('loop body writes to an object depending on the iteration')
        nexts = [(s1, v) for s1, kind, v in outs if kind in (OK, 'cont')]
        exits = [(s1, kind, v) for s1, kind, v in outs if kind not in (OK, 'cont')]
        # accumulators
        A = []
        for n, (v0, w, t) in accs.items():
            if t.k == 'none':
                continue
            zi = self.toz(v0, t)
            flat = self.flatten(w, t)
            vals = [self.toz(s1.env[n], t) for s1, _ in nexts]
            A.append({'n': n, 't': t, 'sym': self.toz(w, t) if t.k == 'tup' else w.z, 'init': zi, 'vals': vals,
                      'syms': flat})
        for d in heapaccs.values():
            vals = [self.hget(s1, d['key'], d['ref']) for s1, _ in nexts]
            A.append({'h': d, 't': None, 'sym': d['sym'], 'init': d['init'], 'vals': vals, 'syms': [d['sym']]})
        conds, facts = [], []
        for s1, _ in nexts:
            cs, fs = self.split_path(s1, npath)
            conds.append(conj(cs))
            facts.append(conj(fs))
        econds, efacts = [], []
        for s1, _, _ in exits:
            cs, fs = self.split_path(s1, npath)
            econds.append(conj(cs))
            efacts.append(conj(fs))
        # unchanged accumulators
        for a in A:
            a['kind'] = 'same' if all(v.eq(a['sym']) for v in a['vals']) else None
        # which accumulators are referenced
        neweff = self.new_effects(h, outs, heapaccs, L)

        def occurs(a, es):
            ids = {x.decl().get_id() for x in a['syms']}
            return any(ids & symbols(e) for e in es if isinstance(e, z3.ExprRef))

        allref = conds + econds + efacts + facts
        for lst in neweff.values():
            for b, kind, r, v in lst:
                allref = allref + [v]
        for a in A:
            if a['kind']:
                continue
            others = [v for b in A if b is not a for v in b['vals']]
            a['ref'] = occurs(a, allref + others)
            exvals = []
            for s1, kind, v in exits:
                if kind in ('ret', 'exc') and v is not None:
                    exvals += self.zterms(v)
            a['exref'] = occurs(a, exvals)
        sub = {}
        closed = []
        for a in A:
            if a['kind'] == 'same':
                for x, y in self.symmap(a, a['init']):
                    sub[x.get_id()] = (x, y)
                continue
            c = self.counter(a)
            if c is not None:
                # every iteration adds the same constant
                a['kind'] = 'closed'
                a['form'] = lambda s2, hi, a=a, c=c: z3.simplify(a['init'] + c * hi)
                for x, y in self.symmap(a, z3.simplify(a['init'] + c * k)):
                    sub[x.get_id()] = (x, y)
                continue
            if not a['ref']:
                f = self.closed_form(a, conds, facts, it, L, k)
                if f is not None:
                    a['kind'] = 'closed'
                    a['form'] = f
                    continue
            if a.get('h') is not None and not self.prefix_ok:
                if __import__('os').environ.get('DBG'):
                    print('ACC', a['sym'], a['ref'], a['vals'], conds, facts)
                raise Unsupported('loop accumulator (container) needs an invariant')
            # general prefix function
            srt = a['init'].sort()
            P = self.fresh_fun('pre', Int, srt)
            a['kind'] = 'prefix'
            a['P'] = P
            for x, y in self.symmap(a, P(k)):
                sub[x.get_id()] = (x, y)
        for x, y in list(sub.items()):
            L.C.setdefault(x, y)
        # boolean and/or accumulators with short-circuit references get an exact closed form too
        Lc = L
        anyx = lambda q: disj([Lc.at(c, q) for c in econds])
        allf = conj([z3.Implies(c, f) if not z3.is_true(c) else f for c, f in zip(conds, facts)])

        def prefix_facts(s2, hi):
            F = L.at(allf, k)
            pf = []
            if not z3.is_true(F):
                pf.append(F)
            for a in A:
                if a['kind'] == 'prefix':
                    for c, v in zip(conds, a['vals']):
                        cc = L.at(c, k)
                        e = a['P'](k + 1) == L.at(v, k)
                        pf.append(e if z3.is_true(cc) else z3.Implies(cc, e))
            if pf:
                s2.fact(self.forall([k], z3.Implies(z3.And(0 <= k, k < hi), conj(pf)),
                                    (self.pats(it, k) + self.seqtrig(L, k)) or [a['P'](k) for a in A if a['kind'] == 'prefix']))
            for a in A:
                if a['kind'] == 'prefix':
                    s2.fact(a['P'](0) == a['init'])

        def acc_value(s2, a, hi):
            if a['kind'] == 'same':
                return a['init']
            if a['kind'] == 'prefix':
                return a['P'](hi)
            return a['form'](s2, hi)

        def put(s2, a, z):
            if a.get('h') is not None:
                self.hset(s2, a['h']['key'], a['h']['ref'], z)
            else:
                s2.env[a['n']] = self.unz(z, a['t'])
        res = []
        # normal completion
        s2 = st.clone()
        if exits:
            s2.cond(self.forall([k], z3.Implies(z3.And(0 <= k, k < it.n), neg(anyx(k))),
                                self.pats(it, k) or self.ftrig(L, k)))
        prefix_facts(s2, it.n)
        self.merge_alive(st, s2, L)
        self.apply_new_effects(st, s2, neweff, L, k, it, it.n)
        for a in A:
            put(s2, a, acc_value(s2, a, it.n))
        for n in names + tn:
            if n not in accs and not (n in st.env and n not in tn and st.env[n].ty.k != 'undef'):
                s2.env[n] = V(Ty('undef'), None, 'maybe')
        if self.feasible(s2):
            res += self.block(s.orelse, s2) if s.orelse else [(s2, OK, None)]
        # exits at the first index K
        for (s1, kind, v), c, f in zip(exits, econds, efacts):
            e = st.clone()
            K = self.fresh('K', Int)
            e.cond(z3.And(0 <= K, K < it.n, L.at(c, K)))
            e.fact(self.forall([k], z3.Implies(z3.And(0 <= k, k < K), neg(anyx(k))), self.pats(it, k) or self.ftrig(L, k)))
            prefix_facts(e, K)
            e.fact(L.at(f, K))
            self.merge_alive(st, e, L)
            self.apply_new_effects(st, e, neweff, L, k, it, K)
            pre = {}
            for a in A:
                z = acc_value(e, a, K)
                put(e, a, z)
                for x, y in self.symmap(a, z):
                    pre[x.get_id()] = (x, y)

            def at(t):
                if pre:
                    t = subst(t, pre, {})
                return L.at(t, K)
            # effects of the exiting iteration itself
            for key, lst in neweff.items():
                for b, kd, r, val in lst:
                    if b is s1:
                        e.heap[key] = z3.Store(self.h(e, key), at(r), at(val))
            for a in A:
                if a.get('h') is not None:
                    z = self.hget(s1, a['h']['key'], a['h']['ref'])
                    if not z.eq(a['sym']):
                        self.hset(e, a['h']['key'], a['h']['ref'], at(z))
            for n in names + tn:
                w = s1.env.get(n)
                if w is None:
                    continue
                if w.ty.k == 'undef':
                    e.env[n] = w
                else:
                    e.env[n] = self.mapv(w, at)
            vv = self.mapv(v, at) if v is not None else None
            if not self.feasible(e):
                continue
            if kind == 'brk':
                res.append((e, OK, None))
            else:
                res.append((e, kind, vv))
        return res

    prefix_ok = False

    def ftrig(self, L, k):
        for f in L.newsyms:
            if isinstance(f, z3.FuncDeclRef) and f.arity() == 1:
                return [f(k)]
        return []

    def seqtrig(self, L, k):
        """the sequences an iteration computed also bring its facts up"""
        return [f(k) for f in L.newsyms if isinstance(f, z3.FuncDeclRef) and f.arity() == 1 and f.range().name().startswith('Seq_')][:3]

    def flatten(self, v, t):
        if v.ty.k == 'tup':
            r = []
            for x in v.z:
                r += self.flatten(x, x.ty)
            return r
        return [v.z] if isinstance(v.z, z3.ExprRef) else []

    def symmap(self, a, term):
        if a.get('h') is not None or a['t'].k != 'tup':
            return [(a['syms'][0], term)] if a['syms'] else []
        out = []

        def go(v, z, t):
            if t.k == 'tup':
                _, mk, acc = tup_dt(tuple(sortof(x) for x in t.a))
                for i, x in enumerate(t.a):
                    go(None, acc[i](z), x)
            else:
                out.append(z)
        go(None, term, a['t'])
        return list(zip(a['syms'], out))

    def zterms(self, v):
        if v.ty.k == 'tup':
            return [z for x in v.z for z in self.zterms(x)]
        return [v.z] if isinstance(v.z, z3.ExprRef) else []

    def mapv(self, v, at):
        if v is None:
            return None
        if v.ty.k == 'tup':
            return V(v.ty, [self.mapv(x, at) for x in v.z], v.x)
        if v.ty.k == 'range':
            return V(v.ty, tuple(at(x) for x in v.z), v.x)
        if v.ty.k == 'bound' and isinstance(v.z[0], V):
            return V(v.ty, (self.mapv(v.z[0], at), v.z[1]), v.x)
        if isinstance(v.z, z3.ExprRef):
            x = v.x
            if x and 'args' in x:
                x = dict(x, args=[self.mapv(y, at) for y in x['args']])
            return V(v.ty, at(v.z), x)
        return v

    def new_effects(self, h, outs, heapaccs, L):
        eff = {}
        accids = set(heapaccs)
        newids = {c.get_id() for c in L.syms if isinstance(c, z3.ExprRef)}
        for s1, kind, v in outs:
            kind2 = OK if kind == 'cont' else kind
            for key, a in s1.heap.items():
                if key == ('$alive',):
                    continue
                base = h.heap[key]
                seen = set()
                while not a.eq(base):
                    r = a.arg(1)
                    if r.get_id() not in seen:
                        seen.add(r.get_id())
                        if r.get_id() in newids:
                            eff.setdefault(key, []).append((s1, kind2, r, a.arg(2)))
                    a = a.arg(0)
        return eff

    def counter(self, a):
        if a['sym'].sort() != Int or a.get('h') is not None or not a['vals']:
            return None
        d = {str(z3.simplify(v - a['sym'])) for v in a['vals']}
        if len(d) != 1:
            return None
        d = z3.simplify(a['vals'][0] - a['sym'])
        return d if z3.is_int_value(d) else None

    # ---- closed forms
    def closed_form(self, a, conds, facts, it, L, k):
        sym, vals = a['sym'], a['vals']
        ids = {x.decl().get_id() for x in a['syms']}
        indep = lambda e: not (ids & symbols(e))
        srt = sym.sort()
        th = SeqTheory.of_sort(srt)
        if th is not None and a.get('h') is not None or (th is not None and all(
                v.eq(sym) or (z3.is_app(v) and v.decl().eq(th.cat) and v.arg(0).eq(sym)) for v in vals)):
            pieces = []
            unit = True
            for c, v in zip(conds, vals):
                if v.eq(sym):
                    continue
                if not (z3.is_app(v) and v.decl().eq(th.cat) and v.arg(0).eq(sym) and indep(v.arg(1))):
                    return None
                p = v.arg(1)
                if not p.decl().eq(th.unit):
                    unit = False
                pieces.append((c, p))
            full = len(pieces) == len(vals)

            def form(s2, hi):
                if not pieces:
                    return a['init']
                if unit:
                    e = pieces[-1][1].arg(0)
                    for c, p in reversed(pieces[:-1]):
                        e = z3.If(c, p.arg(0), e)
                    g = None if full else z3.simplify(disj([c for c, _ in pieces])) if not any(_hasq(c) for c, _ in pieces) \
                        else disj([c for c, _ in pieces])
                    r = self.filtermap(s2, it, L, k, g, e, th, hi)
                else:
                    r = self.flatmap(s2, it, L, k, pieces, th, hi)
                return th.concat(a['init'], r)
            return form
        if srt.kind() == z3.Z3_ARRAY_SORT and srt.range() == Bool and a.get('h') is not None:
            adds = []
            for c, v in zip(conds, vals):
                parts = []
                while not v.eq(sym):
                    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE and z3.is_true(v.arg(2)) and indep(v.arg(1)):
                        parts.append(('e', v.arg(1)))
                        v = v.arg(0)
                    elif z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SET_UNION and indep(v.arg(1)):
                        parts.append(('s', v.arg(1)))
                        v = v.arg(0)
                    else:
                        return None
                for kind, p in parts:
                    adds.append((c, kind, p))
            es = srt.domain()

            def form(s2, hi):
                r = self.fresh('sacc', srt)
                x = z3.Const('x_sa', es)
                j = z3.FreshConst(Int, 'j')
                s2.fact(z3.ForAll([x], z3.Implies(z3.Select(a['init'], x), z3.Select(r, x)),
                                  patterns=[z3.Select(r, x)] if not _trivial_select(a['init']) else [z3.Select(r, x)]))
                src = []
                w = self.fresh_fun('wit', es, Int)
                for c, kind, p in adds:
                    cc = L.at(c, k)
                    pp = L.at(p, k)
                    rng = z3.And(0 <= k, k < hi, cc)
                    if kind == 'e':
                        s2.fact(self.forall([k], z3.Implies(rng, z3.Select(r, pp)), self.pats(it, k) or [pp]))
                        src.append(z3.And(L.at(c, w(x)), L.at(p, w(x)) == x))
                    else:
                        s2.fact(z3.ForAll([k, x], z3.Implies(z3.And(rng, z3.Select(pp, x)), z3.Select(r, x)),
                                          patterns=[z3.MultiPattern(*([it.trig(k)] if it.trig(k) is not None else []),
                                                                    z3.Select(pp, x))]))
                        src.append(z3.And(L.at(c, w(x)), z3.Select(L.at(p, w(x)), x)))
                s2.fact(z3.ForAll([x], z3.Implies(z3.Select(r, x), z3.Or(
                    z3.Select(a['init'], x), z3.And(0 <= w(x), w(x) < hi, disj(src)))), patterns=[z3.Select(r, x)]))
                return r
            return form
        if srt.kind() == z3.Z3_ARRAY_SORT and a.get('h') is not None and a['h']['key'][0] == 'DV':
            sts = []
            for c, v in zip(conds, vals):
                if v.eq(sym):
                    continue
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE and v.arg(0).eq(sym) and indep(v.arg(1)) and indep(v.arg(2)):
                    sts.append((c, v.arg(1), v.arg(2)))
                else:
                    return None
            es = srt.domain()

            def form(s2, hi):
                r = self.fresh('dacc', srt)
                x = z3.Const('x_da', es)
                w = self.fresh_fun('last', es, Int)
                for c, kk_, vv in sts:
                    s2.fact(self.forall([k], z3.Implies(z3.And(0 <= k, k < hi, L.at(c, k)), w(L.at(kk_, k)) >= k),
                                        self.pats(it, k) or [L.at(kk_, k)]))
                hit = lambda q: disj([z3.And(L.at(c, q), L.at(kk_, q) == x, z3.Select(r, x) == L.at(vv, q)) for c, kk_, vv in sts])
                s2.fact(z3.ForAll([x], z3.And(w(x) >= -1, w(x) < hi,
                                              z3.If(w(x) == -1, z3.Select(r, x) == z3.Select(a['init'], x), hit(w(x)))),
                                  patterns=[z3.Select(r, x), w(x)]))
                return r
            return form
        if a.get('h') is not None:
            return None
        # last write
        if all(v.eq(sym) or indep(v) for v in vals):
            ws = [(c, v) for c, v in zip(conds, vals) if not v.eq(sym)]

            def form(s2, hi):
                r = self.fresh('lw', srt)
                w = self.fresh('lwi', Int)
                cw = disj([c for c, _ in ws])
                q = k
                none = self.forall([q], z3.Implies(z3.And(0 <= q, q < hi), neg(L.at(cw, q))), self.pats(it, q) or self.ftrig(L, q))
                some = z3.And(0 <= w, w < hi, disj([z3.And(L.at(c, w), r == L.at(v, w)) for c, v in ws]),
                              self.forall([q], z3.Implies(z3.And(w < q, q < hi), neg(L.at(cw, q))),
                                          self.pats(it, q) or self.ftrig(L, q)))
                s2.fact(z3.Or(z3.And(w == -1, r == a['init'], none), some))
                return r
            return form
        if srt == Bool:
            # acc = acc and b / acc = acc or b
            for absorb in (False, True):
                ab = z3.BoolVal(absorb)
                ok = True
                outs = []
                for c, v in zip(conds, vals):
                    at_abs = z3.simplify(z3.substitute(v, (sym, ab))) if not _hasq(v) else None
                    if at_abs is None or not at_abs.eq(ab):
                        ok = False
                        break
                    outs.append((c, z3.simplify(z3.substitute(v, (sym, z3.BoolVal(not absorb))))))
                if not ok:
                    continue

                def form(s2, hi, outs=outs, absorb=absorb):
                    r = self.fresh('bacc', Bool)
                    w = self.fresh('bw', Int)
                    hit = disj([z3.And(c, v if absorb else neg(v)) for c, v in outs])
                    R = r if absorb else z3.Not(r)
                    I = a['init'] if absorb else z3.Not(a['init'])
                    nohit = self.forall([k], z3.Implies(z3.And(0 <= k, k < hi), neg(L.at(hit, k))),
                                        self.pats(it, k) or self.ftrig(L, k))
                    s2.fact(z3.Implies(R, z3.Or(I, z3.And(0 <= w, w < hi, L.at(hit, w)))))
                    s2.fact(z3.Implies(z3.Not(R), z3.And(z3.Not(I), nohit)))
                    return r
                return form
        return None


def symbols_consts(e):
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0:
            out.add(x.get_id())
        elif z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    return out


def _trivial_select(a):
    return False
