"""Symbolic execution of Python source (ast) producing verification conditions."""
import ast
import z3
from .smt import *
from .core import *
from .subst import subst, symbols
from .source import Func

OK, EXC = 'ok', 'exc'
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
MAXPATHS = 4000
MAXDEPTH = 14
LOGM = {'debug', 'info', 'warning', 'error', 'critical', 'log', 'exception', 'addHandler', 'removeHandler',
        'setLevel', 'warn'}


def conj(fs):
    fs = [f for f in fs if not z3.is_true(f)]
    return T if not fs else (fs[0] if len(fs) == 1 else z3.And(*fs))


def disj(fs):
    fs = [f for f in fs if not z3.is_false(f)]
    return F_ if not fs else (fs[0] if len(fs) == 1 else z3.Or(*fs))


def neg(f):
    if z3.is_true(f):
        return F_
    if z3.is_false(f):
        return T
    if z3.is_not(f):
        return f.arg(0)
    return z3.Not(f)


modconst = z3.Function('module_constant', Ref, z3.BoolSort())   # marks the objects that are module constants


class Exec(Core):
    def __init__(self, prog, side):
        super().__init__(prog, side)
        self.paths = 0
        self.depth = 0
        self.trial = 0

    # ------------------------------------------------------------------ feasibility
    def feasible(self, st):
        fs = [f for f in st.formulas() if not _hasq(f)]
        for f in fs:
            if z3.is_false(f):
                return False
        key = tuple(sorted(f.get_id() for f in fs))
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        s = z3.Solver()
        s.set('timeout', 150)
        s.add(*fs)
        s.add(*lit_axioms())
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, fs)
        self.nfeas += 1
        return r

    def split(self, st, b):
        """-> (state where b, state where not b); None when infeasible"""
        b = z3.simplify(b) if not _hasq(b) else b
        if z3.is_true(b):
            return st, None
        if z3.is_false(b):
            return None, st
        for _, f in st.path:
            if f.eq(b):
                return st, None
            if z3.is_not(f) and f.arg(0).eq(b) or z3.is_not(b) and b.arg(0).eq(f):
                return None, st
        a, c = st.clone(), st.clone()
        a.cond(b)
        c.cond(neg(b))
        fa = self.feasible(a)
        fc = self.feasible(c)
        if fa and not fc:
            st.fact(b)      # implied
            return st, None
        if fc and not fa:
            st.fact(neg(b))
            return None, st
        self.paths += 1
        if self.paths > MAXPATHS:
            raise Unsupported('too many paths')
        return (a if fa else None), (c if fc else None)

    # ------------------------------------------------------------------ outcomes helpers
    def bind(self, outs, f):
        r = []
        for st, k, v in outs:
            if k == OK:
                r.extend(f(st, v))
            else:
                r.append((st, k, v))
        return r

    def evs(self, es, st):
        outs = [(st, OK, [])]
        for e in es:
            if isinstance(e, ast.Starred):
                outs = self.bind(outs, lambda s, vs, e=e: [
                    (s2, k, vs + self.static_items(s2, v) if k == OK else v) for s2, k, v in self.ev(e.value, s)])
            else:
                outs = self.bind(outs, lambda s, vs, e=e: [
                    (s2, k, vs + [v] if k == OK else v) for s2, k, v in self.ev(e, s)])
        return outs

    def static_items(self, st, v):
        if v.ty.k == 'tup':
            return list(v.z)
        raise Unsupported('star of %r' % v.ty)

    def exc(self, st, name, args=()):
        r = self.alloc(st, 'exc_' + name, name)
        return (st, EXC, V(Ty('obj', name), r, {'exact': True, 'args': list(args)}))

    # ------------------------------------------------------------------ truth
    def truth(self, st, v):
        """-> list of (state, OK, z3 Bool) (may raise)"""
        k = v.ty.k
        if k == 'bool':
            return [(st, OK, v.z)]
        if k == 'none':
            return [(st, OK, F_)]
        if k == 'int':
            return [(st, OK, v.z != 0)]
        if k == 'str':
            if v.x and 'lit' in v.x:
                return [(st, OK, z3.BoolVal(bool(v.x['lit'])))]
            return [(st, OK, v.z != empty_str)]
        if k == 'tup':
            return [(st, OK, z3.BoolVal(bool(v.z)))]
        if k in ('seq', 'list', 'sset'):
            c, th, _ = self.content(st, v)
            return [(st, OK, F_ if c is None else th.len(c) > 0)]
        if k in ('set', 'dict', 'fset'):
            if v.ty.a and v.ty.a[0].k == '?':
                return [(st, OK, F_)]
            return [(st, OK, self.nonempty_set(st, self.setz(st, v)))]
        if k == 'opt':
            n = is_none_z(v.ty, v.z)
            inner = self.truth(st, self.unz(unopt_z(v.ty, v.z), v.ty.a[0]))
            return [(s, o, z3.And(z3.Not(n), b) if o == OK else b) for s, o, b in inner]
        if k == 'obj':
            for mname in ('__bool__', '__len__'):
                f = self.prog.method(v.ty.a[0], mname)
                if f:
                    return self.bind(self.call_func(st, f, [v], {}), lambda s, r: self.truth(s, r))
            if self.side.dictlike(self, v.ty.a[0]):
                return self.truth(st, self.as_dict(st, v))
            return [(st, OK, T)]
        if k in ('func', 'class', 'bound', 'module', 'ext', 'builtin'):
            return [(st, OK, T)]
        if k == 'rec':
            return [(st, OK, z3.BoolVal(bool(st.recs[v.z])))]
        if k == 'any':
            return [(st, OK, z3.And(v.z != none_u, self.ufn('truthy', U, Bool)(v.z)))]
        raise Unsupported('truth of %s' % k)

    def nonempty_set(self, st, a):
        return card_of(a.sort().domain())(a) > 0

    # ------------------------------------------------------------------ equality
    def eqz(self, st, a, b):
        """Python == as a z3 Bool (pure)"""
        x, y = a.ty, b.ty
        if x.k == 'none' or y.k == 'none':
            o = b if x.k == 'none' else a
            if o.ty.k == 'none':
                return T
            if o.ty.k == 'opt' or o.ty.k == 'any':
                return is_none_z(o.ty, o.z)
            return F_
        if x.k == 'tup' and y.k == 'tup':
            if len(a.z) != len(b.z):
                return F_
            return conj([self.eqz(st, p, q) for p, q in zip(a.z, b.z)])
        if x.k == 'opt' or y.k == 'opt':
            if x.k != 'opt':
                a, b, x, y = b, a, y, x
            na = is_none_z(x, a.z)
            ia = V(x.a[0], unopt_z(x, a.z))
            if y.k == 'opt':
                nb = is_none_z(y, b.z)
                ib = V(y.a[0], unopt_z(y, b.z))
                if sortof(x) == Str and sortof(y) == Str or x.a[0].k == y.a[0].k and x.a[0].k in ('int', 'bool', 'fset') and sortof(x) == sortof(y):
                    return a.z == b.z
                return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), self.eqz(st, ia, ib)))
            return z3.And(z3.Not(na), self.eqz(st, ia, b))
        if {x.k, y.k} <= {'int', 'bool'}:
            return self.toz(a, INT) == self.toz(b, INT) if x.k != y.k else a.z == b.z
        if x.k == 'str' and y.k == 'str':
            if a.x and b.x and 'lit' in a.x and 'lit' in b.x:
                return z3.BoolVal(a.x['lit'] == b.x['lit'])
            return a.z == b.z
        immut = ('seq', 'tup')
        if x.k in immut and y.k in immut or x.k == 'list' and y.k == 'list':
            return self.seqeq(st, a, b)
        if x.k == 'fset' and y.k == 'fset' and sortof(x) == sortof(y):
            return a.z == b.z
        if x.k in ('set', 'fset') and y.k in ('set', 'fset'):
            return self.setz(st, a) == self.setz(st, b)
        if x.k == 'obj' and y.k == 'obj':
            f = self.prog.method(x.a[0], '__eq__')
            if f is None:
                return a.z == b.z
            for sub in self.prog.subclasses(x.a[0]):
                if self.prog.method(sub, '__eq__') is not f:
                    raise Unsupported('overridden __eq__')
            return self.pure(st, lambda s: self.bind(self.call_func(s, f, [a, b], {}), self.truth))
        if x.k == 'rec' and y.k == 'rec':
            p, q = st.recs[a.z], st.recs[b.z]
            return conj([self.eqz(st, p[n], q[n]) for n in p]) if set(p) == set(q) else F_
        if x.k == 'any' or y.k == 'any':
            return self.toz(a, ANY) == self.toz(b, ANY)
        if x.k == 'class' and y.k == 'class':
            return z3.BoolVal(a.z == b.z)
        base = {'int', 'bool', 'str', 'seq', 'tup', 'list', 'dict', 'set', 'obj', 'fset'}
        if x.k in base and y.k in base and x.k != y.k:
            return F_
        raise Unsupported('== between %r and %r' % (x, y))

    def seqeq(self, st, a, b):
        ca, ta, ea = self.content(st, a)
        cb, tb, eb = self.content(st, b)
        if ca is None or cb is None:
            if ca is None and cb is None:
                return T
            c, t = (cb, tb) if ca is None else (ca, ta)
            return t.len(c) == 0
        if ta is not tb:
            raise Unsupported('== of sequences of %r and %r' % (ea, eb))
        if ea.k == 'obj' and self.prog.method(ea.a[0], '__eq__') or ea.k == 'tup' and any(q.k in ('obj', 'list') for q in ea.a):
            i = self.fresh('q', Int)
            x, y = self.unz(ta.at(ca, i), ea), self.unz(ta.at(cb, i), eb)
            body = self.eqz(st, x, y)
            return z3.And(ta.len(ca) == ta.len(cb),
                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ta.len(ca)), body), patterns=[ta.at(ca, i)]))
        return ta.eq(ca, cb)

    def pure(self, st, fn):
        """run fn (which must not fork on effects) and merge its Bool outcomes into one formula"""
        s0 = st.clone()
        n = len(s0.path)
        outs = fn(s0)
        res = []
        for s, k, b in outs:
            if k != OK:
                raise Unsupported('exception in pure context')
            cs = [f for kk, f in s.path[n:] if kk == 'c']
            for kk, f in s.path[n:]:
                if kk == 'f':
                    st.fact(z3.Implies(conj(cs), f) if cs else f)
            self.check_noeffect(st, s)
            res.append(z3.And(conj(cs), b))
        return disj(res)

    def check_noeffect(self, a, b):
        for k, v in b.heap.items():
            if k == ('$alive',):
                continue
            w = a.heap.get(k)
            if w is None:
                w = self.h0.get(k)
            if w is None or not w.eq(v):
                if w is not None and self.only_new(v, w):
                    a.heap[k] = v
                    continue
                raise Unsupported('effect in pure context: %r' % (k,))
        if ('$alive',) in b.heap:
            a.heap[('$alive',)] = b.heap[('$alive',)]

    def only_new(self, v, base):
        while not v.eq(base):
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE and v.arg(1).get_id() in (self.newrefs or {}):
                v = v.arg(0)
            else:
                return False
        return True

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'ev_' + e.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s' % e.__class__.__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        v = e.value
        if v is None:
            return [(st, OK, NONEV)]
        if isinstance(v, bool):
            return [(st, OK, vbool(v))]
        if isinstance(v, int):
            return [(st, OK, vint(v))]
        if isinstance(v, str):
            return [(st, OK, vstr(v))]
        if v is Ellipsis:
            return [(st, OK, NONEV)]
        raise Unsupported('constant %r' % (v,))

    def ev_Name(self, e, st):
        v = self.lookup(st, e.id)
        if v.ty.k == 'undef':
            if v.x == 'maybe':
                raise Unsupported('variable %s is only defined on some iterations' % e.id)
            return [self.exc(st, 'UnboundLocalError')]
        return [(st, OK, v)]

    def lookup(self, st, name):
        if name in st.env:
            return st.env[name]
        fi = st.env.get('$closure')
        while fi is not None:
            fr = st.frames[fi]
            if name in fr:
                return fr[name]
            fi = fr.get('$closure')
        return self.glob(st, st.env['$mod'], name)

    def glob(self, st, mod, name):
        if name in mod.funcs:
            return V(Ty('func'), mod.funcs[name])
        if name in mod.classes:
            return V(Ty('class'), name)
        if name in mod.consts:
            return self.const(st, mod, name, mod.consts[name])
        if name in mod.imports:
            src, nm = mod.imports[name]
            if src in self.prog.mods:
                if nm is None:
                    return V(Ty('module'), src)
                if src + '.' + nm in self.prog.mods and nm not in self.prog.mods[src].funcs:
                    return V(Ty('module'), src + '.' + nm)
                return self.glob(st, self.prog.mods[src], nm)
            return V(Ty('ext'), src + ('.' + nm if nm else ''))
        if name in BUILTINS or name in self.side.builtin_names:
            return V(Ty('builtin'), name)
        from .source import BUILTIN_EXC
        if name in BUILTIN_EXC:
            return V(Ty('class'), name)
        if name == '__name__':
            return vstr(mod.name)
        raise Unsupported('unknown name %s' % name)

    def text_const(self, mod, node):
        """the text of a constant expression over literals and other constants of the module"""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return node.value
        if isinstance(node, ast.Name) and node.id in mod.consts:
            return self.text_const(mod, mod.consts[node.id])
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            return self.text_const(mod, node.left) + self.text_const(mod, node.right)
        raise Unsupported('constant text %s' % ast.unparse(node))

    def const(self, st, mod, name, node):
        ov = self.side.consts.get(mod.name + ':' + name)
        if ov is not None:
            return ov(self, st)
        if isinstance(node, ast.Call) and ast.unparse(node.func) == 'logging.getLogger':
            return V(Ty('ext'), 'logger')
        if isinstance(node, ast.Call) and ast.unparse(node.func) == 're.compile' and len(node.args) == 1 and not node.keywords:
            return V(ANY, z3.Const('regex!' + mod.name + ':' + name, U), {'regex': self.text_const(mod, node.args[0])})
        if isinstance(node, ast.Name) and node.id in ('str', 'chr', 'unicode'):
            return V(Ty('builtin'), node.id)
        if isinstance(node, (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.BinOp, ast.Dict)):
            fr = {'$mod': mod, '$closure': None}
            st.frames.append(fr)
            stk = st.stack
            st.stack = ((mod.name, name),)
            outs = self.ev(node, st)
            if len(outs) == 1 and outs[0][1] == OK and outs[0][0] is st:
                st.frames.pop()
                st.stack = stk
                v = outs[0][2]
                if v.ty.k in ('list', 'dict', 'set') and v.ty.a[0].k != '?':
                    keys = [self.lkey(v.ty)] if v.ty.k == 'list' else list(self.dkeys(v.ty)) if v.ty.k == 'dict' else [self.setkey(v.ty)]
                    self.modconsts[str(v.z)] = (mod.name + ':' + name, v.z, [(q, self.hget(st, q, v.z)) for q in keys])
                    st.path.append(('f', modconst(v.z)))
                return v
        if name == 'text_type':
            return V(Ty('builtin'), 'str')
        if name == 'wide_unichr':
            return V(Ty('builtin'), 'chr')
        raise Unsupported('module constant %s' % name)

    def ev_Tuple(self, e, st):
        return self.bind(self.evs(e.elts, st), lambda s, vs: [(s, OK, vtup(vs))])

    def site(self, st, e):
        return st.stack + ((e.lineno, e.col_offset, e.__class__.__name__),)

    def new_list(self, st, site, elems=None):
        """allocate a list object; element type from the site table or from elems"""
        t = self.sites.get(site)
        if elems:
            elems = [self.box(st, x) for x in elems]
            et = elems[0].ty
            for x in elems[1:]:
                et = self.join(et, x.ty)
            if t is None or (t[0] != et and self.join(t[0], et) != t[0]):
                self.widen(site, (et,))
        if t is None:
            return V(Ty('list', Ty('?', site)), self.alloc(st, 'list'), {'site': site})
        t = Ty('list', t[0])
        r = self.alloc(st, 'list')
        th = SeqTheory.of(sortof(t.a[0]))
        self.hset(st, self.lkey(t), r, th.lst([self.toz(x, t.a[0]) for x in (elems or [])]))
        return V(t, r, {'site': site})

    def list_of(self, st, seqz, et, site):
        t = self.sites.get(site)
        if t is not None and t[0] != et:
            if not self.same_store(t[:1], [et]):
                raise Unsupported('list site type conflict')
            et = t[0]
        elif t is None:
            pass
        tt = Ty('list', et)
        SeqTheory.of(sortof(et))
        r = self.alloc(st, 'list')
        self.hset(st, self.lkey(tt), r, seqz)
        return V(tt, r, {'site': site})

    def ev_List(self, e, st):
        site = self.site(st, e)
        return self.bind(self.evs(e.elts, st), lambda s, vs: [(s, OK, self.new_list(s, site, vs))])

    def ev_Set(self, e, st):
        site = self.site(st, e)

        def mk(s, vs):
            et = vs[0].ty
            for x in vs[1:]:
                et = self.join(et, x.ty)
            a = z3.K(sortof(et), F_)
            for x in vs:
                a = z3.Store(a, self.toz(x, et), T)
            return [(s, OK, self.new_set(s, et, a, {'items': vs}))]
        return self.bind(self.evs(e.elts, st), mk)

    def new_set(self, st, et, arr, x=None):
        t = Ty('set', et)
        r = self.alloc(st, 'set')
        self.hset(st, self.setkey(t), r, arr)
        return V(t, r, x)

    def ev_Dict(self, e, st):
        site = self.site(st, e)
        if e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            def mk(s, vs):
                if self.sites.get(site):
                    return [(s, OK, self.new_dict(s, site, list(zip([vstr(k.value) for k in e.keys], vs))))]
                rid = len(s.recs) + 1
                while rid in s.recs:
                    rid += 1
                s.recs[rid] = {k.value: v for k, v in zip(e.keys, vs)}
                return [(s, OK, V(Ty('rec'), rid, {'site': site}))]
            return self.bind(self.evs(e.values, st), mk)
        return self.bind(self.evs(list(e.keys) + list(e.values), st), lambda s, vs: [
            (s, OK, self.new_dict(s, site, list(zip(vs[:len(e.keys)], vs[len(e.keys):]))))])

    def new_dict(self, st, site, items=()):
        t = self.sites.get(site)
        if items:
            kt, vt = items[0][0].ty, items[0][1].ty
            for k, v in items[1:]:
                kt, vt = self.join(kt, k.ty), self.join(vt, v.ty)
            if t is None or self.join(t[0], kt) != t[0] or self.join(t[1], vt) != t[1]:
                self.widen(site, (kt, vt))
        if t is None:
            return V(Ty('dict', Ty('?', site)), self.alloc(st, 'dict'), {'site': site})
        tt = Ty('dict', *t)
        r = self.alloc(st, 'dict')
        kd, kv = self.dkeys(tt)
        dom = z3.K(sortof(t[0]), F_)
        val = self.fresh('dv', z3.ArraySort(sortof(t[0]), sortof(t[1])))
        for k, v in items:
            kz = self.toz(k, t[0])
            dom = z3.Store(dom, kz, T)
            val = z3.Store(val, kz, self.toz(v, t[1]))
        self.hset(st, kd, r, dom)
        self.hset(st, kv, r, val)
        return V(tt, r, {'site': site})

    def ev_Lambda(self, e, st):
        f = Func(st.env['$mod'], e)
        f.closure = len(st.frames) - 1
        return [(st, OK, V(Ty('func'), f))]

    def ev_IfExp(self, e, st):
        def f(s, b):
            r = []
            a, c = self.split(s, b)
            if a is not None:
                self.narrow(a, e.test, True)
                r += self.ev(e.body, a)
            if c is not None:
                self.narrow(c, e.test, False)
                r += self.ev(e.orelse, c)
            return r
        outs = self.bind(self.evcond(e.test, st), f)
        return self.try_merge(st, outs)

    def try_merge(self, st, outs):
        return outs

    def evcond(self, e, st):
        """evaluate an expression as a condition: list of (state, OK, z3 Bool)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)

            def go(s, acc, rest):
                # acc: Bool so far
                if not rest:
                    return [(s, OK, acc)]
                base = s.clone()
                guard = acc if isand else neg(acc)
                s2 = s.clone()
                n = len(s2.path)
                if not z3.is_true(guard):
                    s2.cond(guard)
                    n2 = len(s2.path)
                else:
                    n2 = n
                # narrowing of opt values through short-circuit: rely on path condition
                if not z3.is_true(guard) and not self.feasible(s2):
                    return [(s, OK, acc)]
                self.narrow_list(s2, e, rest, isand)
                outs = self.evcond(rest[0], s2)
                if len(outs) == 1 and outs[0][1] == OK and self.same_heap(s, outs[0][0]) and \
                        not any(k == 'c' for k, _ in outs[0][0].path[n2:]):
                    s3, _, b = outs[0]
                    for k, f in s3.path[n2:]:
                        s.fact(z3.Implies(guard, f) if not z3.is_true(guard) else f)
                    s.heap = s3.heap
                    nb = z3.And(acc, b) if isand else z3.Or(acc, b)
                    return go(s, nb, rest[1:])
                # fork
                r = []
                a, c = self.split(s, acc)
                go_on, stop = (a, c) if isand else (c, a)
                if stop is not None:
                    r.append((stop, OK, F_ if isand else T))
                if go_on is not None:
                    self.narrow_list(go_on, e, rest, isand)
                    for s4, k, b in self.evcond(rest[0], go_on):
                        if k != OK:
                            r.append((s4, k, b))
                        else:
                            r.extend(go(s4, b, rest[1:]))
                return r
            return self.bind(self.evcond(e.values[0], st), lambda s, b: go(s, b, e.values[1:]))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.bind(self.evcond(e.operand, st), lambda s, b: [(s, OK, neg(b))])
        return self.bind(self.ev(e, st), self.truth)

    def narrow_list(self, s, e, rest, isand):
        for x in e.values[:len(e.values) - len(rest)]:
            self.narrow(s, x, isand)

    def same_heap(self, a, b):
        for k, v in b.heap.items():
            if k == ('$alive',):
                continue
            w = a.heap.get(k)
            if w is None:
                w = self.h0.get(k)
            if w is None or not (w.eq(v) or self.only_new(v, w)):
                return False
        return a.recs == b.recs and len(a.yields) == len(b.yields)

    def narrow(self, st, test, val):
        """x is not None / isinstance(x, C) refine the static type of a local variable"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(st, test.operand, not val)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == val:
                for x in test.values:
                    self.narrow(st, x, val)
            return
        if isinstance(test, ast.Name):
            v = st.env.get(test.id)
            if v is not None and v.ty.k == 'opt' and val:
                st.env[test.id] = self.unz(unopt_z(v.ty, v.z), v.ty.a[0])
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            pos = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
            v = st.env.get(test.left.id)
            if v is not None and v.ty.k == 'opt':
                if pos == val:
                    st.env[test.left.id] = self.unz(unopt_z(v.ty, v.z), v.ty.a[0])
                else:
                    st.env[test.left.id] = NONEV
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and val \
                and isinstance(test.args[0], ast.Name) and isinstance(test.args[1], ast.Name):
            v = st.env.get(test.args[0].id)
            c = test.args[1].id
            if v is not None and v.ty.k == 'obj' and self.prog.is_sub(c, v.ty.a[0]):
                st.env[test.args[0].id] = V(Ty('obj', c), v.z, v.x)

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = e.values

        def boolish(x):
            if isinstance(x, ast.Compare) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'any', 'all', 'bool'):
                return True
            if isinstance(x, ast.BoolOp):
                return all(map(boolish, x.values))
            return False
        if all(boolish(x) for x in vals):
            return self.bind(self.evcond(e, st), lambda s, b: [(s, OK, vbool(b))])

        def go(s, v, rest):
            if not rest:
                return [(s, OK, v)]

            def f(s1, b):
                r = []
                a, c = self.split(s1, b)
                go_on, stop = (a, c) if isand else (c, a)
                if stop is not None:
                    w = v
                    if w.ty.k == 'opt' and not isand:
                        w = self.unz(unopt_z(w.ty, w.z), w.ty.a[0])
                    if w.ty.k == 'bool':
                        w = vbool(not isand)
                    r.append((stop, OK, w))
                if go_on is not None:
                    self.narrow_list(go_on, e, rest, isand)
                    r += self.bind(self.ev(rest[0], go_on), lambda s2, v2: go(s2, v2, rest[1:]))
                return r
            # pure boolean operands: combine without forking
            if v.ty.k == 'bool' and len(rest) >= 1:
                n0 = s.clone()
                g = v.z if isand else neg(v.z)
                n0.cond(g)
                n = len(n0.path)
                if self.feasible(n0):
                    try:
                        outs = self.ev(rest[0], n0)
                    except Restart:
                        raise
                    if len(outs) == 1 and outs[0][1] == OK and outs[0][2].ty.k == 'bool' and \
                            self.same_heap(s, outs[0][0]) and not any(k == 'c' for k, _ in outs[0][0].path[n:]):
                        s3, _, w = outs[0]
                        for k, ff in s3.path[n:]:
                            s.fact(z3.Implies(g, ff))
                        s.heap = s3.heap
                        return go(s, vbool(z3.And(v.z, w.z) if isand else z3.Or(v.z, w.z)), rest[1:])
            return self.bind(self.truth(s, v), f)
        return self.bind(self.ev(vals[0], st), lambda s, v: go(s, v, vals[1:]))

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return self.bind(self.evcond(e, st), lambda s, b: [(s, OK, vbool(b))])

        def f(s, v):
            if isinstance(e.op, ast.USub) and v.ty.k == 'int':
                return [(s, OK, vint(z3.simplify(-v.z)))]
            raise Unsupported('unary')
        return self.bind(self.ev(e.operand, st), f)

    # ---- comparisons
    def ev_Compare(self, e, st):
        def go(s, left, ops, comps):
            if not ops:
                return [(s, OK, T)]

            def f(s1, right):
                def g(s2, b):
                    if len(ops) == 1:
                        return [(s2, OK, b)]
                    a, c = self.split(s2, b)
                    r = []
                    if c is not None:
                        r.append((c, OK, F_))
                    if a is not None:
                        r += go(a, right, ops[1:], comps[1:])
                    return r
                return self.bind(self.compare(s1, ops[0], left, right), g)
            return self.bind(self.ev(comps[0], s), f)
        return self.bind(self.bind(self.ev(e.left, st), lambda s, v: go(s, v, e.ops, e.comparators)),
                         lambda s, b: [(s, OK, vbool(b))])

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return [(st, OK, self.eqz(st, a, b))]
        if isinstance(op, ast.NotEq):
            return [(st, OK, neg(self.eqz(st, a, b)))]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a.ty.k == 'none' or b.ty.k == 'none':
                r = self.eqz(st, a, b)
            elif a.ty.k == 'bool' and b.ty.k == 'bool':
                r = a.z == b.z
            elif a.ty.k == 'class' and b.ty.k == 'class':
                r = z3.BoolVal(a.z == b.z)
            elif a.z is not None and b.z is not None and hasattr(a.z, 'sort') and a.z.sort() == b.z.sort() == Ref:
                r = a.z == b.z
            else:
                raise Unsupported('is')
            return [(st, OK, r if isinstance(op, ast.Is) else neg(r))]
        if isinstance(op, (ast.In, ast.NotIn)):
            outs = self.contains(st, b, a)
            return self.bind(outs, lambda s, r: [(s, OK, r if isinstance(op, ast.In) else neg(r))])
        # ordering
        def f(s, a, b):
            if a.ty.k in ('int', 'bool') and b.ty.k in ('int', 'bool'):
                x, y = self.toz(a, INT), self.toz(b, INT)
                return [(s, OK, {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])]
            if a.ty.k in ('seq', 'list', 'tup') and b.ty.k in ('seq', 'list', 'tup'):
                ca, ta, _ = self.content(s, a)
                cb, tb, _ = self.content(s, b)
                if ca is not None and ta is tb:
                    return [(s, OK, {ast.Lt: neg(ta.le(cb, ca)), ast.LtE: ta.le(ca, cb), ast.Gt: neg(ta.le(ca, cb)),
                                     ast.GtE: ta.le(cb, ca)}[type(op)])]
            if a.ty.k == 'str' and b.ty.k == 'str':
                return [(s, OK, {ast.Lt: neg(str_le(b.z, a.z)), ast.LtE: str_le(a.z, b.z), ast.Gt: neg(str_le(a.z, b.z)),
                                 ast.GtE: str_le(b.z, a.z)}[type(op)])]
            if a.ty.k in ('set', 'fset') and b.ty.k in ('set', 'fset') and isinstance(op, (ast.LtE, ast.GtE)):
                x, y = self.setz(s, a), self.setz(s, b)
                if isinstance(op, ast.GtE):
                    x, y = y, x
                return [(s, OK, z3.IsSubset(x, y))]
            raise Unsupported('ordering of %r and %r' % (a.ty, b.ty))
        return self.bind(self.unopt(st, a), lambda s, a2: self.bind(self.unopt(s, b), lambda s2, b2: f(s2, a2, b2)))

    def unopt(self, st, v, excname='TypeError'):
        if v.ty.k == 'none':
            return [self.exc(st, excname)]
        if v.ty.k != 'opt':
            return [(st, OK, v)]
        r = []
        a, c = self.split(st, is_none_z(v.ty, v.z))
        if a is not None:
            r.append(self.exc(a, excname))
        if c is not None:
            r.append((c, OK, self.typed(c, unopt_z(v.ty, v.z), v.ty.a[0])))
        return r

    def contains(self, st, cont, x):
        k = cont.ty.k
        if k in ('opt', 'none'):
            return self.bind(self.unopt(st, cont), lambda s, c: self.contains(s, c, x))
        if k == 'obj':
            f = self.prog.method(cont.ty.a[0], '__contains__')
            if f:
                return self.bind(self.call_method(st, cont, '__contains__', [x], {}), self.truth)
            if self.side.dictlike(self, cont.ty.a[0]):
                return self.contains(st, self.as_dict(st, cont), x)
            raise Unsupported('in object')
        if k == 'str':
            if x.ty.k != 'str':
                raise Unsupported('in str')
            return [(st, OK, strin(x.z, cont.z))]
        if k in ('tup',) or k in ('set',) and cont.x and 'items' in cont.x and False:
            return [(st, OK, disj([self.eqz(st, x, y) for y in cont.z]))]
        if k == 'rec':
            if x.x and 'lit' in x.x:
                return [(st, OK, z3.BoolVal(x.x['lit'] in st.recs[cont.z]))]
            raise Unsupported('in rec')
        if k in ('set', 'fset', 'dict'):
            if cont.ty.a[0].k == '?':
                return [(st, OK, F_)]
            et = cont.ty.a[0]
            xs = x
            if x.ty.k == 'opt' and et.k != 'opt':
                n = is_none_z(x.ty, x.z)
                a = self.setz(st, cont)
                return [(st, OK, z3.And(neg(n), z3.Select(a, unopt_z(x.ty, x.z))))]
            if x.ty.k == 'none' and et.k != 'opt':
                return [(st, OK, F_)]
            if et.k == 'seq' and x.ty.k == 'list':
                return [self.exc(st, 'TypeError')]
            try:
                xz = self.toz(x, et)
            except Unsupported:
                if x.ty.k in ('int', 'str', 'seq', 'tup') and et.k in ('int', 'str', 'seq', 'tup') and x.ty.k != et.k \
                        and {x.ty.k, et.k} != {'seq', 'tup'}:
                    return [(st, OK, F_)]
                raise
            return [(st, OK, z3.Select(self.setz(st, cont), xz))]
        if k == 'range':
            lo, hi = cont.z
            return [(st, OK, z3.And(lo <= x.z, x.z < hi))]
        if k == 'iter':
            it = cont.z
            cont = self.materialise(st, it)
            k = cont.ty.k
        if k in ('list', 'seq', 'sset'):
            c, th, et = self.content(st, cont)
            if c is None:
                return [(st, OK, F_)]
            return [(st, OK, self.seq_has(st, c, th, et, x))]
        if k == 'any':
            raise Unsupported('in opaque value')
        raise Unsupported('in %r' % cont.ty)

    def seq_has(self, st, c, th, et, x):
        """x in sequence c, by ==; introduces a witness"""
        plain = not self.custom_eq(et)
        if plain and x.ty.k == et.k and sortof(x.ty) == sortof(et) and et.k not in ('list', 'opt', 'any', 'set', 'dict'):
            return th.has(c, self.toz(x, et))
        if plain and et.k == 'opt' and sortof(et) == Str:
            return th.has(c, self.toz(x, et))
        if plain and et.k == 'seq' and x.ty.k == 'tup':
            return th.has(c, self.toz(x, et))
        if plain and x.ty.k == 'opt' and sortof(x.ty) == sortof(et) and et.k in ('str',):
            return z3.And(neg(is_none_z(x.ty, x.z)), th.has(c, x.z))
        if x.ty.k == 'none' and et.k not in ('opt', 'any', 'none'):
            return F_
        mark = len(self.log)
        i = z3.FreshConst(Int, 'e')
        q = self.eqz(st, self.unz(th.at(c, i), et), x)
        if len(self.log) > mark:
            raise Unsupported('membership needs effects')
        return z3.Exists([i], z3.And(0 <= i, i < th.len(c), q), patterns=[th.at(c, i)])

    def custom_eq(self, t):
        if t.k == 'obj':
            return self.prog.method(t.a[0], '__eq__') is not None
        if t.k in ('tup', 'opt', 'seq'):
            return any(self.custom_eq(x) for x in t.a)
        return t.k in ('list', 'dict', 'set')

    # ---- arithmetic / concatenation
    def ev_BinOp(self, e, st):
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return self.bind(self.ev(e.right, st), lambda s, v: [(s, OK, self.fmt_percent(s, e.left.value, v))])
        return self.bind(self.evs([e.left, e.right], st), lambda s, vs: self.binop(s, e.op, vs[0], vs[1], e))

    def binop(self, st, op, a, b, e=None):
        if a.ty.k in ('opt', 'none') or b.ty.k in ('opt', 'none'):
            return self.bind(self.unopt(st, a), lambda s, x: self.bind(
                self.unopt(s, b), lambda s2, y: self.binop(s2, op, x, y, e)))
        ka, kb = a.ty.k, b.ty.k
        num = ('int', 'bool')
        if ka in num and kb in num:
            if ka == kb == 'bool' and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return [(st, OK, vbool({ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[type(op)](a.z, b.z)))]
            x, y = self.toz(a, INT), self.toz(b, INT)
            if isinstance(op, ast.Add):
                return [(st, OK, vint(z3.simplify(x + y)))]
            if isinstance(op, ast.Sub):
                return [(st, OK, vint(z3.simplify(x - y)))]
            if isinstance(op, ast.Mult):
                return [(st, OK, vint(x * y))]
            raise Unsupported('int op')
        if isinstance(op, ast.Add):
            if ka == 'str' and kb == 'str':
                return [(st, OK, self.scat(a, b))]
            if ka == 'tup' and kb == 'tup':
                return [(st, OK, vtup(a.z + b.z))]
            if ka in ('tup', 'seq') and kb in ('tup', 'seq'):
                t = self.join(a.ty, b.ty)
                if ka == 'tup' and not a.z:
                    return [(st, OK, b)]
                if kb == 'tup' and not b.z:
                    return [(st, OK, a)]
                if t.k != 'seq':
                    raise Unsupported('tuple concat %r %r' % (a.ty, b.ty))
                th = SeqTheory.of(sortof(t.a[0]))
                return [(st, OK, V(t, th.concat(self.toz(a, t), self.toz(b, t))))]
            if ka == 'list' and kb == 'list':
                site = self.site(st, e)
                ca, ta, ea = self.content(st, a)
                cb, tb, eb = self.content(st, b)
                if ca is None and cb is None:
                    return [(st, OK, self.new_list(st, site))]
                if ca is None:
                    return [(st, OK, self.list_of(st, cb, eb, site))]
                if cb is None:
                    return [(st, OK, self.list_of(st, ca, ea, site))]
                if ta is not tb:
                    raise Unsupported('list concat types')
                tail = self.static_seq(cb, ta)
                if tail and len(tail) <= 8 and self.static_seq(ca, ta) is None:
                    # what stands at the end, by position
                    cc = ta.concat(ca, cb)
                    for j, x in enumerate(tail):
                        st.fact(ta.at(cc, ta.len(ca) + j) == x)
                return [(st, OK, self.list_of(st, ta.concat(ca, cb), self.join(ea, eb), site))]
            if {ka, kb} <= {'list', 'seq', 'tup'}:
                return [self.exc(st, 'TypeError')]
        sets = ('set', 'fset')
        if ka in sets and kb in sets:
            if a.ty.a[0].k == '?' or b.ty.a[0].k == '?':
                raise Unsupported('untyped set op')
            x, y = self.setz(st, a), self.setz(st, b)
            if x.sort() != y.sort():
                raise Unsupported('set op sorts')
            r = self.setop(op, x, y)
            if ka == 'fset':
                return [(st, OK, V(a.ty, r))]
            return [(st, OK, self.new_set(st, a.ty.a[0], r))]
        if ka == 'obj':
            nm = {ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.Sub: '__sub__', ast.Add: '__add__'}.get(type(op))
            if nm and (a.ty.a[0], nm) in self.side.externs:
                return self.call_method(st, a, nm, [b], {})
        if isinstance(op, ast.Mult) and ka == 'str' or isinstance(op, ast.Mod) and ka == 'str':
            if isinstance(op, ast.Mod):
                return [(st, OK, self.opaque_str(st, 'strmod', [a, b]))]
        raise Unsupported('binop %s on %r,%r' % (type(op).__name__, a.ty, b.ty))

    def setop(self, op, x, y):
        if isinstance(op, ast.BitAnd):
            return z3.SetIntersect(x, y)
        if isinstance(op, ast.BitOr):
            return z3.SetUnion(x, y)
        if isinstance(op, ast.Sub):
            return z3.SetDifference(x, y)
        if isinstance(op, ast.BitXor):
            return z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))
        raise Unsupported('set op')

    def scat(self, a, b):
        if a.x and b.x and 'lit' in a.x and 'lit' in b.x:
            return vstr(a.x['lit'] + b.x['lit'])
        if a.x and a.x.get('lit') == '':
            return b
        if b.x and b.x.get('lit') == '':
            return a
        if a.x and 'lit' in a.x:
            prefix_lits.add(a.x['lit'])
        return V(STR, strcat(a.z, b.z))

    def anyz(self, st, v):
        try:
            return self.toz(v, ANY)
        except Unsupported:
            if v.ty.k in ('class', 'func', 'ext', 'builtin', 'module', 'bound'):
                return z3.Const('meta_' + str(v.z if isinstance(v.z, str) else getattr(v.z, 'name', 'f')), U)
            if v.ty.k in ('iter', 'sset', 'rec', 'list', 'dict', 'set', 'undef'):
                return self.fresh('opaque', U)
            raise

    def opaque_str(self, st, name, args):
        zs = [self.anyz(st, a) for a in args]
        r = self.ufn('sf_' + name, *([U] * len(zs) + [Str]))(*zs) if zs else z3.Const('sf_' + name, Str)
        st.fact(r != none_str)
        return V(STR, r)

    def fmt_percent(self, st, f, v):
        import re
        args = v.z if v.ty.k == 'tup' else [v]
        toks = re.split(r'(%(?:\(\w+\))?[0-9.]*[a-zA-Z%])', f)
        if v.ty.k != 'rec' and all(t in ('%s',) or not t.startswith('%') for t in toks):
            out = vstr('')
            i = 0
            for t in toks:
                if t == '%s':
                    if i >= len(args):
                        return self.opaque_str(st, 'fmt', [vstr(f)])
                    out = self.scat(out, self.to_str(st, args[i]))
                    i += 1
                elif t:
                    out = self.scat(out, vstr(t))
            return out
        return self.opaque_str(st, 'fmt:' + f, list(args))

    def to_str(self, st, v):
        if v.ty.k == 'str':
            return v
        if v.ty.k == 'int':
            return V(STR, int2str(v.z))
        if v.ty.k == 'opt' and v.ty.a[0].k == 'str':
            return V(STR, z3.If(is_none_z(v.ty, v.z), lit('None'), v.z))
        if v.ty.k == 'none':
            return vstr('None')
        return self.opaque_str(st, 'str', [v])

    def ev_JoinedStr(self, e, st):
        parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        simple = all(not isinstance(x, ast.FormattedValue) or (x.conversion == -1 and x.format_spec is None)
                     for x in e.values)

        def f(s, vs):
            if not simple:
                return [(s, OK, self.opaque_str(s, 'fstr:' + ast.unparse(e), vs))]
            out = vstr('')
            it = iter(vs)
            for x in e.values:
                out = self.scat(out, vstr(x.value) if isinstance(x, ast.Constant) else self.to_str(s, next(it)))
            return [(s, OK, out)]
        return self.bind(self.evs(parts, st), f)

    # ---- attribute / subscript
    def ev_Attribute(self, e, st):
        return self.bind(self.ev(e.value, st), lambda s, v: self.getattr(s, v, e.attr))

    def getattr(self, st, v, a):
        k = v.ty.k
        if k in ('opt', 'none'):
            return self.bind(self.unopt(st, v, 'AttributeError'), lambda s, w: self.getattr(s, w, a))
        if k == 'obj':
            cls = v.ty.a[0]
            if a == '__class__':
                return [(st, OK, V(Ty('builtin'), '$class', v))]
            if a == '__dict__':
                raise Unsupported('__dict__')
            ow = self.field_owner(cls, a)
            if ow is not None:
                r = []
                ok = st
                if not self.prog.is_sub(cls, ow):
                    subs = self.prog.subclasses(ow)
                    ok, bad = self.split(st, z3.Or(*[typeof(v.z) == self.clsid(c) for c in subs]))
                    if bad is not None:
                        r.append(self.exc(bad, 'AttributeError'))
                if ok is not None:
                    t = self.field_ty(ow, a)
                    r.append((ok, OK, self.typed(ok, self.hget(ok, ('F', ow, a), v.z), t)))
                return r
            if (cls, a) in self.side.externs_any(cls):
                return [(st, OK, V(Ty('bound'), (v, a)))]
            f = self.prog.method(cls, a)
            if f is None:
                for sub in self.prog.subclasses(cls):
                    if self.prog.method(sub, a):
                        f = self.prog.method(sub, a)
                        break
            if f is not None:
                if 'property' in f.decorators():
                    return self.call_method(st, v, a, [], {})
                if 'staticmethod' in f.decorators():
                    return [(st, OK, V(Ty('func'), f))]
                return [(st, OK, V(Ty('bound'), (v, a)))]
            ca = self.prog.class_attr(cls, a)
            if ca is not None:
                # class attribute, possibly overridden in subclasses
                subs = [c for c in self.prog.subclasses(cls)]
                vals = {}
                for c in subs:
                    q = self.prog.class_attr(c, a)
                    vals.setdefault(ast.dump(q[1]) if q else None, []).append((c, q))
                r = []
                cur = st
                items = list(vals.items())
                for i, (_, cs) in enumerate(items):
                    if cur is None:
                        break
                    if i + 1 < len(items) and not (v.x and v.x.get('exact')):
                        hit, cur = self.split(cur, z3.Or(*[typeof(v.z) == self.clsid(c) for c, _ in cs]))
                    elif v.x and v.x.get('exact'):
                        if cls not in [c for c, _ in cs]:
                            continue
                        hit, cur = cur, None
                    else:
                        hit, cur = cur, None
                    if hit is not None:
                        q = cs[0][1]
                        r += self.eval_in_module(hit, q[0].mod, q[1], (q[0].name, a))
                return r
            if self.prog.nested_class(cls, a):
                return [(st, OK, V(Ty('class'), a))]
            if self.side.dictlike(self, cls) and a in DICT_METHODS:
                return [(st, OK, V(Ty('bound'), (self.as_dict(st, v), a)))]
            if cls in self.side.dyn_fields:
                raise Unsupported('undeclared field %s.%s' % (cls, a))
            # a field the sidecar does not know: typed from its first assignment
            t = self.sites.get(('field', cls, a))
            if t is not None:
                self.fieldtab.setdefault(cls, {})[a] = t[0]
                return self.getattr(st, v, a)
            raise Unsupported('attribute %s.%s' % (cls, a))
        if k == 'class':
            f = self.prog.method(v.z, a)
            if f is not None:
                return [(st, OK, V(Ty('func'), f))]
            en = self.enum_member(v.z, a)
            if en is not None:
                return [(st, OK, en)]
            ca = self.prog.class_attr(v.z, a)
            if ca:
                return self.eval_in_module(st, ca[0].mod, ca[1], (ca[0].name, a))
            if self.prog.nested_class(v.z, a):
                return [(st, OK, V(Ty('class'), a))]
            # nested enumeration-like classes: opaque constants
            return [(st, OK, V(ANY, z3.Const('attr_%s_%s' % (v.z, a), U), {'name': '%s.%s' % (v.z, a)}))]
        if k == 'any':
            if v.x and 'name' in v.x:
                nm = v.x['name'] + '.' + a
                return [(st, OK, V(ANY, z3.Const('attr_' + nm.replace('.', '_'), U), {'name': nm}))]
            if v.x and v.x.get('sink'):
                return [(st, OK, V(Ty('bound'), (v, a)))]
            if ('any', a) in self.side.externs:
                return [(st, OK, V(Ty('bound'), (v, a)))]
            raise Unsupported('attribute %s of opaque value' % a)
        if k == 'module':
            m = self.prog.mods[v.z]
            return [(st, OK, self.glob(st, m, a))]
        if k == 'ext':
            return [(st, OK, V(Ty('ext'), v.z + '.' + a))]
        if k == 'super':
            return [(st, OK, V(Ty('bound'), (v, a)))]
        if k in ('list', 'seq', 'tup', 'dict', 'set', 'fset', 'str', 'rec', 'iter', 'sset', 'counter'):
            return [(st, OK, V(Ty('bound'), (v, a)))]
        if k == 'int' and a == 'name':
            r = enum_name(v.z)
            st.fact(r != none_str)
            return [(st, OK, V(STR, r))]
        if k == 'builtin' and v.z == '$class' and a == '__name__':
            return [(st, OK, self.opaque_str(st, 'clsname', [V(INT, typeof(v.x.z))]))]
        if k == 'builtin':
            return [(st, OK, V(Ty('builtin'), v.z + '.' + a))]
        if k == 'func' and a == '__name__':
            return [(st, OK, vstr(v.z.name))]
        raise Unsupported('attribute %s of %s' % (a, k))

    def enum_member(self, cls, a):
        """a member of an enumeration, as its number"""
        c = self.prog.classes.get(cls)
        if c is None or a not in c.attrs or not set(c.bases) & {'Enum', 'IntEnum'}:
            return None
        e = c.attrs[a]
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return vint(e.value)
        if isinstance(e, ast.Call) and ast.unparse(e) in ('auto()', 'enum.auto()') and all(ast.unparse(x) == ast.unparse(e) for x in c.attrs.values()):
            return vint(1 + list(c.attrs).index(a))
        raise Unsupported('enumeration %s' % cls)

    def eval_in_module(self, st, mod, node, tag):
        n = len(st.frames)
        st.frames.append({'$mod': mod, '$closure': None})
        stk, st.stack = st.stack, (tag,)
        outs = self.ev(node, st)
        for s, _, _ in outs:
            del s.frames[n:]
            s.stack = stk
        return outs

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [e.slice.lower, e.slice.upper, e.slice.step]
            if parts[2] is not None:
                raise Unsupported('slice step')
            outs = self.ev(e.value, st)
            for p in parts[:2]:
                outs = self.bind(outs, lambda s, v, p=p: [(s2, k, (v if isinstance(v, tuple) else (v,)) + (w,) if k == OK else w)
                                                          for s2, k, w in (self.ev(p, s) if p is not None else [(s, OK, None)])])
            return self.bind(outs, lambda s, t: self.slice(s, t[0], t[1], t[2], e))
        return self.bind(self.evs([e.value, e.slice], st), lambda s, vs: self.getitem(s, vs[0], vs[1]))

    def slice(self, st, v, lo, hi, e):
        if v.ty.k in ('opt', 'none'):
            return self.bind(self.unopt(st, v), lambda s, w: self.slice(s, w, lo, hi, e))
        if v.ty.k == 'tup':
            l = 0 if lo is None else _static_int(lo)
            h = len(v.z) if hi is None else _static_int(hi)
            if l is not None and h is not None:
                return [(st, OK, vtup(v.z[l:h]))]
        if v.ty.k == 'str':
            if hi is None and lo is not None and lo.ty.k == 'int':
                lz = z3.simplify(lo.z)
                r = self.ufn('strdrop', Str, Int, Str)(v.z, lo.z)
                st.fact(r != none_str)
                # s[len(p):] of a string starting with p
                for pk, pz in [(k, z) for k, z in str_lits.items()]:
                    if z3.is_int_value(lz) and lz.as_long() == len(pk):
                        st.fact(z3.Implies(strprefix(pz, v.z), r == strsuf(pz, v.z)))
                return [(st, OK, V(STR, r))]
            return [(st, OK, self.opaque_str(st, 'slice', [v, lo or NONEV, hi or NONEV]))]
        c, th, et = self.content(st, v)
        if c is None:
            return [(st, OK, v)]
        n = th.len(c)

        def norm(x, dflt):
            if x is None or x.ty.k == 'none':
                return dflt
            z = z3.simplify(self.toz(x, INT))
            if z3.is_int_value(z):
                i = z.as_long()
                if i == 0:
                    return z3.IntVal(0)
                if i > 0:
                    return z3.If(n < i, n, z3.IntVal(i))
                return z3.If(n < -i, z3.IntVal(0), n + i)
            z2 = z3.If(z < 0, z3.If(z + n < 0, z3.IntVal(0), z + n), z3.If(z > n, n, z))
            return z2
        # drop needless clamping when the path decides it
        l, h = norm(lo, z3.IntVal(0)), norm(hi, n)
        l = self.bound(st, l, n, self.toz(lo, INT) if lo is not None and lo.ty.k != 'none' else n, '')
        h = self.bound(st, h, n, self.toz(hi, INT) if hi is not None and hi.ty.k != 'none' else n, '')
        if hi is None or hi.ty.k == 'none':
            r = c if z3.is_int_value(l) and l.as_long() == 0 else th.drop(c, l)
        elif z3.is_int_value(l) and l.as_long() == 0:
            r = th.take(c, h)
        else:
            hh = self.bound(st, z3.If(h < l, l, h), l, h)
            r = th.drop(th.take(c, hh), l)
        if v.ty.k == 'list':
            return [(st, OK, self.list_of(st, r, et, self.site(st, e)))]
        return [(st, OK, V(Ty('seq', et), r))]

    def bound(self, st, t, *args):
        """a slice bound: an if-then-else left undecided is named, as a function of what it is made of (so that it may stand in a pattern)"""
        t = self.decide_int(st, t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            x = z3.Function('max2' if len(args) == 2 else 'clamp%s' % args[2], Int, Int, Int)(*args[:2])
            st.fact(x == t)
            return x
        return t

    def decide_int(self, st, t):
        """resolve nested ite whose condition is decided by the path"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            s = z3.Solver()
            s.set('timeout', 200)
            s.add(*[f for f in st.formulas() if not _hasq(f)])
            s.add(*[self.lenpos(x) for x in _lens(c)])
            s.push()
            s.add(z3.Not(c))
            if s.check() == z3.unsat:
                return self.decide_int(st, t.arg(1))
            s.pop()
            s.add(c)
            if s.check() == z3.unsat:
                return self.decide_int(st, t.arg(2))
        return t

    def lenpos(self, x):
        return x >= 0

    def getitem(self, st, v, i):
        k = v.ty.k
        if k in ('opt', 'none'):
            return self.bind(self.unopt(st, v), lambda s, w: self.getitem(s, w, i))
        if k == 'obj':
            f = self.prog.method(v.ty.a[0], '__getitem__')
            if f:
                return self.call_method(st, v, '__getitem__', [i], {})
            if self.side.dictlike(self, v.ty.a[0]):
                return self.getitem(st, self.as_dict(st, v), i)
            raise Unsupported('getitem on object')
        if k == 'rec':
            if i.x and 'lit' in i.x:
                rec = st.recs[v.z]
                if i.x['lit'] in rec:
                    return [(st, OK, rec[i.x['lit']])]
                return [self.exc(st, 'KeyError')]
            raise Unsupported('dynamic rec key')
        if k == 'dict':
            if v.ty.a[0].k == '?':
                return [self.exc(st, 'KeyError')]
            r = []
            outs = [(st, OK, i)] if v.ty.a[0].k == 'opt' or i.ty.k not in ('opt', 'none') else self.unopt(st, i, 'KeyError')

            def f(s, i):
                kd, kv = self.dkeys(v.ty)
                kz = self.toz(i, v.ty.a[0])
                a, c = self.split(s, z3.Select(self.hget(s, kd, v.z), kz))
                r = []
                if c is not None:
                    r.append(self.exc(c, 'KeyError', [i]))
                if a is not None:
                    r.append((a, OK, self.typed(a, z3.Select(self.hget(a, kv, v.z), kz), v.ty.a[1])))
                return r
            return self.bind(outs, f)
        if k == 'tup':
            n = _static_int(i)
            if n is not None:
                if -len(v.z) <= n < len(v.z):
                    return [(st, OK, v.z[n])]
                return [self.exc(st, 'IndexError')]
        if k == 'str':
            iz, n = self.toz(i, INT), strlen(v.z)
            a, b = self.split(st, z3.And(-n <= iz, iz < n))
            r = [] if b is None else [self.exc(b, 'IndexError')]
            return r if a is None else r + [(a, OK, self.opaque_str(a, 'stridx', [v, V(INT, iz)]))]
        if k in ('list', 'seq', 'tup'):
            c, th, et = self.content(st, v)
            if c is None:
                return [self.exc(st, 'IndexError')]
            iz = z3.simplify(self.toz(i, INT))
            n = th.len(c)
            if z3.is_int_value(iz):
                if iz.as_long() < 0:
                    ok = n >= -iz.as_long()
                    iz = z3.simplify(n + iz)
                else:
                    ok = iz < n
            else:
                ok = z3.And(-n <= iz, iz < n)
                iz = self.decide_int(st, z3.If(iz < 0, n + iz, iz))
            st.fact(n >= 0)
            a, b = self.split(st, ok)
            r = []
            if b is not None:
                r.append(self.exc(b, 'IndexError'))
            if a is not None:
                r.append((a, OK, self.typed(a, th.at(c, iz), et)))
            return r
        raise Unsupported('getitem on %r' % v.ty)

    # ---- comprehensions
    def ev_ListComp(self, e, st):
        def f(s, sq):
            z, th, et = sq
            if z is None:
                return [(s, OK, self.new_list(s, self.site(s, e)))]
            return [(s, OK, self.list_of(s, z, et, self.site(s, e)))]
        return self.bind(self.comp(e.generators, e.elt, st), f)

    def ev_GeneratorExp(self, e, st):
        return self.bind(self.comp(e.generators, e.elt, st), lambda s, sq: [(s, OK, self.empty_or_seq(sq))])

    def empty_or_seq(self, sq):
        z, th, et = sq
        if z is None:
            return vtup([])
        return V(Ty('seq', et), z)

    def ev_SetComp(self, e, st):
        def f(s, sq):
            z, th, et = sq
            if z is None:
                raise Unsupported('untyped set comprehension')
            if self.custom_eq(et):
                return [(s, OK, V(Ty('sset', et), z))]
            return [(s, OK, self.new_set(s, et, th.setof(z)))]
        return self.bind(self.comp(e.generators, e.elt, st), f)

    def ev_DictComp(self, e, st):
        if len(e.generators) != 1:
            raise Unsupported('nested dict comprehension')
        site = self.site(st, e)
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)

        def f(s, sq):
            z, th, et = sq
            if z is None:
                raise Unsupported('untyped dict comprehension')
            return [(s, OK, self.dict_from_pairs(s, z, th, et))]
        return self.bind(self.comp(e.generators, pair, st), f)

    def dict_from_pairs(self, st, z, th, et):
        """last pair with a key wins"""
        kt, vt = et.a
        _, mk, acc = tup_dt(tuple(sortof(x) for x in et.a))
        t = Ty('dict', kt, vt)
        kd, kv = self.dkeys(t)
        r = self.alloc(st, 'dict')
        dom = self.fresh('dom', z3.ArraySort(sortof(kt), Bool))
        val = self.fresh('val', z3.ArraySort(sortof(kt), sortof(vt)))
        w = self.fresh_fun('lastidx', sortof(kt), Int)
        i = z3.Int('i_dp')
        x = z3.Const('x_dp', sortof(kt))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(z)),
                                          z3.And(z3.Select(dom, acc[0](th.at(z, i))), w(acc[0](th.at(z, i))) >= i)),
                          patterns=[th.at(z, i)]))
        st.fact(z3.ForAll([x], z3.Implies(z3.Select(dom, x),
                                          z3.And(0 <= w(x), w(x) < th.len(z), acc[0](th.at(z, w(x))) == x,
                                                 z3.Select(val, x) == acc[1](th.at(z, w(x))))),
                          patterns=[z3.Select(dom, x)]))
        self.hset(st, kd, r, dom)
        self.hset(st, kv, r, val)
        return V(t, r)

    def comp(self, gens, elt, st):
        """-> outcomes with value (seq z3, theory, elem type)"""
        g = gens[0]
        rest = gens[1:]

        def with_iter(s, v):
            return self.bind(self.iterate(s, v), lambda s1, it: self.comp_iter(s1, it, g, rest, elt))
        return self.bind(self.ev(g.iter, st), with_iter)

    def comp_iter(self, st, it, g, rest, elt):
        if it.static is not None:
            # statically known elements: unroll
            outs = [(st, OK, [])]
            for x in it.static:
                def step(s, acc, x=x):
                    n = len(s.frames)
                    s.frames.append({'$mod': s.env['$mod'], '$closure': n - 1})
                    res = []
                    for s1, k, _ in self.assign(s, g.target, x):
                        if k != OK:
                            res.append((s1, k, _))
                            continue
                        conds = [(s1, OK, T)]
                        for c in g.ifs:
                            nc = []
                            for s2, k2, b in conds:
                                if k2 != OK:
                                    nc.append((s2, k2, b))
                                    continue
                                a, d = self.split(s2, b)
                                if d is not None:
                                    nc.append((d, 'skip', None))
                                if a is not None:
                                    nc += self.evcond(c, a)
                            conds = nc
                        for s2, k2, b in conds:
                            if k2 == 'skip':
                                res.append((s2, OK, acc))
                            elif k2 == OK:
                                a, d = self.split(s2, b)
                                if d is not None:
                                    res.append((d, OK, acc))
                                if a is not None:
                                    if rest:
                                        raise Unsupported('nested static comprehension')
                                    for s3, k3, v in self.ev(elt, a):
                                        res.append((s3, k3, acc + [v] if k3 == OK else v))
                            else:
                                res.append((s2, k2, b))
                    for s3, _, _ in res:
                        del s3.frames[n:]
                    return res
                outs = self.bind(outs, step)

            def fin(s, vs):
                if not vs:
                    return [(s, OK, (None, None, None))]
                et = vs[0].ty
                for v in vs[1:]:
                    et = self.join(et, v.ty)
                th = SeqTheory.of(sortof(et))
                return [(s, OK, (th.lst([self.toz(v, et) for v in vs]), th, et))]
            return self.bind(outs, fin)

        def body(s, k):
            x = it.get(s, k)
            n = len(s.frames)
            s.frames.append({'$mod': s.env['$mod'], '$closure': n - 1})
            outs = []
            for s1, kk, v in self.assign(s, g.target, x):
                if kk != OK:
                    outs.append((s1, kk, v))
                    continue
                conds = [(s1, OK, T)]
                for c in g.ifs:
                    conds = self.bind(conds, lambda s2, b: self.bind(
                        self._fork(s2, b), lambda s3, t: self.evcond(c, s3) if t else [(s3, 'skip', None)]))
                for s2, k2, b in conds:
                    if k2 == 'skip':
                        outs.append((s2, 'skip', None))
                    elif k2 != OK:
                        outs.append((s2, k2, b))
                    else:
                        a, d = self.split(s2, b)
                        if d is not None:
                            outs.append((d, 'skip', None))
                        if a is not None:
                            if rest:
                                for s3, k3, sq in self.comp(rest, elt, a):
                                    outs.append((s3, 'flat' if k3 == OK else k3, sq))
                            else:
                                outs += self.ev(elt, a)
            for s3, _, _ in outs:
                del s3.frames[n:]
            return outs
        return self.summarise_comp(st, it, body)

    def _fork(self, st, b):
        a, d = self.split(st, b)
        r = []
        if d is not None:
            r.append((d, OK, False))
        if a is not None:
            r.append((a, OK, True))
        return r

    # ------------------------------------------------------------------ lifting
    def run_body(self, st, it, body):
        k = z3.FreshConst(Int, 'k')
        mark = len(self.log)
        s = st.clone()
        s.path.append(('f', z3.And(0 <= k, k < it.n)))
        n = len(s.path)
        outs = body(s, k)
        L = Lift(self, self.log[mark:], k)
        L.n, L.npath = it.n, n
        L.it = it
        # the lifted functions replace the body-local symbols in the log (so that outer lifts see them)
        self.log[mark:] = L.newsyms
        return k, L, n, outs

    def split_path(self, s, n):
        return [f for kk, f in s.path[n:] if kk == 'c'], [f for kk, f in s.path[n:] if kk == 'f']

    def pats(self, it, k, *extra):
        ps = []
        t = it.trig(k)
        if t is not None:
            ps.append(t)
        for x in extra:
            if x is not None:
                ps.append(x)
        return ps

    def forall(self, vs, body, pats):
        if z3.is_true(body):
            return T
        if pats:
            return z3.ForAll(vs, body, patterns=pats)
        return z3.ForAll(vs, body)

    def newobjs_in_body(self, st, outs, L, k):
        """heap effects of the body on objects it allocated itself -> facts about the state after the loop.
        returns dict key -> list of (cond list, ref, value)"""
        eff = {}
        for s, kind, v in outs:
            for key, a in s.heap.items():
                if key == ('$alive',):
                    continue
                base = st.heap.get(key)
                if base is None:
                    base = self.h0.get(key)
                    if base is not None:
                        st.heap[key] = base
                if base is None:
                    raise Unsupported('heap key appears')
                seen = set()
                while not a.eq(base):
                    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE):
                        raise Unsupported('heap effect of loop body on %r' % (key,))
                    r = a.arg(1)
                    if r.get_id() not in seen:
                        seen.add(r.get_id())
                        eff.setdefault(key, []).append((s, kind, r, a.arg(2)))
                    a = a.arg(0)
        return eff

    def summarise_comp(self, st, it, body):
        k, L, n, outs = self.run_body(st, it, body)
        rs = []
        excs = []
        et = None
        flat = False
        for s, kind, v in outs:
            if kind == OK:
                et = v.ty if et is None else self.join(et, v.ty)
            if kind == 'flat':
                flat = True
                if v[2] is not None:
                    et = v[2] if et is None else self.join(et, v[2])
        if et is None and not any(kind == EXC for _, kind, _ in outs):
            return [(st, OK, (None, None, None))]
        if et is None:
            et = ANY
        if et.k in ('func', 'class', 'bound', 'iter', 'rec', 'ext', 'builtin'):
            raise Unsupported('comprehension of %s' % et.k)
        if self.has_hole(et):
            raise Unsupported('untyped comprehension')
        th = SeqTheory.of(sortof(et))
        # effects on freshly allocated objects
        eff = self.newobjs_in_body(st, outs, L, k)
        res = []
        allfacts = []
        keep = []     # (cond(k), elem z)
        exc_guard = []
        for s, kind, v in outs:
            cs, fs = self.split_path(s, n)
            c = conj(cs)
            allfacts.append(z3.Implies(c, conj(fs)) if cs else conj(fs))
            if kind == OK:
                keep.append((c, self.toz(v, et)))
            elif kind == 'flat':
                if v[0] is not None:
                    zz = v[0]
                    keep.append((c, zz))
            elif kind == EXC:
                exc_guard.append((c, s, v))
        facts = conj(allfacts)
        kk = k
        rng = lambda q, hi=None: z3.And(0 <= q, q < (it.n if hi is None else hi))
        for c, s, v in exc_guard:
            # exception at the first index K
            s2 = st.clone()
            K = self.fresh('K', Int)
            s2.cond(z3.And(rng(K), L.at(c, K)))
            anyx = disj([L.at(c2, k) for c2, _, _ in exc_guard])
            s2.fact(self.forall([k], z3.Implies(z3.And(0 <= k, k < K), z3.Not(anyx)), self.pats(it, k)))
            s2.fact(L.at(facts, K))
            self.merge_alive(st, s2, L)
            ev = V(v.ty, L.at(v.z, K), v.x)
            res.append((s2, EXC, ev))
        # normal completion
        if not keep and not flat and exc_guard and all(kd == EXC for _, kd, _ in outs):
            pass
        s = st.clone()
        if exc_guard:
            anyx = disj([L.at(c2, k) for c2, _, _ in exc_guard])
            s.cond(self.forall([k], z3.Implies(rng(k), z3.Not(anyx)), self.pats(it, k)))
        lf = L.at(facts, k)
        extra = []
        if not z3.is_true(lf):
            s.fact(self.forall([k], z3.Implies(rng(k), lf), self.pats(it, k)))
        self.merge_alive(st, s, L)
        self.apply_new_effects(st, s, eff, L, k, it, it.n)
        if not keep:
            s.fact(T)
            res.append((s, OK, (th.empty, th, et)))
            return res
        cany = z3.simplify(disj([c for c, _ in keep]))
        if flat:
            r = self.flatmap(s, it, L, k, keep, th, it.n)
            t = it.trig(k)
            if t is not None and len(keep) == len(outs) == 1 and z3.is_app(t) and t.num_args() == 2 and t.decl().name().startswith('at_'):
                self.side.flattened(self, s, r, t.arg(0), L.at(keep[0][1], k), t)
            res.append((s, OK, (r, th, et)))
            return res
        e = keep[-1][1]
        for c, z in reversed(keep[:-1]):
            e = z3.If(c, z, e)
        alltrue = len(keep) == len(outs) - len(exc_guard)
        res.append((s, OK, (self.filtermap(s, it, L, k, None if alltrue else cany, e, th, it.n), th, et)))
        return res

    def merge_alive(self, st, s, L):
        """objects allocated in the body are alive afterwards, distinct across iterations"""
        refs = [c for c in L.syms if isinstance(c, z3.ExprRef) and c.sort() == Ref and c.get_id() in (self.newrefs or {})]
        if not refs:
            return
        old = self.h(s, ('$alive',))
        new = self.fresh('alive', old.sort())
        r = z3.Const('r_al', Ref)
        s.fact(z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(new, r)), patterns=[z3.Select(new, r)]))
        k, j = z3.Int('k_al'), z3.Int('j_al')
        inv = z3.Function('inv_al!%d' % Core._ctr(), Ref, Int)
        for c in refs:
            f = L.at(c, k)
            s.fact(z3.ForAll([k], z3.And(z3.Not(z3.Select(old, f)), z3.Implies(z3.And(0 <= k, k < L.n), z3.Select(new, f)),
                                         inv(f) == k, f != null), patterns=[f]))
            if not hasattr(self, 'newfuns'):
                self.newfuns = set()
            self.newfuns.add(f.decl().get_id())
        s.heap[('$alive',)] = new

    def apply_new_effects(self, st, s, eff, L, k, it, hi, accs=()):
        """heap arrays after the loop: unchanged on old objects, per-iteration value on new objects"""
        newids = {c.get_id() for c in L.syms if isinstance(c, z3.ExprRef)}
        accids = {(key, r.get_id()) for key, r in accs}
        for key, lst in eff.items():
            loc = [(b, kind, r, v) for b, kind, r, v in lst if (key, r.get_id()) not in accids]
            if not loc:
                continue
            old = self.h(s, key)
            new = self.fresh('H', old.sort())
            r_ = z3.Const('r_fr', Ref)
            s.fact(z3.ForAll([r_], z3.Implies(z3.Select(self.h(st, ('$alive',)), r_), z3.Select(new, r_) == z3.Select(old, r_)),
                             patterns=[z3.Select(new, r_)]))
            for b, kind, r, v in loc:
                if r.get_id() not in newids:
                    fn = r.decl().get_id() if z3.is_app(r) else None
                    raise Unsupported('loop body writes to an object it did not allocate (%r)' % (key,))
                if kind not in (OK, 'next', 'flat', 'continue', 'skip'):
                    continue
                cs, _ = self.split_path(b, L.npath)
                rr = L.at(r, k)
                s.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hi, L.at(conj(cs), k)),
                                                 z3.Select(new, rr) == L.at(v, k)), patterns=[rr]))
            s.heap[key] = new

    def filtermap(self, s, it, L, k, guard, e, th, hi):
        """sequence of e(k) for k<hi with guard(k), in order"""
        if guard is None and z3.is_app(e) and e.decl().eq(th.at) and e.arg(1).eq(k) and hi.eq(th.len(e.arg(0))):
            return e.arg(0)     # a copy
        r = self.fresh('fm', th.sort)
        s.fact(r != th.none)
        j = z3.FreshConst(Int, 'j')
        if guard is None:
            s.fact(th.len(r) == hi if not z3.is_int_value(hi) else th.len(r) == hi)
            el = L.at(e, k)
            pats = self.pats(it, k, th.at(r, k))
            s.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hi), th.at(r, k) == el), patterns=pats))
            return r
        m = self.fresh_fun('m', Int, Int)
        inv = self.fresh_fun('inv', Int, Int)
        g = lambda q: L.at(guard, q)
        el = lambda q: L.at(e, q)
        s.fact(th.len(r) <= hi)
        p = z3.FreshConst(Int, 'p')
        s.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < th.len(r)),
                                         z3.And(0 <= m(p), m(p) < hi, g(m(p)), th.at(r, p) == el(m(p)), inv(m(p)) == p)),
                         patterns=[th.at(r, p), m(p)]))
        s.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hi, g(k)),
                                         z3.And(0 <= inv(k), inv(k) < th.len(r), m(inv(k)) == k,
                                                th.at(r, inv(k)) == el(k))),
                         patterns=self.pats(it, k, inv(k))))
        p2 = z3.FreshConst(Int, 'p2')
        s.fact(z3.ForAll([p, p2], z3.Implies(z3.And(0 <= p, p < p2, p2 < th.len(r)), m(p) < m(p2)),
                         patterns=[z3.MultiPattern(m(p), m(p2))]))
        return r

    def flatmap(self, s, it, L, k, keep, th, hi):
        r = self.fresh('fl', th.sort)
        s.fact(r != th.none)
        plain = len(keep) == 1 and z3.is_true(z3.simplify(keep[0][0]))
        if plain:
            piece = lambda q: L.at(keep[0][1], q)
        else:
            pcf = self.fresh_fun('pc', Int, th.sort)
            piece = lambda q: pcf(q)
            pc = th.empty
            for c, z in reversed(keep):
                pc = z3.If(c, z, pc)
            s.fact(z3.ForAll([k], pcf(k) == L.at(pc, k), patterns=[pcf(k)]))
        w = self.fresh_fun('w', Int, Int)      # position -> iteration
        o = self.fresh_fun('o', Int, Int)      # position -> offset in piece
        b = self.fresh_fun('b', Int, Int)      # iteration -> start position
        p, j = z3.FreshConst(Int, 'p'), z3.FreshConst(Int, 'j')
        s.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < th.len(r)),
                                         z3.And(0 <= w(p), w(p) < hi, 0 <= o(p), o(p) < th.len(piece(w(p))),
                                                th.at(r, p) == th.at(piece(w(p)), o(p)), b(w(p)) + o(p) == p)),
                         patterns=[th.at(r, p)]))
        pq = th.at(piece(k), j)
        s.fact(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < hi, 0 <= j, j < th.len(piece(k))),
                                            z3.And(0 <= b(k) + j, b(k) + j < th.len(r), th.at(r, b(k) + j) == pq,
                                                   w(b(k) + j) == k, o(b(k) + j) == j)),
                         patterns=[pq] if plain else [pq] + [
                             z3.MultiPattern(*([it.trig(k)] if it.trig(k) is not None else [b(k)]), th.at(L.at(z, k), j))
                             for _, z in keep if _patok(L.at(z, k))]))
        q = z3.FreshConst(Int, 'q')
        s.fact(b(0) == 0)
        s.fact(z3.ForAll([k, q], z3.Implies(z3.And(0 <= k, k < q, q < hi), b(k) + th.len(piece(k)) <= b(q)),
                         patterns=[z3.MultiPattern(b(k), b(q))]))
        return r


class Lift:
    """replaces the symbols created while executing a loop body by functions of the iteration index"""

    def __init__(self, ex, syms, k):
        self.ex, self.syms, self.k = ex, syms, k
        self.C, self.F = {}, {}
        self.newsyms = []
        for s in syms:
            if isinstance(s, z3.FuncDeclRef):
                dom = [s.domain(i) for i in range(s.arity())]
                f = z3.Function('%s@%d' % (s.name(), Core._ctr()), *([Int] + dom + [s.range()]))
                self.newsyms.append(f)
                ex.regfun(f)
                self.F[s.get_id()] = (lambda f: lambda *a: f(k, *a))(f)
                setattr(self, '_keep%d' % len(self.newsyms), s)
            else:
                f = z3.Function('%s@%d' % (s.decl().name(), Core._ctr()), Int, s.sort())
                self.newsyms.append(f)
                ex.regfun(f)
                self.C[s.get_id()] = (s, f(k))
        self._c1 = {}
        self._ck = {}

    def at(self, e, q):
        """lift e and instantiate at index q"""
        r = subst(e, self.C, self.F, self._c1)
        if q.eq(self.k):
            return r
        key = q.get_id()
        if key not in self._ck:
            self._ck[key] = (q, {})
        return subst(r, {self.k.get_id(): (self.k, q)}, {}, self._ck[key][1])

    def atv(self, v, q):
        """lift a V"""
        if v.ty.k == 'tup':
            return V(v.ty, [self.atv(x, q) for x in v.z], v.x)
        if v.ty.k == 'range':
            return V(v.ty, tuple(self.at(x, q) for x in v.z), v.x)
        if v.z is None or not isinstance(v.z, z3.ExprRef):
            return v
        x = v.x
        return V(v.ty, self.at(v.z, q), x)


def _patok(t):
    from .spec import _ok_pat
    return _ok_pat(t)


_hq = {}


def _hasq(f):
    i = f.get_id()
    r = _hq.get(i)
    if r is not None and r[0].eq(f):
        return r[1]
    st, seen = [f], set()
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _hq[i] = (f, res)
    return res


def _lens(c):
    out, st, seen = [], [c], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith('len_'):
            out.append(x)
        st.extend(x.children())
    return out


def _static_int(v):
    if v is None or v.ty.k not in ('int',):
        return None
    z = z3.simplify(v.z)
    return z.as_long() if z3.is_int_value(z) else None


BUILTINS = {'len', 'isinstance', 'sorted', 'min', 'max', 'sum', 'any', 'all', 'list', 'tuple', 'set', 'frozenset',
            'dict', 'range', 'enumerate', 'zip', 'str', 'int', 'iter', 'next', 'map', 'filter', 'reversed', 'getattr',
            'hasattr', 'id', 'hash', 'chr', 'ord', 'abs', 'bool', 'super', 'type', 'object', 'print', 'repr', 'issubclass'}
DICT_METHODS = {'get', 'items', 'keys', 'values', 'setdefault', 'pop', 'update', 'copy', '__contains__', '__getitem__',
                '__setitem__', '__delitem__'}
