"""Calls: user functions (inlined or by contract), methods, builtins, container and string methods."""
import ast
import z3
from .smt import *
from .core import *
from .execu import *
from .execu import OK, EXC, T, F_, LOGM, MAXDEPTH, BUILTINS, _hasq, _static_int
from .source import Func, BUILTIN_EXC
from .subst import symbols

STR_OPAQUE = {'lower', 'upper', 'strip', 'rstrip', 'lstrip', 'title', 'replace', 'encode', 'decode', 'zfill', 'ljust',
              'rjust', 'capitalize', 'casefold', 'format', 'join'}
STR_PRED = {'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'endswith'}


class Calls:
    # ------------------------------------------------------------------ call expression
    def ev_Call(self, e, st):
        fn = e.func
        # logging is outside the verified semantics: neither call nor arguments are executed
        if isinstance(fn, ast.Attribute) and fn.attr in LOGM and isinstance(fn.value, ast.Name) and \
                fn.value.id in ('logger', 'logging', 'rule_logger', '_logger'):
            self.used['dropped'].add('logging call')
            return [(st, OK, NONEV)]
        if isinstance(fn, ast.Attribute) and fn.attr in LOGM and isinstance(fn.value, ast.Attribute) and \
                fn.value.attr in ('rule_logger', 'logger', '_logger'):
            self.used['dropped'].add('logging call')
            return [(st, OK, NONEV)]
        if isinstance(fn, ast.Name) and fn.id in ('any', 'all') and len(e.args) == 1 and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1 and \
                fn.id not in st.env:
            return self.any_all(e, fn.id, e.args[0], st)
        if isinstance(fn, ast.Name) and fn.id == 'super':
            return [(st, OK, self.super_value(st, e))]

        def withf(s, f):
            outs = [(s, OK, ([], {}))]
            for a in e.args:
                if isinstance(a, ast.Starred):
                    outs = self.bind(outs, lambda s1, ak, a=a: [
                        (s2, k, (ak[0] + self.static_items(s2, v), ak[1]) if k == OK else v) for s2, k, v in self.ev(a.value, s1)])
                else:
                    outs = self.bind(outs, lambda s1, ak, a=a: [
                        (s2, k, (ak[0] + [v], ak[1]) if k == OK else v) for s2, k, v in self.ev(a, s1)])
            for kw in e.keywords:
                def addkw(s2, ak, v, kw=kw):
                    d = dict(ak[1])
                    if kw.arg is None:
                        if v.ty.k != 'rec':
                            raise Unsupported('** of %r' % v.ty)
                        d.update(s2.recs[v.z])
                    else:
                        d[kw.arg] = v
                    return (ak[0], d)
                outs = self.bind(outs, lambda s1, ak, kw=kw: [
                    (s2, k, addkw(s2, ak, v) if k == OK else v) for s2, k, v in self.ev(kw.value, s1)])
            return self.bind(outs, lambda s1, ak: self.call(s1, f, ak[0], ak[1], e))
        return self.bind(self.ev(fn, st), withf)

    def super_value(self, st, e):
        if len(e.args) == 2:
            cls = ast.unparse(e.args[0])
            slf = self.lookup(st, e.args[1].id)
        else:
            cls = st.env['$func'].cls.name
            slf = st.env[st.env['$func'].node.args.args[0].arg]
        return V(Ty('super'), (slf, cls))

    def call(self, st, f, args, kwargs, e=None):
        k = f.ty.k
        if k == 'func':
            return self.call_func(st, f.z, args, kwargs)
        if k == 'bound':
            recv, name = f.z
            return self.call_method(st, recv, name, args, kwargs, e)
        if k == 'class':
            return self.construct(st, f.z, args, kwargs)
        if k == 'builtin':
            return self.call_builtin(st, f, args, kwargs, e)
        if k == 'ext':
            h = self.side.ext.get(f.z)
            if h is not None:
                self.used['externs'].add(f.z)
                return h(self, st, args, kwargs)
            if f.z == 'collections.OrderedDict' and not args and not kwargs:
                return self.bi_dict(st, args, kwargs, e)
            if f.z.split('.')[0] in ('logger', 'logging'):
                return [(st, OK, NONEV)]
            raise Unsupported('call of external %s' % f.z)
        if k in ('opt', 'none'):
            return self.bind(self.unopt(st, f), lambda s, g: self.call(s, g, args, kwargs, e))
        if k == 'obj':
            return self.call_method(st, f, '__call__', args, kwargs, e)
        if k == 'any' and f.x and f.x.get('sink'):
            return [(st, OK, NONEV)]
        if k == 'any' and f.x and 'name' in f.x:
            h = self.side.ext.get(f.x['name'])
            if h is not None:
                return h(self, st, args, kwargs)
        raise Unsupported('call of %s' % k)

    # ------------------------------------------------------------------ user functions
    def bind_params(self, st, f, args, kwargs):
        """-> outcomes with dict name -> V"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n in names:
            if args:
                env[n] = args.pop(0)
                if n in kwargs:
                    return [self.exc(st, 'TypeError')]
            elif n in kwargs:
                env[n] = kwargs.pop(n)
        if args:
            if a.vararg is None:
                return [self.exc(st, 'TypeError')]
        if a.vararg is not None:
            env[a.vararg.arg] = vtup(args)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
        if a.kwarg is not None:
            rid = len(st.recs) + 1
            while rid in st.recs:
                rid += 1
            st.recs[rid] = kwargs
            env[a.kwarg.arg] = V(Ty('rec'), rid)
        elif kwargs:
            return [self.exc(st, 'TypeError')]
        defs = []
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                defs.append((n, d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                defs.append((x.arg, d))
        for n in names:
            if n not in env and n not in [q for q, _ in defs]:
                return [self.exc(st, 'TypeError')]
        outs = [(st, OK, env)]
        for n, d in defs:
            def add(s, en, n=n, d=d):
                r = []
                for s2, k, v in self.eval_in_module(s, f.mod, d, (f.key, 'default', n)):
                    r.append((s2, k, dict(en, **{n: v}) if k == OK else v))
                return r
            outs = self.bind(outs, add)
        return outs

    def call_func(self, st, f, args, kwargs, exact=None):
        key = f.key
        h = self.side.func_externs.get(key) or self.abstract.get(key)
        if h is not None:
            self.used['externs'].add(key)
            return h(self, st, args, kwargs)
        decs = f.decorators()
        for d in decs:
            if d not in ('property', 'staticmethod', 'classmethod') and not d.endswith('.setter') \
                    and d not in self.side.decorators:
                raise Unsupported('decorator %s' % d)
        c = self.side.contract_for_call(self, f)
        if c is not None and f.closure is None:
            return self.bind(self.bind_params(st, f, args, kwargs), lambda s, env: self.apply_contract(s, f, c, env))
        return self.bind(self.bind_params(st, f, args, kwargs), lambda s, env: self.inline(s, f, env))

    def inline(self, st, f, env):
        if len(st.stack) > MAXDEPTH:
            raise Unsupported('inlining depth')
        if any(x is f.node for x in (fr.get('$node') for fr in st.frames)):
            raise Unsupported('recursive call of %s without a contract' % f.key)
        self.used['inlined'].add(f.key)
        n = len(st.frames)
        fr = dict(env)
        fr.update({'$mod': f.mod, '$closure': f.closure, '$func': f, '$node': f.node})
        st.frames.append(fr)
        stk = st.stack
        st.stack = stk + ((f.key, len(stk)),)
        if isinstance(f.node, ast.Lambda):
            outs = self.ev(f.node.body, st)
            for s, _, _ in outs:
                del s.frames[n:]
                s.stack = stk
            return outs
        outs = self.run_function(st, f)
        for s, _, _ in outs:
            del s.frames[n:]
            s.stack = stk
        return outs

    def run_function(self, st, f):
        """body of f in the current top frame -> outcomes OK(value)/EXC"""
        gen = f.is_generator()
        if gen:
            site = st.stack + (('$yield', 0, f.name),)
            c = self.side.contracts.get(f.key)
            if site not in self.sites and c is not None and c.returns and ty(c.returns).k == 'seq':
                self.sites[site] = ty(c.returns).a
            y = self.new_list(st, site)
            st.env['$yield'] = y
        res = []
        for s, k, v in self.block(f.node.body, st):
            if k == EXC:
                res.append((s, EXC, v))
            elif gen:
                y = s.env['$yield']
                c, th, et = self.content(s, y)
                res.append((s, OK, V(Ty('tup'), []) if c is None else V(Ty('seq', et), c, {'gen': True})))
            elif k == 'ret':
                res.append((s, OK, v))
            elif k == OK:
                res.append((s, OK, NONEV))
            else:
                raise Unsupported('%s outside loop' % k)
        return res

    # ------------------------------------------------------------------ methods
    def dispatch(self, st, v, name):
        """-> list of (state, Func) according to the dynamic class of v"""
        cls = v.ty.a[0]
        if v.x and v.x.get('exact'):
            return [(st, self.prog.method(cls, name))]
        groups = {}
        for c in self.prog.subclasses(cls):
            f = self.prog.method(c, name)
            groups.setdefault(f.key if f else None, (f, []))[1].append(c)
        items = list(groups.values())
        if len(items) == 1:
            return [(st, items[0][0])]
        r = []
        cur = st
        for f, cs in items[:-1]:
            if cur is None:
                break
            a, cur = self.split(cur, z3.Or(*[typeof(v.z) == self.clsid(c) for c in cs]))
            if a is not None:
                r.append((a, f))
        if cur is not None:
            r.append((cur, items[-1][0]))
        return r

    def call_method(self, st, v, name, args, kwargs, e=None):
        k = v.ty.k
        if k in ('opt', 'none'):
            return self.bind(self.unopt(st, v, 'AttributeError'), lambda s, w: self.call_method(s, w, name, args, kwargs, e))
        if k == 'super':
            slf, after = v.z
            cls = slf.ty.a[0]
            f = self.prog.super_method(cls if slf.x and slf.x.get('exact') else after, after, name)
            if f is None:
                if name == '__init__':
                    return [(st, OK, NONEV)]
                if self.side.dictlike(self, cls):
                    d = self.as_dict(st, slf)
                    if name == '__contains__':
                        return self.bind(self.contains(st, d, args[0]), lambda s, b: [(s, OK, vbool(b))])
                    if name == '__getitem__':
                        return self.getitem(st, d, args[0])
                    if name == '__setitem__':
                        return [(s, k, NONEV if k == OK else x) for s, k, x in self.setitem(st, d, args[0], args[1])]
                    if name == '__delitem__':
                        return [(s, k, NONEV if k == OK else x) for s, k, x in self.delitem(st, d, args[0])]
                raise Unsupported('super().%s' % name)
            return self.call_func(st, f, [slf] + args, kwargs)
        if k == 'obj':
            cls = v.ty.a[0]
            for n in self.prog.mro(cls):
                h = self.side.externs.get((n, name))
                if h is not None:
                    self.used['externs'].add(n + '.' + name)
                    return h(self, st, [v] + args, kwargs)
            virt = self.side.virtual_contract(self, cls, name)
            if virt is not None:
                f, c = virt
                return self.bind(self.bind_params(st, f, [v] + args, kwargs), lambda s, env: self.apply_contract(s, f, c, env))
            r = []
            for s, f in self.dispatch(st, v, name):
                if f is None:
                    if self.side.dictlike(self, cls):
                        r += self.dict_method(s, self.as_dict(s, v), name, args, kwargs, e)
                        continue
                    if name in ('__contains__', '__getitem__'):
                        raise Unsupported('%s.%s' % (cls, name))
                    ow = self.field_owner(cls, name)
                    if ow is not None:
                        r += self.bind(self.getattr(s, v, name), lambda s2, g: self.call(s2, g, args, kwargs, e))
                        continue
                    r.append(self.exc(s, 'AttributeError'))
                    continue
                if 'staticmethod' in f.decorators():
                    r += self.call_func(s, f, args, kwargs)
                else:
                    w = V(Ty('obj', f.cls.name), v.z, v.x) if f.cls is not None and f.cls.name != cls and self.prog.is_sub(f.cls.name, cls) else v
                    r += self.call_func(s, f, [w] + args, kwargs)
            return r
        if k == 'list':
            return self.list_method(st, v, name, args, kwargs, e)
        if k in ('seq', 'tup'):
            return self.seq_method(st, v, name, args, kwargs)
        if k == 'dict':
            return self.dict_method(st, v, name, args, kwargs, e)
        if k == 'rec':
            return self.rec_method(st, v, name, args, kwargs)
        if k in ('set', 'fset'):
            return self.set_method(st, v, name, args, kwargs)
        if k == 'str':
            return self.str_method(st, v, name, args, kwargs)
        if k == 'any' and v.x and v.x.get('sink'):
            return [(st, OK, V(ANY, self.fresh('sink', U), {'sink': True}))]
        if k == 'any' and ('any', name) in self.side.externs:
            self.used['externs'].add('.' + name)
            return self.side.externs[('any', name)](self, st, [v] + args, kwargs)
        raise Unsupported('method %s of %r' % (name, v.ty))

    def as_dict(self, st, v):
        t = self.side.dictlike(self, v.ty.a[0])
        return V(ty(t), v.z)

    # ------------------------------------------------------------------ construction
    def construct(self, st, cls, args, kwargs):
        if cls in self.side.ctor_externs:
            self.used['externs'].add(cls)
            return self.side.ctor_externs[cls](self, st, args, kwargs)
        if cls in BUILTIN_EXC and cls not in self.prog.classes:
            s, _, v = self.exc(st, cls, args)
            return [(s, OK, v)]
        isexc = self.prog.is_sub(cls, 'Exception')
        r = self.alloc(st, cls, cls)
        v = V(Ty('obj', cls), r, {'exact': True})
        if isexc:
            v.x['args'] = list(args)
            v.x['kwargs'] = dict(kwargs)
            if not any(n in self.fieldtab for n in self.prog.mro(cls)):
                return [(st, OK, v)]
        f = self.prog.method(cls, '__init__')
        dl = self.side.dictlike(self, cls)
        if dl:
            t = ty(dl)
            kd, kv = self.dkeys(t)
            self.hset(st, kd, r, z3.K(sortof(t.a[0]), F_))
        if f is None:
            return [(st, OK, v)]
        return self.bind(self.call_func(st, f, [v] + list(args), kwargs), lambda s, _: [(s, OK, v)])

    # ------------------------------------------------------------------ iteration
    def static_seq(self, c, th):
        """elements of a literal sequence term, or None"""
        if c is None:
            return []
        if c.eq(th.empty):
            return []
        if z3.is_app(c):
            if c.decl().eq(th.unit):
                return [c.arg(0)]
            if c.decl().eq(th.cat):
                a, b = self.static_seq(c.arg(0), th), self.static_seq(c.arg(1), th)
                if a is not None and b is not None:
                    return a + b
        return None

    def literal(self, z):
        for k, c in str_lits.items():
            if c.eq(z):
                return vstr(k)
        if z3.is_const(z) and str(z) in self.fnconsts:
            return V(Ty('func'), self.fnconsts[str(z)])

    def iterate(self, st, v):
        k = v.ty.k
        if k in ('opt', 'none'):
            return self.bind(self.unopt(st, v), lambda s, w: self.iterate(s, w))
        if k == 'iter':
            return [(st, OK, v.z)]
        if k == 'tup':
            return [(st, OK, Iter(z3.IntVal(len(v.z)), None, static=list(v.z)))]
        if k in ('seq', 'list'):
            c, th, et = self.content(st, v)
            ss = self.static_seq(c, th)
            if ss is not None and len(ss) <= 8:
                return [(st, OK, Iter(z3.IntVal(len(ss)), None, static=[self.literal(x) or self.typed(st, x, et) for x in ss]))]
            it = Iter(th.len(c), lambda s, q: self.typed(s, th.at(c, q), et), lambda q: th.at(c, q), src=('seq', c, th, et))
            it.lazy = bool(v.x and v.x.get('gen'))
            return [(st, OK, it)]
        if k == 'sset':
            q, th, et = self.dedup(st, v)
            return [(st, OK, Iter(th.len(q), lambda s, i: self.typed(s, th.at(q, i), et), lambda i: th.at(q, i), src=('seq', q, th, et)))]
        if k == 'range':
            lo, hi = v.z
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return [(st, OK, Iter(n, lambda s, q: vint(lo + q), None, src=('range', lo, hi)))]
        if k in ('dict', 'set', 'fset'):
            if v.ty.a and v.ty.a[0].k == '?':
                return [(st, OK, Iter(z3.IntVal(0), None, static=[]))]
            if k == 'set' and v.x and 'items' in v.x:
                return [(st, OK, Iter(z3.IntVal(len(v.x['items'])), None, static=list(v.x['items'])))]
            a = self.setz(st, v)
            q, th = self.order_of(st, a)
            et = v.ty.a[0]
            return [(st, OK, Iter(th.len(q), lambda s, i: self.typed(s, th.at(q, i), et), lambda i: th.at(q, i),
                                  src=('keys', q, th, et)))]
        if k == 'rec':
            return [(st, OK, Iter(z3.IntVal(len(st.recs[v.z])), None, static=[vstr(x) for x in st.recs[v.z]]))]
        if k == 'obj':
            cls = v.ty.a[0]
            if self.prog.method(cls, '__iter__'):
                return self.bind(self.call_method(st, v, '__iter__', [], {}), lambda s, w: self.iterate(s, w))
            if self.side.dictlike(self, cls):
                return self.iterate(st, self.as_dict(st, v))
            raise Unsupported('iteration over %r' % v.ty)
        if k == 'str' and v.x and 'lit' in v.x:
            return [(st, OK, Iter(z3.IntVal(len(v.x['lit'])), None, static=[vstr(ch) for ch in v.x['lit']]))]
        if k in ('int', 'bool'):
            return [self.exc(st, 'TypeError')]
        raise Unsupported('iteration over %r' % v.ty)

    def dedup(self, st, v):
        """an arbitrary enumeration of the distinct (by ==) members of a sequence"""
        c, th, et = self.content(st, v)
        q = self.fresh('dd', th.sort)
        i, j = z3.Ints('i_d j_d')
        p = self.fresh('ddp', z3.ArraySort(Int, Int))
        r = self.fresh('ddr', z3.ArraySort(Int, Int))
        mark = len(self.log)
        same = self.eqz(st, self.unz(th.at(c, i), et), self.unz(th.at(q, z3.Select(r, i)), et))
        diff = self.eqz(st, self.unz(th.at(q, i), et), self.unz(th.at(q, j), et))
        if len(self.log) > mark:
            raise Unsupported('set of objects whose == has effects')
        inq = z3.And(0 <= i, i < th.len(q))
        st.fact(z3.And(q != th.none, th.len(q) <= th.len(c)))
        st.fact(z3.ForAll([i], z3.Implies(inq, z3.And(0 <= z3.Select(p, i), z3.Select(p, i) < th.len(c),
                                                      th.at(c, z3.Select(p, i)) == th.at(q, i))), patterns=[th.at(q, i)]))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(c)),
                                          z3.And(0 <= z3.Select(r, i), z3.Select(r, i) < th.len(q), same)), patterns=[th.at(c, i)]))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(q)), neg(diff)),
                          patterns=[z3.MultiPattern(th.at(q, i), th.at(q, j))]))
        return q, th, et

    def order_of(self, st, a):
        """an arbitrary enumeration of the finite set a"""
        es = a.sort().domain()
        th = SeqTheory.of(es)
        q = self.fresh('ord', th.sort)
        x = z3.Const('x_o', es)
        i = z3.Int('i_o')
        st.fact(z3.And(q != th.none, th.distinct(q)))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(q)), z3.Select(a, th.at(q, i))), patterns=[th.at(q, i)]))
        st.fact(z3.ForAll([x], z3.Implies(z3.Select(a, x), th.has(q, x)), patterns=[z3.Select(a, x)]))
        leaves, todo = [], [a]
        while todo:
            b = todo.pop()
            if z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_SET_UNION, z3.Z3_OP_SET_INTERSECT, z3.Z3_OP_SET_DIFFERENCE):
                todo += b.children()
            elif not b.eq(a):
                leaves.append(z3.Select(b, x))
                if z3.is_app(b) and b.decl().eq(th.setof):
                    leaves.append(th.has(b.arg(0), x))
        if leaves:   # the members of a combination of sets, from those of the sets combined
            st.fact(z3.ForAll([x], z3.Select(a, x) == th.has(q, x), patterns=leaves))
        st.fact(z3.ForAll([x], z3.Implies(th.has(q, x), z3.Select(a, x)), patterns=[th.has(q, x)]))
        st.fact(card_of(es)(a) == th.len(q))
        return q, th

    def materialise(self, st, it):
        if it.static is not None:
            return vtup(it.static)
        if it.src and it.src[0] in ('seq', 'keys'):
            return V(Ty('seq', it.src[3]), it.src[1])
        outs = self.summarise_comp(st, it, lambda s, k: [(s, OK, it.get(s, k))])
        if len(outs) != 1:
            raise Unsupported('materialise')
        s, k, (z, th, et) = outs[0]
        st.heap, st.path = s.heap, s.path
        return V(Ty('seq', et), z)

    def seq_of(self, st, v):
        """any iterable -> outcomes with immutable sequence V (tup or seq)"""
        if v.ty.k in ('tup',):
            return [(st, OK, v)]
        if v.ty.k in ('seq', 'list'):
            c, th, et = self.content(st, v)
            return [(st, OK, vtup([]) if c is None else V(Ty('seq', et), c))]
        return self.bind(self.iterate(st, v), lambda s, it: [(s, OK, self.materialise(s, it))])

    # ------------------------------------------------------------------ any / all
    def any_all(self, e, which, gen, st):
        g = gen.generators[0]

        def go(s0, it):
            if it.static is not None:
                outs = [(s0, OK, F_ if which == 'any' else T)]
                for x in it.static:
                    def step(s, acc, x=x):
                        n = len(s.frames)
                        s.frames.append({'$mod': s.env['$mod'], '$closure': n - 1})
                        r = []
                        for s1, k1, _ in self.assign(s, g.target, x):
                            conds = [(s1, k1, T)]
                            for c in g.ifs:
                                conds = self.bind(conds, lambda s2, b: self.bind(
                                    [(s2, OK, None)], lambda s3, _: [(s4, k4, z3.And(b, b2) if k4 == OK else b2)
                                                                     for s4, k4, b2 in self.evcond(c, s3)]))
                            for s2, k2, b in conds:
                                if k2 != OK:
                                    r.append((s2, k2, b))
                                    continue
                                for s3, k3, b2 in self.evcond(gen.elt, s2):
                                    if k3 != OK:
                                        r.append((s3, k3, b2))
                                    elif which == 'any':
                                        r.append((s3, OK, disj([acc, conj([b, b2])])))
                                    else:
                                        r.append((s3, OK, conj([acc, disj([neg(b), b2])])))
                        for s3, _, _ in r:
                            del s3.frames[n:]
                        return r
                    outs = self.bind(outs, step)
                return [(s, k, vbool(b) if k == OK else b) for s, k, b in outs]

            def body(s, k):
                x = it.get(s, k)
                n = len(s.frames)
                s.frames.append({'$mod': s.env['$mod'], '$closure': n - 1})
                outs = []
                for s1, kk, v in self.assign(s, g.target, x):
                    if kk != OK:
                        outs.append((s1, kk, v))
                        continue
                    conds = [(s1, OK, T)]
                    for c in g.ifs:
                        conds = self.bind(conds, lambda s2, b: self.bind(
                            self._fork(s2, b), lambda s3, t: self.evcond(c, s3) if t else [(s3, 'skip', None)]))
                    for s2, k2, b in conds:
                        if k2 != OK:
                            outs.append((s2, k2, b))
                            continue
                        a, d = self.split(s2, b)
                        if d is not None:
                            outs.append((d, 'skip', None))
                        if a is not None:
                            outs += self.evcond(gen.elt, a)
                for s3, _, _ in outs:
                    del s3.frames[n:]
                return outs
            k, L, n, outs = self.run_body(s0, it, body)
            hit, facts, excs = [], [], []
            for s, kind, b in outs:
                cs, fs = self.split_path(s, n)
                c = conj(cs)
                facts.append(z3.Implies(c, conj(fs)) if cs else conj(fs))
                if kind == EXC:
                    excs.append((c, s, b))
                elif kind == OK:
                    hit.append(conj([c, b if which == 'any' else neg(b)]))
                if kind != EXC:
                    self.check_noeffect_loop(s0, s)
            h = disj([L.at(x, k) for x in hit])
            F = L.at(conj(facts), k)
            xs = disj([L.at(c, k) for c, _, _ in excs])
            res = []
            rng = lambda q: z3.And(0 <= q, q < it.n)
            for c, s, v in excs:
                s2 = s0.clone()
                K = self.fresh('K', Int)
                s2.cond(z3.And(rng(K), L.at(c, K)))
                s2.fact(self.forall([k], z3.Implies(z3.And(0 <= k, k < K), z3.And(neg(h), neg(xs), F)), self.pats(it, k)))
                s2.fact(L.at(F, K))
                self.merge_alive(s0, s2, L)
                res.append((s2, EXC, V(v.ty, L.at(v.z, K), v.x)))
            s = s0.clone()
            w = self.fresh('w', Int)
            b = self.fresh('b_' + which, Bool)
            pos = z3.And(rng(w), L.at(h, w), L.at(F, w))
            if excs:
                pos = z3.And(pos, neg(L.at(xs, w)), self.forall(
                    [k], z3.Implies(z3.And(0 <= k, k < w), z3.And(neg(h), neg(xs), F)), self.pats(it, k)))
            nothing = self.forall([k], z3.Implies(rng(k), conj([neg(h), neg(xs), F])), self.pats(it, k))
            if z3.is_false(z3.simplify(h)):
                s.cond(nothing) if excs else s.fact(nothing)
                res.append((s, OK, vbool(which != 'any')))
                return res
            pb = b if which == 'any' else z3.Not(b)
            (s.cond if excs else s.fact)(z3.And(z3.Implies(pb, pos), z3.Implies(z3.Not(pb), nothing)))
            self.merge_alive(s0, s, L)
            res.append((s, OK, vbool(b)))
            return res
        return self.bind(self.bind(self.ev(g.iter, st), self.iterate), go)

    def check_noeffect_loop(self, a, b):
        for key, v in b.heap.items():
            if key == ('$alive',):
                continue
            w = a.heap.get(key)
            if w is None:
                w = self.h0.get(key)
            if w is None or not (w.eq(v) or self.only_new(v, w)):
                raise Unsupported('effect in generator expression: %r' % (key,))

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, st, f, args, kwargs, e):
        n = f.z
        h = self.side.builtins.get(n)
        if h is not None:
            return h(self, st, args, kwargs)
        m = getattr(self, 'bi_' + n.replace('.', '_').replace('$', ''), None)
        if m is None:
            if n.split('.')[0] in ('set', 'frozenset', 'list', 'dict', 'str') and n.count('.') == 1 and args:
                return self.call_method(st, args[0], n.split('.')[1], args[1:], kwargs, e)
            raise Unsupported('builtin %s' % n)
        return m(st, args, kwargs, e)

    def bi_len(self, st, args, kw, e):
        v = args[0]
        if v.ty.k in ('opt', 'none'):
            return self.bind(self.unopt(st, v), lambda s, w: self.bi_len(s, [w], kw, e))
        k = v.ty.k
        if k == 'tup':
            return [(st, OK, vint(len(v.z)))]
        if k in ('seq', 'list'):
            c, th, _ = self.content(st, v)
            if c is None:
                return [(st, OK, vint(0))]
            ss = self.static_seq(c, th)
            return [(st, OK, vint(th.len(c) if ss is None else len(ss)))]
        if k in ('set', 'fset', 'dict'):
            if v.ty.a[0].k == '?':
                return [(st, OK, vint(0))]
            a = self.setz(st, v)
            return [(st, OK, vint(card_of(a.sort().domain())(a)))]
        if k == 'str':
            return [(st, OK, vint(len(v.x['lit']) if v.x and 'lit' in v.x else strlen(v.z)))]
        if k == 'rec':
            return [(st, OK, vint(len(st.recs[v.z])))]
        if k == 'obj':
            if self.prog.method(v.ty.a[0], '__len__'):
                return self.call_method(st, v, '__len__', [], {})
            if self.side.dictlike(self, v.ty.a[0]):
                return self.bi_len(st, [self.as_dict(st, v)], kw, e)
            return [self.exc(st, 'TypeError')]
        if k in ('int', 'bool'):
            return [self.exc(st, 'TypeError')]
        if k == 'range':
            lo, hi = v.z
            return [(st, OK, vint(z3.If(hi > lo, hi - lo, z3.IntVal(0))))]
        raise Unsupported('len of %r' % v.ty)

    def isinst(self, st, v, cls):
        k = v.ty.k
        if cls.ty.k == 'tup':
            return disj([self.isinst(st, v, c) for c in cls.z])
        name = cls.z
        if k == 'opt':
            return z3.And(neg(is_none_z(v.ty, v.z)), self.isinst(st, V(v.ty.a[0], unopt_z(v.ty, v.z)), cls))
        if k == 'none':
            return F_
        if k == 'obj':
            if cls.ty.k != 'class' or name in BUILTIN_EXC and name not in self.prog.classes:
                if cls.ty.k == 'class':
                    return z3.BoolVal(self.prog.is_sub(v.ty.a[0], name))
                if name == 'dict':
                    return z3.BoolVal(bool(self.side.dictlike(self, v.ty.a[0])))
                return F_
            if self.prog.is_sub(v.ty.a[0], name):
                return T
            if v.x and v.x.get('exact'):
                return F_
            subs = [c for c in self.prog.subclasses(v.ty.a[0]) if self.prog.is_sub(c, name)]
            return disj([typeof(v.z) == self.clsid(c) for c in subs])
        if k == 'any':
            raise Unsupported('isinstance of opaque value')
        m = {'int': ('int',), 'bool': ('bool', 'int'), 'str': ('str',), 'seq': ('tuple',), 'tup': ('tuple',), 'list': ('list',),
             'dict': ('dict',), 'rec': ('dict',), 'set': ('set',), 'fset': ('frozenset',)}.get(k)
        if m is None:
            raise Unsupported('isinstance of %r' % v.ty)
        return z3.BoolVal(cls.ty.k == 'builtin' and name in m)

    def bi_isinstance(self, st, args, kw, e):
        return [(st, OK, vbool(self.isinst(st, args[0], args[1])))]

    def bi_bool(self, st, args, kw, e):
        return [(s, k, vbool(b) if k == OK else b) for s, k, b in self.truth(st, args[0])]

    def bi_tuple(self, st, args, kw, e):
        if not args:
            return [(st, OK, vtup([]))]
        return self.seq_of(st, args[0])

    def bi_iter(self, st, args, kw, e):
        return [(st, OK, args[0])]

    def bi_list(self, st, args, kw, e):
        site = self.site(st, e)
        if not args:
            return [(st, OK, self.new_list(st, site))]

        def f(s, v):
            c, th, et = self.content(s, v)
            if c is None:
                return [(s, OK, self.new_list(s, site))]
            return [(s, OK, self.list_of(s, c, et, site))]
        return self.bind(self.seq_of(st, args[0]), f)

    def bi_set(self, st, args, kw, e, frozen=False):
        site = self.site(st, e)
        if not args:
            t = self.sites.get(site)
            if t is None:
                if frozen:
                    raise Unsupported('untyped frozenset')
                return [(st, OK, V(Ty('set', Ty('?', site)), self.alloc(st, 'set'), {'site': site}))]
            arr = z3.K(sortof(t[0]), F_)
            return [(st, OK, V(Ty('fset', t[0]), arr) if frozen else self.new_set(st, t[0], arr, {'site': site}))]
        v = args[0]
        if v.ty.k in ('set', 'fset', 'dict') and not (v.ty.a[0].k == '?'):
            a = self.setz(st, v)
            return [(st, OK, V(Ty('fset', v.ty.a[0]), a) if frozen else self.new_set(st, v.ty.a[0], a))]

        def f(s, v):
            c, th, et = self.content(s, v)
            if c is None:
                return self.bi_set(s, [], kw, e, frozen)
            if self.custom_eq(et):
                return [(s, OK, V(Ty('sset', et), c))]
            ss = self.static_seq(c, th)
            if ss is not None:
                arr = z3.K(sortof(et), F_)
                for x in ss:
                    arr = z3.Store(arr, x, T)
            else:
                arr = th.setof(c)
            return [(s, OK, V(Ty('fset', et), arr) if frozen else self.new_set(s, et, arr))]
        return self.bind(self.seq_of(st, v), f)

    def bi_frozenset(self, st, args, kw, e):
        return self.bi_set(st, args, kw, e, True)

    def bi_dict(self, st, args, kw, e):
        site = self.site(st, e)
        if not args:
            items = [(vstr(n), x) for n, x in kw.items()]
            return [(st, OK, self.new_dict(st, site, items))]
        v = args[0]
        if v.ty.k == 'dict' and v.ty.a[0].k != '?':
            kd, kv = self.dkeys(v.ty)
            r = self.alloc(st, 'dict')
            self.hset(st, kd, r, self.hget(st, kd, v.z))
            self.hset(st, kv, r, self.hget(st, kv, v.z))
            return [(st, OK, V(v.ty, r))]
        raise Unsupported('dict(...)')

    def bi_range(self, st, args, kw, e):
        zs = [self.toz(a, INT) for a in args]
        if len(zs) == 1:
            zs = [z3.IntVal(0)] + zs
        if len(zs) != 2:
            raise Unsupported('range step')
        return [(st, OK, V(Ty('range'), tuple(zs)))]

    def bi_enumerate(self, st, args, kw, e):
        start = self.toz(args[1], INT) if len(args) > 1 else (self.toz(kw['start'], INT) if 'start' in kw else z3.IntVal(0))

        def f(s, it):
            if it.static is not None:
                r = Iter(it.n, None, static=[vtup([vint(z3.simplify(start + i)), x]) for i, x in enumerate(it.static)])
            else:
                r = Iter(it.n, lambda s1, k: vtup([vint(k + start) if not z3.simplify(start == 0).eq(T) else vint(k), it.get(s1, k)]),
                         it.trig)
            return [(s, OK, V(Ty('iter'), r))]
        return self.bind(self.iterate(st, args[0]), f)

    def bi_zip(self, st, args, kw, e):
        if len(args) != 2:
            raise Unsupported('zip arity')

        def f(s, a, b):
            if a.static is not None and b.static is not None:
                r = Iter(z3.IntVal(min(len(a.static), len(b.static))), None,
                         static=[vtup([x, y]) for x, y in zip(a.static, b.static)])
            elif a.static is None and b.static is None:
                n = self.decide_int(s, z3.If(a.n <= b.n, a.n, b.n))
                r = Iter(n, lambda s1, k: vtup([a.get(s1, k), b.get(s1, k)]), a.trig)
            else:
                raise Unsupported('zip of static and symbolic')
            return [(s, OK, V(Ty('iter'), r))]
        return self.bind(self.iterate(st, args[0]), lambda s, a: self.bind(self.iterate(s, args[1]), lambda s2, b: f(s2, a, b)))

    def bi_map(self, st, args, kw, e):
        fn = args[0]

        def f(s, it):
            if it.static is not None:
                outs = [(s, OK, [])]
                for x in it.static:
                    outs = self.bind(outs, lambda s1, acc, x=x: [(s2, k, acc + [v] if k == OK else v)
                                                                 for s2, k, v in self.call(s1, fn, [x], {})])
                return [(s1, k, vtup(v) if k == OK else v) for s1, k, v in outs]
            return self.bind(self.summarise_comp(s, it, lambda s1, k: self.call(s1, fn, [it.get(s1, k)], {})),
                             lambda s1, sq: [(s1, OK, self.empty_or_seq(sq))])
        return self.bind(self.iterate(st, args[1]), f)

    def bi_reversed(self, st, args, kw, e):
        def f(s, it):
            if it.static is not None:
                return [(s, OK, vtup(list(reversed(it.static))))]
            v = self.materialise(s, it)
            c, th, et = self.content(s, v)
            r = Iter(th.len(c), lambda s1, k: self.typed(s1, th.at(c, th.len(c) - 1 - k), et))
            return [(s, OK, V(Ty('iter'), r))]
        return self.bind(self.iterate(st, args[0]), f)

    def bi_str(self, st, args, kw, e):
        if not args:
            return [(st, OK, vstr(''))]
        return [(st, OK, self.to_str(st, args[0]))]

    bi_repr = bi_str

    def bi_chr(self, st, args, kw, e):
        return [(st, OK, self.opaque_str(st, 'chr', args))]

    def bi_ord(self, st, args, kw, e):
        return [(st, OK, vint(self.ufn('ord', Str, Int)(args[0].z)))]

    def bi_abs(self, st, args, kw, e):
        return [(st, OK, vint(z3.If(args[0].z < 0, -args[0].z, args[0].z)))]

    def bi_int(self, st, args, kw, e):
        v = args[0]
        if v.ty.k in ('int', 'bool'):
            return [(st, OK, V(INT, self.toz(v, INT)))]
        if v.ty.k == 'str':
            base = args[1].z if len(args) > 1 else (kw['base'].z if 'base' in kw else z3.IntVal(10))
            r = []
            good = self.ufn('intparses', Str, Int, Bool)(v.z, base)
            a, b = self.split(st, good)
            if b is not None:
                r.append(self.exc(b, 'ValueError'))
            if a is not None:
                r.append((a, OK, vint(self.ufn('intparse', Str, Int, Int)(v.z, base))))
            return r
        raise Unsupported('int of %r' % v.ty)

    def bi_id(self, st, args, kw, e):
        return [(st, OK, vint(self.ufn('id', args[0].z.sort(), Int)(args[0].z)))]

    def bi_hash(self, st, args, kw, e):
        v = args[0]
        if v.ty.k == 'obj':
            f = self.prog.method(v.ty.a[0], '__hash__')
            if f:
                return self.call_func(st, f, [v], {})
        return [(st, OK, vint(self.ufn('hash', U, Int)(self.toz(v, ANY))))]

    def bi_hasattr(self, st, args, kw, e):
        raise Unsupported('hasattr')

    def bi_getattr(self, st, args, kw, e):
        if not (args[1].x and 'lit' in args[1].x):
            raise Unsupported('dynamic getattr')
        outs = self.getattr(st, args[0], args[1].x['lit'])
        if len(args) > 2:
            outs = [(s, OK, args[2]) if k == EXC and v.ty.a[0] == 'AttributeError' else (s, k, v) for s, k, v in outs]
        return outs

    def bi_super(self, st, args, kw, e):
        raise Unsupported('super')

    def bi_print(self, st, args, kw, e):
        return [(st, OK, NONEV)]

    def bi_type(self, st, args, kw, e):
        return [(st, OK, V(Ty('builtin'), '$class', args[0]))]

    def bi_class(self, st, args, kw, e):
        raise Unsupported('dynamic class call')

    def bi_next(self, st, args, kw, e):
        def f(s, it):
            if it.static is not None:
                if it.static:
                    return [(s, OK, it.static[0])]
                return [(s, OK, args[1])] if len(args) > 1 else [self.exc(s, 'StopIteration')]
            a, b = self.split(s, it.n > 0)
            r = []
            if b is not None:
                r.append((b, OK, args[1]) if len(args) > 1 else self.exc(b, 'StopIteration'))
            if a is not None:
                r.append((a, OK, it.get(a, z3.IntVal(0))))
            return r
        return self.bind(self.iterate(st, args[0]), f)

    def bi_sum(self, st, args, kw, e):
        def f(s, v):
            c, th, et = self.content(s, v)
            if c is None:
                return [(s, OK, vint(0))]
            ss = self.static_seq(c, th)
            if ss is not None:
                return [(s, OK, vint(z3.Sum([z3.If(x, 1, 0) if x.sort() == Bool else x for x in ss]) if ss else 0))]
            if et.k not in ('int', 'bool'):
                raise Unsupported('sum of %r' % et)
            return [(s, OK, vint(self.ufn('sum', c.sort(), Int)(c)))]
        return self.bind(self.seq_of(st, args[0]), f)

    def le_fn(self, t):
        """total preorder of python < for sorting keys of type t; returns le(a,b) on z3 terms"""
        if t.k in ('int',):
            return lambda a, b: a <= b
        if t.k == 'bool':
            return lambda a, b: z3.Or(z3.Not(a), b)
        if t.k == 'str':
            return str_le
        if t.k == 'seq':
            return SeqTheory.of(sortof(t.a[0])).le
        if t.k == 'tup':
            _, _, acc = tup_dt(tuple(sortof(x) for x in t.a))

            def le(a, b):
                r = T
                for i in reversed(range(len(t.a))):
                    x, y = acc[i](a), acc[i](b)
                    li = self.le_fn(t.a[i])
                    r = z3.And(li(x, y), z3.Or(z3.Not(li(y, x)), r))
                return r
            return le
        raise Unsupported('ordering of %r' % t)

    def keyed(self, st, c, th, et, keyf):
        """-> outcomes with (key(i) z3 function of index, key type)"""
        if (keyf is None or keyf.ty.k == 'none') and et.k == 'list':     # lists are compared by what they contain
            h = self.h(st, self.lkey(et))
            return [(st, OK, (lambda i: z3.Select(h, th.at(c, i)), Ty('seq', et.a[0])))]
        if keyf is None or keyf.ty.k == 'none':
            return [(st, OK, (lambda i: th.at(c, i), et))]
        it = Iter(th.len(c), lambda s, q: self.typed(s, th.at(c, q), et), lambda q: th.at(c, q))
        outs = self.summarise_comp(st, it, lambda s, k: self.call(s, keyf, [it.get(s, k)], {}))
        r = []
        for s, k, sq in outs:
            if k != OK:
                r.append((s, k, sq))
            else:
                z, th2, kt = sq
                r.append((s, OK, ((lambda z, th2: lambda i: th2.at(z, i))(z, th2), kt, (z, th2))))
        return r

    def bi_sorted(self, st, args, kw, e):
        site = self.site(st, e)
        v = args[0]
        rev = kw.get('reverse')
        reverse = False
        if rev is not None:
            b = z3.simplify(rev.z)
            if not (z3.is_true(b) or z3.is_false(b)):
                raise Unsupported('symbolic reverse')
            reverse = z3.is_true(b)

        def f(s, sv):
            c, th, et = self.content(s, sv)
            if c is None:
                return [(s, OK, self.new_list(s, site))]
            return self.bind(self.sort_seq(s, c, th, et, kw.get('key'), reverse),
                             lambda s2, r: [(s2, OK, self.list_of(s2, r, et, site))])
        if v.ty.k in ('set', 'fset', 'dict') and v.ty.a[0].k != '?' and not kw and v.ty.a[0].k in ('int', 'str', 'seq'):
            return [(st, OK, self.list_of(st, self.sorted_set(st, self.setz(st, v), v.ty.a[0]), v.ty.a[0], site))]
        if v.ty.k == 'iter' and v.z.src and v.z.src[0] == 'keys' and not kw and v.z.src[3].k in ('int', 'str', 'seq') \
                and len(v.z.src) > 4:
            return [(st, OK, self.list_of(st, self.sorted_set(st, v.z.src[4], v.z.src[3]), v.z.src[3], site))]
        return self.bind(self.seq_of(st, v), f)

    def sorted_set(self, st, a, et):
        es = a.sort().domain()
        th = SeqTheory.of(es)
        r = self.ufn('sortedset', a.sort(), th.sort)(a)
        x = z3.Const('x_s', es)
        i, j = z3.Ints('i_s j_s')
        le = self.le_fn(et)
        st.fact(z3.And(r != th.none, th.distinct(r), card_of(es)(a) == th.len(r)))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(r)), z3.Select(a, th.at(r, i))), patterns=[th.at(r, i)]))
        st.fact(z3.ForAll([x], z3.Implies(z3.Select(a, x), th.has(r, x)), patterns=[z3.Select(a, x)]))
        st.fact(z3.ForAll([x], z3.Implies(th.has(r, x), z3.Select(a, x)), patterns=[th.has(r, x)]))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(r)),
                                             z3.And(le(th.at(r, i), th.at(r, j)), th.at(r, i) != th.at(r, j))),
                          patterns=[z3.MultiPattern(th.at(r, i), th.at(r, j))]))
        return r

    def sort_seq(self, st, c, th, et, keyf, reverse):
        def f(s, kk):
            key, kt = kk[0], kk[1]
            le = self.le_fn(kt)
            r = self.fresh('sorted', th.sort)
            p = self.fresh_fun('perm', Int, Int)
            inv = self.fresh_fun('iperm', Int, Int)
            i, j = z3.FreshConst(Int, 'i'), z3.FreshConst(Int, 'j')
            n = th.len(c)
            s.fact(z3.And(r != th.none, th.len(r) == n))
            s.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                             z3.And(0 <= p(i), p(i) < n, inv(p(i)) == i, th.at(r, i) == th.at(c, p(i)))),
                             patterns=[th.at(r, i)]))
            s.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                             z3.And(0 <= inv(i), inv(i) < n, p(inv(i)) == i, th.at(r, inv(i)) == th.at(c, i))),
                             patterns=[th.at(c, i)]))
            x = z3.FreshConst(th.elem, 'x')
            s.fact(z3.ForAll([x], th.has(r, x) == th.has(c, x), patterns=[th.has(r, x), th.has(c, x)]))
            a, b = key(p(i)), key(p(j))
            order = z3.And(le(b, a), z3.Implies(le(a, b), p(i) < p(j))) if reverse else \
                z3.And(le(a, b), z3.Implies(le(b, a), p(i) < p(j)))
            s.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), order),
                             patterns=[z3.MultiPattern(th.at(r, i), th.at(r, j))]))
            return [(s, OK, r)]
        return self.bind(self.keyed(st, c, th, et, keyf), f)

    def minmax(self, st, args, kw, e, mx):
        if len(args) > 1:
            if all(a.ty.k in ('int', 'bool') for a in args):
                z = self.toz(args[0], INT)
                for a in args[1:]:
                    w = self.toz(a, INT)
                    z = z3.If(w > z, w, z) if mx else z3.If(w < z, w, z)
                return [(st, OK, vint(z))]
            return self.minmax(st, [vtup(args)], kw, e, mx)

        def f(s, v):
            c, th, et = self.content(s, v)
            dflt = kw.get('default')
            if c is None:
                return [(s, OK, dflt)] if dflt is not None else [self.exc(s, 'ValueError')]
            a, b = self.split(s, th.len(c) > 0)
            r = []
            if b is not None:
                r.append((b, OK, dflt) if dflt is not None else self.exc(b, 'ValueError'))
            if a is not None:
                def g(s2, kk):
                    key, kt = kk[0], kk[1]
                    le = self.le_fn(kt)
                    m = self.fresh('amm', Int)
                    i = z3.FreshConst(Int, 'i')
                    s2.fact(z3.And(0 <= m, m < th.len(c)))
                    s2.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(c)),
                                                      le(key(i), key(m)) if mx else le(key(m), key(i))),
                                      patterns=[th.at(c, i)]))
                    return [(s2, OK, self.typed(s2, th.at(c, m), et))]
                r += self.bind(self.keyed(a, c, th, et, kw.get('key')), g)
            return r
        return self.bind(self.seq_of(st, args[0]), f)

    def bi_min(self, st, args, kw, e):
        return self.minmax(st, args, kw, e, False)

    def bi_max(self, st, args, kw, e):
        return self.minmax(st, args, kw, e, True)

    def bi_any(self, st, args, kw, e):
        return self.anyall_value(st, args[0], 'any')

    def bi_all(self, st, args, kw, e):
        return self.anyall_value(st, args[0], 'all')

    def anyall_value(self, st, v, which):
        gen = ast.parse('(x_ for x_ in it_)', mode='eval').body
        n = len(st.frames)
        st.frames.append({'$mod': st.env['$mod'], '$closure': None, 'it_': v})
        outs = self.any_all(None, which, gen, st)
        for s, _, _ in outs:
            del s.frames[n:]
        return outs

    # ------------------------------------------------------------------ lists
    def typed_list(self, st, v, et):
        """make sure list v has an element type that accepts et; returns the element type"""
        if v.ty.a[0].k == '?':
            self.widen(v.ty.a[0].a[0], (et,))
        cur = v.ty.a[0]
        if cur == et:
            return cur
        j = self.join(cur, et)
        if j != cur:
            if v.x and 'site' in v.x:
                self.widen(v.x['site'], (j,))
            if cur.k == 'obj' and et.k == 'obj' and self.prog.is_sub(et.a[0], cur.a[0]):
                return cur
            if et.k == 'opt' and et.a[0] == cur:
                return cur
            raise Unsupported('storing %r in list of %r' % (et, cur))
        return cur

    def box(self, st, v):
        """a record that is stored in a container becomes an object of the pseudo-class Record"""
        if v.ty.k == 'func' and v.z.closure is None:
            z = z3.Const('fn_' + v.z.key, U)
            self.fnconsts[str(z)] = v.z
            st.fact(z != none_u)
            return V(ANY, z)
        if v.ty.k != 'rec':
            return v
        tab = self.fieldtab.get('Record', {})
        rec = st.recs[v.z]
        r = self.alloc(st, 'rec', 'Record')
        for key in [x for x in tab if x[0] != '$']:
            tab.setdefault('$has ' + key, 'bool')
            self.hset(st, ('F', 'Record', '$has ' + key), r, T if key in rec else F_)
            if key in rec:
                t = ty(tab[key])
                x = rec[key]
                if x.ty.k in ('list', 'dict', 'set') and x.ty.a[0].k == '?':
                    self.widen(x.ty.a[0].a[0], t.a)
                self.hset(st, ('F', 'Record', key), r, self.coerce_checked(st, self.box(st, x), t))
        st.recs[v.z] = Frozen(rec)
        return V(Ty('obj', 'Record'), r)

    def coerce_checked(self, st, v, t):
        """store value v at type t; a possibly-None value must be shown not None by the path"""
        if v.ty.k == 'opt' and t.k != 'opt' and t.k != 'any':
            b = st.clone()
            b.cond(is_none_z(v.ty, v.z))
            if self.feasible(b):
                raise Unsupported('possibly-None value stored as %r' % t)
        return self.toz(v, t)

    def list_method(self, st, v, name, args, kw, e):
        if name == 'append':
            args = [self.box(st, args[0])]
            et = self.typed_list(st, v, args[0].ty)
            c, th, _ = self.content(st, v)
            self.hset(st, self.lkey(v.ty), v.z, th.concat(c, th.unit(self.coerce_checked(st, args[0], et))))
            return [(st, OK, NONEV)]
        if name == 'extend':
            def f(s, w):
                cw, tw, ew = self.content(s, w)
                if cw is None:
                    return [(s, OK, NONEV)]
                et = self.typed_list(s, v, ew)
                c, th, _ = self.content(s, v)
                if th is not tw:
                    cw = self.toz(w, Ty('seq', et))
                self.hset(s, self.lkey(v.ty), v.z, th.concat(c, cw))
                return [(s, OK, NONEV)]
            return self.bind(self.seq_of(st, args[0]), f)
        if v.ty.a[0].k == '?':
            if name in ('copy',):
                return [(st, OK, self.new_list(st, self.site(st, e)))]
            if name == 'sort':
                return [(st, OK, NONEV)]
            if name == 'insert':
                self.typed_list(st, v, args[1].ty)
            if name in ('remove', 'index'):
                return [self.exc(st, 'ValueError')]
            if name == 'pop':
                return [self.exc(st, 'IndexError')]
            raise Unsupported('method %s of untyped list' % name)
        c, th, et = self.content(st, v)
        if name == 'insert':
            et = self.typed_list(st, v, args[1].ty)
            i = z3.simplify(self.toz(args[0], INT))
            x = th.unit(self.toz(args[1], et))
            if z3.is_int_value(i) and i.as_long() == 0:
                self.hset(st, self.lkey(v.ty), v.z, th.concat(x, c))
            else:
                n = th.len(c)
                iz = self.decide_int(st, z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i)))
                self.hset(st, self.lkey(v.ty), v.z, th.cat(th.take(c, iz), th.cat(x, th.drop(c, iz))))
            return [(st, OK, NONEV)]
        if name in ('remove', 'index'):
            def found(s, i):
                if name == 'index':
                    return [(s, OK, vint(i))]
                self.hset(s, self.lkey(v.ty), v.z, th.cat(th.take(c, i), th.drop(c, i + 1)))
                return [(s, OK, NONEV)]
            return self.first_index(st, c, th, et, args[0], found)
        if name == 'pop':
            if args:
                i = z3.simplify(self.toz(args[0], INT))
                if z3.is_int_value(i) and i.as_long() == 0:
                    a, b = self.split(st, th.len(c) > 0)
                    r = []
                    if b is not None:
                        r.append(self.exc(b, 'IndexError'))
                    if a is not None:
                        self.hset(a, self.lkey(v.ty), v.z, th.drop(c, z3.IntVal(1)))
                        r.append((a, OK, self.typed(a, th.at(c, 0), et)))
                    return r
                raise Unsupported('pop(i)')
            a, b = self.split(st, th.len(c) > 0)
            r = []
            if b is not None:
                r.append(self.exc(b, 'IndexError'))
            if a is not None:
                self.hset(a, self.lkey(v.ty), v.z, th.take(c, th.len(c) - 1))
                r.append((a, OK, self.typed(a, th.at(c, th.len(c) - 1), et)))
            return r
        if name == 'sort':
            rev = kw.get('reverse')
            reverse = rev is not None and z3.is_true(z3.simplify(rev.z))

            def f(s, r):
                self.hset(s, self.lkey(v.ty), v.z, r)
                return [(s, OK, NONEV)]
            return self.bind(self.sort_seq(st, c, th, et, kw.get('key'), reverse), f)
        if name == 'copy':
            return [(st, OK, self.list_of(st, c, et, self.site(st, e)))]
        if name == 'clear':
            self.hset(st, self.lkey(v.ty), v.z, th.empty)
            return [(st, OK, NONEV)]
        if name == 'count' and not self.custom_eq(et):
            return [(st, OK, vint(th.count(c, self.toz(args[0], et))))]
        raise Unsupported('list.%s' % name)

    def first_index(self, st, c, th, et, x, found):
        """first i with c[i] == x (custom ==); ValueError if none"""
        ss = self.static_seq(c, th)
        if ss is not None and 0 < len(ss) <= 8 and et.k in ('int', 'str'):
            eqs = [self.eqz(st, self.unz(y, et), x) for y in ss]
            I = z3.IntVal(len(ss) - 1)
            for j in range(len(ss) - 2, -1, -1):
                I = z3.If(eqs[j], z3.IntVal(j), I)
            a, b = st.clone(), st.clone()
            a.cond(z3.Or(*eqs))
            b.cond(z3.Not(z3.Or(*eqs)))
            return [self.exc(b, 'ValueError')] + found(a, I)
        i = z3.FreshConst(Int, 'q')
        mark = len(self.log)
        s0 = st.clone()
        try:
            # python compares identity first, then ==
            y = self.unz(th.at(c, i), et)
            q = self.eqz(st, y, x)
        finally:
            pass
        if len(self.log) > mark:
            raise Unsupported('comparison with effects')
        I = self.fresh('ix', Int)
        a, b = st.clone(), st.clone()
        qa = z3.substitute(q, (i, I)) if not _hasq(q) else self._sub1(q, i, I)
        no = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(c)), z3.Not(q)), patterns=[th.at(c, i)])
        a.cond(z3.Not(no))
        a.fact(z3.And(0 <= I, I < th.len(c), qa))
        a.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < I), z3.Not(q)), patterns=[th.at(c, i)]))
        b.cond(no)
        r = [self.exc(b, 'ValueError')]
        r += found(a, I)
        return r

    def _sub1(self, q, i, I):
        from .subst import subst
        return subst(q, {i.get_id(): (i, I)}, {})

    def seq_method(self, st, v, name, args, kw):
        if name in ('index', 'count') and v.ty.k == 'seq':
            c, th, et = self.content(st, v)
            if name == 'index':
                return self.first_index(st, c, th, et, args[0], lambda s, i: [(s, OK, vint(i))])
            if not self.custom_eq(et):
                return [(st, OK, vint(th.count(c, self.toz(args[0], et))))]
        raise Unsupported('method %s of %r' % (name, v.ty))

    # ------------------------------------------------------------------ dicts
    def typed_dict(self, st, v, kt, vt):
        if v.ty.a[0].k == '?':
            if self.has_hole(vt):
                raise Unsupported('untyped dict value')
            self.widen(v.ty.a[0].a[0], (kt, vt))
        k0, v0 = v.ty.a
        k1, v1 = self.join(k0, kt), self.join(v0, vt)
        if (k1, v1) != (k0, v0):
            if v.x and 'site' in v.x:
                self.widen(v.x['site'], (k1, v1))
            if k1 == k0 and v0.k == 'obj' and vt.k == 'obj' and self.prog.is_sub(vt.a[0], v0.a[0]):
                return k0, v0
            if k1 == k0 and vt.k == 'opt' and vt.a[0] == v0:
                return k0, v0
            if k0.k == 'seq' and kt.k == 'tup':
                return k0, v0
            raise Unsupported('storing %r:%r in %r' % (kt, vt, v.ty))
        return k0, v0

    def dict_store(self, st, v, key, val):
        if val.ty.k in ('list', 'dict', 'set') and val.ty.a and val.ty.a[0].k == '?' and v.ty.a[0].k != '?':
            # an empty untyped container takes the declared element type
            self.widen(val.ty.a[0].a[0], v.ty.a[1].a)
        if val.ty.k in ('list', 'dict', 'set') and val.ty.a and val.ty.a[0].k == '?':
            # both untyped: leave the store pending until the value's type is known
            raise Unsupported('untyped dict value')
        if val.ty.k == 'rec' and v.ty.a[0].k != '?' and v.ty.a[1].k == 'dict' and val.x and not self.sites.get(val.x.get('site')):
            self.widen(val.x['site'], v.ty.a[1].a)
        kt, vt = self.typed_dict(st, v, key.ty, val.ty)
        kd, kv = self.dkeys(v.ty)
        kz = self.toz(key, kt)
        self.hset(st, kd, v.z, z3.Store(self.hget(st, kd, v.z), kz, T))
        self.hset(st, kv, v.z, z3.Store(self.hget(st, kv, v.z), kz, self.coerce_checked(st, val, vt)))

    def dict_del(self, st, v, key):
        if v.ty.a[0].k == '?':
            return [self.exc(st, 'KeyError')]
        kd, kv = self.dkeys(v.ty)
        kz = self.toz(key, v.ty.a[0])
        a, b = self.split(st, z3.Select(self.hget(st, kd, v.z), kz))
        r = []
        if b is not None:
            r.append(self.exc(b, 'KeyError'))
        if a is not None:
            self.hset(a, kd, v.z, z3.Store(self.hget(a, kd, v.z), kz, F_))
            r.append((a, OK, NONEV))
        return r

    def dict_method(self, st, v, name, args, kw, e=None):
        if v.ty.a[0].k == '?':
            if name == 'get':
                return [(st, OK, args[1] if len(args) > 1 else NONEV)]
            if name in ('items', 'keys', 'values'):
                return [(st, OK, vtup([]))]
            if name == 'setdefault':
                if args[1].ty.k in ('list', 'set', 'dict') and args[1].ty.a[0].k == '?':
                    # type only known once the default is used: return it, remember the pending dict
                    w = args[1]
                    pend = V(w.ty, w.z, dict(w.x or {}, pending=(v.ty.a[0].a[0], args[0].ty)))
                    self.pending = getattr(self, 'pending', {})
                    self.pending[w.ty.a[0].a[0]] = (v.ty.a[0].a[0], args[0].ty, w.ty.k)
                    return [(st, OK, pend)]
                self.typed_dict(st, v, args[0].ty, args[1].ty)
            if name == 'pop':
                return [(st, OK, args[1])] if len(args) > 1 else [self.exc(st, 'KeyError')]
            if name == 'update' and args and args[0].ty.k == 'dict' and args[0].ty.a[0].k != '?':
                self.typed_dict(st, v, *args[0].ty.a)
            if name == 'copy':
                return [(st, OK, self.new_dict(st, self.site(st, e)))]
            raise Unsupported('method %s of untyped dict' % name)
        kt, vt = v.ty.a
        kd, kv = self.dkeys(v.ty)
        if name in ('get', 'pop'):
            key = args[0]
            r = []
            miss = []
            if key.ty.k == 'none' and kt.k != 'opt':
                miss = [st]
                hit = None
            else:
                cur = st
                if key.ty.k == 'opt' and kt.k != 'opt':
                    m, cur = self.split(st, is_none_z(key.ty, key.z))
                    if m is not None:
                        miss.append(m)
                    if cur is not None:
                        key = V(key.ty.a[0], unopt_z(key.ty, key.z))
                hit = None
                if cur is not None:
                    kz = self.toz(key, kt)
                    hit, m = self.split(cur, z3.Select(self.hget(cur, kd, v.z), kz))
                    if m is not None:
                        miss.append(m)
            for m in miss:
                if name == 'pop' and len(args) < 2:
                    r.append(self.exc(m, 'KeyError'))
                else:
                    d = args[1] if len(args) > 1 else NONEV
                    if d.ty.k in ('list', 'set', 'dict') and d.ty.a[0].k == '?' and vt.k == d.ty.k:
                        self.widen(d.ty.a[0].a[0], vt.a)
                    r.append((m, OK, d))
            if hit is not None:
                val = self.typed(hit, z3.Select(self.hget(hit, kv, v.z), kz), vt)
                if name == 'pop':
                    self.hset(hit, kd, v.z, z3.Store(self.hget(hit, kd, v.z), kz, F_))
                r.append((hit, OK, val))
            return r
        if name == 'setdefault':
            key, d = args[0], args[1] if len(args) > 1 else NONEV
            if d.ty.k in ('list', 'set', 'dict') and d.ty.a[0].k == '?' and vt.k == d.ty.k:
                self.widen(d.ty.a[0].a[0], vt.a)
            kz = self.toz(key, self.typed_dict(st, v, key.ty, d.ty)[0])
            a, b = self.split(st, z3.Select(self.hget(st, kd, v.z), kz))
            r = []
            if b is not None:
                self.dict_store(b, v, key, d)
                r.append((b, OK, V(vt, self.toz(d, vt), d.x) if vt.k != 'tup' else d))
            if a is not None:
                r.append((a, OK, self.typed(a, z3.Select(self.hget(a, kv, v.z), kz), vt)))
            return r
        if name in ('items', 'keys', 'values'):
            a = self.setz(st, v)
            q, th = self.order_of(st, a)
            vals = self.hget(st, kv, v.z)
            if name == 'keys':
                it = Iter(th.len(q), lambda s, i: self.typed(s, th.at(q, i), kt), lambda i: th.at(q, i),
                          src=('keys', q, th, kt, a))
            elif name == 'values':
                it = Iter(th.len(q), lambda s, i: (self.typed(s, th.at(q, i), kt), self.typed(s, z3.Select(vals, th.at(q, i)), vt))[1], lambda i: th.at(q, i))
            else:
                it = Iter(th.len(q), lambda s, i: vtup([self.typed(s, th.at(q, i), kt),
                                                        self.typed(s, z3.Select(vals, th.at(q, i)), vt)]),
                          lambda i: th.at(q, i), src=('dictitems', q, th, kt))
            return [(st, OK, V(Ty('iter'), it))]
        if name == 'copy':
            return self.bi_dict(st, [v], {}, e)
        if name == 'update' and args and args[0].ty.k == 'dict':
            w = args[0]
            if w.ty.a[0].k == '?':
                return [(st, OK, NONEV)]
            if w.ty != v.ty:
                raise Unsupported('dict.update types')
            d1, d2 = self.hget(st, kd, v.z), self.hget(st, kd, w.z)
            v1, v2 = self.hget(st, kv, v.z), self.hget(st, kv, w.z)
            nv = self.fresh('upd', v1.sort())
            x = z3.Const('x_u', sortof(kt))
            st.fact(z3.ForAll([x], z3.Select(nv, x) == z3.If(z3.Select(d2, x), z3.Select(v2, x), z3.Select(v1, x)),
                              patterns=[z3.Select(nv, x)]))
            self.hset(st, kd, v.z, z3.SetUnion(d1, d2))
            self.hset(st, kv, v.z, nv)
            return [(st, OK, NONEV)]
        if name == '__contains__':
            return [(s, k, vbool(b) if k == OK else b) for s, k, b in self.contains(st, v, args[0])]
        if name == '__getitem__':
            return self.getitem(st, v, args[0])
        if name == 'clear':
            self.hset(st, kd, v.z, z3.K(sortof(kt), F_))
            return [(st, OK, NONEV)]
        raise Unsupported('dict.%s' % name)

    def rec_method(self, st, v, name, args, kw):
        d = st.recs[v.z]
        if name == 'get' and args[0].x and 'lit' in args[0].x:
            return [(st, OK, d.get(args[0].x['lit'], args[1] if len(args) > 1 else NONEV))]
        if name == 'pop' and args[0].x and 'lit' in args[0].x:
            k = args[0].x['lit']
            if k in d:
                return [(st, OK, d.pop(k))]
            return [(st, OK, args[1])] if len(args) > 1 else [self.exc(st, 'KeyError')]
        if name == 'items':
            return [(st, OK, vtup([vtup([vstr(k), x]) for k, x in d.items()]))]
        if name == 'values':
            return [(st, OK, vtup(list(d.values())))]
        if name == 'keys':
            return [(st, OK, vtup([vstr(k) for k in d]))]
        if name == 'update' and isinstance(d, Frozen):
            raise Unsupported('a stored record changes')
        if name == 'update' and args and args[0].ty.k == 'rec':
            d.update(st.recs[args[0].z])
            return [(st, OK, NONEV)]
        if name == 'update' and not args:
            d.update(kw)
            return [(st, OK, NONEV)]
        if name == 'copy':
            rid = max(st.recs) + 1
            st.recs[rid] = dict(d)
            return [(st, OK, V(Ty('rec'), rid))]
        raise Unsupported('record method %s' % name)

    # ------------------------------------------------------------------ sets
    def as_set_arr(self, st, v, et=None):
        """-> outcomes with (array, elem type) for an iterable argument"""
        if v.ty.k in ('set', 'fset', 'dict'):
            if v.ty.a[0].k == '?':
                return [(st, OK, (None, None))]
            return [(st, OK, (self.setz(st, v), v.ty.a[0]))]

        def f(s, w):
            c, th, e2 = self.content(s, w)
            if c is None:
                return [(s, OK, (None, None))]
            if self.custom_eq(e2):
                raise Unsupported('set of objects with custom equality')
            ss = self.static_seq(c, th)
            if ss is not None:
                arr = z3.K(sortof(e2), F_)
                for x in ss:
                    arr = z3.Store(arr, x, T)
            else:
                arr = th.setof(c)
            return [(s, OK, (arr, e2))]
        return self.bind(self.seq_of(st, v), f)

    def set_method(self, st, v, name, args, kw):
        if name in ('add', 'discard', 'remove'):
            if v.ty.k != 'set':
                raise Unsupported('frozenset.%s' % name)
            x = args[0]
            if v.ty.a[0].k == '?':
                if name == 'discard':
                    return [(st, OK, NONEV)]
                if name == 'remove':
                    return [self.exc(st, 'KeyError')]
                if self.custom_eq(x.ty):
                    raise Unsupported('set of objects with custom equality')
                self.widen(v.ty.a[0].a[0], (x.ty,))
            et = v.ty.a[0]
            if self.custom_eq(et):
                raise Unsupported('set of objects with custom equality')
            j = self.join(et, x.ty)
            if j != et and v.x and 'site' in v.x:
                self.widen(v.x['site'], (j,))
            xz = self.coerce_checked(st, x, et)
            a = self.setz(st, v)
            if name == 'remove':
                ok, bad = self.split(st, z3.Select(a, xz))
                r = []
                if bad is not None:
                    r.append(self.exc(bad, 'KeyError'))
                if ok is not None:
                    self.hset(ok, self.setkey(v.ty), v.z, z3.Store(a, xz, F_))
                    r.append((ok, OK, NONEV))
                return r
            self.hset(st, self.setkey(v.ty), v.z, z3.Store(a, xz, T if name == 'add' else F_))
            return [(st, OK, NONEV)]
        if name in ('update', 'union', 'intersection', 'difference', 'difference_update', 'intersection_update', 'issubset', 'issuperset',
                    'isdisjoint', 'symmetric_difference'):
            def one(s, w):
                b, et = w
                hole = v.ty.a[0].k == '?'
                if b is None or hole:
                    if name == 'update':
                        if b is None:
                            return [(s, OK, NONEV)]
                        self.widen(v.ty.a[0].a[0], (et,))
                    if hole and b is None:
                        if name in ('issubset', 'issuperset', 'isdisjoint'):
                            return [(s, OK, vbool(True))]
                        return [(s, OK, v)]
                    if hole:
                        if name == 'union':
                            return [(s, OK, self.new_set(s, et, b))]
                        if name in ('intersection', 'difference'):
                            return [(s, OK, v)]
                        if name in ('issubset', 'isdisjoint'):
                            return [(s, OK, vbool(True))]
                        return [(s, OK, vbool(card_of(b.sort().domain())(b) == 0))]
                    b = z3.K(sortof(v.ty.a[0]), F_)
                    et = v.ty.a[0]
                a = self.setz(s, v)
                if a.sort() != b.sort():
                    raise Unsupported('set operation on %r and %r' % (v.ty.a[0], et))
                if name == 'issubset':
                    return [(s, OK, vbool(z3.IsSubset(a, b)))]
                if name == 'issuperset':
                    return [(s, OK, vbool(z3.IsSubset(b, a)))]
                if name == 'isdisjoint':
                    return [(s, OK, vbool(z3.SetIntersect(a, b) == z3.K(a.sort().domain(), F_)))]
                op = {'update': z3.SetUnion, 'union': z3.SetUnion, 'intersection': z3.SetIntersect,
                      'intersection_update': z3.SetIntersect, 'difference': z3.SetDifference,
                      'difference_update': z3.SetDifference,
                      'symmetric_difference': lambda x, y: z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))}[name]
                r = op(a, b)
                if name.endswith('update'):
                    self.hset(s, self.setkey(v.ty), v.z, r)
                    return [(s, OK, NONEV)]
                if v.ty.k == 'fset':
                    return [(s, OK, V(v.ty, r))]
                return [(s, OK, self.new_set(s, v.ty.a[0], r))]
            if len(args) != 1:
                raise Unsupported('set.%s arity' % name)
            return self.bind(self.as_set_arr(st, args[0]), one)
        if name == 'copy':
            if v.ty.a[0].k == '?':
                raise Unsupported('copy of untyped set')
            return [(st, OK, self.new_set(st, v.ty.a[0], self.setz(st, v)))]
        if name == 'clear' and v.ty.a[0].k != '?':
            self.hset(st, self.setkey(v.ty), v.z, z3.K(sortof(v.ty.a[0]), F_))
            return [(st, OK, NONEV)]
        raise Unsupported('set.%s' % name)

    # ------------------------------------------------------------------ strings
    def str_method(self, st, v, name, args, kw):
        if v.x and 'lit' in v.x and all(a.x and 'lit' in a.x for a in args) and not kw and name in (
                'lower', 'upper', 'strip', 'startswith', 'endswith', 'replace'):
            r = getattr(v.x['lit'], name)(*[a.x['lit'] for a in args])
            return [(st, OK, vbool(r) if isinstance(r, bool) else vstr(r))]
        if name == 'startswith':
            if args[0].ty.k == 'str':
                return [(st, OK, vbool(strprefix(args[0].z, v.z)))]
            if args[0].ty.k == 'tup':
                return [(st, OK, vbool(disj([strprefix(a.z, v.z) for a in args[0].z])))]
        if name == 'join':
            def f(s, w):
                c, th, et = self.content(s, w)
                if c is None:
                    return [(s, OK, vstr(''))]
                r = self.ufn('join', Str, th.sort, Str)(v.z, c)
                s.fact(r != none_str)
                return [(s, OK, V(STR, r))]
            return self.bind(self.seq_of(st, args[0]), f)
        if name == 'format':
            import re
            if v.x and 'lit' in v.x:
                f = v.x['lit']
                toks = re.split(r'(\{[^{}]*\})', f)
                ok = True
                out, i = vstr(''), 0
                for t in toks:
                    if t.startswith('{'):
                        nm = t[1:-1]
                        nm = nm[:-2] if nm.endswith('!s') else nm
                        if nm == '' and i < len(args):
                            out = self.scat(out, self.to_str(st, args[i]))
                            i += 1
                        elif nm.isdigit() and int(nm) < len(args):
                            out = self.scat(out, self.to_str(st, args[int(nm)]))
                        elif nm in kw:
                            out = self.scat(out, self.to_str(st, kw[nm]))
                        else:
                            ok = False
                            break
                    elif t:
                        out = self.scat(out, vstr(t))
                if ok:
                    return [(st, OK, out)]
            return [(st, OK, self.opaque_str(st, 'format', [v] + list(args) + [kw[k] for k in sorted(kw)]))]
        if name in ('split', 'rsplit', 'splitlines'):
            th = SeqTheory.of(Str)
            zs = [v.z] + [self.toz(a, ANY) for a in args]
            r = self.ufn('str_' + name, *([z.sort() for z in zs] + [th.sort]))(*zs)
            st.fact(r != th.none)
            if args:
                st.fact(th.len(r) >= 1)
            return [(st, OK, self.list_of(st, r, STR, st.stack + (('split',),)))]
        if name in STR_PRED:
            zs = [v.z] + [self.toz(a, ANY) for a in args]
            return [(st, OK, vbool(self.ufn('str_' + name, *([z.sort() for z in zs] + [Bool]))(*zs)))]
        if name in STR_OPAQUE:
            return [(st, OK, self.opaque_str(st, name, [v] + list(args)))]
        if name in ('find', 'index', 'count'):
            zs = [v.z] + [self.toz(a, ANY) for a in args]
            return [(st, OK, vint(self.ufn('str_' + name, *([z.sort() for z in zs] + [Int]))(*zs)))]
        raise Unsupported('str.%s' % name)
