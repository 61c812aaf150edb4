"""Verification of one contract: obligations from the real source, discharged by z3 (then cvc5)."""
import ast
import itertools
import os
import subprocess
import tempfile
import time
import z3
from .smt import *
from . import smt
from .core import *
from .execu import Exec, OK, EXC, T, F_, conj, disj, neg, _hasq
from .calls import Calls
from .stmts import Stmts
from .spec import Spec, Contract, parse
from .source import Program, Func
from .subst import symbols


class Side:
    """the sidecar: everything that is written about the program and not in it"""

    def __init__(self):
        self.fields = {}
        self.flags = {}
        self.consts = {}
        self.builtin_names = set()
        self.builtins = {}
        self.ext = {}
        self.func_externs = {}
        self.flattened = lambda ex, st, r, src, part, elem: None      # what is known of a flattened sequence
        self.externs = {}
        self.ctor_externs = {}
        self.decorators = set()
        self.dyn_fields = set()
        self.dict_classes = {}
        self.contracts = {}
        self.virtuals = {}
        self.defs = {}
        self.preds = {}
        self.spec_consts = {}
        self.spec_funcs = {}
        self.with_ok = set()
        self.current = None
        self.lemmas = []

    def dictlike(self, ex, cls):
        for n in ex.prog.mro(cls):
            if n in self.dict_classes:
                return self.dict_classes[n]
        return None

    def externs_any(self, cls):
        return self.externs

    def contract_for_call(self, ex, f):
        c = self.contracts.get(f.key)
        if c is None or c.opaque is None:
            return None
        if ex.no_contracts and f.key in ex.no_contracts:
            return None
        return c

    def virtual_contract(self, ex, cls, name):
        for n in ex.prog.mro(cls):
            k = self.virtuals.get((n, name))
            if k is not None:
                c = self.contracts[k]
                return ex.prog.func(k), c
        return None

    def loop_inv(self, ex, st, s):
        f = None
        for fr in reversed(st.frames):
            if '$func' in fr:
                f = fr['$func']
                break
        if f is None:
            return None
        c = self.contracts.get(f.key)
        if c is None or not c.loops:
            return None
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        for i, n in enumerate(loops):
            if n is s:
                inv = c.loops.get(i)
                if inv is not None:
                    inv = dict(inv)
                    inv.setdefault('label', '%s loop %d' % (f.qual, i))
                return inv
        return None


class Verifier(Exec, Calls, Stmts):
    def __init__(self, prog, side):
        super().__init__(prog, side)
        self.no_contracts = set()
        self.measure = None
        self.preddefs = {}

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind='post'):
        self.obls.append({'name': name, 'path': st.formulas(), 'ax': self.heap_ax, 'goal': goal, 'kind': kind})

    def spec(self, st, env, old=None):
        return Spec(self, st, env, old)

    # ------------------------------------------------------------------ modifies
    in_havoc = False

    def mod_targets(self, sp, entry):
        """-> list of (key, ref) and list of (key, predicate over ref)"""
        n = parse(entry) if isinstance(entry, str) else entry
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'when':
            c = sp.bool(n.args[0])
            out, preds = [], []
            for e in n.args[1:]:
                r, p = self.mod_targets(sp, e)
                out += [(k, z, c if c0 is None else z3.And(c, c0)) for k, z, c0 in r]
                preds += [(k, lambda x, p=q, c=c: z3.And(c, p(x))) for k, q in p]
            return out, preds
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'fields':
            o = sp.val(n.args[0])
            names = [a.value for a in n.args[1:]]
            out = []
            for c in self.prog.mro(o.ty.a[0]) + self.prog.subclasses(o.ty.a[0]):
                for f in self.fieldtab.get(c, {}):
                    if (not names or f in names) and ('F', c, f) not in [k for k, *_ in out]:
                        out.append((('F', c, f), o.z, None))
            return out, []
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'each':
            g = n.args[0]
            vs, guard, trig, sub = sp.gen(g)
            x = sub.val(g.elt)
            if x.ty.k == 'obj':
                keys = [('F', c, f) for c in self.prog.mro(x.ty.a[0]) for f in self.fieldtab.get(c, {})]
            else:
                keys = self.content_keys(x.ty)

            def pred(r):
                return sp.mkq(z3.Exists, vs, conj(guard + wf + [x.z == r]), trig)
            wf = sp.gen_wf if self.in_havoc else []
            return [], [(k, pred) for k in keys]
        v = sp.val(n)
        if v.ty.k == 'opt':
            v = V(v.ty.a[0], unopt_z(v.ty, v.z))
        if v.ty.k == 'obj' and self.side.dictlike(self, v.ty.a[0]):
            v = self.as_dict(None, v)
        return [(k, v.z, None) for k in self.content_keys(v.ty)], []

    def content_keys(self, t):
        if t.k == 'list':
            SeqTheory.of(sortof(t.a[0]))
            return [self.lkey(t)]
        if t.k == 'set':
            return [self.setkey(t)]
        if t.k == 'dict':
            return list(self.dkeys(t))
        raise Unsupported('modifies %r' % t)

    def havoc(self, st, sp, mods):
        todo = []
        for m in mods:
            self.in_havoc = True
            refs, preds = self.mod_targets(sp, m)
            self.in_havoc = False
            for key, r, c in refs:
                hv = self.fresh('hv', self.hsort(key))
                if c is not None:
                    st.fact(z3.Or(c, hv == self.hget(st, key, r)))
                todo.append((key, hv, False))
                self.hset(st, key, r, hv)
            for key, pred in preds:
                old = self.h(st, key)
                new = self.fresh('H', old.sort())
                r = z3.Const('r_m', Ref)
                st.fact(z3.ForAll([r], z3.Implies(z3.And(z3.Select(self.h(st, ('$alive',)), r), neg(pred(r))),
                                                  z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r), z3.Select(old, r)]))
                st.heap[key] = new
                todo.append((key, new, True))
        return todo

    def closed(self, st, todo):
        al = self.h(st, ('$alive',))
        for key, z, whole in todo:
            if whole:
                r = z3.Const('r_cl', Ref)
                for f in self.closure(key, z3.Select(z, r), al, [r], [z3.Select(al, r)]):
                    st.fact(f)
            else:
                for f in self.closure(key, z, al, [], []):
                    st.fact(f)

    def havoc_alive(self, st):
        old = self.h(st, ('$alive',))
        new = self.fresh('alive', old.sort())
        r = z3.Const('r_al', Ref)
        st.fact(z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(new, r)), patterns=[z3.Select(new, r)]))
        st.fact(z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(new, r)), patterns=[z3.Select(old, r)]))
        st.heap[('$alive',)] = new

    # ------------------------------------------------------------------ applying a contract at a call
    def snap(self, st, t, v):
        """a list returned where the contract speaks of a sequence: the members it has on return"""
        if t.k == 'opt' and v.ty.k in ('list', 'tup'):
            return self.snap(st, t.a[0], v)
        if t.k == 'seq' and v.ty.k == 'list':
            if v.ty.a[0].k == '?':
                return V(t, SeqTheory.of(sortof(t.a[0])).empty) if self.sites.get(v.ty.a[0].a[0]) is None else v
            return V(Ty('seq', v.ty.a[0]), self.content(st, v)[0])
        if t.k == 'fset' and v.ty.k == 'set':
            return V(t, z3.K(sortof(t.a[0]), F_) if v.ty.a[0].k == '?' and self.sites.get(v.ty.a[0].a[0]) is None else self.setz(st, v))
        if t.k == 'tup' and v.ty.k == 'tup' and len(t.a) == len(v.z):
            z = tuple(self.snap(st, a, b) for a, b in zip(t.a, v.z))
            return V(Ty('tup', *[x.ty for x in z]), z)
        return v

    def fits(self, t, v):
        s = v.ty
        if s == t:
            return True
        if t.k == 'obj' and s.k == 'obj':
            return self.prog.is_sub(s.a[0], t.a[0])
        if t.k == 'opt':
            return s.k == 'none' or self.fits(t.a[0], v) or s.k == 'opt' and self.fits(t.a[0], V(s.a[0]))
        if t.k == 'seq' and s.k == 'tup':
            return all(self.fits(t.a[0], x) for x in v.z)
        if t.k == 'any':
            return s.k not in ('func', 'class')
        if t.k == 'tup' and s.k == 'tup' and len(t.a) == len(s.a):
            return all(self.fits(a, b) for a, b in zip(t.a, v.z))
        if t.k == 'int' and s.k == 'bool':
            return True
        if t.k in ('list', 'set', 'dict') and s.k == t.k:
            return s.a[0].k == '?' or self.same_store(s.a, t.a)
        return False

    def apply_contract(self, st, f, c, env):
        self.used['contracts'].add(c.key)
        conv = {}
        cases = [(st, {})]
        rest = [a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a is not None]
        for n, v in env.items():
            if n in rest and n not in c.params:
                continue
            alts = self.param_alts(f, c, n)
            nxt = []
            for s, cv in cases:
                for s2, w in self.fit_arg(s, v, alts, c, n):
                    nxt.append((s2, dict(cv, **{n: w})))
            cases = nxt
        res = []
        for s, cv in cases:
            if isinstance(cv.get('$exc'), tuple):
                res.append(cv['$exc'])
                continue
            res += self.apply_contract1(s, f, c, cv)
        return res

    def fit_arg(self, st, v, alts, c, n):
        for t in alts:
            if self.fits(t, v):
                if v.ty.k in ('list', 'set', 'dict') and v.ty.a[0].k == '?':
                    self.widen(v.ty.a[0].a[0], t.a)
                w = V(t, v.z if t.k != 'obj' else v.z, None) if v.ty == t else self.conv(v, t)
                if v.ty.k == 'obj' and t.k == 'obj':
                    w = V(v.ty, v.z, v.x)
                return [(st, w)]
        if v.ty.k == 'opt':
            # None where the contract does not allow it: split; the None side must be infeasible or unsupported
            a, b = self.split(st, is_none_z(v.ty, v.z))
            r = []
            if a is not None:
                for t in alts:
                    if self.fits(t, NONEV):
                        r.append((a, self.conv(NONEV, t)))
                        break
                else:
                    raise Unsupported('None passed to %s of %s' % (n, c.key))
            if b is not None:
                r += self.fit_arg(b, self.typed(b, unopt_z(v.ty, v.z), v.ty.a[0]), alts, c, n)
            return r
        raise Unsupported('argument %s of %s has type %r' % (n, c.key, v.ty))

    def param_alts(self, f, c, n):
        if n in c.params:
            a = c.params[n]
            return [ty(x) for x in (a if isinstance(a, (list, tuple)) else [a])]
        if f.cls is not None and f.node.args.args and n == f.node.args.args[0].arg and 'staticmethod' not in f.decorators():
            return [Ty('obj', c.self_type or f.cls.name)]
        # a parameter the contract does not know: its default must be used
        return [ANY]

    def letname(self, st, n, v):
        """a name of its own for a value given by cases (so that it can stand in a pattern)"""
        if z3.is_expr(v.z) and z3.is_app(v.z) and v.z.decl().kind() == z3.Z3_OP_ITE:
            x = self.fresh('let_' + n, v.z.sort())
            st.fact(x == v.z)
            return V(v.ty, x)
        return v

    def apply_contract1(self, st, f, c, env):
        old = st.clone()
        env = dict(env)
        sp = self.spec(st, env)
        for n, e in c.lets.items():
            env[n] = self.letname(st, n, sp.v(e))
            sp.env[n] = env[n]
        for nm, r in c.requires:
            self.oblige(st, 'precondition of %s%s: %s' % (c.key, ' (%s)' % nm if nm else '', nm or r), sp.b(r), 'pre')
        if self.measure is not None and c.key == self.cur.key and c.decreases:
            m0 = self.measure
            m1 = sp.v(c.decreases).z
            self.oblige(st, 'recursion measure of %s decreases' % c.key, z3.And(m0 >= 0, m1 < m0, m1 >= 0), 'aux')
        res = []
        cur = st
        # several of the conditions may hold at once: any of the exceptions is then possible
        for exc, cond in c.raises.items():
            b = self.spec(st, env).b(cond)
            a, _ = self.split(st.clone(), b)
            if a is not None:
                res.append(self.contract_exc(a, c, env, old, exc))
            if cur is not None:
                _, cur = self.split(cur, b)
        for exc, cond in c.may_raise.items():
            if cur is None:
                break
            nb = self.fresh('mr', Bool)
            b = z3.And(nb, self.spec(st, env).b(cond))
            a, _ = self.split(st.clone(), b)
            if a is not None:
                res.append(self.contract_exc(a, c, env, old, exc))
        alts = [(cur, c.returns, c.ensures)]
        if c.cases and cur is not None:
            alts = []
            for cond, t, ens in c.cases:
                a, cur = self.split(cur, self.spec(cur, env).b(cond)) if cur is not None else (None, None)
                alts.append((a, t, c.ensures + ens))
            if cur is not None:
                raise Unsupported('%s: no case for the result' % c.key)
        for cur, returns, ensures in alts:
            if cur is None:
                continue
            mods = self.spec(old, env)
            refres = returns is not None and self.is_refty(ty(returns))
            pre = cur.clone()
            todo = self.havoc(cur, self.spec(pre, env), c.modifies)
            if c.modifies or refres:
                self.havoc_alive(cur)
            self.closed(cur, todo)
            if returns is None or returns == 'none':
                r = NONEV
            else:
                r = self.freshv(cur, ty(returns), 'res')
                for q in (r.z if r.ty.k == 'tup' else [r]):
                    if q.ty.k == 'list':        # a list has a content
                        z, th, _ = self.content(cur, q)
                        cur.fact(z != th.none)
            sp2 = Spec(self, cur, dict(env, result=r), old)
            for nm, e in ensures:
                cur.fact(sp2.b(e))
            x = None
            if r.ty.k == 'seq' and f.is_generator():
                r = V(r.ty, r.z, {'gen': True})
            res.append((cur, OK, r))
        return res

    def is_refty(self, t):
        return t.k in ('obj', 'list', 'dict', 'set') or any(self.is_refty(x) for x in t.a if isinstance(x, Ty))

    def contract_exc(self, st, c, env, old, exc):
        pre = st.clone()
        self.closed(st, self.havoc(st, self.spec(pre, env), c.exc_modifies))
        if exc in c.ensures_exc:
            st.fact(Spec(self, st, env, old).b(c.ensures_exc[exc]))
        return self.exc(st, exc)

    # ------------------------------------------------------------------ loop invariants
    def inv_env(self, st, entry, it, k):
        env = {}
        for fr in st.frames:
            for n, v in fr.items():
                if not n.startswith('$'):
                    env[n] = v
        env = {n: v for n, v in st.env.items() if not n.startswith('$')}
        fi = st.env.get('$closure')
        while fi is not None:
            for n, v in st.frames[fi].items():
                if not n.startswith('$'):
                    env.setdefault(n, v)
            fi = st.frames[fi].get('$closure')
        for n, v in self.ghost.items():
            env.setdefault(n, v)
        for n, v in entry.env.items():
            if not n.startswith('$'):
                env['entry_' + n] = v
        if it is not None:
            env['k'] = vint(k)
            env['n'] = vint(it.n)
            if it.src and it.src[0] == 'dictitems':
                env['keys'] = V(Ty('seq', it.src[3]), it.src[1])
            if it.src and it.src[0] in ('seq', 'keys'):
                env['items'] = V(Ty('seq', it.src[3]), it.src[1])
        if '$yield' in st.env:
            y = st.env['$yield']
            env['yielded'] = y
        return env

    ghost = {}

    def inv_spec(self, st, entry, it, k):
        sp = Spec(self, st, self.inv_env(st, entry, it, k), self.old_state)
        sp.entry = entry
        return sp

    old_state = None

    def check_inv(self, st, entry, it, inv, k, label):
        sp = self.inv_spec(st, entry, it, k)
        for e in inv['inv']:
            nm, e = e if isinstance(e, tuple) else (None, e)
            self.oblige(st, '%s: %s' % (label, nm or e), sp.b(e), 'inv')

    def assume_inv(self, st, entry, it, inv, k):
        sp = self.inv_spec(st, entry, it, k)
        for e in inv['inv']:
            nm, e = e if isinstance(e, tuple) else (None, e)
            st.fact(sp.b(e))

    def inv_modifies(self, h, inv, entry):
        sp = Spec(self, entry, self.inv_env(entry, entry, None, None), self.old_state)
        todo = self.havoc(h, sp, inv.get('modifies', ()))
        self.havoc_alive(h)
        todo += [(('F',) + k, self.h(h, ('F',) + k), True) for k in inv.get('closed', ())]
        self.closed(h, todo)

    def check_modifies(self, h, s2, inv, entry, label, before):
        sp = Spec(self, entry, self.inv_env(entry, entry, None, None), self.old_state)
        ok, preds = [], []
        for m in inv.get('modifies', ()):
            r, p = self.mod_targets(sp, m)
            ok += r
            preds += p
        for key, a in s2.heap.items():
            if key == ('$alive',):
                continue
            base = h.heap.get(key)
            if base is None:
                base = self.h0.get(key)
                if base is None:
                    continue
            if a.eq(base):
                continue
            if self.chain_ok(a, base, key, ok, before):
                continue
            r = z3.Const('r_fr', Ref)
            cond = [z3.Select(entry.heap.get(('$alive',), self.h(h, ('$alive',))), r)]
            cond += [r != x if c0 is None else z3.Not(z3.And(c0, r == x)) for kk, x, c0 in ok if kk == key]
            cond += [neg(p(r)) for kk, p in preds if kk == key]
            self.oblige(s2, label + ': loop body changes only what it declares (%s)' % '.'.join(map(str, key)),
                        z3.ForAll([r], z3.Implies(conj(cond), z3.Select(a, r) == z3.Select(base, r))), 'inv')

    def chain_ok(self, a, base, key, ok, before=()):
        """syntactic check that a is base with stores only at new (allocated since `before`) or permitted references"""
        while not a.eq(base):
            if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE):
                return False
            r = a.arg(1)
            if not (r.get_id() in (self.newrefs or {}) and r.get_id() not in before or any(kk == key and c is None and x.eq(r) for kk, x, c in ok)):
                return False
            a = a.arg(0)
        return True

    def inv_decreases(self, st, entry, it, inv, k):
        if 'decreases' not in inv:
            return None
        return self.inv_spec(st, entry, it, k).v(inv['decreases']).z

    # ------------------------------------------------------------------ verifying one contract
    def variants(self, f, c):
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        missing = [n for n in c.params if n not in names]
        if missing:
            raise Unsupported('parameters %s no longer exist' % missing)
        alts = []
        for n in names:
            if n in c.params or (f.cls is not None and n == names[0] and 'staticmethod' not in f.decorators()):
                alts.append([(n, t) for t in self.param_alts(f, c, n)])
            else:
                alts.append([(n, None)])
        return [dict(x) for x in itertools.product(*alts)]

    def verify(self, c, variant=None):
        f = self.prog.func(c.key)
        if f is None:
            raise Unsupported('function %s does not exist' % c.key)
        self.cur = c
        vs = self.variants(f, c)
        allobls = []
        self.npaths = 0
        self.normal_paths = []
        self.loop_states = []       # (loop, assumptions in its third iteration): none may be contradictory
        for i, var in enumerate(vs):
            if variant is not None and i != variant:
                continue
            for rnd in range(60):
                try:
                    self.obls = []
                    self.paths = 0
                    obls = self.verify1(f, c, var, len(vs) > 1)
                    break
                except Restart:
                    continue
            else:
                raise Unsupported('type inference did not converge')
            allobls += obls
        return allobls

    def verify1(self, f, c, var, tag):
        st = State()
        env = {}
        self.log = []
        self.h0 = {}
        self.heap_ax = []
        self.newrefs = {}
        st.frames = [{'$mod': f.mod, '$closure': None, '$func': f, '$node': f.node}]
        st.stack = ((f.key, 0),)
        suffix = ''
        if tag:
            suffix = ' [%s]' % ', '.join('%s:%r' % (n, t) for n, t in var.items() if t is not None and len(self.param_alts(f, c, n)) > 1)
        for n, t in var.items():
            if t is None:
                a = f.node.args
                nm = [x.arg for x in a.posonlyargs + a.args]
                d = dict(zip(nm[len(nm) - len(a.defaults):], a.defaults))
                d.update({x.arg: dd for x, dd in zip(a.kwonlyargs, a.kw_defaults) if dd is not None})
                if n not in d:
                    raise Unsupported('new parameter %s without default' % n)
                outs = self.eval_in_module(st, f.mod, d[n], (f.key, 'default', n))
                if len(outs) != 1 or outs[0][1] != OK:
                    raise Unsupported('default of %s' % n)
                st = outs[0][0]
                env[n] = outs[0][2]
            else:
                env[n] = self.freshv(st, t, n)
        st.env.update(env)
        if f.node.args.vararg or f.node.args.kwarg:
            for a, v in ((f.node.args.vararg, vtup([])),):
                if a is not None:
                    st.env[a.arg] = v
            if f.node.args.kwarg is not None:
                st.recs[1] = {}
                st.env[f.node.args.kwarg.arg] = V(Ty('rec'), 1)
        for b in self.born:             # the arguments exist in the heap the function starts with
            if b not in self.newrefs:
                self.born[b] = 0
        self.birthc.clear()
        self.old_state = st.clone()
        old = self.old_state
        senv = dict(env)
        sp = self.spec(st, senv)
        self.ghost = {}
        for n, e in c.lets.items():
            v = self.letname(st, n, sp.v(e))
            senv[n] = v
            sp.env[n] = v
            self.ghost[n] = v
        for n in env:
            self.ghost.setdefault('in_' + n, env[n])
        for nm, r in c.requires:
            st.fact(sp.b(r))
        old.heap = dict(st.heap)
        old.path = list(st.path)
        self.measure = sp.v(c.decreases).z if c.decreases else None
        self.pre_path = st.formulas()
        dec = [d for d in f.decorators() if d not in ('property', 'staticmethod', 'classmethod') and not d.endswith('.setter')
               and d not in self.side.decorators]
        if dec:
            raise Unsupported('decorator %s' % dec)
        if isinstance(f.node, ast.Lambda):
            raise Unsupported('lambda')
        self.abstract = c.abstract
        outs = self.run_function(st, f)
        raises = {e: self.spec(old, senv).b(x) for e, x in c.raises.items()}
        may = {e: self.spec(old, senv).b(x) for e, x in c.may_raise.items()}
        n_norm = 0
        for s, k, v in outs:
            self.npaths += 1
            self.const_obl(s, c, suffix)
            if k == EXC:
                cls = v.ty.a[0]
                m = [z for e, z in list(raises.items()) + list(may.items()) if self.prog.is_sub(cls, e)]
                self.oblige(s, '%s raises %s only when it should%s' % (c.key, cls, suffix), disj(m), 'raise')
                if m:
                    self.frame_obl(s, f, c, senv, old, c.exc_modifies, ' on %s%s' % (cls, suffix))
                    for e, x in c.ensures_exc.items():
                        if self.prog.is_sub(cls, e):
                            self.oblige(s, '%s on %s: %s%s' % (c.key, e, x, suffix), Spec(self, s, senv, old).b(x), 'post')
                continue
            n_norm += 1
            self.normal_paths.append((c.key + suffix, s.formulas(), self.heap_ax))
            for e, z in raises.items():
                self.oblige(s, '%s raises %s whenever it should%s' % (c.key, e, suffix), neg(z), 'raise')
            returns, ensures = c.returns, c.ensures
            if c.cases:
                fit = [(x, t, en) for x, t, en in c.cases if self.fits(ty(t), self.snap(s, ty(t), v))]
                if len(fit) != 1:
                    raise Unsupported('%s returns a value of type %r' % (c.key, v.ty))
                cond = self.spec(old, senv).b(fit[0][0])
                self.oblige(s, '%s: the shape of the result follows the arguments%s' % (c.key, suffix), cond, 'post')
                s.fact(cond)
                returns, ensures = fit[0][1], c.ensures + fit[0][2]
            if returns is not None:
                rt = ty(returns)
                if returns == 'none':
                    if v.ty.k != 'none':
                        raise Unsupported('returns a value of type %r' % v.ty)
                else:
                    v = self.snap(s, rt, v)
                    if not self.fits(rt, v):
                        if v.ty.k == 'none' or v.ty.k == 'opt':
                            self.oblige(s, '%s never returns None%s' % (c.key, suffix),
                                        neg(is_none_z(v.ty, v.z)) if v.ty.k == 'opt' else F_, 'post')
                            if v.ty.k == 'none':
                                continue
                        elif rt.k == 'seq' and v.ty.k in ('list',):
                            v = V(Ty('seq', v.ty.a[0]), self.content(s, v)[0])
                        elif not (rt.k == 'any'):
                            raise Unsupported('%s returns a value of type %r, not %r' % (c.key, v.ty, rt))
                    if v.ty.k in ('list', 'set', 'dict') and v.ty.a[0].k == '?':
                        self.widen(v.ty.a[0].a[0], rt.a)
                    if not (v.ty.k == 'obj' and rt.k == 'obj'):
                        v = self.conv(v, rt)
            sp2 = Spec(self, s, dict(senv, result=v), old)
            for h in c.hints:
                z = sp2.b(h)
                self.oblige(s, '%s: lemma %s%s' % (c.key, h, suffix), z, 'aux')
                s.fact(z)
            for nm, e in ensures:
                self.oblige(s, '%s: %s%s' % (c.key, nm or e, suffix), sp2.b(e), 'post')
            self.frame_obl(s, f, c, senv, old, c.modifies, suffix)
        return self.obls

    def const_obl(self, s, c, suffix):
        """module constants are read afresh at every use: nobody may change them"""
        for kk, z in s.path:
            if z3.is_app(z) and z.decl().name() == 'module_constant':
                nm, r, ks = self.modconsts[str(z.arg(0))]
                for q, x in ks:
                    y = self.hget(s, q, r)
                    if not z3.simplify(y).eq(z3.simplify(x)):
                        self.oblige(s, '%s leaves %s as it is%s' % (c.key, nm, suffix), x == y, 'frame')

    def frame_obl(self, s, f, c, env, old, mods, suffix):
        sp = self.spec(old, env)
        ok, preds = [], []
        for m in mods:
            r, p = self.mod_targets(sp, m)
            ok += r
            preds += p
        for key, a in s.heap.items():
            if key == ('$alive',):
                continue
            base = old.heap.get(key)
            if base is None:
                base = self.h0.get(key)
            if base is None or a.eq(base) or self.chain_ok(a, base, key, ok):
                continue
            r = z3.Const('r_fr', Ref)
            al = old.heap.get(('$alive',))
            if al is None:
                al = self.h0.get(('$alive',))
            cond = [z3.Select(al, r)] if al is not None else []
            cond += [r != x if c0 is None else z3.Not(z3.And(c0, r == x)) for kk, x, c0 in ok if kk == key]
            cond += [neg(p(r)) for kk, p in preds if kk == key]
            self.oblige(s, '%s changes nothing else (%s)%s' % (c.key, '.'.join(str(k) for k in key), suffix),
                        z3.ForAll([r], z3.Implies(conj(cond), z3.Select(a, r) == z3.Select(base, r))), 'frame')


# ---------------------------------------------------------------------- solving
def relevant_axioms(fs):
    """background axiom groups mentioning a symbol of the query"""
    syms = set()
    seen = set()
    for f in fs:
        symbols(f, seen, syms)
    out, todo = [], dict(smt._AX)
    changed = True
    cache = relevant_axioms.cache
    while changed:
        changed = False
        for g in list(todo):
            if g not in cache or cache[g][1] != len(todo[g]):
                s = set()
                sn = set()
                for a in todo[g]:
                    symbols(a, sn, s)
                cache[g] = (s, len(todo[g]))
            if cache[g][0] & syms:
                out.extend(todo.pop(g))
                # follow only through sequence/str/card functions that the axioms themselves mention
                changed = True
                if g.startswith('seq_'):
                    syms |= {x for x in cache[g][0]}
    return out


relevant_axioms.cache = {}


def tup_facts():
    return []


def solve(ob, timeout=8000, cvc5=True, tries=5):
    """-> (status, backend, seconds, solver-output)"""
    t0 = time.time()
    goal = ob['goal']
    path = [f for f in ob['path'] if not z3.is_true(f)]
    if z3.is_true(z3.simplify(goal) if not _hasq(goal) else goal):
        return 'proved', 'simplifier', 0.0, ''
    for f in path:
        if z3.is_false(f) or f.eq(goal):
            return 'proved', 'simplifier', 0.0, ''
    fs = path + [z3.Not(goal)]
    fs = name_ground(fs + ground_preds(fs)) + list(ob.get('ax', ()))
    fs = fs + relevant_axioms(fs) + smt.lit_axioms()
    out, fs0 = '', fs
    ex = z3.is_quantifier(goal) and goal.is_exists() and goal.num_vars() == 1
    for i in range(tries):
        if i == 1 and ex:
            for ms, n in ((700, 1), (timeout // 2, 3)):
                for c in witnesses(goal, path):
                    subs = split_goal(dict(ob, goal=z3.substitute_vars(goal.body(), c)))
                    if all(solve(q, ms, False, n)[0] == 'proved' for q in sorted(subs, key=lambda q: len(q['goal'].sexpr()))):
                        return 'proved', 'z3', time.time() - t0, ''
        if i == 2:
            fs = fs + cross_mentions(fs)
        s = z3.SimpleSolver() if i in (1, 4) else z3.Solver()
        s.set('timeout', (1200, 800, timeout // 2, timeout, timeout // 2, timeout // 4, timeout // 4, timeout // 4)[i])
        if i > 4:
            s.set('smt.random_seed', 11 * i)
        if i in (0, 2, 3, 5, 6, 7):
            s.set('auto_config', False)
            s.set('mbqi', False)
        if i == 2:
            s.set('smt.relevancy', 0)
            s.set('smt.qi.eager_threshold', 4.0)
        s.add(*(fs0 if i == 3 else fs))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
        if r == z3.sat:
            m = s.model()
            return 'refuted', 'z3', time.time() - t0, str(m)[:4000]
        out += 'z3 attempt %d: unknown (%s)\n' % (i + 1, s.reason_unknown())
    if cvc5:
        s = z3.Solver()
        s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--full-saturate-quant', fh.name], capture_output=True, text=True,
                               timeout=timeout / 1000 + 10)
            o = p.stdout.strip().split('\n')[0]
            if o == 'unsat':
                return 'proved', 'cvc5', time.time() - t0, ''
            out += 'cvc5: %s %s' % (o, p.stderr[:300])
        except Exception as e:
            out += 'cvc5: %s' % e
        finally:
            os.unlink(fh.name)
    return 'unproved', 'z3+cvc5', time.time() - t0, out


def witnesses(goal, path, limit=8):
    """ground terms that stand in the path where the goal's bound variable stands"""
    spots, st = set(), [goal.body()]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        for i in range(x.num_args()):
            if z3.is_var(x.arg(i)) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                spots.add((x.decl(), i))
            st.append(x.arg(i))
    out, seen, st = [], set(), list(reversed(path))
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or not z3.is_app(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        for i in range(x.num_args()):
            if (x.decl(), i) in spots and not any(x.arg(i).eq(o) for o in out):
                out.append(x.arg(i))
            st.append(x.arg(i))
    out = [o for o in out if o.sort() == goal.var_sort(0)]
    return out[-limit:][::-1]


def name_ground(fs):
    """closed terms with updates below a quantifier get a name outside it, so that E-matching can see them"""
    found = {}
    memo = {}

    def closed(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if z3.is_var(e):
            r = (False, False)
        elif z3.is_quantifier(e):
            closed(e.body())
            r = (False, False)
        else:
            cl, st = True, e.decl().kind() == z3.Z3_OP_STORE
            for c in e.children():
                a, b = closed(c)
                cl, st = cl and a, st or b
            r = (cl, st)
        memo[k] = r
        return r

    seen = set()

    def walk(e, under):
        k = (e.get_id(), under)
        if k in seen:
            return
        seen.add(k)
        if z3.is_quantifier(e):
            walk(e.body(), True)
            return
        if z3.is_var(e) or not e.num_args():
            return
        if under and e.sort().kind() != z3.Z3_BOOL_SORT:
            cl, st = closed(e)
            if cl and st:
                found[e.get_id()] = e
                return
        for c in e.children():
            walk(c, under)
    for f in fs:
        if _hasq(f):
            walk(f, False)
    if not found:
        return fs
    subs = [(e, z3.FreshConst(e.sort(), 'nm')) for e in found.values()]
    # larger terms first: substitution is simultaneous on maximal terms
    out = [z3.substitute(f, *subs) for f in fs]
    return out + [c == e for e, c in subs]


def cross_mentions(fs, limit=80):
    """a predicate known of some arguments in one state is a trigger for what is known of them in the other states"""
    heaps, args, have = {}, {}, set()
    seen = set()
    vmemo = {}

    def hasvar(e):
        k = e.get_id()
        if k not in vmemo:
            vmemo[k] = z3.is_var(e) or z3.is_quantifier(e) or any(hasvar(c) for c in e.children())
        return vmemo[k]

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            walk(e.body())
            return
        if not z3.is_app(e):
            return
        n = e.decl().name()
        if n.startswith('P_') and n in smt.PRED_HEAPS:
            k = smt.PRED_HEAPS[n]
            hs, xs = [e.arg(i) for i in range(k)], [e.arg(i) for i in range(k, e.num_args())]
            if not any(hasvar(x) for x in hs):
                heaps.setdefault(e.decl(), {})[tuple(x.get_id() for x in hs)] = hs
            if xs and not any(hasvar(x) for x in xs):
                args.setdefault(e.decl(), {})[tuple(x.get_id() for x in xs)] = xs
                have.add(e.get_id())
        for c in e.children():
            walk(c)
    for f in fs:
        walk(f)
    out = []
    for d in heaps:
        for hs in heaps[d].values():
            for xs in args.get(d, {}).values():
                a = d(*(hs + xs))
                if a.get_id() not in have and len(out) < limit and a.sort() == Bool:
                    out.append(MENTION(a))
    return out


def ground_preds(fs, rounds=2):
    """definitions of the predicate applications that occur outside quantifiers"""
    out, done, todo = [], set(), list(fs)
    for _ in range(rounds):
        seen, new = set(), []
        stack = list(todo)
        while stack:
            e = stack.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.num_args():
                if e.decl().name().startswith('P_') and e.get_id() not in done:
                    done.add(e.get_id())
                    u = unfold(e)
                    if u is not None:
                        new.append(e == u)
                stack.extend(e.children())
        out += new
        todo = new
    return out


def unfold(g):
    """the definition of a predicate application"""
    for ax in smt._AX.get('pred_' + g.decl().name()[2:], ()):
        b = ax.body()
        if not z3.is_app(b) or b.num_args() != 2:
            continue
        for n in (0, 1):                # a quantified body comes first in the equation
            if z3.is_app(b.arg(n)) and b.arg(n).decl() == g.decl():
                return z3.substitute_vars(b.arg(1 - n), *reversed([g.arg(i) for i in range(g.num_args())]))
    return None


def cases(h):
    """an assumption of a goal, split at its disjunctions"""
    if z3.is_or(h) and h.num_args() <= 4:
        return [c for x in h.children() for c in cases(x)]
    if z3.is_and(h):
        parts = [cases(x) for x in h.children()]
        n = 1
        for x in parts:
            n *= len(x)
        if 1 < n <= 6:
            return [z3.And(*t) for t in itertools.product(*parts)]
    return [h]


MENTION = z3.Function('mention', Bool, Bool)      # keeps a term in the query as a trigger; means nothing


def preds_in(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name().startswith('P_'):
            out.append(x)
        st.extend(x.children())
    return [x for x in out if x.sort() == Bool]


def _row(e):
    """reads of what was just stored"""
    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        r = x
        if z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            if z3.is_select(r) and z3.is_app(r.arg(0)) and r.arg(0).decl().kind() == z3.Z3_OP_STORE and r.arg(0).arg(1).eq(r.arg(1)):
                r = r.arg(0).arg(2)
        elif z3.is_quantifier(x):
            r = x
        cache[i] = r
        return r
    return go(e)


def _appended(g):
    """a claim on all (or some) members of xs + [y] is one on those of xs and one on y: -> (on xs, on y)"""
    if not z3.is_quantifier(g) or g.num_vars() != 1 or g.var_sort(0) != Int:
        return None
    i = z3.FreshConst(Int, g.var_name(0))
    b = z3.substitute_vars(g.body(), i)
    if g.is_forall() and not z3.is_implies(b) or not g.is_forall() and not z3.is_and(b):
        return None
    rng, body = b.arg(0), (b.arg(1) if b.num_args() == 2 else z3.And(*b.children()[1:]))
    if not z3.is_and(rng) or rng.num_args() != 2 or not (z3.is_ge(rng.arg(0)) or z3.is_le(rng.arg(0))) or not z3.is_lt(rng.arg(1)):
        return None
    lo, up = rng.arg(0), rng.arg(1)
    zero = z3.IntVal(0)
    if not (z3.is_ge(lo) and lo.arg(0).eq(i) and lo.arg(1).eq(zero) or z3.is_le(lo) and lo.arg(1).eq(i) and lo.arg(0).eq(zero)) or not up.arg(0).eq(i):
        return None
    n = up.arg(1)
    if not (z3.is_app(n) and n.decl().name().startswith('len_') and z3.is_app(n.arg(0)) and n.arg(0).decl().name().startswith('cat_')):
        return None
    c = n.arg(0)
    xs, u = c.arg(0), c.arg(1)
    if not (z3.is_app(u) and u.decl().name().startswith('unit_')):
        return None
    at = next((th.at for th in SeqTheory._cache.values() if th.sort == c.sort()), None)
    if at is None:
        return None
    y = u.arg(0)
    ats = at(c, i)
    r2 = z3.And(i >= 0, i < n.decl()(xs))
    bx = z3.substitute(body, (ats, at(xs, i)))
    by = _row(z3.substitute(z3.substitute(body, (ats, y)), (i, n.decl()(xs))))
    q = z3.ForAll([i], z3.Implies(r2, bx), patterns=[at(xs, i)]) if g.is_forall() else z3.Exists([i], z3.And(r2, bx), patterns=[at(xs, i)])
    return q, by


def split_goal(ob):
    """conjunctive goals become separate obligations"""
    g = ob['goal']
    if z3.is_and(g):
        r = []
        m = [MENTION(p) for p in preds_in(g)] if not _hasq(g) else []
        for i, x in enumerate(g.children()):
            r += split_goal(dict(ob, path=ob['path'] + m, goal=x))
        return r
    if z3.is_implies(g):
        out = []
        hs = cases(g.arg(0))
        m = [MENTION(p) for p in preds_in(g.arg(0))] if len(hs) > 1 else []
        for h in hs:
            out += split_goal(dict(ob, path=ob['path'] + [h] + m, goal=g.arg(1)))
        return out
    if z3.is_quantifier(g):
        two = _appended(g)
        if two is not None:
            if g.is_forall():
                return split_goal(dict(ob, goal=two[0])) + split_goal(dict(ob, goal=two[1]))
            return [dict(ob, goal=z3.Or(*two))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i)) for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return split_goal(dict(ob, goal=body))
    if z3.is_app(g) and g.decl().name().startswith('P_'):
        u = unfold(g)
        if u is not None:
            return split_goal(dict(ob, path=ob['path'] + [z3.Not(g)], goal=u))
    if z3.is_not(g) and not z3.is_quantifier(g.arg(0)):
        return [dict(ob, path=ob['path'] + [g.arg(0)], goal=z3.BoolVal(False))]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == Bool:
        c, a, b = g.children()
        return split_goal(dict(ob, goal=z3.Implies(c, a))) + split_goal(dict(ob, goal=z3.Implies(z3.Not(c), b)))
    if z3.is_eq(g) and g.arg(0).sort() == Bool and z3.is_app(g):
        a, b = g.arg(0), g.arg(1)
        return split_goal(dict(ob, goal=z3.Implies(a, b))) + split_goal(dict(ob, goal=z3.Implies(b, a)))
    return [ob]
