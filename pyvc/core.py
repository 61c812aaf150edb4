"""Symbolic values, states, coercions and heap model."""
import z3
from .smt import *
from . import smt
from .smt import _nm


class Unsupported(Exception):
    """the construct is outside the verified subset: the function is out of reach of the verifier"""


class Restart(Exception):
    """an allocation site got a (more general) element type: run the function again"""


class V:
    __slots__ = ('ty', 'z', 'x')

    def __init__(self, ty, z=None, x=None):
        self.ty, self.z, self.x = ty, z, x

    def __repr__(self):
        return 'V(%r,%s)' % (self.ty, self.z)


NONEV = V(NONE)
UNDEF = V(Ty('undef'))


def vbool(z):
    return V(BOOL, z if not isinstance(z, bool) else z3.BoolVal(z))


def vint(z):
    return V(INT, z if not isinstance(z, int) else z3.IntVal(z))


def vstr(s):
    return V(STR, lit(s), {'lit': s})


def vtup(vs):
    return V(Ty('tup', *[v.ty for v in vs]), list(vs))


class Iter:
    """an abstract finite iterable: length n, element function get(k)->z3/V, trigger trig(k)->term or None"""

    def __init__(self, n, get, trig=None, src=None, static=None):
        self.n, self.get, self.trig, self.src, self.static = n, get, trig or (lambda k: None), src, static


class Frozen(dict):
    """a record that is stored in a container, where later changes would have to be seen"""


class State:
    __slots__ = ('frames', 'heap', 'path', 'recs', 'stack', 'yields', 'note')

    def __init__(self):
        self.frames, self.heap, self.path, self.recs = [{}], {}, [], {}
        self.stack, self.yields, self.note = (), [], None

    @property
    def env(self):
        return self.frames[-1]

    def clone(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.path = list(self.path)
        s.recs = {k: type(v)(v) for k, v in self.recs.items()}
        s.stack, s.yields, s.note = self.stack, list(self.yields), self.note
        return s

    def fact(self, f):
        if z3.is_true(f):
            return
        self.path.append(('f', f))

    def cond(self, f):
        if z3.is_true(f):
            return
        self.path.append(('c', f))

    def formulas(self):
        return [f for _, f in self.path]


typeof = z3.Function('typeof', Ref, z3.IntSort())
strsort = Str


class Core:
    def __init__(self, prog, side):
        self.prog, self.side = prog, side
        self.fnconsts, self.modconsts = {}, {}
        self.log = []               # fresh symbols since start
        self.h0 = {}
        self.heap_ax = []
        self.sites = {}
        self.clsids = {}
        self.uf = {}
        self.obls = []              # (name, path formulas, goal)
        self.used = {'inlined': set(), 'contracts': set(), 'externs': set(), 'dropped': set()}
        self.fieldtab = side.fields
        self.feas_cache = {}
        self.born, self.bornf, self.birthc = {}, {}, {}
        self.clock = 0
        self.keep = []
        self.nfeas = 0

    # ---- fresh symbols ----
    def fresh(self, name, sort):
        c = z3.FreshConst(sort, name)
        self.log.append(c)
        self.clock += 1
        self.born[c.get_id()] = self.clock
        self.keep.append(c)
        return c

    def fresh_fun(self, name, *sorts):
        f = z3.Function('%s!%d' % (name, Core._ctr()), *sorts)
        self.log.append(f)
        self.regfun(f)
        return f

    def regfun(self, f):
        self.clock += 1
        self.bornf[f.get_id()] = self.clock
        self.keep.append(f)

    _n = 0

    @staticmethod
    def _ctr():
        Core._n += 1
        return Core._n

    def ufn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf:
            self.uf[k] = z3.Function('%s_%d' % (name, len(self.uf)), *sorts)
        return self.uf[k]

    def clsid(self, name):
        if name not in self.clsids:
            self.clsids[name] = len(self.clsids) + 1
        return self.clsids[name]

    # ---- heap ----
    def h(self, st, key):
        a = st.heap.get(key)
        if a is None:
            a = self.h0.get(key)
            if a is None:
                a = self.h0[key] = z3.Const('H0_' + '_'.join(_nm(str(k)) for k in key), z3.ArraySort(Ref, self.hsort(key)))
                if key != ('$alive',):
                    r = z3.Const('r_cl', Ref)
                    al = self.h(st, ('$alive',)) if ('$alive',) not in self.h0 else self.h0[('$alive',)]
                    if not self.heap_ax:
                        self.heap_ax = [z3.Select(al, null)]
                    self.heap_ax += self.closure(key, z3.Select(a, r), al, [r], [z3.Select(al, r)])
            st.heap[key] = a
        return a

    def closure(self, key, val, alive, vs, guard):
        """everything stored in the heap is alive (null counts as alive): facts about the value stored under a key"""
        root = key[2] if key[0] == 'L' else key[4] if key[0] == 'DV' else ''

        def ok(z):
            if root in self.prog.classes:
                return z3.And(z3.Select(alive, z), z != null, z3.Or(*[typeof(z) == self.clsid(c) for c in self.prog.subclasses(root)]))
            return z3.Select(alive, z)

        def fa(v2, g2, z, pat):
            g = guard + g2
            body = z3.Implies(z3.And(*g), ok(z)) if len(g) > 1 else z3.Implies(g[0], ok(z)) if g else ok(z)
            return [z3.ForAll(vs + v2, body, patterns=[pat])] if vs + v2 else [body]
        s = val.sort()
        if key[0] == 'F' and self.field_ty(key[1], key[2]).k in ('seq', 'str'):
            t = self.field_ty(key[1], key[2])
            nn = val != (none_str if t.k == 'str' else SeqTheory.of_sort(s).none)
            if vs:
                nn = z3.ForAll(vs, z3.Implies(z3.And(*guard), nn), patterns=[val])
            out = [nn]
            th = SeqTheory.of_sort(s)
            if th is not None and th.elem == Ref:
                i = z3.Int('i_cl')
                out += fa([i], [0 <= i, i < th.len(val)], th.at(val, i), th.at(val, i))
            return out
        if s == Ref:
            return fa([], [], val, val)
        th = SeqTheory.of_sort(s)
        if key[0] == 'L':
            nn = val != th.none
            out = [z3.ForAll(vs, z3.Implies(z3.And(*guard), nn), patterns=[val]) if vs else nn]
            if th.elem == Ref:
                i = z3.Int('i_cl')
                out += fa([i], [0 <= i, i < th.len(val)], th.at(val, i), th.at(val, i))
            elif th.elem.kind() == z3.Z3_DATATYPE_SORT and th.elem.num_constructors() == 1:
                i = z3.Int('i_cl')
                for n in range(th.elem.constructor(0).arity()):
                    if th.elem.accessor(0, n).range() == Ref:
                        body = z3.Select(alive, th.elem.accessor(0, n)(th.at(val, i)))
                        out.append(z3.ForAll(vs + [i], z3.Implies(z3.And(*guard, 0 <= i, i < th.len(val)), body), patterns=[th.at(val, i)]))
            return out
        if th is not None and th.elem == Ref:
            i = z3.Int('i_cl')
            return fa([i], [0 <= i, i < th.len(val)], th.at(val, i), th.at(val, i))
        if key[0] == 'DV' and s.range() == Ref:
            x = z3.Const('x_cl', s.domain())
            # entries outside the domain are unconstrained in the model, so the same may be assumed of them
            return fa([x], [], z3.Select(val, x), z3.Select(val, x))
        if key[0] in ('S', 'DD') and s.domain() == Ref:
            x = z3.Const('x_cl', Ref)
            return fa([x], [z3.Select(val, x)], x, z3.Select(val, x))
        return []

    def hsort(self, key):
        k = key[0]
        if k == '$alive':
            return Bool
        if k == 'F':
            return sortof(self.field_ty(key[1], key[2]))
        if k == 'L':
            return SeqTheory._cache[key[1]].sort
        if k in ('S', 'DD'):
            return z3.ArraySort(self.sortname[key[1]], Bool)
        if k == 'DV':
            return z3.ArraySort(self.sortname[key[1]], self.sortname[key[2]])
        raise KeyError(key)

    sortname = {}

    def sn(self, s):
        k = str(s)
        self.sortname.setdefault(k, s)
        return k

    def hset(self, st, key, ref, val):
        st.heap[key] = z3.Store(self.h(st, key), ref, val)

    def hget(self, st, key, ref):
        a = self.h(st, key)
        # read-over-write simplification
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            if a.arg(1).eq(ref):
                return a.arg(2)
            if self.distinct_refs(a.arg(1), ref):
                a = a.arg(0)
                continue
            break
        return z3.Select(a, ref)

    def distinct_refs(self, a, b):
        if a.eq(b):
            return False
        na, nb = self.newrefs or {}, self.newrefs or {}
        fa, fb = a.get_id() in na, b.get_id() in nb
        if fa and fb:
            return True
        if fa:
            return self.vbirth(b) < self.born[a.get_id()]
        if fb:
            return self.vbirth(a) < self.born[b.get_id()]
        return False

    newrefs = None
    abstract = {}

    def vbirth(self, t):
        """an upper bound on the creation number of any object the value t is or contains: what is read from a
        version of the heap existed when that version did"""
        k = -t.get_id() - 1
        r = self.birthc.get(k)
        if r is not None:
            return r[1]
        b = None
        if z3.is_app(t) and t.num_args():
            kind = t.decl().kind()
            if kind == z3.Z3_OP_SELECT:
                # a cell that is dead in this version may already hold what its future owner holds
                b = max(self.vbirth(t.arg(0)), self.vbirth(t.arg(1)) if t.arg(1).sort() == Ref else 0)
            elif kind == z3.Z3_OP_STORE:
                b = max(self.vbirth(t.arg(0)), self.vbirth(t.arg(2)), self.vbirth(t.arg(1)) if t.arg(1).sort() == Ref else 0)
            elif kind == z3.Z3_OP_ITE:
                b = max(self.vbirth(t.arg(1)), self.vbirth(t.arg(2)))
            elif kind in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR):
                b = max(self.vbirth(c) for c in t.children())
            elif kind == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if SeqTheory.of_sort(t.arg(0).sort()) is not None and n.split('_')[0] in ('at', 'take', 'drop', 'setof'):
                    b = self.vbirth(t.arg(0))
                elif n.split('_')[0] in ('cat', 'unit', 'upd') and SeqTheory.of_sort(t.sort()) is not None:
                    b = max(self.vbirth(c) for c in t.children())
            elif t.sort() in (Int, Bool):
                b = 0
        if b is None:
            b = 0 if t.sort() in (Int, Bool, Str) else self.birth(t)
        self.birthc[k] = (t, b)
        return b

    def birth(self, t):
        """creation number of the youngest symbol in t (a reference built from older symbols only cannot be
        an object allocated later)"""
        r = self.birthc.get(t.get_id())
        if r is not None:
            return r[1]
        if z3.is_quantifier(t):
            b = self.birth(t.body())
        elif z3.is_app(t):
            b = self.born.get(t.get_id() if t.num_args() == 0 else t.decl().get_id(), 0)
            if b == 0 and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.get_id() not in self.born:
                n = t.decl().name()
                if not (n.startswith('H0_') or n.startswith('lit') or n.startswith('none_') or n.startswith('empty_') or n == 'null'):
                    b = 1 << 60          # a bound variable: it may stand for anything
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                b = max(b, self.bornf.get(t.decl().get_id(), 0))
            for c in t.children():
                b = max(b, self.birth(c))
        else:
            b = 0
        self.birthc[t.get_id()] = (t, b)
        return b

    def alive(self, st, r):
        return z3.Select(self.h(st, ('$alive',)), r)

    def alloc(self, st, name, clsname=None):
        r = self.fresh('new_' + name, Ref)
        if self.newrefs is None:
            self.newrefs = {}
        self.newrefs[r.get_id()] = r
        st.fact(z3.Not(self.alive(st, r)))
        st.fact(r != null)
        self.hset(st, ('$alive',), r, z3.BoolVal(True))
        if clsname:
            st.fact(typeof(r) == self.clsid(clsname))
        return r

    # ---- fields ----
    def field_owner(self, cls, f):
        for n in self.prog.mro(cls):
            if f in self.fieldtab.get(n, ()):
                return n
        for n in self.prog.subclasses(cls):
            for m in self.prog.mro(n):
                if f in self.fieldtab.get(m, ()):
                    return m
        return None

    def field_ty(self, owner, f):
        return ty(self.fieldtab[owner][f])

    # ---- well-typedness facts ----
    def wf(self, st, z, t):
        k = t.k
        if k == 'obj':
            fs = [z != null, self.alive(st, z)]
            if t.a[0] in self.prog.classes:
                subs = self.prog.subclasses(t.a[0])
                fs.append(z3.Or(*[typeof(z) == self.clsid(c) for c in subs]))
            return z3.And(*fs)
        if k in ('list', 'dict', 'set'):
            return z3.And(z != null, self.alive(st, z))
        if k == 'str':
            return z != none_str
        if k == 'seq':
            return z != SeqTheory.of(sortof(t.a[0])).none
        if k == 'opt':
            inner = self.wf(st, unopt_z(t, z), t.a[0])
            if z3.is_true(inner):
                return inner
            if t.a[0].k in ('str', 'seq'):
                return z3.BoolVal(True)
            return z3.Or(is_none_z(t, z), inner)
        if k == 'tup':
            _, _, acc = tup_dt(tuple(sortof(x) for x in t.a))
            return z3.And(*[self.wf(st, acc[i](z), x) for i, x in enumerate(t.a)]) if t.a else z3.BoolVal(True)
        return z3.BoolVal(True)

    def typed(self, st, z, t):
        """a value read from the heap / a container / a contract: assume its declared type"""
        if st is not None:
            st.fact(z3.simplify(self.wf(st, z, t)) if t.k in ('int', 'bool', 'any') else self.wf(st, z, t))
        return self.unz(z, t)

    def unz(self, z, t):
        if t.k == 'tup':
            _, _, acc = tup_dt(tuple(sortof(x) for x in t.a))
            if z3.is_app(z) and z.decl().eq(tup_dt(tuple(sortof(x) for x in t.a))[1]):
                return V(t, [self.unz(z.arg(i), x) for i, x in enumerate(t.a)])
            return V(t, [self.unz(acc[i](z), x) for i, x in enumerate(t.a)])
        if t.k == 'none':
            return NONEV
        return V(t, z)

    # ---- coercion ----
    def toz(self, v, t):
        """z3 term of value v at type t"""
        s = v.ty
        if s == t:
            if t.k == 'tup':
                mk = tup_dt(tuple(sortof(x) for x in t.a))[1]
                return mk(*[self.toz(e, x) for e, x in zip(v.z, t.a)])
            if t.k == 'none':
                return none_u
            return v.z
        if t.k == 'opt':
            if s.k == 'none':
                return none_z(t)
            if s.k == 'opt':
                if sortof(s) == sortof(t):
                    return v.z
                raise Unsupported('opt coercion %r->%r' % (s, t))
            return some_z(t, self.toz(v, t.a[0]))
        if t.k == 'any':
            if s.k == 'none':
                return none_u
            if s.k in ('func', 'class', 'bound', 'builtin', 'module', 'iter', 'rec', 'ext', 'super', 'undef'):
                raise Unsupported('cannot inject %s into any' % s.k)
            if s.k == 'tup':
                zs = [self.toz(e, ANY) for e in v.z]
                return self.ufn('injtup%d' % len(zs), *([U] * len(zs) + [U]))(*zs)
            zz = v.z
            inj = self.ufn('inj', zz.sort(), U)
            return inj(zz)
        if t.k == 'obj' and s.k == 'obj':
            return v.z
        if t.k == 'obj' and s.k == 'opt' and s.a[0].k == 'obj':
            return v.z
        if t.k == 'int' and s.k == 'bool':
            return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        if t.k == 'seq' and s.k == 'tup':
            th = SeqTheory.of(sortof(t.a[0]))
            return th.lst([self.toz(e, t.a[0]) for e in v.z])
        if t.k == 'seq' and s.k == 'seq' and sortof(t) == sortof(s):
            return v.z
        if t.k == 'tup' and s.k == 'tup' and len(t.a) == len(s.a):
            mk = tup_dt(tuple(sortof(x) for x in t.a))[1]
            return mk(*[self.toz(e, x) for e, x in zip(v.z, t.a)])
        if t.k in ('list', 'dict', 'set') and s.k == t.k:
            if s.a and s.a[0].k == '?':
                self.resolve(s.a[0], t.a)
            if self.same_store(s.a, t.a):
                return v.z
            if v.x and 'site' in v.x:
                self.widen(v.x['site'], t.a)
        if s.k == 'opt' and t.k == s.a[0].k and sortof(t) == sortof(s.a[0]):
            return unopt_z(s, v.z)          # caller has excluded None
        if t.k == 'fset' and s.k == 'fset' and sortof(s) == sortof(t):
            return v.z
        if s.k == 'any':
            raise Unsupported('opaque value used as %r' % t)
        raise Unsupported('coercion %r -> %r' % (s, t))

    def conv(self, v, t):
        return self.unz(self.toz(v, t), t)

    def resolve(self, hole, tys):
        site = hole.a[0]
        self.widen(site, tys)

    def widen(self, site, tys):
        old = self.sites.get(site)
        tys = tuple(tys)
        if any(t.k == '?' for t in tys):
            raise Unsupported('untyped element')
        if any(self.has_hole(t) for t in tys):
            raise Unsupported('untyped nested element')
        new = tys if old is None else tuple(self.join(a, b) for a, b in zip(old, tys))
        if new == old:
            raise Unsupported('cannot widen site %r' % (site,))
        self.sites[site] = new
        raise Restart()

    def has_hole(self, t):
        return t.k == '?' or any(self.has_hole(x) for x in t.a if isinstance(x, Ty))

    def join(self, a, b):
        if a == b:
            return a
        if a.k == 'none':
            return b if b.k == 'opt' else Ty('opt', b)
        if b.k == 'none':
            return a if a.k == 'opt' else Ty('opt', a)
        if a.k == 'opt' or b.k == 'opt':
            x = self.join(a.a[0] if a.k == 'opt' else a, b.a[0] if b.k == 'opt' else b)
            return x if x.k in ('any',) else Ty('opt', x)
        if a.k == 'obj' and b.k == 'obj':
            mb = self.prog.mro(b.a[0])
            for n in self.prog.mro(a.a[0]):
                if n in mb:
                    return Ty('obj', n)
            return ANY
        if {a.k, b.k} == {'int', 'bool'}:
            return INT
        if a.k == 'tup' and b.k == 'tup' and len(a.a) == len(b.a):
            return Ty('tup', *[self.join(x, y) for x, y in zip(a.a, b.a)])
        for x, y in ((a, b), (b, a)):
            if x.k == 'seq' and y.k == 'tup':
                e = x.a[0]
                for q in y.a:
                    e = self.join(e, q)
                return Ty('seq', e)
        if a.k == 'tup' and b.k == 'tup':
            e = None
            for q in a.a + b.a:
                e = q if e is None else self.join(e, q)
            return Ty('seq', e) if e is not None else ANY
        if a.k in ('list', 'set', 'dict') and a.k == b.k:
            if a.a[0].k == '?':
                return b
            if b.a[0].k == '?':
                return a
        return ANY

    # ---- containers ----
    def root(self, t):
        """containers whose elements have unrelated classes are different objects, so they live in different parts of the heap"""
        if t.k == 'opt':
            r = self.root(t.a[0])
            return r and '?' + r
        if t.k == 'obj':
            own = [n for n in self.prog.mro(t.a[0]) if n in self.prog.classes]
            return (own or [t.a[0]])[-1]
        if t.k in ('list', 'set'):
            return '%s.%s' % (t.k, self.root(t.a[0])) if t.a[0].k != '?' else t.k
        if t.k == 'dict':
            return 'dict.%s.%s' % (self.root(t.a[0]), self.root(t.a[1])) if t.a[0].k != '?' else t.k
        return t.k if sortof(t) == Ref else ''

    def lkey(self, t):
        th = SeqTheory.of(sortof(t.a[0]))
        for k, v in SeqTheory._cache.items():
            if v is th:
                return ('L', k, self.root(t.a[0]))

    def same_store(self, s, t):
        return all(sortof(x) == sortof(y) and self.root(x) == self.root(y) for x, y in zip(s, t))

    def elem_ty(self, v):
        return v.ty.a[0]

    def content(self, st, v):
        """z3 Seq with the current content of a list / immutable sequence"""
        t = v.ty
        if t.k == 'seq':
            return v.z, SeqTheory.of(sortof(t.a[0])), t.a[0]
        if t.k == 'list':
            if t.a[0].k == '?':
                return None, None, None
            th = SeqTheory.of(sortof(t.a[0]))
            c = self.hget(st, self.lkey(t), v.z)
            return c, th, t.a[0]
        if t.k == 'tup':
            if not t.a:
                return None, None, None
            e = t.a[0]
            for q in t.a[1:]:
                e = self.join(e, q)
            th = SeqTheory.of(sortof(e))
            return th.lst([self.toz(x, e) for x in v.z]), th, e
        if t.k == 'sset':
            return v.z, SeqTheory.of(sortof(t.a[0])), t.a[0]
        raise Unsupported('content of %r' % t)

    def setkey(self, t):
        return ('S', self.sn(sortof(t.a[0])), self.root(t.a[0]))

    def dkeys(self, t):
        k, v = sortof(t.a[0]), sortof(t.a[1])
        r = self.root(t.a[0]), self.root(t.a[1])
        return ('DD', self.sn(k), self.sn(v)) + r, ('DV', self.sn(k), self.sn(v)) + r

    def setz(self, st, v):
        t = v.ty
        if t.k == 'fset':
            return v.z
        if t.k == 'set':
            return self.hget(st, self.setkey(t), v.z)
        if t.k == 'dict':
            return self.hget(st, self.dkeys(t)[0], v.z)
        raise Unsupported('set value of %r' % t)
