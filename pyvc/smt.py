"""Sorts, sequence theory and types for the verification-condition generator."""
import z3

_mp = z3.MultiPattern


def _multipattern(*ts):
    """z3py drops its references to the terms before it builds the pattern: hold on to them"""
    keep = list(ts)
    r = _mp(*ts)
    r._keep = keep
    return r


z3.MultiPattern = _multipattern

Int, Bool = z3.IntSort(), z3.BoolSort()
Ref = z3.DeclareSort('Ref')
Str = z3.DeclareSort('Str')
U = z3.DeclareSort('U')          # opaque values
null = z3.Const('null', Ref)
none_str = z3.Const('none_str', Str)
none_u = z3.Const('none_u', U)

_AX = {}          # name -> list of axioms (global background theory)


def axiom(group, *fs):
    _AX.setdefault(group, []).extend(fs)


def all_axioms():
    out = []
    for g in _AX.values():
        out.extend(g)
    return out


class SeqTheory:
    _cache = {}

    @classmethod
    def of(cls, elem):
        key = elem.name() if not isinstance(elem, z3.ArraySortRef) else str(elem)
        if key not in cls._cache:
            cls._cache[key] = SeqTheory(elem, key)
        return cls._cache[key]

    @classmethod
    def of_sort(cls, sort):
        for t in cls._cache.values():
            if t.sort == sort:
                return t
        return None

    def __init__(self, elem, nm):
        nm = ''.join(ch if ch.isalnum() else '_' for ch in nm)
        self.elem = elem
        S = self.sort = z3.DeclareSort('Seq_' + nm)
        F = lambda n, *a: z3.Function('%s_%s' % (n, nm), *a)
        self.len = F('len', S, Int)
        self.at = F('at', S, Int, elem)
        self.unit = F('unit', elem, S)
        self.cat = F('cat', S, S, S)
        self.take = F('take', S, Int, S)
        self.drop = F('drop', S, Int, S)
        self.upd = F('upd', S, Int, elem, S)
        self.eq = F('eqs', S, S, Bool)
        self.has = F('has', S, elem, Bool)
        self.idx = F('idxof', S, elem, Int)
        self.setof = F('setof', S, z3.ArraySort(elem, Bool))
        self.distinct = F('dist', S, Bool)
        self.empty = z3.Const('empty_' + nm, S)
        self.none = z3.Const('none_Seq_' + nm, S)
        s, t, a, b = z3.Consts('s t a b', S)
        i, j, n, m = z3.Ints('i j n m')
        v = z3.Const('v', elem)
        L, at = self.len, self.at
        A = []

        def fa(vs, body, *pats):
            A.append(z3.ForAll(vs, body, patterns=list(pats)))
        fa([s], z3.Or(L(s) >= 0, s == self.none), L(s))
        A.append(L(self.none) == -1)
        A.append(L(self.empty) == 0)
        fa([s], z3.Implies(L(s) == 0, s == self.empty), L(s))
        fa([v], z3.And(L(self.unit(v)) == 1, at(self.unit(v), 0) == v, self.unit(v) != self.none),
           self.unit(v))
        fa([s], z3.Implies(L(s) == 1, s == self.unit(at(s, 0))), at(s, 0))
        fa([a, b], z3.Implies(z3.And(a != self.none, b != self.none), z3.And(L(self.cat(a, b)) == L(a) + L(b), self.cat(a, b) != self.none)), self.cat(a, b))
        fa([a, v], z3.Implies(a != self.none, at(self.cat(a, self.unit(v)), L(a)) == v), self.cat(a, self.unit(v)))
        fa([a, b, i], z3.Implies(z3.And(0 <= i, i < L(a)), at(self.cat(a, b), i) == at(a, i)),
           at(self.cat(a, b), i))
        fa([a, b, i], z3.Implies(z3.And(0 <= i, i < L(a)), at(self.cat(a, b), i) == at(a, i)),
           z3.MultiPattern(at(a, i), self.cat(a, b)))
        fa([a, b, i], z3.Implies(z3.And(L(a) <= i, i < L(a) + L(b)),
                                 at(self.cat(a, b), i) == at(b, i - L(a))),
           at(self.cat(a, b), i))
        fa([a, b, i], z3.Implies(z3.And(0 <= i, i < L(b)),
                                 at(self.cat(a, b), i + L(a)) == at(b, i)),
           z3.MultiPattern(at(b, i), self.cat(a, b)))
        fa([s, n], z3.Implies(z3.And(0 <= n, n <= L(s)),
                              z3.And(L(self.take(s, n)) == n, self.take(s, n) != self.none)), self.take(s, n))
        fa([s, n, i], z3.Implies(z3.And(0 <= i, i < n, n <= L(s)), at(self.take(s, n), i) == at(s, i)),
           at(self.take(s, n), i))
        fa([s, n, i], z3.Implies(z3.And(0 <= i, i < n, n <= L(s)), at(self.take(s, n), i) == at(s, i)),
           z3.MultiPattern(at(s, i), self.take(s, n)))
        fa([s, n], z3.Implies(z3.And(0 <= n, n <= L(s)),
                              z3.And(L(self.drop(s, n)) == L(s) - n, self.drop(s, n) != self.none)),
           self.drop(s, n))
        fa([s, n, i], z3.Implies(z3.And(0 <= n, 0 <= i, i < L(s) - n), at(self.drop(s, n), i) == at(s, i + n)),
           at(self.drop(s, n), i))
        fa([s, n, i], z3.Implies(z3.And(0 <= n, n <= i, i < L(s)), at(self.drop(s, n), i - n) == at(s, i)),
           z3.MultiPattern(at(s, i), self.drop(s, n)))
        fa([s, n], z3.Implies(z3.And(n == L(s), s != self.none), self.take(s, n) == s), self.take(s, n))
        fa([s, n], z3.Implies(z3.And(n == 0, s != self.none), self.drop(s, n) == s), self.drop(s, n))
        fa([a, b, n], z3.Implies(z3.And(0 <= n, n <= L(a), a != self.none, b != self.none), self.take(self.cat(a, b), n) == self.take(a, n)),
           self.take(self.cat(a, b), n))
        fa([a, b, n], z3.Implies(z3.And(L(a) <= n, n <= L(a) + L(b), a != self.none, b != self.none), self.drop(self.cat(a, b), n) == self.drop(b, n - L(a))),
           self.drop(self.cat(a, b), n))
        fa([s, n, m], z3.Implies(z3.And(0 <= m, m <= n, n <= L(s)), self.take(self.take(s, n), m) == self.take(s, m)),
           self.take(self.take(s, n), m))
        fa([s, n, m], z3.Implies(z3.And(0 <= n, 0 <= m, n + m <= L(s)),
                                 self.drop(self.drop(s, n), m) == self.drop(s, n + m)),
           self.drop(self.drop(s, n), m))
        fa([s, n], z3.Implies(z3.And(0 <= n, n <= L(s), s != self.none),
                              self.cat(self.take(s, n), self.drop(s, n)) == s),
           z3.MultiPattern(self.take(s, n), self.drop(s, n)))
        fa([a, b], z3.Implies(L(b) == 0, z3.Implies(a != self.none, self.cat(a, b) == a)), self.cat(a, b))
        fa([a, b], z3.Implies(L(a) == 0, z3.Implies(b != self.none, self.cat(a, b) == b)), self.cat(a, b))
        fa([a, b, s], self.cat(self.cat(a, b), s) == self.cat(a, self.cat(b, s)), self.cat(self.cat(a, b), s))
        fa([s, n, v], z3.Implies(z3.And(0 <= n, n < L(s)),
                                 z3.And(L(self.upd(s, n, v)) == L(s), self.upd(s, n, v) != self.none)),
           self.upd(s, n, v))
        fa([s, n, v, i], z3.Implies(z3.And(0 <= n, n < L(s), 0 <= i, i < L(s)),
                                    at(self.upd(s, n, v), i) == z3.If(i == n, v, at(s, i))),
           at(self.upd(s, n, v), i))
        # extensionality
        fa([a, b], self.eq(a, b) == (a == b), self.eq(a, b))
        d = F('diff', S, S, Int)
        fa([a, b], z3.Or(self.eq(a, b), L(a) != L(b),
                         z3.And(0 <= d(a, b), d(a, b) < L(a), at(a, d(a, b)) != at(b, d(a, b)))), self.eq(a, b))
        # membership
        fa([s, v], z3.Implies(self.has(s, v), z3.And(0 <= self.idx(s, v), self.idx(s, v) < L(s),
                                                     at(s, self.idx(s, v)) == v)), self.has(s, v))
        fa([s, i], z3.Implies(z3.And(0 <= i, i < L(s)), self.has(s, at(s, i))), at(s, i))
        fa([a, b, v], z3.Implies(z3.And(a != self.none, b != self.none), self.has(self.cat(a, b), v) == z3.Or(self.has(a, v), self.has(b, v))), self.has(self.cat(a, b), v))
        fa([s, v], z3.Select(self.setof(s), v) == self.has(s, v), z3.Select(self.setof(s), v))
        fa([s, v], z3.Select(self.setof(s), v) == self.has(s, v),
           z3.MultiPattern(self.setof(s), self.has(s, v)))
        # distinctness
        fa([s, i, j], z3.Implies(z3.And(self.distinct(s), 0 <= i, i < j, j < L(s)), at(s, i) != at(s, j)),
           z3.MultiPattern(self.distinct(s), at(s, i), at(s, j)))
        d1, d2 = F('dup1', S, Int), F('dup2', S, Int)
        fa([s], z3.Or(self.distinct(s), z3.And(0 <= d1(s), d1(s) < d2(s), d2(s) < L(s),
                                               at(s, d1(s)) == at(s, d2(s)))), self.distinct(s))
        axiom('seq_' + nm, *A)
        # cardinality of the set of members
        self.card = card_of(elem)
        axiom('seq_' + nm,
              z3.ForAll([s], z3.And(z3.Or(s == self.none, self.card(self.setof(s)) <= L(s)),
                                    z3.Or(s == self.none, (self.card(self.setof(s)) == L(s)) == self.distinct(s)),
                                    z3.Or(s == self.none, (self.card(self.setof(s)) == 0) == (L(s) == 0))),
                        patterns=[self.setof(s)]))
        self.count = F('count', S, elem, Int)
        axiom('seq_' + nm,
              z3.ForAll([s, v], z3.And(self.count(s, v) >= 0, (self.count(s, v) > 0) == self.has(s, v)),
                        patterns=[self.count(s, v)]),
              z3.ForAll([s, i, j], z3.Implies(z3.And(0 <= i, i < j, j < L(s), at(s, i) == at(s, j)),
                                              self.count(s, at(s, i)) > 1),
                        patterns=[z3.MultiPattern(at(s, i), at(s, j))]) if False else z3.BoolVal(True),
              z3.ForAll([s, v], z3.Implies(self.count(s, v) > 1,
                                           z3.Not(self.distinct(s))), patterns=[self.count(s, v)]),
              z3.ForAll([s], z3.Or(self.distinct(s), self.count(s, at(s, d1(s))) > 1),
                        patterns=[self.distinct(s)]))
        # ordering (total order on sequences as used by sorted/min/max)
        self.le = F('le', S, S, Bool)
        axiom('seq_' + nm,
              z3.ForAll([a, b], z3.Or(self.le(a, b), self.le(b, a)), patterns=[self.le(a, b)]),
              z3.ForAll([a, b], z3.Implies(z3.And(self.le(a, b), self.le(b, a)), a == b),
                        patterns=[z3.MultiPattern(self.le(a, b), self.le(b, a))]),
              z3.ForAll([a, b, s], z3.Implies(z3.And(self.le(a, b), self.le(b, s)), self.le(a, s)),
                        patterns=[z3.MultiPattern(self.le(a, b), self.le(b, s))]))

    def lst(self, xs):
        if not xs:
            return self.empty
        r = self.unit(xs[-1])
        for x in reversed(xs[:-1]):
            r = self.cat(self.unit(x), r)
        return r

    def concat(self, a, b):
        if z3.is_app(a) and a.decl() == self.cat:      # keep right-nested
            return self.concat(a.arg(0), self.concat(a.arg(1), b))
        if a.eq(self.empty):
            return b
        if b.eq(self.empty):
            return a
        return self.cat(a, b)


PRED_HEAPS = {}       # predicate -> number of its heap arguments
_card = {}


def card_of(elem):
    k = str(elem)
    if k not in _card:
        A = z3.ArraySort(elem, Bool)
        f = z3.Function('card_' + ''.join(c if c.isalnum() else '_' for c in k), A, Int)
        _card[k] = f
        x = z3.Const('x', A)
        e = z3.Const('e', elem)
        w = z3.Function('cardw_' + ''.join(c if c.isalnum() else '_' for c in k), A, elem)
        axiom('card_' + k,
              z3.ForAll([x], z3.And(f(x) >= 0, z3.Implies(f(x) > 0, z3.Select(x, w(x)))), patterns=[f(x)]),
              z3.ForAll([x, e], z3.Implies(z3.Select(x, e), f(x) > 0),
                        patterns=[z3.MultiPattern(f(x), z3.Select(x, e))]))
    return _card[k]


# ---- strings -------------------------------------------------------------------------------
str_lits = {}
empty_str = z3.Const('lit_empty', Str)
str_lits[''] = empty_str
strcat = z3.Function('strcat', Str, Str, Str)
strsuf = z3.Function('strsuf', Str, Str, Str)   # inverse of strcat in its second argument
strlen = z3.Function('strlen', Str, Int)
strin = z3.Function('strin', Str, Str, Bool)    # needle, haystack
strprefix = z3.Function('strprefix', Str, Str, Bool)  # prefix, string
int2str = z3.Function('int2str', Int, Str)
str2int = z3.Function('str2int', Str, Int)
str_le = z3.Function('str_le', Str, Str, Bool)
is_intstr = z3.Function('is_intstr', Str, Bool)
_a, _b, _c = z3.Consts('sa sb sc', Str)
_i = z3.Int('si')
axiom('str',
      strlen(empty_str) == 0,
      z3.ForAll([_a], z3.And(strlen(_a) >= 0, z3.Implies(strlen(_a) == 0, z3.Or(_a == empty_str, _a == none_str))),
                patterns=[strlen(_a)]),
      z3.ForAll([_a, _b], z3.And(strsuf(_a, strcat(_a, _b)) == _b, strprefix(_a, strcat(_a, _b)),
                                 strcat(_a, _b) != none_str,
                                 z3.Implies(z3.And(_a == empty_str, _b != none_str), strcat(_a, _b) == _b),
                                 z3.Implies(z3.And(_b == empty_str, _a != none_str), strcat(_a, _b) == _a), strlen(strcat(_a, _b)) == strlen(_a) + strlen(_b)),
                patterns=[strcat(_a, _b)]),
      z3.ForAll([_a, _b], z3.Implies(strprefix(_a, _b), strcat(_a, strsuf(_a, _b)) == _b),
                patterns=[strprefix(_a, _b)]),
      z3.ForAll([_i], z3.And(str2int(int2str(_i)) == _i, is_intstr(int2str(_i)), int2str(_i) != none_str,
                             int2str(_i) != empty_str),
                patterns=[int2str(_i)]),
      z3.ForAll([_a, _b], z3.Or(str_le(_a, _b), str_le(_b, _a)), patterns=[str_le(_a, _b)]),
      z3.ForAll([_a, _b], z3.Implies(z3.And(str_le(_a, _b), str_le(_b, _a)), _a == _b),
                patterns=[z3.MultiPattern(str_le(_a, _b), str_le(_b, _a))]),
      z3.ForAll([_a, _b, _c], z3.Implies(z3.And(str_le(_a, _b), str_le(_b, _c)), str_le(_a, _c)),
                patterns=[z3.MultiPattern(str_le(_a, _b), str_le(_b, _c))]))


def lit(s):
    if s not in str_lits:
        str_lits[s] = z3.Const('lit%d_%s' % (len(str_lits), ''.join(c if c.isalnum() else '_' for c in s[:20])), Str)
    return str_lits[s]


def lit_axioms():
    cs = list(str_lits.values()) + [none_str]
    out = [z3.Distinct(*cs)] if len(cs) > 1 else []
    for k, v in str_lits.items():
        out.append(strlen(v) == len(k))
    ps = sorted(k for k in prefix_lits if k)
    for i, k in enumerate(ps):
        for m in ps[i + 1:]:
            if not k.startswith(m) and not m.startswith(k):
                a, b = str_lits[k], str_lits[m]
                out.append(z3.ForAll([_a, _b], strcat(a, _a) != strcat(b, _b), patterns=[z3.MultiPattern(strcat(a, _a), strcat(b, _b))]))
        out.append(z3.ForAll([_a], strcat(str_lits[k], _a) != empty_str, patterns=[strcat(str_lits[k], _a)]))
    return out


prefix_lits = set()   # literals something is appended to
enum_name = z3.Function('enum_name', Int, Str)


# ---- types ---------------------------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return self.k + ('[%s]' % ','.join(map(repr, self.a)) if self.a else '')


def ty(s):
    if isinstance(s, Ty):
        return s
    s = s.replace(' ', '')
    r, p = _pty(s, 0)
    assert p == len(s), s
    return r


def _pty(s, p):
    q = p
    while q < len(s) and s[q] not in '[],':
        q += 1
    name = s[p:q]
    args = []
    if q < len(s) and s[q] == '[':
        q += 1
        while True:
            a, q = _pty(s, q)
            args.append(a)
            if s[q] == ',':
                q += 1
                continue
            assert s[q] == ']'
            q += 1
            break
    if name == 'cps':
        return Ty('seq', Ty('int')), q
    if name in ('int', 'bool', 'str', 'none', 'any', 'seq', 'list', 'dict', 'set', 'fset', 'opt', 'tup', 'range'):
        return Ty(name, *args), q
    return Ty('obj', name), q


INT, BOOL, STR, NONE, ANY = Ty('int'), Ty('bool'), Ty('str'), Ty('none'), Ty('any')
CPS = Ty('seq', INT)

_tups = {}
_opts = {}


def sortof(t):
    k = t.k
    if k == 'int':
        return Int
    if k == 'bool':
        return Bool
    if k == 'str':
        return Str
    if k in ('any', 'none'):
        return U
    if k == 'seq':
        return SeqTheory.of(sortof(t.a[0])).sort
    if k in ('list', 'dict', 'set', 'obj'):
        return Ref
    if k == 'fset':
        return z3.ArraySort(sortof(t.a[0]), Bool)
    if k == 'opt':
        s = sortof(t.a[0])
        if s in (Ref, Str, U) or SeqTheory.of_sort(s) is not None:
            return s
        return opt_dt(s)[0]
    if k == 'tup':
        return tup_dt(tuple(sortof(x) for x in t.a))[0]
    raise TypeError('no sort for %r' % t)


def _nm(s):
    return ''.join(c if c.isalnum() else '_' for c in str(s))


def opt_dt(s):
    if str(s) not in _opts:
        d = z3.Datatype('Opt_' + _nm(s))
        d.declare('none')
        d.declare('some', ('val', s))
        d = d.create()
        _opts[str(s)] = (d, d.none, d.some, d.val)
    return _opts[str(s)]


def tup_dt(sorts):
    key = tuple(str(s) for s in sorts)
    if key not in _tups:
        n = 'Tup_' + '_'.join(_nm(s) for s in sorts)
        d, mk, acc = z3.TupleSort(n, list(sorts))
        _tups[key] = (d, mk, acc)
    return _tups[key]


def is_none_z(t, z):
    """z has type opt[X] (or any)."""
    if t.k == 'none':
        return z3.BoolVal(True)
    if t.k == 'any':
        return z == none_u
    if t.k != 'opt':
        return z3.BoolVal(False)
    s = z.sort()
    if s == Ref:
        return z == null
    if s == Str:
        return z == none_str
    if s == U:
        return z == none_u
    th = SeqTheory.of_sort(s)
    if th is not None:
        return z == th.none
    return z == opt_dt(sortof(t.a[0]))[1]


def none_z(t):
    assert t.k == 'opt', t
    s = sortof(t)
    if s == Ref:
        return null
    if s == Str:
        return none_str
    if s == U:
        return none_u
    th = SeqTheory.of_sort(s)
    if th is not None:
        return th.none
    return opt_dt(sortof(t.a[0]))[1]


def unopt_z(t, z):
    s = z.sort()
    if s in (Ref, Str, U) or SeqTheory.of_sort(s) is not None:
        return z
    return opt_dt(sortof(t.a[0]))[3](z)


def some_z(t, z):
    """inject z : X into opt[X]"""
    s = sortof(t)
    if s in (Ref, Str, U) or SeqTheory.of_sort(s) is not None:
        return z
    return opt_dt(sortof(t.a[0]))[2](z)
