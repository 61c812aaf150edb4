"""Loads the real source of the repository; nothing is copied or cached between runs."""
import ast
import os

REPO = os.environ.get('REPO', '/repo')


class Func:
    def __init__(self, mod, node, cls=None, closure=None):
        self.mod, self.node, self.cls, self.closure = mod, node, cls, closure
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self._gen = None

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def key(self):
        return self.mod.name + ':' + self.qual

    def is_generator(self):
        if self._gen is None:
            self._gen = _has_yield(self.node)
        return self._gen

    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, 'decorator_list', [])]


def _has_yield(node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = [ast.unparse(b).split('.')[-1] for b in node.bases]
        self.methods, self.attrs = {}, {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(mod, s, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.attrs[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self.nested = {x.name: Cls(mod, x) for x in node.body if isinstance(x, ast.ClassDef)}
        self.setters = {}
        # property setters share a name: keep the getter
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and any(ast.unparse(d).endswith('.setter') for d in s.decorator_list):
                self.setters[s.name] = Func(mod, s, self)
                for g in node.body:
                    if isinstance(g, ast.FunctionDef) and g.name == s.name and g is not s:
                        self.methods[s.name] = Func(mod, g, self)


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (s.module, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name, None)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.classes = {}
        base = os.path.join(self.repo, 'lgr')
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                    if n.endswith('.__init__'):
                        n = n[:-9]
                    m = Mod(n, p)
                    self.mods[n] = m
                    for c in m.classes.values():
                        self.classes.setdefault(c.name, c)
                        for n in c.nested.values():
                            self.classes.setdefault(n.name, n)

    def func(self, key):
        mod, q = key.split(':')
        m = self.mods.get(mod)
        if m is None:
            return None
        if '.' in q:
            c, f = q.split('.')
            c = m.classes.get(c)
            return c.methods.get(f) if c else None
        return m.funcs.get(q)

    # ---- class hierarchy ----
    def mro(self, name):
        out, todo = [], [name]
        while todo:
            n = todo.pop(0)
            if n in out:
                continue
            out.append(n)
            c = self.classes.get(n)
            if c:
                todo = c.bases + todo if len(c.bases) == 1 else todo + c.bases
        return out

    def subclasses(self, name):
        return [n for n in self.classes if name in self.mro(n)] or [name]

    def is_sub(self, a, b):
        if a == b:
            return True
        ms = self.mro(a)
        if b in ms:
            return True
        if b in ('Exception', 'BaseException'):
            return 'Exception' in ms or any(x in BUILTIN_EXC for x in ms)
        for m in ms:
            if m in BUILTIN_EXC and b in BUILTIN_EXC_SUP.get(m, ()):
                return True
        return False

    def method(self, cls, name):
        for n in self.mro(cls):
            c = self.classes.get(n)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def setter(self, cls, name):
        for n in self.mro(cls):
            c = self.classes.get(n)
            if c and name in c.setters:
                return c.setters[name]
        return None

    def super_method(self, cls, after, name):
        """next implementation of name after class `after` in the mro of cls"""
        ms = self.mro(cls)
        if after not in ms:
            ms = self.mro(after)
        i = ms.index(after)
        for n in ms[i + 1:]:
            c = self.classes.get(n)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def nested_class(self, cls, name):
        for n in self.mro(cls):
            c = self.classes.get(n)
            if c and name in c.nested and self.classes.get(name) is c.nested[name]:
                return name
        return None

    def class_attr(self, cls, name):
        for n in self.mro(cls):
            c = self.classes.get(n)
            if c and name in c.attrs:
                return c, c.attrs[name]
        return None


BUILTIN_EXC = {'Exception', 'BaseException', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'AttributeError',
               'LookupError', 'AssertionError', 'NotImplementedError', 'StopIteration', 'RuntimeError',
               'UnicodeEncodeError', 'UnicodeError', 'ZeroDivisionError', 'PICUException', 'error',
               'UnboundLocalError'}
BUILTIN_EXC_SUP = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',),
                   'UnicodeEncodeError': ('ValueError', 'UnicodeError'), 'NotImplementedError': ('RuntimeError',)}
