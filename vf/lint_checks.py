"""C05: every name, attribute and method the package refers to exists and takes the arguments it is given.

An own resolver over the syntax trees of all modules of the package: scopes, imports, class hierarchies, attributes assigned anywhere,
types of expressions as far as they can be told (sets of alternatives; anything else is unknown and never reported).  A reference is
reported only if it fails for every alternative.  Knowledge about libraries: Python's own modules by introspection of the running
interpreter, numpy and tables from spec/libapi.json."""
import ast
import builtins
import importlib
import inspect
import json
import os
import sys
import types
import warnings

from .check import HERE, REPO, Report

API = json.load(open(os.path.join(HERE, 'spec', 'libapi.json')))
LAZY = {'numpy': {'testing', 'f2py', 'typing', 'rec', 'char', 'core', 'strings', 'matlib', 'dtypes', 'polynomial', 'random', 'fft',
                  'ma', 'lib', 'linalg', 'ctypeslib', 'exceptions', 'emath'}}
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__',
                                 '__annotations__', '__class__', '__debug__'}
MAXALT = 12
ODD = {'antigravity', 'this', 'idlelib', 'turtle', 'tkinter', '__main__'}


def package_files():
    root = os.path.join(REPO, 'freesif')
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'test', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(d, f)


class Mod(object):
    def __init__(self, path):
        self.path = path
        rel = os.path.relpath(path, REPO)
        self.rel = rel
        parts = rel[:-3].split(os.sep)
        self.ispkg = parts[-1] == '__init__'
        if self.ispkg:
            parts = parts[:-1]
        self.name = '.'.join(parts)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(open(path, encoding='utf-8').read(), path)
        link(self.tree)
        self.open = False                                 # star import from elsewhere, exec, globals()[...] = ...
        self.imports = {}                                 # name -> ('mod', own) | ('lib', name) | ('from', module, name)
        self.defs = {}                                    # name -> list of nodes (FunctionDef, ClassDef) or expressions or None
        self.globals = set()

    def resolve_from(self, node):
        if not node.level:
            return node.module
        parts = self.name.split('.')
        if not self.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.key = (mod.name, node.name)
        self.bases = []                                   # Cls
        self.pybases = []                                 # python types
        self.subs = []
        self.open = bool(node.decorator_list) or bool(node.keywords)
        self.members = {}                                 # name -> list of nodes
        self.attrs = {}                                   # instance attribute -> list of value expressions or None, with the function
        for st in class_statements(node):
            for n, v in bound_names(st):
                self.members.setdefault(n, []).append(v)
        if any(n in self.members for n in ('__getattr__', '__getattribute__', '__slots__', '__new__')):
            self.open = True

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def family(self):
        """all classes below this one, itself included"""
        out = [self]
        for s in self.subs:
            for c in s.family():
                if c not in out:
                    out.append(c)
        return out

    def isopen(self):
        return any(c.open for c in self.mro())

    def lookup(self, name):
        """the member found on an instance's class: (class, nodes) or None"""
        for c in self.mro():
            if name in c.members:
                return c, c.members[name]
        return None

    def allpy(self):
        out = [object]
        for c in self.mro():
            out += c.pybases
        return out


def class_statements(node):
    """statements of a class or module body, those nested in if/for/try/with included"""
    todo = list(node.body)
    while todo:
        st = todo.pop(0)
        yield st
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo += getattr(st, f, [])
        for h in getattr(st, 'handlers', []):
            if h.name:
                pass
            todo += h.body
        for c in getattr(st, 'cases', []):
            todo += c.body


def target_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n


def bound_names(st):
    """(name, value) pairs a statement binds directly; value None if not a plain assignment"""
    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        yield st.name, st
    elif isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                yield t.id, st.value
            else:
                for n in target_names(t):
                    yield n.id, None
    elif isinstance(st, ast.AnnAssign):
        if isinstance(st.target, ast.Name) and st.value is not None:
            yield st.target.id, st.value
    elif isinstance(st, ast.AugAssign):
        if isinstance(st.target, ast.Name):
            yield st.target.id, None
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        for n in target_names(st.target):
            yield n.id, None
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        for it in st.items:
            if it.optional_vars is not None:
                for n in target_names(it.optional_vars):
                    yield n.id, None
    elif isinstance(st, (ast.Import, ast.ImportFrom)):
        for a in st.names:
            if a.name != '*':
                yield (a.asname or a.name.split('.')[0]), st
    elif isinstance(st, ast.Try):
        for h in st.handlers:
            if h.name:
                yield h.name, None
    for e in ast.iter_child_nodes(st):                    # walrus
        if isinstance(e, ast.expr):
            for n in ast.walk(e):
                if isinstance(n, ast.NamedExpr):
                    yield n.target.id, None


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope(object):
    """a function, lambda or comprehension"""

    def __init__(self, node, parent, mod, cls, qual):
        self.node, self.parent, self.mod, self.cls, self.qual = node, parent, mod, cls, qual
        self.names = {}                                   # local name -> list of values (expr or None)
        self.globs = set()
        self.params = {}
        self.open = False
        if isinstance(node, FUNC):
            a = node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                self.names.setdefault(p.arg, []).append(('param',))
                self.params[p.arg] = p
            body = node.body if isinstance(node.body, list) else []
            for st in class_statements(ast.Module(body=body, type_ignores=[])):
                if isinstance(st, (ast.Global, ast.Nonlocal)):
                    self.globs |= set(st.names)
                for n, v in bound_names(st):
                    self.names.setdefault(n, []).append(v)
                if isinstance(st, ast.Delete):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            self.names.setdefault(t.id, [])
            for n in self.globs:
                self.names.pop(n, None)
        else:
            for g in node.generators:
                for n in target_names(g.target):
                    self.names.setdefault(n.id, []).append(None)

    @property
    def selfname(self):
        """name of the instance parameter, if this is a method"""
        if self.cls is None or not isinstance(self.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        kinds = decorators(self.node)
        if kinds & {'staticmethod'}:
            return None
        a = self.node.args.posonlyargs + self.node.args.args
        if not a:
            return None
        if len(self.names.get(a[0].arg, [])) != 1:        # rebound
            return None
        return a[0].arg

    def isclassmethod(self):
        return 'classmethod' in decorators(self.node)


def decorators(fn):
    out = set()
    for d in getattr(fn, 'decorator_list', []):
        out.add(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?')
    return out


PLAIN = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'setter', 'deleter', 'getter', 'cached_property'}


class World(object):
    def __init__(self):
        self.mods = {}
        for p in package_files():
            m = Mod(p)
            self.mods[m.name] = m
        self.classes = {}
        self.foreign = set()                              # attributes assigned on objects of unknown class
        self.exports = {}
        self.memo = {}
        self.busy = set()
        for m in self.mods.values():
            self.scan(m)
        for c in self.classes.values():
            for b in c.node.bases:
                t = self.static(c.mod, b)
                if t is None:
                    c.open = True
                elif t[0] == 'cls':
                    c.bases.append(t[1])
                    t[1].subs.append(c)
                elif t[0] == 'pytype':
                    c.pybases.append(t[1])
                else:
                    c.open = True
        self.scopes = []
        for m in self.mods.values():
            self.collect(m)
        for s in self.scopes:
            self.assignments(s)
        self.instantiated = set()

    # ---- modules
    def scan(self, m):
        for st in class_statements(m.tree):
            if isinstance(st, ast.ImportFrom) and any(a.name == '*' for a in st.names):
                src = m.resolve_from(st)
                o = self.mods.get(src)
                if o is None or o is m:
                    m.open = True
                else:
                    m.globals |= {n for n, _ in self.module_names(o)}
                    m.open = m.open or o.open
            for n, v in bound_names(st):
                m.globals.add(n)
                m.defs.setdefault(n, []).append(v)
            if isinstance(st, ast.ClassDef):
                if (m.name, st.name) in self.classes:
                    self.classes[(m.name, st.name)].open = True
                else:
                    self.classes[(m.name, st.name)] = Cls(m, st)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.globals |= set(n.names)
                for x in n.names:
                    m.defs.setdefault(x, []).append(None)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', '__import__'):
                m.open = True
        last = {}
        for st in m.tree.body:                            # deleted and not bound again
            for n, v in bound_names(st):
                last[n] = True
            if isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        last[t.id] = False
        for n, v in last.items():
            if not v:
                m.globals.discard(n)

    def module_names(self, o):
        for st in class_statements(o.tree):
            for n, v in bound_names(st):
                yield n, v

    def has_name(self, modname, name):
        """does module modname of the package have that name (attribute or submodule)?"""
        m = self.mods[modname]
        return m.open or name in m.globals or name in BUILTINS - set(dir(builtins)) or modname + '.' + name in self.mods \
            or '__getattr__' in m.globals

    def collect(self, m):
        # methods directly in a class body (also below an if) belong to the class
        def body(node, scope, cls, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    body(ch, scope, self.classes.get((m.name, ch.name)) if scope is None and not qual else None, qual + [ch.name])
                elif isinstance(ch, FUNC + COMP):
                    name = getattr(ch, 'name', None)
                    q = qual + [name] if name else qual
                    s = Scope(ch, scope, m, cls if name else None, '.'.join(q))
                    ch._scope = s
                    self.scopes.append(s)
                    body(ch, s, None, q)
                else:
                    body(ch, scope, cls, qual)
        body(m.tree, None, None, [])

    def assignments(self, s):
        """attributes assigned in a scope"""
        for n in own_nodes(s.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                v = getattr(n, '_value', None)
                c = self.selfclass(s, n.value)
                if c is not None:
                    c.attrs.setdefault(n.attr, []).append((v, s))
                else:
                    self.foreign.add(n.attr)
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in ('setattr', 'vars') or isinstance(f, ast.Attribute) and f.attr == '__setattr__':
                    const = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    self.foreign |= set(const)
                    if not const:
                        for c in self.classes.values():
                            if f_is_self(self, s, n) in (c, None):
                                c.open = True
            elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                par = getattr(n, '_parent', None)
                if not (isinstance(par, ast.Attribute) and par.attr in ('clear', 'keys', 'items', 'values', 'get', 'copy', 'pop')):
                    c = self.selfclass(s, n.value)
                    for k in self.classes.values():
                        if c is None or k is c or c in k.mro() or k in c.mro():
                            k.open = True

    def selfclass(self, s, e):
        """the class if e is the instance (or class) parameter of a method"""
        if not isinstance(e, ast.Name):
            return None
        while s is not None:
            if e.id in s.names:
                return s.cls if s.selfname == e.id else None
            s = s.parent
        return None

    # ---- what a module level expression refers to
    def static(self, m, e):
        if isinstance(e, ast.Name):
            return self.global_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.static(m, e.value)
            return self.static_attr(b, e.attr)
        return None

    def static_attr(self, b, attr):
        if b is None:
            return None
        if b[0] == 'mod':
            if attr in self.mods[b[1]].globals:
                return self.global_name(self.mods[b[1]], attr)
            if b[1] + '.' + attr in self.mods:
                return ('mod', b[1] + '.' + attr)
            return None
        if b[0] == 'lib':
            return lib_attr(b[1], attr)
        return None

    def global_name(self, m, name, depth=0):
        if depth > 10:
            return None
        if name not in m.globals:
            if m.open or name not in BUILTINS:
                return None
            o = getattr(builtins, name, None)
            return ('pytype', o) if isinstance(o, type) else ('pyfunc', o) if callable(o) else None
        d = m.defs.get(name)
        if not d or len(d) != 1:
            return None
        v = d[0]
        if isinstance(v, ast.ClassDef):
            c = self.classes.get((m.name, v.name))
            return ('cls', c) if c and c.node is v else None
        if isinstance(v, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ('func', m, v)
        if isinstance(v, ast.Import):
            for a in v.names:
                if a.asname == name:
                    return self.module(a.name)
                if not a.asname and a.name.split('.')[0] == name:
                    return self.module(name)
            return None
        if isinstance(v, ast.ImportFrom):
            src = m.resolve_from(v)
            for a in v.names:
                if (a.asname or a.name) == name:
                    return self.imported(src, a.name, depth)
            return None
        if isinstance(v, ast.Name):
            return self.global_name(m, v.id, depth + 1)
        return None

    def imported(self, src, name, depth=0):
        if src in self.mods:
            sub = src + '.' + name in self.mods and all(isinstance(d, (ast.Import, ast.ImportFrom))
                                                        for d in self.mods[src].defs.get(name, []))
            if name in self.mods[src].globals and not sub:
                return self.global_name(self.mods[src], name, depth + 1)
            if src + '.' + name in self.mods:
                return ('mod', src + '.' + name)
            return None
        return lib_attr(src, name)

    def module(self, name):
        if name in self.mods:
            return ('mod', name)
        return ('lib', name) if known_lib(name) else None


def f_is_self(w, s, call):
    return w.selfclass(s, call.args[0]) if call.args else None


def stdlib(name):
    top = name.split('.')[0]
    if top not in sys.stdlib_module_names or top in ODD:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def known_lib(name):
    return name in API['modules'] or stdlib(name) is not None


def lib_has(mod, attr):
    """True, False or None (not known)"""
    if mod in API['modules']:
        if attr in API['modules'][mod] or attr in LAZY.get(mod, ()) or attr.startswith('__'):
            return True
        return False
    m = stdlib(mod)
    if m is None:
        return None
    if hasattr(m, attr) or '__getattr__' in vars(m):
        return True
    if hasattr(m, '__path__') and stdlib(mod + '.' + attr):
        return True
    return False


def lib_attr(mod, attr):
    if not mod:
        return None
    if mod in API['modules']:
        full = mod + '.' + attr
        if full in API['modules']:
            return ('lib', full)
        if full in API['classes']:
            return ('libcls', full)
        return ('libfunc', full) if full in API['sigs'] else None
    m = stdlib(mod)
    if m is None:
        return None
    o = getattr(m, attr, None)
    if o is None:
        return ('lib', mod + '.' + attr) if stdlib(mod + '.' + attr) else None
    if isinstance(o, types.ModuleType):
        return ('lib', o.__name__) if stdlib(o.__name__) else None
    if isinstance(o, type):
        return ('pytype', o)
    return ('pyfunc', o) if callable(o) else None


def own_nodes(fn):
    """nodes of a scope, those of inner functions and comprehensions excluded (but their headers evaluated here included)"""
    out = []

    def visit(n):
        out.append(n)
        if isinstance(n, FUNC):
            for d in getattr(n, 'decorator_list', []):
                visit(d)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            return
        if isinstance(n, COMP):
            visit(n.generators[0].iter)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.bases + n.decorator_list + n.body:
                visit(x)
            return
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    if isinstance(fn, COMP):
        for k, g in enumerate(fn.generators):
            visit(g.target)
            if k:
                visit(g.iter)
            for i in g.ifs:
                visit(i)
        for f in ('elt', 'key', 'value'):
            if hasattr(fn, f):
                visit(getattr(fn, f))
    elif isinstance(fn, ast.Lambda):
        visit(fn.body)
    else:
        for st in fn.body:
            visit(st)
    return out


def link(tree):
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            ch._parent = n
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    t._value = n.value
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
            n.target._value = n.value


# ---------------------------------------------------------------------------------------------- types of expressions
class Infer(object):
    """types: frozenset of alternatives, None = not known
    alternatives: ('inst', Cls) ('cls', Cls) ('mod', n) ('lib', n) ('func', mod, node) ('bound', Cls, mod, node) ('py', type) ('pytype', type)
    ('pyfunc', f) ('pymeth', type, name) ('libfunc', n) ('libcls', n) ('libinst', n) ('libmeth', cls, name)"""

    def __init__(self, w):
        self.w = w
        self.memo = {}
        self.busy = set()

    def of(self, e, s, m):
        key = (id(e), id(s))
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or len(self.busy) > 60:
            return None
        self.busy.add(key)
        try:
            r = self.compute(e, s, m)
        finally:
            self.busy.discard(key)
        if r is not None and (not r or len(r) > MAXALT):
            r = None
        if not self.busy:
            self.memo[key] = r
        return r

    def join(self, parts):
        out = set()
        for p in parts:
            if p is None:
                return None
            out |= p
        return frozenset(out) if out else None

    def one(self, *t):
        return frozenset([t])

    def compute(self, e, s, m):
        py = lambda t: self.one('py', t)
        if isinstance(e, ast.Constant):
            return py(type(e.value))
        if isinstance(e, ast.JoinedStr):
            return py(str)
        if isinstance(e, (ast.List, ast.ListComp)):
            return py(list)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return py(dict)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return py(set)
        if isinstance(e, ast.Tuple):
            return py(tuple)
        if isinstance(e, ast.GeneratorExp):
            return py(types.GeneratorType)
        if isinstance(e, ast.Lambda):
            return py(types.FunctionType)
        if isinstance(e, ast.IfExp):
            return self.join([self.of(e.body, s, m), self.of(e.orelse, s, m)])
        if isinstance(e, ast.BoolOp):
            return self.join([self.of(v, s, m) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value, s, m)
        if isinstance(e, ast.BinOp):
            a, b = self.of(e.left, s, m), self.of(e.right, s, m)
            if isinstance(e.op, ast.Mod) and a == py(str):
                return a
            if isinstance(e.op, ast.Add) and a == b and a in (py(str), py(list), py(tuple), py(int), py(bytes)):
                return a
            if isinstance(e.op, ast.Mult) and a in (py(str), py(list), py(tuple)) and b == py(int):
                return a
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return py(bool)
        if isinstance(e, ast.Name):
            return self.name(e, s, m)
        if isinstance(e, ast.Attribute):
            base = self.of(e.value, s, m)
            if base is None:
                return None
            return self.join([self.attr(t, e.attr) for t in base])
        if isinstance(e, ast.Call):
            return self.call(e, s, m)
        return None

    def name(self, e, s, m):
        sc = s
        while sc is not None:
            if e.id in sc.names:
                if sc.cls is not None and sc.selfname == e.id:
                    return self.one('cls' if sc.isclassmethod() else 'inst', sc.cls)
                vals = sc.names[e.id]
                parts = []
                for v in vals:
                    if isinstance(v, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        parts.append(self.one('func', m, v) if not v.decorator_list else None)
                    elif isinstance(v, ast.expr):
                        parts.append(self.of(v, sc, m))
                    elif isinstance(v, (ast.Import, ast.ImportFrom)):
                        parts.append(self.local_import(v, e.id, m))
                    elif v is None:
                        parts.append(self.indirect(sc, e.id, m))
                    else:
                        parts.append(None)
                return self.join(parts)
            if e.id in sc.globs and isinstance(sc.node, FUNC) and e.id not in m.globals:
                pass
            sc = sc.parent
        t = self.w.global_name(m, e.id)
        if t is not None:
            return frozenset([t])
        d = m.defs.get(e.id)
        if d and len(d) == 1 and isinstance(d[0], ast.expr):
            return self.of(d[0], None, m)
        return None

    def indirect(self, sc, name, m):
        """bound by with ... as name"""
        n = sc.node
        for x in own_nodes(n):
            if isinstance(x, ast.With):
                for it in x.items:
                    if isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == name:
                        if sum(1 for v in sc.names[name] if v is None) == 1:
                            t = self.of(it.context_expr, sc, m)
                            if t is not None and all(a[0] in ('py', 'libinst') for a in t):
                                return t
        return None

    def local_import(self, st, name, m):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname == name:
                    t = self.w.module(a.name)
                    return frozenset([t]) if t else None
                if not a.asname and a.name.split('.')[0] == name:
                    t = self.w.module(name)
                    return frozenset([t]) if t else None
        else:
            src = m.resolve_from(st)
            for a in st.names:
                if (a.asname or a.name) == name:
                    t = self.w.imported(src, a.name)
                    return frozenset([t]) if t else None
        return None

    # type of t.attr, None if unknown (or absent: that is reported elsewhere)
    def attr(self, t, a):
        w = self.w
        if t[0] in ('mod', 'lib'):
            r = w.static_attr(t, a)
            return frozenset([r]) if r else None
        if t[0] in ('inst', 'cls'):
            c = t[1]
            if c.isopen():
                return None
            parts = []
            for d in c.family():
                found = d.lookup(a)
                if found:
                    k, nodes = found
                    for n in nodes:
                        if isinstance(n, ast.FunctionDef):
                            ds = decorators(n)
                            if ds & {'property', 'cached_property'} and t[0] == 'inst':
                                parts.append(self.returns(n, k.mod))
                            elif ds - {'abstractmethod'} - {'staticmethod', 'classmethod'}:
                                parts.append(None)
                            else:
                                parts.append(self.one('bound', d, k.mod, n, t[0]))
                        elif isinstance(n, ast.expr):
                            parts.append(self.of(n, None, k.mod))
                        else:
                            parts.append(None)
                for k in set(d.mro()):
                    for v, sc in k.attrs.get(a, []):
                        parts.append(self.of(v, sc, k.mod) if isinstance(v, ast.expr) else None)
            if a in w.foreign:
                parts.append(None)
            return self.join(parts) if parts else None
        if t[0] == 'py':
            if hasattr(t[1], a):
                return self.one('pymeth', t[1], a) if callable(getattr(t[1], a)) else None
            return None
        if t[0] == 'pytype':
            return None
        if t[0] == 'libinst':
            return self.one('libmeth', t[1], a) if t[1] + '.' + a in API['sigs'] else None
        return None

    def returns(self, fn, m):
        """types a function may return"""
        s = getattr(fn, '_scope', None)
        if s is None or isinstance(fn, ast.AsyncFunctionDef):
            return None
        nodes = own_nodes(fn)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nodes):
            return self.one('py', types.GeneratorType)
        rets = [n for n in nodes if isinstance(n, ast.Return)]
        parts = [self.of(r.value, s, m) if r.value is not None else self.one('py', type(None)) for r in rets]
        if falls_through(fn.body):
            parts.append(self.one('py', type(None)))
        return self.join(parts)

    def call(self, e, s, m):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and s is not None:
            return None
        f = self.of(e.func, s, m)
        if f is None:
            return None
        return self.join([self.result(t, e) for t in f])

    def result(self, t, e):
        k = t[0]
        if k == 'cls':
            return self.one('inst', t[1]) if not t[1].isopen() else None
        if k == 'func':
            return self.returns(t[2], t[1]) if not t[2].decorator_list else None
        if k == 'bound':
            return self.returns(t[3], t[2])
        if k == 'pytype':
            c = t[1]
            if c is type or c is super or c is object or c is property:
                return None
            return self.one('py', c)
        if k == 'pyfunc':
            return self.pyresult(t[1], e)
        if k == 'pymeth':
            r = PYRET.get((t[1], t[2]))
            return self.one('py', r) if r else None
        if k == 'libfunc':
            r = LIBRET.get(t[1])
            return self.one('libinst', r) if r else None
        if k == 'libcls':
            return self.one('libinst', t[1])
        return None

    def pyresult(self, f, e):
        if f is open:
            import io
            mode = e.args[1] if len(e.args) > 1 else None
            for kw in e.keywords:
                if kw.arg == 'mode':
                    mode = kw.value
                if kw.arg is None:
                    return None
            if mode is None:
                return self.one('py', io.TextIOWrapper)
            if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and 'b' not in mode.value:
                return self.one('py', io.TextIOWrapper)
            if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
                return frozenset([('py', io.BufferedReader), ('py', io.BufferedWriter), ('py', io.BufferedRandom)])
            return frozenset([('py', io.TextIOWrapper), ('py', io.BufferedReader), ('py', io.BufferedWriter), ('py', io.BufferedRandom)])
        r = PYFUNC.get(getattr(f, '__name__', ''))
        if r is not None and getattr(builtins, f.__name__, None) is f:
            return self.one('py', r)
        if f is iter and len(e.args) == 1:
            return frozenset([('py', types.GeneratorType), ('py', type(iter([])))])        # whatever it is: an iterator
        return None


PYFUNC = {'sorted': list, 'len': int, 'repr': str, 'isinstance': bool, 'hasattr': bool, 'chr': str, 'ord': int, 'callable': bool,
          'dir': list, 'print': type(None), 'any': bool, 'all': bool, 'id': int, 'hash': int, 'bin': str, 'hex': str, 'format': str,
          'input': str, 'ascii': str}
PYRET = {(str, n): str for n in ('strip', 'lstrip', 'rstrip', 'upper', 'lower', 'format', 'join', 'replace', 'ljust', 'rjust', 'center',
                                 'zfill', 'title', 'capitalize', 'expandtabs')}
PYRET.update({(str, n): list for n in ('split', 'rsplit', 'splitlines')})
PYRET.update({(str, n): bool for n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower')})
PYRET.update({(str, 'encode'): bytes, (bytes, 'decode'): str, (str, 'find'): int, (str, 'index'): int, (str, 'count'): int,
              (dict, 'keys'): type({}.keys()), (dict, 'values'): type({}.values()), (dict, 'items'): type({}.items()),
              (dict, 'copy'): dict, (list, 'copy'): list, (set, 'copy'): set, (set, 'union'): set, (list, 'append'): type(None),
              (list, 'extend'): type(None), (list, 'sort'): type(None), (list, 'reverse'): type(None), (list, 'insert'): type(None),
              (list, 'index'): int, (list, 'count'): int, (dict, 'update'): type(None), (set, 'add'): type(None)})
LIBRET = {'tables.open_file': 'tables.File'}
for _n in ('array', 'zeros', 'ones', 'empty', 'concatenate', 'arange', 'column_stack', 'vstack', 'hstack'):
    LIBRET['numpy.' + _n] = 'numpy.ndarray'


def falls_through(body):
    """may control reach the end of the statements?"""
    for st in body:
        if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(st, ast.If) and st.orelse and not falls_through(st.body) and not falls_through(st.orelse):
            return False
        if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and \
                not any(isinstance(n, ast.Break) for n in ast.walk(st)):
            return False
        if isinstance(st, (ast.With,)) and not falls_through(st.body):
            return False
        if isinstance(st, ast.Try):
            if st.finalbody and not falls_through(st.finalbody):
                return False
            if not falls_through(st.body + st.orelse) and all(not falls_through(h.body) for h in st.handlers):
                return False
    return True


# ---------------------------------------------------------------------------------------------- arguments of calls
class Params(object):
    def __init__(self, pos, ndef, vararg, kwonly, kwreq, kwarg, posonly=0):
        self.pos, self.ndef, self.vararg, self.kwonly, self.kwreq, self.kwarg, self.posonly = \
            pos, ndef, vararg, kwonly, kwreq, kwarg, posonly


def params_of(fn, drop):
    a = fn.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    npo = len(a.posonlyargs)
    if drop:
        if not pos:
            return None if a.vararg else 'takes no arguments, not even the instance'
        pos = pos[1:]
        npo = max(0, npo - 1)
    kwreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return Params(pos, min(len(a.defaults), len(pos)), a.vararg is not None, [p.arg for p in a.kwonlyargs], kwreq, a.kwarg is not None, npo)


def params_sig(items, drop):
    pos, kwonly, kwreq, var, kw, ndef, npo = [], [], [], False, False, 0, 0
    for name, kind, hasdef in items:
        if kind in (0, 1):
            pos.append(name)
            npo += kind == 0
            ndef = ndef + 1 if hasdef else 0
        elif kind == 2:
            var = True
        elif kind == 3:
            kwonly.append(name)
            if not hasdef:
                kwreq.append(name)
        else:
            kw = True
    if drop:
        if not pos:
            return None
        pos = pos[1:]
        npo = max(0, npo - 1)
    return Params(pos, min(ndef, len(pos)), var, kwonly, kwreq, kw, npo)


def mismatch(p, call):
    """why a call does not fit, or None"""
    if p is None:
        return None
    if isinstance(p, str):
        return p
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    names = [k.arg for k in call.keywords if k.arg is not None]
    if npos > len(p.pos) and not p.vararg:
        return 'takes at most %d positional arguments, is given %d' % (len(p.pos), npos)
    for n in names:
        if n in p.pos[p.posonly:] or n in p.kwonly:
            if not star and n in p.pos[:npos]:
                return 'is given %s twice' % n
        elif not p.kwarg:
            return 'has no parameter %s' % n
    if not star and not dstar:
        need = p.pos[:len(p.pos) - p.ndef]
        missing = [n for n in need[npos:] if n not in names] + [n for n in p.kwreq if n not in names]
        if missing:
            return 'needs argument%s %s' % ('s' if len(missing) > 1 else '', ', '.join(missing))
    return None


def sig_items(f):
    try:
        s = inspect.signature(f)
    except (TypeError, ValueError):
        return None
    return [[p.name, int(p.kind), p.default is not p.empty] for p in s.parameters.values()]


# ---------------------------------------------------------------------------------------------- the check of one scope
def universe(w):
    """every attribute name that anything in reach may have: builtins, the imported standard library, numpy, tables, the package"""
    out = set(w.foreign) | set(API['names'])
    mods = set(['builtins', 'io', 'types', 'collections'])
    for m in w.mods.values():
        out |= m.globals
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                mods |= {a.name for a in n.names}
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                mods.add(n.module)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
    for c in w.classes.values():
        out |= set(c.members) | set(c.attrs)
    unknown = [x for x in mods if not known_lib(x) and x.split('.')[0] not in ('freesif', '__future__')]
    if unknown:
        return None
    for x in mods:
        m = stdlib(x)
        if m is not None:
            out |= set(dir(m))
            for o in list(vars(m).values()):
                if isinstance(o, type):
                    out |= set(dir(o))
    for o in (types.GeneratorType, types.FunctionType, types.MethodType, types.ModuleType, types.TracebackType, types.FrameType,
              types.CodeType, type, type({}.keys()), type(iter([])), property, type(open(os.devnull))):
        out |= set(dir(o))
    return out


class Checker(object):
    def __init__(self, w, inf, report):
        self.w, self.inf, self.report = w, inf, report
        self.refs = 0
        self.universe = universe(w)

    def guarded(self, n, kinds):
        """inside the body of a try whose handlers catch such an error (or everything), or under a test of the interpreter's version"""
        while n is not None:
            p = getattr(n, '_parent', None)
            if isinstance(p, ast.Try) and n in p.body:
                for h in p.handlers:
                    if any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                        continue                          # passed on: not caught
                    if h.type is None:
                        return True
                    for x in ast.walk(h.type):
                        if isinstance(x, ast.Name) and x.id in kinds | {'Exception', 'BaseException'}:
                            return True
            if isinstance(p, (ast.If, ast.IfExp)) and n is not p.test:
                for x in ast.walk(p.test):
                    if isinstance(x, ast.Attribute) and x.attr in ('version_info', 'version', '__version__', 'PY2', 'PY3', 'hexversion'):
                        return True
                    if isinstance(x, ast.Name) and x.id in ('PY2', 'PY3', 'TYPE_CHECKING', 'version_info'):
                        return True
                if isinstance(p.test, ast.Constant):
                    return True
            if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                if isinstance(p, ast.Lambda):
                    n = p
                    continue
                return False
            n = p
        return False

    def hasattrs(self, fn):
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
        return out

    def scope(self, s, node, m):
        nodes = own_nodes(node) if not isinstance(node, ast.Module) else own_nodes(node)
        outer = s.node if s else node
        skip = self.hasattrs(outer)
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.name(n, s, m)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Load, ast.Del)):
                if n.attr not in skip:
                    self.attribute(n, s, m)
            elif isinstance(n, ast.Call):
                self.call(n, s, m)
            elif isinstance(n, ast.ImportFrom):
                self.importfrom(n, m)
            elif isinstance(n, ast.Import):
                self.import_(n, m)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                self.percent(n, s, m)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.unbound(s, node)

    def bad(self, n, s, m, text):
        self.report(m, s, n, text)

    # -- names
    def name(self, n, s, m):
        self.refs += 1
        sc = s
        while sc is not None:
            if n.id in sc.names:
                return
            if n.id in sc.globs and sc.parent is None:
                break
            sc = sc.parent
        if n.id in m.globals or n.id in BUILTINS or m.open:
            return
        p = getattr(n, '_parent', None)                   # names of a class body
        while p is not None:
            if isinstance(p, ast.ClassDef):
                for st in class_statements(p):
                    if any(k == n.id for k, _ in bound_names(st)):
                        return
            p = getattr(p, '_parent', None)
        if self.guarded(n, {'NameError', 'UnboundLocalError'}):
            return
        self.bad(n, s, m, 'name %s is not defined anywhere' % n.id)

    # -- local names on a path on which they cannot have been assigned
    def unbound(self, s, fn):
        local = {n for n in s.names if n not in s.params}
        inner_writes = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Nonlocal):
                inner_writes |= set(n.names)
        local -= inner_writes
        if not local:
            return
        names = s.names
        me = self

        def uses(e, have):
            """an expression evaluated with the given names possibly bound"""
            if e is None:
                return
            stack = [e]
            while stack:
                x = stack.pop()
                if isinstance(x, FUNC):
                    stack += [d for d in x.args.defaults + x.args.kw_defaults if d] + getattr(x, 'decorator_list', [])
                    continue
                if isinstance(x, COMP):
                    sub = getattr(x, '_scope', None)
                    inner = set(sub.names) if sub else set()
                    stack.append(x.generators[0].iter)
                    for y in ast.walk(x):
                        if isinstance(y, ast.NamedExpr):
                            have.add(y.target.id)
                    for y in own_nodes(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in inner:
                            stack.append(y)
                    continue
                if isinstance(x, ast.NamedExpr):
                    have.add(x.target.id)
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local and x.id not in have:
                    if not me.guarded(x, {'NameError', 'UnboundLocalError'}):
                        me.bad(x, s, s.mod, 'local name %s is used where nothing can have been assigned to it' % x.id)
                        have.add(x.id)
                stack += list(ast.iter_child_nodes(x))

        def bind(t, have):
            for y in target_names(t):
                if isinstance(y.ctx, ast.Store):
                    have.add(y.id)

        def run(body, have):
            """names possibly bound afterwards; None if the end is not reached"""
            for st in body:
                if have is None:
                    return None
                have = step(st, have)
            return have

        loops = []

        def merge(*hs):
            hs = [h for h in hs if h is not None]
            if not hs:
                return None
            out = set()
            for h in hs:
                out |= h
            return out

        def step(st, have):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                uses(st, have)
                have.add(st.name)
                return have
            if isinstance(st, ast.ClassDef):
                have.add(st.name)
                return have
            if isinstance(st, ast.Return):
                uses(st.value, have)
                return None
            if isinstance(st, ast.Raise):
                uses(st.exc, have)
                uses(st.cause, have)
                return None
            if isinstance(st, ast.Break):
                loops[-1][0].append(set(have))
                return None
            if isinstance(st, ast.Continue):
                loops[-1][1].append(set(have))
                return None
            if isinstance(st, ast.If):
                uses(st.test, have)
                return merge(run(st.body, set(have)), run(st.orelse, set(have)))
            if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                isfor = not isinstance(st, ast.While)
                if isfor:
                    uses(st.iter, have)
                # everything bound in the body may be bound at its head
                head = set(have)
                for y in ast.walk(st):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        head.add(y.id)
                    for z, _ in (bound_names(y) if isinstance(y, ast.stmt) else ()):
                        head.add(z)
                first = set(have)                         # the first time round
                if isfor:
                    bind(st.target, first)
                else:
                    uses(st.test, first)
                loops.append(([], []))
                dry = run(st.body, set(head) if loop_rebinds(st, first, head) else first)
                brk, _ = loops.pop()
                forever = not isfor and isinstance(st.test, ast.Constant) and st.test.value
                end = None if forever else merge(have, head)
                end = run(st.orelse, end) if end is not None and st.orelse else end
                return merge(end, *brk)
            if isinstance(st, ast.Try):
                entry = set(have)
                after = run(st.body, set(have))
                hh = set(entry)
                for b in st.body:
                    for y in ast.walk(b):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            hh.add(y.id)
                        for z, _ in (bound_names(y) if isinstance(y, ast.stmt) else ()):
                            hh.add(z)
                outs = [run(st.orelse, after) if after is not None else None]
                for h in st.handlers:
                    k = set(hh)
                    uses(h.type, k)
                    if h.name:
                        k.add(h.name)
                    k = run(h.body, k)
                    if k is not None and h.name:
                        k.discard(h.name)
                    outs.append(k)
                out = merge(*outs)
                if st.finalbody:
                    f = run(st.finalbody, merge(hh, *outs))
                    out = merge(out, f) if out is not None and f is not None else None
                return out
            if isinstance(st, (ast.With, ast.AsyncWith)):
                for it in st.items:
                    uses(it.context_expr, have)
                    if it.optional_vars is not None:
                        bind(it.optional_vars, have)
                return run(st.body, have)
            if isinstance(st, ast.Assign):
                uses(st.value, have)
                for t in st.targets:
                    uses_target(t, have)
                    bind(t, have)
                return have
            if isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    if st.target.id in local and st.target.id not in have:
                        me.bad(st, s, s.mod, 'local name %s is used where nothing can have been assigned to it' % st.target.id)
                    have.add(st.target.id)
                else:
                    uses(st.target, have)
                uses(st.value, have)
                return have
            if isinstance(st, ast.AnnAssign):
                uses(st.value, have)
                if st.value is not None:
                    bind(st.target, have)
                return have
            if isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id in local and t.id not in have:
                            me.bad(st, s, s.mod, 'local name %s is deleted where nothing can have been assigned to it' % t.id)
                        have.discard(t.id)
                    else:
                        uses(t, have)
                return have
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for z, _ in bound_names(st):
                    have.add(z)
                return have
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr):
                    uses(ch, have)
            if hasattr(ast, 'Match') and isinstance(st, ast.Match):
                return merge(have, set(names))
            return have

        def loop_rebinds(st, first, head):
            # a first pass with only what is bound before: if the loop body binds the name later, a later round may have it;
            # the first round has not, but whether a use is reached in it is not known: only names bound nowhere are reported
            return True

        def uses_target(t, have):
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    uses(x.value, have)
                    if isinstance(x, ast.Subscript):
                        uses(x.slice, have)

        run(fn.body, set(s.params))

    # -- imports
    def importfrom(self, n, m):
        src = m.resolve_from(n)
        if self.guarded(n, {'ImportError', 'ModuleNotFoundError'}):
            return
        own = src == 'freesif' or (src or '').startswith('freesif.')
        for a in n.names:
            self.refs += 1
            if own:
                if src not in self.w.mods:
                    self.bad(n, None, m, 'module %s does not exist' % src)
                elif a.name != '*' and not self.w.has_name(src, a.name):
                    self.bad(n, None, m, 'module %s has no name %s' % (src, a.name))
            elif a.name != '*' and src and lib_has(src, a.name) is False:
                self.bad(n, None, m, 'module %s has no name %s' % (src, a.name))

    def import_(self, n, m):
        if self.guarded(n, {'ImportError', 'ModuleNotFoundError'}):
            return
        for a in n.names:
            self.refs += 1
            if a.name.split('.')[0] == 'freesif' and a.name not in self.w.mods:
                self.bad(n, None, m, 'module %s does not exist' % a.name)
            elif a.name.split('.')[0] in sys.stdlib_module_names - ODD and stdlib(a.name) is None:
                self.bad(n, None, m, 'module %s does not exist' % a.name)

    # -- attributes
    def has(self, t, a, n, s, m):
        """True, False or None"""
        k = t[0]
        if k == 'mod':
            return self.w.has_name(t[1], a)
        if k == 'lib':
            return lib_has(t[1], a)
        if k in ('inst', 'cls'):
            return self.class_has(t[1], a, k, s)
        if k == 'py':
            if t[1] in (types.GeneratorType,) and False:
                return None
            return hasattr(t[1], a)
        if k == 'pytype':
            return hasattr(t[1], a)
        if k == 'libinst':
            return a in API['classes'][t[1]] if t[1] in API['classes'] else None
        return None

    def class_has(self, c, a, k, s):
        if a in self.w.foreign or (a.startswith('__') and a.endswith('__')):
            return True

        def inst(d):
            if d.isopen():
                return True
            if d.lookup(a) or any(a in x.attrs for x in d.mro()):
                return True
            return any(hasattr(p, a) for p in d.allpy())
        if inst(c):
            return True
        return any(inst(d) for d in c.family() if d is not c)

    def attribute(self, n, s, m):
        self.refs += 1
        base = self.inf.of(n.value, s, m)
        if base is None:
            return
        verdicts = [self.has(t, n.attr, n, s, m) for t in base]
        if all(v is False for v in verdicts):
            if self.guarded(n, {'AttributeError'}):
                return
            self.bad(n, s, m, '%s has no attribute %s' % (' / '.join(sorted({show(t) for t in base})), n.attr))
            return
        # an instance of a class below this one lacks it
        if len(base) == 1 and list(base)[0][0] == 'inst' and isinstance(n.value, ast.Name) and s is not None:
            c = list(base)[0][1]
            top = s
            while top is not None and top.cls is None:
                top = top.parent
            if top is None or top.cls is not c or n.attr in self.w.foreign or c.isopen():
                return
            name = getattr(top.node, 'name', None)
            for d in c.family():
                if d.subs or d.isopen():
                    continue
                found = d.lookup(name)
                if not found or top.node not in found[1]:
                    continue                              # that class has a method of its own
                if not self.class_has(d, n.attr, 'inst', s):
                    if self.guarded(n, {'AttributeError'}):
                        return
                    self.bad(n, s, m, 'instances of %s have no attribute %s' % (d.name, n.attr))
                    return

    # -- calls
    def call(self, n, s, m):
        self.refs += 1
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            self.supercall(n, f, s, m)
            return
        t = self.inf.of(f, s, m)
        if t is None:
            if isinstance(f, ast.Attribute) and self.inf.of(f.value, s, m) is None and self.universe is not None \
                    and f.attr not in self.universe:
                if f.attr not in self.hasattrs(s.node if s else m.tree) and not self.guarded(n, {'AttributeError'}):
                    self.bad(n, s, m, 'no object in reach has a method %s' % f.attr)
            return
        out = []
        for x in t:
            out.append(self.misfit(x, n))
        tops = [o for o in out if o]
        if not tops or self.guarded(n, {'TypeError'}):
            return
        if len(tops) == len(out) or all(x[0] == 'bound' for x in t) and self.own_bound(t, out):
            self.bad(n, s, m, '%s %s' % (self.callee(f), tops[0]))

    def own_bound(self, t, out):
        """methods of several classes: one that does not fit is an error if the class can be instantiated (has no subclasses)"""
        return any(o and not x[1].subs for x, o in zip(t, out))

    def callee(self, f):
        return ast.unparse(f)

    def misfit(self, t, n):
        k = t[0]
        if k == 'func':
            if t[2].decorator_list:
                return None
            return mismatch(params_of(t[2], False), n)
        if k == 'bound':
            ds = decorators(t[3])
            if ds - {'abstractmethod', 'staticmethod', 'classmethod'}:
                return None
            drop = 'staticmethod' not in ds and (t[4] == 'inst' or 'classmethod' in ds)
            return mismatch(params_of(t[3], drop), n)
        if k == 'cls':
            c = t[1]
            if c.isopen():
                return None
            found = c.lookup('__init__')
            if found:
                fn = found[1][-1]
                if len(found[1]) == 1 and isinstance(fn, ast.FunctionDef) and not fn.decorator_list:
                    return mismatch(params_of(fn, True), n)
                return None
            if not any(p is not object for p in c.allpy()) and (n.args or n.keywords):
                return 'takes no arguments'
            return None
        if k == 'pyfunc':
            it = sig_items(t[1])
            return mismatch(params_sig(it, False), n) if it is not None else None
        if k == 'pymeth':
            o = inspect.getattr_static(t[1], t[2], None)
            if isinstance(o, (staticmethod, classmethod)) or type(o).__name__ == 'classmethod_descriptor':
                return None
            it = sig_items(getattr(t[1], t[2]))
            return mismatch(params_sig(it, True), n) if it is not None else None
        if k == 'libfunc':
            return mismatch(params_sig(API['sigs'][t[1]], False), n)
        if k == 'libmeth':
            return mismatch(params_sig(API['sigs'][t[1] + '.' + t[2]], True), n)
        if k == 'py' and t[1] in (str, int, float, list, dict, tuple, set, bool, bytes, type(None)):
            return 'is a %s, which cannot be called' % t[1].__name__
        if k in ('mod', 'lib'):
            return 'is a module, which cannot be called'
        return None

    def supercall(self, n, f, s, m):
        top = s
        while top is not None and top.cls is None:
            top = top.parent
        if top is None or top.cls.isopen() or len(top.cls.bases) != 1 or top.cls.pybases:
            return
        b = top.cls.bases[0]
        found = b.lookup(f.attr)
        if not found:
            if not any(hasattr(p, f.attr) for p in b.allpy()) and not self.guarded(n, {'AttributeError'}):
                self.bad(n, s, m, 'super() of %s has no %s' % (top.cls.name, f.attr))
            return
        fn = found[1][-1]
        if len(found[1]) == 1 and isinstance(fn, ast.FunctionDef) and not fn.decorator_list:
            why = mismatch(params_of(fn, True), n)
            if why and not self.guarded(n, {'TypeError'}):
                self.bad(n, s, m, '%s %s' % (self.callee(f), why))

    def percent(self, n, s, m):
        """a constant format with a tuple of the wrong length"""
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple)):
            return
        if any(isinstance(x, ast.Starred) for x in n.right.elts):
            return
        import re
        fmt = n.left.value.replace('%%', '')
        if '%(' in fmt:
            return
        k = len(re.findall(r'%[-+ #0-9.*]*[a-zA-Z]', fmt)) + sum(x.count('*') for x in re.findall(r'%[-+ #0-9.*]*[a-zA-Z]', fmt))
        if k != len(n.right.elts):
            self.bad(n, s, m, 'format %r is given %d values' % (n.left.value, len(n.right.elts)))


def show(t):
    k = t[0]
    if k == 'inst':
        return 'an instance of %s' % t[1].name
    if k == 'cls':
        return 'class %s' % t[1].name
    if k in ('mod', 'lib'):
        return 'module %s' % t[1]
    if k in ('py', 'pytype'):
        return 'a %s' % t[1].__name__
    return str(t[1])


def check_C05(tier):
    rep = Report('C05', tier, 'Scope, import, attribute and call resolution over the syntax trees of the whole package',
                 'every name resolves, every attribute of a value of known type exists, every call to a known function fits its parameters; '
                 'unknown types are never reported',
                 ['attributes of libraries: the running interpreter (standard library), spec/libapi.json (numpy, tables)',
                  'values whose type cannot be told are not judged'])
    w = World()
    inf = Infer(w)
    found = {}

    def report(m, s, n, text):
        q = s.qual if s is not None and s.qual else '<module>'
        found.setdefault((m.rel, q), []).append((n.lineno, text))
    ck = Checker(w, inf, report)
    units = []
    for m in w.mods.values():
        ck.scope(None, m.tree, m)
        units.append((m.rel, '<module>'))
    for s in w.scopes:
        ck.scope(s, s.node, s.mod)
        if isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            units.append((s.mod.rel, s.qual))
            rep.analysed.add('%s %s' % (s.mod.rel, s.qual))
    for u in sorted(set(units) | set(found)):
        if u not in found:
            rep.good('%s %s' % u)
            continue
        for line, text in sorted(set(found[u])):
            rep.violation('%s %s: %s' % (u[0], u[1], text), '%s:%d' % (u[0], line), text)
    rep.tally('references resolved', ck.refs)
    rep.tally('modules', len(w.mods))
    rep.tally('classes', len(w.classes))
    if not w.mods:
        rep.broken.append('no modules found')
    return rep

