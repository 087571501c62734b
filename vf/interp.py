"""Join-based abstract interpreter computing gated value-flow graphs.

`Interp` walks the syntax tree of a function once per calling context; branches are analysed separately
and joined with gates (`ite`), loops are summarised by a fix-point over the locations they modify
(invariant, overwritten, induction, accumulation, find-first, otherwise fold), calls into the analysed
package are followed, everything else becomes an operator of the term language (see model.py).
"""
import ast
import itertools
import os

from .terms import *                                            # noqa: F401,F403
from . import terms as T

EV, PC, POS = ('ev',), ('pc',), ('s', 'pos')
UNDEF = raw('undef')
DELETED = raw('deleted')
MAXDEPTH = 40


class Func(object):
    def __init__(self, node, module, frame=None, cls=None, name=None):
        self.node, self.module, self.frame, self.cls = node, module, frame, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults, self.kwdefaults = [], {}
        self.is_gen = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        self.deco = []

    def where(self):
        return '%s:%d (%s)' % (self.module.relpath, self.node.lineno, self.name)


class Class(object):
    def __init__(self, name, bases, module):
        self.name, self.bases, self.module = name, bases, module
        self.ref = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if b.op == 'py' and isinstance(b.args[0], Class):
                for c in b.args[0].mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        return [b.args[0] for c in self.mro() for b in c.bases if b.op == 'ext']


class Module(object):
    def __init__(self, name, path, relpath):
        self.name, self.path, self.relpath = name, path, relpath
        self.tree = ast.parse(open(path, encoding='utf-8').read(), path)
        self.loaded = False


class Bound(object):
    def __init__(self, func, recv):
        self.func, self.recv = func, recv
        self._k = (func, recv)

    def __eq__(self, o):
        return isinstance(o, Bound) and self._k == o._k

    def __hash__(self):
        return hash(self._k)


class Super(object):
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class Partial(object):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Prim(object):
    """a builtin implemented by the model"""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def py(o):
    return raw('py', o)


def ext(name):
    return raw('ext', name)


def is_ref(t):
    return t.op == 'ref'


def own_nodes(node):
    """nodes of a function, not those of nested functions"""
    stack = list(node.body) if isinstance(getattr(node, 'body', None), list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            continue
        stack.extend(ast.iter_child_nodes(n))


def local_names(node):
    names, glob, nonl = set(), set(), set()
    for n in own_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
    a = getattr(node, 'args', None)
    if isinstance(a, ast.arguments):
        for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []):
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    return names - glob - nonl, glob


class Frame(object):
    _n = itertools.count()

    def __init__(self, module, node, parent=None, func=None, isclass=False):
        self.id = next(Frame._n)
        self.module, self.node, self.parent, self.func = module, node, parent, func
        self.isclass = isclass
        if node is not None:
            self.locals, self.globals = local_names(node)
        else:
            self.locals, self.globals = set(), set()
        self.keep = node is not None and any(
            isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in own_nodes(node))


class Exit(object):
    def __init__(self, kind, val, st, node=None):
        self.kind, self.val, self.st, self.node = kind, val, st, node


BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
    'SystemExit': 'BaseException', 'GeneratorExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'LookupError': 'Exception',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'ValueError': 'Exception',
    'UnicodeDecodeError': 'ValueError', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'StopIteration': 'Exception', 'OSError': 'Exception', 'IOError': 'Exception',
    'FileNotFoundError': 'OSError', 'AssertionError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'tables.NoSuchNodeError': 'Exception', 'tables.HDF5ExtError': 'Exception',
    'struct.error': 'Exception', 'OverflowError': 'ArithmeticError', 'Warning': 'Exception',
    'tables.exceptions.NoSuchNodeError': 'Exception', 'RecursionError': 'RuntimeError',
    'tables.NodeError': 'Exception', 'tables.FileModeError': 'Exception',
}
BUILTIN_TYPES = ('str', 'int', 'float', 'bytes', 'list', 'tuple', 'dict', 'set', 'bool', 'complex',
                 'object', 'type', 'frozenset', 'slice')


class Interp(object):
    def __init__(self, root='/repo', package='freesif'):
        self.root, self.package = root, package
        self.modules = {}
        self.st = {EV: seq('ev', []), PC: TRUE, POS: K(0), ('s', 'rec'): K(0), ('s', 'str'): K(0)}
        self.refn = itertools.count()
        self.depth = 0
        self.stack = []
        self.try_stack = []
        self.unroll = 0
        self.arrays = {}        # array term -> (shape, name of dtype), declared by the checks
        self.shaper = None      # array term -> shape, where the checks can tell
        self.hooks = {}         # ext / method hooks installed by the checks
        self.itersrc = {}       # iterator -> what it runs over (its content is its position)
        self.prov = {}          # box ref -> refs it may share memory with
        self.views = {}         # box ref -> (box, index) it is exactly a view of
        self.shared = {}        # box ref -> boxes that may share its memory
        self.frozen = set()
        self.cur = None
        self.raise_sink = []
        self.unknown = set()    # unmodelled operators met
        self.visited = set()
        from . import model
        self.model = model.Model(self)

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py')
        return base + '.py'

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            p = self.module_path(name)
            if not os.path.exists(p):
                return None
            m = Module(name, p, os.path.relpath(p, self.root))
            self.modules[name] = m
            self.exec_module(m)
        return m

    def load_text(self, name, path):
        m = Module(name, path, os.path.basename(path))
        self.modules[name] = m
        self.exec_module(m)
        return m

    def exec_module(self, m):
        fr = Frame(m, None)
        fr.is_module = True
        saved, self.cur = self.cur, fr
        exits = []
        self.exec_block(m.tree.body, fr, exits)
        if exits or self.st is None:
            raise Unsupported('module %s does not load' % m.name)
        self.cur = saved
        m.loaded = True

    def gget(self, modname, name):
        m = self.load(modname)
        if m is None:
            return None
        return self.st.get(('g', modname, name))

    def func(self, modname, name):
        v = self.gget(modname, name)
        if v is None:
            raise Unsupported('anchor %s.%s has vanished' % (modname, name))
        return v

    # ------------------------------------------------------------ heap
    def new_ref(self, kind, content=None, label=None):
        r = raw('ref', next(self.refn), kind)
        if content is not None:
            self.st[('c', r)] = content
        return r

    def new_list(self, parts=()):
        return self.new_ref('list', seq('list', list(parts)))

    def new_box(self, content, prov=()):
        r = self.new_ref('box', content)
        if prov:
            self.prov[r] = frozenset(prov)
            for o in prov:
                self.shared.setdefault(o, []).append(r)
        return r

    def content(self, r, pc=None):
        c = self.st.get(('c', r))
        if c is None:
            raise Unsupported('no content of %s' % (r,))
        if c.op in ('view', 'overwritten', 'ite') and r.args[1] == 'box':
            try:
                c = self.st[('c', r)] = self.settled(c)
            except Overwritten:
                # what matters is what it holds where it is used
                return self.settled(self.under_pc(c, self.st[PC] if pc is None else pc))
        return c

    def settled(self, c):
        """content of an array whose memory was written through another"""
        if c.op == 'overwritten':
            raise Overwritten('array that may share memory with one changed in place')
        if c.op == 'view':
            return self.model.getitem(self.content(c.args[0]), c.args[1])
        if c.op == 'ite' and any(x.op in ('view', 'overwritten', 'ite') for x in c.args[1:]):
            a, b = self.settled(c.args[1]), self.settled(c.args[2])
            if a is not c.args[1] or b is not c.args[2]:
                return T.mk_ite(c.args[0], a, b)
        return c

    def D(self, t, deep=True, seen=(), pc=None):
        """replace references by what they hold now"""
        if not isinstance(t, Term):
            return t
        if not has_ref(t):
            return t
        op = t.op
        if op == 'ref':
            if t in seen:
                return raw('cyc')
            if t.args[1] == 'inst':
                return t
            if t.args[1] == 'iter':
                return raw('iter', self.D(self.itersrc[t], deep, seen + (t,)), self.content(t))
            return self.D(self.content(t, pc), deep, seen + (t,), pc)
        if op == 'py':
            return t
        if op == 'ite':
            return self.each_way(t, lambda x, pc: self.D(x, deep, seen, pc), pc)
        return rebuild(t, lambda x: self.D(x, deep, seen, pc))

    def each_way(self, t, f, pc):
        if pc is None:
            pc = self.st[PC] if self.st is not None else TRUE
        c = f(t.args[0], pc)
        yes = T.c_and(pc, mk_ite(t.args[0], TRUE, FALSE))
        no = T.c_and(pc, mk_ite(t.args[0], FALSE, TRUE))
        a = f(t.args[1], yes) if yes is not FALSE else None
        b = f(t.args[2], no) if no is not FALSE else None
        if a is None or b is None:
            a = a if a is not None else f(t.args[1], pc) if b is None else b
            return a
        return mk_ite(c, a, b)

    def reify(self, t, st=None, seen=()):
        """like D, but also expands instances (for comparing results)"""
        if st is not None:
            saved, self.st = self.st, st
            try:
                return self.reify(t)
            finally:
                self.st = saved
        return self.D(t)

    def box_value(self, v):
        """give arrays an identity when they are bound to a name"""
        if v.op in ('ref', 'k', 'py', 'ext', 'sym', 'mu', 'seq', 'bv', 'undef'):
            return v
        if v.op == 'poly' and self.model.integral(v):
            return v
        if v.op == 'ite':
            if has_ref(v):
                return v
            for x in self.model.leaves_(v):
                if not (T.kind(x) == 'arr' or x.op == 'fld' and x.args[0].op in ('node', 'sub')
                        or x.op in ('sub', 'poly', 'call', 'dot') and T.kind(x) != 'num'):
                    return v
            return self.new_box(v)
        if T.kind(v) == 'arr' or v.op in ('sub', 'attr', 'poly', 'call', 'dot') \
                or v.op == 'fld' and v.args[0].op == 'node':
            if v.op == 'attr' or (v.op == 'sub' and T.kind(v) == 'num'):
                return v
            return self.new_box(v)
        return v

    def emit(self, op, *args):
        e = raw(op, *args)
        self.st[EV] = seq('ev', list(self.st[EV].args[1:]) + [e])

    # ------------------------------------------------------------ states
    def fork(self):
        return dict(self.st)

    def merge(self, c, a, b):
        """state: a if c else b (either may be dead)"""
        if a is None:
            return b
        if b is None:
            return a
        c = T.gate(c, c_or(a[PC], b[PC]))
        out = {}
        for k in a:
            va = a[k]
            vb = b.get(k)
            if va is vb:
                out[k] = va
            elif k == PC:
                out[k] = c_or(va, vb)
            elif k == EV:
                out[k] = merge_ev(c, va, vb)
            elif vb is None:
                out[k] = va if k[0] in ('c', 'a', 'g') else mk_ite(c, va, UNDEF)
            else:
                out[k] = mk_ite(c, va, vb)
        for k in b:
            if k not in a:
                out[k] = b[k] if k[0] in ('c', 'a', 'g') else mk_ite(c, UNDEF, b[k])
        return out

    def merge_exits(self, exits):
        """join exits of one kind: value and state"""
        e = exits[-1]
        val, st = e.val, e.st
        for x in reversed(exits[:-1]):
            c = x.st[PC]
            val = mk_ite(c, x.val, val) if val is not x.val else val
            st = self.merge(c, x.st, st)
        return val, st

    def branch(self, c, fa, fb):
        """run fa under c, fb under not c (each returns a value or None), join"""
        pc = self.st[PC]
        ca = c_and(pc, c)
        cb = c_and(pc, c_not(c))
        if ca is FALSE and cb is FALSE:
            ca = pc
        if cb is FALSE:
            return fa()
        if ca is FALSE:
            return fb()
        st0 = self.st
        self.st = dict(st0)
        self.st[PC] = ca
        va = fa()
        sa = self.st
        self.st = dict(st0)
        self.st[PC] = cb
        vb = fb()
        sb = self.st
        self.st = self.merge(c, sa, sb)
        if sa is None:
            return vb
        if sb is None:
            return va
        if va is None or va is vb:
            return va
        if vb is None:
            return va
        return mk_ite(c, va, vb)

    def maybe_raise(self, exc, cond):
        """an external operation raises `exc` under `cond`; modelled only where some handler is listening"""
        if cond is FALSE:
            return
        if not any(self.exc_matches(exc, h) for hs in self.try_stack for h in hs):
            if exc not in ('tables.NoSuchNodeError',):
                return
        self.do_raise(raw('exc', exc), cond)

    def do_raise(self, val, cond=TRUE, node=None):
        c = c_and(self.st[PC], cond)
        if c is FALSE:
            return
        st = dict(self.st)
        st[PC] = c
        self.raise_sink[-1].append(Exit('raise', val, st, node))
        rest = c_and(self.st[PC], c_not(cond))
        if rest is FALSE:
            self.st = None
            raise Dead()
        self.st[PC] = rest

    # ------------------------------------------------------------ exceptions
    def exc_name(self, t):
        """name of the exception class of an exception value / class"""
        if t.op == 'exc':
            return t.args[0]
        if t.op == 'py' and isinstance(t.args[0], Class):
            return t.args[0].name
        if t.op == 'ext':
            return t.args[0]
        if t.op == 'ref' and t.args[1] == 'inst':
            return self.inst_class(t).name
        return None

    def exc_supers(self, name):
        out = [name]
        cls = self.exc_classes.get(name)
        if cls is not None:
            for c in cls.mro():
                out.append(c.name)
                for b in c.bases:
                    if b.op == 'ext':
                        out.append(b.args[0])
                        out.extend(self.exc_supers(b.args[0]) if b.args[0] != name else [])
        else:
            p = BUILTIN_EXC.get(name, 'Exception' if name != 'BaseException' else None)
            while p:
                out.append(p)
                p = BUILTIN_EXC.get(p)
        return out

    exc_classes = {}

    def exc_matches(self, exc, handler):
        if handler == '*':
            return True
        handler = {'IOError': 'OSError', 'tables.exceptions.NoSuchNodeError': 'tables.NoSuchNodeError',
                   'EnvironmentError': 'OSError'}.get(handler, handler)
        return handler in self.exc_supers(exc)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr, exits):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s, fr, exits)

    def exec_stmt(self, s, fr, exits):
        saved = self.cur
        self.cur = fr
        self.raise_sink.append(exits)
        try:
            getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s, fr, exits)
        except Dead:
            self.st = None
        except Unsupported as e:
            if not getattr(e, 'loc', None):
                e.loc = '%s:%d' % (fr.module.relpath, s.lineno)
                e.args = ('%s at %s' % (e.args[0] if e.args else '', e.loc),)
            raise
        finally:
            self.raise_sink.pop()
            self.cur = saved

    def s_unsupported(self, s, fr, exits):
        raise Unsupported('statement %s' % type(s).__name__)

    def s_Pass(self, s, fr, exits):
        pass

    def s_Expr(self, s, fr, exits):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value, fr)
            return
        self.ev(s.value, fr)

    def do_yield(self, n, fr):
        key = ('v', fr.id, '<yield>')
        lst = self.st[key]
        if isinstance(n, ast.YieldFrom):
            self.list_extend(lst, self.as_seq(self.ev(n.value, fr)))
        else:
            v = self.ev(n.value, fr) if n.value is not None else NONE
            self.list_extend(lst, seq('list', [v]))

    def s_Import(self, s, fr, exits):
        for a in s.names:
            name = a.name
            if name.split('.')[0] == self.package:
                m = self.load(name)
                v = py(m)
            else:
                v = ext(self.model.extname(name if a.asname else name.split('.')[0]))
            self.store_name((a.asname or a.name).split('.')[0], v, fr)

    def s_ImportFrom(self, s, fr, exits):
        if s.module == '__future__':
            return
        base = None
        if s.level:
            pk = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        elif s.module.split('.')[0] == self.package or s.module in self.modules:
            base = s.module
        for a in s.names:
            nm = a.asname or a.name
            if base is not None:
                self.load(base)
                if a.name == '*':
                    for k in list(self.st):
                        if k[0] == 'g' and k[1] == base and not k[2].startswith('_'):
                            self.store_name(k[2], self.st[k], fr)
                    continue
                v = self.st.get(('g', base, a.name))
                if v is None:
                    m = self.load(base + '.' + a.name)
                    if m is None:
                        raise Unsupported('cannot import %s from %s' % (a.name, base))
                    v = py(m)
            else:
                v = ext(self.model.extname(s.module + '.' + a.name))
            self.store_name(nm, v, fr)

    def s_FunctionDef(self, s, fr, exits):
        f = Func(s, fr.module, fr if not getattr(fr, 'is_module', False) else None)
        a = s.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        v = py(f)
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                f.deco.append(d.id)
            else:
                v = self.call(self.ev(d, fr), [v], {}, d)
        self.store_name(s.name, v, fr)

    def s_ClassDef(self, s, fr, exits):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b for b in bases if not (b.op == 'ext' and b.args[0] == 'object')]
        c = Class(s.name, bases, fr.module)
        c.node = s
        self.exc_classes = dict(self.exc_classes)
        self.exc_classes[s.name] = c
        cf = Frame(fr.module, s, None if getattr(fr, 'is_module', False) else fr, isclass=True)
        self.exec_block(s.body, cf, exits)
        pre = [k for k in self.st if k[0] == 'v' and k[1] == cf.id]
        for k in pre:
            v = self.st.pop(k)
            if v.op == 'py' and isinstance(v.args[0], Func):
                v.args[0].cls = c
            self.st[('a', py(c), k[2])] = v
        if 'tables.IsDescription' in c.ext_bases():
            cols = []
            for b in c.bases:
                if b.op == 'py':
                    r = self.st.get(('a', b, 'columns'))
                    if r is not None:
                        cols = self.model.dict_items_set(cols, self.content(r))
            own = [(k[2], self.D(self.st[k])) for k in list(self.st) if k[0] == 'a' and k[1] is py(c)]
            own = [(n, v) for n, v in own if v.op == 'call']
            d = seq('dict', [])
            for kk, vv in cols:
                d = self.model.dict_set(d, kk, vv)
            for kk, vv in own:
                d = self.model.dict_set(d, K(kk), vv)
            self.st[('a', py(c), 'columns')] = self.new_ref('dict', d)
        self.store_name(s.name, py(c), fr)

    def s_Return(self, s, fr, exits):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        exits.append(Exit('return', v, self.st, s))
        self.st = None

    def s_Raise(self, s, fr, exits):
        if s.exc is None:
            v = self.st.get(('v', fr.id, '<exc>'), raw('exc', 'Exception'))
        else:
            v = self.ev(s.exc, fr)
        n = self.exc_name(v)
        if n is None:
            if v.op == 'ite':
                pass
            else:
                n = 'Exception?'
        if n is not None:
            v = raw('exc', n)
        exits.append(Exit('raise', v, self.st, s))
        self.st = None

    def s_Break(self, s, fr, exits):
        exits.append(Exit('break', NONE, self.st, s))
        self.st = None

    def s_Continue(self, s, fr, exits):
        exits.append(Exit('continue', NONE, self.st, s))
        self.st = None

    def s_Global(self, s, fr, exits):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s, fr, exits):
        c = self.truth(self.ev(s.test, fr))
        c = mk_ite(c, TRUE, FALSE)
        self.do_raise(raw('exc', 'AssertionError'), c_not(c), s)

    def s_Delete(self, s, fr, exits):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.pop(self.name_key(t.id, fr), None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr)
                i = self.ev_index(t.slice, fr)
                self.model.delitem(b, i)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if o.op != 'ref':
                    raise Unsupported('del of an attribute')
                if ('a', o, t.attr) not in self.st:
                    self.do_raise(raw('exc', 'AttributeError'), TRUE)
                self.st.pop(('a', o, t.attr), None)
            else:
                raise Unsupported('del')

    def s_Assign(self, s, fr, exits):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr, exits):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr, exits):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            v = self.ev(s.value, fr)
            r = self.aug(op, cur, v)
            if r is not cur:
                self.store_name(t.id, self.box_value(r), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, fr)
            r = self.aug(op, cur, v)
            if r is not cur or o.op not in ('ref',):
                self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.ev(s.value, fr)
            r = self.aug(op, cur, v)
            if r is not cur or self.views.get(cur, (None, None))[0] is not o:
                self.setitem(o, i, r)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, cur, v):
        if is_ref(cur) and cur.args[1] == 'list' and op == 'Add':
            self.list_extend(cur, self.as_seq(v))
            return cur
        if is_ref(cur) and cur.args[1] == 'box':
            c = self.content(cur)
            if T.kind(c) not in ('str', 'bytes') and c.op not in ('seq', 'Fs'):
                self.mutate(cur, self.model.binop(op, c, self.D(v)))
                return cur
        if is_ref(cur) and cur.args[1] == 'set':
            if op == 'BitOr':
                self.st[('c', cur)] = self.model.set_union(self.content(cur), self.D(v))
                return cur
        if cur.op == 'sym' and T.kind(cur) == 'arr':
            self.mutate(cur, None)
        return self.model.binop(op, cur, v)

    def mutate(self, box, new):
        """in-place change of an array"""
        owners = set(self.prov.get(box, ()))
        if owners:
            for o in sorted(owners, key=lambda x: x.id):
                self.emit('mutates', o if o.op != 'ref' else raw('obj', o.args[1]))
        if box.op == 'sym':
            self.emit('mutates', box)
            return
        self.store(box, new, set())

    def store(self, box, new, done):
        """new content of an array, seen through all that share its memory"""
        done.add(box)
        self.st[('c', box)] = new
        v = self.views.get(box)
        if v is not None and v[0] not in done:
            self.store(v[0], self.model.arr_setitem(self.content(v[0]), v[1], new), done)
        for o in self.prov.get(box, ()):
            if o not in done and o.op == 'ref' and o.args[1] == 'box' and not self.under(box, o):
                self.st[('c', o)] = raw('overwritten')
                done.add(o)
        for o in self.shared.get(box, ()):
            if o not in done:
                done.add(o)
                if ('c', o) in self.st:
                    self.st[('c', o)] = raw('view', *self.views[o]) if self.under(o, box) else raw('overwritten')

    def under(self, v, o):
        """v is a view of o, or of a view of o"""
        while v in self.views:
            v = self.views[v][0]
            if v is o:
                return True
        return False

    def s_If(self, s, fr, exits):
        c = self.truth(self.ev(s.test, fr))
        self.branch(c, lambda: self.exec_block(s.body, fr, exits),
                    lambda: self.exec_block(s.orelse, fr, exits))

    def s_While(self, s, fr, exits):
        if self.unroll:
            return self.unrolled(s, fr, exits)
        self.loop(fr, exits, s.body, s.orelse, cond=s.test)

    def unrolled(self, s, fr, exits):
        """a while loop whose condition is known in every iteration"""
        brk = []
        for _ in range(self.unroll):
            c = self.truth(self.ev(s.test, fr))
            if c is FALSE:
                if s.orelse:
                    self.exec_block(s.orelse, fr, exits)
                break
            if c is not TRUE:
                raise Unsupported('loop with an unknown number of iterations (%s)' % T.show(c, 6)[:200])
            inner = []
            self.exec_block(s.body, fr, inner)
            for e in inner:
                if e.kind == 'continue':
                    self.st = self.merge(e.st[PC], e.st, self.st)
                elif e.kind == 'break':
                    brk.append(e)
                else:
                    exits.append(e)
            if self.st is None:
                break
        else:
            raise Unsupported('loop does not end')
        for e in brk:
            self.st = self.merge(e.st[PC], e.st, self.st)

    def s_For(self, s, fr, exits):
        it = self.iterable(self.ev(s.iter, fr))
        if self.unroll and is_ref(it) and it.args[1] == 'inst':
            return self.pulled(it, s, fr, exits)
        self.for_each(it, lambda v: self.assign(s.target, v, fr),
                      lambda ex: self.exec_block(s.body, fr, ex), fr, exits, s.orelse)

    def iterable(self, it):
        """an instance with __iter__: what it iterates over; an unused iterator: its source"""
        if is_ref(it) and it.args[1] == 'inst' and self.find_attr(self.inst_class(it), '__iter__') is not None:
            it = self.call(self.getattr(it, '__iter__'), [], {})
        if is_ref(it) and it.args[1] == 'iter' and self.content(it) is K(0):
            it = self.itersrc[it]
        return it

    def pulled(self, it, s, fr, exits):
        """for over an object with __next__, while it is known when it ends"""
        brk = []
        for _ in range(self.unroll):
            stop = []
            self.raise_sink.append(stop)
            try:
                v = self.call(self.getattr(it, '__next__'), [], {})
            except Dead:
                v = None
            finally:
                self.raise_sink.pop()
            ends = [e for e in stop if self.exc_name(e.val) == 'StopIteration']
            exits.extend(e for e in stop if self.exc_name(e.val) != 'StopIteration')
            if ends:
                if self.st is not None:
                    raise Unsupported('loop with unknown number of iterations')
                self.st = ends[0].st
                if s.orelse:
                    self.exec_block(s.orelse, fr, exits)
                break
            if v is None or self.st is None:
                break
            self.assign(s.target, v, fr)
            inner = []
            self.exec_block(s.body, fr, inner)
            for e in inner:
                if e.kind == 'continue':
                    self.st = self.merge(e.st[PC], e.st, self.st)
                elif e.kind == 'break':
                    brk.append(e)
                else:
                    exits.append(e)
            if self.st is None:
                break
        else:
            raise Unsupported('loop with unknown number of iterations')
        for e in brk:
            self.st = self.merge(e.st[PC], e.st, self.st)

    def s_With(self, s, fr, exits):
        vals = []
        for item in s.items:
            v = self.ev(item.context_expr, fr)
            got = v
            if self.managed(v):
                got = self.call(self.getattr(v, '__enter__'), [], {})
            else:
                self.emit('enter', self.D(v))
            vals.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, got, fr)
        inner = []
        self.raise_sink.append(inner)
        try:
            self.exec_block(s.body, fr, inner)
        finally:
            self.raise_sink.pop()
        st = self.st

        def leave():
            for v in reversed(vals):
                if self.managed(v):
                    self.call(self.getattr(v, '__exit__'), [NONE, NONE, NONE], {})
                else:
                    self.emit('exit', self.D(v))
        for e in inner:
            self.st = e.st
            try:
                leave()
            except Dead:
                continue
            e.st = self.st
            exits.append(e)
        self.st = st
        if st is not None:
            leave()

    def managed(self, v):
        if v.op == 'ite':
            return self.managed(v.args[1])
        return v.op == 'ref' and v.args[1] == 'inst' and self.find_attr(self.inst_class(v), '__enter__') is not None

    def handler_names(self, h, fr):
        if h.type is None:
            return ['*']
        t = self.ev(h.type, fr)
        parts = T.seq_fixed(t) if t.op == 'seq' else [t]
        return [self.exc_name(p) or '*' for p in parts]

    def s_Try(self, s, fr, exits):
        handlers = [(self.handler_names(h, fr), h) for h in s.handlers]
        names = [n for ns, _ in handlers for n in ns]
        inner = []
        self.try_stack.append(names)
        self.raise_sink.append(inner)
        try:
            self.exec_block(s.body, fr, inner)
        finally:
            self.raise_sink.pop()
            self.try_stack.pop()
        out = []
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, fr, out)
        norm = self.st
        for e in inner:
            if e.kind != 'raise':
                out.append(e)
                continue
            nm = self.exc_name(e.val) or 'Exception'
            for ns, h in handlers:
                if any(self.exc_matches(nm, n) for n in ns):
                    self.st = e.st
                    self.st[('v', fr.id, '<exc>')] = e.val
                    if h.name:
                        self.store_name(h.name, e.val, fr)
                    hex_ = []
                    self.raise_sink.append(hex_)
                    c = self.st[PC]
                    self.exec_block(h.body, fr, hex_)
                    self.raise_sink.pop()
                    out.extend(hex_)
                    if self.st is not None:
                        norm = self.merge(self.st[PC], self.st, norm)
                    break
            else:
                out.append(e)
        self.st = norm
        if s.finalbody:
            if self.st is not None:
                fin = []
                self.exec_block(s.finalbody, fr, fin)
                exits.extend(fin)
                norm = self.st
            for e in out:
                self.st = e.st
                fin = []
                self.exec_block(s.finalbody, fr, fin)
                exits.extend(fin)
                if self.st is not None:
                    e.st = self.st
                    exits.append(e)
            self.st = norm
        else:
            exits.extend(out)

    # ------------------------------------------------------------ loops
    def for_each(self, it, bind, body, fr, exits, orelse=()):
        items = self.iter_fixed(it)
        if items is not None:
            if len(items) > 400:
                raise Unsupported('loop over a long constant')
            brk = []
            for v in items:
                if self.st is None:
                    break
                bind(v)
                inner = []
                body(inner)
                conts = []
                for e in inner:
                    if e.kind == 'continue':
                        conts.append(e)
                    elif e.kind == 'break':
                        brk.append(e)
                    else:
                        exits.append(e)
                for e in conts:
                    self.st = self.merge(e.st[PC], e.st, self.st)
            if self.st is not None and orelse:
                self.exec_block(orelse, fr, exits)
            for e in brk:
                self.st = self.merge(e.st[PC], e.st, self.st)
            return
        n, item = self.iter_index(it)
        self.loop(fr, exits, body, orelse, n=n, item=item, bind=bind)

    def iter_fixed(self, it):
        """items of an iterable of known length, else None"""
        t = it
        if is_ref(t):
            if t.args[1] in ('list', 'box'):
                t = self.content(t)
            elif t.args[1] == 'dict':
                ks = self.model.dict_fixed(self.content(t))
                return None if ks is None else [k for k, _ in ks]
            elif t.args[1] == 'set':
                return T.seq_fixed(self.content(t)) if self.content(t).op == 'seq' else None
            elif t.args[1] == 'iter':
                raise Unsupported('loop over an iterator object')
        if t.op == 'seq' and t.args[0] == 'dict':
            return [p.args[1] for p in t.args[1:]]
        if t.op in ('zip', 'enum', 'rev'):
            if t.op == 'zip':
                cols = [self.iter_fixed(x) for x in t.args]
                if any(c is None for c in cols):
                    # stop at the shortest known only if all are known
                    return None
                return [seq('tuple', list(xs)) for xs in zip(*cols)]
            if t.op == 'enum':
                xs = self.iter_fixed(t.args[0])
                return None if xs is None else [seq('tuple', [padd(K(i), t.args[1]), x])
                                                for i, x in enumerate(xs)]
            xs = self.iter_fixed(t.args[0])
            return None if xs is None else list(reversed(xs))
        if t.op == 'range':
            a, b, c = t.args
            if all(T.is_kint(x) for x in t.args):
                r = range(kval(a), kval(b), kval(c))
                if len(r) <= 400:
                    return [K(i) for i in r]
            return None
        if t.op == 'k' and t.args[0] == 'str':
            return [K(ch) for ch in t.args[1]]
        if t.op in ('array', 'vec') and self.arrays:
            t = t.args[0]
        if self.arrays and t.op not in ('seq', 'Fs', 'k') and T.seq_fixed(t) is None:
            d = self.model.declared(t)
            if d is not None and d[0] and T.is_kint(d[0][0]) and kval(d[0][0]) <= 400:
                return [self.getitem(it, K(k)) for k in range(kval(d[0][0]))]
        return T.seq_fixed(t)

    def iter_index(self, it):
        """(length, item function) of an iterable"""
        t = it
        if is_ref(t):
            if t.args[1] in ('list', 'box'):
                base = t
                t = self.content(t)
            elif t.args[1] in ('dict', 'set'):
                t = raw('keys', self.D(t))
        if t.op == 'range':
            a, b, c = t.args
            if c is K(1):
                n = psub(b, a)
            else:
                n = self.model.ceildiv(psub(b, a), c)
            n = self.model.nonneg(n)
            return n, lambda i: padd(a, pmul(c, i))
        if t.op == 'zip':
            subs = [self.iter_index(x) for x in t.args]
            n = self.model.minlen([x[0] for x in subs])
            return n, lambda i: seq('tuple', [f(i) for _, f in subs])
        if t.op == 'enum':
            n, f = self.iter_index(t.args[0])
            return n, lambda i: seq('tuple', [padd(t.args[1], i), f(i)])
        if t.op == 'rev':
            n, f = self.iter_index(t.args[0])
            return n, lambda i: f(psub(psub(n, K(1)), i))
        if t.op == 'ite':
            ns = lift(lambda x: self.iter_index(x)[0], t)
            return ns, lambda i: lift(lambda x: self.iter_index(x)[1](i), t)
        if t.op == 'mapit':         # (bv, n, body) lazily mapped iterable
            b, n, e = t.args
            return n, lambda i: subst(e, {b: i})
        t = self.D(t)
        return seq_len(t), lambda i: self.model.item(t, i)

    def loop(self, fr, exits, body, orelse, n=None, item=None, bind=None, cond=None):
        if isinstance(body, list):
            stmts = body
            body = lambda ex: self.exec_block(stmts, fr, ex)     # noqa: E731
        base = self.st
        i = fresh_bv()
        W = {}
        E = None
        for _ in range(12):
            st = dict(base)
            st[PC] = TRUE
            st[EV] = seq('ev', [])
            for k, m in W.items():
                st[k] = m
            self.st = st
            inner = []
            c = TRUE
            if cond is not None:
                self.raise_sink.append(inner)
                c = self.truth(self.ev(cond, fr))
                self.raise_sink.pop()
                if c is FALSE:
                    self.st = base
                    if orelse:
                        self.exec_block(orelse, fr, exits)
                    return
                self.narrow(c)
                self.st[PC] = c_and(self.st[PC], c)
                cev = self.st[EV]
            head = dict(self.st)
            if bind is not None:
                bind(item(i))
            body(inner)
            endst = self.st
            for e in inner:
                if e.kind == 'continue':
                    endst = self.merge(e.st[PC], e.st, endst)
            rest = [e for e in inner if e.kind in ('return', 'raise', 'break')]
            changed = set()
            for stx in [endst] + [e.st for e in rest]:
                if stx is None:
                    continue
                for k in base:
                    if k in (EV, PC):
                        continue
                    if k in stx and stx[k] is not W.get(k, base[k]):
                        changed.add(k)
            new = [k for k in changed if k not in W]
            if not new:
                break
            for k in new:
                W[k] = raw('mu', next(_mu), 'x', T.kind(base[k]) if not is_ref(base[k]) else 'any')
        else:
            raise Unsupported('loop analysis does not converge')
        self.finish_loop(fr, exits, base, W, i, n, endst, rest, c, cond, orelse)

    def narrow(self, c):
        """use x == const from a loop condition"""
        if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE and c.args[0].op == 'eq':
            x, k = c.args[0].args
            if x.op == 'mu' and is_k(k):
                for kk, v in list(self.st.items()):
                    if v is x:
                        self.st[kk] = k

    def finish_loop(self, fr, exits, base, W, i, n, endst, rest, c, cond, orelse):
        mus = {m: k for k, m in W.items()}
        E = {}
        if endst is not None:
            self.st = endst
            for k, m in W.items():
                v = endst.get(k, UNDEF)
                # objects created in the loop body are known by their content only
                E[m] = self.expand_new(v, base, lazy=k[0] == 'v')
        # --- invariants (optimistic)
        sol = {}
        if endst is not None:
            cand = {m: base[k] for k, m in W.items()}
            while cand:
                bad = [m for m in cand if subst(E[m], cand) is not cand[m]]
                if not bad:
                    break
                for m in bad:
                    del cand[m]
            sol.update(cand)
        else:
            sol.update({m: base[k] for k, m in W.items()})
        # --- while loops that count
        trips = n
        if cond is not None:
            trips = None
            cc = subst(c, sol)
            if cc.op == 'ite' and cc.args[0].op == 'neg' and endst is not None \
                    and {cc.args[1], cc.args[2]} == {TRUE, FALSE}:
                p = cc.args[0].args[0]
                neg_true = cc.args[1] is TRUE
                d = p if neg_true else psub(K(-1), p)   # loop while d < 0  (integers)
                step = psub(subst(d, {m: subst(E[m], sol) for m in mus if m not in sol}), d)
                if T.is_num(step) and step.args[1] > 0 and any(occurs(m, d) for m in mus):
                    d0 = subst(d, {m: base[k] for m, k in mus.items() if m not in sol})
                    trips = self.model.nonneg(self.model.ceildiv(psub(K(0), d0), step))
            if trips is None:
                trips = raw('trips')
        n = trips
        # --- closed forms
        final = {}
        pend = [m for m in mus if m not in sol]
        progress = True
        while progress and pend:
            progress = False
            for m in list(pend):
                e = subst(E[m], sol)
                init = base[mus[m]]
                if is_ref(init) and init.args[1] not in ('inst', 'py'):
                    try:
                        init = self.D_in(init, base)
                    except Unsupported:
                        pass
                r = self.close(m, e, init, i, n, mus)
                if r is not None:
                    sol[m], final[m] = r
                    pend.remove(m)
                    progress = True
        if pend:
            self.fold(pend, E, sol, final, base, mus, i, n, c if cond is not None else None)
        # --- state after the loop
        ites = {}
        out = dict(base)
        for m, k in mus.items():
            if m in final:
                out[k] = final[m]
        if endst is not None:
            for k in endst:
                if k not in base and k not in (EV, PC):
                    if k[0] == 'v':
                        v = endst[k]
                        self.st = endst
                        v = self.expand_new(v, base, lazy=True)
                        out[k] = self.lastv(subst(v, sol), UNDEF, i, n)
                    elif k[0] in ('c', 'a', 'g'):
                        out[k] = subst(endst[k], sol)
            evb = subst(endst[EV], sol)
            if len(evb.args) > 1:
                out[EV] = seq('ev', list(base[EV].args[1:]) + [seg(mk_map(i, n, evb))])
        # --- exits
        live = []
        for e in rest:
            ce = subst(e.st[PC], sol)
            if ce is FALSE:
                continue
            live.append((e, ce))
        pc0 = base[PC]
        if not live:
            self.st = out
            if endst is None and cond is None:
                pass
            if orelse and self.st is not None:
                self.exec_block(orelse, fr, exits)
            return
        allc = FALSE
        for e, ce in live:
            allc = c_or(allc, ce)
        if allc is TRUE:
            hit = c_not(self.model.eq(n, K(0))) if n.op != 'trips' else FALSE
            if n.op == 'trips':
                # `while cond:` left by return in the first iteration
                hit = subst(c, {m: base[k] for m, k in mus.items()})
            k = K(0)
        else:
            hit = mk_any(i, n, allc)
            k = mk_first(i, n, allc)
        kept = []
        brk = None
        for e, ce in live:
            self.st = e.st
            m = {i: k}
            solk = {mm: subst(v, {i: k}) if isinstance(v, Term) else v for mm, v in sol.items()}
            sub = lambda t: subst(subst(t, solk), m)             # noqa: E731
            st = dict(base)
            for kk in e.st:
                if kk in (EV, PC):
                    continue
                if e.st[kk] is not base.get(kk):
                    st[kk] = sub(e.st[kk])
            evs = list(base[EV].args[1:])
            if endst is not None and len(endst[EV].args) > 1 and k is not K(0):
                evs.append(seg(mk_map(i, k, subst(endst[EV], sol))))
            evs += list(sub(e.st[EV]).args[1:])
            st[EV] = seq('ev', evs)
            cek = subst(ce, m)
            if allc is ce:
                cek = TRUE
            st[PC] = c_and(pc0, c_and(hit, cek))
            val = sub(e.val)
            if e.kind == 'break':
                brk = st if brk is None else self.merge(st[PC], st, brk)
            else:
                exits.append(Exit(e.kind, val, st, e.node))
        out[PC] = c_and(pc0, c_not(hit))
        self.st = out if out[PC] is not FALSE else None
        if orelse and self.st is not None:
            self.exec_block(orelse, fr, exits)
        if brk is not None:
            self.st = self.merge(brk[PC], brk, self.st)

    def D_in(self, t, st):
        saved, self.st = self.st, st
        try:
            return self.D(t)
        finally:
            self.st = saved

    def positional(self, name, args, kw):
        """arguments of a method known by its name only, in the order of its one definition in the package"""
        sigs = set()
        for m in self.modules.values():
            if m is None or not m.name.startswith(self.package + '.'):
                continue
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef) and f.name == name:
                            a = f.args
                            if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or f.decorator_list:
                                return args, kw
                            names = [x.arg for x in a.args][1:]
                            sigs.add((tuple(names), tuple(ast.dump(d) for d in a.defaults)))
                            defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        if len(sigs) != 1:
            return args, kw
        (names, _), = sigs
        if len(args) > len(names) or set(kw) - set(names[len(args):]):
            return args, kw
        out = list(args)
        for n in names[len(args):]:
            if n in kw:
                out.append(kw[n])
            elif isinstance(defaults.get(n), ast.Constant):
                out.append(K(defaults[n].value))
            else:
                break
        else:
            return out, {}
        return args, kw

    def expand_new(self, v, base, lazy=False, pc=None):
        if not has_ref(v):
            return v
        if lazy:
            # a variable that is not used any more may hold anything
            try:
                return self.expand_new(v, base)
            except Overwritten:
                return raw('overwritten')
        if is_ref(v):
            if ('c', v) in base or v.args[1] in ('inst',):
                return v
            return self.expand_new(self.content(v, pc), base, pc=pc) if ('c', v) in self.st else v
        if v.op == 'py':
            return v
        if v.op == 'ite':
            return self.each_way(v, lambda x, pc: self.expand_new(x, base, pc=pc), pc)
        return rebuild(v, lambda x: self.expand_new(x, base, pc=pc))

    def lastv(self, e, init, i, n):
        if i not in fv(e):
            if init is UNDEF:
                return e
            return mk_ite(self.model.eq(n, K(0)), init, e)
        l = subst(e, {i: psub(n, K(1))})
        if init is UNDEF:
            return l
        return mk_ite(self.model.eq(n, K(0)), init, l)

    def close(self, m, e, init, i, n, mus):
        """closed form of a location: (value at iteration i, value after n iterations)"""
        e = self.aligned(m, e, init, i)
        others = [x for x in fv(e) if x.op == 'mu' and x in mus]
        if not others:
            if i in fv(e) and subst(e, {i: K(-1)}) is init:
                # the value that iteration i computes is the one iteration i + 1 starts from
                return subst(e, {i: psub(i, K(1))}), subst(e, {i: psub(n, K(1))})
            prev = raw('prev', i, init, e) if i in fv(e) else mk_ite(self.model.eq(i, K(0)), init, e)
            if n.op == 'trips':
                return prev, mk_ite(T.atom('eq', n, K(0)), init, subst(e, {i: psub(n, K(1))}))
            return prev, self.lastv(e, init, i, n)
        if others != [m]:
            return None
        # induction
        if T.kind(init) in ('num',) or (T.kind(init) in ('any', 'arr') and e.op == 'poly'):
            d = psub(e, m)
            if m not in fv(d):
                if i not in fv(d):
                    return padd(init, pmul(d, i)), padd(init, pmul(d, n))
                return (padd(init, mk_psum(i, i, d)), padd(init, mk_psum(i, n, d)))
        # accumulation
        if init.op == 'seq' and init.args[0] in ('list', 'tuple', 'ev') or T.kind(init) == 'seq':
            d = strip_prefix(e, m)
            if d is not None and m not in fv(d):
                kd = init.args[0] if init.op == 'seq' else 'list'
                body = seq(kd, [seg(d)]) if d.op != 'seq' else seq(kd, d.args[1:])
                mk = lambda nn: seq(kd, as_parts(init) + [seg(mk_map(i, nn, body))])   # noqa: E731
                return mk(i), mk(n)
        if T.kind(init) in ('str', 'bytes'):
            d = strip_cat(e, m)
            if d is not None and m not in fv(d):
                mk = lambda nn: self.model.cat([init, raw('catmap', *mk_bind(i, nn, d))])   # noqa: E731
                return mk(i), mk(n)
        if (init.op == 'seq' and init.args[0] == 'dict') or init.op in ('dstore', 'dictmap'):
            d = strip_dict(e, m)
            if d is not None:
                kk, vv, cc = d
                if m not in fv(kk) and m not in fv(vv) and m not in fv(cc):
                    mk = lambda nn: self.model.mk_dictmap(init, i, nn, kk, vv, cc)      # noqa: E731
                    return mk(i), mk(n)
        if (init.op == 'seq' and init.args[0] == 'set') or init.op == 'union':
            d = strip_set(e, m)
            if d is not None and m not in fv(d):
                mk = lambda nn: self.model.set_union(                                      # noqa: E731
                    init, raw('setof', mk_map(i, nn, d)))
                return mk(i), mk(n)
        return None

    def aligned(self, m, e, init, i):
        """stream positions: a loop that starts at a line and reads whole lines stays at line starts"""
        am = raw('align', m)
        if am not in T.subterms(e):
            return e
        from .model import coeffs4
        e2 = subst(e, {am: m})
        d = psub(e2, m)
        if coeffs4(init) and m not in fv(d) and coeffs4(d):
            return e2
        return e

    def fold(self, pend, E, sol, final, base, mus, i, n, cond):
        """general recursion: opaque but canonical"""
        for m in pend:
            order = [m]
            k = 0
            while k < len(order):
                e = subst(E[order[k]], {x: v for x, v in sol.items() if x not in pend})
                for x in mu_order(e):
                    if x in mus and x not in order:
                        order.append(x)
                k += 1
            bodies = [subst(E[x], {y: v for y, v in sol.items() if y not in pend}) for x in order]
            cc = subst(cond, {y: v for y, v in sol.items() if y not in pend}) if cond is not None else TRUE
            lv = 1 + max([T.fold_level(x) for x in bodies + [cc]])      # distinct from the names of inner folds
            ren = {x: raw('sym', 'fold', lv, j) for j, x in enumerate(order)}
            ren[i] = raw('sym', 'foldi', lv)
            bodies = [subst(x, ren) for x in bodies]
            cc = subst(cc, ren)
            inits = []
            for x in order:
                v = base[mus[x]]
                if is_ref(v) and v.args[1] != 'inst':
                    v = self.D_in(v, base)
                inits.append(v)
            nn = n if n.op != 'trips' else TRUE
            final[m] = raw('fold', nn, cc, seq('tuple', inits), seq('tuple', bodies), K(lv))
            sol[m] = raw('foldat', i, final[m])

    # ------------------------------------------------------------ assignment
    def name_key(self, name, fr):
        f = fr
        if getattr(fr, 'is_module', False):
            return ('g', fr.module.name, name)
        if name in f.locals:
            return ('v', f.id, name)
        if name in f.globals:
            return ('g', fr.module.name, name)
        f = f.parent
        while f is not None and not getattr(f, 'is_module', False):
            if name in f.locals and not f.isclass:
                return ('v', f.id, name)
            if name in f.globals:
                break
            f = f.parent
        return ('g', fr.module.name, name)

    def store_name(self, name, v, fr):
        self.st[self.name_key(name, fr)] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, self.box_value(v), fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for j in range(k):
                    self.assign(t.elts[j], self.getitem(v, K(j)), fr)
                sl = self.getitem(v, raw('slice', K(k), K(-after) if after else NONE, NONE))
                self.assign(t.elts[k].value, self.new_ref('list', self.as_seq(sl, 'list')), fr)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j], self.getitem(v, K(j - after)), fr)
                return
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        t = v
        if is_ref(t) and t.args[1] in ('list', 'box'):
            t = self.content(t)
        items = T.seq_fixed(t)
        if items is not None:
            if len(items) != n:
                self.emit('badunpack', K(len(items)), K(n))
                self.do_raise(raw('exc', 'ValueError'))
            return items
        if t.op == 'node':                                  # a table or array read from the file: as many rows
            self.emit('badunpack', K(1), K(n))
        return [self.getitem(v, K(k)) for k in range(n)]

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        if self.st is None:
            raise Dead()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return K(n.value)

    def e_Name(self, n, fr):
        k = self.name_key(n.id, fr)
        v = self.st.get(k)
        if v is not None and k[0] != 'v' or v is not None and v is not UNDEF:
            if v.op == 'overwritten':
                return self.settled(v)
            if v.op != 'ite':
                return v
            if any(x.op == 'overwritten' for x in self.model.leaves_(v)):
                v = self.under_pc(v, self.st[PC])
                if any(x.op == 'overwritten' for x in self.model.leaves_(v)):
                    return self.settled(raw('overwritten'))
            v = self.under_pc(v, self.st[PC])
            if v.op == 'ite' and any(x is UNDEF for x in self.model.leaves_(v)):
                self.do_raise(raw('exc', 'NameError'), self.cond_where(v, lambda x: x is UNDEF))
                v = self.under_pc(v, self.st[PC])
            if v is not UNDEF:
                return v
        if k[0] == 'v':
            if v is UNDEF or v is None:
                if fr.isclass or getattr(fr, 'is_module', False):
                    v = self.st.get(('g', fr.module.name, n.id))
                    if v is not None:
                        return v
                else:
                    self.emit('unbound', K(n.id))
                    self.do_raise(raw('exc', 'NameError'))
        b = self.model.builtin(n.id)
        if b is not None:
            return b
        if n.id in BUILTIN_EXC or n.id in BUILTIN_TYPES:
            return ext(n.id)
        self.emit('unbound', K(n.id))
        self.do_raise(raw('exc', 'NameError'))

    def under_pc(self, v, pc):
        """the alternatives of a gated value that are left on the current path"""
        if v.op != 'ite' or pc is TRUE:
            return v
        a, x, y = v.args
        pa, pn = T.c_and(pc, mk_ite(a, TRUE, FALSE)), T.c_and(pc, mk_ite(a, FALSE, TRUE))
        if pa is FALSE and pn is FALSE:
            return v
        if pa is FALSE:
            return self.under_pc(y, pn)
        if pn is FALSE:
            return self.under_pc(x, pa)
        x2, y2 = self.under_pc(x, pa), self.under_pc(y, pn)
        return v if x2 is x and y2 is y else mk_ite(mk_ite(a, TRUE, FALSE), x2, y2)

    def cond_where(self, v, pred):
        if v.op == 'ite':
            a = v.args[0]
            return mk_ite(mk_ite(a, TRUE, FALSE), self.cond_where(v.args[1], pred), self.cond_where(v.args[2], pred))
        return TRUE if pred(v) else FALSE

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getitem(o, self.ev_index(n.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Index):                             # pragma: no cover
            s = s.value
        return self.ev(s, fr)

    def e_Slice(self, n, fr):
        f = lambda x: self.ev(x, fr) if x is not None else NONE  # noqa: E731
        return raw('slice', f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, fr):
        return seq('tuple', self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(as_parts(self.as_seq(self.ev(x.value, fr))))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, n, fr):
        return self.new_list(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.new_ref('set', seq('set', self.elts(n.elts, fr)))

    def e_Dict(self, n, fr):
        d = seq('dict', [])
        for k, v in zip(n.keys, n.values):
            if k is None:
                for kk, vv in self.model.dict_fixed_or_fail(self.D(self.ev(v, fr))):
                    d = self.model.dict_set(d, kk, vv)
            else:
                kv = self.D(self.ev(k, fr))
                d = self.model.dict_set(d, kv, self.ev(v, fr))
        return self.new_ref('dict', d)

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fr)
                    if not is_k(sp):
                        raise Unsupported('format spec')
                    spec = kval(sp)
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ''
                parts.append(self.model.fmt(self.D(x), spec, conv))
        return self.model.cat(parts)

    def e_FormattedValue(self, n, fr):
        return self.e_JoinedStr(ast.JoinedStr([n]), fr)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.model.binop(type(n.op).__name__, a, b)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        op = type(n.op).__name__
        if op == 'Not':
            return c_not(self.truth(v))
        if op == 'USub':
            return self.model.neg(self.D(v))
        if op == 'UAdd':
            return v
        return self.model.invert(self.D(v))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        vals = n.values

        def go(k):
            v = self.ev(vals[k], fr)
            if k == len(vals) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(k + 1), lambda: v if v.op != 'ite' or not is_diag(v) else FALSE)
            return self.branch(c, lambda: v if v.op != 'ite' or not is_diag(v) else TRUE, lambda: go(k + 1))
        return go(0)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        out = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            c = self.model.compare(type(op).__name__, left, right)
            out = c if out is None else self.model.land(out, c)
            left = right
        return out

    def e_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        return self.branch(c, lambda: self.ev(n.body, fr), lambda: self.ev(n.orelse, fr))

    def e_Lambda(self, n, fr):
        f = Func(n, fr.module, None if getattr(fr, 'is_module', False) else fr)
        f.defaults = [self.ev(d, fr) for d in n.args.defaults]
        return py(f)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    def comp(self, n, fr, add):
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        keys = [self.name_key(x, fr) for x in names]
        saved = {k: self.st.get(k) for k in keys}

        def gen(k, exits):
            if k == len(n.generators):
                add()
                return
            g = n.generators[k]

            def body(ex):
                self.raise_sink.append(ex)
                try:
                    conds = TRUE
                    for t in g.ifs:
                        conds = c_and(conds, self.truth(self.ev(t, fr)))
                    self.branch(conds, lambda: gen(k + 1, ex), lambda: None)
                except Dead:
                    self.st = None
                finally:
                    self.raise_sink.pop()
            it = self.iterable(self.ev(g.iter, fr))
            ex2 = []
            self.for_each(it, lambda v: self.assign(g.target, v, fr), body, fr, ex2)
            for e in ex2:
                exits.append(e)
        gen(0, self.raise_sink[-1])
        if self.st is None:
            raise Dead()
        for k, v in saved.items():
            if v is None:
                self.st.pop(k, None)
            else:
                self.st[k] = v

    def e_ListComp(self, n, fr):
        r = self.new_list()
        self.comp(n, fr, lambda: self.list_extend(r, seq('list', [self.ev(n.elt, fr)]), quiet=True))
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr):
        r = self.new_ref('set', seq('set', []))

        def add():
            v = self.D(self.ev(n.elt, fr))
            self.st[('c', r)] = self.model.set_union(self.content(r), seq('set', [v]))
        self.comp(n, fr, add)
        return r

    def e_DictComp(self, n, fr):
        r = self.new_ref('dict', seq('dict', []))

        def add():
            k = self.D(self.ev(n.key, fr))
            v = self.ev(n.value, fr)
            self.st[('c', r)] = self.model.dict_set(self.content(r), k, v)
        self.comp(n, fr, add)
        return r

    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                self.st.get(self.name_key('super', fr)) is None:
            return self.e_super(n, fr)
        f = self.ev(n.func, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(as_parts(self.as_seq(self.ev(a.value, fr))))
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                d = self.D(v)
                items = self.model.dict_fixed(d)
                if items is None:
                    kw['**'] = d
                else:
                    for kk, vv in items:
                        kw[kval(kk)] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, n)

    def e_super(self, n, fr):
        f = fr
        while f.func is None or f.func.cls is None:
            f = f.parent
            if f is None:
                raise Unsupported('super')
        cls = f.func.cls
        a = f.node.args.args[0].arg
        return py(Super(cls, self.st[('v', f.id, a)]))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        if self.st is None:
            raise Dead()
        if f.op == 'ite':
            c = T.mk_ite(raw('ite', f.args[0], TRUE, FALSE), TRUE, FALSE)
            return self.branch(c, lambda: self.call(f.args[1], args, kw, node),
                               lambda: self.call(f.args[2], args, kw, node))
        if f.op == 'py':
            o = f.args[0]
            if isinstance(o, Func):
                return self.call_func(o, args, kw)
            if isinstance(o, Bound):
                return self.call(o.func, [o.recv] + args, kw, node)
            if isinstance(o, Class):
                return self.instantiate(o, f, args, kw)
            if isinstance(o, Prim):
                return o.fn(args, kw)
            if isinstance(o, Partial):
                k2 = dict(o.kw)
                k2.update(kw)
                return self.call(o.fn, list(o.args) + args, k2, node)
        if f.op == 'ext':
            return self.model.call_ext(f.args[0], args, kw)
        if f.op == 'meth':
            return self.model.call_method(f.args[0], f.args[1], args, kw)
        if f is UNDEF:
            self.do_raise(raw('exc', 'NameError'))
        if f.op == 'ref' and f.args[1] == 'inst':
            m = self.getattr(f, '__call__')
            return self.call(m, args, kw, node)
        return self.model.call_unknown(f, args, kw)

    def instantiate(self, c, cv, args, kw):
        if 'BaseException' in self.exc_supers(c.name) and self.find_attr(c, '__init__') is None:
            return raw('exc', c.name)
        r = self.new_ref('inst')
        self.st[('a', r, '__class__')] = cv
        init = self.find_attr(c, '__init__')
        if init is not None:
            self.call(py(Bound(init, r)), args, kw)
        elif args or kw:
            if not c.ext_bases():
                self.emit('badcall', K(c.name))
                self.do_raise(raw('exc', 'TypeError'))
        return r

    def inst_class(self, r):
        c = self.st.get(('a', r, '__class__'))
        if c is None or c.op != 'py':
            raise Unsupported('class of instance')
        return c.args[0]

    def find_attr(self, c, name):
        for k in c.mro():
            v = self.st.get(('a', py(k), name))
            if v is not None:
                return v
        return None

    def call_func(self, f, args, kw):
        self.visited.add('%s:%s' % (f.module.relpath, f.name))
        if self.depth > MAXDEPTH or sum(1 for g in self.stack if g is f.node) >= self.maxrec:
            return self.model.call_opaque(f, args, kw)
        fr = Frame(f.module, f.node, f.frame, f)
        a = f.node.args
        params = getattr(a, 'posonlyargs', []) + a.args
        kw = dict(kw)
        kw.pop('**', None)
        bad = False
        vals = {}
        rest = list(args)
        for k, p in enumerate(params):
            if rest and not (isinstance(rest[0], Term) and rest[0].op == 'seg'):
                vals[p.arg] = rest.pop(0)
                if p.arg in kw:
                    bad = True
            elif rest:
                raise Unsupported('unpacked arguments of unknown number')
            elif p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            else:
                j = k - (len(params) - len(f.defaults))
                if j < 0:
                    bad = True
                    vals[p.arg] = UNDEF
                else:
                    vals[p.arg] = f.defaults[j]
        if a.vararg:
            vals[a.vararg.arg] = seq('tuple', rest)
        elif rest:
            bad = True
        for p in a.kwonlyargs:
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                vals[p.arg] = f.kwdefaults[p.arg]
            else:
                bad = True
                vals[p.arg] = UNDEF
        if a.kwarg:
            d = seq('dict', [])
            for k, v in kw.items():
                d = self.model.dict_set(d, K(k), v)
            vals[a.kwarg.arg] = self.new_ref('dict', d)
        elif kw:
            bad = True
        if bad:
            self.emit('badcall', K(f.name))
            self.do_raise(raw('exc', 'TypeError'))
        pc0 = self.st[PC]
        self.st[PC] = TRUE
        for k, v in vals.items():
            self.st[('v', fr.id, k)] = self.box_value(v)
        if f.is_gen:
            self.st[('v', fr.id, '<yield>')] = self.new_list()
        saved = self.cur
        self.cur = fr
        self.depth += 1
        self.stack.append(f.node)
        exits = []
        try:
            if isinstance(f.node, ast.Lambda):
                self.raise_sink.append(exits)
                try:
                    v = self.ev(f.node.body, fr)
                    exits.append(Exit('return', v, self.st))
                except Dead:
                    pass
                finally:
                    self.raise_sink.pop()
                self.st = None
            else:
                self.exec_block(f.node.body, fr, exits)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur = saved
        if self.st is not None:
            exits.append(Exit('return', NONE, self.st, f.node))
        rets = []
        for e in exits:
            if e.kind == 'return':
                if f.is_gen:
                    e.val = e.st[('v', fr.id, '<yield>')]
                rets.append(e)
            elif e.kind == 'raise':
                e.st[PC] = c_and(pc0, e.st[PC])
                self.drop_frame(e.st, fr)
                if e.st[PC] is not FALSE:
                    self.raise_sink[-1].append(e)
            else:
                raise Unsupported('break outside loop')
        if not rets:
            self.st = None
            raise Dead()
        val, st = self.merge_exits(rets)
        st[PC] = c_and(pc0, st[PC])
        self.drop_frame(st, fr)
        self.st = st
        if st[PC] is FALSE:
            self.st = None
            raise Dead()
        return val

    maxrec = 2

    def drop_frame(self, st, fr):
        if fr.keep:
            return
        for k in [k for k in st if k[0] == 'v' and k[1] == fr.id]:
            del st[k]

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if o.op == 'ite':
            return self.lift_ref(o, lambda x: self.getattr(x, name))
        if o is NONE and not (name.startswith('__') and name.endswith('__')):
            self.do_raise(raw('exc', 'AttributeError'))
        if o.op == 'py':
            p = o.args[0]
            if isinstance(p, Module):
                v = self.gget(p.name, name)
                if v is not None:
                    return v
                m = self.load(p.name + '.' + name)
                if m is not None:
                    return py(m)
                self.emit('noattr', K(p.name), K(name))
                self.do_raise(raw('exc', 'AttributeError'))
            if isinstance(p, Class):
                v = self.find_attr(p, name)
                if v is not None:
                    return self.bind_attr(v, None)
                if name in ('__name__',):
                    return K(p.name)
                if name == '__mro__' or name == '__dict__':
                    raise Unsupported(name)
                if p.ext_bases():
                    return raw('meth', o, name)
                self.emit('noattr', K(p.name), K(name))
                self.do_raise(raw('exc', 'AttributeError'))
            if isinstance(p, Super):
                mro = self.inst_class(p.recv).mro() if p.recv.op == 'ref' else p.cls.mro()
                k = mro.index(p.cls) if p.cls in mro else -1
                for c in mro[k + 1:]:
                    v = self.st.get(('a', py(c), name))
                    if v is not None:
                        return py(Bound(v, p.recv))
                return raw('meth', raw('superobj'), name)
            if isinstance(p, (Func, Bound)):
                if name == '__name__':
                    return K(p.name if isinstance(p, Func) else 'method')
                raise Unsupported('attribute of function')
        if o.op == 'ref' and o.args[1] == 'inst':
            v = self.st.get(('a', o, name))
            if v is not None and v.op == 'ite' and any(x is DELETED for x in self.model.leaves_(v)):
                self.do_raise(raw('exc', 'AttributeError'), self.cond_where(v, lambda x: x is DELETED))
                v = lift(lambda x: NONE if x is DELETED else x, v)
            if v is not None and v is not UNDEF and v is not DELETED:
                return v
            if name == '__dict__':
                return raw('instdict', o)
            c = self.inst_class(o)
            v = self.find_attr(c, name)
            if v is not None:
                return self.bind_attr(v, o, c)
            if c.ext_bases():
                return raw('meth', o, name)
            g = self.find_attr(c, '__getattr__')
            if g is not None:
                return self.call(py(Bound(g, o)), [K(name)], {})
            self.emit('noattr', K(c.name), K(name))
            self.do_raise(raw('exc', 'AttributeError'))
        v = self.st.get(('a', o, name))
        if v is not None:
            return v
        return self.model.getattr(o, name)

    def bind_attr(self, v, recv, cls=None):
        if v.op == 'py' and isinstance(v.args[0], Func):
            f = v.args[0]
            if 'staticmethod' in f.deco:
                return v
            if 'classmethod' in f.deco:
                return py(Bound(v, py(cls) if cls else recv))
            if recv is None:
                return v
            if 'property' in f.deco:
                return self.call(v, [recv], {})
            return py(Bound(v, recv))
        if v.op == 'py' and isinstance(v.args[0], Prim) and recv is not None:
            return v
        return v

    def lift_ref(self, o, f):
        c = raw('ite', o.args[0], TRUE, FALSE)
        return self.branch(c, lambda: f(o.args[1]), lambda: f(o.args[2]))

    def setattr(self, o, name, v, direct=False):
        if o.op == 'ite':
            self.lift_ref(o, lambda x: (self.setattr(x, name, v), NONE)[1])
            return
        if o.op == 'py' and isinstance(o.args[0], Module):
            self.st[('g', o.args[0].name, name)] = v
            return
        if o.op == 'ref' and o.args[1] == 'inst' and not direct:
            m = self.find_attr(self.inst_class(o), '__setattr__')
            if m is not None:
                self.call(py(Bound(m, o)), [K(name), v], {})
                return
        if name == '__dict__' and o.op == 'ref' and o.args[1] == 'inst':
            items = self.model.dict_fixed(self.content(v)) if v.op == 'ref' and v.args[1] == 'dict' else None
            if items is None or not all(T.is_kstr(k) for k, _ in items):
                raise Unsupported('attributes of an object are replaced')
            self.forget(o)
            for k, x in items:
                self.setattr(o, kval(k), x, True)
            return
        if o.op == 'ref' and o.args[1] == 'inst' or o.op == 'py':
            self.st[('a', o, name)] = self.box_value(v)
            return
        self.model.setattr(o, name, v)

    def attributes(self, o):
        """names and values of the attributes of an object"""
        return [(k[2], v) for k, v in self.st.items() if k[0] == 'a' and k[1] is o and k[2] != '__class__' and v is not DELETED and v is not UNDEF]

    def forget(self, o):
        for n, v in self.attributes(o):
            self.st[('a', o, n)] = DELETED

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if o.op == 'ite' and has_ref(o):
            return self.lift_ref(o, lambda x: self.getitem(x, i))
        if o.op == 'ref':
            k = o.args[1]
            if k == 'list':
                c = self.content(o)
                if i.op == 'slice':
                    return self.new_ref('list', self.as_seq(self.model.getitem(c, i), 'list'))
                return self.model.getitem(c, self.D(i))
            if k == 'dict':
                return self.model.dict_get(self.content(o), self.D(i))
            if k == 'inst':
                m = self.getattr(o, '__getitem__')
                return self.call(m, [i], {})
            if k == 'box':
                r = self.model.getitem(self.content(o), self.D(i))
                if self.model.is_view_index(i) and r.op not in ('k', 'seq', 'F'):
                    b = self.new_box(r, set(self.prov.get(o, ())) | {o})
                    self.views[b] = (o, self.D(i))
                    return b
                if r.op not in ('k', 'seq', 'F', 'ref') and (self.model.is_basic_index(i) or T.is_kstr(self.D(i))):
                    return self.new_box(r, set(self.prov.get(o, ())) | {o})
                return r
        if o.op == 'instdict':
            return self.getattr(o.args[0], kval(i))
        r = self.model.getitem(o, self.D(i))
        return self.new_box(r) if o.op == 'node' and i.op == 'slice' and r.op in ('node', 'sub') else r

    def setitem(self, o, i, v):
        if o.op == 'ite':
            self.lift_ref(o, lambda x: (self.setitem(x, i, v), NONE)[1])
            return
        if o.op == 'ref':
            k = o.args[1]
            if k == 'dict':
                self.st[('c', o)] = self.model.dict_set(self.content(o), self.D(i), v)
                return
            if k == 'list':
                c = self.content(o)
                self.emit('setitem', raw('obj', 'list'), self.D(i), self.D(v))
                self.st[('c', o)] = self.model.seq_set(c, self.D(i), v)
                return
            if k == 'inst':
                self.call(self.getattr(o, '__setitem__'), [i, v], {})
                return
            if k == 'box':
                c = self.content(o)
                if self.model.is_buffer(c):
                    self.emit('bufset', o, self.model.buffer_of(c), self.D(i), self.D(v))
                    return
                self.mutate(o, self.model.arr_setitem(c, self.D(i), self.D(v)))
                return
        if o.op == 'instdict':
            self.setattr(o.args[0], kval(i), v, True)
            return
        self.model.setitem(o, i, v)

    # ------------------------------------------------------------ sequences
    def as_seq(self, v, kind=None):
        """sequence term of the items of v"""
        t = v = self.iterable(v) if is_ref(v) and v.args[1] == 'inst' else v
        if is_ref(t):
            k = t.args[1]
            if k in ('list', 'box'):
                t = self.content(t)
            elif k == 'dict':
                ks = self.model.dict_fixed(self.content(t))
                t = seq('list', [a for a, _ in ks]) if ks is not None else raw('keys', self.D(t))
            elif k == 'set':
                t = self.content(t)
                if t.op == 'seq':
                    t = seq('list', t.args[1:])
            elif k == 'iter':
                if self.content(t) is not K(0):
                    raise Unsupported('rest of an iterator')
                return self.as_seq(self.itersrc[t], kind)
        if t.op in ('zip', 'enum', 'range', 'rev', 'mapit'):
            fx = self.iter_fixed(t)
            if fx is not None:
                t = seq('list', fx)
            else:
                n, item = self.iter_index(t)
                b = fresh_bv()
                t = seq('list', [seg(mk_map(b, n, seq('list', [self.D(item(b))])))])
        if kind and t.op == 'seq' and t.args[0] != kind:
            t = raw('seq', kind, *t.args[1:])
        elif kind and t.op != 'seq':
            t = seq(kind, [seg(t)])
        return t

    def list_extend(self, r, s, quiet=False):
        if r.op == 'ite':
            self.lift_ref(r, lambda x: (self.list_extend(x, s, quiet), NONE)[1])
            return
        if not is_ref(r):
            raise Unsupported('list operation on %s' % (r,))
        c = self.content(r)
        if not quiet:
            self.emit('ext', r, s)
        if c.op == 'ite' or c.op == 'mu' or c.op != 'seq':
            self.st[('c', r)] = lift(lambda x: seq('list', as_parts(x) + as_parts(s)), c) \
                if c.op == 'ite' else seq('list', as_parts(c) + as_parts(s))
        else:
            self.st[('c', r)] = seq('list', as_parts(c) + as_parts(s))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        return self.model.truth(v)

    # ------------------------------------------------------------ running
    def run(self, f, args, kw=None, pc=TRUE):
        """analyse one call; returns (exits, state0)"""
        st0 = self.st
        self.st = dict(st0)
        self.st[PC] = pc
        self.st[EV] = seq('ev', [])
        exits = []
        self.raise_sink.append(exits)
        try:
            v = self.call(f, list(args), dict(kw or {}))
            exits.append(Exit('return', v, self.st))
        except Dead:
            pass
        finally:
            self.raise_sink.pop()
        self.st = st0
        return exits


class Dead(Exception):
    pass


# ---------------------------------------------------------------- helpers
_ref_cache = {}


def has_ref(t):
    r = _ref_cache.get(t)
    if r is None:
        r = t.op in ('ref',) or any(has_ref(a) for a in T.children(t))
        _ref_cache[t] = r
    return r


def is_diag(t):
    if t in (TRUE, FALSE):
        return True
    return t.op == 'ite' and is_diag(t.args[1]) and is_diag(t.args[2])


_mu = itertools.count()
_bv = itertools.count(10 ** 6)


def fresh_bv():
    return raw('bv', next(_bv))


_h = {}


def height(t):
    """largest index of a bound variable inside t"""
    r = _h.get(t)
    if r is None:
        r = -1
        if t.op == 'bv' and t.args[0] < 10 ** 6:
            r = t.args[0]
        for a in T.children(t):
            r = max(r, height(a))
        _h[t] = r
    return r


def mk_bind(i, n, *bodies):
    h = 1 + max([height(b) for b in bodies] + [-1])
    b = raw('bv', h)
    return (b, n) + tuple(subst(x, {i: b}) for x in bodies)


def mk_map(i, n, body):
    """sequence of the items of body for i < n"""
    if T.is_kint(n) and kval(n) <= 64:
        parts = []
        for k in range(kval(n)):
            parts.extend(as_parts(subst(body, {i: K(k)})))
        return seq(body.args[0] if body.op == 'seq' else 'list', parts)
    if body.op == 'seq' and len(body.args) == 1:
        return body
    if body.op == 'seq' and len(body.args) == 2 and body.args[0] != 'ev':
        e = body.args[1]
        if e.op == 'sub' and e.args[1] is i and i not in fv(e.args[0]) and seq_len(e.args[0]) is n:
            return e.args[0]
        if e.op == 'F' and i in fv(e.args[0]):
            d = psub(e.args[0], i)
            if i not in fv(d) and not (isinstance(e.args[1], Term) and i in fv(e.args[1])):
                return Fs(d, n, e.args[1])
    b, n, body = mk_bind(i, n, body)
    return raw('map', b, n, body)


def mk_psum(i, n, d):
    if T.is_kint(n) and kval(n) <= 64:
        r = K(0)
        for k in range(kval(n)):
            r = padd(r, subst(d, {i: K(k)}))
        return r
    last = psub(n, K(1))
    if last.op == 'bv':                     # the last of the n items apart
        return padd(mk_psum(i, last, d), subst(d, {i: last}))
    b, n, d = mk_bind(i, n, d)
    return raw('psum', n, b, d)


def mk_any(i, n, c):
    """does c hold for some i < n"""
    if i not in fv(c):
        return c_and(c, c_not(_eq0(n)))
    if T.is_kint(n) and kval(n) <= 64:
        r = FALSE
        for k in range(kval(n)):
            r = c_or(r, subst(c, {i: K(k)}))
        return r
    b, n, c = mk_bind(i, n, c)
    return T.atom('any', b, n, c)


def _eq0(n):
    return _EQ(n, K(0))


def _EQ(a, b):
    from .model import eq_num
    return eq_num(a, b)


def mk_first(i, n, c):
    b, n, c = mk_bind(i, n, c)
    return raw('first', b, n, c)


@T.register('map')
def _re_map(b, n, body):
    f = fresh_bv()
    return mk_map(f, n, subst(body, {b: f}))


@T.register('psum')
def _re_psum(n, b, d):
    f = fresh_bv()
    return mk_psum(f, n, subst(d, {b: f}))


@T.register('any')
def _re_any(b, n, c):
    f = fresh_bv()
    return mk_any(f, n, subst(c, {b: f}))


@T.register('first')
def _re_first(b, n, c):
    f = fresh_bv()
    return mk_first(f, n, subst(c, {b: f}))


def strip_prefix(e, m):
    """d with e == m ++ d"""
    if e is m:
        return seq('list', [])
    if e.op == 'seq' and len(e.args) > 1 and e.args[1].op == 'seg':
        s = e.args[1].args[0]
        if s is m:
            return raw('seq', e.args[0], *e.args[2:])
        if s.op == 'ite' or s.op == 'seq':
            d = strip_prefix(s, m)
            if d is not None:
                return seq(e.args[0], as_parts(d) + list(e.args[2:]))
    if e.op == 'ite':
        a, b = strip_prefix(e.args[1], m), strip_prefix(e.args[2], m)
        if a is not None and b is not None:
            c = raw('ite', e.args[0], TRUE, FALSE)
            return seq('list', [seg(mk_ite(c, a, b))]) if a is not b else a
    return None


def strip_cat(e, m):
    if e is m:
        return K('')
    if e.op == 'cat' and e.args[0] is m:
        from .model import mk_cat
        return mk_cat(e.args[1:])
    if e.op == 'ite':
        a, b = strip_cat(e.args[1], m), strip_cat(e.args[2], m)
        if a is not None and b is not None:
            return mk_ite(raw('ite', e.args[0], TRUE, FALSE), a, b)
    return None


def strip_dict(e, m):
    """(key, value, condition) of the single store in e on top of m"""
    if e.op == 'dstore' and e.args[0] is m:
        return e.args[1], e.args[2], TRUE
    if e.op == 'ite':
        c = raw('ite', e.args[0], TRUE, FALSE)
        if e.args[2] is m:
            d = strip_dict(e.args[1], m)
            return None if d is None else (d[0], d[1], c_and(c, d[2]))
        if e.args[1] is m:
            d = strip_dict(e.args[2], m)
            return None if d is None else (d[0], d[1], c_and(c_not(c), d[2]))
    return None


def strip_set(e, m):
    if e is m:
        return seq('set', [])
    if e.op == 'union' and e.args[0] is m:
        return e.args[1]
    if e.op == 'ite':
        a, b = strip_set(e.args[1], m), strip_set(e.args[2], m)
        if a is not None and b is not None:
            return seq('set', [seg(mk_ite(raw('ite', e.args[0], TRUE, FALSE), a, b))])
    return None


def mu_order(t):
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'mu':
            out.append(x)
        for a in T.children(x):
            go(a)
    go(t)
    return out


def merge_ev(c, a, b):
    """join of traces: common prefix, then a gate"""
    pa, pb = list(a.args[1:]), list(b.args[1:])
    k = 0
    while k < len(pa) and k < len(pb) and pa[k] is pb[k]:
        k += 1
    ra, rb = pa[k:], pb[k:]
    suf = []
    while ra and rb and ra[-1] is rb[-1]:
        suf.insert(0, ra.pop())
        rb.pop()
    if not ra and not rb:
        return seq('ev', pa[:k] + suf)
    return raw('seq', 'ev', *(pa[:k] + [seg(ev_gate(c, raw('seq', 'ev', *ra), raw('seq', 'ev', *rb)))] + suf))


def ev_gate(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return raw('evif', c, a, b)


@T.register('evif')
def _re_evif(c, a, b):
    return ev_gate(c, a, b)
