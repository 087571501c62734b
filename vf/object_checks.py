"""File and data objects: the mapping of groups, the registry of open files, closing (B02, B03)."""
import ast

from . import terms as T
from .terms import K, NONE, TRUE, FALSE, raw, seq, Unsupported
from .interp import EV, PC
from .check import Report
from .conv_checks import World, attributes, M, F, P

TECH = ('static typestate and value-flow analysis: File and the data classes are interpreted abstractly over an HDF5 library that '
        'keeps groups and attributes')
FILE = 'freesif/data/file.py: File'
CLASSES = {('STRUCTURAL', 'TOPLEVEL'): 'TopLevelData', ('STRUCTURAL', 'INTERLEVEL'): 'InterLevelData',
           ('STRUCTURAL', 'FIRSTLEVEL'): 'FirstLevelData', ('HYDRODYNAMIC', ''): 'HydroData'}


def g(path, level='FIRSTLEVEL', datatype='STRUCTURAL', filetype='T', **kw):
    if datatype == 'HYDRODYNAMIC':
        level, filetype = '', 'G'
    d = attributes(level, datatype, filetype, **kw)
    d['SELTYP'] = raw('sym', 'type of ' + path, 'num')
    d['RECORDS'] = seq('list', [K('IDENT'), K('DATE')])
    return path, d


TOP, INTER, FIRST, HYD = 'TOPLEVEL', 'INTERLEVEL', 'FIRSTLEVEL', ('', 'HYDRODYNAMIC')
TREES = {
    'nothing': [],
    'one model': [g('/T1')],
    'one model with a prefix': [g('/ab-c_T1')],
    'one results group': [g('/R12', filetype='R', INDEX=None)],
    'hydrodynamic results': [g('/G7', *HYD)],
    'a hierarchy of two levels': [g('/T9', TOP), g('/T9/T1'), g('/T9/T2')],
    'a hierarchy of three levels': [g('/T9', TOP), g('/T9/T5', INTER), g('/T9/T1'), g('/T9/T6', INTER), g('/T9/T10')],
    'a top level without lower ones': [g('/ab-T3', TOP)],
    'results of a hierarchy': [g('/R9', TOP, filetype='R')] + [g('/R9/R%d_%d' % x, filetype='R', INDEX=x[1]) for x in ((1, 1), (1, 2), (2, 1))],
    'two hierarchies with like sub-groups': [g('/xT9', TOP), g('/xT9/T1'), g('/yT9', TOP), g('/yT9/T1'), g('/yT9/T4', INTER)],
    'models of all kinds': [g('/T1'), g('/T2', TOP), g('/T2/T1'), g('/T2/T3', INTER), g('/G1', *HYD), g('/R2', TOP, filetype='R'),
                            g('/R2/R1_1', filetype='R', INDEX=1), g('/L1', filetype='L')],
    'hydrodynamic results before a model': [g('/G1', *HYD), g('/T1'), g('/T8', TOP), g('/T8/T1')],
    'a model before hydrodynamic results': [g('/T1'), g('/G2', *HYD), g('/G1', *HYD)],
    'a single model after a hierarchy': [g('/T8', TOP), g('/T8/T1'), g('/T9')],
}


class Objects(object):
    def __init__(self, w):
        self.w, self.I = w, w.I
        self.n = 0

    def start(self):
        w = self.w
        self.I.st = dict(w.base)
        w.keep, w.fail, w.failures, w.handles, w.files, w.stores, w.asked = True, False, 0, [], {}, {}, []

    def exits(self, func, args=(), kw=None):
        st = dict(self.I.st)
        st[PC] = TRUE
        st[EV] = seq('list', [])
        self.I.st = st
        return self.I.run(func, list(args), kw or {})

    def only(self, func, args=(), kw=None, allow=('NoSuchRecordError', 'ConditionError', 'IndexError')):
        """the single way a call returns; the world goes on from there"""
        ex = self.exits(func, args, kw)
        ret = [e for e in ex if e.kind == 'return']
        other = [e for e in ex if e.kind == 'raise' and e.val.args[:1] and e.val.args[0] not in allow]
        if other:
            raise Raised(other[0])
        if len(ret) != 1:
            raise Raised(ex[0]) if not ret else Unsupported('%d ways to return' % len(ret))
        self.I.st = dict(ret[0].st)
        return ret[0]

    def drive(self, name):
        return self.I.func('drive', name)

    def open(self, tree, how='File', name=None):
        """a File object of a tree"""
        self.n += 1
        name = K(name or '/d/a%d.h5' % self.n)
        self.w.stores[name] = TREES[tree] if isinstance(tree, str) else tree
        if how == 'handle':
            h = self.only(self.drive('open_hdf5'), [name])
            return self.only(self.I.func(F, 'File'), [h.val])
        return self.only(self.I.func(F, how), [name])

    def events(self, e):
        return self.w.events(e)

    def cls(self, ref):
        return self.I.inst_class(ref).name

    def attrs(self, st, ref):
        return {k[2]: v for k, v in st.items() if k[0] == 'a' and k[1] is ref}

    def group_of(self, st, ref):
        """paths of groups a data object holds"""
        out = set()
        for v in self.attrs(st, ref).values():
            if T.Term is type(v) and v.op == 'ref' and v.args[1] == 'inst' and self.I.inst_class(v).name == 'Group':
                out.add(T.kval(st[('a', v, '_v_pathname')]))
        return out

    def linked(self, st, ref):
        """other instances that an object knows"""
        return {v for v in self.attrs(st, ref).values() if T.Term is type(v) and v.op == 'ref' and v.args[1] == 'inst'}


class Raised(Exception):
    def __init__(self, e):
        self.exit = e
        Exception.__init__(self, T.show(e.val, 3))


def fixed(t, st=None):
    if t.op == 'ref' and t.args[1] in ('list', 'set') and st is not None:
        t = st[('c', t)]
    if t.op != 'seq' or any(p.op == 'seg' for p in t.args[1:]):
        raise Unsupported('mapping is not determined: %s' % T.show(t, 4)[:200])
    return list(t.args[1:])


def expected(tree):
    """[(key, path, class, key of the top level data or None)]"""
    out = []
    for path, a in tree:
        parts = path.strip('/').split('/')
        kind = CLASSES[(T.kval(a['DATATYPE']), T.kval(a['LEVEL']))]
        out.append(('/'.join(parts), path, kind, parts[0] if len(parts) > 1 else None))
    return out


def mapping(o, f, tree):
    """what is wrong with the dict interface of an open File, or None; and {key: data object}"""
    absent, default = K('no/such'), raw('sym', 'default')
    st = dict(o.I.st)
    e = o.only(o.drive('listing'), [f, absent, default])
    ev = {}
    for p in o.events(e):
        ev.setdefault(p.op, []).append(p.args)
    want = expected(tree)
    keys = [T.kval(k) if T.is_kstr(k) else k for k in fixed(ev['keys'][0][0])]
    if sorted(map(str, keys)) != sorted(k for k, _, _, _ in want):
        return 'keys() are %s, should be %s' % (sorted(map(str, keys)), sorted(k for k, _, _, _ in want)), None
    values = fixed(ev['values'][0][0])
    items = [fixed(x) for x in fixed(ev['items'][0][0])]
    if len(values) != len(keys):
        return 'values() has %d entries for %d keys' % (len(values), len(keys)), None
    ids = lambda xs: sorted(x.id for x in xs)        # noqa: E731
    if sorted(T.kval(a) for a, b in items) != sorted(keys) or ids(b for a, b in items) != ids(values):
        return 'items() do not agree with keys() and values()', None
    data = {T.kval(a): b for a, b in items}
    if ids(fixed(ev['iter'][0][0])) != ids(values):
        return 'iteration does not yield the data objects', None
    for k, a, b, c, d in ev.get('item', ()):
        for how, x in (('f[%s]' % k, a), ('get(%s)' % k, b), ('get(%s, default)' % k, c)):
            if x is not data[T.kval(k)]:
                return '%s is not the data object of this key' % how, None
        if d is not TRUE:
            return '%s in f is %s' % (k, T.show(d, 2)), None
    a, b, c = ev['absent'][0]
    if a is not NONE or b is not default or c is not FALSE:
        return 'a name that is not there: get gives %s and %s, in gives %s' % (T.show(a, 2), T.show(b, 2), T.show(c, 2)), None
    if 'keyerror' not in ev:
        return 'indexing by a name that is not there does not raise KeyError', None
    if len(set(values)) != len(values):
        return 'two names are mapped to the same data object', None
    for k, path, kind, top in want:
        v = data[k]
        if v.op != 'ref' or v.args[1] != 'inst':
            return '%r is mapped to %s' % (k, T.show(v, 3)), None
        o.I.st = dict(st)
        if o.cls(v) != kind:
            return '%r is mapped to an object of class %s, should be %s' % (k, o.cls(v), kind), None
        gr = o.group_of(st, v)
        if gr != {path}:
            return '%r is mapped to an object of group %s, should be %s' % (k, ', '.join(sorted(gr)) or '(none)', path), None
        known = o.linked(st, v)
        if f not in known:
            return 'data object %r does not know its File' % k, None
        others = known & set(values) - {v}
        if top is not None and others != {data[top]}:
            return 'data object %r knows %s as top level data, should be %r' % (k, [x for x in data if data[x] in others], top), None
        if top is None and others:
            return 'top level data object %r is linked to %s' % (k, [x for x in data if data[x] in others]), None
    o.I.st = st
    return None, data


def shut(st, h):
    v = st.get(('a', h, 'closed'))
    if v is not None and v.op != 'k':
        raise Unsupported('whether the HDF5 file is closed: %s' % T.show(v, 3))
    return v is TRUE


def handle_of(o, st, f):
    out = [v for v in o.linked(st, f) if o.I.inst_class(v).name == 'Hdf5']
    return out


def check_B03(tier):
    rep = Report('B03', tier, TECH,
                 'the dict interface of a File maps exactly the groups of the HDF5 file, each to its own object of the right class; '
                 'open files are tracked until they are closed',
                 ['group attributes are those written by sif2hdf5 (A08)'])
    try:
        w = World((M, F))
        o = Objects(w)
        o.I.func(F, 'File')
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep

    def guard(unit, where, fn):
        def one():
            try:
                bad = fn()
            except Raised as r:
                bad = '%s is raised' % T.show(r.exit.val, 3)
            if bad:
                rep.violation(unit, where, bad)
            else:
                rep.good(unit)
        rep.run(unit, one)
        rep.analysed.update(v for v in w.I.visited if v.startswith('freesif'))
    for tree in sorted(TREES):
        for order in ('as written', 'reversed'):
            t = TREES[tree]
            if order == 'reversed':
                tops = [x for x in t if x[0].count('/') == 1]
                t = [y for x in reversed(tops) for y in [x] + list(reversed([z for z in t if z[0].startswith(x[0] + '/')]))]
            for how in ('File', 'open_hdf5', 'handle'):
                def one(t=t, how=how):
                    o.start()
                    f = o.open(t, how).val
                    rep.tally('groups', len(t))
                    return mapping(o, f, t)[0]
                guard('%s with %s, groups %s' % (how, tree, order), FILE + '._load and dict interface', one)

    # two files at a time
    def live(f):
        """is a File object open: its dict interface works"""
        st = dict(o.I.st)
        ex = o.exits(o.I.getattr(f, 'keys'))
        o.I.st = st
        return all(e.kind == 'return' for e in ex)

    def closed(h):
        return shut(o.I.st, h)

    def histories(kinds, script):
        o.start()
        fs, hs, n = [], [], 0
        for step in script:
            if step == 'open':
                e = o.open(kinds[n % len(kinds)], ('File', 'open_hdf5', 'handle')[n % 3])
                fs.append(e.val)
                h = handle_of(o, e.st, e.val)
                if len(h) != 1:
                    raise Unsupported('HDF5 file of a File')
                hs.append(h[0])
                n += 1
            elif step == 'again':            # the same file once more
                e = o.open(kinds[0], 'File', '/d/a%d.h5' % o.n)
                fs.append(e.val)
                hs.append(handle_of(o, e.st, e.val)[0])
            elif step == 'all':
                o.only(o.I.func(F, 'close_all_files'))
                for k, (f, h) in enumerate(zip(fs, hs)):
                    if live(f) or not closed(h):
                        return 'file %d is still open after close_all_files (%s)' % (k + 1, ', '.join(map(str, script)))
            else:
                o.only(o.I.getattr(fs[step], 'close'))
                if live(fs[step]) or not closed(hs[step]):
                    return 'file %d is still open after close()' % (step + 1)
        return None

    def together(kinds):
        """several open files do not mix"""
        o.start()
        fs = []
        for n, k in enumerate(kinds):
            fs.append(o.open(k, ('File', 'open_hdf5', 'handle')[n % 3]).val)
            for j, f in enumerate(fs):
                bad = mapping(o, f, TREES[kinds[j]])[0]
                if bad:
                    return 'file %d of %d: %s' % (j + 1, n + 1, bad)
        for n in range(len(fs)):
            o.only(o.I.getattr(fs[n], 'close'))
            for j in range(n + 1, len(fs)):
                bad = mapping(o, fs[j], TREES[kinds[j]])[0]
                if bad:
                    return 'file %d after file %d is closed: %s' % (j + 1, n + 1, bad)
        f = o.open(kinds[-1]).val
        bad = mapping(o, f, TREES[kinds[-1]])[0]
        return bad and 'a file opened after all others are closed: %s' % bad

    def others_stay(kinds):
        """closing a file leaves the others open"""
        o.start()
        fs = [o.open(k).val for k in kinds]
        o.only(o.I.getattr(fs[0], 'close'))
        for k, f in enumerate(fs[1:], 2):
            if not live(f):
                return 'closing file 1 closes file %d' % k
        return None
    kinds = ['a hierarchy of two levels', 'one model', 'hydrodynamic results']
    scripts = [('all',), ('open', 'all'), ('open', 'open', 'all'), ('open', 'open', 'open', 'all'), ('open', 0, 'all'), ('open', 'open', 0, 'all'),
               ('open', 'open', 1, 'all'), ('open', 'all', 'all'), ('open', 'all', 'open', 'all'), ('open', 'open', 'all', 0, 'open', 'all'),
               ('open', 0, 0, 'open', 'all'), ('open', 'again', 'all'), ('open', 'open', 'open', 1, 'all', 'open', 'all'),
               ('open', 'again', 0, 'all'), ('open', 0, 'again', 'all')]
    for s in scripts:
        guard('open and close: %s' % ', '.join('close file %d' % (x + 1) if isinstance(x, int) else
                                               {'all': 'close_all_files', 'again': 'open the same file'}.get(x, x) for x in s),
              'freesif/data/file.py: close_all_files, File.close', lambda s=s: histories(kinds, s))
    for k in (kinds, kinds[::-1], ['nothing', 'nothing'], ['one model'] * 3):
        guard('closing one of %d files (%s)' % (len(k), ', '.join(k)), FILE + '.close', lambda k=k: others_stay(k))
        guard('%d files at a time (%s)' % (len(k), ', '.join(k)), FILE, lambda k=k: together(k))
    return rep


def public_methods(I, cls):
    """[(class defining it, name, node)] of the public methods of a class, the bases' included"""
    out, seen = [], set()
    for c in cls.mro():
        for n in c.node.body if getattr(c, 'node', None) is not None else ():
            if isinstance(n, ast.FunctionDef) and n.name not in seen:
                seen.add(n.name)
                out.append((c, n.name, n))
    return out


DUNDER = ('__getitem__', '__contains__', '__iter__', '__len__', '__call__')


def stub(node):
    """a method that is not implemented: nothing but a docstring, pass, return None, raise NotImplementedError"""
    for s in node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None):
            continue
        if isinstance(s, ast.Raise) and 'NotImplementedError' in ast.dump(s):
            continue
        return False
    return True


def arguments(node):
    """ways to call a method: (description, args, kw)"""
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    need = len(names) - len(a.defaults)
    s = lambda n: raw('sym', n)      # noqa: E731
    out = [('defaults', [s(n) for n in names[:need]], {})]
    if len(names) > need:
        out.append(('all arguments', [s(n) for n in names], {}))
    return out


def check_B02(tier):
    rep = Report('B02', tier, TECH,
                 'after close() every exit of every public method of a File or data object is ClosedFileError (an error of the arguments '
                 'apart); close() cascades from File to data objects and back and does nothing when repeated',
                 ['methods without a body are not judged'])
    try:
        w = World((M, F))
        o = Objects(w)
        o.I.func(F, 'File')
    except Unsupported as e:
        rep.broken.append(str(e))
        return rep
    I = o.I

    def guard(unit, where, fn):
        def one():
            try:
                bad = fn()
            except Raised as r:
                bad = '%s is raised' % T.show(r.exit.val, 3)
            if bad:
                rep.violation(unit, where, bad)
            else:
                rep.good(unit)
        rep.run(unit, one)
        rep.analysed.update(v for v in w.I.visited if v.startswith('freesif'))
    TREE = {'one model': None, 'a hierarchy of three levels': None, 'results of a hierarchy': None, 'hydrodynamic results': None,
            'models of all kinds': None, 'nothing': None, 'two hierarchies with like sub-groups': None}

    def opened(tree):
        o.start()
        e = o.open(tree)
        f = e.val
        e = o.only(o.drive('pairs'), [f])
        data = {T.kval(k): v for k, v in (fixed(p, e.st) for p in fixed(e.val, e.st))}
        return f, data, handle_of(o, dict(I.st), f)[0]

    def ask(obj, name, args, kw):
        """complaint about a method of a closed object"""
        st = dict(I.st)
        try:
            ex = o.exits(I.getattr(obj, name), args, kw)
        finally:
            I.st = dict(st)
        rep.tally('calls on closed objects')
        for e in ex:
            if e.kind == 'return':
                return 'returns %s' % T.show(e.val, 4)[:150]
            n = e.val.args[0] if e.val.op == 'exc' else '?'
            if n == 'ClosedFileError':
                continue
            if n in ('ValueError', 'TypeError', 'HierarchyError') and kw_or(args):
                continue
            return 'raises %s' % T.show(e.val, 3)
        return None

    def kw_or(args):
        return bool(args)

    def silent(obj, how):
        """complaint about a closed object: all its methods"""
        cl = I.inst_class(obj)
        n = 0
        for c, name, node in public_methods(I, cl):
            if name.startswith('_') and name not in DUNDER or name == 'close' or stub(node):
                continue
            prop = any('property' in ast.dump(d) for d in node.decorator_list)
            static = any('staticmethod' in ast.dump(d) or 'classmethod' in ast.dump(d) for d in node.decorator_list)
            if static:
                continue
            if prop:
                raise Unsupported('property')
            for what, a, kw in arguments(node):
                n += 1
                bad = ask(obj, name, a, kw)
                if bad:
                    return '%s.%s (%s) after %s %s, should raise ClosedFileError' % (cl.name, name, what, how, bad)
        return None

    def says(obj, how):
        st = dict(I.st)
        ex = o.exits(o.drive('texts'), [obj])
        I.st = st
        for e in ex:
            if e.kind != 'return':
                return 'str() or repr() of a closed %s raise %s' % (I.inst_class(obj).name, T.show(e.val, 3))
            for which, t in zip(('str', 'repr', 'format'), fixed(e.val)):
                parts = t.args if t.op == 'cat' else (t,)
                if not any(T.is_kstr(p) and 'closed' in T.kval(p).lower() for p in parts):
                    return '%s() of a closed %s is %s' % (which, I.inst_class(obj).name, T.show(t, 3))
        return None

    def closers(f, data):
        out = [('File.close()', lambda: o.only(I.getattr(f, 'close'))), ('close_all_files()', lambda: o.only(I.func(F, 'close_all_files')))]
        for k in sorted(data):
            out.append(('%s.close() of %r' % (o.cls(data[k]), k), lambda k=k: o.only(I.getattr(data[k], 'close'))))
        return out

    def run(item):
        tree, k = item
        f, data, h = opened(tree)
        how, close = closers(f, data)[k]
        unit = '%s after %s' % (tree, how)

        def one():
            close()
            if not shut(I.st, h):
                return 'the HDF5 file is still open after ' + how
            st = dict(I.st)
            for obj in [f] + [data[x] for x in sorted(data)]:
                I.st = dict(st)
                bad = silent(obj, how) or says(obj, how)
                if bad:
                    return bad
                # once more
                for again in ('close', 'close'):
                    e = o.only(I.getattr(obj, 'close'))
                    if e.val is not NONE:
                        return 'close() of a closed object returns %s' % T.show(e.val, 3)
                    if [p for p in o.events(e) if p.op in ('close', 'open_file', 'attribute')]:
                        return 'close() of a closed object does something: %s' % T.show(o.events(e)[0], 4)
                bad = silent(obj, how + ' and close() again')
                if bad:
                    return bad
            I.st = dict(st)
            o.only(I.func(F, 'close_all_files'))
            return None
        guard(unit, 'freesif/data/file.py, sifdata.py: close', one)
    items = []
    for tree in sorted(TREE):
        try:
            f, data, h = opened(tree)
            items += [(tree, k) for k in range(len(closers(f, data)))]
        except (Unsupported, Raised) as e:
            rep.unknown(tree, str(e))
    rep.parallel(run, items)

    # a data object without a File
    def alone(cls, mod, datatype):
        def one():
            o.start()
            name = K('/d/alone.h5')
            w.stores[name] = [g('/x', *datatype)]
            h = o.only(o.drive('open_hdf5'), [name]).val
            gr = o.only(I.getattr(h, 'at'), [K('/x')]).val
            c = I.func(mod, cls)
            d = o.only(c, [gr, NONE]).val
            o.only(I.getattr(d, 'close'))
            return silent(d, 'close()') or says(d, 'close()') or (o.only(I.getattr(d, 'close')) and silent(d, 'close() twice'))
        guard('%s without a File' % cls, 'freesif/data/sifdata.py: SifData.close', one)
    for cls, mod, dt in (('TopLevelData', 'freesif.data.strucdata', (TOP,)), ('FirstLevelData', 'freesif.data.strucdata', (FIRST,)),
                         ('HydroData', 'freesif.data.hydrodata', HYD)):
        alone(cls, mod, dt)

    def works(f):
        return all(e.kind == 'return' for e in o.exits(o.drive('pairs'), [f]))

    # a file opened again does not revive what was closed, and is not affected by it
    def reopened():
        f, data, h = opened('a hierarchy of three levels')
        o.only(I.getattr(f, 'close'))
        e = o.open('a hierarchy of three levels', 'File', '/d/a%d.h5' % o.n)
        for obj in [f] + list(data.values()):
            bad = silent(obj, 'close() and opening the file again')
            if bad:
                return bad
            o.only(I.getattr(obj, 'close'))
        return None if works(e.val) else 'a file opened again does not work'
    guard('a file opened again', 'freesif/data/file.py: File', reopened)

    # a failed construction or a foreign file: closing one file leaves the data of another alone
    def apart():
        f1, d1, h1 = opened('a hierarchy of two levels' if 'a hierarchy of two levels' in TREE else 'a hierarchy of three levels')
        e = o.open('a hierarchy of three levels')
        f2 = e.val
        if not works(f2):
            return 'a second file does not work'
        o.only(I.getattr(d1[sorted(d1)[0]], 'close'))
        return None if works(f2) else 'closing a data object of one file closes another file'
    guard('two files', 'freesif/data/file.py: File.close', apart)
    return rep
