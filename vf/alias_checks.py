"""B13: getters neither expose nor modify shared state; writers and result processing leave their arguments alone.

Arrays, lists and dictionaries have an identity in the value-flow analysis; views know what they are views of.  After one call of a
getter everything it returned is overwritten; the state that survives the call (attributes of the object and of its top level object,
classes, modules) is searched for memory shared with it.  Where some is found, or the call itself changed the state, every getter is
analysed again in that state and must give what it gives in a fresh one."""
import ast
import os

from . import terms as T
from .terms import K, NONE, TRUE, raw, seq, Unsupported
from .interp import EV, PC, is_ref
from .api import sym, make, settle
from .check import HERE, REPO, Report
from .getters import World, STR, HYD, G, FILE, STRUC_METHODS, TOP_METHODS, HYDRO_METHODS

SPOILED = raw('sym', 'spoiled', 'arr')
MUTABLE = ('box', 'list', 'dict', 'set')


class Heap(object):
    """what can be reached, and what shares memory with what"""
    def __init__(self, I):
        self.I = I

    def refs(self, t, st, out=None):
        """mutable objects reachable from a term"""
        out = set() if out is None else out
        todo = [t]
        done = set()
        while todo:
            x = todo.pop()
            for r in self.direct(x):
                if r in done:
                    continue
                done.add(r)
                if r.args[1] in MUTABLE:
                    out.add(r)
                c = st.get(('c', r))
                if c is not None:
                    todo.append(c)
                if r.args[1] == 'inst':
                    todo += [v for k, v in st.items() if k[0] == 'a' and k[1] is r]
        return out

    def direct(self, t):
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if x in seen or not isinstance(x, T.Term):
                continue
            seen.add(x)
            if x.op == 'ref':
                out.append(x)
            todo += T.children(x)
        return out

    def sharing(self, boxes):
        """boxes that may share memory with one of these"""
        I = self.I
        out, todo = set(), list(boxes)
        while todo:
            b = todo.pop()
            if b in out:
                continue
            out.add(b)
            if b.args[1] != 'box':
                continue
            todo += [o for o in I.prov.get(b, ()) if o.op == 'ref']
            todo += I.shared.get(b, ())
        return out

    def roots(self, st):
        """state that survives a call"""
        return [v for k, v in st.items() if k[0] in ('a', 'g') and isinstance(v, T.Term)]

    def state(self, st):
        out = set()
        for v in self.roots(st):
            self.refs(v, st, out)
        return out

    def named(self, st):
        """name of an attribute or global -> objects reachable from it"""
        for k, v in st.items():
            if k[0] == 'a' and isinstance(v, T.Term):
                o = k[1]
                yield '%s.%s' % ('self' if o.op == 'ref' else getattr(o.args[0], 'name', '?'), k[2]), self.refs(v, st)
            elif k[0] == 'g' and isinstance(v, T.Term):
                yield '%s.%s' % (k[1], k[2]), self.refs(v, st)


def spoil(I, refs):
    """overwrite everything returned"""
    for r in sorted(refs, key=lambda x: x.id):
        k = r.args[1]
        if k == 'box':
            I.mutate(r, SPOILED)
        elif k == 'list':
            I.st[('c', r)] = seq('list', [SPOILED])
        elif k == 'set':
            I.st[('c', r)] = raw('setof', seq('list', [SPOILED]))
        elif k == 'dict':
            I.st[('c', r)] = seq('dict', [])


def outcomes(I, exits):
    """comparable description of the outcomes of a call"""
    out = []
    for e in exits:
        keep, I.st = I.st, e.st
        try:
            out.append((e.kind, I.D(e.val) if isinstance(e.val, T.Term) else e.val, e.st[PC]))
        finally:
            I.st = keep
    return out


class Subject(object):
    """one object and its getters"""
    def __init__(self, w, mod, cls, args, methods):
        self.w, self.I, self.mod, self.cls = w, w.I, mod, cls
        self.o = w.inst(mod, cls, *args)
        self.C = w.I.func(mod, cls).args[0]
        self.base = w.I.st
        self.heap = Heap(w.I)
        self.calls = []
        for n, ps in methods.items():
            if w.I.find_attr(self.C, n) is None:
                continue
            variants = [{}] if not ps else [{p: sym(p) for p in ps}]
            for kw in variants:
                self.calls.append((n, kw))
        self.fresh = {}

    def run(self, st, n, kw):
        I = self.I
        keep, I.st = I.st, dict(st)
        try:
            f = I.bind_attr(I.find_attr(self.C, n), self.o, self.C)
            return I.run(f, [], kw)
        finally:
            I.st = keep

    def plain(self, n, kw):
        key = (n, tuple(sorted(kw)))
        if key not in self.fresh:
            self.fresh[key] = outcomes(self.I, self.run(self.base, n, kw))
        return self.fresh[key]


def changed(I, heap, before, after):
    """names of state whose content differs"""
    out = []
    for k, v in after.items():
        if k[0] in ('a', 'g'):
            if before.get(k) is not v:
                out.append(str(k[2]))
    for r in heap.state(before):
        if ('c', r) in before and after.get(('c', r)) is not before[('c', r)]:
            out.append(name_of(heap, before, r))
    return sorted(set(out))


def name_of(heap, st, r):
    for n, rs in heap.named(st):
        if r in rs:
            return n
    return 'some object'


def differs(a, b):
    return len(a) != len(b) or any(x != y for x, y in zip(a, b))


def probe(rep, s, n, kw):
    unit = '%s.%s(%s)' % (s.cls, n, ', '.join(sorted(kw)))
    where = s.w.where(s.mod, s.cls, n) or s.cls

    def go():
        I, h = s.I, s.heap
        I.visited.clear()
        exits = s.run(s.base, n, kw)
        rep.analysed |= I.visited
        for e in exits:
            st = dict(e.st)
            st[PC] = TRUE
            ev = [p for p in e.st[EV].args[1:] if p.op == 'mutates' and p.args[0].op == 'sym']
            if ev:
                rep.violation(unit, where, 'changes its argument %s in place' % T.show(ev[0].args[0], 2))
                return
            # the call itself
            ch = changed(I, h, s.base, st)
            back = set()
            if e.kind == 'return' and isinstance(e.val, T.Term):
                back = h.refs(e.val, e.st)
            hit = h.sharing(back) & h.sharing(h.state(st)) if back else set()
            rep.tally('outcomes of calls')
            rep.tally('objects returned', len(back))
            if not hit and not ch:
                continue
            keep, I.st = I.st, st
            try:
                spoil(I, back)
                st = I.st
            finally:
                I.st = keep
            for m, kw2 in s.calls:
                want = s.plain(m, kw2)
                try:
                    got = outcomes(I, s.run(st, m, kw2))
                except Unsupported as x:
                    if 'share memory' in str(x):
                        rep.violation(unit, where, 'what it returns shares memory with %s, which %s uses' % (
                            sorted(name_of(h, e.st, r) for r in hit)[:3], m))
                        return
                    raise
                if differs(got, want):
                    shown = sorted({name_of(h, e.st, r) for r in hit} - {'some object'}) or ch
                    rep.violation(unit, where, 'after a call (and changing what it returned) %s gives something else; shared: %s' % (
                        m, ', '.join(shown)))
                    return
        rep.good(unit)
    rep.run(unit, go)


# ---------------------------------------------------------------------------------------------- arguments given as lists and arrays
def arguments(rep, s, n, params):
    """lists and arrays given to a getter are as they were afterwards"""
    I = s.I
    where = s.w.where(s.mod, s.cls, n) or s.cls
    for p in params:
        for kind in ('list', 'array'):
            unit = '%s.%s: %s given as %s' % (s.cls, n, p, kind)

            def go():
                keep = I.st
                I.st = dict(s.base)
                try:
                    if kind == 'list':
                        r = I.new_list([sym('first'), sym('second')])
                    else:
                        r = I.new_box(raw('sym', 'given', 'arr'))
                    before = I.st[('c', r)]
                    kw = {q: sym(q) for q in (STRUC_METHODS.get(n) or ()) if q in ('restype', 'pos')}
                    kw[p] = r
                    exits = s.run(I.st, n, kw)
                finally:
                    I.st = keep
                for e in exits:
                    now = e.st.get(('c', r))
                    if now is not before or any(q.op == 'mutates' and q.args[0] is raw('sym', 'given', 'arr') for q in e.st[EV].args[1:]):
                        rep.violation(unit, where, 'changes the %s given as %s in place' % (kind, p))
                        return
                rep.good(unit)
            rep.run(unit, go)


# ---------------------------------------------------------------------------------------------- VtuWriter
def writer(rep):
    from . import vtu_checks as V
    try:
        d = V.Desk()
    except Unsupported as e:
        rep.unknown('VtuWriter', str(e))
        return
    W = 'freesif/utils/writers.py:VtuWriter'
    types = sorted(V.NODES)

    def seqs():
        for t in types:
            yield (t,)
        for t in types:
            for u in types:
                if t != u:
                    yield (t, u)
        yield tuple(types)
    for ts in seqs():
        unit = 'VtuWriter, elements %s' % ', '.join(map(str, ts))

        def go():
            d.fresh()
            I = d.I
            off, k = [], 0
            for t in ts:
                k += V.NODES[t]
                off.append(k)
            leaves = {}

            def arr(name, shape, dt='float64'):
                leaves[raw('sym', name, 'arr')] = shape
                return d.array(name, shape, dt)
            given = {'points': arr('points', (k + 1, 3)), 'connectivity': arr('con', (k,), 'int32'), 'offsets': d.ints(off),
                     'element types': d.ints(ts), 'results': arr('res', (k,)), 'results of two components': arr('two', (k, 2), 'float32'),
                     'data': arr('nod', (k + 1, 2), 'float32')}
            before = {n: I.D(r) for n, r in given.items()}
            cells = seq('tuple', [given['connectivity'], given['offsets'], given['element types']])
            d.run([('new_piece', [given['points'], cells]), ('start_pointdata', []),
                   ('add_data_cellpoints', [given['results'], K('a')]),
                   ('add_data_cellpoints', [given['results of two components'], K('b')]), ('add_data', [given['data'], K('c')]),
                   ('start_celldata', []), ('add_data', [given['offsets'], K('d')])])
            unchanged(rep, unit, W, I, d.final, given, before, lambda t: V.Grid(leaves)(t))
        rep.run(unit, go)


def unchanged(rep, unit, where, I, st, given, before, evaluate):
    keep, I.st = I.st, st
    try:
        for n, r in given.items():
            try:
                now = I.D(r)
            except Unsupported as e:
                if 'share memory' not in str(e):
                    raise
                rep.violation(unit, where, 'changes the array of %s given to it in place' % n)
                return
            if now is before[n]:
                continue
            from .dense import same
            try:
                diff = same(evaluate(now), evaluate(before[n]))
            except Unsupported:
                raise
            if diff:
                rep.violation(unit, where, 'changes the array of %s given to it in place: %s' % (n, diff))
                return
    finally:
        I.st = keep
    rep.good(unit)


# ---------------------------------------------------------------------------------------------- result processing
def processing(rep):
    from . import calc_checks as C
    try:
        b = C.Bench()
    except Unsupported as e:
        rep.unknown('calc', str(e))
        return
    jobs = [(n, sh, ()) for n, last in (('principal2d', 3), ('principal_thickshell', 5), ('vonmises2d', 3), ('vonmises_thickshell', 5))
            for sh in ((last,), (2, last), (2, 2, last))]
    jobs += [('absmax', (3, 2), a) for a in ((), (K(0),), (K(1),))]
    for n, shape, args in jobs:
        unit = 'calc.%s of shape %s%s' % (n, shape, ' axis %s' % T.show(args[0]) if args else '')

        def go():
            try:
                b.call(n, shape, args)
            except C.Bad:
                pass                                          # refused: the argument must be untouched all the same
            I = b.I
            a = raw('sym', 'arr', 'arr')
            if any(p.op == 'mutates' for p in b.final[EV].args[1:]) and b.final.get(('c', b.box)) is a:
                raise Unsupported('something is changed in place')
            keep, I.st = I.st, b.final
            try:
                try:
                    now = I.D(b.box)
                except Unsupported:
                    now = None
            finally:
                I.st = keep
            if now is not a:
                rep.violation(unit, 'freesif/calc: %s' % n, 'changes its argument in place')
            else:
                rep.good(unit)
        rep.run(unit, go)


# ---------------------------------------------------------------------------------------------- default arguments
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem',
            'fill', 'resize', 'put', 'itemset'}


def defaults(rep):
    """a default argument that is a list, dictionary or array is shared by all calls: nothing may change it"""
    from .lint_checks import World as Lint, FUNC, own_nodes
    w = Lint()
    changed_attrs = {}
    for m in w.mods.values():
        for n in ast.walk(m.tree):
            a = mutated(n)
            if isinstance(a, ast.Attribute):
                changed_attrs.setdefault(a.attr, '%s:%d' % (m.rel, n.lineno))
    for s in w.scopes:
        if not isinstance(s.node, FUNC):
            continue
        a = s.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        unit = '%s %s: defaults' % (s.mod.rel, s.qual or 'lambda')
        bad = None
        for p, d in pairs:
            if not mutable(d):
                continue
            names = {p.arg}
            if len(s.names.get(p.arg, [])) > 1:               # bound again before it is used: not followed
                continue
            nodes = own_nodes(s.node)
            for n in nodes:                                   # other names for it
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            for n in nodes:
                x = mutated(n)
                if isinstance(x, ast.Name) and x.id in names:
                    bad = 'the default of %s is changed' % p.arg
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr in changed_attrs:
                            bad = 'the default of %s becomes attribute %s of every object made without it, which is changed at %s' % (
                                p.arg, t.attr, changed_attrs[t.attr])
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in names:
                    bad = 'the default of %s is returned' % p.arg
        if bad:
            rep.violation(unit, '%s:%d' % (s.mod.rel, s.node.lineno), bad)
        else:
            rep.good(unit)


def mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(d, ast.Call) and (
        isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'OrderedDict', 'bytearray', 'defaultdict')
        or isinstance(d.func, ast.Attribute) and d.func.attr in ('array', 'zeros', 'ones', 'empty', 'OrderedDict'))


def mutated(n):
    """what a node changes in place, if anything"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        return n.func.value
    if isinstance(n, (ast.Assign, ast.AugAssign)):
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
            if isinstance(t, ast.Subscript):
                return t.value
            if isinstance(n, ast.AugAssign) and isinstance(t, (ast.Attribute, ast.Name)):
                return t
    if isinstance(n, ast.Delete):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                return t.value
    return None


def check_B13(tier):
    rep = Report('B13', tier, 'Alias analysis: identities of arrays, lists and dictionaries, views and shared memory in the value-flow '
                 'analysis of every getter; in-place changes of arguments of getters, VtuWriter and freesif.calc; shared default arguments',
                 'after any call of a getter, and any change to what it returned, every getter gives what it gives in a fresh object; arrays, '
                 'lists and class-level tables given or used are not changed',
                 ['columns and arrays read from the file are fresh', 'the library model knows which numpy operations give views'])
    for mod, cls, args, methods, top in (
            (HYD, 'HydroData', (G, FILE), HYDRO_METHODS, None),
            (STR, 'FirstLevelData', (G, FILE), STRUC_METHODS, None),
            (STR, 'TopLevelData', (G, FILE), TOP_METHODS, None),
            (STR, 'InterLevelData', (G, FILE, raw('sym', 'toplevel')), STRUC_METHODS, None)):
        def setup():
            s = Subject(World(), mod, cls, args, methods)
            for n, kw in s.calls:
                probe(rep, s, n, kw)
                if methods is STRUC_METHODS and cls == 'FirstLevelData':
                    arguments(rep, s, n, [p for p in methods[n] if p in ('sets', 'rescases')])
            if not s.calls:
                rep.tally('classes without getters')
        rep.run(cls, setup)
    writer(rep)
    processing(rep)
    defaults(rep)
    return rep
