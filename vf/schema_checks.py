"""B01: names the data classes read against names the parser writes.

What is written: the nodes get_table creates for every record type with their columns (interpretation of
get_table for each record type of `descriptors`), and the names given to _f_setattr.
What is read: all node and column terms in the value-flow result of every public method of the data classes
(query conditions and names built at run time are terms there as well), names looked for in the list of records,
names given to _f_getattr.
"""
import ast
import os

from . import terms as T
from .terms import K, Unsupported
from .api import sym, outcome
from .interp import EV
from .getters import World, STR, HYD, G, FILE, TOP, HYDRO_METHODS, STRUC_METHODS, TOP_METHODS
from .buffer_checks import tables
from .parser_checks import ev_parts
from .check import Report, REPO

KNOWN = {}
for _d in (HYDRO_METHODS, STRUC_METHODS, TOP_METHODS):
    KNOWN.update(_d)
CLASSES = ((HYD, 'HydroData', (G, FILE)), (STR, 'FirstLevelData', (G, FILE)), (STR, 'TopLevelData', (G, FILE)),
           (STR, 'InterLevelData', (G, FILE, TOP)))
RECORDLIST = 'RECORDS'


class Schema(object):
    def __init__(self):
        self.col = {}                      # record -> [(kind, node, columns)]
        self.missing = []
        rep = Report('B01', 'quick', '', '', [])
        tables(rep, self.col)
        self.problems = rep.undecided + rep.bad
        self.broken = list(rep.broken)
        self.analysed = rep.analysed
        self.node = {}
        for rec, nodes in self.col.items():
            for kind, n, cols in nodes:
                self.node[n] = (kind, cols, rec)


# ------------------------------------------------------------------ attribute names in the source
def constants(mod, fn, e, depth=0):
    """set of strings an expression can have, None when not known"""
    if isinstance(e, ast.Constant):
        return {e.value} if isinstance(e.value, str) else None
    if isinstance(e, ast.IfExp):
        a, b = constants(mod, fn, e.body, depth), constants(mod, fn, e.orelse, depth)
        return a | b if a is not None and b is not None else None
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('upper', 'lower') and not e.args:
        a = constants(mod, fn, e.func.value, depth)
        return {getattr(x, e.func.attr)() for x in a} if a is not None else None
    if isinstance(e, ast.Name) and depth < 4:
        found, ok = set(), False
        for scope in (fn, mod):
            if scope is None:
                continue
            bound = False
            for n in ast.walk(scope):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    bound = True
                    a = constants(mod, fn, n.value, depth + 1)
                    if a is None:
                        return None
                    found |= a
                elif isinstance(n, (ast.For, ast.comprehension)):
                    k = position(n.target, e.id)
                    if k is None:
                        continue
                    bound = True
                    a = elements(mod, fn, n.iter, k, depth + 1)
                    if a is None:
                        return None
                    found |= a
                elif isinstance(n, ast.arg) and n.arg == e.id:
                    return None
            if bound:
                ok = True
                break
        return found if ok else None
    return None


def position(target, name):
    if isinstance(target, ast.Name):
        return () if target.id == name else None
    if isinstance(target, (ast.Tuple, ast.List)):
        for k, t in enumerate(target.elts):
            p = position(t, name)
            if p is not None:
                return (k,) + p
    return None


def elements(mod, fn, it, path, depth):
    if isinstance(it, ast.Name):
        for n in ast.walk(mod):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in n.targets):
                return elements(mod, fn, n.value, path, depth + 1) if depth < 6 else None
        return None
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and \
            isinstance(it.func.value, ast.Dict) and path[:1] == (0,):
        it, path = ast.Tuple(it.func.value.keys, ast.Load()), path[1:]
    if isinstance(it, ast.Dict):
        it = ast.Tuple(it.keys, ast.Load())
    if not isinstance(it, (ast.Tuple, ast.List, ast.Set)):
        return None
    out = set()
    for e in it.elts:
        for k in path:
            if not isinstance(e, (ast.Tuple, ast.List)) or k >= len(e.elts):
                return None
            e = e.elts[k]
        a = constants(mod, fn, e, depth + 1)
        if a is None:
            return None
        out |= a
    return out


def attribute_names(package, read):
    """[(file:line, function, names or None)] of the accesses to attributes of groups"""
    out = []
    base = os.path.join(REPO, *package.split('/'))
    for d, _, files in os.walk(base):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            with open(p) as fh:
                mod = ast.parse(fh.read())
            stack = [(mod, None)]
            while stack:
                n, fn = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fn = n
                where = '%s:%s' % (os.path.relpath(p, REPO), fn.name if fn else '<module>')
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args:
                    if n.func.attr == ('_f_getattr' if read else '_f_setattr'):
                        out.append((where, n.lineno, constants(mod, fn, n.args[0])))
                    if n.func.attr == ('get_node_attr' if read else 'set_node_attr') and len(n.args) > 1:
                        out.append((where, n.lineno, constants(mod, fn, n.args[1])))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == ('getattr' if read else 'setattr') \
                        and len(n.args) > 1 and is_attrs(n.args[0]):
                    out.append((where, n.lineno, constants(mod, fn, n.args[1])))
                ctx = ast.Load if read else ast.Store
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ctx) and is_attrs(n.value):
                    if not n.attr.startswith('_'):
                        out.append((where, n.lineno, {n.attr}))
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ctx) and is_attrs(n.value):
                    out.append((where, n.lineno, constants(mod, fn, n.slice)))
                stack.extend((c, fn) for c in ast.iter_child_nodes(n))
    return out


def is_attrs(e):
    return isinstance(e, ast.Attribute) and e.attr in ('_v_attrs', 'attrs')


# ------------------------------------------------------------------ what a method reads
def public_methods(w, cls):
    """{name: parameters} of the public methods of a class and its bases (data descriptors: nothing is given)"""
    out = {}
    c = cls.args[0]
    for b in [c] + [x for x in c.mro()] if hasattr(c, 'mro') else [c]:
        node = getattr(b, 'node', None)
        if node is None:
            continue
        for n in node.body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith('_') and n.name not in out:
                a = n.args
                ps = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
                deco = [d for d in n.decorator_list]
                out[n.name] = None if deco else ps
    return out


def accesses(t):
    """(nodes, fields, records looked for, attributes) named in a term"""
    nodes, fields, recs, odd = set(), set(), set(), []
    for x in T.subterms(t):
        if x.op == 'node':
            if T.is_kstr(x.args[1]):
                nodes.add(T.kval(x.args[1]))
            else:
                odd.append(T.show(x, 4))
        elif x.op == 'fld':
            b = x.args[0]
            if b.op == 'node' and T.is_kstr(b.args[1]):
                if T.is_kstr(x.args[1]):
                    fields.add((T.kval(b.args[1]), T.kval(x.args[1])))
                else:
                    odd.append(T.show(x, 4))
        elif x.op == 'flds':
            b = x.args[0]
            while b.op == 'sub':
                b = b.args[0]
            if b.op == 'node' and T.is_kstr(b.args[1]):
                fields |= {(T.kval(b.args[1]), T.kval(f)) for f in x.args[1].args[1:]}
        elif x.op == 'in' and T.is_kstr(x.args[0]) and is_records(x.args[1]):
            recs.add(T.kval(x.args[0]))
    return nodes, fields, recs, odd


def is_records(t):
    return t.op == 'call' and t.args[0] == '._f_getattr' and len(t.args) > 2 and T.is_kstr(t.args[2]) and \
        T.kval(t.args[2]) == RECORDLIST


def check_B01(tier):
    rep = Report('B01', tier, 'Value-flow analysis: all node, column and record names in the results of every public method of the data '
                 'classes against the nodes, columns and record names get_table creates for every record type; attribute names by '
                 'constant propagation over the syntax trees',
                 'a data class reads only nodes, columns, records and group attributes that the parser writes, and unpacks as many nodes '
                 'as a record has',
                 ['the parser creates nodes only through get_table'])
    schema = Schema()
    rep.broken.extend(schema.broken)
    rep.analysed |= schema.analysed
    for p in schema.problems:
        rep.unknown(p[0], '%s' % (p[-1],))
    everything = len(schema.problems) == 0
    for rec in schema.col:
        rep.tally('record types')
    rep.tally('nodes', len(schema.node))
    rep.tally('columns', sum(len(c) for k, c, r in schema.node.values()))
    seen = set()
    for mod, cls, args in CLASSES:
        def setup(mod=mod, cls=cls, args=args):
            w = World()
            c = w.I.func(mod, cls)
            for n, ps in sorted(public_methods(w, c).items()):
                unit = '%s.%s' % (cls, n)

                def go(n=n, ps=ps, unit=unit):
                    w.I.unknown.clear()
                    w.I.visited.clear()
                    o = w.inst(mod, cls, *args)
                    if ps is None:
                        return
                    I = w.I
                    exits = I.run(I.bind_attr(I.find_attr(c.args[0], n), o, c.args[0]), [], {p: sym(p) for p in ps})
                    t = outcome(I, exits)
                    rep.analysed |= I.visited
                    judge(rep, schema, unit, w.where(mod, cls, n) or unit, t, everything, seen, misfits(exits, t))
                rep.run(unit, go)
        rep.run(cls, setup)
    rep.tally('distinct names read', len(seen))
    attributes(rep)
    return rep


def judge(rep, schema, unit, where, t, everything, seen, arity):
    nodes, fields, recs, odd = accesses(t)
    bad = []
    for n in sorted(nodes):
        seen.add(n)
        if n not in schema.node:
            bad.append('node %r, which the parser does not create' % n)
    for n, f in sorted(fields):
        seen.add((n, f))
        if n not in schema.node:
            continue
        kind, cols, rec = schema.node[n]
        if kind != 'table':
            bad.append('column %r of %r, which is an array' % (f, n))
        elif f not in cols:
            bad.append('column %r of %r, which has the columns %s' % (f, n, ', '.join(cols)))
    for r in sorted(recs):
        seen.add('has ' + r)
        if r not in schema.col:
            bad.append('record %r in the list of records, which is no record type of the parser' % r)
    if bad and everything:
        rep.violation(unit, where, '%s reads %s' % (unit, '; '.join(bad)))
    elif arity:
        rep.violation(unit, where, '%s: %s' % (unit, arity))
    elif bad:
        rep.unknown(unit, 'reads %s, but not all nodes of the parser are known' % '; '.join(bad))
    elif odd:
        rep.unknown(unit, 'names not known: %s' % '; '.join(odd))
    else:
        rep.good(unit)
        rep.tally('names in results of methods', len(nodes) + len(fields) + len(recs))


def misfits(exits, t):
    """a record taken for more or fewer nodes than it has"""
    for e in exits:
        ev = e.st.get(EV)
        for x in T.subterms(ev) if ev is not None else ():
            if x.op == 'badunpack':
                return '%s values are unpacked to %s names' % tuple(T.show(a) for a in x.args)
    for x in T.subterms(t):
        if x.op == 'fld' and x.args[0].op == 'seq' and x.args[0].args[:1] == ('tuple',) and \
                any(y.op == 'node' for y in x.args[0].args[1:] if isinstance(y, T.Term)):
            return 'a table with its arrays (%s) is used as a table' % T.show(x.args[0], 3)
        if x.op == 'exn' and x.args[0] == 'AttributeError':
            return 'uses an attribute that the value does not have (AttributeError)'
    return None


def attributes(rep):
    def go():
        written, unknown = set(), []
        w = attribute_names('freesif/sequentialparser', False)
        for where, line, names in w:
            if names is None:
                unknown.append('%s (line %d)' % (where, line))
            else:
                written |= names
        if not w:
            rep.unknown('attributes', 'no attribute of a group is written')
            return
        rep.tally('attributes written', len(written))
        for where, line, names in attribute_names('freesif/data', True):
            unit = 'attributes read in %s: %s' % (where, ', '.join(sorted(names)) if names else 'line %d' % line)
            if names is None:
                rep.unknown(unit, 'name not known')
            elif names <= written:
                rep.good(unit)
            elif unknown:
                rep.unknown(unit, 'names written in %s are not known' % '; '.join(unknown))
            else:
                rep.violation(unit, where, 'attribute %s is read but never written by the parser (written: %s)' % (
                    ', '.join(sorted(names - written)), ', '.join(sorted(written))))
    rep.run('attributes', go)
