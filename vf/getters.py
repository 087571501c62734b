"""Getters of the data classes compared with their reference definitions (spec/*.py).

Both are analysed by the same value-flow analysis; the results are gated normal forms
(conditions over the contents of the file and the arguments, leaves: returned value or
exception).  A property selects methods, arguments and the kind of leaf that matters.
"""
import os
import warnings

from . import terms as T
from .terms import TRUE, FALSE, NONE, K, raw, Unsupported
from .api import *                                      # noqa: F401,F403
from .api import make, outcome, product, opaque, sym
from .interp import Interp, py, ext, Dead, UNDEF, is_ref
from .check import HERE, REPO

warnings.simplefilter('ignore', SyntaxWarning)
STR = 'freesif.data.strucdata'
HYD = 'freesif.data.hydrodata'
G = raw('sym', 'tbgroup')
FILE = raw('sym', 'file')
TOP = raw('sym', 'toplevel')


class World(object):
    """one analysis context: the package and the reference definitions"""

    def __init__(self, need=('freesif.data.strucdata', 'freesif.data.hydrodata')):
        self.I = I = Interp(REPO)
        for m in need:
            if I.load(m) is None:
                raise Unsupported('module %s has vanished' % m)
        for m in ('struc', 'hydro', 'misc'):
            p = os.path.join(HERE, 'spec', m + '.py')
            if os.path.exists(p):
                I.load_text(m, p)
        self.insts = {}

    def inst(self, mod, cls, *args):
        key = (mod, cls, args)
        r = self.insts.get(key)
        if r is None:
            r, ex = make(self.I, mod, cls, list(args))
            self.insts[key] = r
        return r

    def where(self, mod, cls, name):
        v = self.I.find_attr(self.I.func(mod, cls).args[0], name)
        if v is None:
            return None
        o = v.args[0]
        return '%s:%s.%s' % (o.module.relpath, cls, name) if hasattr(o, 'module') else '%s.%s' % (cls, name)

    def code(self, obj, cls, name, args=(), kw=None):
        I = self.I
        f = I.find_attr(cls, name)
        if f is None:
            return None
        f = I.bind_attr(f, obj, cls)
        return outcome(I, I.run(f, list(args), kw or {}))

    def ref(self, mod, name, args=(), kw=None):
        I = self.I
        return outcome(I, I.run(I.func(mod, name), list(args), kw or {}))


def leafkind(t):
    if t.op == 'ret':
        return 'ret'
    if t.op == 'exn':
        return t.args[0] if isinstance(t.args[0], str) else 'exception'
    return t.op


SELECTOR_EXC = ('ValueError', 'TypeError', 'HierarchyError', 'KeyError')
MISSING_EXC = ('NoSuchRecordError', 'ConditionError', 'tables.NoSuchNodeError', 'tables.exceptions.NoSuchNodeError')


WANTED = {'selector': SELECTOR_EXC, 'missing': MISSING_EXC, 'domain': ('ResultError',),
          'hierarchy': ('HierarchyError',)}


def show_path(path):
    out = []
    for a, v in path:
        s = T.show(a)
        out.append(s if v else 'not ' + s)
    return ' and '.join(out)[:900] or 'always'


def base_array(t):
    while isinstance(t, T.Term) and t.op in ('fld', 'setof', 'unique', 'attr', 'sorted') and isinstance(t.args[0], T.Term):
        t = t.args[0]
    if isinstance(t, T.Term) and t.op == 'sub' and t.args[1].op == 'mask':
        return (base_array(t.args[0]), t.args[1])
    return t


def feasible(path):
    """not: a path that reads element 0 of an array it takes for empty, or misses an array beside its table"""
    if domains(path) is None:
        return False
    lens = {}
    here = set(a.args[0].args[1].args[1] for a, v in path
               if a.op == 'raises' and not v and a.args[0].op == 'node' and a.args[0].args[1].op == 'k')
    for a, v in path:
        if a.op == 'raises' and v and a.args[0].op == 'node' and a.args[0].args[1].op == 'k':
            nm = a.args[0].args[1].args[1]
            if isinstance(nm, str) and '_' in nm and nm.split('_')[0] in here:
                return False                  # the arrays of a record exist with its table
        if a.op in ('eq', 'neg'):
            p = a.args[0]
            ls = [b for m, c in p.args[0] for b, e in m] if p.op == 'poly' else [p]
            if len(ls) == 1 and ls[0].op == 'len' and ls[0].args[0].op in ('setof', 'unique', 'fld', 'array'):
                lens.setdefault(ls[0], []).append((a, v))
    for l, facts in lens.items():
        if not allows(l, facts, 0):
            continue
        if any(allows(l, facts, n) for n in (1, 2, 3, 1000)):
            continue
        base = base_array(l.args[0])
        for a, v in path:
            for x in T.subterms(a):
                if x.op == 'sub' and x.args[1].op == 'k' and base_array(x.args[0]) == base:
                    return False
    return True


def allows(l, facts, n):
    for a, v in facts:
        r = T.subst(a, {l: K(n)})
        r = T.re_atom(r) if r.op in T.ATOMS else r
        if r in (TRUE, FALSE) and (r is TRUE) != v:
            return False
    return True


def first_difference(a, b):
    """innermost pair of differing sub-terms"""
    while True:
        if not isinstance(a, T.Term) or not isinstance(b, T.Term) or a.op != b.op or len(a.args) != len(b.args) \
                or a.op in ('k', 'sym', 'poly', 'ite'):
            return a, b
        d = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if len(d) != 1:
            return a, b
        a, b = d[0]


def showv(t, n=12):
    return T.show(t, n) if isinstance(t, T.Term) else repr(t)


def compare(rep, unit, where, code, ref, mode):
    """mode: 'value' (results), 'selector' or 'missing' (exceptions)"""
    if code is None:
        rep.violation(unit, where, 'the method does not exist')
        return
    if code is ref:
        rep.good(unit)
        return
    bad = []

    def visit(path, c, r):
        kc, kr = leafkind(c), leafkind(r)
        if not feasible(path):
            return
        if mode == 'value':
            if kr != 'ret':
                return
            if kc == 'ret':
                bad.append((path, c, r))
            elif kc not in SELECTOR_EXC + MISSING_EXC:
                bad.append((path, c, r))
            else:
                bad.append((path, c, r))
        else:
            want = WANTED[mode]
            if kc == kr:
                return
            if kc in want or kr in want:
                # several things wrong at once: which is reported first is free
                if kc != 'ret' and kr != 'ret' and kc in want + MISSING_EXC + SELECTOR_EXC + ('ResultError',):
                    if multi(path) or both_wrong(code, ref, path, kc, kr):
                        return
                bad.append((path, c, r))
    complete = product(code, ref, visit)
    if not bad and not complete:
        rep.unknown(unit, 'too many cases to compare')
        return
    if not bad:
        rep.good(unit)
        return
    allowed = opaque(ref)
    path, c, r = bad[0]
    new = set()
    for p, cc, rr in bad:
        new |= opaque(cc, allowed)
        for a, v in p:
            new |= opaque(a, allowed)
    if new or (mode != 'value' and c.op == 'ret' and False):
        rep.unknown(unit, 'the result contains operators without a model (%s)' % ', '.join(sorted(new)[:6]))
        return
    dc, dr = first_difference(c, r)
    detail = '' if dc is c else '; they differ in %s instead of %s' % (showv(dc)[:500], showv(dr)[:500])
    rep.violation(unit, where, 'where %s: gives %s, expected %s%s (%d such cases)' % (
        show_path(path), showv(c)[:700], showv(r)[:700], detail, len(bad)))


def both_wrong(code, ref, path, kc, kr):
    """is the case one of two errors at once: correcting the one leaves the other in code and reference, and vice versa"""
    def then(t, facts):
        for a, v in facts:
            t = T.assume(T.cofactor(t, a, v), a, v)
        return leafkind(t)
    left = set()
    for k, (a, v) in enumerate(path):
        facts = path[:k] + ((a, not v),) + path[k + 1:]
        if not feasible(facts):
            continue
        n = then(code, facts)
        if n in (kc, kr) and then(ref, facts) == n:
            left.add(n)
    return left == {kc, kr}


def multi(path):
    n = 0
    for a, v in path:
        if v and (a.op == 'raises' or a.op == 'any' or a.op == 'eq' and a.args[1] is K(0) and a.args[0].op == 'len'):
            n += 1
    return n >= 2


# ------------------------------------------------------------------ the methods
STRUC_METHODS = {
    'get_nodes': ('sets', 'kind', 'disconnected', 'trans', 'index'),
    'get_nodenumbers': ('sets', 'kind', 'disconnected', 'numbertype'),
    'get_elements': ('sets', 'kind', 'disconnected'),
    'get_elementnumbers': ('sets', 'kind', 'numbertype'),
    'get_noderesults': ('restype', 'run', 'rescases', 'sets', 'kind', 'disconnected'),
    'get_elementresults': ('restype', 'pos', 'run', 'rescases', 'sets'),
    'get_section_properties': ('sets',),
    'get_shell_thicknesses': ('sets',),
    'get_setnames': (),
    'get_resultcase_names': ('rescases',),
}
TOP_METHODS = {'get_transformation': ('seltyp', 'index', 'level')}
HYDRO_METHODS = {
    'get_angular_freqs': (), 'get_periods': (), 'get_directions': ('unit',), 'get_timesteps': (),
    'get_sections': (), 'get_points': (), 'get_bodyproperties': ('bodyid',),
    'get_motion_raos': ('bodyid',), 'get_excitationforce_raos': ('bodyid',), 'get_sectionforce_raos': ('bodyid',),
    'get_fluidkinematics_raos': ('kind',), 'get_matrix': ('mtyp', 'bodyid', 'bodyid2'),
    'get_bodymass': ('bodyid', 'bodyid2'), 'get_addedmass': ('bodyid', 'bodyid2'),
    'get_potentialdamping': ('bodyid', 'bodyid2'), 'get_viscousdamping': ('bodyid', 'bodyid2'),
    'get_hydrostatic_restoring': ('bodyid', 'bodyid2'), 'get_mooring_restoring': ('bodyid', 'bodyid2'),
    'get_meandrift': ('bodyid',), 'get_horiz_meandrift': ('bodyid',),
    'get_pressure_panel_ids': ('bodyid',), 'get_panel_pressures': ('bodyid',),
}


def one(rep, w, mod, cls, spec, name, kw, mode, inst_args=(G, FILE), ref_args=(), tag=''):
    """compare one method for given keyword arguments (constants or symbols); missing ones take defaults"""
    unit = '%s.%s(%s)%s' % (cls, name, ', '.join('%s=%s' % (k, T.show(v)) for k, v in sorted(kw.items())), tag)
    where = w.where(mod, cls, name) or '%s.%s' % (cls, name)

    def go():
        w.I.unknown.clear()
        w.I.visited.clear()
        o = w.inst(mod, cls, *inst_args)
        code = w.code(o, w.I.func(mod, cls).args[0], name, (), kw)
        rep.analysed |= w.I.visited
        ref = w.ref(spec, name, (inst_args[0],) + tuple(ref_args), kw)
        compare(rep, unit, where, code, ref, mode)
    rep.run(unit, go)


def syms(*names):
    return {n: sym(n) for n in names}


def ks(**kw):
    return {k: K(v) for k, v in kw.items()}
