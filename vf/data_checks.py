"""Checks of the data classes (properties B04 ... B12)."""
from . import terms as T
from .terms import K, NONE, TRUE, raw, Unsupported
from . import dense, elements
from .api import sym, outcome, atoms_in
from .check import Report
from .getters import *                                  # noqa: F401,F403
from .getters import World, one, compare, syms, STR, HYD, G, FILE, TOP, STRUC_METHODS, TOP_METHODS, HYDRO_METHODS

TECH = ('static value-flow analysis (abstract interpretation of the syntax tree into gated value numbers, '
        'joined at merges, loops summarised) compared with a reference definition analysed the same way')
BASE = ['the library model (vf/model.py) states the meaning of the numpy and PyTables operations used',
        'a record table on the file comes with all the arrays its record type defines (property A01)',
        'calls do not fail inside numpy or PyTables for reasons other than those modelled']


# ------------------------------------------------------------ element results
def result_node(t):
    return t.op == 'node' and T.is_k(t.args[1]) and T.kval(t.args[1]) in ('rvforces_force', 'rvstress_stress')


_has = {}


def has_result(t):
    r = _has.get(t)
    if r is None:
        r = _has[t] = result_node(t) or any(has_result(x) for x in T.children(t))
    return r


def about_type(a):
    return any(x.op == 'fld' and T.is_k(x.args[1]) and T.kval(x.args[1]) == 'ir' for x in T.subterms(a))


def raw_leaves(t, out):
    """raw result vectors used in t: slices of the result array, reinterpreted as complex or not"""
    if t.op == 'viewas' and t.args[0].op == 'sub' and result_node(t.args[0].args[0]):
        out.add(t)
    elif t.op == 'sub' and result_node(t.args[0]):
        out.add(t)
    else:
        for x in T.children(t):
            if has_result(x):
                raw_leaves(x, out)
    return out


def type_terms(t):
    return sorted({x for x in T.subterms(t) if x.op == 'sub' and x.args[0].op == 'fld'
                   and T.is_k(x.args[0].args[1]) and T.kval(x.args[0].args[1]) == 'ir'}, key=lambda x: x.id)


def choose(t, a, v):
    """t with every gate on atom a decided"""
    if a not in atoms_in(t):
        return t
    if t.op == 'ite' and t.args[0] is a:
        return choose(t.args[1] if v else t.args[2], a, v)
    return T.rebuild(t, lambda x: choose(x, a, v))


def item_of(t, found):
    """the contribution of one result record, abstracted to what it is made of"""
    ats = sorted((a for a in atoms_in(t) if not about_type(a)), key=lambda a: a.id)
    if ats:
        a = ats[0]
        return T.mk_ite_atom(a, item_of(choose(t, a, True), found), item_of(choose(t, a, False), found))
    found.append(t)
    return raw('item', T.seq('list', sorted(raw_leaves(t, set()), key=lambda x: x.id)), T.seq('list', type_terms(t)))


def abstract_items(t, found, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if not has_result(t):
        r = t
    elif t.op == 'map' and has_result(t.args[2]):
        def leaf(b):
            if b.op == 'ite' and not about_type(b.args[0]) and has_seq(b):
                return T.mk_ite_atom(b.args[0], leaf(b.args[1]), leaf(b.args[2]))
            if b.op == 'seq':
                return T.seq(b.args[0], [raw('seg', leaf(p.args[0])) if p.op == 'seg' else item_of(p, found)
                                         if has_result(p) else p for p in b.args[1:]])
            return b
        r = raw('map', t.args[0], t.args[1], leaf(t.args[2]))
    else:
        r = T.rebuild(t, lambda x: abstract_items(x, found, memo))
    memo[t] = r
    return r


def has_seq(b):
    if b.op == 'ite':
        return has_seq(b.args[1]) and has_seq(b.args[2])
    return b.op == 'seq'


def element_results(rep, mode):
    w = World()
    o = w.inst(STR, 'FirstLevelData', G, FILE)
    cls = w.I.func(STR, 'FirstLevelData').args[0]
    where = w.where(STR, 'FirstLevelData', 'get_elementresults')
    names = ('run', 'rescases', 'sets')
    combos = [{'restype': K(r), 'pos': K(p)} for r in ('beamforce', 'generalstress', 'decomposedstress')
              for p in ('nodes', 'respts')]
    if mode != 'value':
        combos = [{'restype': sym('restype'), 'pos': sym('pos')}]
    combos.append({'restype': K('beamforce')} if mode == 'value' else {'restype': sym('restype')})
    for kw in combos:
        kw = dict(kw, **syms(*names))
        unit = 'FirstLevelData.get_elementresults(%s)' % ', '.join(
            '%s=%s' % (k, T.show(v)) for k, v in sorted(kw.items()))

        def go():
            w.I.unknown.clear()
            w.I.visited.clear()
            code = w.code(o, cls, 'get_elementresults', (), kw)
            rep.analysed |= w.I.visited
            ref = w.ref('struc', 'get_elementresults', (G, sym('process')), kw)
            if code is not None:
                code = abstract_items(code, [])
            ref = abstract_items(ref, [])
            compare(rep, unit, where, code, ref, mode)
        rep.run(unit, go)


def check_B06(tier):
    rep = Report('B06', tier, TECH + '; the contribution of one result record is evaluated as an exact linear form',
                 'for every element type, result type and position the contribution of a result record to '
                 'get_elementresults is the linear map given by shape functions and integration points', BASE + [
                     'coefficients are compared to 1e-6', 'rescases=None, sets=None: the selection does not enter '
                     'the processing of one record (B05 decides the selection)'])
    w = World()
    o = w.inst(STR, 'FirstLevelData', G, FILE)
    cls = w.I.func(STR, 'FirstLevelData').args[0]
    where = w.where(STR, 'FirstLevelData', 'get_elementresults')
    for restype in ('beamforce', 'generalstress', 'decomposedstress'):
        for pos in ('nodes', 'respts'):
            def go(restype=restype, pos=pos):
                w.I.visited.clear()
                code = w.code(o, cls, 'get_elementresults', (), {'restype': K(restype), 'pos': K(pos)})
                rep.analysed |= w.I.visited
                if code is None:
                    rep.violation('get_elementresults', where, 'the method does not exist')
                    return
                found = []
                abstract_items(code, found)
                found = sorted(set(found), key=lambda t: t.id)
                if not found:
                    raise Unsupported('no contribution of a result record found')
                for el in sorted(elements.COMPONENTS):
                    exp = elements.expected(el, restype, pos)
                    if exp is None:
                        continue
                    for k, item in enumerate(found):
                        rep.run('element type %d, %s, %s' % (el, restype, pos),
                                lambda: element(rep, w, item, el, restype, pos, exp))
            rep.run('get_elementresults %s %s' % (restype, pos), go)
    return rep


def element(rep, w, item, el, restype, pos, exp):
    tt = type_terms(item)
    unit = 'element type %d, %s, %s' % (el, restype, pos)
    val = item
    if tt:
        if len(tt) != 1:
            raise Unsupported('several element type terms')
        val = T.subst(val, {tt[0]: K(el)})
    lv = sorted(raw_leaves(val, set()), key=lambda x: x.id)
    where = w.where(STR, 'FirstLevelData', '_process_eltyp%d' % el) or w.where(STR, 'FirstLevelData', 'get_elementresults')
    if len(lv) != 1:
        rep.violation(unit, where, 'uses %d raw result vectors' % len(lv))
        return
    unit += ', complex' if lv[0].op == 'viewas' else ', real'
    try:
        got = dense.Dense(lv[0], elements.COMPONENTS[el])(val)
    except dense.Mismatch as e:
        rep.violation(unit, where, 'the expression cannot be evaluated: %s' % e)
        return
    diff = dense.same(got, exp)
    if diff:
        rep.violation(unit, where, diff)
    else:
        rep.good(unit)


# ------------------------------------------------------------ the others
def struc_methods(rep, mode, names):
    w = World()
    for n in names:
        if n == 'get_nodes':
            for top in (TOP, NONE):
                one(rep, w, STR, 'FirstLevelData', 'struc', n, syms(*STRUC_METHODS[n]), mode, (G, FILE, top),
                    ref_args=(top,), tag=' toplevel=%s' % T.show(top))
            one(rep, w, STR, 'FirstLevelData', 'struc', n, {}, mode, (G, FILE, NONE), ref_args=(NONE,), tag=' [defaults]')
            continue
        if n == 'get_elementresults':
            element_results(rep, mode)
            continue
        one(rep, w, STR, 'FirstLevelData', 'struc', n, syms(*STRUC_METHODS[n]), mode)
        if STRUC_METHODS[n]:
            kw = {'restype': sym('restype')} if 'restype' in STRUC_METHODS[n] else {}
            one(rep, w, STR, 'FirstLevelData', 'struc', n, kw, mode, tag=' [defaults]')


def hydro_methods(rep, mode, names):
    w = World()
    for n in names:
        one(rep, w, HYD, 'HydroData', 'hydro', n, syms(*HYDRO_METHODS[n]), mode)
        if HYDRO_METHODS[n]:
            one(rep, w, HYD, 'HydroData', 'hydro', n, {} if n != 'get_matrix' else {'mtyp': sym('mtyp')}, mode,
                tag=' [defaults]')


RULE = 'on every path where the reference returns a value, the method returns that value (normal forms equal)'


def check_B04(tier):
    rep = Report('B04', tier, TECH, RULE, BASE)
    struc_methods(rep, 'value', ('get_nodes', 'get_nodenumbers', 'get_elements', 'get_elementnumbers'))
    return rep


def check_B05(tier):
    rep = Report('B05', tier, TECH, RULE + '; the processing of one record is abstracted (B06)', BASE)
    struc_methods(rep, 'value', ('get_noderesults', 'get_elementresults'))
    return rep


B08_NAMES = ('get_angular_freqs', 'get_periods', 'get_directions', 'get_timesteps', 'get_sections', 'get_points',
             'get_bodyproperties')


def check_B07(tier):
    rep = Report('B07', tier, TECH, RULE, BASE)
    hydro_methods(rep, 'value', [n for n in HYDRO_METHODS if n not in B08_NAMES])
    return rep


def check_B08(tier):
    rep = Report('B08', tier, TECH, RULE + '; attributes g, ro, depth and domaintype likewise; getters of the other '
                 'domain raise ResultError', BASE)
    hydro_methods(rep, 'value', B08_NAMES)
    hydro_methods(rep, 'domain', [n for n in HYDRO_METHODS])
    w = World()
    for a in ('g', 'ro', 'depth', 'domaintype', 'name'):
        unit = 'HydroData.%s' % a

        def go():
            o = w.inst(HYD, 'HydroData', G, FILE)
            v = w.I.st.get(('a', o, a))
            if v is None:
                rep.violation(unit, 'freesif/data/hydrodata.py:HydroData.__init__', 'no such attribute')
                return
            code = raw('ret', w.I.D(v)) if True else None
            code = T.lift(lambda x: raw('ret', x), w.I.D(v))
            from .api import narrow
            ref = w.ref('hydro', 'attr_' + a, (G,))
            compare(rep, unit, 'freesif/data/hydrodata.py:HydroData.__init__', narrow(code, w.I.context), ref, 'value')
        rep.run(unit, go)
    return rep


def check_B09(tier):
    rep = Report('B09', tier, TECH, RULE + '; and HierarchyError exactly where the reference raises it', BASE)
    struc_methods(rep, 'value', ('get_nodes',))
    struc_methods(rep, 'hierarchy', ('get_nodes',))
    w = World()
    for kw in (syms('seltyp', 'index', 'level'), syms('seltyp', 'index')):
        for mode in ('value', 'hierarchy'):
            one(rep, w, STR, 'TopLevelData', 'struc', 'get_transformation', kw, mode, tag=' %s' % mode)
    return rep


def check_B10(tier):
    rep = Report('B10', tier, TECH, RULE, BASE)
    struc_methods(rep, 'value', ('get_section_properties', 'get_shell_thicknesses', 'get_setnames',
                                 'get_resultcase_names'))
    return rep


def check_B11(tier):
    rep = Report('B11', tier, TECH, 'ValueError, TypeError and HierarchyError are raised on exactly the paths on which '
                 'the reference raises them', BASE)
    struc_methods(rep, 'selector', list(STRUC_METHODS))
    hydro_methods(rep, 'selector', list(HYDRO_METHODS))
    return rep


def check_B12(tier):
    rep = Report('B12', tier, TECH, 'NoSuchRecordError and ConditionError are raised, and no PyTables error escapes, on '
                 'exactly the paths on which the reference raises them', BASE)
    struc_methods(rep, 'missing', list(STRUC_METHODS))
    hydro_methods(rep, 'missing', list(HYDRO_METHODS))
    w = World()
    one(rep, w, STR, 'TopLevelData', 'struc', 'get_transformation', syms('seltyp', 'index', 'level'), 'missing')
    return rep
