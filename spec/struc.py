"""What the getters of structural data return, said once and plainly.

Analysed by the same value-flow analysis as the package; never executed.
`g` is the group of the superelement.
"""
import numpy as np
import tables as tb

BEAMS = (15, 23)
SHELLS = (24, 25, 26, 28)


class NoSuchRecordError(Exception):
    pass


class ConditionError(Exception):
    pass


class ResultError(Exception):
    pass


class HierarchyError(Exception):
    pass


def table(g, name):
    try:
        return g._f_get_child(name)
    except tb.NoSuchNodeError:
        raise NoSuchRecordError()


def items(g, name, arr):
    table(g, name)
    return g._f_get_child(name + '_' + arr)


def first(t, cond):
    for r in t.where(cond):
        return r.fetch_all_fields()
    raise ConditionError()


# ------------------------------------------------------------------ selections
def set_members(g, sets, istype):
    names = table(g, 'tdsetnam')
    memb = table(g, 'gsetmemb')
    ir = items(g, 'gsetmemb', 'irmemb')
    out = []
    for name in ((sets,) if isinstance(sets, str) else sets):
        ref = first(names, 'name==b{!r}'.format(name))['idno']
        for r in memb.where('(isref=={})&(istype=={})'.format(ref, istype)):
            out.append(ir[r['irmemb_start']:r['irmemb_stop']])
    return np.unique(np.concatenate(out)) - 1


def of_kind(rows, kind):
    t = rows['eltyp']
    if kind == 'beam':
        return rows[(t == 15) | (t == 23)]['elno'] - 1
    if kind == 'shell':
        return rows[(t == 24) | (t == 25) | (t == 26) | (t == 28)]['elno'] - 1
    raise ValueError()


def element_rows(g, sets, kind):
    """indices of the selected elements, in the order of the getters"""
    if sets:
        idx = set_members(g, sets, 2)
        if kind:
            return of_kind(table(g, 'gelmnt1')[:][idx], kind)
        return idx
    if kind:
        return of_kind(table(g, 'gelmnt1')[:], kind)
    return table(g, 'gelmnt1').col('elno') - 1


def connectivity(g, idx):
    el = table(g, 'gelmnt1')
    nodin = items(g, 'gelmnt1', 'nodin')
    lo = el.col('nodin_start')[idx]
    hi = el.col('nodin_stop')[idx]
    parts = []
    ends = []
    end = 0
    for a, b in zip(lo, hi):
        parts.append(nodin[a:b])
        end = end + (b - a)
        ends.append(end)
    return np.concatenate(parts) - 1, np.array(ends)


def node_rows(g, sets, kind, disconnected):
    gcoord = table(g, 'gcoord')
    nodin = items(g, 'gelmnt1', 'nodin')
    if sets or kind:
        con, _ = connectivity(g, element_rows(g, sets, kind))
        return con if disconnected else np.unique(con)
    return nodin[:] - 1 if disconnected else np.arange(len(gcoord))


def compact(con):
    """number the nodes in use 0, 1, 2, ... in increasing order"""
    pos = {}
    for k, n in enumerate(np.unique(con)):
        pos[n] = k
    return np.vectorize(lambda x: pos[x])(con)


# ------------------------------------------------------------------ getters
def get_elements(g, sets=None, kind=None, disconnected=False):
    el = table(g, 'gelmnt1')
    nodin = items(g, 'gelmnt1', 'nodin')
    if sets or kind:
        idx = element_rows(g, sets, kind)
        con, ends = connectivity(g, idx)
        types = el.col('eltyp')[idx]
        con = np.arange(len(con)) if disconnected else compact(con)
        return con, ends, types
    con = np.arange(len(nodin)) if disconnected else nodin[:] - 1
    return con, el.col('nodin_stop'), el.col('eltyp')


def get_elementnumbers(g, sets=None, kind=None, numbertype='external'):
    el = table(g, 'gelmnt1')
    if numbertype == 'external':
        numbers = el.col('elnox')
    elif numbertype == 'internal':
        numbers = el.col('elno')
    else:
        raise ValueError()
    if sets or kind:
        return numbers[element_rows(g, sets, kind)]
    return numbers


def get_nodenumbers(g, sets=None, kind=None, disconnected=False, numbertype='external'):
    nodes = table(g, 'gnode')
    if numbertype == 'external':
        numbers = nodes.col('nodex')
    elif numbertype == 'internal':
        numbers = nodes.col('nodeno')
    else:
        raise ValueError()
    if sets or kind or disconnected:
        return numbers[node_rows(g, sets, kind, disconnected)]
    return numbers


def get_nodes(g, toplevel, sets=None, kind=None, disconnected=False, trans=None, index=1):
    idx = node_rows(g, sets, kind, disconnected)
    r = table(g, 'gcoord')[:][idx]
    xyz1 = np.column_stack((r['xcoord'], r['ycoord'], r['zcoord'], np.ones(len(r), 'f')))
    if trans is not None:
        seltyp = g._f_getattr('SELTYP')
        if g._f_getattr('FILETYPE') == 'R':
            index = g._f_getattr('INDEX')
        if isinstance(trans, np.ndarray):
            if trans.shape != (4, 4):
                raise ValueError()
        elif toplevel:
            if isinstance(trans, str):
                if trans != 'top':
                    raise ValueError()
                trans = toplevel.get_transformation(seltyp, index, 'top')
            elif isinstance(trans, (int, np.integer)):
                trans = toplevel.get_transformation(seltyp, index, trans)
            else:
                raise TypeError()
        elif 'RSUPTRAN' in g._f_getattr('RECORDS') and trans == 'top':
            trans = table(g, 'rsuptran')[0]['t']
        else:
            raise HierarchyError()
        xyz1 = np.dot(xyz1, trans)
    return xyz1[:, :3]


# ------------------------------------------------------------------ results
def cases(g, run, rescases):
    ref = table(g, 'rdresref')
    if isinstance(rescases, (list, tuple, np.ndarray)):
        want = set(rescases)
    elif isinstance(rescases, (int, np.integer)):
        want = set([rescases])
    elif rescases is None:
        return ref.read_where('irno=={}'.format(run))
    else:
        want = rescases
    out = []
    for r in ref.iterrows():
        if r['irno'] == run and r['ieres'] in want:
            out.append(r.fetch_all_fields())
    return np.array(out)


def complex_flag(refs):
    flags = refs['icompl']
    if not np.all(flags == flags[0]):
        raise ResultError()
    return flags[0]


NODERES = {'displacement': ('rvnoddis', 'dis'), 'velocity': ('rvnodvel', 'vel'),
           'acceleration': ('rvnodacc', 'acc')}


def get_noderesults(g, restype, run=1, rescases=None, sets=None, kind=None, disconnected=False):
    if restype not in ('displacement', 'velocity', 'acceleration'):
        raise ValueError()
    rec, arr = NODERES[restype]
    rows = table(g, rec)
    vals = items(g, rec, arr)
    refs = cases(g, run, rescases)
    cpl = complex_flag(refs)
    nodes = set(get_nodenumbers(g, sets, kind, False, 'internal'))
    ires = set(refs['ires'])
    out = []
    for r in rows.iterrows():
        if r['ires'] in ires and r['iinod'] in nodes:
            out.append(vals[r[arr + '_start']:r[arr + '_stop']])
    data = np.concatenate(out)
    if cpl:
        data.dtype = np.complex64
    several = len(ires) > 1
    data.shape = (len(ires), -1, 6) if several else (-1, 6)
    if disconnected:
        pos = compact(node_rows(g, sets, kind, True))
        return data.take(pos, axis=1 if several else 0)
    return data


def get_elementresults(g, process, restype, pos='nodes', run=1, rescases=None, sets=None):
    if pos not in ('nodes', 'respts'):
        raise ValueError()
    if restype == 'beamforce':
        rec, arr, kind = 'rvforces', 'force', 'beam'
    elif restype in ('generalstress', 'decomposedstress'):
        rec, arr, kind = 'rvstress', 'stress', 'shell'
    else:
        raise ValueError()
    rows = table(g, rec)
    vals = items(g, rec, arr)
    refs = cases(g, run, rescases)
    cpl = complex_flag(refs)
    elems = set(get_elementnumbers(g, sets, kind, 'internal'))
    ires = set(refs['ires'])
    out = []
    for r in rows.iterrows():
        if r['ires'] in ires and r['iielno'] in elems:
            d = vals[r[arr + '_start']:r[arr + '_stop']]
            if cpl:
                d.dtype = np.complex64
            out.append(process(r['ir'], d))
    data = np.concatenate(out)
    if len(ires) > 1:
        if restype == 'generalstress':
            data.shape = (len(ires), -1, 2, data.shape[2])
        else:
            data.shape = (len(ires), -1, data.shape[1])
    return data


# ------------------------------------------------------------------ properties and names
def get_section_properties(g, sets=None):
    ref = table(g, 'gelref1')
    sect = table(g, 'gbeamg')
    idx = element_rows(g, sets, 'beam')
    where = {}
    for k, n in enumerate(sect.col('geono')):
        where[n] = k
    return np.array([sect[:][where[n]] for n in ref.col('geono')[idx]])


def get_shell_thicknesses(g, sets=None):
    ref = table(g, 'gelref1')
    thick = table(g, 'gelth')
    idx = element_rows(g, sets, 'shell')
    where = {}
    for k, n in enumerate(thick.col('geono')):
        where[n] = k
    return np.array([thick.col('th')[where[n]] for n in ref.col('geono')[idx]])


def get_setnames(g):
    try:
        names = g._f_get_child('tdsetnam')
    except tb.NoSuchNodeError:
        return None
    return list(names.col('name'))


def get_resultcase_names(g, rescases=None):
    t = table(g, 'tdload')
    number, name = t.col('idno'), t.col('name')
    if rescases is not None:
        chosen = np.isin(number, rescases)
        number, name = number[chosen], name[chosen]
    return dict(zip(number, name))


# ------------------------------------------------------------------ hierarchy
def get_transformation(g, seltyp, index, level='top'):
    hier = table(g, 'hierarch')
    tran = table(g, 'hsuptran')
    top = hier[0]['islevl']
    if level == 'top':
        level = top
    elif level == 1:
        return np.diag(np.ones(4, 'f'))
    elif level > top:
        raise HierarchyError()
    elif level < 1:
        raise HierarchyError()
    me = first(hier, '(iselty=={})&(indsel=={})'.format(seltyp, index))
    t = first(tran, 'itref=={}'.format(me['itref']))['t']
    up = first(hier, 'ihref=={}'.format(me['ihpref']))
    if up['islevl'] > level:
        raise HierarchyError()
    while up['islevl'] < level:
        t = np.dot(t, first(tran, 'itref=={}'.format(up['itref']))['t'])
        if up['ihpref'] != 0:
            up = first(hier, 'ihref=={}'.format(up['ihpref']))
            if up['islevl'] > level:
                raise HierarchyError()
    return t
