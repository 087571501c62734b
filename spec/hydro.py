"""What the getters of hydrodynamic data return."""
import numpy as np
import tables as tb
from struc import table, items, first, ResultError, NoSuchRecordError


def in_order(x):
    """distinct values in order of first appearance"""
    _, at = np.unique(x, return_index=True)
    return x[np.sort(at)]


def angfreqs(g):
    return in_order(items(g, 'wdresref', 'freq')[:, 1])


def directions(g):
    return in_order(items(g, 'wdresref', 'dir')[:, 1])


def timesteps(g):
    return np.unique(items(g, 'wdresref', 'time')[:, 1])


def nopt(g, rec):
    try:
        return len(g._f_get_child(rec))
    except tb.NoSuchNodeError:
        return 0


def need_frequency(g):
    if len(angfreqs(g)) == 0:
        raise ResultError()


def ibcond(g, bodyid):
    return first(table(g, 'wbodcon'), 'ibody=={}'.format(bodyid))['ibcond']


def results(g, rec, bodyid, col):
    t = table(g, rec)
    if bodyid:
        return t.read_where('ibcond=={}'.format(ibcond(g, bodyid)))[col]
    return t.col(col)


def get_angular_freqs(g):
    need_frequency(g)
    return angfreqs(g)


def get_periods(g):
    need_frequency(g)
    return 2 * np.pi / angfreqs(g)


def get_directions(g, unit='degrees'):
    if unit == 'degrees':
        return directions(g) * 180 / np.pi
    if unit == 'radians':
        return directions(g)
    raise ValueError()


def get_timesteps(g):
    if not len(angfreqs(g)) == 0:
        raise ResultError()
    return timesteps(g)


def get_sections(g):
    return table(g, 'wsection')[:][['secusr', 'isecty', 'p1', 'p2', 'p3']]


def get_points(g):
    return table(g, 'wfkpoint').col('fkpnt')


def constants(g):
    r = table(g, 'wglobdef')[0]
    return r['g'], r['ro'], r['depth']


def by_dof(g, rec, bodyid, col, n):
    """(records, n) -> (n, directions, frequencies)"""
    need_frequency(g)
    d = results(g, rec, bodyid, col)
    return d.reshape(len(directions(g)), len(angfreqs(g)), n).transpose(2, 0, 1)


def get_motion_raos(g, bodyid=1):
    return by_dof(g, 'w1motion', bodyid, 'data', 6)


def get_excitationforce_raos(g, bodyid=1):
    return by_dof(g, 'w1exforc', bodyid, 'data', 6)


def get_meandrift(g, bodyid=1):
    return by_dof(g, 'w2mdrift', bodyid, 'smfor', 6)


def get_horiz_meandrift(g, bodyid=1):
    return by_dof(g, 'w2hdrift', bodyid, 'shfor', 3)


def get_sectionforce_raos(g, bodyid=1):
    need_frequency(g)
    d = results(g, 'w1sforce', bodyid, 'data')
    d = d.reshape(nopt(g, 'wsection'), len(directions(g)), len(angfreqs(g)), 6)
    return d.transpose(0, 3, 1, 2)


def get_fluidkinematics_raos(g, kind='elevation'):
    need_frequency(g)
    t = table(g, 'wfluidkn')
    nd, nf, npt = len(directions(g)), len(angfreqs(g)), nopt(g, 'wfkpoint')
    if kind == 'velocity':
        return t.col('v').reshape(nd, nf, npt, 3).transpose(2, 3, 0, 1)
    if kind == 'pressure':
        return t.col('p').reshape(nd, nf, npt).transpose(2, 0, 1)
    if kind == 'elevation':
        grav, ro, _ = constants(g)
        return t.col('p').reshape(nd, nf, npt).transpose(2, 0, 1) / (ro * grav)
    raise ValueError()


def get_matrix(g, mtyp, bodyid=1, bodyid2=1):
    t = table(g, 'w1matrix')
    i, j = ibcond(g, bodyid), ibcond(g, bodyid2)
    cond = '(ibconi=={}) & (ibconj=={}) & (imtyp=={})'.format(i, j, mtyp)
    if mtyp in (11, 22, 31, 32):
        return first(t, cond)['hmat']
    if mtyp in (12, 21):
        return t.read_where(cond)['hmat'].transpose(1, 2, 0)
    raise ValueError()


def get_bodymass(g, bodyid=1, bodyid2=1):
    return get_matrix(g, 11, bodyid, bodyid2)


def get_addedmass(g, bodyid=1, bodyid2=1):
    return get_matrix(g, 12, bodyid, bodyid2)


def get_potentialdamping(g, bodyid=1, bodyid2=1):
    return get_matrix(g, 21, bodyid, bodyid2)


def get_viscousdamping(g, bodyid=1, bodyid2=1):
    return get_matrix(g, 22, bodyid, bodyid2)


def get_hydrostatic_restoring(g, bodyid=1, bodyid2=1):
    return get_matrix(g, 31, bodyid, bodyid2)


def get_mooring_restoring(g, bodyid=1, bodyid2=1):
    return get_matrix(g, 32, bodyid, bodyid2)


def count(g, bodyid, col):
    try:
        return len(np.unique(results(g, 'w1panpre', bodyid, col)))
    except NoSuchRecordError:
        return 0


def get_panel_pressures(g, bodyid=1):
    need_frequency(g)
    npanels, nsymm = count(g, bodyid, 'ipan'), count(g, bodyid, 'isymm1')
    if npanels == 0:
        return None
    p = results(g, 'w1panpre', bodyid, 'p')
    p = p.reshape(len(directions(g)), len(angfreqs(g)), nsymm, npanels)
    return p.transpose(3, 2, 0, 1)


def get_pressure_panel_ids(g, bodyid=1):
    need_frequency(g)
    if count(g, bodyid, 'ipan') == 0:
        return None
    pan = results(g, 'w1panpre', bodyid, 'ipan')
    sym = results(g, 'w1panpre', bodyid, 'isymm1')
    ids = [(p, s) for s in np.unique(sym) for p in np.unique(pan)]
    for p, s in zip(pan, sym):
        if (p, s) not in ids:
            raise AssertionError()
    return np.array(ids)


def get_bodyproperties(g, bodyid=1):
    t = table(g, 'wbody')
    row = first(t, 'ibcond=={}'.format(ibcond(g, bodyid)))
    props = dict(zip(row.dtype.names, row))
    del props['nfield']
    del props['ibcond']
    return props


def attr_g(g):
    return constants(g)[0]


def attr_ro(g):
    return constants(g)[1]


def attr_depth(g):
    return constants(g)[2]


def attr_domaintype(g):
    return 'time' if len(angfreqs(g)) == 0 else 'frequency'


def attr_name(g):
    return g._v_name
