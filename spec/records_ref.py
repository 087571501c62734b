"""Reference: the fields of one record of each type, in file order.

take(n)      the next n fields of the record (a tuple)
text(n)      the next n text lines
ended()      the record has no further line (only meaningful at the end of a line)
known(m, k)  what an earlier record of the file has stored under key k in memory m; learn(m, k, v) stores it
row(columns, array=items, ...)  the row of the table, and the items of the record in its arrays
Every function describes one whole record.
"""


NODES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}


def nodes_of(eltyp):
    """number of nodes of an element type"""
    return NODES[eltyp]


def nested(t, n):
    return tuple(t[i * n:(i + 1) * n] for i in range(len(t) // n))


def pairs(t):
    return tuple(complex(t[2 * i], t[2 * i + 1]) for i in range(len(t) // 2))


def plain(n, total=0):
    """a record of n columns; `total` fields on its lines if that is more"""
    def ref():
        t = take(total or n)
        row(t[:n])
    return ref


def optional(n, opt):
    """a record of n columns of which the last `opt` may be missing, when they begin a line of their own"""
    def ref():
        t = take(n - opt)
        if not ended():
            t += take(opt)
        else:
            t += (0.,) * opt
        row(t)
    return ref


def HIERARCH():
    t = take(8)
    row(t, ihsref=take(int(t[7])))


def TEXT():
    t = take(4)
    lines = []
    for k in range(int(t[2])):
        lines.append(text())
    row(t, recs=lines)


DATE = TEXT


def IDENT():
    t = take(4)
    row(t[:3])


def TD():
    t = take(4)
    name = ''
    for k in range(int(t[2]) // 100):
        s = text().strip()
        name += s if isinstance(s, str) else s.decode()
    lines = []
    for k in range(int(t[3]) // 100):
        lines.append(text().strip())
    row(t + (name,), text=lines)


def GELMNT1():
    t = take(4)
    learn('elem_data', int(t[1]), int(t[2]))
    row(t, nodin=take(nodes_of(int(t[2]))))


def GELMNT2():
    t = take(17)
    row(t[:4] + (t[4:16], t[16]), nod=take(int(t[16])))


def GELREF1():
    t = take(12)
    n = nodes_of(known('elem_data', int(t[0])))
    geono = take(n) if t[8] == -1. else ()
    fixno = take(n) if t[9] == -1. else ()
    eccno = take(n) if t[10] == -1. else ()
    transno = take(n) if t[11] == -1. else ()
    row(t, geono=geono, fixno=fixno, eccno=eccno, transno=transno)


def GSETMEMB():
    t = take(5)
    row(t, irmemb=take(int(t[0]) - 5))


def SCONCEPT():
    t = take(5)
    if int(t[2]) == 7:
        t += take(2)
        irpart = take(int(t[5]))
        irjoin = take(int(t[6]))
        row(t, irpart=irpart, irjoin=irjoin)
    elif int(t[2]) == 2:
        row(t + (0., 0.), irpart=(), irjoin=())
    else:
        raise NotImplementedError


def SCONMESH():
    t = take(4)
    if int(t[2]) > 1:
        raise NotImplementedError
    t += take(1)
    row(t, irferep=take(int(t[4])))


def BNBCD():
    t = take(4)
    n = int(t[1])
    if n < 3:
        row(t[:2], fix=t[2:2 + n])
    else:
        row(t[:2], fix=t[2:] + take(n - 2))


def BLDEP():
    t = take(4)
    deps = []
    for k in range(int(t[3])):
        deps.append(take(4)[:3])
    row(t, deps=deps)


def BEUSLO():
    t = take(8)
    n = int(t[5])
    rload = take(n)
    iload = take(n) if t[2] else ()
    row(t, rload=rload, iload=iload)


def BRIGAC():
    t = take(14)
    if t[2]:
        row(t + take(6))
    else:
        row(t + (0.,) * 6)


def SUPTRAN():
    t = take(18)
    row(t[:2] + (nested(t[2:], 4),))


def COMPDEF(res):
    def ref():
        t = take(3)
        learn('lenrec_data', (res, int(t[1])), int(t[2]))
        row(t, icomp=take(int(t[2])))
    return ref


def RDPOINTS():
    t = take(9)
    dim = int(t[6])
    nok = dim // 10000
    noj = dim % 10000 // 100
    noi = dim % 100
    learn('rdpoints_data', int(t[3]), (int(t[8]), nok, noj, noi))
    learn('nsp_data', (int(t[1]), int(t[2])), int(t[5]))
    points = []
    for k in range(nok):
        for j in range(noj):
            for i in range(noi):
                p = take(1)
                if p[0] > 0.:
                    points.append(p + take(3))
    xform = []
    for k in range(int(t[7])):
        xform.append(nested(take(9), 3))
    row(t, respoint=points, xform=xform)


def RDIELCOR():
    t = take(3)
    ref = int(t[1])
    if has('rdpoints_data', ref):
        nlay, nok, noj, noi = known('rdpoints_data', ref)
    elif ref == 15:
        nlay, nok, noj, noi = 0, 1, 1, 3
    elif ref == 24:
        nlay, nok, noj, noi = 0, 2, 3, 3
    else:
        raise NotImplementedError
    # the first gamma shares the line of the header
    if nok > 0:
        gamma = take(1) + take(nok - 1)
    else:
        take(1)
        gamma = ()
    beta = take(noj)
    alpha = take(noi)
    layers = []
    for k in range(nlay):
        layers.append(take(2))
    row(t, gamma=gamma, beta=beta, alpha=alpha, layers=layers)


def RDRESREF():
    t = take(7)
    learn('rdresref_data', int(t[1]), int(t[5]))
    types = []
    for k in range(int(t[6])):
        types.append(take(3))
    row(t, reftyps=types)


def COMBINATION():
    t = take(4)
    items = []
    for k in range(int(t[3])):
        items.append(take(3))
    row(t, items)


WBODCON = COMBINATION


def RVNOD():
    t = take(5)
    row(t, take(int(t[0]) - 5))


def RVELEM(name):
    def ref():
        t = take(5)
        nsp = known('nsp_data', (int(t[3]), int(t[2])))
        lenrec = known('lenrec_data', (name, int(t[4])))
        icompl = known('rdresref_data', int(t[1]))
        row(t, take(nsp * lenrec * (icompl + 1)))
    return ref


def WDRESREF():
    t = take(4)
    dirs, freqs, times = (), (), ()
    for k in range(int(t[3])):
        kind = int(take(1)[0])
        data = []
        for j in range(int(t[2])):
            data.append(take(2))
        if kind == 1:
            dirs = data
        elif kind == 2:
            freqs = data
        elif kind == 3:
            times = data
    row(t, dir=dirs, freq=freqs, time=times)


def WGLOBDEF():
    t = take(4)
    if int(t[3]):
        t += take(1)
    else:
        t += (1.,)
    row(t)


def WBODY():
    t = take(16)
    row(t + (nested(take(16), 4),))


def W1MATRIX():
    t = take(6)
    row(t + (nested(take(36), 6),))


def WCOMMON():
    t = take(4)
    row(t + (pairs(take(12)) if int(t[3]) else take(6),))


def W1SFORCE():
    t = take(5)
    row(t + (pairs(take(12)) if int(t[4]) else take(6),))


def VECTOR(n):
    def ref():
        t = take(3 + n)
        row(t[:3] + (t[3:],))
    return ref


def WFKPOINT():
    t = take(5)
    row(t[:2] + (t[2:],))


def WFLUIDKN():
    t = take(4)
    if int(t[3]):
        f = pairs(take(8))
    else:
        f = take(4)
    row(t + (f[0], f[1:]))


def WSECTION():
    t = take(14)
    row(t[:5] + (t[5:8], t[8:11], t[11:]))


def WINPUT():
    t = take(18)
    row(t[:2] + (nested(t[2:], 4),))


def W1PANPRE():
    t = take(6)
    p = pairs(take(2))[0] if int(t[5]) else take(1)[0]
    row(t + (p,) + take(2))


def WSURFACE():
    t = take(8)
    ncomp = int(t[5] + t[6] + t[7])
    n = int(t[0]) - 8
    per = 1 + ncomp * (1 + int(t[4]))
    fields = take(n)
    items = []
    for start in range(0, n, per):
        f = iter(fields[start:start + per])
        item = (next(f),)
        for comp in t[5:]:
            if comp:
                if t[4]:
                    item += (complex(next(f), next(f)),)
                else:
                    item += (next(f),)
            else:
                item += (0.,)
        items.append(item)
    row(t, items)


REFS = {
    'GNODE': plain(4), 'GCOORD': plain(4), 'GECCEN': plain(4), 'GUNIVEC': plain(4), 'GELTH': plain(3, 4),
    'GBEAMG': plain(16), 'MISOSEL': plain(6), 'BGRAV': plain(7),
    'GBARM': optional(8, 2), 'GBOX': optional(10, 2), 'GCHAN': optional(11, 2), 'GCHANR': optional(12, 2),
    'GDOBO': optional(10, 2), 'GIORH': optional(12, 3), 'GIORHR': optional(14, 2), 'GLSEC': optional(10, 2),
    'GLSECR': optional(11, 2), 'GPIPE': optional(8, 2), 'GUSYI': optional(14, 2),
    'TDMATER': TD, 'TDSECT': TD, 'TDSETNAM': TD, 'TDSUPNAM': TD, 'TSLAYER': TD, 'TDSCONC': TD, 'TDLOAD': TD,
    'TDRESREF': TD, 'TDBODNAM': TD, 'TDRSNAM': TD, 'TDSCATTER': TD,
    'HIERARCH': HIERARCH, 'DATE': TEXT, 'TEXT': TEXT, 'IDENT': IDENT, 'GELMNT1': GELMNT1, 'GELMNT2': GELMNT2,
    'GELREF1': GELREF1, 'GSETMEMB': GSETMEMB, 'SCONCEPT': SCONCEPT, 'SCONMESH': SCONMESH, 'BNBCD': BNBCD,
    'BLDEP': BLDEP, 'BEUSLO': BEUSLO, 'BRIGAC': BRIGAC, 'RSUPTRAN': SUPTRAN, 'HSUPTRAN': SUPTRAN,
    'RDFORCES': COMPDEF('RVFORCES'), 'RDNODRES': COMPDEF('RVNODRES'), 'RDSTRAIN': COMPDEF('RVSTRAIN'),
    'RDSTRESS': COMPDEF('RVSTRESS'), 'RDELNFOR': COMPDEF('RVELNFOR'),
    'RDPOINTS': RDPOINTS, 'RDIELCOR': RDIELCOR, 'RDRESREF': RDRESREF, 'RBLODCMB': COMBINATION,
    'RDRESCMB': COMBINATION, 'RVNODACC': RVNOD, 'RVNODDIS': RVNOD, 'RVNODVEL': RVNOD,
    'RVFORCES': RVELEM('RVFORCES'), 'RVSTRAIN': RVELEM('RVSTRAIN'), 'RVSTRESS': RVELEM('RVSTRESS'),
    'WBODCON': WBODCON, 'WDRESREF': WDRESREF, 'WGLOBDEF': WGLOBDEF, 'WBODY': WBODY, 'W1MATRIX': W1MATRIX,
    'W1EXFORC': WCOMMON, 'W1MOTION': WCOMMON, 'W2EXFDIF': WCOMMON, 'W2EXFSUM': WCOMMON, 'W1SFORCE': W1SFORCE,
    'W2HDRIFT': VECTOR(3), 'W2MDRIFT': VECTOR(6), 'WFKPOINT': WFKPOINT, 'WFLUIDKN': WFLUIDKN,
    'WSECTION': WSECTION, 'WSURFACE': WSURFACE, 'WINPUT': WINPUT, 'W1PANPRE': W1PANPRE,
}
