"""What becomes of the raw result vector of each element type (B06): reference linear maps.

Built here from the definition of the elements: node positions, Gauss points, shape functions,
position of the integration points through the thickness.
"""
from math import sqrt

from .dense import Arr, indices, at, add, scale, reshape, transpose

S3 = sqrt(3)
COMPONENTS = {15: 18, 23: 12, 24: 30, 25: 24, 26: 30, 28: 40}


def raw_vector(n):
    return Arr((n,), [{i: 1.0} for i in range(n)])


def lin(rows, a):
    """rows x first axis of a"""
    n = a.shape[0]
    rest = a.shape[1:]
    out = []
    for r in rows:
        for ix in indices(rest):
            s = {}
            for j in range(n):
                s = add(s, scale(at(a, (j,) + ix), r[j]))
            out.append(s)
    return Arr((len(rows),) + rest, out)


def pick(a, idx):
    return lin([[1.0 if j == i else 0.0 for j in range(a.shape[0])] for i in idx], a)


# Gauss points at +-1/sqrt(3): value at x by linear extrapolation from the two points
def ext1(x):
    return [(1 - S3 * x) / 2, (1 + S3 * x) / 2]           # weight of the lower, of the upper point


# 3-node beam: result points from end 1 to end 2
BEAM3 = [ext1(x) for x in (-1, 0, 1)]
# 8-node quadrilateral: nodes anticlockwise from (-1, -1), result points (-,-) (+,-) (-,+) (+,+)
QNODES = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)]
QUAD8 = [[ext1(x)[i] * ext1(y)[j] for j in (0, 1) for i in (0, 1)] for x, y in QNODES]
# 6-node triangle: result points at area coordinates (2/3, 1/6, 1/6), ...; linear field
TNODES = [(1, 0, 0), (.5, .5, 0), (0, 1, 0), (0, .5, .5), (0, 0, 1), (.5, 0, .5)]
TRI6 = [[2 * c - 1. / 3 for c in n] for n in TNODES]
# result points of the flat shells that lie at the nodes: (lower, upper) surface of each node
FQUS = [(0, 5), (1, 6), (4, 9), (3, 8)]
FTRS = [(0, 4), (1, 5), (3, 7)]


def surfaces(a):
    """(2 points through the thickness at +-1/sqrt(3), ...) -> values at the lower and upper surface"""
    return lin([ext1(-1), ext1(1)], a)


def split(a):
    """(points, 2 surfaces, comp) -> membrane parts, then bending parts of the in-plane components"""
    n, _, c = a.shape
    out = []
    for i in range(n):
        lo = [at(a, (i, 0, k)) for k in range(c)]
        up = [at(a, (i, 1, k)) for k in range(c)]
        out += [scale(add(lo[k], up[k]), .5) for k in range(3)]
        out += [scale(add(up[k], lo[k], -1.0), .5) for k in range(3)]
        if c == 5:
            out += [scale(lo[k], 1.5) for k in (3, 4)]
    return Arr((n, 6 if c == 3 else 8), out)


def expected(eltyp, restype, pos):
    """array of linear forms, or None where no behaviour is documented"""
    d = raw_vector(COMPONENTS[eltyp])
    if eltyp == 15 and restype == 'beamforce':
        return pick(reshape(d, (3, 6)), (0, 2))
    if eltyp == 23 and restype == 'beamforce':
        d = reshape(d, (2, 6))
        return lin(BEAM3, d) if pos == 'nodes' else d
    if eltyp in (24, 25) and restype != 'beamforce':
        pts = FQUS if eltyp == 24 else FTRS
        d = reshape(d, (-1, 3))
        d = reshape(pick(d, [p for lo_up in pts for p in lo_up]), (len(pts), 2, 3))
        return split(d) if restype == 'decomposedstress' else d
    if eltyp in (26, 28) and restype != 'beamforce':
        d = reshape(d, (2, 3 if eltyp == 26 else 4, 5))
        if pos == 'respts':
            return transpose(d, (1, 0, 2)) if restype == 'generalstress' else None
        inplane = surfaces(d)
        full = Arr(d.shape, [at(inplane, ix) if ix[2] < 3 else
                             ({} if restype == 'generalstress' else at(d, ix)) for ix in indices(d.shape)])
        full = transpose(full, (1, 0, 2))
        if restype == 'decomposedstress':
            full = split(full)
        return lin(TRI6 if eltyp == 26 else QUAD8, full)
    return None
