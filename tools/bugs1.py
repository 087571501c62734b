S = 'freesif/data/strucdata.py'
H = 'freesif/data/hydrodata.py'
BUGS = {}

BUGS['B04-overlap'] = dict(
    PROPERTY='B04',
    EDITS=[(S, """        return np.unique(np.concatenate(setmembs)) - 1
""", """        return np.concatenate(setmembs) - 1
""")],
    NEEDS='two overlapping sets in one selection',
    BREAKS='elements that are members of two selected sets are returned twice',
    DEMO="""
from sif import *
import freesif as fs
import numpy as np
with Scratch() as d:
    s = struc(9, [(11, 24, [9, 7, 8, 6]), (12, 24, [1, 2, 3, 4]), (13, 24, [8, 9, 2, 5])])
    sets(s, A=[1, 3], B=[2, 3])
    f = fs.open_sif(s.write(d + '/m_R1.SIF'))
    for kw, want in ((dict(sets=['A', 'B']), [11, 12, 13]), (dict(sets='B'), [12, 13]),
                     (dict(sets=('B', 'A'), kind='shell'), [11, 12, 13])):
        expect(f.get_elementnumbers(**kw).tolist() == want, 'elements of %r' % kw)
        expect(len(f.get_elements(**kw)[2]) == len(want), 'element types of %r' % kw)
    f.close()
""")

BUGS['B05-otherrun'] = dict(
    PROPERTY='B05',
    EDITS=[(S, """            if row['irno'] == run and row['ieres'] in rescases:
                resrefs.append(row.fetch_all_fields())
""", """            if row['ieres'] in rescases and row['irno'] >= run:
                resrefs.append(row.fetch_all_fields())
""")],
    NEEDS='a result file with several runs and a selection of result cases of an earlier run',
    BREAKS='result cases selected by number also come from later runs',
    DEMO="""
from sif import *
import freesif as fs
import numpy as np
with Scratch() as d:
    s = struc(2, [(11, 15, [1, 2])])
    for ires, run, case in ((1, 1, 1), (2, 1, 2), (3, 2, 1), (4, 2, 2)):
        s.rec('RDRESREF', 7., ires, run, case, 0., 0., 0.)
    for ires in range(1, 5):
        for n in (1, 2):
            s.rec('RVNODDIS', 11., ires, n, 0., 0., *[100. * ires + 10 * n + c for c in range(6)])
    f = fs.open_sif(s.write(d + '/m_R1.SIF'))
    for run in (1, 2):
        for case in (1, 2):
            r = f.get_noderesults('displacement', run=run, rescases=case)
            ires = 2 * (run - 1) + case
            expect(r.shape == (2, 6), 'shape %r' % (r.shape,))
            expect(r[:, 0].tolist() == [100. * ires + 10, 100. * ires + 20], 'values %r' % r)
    f.close()
""")

BUGS['B06-respts28'] = dict(
    PROPERTY='B06',
    EDITS=[(S, """        d.shape = (2, 4, 5)  # (side, respt, comp)
        if pos == 'respts':
            return np.rollaxis(d, 1)
""", """        d.shape = (2, 4, 5)  # (side, respt, comp)
        if pos == 'respts':
            return d.reshape(4, 2, 5)
""")],
    NEEDS="pos='respts' for second order quadrilateral shells",
    BREAKS='result point values of 8-node shells are assigned to the wrong side and point',
    DEMO="""
from sif import *
import numpy as np
from freesif.data.strucdata import FirstLevelData
obj = FirstLevelData.__new__(FirstLevelData)
for shape, fn in (((2, 3, 5), obj._process_eltyp26), ((2, 4, 5), obj._process_eltyp28)):
    a = np.arange(shape[0] * shape[1] * shape[2], dtype='f')
    for restype in ('generalstress', 'decomposedstress'):
        r = fn(restype, 'respts', a.copy())
        for side in range(2):
            for pt in range(shape[1]):
                expect((r[pt, side] == a.reshape(shape)[side, pt]).all(), '%s %s %s' % (restype, side, pt))
""")

BUGS['B07-coupling'] = dict(
    PROPERTY='B07',
    EDITS=[(H, """        cond = '(ibconi=={}) & (ibconj=={}) & (imtyp=={})'.format(ibconi,
                                                                  ibconj,
                                                                  mtyp)
""", """        cond = '(ibconi=={}) & (ibconj=={}) & (imtyp=={})'.format(ibconj,
                                                                  ibconi,
                                                                  mtyp)
""")],
    NEEDS='coupling matrices of two bodies',
    BREAKS='coupling matrices of two bodies are exchanged',
    DEMO="""
from sif import *
import freesif as fs
import numpy as np
with Scratch() as d:
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    s.rec('WGLOBDEF', 5., 9.81, 1025., 1., 100.)
    for b in (1, 2):
        s.rec('WBODCON', 7., b, b, 1., 0., 0., 0.)
    k = 0
    for w in (1, 2, 3):
        k += 1
        s.rec('WDRESREF', 10., k, 1., 2., 1., 1., 0.5, 2., w, 0.1 * w)
    for w in (1, 2, 3):
        for i, j in ((1, 1), (1, 2), (2, 1), (2, 2)):
            s.rec('W1MATRIX', 42., 1., i, j, w, 12.,
                  *[1000. * w + 100. * i + 50. * j + 6. * r + c for r in range(6) for c in range(6)])
    f = fs.open_sif(s.write(d + '/m_G1.SIF'))
    for i, j in ((1, 1), (1, 2), (2, 1)):
        m = f.get_addedmass(i, j)
        expect(m.shape == (6, 6, 3), 'shape %r' % (m.shape,))
        for w in (1, 2, 3):
            for r in range(6):
                for c in range(6):
                    expect(m[r, c, w - 1] == 1000. * w + 100. * i + 50. * j + 6. * r + c, 'element %d %d' % (r, c))
    f.close()
""")

BUGS['B11-transcols'] = dict(
    PROPERTY='B11',
    EDITS=[(S, """            if isinstance(trans, np.ndarray):
                if trans.shape != (4,4):
""", """            if isinstance(trans, np.ndarray):
                if 4 not in trans.shape:
""")],
    NEEDS='a transformation array of shape (4, 3) or (4,)',
    BREAKS='transformation arrays of another shape than (4, 4) are no longer rejected with ValueError',
    DEMO="""
from sif import *
import freesif as fs
import numpy as np
with Scratch() as d:
    s = struc(2, [(11, 15, [1, 2])])
    f = fs.open_sif(s.write(d + '/m_R1.SIF'))
    for shape in ((4, 1), (3, 3), (4, 5), (1, 4)):
        try:
            f.get_nodes(trans=np.ones(shape))
            expect(False, 'shape %r accepted' % (shape,))
        except ValueError as e:
            expect('(4,4)' in str(e), 'message %s' % e)
    f.close()
""")
