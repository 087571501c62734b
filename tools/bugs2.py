P = 'freesif/sequentialparser/parsers.py'
Q = 'freesif/sequentialparser/sequentialfiles.py'
C = 'freesif/sequentialparser/sif2hdf5.py'
S = 'freesif/data/strucdata.py'
H = 'freesif/data/hydrodata.py'
D = 'freesif/data/sifdata.py'
F = 'freesif/data/file.py'
W = 'freesif/utils/writers.py'
BUGS = {}

BUGS['A02-resume'] = dict(
    PROPERTY='A02',
    EDITS=[(P, """        self.startindex = len(self.arr)
""", """        self.startindex = 0
""")],
    NEEDS='records of one type that stand in two places on the file, with another record type between them',
    BREAKS='the item ranges of records read after the first block point into the items of the first block',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = struc(4, [(11, 15, [1, 2]), (12, 15, [2, 3])])
    s.rec('GUNIVEC', 1., 0., 0., 1.)
    s.rec('GELMNT1', 13., 3., 15., 0., 3., 4.)
    s.rec('GUNIVEC', 2., 0., 0., 1.)
    s.rec('GELMNT1', 14., 4., 25., 0., 4., 1., 2.)
    f = fs.open_sif(s.write(d + '/m_R1.SIF'))
    con, offset, eltyp = f.get_elements()
    expect(offset.tolist() == [2, 4, 6, 9], 'offsets %r' % offset)
    expect(con.tolist() == [0, 1, 1, 2, 2, 3, 3, 0, 1], 'connectivity %r' % con)
    expect(f.get_nodenumbers(kind='shell').tolist() == [1001, 1002, 1004], 'nodes of the shell')
    f.close()
""")

BUGS['A01-bnbcd'] = dict(
    PROPERTY='A01',
    EDITS=[(P, """            fixs.add(rec[2:2+ndof])
""", """            fixs.add(rec[2:])
""")],
    NEEDS='a BNBCD record of a node with one degree of freedom',
    BREAKS='the padding of the last line is stored as fixation code of a further degree of freedom',
    DEMO="""
from sif import *
import freesif as fs
import tables as tb
with Scratch() as d:
    s = struc(3, [(11, 15, [1, 2])])
    s.rec('BNBCD', 1., 6., 1., 1., 1., 0., 0., 0.)
    s.rec('BNBCD', 2., 1., 1., 0.)
    s.rec('BNBCD', 3., 2., 1., 4.)
    fs.sif2hdf5(s.write(d + '/m_R1.SIF'), d + '/m.h5')
    with tb.open_file(d + '/m.h5') as h:
        t, a = h.root.m_R1.bnbcd, h.root.m_R1.bnbcd_fix
        got = [a[b:e].tolist() for b, e in zip(t.col('fix_start'), t.col('fix_stop'))]
    expect(got == [[1, 1, 1, 0, 0, 0], [1], [1, 4]], 'codes %r' % got)
""")

BUGS['A03-skiptext'] = dict(
    PROPERTY='A03',
    EDITS=[(Q, """            for i in range(int(rec[3]) // 100):
                self.read_stringrec()
            return self.read_headerrec()
""", """            if int(rec[3]) >= 100:
                self.read_stringrec()
            return self.read_headerrec()
""")],
    NEEDS='a skipped text record (conversion with `only`) with several lines of text',
    BREAKS='text lines of a skipped record are taken for records',
    DEMO="""
from sif import *
import freesif as fs
import tables as tb
with Scratch() as d:
    s = struc(3, [(11, 15, [1, 2])])
    s.text('TDLOAD', (4., 1., 104., 209.), 'CASE', 'DEAD LOAD', 'GNODE')
    s.text('TDLOAD', (4., 2., 104., 0.), 'LIVE')
    s.text('TDSETNAM', (4., 1., 101., 103.), 'A', 'abc')
    for only in (None, ['IDENT', 'HIERARCH', 'GNODE', 'TDSETNAM']):
        try:
            fs.sif2hdf5(s.write(d + '/m_R1.SIF'), d + '/m.h5', only=only)
        except Exception as e:
            expect(False, 'only=%r: %r' % (only, e))
        with tb.open_file(d + '/m.h5') as h:
            g = h.root.m_R1
            expect(len(g.gnode) == 3, 'nodes')
            expect(g.tdsetnam.col('name').tolist() == [b'A'], 'sets')
            expect(('tdload' in g) == (only is None), 'loads')
""")

BUGS['A04-split'] = dict(
    PROPERTY='A04',
    EDITS=[(Q, """        return tuple([float(stringrec[i:i+16])
                     for i in range(0, len(stringrec), 16)])
""", """        return tuple([float(f) for f in stringrec.split()])
""")],
    NEEDS='a formatted file whose numbers fill their fields, e.g. with three digit exponents',
    BREAKS='adjacent numbers without a blank between them are read as one',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    with open(struc(2, [(11, 15, [1, 2])]).write(d + '/m_R1.SIF')) as f:
        lines = f.read().splitlines()
    for k, l in enumerate(lines):
        if l.startswith('GCOORD'):
            v = [float(l[i:i + 16]) for i in range(8, 72, 16)]
            v[1:] = [-x for x in v[1:]]
            lines[k] = l[:8] + ''.join(('%.8E' % x)[:-2].rjust(13) + '%03d' % int(('%.8E' % x)[-2:]) for x in v)
            assert len(lines[k]) == 72
    with open(d + '/m_R1.SIF', 'w') as f:
        f.write('\\n'.join(lines) + '\\n')
    try:
        f = fs.open_sif(d + '/m_R1.SIF')
    except Exception as e:
        expect(False, 'reading: %r' % e)
    got = f.get_nodes().tolist()
    f.close()
    expect(got == [[-1., -10., -100.], [-2., -20., -200.]], 'coordinates %r' % got)
""")

BUGS['A05-records'] = dict(
    PROPERTY='A05',
    EDITS=[(P, """    tables = {}
    record_names = []
    elem_data""", """    tables = {}
    elem_data""")],
    NEEDS='several conversions in one session of files with different record types',
    BREAKS='the record names of earlier files are listed for later ones',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = struc(2, [(11, 15, [1, 2])])
    s.rec('GUNIVEC', 1., 0., 0., 1.)
    fs.sif2hdf5(s.write(d + '/a_R1.SIF'), d + '/a.h5')
    fs.sif2hdf5(struc(2, [(11, 15, [1, 2])]).write(d + '/b_R1.SIF'), d + '/b.h5')
    for k, want in (('a', True), ('b', False)):
        f = fs.open_hdf5(d + '/%s.h5' % k)
        expect(f[k + '_R1']._has_record('GUNIVEC') == want, 'records of ' + k)
        expect(list(f[k + '_R1'].rec_names)[:2] == ['IDENT', 'HIERARCH'], 'order of ' + k)
        f.close()
""")

BUGS['A07-sequence'] = dict(
    PROPERTY='A07',
    EDITS=[(C, """                sif2hdf5(name, hdf5name, True, usefileprefix, prefix, only)
""", """                sif2hdf5(name, hdf5name, append or usefileprefix, usefileprefix,
                         prefix, only)
""")],
    NEEDS='a sequence of files converted to one file with usefileprefix=False and append=False',
    BREAKS='each file of the sequence replaces the data of the ones before it',
    DEMO="""
from sif import *
import freesif as fs
import tables as tb
with Scratch() as d:
    names = []
    for k in 'ab':
        names.append(struc(2, [(11, 15, [1, 2])]).write(d + '/%s_R1.SIF' % k))
    for append in (False, True):
        for use, want in ((True, ['x_a_R1', 'y_b_R1']), (False, ['x_R1', 'y_R1'])):
            out = d + '/m%d%d.h5' % (append, use)
            fs.sif2hdf5(names, out, append=append, usefileprefix=use, prefix=['x_', 'y_'])
            with tb.open_file(out) as h:
                got = sorted(g._v_name for g in h.root._f_iter_nodes('Group'))
            expect(got == want, '%r %r: %r' % (append, use, got))
""")

BUGS['A08-interlevel'] = dict(
    PROPERTY='A08',
    EDITS=[(P, """                if current_hrec['islevl'] > 1:
                    level = 'INTERLEVEL'
""", """                if current_hrec['ihpref'] == 1:
                    level = 'INTERLEVEL'
""")],
    NEEDS='a model with first level superelements below the top, or more than three levels',
    BREAKS='first level superelements directly below the top are marked as intermediate level data',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    top = Sif()
    top.rec('IDENT', 4., 20., 3., 0.)
    #                    ihref iselty indsel islevl itref ihpref nsub
    top.rec('HIERARCH', 10., 1., 20., 1., 4., 0., 0., 2., 2., 3.)
    top.rec('HIERARCH', 9., 2., 10., 1., 3., 1., 1., 1., 4.)
    top.rec('HIERARCH', 8., 3., 1., 1., 1., 2., 1., 0.)
    top.rec('HIERARCH', 9., 4., 5., 1., 2., 3., 2., 1., 5.)
    top.rec('HIERARCH', 8., 5., 2., 1., 1., 4., 4., 0.)
    top.write(d + '/m_T20.FEM')
    for typ, level in ((10, 3), (1, 1), (5, 2), (2, 1)):
        s = Sif()
        s.rec('IDENT', level, typ, 3., 0.)
        s.rec('GNODE', 1., 1., 6., 123456.)
        s.write(d + '/m_T%d.FEM' % typ)
    f = fs.open_hdf5(fs.sif2hdf5(d + '/m_T20.FEM', d + '/m.h5'))
    got = {k: v._level for k, v in f.items()}
    f.close()
    expect(got == {'m_T20': 'TOPLEVEL', 'm_T20/T10': 'INTERLEVEL', 'm_T20/T5': 'INTERLEVEL',
                   'm_T20/T1': 'FIRSTLEVEL', 'm_T20/T2': 'FIRSTLEVEL'}, 'levels %r' % got)
""")

BUGS['B02-subopen'] = dict(
    PROPERTY='B02',
    EDITS=[(F, """        for data in self._data.values():
            data._close()
""", """        for name in self._tbfile.root._v_groups:
            self._data[name]._close()
""")],
    NEEDS='a data object of a superelement below the top level, used after its file was closed',
    BREAKS='data objects of lower level superelements stay open and fail with a PyTables error',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    top = Sif()
    top.rec('IDENT', 2., 10., 3., 0.)
    top.rec('HIERARCH', 9., 1., 10., 1., 2., 0., 0., 1., 2.)
    top.rec('HIERARCH', 8., 2., 1., 1., 1., 1., 1., 0.)
    top.write(d + '/m_T10.FEM')
    struc(2, [(11, 15, [1, 2])], 'T').write(d + '/m_T1.FEM')
    f = fs.open_hdf5(fs.sif2hdf5(d + '/m_T10.FEM', d + '/m.h5'))
    objs = list(f.values())
    expect(len(objs) == 2, 'two data objects')
    f.close()
    for o in objs:
        expect(str(o) == '<Closed SifData object>', 'str %s' % o)
        try:
            o.get_setnames()
        except fs.exceptions.ClosedFileError:
            pass
        except Exception as e:
            expect(False, 'closed object raises %r' % e)
        else:
            expect(False, 'closed object answers')
        o.close()
""")

BUGS['B03-registry'] = dict(
    PROPERTY='B03',
    EDITS=[(F, """        _open_files.remove(self)
""", """        _open_files.clear()
""")],
    NEEDS='several open files of which one is closed before close_all_files is called',
    BREAKS='close_all_files does not close the other files',
    DEMO="""
from sif import *
import freesif as fs
from freesif.data.file import close_all_files
with Scratch() as d:
    files = []
    for k in 'abc':
        n = struc(2, [(11, 15, [1, 2])]).write(d + '/%s_R1.SIF' % k)
        files.append(fs.open_hdf5(fs.sif2hdf5(n, d + '/%s.h5' % k)))
    files[1].close()
    close_all_files()
    for f in files:
        expect(str(f) == '<Closed File object>', 'file %s still open' % f.filename)
""")

BUGS['B09-chain'] = dict(
    PROPERTY='B09',
    EDITS=[(S, """            t2 = getrow(hsuptran, 'itref=={}'.format(rp['itref']))['t']
            t = np.dot(t, t2)
""", """            t2 = getrow(hsuptran, 'itref=={}'.format(rp['itref']))['t']
            t = np.dot(t2, t)
""")],
    NEEDS='a superelement hierarchy with at least three levels and rotations that do not commute',
    BREAKS='transformations of the levels are applied in the wrong order',
    DEMO="""
from sif import *
import freesif as fs
import numpy as np
with Scratch() as d:
    top = Sif()
    top.rec('IDENT', 3., 20., 3., 0.)
    top.rec('HIERARCH', 9., 1., 20., 1., 3., 0., 0., 1., 2.)
    top.rec('HIERARCH', 9., 2., 10., 1., 2., 1., 1., 1., 3.)
    top.rec('HIERARCH', 8., 3., 1., 1., 1., 2., 2., 0.)
    m = {1: np.array([[0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 1, 0], [10, 0, 0, 1.]]),
         2: np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, -1, 0, 0], [0, 5, 0, 1.]])}
    for k in m:
        top.rec('HSUPTRAN', 20., k, 1., 0., *m[k].T.ravel())
    top.write(d + '/m_T20.FEM')
    s = Sif().rec('IDENT', 2., 10., 3., 0.).rec('GNODE', 1., 1., 6., 123456.)
    s.write(d + '/m_T10.FEM')
    struc(2, [(11, 15, [1, 2])], 'T').write(d + '/m_T1.FEM')
    f = fs.open_hdf5(fs.sif2hdf5(d + '/m_T20.FEM', d + '/m.h5'))
    t = f['m_T20']
    one = t.get_transformation(1, 1, 2)
    up = t.get_transformation(10, 1, 'top')
    both = t.get_transformation(1, 1, 'top')
    expect(not np.allclose(np.dot(one, up), np.dot(up, one)), 'matrices commute')
    expect(np.allclose(both, np.dot(one, up)), 'chain %r' % both)
    n = np.column_stack((f['m_T20/T1'].get_nodes(), np.ones(2)))
    expect(np.allclose(f['m_T20/T1'].get_nodes(trans='top'), n.dot(one).dot(up)[:, :3]), 'nodes')
    f.close()
""")

BUGS['B10-geono'] = dict(
    PROPERTY='B10',
    EDITS=[(S, """        gelth_indices = dict(zip(gelth.col('geono'), range((len(gelth)))))
        return np.array([gelth_arr[gelth_indices[gsh]] for gsh in geono_sh])
""", """        gelth_indices = np.argsort(gelth.col('geono'))
        geono_th = gelth.col('geono')[gelth_indices]

        return gelth_arr[np.searchsorted(geono_th, geono_sh)]
""")],
    NEEDS='thickness records that are not ordered by geometry number',
    BREAKS='shells get the thickness of another geometry record',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = struc(6, [(11, 24, [1, 2, 3, 4]), (12, 15, [1, 2]), (13, 25, [3, 4, 5]), (14, 25, [4, 5, 6])])
    for geono, th in ((30., 0.03), (10., 0.01), (20., 0.02)):
        s.rec('GELTH', geono, th, 0., 0.)
    for el, geono in ((1., 20.), (2., 99.), (3., 10.), (4., 30.)):
        s.rec('GELREF1', el, 1., 0., 0., 0., 0., 0., 0., geono, 0., 0., 0.)
    f = fs.open_sif(s.write(d + '/m_R1.SIF'))
    got = [round(float(x), 6) for x in f.get_shell_thicknesses()]
    f.close()
    expect(got == [0.02, 0.01, 0.03], 'thicknesses %r' % got)
""")

BUGS['B08-order'] = dict(
    PROPERTY='B08',
    EDITS=[(H, """        _, idx = np.unique(dirs[:,1], return_index=True)
        self._directions = dirs[:,1][np.sort(idx)]
""", """        self._directions = np.unique(dirs[:,1])
""")],
    NEEDS='wave directions that are not in increasing order on the file',
    BREAKS='directions are listed in another order than the results are',
    DEMO="""
from sif import *
import freesif as fs
import numpy as np
with Scratch() as d:
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    s.rec('WGLOBDEF', 5., 9.81, 1025., 1., 100.)
    k = 0
    for i, b in enumerate((1.5, 0.5, 1.0)):
        for j, w in enumerate((0.9, 0.3)):
            k += 1
            s.rec('WDRESREF', 10., k, 1., 2., 1., i + 1., b, 2., j + 1., w)
    f = fs.open_sif(s.write(d + '/m_G1.SIF'))
    expect(f.get_directions('radians').tolist() == [1.5, 0.5, 1.0], 'directions')
    expect(np.allclose(f.get_angular_freqs(), [0.9, 0.3]), 'frequencies')
    f.close()
""")

BUGS['B13-shared'] = dict(
    PROPERTY='B13',
    EDITS=[(H, """        wglobdef = self._get_record('wglobdef')[0]  # allways 1 record only
""", """        wglobdef = self._get_record('wglobdef')[0]  # allways 1 record only
        self._wfkpoint = None
"""), (H, """        wfkpoint = self._get_record('wfkpoint')
        return wfkpoint[:]['fkpnt']
""", """        wfkpoint = self._get_record('wfkpoint')
        if self._wfkpoint is None:
            self._wfkpoint = wfkpoint[:]
        return self._wfkpoint['fkpnt']
""")],
    NEEDS='a caller that moves the points it got and asks for them again',
    BREAKS='the array of points is kept and handed out again',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    s.rec('WGLOBDEF', 5., 9.81, 1025., 1., 100.)
    s.rec('WDRESREF', 10., 1., 1., 2., 1., 1., 0.5, 2., 1., 0.7)
    for k in (1, 2):
        s.rec('WFKPOINT', 5., k, 10. * k, 20. * k, 30. * k)
    f = fs.open_sif(s.write(d + '/m_G1.SIF'))
    p = f.get_points()
    want = p.tolist()
    p += 1.
    expect(f.get_points().tolist() == want, 'points follow changes of the caller')
    f.close()
""")

BUGS['C01-nested'] = dict(
    PROPERTY='C01',
    EDITS=[(W, """        self._close_data()
        self._open_element(datatype)
""", """        if self._pointdata_open or datatype == 'PointData':
            self._close_data()
        self._open_element(datatype)
""")],
    NEEDS='start_celldata called twice for one piece',
    BREAKS='cell data sections are nested and one of them is never closed',
    DEMO="""
from sif import *
import itertools
import numpy as np
from xml.dom import minidom
from freesif.utils.writers import VtuWriter
from freesif.exceptions import VtkError
pts, cells = np.zeros((2, 3), 'f'), (np.array([0, 1]), np.array([2]), np.array([15]))
with Scratch() as d:
    for seq in itertools.product(('new_piece', 'start_pointdata', 'start_celldata'), repeat=3):
        w = VtuWriter(d + '/a.vtu')
        try:
            w.new_piece(pts, cells)
            for call in seq:
                getattr(w, call)(*((pts, cells) if call == 'new_piece' else ()))
            w.close()
            doc = minidom.parse(d + '/a.vtu')
        except Exception as e:
            expect(False, '%r: %r' % (seq, e))
        for tag in ('PointData', 'CellData'):
            for e in doc.getElementsByTagName(tag):
                expect(e.parentNode.tagName == 'Piece', '%s inside %s' % (tag, e.parentNode.tagName))
""")

BUGS['C02-order'] = dict(
    PROPERTY='C02',
    EDITS=[(W, """        arrstr = arr.ravel().tostring()
""", """        arrstr = arr.ravel('K').tostring()
""")],
    NEEDS='a result array that is not in C order, e.g. a transposed one',
    BREAKS='the values of such an array are written in another order',
    DEMO="""
from sif import *
import base64, struct
import numpy as np
from xml.dom import minidom
from freesif.utils.writers import VtuWriter
pts, cells = np.zeros((2, 3), 'f'), (np.array([0, 1]), np.array([2]), np.array([15]))
with Scratch() as d:
    w = VtuWriter(d + '/a.vtu')
    w.new_piece(pts, cells)
    w.start_pointdata()
    a = np.arange(12.).reshape(3, 4)
    for k, arr in enumerate((a, a.T, a[:, ::2], a.astype('>f8').astype('f4').T)):
        w.add_data(arr, 'd%d' % k)
    w.close()
    doc = minidom.parse(d + '/a.vtu')
    for k, arr in enumerate((a, a.T, a[:, ::2], a.astype('f4').T)):
        e = [x for x in doc.getElementsByTagName('DataArray') if x.getAttribute('Name') == 'd%d' % k][0]
        raw = base64.b64decode(e.firstChild.data.strip())
        expect(struct.unpack('<Q', raw[:8])[0] == arr.nbytes, 'count')
        expect(np.frombuffer(raw[8:], arr.dtype).reshape(arr.shape).tolist() == arr.tolist(), 'values of d%d' % k)
""")

BUGS['C03-inverse'] = dict(
    PROPERTY='C03',
    EDITS=[(W, """sesam2vtk_elemresults = {26 : np.array([0,2,4,1,3,5])}
""", """sesam2vtk_elemresults = {26 : np.array([0,3,1,4,2,5])}
""")],
    NEEDS='element node results of 6-node shells',
    BREAKS='element node results of 6-node shells are permuted the other way round',
    DEMO="""
from sif import *
import base64
import numpy as np
from xml.dom import minidom
from freesif.utils.writers import VtuWriter
with Scratch() as d:
    cells = (np.array([0, 1, 2, 3, 4, 5, 0, 1, 2, 3]), np.array([6, 10]), np.array([26, 24]))
    w = VtuWriter(d + '/a.vtu')
    w.new_piece(np.zeros((6, 3), 'f'), cells)
    w.start_pointdata()
    w.add_data_cellpoints(np.arange(10.), 'r')
    w.close()
    doc = minidom.parse(d + '/a.vtu')
    e = [x for x in doc.getElementsByTagName('DataArray') if x.getAttribute('Name') == 'r'][0]
    got = np.frombuffer(base64.b64decode(e.firstChild.data.strip())[8:]).tolist()
    expect(got == [0, 2, 4, 1, 3, 5, 6, 7, 8, 9], 'results %r' % got)
""")

BUGS['C04-sign'] = dict(
    PROPERTY='C04',
    EDITS=[('freesif/calc/general.py', """    amax = a.max(axis)
    amin = a.min(axis)
    return np.where(-amin > amax, amin, amax)
""", """    amax = a.max(axis)
    amin = a.min(axis)
    return np.where(amax > 0, np.where(-amin > amax, amin, amax), amax)
""")],
    NEEDS='positions at which all values are negative',
    BREAKS='the smallest magnitude is picked where all values are negative',
    DEMO="""
from sif import *
import numpy as np
from freesif.calc.general import absmax
a = np.array([[-1., 2., -3.], [-5., 4., -1.], [-2., 1., -2.]])
expect(absmax(a, 0).tolist() == [-5., 4., -3.], 'axis 0')
expect(absmax(a, 1).tolist() == [-3., -5., -2.], 'axis 1')
expect(absmax(a) == -5., 'all')
""")

BUGS['C06-partial'] = dict(
    PROPERTY='C06',
    EDITS=[(Q, """            self._write_line('        ', floats[fpl:][i:i+4])
""", """            self._write_line('        ', floats[fpl+i:fpl+n_floats-n_rest or None][:4])
""")],
    NEEDS='numbers written in portions',
    BREAKS='the last, partly filled line of a record is lost',
    DEMO="""
from sif import *
from freesif.sequentialparser.sequentialfiles import FormattedFile
with Scratch() as d:
    for n in range(4, 30):
        for cut in range(4, n + 1):
            rec = tuple(float(x) for x in range(1, n + 1))
            f = FormattedFile(d + '/a.FEM', 'w')
            f.write_record('GELMNT1', rec[:cut])
            f.write_floats(rec[cut:])
            f.write_record('IEND', (0., 0., 0., 0.))
            f.close()
            f = FormattedFile(d + '/a.FEM')
            try:
                name, got = f.read_headerrec()
                got += f.read_floats(n - 4) if n > 4 else ()
                end = f.read_headerrec()[0]
            except Exception as e:
                expect(False, '%d of %d: %r' % (cut, n, e))
            f.close()
            expect(got == rec and end == 'IEND', '%d of %d: %r' % (cut, n, got))
""")
