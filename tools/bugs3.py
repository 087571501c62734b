P = 'freesif/sequentialparser/parsers.py'
C = 'freesif/sequentialparser/sif2hdf5.py'
S = 'freesif/data/strucdata.py'
H = 'freesif/data/hydrodata.py'
D = 'freesif/data/sifdata.py'
L = 'freesif/data/helpers.py'
F = 'freesif/data/file.py'
G = 'freesif/calc/principal.py'
BUGS = {}

BUGS['A06-interrupt'] = dict(
    PROPERTY='A06',
    EDITS=[(C, """    except BaseException:
        out_file.close()
        raise

    if in_memory:""", """    except Exception:
        out_file.close()
        raise

    if in_memory:""")],
    NEEDS='a conversion interrupted from the keyboard',
    BREAKS='the HDF5 file stays open when a conversion is interrupted',
    DEMO="""
from sif import *
import freesif as fs
import tables as tb
real = tb.Table.append
def interrupted(self, rows):
    raise KeyboardInterrupt
with Scratch() as d:
    name = struc(3, [(11, 15, [1, 2])]).write(d + '/m_R1.SIF')
    tb.Table.append = interrupted
    try:
        fs.sif2hdf5(name, d + '/m.h5')
        expect(False, 'not interrupted')
    except KeyboardInterrupt:
        pass
    finally:
        tb.Table.append = real
    left = [f for f in tb.file._open_files.filenames if f.endswith('m.h5')]
    expect(not left, 'left open: %r' % left)
""")

BUGS['A09-index'] = dict(
    PROPERTY='A09',
    EDITS=[(L, """                   r'(H[1-9]\\d*)?\\.' + \\
""", """                   r'(H[1-9]\\d?)?\\.' + \\
""")],
    NEEDS='a first level result file with a hierarchy index of three digits',
    BREAKS='open_sif refuses file names with large hierarchy indices that sif2hdf5 converts',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    for k in (1, 12, 123):
        s = struc(3, [(11, 15, [1, 2])], hierarch=False)
        name = s.write(d + '/m_R1H%d.SIF' % k)
        fs.sif2hdf5(name, d + '/m%d.h5' % k)
        f = fs.open_sif(name)
        expect(len(f.get_nodes()) == 3, 'nodes')
        f.close()
""")

BUGS['B01-section'] = dict(
    PROPERTY='B01',
    EDITS=[(P, """    secusr = tb.Int32Col(pos=4)
""", """    isecusr = tb.Int32Col(pos=4)
""")],
    NEEDS='section definitions on the file',
    BREAKS='the user section numbers are stored in a column with another name than the data class reads',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    s.rec('WGLOBDEF', 5., 9.81, 1025., 1., 100.)
    s.rec('WBODCON', 7., 1., 1., 1., 0., 0., 0.)
    s.rec('WDRESREF', 10., 1., 1., 2., 1., 1., 0.5, 2., 1.0, 0.1)
    s.rec('WSECTION', 14., 1., 1., 1., 17., 1., 0., 0., 0., 1., 0., 0., 0., 1.)
    f = fs.open_sif(s.write(d + '/G1.SIF'))
    sec = f.get_sections()
    expect(sec['secusr'].tolist() == [17], 'sections %r' % sec)
    f.close()
""")

BUGS['B12-lookup'] = dict(
    PROPERTY='B12',
    EDITS=[(L, """    for r in table.where(condition):
        return r.fetch_all_fields()
    raise ConditionError""", """    rows = table.read_where(condition)
    if rows is not None:
        return rows[0]
    raise ConditionError""")],
    NEEDS='a lookup that matches no row, e.g. of a body that is not on the file',
    BREAKS='IndexError instead of ConditionError',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    s.rec('WGLOBDEF', 5., 9.81, 1025., 1., 100.)
    s.rec('WBODCON', 7., 1., 1., 1., 0., 0., 0.)
    s.rec('WDRESREF', 10., 1., 1., 2., 1., 1., 0.5, 2., 1.0, 0.1)
    s.rec('W2HDRIFT', 6., 1., 1., 10., 20., 30.)
    f = fs.open_sif(s.write(d + '/G1.SIF'))
    f.get_horiz_meandrift(1)
    try:
        f.get_horiz_meandrift(2)
        expect(False, 'accepted')
    except fs.exceptions.ConditionError:
        pass
    except Exception as e:
        expect(False, repr(e))
    f.close()
""")

BUGS['C05-message'] = dict(
    PROPERTY='C05',
    EDITS=[(H, """            raise ResultError('No {} domain results on {}'.format(domaintype,
                                                                  self.name))
""", """            raise ResultError('No {} domain results on {}'.format(
                domaintype, self.groupname))
""")],
    NEEDS='a time domain getter called for frequency domain data or the other way round',
    BREAKS='AttributeError instead of ResultError',
    DEMO="""
from sif import *
import freesif as fs
with Scratch() as d:
    s = Sif()
    s.rec('IDENT', 1., 1., 3., 0.)
    s.rec('WGLOBDEF', 5., 9.81, 1025., 1., 100.)
    s.rec('WBODCON', 7., 1., 1., 1., 0., 0., 0.)
    s.rec('WDRESREF', 10., 1., 1., 2., 1., 1., 0.5, 2., 1.0, 0.1)
    f = fs.open_sif(s.write(d + '/G1.SIF'))
    try:
        f.get_timesteps()
        expect(False, 'accepted')
    except fs.exceptions.ResultError:
        pass
    except Exception as e:
        expect(False, repr(e))
    f.close()
""")

BUGS['C07-ties'] = dict(
    PROPERTY='C07',
    EDITS=[(G, """    arem = np.argmin(np.abs(p), axis=-1)
    p_mod = np.empty(p.shape[:-1] + (2,))
    for ind in np.ndindex(p.shape[:-1]):
        p_mod[ind] = np.delete(p[ind], arem[ind])
""", """    pmin = np.abs(p).min(axis=-1)
    p_mod = np.empty(p.shape[:-1] + (2,))
    for ind in np.ndindex(p.shape[:-1]):
        p_mod[ind] = p[ind][np.abs(p[ind]) > pmin[ind]]
""")],
    NEEDS='a uniaxial stress state: two principal stresses are zero',
    BREAKS='both smallest principal stresses are dropped and the remaining one is returned twice',
    DEMO="""
from sif import *
import numpy as np
from freesif.calc import principal_thickshell
for a in ([10., 4., 0., 1., 1.], [-10., 0., 0., 0., 0.], [10., 0., 0., 0., 0.], [100., 80., 5., 10., 3.]):
    s = np.array([[a[0], a[2], a[3]], [a[2], a[1], a[4]], [a[3], a[4], 0.]])
    w = sorted(np.linalg.eigvalsh(s), key=abs)[1:]
    got = principal_thickshell(np.array([a]))[0]
    expect(np.allclose(got, [max(w), min(w)]), '%r: %r' % (a, got))
""")
