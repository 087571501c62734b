From 4eed8d74899b6e35aa0b8b25a830a3b4ad17e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 01/38] fix: read all floats of complex node results

nfield counts the real and the imaginary parts, so dividing by (icompl + 1)
dropped half of every complex RVNODxxx record.
---
 freesif/sequentialparser/parsers.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..b1723c4 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1887,9 +1887,9 @@ atoms['RVNODACC'] = [('acc', tb.Float32Atom(), ())]
 atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
-# each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
-# be changed from float32 to complex64 before use
+# each row in a 'rvnodres' vlarray will have nfield - 5 32-bit floats (the real
+# and imaginary parts are both counted by nfield). If results are complex the
+# dtype should be changed from float32 to complex64 before use
 
 
 def rvnodres_reader(rec_name, rec, in_file, out_file):
@@ -1903,11 +1903,8 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
 
-        res.add(in_file.read_floats(nres))
+        res.add(in_file.read_floats(nfield - 5))
         recs.add(rec)
 
         rec_name, rec = in_file.read_headerrec()
-- 
2.43.0


From 87509daf5a3aeddf83cb5d0b58bb94e56fcd82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 02/38] fix: File.__iter__ must return an iterator

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..b3b8b51 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -159,7 +159,7 @@ class File(object):
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From 9562224c737af5522aa9d463bef306accdf1da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 03/38] fix: repr() of a File with several datasets

The datasets themselves are unorderable; sort them by name.
---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b3b8b51..3430118 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -154,7 +154,7 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
-- 
2.43.0


From 9e8ae229338829d40a28628659acc0051596844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 04/38] fix: close_all_files changed the set it was iterating
 over

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 3430118..b9dcfa4 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -44,7 +44,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
-- 
2.43.0


From 47b3356f39c505f460b4bf1dc305d760585e578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 05/38] fix: give sub-superelements their top level

The top level object was passed as the file instance, so hierarchy
transformations of superelements always raised HierarchyError.
---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b9dcfa4..5493760 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..14d9d3b 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance=None, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
-- 
2.43.0


From 8d2abbaa9503053fccf92af4ff0a0527651334dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 06/38] fix: recognise the headers of all implemented record
 types

Misspelt (WIMOTION, WISFORCE, W2MDRIFI) and missing (TDLOAD, WINPUT) names in
the tables of allowed record names made skip_restofrecord() take these headers
for continuation data.
---
 freesif/sequentialparser/sequentialfiles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..eb3f805 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,13 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE',
+'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +69,13 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE',
+b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From 10c9bb1c692a7efcb53826517dce7496a25a3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 07/38] fix: stop at IEND also when `only` does not list it

IEND was skipped like any other record, and reading continued past the end of
the file.
---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index b1723c4..5502911 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -449,7 +449,7 @@ def parse_file(in_file, out_file, only=None):
 
     if only:
         while rec_name:
-            if rec_name in only:
+            if rec_name in only or rec_name == 'IEND':
                 rec_name, rec = general_parser(rec_name, rec, in_file,
                                                   out_file)
             else:
-- 
2.43.0


From 6af33e056240fa75d3aa7be87d577f46007e56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 08/38] fix: skip TSLAYER as the text record it is read as

---
 freesif/sequentialparser/sequentialfiles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index eb3f805..31d5dbd 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -120,8 +120,9 @@ class SequentialFile(object):
                 self.read_floatrec()
             return self.read_headerrec()
 
-        # workaround to handle TDxxxxxx records (on unformatted files):
-        if rec_name[:2] == 'TD':
+        # workaround to handle TDxxxxxx (and TSLAYER) records (on unformatted
+        # files):
+        if rec_name[:2] == 'TD' or rec_name == 'TSLAYER':
             for i in range(int(rec[2]) // 100):
                 self.read_stringrec()
             for i in range(int(rec[3]) // 100):
-- 
2.43.0


From cdcff7d1601957bd838d85e0ad9a7636cc8ac095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 09/38] fix: reset element types between files

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 5502911..bdd5236 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -139,7 +139,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +149,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From 8a8b842f558b777f83ccb811320bd3cc411581ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 10/38] fix: files with lower case names

Such names are accepted, but the data type became UNKNOWN.
---
 freesif/data/file.py                 | 2 +-
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 5493760..ba305d5 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -39,7 +39,7 @@ def open_sif(filename):
 
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
-    groupname = prefix + letter + idno
+    groupname = prefix + letter.upper() + idno
     return File(tbfile)[groupname]
 
 def close_all_files():
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..399c161 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -198,7 +198,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.reset()
 
     # filetype identifier (T, L, R or G)
-    filetypeid = letter
+    filetypeid = letter.upper()
 
     # set group name prefix
     if usefileprefix:
@@ -256,7 +256,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         # generate candidate file names
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-- 
2.43.0


From 76ab97d284ff4cd32cdba4c806c9b013e51ae39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 11/38] fix: do not hand out internal arrays of HydroData

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..cd2e710 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From bf972096927c1125a304f09e7931331ac7fc9093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 12/38] fix: VtuWriter reordered the arrays of the caller

Writing the same arrays twice gave a wrong second file.
---
 freesif/utils/writers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..88639d8 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -106,8 +106,9 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
         connectivity, offsets, types = cells
+        connectivity = connectivity.copy()  # reordered in place
+        _reorder_connectivity_vtk((connectivity, offsets, types))
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -146,6 +147,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        arr = arr.copy()  # reordered in place
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0


From 611a9bb3ddb1ab71235652e349e3523fc849f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 13/38] fix: escape attribute values in VTU files

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 88639d8..fb7dc3e 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import quoteattr
 
 from ..exceptions import VtkError
 
@@ -229,7 +230,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s=%s' % (str(k).encode(), quoteattr(str(v)).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From fa2767e09aff14c747c9053ce4983b878c3b387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 14/38] fix: stale references of WDRESREF records lacking a
 type

---
 freesif/sequentialparser/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index bdd5236..2e2726e 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2038,6 +2038,10 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        # types not present on this record have no data
+        dirs.add(None)
+        freqs.add(None)
+        times.add(None)
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
             dat = []
-- 
2.43.0


From 37441add0274ecf861c2089f130c0acef81d3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 15/38] fix: RDIELCOR with unknown reference used the sizes of
 the previous record

---
 freesif/sequentialparser/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 2e2726e..e55b589 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1749,6 +1749,9 @@ def rdielcor_reader(rec_name, rec, in_file, out_file):
                 nlay, nok, noj, noi = 0, 1, 1, 3
             elif icoref == 24:  # Flat Quadrilateral Thin Shell
                 nlay, nok, noj, noi = 0, 2, 3, 3
+            else:
+                raise NotImplementedError('RDIELCOR: icoref {} without RDPOINTS '
+                                          'not implemented'.format(icoref))
 
         # gamma
         if nok == 1:
-- 
2.43.0


From 8a549f0d28a800a0a60175c24aa48ebff9ef5e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 16/38] fix: check NUMREP of every SCONMESH record, not only
 the first

---
 freesif/sequentialparser/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index e55b589..ab7f39d 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1333,16 +1333,16 @@ atoms['SCONMESH'] = [('irferep', tb.Int32Atom(), ())]
 def sconmesh_reader(rec_name, rec, in_file, out_file):
     """..."""
 
-    # assume numrep is allways 1. Throw NotImplementedError if above 1
-    if int(rec[2]) > 1:
-        raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
-
     table, irferep_arr = get_table(rec_name, out_file)
     irfereps = vldata(irferep_arr)
     recs = recdata(table, irfereps)
 
     while rec_name == 'SCONMESH':
 
+        # assume numrep is allways 1. Throw NotImplementedError if above 1
+        if int(rec[2]) > 1:
+            raise NotImplementedError('SCONMESH: NUMREP > 1 not implemented')
+
         rec += in_file.read_floats(1)
 
         nferep = int(rec[4])
-- 
2.43.0


From 508e47b2714d43a4b451b66b597e53af3cf39b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 17/38] fix: FormattedFile wrote headers to a method that does
 not exist

---
 freesif/sequentialparser/sequentialfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 31d5dbd..e34f400 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -355,7 +355,7 @@ class FormattedFile(SequentialFile):
             # self.write(' '*self.float_places_left*16 + '\n')
             self.f.write('\n')
 
-        self.write('{:<8}'.format(header))
+        self.f.write('{:<8}'.format(header))
         for f in rec:
             self.f.write('{:>16.8e}'.format(f))
 
-- 
2.43.0


From dd971cd678dc2a37a69d609d736d725fe2efb9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 18/38] fix: blank line after a string record following a short
 record

---
 freesif/sequentialparser/sequentialfiles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index e34f400..cf2a2c7 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -366,6 +366,7 @@ class FormattedFile(SequentialFile):
     def write_string(self, string, leading_blanks=8):
         if self.float_places_left:
             self.f.write('\n')
+            self.float_places_left = 0
 
         self.f.write(' '*leading_blanks + string + '\n')
 
-- 
2.43.0


From a8be8f662cc7bf2d30b074bd10ef00ab4f2dedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 19/38] fix: accept a numpy integer as result case

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 14d9d3b..77fda19 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -161,7 +161,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
-- 
2.43.0


From 771dc03b47e7d54e5b39f415f5fa5aafed8c86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 20/38] fix: get_nodes scaled the coordinates by an unsupported
 trans

---
 freesif/data/strucdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 77fda19..8b84bec 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -468,9 +468,11 @@ class FirstLevelData(StrucData):
                                                                   index, 'top')
                     else:
                         raise ValueError('legal string argument: "top"')
-                elif isinstance(trans, int):
+                elif isinstance(trans, (int, np.integer)):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
+                else:
+                    raise TypeError('trans must be an array, an int or "top"')
             elif self._has_record('rsuptran') and trans=='top':
                 trans = self._get_record('rsuptran')[0]['t']
             else:
-- 
2.43.0


From 6712f30b9d91ef115c445ed13442f164cfdfe706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 21/38] fix: reject unsupported pos for element results

It was silently ignored for some element types.
---
 freesif/data/strucdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 8b84bec..f46a241 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -761,6 +761,9 @@ class FirstLevelData(StrucData):
 
         """
 
+        if pos not in ('nodes', 'respts'):
+            raise ValueError('pos={!r} not supported'.format(pos))
+
         if restype == 'beamforce':
             rvres, res = self._get_record('rvforces')
             start, stop = 'force_start', 'force_stop'
-- 
2.43.0


From 50d574e0405eccc5de025891a104b6657b7d29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 22/38] fix: close all files when a conversion fails

The input and the output file stayed open, and an in-memory output left open
made the next conversion of a file with the same name fail.
---
 freesif/sequentialparser/sif2hdf5.py | 138 ++++++++++++++-------------
 1 file changed, 72 insertions(+), 66 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 399c161..c18e875 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -11,6 +11,19 @@ from . import parsers
 from .sequentialfiles import FormattedFile, UnformattedFile
 
 
+def _read_file(name, is_formatted, out_file, only):
+    """Read one file into *out_file*. Always closes the file being read.
+    """
+    if is_formatted:
+        in_file = FormattedFile(name)
+    else:
+        in_file = UnformattedFile(name)
+    try:
+        parsers.parse_file(in_file, out_file, only)
+    finally:
+        in_file.close()
+
+
 def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             prefix='', only=None, in_memory=False):
 
@@ -217,12 +230,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         else:
             is_formatted = True
 
-    # open files
-    if is_formatted:
-        in_file = FormattedFile(sifname)
-    else:
-        in_file = UnformattedFile(sifname)
-
+    # open file
     if in_memory:
         out_file = tb.open_file(hdf5name, 'w', driver='H5FD_CORE',
                                 driver_core_backing_store=0)
@@ -231,68 +239,66 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     # TODO: check if group name allready exist
 
-    # set filetypeid
-    parsers.set_filetypeid(filetypeid)
-
-    # parse first file
-    parsers.parse_file(in_file, out_file, only)
-    in_file.close()
-
-    # parse additional lower level files
-
-    # if model file(FEM): intermediate level files exist
-    #                     only one file per superelement (not each repetition)
-
-    # if results file(SIF/SIU): only 1st level files exist
-    #                           one file per superelement repetition (index)
-
-    # need to look for valid file names in directory of top level file..
-    # generate valid file names based on hierarchy data..
-
-    if parsers.has_hierarchy():
-
-        hierarch_table = parsers.get_hierarch_table()
-
-        # generate candidate file names
-        fnames = []
-        ihref = []
-        if extension.upper() in ('SIF', 'SIU'):  # structural results files
-            for r in hierarch_table[1:]:
-                if r['islevl'] == 1:  # 1st level
-                    fnames.append(fileprefix +
-                                  'R' + str(r['iselty']) +
-                                  'H' + str(r['ihref']) +
-                                  '.' + extension)
-                    ihref.append(r['ihref'])
-
-        else:  # structural input files
-            for r in hierarch_table[1:]:
-                if r['indsel'] == 1:  # skip additional repetitions
-                    fnames.append(fileprefix +
-                                  'T' + str(r['iselty']) +
-                                  '.' + extension)
-                    ihref.append(r['ihref'])
-
-            # TODO: look for load files as well ? (L-files)
-            # Should records from L-files be put into corresponding T-file
-            # group, or be put in a separate L-group? Let the user choose ?
-
-        # read files
-        for i, fname in enumerate(fnames):
-            fname_fullpath = path.join(fdir, fname)
-            if path.isfile(fname_fullpath):
-                if is_formatted:
-                    in_file = FormattedFile(fname_fullpath)
-                else:
-                    in_file = UnformattedFile(fname_fullpath)
+    try:
+        # set filetypeid
+        parsers.set_filetypeid(filetypeid)
+
+        # parse first file
+        _read_file(sifname, is_formatted, out_file, only)
+
+        # parse additional lower level files
 
-                parsers.reset(reset_toplevel=False)
-                parsers.set_current_ihref(ihref[i])
-                parsers.parse_file(in_file, out_file, only)
-                in_file.close()
+        # if model file(FEM): intermediate level files exist
+        #                     only one file per superelement (not each repetition)
+
+        # if results file(SIF/SIU): only 1st level files exist
+        #                           one file per superelement repetition (index)
+
+        # need to look for valid file names in directory of top level file..
+        # generate valid file names based on hierarchy data..
+
+        if parsers.has_hierarchy():
+
+            hierarch_table = parsers.get_hierarch_table()
+
+            # generate candidate file names
+            fnames = []
+            ihref = []
+            if extension.upper() in ('SIF', 'SIU'):  # structural results files
+                for r in hierarch_table[1:]:
+                    if r['islevl'] == 1:  # 1st level
+                        fnames.append(fileprefix +
+                                      'R' + str(r['iselty']) +
+                                      'H' + str(r['ihref']) +
+                                      '.' + extension)
+                        ihref.append(r['ihref'])
+
+            else:  # structural input files
+                for r in hierarch_table[1:]:
+                    if r['indsel'] == 1:  # skip additional repetitions
+                        fnames.append(fileprefix +
+                                      'T' + str(r['iselty']) +
+                                      '.' + extension)
+                        ihref.append(r['ihref'])
+
+                # TODO: look for load files as well ? (L-files)
+                # Should records from L-files be put into corresponding T-file
+                # group, or be put in a separate L-group? Let the user choose ?
+
+            # read files
+            for i, fname in enumerate(fnames):
+                fname_fullpath = path.join(fdir, fname)
+                if path.isfile(fname_fullpath):
+                    parsers.reset(reset_toplevel=False)
+                    parsers.set_current_ihref(ihref[i])
+                    _read_file(fname_fullpath, is_formatted, out_file, only)
+
+                else:
+                    print('file not found: ' + fname)
 
-            else:
-                print('file not found: ' + fname)
+    except BaseException:
+        out_file.close()
+        raise
 
     if in_memory:
         # TODO: is it possible to change mode to 'r' here ?
-- 
2.43.0


From b51a6846467ae3ec392457e4d5d23c51d7220e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 23/38] fix: close the HDF5 file when its data cannot be loaded

---
 freesif/data/file.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index ba305d5..a23cd14 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -40,7 +40,12 @@ def open_sif(filename):
     tbfile = sif2hdf5(filename, in_memory=True)
     prefix, letter, idno, ext = parse_sifname(filename)
     groupname = prefix + letter.upper() + idno
-    return File(tbfile)[groupname]
+    f = File(tbfile)
+    try:
+        return f[groupname]
+    except KeyError:
+        f.close()
+        raise
 
 def close_all_files():
     global _open_files
@@ -80,6 +85,17 @@ class File(object):
             self._tbfile = filename
             self.filename = self._tbfile.filename
 
+        try:
+            self._load()
+        except BaseException:
+            self._tbfile.close()
+            raise
+
+        _open_files.add(self)
+        self._isopen = True
+
+    def _load(self):
+
         self._data = {}
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
@@ -109,9 +125,6 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
-        _open_files.add(self)
-        self._isopen = True
-
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
-- 
2.43.0


From cafc18d12120bf443f29d96859720644809af2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 24/38] fix: GIORHR records without the optional fields

The unused last place of the line counted as a field left to read, so the
header of the next record was read as data (GUSYI, with the same number of
fields, already counts two).
---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index ab7f39d..d9d8c53 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1115,7 +1115,8 @@ class GIORHR_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GIORHR'] = GIORHR_rec
-readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 3)
+# the 1st of the three optional fields shares a line with required fields
+readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 2)
 
 
 # ---GLSEC------------------------------------------------------------------- #
-- 
2.43.0


From b9ae92467946618ca379c5838b06dee178aeabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 25/38] fix: store shear factors and corner radii of sections
 as floats

They were stored in integer columns, which truncated e.g. a shear factor of 0.5 to 0.
---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index d9d8c53..be7be59 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1010,8 +1010,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1027,8 +1027,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1046,11 +1046,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1067,8 +1067,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1086,8 +1086,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1106,8 +1106,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1127,8 +1127,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1145,8 +1145,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1163,8 +1163,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1184,8 +1184,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From cffa426b38a97f3888f4e9c72eced5cf04161939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:36 +0000
Subject: [PATCH 26/38] fix: at_headerrec is not misled by numbers that have
 been used up

---
 freesif/sequentialparser/sequentialfiles.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index cf2a2c7..481c92f 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -233,8 +233,7 @@ class UnformattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
@@ -323,8 +322,7 @@ class FormattedFile(SequentialFile):
 
         self.floatrest = floats[n:]
 
-        if len(self.floatrest) > 0:
-            self.hasrest = True
+        self.hasrest = len(self.floatrest) > 0
 
         return floats[:n]
 
-- 
2.43.0


From 302791e07c5043caab00a4026a0e74780e2019fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:56 +0000
Subject: [PATCH 27/38] fix: recognise headers of unknown record types on
 formatted files

---
 freesif/sequentialparser/sequentialfiles.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 481c92f..dcbea7a 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -139,7 +139,7 @@ class SequentialFile(object):
 #            return string_rec[:8].decode().strip(), self.tofloatrec(string_rec[8:])
             return self.skip_contrecs(string_rec)
 
-        elif string_rec[:8].strip() in self.allowed_record_names: # no cont. records
+        elif self.is_recname(string_rec[:8].strip()): # no cont. records
             return self.strip_recname(string_rec[:8]), self.tofloatrec(string_rec[8:])
 
         else:  # type 2 record
@@ -251,6 +251,9 @@ class UnformattedFile(SequentialFile):
 
         return False
 
+    def is_recname(self, rec_name):
+        return rec_name in self.allowed_record_names
+
     def strip_recname(self, rec_name):
         return rec_name.decode().strip()
 
@@ -334,11 +337,15 @@ class FormattedFile(SequentialFile):
         rec_name = self.f.read(8).strip()
         self.f.seek(pos)
 
-        if not self.hasrest and rec_name in self.allowed_record_names:
+        if not self.hasrest and rec_name:
             return True
 
         return False
 
+    def is_recname(self, rec_name):
+        # continuation records always start with blanks on formatted files
+        return True
+
     def strip_recname(self, rec_name):
         return rec_name.strip()
 
-- 
2.43.0


From cf6ba5d4e02c861c3f979818f6f88b93a445f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 28/38] fix: file names must match in full

The pattern of valid SESAM file names had an unescaped dot and no end anchor,
so that e.g. T1xSIF or T1.SIF.bak were accepted, and names like
R1_SIF_T2.FEM were split at the wrong place.
---
 freesif/data/helpers.py              | 4 ++--
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index b0dde68..363237a 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -34,8 +34,8 @@ def parse_sifname(filename):
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
                    '(?P<selno>[1-9]\d*)' + \
-                   '(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   r'(H[1-9]\d*)?\.' + \
+                   r'(?P<ext>(si[fun]|fem))\Z'
 
     match = re.match(name_pattern, fname)
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index c18e875..663fad5 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -191,8 +191,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
-                   '[1-9]\d*(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   r'[1-9]\d*(H[1-9]\d*)?\.' + \
+                   r'(?P<ext>(si[fun]|fem))\Z'
 
     match = re.match(name_pattern, fname)
 
-- 
2.43.0


From 949589804422feef9a7595eb0c10da5ff3d11355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 29/38] fix: the last line of a formatted file was not ended at
 close

---
 freesif/sequentialparser/sequentialfiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index dcbea7a..84ec27f 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -354,6 +354,12 @@ class FormattedFile(SequentialFile):
             string_rec = self.read_stringrec()
         return self.strip_recname(string_rec[:8]), self.tofloatrec(string_rec[8:])
 
+    def close(self):
+        if self.float_places_left:  # end the last line
+            self.f.write('\n')
+            self.float_places_left = 0
+        super(FormattedFile, self).close()
+
     def _write_line(self, header, rec):
         if self.float_places_left:
             # fill with blanks:
-- 
2.43.0


From 1db172c52d00a0669125fff444936baf801dc60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 30/38] fix: VtuWriter.add_data_cellpoints raised TypeError
 when called before new_piece

---
 freesif/utils/writers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index fb7dc3e..4e815ad 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -148,6 +148,8 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        if not self._pointdata_open and not self._celldata_open:
+            raise VtkError('Call start_pointdata() or start_celldata() first')
         arr = arr.copy()  # reordered in place
         _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
-- 
2.43.0


From 5484d0c29d531ab85db27c71134beb0787dd8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 31/38] fix: VtuWriter could not be closed after new_piece
 refused an element type

---
 freesif/utils/writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 4e815ad..9705704 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -105,7 +105,6 @@ class VtuWriter(object):
         """
         self._close_data()
         self._close_piece()
-        self._piece_open = True
 
         connectivity, offsets, types = cells
         connectivity = connectivity.copy()  # reordered in place
@@ -119,6 +118,7 @@ class VtuWriter(object):
 
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
+        self._piece_open = True
 
         # write points
         self._open_element('Points')
-- 
2.43.0


From 5cb29f6b6046cdb3762e1e9878e6f246dd7a3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 32/38] fix: VtuWriter could not write a piece without elements

---
 freesif/utils/writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 9705704..197f841 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -27,7 +27,7 @@ sesam2vtk_elementtypeid = {15 : 3,
                            28 : 23}
 
 # get vtk ids from sesam ids
-typeidmapper = np.vectorize(lambda x: sesam2vtk_elementtypeid[x])
+typeidmapper = np.vectorize(lambda x: sesam2vtk_elementtypeid[x], otypes=[int])
 
 # get vtk datatype name from numpy datatype name
 numpy2vtk_datatype = {'int8'    : 'Int8',
-- 
2.43.0


From aacb4134c7d325e23ba902d8409d1147a487d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 33/38] fix: VtfData() raised AttributeError (self.scalar does
 not exist)

---
 freesif/utils/vtfdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 8543028..73c46fa 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -151,7 +151,7 @@ class VtfData(object):
 
         self.containers = {'nodes': self.nodes,
                            'elems': self.elems,
-                           'scalars': self.scalar,
+                           'scalars': self.scalars,
                            'results': self.results}
 
         self.current_ids = {'nodes': self.current_nodes_id}
-- 
2.43.0


From 09b75170114b23d58ea5d3e27073a9d438b2ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 34/38] fix: VtfData used Python 2 iterator and dictionary
 methods

---
 freesif/utils/vtfdata.py | 54 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 73c46fa..e6e14e5 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -158,9 +158,10 @@ class VtfData(object):
         # TODO: finish this with elems and scalars
 
     def _get_new_id(self, objtype):
-        obj_id = self.counters[objtype].next()
+        obj_id = next(self.counters[objtype])
         while obj_id in self.containers[objtype].keys():
-            obj_id = self.counters[objtype].next()
+            obj_id = next(self.counters[objtype])
+        return obj_id
 
     def _get_current_id(self, objtype):
         pass
@@ -173,9 +174,9 @@ class VtfData(object):
 
         # handle blank lines
         def get_next_line():
-            line = lines_iter.next()
+            line = next(lines_iter)
             while line.strip() == '':  # empty line
-                line = lines_iter.next()
+                line = next(lines_iter)
             return line
 
         line = get_next_line()
@@ -211,10 +212,10 @@ class VtfData(object):
                     while line.split()[0] not in block_types:
                         if with_id:
                             toks = line.split()
-                            node_list.append(map(float, toks[1:]))
+                            node_list.append(list(map(float, toks[1:])))
                             nodeid_list.append(int(toks[0]))
                         else:
-                            node_list.append(map(float, line.split()))
+                            node_list.append(list(map(float, line.split())))
                         line = get_next_line()
 
                     nodes_arr = np.array(node_list)
@@ -314,7 +315,7 @@ class VtfData(object):
                         elems = self.elems[elems_id]
                         elems.results_ids.append(block_id)
 
-                        for elem_type, arr in elems.elems_dict.iteritems():
+                        for elem_type, arr in elems.elems_dict.items():
                             n_res = number_of_nodes[elem_type]
                             resinds = range(n_res)
                             res = []
@@ -437,9 +438,9 @@ class VtfData(object):
 #            nodes_id = self.current_nodes_id
             nodes_id = self._get_current_id()
         if not elems_id:
-            elems_id = self.elems_id_counter.next()
+            elems_id = next(self.elems_id_counter)
             while elems_id in self.elems.keys():
-                elems_id = self.elems_id_counter.next()
+                elems_id = next(self.elems_id_counter)
 
         # need to convert data format:
 
@@ -461,7 +462,7 @@ class VtfData(object):
             elems_dict[et].append(con[o0:o1])
             o0 = o1
 
-        for et in elems_dict.keys():
+        for et in list(elems_dict.keys()):
             elems_dict[elem_type_map[et]] = np.array(elems_dict[et])
             if not self.nodes[nodes_id].with_id:
                 elems_dict[elem_type_map[et]] += 1
@@ -473,7 +474,7 @@ class VtfData(object):
                 elem_ids[et].append(elno)
                 o0 = o1
 
-            for et in elem_ids.keys():
+            for et in list(elem_ids.keys()):
                 elem_ids[elem_type_map[et]] = np.array(elem_ids[et])
                 del elem_ids[et]
 
@@ -499,7 +500,7 @@ class VtfData(object):
         # currently (time)steps are not implemented...
 
         if not scalar_id:
-            scalar_id = self.scalar_id_counter.next()
+            scalar_id = next(self.scalar_id_counter)
 
         self.scalars[scalar_id] = Scalar(name, description)
         self.current_scalar_id = scalar_id
@@ -551,10 +552,10 @@ class VtfData(object):
 
 
         if not results_id:
-            results_id = self.results_id_counter.next()
+            results_id = next(self.results_id_counter)
             # need to make sure the id number is not taken:
             while results_id in self.results.keys():
-                results_id = self.results_id_counter.next()
+                results_id = next(self.results_id_counter)
 
          # assiciate results_id with elements
         if not elems_id:
@@ -578,7 +579,7 @@ class VtfData(object):
         f_out.write('*VTF-1.00\n')
 
         # nodes
-        for nodes_id, nodes_data in self.nodes.iteritems():
+        for nodes_id, nodes_data in self.nodes.items():
             f_out.write('*NODES {}\n'.format(nodes_id))
             if nodes_data.with_id:
                 f_out.write('%WITH_ID\n')
@@ -594,7 +595,7 @@ class VtfData(object):
 
 
         # elements
-        for elems_id, elems_data in self.elems.iteritems():
+        for elems_id, elems_data in self.elems.items():
             f_out.write('*ELEMENTS {}\n'.format(elems_id))
             f_out.write('%NAME "{}"\n'.format(elems_data.name))
             f_out.write('%DESCRIPTION "{}"\n'.format(elems_data.description))
@@ -610,13 +611,14 @@ class VtfData(object):
             # get order for which element types shall be written
             if elems_data.results_ids:
 
-                result_keys = self.results[elems_data.results_ids[0]] \
-                    .res_dict.keys()
+                result_keys = list(self.results[elems_data.results_ids[0]]
+                                   .res_dict.keys())
 
                 # verify that all res_dicts associated with
                 # this element block has identical key lists (elem types):
                 for results_id in elems_data.results_ids:
-                    if self.results[results_id].res_dict.keys() != result_keys:
+                    if list(self.results[results_id].res_dict.keys()) != \
+                            result_keys:
                         raise VtfError(
                             'Element block "{}": All results associated with a'
                             ' single element block should apply to the same '
@@ -632,7 +634,7 @@ class VtfData(object):
 
                 # then add element types without results
                 existing_keys = ordered_elems_dict.keys()
-                for key, value in elems_data.elems_dict.iteritems():
+                for key, value in elems_data.elems_dict.items():
                     if key not in existing_keys:
                         ordered_elems_dict[key] = value
 
@@ -642,8 +644,8 @@ class VtfData(object):
             # write element defs in correct order
             if elems_data.with_id:
                 for elem_ids_arr, (elem_type, elems_arr) in zip(
-                    elems_data.elem_ids.itervalues(),
-                    ordered_elems_dict.iteritems()):
+                    elems_data.elem_ids.values(),
+                    ordered_elems_dict.items()):
                     # element type:
                     f_out.write('{}\n'.format(elem_type))
 
@@ -653,7 +655,7 @@ class VtfData(object):
                     for elem_id, node_refs in zip(elem_ids_arr, elems_arr):
                         f_out.write(string.format(elem_id, *node_refs))
             else:
-                for elem_type, elems_arr in ordered_elems_dict.iteritems():
+                for elem_type, elems_arr in ordered_elems_dict.items():
                     # element type:
                     f_out.write('{}\n'.format(elem_type))
 
@@ -674,7 +676,7 @@ class VtfData(object):
         f_out.write('\n')
 
         # results
-        for results_id, results_data in self.results.iteritems():
+        for results_id, results_data in self.results.items():
 
             f_out.write('*RESULTS {}\n'.format(results_id))
             f_out.write('%DIMENSION {}\n'.format(results_data.dimension))
@@ -684,13 +686,13 @@ class VtfData(object):
             # TODO: handle different res_types, currently assumes
             # PER_ELEMENT_NODE?
 
-            for elem_type, res_arr in results_data.res_dict.iteritems():
+            for elem_type, res_arr in results_data.res_dict.items():
                 for node_values in res_arr:
                     for node_value in node_values:
                         f_out.write('{}\n'.format(node_value))
 
         # scalars
-        for scalar_id, scalar_data in self.scalars.iteritems():
+        for scalar_id, scalar_data in self.scalars.items():
             f_out.write('*GLVIEWSCALAR {}\n'.format(scalar_id))
             f_out.write('%NAME "{}"\n'.format(scalar_data.name))
             f_out.write('%DESCRIPTION "{}"\n'.format(
-- 
2.43.0


From 7f97b44cb9026f6f5bbb0ca0c1a7f1a74edde07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 35/38] fix: VtfData.add_elements without nodes_id raised
 TypeError

---
 freesif/utils/vtfdata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index e6e14e5..ea879bd 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -435,8 +435,7 @@ class VtfData(object):
         has_elem_numbers = True if elem_numbers is not None else False
 
         if not nodes_id:
-#            nodes_id = self.current_nodes_id
-            nodes_id = self._get_current_id()
+            nodes_id = self.current_nodes_id
         if not elems_id:
             elems_id = next(self.elems_id_counter)
             while elems_id in self.elems.keys():
-- 
2.43.0


From 8cab9644a9988496adb3704e8b50e7f382b7ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 36/38] fix: all scalars of VtfData shared one list of result
 ids

---
 freesif/utils/vtfdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index ea879bd..5c2144a 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -81,10 +81,10 @@ class Scalar(Data):
     """
     """
 
-    def __init__(self, name, description, results_ids=[]):
+    def __init__(self, name, description, results_ids=None):
         self.name = name
         self.description = description
-        self.results_ids = results_ids
+        self.results_ids = [] if results_ids is None else results_ids
         # self.step ??
 
 
-- 
2.43.0


From b06d481eb241d4dc70f48ad69cbaca4e67521f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 37/38] fix: VtfData.write did not separate result ids by
 commas as VtfData.read expects

---
 freesif/utils/vtfdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index 5c2144a..ae8e873 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -700,7 +700,7 @@ class VtfData(object):
 
             resid_str = ''
             for results_id in scalar_data.results_ids:
-                resid_str += '{} '.format(results_id)
+                resid_str += '{},'.format(results_id)
             f_out.write(resid_str[:-1] + '\n')
 
         f_out.close()
-- 
2.43.0


From 464bed9f411988a67eef56ffd976975db4042fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 38/38] fix: VtfData.write mixed up element ids of different
 types when results reorder them

---
 freesif/utils/vtfdata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freesif/utils/vtfdata.py b/freesif/utils/vtfdata.py
index ae8e873..9637184 100644
--- a/freesif/utils/vtfdata.py
+++ b/freesif/utils/vtfdata.py
@@ -642,9 +642,8 @@ class VtfData(object):
 
             # write element defs in correct order
             if elems_data.with_id:
-                for elem_ids_arr, (elem_type, elems_arr) in zip(
-                    elems_data.elem_ids.values(),
-                    ordered_elems_dict.items()):
+                for elem_type, elems_arr in ordered_elems_dict.items():
+                    elem_ids_arr = elems_data.elem_ids[elem_type]
                     # element type:
                     f_out.write('{}\n'.format(elem_type))
 
-- 
2.43.0

