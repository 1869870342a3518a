From 6d96da091f1f54c0043c60941284faf0887e49c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 001/101] fix: faces of tri3 elements are missing in the
 default (CGNS) convention

---
 cfdtools/meshbase/_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index be7a482..4d194dc 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -60,8 +60,9 @@ def group_faces_by_type(connectivity):
 ###############################################################################
 # From CGNS
 # see https://cgns.github.io/CGNS_docs_current/sids/conv.html#unst_quad
-# QUAD 4 2D
+# TRI 3 and QUAD 4 2D
 cgns_elem2faces = {
+    'tri3': {'bar2': [[0, 1], [1, 2], [2, 0]]},
     'quad4': {'bar2': [[0, 1], [1, 2], [2, 3], [3, 0]]},
 }
 
-- 
2.43.0


From 2170320c3386217e6d9f6639405aceef42e22863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 002/101] fix: face extraction fails on meshes where a face
 type has no internal or no boundary face

---
 cfdtools/meshbase/_connectivity.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index e3be8d9..1a94805 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -362,6 +362,10 @@ class elem_connectivity:
             def face_from_ufacedict(uface_dict):
                 return np.array(list(map(lambda flist: flist[0][0], uface_dict.values())))
 
+            # meshes without any internal (or boundary) face must also get a (possibly empty) face2cell
+            iface2cell.append(np.empty((0, 2), dtype=int))
+            bface2cell.append(np.empty((0, 2), dtype=int))
+
             # find pairs for a given face type
             for ftype, listfaces in faces_neighbour.items():
                 nf_all = len(listfaces)
@@ -373,21 +377,23 @@ class elem_connectivity:
                 for tface in listfaces:
                     face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST
                 nf_unique = len(face_pairs)
-                assert nf_unique < nf_all
                 assert 2 * nf_unique >= nf_all
                 # extract all unique face
                 #   since reversed when created, boco faces are pointing outward
                 uniqueface_dict = dict(
                     filter(lambda tup: len(tup[1]) == 1, face_pairs.items())
                 )  # tup[1] is the value of key
-                boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
-                f2c = np.full((len(uniqueface_dict), 2), -1)
-                # get index of connected cells
-                f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
-                bface2cell.append(f2c)
+                if uniqueface_dict:
+                    boundaryfaces.add_elems(ftype, face_from_ufacedict(uniqueface_dict))
+                    f2c = np.full((len(uniqueface_dict), 2), -1)
+                    # get index of connected cells
+                    f2c[:, 0] = list(map(lambda flist: flist[0][1], uniqueface_dict.values()))
+                    bface2cell.append(f2c)
                 # remove these faces
                 for uface in uniqueface_dict.keys():
                     face_pairs.pop(uface)
+                if not face_pairs:
+                    continue
                 # get all first face of each pair of tuple (face,ielem)
                 intfaces = face_from_ufacedict(face_pairs)  # 10% COST
                 internalfaces.add_elems(ftype, intfaces)
-- 
2.43.0


From 06a8487a2a0bd6ea0a3d9f04fa3c7ed52ef5934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 003/101] fix: extruded cells of all planes must be numbered
 without gap

the cell index was shifted by the number of nodes of a plane instead of its number of cells
---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 1a94805..f7f8e59 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -441,6 +441,6 @@ class elem_connectivity:
             # print(etype, econ['elem2node'], elemcon)
             index = np.tile(econ['index'].list(), (ncell))
             for i in range(ncell):
-                index[i * nelem : (i + 1) * nelem] += i * inodeshift
+                index[i * nelem : (i + 1) * nelem] += i * self.nelem
             newcon.add_elems(_elem.extruded_face[etype], elemcon, indexlist(ilist=index.tolist()))
         return newcon
-- 
2.43.0


From d546144e8390bd167528f34a3e653c030294f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 004/101] fix: extrusion of tri3 gives the (known) prism6
 element, not penta6

---
 cfdtools/meshbase/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 4d194dc..661b63c 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -7,7 +7,7 @@ geodim = {'point': 0, 'line': 1, 'surface': 2, 'volume': 3}
 elem_properties = [
     (0, '   node1', 1, 0, '    bar2'),
     (0, '    bar2', 2, 1, '   quad4'),
-    (0, '    tri3', 3, 2, '  penta6'),
+    (0, '    tri3', 3, 2, '  prism6'),
     (0, '   quad4', 4, 2, '   hexa8'),
     (0, '  tetra4', 4, 3, '    none'),
     (0, '   pyra5', 5, 3, '    none'),
-- 
2.43.0


From 58811de3384c2f7797f65a53566625e71e73b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 005/101] fix: face index read from a compressed connectivity
 is a list of integers

argwhere gives a column: each index was a list of one integer, unusable as a face index
---
 cfdtools/meshbase/_connectivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index f7f8e59..d81f79d 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -270,9 +270,9 @@ class elem_connectivity:
         uniq, counts = np.unique(nodeperface, return_counts=True)
         for facesize, nface in zip(uniq, counts):
             typef = _elem.face_from_nnode[facesize]
-            index = np.argwhere(nodeperface == facesize)
+            index = np.flatnonzero(nodeperface == facesize)
             zind = zconn._index[index]
-            nodes = np.hstack(tuple(zconn._value[zind + i] for i in range(facesize)))
+            nodes = np.column_stack(tuple(zconn._value[zind + i] for i in range(facesize)))
             self.add_elems(typef, nodes, indexlist(ilist=index))
 
     # @profile
-- 
2.43.0


From e11d7e15c1ba295919d7a776b5fbe949276e6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 006/101] fix: merge of more than two connectivities gave
 overlapping index

the index shift of each connectivity is the total size of all the previous ones
---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index d81f79d..2eec6d4 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -290,7 +290,7 @@ class elem_connectivity:
             np.sum([np.array(e2n['index'].list()).size for _, e2n in elemcon.items()])
             for elemcon in list_elem
         ]
-        sizes = [0] + sizes[:-1]  # start with 0, last is useless
+        sizes = np.cumsum([0] + sizes[:-1]).tolist()  # start with 0, last is useless
         mergedict = defaultdict(dict)
         for shift, elemcon in zip(sizes, list_elem):
             for key, elemtype in elemcon.items():
-- 
2.43.0


From 8f647f5e97952ceb914a5726d7cb7e41d99ed0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 007/101] fix: connectivity check must accept unique index in
 any order

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 2eec6d4..028943d 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -215,7 +215,7 @@ class elem_connectivity:
         uniq = np.unique(index)
         assert index.min() == 0
         assert index.max() == index.size - 1
-        assert np.all(uniq == index)
+        assert uniq.size == index.size
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From 67c5d853872e9eaa3e8a0dcc4286d7d1c26e9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 008/101] fix: compress of an empty index list must not fail

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 028943d..9f34e6c 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -89,7 +89,7 @@ class indexlist:
 
     def compress(self):
         """try to make it a range"""
-        if self._type == 'list':
+        if self._type == 'list' and self._list:
             if np.all(self._list == np.arange(self._list[0], self._list[0] + len(self._list))):
                 self.set_range([self._list[0], self._list[-1]])
         # else no error, keep list
-- 
2.43.0


From 25d83fe1aca44929fc92d0d8fff29223ec568ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 009/101] fix: quad4 faces extruded from bar2 must not be
 twisted

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 9f34e6c..4d2228d 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -436,6 +436,8 @@ class elem_connectivity:
             elemcon = np.tile(econ['elem2node'], (ncell, 2))
             fnnode = _elem.nnode_elem[etype]
             elemcon[:, fnnode : 2 * fnnode] += inodeshift
+            if etype == 'bar2':  # nodes of a quad4 go around the face
+                elemcon[:, 2:4] = elemcon[:, [3, 2]]
             for i in range(ncell):
                 elemcon[i * nelem : (i + 1) * nelem, :] += i * inodeshift
             # print(etype, econ['elem2node'], elemcon)
-- 
2.43.0


From 77ad25e1a2354c15cb7913ef140e92159f9b2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 010/101] fix: IC3 data must be located from its section type,
 not from its size

cell (or face) data were read as node data when numbers of nodes and cells (faces) were equal
---
 cfdtools/ic3/_ic3.py          | 14 ++++++++++++++
 cfdtools/ic3/reader_legacy.py | 15 +++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index 14558a0..234711b 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -55,6 +55,20 @@ properties_ugpcode = {
 
 del scode, sz, ntype
 
+# where the data of a section are located, whatever their number
+location_ugpcode = {
+    ic3_restart_codes["UGP_IO_NO_D1"]: "nodes",
+    ic3_restart_codes["UGP_IO_NO_D3"]: "nodes",
+    ic3_restart_codes["UGP_IO_NO_II1"]: "nodes",
+    ic3_restart_codes["UGP_IO_FA_D1"]: "faces",
+    ic3_restart_codes["UGP_IO_FA_D3"]: "faces",
+    ic3_restart_codes["UGP_IO_FA_II1"]: "faces",
+    ic3_restart_codes["UGP_IO_CV_D1"]: "cells",
+    ic3_restart_codes["UGP_IO_CV_D3"]: "cells",
+    ic3_restart_codes["UGP_IO_CV_D33"]: "cells",
+    ic3_restart_codes["UGP_IO_CV_II1"]: "cells",
+}
+
 # Dictionary to convert type of data [string] to a number of bytes for clean binary parsing
 type2nbytes = {
     "char": 1,
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index a224267..82fb30e 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -17,6 +17,7 @@ from cfdtools.ic3._ic3 import (
     BinaryRead,
     zonekind2type,
     properties_ugpcode,
+    location_ugpcode,
 )
 
 log = logging.getLogger(__name__)
@@ -472,19 +473,20 @@ class reader(binreader):
             ):
                 break
             reset_offset = False
+            location = location_ugpcode[h.id[0]]
             #
             typechar = properties_ugpcode[h.id[0]]['structcode']
             typesize = properties_ugpcode[h.id[0]]['size']
             nptype = properties_ugpcode[h.id[0]]['numpytype']
             #
-            if h.idata[0] == no_count:
+            if location == 'nodes' and h.idata[0] == no_count:
                 s = BinaryRead(self.fid, "%d" % no_count + typechar, self.byte_swap, typesize * no_count)
                 scalar = self.variables["nodes"][h.name] = np.asarray(s).astype(nptype)
                 self.nodedata.add_data(h.name, scalar)
-            elif h.idata[0] == fa_count:
+            elif location == 'faces' and h.idata[0] == fa_count:
                 s = BinaryRead(self.fid, "%d" % fa_count + typechar, self.byte_swap, typesize * fa_count)
                 scalar = self.variables["faces"][h.name] = np.asarray(s).astype(nptype)
-            elif h.idata[0] == cv_count:
+            elif location == 'cells' and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
@@ -525,19 +527,20 @@ class reader(binreader):
             ):
                 break
             reset_offset = False
+            location = location_ugpcode[h.id[0]]
             #
-            if h.idata[0] == no_count:
+            if location == 'nodes' and h.idata[0] == no_count:
                 s = BinaryRead(
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
-            elif h.idata[0] == fa_count:
+            elif location == 'faces' and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
                     self.fid, "%dd" % (fa_count * 3), self.byte_swap, type2nbytes["float64"] * fa_count * 3
                 )
                 vector = self.variables["faces"][h.name] = np.asarray(s).reshape((fa_count, 3))
-            elif h.idata[0] == cv_count:
+            elif location == 'cells' and h.idata[0] == cv_count:
                 ndof = self._set_ndof_properties(h.idata[1])
                 if ndof > 1:
                     self.celldata.Xrep = 'spectralcell'
-- 
2.43.0


From 7b0e2ede8a470f4e60943340505029c12fb34c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 011/101] fix: node vectors of an IC3 file must be part of the
 exported mesh

---
 cfdtools/ic3/reader_legacy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 82fb30e..b3227ef 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -534,6 +534,7 @@ class reader(binreader):
                     self.fid, "%dd" % (no_count * 3), self.byte_swap, type2nbytes["float64"] * no_count * 3
                 )
                 vector = self.variables["nodes"][h.name] = np.asarray(s).reshape((no_count, 3))
+                self.nodedata.add_data(h.name, vector)
             elif location == 'faces' and h.idata[0] == fa_count:
                 self.variables["faces"][h.name] = np.zeros((fa_count, 3), dtype=np.float64)
                 s = BinaryRead(
-- 
2.43.0


From 7761e848dfb56b7ba183fc424d0d20efe6196490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 012/101] fix: weights of averaged variables were lost when
 writing IC3 V2 and V3 files

---
 cfdtools/ic3/writerV2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index a7ac120..8d3732a 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -134,6 +134,9 @@ class writer:
             for key in self.simstate.keys():
                 if key in refdict.keys():
                     self.simstate[key] = refdict[key]
+            # weights of averages are read as individual parameters
+            weights = {key[:-4]: value for key, value in refdict.items() if key.endswith("_wgt")}
+            self.simstate["wgt"] = {**self.simstate["wgt"], **weights}
 
     def set_vars(self):
         """
-- 
2.43.0


From d8967b8ca9fcfc9d2c6c91bd88b67fab4225546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 013/101] fix: number of cells of IC3 V4 reader must be
 available without solution file

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index fce4423..546850d 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -109,6 +109,8 @@ class reader:
             log.info("Reading connectivity...")
             self._read_connectivity(fid)
 
+        self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
+
         if self._solution_filename is None:
             return
 
@@ -120,8 +122,6 @@ class reader:
             log.info("Reading informative values...")
             self._read_informative_values(fid)
 
-            self._ncell = self.mesh['params']['cv_count']  # for generic writer and timer
-
     def export_mesh(self):
         """Export Mesh."""
         meshdata = _mesh.Mesh(self.mesh['params']['cv_count'], self.mesh['params']['no_count'])
-- 
2.43.0


From 2dc67a39957c16f955bae2edad691b1cd414c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 014/101] fix: a mesh read from an IC3 V4 file must be writable
 to V2 and V3 formats

the reader set a partition property to None, which was used as a dict by the writers
---
 cfdtools/ic3/readerV4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 546850d..2375b89 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -137,7 +137,7 @@ class reader:
         meshdata.set_facedata(self.facedata)
         meshdata.set_params(self.mesh['params'])
         meshdata.update_params(self.simulation_state)
-        if 'partition' in self.mesh.keys():
+        if self.mesh['partition'] is not None:  # there is no partition in V4 files
             meshdata.set_partition(self.mesh['partition'])
         return meshdata
 
-- 
2.43.0


From f0305a5ece3140a4617575656d52085e273508c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 015/101] fix: CGNS and IC3 V4 readers must accept the
 integrity option as other readers do

cfdinfo gives it to every reader and failed on these formats
---
 cfdtools/cgns/cgns.py    | 3 ++-
 cfdtools/ic3/readerV4.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 40a6306..bb0397a 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -146,8 +146,9 @@ class cgnsfile(h5File):
 
 @fileformat_reader('CGNS', '.cgns')
 class cgnsMesh:
-    def __init__(self, filename) -> None:
+    def __init__(self, filename, cIntegrity=False) -> None:
         self._filename = filename
+        self.check_integrity = cIntegrity
         self._ncell = None
 
     @property
diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 2375b89..072af1e 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -32,8 +32,9 @@ class reader:
 
     __version__ = "4"
 
-    def __init__(self, mesh_filename: str, solution_filename: str = None):
+    def __init__(self, mesh_filename: str, solution_filename: str = None, cIntegrity: bool = False):
         """Initialization of a ic3 restart file reader."""
+        self.check_integrity = cIntegrity
         self._mesh_filename = Path(mesh_filename)
         if not self._mesh_filename.exists():
             raise FileExistsError()
-- 
2.43.0


From 95f8fc20abe5bef66913046bbd235ec57f5b8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 016/101] fix: CGNS reader must handle all the linear elements
 (tetra4, pyra5, prism6)

---
 cfdtools/cgns/cgns.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index bb0397a..0e16e6e 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -18,7 +18,16 @@ import cfdtools.meshbase._elements as _elem
 log = logging.getLogger(__name__)
 
 cgtype = {}
-ele_cgns2local = {2: 'node1', 3: 'bar2', 5: 'tri3', 7: 'quad4', 17: 'hexa8'}
+ele_cgns2local = {
+    2: 'node1',
+    3: 'bar2',
+    5: 'tri3',
+    7: 'quad4',
+    10: 'tetra4',
+    12: 'pyra5',
+    14: 'prism6',
+    17: 'hexa8',
+}
 
 
 def cgnstype(obj):
-- 
2.43.0


From fbff0cea13d7281aa0711d3929c1211b52327e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 017/101] fix: cells of a CGNS zone must be numbered from 0,
 whatever the order of sections

the index of the element range was used as a cell index, even with faces defined before cells
---
 cfdtools/cgns/cgns.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 0e16e6e..854dbd0 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -93,7 +93,15 @@ class cgnszone:
         return cellconn
 
     def export_cellcon(self):
-        return self.elemcon(self._geodim)
+        # cells are numbered from 0 in the order of the file; faces sections may be in between
+        cgnscon = self.elemcon(self._geodim)
+        cellid = {index: icell for icell, index in enumerate(sorted(cgnscon.all_index()))}
+        cellconn = _conn.elem_connectivity()
+        for etype, econ in cgnscon.items():
+            index = _conn.indexlist(ilist=[cellid[i] for i in econ['index'].list()])
+            index.compress()
+            cellconn.add_elems(etype, econ['elem2node'], index)
+        return cellconn
 
     # @memoize
     @cache
-- 
2.43.0


From 1d32d65e5fc68952e4244e015bdd81f47a5c5216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 018/101] fix: a CGNS mark with as many faces as cells is not a
 cell mark

---
 cfdtools/cgns/cgns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 854dbd0..f3fbe42 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -124,7 +124,7 @@ class cgnszone:
         elif "ElementList" in BC.keys():  # not in CGNS norm
             indexlist = (BC["ElementList/ data"][:] - 1).ravel().tolist()
             gridloc = "FaceCenter"
-            if len(indexlist) == self.ncell:
+            if set(indexlist).issubset(self.elemcon(self._geodim).all_index()):
                 gridloc = "CellCenter"
                 boco.type = 'internal'
         else:
-- 
2.43.0


From 2522780c2a1007669c0e4f23df0676a669d048d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 019/101] fix: GMSH physical names with spaces were truncated

---
 cfdtools/gmsh/reader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1e87df5..b37dd8f 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -250,8 +250,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = " ".join(families[i][2:])[1:-1]  # quoted, may have spaces
+                fam[families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
@@ -290,8 +291,9 @@ class reader(api._files):
             fam = {}
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
-                fam[families[i][1]] = families[i][2][1:-1]
-                bctype[families[i][2][1:-1]] = families[i][0]
+                name = " ".join(families[i][2:])[1:-1]  # quoted, may have spaces
+                fam[families[i][1]] = name
+                bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
         else:
-- 
2.43.0


From 76eb4ceb0e793adcddaa3f20e6d2dc1f03bdc45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 020/101] fix: GMSH physical groups of different dimensions can
 have the same tag

the name of the last group (of any dimension) was given to boundaries
---
 cfdtools/gmsh/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index b37dd8f..5a6d5ce 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,7 +125,7 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[str(bnd2fam[bnd_tag])]
+                family = fam[(self._maxdim - 1, bnd2fam[bnd_tag])]
                 if family != "fluid":
                     self.__create_bnd(
                         boundaries,
@@ -251,7 +251,7 @@ class reader(api._files):
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
                 name = " ".join(families[i][2:])[1:-1]  # quoted, may have spaces
-                fam[families[i][1]] = name
+                fam[(int(families[i][0]), int(families[i][1]))] = name
                 bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
@@ -292,7 +292,7 @@ class reader(api._files):
             bctype = {}
             for i in range(1, int(families[0][0]) + 1):
                 name = " ".join(families[i][2:])[1:-1]  # quoted, may have spaces
-                fam[families[i][1]] = name
+                fam[(int(families[i][0]), int(families[i][1]))] = name
                 bctype[name] = families[i][0]
             log.info(f"    found Physical names {fam}")
             log.info(f"    found Entities {bctype}")
-- 
2.43.0


From ddfc1faa91a6ea23f5a24a3fabd6761f64feb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 021/101] fix: last block of nodes of a GMSH V4 file was
 missing if made of a single node

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 5a6d5ce..9814924 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -323,7 +323,7 @@ class reader(api._files):
         x = [None] * (nnodes)
         y = [None] * (nnodes)
         z = [None] * (nnodes)
-        while nodes < nnodes:
+        while nodes <= nnodes:
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
                 pos = int(coords[i][0]) - 1
-- 
2.43.0


From 6554f74222b985af3c92e485bb017081a6e6dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 022/101] fix: GMSH V4 entities must be searched with their own
 dimension

boundaries of 2D meshes (curves) had no physical group, and a curve may be taken for a surface
---
 cfdtools/gmsh/reader.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 9814924..7e529e9 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -301,17 +301,17 @@ class reader(api._files):
             bctype = None
 
         # To find the entity number used for concatenation of the mesh.
-        # The returned values corresponds to the physical group
-        def find_ent(j):
+        # The returned values corresponds to the (first) physical group, 0 if none
+        def find_ent(dim, j):
             entities = self.__get_section_from_name(msh, "$Entities")
-            addd = 0  # temporary variable to seek the line and return
-            bot = int(entities[0][0]) + int(entities[0][1])
-            top = int(entities[0][2]) + bot
-            for i in range(bot, top + 1):
-                if j == int(entities[i][0]) and len(entities[i]) >= 8:
-                    addd = int(entities[i][8])
-                    break
-            return addd
+            bot = 1 + sum(int(n) for n in entities[0][:dim])
+            top = bot + int(entities[0][dim])
+            # position of the number of physical groups, after the tag and the point or the bounding box
+            iphys = 4 if dim == 0 else 7
+            for i in range(bot, top):
+                if j == int(entities[i][0]) and int(entities[i][iphys]) > 0:
+                    return int(entities[i][iphys + 1])
+            return 0
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -347,7 +347,7 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical group
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
-- 
2.43.0


From 2d2ced84a44db38e09e70d5503e4879e1b71fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 023/101] fix: nodes of GMSH elements must be found by tag

tags were used as positions: wrong or missing nodes if tags are not sorted or not continuous
---
 cfdtools/gmsh/reader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 7e529e9..1c4d6ac 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -266,6 +266,8 @@ class reader(api._files):
         x = [float(coords[i][1]) for i in range(1, nnodes + 1)]
         y = [float(coords[i][2]) for i in range(1, nnodes + 1)]
         z = [float(coords[i][3]) for i in range(1, nnodes + 1)]
+        # node tags used by elements: not necessarily continuous nor sorted
+        nodepos = {int(coords[i][0]): i for i in range(1, nnodes + 1)}
 
         # Find the elements.
         log.info("  parse Elements")
@@ -273,7 +275,9 @@ class reader(api._files):
         elts = []
         nelems = int(elements[0][0])
         for i in range(1, nelems + 1):
-            elts.append([int(j) for j in elements[i]])
+            elt = [int(j) for j in elements[i]]
+            inode = 3 + elt[2]
+            elts.append(elt[:inode] + [nodepos[j] for j in elt[inode:]])
 
         return fam, bctype, x, y, z, elts
 
@@ -320,18 +324,15 @@ class reader(api._files):
         nodes = 1
         count = 1
         counter = 1
-        x = [None] * (nnodes)
-        y = [None] * (nnodes)
-        z = [None] * (nnodes)
+        xyz = {}  # node tags used by elements: not necessarily continuous nor sorted
         while nodes <= nnodes:
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
-                pos = int(coords[i][0]) - 1
-                x[pos] = float(coords[i + cnt][0])
-                y[pos] = float(coords[i + cnt][1])
-                z[pos] = float(coords[i + cnt][2])
+                xyz[int(coords[i][0])] = [float(coord) for coord in coords[i + cnt][:3]]
             nodes += cnt
             counter = counter + 2 * cnt + 1
+        nodepos = {tag: i + 1 for i, tag in enumerate(sorted(xyz))}
+        x, y, z = ([xyz[tag][i] for tag in nodepos] for i in range(3))
 
         # Find the elements.
         log.info("  parse Elements")
@@ -351,6 +352,7 @@ class reader(api._files):
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
+                elt1[1:] = [nodepos[k] for k in elt1[1:]]
                 elt1.insert(1, a)
                 elt1.insert(2, b)
                 elt1.insert(3, c)
-- 
2.43.0


From b46b0be45d32d612f852a322f83877d0069db271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 024/101] fix: GMSH boundary elements which are not in a named
 physical group must not stop reading

---
 cfdtools/gmsh/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 1c4d6ac..a848b56 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -125,8 +125,8 @@ class reader(api._files):
         self._famm = []
         if fam is not None:  # B.C. are defined
             for bnd_tag in bnd.keys():
-                family = fam[(self._maxdim - 1, bnd2fam[bnd_tag])]
-                if family != "fluid":
+                family = fam.get((self._maxdim - 1, bnd2fam[bnd_tag]))
+                if family is not None and family != "fluid":
                     self.__create_bnd(
                         boundaries,
                         np.array(bnd[bnd_tag]),
-- 
2.43.0


From e9dfb59ef396d881277e13315da151d65687b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 025/101] fix: node coordinates given as lists must be stored
 as arrays

meshes read from GMSH files could not be scaled
---
 cfdtools/meshbase/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index a4b57bf..e880799 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -132,9 +132,9 @@ class Mesh:
     def set_nodescoord_xyz(self, x, y, z):
         for c in [x, y, z]:
             assert len(c) == self.nnode
-        self._nodes['x'] = x
-        self._nodes['y'] = y
-        self._nodes['z'] = z
+        self._nodes['x'] = np.asarray(x)
+        self._nodes['y'] = np.asarray(y)
+        self._nodes['z'] = np.asarray(z)
 
     def nodescoord(self, ndarray=False):
         coords = tuple(self._nodes[c] for c in ['x', 'y', 'z'])
-- 
2.43.0


From 132fc3b228eba28f5f0093c7179e67b6928d3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 026/101] fix: time 0 of a data set must not be ignored

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ed853a8..2a0f25f 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -84,7 +84,7 @@ class DataSet(DataSetBase):
         self._data = dict()
 
     def add_data(self, name, data, time=None):
-        if time:
+        if time is not None:
             self._properties['time'] = time
         self._data[name] = data
 
@@ -175,7 +175,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
-        if time:
+        if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
 
-- 
2.43.0


From f7021b20b253974dabc8a33906309a07876cb13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 027/101] fix: nodes of a data set can be given with y and z
 arrays

---
 cfdtools/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 2a0f25f..ba9a221 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -66,9 +66,9 @@ class DataSetBase:
     def set_nodes(self, x, y=None, z=None):
         """ """
         self._geoprop['x'] = x
-        if y:
+        if y is not None:
             self._geoprop['y'] = y
-        if z:
+        if z is not None:
             self._geoprop['z'] = z
 
     def set_mesh(self, mesh):
-- 
2.43.0


From e16d3e33a3659dcc349550a5c0da453150a0e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 028/101] fix: volumes of a vtkMesh can be asked twice

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index c2d25ad..24c97a2 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -169,7 +169,7 @@ class vtkMesh:
         return lines
 
     def volumes(self):
-        if not self._volume:
+        if self._volume is None:
             self._volume = self._grid.compute_cell_sizes().cell_data["Volume"]
         return self._volume
 
-- 
2.43.0


From 4a51d13cc89e3cf48505af10b61c1f5dc14376cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 029/101] fix: spectrum of a part of the signal must be
 computed on this part

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index ba9a221..76e5073 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -127,7 +127,7 @@ class DataSet(DataSetBase):
         datalist = datafilter if datafilter else list(self.keys())
         datalist.remove('time')
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From d8d8d0610e96393690db2feb634dd93279efac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 030/101] fix: list of data given to compute a spectrum must
 not be modified, nor need time

---
 cfdtools/data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 76e5073..0a97166 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -124,16 +124,14 @@ class DataSet(DataSetBase):
         f = fftm.fftfreq(n, dtavg)
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrum')
         newdataset.add_data('freq', f)
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
             newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
         lowcrop = 2
-        datalist = datafilter if datafilter else list(self.keys())
-        datalist.remove('time')
+        datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         dtavg, dtdev, ntot = self.dtstats()  # check 'timeevol'
         if dtdev / dtavg > 1.0e-6:
             log.warning(f"dt standard deviation is significant: {100*dtdev / dtavg:.4f}%")
-- 
2.43.0


From 1df8a1ac6f945b9dfb93839cefc510292261761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 031/101] fix: time and frequency axes of a spectrogram must be
 consistent with its windows

---
 cfdtools/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 0a97166..c81c4b1 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -138,10 +138,11 @@ class DataSet(DataSetBase):
         newdataset = DataSet(self.Xrep, self.ndof, Trep='spectrogram')
         nwind = window if window else int(ntot / 100)
         hwin = int(nwind / 2)
-        f = fftm.fftfreq(nwind, dtavg)
-        newdataset.add_data('freq', f[lowcrop : hwin + 1])
-        nit = int(2 * ntot / nwind) - 1
-        newdataset.add_data('time', (self['time'][hwin::hwin])[:-1])
+        # each window has 2*hwin+1 samples
+        f = fftm.rfftfreq(2 * hwin + 1, dtavg)
+        newdataset.add_data('freq', f[lowcrop:])
+        nit = (ntot - 1) // hwin - 1
+        newdataset.add_data('time', self['time'][hwin : hwin * nit + 1 : hwin])
         for name in datalist:
             v = np.zeros((nit, hwin + 1 - lowcrop))
             # print(ntot, nit, nwind, hwin, newdataset['freq'].shape, f.shape)
-- 
2.43.0


From 0e5673dcaeaf3a37040a1d1f2f59081d971b5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 032/101] fix: get_cmap does not exist any more in
 matplotlib.cm

---
 cfdtools/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/plot.py b/cfdtools/plot.py
index 6e378e3..34009a6 100644
--- a/cfdtools/plot.py
+++ b/cfdtools/plot.py
@@ -1,10 +1,11 @@
 # plot.py
 import matplotlib
+import matplotlib.pyplot as plt
 
 
 def normalizeCmap(cmapStr, nBins):
-    colormap = matplotlib.cm.get_cmap(cmapStr, nBins)
+    colormap = plt.get_cmap(cmapStr, nBins)
     if isinstance(colormap, matplotlib.colors.LinearSegmentedColormap):
         return matplotlib.colors.LinearSegmentedColormap(cmapStr, segmentdata=colormap._segmentdata, N=nBins)
     else:
-        return matplotlib.colors.ListedColormap(matplotlib.cm.get_cmap(cmapStr, nBins).colors)
+        return matplotlib.colors.ListedColormap(plt.get_cmap(cmapStr, nBins).colors)
-- 
2.43.0


From ba7e3fe4fd668ab9bd5acbd76db7999f30b622dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 033/101] fix: names of more than one letter can be plotted
 along a probe line

---
 cfdtools/_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 044cf32..2ec3081 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -415,4 +415,4 @@ def ic3probe_plotline(argv=None):
     }
 
     # run
-    run_plot[parser.args().map](data, **parser.argsdict())
+    run_plot[parser.args().map](data, **{**parser.argsdict(), 'datalist': [var]})
-- 
2.43.0


From 788b1b97caaf61082c7c195652dd02c21dc878c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 034/101] fix: cfdwritecube ignored the output path

---
 cfdtools/_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index 2ec3081..b136a5c 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -319,6 +319,8 @@ def cfdwritecube(argv=None):
     mesh = cube.export_mesh()
     #
     file = api._files(parser.args().filename)
+    if parser.args().outpath is not None:
+        file.change_dir(parser.args().outpath)
     w = parser._writer(mesh)
     w.write_data(file.filename)
     return file.filename  # filename needed for pytest (for eventual rm)
-- 
2.43.0


From af4344fa9d7d8296bd5472b9a757bee6b403f61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 035/101] fix: pop_nodedata and pop_celldata must remove the
 data of a mesh, None if missing

---
 cfdtools/data.py           | 3 +++
 cfdtools/meshbase/_mesh.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index c81c4b1..c4ea84f 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -105,6 +105,9 @@ class DataSet(DataSetBase):
     def __getitem__(self, name):
         return self._data[name]
 
+    def pop(self, name, default=None):
+        return self._data.pop(name, default)
+
     def dtstats(self, imin=None, imax=None):
         assert self.Trep == 'timeevol' and 'time' in self.keys()
         t = self._data['time'][imin:imax]
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index e880799..790caf4 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -320,10 +320,10 @@ class Mesh:
         self._cellprop['partition'] = partition
 
     def pop_nodedata(self, name):
-        return self._nodedata.pop(name) if name in self._nodedata.keys() else None
+        return self._nodedata.pop(name, None) if self._nodedata else None
 
     def pop_celldata(self, name):
-        return self._celldata.data[name] if self._celldata else None
+        return self._celldata.pop(name, None) if self._celldata else None
 
     def reindex_boundaryfaces(self):
         assert (
-- 
2.43.0


From 77260b37811b2ef4eb76d5cf5b2effbd733c395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 036/101] fix: option to remove node data was ignored

---
 cfdtools/_cli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index b136a5c..fc2d8f5 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -225,6 +225,12 @@ def write_generic(argv, ext, writer, fname=None):
                 log.info(f"  cannot find cell data {var}")
             else:
                 log.info(f"  pop cell data {var}")
+    if parser.args().remove_node_data:
+        for var in parser.args().remove_node_data:
+            if cfdmesh.pop_nodedata(var) is None:
+                log.info(f"  cannot find node data {var}")
+            else:
+                log.info(f"  pop node data {var}")
     #
     if parser.args().outpath is None:
         file.remove_dir()
-- 
2.43.0


From bf262547ac644136ef64116d386db7e57d562a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 037/101] fix: printinfo of an hdf5 file opened for writing

---
 cfdtools/hdf5/_hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 39220d0..af8901b 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -28,6 +28,8 @@ class h5File(_files):
         self._openedmode = None
         self._datatype = None
         self._cfdtools_version = None
+        self._h5ver = None
+        self._version = None
 
     def open(self, mode='r', datatype=None, version=None):
         """open hdf5 file and parse some version info
-- 
2.43.0


From fbf075f453d72214cde7da86e95cc614a1aebbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 038/101] fix: hdf5 files must be opened in append mode as
 documented

---
 cfdtools/hdf5/_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index af8901b..bfeeb52 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -39,18 +39,19 @@ class h5File(_files):
             datatype (_type_, optional): _description_. Defaults to None.
             version (_type_, optional): _description_. Defaults to None.
         """
+        newfile = mode in ('w', 'w-', 'x') or (mode == 'a' and not self.exists())
         try:
             self._h5file = h5py.File(self._path, mode=mode)
         except NameError:
             raise NameError(f"{self._path} can not be open in {mode} mode.")
-        if mode in ('w', 'w-', 'x'):
+        if newfile:
             assert datatype in _available_types
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
             if datatype is not None and (version is None):
                 error_stop('an existing cfdtools datatype must provide a version number for writing')
             if datatype is not None:
                 self._h5file.attrs.update({'data_version': version})
-        elif mode in ('r', 'r+'):
+        elif mode in ('r', 'r+', 'a'):
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
             self._datatype = self._h5file.attrs.get('cfd_datatype', None)
-- 
2.43.0


From c3dbeebb42e70d4f44a683ca6e9bb704d78a7d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 039/101] fix: a file must not be erased when opened with wrong
 cfdtools type or version

---
 cfdtools/hdf5/_hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index bfeeb52..d639113 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -40,17 +40,17 @@ class h5File(_files):
             version (_type_, optional): _description_. Defaults to None.
         """
         newfile = mode in ('w', 'w-', 'x') or (mode == 'a' and not self.exists())
+        if newfile:  # check before any change of the file
+            assert datatype in _available_types
+            if version is None:
+                error_stop('an existing cfdtools datatype must provide a version number for writing')
         try:
             self._h5file = h5py.File(self._path, mode=mode)
         except NameError:
             raise NameError(f"{self._path} can not be open in {mode} mode.")
         if newfile:
-            assert datatype in _available_types
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
-            if datatype is not None and (version is None):
-                error_stop('an existing cfdtools datatype must provide a version number for writing')
-            if datatype is not None:
-                self._h5file.attrs.update({'data_version': version})
+            self._h5file.attrs.update({'data_version': version})
         elif mode in ('r', 'r+', 'a'):
             # only for cgns file (I guess)
             self._h5ver = self._h5file.get(' hdf5version', None)
-- 
2.43.0


From cd169d4999123447be7714c85f04f031ee3f22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 040/101] fix: integrity check of IC3 files must compare
 integers exactly

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index b3227ef..d3819fe 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -214,7 +214,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]
                 s = BinaryRead(self.fid, "%di" % no_count, self.byte_swap, type2nbytes["int32"] * no_count)
                 nodes_id = np.asarray(s)
-                assert np.allclose(nodes_id, np.arange(no_count))
+                assert np.array_equal(nodes_id, np.arange(no_count))
                 log.info("end of node integrity")
                 sys.stdout.flush()
                 del nodes_id
@@ -225,7 +225,7 @@ class reader(binreader):
                 h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_FA_CHECK"])
                 s = BinaryRead(self.fid, "%di" % fa_count, self.byte_swap, type2nbytes["int32"] * fa_count)
                 faces_id = np.asarray(s)
-                assert np.allclose(faces_id, np.arange(fa_count))
+                assert np.array_equal(faces_id, np.arange(fa_count))
                 log.info("end of face integrity")
                 sys.stdout.flush()
                 del faces_id
@@ -238,7 +238,7 @@ class reader(binreader):
                 assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]
                 s = BinaryRead(self.fid, "%di" % cv_count, self.byte_swap, type2nbytes["int32"] * cv_count)
                 cells_id = np.asarray(s)
-                assert np.allclose(cells_id, np.arange(cv_count))
+                assert np.array_equal(cells_id, np.arange(cv_count))
                 log.info("end of cell integrity")
                 sys.stdout.flush()
                 del cells_id
-- 
2.43.0


From f12a7735473dd70151e7831ba9bef1c9c7379355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 041/101] fix: tensors of an IC3 V4 file must be writable to V2
 and V3 formats

---
 cfdtools/ic3/readerV4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 072af1e..b797115 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -294,7 +294,8 @@ class reader:
                 nb_fields = field.size // cv_count
                 if nb_fields > 1:
                     field = field.reshape(-1, nb_fields)
-                self.celldata.add_data(var_up, field)
+                # tensors are 3x3 arrays as in V2 and V3
+                self.celldata.add_data(var_up, field.reshape(-1, 3, 3) if nb_fields == 9 else field)
                 if nb_fields > 1:
                     for component in range(field.shape[1]):
                         print_stats_scalar(var_up + "-%d" % component, field[:, component])
-- 
2.43.0


From 2aa6362655560e06d55cdc5ec55ecba852830d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 042/101] fix: node tags of GMSH V4 files may have gaps

---
 cfdtools/gmsh/reader.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index a848b56..b3546c7 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -320,16 +320,13 @@ class reader(api._files):
         # Find the coordinates.
         log.info("  parse Nodes")
         coords = self.__get_section_from_name(msh, "$Nodes")
-        nnodes = int(coords[0][3])
-        nodes = 1
-        count = 1
+        # header is: numEntityBlocks, numNodes, minIndex, maxIndex
         counter = 1
         xyz = {}  # node tags used by elements: not necessarily continuous nor sorted
-        while nodes <= nnodes:
+        for _ in range(int(coords[0][0])):
             cnt = int(coords[counter][3])
             for i in range(counter + 1, counter + cnt + 1):
                 xyz[int(coords[i][0])] = [float(coord) for coord in coords[i + cnt][:3]]
-            nodes += cnt
             counter = counter + 2 * cnt + 1
         nodepos = {tag: i + 1 for i, tag in enumerate(sorted(xyz))}
         x, y, z = ([xyz[tag][i] for tag in nodepos] for i in range(3))
-- 
2.43.0


From c0bab51e46613e9d87a9be793e92589f7652db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 043/101] fix: CGNS conditions of the same family must be
 merged, only the last one was kept

---
 cfdtools/cgns/cgns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index f3fbe42..c492831 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -222,6 +222,9 @@ class cgnsMesh:
             if boco.type in ['internal']:
                 log.info(f"  filter internal mark {boco.name}")
             else:
+                if boco.name in meshdata._bocos:  # several conditions of the same family
+                    nodes = set(meshdata.seekmark(boco.name).index.list()) | set(boco.index.list())
+                    boco.index = _conn.indexlist(ilist=sorted(nodes))
                 log.info(f"  add boco {boco}")
                 meshdata.add_boco(boco)
         # meshdata.check()
-- 
2.43.0


From 861d241236cc0a62eb7f6d9cba2d8d64cd18a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 044/101] fix: packed VTK data must follow the cells, which are
 gathered by type

---
 cfdtools/vtk/_vtkList.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index e89705e..881997a 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -127,12 +127,27 @@ class vtkList:
         :rtype: str
         """
         vtkmesh = vtkMesh(pvmesh=self._mesh)
-        self._data.set_mesh(vtkmesh.export_mesh())
-        actual_filename = self._data.dumphdf(filename, overwrite=overwrite, **options)
+        data = self._data_by_celltype()
+        data.set_mesh(vtkmesh.export_mesh())
+        actual_filename = data.dumphdf(filename, overwrite=overwrite, **options)
         if xdmf:
-            self._dumpxdmf(actual_filename, vtkmesh, self._data)
+            self._dumpxdmf(actual_filename, vtkmesh, data)
         return actual_filename
 
+    def _data_by_celltype(self):
+        """data in the order of exported cells, which are gathered by type of element"""
+        celltypes = self._mesh.celltypes
+        order = np.concatenate([np.flatnonzero(celltypes == itype) for itype in self._mesh.cells_dict])
+        newdata = DataSetList(self.nfile, Xrep=self._data.Xrep, Trep=self._data.Trep)
+        for datadict in self._data._datalist:
+            newdata.add_datalist(
+                {
+                    name: (var if name in DataSetList._property_names else var[order])
+                    for name, var in datadict.items()
+                }
+            )
+        return newdata
+
     def _dumpxdmf(self, filepath: str, vtkmesh: vtkMesh, data: DataSetList):
         """Create the XMF file associated to the single HDF5 file created by dumphdf()."""
 
-- 
2.43.0


From 1004f3f30c26a3790c61c7d2f4347d1fd60c724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 045/101] fix: packing VTK files must refuse files which do not
 have the same cells

---
 cfdtools/vtk/_vtkList.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 881997a..2bfb01f 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -83,6 +83,9 @@ class vtkList:
             Tread.pause()
             namelist = filterdata if filterdata else vtk.cell_data.keys()
             Tcomp.start()
+            if vtk.n_cells != self._ncell:
+                log.error(f"  {name} has {vtk.n_cells} cells, {self._ncell} expected")
+                raise ValueError("  cells of files are not the same")
             ctr = vtk.cell_centers().points
             d = np.max(maths.distance(ctrRef, ctr))
             Tcomp.pause()
@@ -103,6 +106,9 @@ class vtkList:
                     log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                     log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                     raise ValueError("  max distance is above tolerance")
+                if np.unique(index).size != index.size:
+                    log.error("  some cells are found several times")
+                    raise ValueError("  cells of files are not the same")
                 Tsort.pause()
                 # automatically deals with different shapes
                 datalist = {name: vtk.cell_data[name][rindex] for name in namelist}
-- 
2.43.0


From 51af04d25e7801abc65dd0d3ff517fce8f8ef952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 046/101] fix: order of cells in HDF5 meshes must be the one
 they were written with

---
 cfdtools/hdf5/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index d639113..788a0da 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -76,7 +76,7 @@ class h5File(_files):
         hgroup = self._h5file.create_group(path)
         hgroup.attrs['meshtype'] = meshtype
         hgroup.create_dataset("nodes", data=nodes, **options)
-        hcells = hgroup.create_group("cells")
+        hcells = hgroup.create_group("cells", track_order=True)  # data follow the order of types
         for ctype, cellco in cellnode.items():
             hcells.create_dataset(ctype, data=cellco, **options)
 
-- 
2.43.0


From 478b9200a2e374a3d8ee16142c74eb815ae03844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 047/101] fix: XMF file must locate its HDF5 file when written
 in another folder

---
 cfdtools/vtk/_vtkList.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfdtools/vtk/_vtkList.py b/cfdtools/vtk/_vtkList.py
index 2bfb01f..908b184 100644
--- a/cfdtools/vtk/_vtkList.py
+++ b/cfdtools/vtk/_vtkList.py
@@ -165,10 +165,12 @@ class vtkList:
             lines += ["</Xdmf>"]
             return lines
 
+        # both files are in the same folder: paths in XMF files are relative to it
+        h5name = os.path.basename(filepath)
         # get the XDMF content for the mesh geometry and topology
-        geometry_content = vtkmesh.xdmf_content(filepath)
+        geometry_content = vtkmesh.xdmf_content(h5name)
         # get the XDMF content for the time data series
-        geom_dat_content = data.xdmf_content(filepath, geometry_content)
+        geom_dat_content = data.xdmf_content(h5name, geometry_content)
         content = xdmf_domain(geom_dat_content)
 
         # write the XMF file
-- 
2.43.0


From 2cffa6608cdb2d1487d95a4d04a0b25c7044c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 048/101] fix: XDMF name of prisms is Wedge

---
 cfdtools/vtk/_vtk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 24c97a2..272db9a 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -36,7 +36,7 @@ if importpyvista:
         CellType.HEXAHEDRON: "Hexahedron",
         CellType.TETRA: "Tetrahedron",
         CellType.PYRAMID: "Pyramid",
-        CellType.WEDGE: "Prism",
+        CellType.WEDGE: "Wedge",
     }
 else:
     log.warning("pyvista missing or failing at import: some features will be missing.")
-- 
2.43.0


From 49f3ec76377b69ae9e5d3e3af603e5092557f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 049/101] fix: names must be escaped in XMF files

---
 cfdtools/data.py     | 6 ++++--
 cfdtools/vtk/_vtk.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index c4ea84f..d821c35 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -1,4 +1,5 @@
 import logging
+from xml.sax.saxutils import escape
 
 import numpy as np
 import numpy.fft as fftm
@@ -231,9 +232,10 @@ class DataSetList(DataSetBase):
                     raise ValueError(f"Type of data cannot be deduced with shape dimension {len(var.shape)}")
                 dim = " ".join(str(j) for j in var.shape)
 
-                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{vname}">']
+                xmlname = escape(vname, {'"': "&quot;"})
+                lines += [f'<Attribute AttributeType="{typ}" Center="Cell" Name="{xmlname}">']
                 lines += [f'<DataItem Dimensions="{dim}" Format="HDF">']
-                lines += [f"{filename}:/datalist/i{i:06}/{vname}"]
+                lines += [escape(f"{filename}:/datalist/i{i:06}/{vname}")]
                 lines += ["</DataItem>"]
                 lines += ["</Attribute>"]
             lines += ["</Grid>"]
diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 272db9a..f8137a2 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -2,6 +2,7 @@ import logging
 import numpy as np
 import scipy.spatial as spatial
 from typing import Callable
+from xml.sax.saxutils import escape
 
 try:
     import pyvista as pv
@@ -153,7 +154,7 @@ class vtkMesh:
         geomtype = dim2type[self._grid.points.shape[1]]
         lines = [f'<Geometry GeometryType="{geomtype}">']
         lines += [f'<DataItem Dimensions="{np.prod(self._grid.points.shape)}" Format="HDF">']
-        lines += [f"{filename}:/mesh/nodes"]
+        lines += [escape(f"{filename}:/mesh/nodes")]
         lines += ["</DataItem>"]
         lines += ["</Geometry>"]
 
@@ -162,7 +163,7 @@ class vtkMesh:
                 f'<Topology NumberOfElements="{cellco.shape[0]:d}" TopologyType="{PYVISTA2XDMF[itype]}">'
             ]
             lines += [f'<DataItem Dimensions="{np.prod(cellco.shape)}" Format="HDF">']
-            lines += [f"{filename}:/mesh/cells/{ele_vtktype[itype]}"]
+            lines += [escape(f"{filename}:/mesh/cells/{ele_vtktype[itype]}")]
             lines += ["</DataItem>"]
             lines += ["</Topology>"]
 
-- 
2.43.0


From 3639aec6eca57c483ee20fbeabae2ccc9b6b9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 050/101] fix: plane averages must refuse planes whose cells do
 not match one to one

---
 cfdtools/vtk/_vtk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index f8137a2..8b00b97 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -325,6 +325,9 @@ class vtkMesh:
                         log.error(f"  max distance is above tolerance {tol}: {np.count_nonzero(dfinal > tol)} cells incriminated")
                         log.error(f"  min:avg:max = {dmin:.2e}:{davg:.2e}:{dmax:.2e}")
                         raise ValueError("  max distance is above tolerance")
+                    if np.unique(index).size != index.size:
+                        log.error("  some cells of a plane are at the same position")
+                        raise ValueError("  cells of planes do not match")
                     ikplanes[i, index] = chunk
         # check
         # shape of xypos[ikplanes] is (nchunk, chunksize, 2)
-- 
2.43.0


From a2a64fa4ec2b15437f33fd1c0c1351e4344987d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 051/101] fix: type and version of a new HDF5 file are those it
 has just been given

---
 cfdtools/hdf5/_hdf5.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cfdtools/hdf5/_hdf5.py b/cfdtools/hdf5/_hdf5.py
index 788a0da..c086b3e 100755
--- a/cfdtools/hdf5/_hdf5.py
+++ b/cfdtools/hdf5/_hdf5.py
@@ -51,15 +51,14 @@ class h5File(_files):
         if newfile:
             self._h5file.attrs.update({'cfdtools_version': __version__, 'cfd_datatype': datatype})
             self._h5file.attrs.update({'data_version': version})
-        elif mode in ('r', 'r+', 'a'):
-            # only for cgns file (I guess)
-            self._h5ver = self._h5file.get(' hdf5version', None)
-            self._datatype = self._h5file.attrs.get('cfd_datatype', None)
-            self._cfdtools_version = self._h5file.attrs.get('cfdtools_version', None)
-            # if datatype, read or set to 0 (backward compatibility) else ignore
-            self._version = self._h5file.attrs.get('data_version', 0 if self._datatype else None)
-        else:
+        elif mode not in ('r', 'r+', 'a'):
             error_stop("unknown mode for opening h5 file")
+        # only for cgns file (I guess)
+        self._h5ver = self._h5file.get(' hdf5version', None)
+        self._datatype = self._h5file.attrs.get('cfd_datatype', None)
+        self._cfdtools_version = self._h5file.attrs.get('cfdtools_version', None)
+        # if datatype, read or set to 0 (backward compatibility) else ignore
+        self._version = self._h5file.attrs.get('data_version', 0 if self._datatype else None)
         self._openedmode = mode
 
     def close(self):
-- 
2.43.0


From b822f32d56b9da8a255b0bffe1d23f59c846325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 052/101] fix: maps of probes along an axis given on several
 lines

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index 8a3e373..db8a69d 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -15,7 +15,7 @@ def check_axis(axisdata):
         axis = np.mean(axisdata, axis=0)
         # print(axis.shape)
         err = np.mean(axisdata**2, axis=0) - axis**2
-        log.info(f"min:avg:max change of several axis {err.shape}: {list(*minavgmax(err))}")
+        log.info(f"min:avg:max change of several axis {err.shape}: {list(minavgmax(err))}")
         log.warning(
             "several lines for axis: they are merged (average change is {:.2e})".format(
                 np.sqrt(np.mean(np.abs(err)))
-- 
2.43.0


From 43de5bdaded7946c3a68052e3fad74d8942e9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 053/101] fix: printable message of frequency maps in verbose
 mode

---
 cfdtools/probes/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/probes/plot.py b/cfdtools/probes/plot.py
index db8a69d..d19c25c 100644
--- a/cfdtools/probes/plot.py
+++ b/cfdtools/probes/plot.py
@@ -85,7 +85,7 @@ def plot_freqmap(data, **kwargs):
     f = fftm.fftfreq(n, dtavg)
     psdmap = np.abs(fftm.fft(data.alldata[var] - np.average(data.alldata[var]), axis=0))
     if kwargs['verbose']:
-        log.info(data.alldata[var].shape, n, psdmap.shape, f.shape)
+        log.info("- sizes (data, n, map, freq) %r %r %r %r", data.alldata[var].shape, n, psdmap.shape, f.shape)
     colmap = cfdplt.normalizeCmap(cmap, nlevels)
     axis = check_axis(data.alldata[axis])
     plt.contourf(
-- 
2.43.0


From a068e12030563627e6ebded94a63f34f5017b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 054/101] fix: cfdtools.data can be the first imported module

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 790caf4..1f2e440 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -307,7 +307,7 @@ class Mesh:
     def update_params(self, params):
         self._params.update(params)
 
-    def set_celldata(self, celldata: _data.DataSet):
+    def set_celldata(self, celldata: '_data.DataSet'):
         self._celldata = celldata
 
     def set_facedata(self, facedata):
-- 
2.43.0


From 2460224d7d1c64ea2dbd85f41784f7482c7ab521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 055/101] fix: IC3 face zones are read wherever they are in the
 file and in any order

---
 cfdtools/ic3/reader_legacy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index d3819fe..04f3af2 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -320,10 +320,12 @@ class reader(binreader):
         log.info("  Parsing boundary conditions...")
         sys.stdout.flush()
         self.mesh['bocos'] = []  # init list of bocos
+        reset_offset = True  # zones may be anywhere in the file
         while True:
             h = restartSectionHeader()
-            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=False):
+            if not h.readVar(self.fid, self.byte_swap, ["UGP_IO_FA_ZONE"], reset_offset=reset_offset):
                 break
+            reset_offset = False
             # UGP_IO_FA_ZONE header
             # 3 ints: kind, face range (begin, start)
             self.mesh["params"]["nboco"] += 1
@@ -342,8 +344,6 @@ class reader(binreader):
             #
             boco.properties["slicing"] = np.unique(face2node_value[sta:sto])
             self.mesh['bocos'].append(boco)
-            if h.idata[0] == 6:
-                break
         log.info("end of boundary conditions")
         sys.stdout.flush()
 
-- 
2.43.0


From 5067b4a48e0c5da0653b8bc5a790c7e993b7af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 056/101] fix: GMSH physical names keep their consecutive
 blanks

---
 cfdtools/gmsh/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index b3546c7..5a1a55d 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -365,7 +365,8 @@ class reader(api._files):
         log.info(f"Reading file {filename!r}...")
         with open(filename) as fid:
             for l in fid:
-                msh.append(l.split())
+                head, quote, name = l.partition('"')  # quoted names are kept as they are
+                msh.append(head.split() + ([quote + name.strip()] if quote else []))
         log.info(" done")
 
         # Find version of the GMSH used
-- 
2.43.0


From 1e6c455f228ef780b627bf8df5da111689829f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 057/101] fix: lists of data sets do not change nor share the
 dictionary of the caller

---
 cfdtools/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index d821c35..53c258f 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -178,6 +178,7 @@ class DataSetList(DataSetBase):
         self._datalist = []
 
     def add_datalist(self, datalist: dict, time=None):
+        datalist = dict(datalist)  # the one of the caller must not be changed nor shared
         if time is not None:
             datalist['time'] = time
         self._datalist.append(datalist)
-- 
2.43.0


From 58642c6c7db914d72902c735e974f667bb5e0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 058/101] fix: a list of data sets whose mesh cannot be dumped
 does not create nor erase files

---
 cfdtools/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 53c258f..94f425a 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -245,15 +245,15 @@ class DataSetList(DataSetBase):
         return lines
 
     def dumphdf(self, filename, overwrite=False, **options):
-        file = hdf5.h5File(filename)
-        if not overwrite:
-            file.find_safe_newfile()
-        file.open(mode="w", datatype='datalist', version=self._version)
-        # map element types from vtk type to cfdtools type
+        # map element types from vtk type to cfdtools type (before any change of file)
         if isinstance(self._geoprop['mesh'], meshbase.Mesh):
             celldict = dict(self._geoprop['mesh']._cell2node)
         else:
             api.error_stop("not yet implemented to dump mesh with instance {self._geoprop['mesh']}")
+        file = hdf5.h5File(filename)
+        if not overwrite:
+            file.find_safe_newfile()
+        file.open(mode="w", datatype='datalist', version=self._version)
         file.write_unsmesh(celldict, self._geoprop['mesh'].nodescoord(ndarray=True), **options)
         #
         hdata = file._h5file.create_group("datalist")
-- 
2.43.0


From f88259bd402de43709d04bc78a3cead8bce9f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:08 +0000
Subject: [PATCH 059/101] fix: reading a GMSH file no longer changes the face
 tables used by all other meshes

---
 cfdtools/gmsh/reader.py        | 3 ---
 cfdtools/meshbase/_elements.py | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 5a1a55d..41843f9 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -38,9 +38,6 @@ class reader(api._files):
         if not self.exists():
             api.error_stop(f"File not found: {self.filename!r}")
 
-        # Set the node ordering convention
-        _elem.elem2faces = _elem.gmsh_elem2faces
-
         # Read file.
         filename = self.filename
         fam, bctype, x, y, z, elts = self.__read_sections(filename)
diff --git a/cfdtools/meshbase/_elements.py b/cfdtools/meshbase/_elements.py
index 661b63c..9bbcb60 100644
--- a/cfdtools/meshbase/_elements.py
+++ b/cfdtools/meshbase/_elements.py
@@ -225,5 +225,5 @@ gmsh_elem2faces = {
     'tetra4': group_faces_by_type(gmsh_connectivity_tetra4),
 }
 
-# either CGNS or GMSH to be set in the reader. Default is CGNS.
+# node numbering of elements in a mesh is CGNS (same as GMSH for all elements GMSH reader handles)
 elem2faces = cgns_elem2faces
-- 
2.43.0


From 4f4b3b4f2245191d731dd7abe934e7ae85cc5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 060/101] fix: checking a mesh no longer adds a mark to it (and
 accepts it the second time)

---
 cfdtools/meshbase/_mesh.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 1f2e440..765aa51 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -223,8 +223,8 @@ class Mesh:
     def list_boco_index(self):
         return list(itertools.chain(*[boco.index.list() for boco in self._bocos.values()]))
 
-    def make_unmarked_BC(self, name="unmarked_faces"):
-        """check all boundaring faces are marked and create a specific boco if not"""
+    def list_unmarked_BC(self):
+        """list of boundary faces which are in no boco (mesh is unchanged)"""
         if 'boundary' in self._faces.keys():
             # number of (boundary) faces in face connectivity
             # nbdface = self._faces['boundary']['face2node'].nelem
@@ -232,18 +232,23 @@ class Mesh:
                 assert boco.geodim in ('face', 'bdface'), "boco marks must be faces index"
             list_marked = self.list_boco_index()
             list_missing = list(set(self._faces['boundary']['face2node'].all_index()) - set(list_marked))
-            if list_missing:
-                boco = submeshmark(name)
-                boco.geodim = 'bdface'
-                boco.type = 'boundary'
-                boco.properties['periodic_transform'] = None
-                boco.index = _conn.indexlist(ilist=list_missing)
-                self.add_boco(boco)
         else:
             list_missing = []
             log.warning("can only reindex faces according to boco if separated in 'boundary' list")
         return list_missing
 
+    def make_unmarked_BC(self, name="unmarked_faces"):
+        """check all boundaring faces are marked and create a specific boco if not"""
+        list_missing = self.list_unmarked_BC()
+        if list_missing:
+            boco = submeshmark(name)
+            boco.geodim = 'bdface'
+            boco.type = 'boundary'
+            boco.properties['periodic_transform'] = None
+            boco.index = _conn.indexlist(ilist=list_missing)
+            self.add_boco(boco)
+        return list_missing
+
     def seekmark(self, name: str) -> submeshmark:  # What is this method ??
         """look for diffent marks set to find mark name"""
         # only _bocos for now
@@ -424,7 +429,7 @@ class Mesh:
         # log.info('ckeck: at least cell/node or face/node face/cell connectivity')
         # assert(not self._cell2node or (not self._face2node and not self._face2cell))
         # assert self._check_cell2node() # not compulsory
-        assert not self.make_unmarked_BC()
+        assert not self.list_unmarked_BC()
         return True
 
     def morph(self, fmorph):
-- 
2.43.0


From b5d76b8a602b0d9e5ce2623e48914eeeced1c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 061/101] fix: renumbering is refused before any change when
 boundary faces are not marked

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 765aa51..8a627a3 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -357,7 +357,7 @@ class Mesh:
         c_lengths = len(oldindex) == nbdface
         if not c_lengths:
             log.error(f"  some boundary faces are not marked: {nbdface-len(oldindex)}")
-        if not (c_unique and c_min0 and c_max):
+        if not (c_unique and c_min0 and c_max and c_lengths):
             api.error_stop("inconsistent face marks when reordering")
         newindex = np.full_like(oldindex, -1)
         newindex[oldindex] = np.arange(len(oldindex))
-- 
2.43.0


From fa3d167c5e9fed6df3f1406f5df5fb0384e3b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 062/101] fix: check of compressed lists refuses offsets which
 go back

---
 cfdtools/meshbase/_connectivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 4d2228d..634f16b 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -168,6 +168,7 @@ class compressed_listofindex:
     def check(self):
         assert self._index[0] == 0
         assert self._index.max() == self._size
+        assert np.all(np.diff(self._index) >= 0)
         return True
 
 
-- 
2.43.0


From d2f896d1197fe60d853835e0f2a64694731deeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 063/101] fix: check of connectivity refuses indices which are
 not as many as elements

---
 cfdtools/meshbase/_connectivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 634f16b..0bea4e9 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -217,6 +217,7 @@ class elem_connectivity:
         assert index.min() == 0
         assert index.max() == index.size - 1
         assert uniq.size == index.size
+        assert all(e2n['index'].size == e2n['elem2node'].shape[0] for _, e2n in self._elem2node.items())
         return True
 
     # def reindexed_elems(self, etype):
-- 
2.43.0


From db6c64c35eb70bdbd6fae7af0ea891a5a1149f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 064/101] fix: IC3 data whose name starts with DEOF is read

---
 cfdtools/ic3/_ic3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index 234711b..627e4bd 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -285,11 +285,12 @@ class restartSectionHeader:
             ):  # remove trailing spaces
                 self.name += s[i].decode()  # .decode() for python3 portage
                 i += 1
-            if self.name.startswith("DEOF"):
-                break
             # Store the rest of the tokens in the right namespace
             nlen = ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]
             self.id[0] = s[nlen]
+            # an end mark, unless it is data with such a name
+            if self.name.startswith("DEOF") and self.id[0] not in ic3_restart_codes.values():
+                break
             self._skip[0] = s[nlen + self.id.size]  # store size in skip for next read
             ibeg = nlen + self.id.size + self._skip.size
             iend = ibeg + self.idata.size
-- 
2.43.0


From f80ff1081eb37bded875bcc8a1c61dd095173214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 065/101] fix: boundaries of GMSH 2.2 files which have common
 elementary tags are not merged in one

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 41843f9..e714f03 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -93,7 +93,7 @@ class reader(api._files):
                     ntag = elt[2]  # expected to be 2
                     # bnd_tag = elt[2 + tag]
                     # bnd_fam = elt[2 + tag - 1]
-                    bnd_tag = elt[4]
+                    bnd_tag = (elt[3], elt[4])  # an elementary tag may be common to several families
                     bnd_fam = elt[3]
                     if bnd_tag not in connect_bc.keys():
                         connect_bc[bnd_tag] = collections.defaultdict(list)
-- 
2.43.0


From cbed2037eadb5565a4ddd165cd12f8dcd3ac6352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 066/101] fix: zones of IC3 v4 files which start at the same
 face keep their own faces

---
 cfdtools/ic3/writerV4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index dfdc07f..fdc0f69 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -168,7 +168,8 @@ class writer(writerV2.writer):
         min_range.append(ifmin)
         max_range.append(ifmax)
 
-        min_range, labels, kinds = zip(*sorted(zip(min_range, labels, kinds), key=lambda x: x[0]))
+        # a zone without face is before the one which starts at the same face
+        min_range, _, labels, kinds = zip(*sorted(zip(min_range, max_range, labels, kinds), key=lambda x: x[:2]))
         min_range = list(min_range)
         min_range.append(ifmax)
 
-- 
2.43.0


From 7b090193d05766250b3dc5ab2b61af21fd3034ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:35 +0000
Subject: [PATCH 067/101] fix: meshes exported from the same IC3 reader do not
 share their marks, data and parameters

---
 cfdtools/data.py              |  9 +++++++++
 cfdtools/ic3/readerV4.py      | 12 +++++++-----
 cfdtools/ic3/reader_legacy.py | 12 +++++++-----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 94f425a..77e28c3 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from xml.sax.saxutils import escape
 
@@ -106,6 +107,14 @@ class DataSet(DataSetBase):
     def __getitem__(self, name):
         return self._data[name]
 
+    def copy(self):
+        """another data set with the same data (arrays are shared)"""
+        newdataset = copy.copy(self)
+        newdataset._properties = dict(self._properties)
+        newdataset._geoprop = dict(self._geoprop)
+        newdataset._data = dict(self._data)
+        return newdataset
+
     def pop(self, name, default=None):
         return self._data.pop(name, default)
 
diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index b797115..166b027 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -9,6 +9,7 @@ Todo:
 
 """
 # Standard library imports
+import copy
 import logging
 from pathlib import Path
 
@@ -132,11 +133,12 @@ class reader:
         face2node.importfrom_compressedindex(self.mesh['connectivity']['noofa'])
         meshdata.add_faces('mixed', face2node, face2cell)
         for boco in self.mesh['bocos']:
-            meshdata.add_boco(boco)
-        meshdata.set_celldata(self.celldata)
-        meshdata.set_nodedata(self.nodedata)
-        meshdata.set_facedata(self.facedata)
-        meshdata.set_params(self.mesh['params'])
+            meshdata.add_boco(copy.deepcopy(boco))
+        # another export must not be changed with this one
+        meshdata.set_celldata(self.celldata.copy())
+        meshdata.set_nodedata(self.nodedata.copy())
+        meshdata.set_facedata(self.facedata.copy())
+        meshdata.set_params(dict(self.mesh['params']))
         meshdata.update_params(self.simulation_state)
         if self.mesh['partition'] is not None:  # there is no partition in V4 files
             meshdata.set_partition(self.mesh['partition'])
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 04f3af2..0f22373 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -1,5 +1,6 @@
 # coding: utf8
 
+import copy
 import logging
 import numpy as np
 import sys
@@ -152,11 +153,12 @@ class reader(binreader):
         face2node.importfrom_compressedindex(self.mesh['connectivity']['noofa'])
         meshdata.add_faces('mixed', face2node, face2cell)
         for boco in self.mesh['bocos']:
-            meshdata.add_boco(boco)
-        meshdata.set_celldata(self.celldata)
-        meshdata.set_nodedata(self.nodedata)
-        meshdata.set_facedata(self.facedata)
-        meshdata.set_params(self.mesh['params'])
+            meshdata.add_boco(copy.deepcopy(boco))
+        # another export must not be changed with this one
+        meshdata.set_celldata(self.celldata.copy())
+        meshdata.set_nodedata(self.nodedata.copy())
+        meshdata.set_facedata(self.facedata.copy())
+        meshdata.set_params(dict(self.mesh['params']))
         meshdata.update_params(self.simulation_state)
         if 'partition' in self.mesh.keys():
             meshdata.set_partition(self.mesh['partition'])
-- 
2.43.0


From f34d60fc1fe13ab755e00cb77bc3c9f802c32df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 068/101] fix: number of boundaries of IC3 v4 files is not
 cumulated when read again

---
 cfdtools/ic3/readerV4.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 166b027..2a6befe 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -220,6 +220,7 @@ class reader:
         # The boundary conditions now
         log.info("Parsing boundary conditions...")
         self.mesh['bocos'] = []  # init list of bocos
+        self.mesh["params"]["nboco"] = 0
         if 'Boundaries' in fid:
             offsets = fid['Boundaries']['offsets'][()]
             min_range = offsets[:-1]
-- 
2.43.0


From a9f3cab270cbe8e08a72077d466f5696c5c2e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 069/101] fix: index given to a connectivity table is not
 changed by further additions

---
 cfdtools/meshbase/_connectivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index 0bea4e9..eed5906 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -182,7 +182,8 @@ class elem_connectivity:
         ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index
         self._nelem += dim
         if etype in self.elems():
-            self._elem2node[etype]['index'].append(ind.list())
+            # the index which was given is not changed
+            self._elem2node[etype]['index'] = self._elem2node[etype]['index'] + ind
             self._elem2node[etype]['elem2node'] = np.concatenate(
                 (self._elem2node[etype]['elem2node'], elem2node), axis=0
             )
-- 
2.43.0


From a3a0ce7e316c0d9c00fd5378fbc915c3344c212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 070/101] fix: dictionaries given to meshes, marks and data
 sets are not changed nor shared

---
 cfdtools/data.py           | 2 +-
 cfdtools/meshbase/_mesh.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index 77e28c3..d4df3c3 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -96,7 +96,7 @@ class DataSet(DataSetBase):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        self._data = dict(value)  # may be given to other data sets
 
     def keys(self):
         return self._data.keys()
diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 8a627a3..7333682 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -80,7 +80,7 @@ class submeshmark:
 
     @properties.setter
     def properties(self, properties: dict):
-        self._properties = properties
+        self._properties = dict(properties)  # may be given to other marks
 
     def __str__(self):
         return f"{self.name:12} ({self.geodim}): {self.index}"
@@ -307,7 +307,7 @@ class Mesh:
         return newmesh
 
     def set_params(self, params):
-        self._params = params
+        self._params = dict(params)  # may be given to other meshes
 
     def update_params(self, params):
         self._params.update(params)
-- 
2.43.0


From ffbb66f07374b8dbf0a4424e25d82f7db9a10bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:29 +0000
Subject: [PATCH 071/101] fix: option --check was ignored by conversion tools

---
 cfdtools/_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/_cli.py b/cfdtools/_cli.py
index fc2d8f5..2696bc8 100644
--- a/cfdtools/_cli.py
+++ b/cfdtools/_cli.py
@@ -212,7 +212,7 @@ def write_generic(argv, ext, writer, fname=None):
     log.info(f"> read mesh file {file.filename}")
     timer = api.Timer()
     timer.start()
-    r = parser._reader(file.filename)
+    r = parser._reader(file.filename, cIntegrity=parser.args('check'))
     r.read_data()
     ncell = r.ncell
     timer.stop(nelem=ncell)
-- 
2.43.0


From 2b263d14b790b8ec02c9dea0baf6f7693fd77b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:03 +0000
Subject: [PATCH 072/101] fix: statistics of vectors were shown for all
 components together

---
 cfdtools/ic3/reader_legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 0f22373..8050001 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -48,9 +48,10 @@ def print_stats_vector(name, dnp):
     :type dnp: ndarray
     '''
     for component in range(dnp.shape[1]):
+        comp = dnp[:, component]
         log.info(
             "  %s%s%s:  %+.5e / %+.5e / %+.5e (min/mean/max)."
-            % (name, "-%d" % component, ' ' * (20 - len(name)), dnp.min(), np.mean(dnp), dnp.max())
+            % (name, "-%d" % component, ' ' * (20 - len(name)), comp.min(), np.mean(comp), comp.max())
         )
 
 
-- 
2.43.0


From 3e1809b644bf4e9e9703e000c950543124b8f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:03 +0000
Subject: [PATCH 073/101] fix: mark of unmarked faces replaced a former mark of
 the same name

---
 cfdtools/meshbase/_mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 7333682..5b880c8 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -241,7 +241,11 @@ class Mesh:
         """check all boundaring faces are marked and create a specific boco if not"""
         list_missing = self.list_unmarked_BC()
         if list_missing:
-            boco = submeshmark(name)
+            free, i = name, 0
+            while free in self._bocos:  # a former mark must not be replaced
+                i += 1
+                free = f"{name}({i})"
+            boco = submeshmark(free)
             boco.geodim = 'bdface'
             boco.type = 'boundary'
             boco.properties['periodic_transform'] = None
-- 
2.43.0


From 2332600d826f05cfc98e4e0b5f1ab07e4164d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 074/101] fix: number of faces was not updated when faces are
 removed

---
 cfdtools/meshbase/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 5b880c8..b0fa40c 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -175,6 +175,7 @@ class Mesh:
                 for key, item in self._faces[facetype].items():
                     del item
                 self._faces.pop(facetype)
+                self.nface = sum(fcon['face2node'].nelem for fcon in self._faces.values())
 
     def export_mixedfaces(self):
         mixedfaces_con = _conn.elem_connectivity()
-- 
2.43.0


From edebee4aaf7c18b3d376918a4cfb74d71a44d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 075/101] fix: marks without boundary face made writers fail

---
 cfdtools/meshbase/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index b0fa40c..b17716d 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -368,9 +368,13 @@ class Mesh:
         newindex[oldindex] = np.arange(len(oldindex))
         assert min(newindex) >= 0, "inconsistency: there must not be -1 index"
         # reindex boco
+        nmarked = 0
         for _, boco in self._bocos.items():
             boco.index = _conn.indexlist(ilist=newindex[boco.index.list()].tolist())
             boco.index.compress()  # try to (and must) make it a range
+            if boco.index.size == 0:  # a mark without face is an empty range
+                boco.index.set_range([nmarked, nmarked - 1])
+            nmarked += boco.index.size
         # reindex boundary faces
         for _, fdict in self._faces['boundary']['face2node'].items():
             fdict['index'] = _conn.indexlist(ilist=newindex[fdict['index'].list()].tolist())
-- 
2.43.0


From 7ce2d077d17810b62d5092cefca84b5be378624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:21 +0000
Subject: [PATCH 076/101] fix: empty index lists (thus meshes with empty marks)
 could not be printed

---
 cfdtools/meshbase/_connectivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index eed5906..cea80e7 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -105,6 +105,8 @@ class indexlist:
         if self._type == 'range':
             return f"range {self._range[0]} to {self._range[1]}"
         elif self._type == 'list':
+            if not self._list:
+                return "list (empty)"
             n = np.array(self._list)
             return "list min:max:size = {}:{}:{}".format(n.min(), n.max(), n.size)
 
-- 
2.43.0


From 0aec0e89f3c698c009dd739c275026c92f45f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:00 +0000
Subject: [PATCH 077/101] fix: planes of an extruded mesh do not replace a mark
 of the same name

---
 cfdtools/meshbase/_mesh.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index b17716d..88b2aae 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -196,6 +196,14 @@ class Mesh:
     def add_boco(self, boco: submeshmark):
         self._bocos[boco.name] = boco
 
+    def _free_markname(self, name):
+        """name, or a numbered one if it is already used"""
+        free, i = name, 0
+        while free in self._bocos:
+            i += 1
+            free = f"{name}({i})"
+        return free
+
     def remove_boco(self, name):
         self._bocos.pop(name)
 
@@ -242,11 +250,7 @@ class Mesh:
         """check all boundaring faces are marked and create a specific boco if not"""
         list_missing = self.list_unmarked_BC()
         if list_missing:
-            free, i = name, 0
-            while free in self._bocos:  # a former mark must not be replaced
-                i += 1
-                free = f"{name}({i})"
-            boco = submeshmark(free)
+            boco = submeshmark(self._free_markname(name))  # a former mark must not be replaced
             boco.geodim = 'bdface'
             boco.type = 'boundary'
             boco.properties['periodic_transform'] = None
@@ -295,15 +299,15 @@ class Mesh:
                 index[i * nbcnode : (i + 1) * nbcnode] += i * ntotnode
             newboco.index = _conn.indexlist(ilist=index.tolist())
             newmesh.add_boco(newboco)
-        # create initial 2D domain as boco
-        newboco = submeshmark(name=domain + '0')
+        # create initial 2D domain as boco (extruded marks must not be replaced)
+        newboco = submeshmark(name=newmesh._free_markname(domain + '0'))
         newboco.geodim = 'bdnode'
         newboco.type = 'boundary'
         index = self._cell2node.nodelist()
         newboco.index = _conn.indexlist(ilist=index)
         newmesh.add_boco(newboco)
         # create extruded 2D domain as boco
-        newboco = submeshmark(name=domain + '1')
+        newboco = submeshmark(name=newmesh._free_markname(domain + '1'))
         newboco.geodim = 'bdnode'
         newboco.type = 'boundary'
         index = (np.array(index) + (nrange - 1) * ntotnode).tolist()
-- 
2.43.0


From 805b9e1adfdac5a3e8f023af2af6ef4e9ad49c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 078/101] fix: GMSH boundary named as the internal one is kept

---
 cfdtools/gmsh/reader.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index e714f03..414d969 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -143,18 +143,19 @@ class reader(api._files):
                 )
 
         # Add the fluid boundary condition with the internal type now
-        boundaries["int_fluid"] = {
+        internal = {
             "slicing": None,
             "type": None,
             "periodic_transform": None,
         }
-        boundaries["int_fluid"]["type"] = "internal"
-        boundaries["int_fluid"]["periodic_transform"] = np.zeros((16,), dtype=np.float64)
-        boundaries["int_fluid"]["slicing"] = []
+        internal["type"] = "internal"
+        internal["periodic_transform"] = np.zeros((16,), dtype=np.float64)
+        internal["slicing"] = []
         for elt_type in connectivity.keys():
             raveled = np.unique(connectivity[elt_type].ravel())
-            boundaries["int_fluid"]["slicing"] += raveled.tolist()
-        boundaries["int_fluid"]["slicing"] = np.array(boundaries["int_fluid"]["slicing"])
+            internal["slicing"] += raveled.tolist()
+        internal["slicing"] = np.array(internal["slicing"])
+        boundaries.setdefault("int_fluid", internal)  # a boundary of this name must not be lost
 
         self._elems = elts
         self._coords = (x, y, z)
-- 
2.43.0


From 738175d01b73089b19c49d07e54b5b09f7f0c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:32 +0000
Subject: [PATCH 079/101] fix: internal zone of IC3 files does not take the
 name of a boundary

---
 cfdtools/ic3/writerV2.py | 9 ++++++++-
 cfdtools/ic3/writerV4.py | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/writerV2.py b/cfdtools/ic3/writerV2.py
index 8d3732a..d3e7584 100644
--- a/cfdtools/ic3/writerV2.py
+++ b/cfdtools/ic3/writerV2.py
@@ -43,6 +43,13 @@ class writer:
         self.set_bocos()
         self.set_vars()
 
+    def _internal_name(self):
+        """name of the additional mark of internal faces, which must not be the one of a boundary"""
+        name = 'internal-domain'
+        while name in self.bocos:
+            name += '_'
+        return name
+
     def set_mesh(self):
         """
         Store the coordinates of the nodes and the
@@ -353,7 +360,7 @@ class writer:
             header.write(self.fid, self.endian)
         # Header
         header = restartSectionHeader()
-        header.name = 'internal-domain'
+        header.name = self._internal_name()
         header.id = ic3_restart_codes["UGP_IO_FA_ZONE"]
         header.skip = header.hsize
         ifmin, ifmax = last_boco + 1, self.params['fa_count'] - 1  # last face
diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index fdc0f69..d97db65 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -161,7 +161,7 @@ class writer(writerV2.writer):
                         data=boco.properties["periodic_transform"][:3],
                     )
 
-        labels.append('internal-domain')
+        labels.append(self._internal_name())
         kinds.append(type2zonekind['internal'])
         ifmin, ifmax = last_boco + 1, self.params['fa_count']
         log.debug(f"   - additional mark (FA_ZONE) for internal faces: {ifmin}-{ifmax}")
-- 
2.43.0


From b86b2af5ec4706d4fe6ef08b25d9d54edfd50b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:14 +0000
Subject: [PATCH 080/101] fix: names in IC3 files may have any characters, too
 long ones are refused instead of cut

---
 cfdtools/ic3/_ic3.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/cfdtools/ic3/_ic3.py b/cfdtools/ic3/_ic3.py
index 627e4bd..2688b4a 100644
--- a/cfdtools/ic3/_ic3.py
+++ b/cfdtools/ic3/_ic3.py
@@ -278,15 +278,11 @@ class restartSectionHeader:
             # Split the packed binary string into its tokens
             s = list(BinaryRead(bfile, self.binstr, byte_swap, self.hsize))
 
-            # Remove trailing space from header name (h.name)
-            i = 0
-            while (s[i] != b'\x00') and (
-                i < ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]
-            ):  # remove trailing spaces
-                self.name += s[i].decode()  # .decode() for python3 portage
-                i += 1
-            # Store the rest of the tokens in the right namespace
+            # Remove trailing null characters from header name (h.name)
             nlen = ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]
+            # a character may be several bytes
+            self.name = b''.join(s[:nlen]).split(b'\x00')[0].decode()
+            # Store the rest of the tokens in the right namespace
             self.id[0] = s[nlen]
             # an end mark, unless it is data with such a name
             if self.name.startswith("DEOF") and self.id[0] not in ic3_restart_codes.values():
@@ -319,12 +315,12 @@ class restartSectionHeader:
         """
 
         # Make a list from all the arguments
-        varargs = []
-        for i in range(ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]):
-            if i < len(self.name):
-                varargs.append(bytes(self.name[i], 'utf-8'))
-            else:
-                varargs.append(b'\0')
+        nlen = ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]
+        name = self.name.encode('utf-8')  # a character may be several bytes
+        if len(name) > nlen:
+            raise ValueError(f"name is too long for IC3 format ({nlen} characters at most): {self.name}")
+        name = name.ljust(nlen, b'\0')
+        varargs = [name[i : i + 1] for i in range(nlen)]
         varargs.append(self.id)
         varargs.append(self.skip)
         for kk in range(8):
-- 
2.43.0


From 77d6cecd6ad695f307872a72855c5298a4976e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:14 +0000
Subject: [PATCH 081/101] fix: names of marks in IC3 v4 files may have any
 characters, too long ones are refused instead of cut

---
 cfdtools/ic3/writerV4.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index d97db65..e46fc5f 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -174,6 +174,9 @@ class writer(writerV2.writer):
         min_range.append(ifmax)
 
         dt = h5py.string_dtype(encoding='utf-8', length=128)
+        labels = [label.encode('utf-8') for label in labels]
+        if max(map(len, labels)) > dt.itemsize:
+            raise ValueError(f"names of marks are too long for IC3 format ({dt.itemsize} characters at most)")
         bnd_group.create_dataset('labels', len(labels), dtype=dt, data=labels)
         bnd_group.create_dataset('offsets', len(min_range), dtype='i4', data=min_range)
         bnd_group.create_dataset('kinds', len(kinds), dtype='i4', data=kinds)
-- 
2.43.0


From c13f92cc6546a316be21f7b1fa6d2b7df8945768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:14 +0000
Subject: [PATCH 082/101] fix: IC3 v3 scalars in single precision or short
 integers are written

---
 cfdtools/ic3/writerV3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cfdtools/ic3/writerV3.py b/cfdtools/ic3/writerV3.py
index 59444b7..e4792c1 100644
--- a/cfdtools/ic3/writerV3.py
+++ b/cfdtools/ic3/writerV3.py
@@ -52,6 +52,10 @@ class writer(writerV2.writer):
         # nothing to do in V3
         return
 
+    def _storage(self, data):
+        """data with the precision of the format"""
+        return data.astype({'f': 'float64', 'i': 'int64'}.get(data.dtype.kind, data.dtype))
+
     def __WriteRestartVar(self):
         """
         Method to write all the variables into a restart file.
@@ -66,6 +70,7 @@ class writer(writerV2.writer):
             if nddata.size == nddata.shape[0]:
                 # Header
                 log.info(f"  write node scalar data {ndname}")
+                nddata = self._storage(nddata)
                 header = restartSectionHeader()
                 header.name = ndname
                 header.id = {
@@ -121,6 +126,7 @@ class writer(writerV2.writer):
             if cvdata.size == cvdata.shape[0]:
                 # Header
                 log.info(f"  write cell scalar data {cvname}")
+                cvdata = self._storage(cvdata)
                 header = restartSectionHeader()
                 header.name = cvname
                 header.id = {
-- 
2.43.0


From 70c377f34fc5b4f1d05b25cb9b69e85d1568e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 083/101] fix: weights of polynomial bases were wrong for
 tables of points (2D arrays)

---
 cfdtools/utils/polybase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/utils/polybase.py b/cfdtools/utils/polybase.py
index cae4565..e362cfe 100644
--- a/cfdtools/utils/polybase.py
+++ b/cfdtools/utils/polybase.py
@@ -30,12 +30,12 @@ class poly1d:
         return lin.inv(self.vdm)
 
     def interp_weights(self, x):
-        return self.invvdm @ np.array([self._polyeval(ibas)(x) for ibas in self._basis])
+        return np.tensordot(self.invvdm, np.array([self._polyeval(ibas)(x) for ibas in self._basis]), axes=1)
 
     value_weights = interp_weights
 
     def diff_weights(self, x):
-        return self.invvdm @ np.array([self._polyeval(ibas)(x) for ibas in self._gradbasis])
+        return np.tensordot(self.invvdm, np.array([self._polyeval(ibas)(x) for ibas in self._gradbasis]), axes=1)
 
     gradv_weights = diff_weights
 
-- 
2.43.0


From b25c6edd963011cf38a90b85545e1b81b675be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 084/101] fix: spectra of data with several columns must be
 computed along time

---
 cfdtools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/data.py b/cfdtools/data.py
index d4df3c3..1691fb5 100644
--- a/cfdtools/data.py
+++ b/cfdtools/data.py
@@ -139,7 +139,7 @@ class DataSet(DataSetBase):
         newdataset.add_data('freq', f)
         datalist = [name for name in (datafilter if datafilter else self.keys()) if name != 'time']
         for name in datalist:
-            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax])))
+            newdataset.add_data(name, np.abs(fftm.fft(self[name][imin:imax], axis=0)))
         return newdataset
 
     def dataSet_spectrogram(self, datafilter=None, window=None):
-- 
2.43.0


From 2c14c9a14175f08b4c542bc1463c07f0a7734eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 085/101] fix: coordinates without 3 components must be refused
 before any change of a mesh

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index 88b2aae..cefa260 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -125,7 +125,7 @@ class Mesh:
         return self._nnode
 
     def set_nodescoord_nd(self, xyz: np.ndarray):
-        assert xyz.shape[0] == self.nnode
+        assert xyz.shape == (self.nnode, 3)
         for i, c in enumerate(['x', 'y', 'z']):
             self._nodes[c] = xyz[:, i]
 
-- 
2.43.0


From dabfb1cc53894fa52176b5b8fe985c724ec43c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 086/101] fix: a list of index which is refused must not change
 the index list

---
 cfdtools/meshbase/_connectivity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index cea80e7..ee7e6ad 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -65,16 +65,17 @@ class indexlist:
         if isinstance(ilist, list):
             rlist = ilist
         elif isinstance(ilist, np.ndarray):
-            rlist = self._list = ilist.tolist()
+            rlist = ilist.tolist()
         else:
             log.error(f"{type(ilist)}")
             api.error_stop("unknow type in indexlist class")
         return rlist
 
     def set_list(self, ilist):
+        newlist = self._listof(ilist)  # may be refused
         self._delete()
         self._type = 'list'
-        self._list = self._listof(ilist)
+        self._list = newlist
 
     def append(self, ilist: list):
         # assert self._type == 'list'
-- 
2.43.0


From 2dc2b74e89b127a98ea9df366499a08a2b86f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 087/101] fix: CGNS conditions of the same name in different
 containers were lost

---
 cfdtools/cgns/cgns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index c492831..6394f5e 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -61,8 +61,9 @@ class cgnszone:
         self._zonebc.update(dict_cgnstype(zone, b"ZoneGridConnectivity_t"))
         self._BCs = {}
         for zbc in self._zonebc.values():
-            self._BCs.update(dict_cgnstype(zbc, b'BC_t'))
-            self._BCs.update(dict_cgnstype(zbc, b'GridConnectivity_t'))
+            for cgtype in (b'BC_t', b'GridConnectivity_t'):
+                # names are only unique in each container
+                self._BCs.update({bc.name: bc for bc in dict_cgnstype(zbc, cgtype).values()})
 
     @property
     def nnode(self):
-- 
2.43.0


From bd894ad4d389177e7b09c04f9f951d34e0c1c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 088/101] fix: GMSH elements in several physical groups: cells
 were duplicated (V2), boundaries were lost (V4)

---
 cfdtools/gmsh/reader.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index 414d969..adcbd20 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -65,16 +65,20 @@ class reader(api._files):
 
         # Volume Connectivity
         self._ncell = 0
+        cells = set()
         log.info("  extract volume connectivity")
         bnd_connect = 1
         for elt in elts:
             if elt[1] in gmshtype_elem.keys():
                 elt_type = gmshtype_elem[elt[1]]
                 if elt_type in mesh_elt:
+                    ntag = elt[2]  # expected to be 2
+                    if tuple(elt[3 + ntag :]) in cells:
+                        continue  # elements are given once for each of their physical groups
+                    cells.add(tuple(elt[3 + ntag :]))
                     self._ncell += 1
                     if elt_type not in connectivity.keys():
                         connectivity[elt_type] = []
-                    ntag = elt[2]  # expected to be 2
                     connectivity[elt_type].append(elt[3 + ntag :])
                     bnd_connect += 1
                 else:
@@ -303,7 +307,7 @@ class reader(api._files):
             bctype = None
 
         # To find the entity number used for concatenation of the mesh.
-        # The returned values corresponds to the (first) physical group, 0 if none
+        # The returned values corresponds to the physical groups, 0 if none
         def find_ent(dim, j):
             entities = self.__get_section_from_name(msh, "$Entities")
             bot = 1 + sum(int(n) for n in entities[0][:dim])
@@ -312,8 +316,10 @@ class reader(api._files):
             iphys = 4 if dim == 0 else 7
             for i in range(bot, top):
                 if j == int(entities[i][0]) and int(entities[i][iphys]) > 0:
-                    return int(entities[i][iphys + 1])
-            return 0
+                    nphys = int(entities[i][iphys])
+                    # the sign is only the orientation of the entity
+                    return [abs(int(iph)) for iph in entities[i][iphys + 1 : iphys + 1 + nphys]]
+            return [0]
 
         # Find the coordinates.
         log.info("  parse Nodes")
@@ -343,16 +349,13 @@ class reader(api._files):
             a = int(elements[count][2])  # dimension
             b = int(2)  # No. of tags
             d = int(elements[count][1])  # Entity group
-            c = find_ent(int(elements[count][0]), d)  # Physical group
+            c = find_ent(int(elements[count][0]), d)  # Physical groups
             nxtrange = int(elements[count][3])
             for j in range(count + 1, count + nxtrange + 1):
                 elt1 = [int(k) for k in elements[j]]
                 elt1[1:] = [nodepos[k] for k in elt1[1:]]
-                elt1.insert(1, a)
-                elt1.insert(2, b)
-                elt1.insert(3, c)
-                elt1.insert(4, d)
-                elts.append(elt1)
+                for iphys in c:  # as in version 2, once for each physical group
+                    elts.append([elt1[0], a, b, iphys, d, *elt1[1:]])
             count += nxtrange + 1
 
         return fam, bctype, x, y, z, elts
-- 
2.43.0


From 3309a90fc2b0c9b020507103f83865701e1ac84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:01 +0000
Subject: [PATCH 089/101] fix: a mesh with integer coordinates could not be
 extruded

---
 cfdtools/meshbase/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index cefa260..c8277cb 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -280,7 +280,7 @@ class Mesh:
         # SHOULD CHECK DIRECTION AND MESH ORIENTATION
         # extrude nodes
         ntotnode = self.nnode
-        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1))
+        newcoords = np.tile(self.nodescoord(ndarray=True), (nrange, 1)).astype(float)  # may be integers
         for i, s in enumerate(extrude_range):
             newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s * np.array(direction)
         newmesh.set_nodescoord_nd(newcoords)
-- 
2.43.0


From 3394463c53f0cea00ec0b79c4e0a8eb5bb9e2268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:37 +0000
Subject: [PATCH 090/101] fix: nodes of extruded cells must not overflow the
 type of the indices of the plane mesh

---
 cfdtools/meshbase/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_connectivity.py b/cfdtools/meshbase/_connectivity.py
index ee7e6ad..bf75648 100644
--- a/cfdtools/meshbase/_connectivity.py
+++ b/cfdtools/meshbase/_connectivity.py
@@ -439,7 +439,7 @@ class elem_connectivity:
         newcon = elem_connectivity()
         for etype, econ in self.items():
             nelem = econ['elem2node'].shape[0]
-            elemcon = np.tile(econ['elem2node'], (ncell, 2))
+            elemcon = np.tile(econ['elem2node'], (ncell, 2)).astype(np.int64)  # indices of nodes are larger
             fnnode = _elem.nnode_elem[etype]
             elemcon[:, fnnode : 2 * fnnode] += inodeshift
             if etype == 'bar2':  # nodes of a quad4 go around the face
-- 
2.43.0


From ab3d9c26b95dcc9a3f4b679d7367c22aec8d6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:44 +0000
Subject: [PATCH 091/101] fix: IC3 v4 solution files without conservative
 variables could not be read back

---
 cfdtools/ic3/readerV4.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index 2a6befe..bcaaf3b 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -305,7 +305,10 @@ class reader:
                 else:
                     print_stats_scalar(var_up, field)
 
-        read_vars(fid, ['rho', 'rhou', 'rhoe'])
+        conservative = ['rho', 'rhou', 'rhoe']
+        # the writer saves them all together or not at all (statistics only)
+        if any(var in fid for var in conservative):
+            read_vars(fid, conservative)
 
         if 'VolumeStats' in fid:
             read_vars(fid['VolumeStats'], fid['VolumeStats'].keys())
-- 
2.43.0


From 45a19793ddf0161e0f82aa683fa2a891142237e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:22 +0000
Subject: [PATCH 092/101] fix: extruded periodic marks lost their
 transformation

---
 cfdtools/meshbase/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index c8277cb..bae11b4 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -292,6 +292,7 @@ class Mesh:
             assert boco.nodebased(), "extrusion only possible with node marks"
             newboco = submeshmark(boco.name)
             newboco.geodim = boco.geodim
+            newboco.properties = boco.properties  # transformation of periodic marks
             newboco.type = boco.type
             index = np.tile(boco.index.list(), (nrange))
             nbcnode = boco.index.size
-- 
2.43.0


From 28b067f4f63c310873871ce6d40375c10b4cc6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:56 +0000
Subject: [PATCH 093/101] fix: IC3 v4 files with unsigned integers could not be
 read

---
 cfdtools/ic3/readerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index bcaaf3b..c83690b 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -164,7 +164,7 @@ class reader:
         log.info("Parsing face to node connectivity...")
 
         # Get the node count per face
-        nno_per_face = fid["/Connectivities/Face/noofa_i"][()]
+        nno_per_face = fid["/Connectivities/Face/noofa_i"][()].astype(np.int64)  # may be unsigned
         # number of nodes from faces
         noofa_count = self.mesh["params"]["noofa_count"] = np.sum(nno_per_face)
 
@@ -222,7 +222,7 @@ class reader:
         self.mesh['bocos'] = []  # init list of bocos
         self.mesh["params"]["nboco"] = 0
         if 'Boundaries' in fid:
-            offsets = fid['Boundaries']['offsets'][()]
+            offsets = fid['Boundaries']['offsets'][()].astype(np.int64)  # may be unsigned
             min_range = offsets[:-1]
             max_range = offsets[1:] - 1
             labels = fid['Boundaries']['labels'][()]
-- 
2.43.0


From a20eb4ad019ce2e3802f00c09c722e977b63dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:56 +0000
Subject: [PATCH 094/101] fix: IC3 files whose faces or zones refer to missing
 nodes or faces must be rejected

---
 cfdtools/ic3/readerV4.py      | 2 ++
 cfdtools/ic3/reader_legacy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index c83690b..b613215 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -180,6 +180,7 @@ class reader:
         face2node_value = fid["/Connectivities/Face/noofa_v"][()].astype(np.int64)
         zface2node = _conn.compressed_listofindex(face2node_index, face2node_value)
         zface2node.check()
+        assert face2node_value.size == 0 or 0 <= face2node_value.min() <= face2node_value.max() < no_count
         self.mesh["connectivity"]["noofa"] = zface2node
         log.info("end of face/vertex connectivity")
 
@@ -242,6 +243,7 @@ class reader:
                         ][()]
                         log.info("  periodic transformation: %s", boco.properties["periodic_transform"])
                 famin, famax = boco.index.range()
+                assert 0 <= famin <= famax + 1 <= fa_count
                 sta = face2node_index[famin]
                 try:
                     sto = face2node_index[famax + 1]
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 8050001..1f16235 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -276,6 +276,7 @@ class reader(binreader):
         face2node_value = np.asarray(s).astype(np.int64)
         zface2node = _conn.compressed_listofindex(face2node_index, face2node_value)
         zface2node.check()
+        assert face2node_value.size == 0 or 0 <= face2node_value.min() <= face2node_value.max() < no_count
         self.mesh["connectivity"]["noofa"] = zface2node
         log.info("end of face/vertex connectivity")
         sys.stdout.flush()
@@ -339,6 +340,7 @@ class reader(binreader):
             boco.properties["periodic_transform"] = h.rdata
             #
             famin, famax = boco.index.range()
+            assert 0 <= famin <= famax + 1 <= fa_count
             sta = face2node_index[famin]
             try:
                 sto = face2node_index[famax + 1]
-- 
2.43.0


From 9f5f0f69fa4b8fb2405029db4b260a19b1991e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:18 +0000
Subject: [PATCH 095/101] fix: integer coordinates were rounded to single
 precision in VTK meshes

---
 cfdtools/vtk/_vtk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfdtools/vtk/_vtk.py b/cfdtools/vtk/_vtk.py
index 8b00b97..110b398 100644
--- a/cfdtools/vtk/_vtk.py
+++ b/cfdtools/vtk/_vtk.py
@@ -73,6 +73,8 @@ class vtkMesh:
         self._reset()
         self._mesh = mesh
         coords = self._mesh.nodescoord(ndarray=True)
+        if not np.issubdtype(coords.dtype, np.floating):
+            coords = coords.astype(float)  # integers would be rounded to single precision
         self._celldict = {
             vtktype_ele[etype]: elem2node['elem2node'] for etype, elem2node in self._mesh._cell2node.items()
         }
-- 
2.43.0


From 49b5e4d9526edbd707c9c44639a976423f9d9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:53 +0000
Subject: [PATCH 096/101] fix: properties of extruded marks were shared with
 those of the plane mesh

---
 cfdtools/meshbase/_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cfdtools/meshbase/_mesh.py b/cfdtools/meshbase/_mesh.py
index bae11b4..f2f49c9 100644
--- a/cfdtools/meshbase/_mesh.py
+++ b/cfdtools/meshbase/_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import itertools
 import logging
 
@@ -292,7 +293,7 @@ class Mesh:
             assert boco.nodebased(), "extrusion only possible with node marks"
             newboco = submeshmark(boco.name)
             newboco.geodim = boco.geodim
-            newboco.properties = boco.properties  # transformation of periodic marks
+            newboco.properties = copy.deepcopy(boco.properties)  # transformation of periodic marks
             newboco.type = boco.type
             index = np.tile(boco.index.list(), (nrange))
             nbcnode = boco.index.size
-- 
2.43.0


From 3dc98d4cb9b509b421f6f6081cb14d7293c3084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:53 +0000
Subject: [PATCH 097/101] fix: weights and partition were shared by the exports
 of an IC3 reader

---
 cfdtools/ic3/readerV4.py      | 4 ++--
 cfdtools/ic3/reader_legacy.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfdtools/ic3/readerV4.py b/cfdtools/ic3/readerV4.py
index b613215..3b23d81 100644
--- a/cfdtools/ic3/readerV4.py
+++ b/cfdtools/ic3/readerV4.py
@@ -139,9 +139,9 @@ class reader:
         meshdata.set_nodedata(self.nodedata.copy())
         meshdata.set_facedata(self.facedata.copy())
         meshdata.set_params(dict(self.mesh['params']))
-        meshdata.update_params(self.simulation_state)
+        meshdata.update_params(copy.deepcopy(self.simulation_state))
         if self.mesh['partition'] is not None:  # there is no partition in V4 files
-            meshdata.set_partition(self.mesh['partition'])
+            meshdata.set_partition(copy.deepcopy(self.mesh['partition']))
         return meshdata
 
     def _read_connectivity(self, fid: h5py.File):
diff --git a/cfdtools/ic3/reader_legacy.py b/cfdtools/ic3/reader_legacy.py
index 1f16235..0652023 100644
--- a/cfdtools/ic3/reader_legacy.py
+++ b/cfdtools/ic3/reader_legacy.py
@@ -160,9 +160,9 @@ class reader(binreader):
         meshdata.set_nodedata(self.nodedata.copy())
         meshdata.set_facedata(self.facedata.copy())
         meshdata.set_params(dict(self.mesh['params']))
-        meshdata.update_params(self.simulation_state)
+        meshdata.update_params(copy.deepcopy(self.simulation_state))
         if 'partition' in self.mesh.keys():
-            meshdata.set_partition(self.mesh['partition'])
+            meshdata.set_partition(copy.deepcopy(self.mesh['partition']))
         return meshdata
 
     def _ReadRestartConnectivity(self):
-- 
2.43.0


From 93ef98d2b0f3fdc220960b2128e5ee4c6cbda334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:53 +0000
Subject: [PATCH 098/101] fix: transforms of marks were shared by the exports
 of a GMSH reader

---
 cfdtools/gmsh/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfdtools/gmsh/reader.py b/cfdtools/gmsh/reader.py
index adcbd20..d58b922 100755
--- a/cfdtools/gmsh/reader.py
+++ b/cfdtools/gmsh/reader.py
@@ -182,7 +182,7 @@ class reader(api._files):
                 boco = _mesh.submeshmark(name)
                 boco.geodim = 'bdnode'
                 boco.properties['type'] = bc_dict['type']
-                boco.properties['periodic_transform'] = bc_dict['periodic_transform']
+                boco.properties['periodic_transform'] = bc_dict['periodic_transform'].copy()
                 boco.index = _conn.indexlist(ilist=bc_dict['slicing'])
                 meshdata.add_boco(boco)
         # meshdata.set_celldata(self.variables['cells'])
-- 
2.43.0


From 6510378bfc7d46da1522ab401422d407937780d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:42 +0000
Subject: [PATCH 099/101] fix: the state given to the writer of IC3 v4 files
 was ignored

---
 cfdtools/ic3/writerV4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index e46fc5f..eeb307a 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -210,8 +210,8 @@ class writer(writerV2.writer):
         """Write the root attributes of a solution file."""
         fid.attrs.update(
             {
-                "step": self._mesh._params.get('step', 0),
-                "time": self._mesh._params.get('time', 0),
+                "step": self.simstate["step"],
+                "time": self.simstate["time"],
             }
         )
         log.debug("  " + ', '.join(f'{key}:{value}' for key, value in fid.attrs.items()))
-- 
2.43.0


From 3e38cf97359013539c092c01cf1cfc1facf99bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:42 +0000
Subject: [PATCH 100/101] fix: weights without statistics, or given as a
 dictionary, were lost in IC3 v4 files

---
 cfdtools/ic3/writerV4.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cfdtools/ic3/writerV4.py b/cfdtools/ic3/writerV4.py
index eeb307a..08a616a 100644
--- a/cfdtools/ic3/writerV4.py
+++ b/cfdtools/ic3/writerV4.py
@@ -243,12 +243,11 @@ class writer(writerV2.writer):
         stats_var = [
             var for var in self.vars["cells"].keys() if any(x in var for x in ['_AVG', '_RMS', '_REY'])
         ]
-        if not stats_var:
+        weights = {f"{name}_wgt": value for name, value in self.simstate["wgt"].items()}
+        if not stats_var and not weights:
             return
 
         volume_group = fid.create_group("VolumeStats")
-
-        weights = {name: value for name, value in self._mesh._params.items() if name.endswith("_wgt")}
         volume_group.attrs.update(weights)
 
         for cvname in stats_var:
-- 
2.43.0


From d7fb6a8f5087f872882365f64f29a96e4439b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:43 +0000
Subject: [PATCH 101/101] fix: zones of several bases in a CGNS file, each has
 the dimension of its base

---
 cfdtools/cgns/cgns.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cfdtools/cgns/cgns.py b/cfdtools/cgns/cgns.py
index 6394f5e..2991008 100644
--- a/cfdtools/cgns/cgns.py
+++ b/cfdtools/cgns/cgns.py
@@ -181,17 +181,21 @@ class cgnsMesh:
         self._file = cgnsfile(self._filename)
         # get BASE list
         self._bases = self._file.list_bases()
+        self._zones, geodims = {}, {}
         for base in self._bases:
             # print('base', self._file._h5file[base].name, self._file._h5file[base][" data"][:])
-            self._zones = dict_cgnstype(self._file._h5file[base], b'Zone_t')
-        # geo dimension from base
-        self._geodim = self._file._h5file[self._bases[0]][" data"][0]
+            for zname, zobj in dict_cgnstype(self._file._h5file[base], b'Zone_t').items():
+                if zname in self._zones:  # names are only unique in each base
+                    zname = f"{base}/{zname}"
+                self._zones[zname] = zobj
+                geodims[zname] = self._file._h5file[base][" data"][0]
         if zone is None:
             assert len(self._zones) == 1, "Multiple zones found, must specify which zone to export"
             name = list(self._zones.keys())[0]
         else:
             name = zone
         self._zonename = name
+        self._geodim = geodims[name]  # geo dimension from base of the zone
         self._zone = cgnszone(self._zones[name], self._geodim)
         self._ncell = self._zone.ncell
 
-- 
2.43.0

