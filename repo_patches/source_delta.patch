From 3ff5c87c009966fd291cdc145e683f13860026d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 01/28] fix: regrid must not rotate XG, YG in the caller's
 mitgrid_matrices

---
 simplegrid/regrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplegrid/regrid.py b/simplegrid/regrid.py
index 3cffefc..a7444a8 100644
--- a/simplegrid/regrid.py
+++ b/simplegrid/regrid.py
@@ -160,7 +160,8 @@ def regrid( strict=False, verbose=False, **kwargs):
         else:
             raise ValueError("ni, nj required if xg/yg_file specified")
     elif mitgrid_matrices:
-        mitgrid = mitgrid_matrices
+        # (copy, since XG and YG may be replaced by rotated versions below)
+        mitgrid = dict(mitgrid_matrices)
         # ni, nj from tracer cell counts:
         (ni,nj) = mitgrid['XC'].shape
     else:
-- 
2.43.0


From 5d045d49e15723521fd3914427a319c333c1af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 02/28] fix: lonlat2cart ignored its sphere radius argument

---
 simplegrid/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 9ee6c7e..b1cb763 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -35,7 +35,7 @@ def lonlat2cart( lons, lats, rad=1.):
     cart[:,:,1] = np.sin(np.radians(lons))*np.cos(np.radians(lats)) # y
     cart[:,:,2] = np.sin(np.radians(lats))                          # z
 
-    return cart
+    return rad*cart
 
 
 def nearest(lon,lat,lons,lats,geod):
-- 
2.43.0


From 93fe18008319451ec5b384412020d8b1cf091648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 03/28] fix: squad_uarea returned NaN for cells with coincident
 corners

---
 simplegrid/util.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index b1cb763..4b489fd 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -80,6 +80,17 @@ def nearest(lon,lat,lons,lats,geod):
     return i,j,dist
 
 
+def _stri_uarea( a, b, c):
+    """Compute unit sphere triangle surface area for cartesian corner points a,
+    b and c (Van Oosterom and Strackee formula, valid for degenerate triangles).
+
+    """
+
+    return 2*np.arctan2(
+        np.abs(np.dot(a,np.cross(b,c))),
+        1 + np.dot(a,b) + np.dot(b,c) + np.dot(c,a))
+
+
 def squad_uarea( cart):
     """Compute quadrilateral surface areas for cartesian array of corner points
     on the unit sphere.
@@ -136,6 +147,11 @@ def squad_uarea( cart):
             # area:
             area[x_idx,y_idx] = A1+B1+C1 + A2+B2+C2 - 2*np.pi
 
+            # angles are undefined if corners coincide (e.g., at a pole):
+            if np.isnan(area[x_idx,y_idx]):
+                area[x_idx,y_idx] = \
+                    _stri_uarea(ptA,ptB,ptC) + _stri_uarea(ptA,ptC,ptD)
+
     return area
 
 
-- 
2.43.0


From 149b45ca4e86dfd178563833572cbfe0e52f6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 04/28] fix: getobcs failed for, or ignored, explicit boundary
 index vectors

---
 simplegrid/getobcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index d9d0b3b..df8472d 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -236,19 +236,19 @@ def getobcs( strict=False, verbose=False, **kwargs):
     # defaults:
 
     do_ob_jnorth, do_ob_jsouth, do_ob_ieast, do_ob_iwest = [True]*4
-    if not ob_jnorth:
+    if kwargs.get('OB_Jnorth') is None or not ob_jnorth.size:
         ob_jnorth = np.ones(ni_regional,dtype=int)*nj_regional
     elif not any(ob_jnorth!=0):
         do_ob_jnorth = False
-    if not ob_jsouth:
+    if kwargs.get('OB_Jsouth') is None or not ob_jsouth.size:
         ob_jsouth = np.ones(ni_regional,dtype=int)
     elif not any(ob_jsouth!=0):
         do_ob_jsouth = False
-    if not ob_ieast:
+    if kwargs.get('OB_Ieast') is None or not ob_ieast.size:
         ob_ieast = np.ones(nj_regional,dtype=int)*ni_regional
     elif not any(ob_ieast!=0):
         do_ob_ieast = False
-    if not ob_iwest:
+    if kwargs.get('OB_Iwest') is None or not ob_iwest.size:
         ob_iwest = np.ones(nj_regional,dtype=int)
     elif not any(ob_iwest!=0):
         do_ob_iwest = False
-- 
2.43.0


From 2f1ca6b349fa540e414319dd748a5774e6e02bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 05/28] fix: getobcs negative indices on south and west
 boundaries

---
 simplegrid/getobcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index df8472d..3310350 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -258,11 +258,11 @@ def getobcs( strict=False, verbose=False, **kwargs):
     if do_ob_jnorth:
         ob_jnorth = np.array([nj_regional+1+j if j<0 else j for j in ob_jnorth]) - 1
     if do_ob_jsouth:
-        ob_jsouth = ob_jsouth - 1
+        ob_jsouth = np.array([nj_regional+1+j if j<0 else j for j in ob_jsouth]) - 1
     if do_ob_ieast:
         ob_ieast = np.array([ni_regional+1+i if i<0 else i for i in ob_ieast]) - 1
     if do_ob_iwest:
-        ob_iwest = ob_iwest - 1
+        ob_iwest = np.array([ni_regional+1+i if i<0 else i for i in ob_iwest]) - 1
 
     #
     # output directory:
-- 
2.43.0


From fb11451f7fc92e90215120b1b198265cbbc34181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 06/28] fix: getobcs wrote boundary matrices in C rather than
 Fortran order

---
 simplegrid/getobcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 3310350..0870c97 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -479,7 +479,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
                     outarray = np.asfortranarray(obs[ob]['ob_array'],dtype='>f8')
                     filename = 'OB'+ob+response.lower() # plus an optional name?
                     fd = open(os.path.join(resultsdir,filename),'wb')
-                    outarray.tofile(fd)
+                    outarray.T.tofile(fd)   # (tofile always writes C order)
                     fd.close
 
 
-- 
2.43.0


From 4af925e452fba5d107c416840089e983faaeadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 07/28] fix: getobcs repeated times for tiled results

---
 simplegrid/getobcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 0870c97..76aa9a6 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -337,8 +337,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
 
     # get integer time steps from filenames:
     re_time = re.compile('\d+')
-    times = sorted( [int(re_time.findall(os.path.basename(f))[0])
-        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))])
+    # (a set, since results may be tiled, i.e., several files per time):
+    times = sorted( {int(re_time.findall(os.path.basename(f))[0])
+        for f in glob.glob(os.path.join(parent_resultsdir,'T.*.data'))})
     ntimes = len(times)
     # open up a temperature file, get depths from matrix size:
     T1 = mds.rdmds(os.path.join(parent_resultsdir,'T'),times[0])
-- 
2.43.0


From 0a0f9fb2332a32b8f217871e595a3b5b9a3c279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/28] fix: getobcs reused weight files that may belong to
 other grids

---
 simplegrid/getobcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 76aa9a6..8710692 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -288,7 +288,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
         INTERP_METH, ds_tracer_parent, ds_tracer_regional, 'tracer', NETCDF_EXT)
     tracer_regridder = xe.Regridder( ds_tracer_parent, ds_tracer_regional,
         INTERP_METH, filename=os.path.join(resultsdir,wgtfname_tracer),
-        reuse_weights=True)
+        reuse_weights=False)
 
     # u, v point interplators - "regrid" both parent and region at 2x
     # resolution, use to extract tracer cell u,v midside nodes:
@@ -318,7 +318,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
     wgtfname_U = weightfilename( INTERP_METH, ds_U_parent,
         ds_U_regional, 'U', NETCDF_EXT)
     U_regridder = xe.Regridder( ds_U_parent, ds_U_regional, INTERP_METH,
-        filename=os.path.join(resultsdir,wgtfname_U), reuse_weights=True)
+        filename=os.path.join(resultsdir,wgtfname_U), reuse_weights=False)
     # V-point interpolator:
     ds_V_parent = {
         'lon': parent_mitgrid_double['XG'][1::2,0::2],
@@ -329,7 +329,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
     wgtfname_V = weightfilename( INTERP_METH, ds_V_parent,
         ds_V_regional, 'V', NETCDF_EXT)
     V_regridder = xe.Regridder( ds_V_parent, ds_V_regional, INTERP_METH,
-        filename=os.path.join(resultsdir,wgtfname_V), reuse_weights=True)
+        filename=os.path.join(resultsdir,wgtfname_V), reuse_weights=False)
 
     #
     # get time steps and number of depths from results database:
-- 
2.43.0


From 857a8df5030eedcc5dd15d0fc72301f52d4eec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/28] fix: getobcs command line could not take index vectors
 or the default resultsdir

---
 simplegrid/getobcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 8710692..240fedd 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -37,21 +37,21 @@ def create_parser():
         number of tracer points in the regional model grid 'y' direction""")
     parser.add_argument('--parent_resultsdir', required=True, help="""
         MITgcm parent grid results directory""")
-    parser.add_argument('--OB_Jnorth', type=int, help="""
+    parser.add_argument('--OB_Jnorth', type=int, nargs='+', help="""
         North boundary vector of length ni_regional containing boundary tracer
         cell j indices per MITgcm OBCS package conventions.  Boundaries are
         ignored for any index vector that is identically zero, and defaults to
         edge tracer cell indices if not provided. Negative indices supported.""")
-    parser.add_argument('--OB_Jsouth', type=int, help="""
+    parser.add_argument('--OB_Jsouth', type=int, nargs='+', help="""
         South boundary vector of length ni_regional containing boundary tracer
         cell j indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Ieast', type=int, help="""
+    parser.add_argument('--OB_Ieast', type=int, nargs='+', help="""
         East boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--OB_Iwest', type=int, help="""
+    parser.add_argument('--OB_Iwest', type=int, nargs='+', help="""
         West boundary vector of length nj_regional containing boundary tracer
         cell i indices (See --OB_JNorth comments)""")
-    parser.add_argument('--resultsdir', required=True, help="""
+    parser.add_argument('--resultsdir', help="""
         directory in which to store resulting open boundary condition matrices.
         Defaults to parent_resultsdir+'_obcs' if not provided.""")
     parser.add_argument('-s','--strict',action='store_true', help="""
-- 
2.43.0


From 23ab87d6a45c39e05788e4f6f6a82faf43dc424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 10/28] fix: matchedges compares edge end points pairwise
 (tiles with an edge at a pole)

---
 simplegrid/matchedges.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/simplegrid/matchedges.py b/simplegrid/matchedges.py
index 9ca0346..cabe3c5 100644
--- a/simplegrid/matchedges.py
+++ b/simplegrid/matchedges.py
@@ -97,25 +97,30 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
 
     # edge detection:
 
-    a_to_b_closest = np.less_equal(a_to_b_dist,nom_diag*config.POINTS_ARE_CLOSE_ENOUGH)
-    b_to_a_closest = np.less_equal(b_to_a_dist,nom_diag*config.POINTS_ARE_CLOSE_ENOUGH)
-
-    if np.all(a_to_b_closest[0,:]):
+    def coincide(a_ends,b_ends):
+        # edge end points are compared pairwise, as an edge may have shrunk to a
+        # single point that any number of other edges meet (i.e., a pole):
+        return all(
+            geod.inv(aXG[a],aYG[a],bXG[b],bYG[b])[2] <=
+                nom_diag*config.POINTS_ARE_CLOSE_ENOUGH
+            for (a,b) in zip(a_ends,b_ends))
+
+    if coincide((SW,NW),(SE,NE)):
         a_edge          = W
         a_edge_slice    = (np.s_[0],np.s_[:])
         if verbose:
             msg = "western edge of tile 'a' "
-    elif np.all(a_to_b_closest[-1,:]):
+    elif coincide((SE,NE),(SW,NW)):
         a_edge          = E
         a_edge_slice    = (np.s_[-1],np.s_[:])
         if verbose:
             msg = "eastern edge of tile 'a' "
-    elif np.all(a_to_b_closest[:,0]):
+    elif coincide((SW,SE),(NW,NE)):
         a_edge          = S
         a_edge_slice    = (np.s_[:],np.s_[0])
         if verbose:
             msg = "southern edge of tile 'a' "
-    elif np.all(a_to_b_closest[:,-1]):
+    elif coincide((NW,NE),(SW,SE)):
         a_edge          = N
         a_edge_slice    = (np.s_[:],np.s_[-1])
         if verbose:
@@ -123,25 +128,25 @@ def matchedges( aXG, aYG, bXG, bYG, geod, verbose=False):
     else:
         raise ValueError('No matching edge found for first input tile')
 
-    if np.all(b_to_a_closest[0,:]):
+    if coincide((SE,NE),(SW,NW)):
         b_edge              = W
         b_edge_slice        = (np.s_[0],np.s_[:])
         b_edge_next_slice   = (np.s_[1],np.s_[:])
         if verbose:
             msg = msg + "matches western edge of tile 'b'"
-    elif np.all(b_to_a_closest[-1,:]):
+    elif coincide((SW,NW),(SE,NE)):
         b_edge              = E
         b_edge_slice        = (np.s_[-1],np.s_[:])
         b_edge_next_slice   = (np.s_[-2],np.s_[:])
         if verbose:
             msg = msg + "matches eastern edge of tile 'b'"
-    elif np.all(b_to_a_closest[:,0]):
+    elif coincide((NW,NE),(SW,SE)):
         b_edge              = S
         b_edge_slice        = (np.s_[:],np.s_[0])
         b_edge_next_slice   = (np.s_[:],np.s_[1])
         if verbose:
             msg = msg + "matches southern edge of tile 'b'"
-    elif np.all(b_to_a_closest[:,-1]):
+    elif coincide((SW,SE),(NW,NE)):
         b_edge              = N
         b_edge_slice        = (np.s_[:],np.s_[-1])
         b_edge_next_slice   = (np.s_[:],np.s_[-2])
-- 
2.43.0


From 95e5ab4c6975012731c9a86ce3d613202b9f7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 11/28] fix: rdmds keeps the axis of several records when not
 squeezing

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 4b2da70..78a60bb 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -465,7 +465,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
             squeezed = tuple( d for d in dims if d > 1 )
         else:
             # squeeze all that came from scalar arguments
-            keepers = [itrsislist, np.iterable(rec)] + [np.iterable(l) for l in lev]
+            keepers = [itrsislist, np.iterable(rec) or len(reclist) > 1] + [np.iterable(l) for l in lev]
             squeezed = tuple( d for d,keep in zip(dims, keepers) if keep )
 
         arr = arr.reshape(squeezed+arr.shape[2+nlev:])
-- 
2.43.0


From 8b9bf94b62824be95d2e90b62e4b7df7f5441e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 12/28] fix: rdmds recognises every NaN or infinity as
 iteration selector, not only numpy's own object

---
 simplegrid/mds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 78a60bb..a994fb5 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -272,13 +272,13 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     # add iteration number to file name unless itrs is -1
     additrs = itrs != -1
-    if itrs is np.nan:
+    if np.isscalar(itrs) and np.isnan(itrs):
         # all iterations
         itrs = scanforfiles(fnamearg)
         if verbose: warning('Reading {0} time levels: '.format(len(itrs)), *itrs)
         returnits = True
         itrsislist = True
-    elif itrs is np.inf:
+    elif np.isscalar(itrs) and itrs == np.inf:
         # last iteration
         itrs = scanforfiles(fnamearg)
         if len(itrs):
-- 
2.43.0


From 811eae07b397867f085f03bb8925bc39b61cbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 13/28] fix: rdmds takes the shape of each tile from its own
 metadata

---
 simplegrid/mds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index a994fb5..07ec71f 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -345,10 +345,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                 tp = typepre + _typesuffixes[dataprec]
                 size = np.dtype(tp).itemsize
                 if astype is None: astype = tp
-                recshape = tuple( ie-i0 for i0,ie in zip(i0s,ies) )
-                count = functools.reduce(mul, recshape)
                 nrecords, = meta['nrecords']
-                tileshape = (nrecords,) + recshape
                 if allrec:
                     reclist = range(nrecords)
                     recinds = np.s_[:,] + levinds
@@ -374,6 +371,10 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                 if meta != metaref:
                     raise ValueError('Meta files not compatible')
 
+            recshape = tuple( ie-i0 for i0,ie in zip(i0s,ies) )
+            count = functools.reduce(mul, recshape)
+            tileshape = (nrecords,) + recshape
+
             datafile = metafile[:-4] + 'data'
 
             if region is not None:
-- 
2.43.0


From e158ed0ca92e6d5b15b179e23c2e91b33c628a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 14/28] fix: rdmds opens memory maps read-only (a short data
 file was extended on disk)

---
 simplegrid/mds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 07ec71f..38a5e7e 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -266,7 +266,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
     import functools
     usememmap = usememmap or mm
     if usememmap:
-        readdata = np.memmap
+        readdata = functools.partial(np.memmap, mode='r')
     else:
         readdata = fromfileshape
 
@@ -306,7 +306,7 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
 
     if usememmap:
         recsatonce = True
-        readdata = np.memmap
+        readdata = functools.partial(np.memmap, mode='r')
     else:
         recsatonce = allrec
         readdata = fromfileshape
-- 
2.43.0


From 0153a9f2762a8daafd34f6cd45f3165d0f2bd4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 15/28] fix: parsemeta reports an assignment without a value as
 a parse error

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 38a5e7e..28c2559 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -98,7 +98,7 @@ def parsemeta(metafile):
             raise ParseError(metafile,line)
 
         # look for the opening delimiter ('[' or '{')
-        opening = line[0]
+        opening = line[:1]
         try:
             closing = _closing[opening]
         except KeyError:
-- 
2.43.0


From 5ad694a273f057870fe8a571da74f229c7a90c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 16/28] fix: parsemeta accepts spaces before a comma

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 28c2559..d8ccb7d 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -123,7 +123,7 @@ def parsemeta(metafile):
 
         if opening == '[':
             # [] can contain any type of values, separated by commas
-            val = [ parse1(s) for s in re.split(r'[, ] *',line) ]
+            val = [ parse1(s) for s in re.split(r' *[, ] *',line) ]
         else:
             # {} can only contain single quote-delimited strings separated by space
             val = [ s.rstrip() for s in re.split(r"'  *'", line.strip("'")) ]
-- 
2.43.0


From e34207a7860623b0da2aa9243d0b40135d01cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 17/28] fix: parsemeta no longer swallows the next assignment
 when a closing delimiter is missing

---
 simplegrid/mds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index d8ccb7d..ddbe12f 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -117,6 +117,10 @@ def parsemeta(metafile):
             raise ParseError(metafile,line,
                              'Values must be enclosed in "[ ];" or "{ };".')
 
+        # a further opening delimiter outside strings: another assignment was read
+        if opening in re.sub(r"'[^']*'", '', line[1:]):
+            raise ParseError(metafile,line,'No closing ' + closing + ' found.')
+
         # remove delimiters
         line = line[1:-2].strip(" ,")
         _currentline = line
-- 
2.43.0


From 29900b1fb697b0cf2b89dec29924b0a1815951f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 18/28] fix: wrmds refuses a number of dimensions the array
 does not have

---
 simplegrid/mds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index ddbe12f..7214944 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -536,6 +536,8 @@ def wrmds(fbase, arr, itr=None, dataprec='float32', ndims=None, nrecords=None,
             assert n == nrecords
             ndims = len(dims)
 
+    if not 0 < ndims <= arr.ndim:
+        raise ValueError('ndims must be between 1 and the number of array dimensions')
     dims = arr.shape[-1:-ndims-1:-1]
     nrec = np.prod(arr.shape[:-ndims], dtype=int)
     if nrecords is not None and nrecords != nrec:
-- 
2.43.0


From 89c0cf80e849664f6c331a7c9130a4fc9933e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 19/28] fix: rdmds accepts more selected levels than the file
 has (repeated levels)

---
 simplegrid/mds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 7214944..a196539 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -402,6 +402,9 @@ def rdmds(fnamearg,itrs=-1,machineformat='b',rec=None,fill_value=0,
                     raise NotImplementedError('Region selection is not implemented for map2glob != [0,1]')
 
             sl = tuple( slice(i0,ie) for i0,ie in zip(i0s,ies) )
+            # selected levels replace a whole dimension, however many they are
+            sl = tuple( slice(None) if k < nlev and ie-i0 == gdims[k] else s
+                        for k,(s,i0,ie) in enumerate(zip(sl,i0s,ies)) )
             if map2gl is None:
                 # part of arr that will receive tile (all records)
                 arrtile = arr[(iit,slice(None))+sl]
-- 
2.43.0


From 3b7bcbee4baebaa9ea347debf67bd22688360572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 20/28] fix: parsemeta refuses stray delimiters instead of
 making them part of a value

---
 simplegrid/mds.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index a196539..e22b456 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -117,9 +117,11 @@ def parsemeta(metafile):
             raise ParseError(metafile,line,
                              'Values must be enclosed in "[ ];" or "{ };".')
 
-        # a further opening delimiter outside strings: another assignment was read
-        if opening in re.sub(r"'[^']*'", '', line[1:]):
-            raise ParseError(metafile,line,'No closing ' + closing + ' found.')
+        # further delimiters outside strings: another assignment was read, or
+        # there is one too many
+        rest = re.sub(r"'[^']*'", '', line[1:-2])
+        if opening in rest or closing in rest:
+            raise ParseError(metafile,line,'Unmatched ' + opening + ' or ' + closing + '.')
 
         # remove delimiters
         line = line[1:-2].strip(" ,")
-- 
2.43.0


From 663104694ae8ac8d4f33ef69cc81c5024a8e2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 21/28] fix: parsemeta keeps empty strings at the ends of a
 list of strings

---
 simplegrid/mds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index e22b456..0c857de 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -132,7 +132,7 @@ def parsemeta(metafile):
             val = [ parse1(s) for s in re.split(r' *[, ] *',line) ]
         else:
             # {} can only contain single quote-delimited strings separated by space
-            val = [ s.rstrip() for s in re.split(r"'  *'", line.strip("'")) ]
+            val = [ s.rstrip() for s in re.split(r"'  *'", re.sub(r"^'|'$", '', line)) ]
 
         d[key] = val
 
-- 
2.43.0


From 2d125a2c9c0ab9205af599e4408e0690dd19132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 22/28] fix: getobcs refused parent grids that close on
 themselves or reach a pole

---
 simplegrid/getobcs.py | 70 ++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 240fedd..6c8d3de 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -4,13 +4,14 @@ import argparse
 import glob
 import numpy as np
 import os.path
+import pyproj
 import re
 import xesmf as xe
 
+from . import computegrid
 from . import gridio
 from . import mds
 from . import mds2mitgrid
-from . import regrid
 
 INTERP_METH = 'bilinear'
 NETCDF_EXT = '.nc'
@@ -92,6 +93,40 @@ def weightfilename( interp_meth, grid_in, grid_out, response_type, netcdf_ext):
         response_type, netcdf_ext)
 
 
+def uv_points( mitgrid):
+    """Locate the U and V points of a grid, i.e., the midside nodes of tracer
+    cell edges.
+
+    Args:
+        mitgrid (dict): grid data (only XG and YG are used here).
+
+    Returns:
+        (u_points, v_points): Tuple of xESMF grids (numpy 2-d arrays stored in
+            dict with 'lon', 'lat' keys) of U and V point locations.
+
+    Raises:
+        ValueError: If the outermost corner points are missing.
+
+    """
+
+    xg, yg = mitgrid['XG'], mitgrid['YG']
+    if not any( edge.any() for edge in (xg[-1],yg[-1],xg[:,-1],yg[:,-1])):
+        raise ValueError("outermost XG, YG corner points are missing.")
+
+    # fill in the grid at 2x resolution (corner point search, as in regrid,
+    # can't be used here since grid corners may coincide, e.g., for global
+    # grids; fill expects a boundary ring):
+    (ni,nj) = xg.shape[0]-1, xg.shape[1]-1
+    xg_double, yg_double = np.zeros((2,2*ni+3,2*nj+3))
+    xg_double[1::2,1::2] = xg
+    yg_double[1::2,1::2] = yg
+    (xg_double,yg_double) = computegrid.fill( xg_double, yg_double,
+        1, 2*ni+1, 1, 2*nj+1, 1, 1, pyproj.Geod(ellps='sphere'))
+    return (
+        {'lon': xg_double[1:-1:2,2:-1:2], 'lat': yg_double[1:-1:2,2:-1:2]},
+        {'lon': xg_double[2:-1:2,1:-1:2], 'lat': yg_double[2:-1:2,1:-1:2]})
+
+
 def getobcs( strict=False, verbose=False, **kwargs):
     """Compute prescribed regional grid open boundary conditions from global
     (parent) simulation results.
@@ -290,42 +325,15 @@ def getobcs( strict=False, verbose=False, **kwargs):
         INTERP_METH, filename=os.path.join(resultsdir,wgtfname_tracer),
         reuse_weights=False)
 
-    # u, v point interplators - "regrid" both parent and region at 2x
-    # resolution, use to extract tracer cell u,v midside nodes:
-    (parent_mitgrid_double, ni_parent_double, nj_parent_double) = \
-        regrid.regrid(
-            mitgrid_matrices=parent_mitgrid, ni=ni_parent, nj=nj_parent,
-            lon1=parent_mitgrid['XG'][ 0,-1],   # NW
-            lat1=parent_mitgrid['YG'][ 0,-1],   # ""
-            lon2=parent_mitgrid['XG'][-1, 0],   # SE
-            lat2=parent_mitgrid['YG'][-1, 0],   # ""
-            lon_subscale=2, lat_subscale=2)
-    (regional_mitgrid_double, ni_regional_double, ni_regional_double) = \
-        regrid.regrid(
-            mitgrid_matrices=regional_mitgrid, ni=ni_regional, nj=nj_regional,
-            lon1=regional_mitgrid['XG'][ 0,-1], # NW
-            lat1=regional_mitgrid['YG'][ 0,-1], # ""
-            lon2=regional_mitgrid['XG'][-1, 0], # SE
-            lat2=regional_mitgrid['YG'][-1, 0], # ""
-            lon_subscale=2, lat_subscale=2)
+    # u, v point interplators:
+    (ds_U_parent, ds_V_parent) = uv_points(parent_mitgrid)
+    (ds_U_regional, ds_V_regional) = uv_points(regional_mitgrid)
     # U-point interpolator:
-    ds_U_parent = {
-        'lon': parent_mitgrid_double['XG'][0::2,1::2],
-        'lat': parent_mitgrid_double['YG'][0::2,1::2]}
-    ds_U_regional = {
-        'lon': regional_mitgrid_double['XG'][0::2,1::2],
-        'lat': regional_mitgrid_double['YG'][0::2,1::2]}
     wgtfname_U = weightfilename( INTERP_METH, ds_U_parent,
         ds_U_regional, 'U', NETCDF_EXT)
     U_regridder = xe.Regridder( ds_U_parent, ds_U_regional, INTERP_METH,
         filename=os.path.join(resultsdir,wgtfname_U), reuse_weights=False)
     # V-point interpolator:
-    ds_V_parent = {
-        'lon': parent_mitgrid_double['XG'][1::2,0::2],
-        'lat': parent_mitgrid_double['YG'][1::2,0::2]}
-    ds_V_regional = {
-        'lon': regional_mitgrid_double['XG'][1::2,0::2],
-        'lat': regional_mitgrid_double['YG'][1::2,0::2]}
     wgtfname_V = weightfilename( INTERP_METH, ds_V_parent,
         ds_V_regional, 'V', NETCDF_EXT)
     V_regridder = xe.Regridder( ds_V_parent, ds_V_regional, INTERP_METH,
-- 
2.43.0


From 985cf26075abfe588cf4a58001b9632150e5fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 23/28] fix: getobcs reports a missing parent grid as
 ValueError

---
 simplegrid/getobcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 6c8d3de..2dc1608 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -227,6 +227,10 @@ def getobcs( strict=False, verbose=False, **kwargs):
             print('{0} {1}...'.format(readmsg,parent_resultsdir))
         (parent_mitgrid, ni_parent, nj_parent) = mds2mitgrid.mds2mitgrid(
             parent_resultsdir,verbose)
+        if any(parent_mitgrid[name] is None for name in ('XC','YC','XG','YG')):
+            raise ValueError("No parent grid found in {0}; either "
+                "parent_mitgridfile or parent_mitgrid_matrices must be "
+                "provided.".format(parent_resultsdir))
     if verbose:
         print('...successfully read {0}x{1} grid.'.format(ni_parent,nj_parent))
 
-- 
2.43.0


From 760db9bcc6568fc81a6c2311e1756118f282370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 24/28] fix: getobcs accepts parent grids made from results,
 which lack the outermost corners

---
 simplegrid/getobcs.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/simplegrid/getobcs.py b/simplegrid/getobcs.py
index 2dc1608..d314be0 100644
--- a/simplegrid/getobcs.py
+++ b/simplegrid/getobcs.py
@@ -93,25 +93,30 @@ def weightfilename( interp_meth, grid_in, grid_out, response_type, netcdf_ext):
         response_type, netcdf_ext)
 
 
-def uv_points( mitgrid):
+def uv_points( mitgrid, trim=False):
     """Locate the U and V points of a grid, i.e., the midside nodes of tracer
     cell edges.
 
     Args:
         mitgrid (dict): grid data (only XG and YG are used here).
+        trim (bool, optional): True to return the points between the existing
+            corner points if the outermost ones are missing (zero), as in grids
+            obtained from MITgcm results by mds2mitgrid.
 
     Returns:
         (u_points, v_points): Tuple of xESMF grids (numpy 2-d arrays stored in
             dict with 'lon', 'lat' keys) of U and V point locations.
 
     Raises:
-        ValueError: If the outermost corner points are missing.
+        ValueError: If the outermost corner points are missing, and not trim.
 
     """
 
     xg, yg = mitgrid['XG'], mitgrid['YG']
     if not any( edge.any() for edge in (xg[-1],yg[-1],xg[:,-1],yg[:,-1])):
-        raise ValueError("outermost XG, YG corner points are missing.")
+        if not trim:
+            raise ValueError("outermost XG, YG corner points are missing.")
+        xg, yg = xg[:-1,:-1], yg[:-1,:-1]
 
     # fill in the grid at 2x resolution (corner point search, as in regrid,
     # can't be used here since grid corners may coincide, e.g., for global
@@ -330,7 +335,7 @@ def getobcs( strict=False, verbose=False, **kwargs):
         reuse_weights=False)
 
     # u, v point interplators:
-    (ds_U_parent, ds_V_parent) = uv_points(parent_mitgrid)
+    (ds_U_parent, ds_V_parent) = uv_points(parent_mitgrid,trim=True)
     (ds_U_regional, ds_V_regional) = uv_points(regional_mitgrid)
     # U-point interpolator:
     wgtfname_U = weightfilename( INTERP_METH, ds_U_parent,
@@ -441,6 +446,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
                         except IndexError:
                             parent_results_at_this_depth = parent_results[:,:]
                         # handle possible MITgcm solution idiosyncrasies:
+                        if parent_results_at_this_depth.shape == (ni_parent,nj_parent):
+                            (nx,ny) = U_regridder.shape_in
+                            parent_results_at_this_depth = parent_results_at_this_depth[:nx,:ny]
                         if U_regridder.shape_in != parent_results_at_this_depth.shape:
                             tmparray = np.zeros(U_regridder.shape_in)
                             tmparray[0:parent_results_at_this_depth.shape[0],
@@ -454,6 +462,9 @@ def getobcs( strict=False, verbose=False, **kwargs):
                         except IndexError:
                             parent_results_at_this_depth = parent_results[:,:]
                         # handle possible MITgcm solution idiosyncrasies:
+                        if parent_results_at_this_depth.shape == (ni_parent,nj_parent):
+                            (nx,ny) = V_regridder.shape_in
+                            parent_results_at_this_depth = parent_results_at_this_depth[:nx,:ny]
                         if V_regridder.shape_in != parent_results_at_this_depth.shape:
                             tmparray = np.zeros(V_regridder.shape_in)
                             tmparray[0:parent_results_at_this_depth.shape[0],
-- 
2.43.0


From 958298a7ab088ecbf9416ed8cf68218e02fc1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 25/28] fix: mkgrid command wrote a grid of NaN when a corner
 coordinate was left out

Its options are required, as its documentation and the other commands say.
---
 simplegrid/mkgrid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/simplegrid/mkgrid.py b/simplegrid/mkgrid.py
index 645dfe0..793a59f 100644
--- a/simplegrid/mkgrid.py
+++ b/simplegrid/mkgrid.py
@@ -21,21 +21,21 @@ def create_parser():
             simply for orientation purposes. Either way, the output grid will be
             aligned such that 'northwest' is at min i, max j, and 'southeast' is
             at max i, min j.""")
-    parser.add_argument('--lon1', type=float, help="""
+    parser.add_argument('--lon1', type=float, required=True, help="""
         longitude of northwest corner point""")
-    parser.add_argument('--lat1', type=float, help="""
+    parser.add_argument('--lat1', type=float, required=True, help="""
         latitude of northwest corner point""")
-    parser.add_argument('--lon2', type=float, help="""
+    parser.add_argument('--lon2', type=float, required=True, help="""
         longitude of southeast corner point""")
-    parser.add_argument('--lat2', type=float, help="""
+    parser.add_argument('--lat2', type=float, required=True, help="""
         latitude of southeast corner point""")
-    parser.add_argument('--lon_subscale', type=int, help="""
+    parser.add_argument('--lon_subscale', type=int, required=True, help="""
         number of longitudinal subdivisions in the resulting grid (number of
         x-direction tracer cells)""")
-    parser.add_argument('--lat_subscale', type=int, help="""
+    parser.add_argument('--lat_subscale', type=int, required=True, help="""
         number of latitudinal subdivisions in the resulting grid (number of
         y-direction tracer cells)""")
-    parser.add_argument('--outfile', help="""
+    parser.add_argument('--outfile', required=True, help="""
         file to which grid matrices will be written (mitgridfile format)""")
     parser.add_argument('-v','--verbose',action='store_true',help="""
         verbose output""")
-- 
2.43.0


From e543442a6a8475c876de2f599b4a924e772ab151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 26/28] fix: squad_uarea silenced all warnings of the process

---
 simplegrid/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simplegrid/util.py b/simplegrid/util.py
index 4b489fd..8dbd32f 100644
--- a/simplegrid/util.py
+++ b/simplegrid/util.py
@@ -91,6 +91,8 @@ def _stri_uarea( a, b, c):
         1 + np.dot(a,b) + np.dot(b,c) + np.dot(c,a))
 
 
+# only because some geometries are poorly conditioned:
+@np.errstate(divide='ignore',invalid='ignore')
 def squad_uarea( cart):
     """Compute quadrilateral surface areas for cartesian array of corner points
     on the unit sphere.
@@ -113,10 +115,6 @@ def squad_uarea( cart):
 
     """
 
-    # only because some geometries are poorly conditioned:
-    import warnings
-    warnings.filterwarnings("ignore")
-
     area = np.zeros((np.size(cart,0)-1,np.size(cart,1)-1))
 
     for x_idx in np.arange(np.size(cart,0)-1):
-- 
2.43.0


From 4d9a306f039ad5d1a2b3645c2b7f198ef560ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 27/28] fix: parsemeta took unquoted or unclosed text in {} for
 strings

---
 simplegrid/mds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 0c857de..472e0f3 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -132,7 +132,9 @@ def parsemeta(metafile):
             val = [ parse1(s) for s in re.split(r' *[, ] *',line) ]
         else:
             # {} can only contain single quote-delimited strings separated by space
-            val = [ s.rstrip() for s in re.split(r"'  *'", re.sub(r"^'|'$", '', line)) ]
+            if not re.match(r"'.*'$", line):
+                raise ParseError(metafile,line,'Strings in {} must be quoted.')
+            val = [ s.rstrip() for s in re.split(r"'\s+'", line[1:-1]) ]
 
         d[key] = val
 
-- 
2.43.0


From 5c6451f6acf021da43b7095cfdacf5771fc60e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 28/28] fix: parsemeta refused or misread values set apart by
 tabs

---
 simplegrid/mds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simplegrid/mds.py b/simplegrid/mds.py
index 472e0f3..c011666 100644
--- a/simplegrid/mds.py
+++ b/simplegrid/mds.py
@@ -91,7 +91,7 @@ def parsemeta(metafile):
         if re.match(r'\s*$', line):
             continue
 
-        m = re.match(r' *(\w*) *= *(.*?) *$', line)
+        m = re.match(r'\s*(\w*)\s*=\s*(.*?)\s*$', line)
         if m:
             key,line = m.groups()
         else:
@@ -124,12 +124,12 @@ def parsemeta(metafile):
             raise ParseError(metafile,line,'Unmatched ' + opening + ' or ' + closing + '.')
 
         # remove delimiters
-        line = line[1:-2].strip(" ,")
+        line = line[1:-2].strip(" ,\t")
         _currentline = line
 
         if opening == '[':
             # [] can contain any type of values, separated by commas
-            val = [ parse1(s) for s in re.split(r' *[, ] *',line) ]
+            val = [ parse1(s) for s in re.split(r'\s*[,\s]\s*',line) ]
         else:
             # {} can only contain single quote-delimited strings separated by space
             if not re.match(r"'.*'$", line):
-- 
2.43.0

