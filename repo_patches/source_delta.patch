From 6716a9a64f2e60cfa3279440d62daf88d19f74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 01/20] fix: close the HDF5 attributes so that output files are
 complete on disk when they are reported as written

---
 src/fel1d.cpp         |  4 ++++
 src/logger.cpp        | 10 ++++++++++
 src/screen.cpp        | 24 ++++++++++++++++++++++++
 src/snapshot.cpp      |  8 ++++++++
 src/source_screen.cpp | 20 ++++++++++++++++++++
 5 files changed, 66 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..ca733a4 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -413,6 +413,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_INT, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
@@ -424,6 +426,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_DOUBLE, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
diff --git a/src/logger.cpp b/src/logger.cpp
index fd43482..71e6e89 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -299,6 +299,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -308,6 +310,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -419,6 +423,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -428,6 +434,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -437,6 +445,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOD)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOD);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOD)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOD)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOD)"));
     
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..0124dc7 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -350,6 +350,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx) - old"));
     // attach scalar attribute Nx
@@ -359,6 +361,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny) - old"));
     // Close and release resources.
@@ -420,6 +424,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -429,6 +435,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -438,6 +446,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -447,6 +457,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -456,6 +468,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -465,6 +479,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -474,6 +490,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -523,6 +541,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -531,6 +551,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -539,6 +561,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // Close and release resources.
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..26bf57f 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -275,6 +275,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr1<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr1)"));
     status = H5Awrite(attr1, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr1)"));
+    status = H5Aclose (attr1);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr1)"));
     status = H5Sclose (atts1);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts1)"));
     hid_t atts2  = H5Screate(H5S_SCALAR);
@@ -283,6 +285,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr2<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr2)"));
     status = H5Awrite(attr2, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr2)"));
+    status = H5Aclose (attr2);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr2)"));
     status = H5Sclose (atts2);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts2)"));
     // Close and release resources.
@@ -329,6 +333,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t_obs);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(t0)"));
     // Close and release resources.
@@ -376,6 +382,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
         if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(N_particles)"));
         status = H5Awrite(attr, H5T_NATIVE_INT, &particlesStored);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(N_particles)"));
+        status = H5Aclose (attr);
+        if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(N_particles)"));
         status = H5Sclose (atts);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(N_particles)"));
         // Close and release resources.
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..1b9e172 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -346,6 +346,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -355,6 +357,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -364,6 +368,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -374,6 +380,8 @@ void SourceScreen::WriteField(
     double t0_src = 0.0;
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -383,6 +391,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -392,6 +402,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -401,6 +413,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -448,6 +462,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -456,6 +472,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -464,6 +482,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // Close and release resources.
-- 
2.43.0


From c30e6fa056dae752bfdfbe8b30bd1d22ba882851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 02/20] fix: write the source screen debug files from one node
 only

---
 src/source_screen.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 1b9e172..9c8a7c6 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -220,8 +220,12 @@ SourceScreen::SourceScreen(
     // when we are done we write the field to files
     // for debugging purpose only
     //! @todo remove this
-    WriteField("SourceScreenTraces_DEBUG.h5", Traces);
-    WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    // only one node may write these files - all nodes hold the same data
+    if (teufel::rank==0)
+    {
+        WriteField("SourceScreenTraces_DEBUG.h5", Traces);
+        WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    }
   
 }
 
-- 
2.43.0


From 335854bcb27fb3dcd26e2d54555896bd8a1bd836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 03/20] fix: count the lattice fields only once when summing up
 observers over all nodes

---
 src/teufel_hybrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..fc5c267 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -710,7 +710,9 @@ int main(int argc, char *argv[])
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
             obs->setSource(lattice);
-            obs->integrate();
+            // every node holds the complete lattice, so only one of them
+            // may contribute to the sum over all nodes
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From 87def2fa5383bec09744efddc713a662174abd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 04/20] fix: memory statistics of 2 TB and more do not stop the
 run

---
 src/teufel_hybrid.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index fc5c267..7c38b48 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -102,7 +102,7 @@ int main(int argc, char *argv[])
 
     char processor_name[MPI_MAX_PROCESSOR_NAME];
     int namelen;
-    int mem_size = -1;
+    long mem_size = -1;
     int PID = getpid();
     MPI_Get_processor_name(processor_name, &namelen);
     std::string line;
@@ -119,7 +119,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="MemTotal") {
-                mem_size = std::stoi(rest);
+                mem_size = strtol(rest.c_str(), NULL, 10);
             }
         }
         myfile.close();
@@ -143,7 +143,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = strtol(rest.c_str(), NULL, 10);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -285,7 +285,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = strtol(rest.c_str(), NULL, 10);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -357,7 +357,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = strtol(rest.c_str(), NULL, 10);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -447,7 +447,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = strtol(rest.c_str(), NULL, 10);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -601,7 +601,7 @@ int main(int argc, char *argv[])
                     std::string name = line.substr(0, pos);
                     std::string rest = line.erase(0,pos+1);
                     if (name=="VmSize") {
-                        mem_size = std::stoi(rest);
+                        mem_size = strtol(rest.c_str(), NULL, 10);
                     }
                 }
                 cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -631,7 +631,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = strtol(rest.c_str(), NULL, 10);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
-- 
2.43.0


From 3ccd8ab65b8c67c641956f5436cb3a6a53e9c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 05/20] fix: FEL1D interactions without <log> used an
 uninitialised output step

---
 src/fel1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ca733a4..7c8b96a 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -110,6 +110,7 @@ FEL_1D::FEL_1D(
         createOutput = true;
     } else {
         createOutput = false;
+        step_Output = 1;
     }
     // read the optical mode definition
     pugi::xml_node mode = node.child("mode");
-- 
2.43.0


From af28ff782a86223989af8ff1645fc1aa91204b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 06/20] fix: neighbourhoods of more than 24 cells overran their
 buffers

---
 src/propagate.cpp  | 7 ++++---
 src/reflection.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index ab8b79d..cc90c49 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -40,6 +40,7 @@
 #include <stdlib.h>
 #include <iostream>
 #include <iomanip>
+#include <vector>
 #include <math.h>
 #include <time.h>
 #include <omp.h>
@@ -152,8 +153,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -187,7 +188,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 18fa839..ff78db5 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -41,6 +41,7 @@
 #include <stdlib.h>
 #include <iostream>
 #include <iomanip>
+#include <vector>
 #include <math.h>
 #include <time.h>
 #include <omp.h>
@@ -234,8 +235,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -269,7 +270,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
-- 
2.43.0


From 5f46575b59ebda28cc6676b137c65918739abc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 07/20] fix: an error writing one log file does not stop the
 run

---
 src/teufel_hybrid.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index 7c38b48..6d22e0c 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -653,11 +653,18 @@ int main(int argc, char *argv[])
     // write the logged data
     if (teufel::rank == 0)
     {
+        // an error with one file must not prevent the others from being written
         for (int i=0; i<(int)listLoggers.size(); i++)
-            listLoggers.at(i)->WriteData();
+        {
+            try { listLoggers.at(i)->WriteData(); }
+            catch (exception const & e) { cout << e.what() << endl;}
+        }
 
         for (InteractionField* f : interactions)
-            f->write_output();
+        {
+            try { f->write_output(); }
+            catch (exception const & e) { cout << e.what() << endl;}
+        }
     }
 
     // ===============================================================
-- 
2.43.0


From 6d04129bb28b9bdc4039720524a77b22b879b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 08/20] fix: SDDS bunches claiming more particles than the file
 holds were read from beyond the end of the columns

---
 src/bunch.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..67e871f 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -298,6 +298,14 @@ Bunch::Bunch(const char *filename, Vector dir)
         return;
     };
 
+    // all columns have the same number of rows
+    if ((int64_t)SDDS_CountRowsOfInterest(&SDDS_dataset) < file_NOP)
+    {
+        std::cout << "SDDS file has less rows than the given number of particles";
+        std::cout << " : creating empty bunch." << std::endl;
+        return;
+    };
+
     NOP = file_NOP;
     // t is the arrival time at a given z-plane
     // compute the mean arrival time of the bunch
-- 
2.43.0


From f350ddbcf51cf7279f275c18149e098b6a887d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 09/20] fix: stop if a bunch could not be read on some of the
 nodes

---
 src/teufel_hybrid.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index 6d22e0c..5a87f4e 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -301,6 +301,16 @@ int main(int argc, char *argv[])
     // broadcast the masterBeam to all nodes
     // ===============================================================
 
+    // reading particles from a file may have failed on some of the nodes
+    // we cannot continue unless all nodes have the same beam as the master node
+    for (int i=0; i<masterBeam->getNOB(); i++)
+    {
+        int nop = masterBeam->getBunch(i)->getNOP();
+        MPI_Bcast(&nop, 1, MPI_INT, 0, MPI_COMM_WORLD);
+        if (nop != masterBeam->getBunch(i)->getNOP())
+            throw(IOexception("TEUFEL - the nodes have read different beams - aborting."));
+    }
+
     int MASTER_NOP = masterBeam->getNOP();
     int TRACKING_NOP = (MASTER_NOP + NumberOfNodes -1) / NumberOfNodes;
     if (teufel::rank==0) std::cout << "tracking " << TRACKING_NOP << " particles per node." << std::endl;
-- 
2.43.0


From ea3f4b96a1cbf29968e2b89ad3f4a111aab16387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 10/20] fix: charge in SDDS watch files was multiplied by the
 elementary charge twice

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..a65306f 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From 632cf976897ccbf16716d300f812f250d965037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 11/20] fix: SDDS files that could not be written were reported
 as written

---
 src/beam.cpp           | 6 ++++++
 src/bunch.cpp          | 6 ++++++
 src/logger.cpp         | 6 ++++++
 src/point_observer.cpp | 3 +++
 4 files changed, 21 insertions(+)

diff --git a/src/beam.cpp b/src/beam.cpp
index a65306f..cc807d4 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -419,6 +419,12 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         std::cout << "Bunch::WriteWatchPointSDDS - error writing page" << std::endl;
         return 8;
     }
+    // SDDS_Terminate() does not report if buffered data could not be written
+    if (ferror(data.layout.fp) || fflush(data.layout.fp) != 0)
+    {
+        std::cout << "Bunch::WriteWatchPointSDDS - error writing data file" << std::endl;
+        return 8;
+    }
     // finalize the file
     if (SDDS_Terminate(&data) !=1 )
     {
diff --git a/src/bunch.cpp b/src/bunch.cpp
index 67e871f..00d7aab 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -723,6 +723,12 @@ int Bunch::WriteWatchPointSDDS(const char *filename)
         std::cout << "Bunch::WriteWatchPointSDDS - error writing page" << std::endl;
         return 8;
     }
+    // SDDS_Terminate() does not report if buffered data could not be written
+    if (ferror(data.layout.fp) || fflush(data.layout.fp) != 0)
+    {
+        std::cout << "Bunch::WriteWatchPointSDDS - error writing data file" << std::endl;
+        return 8;
+    }
     // finalize the file
     if (SDDS_Terminate(&data) !=1 )
     {
diff --git a/src/logger.cpp b/src/logger.cpp
index 71e6e89..6540dfd 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -197,6 +197,12 @@ int ParameterLogger<objectT>::WriteData()
 	    cout << "WriteSDDS - error writing page\n";
 	    return 8;
     }
+    // SDDS_Terminate() does not report if buffered data could not be written
+    if (ferror(data.layout.fp) || fflush(data.layout.fp) != 0)
+    {
+	    cout << "WriteSDDS - error writing data file\n";
+	    return 8;
+    }
     // finalize the file
     if (SDDS_Terminate(&data) !=1 )
     {
diff --git a/src/point_observer.cpp b/src/point_observer.cpp
index 43deb37..228019b 100644
--- a/src/point_observer.cpp
+++ b/src/point_observer.cpp
@@ -172,6 +172,9 @@ void PointObserver<SourceT>::WriteTimeDomainFieldSDDS()
     }
     if( SDDS_WritePage(&data) != 1)
     	throw(IOexception("PointObserver::WriteTimeDomainFieldSDDS - error in WritePage()"));
+    // SDDS_Terminate() does not report if buffered data could not be written
+    if (ferror(data.layout.fp) || fflush(data.layout.fp) != 0)
+    	throw(IOexception("PointObserver::WriteTimeDomainFieldSDDS - error writing the file"));
     // finalize the file
     if (SDDS_Terminate(&data) !=1 )
     	throw(IOexception("PointObserver::WriteTimeDomainFieldSDDS - error in Terminate()"));
-- 
2.43.0


From 98c8c4d080c37d9741e215d5437f65df1a55e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 12/20] fix: messages of exceptions built from temporary
 strings were lost

---
 src/global.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/global.h b/src/global.h
index a3f5956..6c61854 100644
--- a/src/global.h
+++ b/src/global.h
@@ -33,6 +33,7 @@
 #include <stdlib.h>
 #include <iostream>
 #include <exception>
+#include <string>
 
 #define ElementaryCharge 1.6021766208e-19       // [As]
 #define mecsquared 0.5109989461e6               // electron mass [eV]
@@ -79,8 +80,9 @@ class IOexception: public std::exception
 {
 public:
     IOexception(const char* message) {m=message;}
-    virtual const char* what() const throw() {return m;};
-    const char* m;
+    virtual const char* what() const throw() {return m.c_str();};
+    // keep a copy, the message may be a temporary string
+    std::string m;
 };
 
 /*! 
@@ -91,8 +93,9 @@ class RANGEexception: public std::exception
 {
 public:
     RANGEexception(const char* message) {m=message;}
-    virtual const char* what() const throw() {return m;};
-    const char* m;
+    virtual const char* what() const throw() {return m.c_str();};
+    // keep a copy, the message may be a temporary string
+    std::string m;
 };
 
 /*! a data struct to hold the definition of a watch point
-- 
2.43.0


From 82f08c65df33744464cfdfa4ab37d09cdc266e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 13/20] fix: SDDS bunches from files with a path of 100 or more
 characters were dropped

---
 src/bunch.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 00d7aab..da05759 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -192,11 +192,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::string fn(filename);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, &fn[0] ) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
-- 
2.43.0


From f3adf4ef1e0a99c94a1c5aa98dfaea8ff9b96053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 14/20] fix: do not take a mesh dataset that cannot be found
 due to an error for a missing one

---
 src/mesh.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..8bc5eaa 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -117,7 +117,9 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     
     // read the trace timing dataset
     // it is not an error if there are no data available
-    if (H5Lexists(file, "ObservationTime", H5P_DEFAULT)<=0)
+    htri_t exists = H5Lexists(file, "ObservationTime", H5P_DEFAULT);
+    if (exists<0) throw(IOexception("MeshedScreen - error looking for dataset ObservationTime"));
+    if (exists==0)
     {
         // no data available
         if (DEBUGLEVEL>=1) cout << "dataset ObservationTime not existing" << std::endl;
@@ -178,7 +180,9 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 
     // read the field dataset
     // it is not an error if there are no data available
-    if (H5Lexists(file, "ElMagField", H5P_DEFAULT)<=0)
+    exists = H5Lexists(file, "ElMagField", H5P_DEFAULT);
+    if (exists<0) throw(IOexception("MeshedScreen - error looking for dataset ElMagField"));
+    if (exists==0)
     {
         // no data available
         if (DEBUGLEVEL>=1) cout << "dataset ElMagField not existing" << std::endl;
-- 
2.43.0


From 3285a02f81f5bdd4d083729d8744ef9459ca8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 15/20] fix: check the size of the mesh datasets before reading
 them

---
 src/mesh.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 8bc5eaa..e2035c8 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -27,6 +27,16 @@
 #include <omp.h>
 #include "hdf5.h"
 
+// check that a dataset holds exactly the given number of values before it is read into a buffer of that size
+static bool holds(hid_t dataset, hssize_t count)
+{
+    hid_t dspace = H5Dget_space(dataset);
+    if (dspace<0) return false;
+    hssize_t n = H5Sget_simple_extent_npoints(dspace);
+    H5Sclose(dspace);
+    return (n==count);
+}
+
 template <typename SourceT>
 MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 {
@@ -47,6 +57,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
+    if (!holds(dataset,3*(hssize_t)Ncp)) throw(IOexception("MeshedScreen - dataset MeshCornerPoints has the wrong size"));
     Vector *pos = new Vector[Ncp];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -73,6 +84,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
     // create and fill a buffer
+    if (!holds(dataset,3*(hssize_t)Np)) throw(IOexception("MeshedScreen - dataset ObservationPosition has the wrong size"));
     pos = new Vector[Np];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -92,6 +104,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset MeshTriangles"));
+    if (!holds(dataset,3*(hssize_t)Np)) throw(IOexception("MeshedScreen - dataset MeshTriangles has the wrong size"));
     int* buf = new int[3*Np];
     if (buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -151,6 +164,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
+        if (!holds(dataset,(hssize_t)Np)) throw(IOexception("MeshedScreen - dataset ObservationTime has the wrong size"));
         double* t0_buf = new double[Np];
         if (t0_buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
@@ -191,6 +205,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
+        if (!holds(dataset,6*(hssize_t)Np*Nt)) throw(IOexception("MeshedScreen - dataset ElMagField has the wrong size"));
         ElMagField* field = new ElMagField[Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
-- 
2.43.0


From 6b59076a67b1fa0ee565cdfc6c98e6b8da46a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 16/20] fix: do not take an unreadable time offset of a source
 screen for zero

---
 src/source_screen.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 9c8a7c6..2860463 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -70,25 +70,31 @@ SourceScreen::SourceScreen(
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
-    attr = H5Aopen_name(dataset, "dtx");
-    if (attr<0)
+    htri_t exists = H5Aexists(dataset, "dtx");
+    if (exists<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
+    if (exists==0)
         {
             dtx_src = 0.0;
         }
     else
         {
+            attr = H5Aopen_name(dataset, "dtx");
+            if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
             status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dtx_src);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
             status = H5Aclose(attr);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
         }
-    attr = H5Aopen_name(dataset, "dty");
-    if (attr<0)
+    exists = H5Aexists(dataset, "dty");
+    if (exists<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
+    if (exists==0)
         {
             dty_src = 0.0;
         }
     else
         {
+            attr = H5Aopen_name(dataset, "dty");
+            if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
             status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dty_src);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
             status = H5Aclose(attr);
-- 
2.43.0


From cead48ab26e71e19bd265115bc06c73cc5520a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 17/20] fix: an interrupted output of a mesh destroyed the mesh
 file it was read from

---
 src/mesh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index e2035c8..f7a8183 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -23,6 +23,7 @@
 #include "mesh.h"
 
 #include <iostream>
+#include <stdio.h>
 #include <math.h>
 #include <omp.h>
 #include "hdf5.h"
@@ -453,7 +454,10 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     
     cout << "writing HDF5 file " << filename << endl;
     // Create a new file using the default properties.
-    hid_t file = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+    // An existing file of that name may be the one the mesh was read from.
+    // It is only replaced after all data have been written completely.
+    std::string tmpname = filename + ".tmp";
+    hid_t file = H5Fcreate (tmpname.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     // hid_t file = H5Fopen (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
     if (file<0) throw(IOexception("MeshedScreen - error crreating the file."));
 
@@ -748,6 +752,8 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     // we are done with the file
     status = H5Fclose (file);
     if (status<0) throw(IOexception("MeshedScreen - error closing file"));
+    if (rename(tmpname.c_str(), filename.c_str()) != 0)
+        throw(IOexception("MeshedScreen - error replacing the file"));
 
     // no errors have occured if we made it 'til here
     cout << "writing HDF5 done." << endl;
-- 
2.43.0


From 9144d9ded32cf5b28da78c9cdf79956748125370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 18/20] fix: close the SDDS file after the particles have been
 read

---
 src/bunch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index da05759..5f79b63 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -302,8 +302,11 @@ Bunch::Bunch(const char *filename, Vector dir)
     {
         std::cout << "SDDS file has less rows than the given number of particles";
         std::cout << " : creating empty bunch." << std::endl;
+        SDDS_Terminate(&SDDS_dataset);
         return;
     };
+    // all data has been copied, the file must not stay open
+    SDDS_Terminate(&SDDS_dataset);
 
     NOP = file_NOP;
     // t is the arrival time at a given z-plane
-- 
2.43.0


From d6112a107e1194c35400de5fb9b8fa5469277e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 19/20] fix: propagate needs three arguments, print the usage
 if the output file is missing

---
 src/propagate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index cc90c49..0a0f386 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -63,7 +63,7 @@ int main(int argc, char* argv[])
     std::cout << std::endl;
     std::cout << "Propagate Radiation from Screen to Screen" << std::endl << std::endl;
     
-    if (argc<3)
+    if (argc<4)
     {
         std::cout << "Usage: propagate sourcefile targetfile outfile" << std::endl;
         return 1;
-- 
2.43.0


From c20b9878682fed47d823744699a7a410b78bb123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 20/20] fix: evaluate integers in the input like all other
 numbers

---
 src/fel1d.cpp     |  2 +-
 src/parser.cpp    | 55 ++++++++++++++++++++++++-----------------------
 src/undulator.cpp |  4 ++--
 3 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 7c8b96a..c75fcfa 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -106,7 +106,7 @@ FEL_1D::FEL_1D(
         FileName = fn.as_string();
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
-        if (st) step_Output = st.as_int();
+        if (st) step_Output = parser->parseInt(st);
         createOutput = true;
     } else {
         createOutput = false;
diff --git a/src/parser.cpp b/src/parser.cpp
index 5b87dfd..f5f31df 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -129,7 +129,6 @@ double InputParser::parseDouble(const pugi::xml_attribute attr)
     return retval;
 }
 
-//! @todo use parseInt for all integer inputs
 double InputParser::parseInt(const pugi::xml_attribute attr)
 {
     int retval = 0;
@@ -355,7 +354,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <particle> filename for log not found."));
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(single, fn.as_string(), step);
                     logs->push_back(logger);
                 }
@@ -369,7 +368,9 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
-                int NoP = entry.attribute("n").as_int(1);
+                pugi::xml_attribute num = entry.attribute("n");
+                int NoP = 1;
+                if (num) NoP = parseInt(num);
                 parseCalcChildren(entry);
                 double t0 = 0.0;
                 double x, y, z;
@@ -486,7 +487,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     //! @todo if step is not given it becomes 0 and leads to divide-by-zero errors
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -504,10 +505,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for trajectories not found."));
                     int step = 1;
                     pugi::xml_attribute st = trajnode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     int particles = 1000000;
                     pugi::xml_attribute np = trajnode.attribute("particles");
-                    if (np) particles = np.as_int();
+                    if (np) particles = parseInt(np);
                     TrajectoryLogger<Bunch>* traj_logger = new TrajectoryLogger<Bunch>(bunch, fn.as_string(), step, particles);
                     logs->push_back(traj_logger);
                 };
@@ -580,7 +581,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for log not found."));
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -603,10 +604,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 probe->filename = filename.as_string();
                 probe->step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
-                if (st) probe->step = st.as_int();
+                if (st) probe->step = parseInt(st);
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
-                if (nm) probe->number = nm.as_int();
+                if (nm) probe->number = parseInt(nm);
             }
             else
                 throw(IOexception("InputParser::parseBeam - unknown type of beam entry."));
@@ -750,8 +751,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         snapObs = new SnapshotObserver<Beam>(
                             fn.as_string(),
                             pos, h, v,
-                            nh.as_int(),
-                            nv.as_int(),
+                            parseInt(nh),
+                            parseInt(nv),
                             t0 );
                         snapObs->setSourceType(BeamObservation);
                     }
@@ -760,8 +761,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         snapObs = new SnapshotObserver<Lattice>(
                             fn.as_string(),
                             pos, h, v,
-                            nh.as_int(),
-                            nv.as_int(),
+                            parseInt(nh),
+                            parseInt(nv),
                             t0 );
                         snapObs->setSourceType(LatticeObservation);
                     }
@@ -772,8 +773,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     snapObs = new SnapshotObserver<Beam>(
                         fn.as_string(),
                         pos, h, v,
-                        nh.as_int(),
-                        nv.as_int(),
+                        parseInt(nh),
+                        parseInt(nv),
                         t0 );
                     snapObs->setSourceType(BeamObservation);
                 }
@@ -841,9 +842,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         screenObs = new ScreenObserver<Beam>(
                             fn.as_string(),
                             pos, dx, dy,
-                            nh.as_int(),
-                            nv.as_int(),
-                            t0, dt, dtx, dty, nt.as_int() );
+                            parseInt(nh),
+                            parseInt(nv),
+                            t0, dt, dtx, dty, parseInt(nt) );
                         screenObs->setSourceType(BeamObservation);
                     }
                     else if (std::string(src.value()) == "lattice")
@@ -851,9 +852,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         screenObs = new ScreenObserver<Lattice>(
                             fn.as_string(),
                             pos, dx, dy,
-                            nh.as_int(),
-                            nv.as_int(),
-                            t0, dt, dtx, dty, nt.as_int() );
+                            parseInt(nh),
+                            parseInt(nv),
+                            t0, dt, dtx, dty, parseInt(nt) );
                         screenObs->setSourceType(LatticeObservation);
                     }
                     else throw(IOexception("InputParser::parseObservers - <screen> illegal source attribute."));
@@ -863,9 +864,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     screenObs = new ScreenObserver<Beam>(
                         fn.as_string(),
                         pos, dx, dy,
-                        nh.as_int(),
-                        nv.as_int(),
-                        t0, dt, dtx, dty, nt.as_int() );
+                        parseInt(nh),
+                        parseInt(nv),
+                        t0, dt, dtx, dty, parseInt(nt) );
                     screenObs->setSourceType(BeamObservation);
                 }
                 listObservers->push_back(screenObs);
@@ -940,7 +941,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         PointObserver<Beam> *pointObs = new PointObserver<Beam>(
                             fn.as_string(),
                             pos,
-                            t0, dt, nt.as_int() );
+                            t0, dt, parseInt(nt) );
                         pointObs->setSourceType(BeamObservation);
                         listObservers->push_back(pointObs);
                     }
@@ -949,7 +950,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         PointObserver<Lattice> *pointObs = new PointObserver<Lattice>(
                             fn.as_string(),
                             pos,
-                            t0, dt, nt.as_int() );
+                            t0, dt, parseInt(nt) );
                         pointObs->setSourceType(LatticeObservation);
                         listObservers->push_back(pointObs);
                     }
@@ -960,7 +961,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     PointObserver<Beam> *pointObs = new PointObserver<Beam>(
                         fn.as_string(),
                         pos,
-                        t0, dt, nt.as_int() );
+                        t0, dt, parseInt(nt) );
                     pointObs->setSourceType(BeamObservation);
                     listObservers->push_back(pointObs);
                 }
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 88851c8..1d7ad30 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -58,7 +58,7 @@ PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser)
     {
         double B = parser->parseDouble(field.attribute("B"));
         double period = parser->parseDouble(field.attribute("period"));
-        int N = field.attribute("N").as_int(0);
+        int N = parser->parseInt(field.attribute("N"));
         Setup(B, period, N);
     }
 }
@@ -163,7 +163,7 @@ TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node no
         pugi::xml_attribute modatt = field.attribute("modulation");
         if (modatt) mod=parser->parseDouble(modatt);
         double period = parser->parseDouble(field.attribute("period"));
-        int N = field.attribute("N").as_int(0);
+        int N = parser->parseInt(field.attribute("N"));
         Setup(B, kx, mod, period, N);
     }
 }
-- 
2.43.0

