From 9a9a7a150c9de9576889e26675bcaa3591402824 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:57:59 +0000
Subject: [PATCH 01/63] fix: make the Embree 4 ray stream loops compile
 (iterate the pushed rays)

---
 include/light/trace_embree.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/light/trace_embree.hh b/include/light/trace_embree.hh
index f866be4..d44d4d9 100644
--- a/include/light/trace_embree.hh
+++ b/include/light/trace_embree.hh
@@ -264,8 +264,8 @@ public:
 
 #ifdef HAVE_EMBREE4
         RTCIntersectArguments embree4_args = ctx2.setup_intersection_arguments();
-        for (int i = 0; i < _numrays; ++i)
-            rtcIntersect1(scene, &_rays[i], &embree4_args);
+        for (auto &ray : _rays)
+            rtcIntersect1(scene, &ray.ray, &embree4_args);
 #else
         rtcIntersect1M(scene, &ctx2, &_rays.data()->ray, _rays.size(), sizeof(_rays[0]));
 #endif
@@ -346,8 +346,8 @@ public:
         ray_source_info ctx2(this, self, shadowmask);
 #ifdef HAVE_EMBREE4
         RTCOccludedArguments embree4_args = ctx2.setup_occluded_arguments();
-        for (int i = 0; i < _numrays; ++i)
-            rtcOccluded1(scene, &_rays[i], &embree4_args);
+        for (auto &ray : _rays)
+            rtcOccluded1(scene, &ray.ray, &embree4_args);
 #else
         rtcOccluded1M(scene, &ctx2, &_rays.data()->ray, _rays.size(), sizeof(_rays[0]));
 #endif
-- 
2.43.0


From d533fea861cf151e53aa78887067db836f5a86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:38 +0000
Subject: [PATCH 02/63] fix: -omitdetail must not drop liquids (which
 -transwater flags as detail)

---
 qbsp/brush.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qbsp/brush.cc b/qbsp/brush.cc
index c65375b..e9929c6 100644
--- a/qbsp/brush.cc
+++ b/qbsp/brush.cc
@@ -768,7 +768,9 @@ static void Brush_LoadEntity(mapentity_t &dst, mapentity_t &src, hull_index_t hu
             continue;
         if ((qbsp_options.omitdetail.value() || qbsp_options.omitdetailwall.value()) && detail_wall)
             continue;
-        if (qbsp_options.omitdetail.value() && contents.is_any_detail(qbsp_options.target_game))
+        // outside of Q2, -transwater flags liquids as detail, but they are not detail brushes
+        if (qbsp_options.omitdetail.value() && contents.is_any_detail(qbsp_options.target_game) &&
+            (qbsp_options.target_game->id == GAME_QUAKE_II || !contents.is_liquid(qbsp_options.target_game)))
             continue;
 
         /* turn solid brushes into detail, if we're in hull0 */
-- 
2.43.0


From 6f1b8027a16df2362f74b610206b265cd650ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 03/63] fix: give a model whose tree is a single leaf a
 headnode of its own

---
 qbsp/writebsp.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qbsp/writebsp.cc b/qbsp/writebsp.cc
index 845be04..79f1227 100644
--- a/qbsp/writebsp.cc
+++ b/qbsp/writebsp.cc
@@ -294,7 +294,16 @@ void ExportDrawNodes(mapentity_t &entity, node_t *headnode, int firstface)
     const size_t mapleafsAtStart = map.bsp.dleafs.size();
 
     if (headnode->is_leaf()) {
-        ExportLeaf(headnode);
+        // the whole model is one leaf; the model's headnode must still be a node of its own,
+        // so write one with that leaf on both sides (distinct leaf numbers, see ExportDrawNodes)
+        bsp2_dnode_t &dnode = map.bsp.dnodes.emplace_back();
+        dnode.mins = qv::floor(headnode->bounds.mins());
+        dnode.maxs = qv::ceil(headnode->bounds.maxs());
+        dnode.planenum = ExportMapPlane(0);
+        for (int32_t &child : dnode.children) {
+            child = -(static_cast<int32_t>(map.bsp.dleafs.size()) + 1);
+            ExportLeaf(headnode);
+        }
     } else {
         ExportDrawNodes(headnode);
     }
-- 
2.43.0


From b5a5e5311b3bb92d74a952edd701366548dc8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 04/63] fix: vis target checks must not replace a portal's
 mightsee while other threads read it

---
 vis/flow.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vis/flow.cc b/vis/flow.cc
index ab5d839..c6cfc30 100644
--- a/vis/flow.cc
+++ b/vis/flow.cc
@@ -533,7 +533,9 @@ visstats_t PortalFlow(visportal_t *p)
     data.pstack_head.portal = p;
     data.pstack_head.source = p->winding.get();
     data.pstack_head.portalplane = p->plane;
-    data.pstack_head.mightsee = &p->mightsee;
+    // work on a copy: target checks replace the head's buffer while other threads may be reading p->mightsee
+    leafbits_t mightsee = p->mightsee;
+    data.pstack_head.mightsee = &mightsee;
     data.numsteps = 0;
     data.numtargetchecks = 0;
 
-- 
2.43.0


From cf685aa0e8e010b2b598e053be60479727df7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 05/63] fix: CalcPHS dropped the clusters of a row's last,
 incomplete long

---
 vis/soundpvs.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..121de88 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -166,7 +166,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -200,10 +199,8 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From e637ef8a5c2b48ba4ad73da9f590d968e277e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 06/63] fix: vis must start afresh from a state file that ends
 early

---
 vis/state.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..83d6b2c 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -231,6 +231,11 @@ bool LoadVisState()
 
     in >= state;
 
+    if (!in) {
+        logging::print("State file is incomplete, will be overwritten\n");
+        return false;
+    }
+
     /* Sanity check the headers */
     if (state.version != VIS_STATE_VERSION) {
         FError("state file version does not match");
@@ -239,12 +244,20 @@ bool LoadVisState()
         FError("state file {} does not match portal file {}", statefile, portalfile);
     }
 
-    /* Move back the start time to simulate already elapsed time */
-    starttime -= duration(state.time_elapsed);
-
     numbytes = (portalleafs + 7) >> 3;
     std::vector<uint8_t> compressed(numbytes);
 
+    /* The file may end early if the run that wrote it was interrupted; forget what was read of it */
+    auto discard = []() {
+        logging::print("State file is incomplete, will be overwritten\n");
+        for (auto &p : portals) {
+            p.status = pstat_none;
+            p.nummightsee = 0;
+            p.numcansee = 0;
+        }
+        return false;
+    };
+
     /* Update the portal information */
     for (auto &p : portals) {
         in >= pstate;
@@ -253,6 +266,10 @@ bool LoadVisState()
         p.nummightsee = pstate.nummightsee;
         p.numcansee = pstate.numcansee;
 
+        if (!in || pstate.might > numbytes || pstate.vis > numbytes) {
+            return discard();
+        }
+
         in.read((char *)compressed.data(), pstate.might);
         p.mightsee.resize(portalleafs);
 
@@ -279,5 +296,12 @@ bool LoadVisState()
         }
     }
 
+    if (!in) {
+        return discard();
+    }
+
+    /* Move back the start time to simulate already elapsed time */
+    starttime -= duration(state.time_elapsed);
+
     return true;
 }
-- 
2.43.0


From ffcfcda01b6413520c2fdd2d369906449870e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 07/63] fix: vis must not resume from a state made with another
 -visdist

---
 vis/state.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vis/state.cc b/vis/state.cc
index 83d6b2c..359a287 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -144,7 +144,7 @@ void SaveVisState()
     state.version = VIS_STATE_VERSION;
     state.numportals = numportals;
     state.numleafs = portalleafs;
-    state.testlevel = vis_options.visdist.value();
+    state.testlevel = static_cast<uint32_t>(vis_options.visdist.value());
     state.time_elapsed = (uint32_t)(statetime - starttime).count();
 
     out <= state;
@@ -243,6 +243,10 @@ bool LoadVisState()
     if (state.numportals != numportals || state.numleafs != portalleafs) {
         FError("state file {} does not match portal file {}", statefile, portalfile);
     }
+    if (state.testlevel != static_cast<uint32_t>(vis_options.visdist.value())) {
+        logging::print("State file was made with a different -visdist, will be overwritten\n");
+        return false;
+    }
 
     numbytes = (portalleafs + 7) >> 3;
     std::vector<uint8_t> compressed(numbytes);
-- 
2.43.0


From a07603f198b7b32cfea8d81ed4cd5bfddf819424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:33 +0000
Subject: [PATCH 08/63] fix: LoadPrtFile must refuse out-of-range leafs and
 files that end early

---
 common/prtfile.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 0720231..d0d0c6a 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -51,7 +51,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     if (magic == PORTALFILE) {
         f >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
 
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -66,7 +66,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs_real >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else if (magic == PORTALFILEAM) {
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -74,7 +74,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs >> numportals >> result.portalleafs_real;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else {
         FError("unknown header: {}\n", magic);
@@ -85,27 +85,27 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         int numpoints;
 
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
-        if (f.bad())
+        if (!f)
             FError("reading portal {}", i);
-        if (numpoints > PRT_MAX_WINDING)
+        if (numpoints < 0 || numpoints > PRT_MAX_WINDING)
             FError("portal {} has too many points", i);
-        if ((unsigned)p.leafnums[0] > (unsigned)result.portalleafs ||
-            (unsigned)p.leafnums[1] > (unsigned)result.portalleafs)
+        if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
+            (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
 
         auto &w = p.winding;
         w.resize(numpoints);
 
         for (int j = 0; j < numpoints; j++) {
-            while (!f.bad() && f.get() != '(')
+            while (f && f.get() != '(')
                 ;
 
             f >> w[j][0] >> w[j][1] >> w[j][2];
 
-            while (!f.bad() && f.get() != ')')
+            while (f && f.get() != ')')
                 ;
 
-            if (f.bad())
+            if (!f)
                 FError("reading portal {}", i);
         }
 
@@ -138,7 +138,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             while (1) {
                 int leafnum;
                 f >> leafnum;
-                if (f.bad() || f.eof())
+                if (!f)
                     break;
                 if (leafnum < 0)
                     break;
@@ -146,18 +146,18 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
                     FError("Invalid leaf number in cluster map ({} >= {})", leafnum, result.portalleafs_real);
                 result.dleafinfos[leafnum + 1].cluster = i;
             }
-            if (f.bad() || f.eof())
+            if (!f)
                 break;
         }
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
     } else if (magic == PORTALFILEAM) {
-        result.dleafinfos.resize(result.portalleafs + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1);
 
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
             f >> clusternum;
-            if (f.bad() || f.eof()) {
+            if (!f) {
                 Error("Unexpected end of cluster map\n");
             }
             if (clusternum < 0 || clusternum >= result.portalleafs) {
-- 
2.43.0


From e28d2629b352d7d2d99ecb92eec11eea39667b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:59 +0000
Subject: [PATCH 09/63] vis: event trace for external verification (off unless
 ERICWTOOLS_VERIF_TRACE is defined)

---
 include/common/verif_trace.hh | 65 +++++++++++++++++++++++++++++++++++
 vis/flow.cc                   |  3 ++
 vis/vis.cc                    | 10 ++++++
 3 files changed, 78 insertions(+)
 create mode 100644 include/common/verif_trace.hh

diff --git a/include/common/verif_trace.hh b/include/common/verif_trace.hh
new file mode 100644
index 0000000..2abfb0f
--- /dev/null
+++ b/include/common/verif_trace.hh
@@ -0,0 +1,65 @@
+/* Event trace for external verification; compiled only with ERICWTOOLS_VERIF_TRACE defined. */
+
+#pragma once
+
+#ifdef ERICWTOOLS_VERIF_TRACE
+
+#include <atomic>
+#include <cstdio>
+#include <cstdlib>
+#include <string>
+#include <mutex>
+
+namespace verif
+{
+inline FILE *trace_file()
+{
+    static FILE *f = []() -> FILE * {
+        const char *name = getenv("ERICWTOOLS_VERIF_TRACE");
+        return name ? fopen(name, "a") : nullptr;
+    }();
+    return f;
+}
+
+inline int trace_thread()
+{
+    static std::atomic_int next{0};
+    thread_local int id = next++;
+    return id;
+}
+
+// one line per event, in the order of the calls
+inline void trace(const std::string &line)
+{
+    static std::mutex m;
+    if (FILE *f = trace_file()) {
+        std::lock_guard lock(m);
+        fprintf(f, "%s\n", line.c_str());
+        fflush(f);
+    }
+}
+
+template<typename Bits>
+inline std::string trace_bits(const Bits &bits)
+{
+    std::string s;
+    for (size_t i = 0; i < bits.size(); i++) {
+        if (bits[i]) {
+            s += (s.empty() ? "" : ",") + std::to_string(i);
+        }
+    }
+    return s.empty() ? "-" : s;
+}
+} // namespace verif
+
+#define VERIF_TRACE(...) \
+    do { \
+        if (verif::trace_file()) \
+            verif::trace(fmt::format(__VA_ARGS__)); \
+    } while (0)
+
+#else
+
+#define VERIF_TRACE(...) ((void)0)
+
+#endif
diff --git a/vis/flow.cc b/vis/flow.cc
index c6cfc30..7c1be0e 100644
--- a/vis/flow.cc
+++ b/vis/flow.cc
@@ -2,6 +2,7 @@
 #include <vis/leafbits.hh>
 #include <common/log.hh>
 #include <common/parallel.hh>
+#include <common/verif_trace.hh>
 #include <bit> // for std::popcount
 
 /*
@@ -526,6 +527,8 @@ visstats_t PortalFlow(visportal_t *p)
     if (p->status != pstat_working)
         FError("reflowed");
 
+    VERIF_TRACE("flow {} {}", p - portals.data(), verif::trace_thread());
+
     data.leafvis.resize(portalleafs);
 
     data.base = p;
diff --git a/vis/vis.cc b/vis/vis.cc
index e657558..7b063d3 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -5,6 +5,7 @@
 #include <common/bsputils.hh>
 #include <common/fs.hh>
 #include <common/parallel.hh>
+#include <common/verif_trace.hh>
 
 #include <climits>
 #include <cstdint>
@@ -247,6 +248,7 @@ visportal_t *GetNextPortal()
 
     if (ret) {
         ret->status = pstat_working;
+        VERIF_TRACE("pick {} {}", ret - portals.data(), verif::trace_thread());
     }
 
     portal_mutex.unlock();
@@ -277,6 +279,7 @@ static void UpdateMightsee(visstats_t &stats, const leaf_t &source, const leaf_t
             p->mightsee[leafnum] = false;
             p->nummightsee--;
             stats.c_mightseeupdate++;
+            VERIF_TRACE("clear {} {} {}", p - portals.data(), leafnum, verif::trace_thread());
         }
     }
 }
@@ -296,6 +299,7 @@ static void PortalCompleted(visstats_t &stats, visportal_t *completed)
     portal_mutex.lock();
 
     completed->status = pstat_done;
+    VERIF_TRACE("done {} {} {}", completed - portals.data(), verif::trace_thread(), verif::trace_bits(completed->visbits));
 
     /*
      * For each portal on the leaf, check the leafs we eliminated from
@@ -395,6 +399,7 @@ static void ClusterFlow(int clusternum, leafbits_t &buffer, mbsp_t *bsp)
     /*
      * Collect visible bits from all portals into buffer
      */
+    VERIF_TRACE("assemble {}", clusternum);
     leaf_t *leaf = &leafs[clusternum];
     int numblocks = (portalleafs + leafbits_t::mask) >> leafbits_t::shift;
     for (const visportal_t *p : leaf->portals) {
@@ -507,6 +512,11 @@ visstats_t CalcPortalVis(const mbsp_t *bsp)
 
     portalIndex = startcount;
 
+    for (const auto &p : portals) {
+        VERIF_TRACE("init {} {} {} {} {}", &p - portals.data(), static_cast<int>(p.status), p.nummightsee,
+            verif::trace_bits(p.mightsee), verif::trace_bits(p.visbits));
+    }
+
     std::vector<visstats_t> stats_perportal;
     stats_perportal.resize(numportals * 2);
 
-- 
2.43.0


From f7a7523c7f2c54556ba7b3c6914593eb2bab6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 10/63] fix: LoadPrtFile must refuse negative counts, portals
 of fewer than three points and unmapped leafs

---
 common/prtfile.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index d0d0c6a..dd4bc5e 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -80,6 +80,9 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         FError("unknown header: {}\n", magic);
     }
 
+    if (result.portalleafs < 0 || result.portalleafs_real < 0 || numportals < 0)
+        FError("negative counts in {} header\n", magic);
+
     for (int i = 0; i < numportals; i++) {
         prtfile_portal_t p;
         int numpoints;
@@ -87,8 +90,10 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
         if (!f)
             FError("reading portal {}", i);
-        if (numpoints < 0 || numpoints > PRT_MAX_WINDING)
+        if (numpoints > static_cast<int>(PRT_MAX_WINDING))
             FError("portal {} has too many points", i);
+        if (numpoints < 3)
+            FError("portal {} has too few points", i);
         if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
             (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
@@ -131,7 +136,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     }
 
     if (magic == PORTALFILE2) {
-        result.dleafinfos.resize(result.portalleafs_real + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1, {-1});
 
         int i;
         for (i = 0; i < result.portalleafs; i++) {
@@ -151,6 +156,10 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
+        for (int leafnum = 0; leafnum < result.portalleafs_real; leafnum++) {
+            if (result.dleafinfos[leafnum + 1].cluster == -1)
+                FError("leaf {} is missing from the cluster map\n", leafnum);
+        }
     } else if (magic == PORTALFILEAM) {
         result.dleafinfos.resize(result.portalleafs_real + 1);
 
-- 
2.43.0


From 66c24961de2a1f020bf63c03de9b846d212edafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 11/63] fix: vis must refuse a portal file that does not match
 the leafs of the bsp (e.g. from qbsp -forceprt1)

---
 vis/vis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vis/vis.cc b/vis/vis.cc
index 7b063d3..25f2bb9 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -598,6 +598,13 @@ static void LoadPortals(const fs::path &name, mbsp_t *bsp)
     portalleafs = prtfile.portalleafs;
     portalleafs_real = prtfile.portalleafs_real;
 
+    // e.g. written with qbsp -forceprt1, or for another .bsp (Q2 doesn't store the number of leafs)
+    if (bsp->loadversion->game->id != GAME_QUAKE_II &&
+        (bsp->dmodels.empty() || portalleafs_real != bsp->dmodels[0].visleafs ||
+            portalleafs_real >= bsp->dleafs.size())) {
+        FError("{} does not match the .bsp file\n", name);
+    }
+
     /* Allocate for worst case where RLE might grow the data (unlikely) */
     if (bsp->loadversion->game->id == GAME_QUAKE_II) {
         compressed.reserve(std::max(1, (portalleafs * 2) / 8));
-- 
2.43.0


From b6880f4eabb1d64c67430f8e110defb193b28d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 12/63] fix: parser_t must not read beyond the end of its text

---
 common/parser.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..b247ff2 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -96,17 +96,20 @@ bool parser_t::parse_token(parseflags flags)
     token.clear();
     auto token_p = std::back_inserter(token);
 
+    // the text isn't necessarily null terminated, don't look beyond the end
+    auto at = [this](ptrdiff_t offset) { return offset < end - pos ? pos[offset] : '\0'; };
+
 skipspace:
     /* skip space */
-    while (at_end() || *pos <= 32) {
-        if (at_end() || !*pos) {
+    while (at_end() || at(0) <= 32) {
+        if (at_end() || !at(0)) {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
                 FError("{}: Line is incomplete", location);
             return false;
         }
-        if (*pos == '\n') {
+        if (at(0) == '\n') {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
@@ -117,9 +120,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((at(0) == '/' && at(1) == '/') || at(0) == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (at(0) && at(0) != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -129,7 +132,7 @@ skipspace:
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
         while (*pos++ != '\n') {
-            if (!*pos) {
+            if (!at(0)) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
@@ -143,18 +146,18 @@ skipspace:
 
     /* copy token */
 
-    if (*pos == '"') {
+    if (at(0) == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (at(0) != '"') {
+            if (!at(0))
                 FError("{}: EOF inside quoted token", location);
-            if (*pos == '\\') {
+            if (at(0) == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (at(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +180,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (at(2) == '\r' || at(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, at(1));
                         break;
                 }
             }
@@ -192,7 +195,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (at(0) > 32) {
             *token_p++ = *pos++;
         }
     }
-- 
2.43.0


From b93a3415edd59dd4d8d3e34c014c7e60c1a876a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 13/63] fix: trim an entity key's trailing whitespace from its
 end, not its start

---
 common/entdata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..541b3b2 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.front()))) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.back()))) {
+            keystr.pop_back();
         }
 
         set(keystr, parser.token);
-- 
2.43.0


From e10a6eb62e0882f8ab04adfad992318c9f8daa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 14/63] fix: clamp integer settings beyond 32 bits instead of
 letting them wrap around

---
 include/common/settings.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common/settings.hh b/include/common/settings.hh
index 179e08f..f2b8892 100644
--- a/include/common/settings.hh
+++ b/include/common/settings.hh
@@ -305,7 +305,9 @@ public:
                 if constexpr (std::is_floating_point_v<T>) {
                     f = std::stod(parser.token);
                 } else {
-                    f = static_cast<T>(std::stoull(parser.token));
+                    // a number that T can't hold is out of range like any other, and is clamped
+                    f = static_cast<T>(std::clamp<long long>(
+                        std::stoll(parser.token), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()));
                 }
                 // if no exception was thrown then we parsed a float/int here successfully
                 Q_assert(parser.parse_token());
-- 
2.43.0


From 874e6090676fc7936283c7f8a6bef873131a0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 15/63] fix: a "_no" prefix must invert an invertible setting
 like "no" does

---
 common/settings.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..aa1a1b3 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -178,7 +178,10 @@ setting_invertible_bool::setting_invertible_bool(
 
 bool setting_invertible_bool::parse(const std::string &setting_name, parser_base_t &parser, source source)
 {
-    return parseInternal(parser, source, setting_name.compare(0, 2, "no") == 0 ? false : true);
+    // leading underscores are not part of the name (see setting_container::find_setting)
+    const size_t start = setting_name.find_first_not_of('_');
+    const bool inverted = start != std::string::npos && setting_name.compare(start, 2, "no") == 0;
+    return parseInternal(parser, source, !inverted);
 }
 
 // setting_redirect
-- 
2.43.0


From 7bfebc1c857760ea92b49d7f9418ef5f0ff68a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 16/63] fix: --help must not abort on option names longer than
 its padding

---
 common/settings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index aa1a1b3..a20fced 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -547,7 +547,7 @@ void setting_container::print_help()
         }
 
         for (auto setting : grouped.second) {
-            size_t numPadding = std::max(static_cast<size_t>(0), 28 - (setting->primary_name().size() + 4));
+            int numPadding = std::max(0, 28 - (static_cast<int>(setting->primary_name().size()) + 4));
             fmt::print(
                 "  -{} {:{}}    {}\n", setting->primary_name(), setting->format(), numPadding, setting->description());
 
-- 
2.43.0


From 59b7d5be119ad9e106d498be7c6c85f34453a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 17/63] fix: a directory must not be found in place of a file
 of the same name

---
 common/fs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/fs.cc b/common/fs.cc
index 2f98216..40b7bd8 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -37,7 +37,10 @@ struct directory_archive : archive_like
 
     bool contains(const path &filename) override
     {
-        return exists(!pathname.empty() ? (pathname / filename) : filename);
+        path p = !pathname.empty() ? (pathname / filename) : filename;
+
+        // a directory can't be loaded, and must not hide a file of this name elsewhere
+        return exists(p) && !is_directory(p);
     }
 
     data load(const path &filename) override
-- 
2.43.0


From 96aeca1a71b9345f52dd1d38d8bdd896688cc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 18/63] fix: names that fill their field in a pak or wad were
 read beyond its end

---
 common/fs.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 40b7bd8..38b4249 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -22,6 +22,7 @@
 #include "common/cmdlib.hh"
 #include "common/fs.hh"
 #include "common/log.hh"
+#include <algorithm>
 #include <fstream>
 #include <memory>
 #include <array>
@@ -64,6 +65,13 @@ struct directory_archive : archive_like
     }
 };
 
+// the name of an archive entry; names that fill the whole field have no terminator
+template<size_t n>
+static std::string entry_name(const std::array<char, n> &name)
+{
+    return std::string(name.begin(), std::find(name.begin(), name.end(), '\0'));
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -114,7 +122,7 @@ struct pak_archive : archive_like
 
             pakstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.offset, file.size);
+            files[entry_name(file.name)] = std::make_tuple(file.offset, file.size);
         }
     }
 
@@ -192,7 +200,7 @@ struct wad_archive : archive_like
 
             wadstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.filepos, file.disksize);
+            files[entry_name(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
     }
 
-- 
2.43.0


From ad33ac50cbca48042b3098ca2f32d041316121fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 19/63] fix: damaged paks and wads gave files made up of zeros,
 or hid the good ones

---
 common/fs.cc | 55 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 38b4249..b6412c6 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -72,6 +72,33 @@ static std::string entry_name(const std::array<char, n> &name)
     return std::string(name.begin(), std::find(name.begin(), name.end(), '\0'));
 }
 
+// the bytes of an archive entry, or nothing if they are not all in the archive
+static data load_entry(const path &pathname, std::ifstream &stream, uint64_t offset, uint64_t size)
+{
+    // an earlier failure must not affect this entry
+    stream.clear();
+    stream.seekg(0, std::ios_base::end);
+
+    const std::streamoff end = stream.tellg();
+
+    if (end < 0 || offset + size > static_cast<uint64_t>(end)) {
+        logging::funcprint("WARNING: archive '{}' is truncated\n", pathname);
+        return std::nullopt;
+    }
+
+    stream.seekg(offset);
+
+    std::vector<uint8_t> data(size);
+    stream.read(reinterpret_cast<char *>(data.data()), size);
+
+    if (!stream) {
+        logging::funcprint("WARNING: error reading archive '{}'\n", pathname);
+        return std::nullopt;
+    }
+
+    return data;
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -107,14 +134,12 @@ struct pak_archive : archive_like
 
         pakstream >= header;
 
-        if (header.magic != std::array<char, 4>{'P', 'A', 'C', 'K'}) {
+        if (!pakstream || header.magic != std::array<char, 4>{'P', 'A', 'C', 'K'}) {
             throw std::runtime_error("Bad magic");
         }
 
         size_t totalFiles = header.size / sizeof(pak_file);
 
-        files.reserve(totalFiles);
-
         pakstream.seekg(header.offset);
 
         for (size_t i = 0; i < totalFiles; i++) {
@@ -122,6 +147,10 @@ struct pak_archive : archive_like
 
             pakstream >= file;
 
+            if (!pakstream) {
+                throw std::runtime_error("Truncated directory");
+            }
+
             files[entry_name(file.name)] = std::make_tuple(file.offset, file.size);
         }
     }
@@ -136,11 +165,7 @@ struct pak_archive : archive_like
             return std::nullopt;
         }
 
-        pakstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        pakstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        return load_entry(pathname, pakstream, std::get<0>(it->second), std::get<1>(it->second));
     }
 };
 
@@ -187,12 +212,10 @@ struct wad_archive : archive_like
 
         wadstream >= header;
 
-        if (header.identification != wad2_ident && header.identification != wad3_ident) {
+        if (!wadstream || (header.identification != wad2_ident && header.identification != wad3_ident)) {
             throw std::runtime_error("Bad magic");
         }
 
-        files.reserve(header.numlumps);
-
         wadstream.seekg(header.infotableofs);
 
         for (size_t i = 0; i < header.numlumps; i++) {
@@ -200,6 +223,10 @@ struct wad_archive : archive_like
 
             wadstream >= file;
 
+            if (!wadstream) {
+                throw std::runtime_error("Truncated directory");
+            }
+
             files[entry_name(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
     }
@@ -214,11 +241,7 @@ struct wad_archive : archive_like
             return std::nullopt;
         }
 
-        wadstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        wadstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        return load_entry(pathname, wadstream, std::get<0>(it->second), std::get<1>(it->second));
     }
 };
 
-- 
2.43.0


From 445faab19ed515a72ed5b81dcb78d2b863bf323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 20/63] fix: refuse to write a generic BSP before truncating
 the target file

---
 common/bspfile.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..f505134 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2535,6 +2535,12 @@ void WriteBSPFile(const fs::path &filename, bspdata_t *bspdata)
         bspfile.q2header.version = bspfile.version->version.value();
     }
 
+    // don't touch an existing file if there is nothing we could put in its place
+    if (std::holds_alternative<mbsp_t>(bspdata->bsp))
+        FError("Can't write generic BSP");
+    if (std::holds_alternative<std::monostate>(bspdata->bsp))
+        FError("No BSP to write");
+
     logging::print("Writing {} as {}\n", filename, *bspdata->version);
     bspfile.stream.open(filename, std::ios_base::out | std::ios_base::trunc | std::ios_base::binary);
 
-- 
2.43.0


From 93ca6effdfc233c420c0db399707f3d979c906b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 21/63] fix: round the maxs of Quake II leafs up, not down

---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From 78255ebccfe70d7d825e08b3ce91d0709c91eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 22/63] fix: load textures that are not stored in the order of
 their offsets

---
 common/bspfile_generic.cc | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 879f7e5..b27cac6 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -161,21 +161,15 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
         stream.seekg(lump.fileofs + offset);
 
         // calculate the length of the data used for the individual miptex.
-        int32_t next_offset = -1;
-
-        // scan forward (skipping -1's) to find the next valid offset
-        for (int j = i + 1; j < nummiptex; ++j) {
-            // valid?
-            if (offsets[j] >= 0) {
-                next_offset = offsets[j];
-                break;
+        // it ends where the next one starts (they aren't necessarily stored in order),
+        // or at the end of the overall lump
+        int32_t next_offset = lump.filelen;
+
+        for (int32_t other : offsets) {
+            if (other > offset && other < next_offset) {
+                next_offset = other;
             }
         }
-        if (next_offset == -1) {
-            // the remainder of the texures are missing, so read to the end
-            // of the overall lump
-            next_offset = lump.filelen;
-        }
 
         if (next_offset > offset) {
             tex.stream_read(stream, next_offset - offset);
-- 
2.43.0


From 667c118c125a0d44dbcab265de8154469edec406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 23/63] fix: recognise Hexen II maps without clipnodes

---
 common/bspfile.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f505134..c79a0c5 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2029,7 +2029,8 @@ static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
 
         // clipnode headnodes
         for (int j = 1; j < 8; ++j) {
-            if (model->headnode[j] >= clipnodes_count)
+            // (0 is what's written when there are no clipnodes)
+            if (model->headnode[j] != 0 && model->headnode[j] >= clipnodes_count)
                 return false;
         }
     }
-- 
2.43.0


From 0e72d6c83f675a4c3787f58eb7a0a485eb8ee08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 24/63] fix: keep the pop lump of Quake II maps

---
 common/bspfile.cc                 | 4 ++++
 include/common/bspfile_generic.hh | 1 +
 include/common/bspfile_q2.hh      | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index c79a0c5..38c7ed7 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1849,6 +1849,7 @@ inline void ConvertQ2BSPToGeneric(T &bsp, mbsp_t &mbsp)
     CopyArray(bsp.dmodels, mbsp.dmodels);
     CopyArray(bsp.dbrushes, mbsp.dbrushes);
     CopyArray(bsp.dbrushsides, mbsp.dbrushsides);
+    CopyArray(bsp.dpop, mbsp.dpop);
     CopyArray(bsp.dareas, mbsp.dareas);
     CopyArray(bsp.dareaportals, mbsp.dareaportals);
 }
@@ -1906,6 +1907,7 @@ inline T ConvertGenericToQ2BSP(mbsp_t &mbsp, const bspversion_t *to_version)
     CopyArray(mbsp.dmodels, bsp.dmodels);
     CopyArray(mbsp.dbrushes, bsp.dbrushes);
     CopyArray(mbsp.dbrushsides, bsp.dbrushsides);
+    CopyArray(mbsp.dpop, bsp.dpop);
     CopyArray(mbsp.dareas, bsp.dareas);
     CopyArray(mbsp.dareaportals, bsp.dareaportals);
 
@@ -2178,6 +2180,7 @@ inline void ReadQ2BSP(lump_reader &reader, T &bsp)
     reader.read(Q2_LUMP_MODELS, bsp.dmodels);
     reader.read(Q2_LUMP_BRUSHES, bsp.dbrushes);
     reader.read(Q2_LUMP_BRUSHSIDES, bsp.dbrushsides);
+    reader.read(Q2_LUMP_POP, bsp.dpop);
     reader.read(Q2_LUMP_AREAS, bsp.dareas);
     reader.read(Q2_LUMP_AREAPORTALS, bsp.dareaportals);
 }
@@ -2470,6 +2473,7 @@ public:
         write_lump(Q2_LUMP_LEAFBRUSHES, bsp.dleafbrushes);
         write_lump(Q2_LUMP_BRUSHES, bsp.dbrushes);
         write_lump(Q2_LUMP_BRUSHSIDES, bsp.dbrushsides);
+        write_lump(Q2_LUMP_POP, bsp.dpop);
         write_lump(Q2_LUMP_AREAS, bsp.dareas);
         write_lump(Q2_LUMP_AREAPORTALS, bsp.dareaportals);
 
diff --git a/include/common/bspfile_generic.hh b/include/common/bspfile_generic.hh
index 60cb29e..20e73b3 100644
--- a/include/common/bspfile_generic.hh
+++ b/include/common/bspfile_generic.hh
@@ -399,6 +399,7 @@ struct mbsp_t
     std::vector<dareaportal_t> dareaportals;
     std::vector<dbrush_t> dbrushes;
     std::vector<q2_dbrushside_qbism_t> dbrushsides;
+    std::vector<uint8_t> dpop; // q2 only, unused
 };
 
 extern const bspversion_t bspver_generic;
diff --git a/include/common/bspfile_q2.hh b/include/common/bspfile_q2.hh
index 1bc4320..fb060c1 100644
--- a/include/common/bspfile_q2.hh
+++ b/include/common/bspfile_q2.hh
@@ -370,6 +370,7 @@ struct q2bsp_t : q2bsp_tag_t
     std::vector<dareaportal_t> dareaportals;
     std::vector<dbrush_t> dbrushes;
     std::vector<q2_dbrushside_t> dbrushsides;
+    std::vector<uint8_t> dpop;
 };
 
 struct q2bsp_qbism_t : q2bsp_tag_t
@@ -392,6 +393,7 @@ struct q2bsp_qbism_t : q2bsp_tag_t
     std::vector<dareaportal_t> dareaportals;
     std::vector<dbrush_t> dbrushes;
     std::vector<q2_dbrushside_qbism_t> dbrushsides;
+    std::vector<uint8_t> dpop;
 };
 
 extern const bspversion_t bspver_q2;
-- 
2.43.0


From 0bc58355c6e3526adeb97b3114e57a542834c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 25/63] fix: memory streams read and wrote beyond their end,
 and failed on reading nothing there

---
 common/cmdlib.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..4c35d5c 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -196,15 +196,15 @@ membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        return traits_type::eof();
+    if (pptr() >= epptr()) {
+        return 0;
     }
 
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    memcpy(pptr(), s, num_write);
+    setpptrs(pbase(), pptr() + num_write, epptr());
 
     return num_write;
 }
@@ -216,15 +216,15 @@ membuf::int_type membuf::overflow(int_type ch)
 
 std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
 {
-    if (gptr() == egptr()) {
-        return traits_type::eof();
+    if (gptr() >= egptr()) {
+        return 0;
     }
 
     std::streamsize free_space = egptr() - gptr();
     std::streamsize num_read = std::min(free_space, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    memcpy(s, gptr(), num_read);
+    setg(eback(), gptr() + num_read, egptr());
 
     return num_read;
 }
-- 
2.43.0


From a11149e899c0c158b16e8b4e5c33fc7082f89f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 26/63] fix: opaque Quake II liquids must block sight, and a
 translucent brush next to an areaportal must not

---
 common/bspfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 38c7ed7..ad5e16c 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1184,7 +1184,7 @@ struct gamedef_q2_t : public gamedef_t
         if (!(c0 ^ c1))
             return true;
 
-        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) != 0);
+        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) == 0);
     }
 
     bool contents_seals_map(const contentflags_t &contents) const override
-- 
2.43.0


From 921bfbe3f42500988e790d674aac2fe04b94ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 27/63] fix: final progress call waits for the call in progress

compare_exchange_weak overwrites the expected value when it fails, so the
loop succeeded on its second attempt while another thread still held the
lock, and both were inside at once.
---
 common/log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/log.cc b/common/log.cc
index 2fbc927..2ee9f8a 100644
--- a/common/log.cc
+++ b/common/log.cc
@@ -195,8 +195,10 @@ void percent(uint64_t count, uint64_t max, bool displayElapsed)
     }
 
     if (count == max) {
-        while (!locked.compare_exchange_weak(expected, true))
-            ; // wait until everybody else is done
+        while (!locked.compare_exchange_weak(expected, true)) {
+            // wait until everybody else is done (a failed exchange stores the current value in `expected`)
+            expected = false;
+        }
     } else {
         if (!locked.compare_exchange_weak(expected, true)) {
             return; // somebody else is doing this already
-- 
2.43.0


From 01e6ffcec383076dad5678b11795a7e35ecaf435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:38 +0000
Subject: [PATCH 28/63] fix: progress never goes backwards

A thread that was overtaken between taking its count and reporting it
printed a lower percentage after a higher one. A task that throws now also
gives up its timer, so that the next one starts from nothing.
---
 common/log.cc              | 17 ++++++++++++++++-
 include/common/log.hh      |  4 ++++
 include/common/parallel.hh | 39 ++++++++++++++++++++++++++------------
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/common/log.cc b/common/log.cc
index 2ee9f8a..625fbbf 100644
--- a/common/log.cc
+++ b/common/log.cc
@@ -236,7 +236,8 @@ void percent(uint64_t count, uint64_t max, bool displayElapsed)
     } else {
         if (max != indeterminate) {
             uint32_t pct = static_cast<uint32_t>((static_cast<float>(count) / max) * 100);
-            if (last_count != pct) {
+            // a thread may get here after another one that has reported a higher count
+            if (last_count == static_cast<uint64_t>(-1) || pct > last_count) {
                 if (active_percent_callback) {
                     active_percent_callback(pct, std::nullopt);
                 } else {
@@ -264,6 +265,20 @@ void percent(uint64_t count, uint64_t max, bool displayElapsed)
     locked = false;
 }
 
+void percent_cancel()
+{
+    bool expected = false;
+
+    while (!locked.compare_exchange_weak(expected, true)) {
+        expected = false;
+    }
+
+    is_timing = false;
+    last_count = -1;
+
+    locked = false;
+}
+
 // percent_clock
 
 percent_clock::percent_clock(uint64_t i_max)
diff --git a/include/common/log.hh b/include/common/log.hh
index f9b6ff3..08c47ee 100644
--- a/include/common/log.hh
+++ b/include/common/log.hh
@@ -130,6 +130,10 @@ void set_percent_callback(percent_callback_t cb);
 // use <common/parallel.h>'s parallel_for(_each)
 void percent(uint64_t count, uint64_t max, bool displayElapsed = true);
 
+// Give up the current percent timer without finishing it (e.g. the task
+// threw), so that the next task starts a new one.
+void percent_cancel();
+
 // use this as "max" (and on the final run, "count") to indicate that
 // the counter does not have a determinating maximum factor.
 constexpr uint64_t indeterminate = std::numeric_limits<uint64_t>::max();
diff --git a/include/common/parallel.hh b/include/common/parallel.hh
index 064f4b0..37fc091 100644
--- a/include/common/parallel.hh
+++ b/include/common/parallel.hh
@@ -35,10 +35,15 @@ void parallel_for(const TS &start, const TE &end, const Body &func)
     auto length = end - start;
     std::atomic<uint64_t> progress = 0;
 
-    tbb::parallel_for(start, end, [&](const auto &it) {
-        percent(progress++, length);
-        func(it);
-    });
+    try {
+        tbb::parallel_for(start, end, [&](const auto &it) {
+            percent(progress++, length);
+            func(it);
+        });
+    } catch (...) {
+        percent_cancel();
+        throw;
+    }
 
     percent(progress, length);
 }
@@ -49,10 +54,15 @@ void parallel_for_each(Container &container, const Body &func)
     auto length = std::size(container);
     std::atomic<uint64_t> progress = 0;
 
-    tbb::parallel_for_each(container, [&](auto &f) {
-        percent(progress++, length);
-        func(f);
-    });
+    try {
+        tbb::parallel_for_each(container, [&](auto &f) {
+            percent(progress++, length);
+            func(f);
+        });
+    } catch (...) {
+        percent_cancel();
+        throw;
+    }
 
     percent(progress, length);
 }
@@ -63,10 +73,15 @@ void parallel_for_each(const Container &container, const Body &func)
     auto length = std::size(container);
     std::atomic<uint64_t> progress = 0;
 
-    tbb::parallel_for_each(container, [&](const auto &f) {
-        percent(progress++, length);
-        func(f);
-    });
+    try {
+        tbb::parallel_for_each(container, [&](const auto &f) {
+            percent(progress++, length);
+            func(f);
+        });
+    } catch (...) {
+        percent_cancel();
+        throw;
+    }
 
     percent(progress, length);
 }
-- 
2.43.0


From ba5dbb1aa05f6dbc65b5e1bfbb5884e2f9cedd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 29/63] fix: texture shift of walls converted to the Quake
 dialect

evalTexDefAtPoint evaluated the texture definition with an unset face
plane, i.e. always with the floor's texture axes.
---
 common/mapfile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 777c789..2641596 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -725,6 +725,7 @@ namespace convert_to_quaked
     static qvec2f evalTexDefAtPoint(const texdef_quake_ed_t &texdef, const qplane3d &faceplane, const qvec3f &point)
     {
         brush_side_t temp;
+        temp.plane = faceplane;
         temp.set_texinfo(texdef_quake_ed_t { texdef.shift, texdef.rotate, texdef.scale });
 
         const qmat4x4f worldToTexSpace_res = texVecsTo4x4Matrix(faceplane, temp.vecs);
-- 
2.43.0


From c9c2cf0ebe9f8d7dbceb57ac7fef4b75936d0874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 30/63] fix: uninitialised rotation and surface info in the map
 file model

---
 common/mapfile.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 2641596..e2c956d 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -189,7 +189,7 @@ void brush_side_t::parse_extended_texinfo(parser_t &parser)
     if (!parse_quark_comment(parser)) {
         // Parse extra Quake 2 surface info
         if (parser.parse_token(PARSE_OPTIONAL)) {
-            texinfo_quake2_t q2_info;
+            texinfo_quake2_t q2_info{};
 
             q2_info.contents = std::stoi(parser.token);
 
@@ -853,6 +853,9 @@ namespace convert_to_valve
     {
         texdef_valve_t res;
 
+        // the rotation is already part of the axes
+        res.rotate = 0;
+
         // From the valve -> bsp code,
         //
         //    for (i = 0; i < 3; i++) {
-- 
2.43.0


From 83a274e0aee3d40523f86d1e2bbce95ec1b337d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 31/63] fix: written QuArK texture comment can be read back

Without a space the comment sticks to the last number of the face.
---
 common/mapfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index e2c956d..2b7ea66 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -504,7 +504,7 @@ void brush_side_t::write_texinfo(std::ostream &stream, const texdef_valve_t &tex
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_etp_t &texdef)
 {
     write_texinfo(stream, (const texdef_quake_ed_t &) texdef);
-    ewt::print(stream, "//TX{}", texdef.tx2 ? '2' : '1');
+    ewt::print(stream, " //TX{}", texdef.tx2 ? '2' : '1');
 }
 
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_bp_t &texdef)
-- 
2.43.0


From b7bb4adf48fcd3abd1439b0447400780d04c4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 32/63] fix: quote texture names that are not a plain word when
 writing a map

---
 common/mapfile.cc         | 12 +++++++++++-
 include/common/mapfile.hh |  3 +++
 qbsp/map.cc               |  6 +++---
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 2b7ea66..049af96 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -2,8 +2,18 @@
 #include <common/log.hh>
 #include <common/ostream.hh>
 #include <common/imglib.hh>
+#include <algorithm>
 #include <utility>
 
+std::string map_texture_token(const std::string &texture)
+{
+    const bool needs_quotes = texture.empty() || texture.front() == '"' || texture.front() == ';' ||
+                              texture.starts_with("//") ||
+                              std::any_of(texture.begin(), texture.end(), [](char c) { return c <= ' '; });
+
+    return needs_quotes ? "\"" + texture + "\"" : texture;
+}
+
 /*static*/ bool brush_side_t::is_valid_texture_projection(const qvec3f &faceNormal, const qvec3f &s_vec, const qvec3f &t_vec)
 {
     // TODO: This doesn't match how light does it (TexSpaceToWorld)
@@ -516,7 +526,7 @@ void brush_side_t::write(std::ostream &stream)
 {
     ewt::print(stream, "( {} {} {} ) ( {} {} {} ) ( {} {} {} ) {} ", planepts[0][0], planepts[0][1], planepts[0][2],
         planepts[1][0], planepts[1][1], planepts[1][2], planepts[2][0], planepts[2][1], planepts[2][2],
-        texture);
+        map_texture_token(texture));
 
     std::visit([this, &stream](auto &&x) { write_texinfo(stream, x); }, raw);
 }
diff --git a/include/common/mapfile.hh b/include/common/mapfile.hh
index e0be658..c31d58e 100644
--- a/include/common/mapfile.hh
+++ b/include/common/mapfile.hh
@@ -69,6 +69,9 @@ struct texinfo_quake2_t
     int value;
 };
 
+// the texture name as one token of a .map file; quoted if it has to be
+std::string map_texture_token(const std::string &texture);
+
 // convert a plane to a texture axis; used by quaked
 struct texture_axis_t
 {
diff --git a/qbsp/map.cc b/qbsp/map.cc
index 44e5e11..a3c8aa0 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3529,7 +3529,7 @@ static void ConvertMapFace(std::ofstream &f, const mapface_t &mapface, const con
             const old_texdef_quake_ed_t quakeed =
                 TexDef_BSPToQuakeEd(mapface.get_plane(), texture, texinfo.vecs, mapface.planepts);
 
-            ewt::print(f, "{} ", mapface.texname);
+            ewt::print(f, "{} ", map_texture_token(mapface.texname));
             fprintDoubleAndSpc(f, quakeed.shift[0]);
             fprintDoubleAndSpc(f, quakeed.shift[1]);
             fprintDoubleAndSpc(f, quakeed.rotate);
@@ -3546,7 +3546,7 @@ static void ConvertMapFace(std::ofstream &f, const mapface_t &mapface, const con
         case conversion_t::valve: {
             const old_texdef_valve_t valve = TexDef_BSPToValve(texinfo.vecs);
 
-            ewt::print(f, "{} [ ", mapface.texname);
+            ewt::print(f, "{} [ ", map_texture_token(mapface.texname));
             fprintDoubleAndSpc(f, valve.axis.at(0, 0));
             fprintDoubleAndSpc(f, valve.axis.at(0, 1));
             fprintDoubleAndSpc(f, valve.axis.at(0, 2));
@@ -3584,7 +3584,7 @@ static void ConvertMapFace(std::ofstream &f, const mapface_t &mapface, const con
             fprintDoubleAndSpc(f, bp.at(1, 2));
 
             // N.B.: always print the Q2/Q3 flags
-            ewt::print(f, ") ) {} ", mapface.texname);
+            ewt::print(f, ") ) {} ", map_texture_token(mapface.texname));
 
             if (mapface.raw_info.has_value()) {
                 f << mapface.raw_info->contents_native << " " << mapface.raw_info->flags.native << " "
-- 
2.43.0


From 3fd9ba2375aed9f0e3aa5b0923c23d1eed4d49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 33/63] fix: Lua view of faces with Quake or QuArK texturing

Each face pushed one texture definition but popped up to two values.
---
 maputil/maputil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index fb5ed6c..3e970e2 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -313,9 +313,9 @@ static void maputil_make_brush_side(lua_State *state, const brush_side_t &side)
 
     if (std::holds_alternative<texdef_quake_ed_t>(side.raw)) {
         lua_setfield(state, -2, "quaked");
-    } if (std::holds_alternative<texdef_etp_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_etp_t>(side.raw)) {
         lua_setfield(state, -2, "etp");
-    } if (std::holds_alternative<texdef_valve_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_valve_t>(side.raw)) {
         lua_setfield(state, -2, "valve");
     } else {
         lua_setfield(state, -2, "bp");
-- 
2.43.0


From 6dc90d1ce51342198e304ff7fa4d067f773486a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 34/63] fix: a script's changes to a map are what gets
 converted

commit_map() left the plane and the texture vectors of each face unset, so
converting the map afterwards gave wrong or no texture positions.
---
 common/mapfile.cc         | 56 ++++++++++++++++++++++++---------------
 include/common/mapfile.hh |  4 +++
 maputil/maputil.cc        |  8 +++++-
 3 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 049af96..8466620 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -974,6 +974,38 @@ void brush_side_t::convert_to(texcoord_style_t style, const gamedef_t *game, con
     }
 }
 
+double brush_side_t::update_plane()
+{
+    /* calculate the normal/dist plane equation */
+    qvec3d ab = planepts[0] - planepts[1];
+    qvec3d cb = planepts[2] - planepts[1];
+
+    double length;
+    qvec3d normal = qv::normalize(qv::cross(ab, cb), length);
+    double dist = qv::dot(planepts[1], normal);
+
+    plane = { normal, dist };
+
+    return length;
+}
+
+void brush_side_t::round_and_validate_texinfo()
+{
+    // ericw -- round texture vector values that are within ZERO_EPSILON of integers,
+    // to attempt to attempt to work around corrupted lightmap sizes in DarkPlaces
+    // (it uses 32 bit precision in CalcSurfaceExtents)
+    for (size_t i = 0; i < 2; i++) {
+        for (size_t j = 0; j < 4; j++) {
+            double r = Q_rint(vecs.at(i, j));
+            if (fabs(vecs.at(i, j) - r) < ZERO_EPSILON) {
+                vecs.at(i, j) = r;
+            }
+        }
+    }
+
+    validate_texture_projection();
+}
+
 void brush_t::parse_brush_face(parser_t &parser, texcoord_style_t base_format)
 {
     brush_side_t side;
@@ -982,15 +1014,7 @@ void brush_t::parse_brush_face(parser_t &parser, texcoord_style_t base_format)
 
     side.parse_plane_def(parser);
 
-    /* calculate the normal/dist plane equation */
-    qvec3d ab = side.planepts[0] - side.planepts[1];
-    qvec3d cb = side.planepts[2] - side.planepts[1];
-
-    double length;
-    qvec3d normal = qv::normalize(qv::cross(ab, cb), length);
-    double dist = qv::dot(side.planepts[1], normal);
-
-    side.plane = { normal, dist };
+    const double length = side.update_plane();
 
     side.parse_texture_def(parser, base_format);
 
@@ -1008,19 +1032,7 @@ void brush_t::parse_brush_face(parser_t &parser, texcoord_style_t base_format)
         }
     }
 
-    // ericw -- round texture vector values that are within ZERO_EPSILON of integers,
-    // to attempt to attempt to work around corrupted lightmap sizes in DarkPlaces
-    // (it uses 32 bit precision in CalcSurfaceExtents)
-    for (size_t i = 0; i < 2; i++) {
-        for (size_t j = 0; j < 4; j++) {
-            double r = Q_rint(side.vecs.at(i, j));
-            if (fabs(side.vecs.at(i, j) - r) < ZERO_EPSILON) {
-                side.vecs.at(i, j) = r;
-            }
-        }
-    }
-
-    side.validate_texture_projection();
+    side.round_and_validate_texinfo();
 
     faces.emplace_back(std::move(side));
 }
diff --git a/include/common/mapfile.hh b/include/common/mapfile.hh
index c31d58e..c580afa 100644
--- a/include/common/mapfile.hh
+++ b/include/common/mapfile.hh
@@ -141,6 +141,10 @@ struct brush_side_t
     }
 
     void validate_texture_projection();
+    void round_and_validate_texinfo();
+
+    // calculates the plane from the plane points; returns the length of their cross product
+    double update_plane();
 
     // parsing
     // TODO: move to the individual texdefs?
diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index 3e970e2..e0760ce 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -535,7 +535,7 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     lua_getfield(state, -1, "info");
 
     if (lua_type(state, -1) == LUA_TTABLE) {
-        texinfo_quake2_t q2;
+        texinfo_quake2_t q2{};
 
         lua_getfield(state, -1, "contents");
         q2.contents = lua_tonumber(state, -1);
@@ -553,6 +553,12 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     }
 
     lua_pop(state, 1);
+
+    // the plane and the texture vectors follow from the above, as they do for a parsed face
+    if (side.update_plane() >= NORMAL_EPSILON && !std::holds_alternative<texdef_bp_t>(side.raw)) {
+        std::visit([&side](auto &&x) { side.set_texinfo(x); }, side.raw);
+        side.round_and_validate_texinfo();
+    }
 }
 
 static void maputil_copy_brush(lua_State *state, brush_t &brush)
-- 
2.43.0


From 3bde59144d88cfcebde2e96d49609712283d9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 35/63] fix: negative texture shifts and textures without a
 size in map conversion

The texture size is unsigned, which turned a negative shift into one of
about -4e9; a size of zero was divided by.
---
 common/mapfile.cc | 14 +++++++++-----
 qbsp/map.cc       | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 8466620..1de0aed 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -752,15 +752,19 @@ namespace convert_to_quaked
 
     qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2f &in)
     {
-        if (!texture) {
+        if (!texture || !texture->width || !texture->height) {
             return in; // can't do anything without knowing the texture size.
         }
 
-        int fullWidthOffsets = static_cast<int>(in[0]) / texture->width;
-        int fullHeightOffsets = static_cast<int>(in[1]) / texture->height;
+        // signed: the shift can be negative
+        const int width = texture->width;
+        const int height = texture->height;
 
-        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * texture->width),
-            in[1] - static_cast<float>(fullHeightOffsets * texture->height));
+        int fullWidthOffsets = static_cast<int>(in[0]) / width;
+        int fullHeightOffsets = static_cast<int>(in[1]) / height;
+
+        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * width),
+            in[1] - static_cast<float>(fullHeightOffsets * height));
         return result;
     }
 
diff --git a/qbsp/map.cc b/qbsp/map.cc
index a3c8aa0..e053f78 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -999,15 +999,19 @@ void checkEq(const qvec2f &a, const qvec2f &b, float epsilon)
 
 qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2f &in)
 {
-    if (!texture) {
+    if (!texture || !texture->width || !texture->height) {
         return in; // can't do anything without knowing the texture size.
     }
 
-    int fullWidthOffsets = static_cast<int>(in[0]) / texture->width;
-    int fullHeightOffsets = static_cast<int>(in[1]) / texture->height;
+    // signed: the shift can be negative
+    const int width = texture->width;
+    const int height = texture->height;
 
-    qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * texture->width),
-        in[1] - static_cast<float>(fullHeightOffsets * texture->height));
+    int fullWidthOffsets = static_cast<int>(in[0]) / width;
+    int fullHeightOffsets = static_cast<int>(in[1]) / height;
+
+    qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * width),
+        in[1] - static_cast<float>(fullHeightOffsets * height));
     return result;
 }
 
-- 
2.43.0


From 0b6bf50e269dbc31ada48024e932cd5b79a1478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 36/63] fix: QuArK texturing of faces with surface info in qbsp

---
 qbsp/map.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index e053f78..424d6f8 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -892,18 +892,28 @@ static void TextureAxisFromPlane(const qplane3d &plane, qvec3d &xv, qvec3d &yv,
     snapped_normal = baseaxis[bestaxis * 3];
 }
 
+// returns true if there was a comment left on the line
+static bool ParseQuArKComment(parser_t &parser, quark_tx_info_t &result)
+{
+    if (!parser.parse_token(PARSE_COMMENT | PARSE_OPTIONAL)) {
+        return false;
+    }
+
+    if (!strncmp(parser.token.c_str(), "//TX", 4)) {
+        if (parser.token[4] == '1')
+            result.quark_tx1 = true;
+        else if (parser.token[4] == '2')
+            result.quark_tx2 = true;
+    }
+
+    return true;
+}
+
 static quark_tx_info_t ParseExtendedTX(parser_t &parser)
 {
     quark_tx_info_t result;
 
-    if (parser.parse_token(PARSE_COMMENT | PARSE_OPTIONAL)) {
-        if (!strncmp(parser.token.c_str(), "//TX", 4)) {
-            if (parser.token[4] == '1')
-                result.quark_tx1 = true;
-            else if (parser.token[4] == '2')
-                result.quark_tx2 = true;
-        }
-    } else {
+    if (!ParseQuArKComment(parser, result)) {
         // Parse extra Quake 2 surface info
         if (parser.parse_token(PARSE_OPTIONAL)) {
             uint32_t native = std::stoul(parser.token);
@@ -915,6 +925,8 @@ static quark_tx_info_t ParseExtendedTX(parser_t &parser)
             if (parser.parse_token(PARSE_OPTIONAL)) {
                 result.info->value = std::stoi(parser.token);
             }
+
+            ParseQuArKComment(parser, result);
         }
     }
 
-- 
2.43.0


From b775555224204ae843fdf1a5e295cae8645ae3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:29 +0000
Subject: [PATCH 37/63] fix: conversion to the Quake dialect loses textures
 that are almost square at a small scale

---
 common/mapfile.cc | 9 ++++++---
 qbsp/map.cc       | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 1de0aed..b6438f7 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -696,10 +696,13 @@ namespace convert_to_quaked
                 //            const qmat2x2f Mident = rotateMGuess * rotation2x2_deg(-angleGuess);
 
                 const qmat2x2f applyAngleGuessM = rotation2x2_deg(angleGuess);
-                const qmat2x2f Mguess = applyGuessedFlipM * applyAbsScaleM * applyAngleGuessM * axisFlipsM;
 
-                if (fabs(M.at(0, 0) - Mguess.at(0, 0)) < 0.001 && fabs(M.at(1, 0) - Mguess.at(1, 0)) < 0.001 &&
-                    fabs(M.at(0, 1) - Mguess.at(0, 1)) < 0.001 && fabs(M.at(1, 1) - Mguess.at(1, 1)) < 0.001) {
+                // compare the bare rotations, so that it does not depend on the scale how close they have to be. They are off
+                // by as much as the check for shear above lets through.
+                if (fabs(rotateMGuess.at(0, 0) - applyAngleGuessM.at(0, 0)) < 0.002 &&
+                    fabs(rotateMGuess.at(1, 0) - applyAngleGuessM.at(1, 0)) < 0.002 &&
+                    fabs(rotateMGuess.at(0, 1) - applyAngleGuessM.at(0, 1)) < 0.002 &&
+                    fabs(rotateMGuess.at(1, 1) - applyAngleGuessM.at(1, 1)) < 0.002) {
 
                     texdef_quake_ed_t reversed;
                     reversed.rotate = angleGuess;
diff --git a/qbsp/map.cc b/qbsp/map.cc
index 424d6f8..97610fe 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -1282,10 +1282,13 @@ static old_texdef_quake_ed_noshift_t Reverse_QuakeEd(qmat2x2f M, const qbsp_plan
             //            const qmat2x2f Mident = rotateMGuess * rotation2x2_deg(-angleGuess);
 
             const qmat2x2f applyAngleGuessM = rotation2x2_deg(angleGuess);
-            const qmat2x2f Mguess = applyGuessedFlipM * applyAbsScaleM * applyAngleGuessM * axisFlipsM;
 
-            if (fabs(M.at(0, 0) - Mguess.at(0, 0)) < 0.001 && fabs(M.at(1, 0) - Mguess.at(1, 0)) < 0.001 &&
-                fabs(M.at(0, 1) - Mguess.at(0, 1)) < 0.001 && fabs(M.at(1, 1) - Mguess.at(1, 1)) < 0.001) {
+            // compare the bare rotations, so that it does not depend on the scale how close they have to be. They are off
+            // by as much as the check for shear above lets through.
+            if (fabs(rotateMGuess.at(0, 0) - applyAngleGuessM.at(0, 0)) < 0.002 &&
+                fabs(rotateMGuess.at(1, 0) - applyAngleGuessM.at(1, 0)) < 0.002 &&
+                fabs(rotateMGuess.at(0, 1) - applyAngleGuessM.at(0, 1)) < 0.002 &&
+                fabs(rotateMGuess.at(1, 1) - applyAngleGuessM.at(1, 1)) < 0.002) {
 
                 old_texdef_quake_ed_noshift_t reversed;
                 reversed.rotate = angleGuess;
-- 
2.43.0


From 11b85873fcc15b021260542a20306a70a422465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 38/63] fix: decompiled texture names with spaces or special
 characters are quoted

---
 common/decompile.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 2d3bdb2..8792eb7 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -43,6 +43,9 @@
 
 // texturing
 
+// from mapfile.hh, which has a texdef_valve_t of its own
+std::string map_texture_token(const std::string &texture);
+
 struct texdef_valve_t
 {
     qmat<double, 2, 3> axis{};
@@ -182,7 +185,7 @@ struct compiled_brush_t
 #endif
 
             ewt::print(stream, "( {} ) ( {} ) ( {} ) {} [ {} {} {} {} ] [ {} {} {} {} ] {} {} {}", p[0], p[1], p[2],
-                side.texture_name, side.valve.axis.at(0, 0), side.valve.axis.at(0, 1), side.valve.axis.at(0, 2),
+                map_texture_token(side.texture_name), side.valve.axis.at(0, 0), side.valve.axis.at(0, 1), side.valve.axis.at(0, 2),
                 side.valve.shift[0], side.valve.axis.at(1, 0), side.valve.axis.at(1, 1), side.valve.axis.at(1, 2),
                 side.valve.shift[1], 0.0, side.valve.scale[0], side.valve.scale[1]);
 
-- 
2.43.0


From 16e52142ab740baa62514b9d886e88160d67c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 39/63] fix: decompiled scaled textures shift when a model has
 an origin

---
 common/decompile.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 8792eb7..cf7d8f5 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -175,8 +175,11 @@ struct compiled_brush_t
                     v += brush_offset.value();
                 }
 
-                side.valve.shift[0] -= qv::dot(brush_offset.value(), side.valve.axis.row(0));
-                side.valve.shift[1] -= qv::dot(brush_offset.value(), side.valve.axis.row(1));
+                for (size_t i = 0; i < 2; i++) {
+                    if (side.valve.scale[i] != 0.0) {
+                        side.valve.shift[i] -= qv::dot(brush_offset.value(), side.valve.axis.row(i)) / side.valve.scale[i];
+                    }
+                }
             }
 
 #if 0
-- 
2.43.0


From c1189ac62ff9f80dd4838ce9b8cbc0444d43e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 40/63] fix: decompiler drops brushes whose textures cannot be
 separated by a cut

---
 common/decompile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index cf7d8f5..db2be7b 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -764,7 +764,7 @@ static void SplitDifferentTexturedPartsOfBrush_R(
             qvec4f split = SuggestSplit(bsp, side);
 
             if (qv::emptyExact(split)) {
-                return;
+                continue; // no way to tell these textures apart by a cut
             }
 
             auto [front, back] = brush.clipToPlane({split.xyz(), split[3]});
-- 
2.43.0


From f5302aa94be093bf6dad415e23e2455dc38256bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 41/63] fix: decompiler loses sides of leafs that touch the
 border of the map

---
 common/decompile.cc | 48 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index db2be7b..301c7a9 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -238,10 +238,43 @@ struct decomp_plane_t : qplane3d
 
 // brush creation
 
+/**
+ * Is there nothing behind all of the given outward-facing planes?
+ */
+template<typename T>
+bool PlanesHaveNoVolume(const std::vector<T> &planes)
+{
+    for (const T &plane : planes) {
+        std::optional<polylib::winding_t> winding = polylib::winding_t::from_plane(plane, 10e6);
+
+        for (const T &plane2 : planes) {
+            if (plane2.normal == plane.normal && plane2.dist == plane.dist)
+                continue;
+
+            winding = winding->clip_front(-plane2);
+
+            if (!winding)
+                break;
+        }
+
+        if (winding) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 template<typename T>
 void RemoveRedundantPlanes(std::vector<T> &planes)
 {
-    auto removed = std::remove_if(planes.begin(), planes.end(), [&planes](const T &plane) {
+    // e.g. a leaf on the far side of a node that lies on the border of the map
+    if (PlanesHaveNoVolume(planes)) {
+        planes.clear();
+        return;
+    }
+
+    auto is_redundant = [&planes](const T &plane) {
         // outward-facing plane
         std::optional<polylib::winding_t> winding = polylib::winding_t::from_plane(plane, 10e6);
 
@@ -261,8 +294,17 @@ void RemoveRedundantPlanes(std::vector<T> &planes)
         }
 
         return !winding;
-    });
-    planes.erase(removed, planes.end());
+    };
+
+    // NOTE: each plane is only compared with the ones that are still there, so that
+    // one of two equal planes is kept
+    for (size_t i = 0; i < planes.size();) {
+        if (is_redundant(planes[i])) {
+            planes.erase(planes.begin() + i);
+        } else {
+            i++;
+        }
+    }
 }
 
 // structures representing a brush
-- 
2.43.0


From 97622087227832a6e7d53f6bda7abf5b5d5a8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 42/63] fix: decompiler crashes on entities without a classname

---
 common/decompile.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 301c7a9..3ee123c 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -1170,7 +1170,9 @@ static void DecompileEntity(
     // brushes were moved to the world, so we have to "reconstruct"
     // the model. We're also assuming that the areaportal brushes are
     // emitted in the same order as the func_areaportal entities.
-    if (dict.find("classname")->second == "func_areaportal") {
+    const std::string classname = dict.get("classname");
+
+    if (classname == "func_areaportal") {
 
         if (dict.has("style")) {
             size_t brush_offset = std::stoull(dict.find("style")->second);
@@ -1187,7 +1189,7 @@ static void DecompileEntity(
                 }
             }
         }
-    } else if (dict.find("classname")->second == "func_group") {
+    } else if (classname == "func_group") {
         // Some older Q2 maps included func_group in the entity list.
         return;
     }
@@ -1325,7 +1327,7 @@ static void DecompileEntity(
     }
 
     // If we run into a trigger brush, replace all of its faces with trigger texture.
-    if (modelNum > 0 && dict.find("classname")->second.compare(0, 8, "trigger_") == 0) {
+    if (modelNum > 0 && classname.compare(0, 8, "trigger_") == 0) {
         for (auto &brushlist : compiledBrushes) {
             for (auto &brush : brushlist) {
                 for (auto &side : brush.sides) {
-- 
2.43.0


From 71b590ecfab2f8d2ae06fd3ae68cb075784c606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 43/63] fix: decompiler writes Quake II brushes in an arbitrary
 order

---
 common/decompile.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 3ee123c..8765708 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -33,6 +33,7 @@
 #include <fstream>
 #include <vector>
 #include <cstdio>
+#include <map>
 #include <string>
 #include <utility>
 #include <tuple>
@@ -1249,7 +1250,8 @@ static void DecompileEntity(
                 compiledBrushes[i] = DecompileLeafTaskGeometryOnly(bsp, tasks[i], brush_offset);
             });
         } else if (bsp->loadversion->game->id == GAME_QUAKE_II && !options.ignoreBrushes) {
-            std::unordered_map<const dbrush_t *, leaf_decompile_task> brushes;
+            // ordered as in the brushes lump
+            std::map<const dbrush_t *, leaf_decompile_task> brushes;
 
             auto handle_leaf = [&brushes, bsp, model](const mleaf_t *leaf) {
                 for (size_t i = 0; i < leaf->numleafbrushes; i++) {
@@ -1294,11 +1296,8 @@ static void DecompileEntity(
                 brushes.begin(), brushes.end(), std::back_inserter(brushesVector), [](auto &v) { return v.second; });
 
             compiledBrushes.resize(brushes.size());
-            size_t t = brushes.size();
-
             tbb::parallel_for(static_cast<size_t>(0), brushes.size(), [&](const size_t &i) {
                 compiledBrushes[i] = DecompileBrushTask(bsp, options, brushesVector[i], brush_offset);
-                t--;
             });
         } else {
             // recursively visit the nodes to gather up a list of leafs to decompile
-- 
2.43.0


From 88caa8c0e509b7489697c34eea99adb2dc1cd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:57 +0000
Subject: [PATCH 44/63] fix: decompiling a clipping hull cuts it off at the
 model's bounds and crashes on hulls without nodes

---
 common/decompile.cc | 63 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 8765708..72c9db3 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -1137,6 +1137,61 @@ static void AddMapBoundsToStack(std::vector<decomp_plane_t> &planestack, const m
     }
 }
 
+/**
+ * Extends the bounds to the planes of the given clipnode and its children.
+ * (clip brushes may reach beyond the bounds of the model, which cover what is visible)
+ */
+static void AddClipNodesToBounds(const mbsp_t *bsp, const int32_t nodenum, aabb3d &bounds)
+{
+    if (nodenum < 0) {
+        return;
+    }
+
+    const bsp2_dclipnode_t &node = bsp->dclipnodes.at(nodenum);
+    const auto &plane = bsp->dplanes.at(node.planenum);
+
+    for (size_t i = 0; i < 3; ++i) {
+        if (plane.normal[i] == 1.f || plane.normal[i] == -1.f) {
+            qvec3d point = (bounds.mins() + bounds.maxs()) / 2;
+            point[i] = plane.dist * plane.normal[i];
+            bounds += point;
+        }
+    }
+
+    AddClipNodesToBounds(bsp, node.children[0], bounds);
+    AddClipNodesToBounds(bsp, node.children[1], bounds);
+}
+
+/**
+ * Gathers the leafs of one of the clipping hulls of a model
+ */
+static void DecompileClipHull(std::vector<decomp_plane_t> &planestack, const mbsp_t *bsp, const dmodelh2_t *model,
+    int hullnum, std::vector<leaf_decompile_task> &result)
+{
+    const auto &hulls = bsp->loadversion->game->get_hull_sizes();
+
+    if (hullnum < 0 || static_cast<size_t>(hullnum) >= hulls.size()) {
+        FError("{} has no hull {}", bsp->loadversion->game->friendly_name, hullnum);
+    }
+
+    // the hull sticks out of the model by the size it was expanded with;
+    // the stored bounds of models are shrunk by 1 unit
+    const aabb3d &size = *(hulls.begin() + hullnum);
+    const int32_t headnode = model->headnode[hullnum];
+
+    aabb3d bounds(qvec3d(model->mins) + size.mins(), qvec3d(model->maxs) + size.maxs());
+    bounds = bounds.grow(1);
+    AddClipNodesToBounds(bsp, headnode, bounds);
+    AddMapBoundsToStack(planestack, bsp, bounds);
+
+    if (headnode < 0) {
+        // the whole hull has the same contents
+        DecompileClipLeaf(planestack, bsp, headnode, result);
+    } else {
+        DecompileClipNode(planestack, bsp, &bsp->dclipnodes.at(headnode), result);
+    }
+}
+
 static std::vector<compiled_brush_t> DecompileBrushTask(
     const mbsp_t *bsp, const decomp_options &options, leaf_decompile_task &task, const std::optional<qvec3d> &brush_offset)
 {
@@ -1240,9 +1295,7 @@ static void DecompileEntity(
 
             std::vector<decomp_plane_t> stack;
             std::vector<leaf_decompile_task> tasks;
-            AddMapBoundsToStack(stack, bsp, aabb3d(qvec3d(model->mins), qvec3d(model->maxs)));
-
-            DecompileClipNode(stack, bsp, &bsp->dclipnodes[model->headnode[options.hullnum]], tasks);
+            DecompileClipHull(stack, bsp, model, options.hullnum, tasks);
 
             // decompile the leafs in parallel
             compiledBrushes.resize(tasks.size());
@@ -1457,9 +1510,7 @@ std::vector<leaf_visualization_t> VisualizeLeafs(const mbsp_t &bsp, int modelnum
     if (hullnum > 0) {
         // recursively visit the clipnodes to gather up a list of clipnode leafs to decompile
 
-        AddMapBoundsToStack(stack, &bsp, aabb3d(qvec3d(model->mins), qvec3d(model->maxs)));
-
-        DecompileClipNode(stack, &bsp, &bsp.dclipnodes[model->headnode[hullnum]], tasks);
+        DecompileClipHull(stack, &bsp, model, hullnum, tasks);
     } else {
         // recursively visit the nodes to gather up a list of leafs to decompile
         auto headnode = BSP_GetNode(&bsp, model->headnode[0]);
-- 
2.43.0


From 795e20a82edc895b17f3353ad42a67635de676e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:20 +0000
Subject: [PATCH 45/63] fix: decompiled liquids carry the texture of the wall
 behind their surface

Where a mirrored face lies on the side of a leaf, its texture could be used
on a brush of other contents: the brush then compiles to a different kind.
---
 common/decompile.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/common/decompile.cc b/common/decompile.cc
index 72c9db3..f096c8a 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -396,6 +396,24 @@ struct leaf_decompile_task
     std::optional<int32_t> contents = std::nullopt; // for clipnodes
 };
 
+/**
+ * Would a brush with the contents of the leaf still have them with the face's texture on it?
+ * (in Quake and the games derived from it, textures decide the contents)
+ */
+static bool FaceFitsContents(const mbsp_t *bsp, const mface_t *face, const leaf_decompile_task &task)
+{
+    auto *game = bsp->loadversion->game;
+
+    if (game->id == GAME_QUAKE_II || !task.leaf || task.leaf->contents > CONTENTS_SOLID ||
+        task.leaf->contents < CONTENTS_SKY) {
+        return true;
+    }
+
+    const contentflags_t contents = game->face_get_contents(Face_TextureName(bsp, face), {}, {});
+
+    return game->contents_to_native(contents) == task.leaf->contents;
+}
+
 /**
  * Builds the initial list of faces on the node
  */
@@ -423,6 +441,11 @@ static std::vector<decomp_brush_face_t> BuildDecompFacesOnPlane(
             continue;
         }
 
+        // e.g. the surface of water touching a wall, seen from within the water
+        if (!FaceFitsContents(bsp, face, task)) {
+            continue;
+        }
+
         result.emplace_back(bsp, face);
     }
 
-- 
2.43.0


From 10c48a83020c732c75020b160d036da419cc09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:51 +0000
Subject: [PATCH 46/63] fix: decompiled hint brushes in triggers become solid

The sides of every brush of a trigger get the trigger texture, but brushes
without contents need their hint texture to stay empty.
---
 common/decompile.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/decompile.cc b/common/decompile.cc
index f096c8a..39c50dc 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -1405,6 +1405,11 @@ static void DecompileEntity(
     if (modelNum > 0 && classname.compare(0, 8, "trigger_") == 0) {
         for (auto &brushlist : compiledBrushes) {
             for (auto &brush : brushlist) {
+                if (bsp->loadversion->game->contents_to_native(brush.contents) == 0) {
+                    // hint brush; would become solid
+                    continue;
+                }
+
                 for (auto &side : brush.sides) {
                     DefaultTriggerSide(side, bsp);
                 }
-- 
2.43.0


From 1211723cd58261791034339c83f3211c330e93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 47/63] fix: geometry-only decompiled maps do not compile to
 what they came from

The planes passed on the way to a leaf were written as they are (coinciding
and redundant ones included), and hint brushes as solid ones.
---
 common/decompile.cc | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 39c50dc..4a4ec04 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -594,6 +594,20 @@ static void DefaultSkipSide(compiled_brush_side_t &side, const mbsp_t *bsp)
     }
 }
 
+static void DefaultHintSide(compiled_brush_side_t &side, const mbsp_t *bsp)
+{
+    side.texture_name = "e1u1/hint";
+
+    if (bsp->loadversion->game->id == GAME_QUAKE_II) {
+        side.flags = {Q2_SURF_HINT};
+    }
+}
+
+static bool IsHintBrush(const mbsp_t *bsp, const compiled_brush_t &brush)
+{
+    return bsp->loadversion->game->contents_to_native(brush.contents) == 0;
+}
+
 static const char *DefaultTriggerTexture(const mbsp_t *bsp)
 {
     if (bsp->loadversion->game->id == GAME_QUAKE_II) {
@@ -880,8 +894,17 @@ static void DecompileLeaf(const std::vector<decomp_plane_t> &planestack, const m
 }
 
 static std::vector<compiled_brush_t> DecompileLeafTaskGeometryOnly(
-    const mbsp_t *bsp, const leaf_decompile_task &task, const std::optional<qvec3d> &brush_offset)
+    const mbsp_t *bsp, leaf_decompile_task &task, const std::optional<qvec3d> &brush_offset)
 {
+    if (!task.brush) {
+        // the planes passed on the way to the leaf
+        RemoveRedundantPlanes(task.allPlanes);
+
+        if (task.allPlanes.empty()) {
+            return {};
+        }
+    }
+
     compiled_brush_t brush;
     brush.source = task.brush;
     brush.brush_offset = brush_offset;
@@ -895,7 +918,11 @@ static std::vector<compiled_brush_t> DecompileLeafTaskGeometryOnly(
         compiled_brush_side_t &side = brush.sides.emplace_back();
         side.source = plane.source;
         side.plane = plane;
-        DefaultSkipSide(side, bsp);
+        if (IsHintBrush(bsp, brush)) {
+            DefaultHintSide(side, bsp);
+        } else {
+            DefaultSkipSide(side, bsp);
+        }
         side.valve = plane.normal;
     }
 
@@ -955,14 +982,8 @@ static std::vector<compiled_brush_t> DecompileLeafTask(
             side.winding = std::move(finalSide.winding);
             side.source = finalSide.plane.source;
 
-            if (bsp->loadversion->game->contents_to_native(brush.contents) == 0) {
-                // hint brush
-                side.texture_name = "e1u1/hint";
-
-                if (bsp->loadversion->game->id == GAME_QUAKE_II) {
-                    side.flags = {Q2_SURF_HINT};
-                }
-
+            if (IsHintBrush(bsp, brush)) {
+                DefaultHintSide(side, bsp);
                 side.valve = finalSide.plane.normal;
                 continue;
             }
@@ -1405,8 +1426,8 @@ static void DecompileEntity(
     if (modelNum > 0 && classname.compare(0, 8, "trigger_") == 0) {
         for (auto &brushlist : compiledBrushes) {
             for (auto &brush : brushlist) {
-                if (bsp->loadversion->game->contents_to_native(brush.contents) == 0) {
-                    // hint brush; would become solid
+                if (IsHintBrush(bsp, brush)) {
+                    // would become solid
                     continue;
                 }
 
-- 
2.43.0


From fc8b22b42ee753bd323129a029b7fb2a00c74980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 48/63] fix: decompiled Quake II leafs with several liquids do
 not compile

---
 common/decompile.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 4a4ec04..8c577bc 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -893,6 +893,29 @@ static void DecompileLeaf(const std::vector<decomp_plane_t> &planestack, const m
     result.push_back({planestack, leaf});
 }
 
+static contentflags_t ContentsOfTask(const mbsp_t *bsp, const leaf_decompile_task &task)
+{
+    const auto *game = bsp->loadversion->game;
+
+    if (task.brush) {
+        return game->create_contents_from_native(task.brush->contents);
+    }
+    if (!task.leaf) {
+        return game->create_contents_from_native(task.contents.value());
+    }
+
+    int32_t native = task.leaf->contents;
+
+    if (game->id == GAME_QUAKE_II) {
+        // brushes that overlap in the leaf; a single brush can only have one of their visible
+        // contents, so use the strongest
+        const int32_t visible = native & Q2_ALL_VISIBLE_CONTENTS;
+        native &= ~(visible & (visible - 1));
+    }
+
+    return game->create_contents_from_native(native);
+}
+
 static std::vector<compiled_brush_t> DecompileLeafTaskGeometryOnly(
     const mbsp_t *bsp, leaf_decompile_task &task, const std::optional<qvec3d> &brush_offset)
 {
@@ -908,9 +931,7 @@ static std::vector<compiled_brush_t> DecompileLeafTaskGeometryOnly(
     compiled_brush_t brush;
     brush.source = task.brush;
     brush.brush_offset = brush_offset;
-    brush.contents = bsp->loadversion->game->create_contents_from_native(
-            task.brush ? task.brush->contents : task.leaf ? task.leaf->contents : task.contents.value()
-            );
+    brush.contents = ContentsOfTask(bsp, task);
 
     brush.sides.reserve(task.allPlanes.size());
 
@@ -974,7 +995,7 @@ static std::vector<compiled_brush_t> DecompileLeafTask(
         compiled_brush_t brush;
         brush.source = task.brush;
         brush.brush_offset = brush_offset;
-        brush.contents = bsp->loadversion->game->create_contents_from_native(task.brush ? task.brush->contents : task.leaf ? task.leaf->contents : task.contents.value());
+        brush.contents = ContentsOfTask(bsp, task);
 
         for (auto &finalSide : finalBrush.sides) {
             compiled_brush_side_t &side = brush.sides.emplace_back();
-- 
2.43.0


From d432e4d365e3c4186550c1092d465026dfa9bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 49/63] fix: the layout of the lighting data depends on the
 scheduling of the threads

---
 light/write.cc | 58 ++++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 6d5c83e..7c5dda3 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -100,15 +100,15 @@ void WriteLuxFile(const mbsp_t *bsp, const fs::path &filename, int version, cons
 
 
 /*
- * Return space for the lightmap and colourmap at the same time so it can
- * be done in a thread-safe manner.
+ * Return space for the lightmap and colourmap at the same time.
  *
  * size is the number of greyscale pixels = number of bytes to allocate
  * and return in *lightdata
  */
-static inline int GetFileSpace(std::atomic_size_t &offset, size_t size)
+static inline int GetFileSpace(size_t &offset, size_t size)
 {
-    size_t v = offset.fetch_add(align_value<4>(size));
+    size_t v = offset;
+    offset += align_value<4>(size);
 
     // early check
     if (v > std::numeric_limits<int>::max())
@@ -685,7 +685,6 @@ extern std::vector<bspx_decoupled_lm_perface> facesup_decoupled_global;
 
 int CalculateLightmapStyles(const mbsp_t *bsp, mface_t *face, facesup_t *facesup,
     lightsurf_t *lightsurf, const faceextents_t &extents,
-    std::atomic_size_t &lightmap_size,
     lightmap_intermediate_data_t &id)
 {
     lightmapdict_t &lightmaps = lightsurf->lightmapsByStyle;
@@ -986,12 +985,10 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             SaveLitOnlyLightmapSurface(bsp, f, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase);
         });
     } else {
-        std::atomic_size_t lightmap_size = 0;
         std::vector<lightmap_intermediate_data_t> intermediate_data;
         intermediate_data.resize(bsp->dfaces.size());
 
-        // calculate finish lightmaps and calculate lightofs for each face.
-        // the lightofs will be set to the size in bytes.
+        // finish lightmaps and choose the styles of each face.
         logging::parallel_for(static_cast<size_t>(0), bsp->dfaces.size(), [&](size_t i) {
             auto &surf = LightSurfaces()[i];
 
@@ -1003,29 +1000,40 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
 
             auto f = &bsp->dfaces[i];
             const modelinfo_t *face_modelinfo = ModelInfoForFace(bsp, i);
-            int num_styles;
 
-            if (!facesup_decoupled_global.empty()) {
-                num_styles = CalculateLightmapStyles(
-                    bsp, f, nullptr, &surf, surf.extents, lightmap_size, intermediate_data[i]);
-
-                if (!light_options.novanilla.value()) {
-                    intermediate_data[i].vanilla_lightofs = GetFileSpace(lightmap_size, surf.vanilla_extents.numsamples() * num_styles);
-                }
-            } else if (faces_sup.empty()) {
-                num_styles = CalculateLightmapStyles(bsp, f, nullptr, &surf, surf.extents, lightmap_size, intermediate_data[i]);
+            if (!facesup_decoupled_global.empty() || faces_sup.empty()) {
+                CalculateLightmapStyles(bsp, f, nullptr, &surf, surf.extents, intermediate_data[i]);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
-                num_styles = CalculateLightmapStyles(bsp, f, &faces_sup[i], &surf, surf.extents, lightmap_size, intermediate_data[i]);
+                CalculateLightmapStyles(bsp, f, &faces_sup[i], &surf, surf.extents, intermediate_data[i]);
             } else {
-                num_styles = CalculateLightmapStyles(bsp, f, nullptr, &surf, surf.extents, lightmap_size, intermediate_data[i]);
-                intermediate_data[i].vanilla_lightofs = GetFileSpace(lightmap_size, surf.vanilla_extents.numsamples() * num_styles);
-            }
-            
-            if (num_styles) {
-                intermediate_data[i].lightofs = GetFileSpace(lightmap_size, surf.extents.numsamples() * num_styles);
+                CalculateLightmapStyles(bsp, f, nullptr, &surf, surf.extents, intermediate_data[i]);
             }
         });
 
+        // assign the offsets in face order, so that the layout doesn't depend on the scheduling of the threads
+        size_t lightmap_size = 0;
+
+        for (size_t i = 0; i < bsp->dfaces.size(); i++) {
+            auto &surf = LightSurfaces()[i];
+            const size_t num_styles = intermediate_data[i].sorted.size();
+
+            if (!num_styles) {
+                continue;
+            }
+
+            const bool has_vanilla = !light_options.novanilla.value() &&
+                                     (!facesup_decoupled_global.empty() ||
+                                         (!faces_sup.empty() &&
+                                             faces_sup[i].lmscale != ModelInfoForFace(bsp, i)->lightmapscale));
+
+            if (has_vanilla) {
+                intermediate_data[i].vanilla_lightofs =
+                    GetFileSpace(lightmap_size, surf.vanilla_extents.numsamples() * num_styles);
+            }
+
+            intermediate_data[i].lightofs = GetFileSpace(lightmap_size, surf.extents.numsamples() * num_styles);
+        }
+
         // allocate required space
         if (!bsp->loadversion->game->has_rgb_lightmap) {
             filebase.resize(lightmap_size);
-- 
2.43.0


From 53255fcf711de9d6a3a7db087fbbfa142e836591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 50/63] fix: vanilla and scaled lightmap of a face overwrite
 each other

---
 light/write.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index 7c5dda3..b59b1e8 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1076,7 +1076,9 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
                 }
             } else {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                lightmap_intermediate_data_t vanilla = intermediate_data[i];
+                vanilla.lightofs = vanilla.vanilla_lightofs;
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, vanilla);
                 SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             }
         });
-- 
2.43.0


From 511db47b0e966b38f08f090ed74a3ce66c9bbf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 51/63] fix: faces with the model's lightmap scale get no
 vanilla lightmap when there is an LMSHIFT lump

---
 light/write.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index b59b1e8..13e9c16 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1065,12 +1065,12 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (faces_sup.empty()) {
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
-- 
2.43.0


From eec582bf62b5d3c218c5e5b77709cb2cc29ef5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 52/63] fix: relighting with an LMSHIFT lump leaves the old
 lightmaps of faces that are dark now

---
 light/light.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index a971fcf..3b51988 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -621,15 +621,15 @@ static void CreateLightmapSurfaces(mbsp_t *bsp)
                 for (size_t i = 0; i < MAXLIGHTMAPSSUP; i++) {
                     facesup->styles[i] = INVALID_LIGHTSTYLE;
                 }
-            } else {
-                face->lightofs = -1;
-                for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
-                    face->styles[i] = INVALID_LIGHTSTYLE_OLD;
-                }
+            }
 
-                if (facesup_decoupled) {
-                    facesup_decoupled->offset = -1;
-                }
+            face->lightofs = -1;
+            for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
+                face->styles[i] = INVALID_LIGHTSTYLE_OLD;
+            }
+
+            if (facesup_decoupled) {
+                facesup_decoupled->offset = -1;
             }
         }
 
-- 
2.43.0


From 8728b200ad4683b4168ac040c027e92da4b2e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 53/63] fix: grey vanilla lightmaps are black with
 -world_units_per_luxel

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 13e9c16..5ebc4f9 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -514,8 +514,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
                 }
 
                 if (out) {
-                    // FIXME: implement
-                    *out++ = 0;
+                    // same as in WriteSingleLightmap
+                    *out++ = std::clamp(std::max({color[0], color[1], color[2]}), 0.0f, 255.0f);
                 }
             }
 
-- 
2.43.0


From 55f37eed181aaccdbb19b276746e3024ab273d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 54/63] fix: scaled lightmaps have the wrong size when LMSHIFT
 is coarser than the model's scale

---
 light/ltface.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index b7fc218..11c5a75 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -585,9 +585,8 @@ static lightsurf_t Lightsurf_Init(const modelinfo_t *modelinfo, const settings::
          */
         lightsurf.twosided = Face_IsTranslucent(bsp, face);
 
-        // pick the larger of the two scales
-        lightsurf.lightmapscale =
-            (facesup && facesup->lmscale < modelinfo->lightmapscale) ? facesup->lmscale : modelinfo->lightmapscale;
+        // the scale in the LMSHIFT lump is what the engine goes by
+        lightsurf.lightmapscale = facesup ? facesup->lmscale : modelinfo->lightmapscale;
 
         const surfflags_t &extended_flags = extended_texinfo_flags[face->texinfo];
         lightsurf.curved = extended_flags.phong_angle != 0 || Q2_FacePhongValue(bsp, face);
-- 
2.43.0


From 900d8f698386225662bd5bd84466fb79cad26068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:26 +0000
Subject: [PATCH 55/63] fix: vanilla lightmaps extrapolate, and wrap, beyond
 the edge of the decoupled ones

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 5ebc4f9..66303d7 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -494,8 +494,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
             decoupled_lm_coord = decoupled_lm_coord * light_options.extra.value();
 
             // split into integer/fractional part for bilinear interpolation
-            const int coord_floor_x = (int)decoupled_lm_coord[0];
-            const int coord_floor_y = (int)decoupled_lm_coord[1];
+            const int coord_floor_x = (int)floor(decoupled_lm_coord[0]);
+            const int coord_floor_y = (int)floor(decoupled_lm_coord[1]);
 
             const float coord_frac_x = decoupled_lm_coord[0] - coord_floor_x;
             const float coord_frac_y = decoupled_lm_coord[1] - coord_floor_y;
-- 
2.43.0


From d0a91bc2d295887d426da4f798c65d9e79bf18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 56/63] fix: rounding repeats rows and columns of lightmaps of
 some sizes, such as 23 luxels

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 66303d7..d8344f1 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -408,8 +408,8 @@ static void WriteSingleLightmap(const mbsp_t *bsp, const mface_t *face, const li
 
     for (int t = 0; t < output_height; t++) {
         for (int s = 0; s < output_width; s++) {
-            const int input_sample_s = (s / (float)output_width) * actual_width;
-            const int input_sample_t = (t / (float)output_height) * actual_height;
+            const int input_sample_s = (s * actual_width) / output_width;
+            const int input_sample_t = (t * actual_height) / output_height;
             const int sampleindex = (input_sample_t * actual_width) + input_sample_s;
 
             if (lit || out) {
-- 
2.43.0


From 036562e13890c90ad51f6ba9439d54f9df300410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:05 +0000
Subject: [PATCH 57/63] fix: sides of flat boxes were read from an empty
 optional (light grid debug portals)

---
 include/common/polylib.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index ef21023..5bf551e 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -1272,7 +1272,15 @@ public:
                 if (i == j)
                     continue;
 
-                result[i] = *result[i].clip_back(planes[j]);
+                auto clipped = result[i].clip_back(planes[j]);
+
+                if (!clipped) {
+                    // the box is flat, there is nothing left of this side
+                    result[i] = winding_base_t();
+                    break;
+                }
+
+                result[i] = std::move(*clipped);
             }
         }
 
-- 
2.43.0


From e5a65bc4045f80ea186e257d9f317d67da576bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:51 +0000
Subject: [PATCH 58/63] fix: bsputil printed the CRC of the entities without
 their last character

---
 bsputil/bsputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 973266b..62acc74 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1315,7 +1315,7 @@ int bsputil_main(int argc, char **argv)
 
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
-            uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size() - 1);
+            uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size());
 
             source.replace_extension(".ent");
             fmt::print("-> writing {} [CRC: {:04x}]... ", source, crc);
-- 
2.43.0


From 479c209d1192983fb6efab63800c7676ab1e055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:51 +0000
Subject: [PATCH 59/63] fix: extracted textures of Half-Life files lay
 elsewhere than the .wad said

---
 bsputil/bsputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 62acc74..404f1fa 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -96,7 +96,7 @@ void ExportWad(std::ofstream &wadfile, const mbsp_t *bsp)
             continue;
 
         lump.filepos = filepos;
-        lump.size = sizeof(dmiptex_t) + miptex.width * miptex.height / 64 * 85;
+        lump.size = static_cast<int32_t>(miptex.data.size());
         lump.disksize = lump.size;
         snprintf(lump.name.data(), sizeof(lump.name), "%s", miptex.name.data());
 
-- 
2.43.0


From 291abc54fe103c0513fbab77334e595fb9d44129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:51 +0000
Subject: [PATCH 60/63] fix: bsputil crashed, or took the wrong file, when
 given several commands

---
 bsputil/bsputil.cc | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 404f1fa..2e61225 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -695,6 +695,14 @@ struct planelist_t
     }
 };
 
+// write the generic BSP in the given format, keeping it for further commands
+static void WriteGenericBSP(const bspdata_t &bspdata, const bspversion_t *version, const fs::path &filename)
+{
+    bspdata_t converted = bspdata;
+    ConvertBSPFormat(&converted, version);
+    WriteBSPFile(filename, &converted);
+}
+
 int bsputil_main(int argc, char **argv)
 {
     logging::preinitialize();
@@ -1173,9 +1181,8 @@ int bsputil_main(int argc, char **argv)
                 }
             }
 
-            ConvertBSPFormat(&bspdata, bspdata.loadversion);
-
-            WriteBSPFile(source.replace_filename(source.stem().string() + "-scaled.bsp"), &bspdata);
+            WriteGenericBSP(
+                bspdata, bspdata.loadversion, source.replace_filename(source.stem().string() + "-scaled.bsp"));
 
         } else if (!strcmp(argv[i], "--replace-entities")) {
             i++;
@@ -1197,9 +1204,7 @@ int bsputil_main(int argc, char **argv)
 
                 bsp.dentdata = std::string(reinterpret_cast<char *>(ent->data()), ent->size());
 
-                ConvertBSPFormat(&bspdata, bspdata.loadversion);
-
-                WriteBSPFile(source, &bspdata);
+                WriteGenericBSP(bspdata, bspdata.loadversion, source);
             } else {
                 map_file_t ents = LoadMapOrEntFile(argv[i]);
 
@@ -1307,9 +1312,7 @@ int bsputil_main(int argc, char **argv)
                 Error("Unsupported format {}", argv[i]);
             }
 
-            ConvertBSPFormat(&bspdata, fmt);
-
-            WriteBSPFile(source.replace_filename(source.stem().string() + "-" + argv[i]), &bspdata);
+            WriteGenericBSP(bspdata, fmt, fs::path(source).replace_filename(source.stem().string() + "-" + argv[i]));
 
         } else if (!strcmp(argv[i], "--extract-entities")) {
 
@@ -1317,12 +1320,12 @@ int bsputil_main(int argc, char **argv)
 
             uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size());
 
-            source.replace_extension(".ent");
-            fmt::print("-> writing {} [CRC: {:04x}]... ", source, crc);
+            const fs::path output = fs::path(source).replace_extension(".ent");
+            fmt::print("-> writing {} [CRC: {:04x}]... ", output, crc);
 
-            std::ofstream f(source, std::ios_base::out | std::ios_base::binary);
+            std::ofstream f(output, std::ios_base::out | std::ios_base::binary);
             if (!f)
-                Error("couldn't open {} for writing\n", source);
+                Error("couldn't open {} for writing\n", output);
 
             f << bsp.dentdata;
 
@@ -1336,31 +1339,31 @@ int bsputil_main(int argc, char **argv)
 
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
-            source.replace_extension(".wad");
-            fmt::print("-> writing {}... ", source);
+            const fs::path output = fs::path(source).replace_extension(".wad");
+            fmt::print("-> writing {}... ", output);
 
-            std::ofstream f(source, std::ios_base::binary);
+            std::ofstream f(output, std::ios_base::binary);
 
             if (!f)
-                Error("couldn't open {} for writing\n", source);
+                Error("couldn't open {} for writing\n", output);
 
             ExportWad(f, &bsp);
 
             printf("done.\n");
         } else if (!strcmp(argv[i], "--replace-textures")) {
-            if (i + 1 >= argc) {
+            i++;
+            if (i >= argc - 1) {
                 Error("--replace-textures requires 1 argument");
             }
 
-            fs::path wad_source = argv[i + 1];
+            fs::path wad_source = argv[i];
 
             if (auto wad = fs::addArchive(wad_source, false)) {
                 logging::print("loaded wad file: {}\n", wad_source);
 
                 mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
                 ReplaceTexturesFromWad(bsp);
-                ConvertBSPFormat(&bspdata, bspdata.loadversion);
-                WriteBSPFile(source, &bspdata);
+                WriteGenericBSP(bspdata, bspdata.loadversion, source);
             } else {
                 Error("couldn't load .wad file {}\n", wad_source);
             }
-- 
2.43.0


From 3668e23f0a656184a8603bb6742329fd2abaa7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:06 +0000
Subject: [PATCH 61/63] fix: bsputil --scale left the planes of clipnodes
 behind and turned faces inside out

---
 bsputil/bsputil.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 2e61225..2d41c7c 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1001,6 +1001,10 @@ int bsputil_main(int argc, char **argv)
                 for (auto &s : bsp.dfaces) {
                     std::reverse(
                         bsp.dsurfedges.data() + s.firstedge, bsp.dsurfedges.data() + (s.firstedge + s.numedges));
+                    // run along each edge the other way
+                    for (int32_t e = 0; e < s.numedges; e++) {
+                        bsp.dsurfedges[s.firstedge + e] *= -1;
+                    }
                 }
             }
 
@@ -1019,7 +1023,7 @@ int bsputil_main(int argc, char **argv)
                         pt *= scalar;
                     }
 
-                    if (flip_faces) {
+                    if (flip_faces & 1) {
                         std::reverse(pts.begin(), pts.end());
                     }
 
@@ -1081,6 +1085,15 @@ int bsputil_main(int argc, char **argv)
                 }
             }
 
+            for (auto &m : bsp.dclipnodes) {
+                m.planenum = plane_remap[m.planenum];
+
+                if (m.planenum & 1) {
+                    std::reverse(m.children.begin(), m.children.end());
+                    m.planenum &= ~1;
+                }
+            }
+
             // remap planes on stuff
             for (auto &v : bsp.dbrushsides) {
                 v.planenum = plane_remap[v.planenum];
-- 
2.43.0


From 3c6a4e9f9098e4e798093b4458f74d55e430eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:53 +0000
Subject: [PATCH 62/63] fix: see from an opaque liquid into the same liquid
 with detail in it

---
 common/bspfile.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index ad5e16c..4891208 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -425,10 +425,11 @@ public:
         if (((bits_a ^ bits_b) & EWT_ALL_VISIBLE_CONTENTS) == 0)
             return true;
 
+        // what the other side doesn't have may be due to the detail, so ignore it
         if ((bits_a & EWT_CFLAG_DETAIL) || a_translucent)
-            bits_a = 0;
+            bits_a &= bits_b;
         if ((bits_b & EWT_CFLAG_DETAIL) || b_translucent)
-            bits_b = 0;
+            bits_b &= bits_a;
 
         if ((bits_a ^ bits_b) == 0)
             return true; // identical on both sides
@@ -1173,11 +1174,12 @@ struct gamedef_q2_t : public gamedef_t
         if (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) == 0)
             return true;
 
+        // what the other side doesn't have may be due to the detail, so ignore it
         if ((c0 & EWT_CFLAG_TRANSLUCENT) || (c0 & EWT_CFLAG_DETAIL)) {
-            c0 = 0;
+            c0 &= c1;
         }
         if ((c1 & EWT_CFLAG_TRANSLUCENT) || (c1 & EWT_CFLAG_DETAIL)) {
-            c1 = 0;
+            c1 &= c0;
         }
 
         // identical on both sides
-- 
2.43.0


From c1f26f8b1493a752d2ec5114f4fe3c15122845fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:06 +0000
Subject: [PATCH 63/63] fix: give the leafs of an areaportal that also hold a
 liquid one of its areas

---
 qbsp/portals.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qbsp/portals.cc b/qbsp/portals.cc
index 99e4fa7..249b0be 100644
--- a/qbsp/portals.cc
+++ b/qbsp/portals.cc
@@ -899,7 +899,7 @@ static void SetAreaPortalAreas_r(node_t *node)
 
     auto *leafdata = node->get_leafdata();
 
-    if (leafdata->contents.flags != EWT_INVISCONTENTS_AREAPORTAL)
+    if (!(leafdata->contents.flags & EWT_INVISCONTENTS_AREAPORTAL))
         return;
 
     if (leafdata->area)
-- 
2.43.0

