From a35f5932e729ea62e18eec2ab90947e0a4e957a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 01/25] fix: push_back() after a loop over the segments wrote
 to (or asserted on) the wrong segment

push_back() chose the next segment from current_segment, which loops over the
'out' array move, instead of from first_not_full_segment.
---
 SegmentedArrayPair_Module.py | 11 ++++++-----
 cpp/SegmentedArrayPair.h     | 23 +++++++++++++++--------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..9f832cd 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -108,8 +108,7 @@ class SegmentedArrayPair_C(object):
         if self.first_available_offset[outSA] == self.segment_length:
             # If another segment is already available, use it. Otherwise, allocate a new
             # segment.
-            self.current_segment[outSA] += 1
-            if self.current_segment[outSA] < self.nseg[outSA]:
+            if self.first_not_full_segment[outSA] + 1 < self.nseg[outSA]:
                 #print("push_back: nseg=", self.nseg[outSA], "first_not_full_segment=", self.first_not_full_segment[outSA])
                 self.first_not_full_segment[outSA] += 1
                 #print("#1 self.first_not_full_segment[outSA]=", self.first_not_full_segment[outSA])
@@ -119,9 +118,11 @@ class SegmentedArrayPair_C(object):
                 # firstAvailableOffset[] = 0
                 # print("push_back: calling add_segment()")
                 self.add_segment(outSA)
-            # These two counters should be the same:                
-            assert (self.first_not_full_segment[outSA] == self.current_segment[outSA]), "first_not_full_segment = %d, current_segment = %d" % (self.first_not_full_segment[outSA], self.current_segment[outSA])
-                
+
+        # The current segment is the one being written to. (It can differ from
+        # first_not_full_segment before this, e.g., after a loop over the "out" segments.)
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
 # Untested:
         if type(item_input) is np_m.ndarray:
             item = item_input[0]
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..b1078b3 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -294,8 +294,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -306,10 +305,12 @@ namespace dnt
                 // nseg[], and sets first_available_offset[] = 0
                 add_segment(outSA);
               };
-            // These two counters should be the same:                
-            assert(first_not_full_segment[outSA] == current_segment[outSA]);
           };
 
+        // The current segment is the one being written to. (It can differ from
+        // first_not_full_segment before this, e.g., after a loop over the "out" segments.)
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         // Use the buffer protocol to get to the contiguous data in the Numpy arrays
         // "out" SA
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
@@ -363,8 +364,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -377,6 +377,10 @@ namespace dnt
               };
           };
         
+        // The current segment is the one being written to. (It can differ from
+        // first_not_full_segment before this, e.g., after a loop over the "out" segments.)
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
 
@@ -424,8 +428,7 @@ namespace dnt
           {
             // If another segment is already available, use
             // it. Otherwise, allocate a new segment.
-            current_segment[outSA] += 1;
-            if (current_segment[outSA] < nseg[outSA])
+            if (first_not_full_segment[outSA] + 1 < nseg[outSA])
               {
                 first_not_full_segment[outSA] += 1;
                 first_available_offset[outSA] = 0;
@@ -439,6 +442,10 @@ namespace dnt
         
           };
         
+        // The current segment is the one being written to. (It can differ from
+        // first_not_full_segment before this, e.g., after a loop over the "out" segments.)
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         py::buffer_info segInfo = seg_list_pair[outSA][first_not_full_segment[outSA]].request(); // request() returns metadata about the array (ptr, ndim, size, shape)
         const auto pseg = static_cast<Pstruct<PT>*>(segInfo.ptr); // Pointer to a structured Numpy array
 
-- 
2.43.0


From 89396554207f28c9032aaadc21d579b9d4efe719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 02/25] fix: set_number_of_items(0) left a SegmentedArrayPair
 that reads as a full segment of stale items

---
 SegmentedArrayPair_Module.py | 1 +
 cpp/SegmentedArrayPair.h     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 9f832cd..0e093fa 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -486,6 +486,7 @@ class SegmentedArrayPair_C(object):
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
         (seg, offset) = divmod(n_items-1, self.segment_length)
+        if n_items == 0: (seg, offset) = (0, -1) # There's no last item
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index b1078b3..5690571 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -234,6 +234,11 @@ namespace dnt
         // (seg, offset) = divmod(n_items-1, self.segment_length)
         auto seg = (py::ssize_t) (n_items-1) / segment_length;
         auto offset = (n_items - 1) % segment_length;
+        if (n_items == 0) // There's no last item
+          {
+            seg = 0;
+            offset = -1;
+          }
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From 6bbe7ba138759da0a546672cfee4292f447b36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:58 +0000
Subject: [PATCH 03/25] fix: species number and KE summed unused slots of the
 last segment with the C++ particle storage

---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..708a9d6 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,7 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            species_number += np_m.sum(pseg['weight'][0:npSeg]) # Only the active items: the C++ SAP returns the whole segment
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -799,7 +799,7 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2) # Only the active items: the C++ SAP returns the whole segment
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From e465c3f4e0b22fac6c64f6454c395f5f0c0da5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 04/25] fix: uniform-field advance counted a full last segment
 twice

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 708a9d6..361534e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,8 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if (ipOut != self.SEGMENT_LENGTH): # A full last segment has already been counted
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From e388128a71dde517d134bf939191144d93a21128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 05/25] fix: neutral advance did not update the move vector
 seen by reflecting boundary functions

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 361534e..0c8a573 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2018,7 +2018,7 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector. (In place: the boundary functions have a reference to it.)
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From 302de0842248d97835f967f875b680ae3f4d3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 06/25] fix: C++ neutral advance in (x,y) searched for the
 crossed facet from a wrong starting point

---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From d67ac232831265d4c4f4a9ef749d70b9d591b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:36 +0000
Subject: [PATCH 07/25] fix: one full trajectory stopped the recording of all
 others (charged) or raised IndexError (neutral)

---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 0c8a573..9c4c11e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2764,7 +2764,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue # The other trajectories may still have room
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2801,6 +2801,11 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                # If there's no room for the new point, skip this trajectory.
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From 23558335c7726c840615594b96350474c3ea035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 08/25] fix: a species excluded from the solved field crashed
 the charged mover at a trajectory boundary crossing or with an external field

---
 Particle_Module.py                                      | 4 ++++
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 4 ++++
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++++
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 9c4c11e..2f4a0e5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1509,6 +1509,10 @@ class Particle_C(object):
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg] # A ref, not a copy.
 #                Eseg = self.zeroE[0:npSeg] # Is this the same as the 2 lines above?
+            if Eseg is None: # The solved field is not applied to this species
+                self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                Eseg = self.negE[0:npSeg]
+            Eext_seg = self.zeroE[0:npSeg] # Used if no external field is applied to this species
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..b9d3ee9 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -207,6 +207,10 @@
                       }
                   }
               }
+            else // The solved field is not applied to this species.
+              {
+                EsegPtr = &zeroE;
+              }
           }
         else
           {
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..a7b59cf 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -176,6 +176,10 @@
                       }
                   }
               }
+            else // The solved field is not applied to this species.
+              {
+                EsegPtr = &zeroE;
+              }
           }
         else
           {
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..3e09738 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -212,6 +212,10 @@
                       }
                   }
               }
+            else // The solved field is not applied to this species.
+              {
+                EsegPtr = &zeroE;
+              }
           }
         else
           {
-- 
2.43.0


From 63a39906217edea509558cbb76bfb164bca372c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 09/25] fix: C++ charged mover in (x,y) recorded only the x
 component of E at a boundary crossing

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index a7b59cf..547279f 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -369,13 +369,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From 3882e94519b41b5594ab093e0d2956bba6557b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 10/25] fix: C++ charged movers ignored accel_only and moved
 the particles

---
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 3 +++
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 3 +++
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index b9d3ee9..021ccc9 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -283,6 +283,8 @@
               }
 
             // Move the charged particle
+            if (!accel_only)
+              {
             // 1. Save the initial position
             psegOut[ipOut].x0_ = psegOut[ipOut].x_;
             //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
@@ -291,6 +293,7 @@
             psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
             //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
             //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 547279f..14440b8 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -247,6 +247,8 @@
               }
 
             // Move the charged particle
+            if (!accel_only)
+              {
             // 1. Save the initial position
             psegOut[ipOut].x0_ = psegOut[ipOut].x_;
             psegOut[ipOut].y0_ = psegOut[ipOut].y_;
@@ -255,6 +257,7 @@
             psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
             psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
             //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 3e09738..d8d23c9 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -288,6 +288,8 @@
               }
 
             // Move the charged particle
+            if (!accel_only)
+              {
             // 1. Save the initial position
             psegOut[ipOut].r0_ = psegOut[ipOut].r_;
             //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
@@ -296,6 +298,7 @@
             psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
             //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
             //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
-- 
2.43.0


From 2401b9ab9be819c43e35d4cd13146293e808eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 11/25] fix: compute_cell_index() returned 4294967295 for a
 point outside the mesh instead of reporting it

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..e13ac2d 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -466,7 +466,7 @@ class Mesh_C(object):
         # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
         # (eight Fs and F = 1111)
 #        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
+        if first >= self.mesh.num_cells(): # DOLFIN's "not found" is the unsigned value of -1
             print(fncName, ": particle is out of bounds")
             sys.exit()
 
-- 
2.43.0


From 502cb16a9291cde21c20db5b803bc71cedc58218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 12/25] fix: a history with max_points set raised NameError

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From 849a5ecb74dfcc9069c77970a3af97d7b9fb4b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:03 +0000
Subject: [PATCH 13/25] fix: a random external field with more than one
 component raised ValueError

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index e13ac2d..12222b2 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1196,7 +1196,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(len(fieldValue)):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From 1d68e29f49756238d90c8d8645ddb1783e9003a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:26 +0000
Subject: [PATCH 14/25] fix: the older charged mover raised TypeError when a
 tracked particle met a marked facet

---
 Particle_Module.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 2f4a0e5..a3cbb93 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1109,6 +1109,10 @@ class Particle_C(object):
                 else:
                     self.negE[0:npSeg] = self.zeroE[0:npSeg]
                     Eseg = self.negE[0:npSeg] # A ref, not a copy.
+                if Eseg is None: # The solved field is not applied to this species
+                    self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                    Eseg = self.negE[0:npSeg]
+                Eext_seg = self.zeroE[0:npSeg] # Used if no external field is applied to this species
                 if external_E_field is not None:
                     if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                         # Interpolate the external electric field to the particle positions
@@ -1302,7 +1306,16 @@ class Particle_C(object):
 # Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
 
 # Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    E1Comps = self.E1_comps # A convenience reference
+                                    for i in range(len(self.negE1.dtype.names)):
+                                        E1Comps[0][i] = Eseg[ipIn][i]
+                                    Eext1Comps = self.Eext1_comps # A convenience reference
+                                    if external_E_field is None:
+                                        Eext1Comps[0][:] = 0.0
+                                    else:
+                                        for i in range(len(self.Eext1.dtype.names)):
+                                            Eext1Comps[0][i] = Eext_seg[ipIn][i]
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, E_field_comps=E1Comps, external_E_field_comps=Eext1Comps, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
-- 
2.43.0


From 0e76f0fb397283f4c06ca48f8e8d815a345c5a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:33 +0000
Subject: [PATCH 15/25] fix: write_particles_to_file() ignored close_flag when
 the step had already been written

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index a3cbb93..3eca195 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3193,6 +3193,8 @@ class Particle_C(object):
         step = ctrl.timeloop_count
         if step == self.h5_last_write_step:
             if printInfoSecondCall is True: print(fncName, "\t\"Second call on timestep %d: return without rewriting the data!\"" % step)
+            if close_flag is True:
+                self.particle_output_handle.close()
             return
 
         # Create a new group for this timestep
-- 
2.43.0


From 539e0e592d28e4f152460a9ce87b12a6ca29d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:33 +0000
Subject: [PATCH 16/25] fix: a particle output file opened after a write in the
 same step stayed empty

---
 Particle_Module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 3eca195..10aa4f5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3163,6 +3163,7 @@ class Particle_C(object):
             h5File.attrs[key] = self.charge[s]
 
         self.h5_step_counter = 0
+        self.h5_last_write_step = -1 # Nothing has been written to this file yet
 
         # Flush the buffer
         self.particle_output_handle.flush()
-- 
2.43.0


From e4933fc71d2135817348eba87745745b60868a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 17/25] fix: initialize_particles() called the creation
 functions without the step argument, so function_over_region initialization
 raised TypeError

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 10aa4f5..8c4839d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -483,8 +483,9 @@ class Particle_C(object):
                 ipFunc = ipTuple[1]
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
+                step = 0
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
                 errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
-- 
2.43.0


From 7cdfbb341a88a3b4ab81f7fb1952e790055c5aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 18/25] fix: an unknown initial_distribution_type raised
 NameError instead of the intended error

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 8c4839d..896be15 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -487,7 +487,7 @@ class Particle_C(object):
                 time = 0.0
                 ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From 382d5c5440e3c19f1c1a0660fc56999bca452038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 19/25] fix: spherical cell volumes were negative for cells
 whose vertices are numbered inwards

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 12222b2..94c6c57 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -521,7 +521,7 @@ class Mesh_C(object):
                 coords = cell.get_vertex_coordinates()
                 x0 = coords[0]
                 x1 = coords[1]
-                volume = (4.0/3.0)*np_m.pi*(x1*x1*x1 - x0*x0*x0)
+                volume = (4.0/3.0)*np_m.pi*abs(x1*x1*x1 - x0*x0*x0)
                 self.cell_volume_dict[ci] = volume
 #                print("cell", ci, "volume", volume)                
         else:
-- 
2.43.0


From 64c676d53ac2c21138e831ccad905f66649b1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 20/25] fix: after compute_negE() the values of the field
 object were those of the previous field

---
 Dolfin_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 94c6c57..667ae87 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1736,6 +1736,8 @@ class PoissonSolve_C(object):
 
         function_space = self.neg_electric_field.function_space
         self.neg_electric_field.function = df_m.project(negE, function_space)
+        # Keep the alias to the solution vector in step with the new function
+        self.neg_electric_field.function_values = self.neg_electric_field.function.vector()
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From ee3d2e6679c6186494868c15c0fc1aeef49f2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:44 +0000
Subject: [PATCH 21/25] fix: UserMesh1DS_C could not read boundary markers from
 files and did not keep them

---
 UserMesh_y_Fields_Spherical1D_Module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..1a716d3 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,9 +187,11 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            fieldBoundaryMarker = df_m.MeshFunction("size_t", self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = fieldBoundaryMarker
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
+            particleBoundaryMarker = df_m.MeshFunction("size_t", self.mesh, particleBoundaryFile)
+            self.particle_boundary_marker = particleBoundaryMarker
 # or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
 
         return
-- 
2.43.0


From e1159b93a141fc9b5341291fe455aa62c303299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:45 +0000
Subject: [PATCH 22/25] fix: a string source density raised KeyError in
 assemble_source_expression()

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 667ae87..cb0a84d 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1603,7 +1603,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, degree=self.V.ufl_element().degree())
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From f914b11e8bd58fa96bd17a119fc3feef471bff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:45 +0000
Subject: [PATCH 23/25] fix: UserMesh_C left the particle boundaries of 1D and
 3D meshes unmarked

---
 UserMesh_y_Fields_FE_XYZ_Module.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 78a4911..a2ea2f9 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -118,6 +118,23 @@ class YBoundary_C(df_m.SubDomain):
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
 
+#STARTCLASS
+class ZBoundary_C(df_m.SubDomain):
+    """The ZBoundary_C class is a specialized SubDomain
+    """
+    # Set the Z value of the boundary in the constructor
+    def __init__(self, z_boundary_value, map_tol=1.0e-10):
+        self.z_boundary_value=z_boundary_value
+        # Pass the map_tol argument on to the base class
+        super(self.__class__, self).__init__(map_tol=1.0e-10)
+
+    # Return true for points inside the subdomain
+    def inside(self, x, on_boundary):
+        tol = 1.0e-10
+        return on_boundary and abs(x[2]-self.z_boundary_value) < tol
+
+#class ZBoundary_C(df_m.SubDomain):ENDCLASS
+
 #STARTCLASS
 class SourceXrange(df_m.SubDomain):
     """The SourceXrange class is a specialized SubDomain to used to
@@ -270,6 +287,10 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
                 # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with the non-zero integers in the dictionary
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
             else:
                 particleBoundaryMarker = None
             #   END:if particleBoundaryDict is not None:
@@ -387,6 +408,14 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
             # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with the non-zero integers in the dictionary
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
+                YBoundary_C(ymin).mark(particleBoundaryMarker, particleBoundaryDict['ymin'])
+                YBoundary_C(ymax).mark(particleBoundaryMarker, particleBoundaryDict['ymax'])
+                ZBoundary_C(zmin).mark(particleBoundaryMarker, particleBoundaryDict['zmin'])
+                ZBoundary_C(zmax).mark(particleBoundaryMarker, particleBoundaryDict['zmax'])
             else:
                 particleBoundaryMarker = None
 
-- 
2.43.0


From eae9a3eca9eef23a12d81fb1de662e8411137166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:45 +0000
Subject: [PATCH 24/25] fix: a source density was integrated without the r**2
 volume element in the spherical Poisson solver

---
 Dolfin_Module.py                        | 6 +++++-
 UserMesh_y_Fields_Spherical1D_Module.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index cb0a84d..81abf07 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1488,6 +1488,10 @@ class PoissonSolve_C(object):
         # A dolfin Argument
         self.w = df_m.TrialFunction(self.V)
 
+        # The factor that multiplies dx in integrals over the domain. Child classes
+        # for non-Cartesian coordinates replace it.
+        self.volume_element = 1.0
+
         # A dolfin GenericVector, providing a uniform interface to back-end vectors
         self.b = df_m.Vector(phi_F.mesh_M.mesh.mpi_comm(), phi_F.function_len)
 
@@ -1619,7 +1623,7 @@ class PoissonSolve_C(object):
         # volume-element factor in the definition of L (the volume-element is
         # needed to integrate over the domain).
             
-        L = source_expression*self.v*df_m.dx
+        L = source_expression*self.v*self.volume_element*df_m.dx
 #        self.b = df_m.assemble(L)
         self.b[:] = df_m.assemble(L) # b is reused
 
diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index 1a716d3..fdfe127 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -461,7 +461,8 @@ class UserPoissonSolve1DS_C(PoissonSolve_C):
         epsilon = df_m.Constant(constants.epsilon_0)
         r = df_m.SpatialCoordinate(self.V.mesh())
 
-        self.a = epsilon*df_m.inner(df_m.nabla_grad(self.w), df_m.nabla_grad(self.v))*r[0]**2*df_m.dx
+        self.volume_element = r[0]**2
+        self.a = epsilon*df_m.inner(df_m.nabla_grad(self.w), df_m.nabla_grad(self.v))*self.volume_element*df_m.dx
 
         # Specify whether 'a(u,v)' has time-independent coefficients.  If so, the
         # matrix A only needs to be assembled once, avoiding redundant work.
-- 
2.43.0


From f990c1af131a97030ea146f4d873fce6cbdce0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 25/25] fix: the charge of a species declared neutral was not
 ignored

---
 Particle_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 896be15..bfe5520 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -98,9 +98,10 @@ class ParticleSpecies_C(object):
         fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
 
         # Value checking
-        if printWarningNonZeroCharge is True:
-            if dynamics == 'neutral' and charge != 0:
+        if dynamics == 'neutral' and charge != 0:
+            if printWarningNonZeroCharge is True:
                 print(fncName, "\tDnT WARNING: Species %s is neutral, but has a non-zero value of electric charge: %.3g. The charge will be ignored." % (name, charge))
+            charge = 0.0
 
         self.name = name
         self.charge = charge
-- 
2.43.0

