From b26f3f46353502d4af47908d35eb09c015c50dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 01/37] fix: appending to a segmented array after a loop over
 its segments

push_back() counted on current_segment still being the last segment, which no
longer holds once a loop over the segments has run: crossing into the next
segment then failed the consistency assertion or wrote past the segment list,
and the segment of the newly added item could not be found.
---
 SegmentedArrayPair_Module.py | 4 ++++
 cpp/SegmentedArrayPair.h     | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..7bafe4d 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -103,6 +103,10 @@ class SegmentedArrayPair_C(object):
         # Abbreviations
         outSA = self.out_segmented_array
 
+        # New items go into the first segment that isn't full. A loop over the segments
+        # may have left current_segment at another segment.
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
         # If we've reached the end of the current segment, we need to switch to the next
         # segment, if there is one, or else add a new segment.
         if self.first_available_offset[outSA] == self.segment_length:
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..4665be6 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -290,6 +290,9 @@ namespace dnt
            If we've reached the end of the current segment, we need to switch to the
            next segment, if there is one, or else add a new segment.
         */
+        // New items go into the first segment that isn't full. A loop over the segments
+        // may have left current_segment at another segment.
+        current_segment[outSA] = first_not_full_segment[outSA];
         if (first_available_offset[outSA] == segment_length)
           {
             // If another segment is already available, use
@@ -359,6 +362,9 @@ namespace dnt
                   switch to the next segment, if there is one, or else add a new
                   segment.
         */
+        // New items go into the first segment that isn't full. A loop over the segments
+        // may have left current_segment at another segment.
+        current_segment[outSA] = first_not_full_segment[outSA];
         if (first_available_offset[outSA] == segment_length)
           {
             // If another segment is already available, use
@@ -420,6 +426,9 @@ namespace dnt
           If we've reached the end of the current segment, we need to switch to the
           next segment, if there is one, or else add a new segment.
         */
+        // New items go into the first segment that isn't full. A loop over the segments
+        // may have left current_segment at another segment.
+        current_segment[outSA] = first_not_full_segment[outSA];
         if (first_available_offset[outSA] == segment_length)
           {
             // If another segment is already available, use
-- 
2.43.0


From 884f9734b6817525ebb5bea5136dc65ca2900a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 02/37] fix: setting the number of items in a segmented array
 to zero

The last-item arithmetic gave segment -1 (Python) or, with a segment length of
1, an unsigned wrap-around (C++), so an emptied array handed out stale items or
failed.
---
 SegmentedArrayPair_Module.py | 3 +++
 cpp/SegmentedArrayPair.h     | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 7bafe4d..c628002 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -489,6 +489,9 @@ class SegmentedArrayPair_C(object):
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
         (seg, offset) = divmod(n_items-1, self.segment_length)
+        # If there are no items left, the first available location is the start of the
+        # first segment.
+        if n_items == 0: (seg, offset) = (0, -1)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 4665be6..05c9a3b 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -234,6 +234,13 @@ namespace dnt
         // (seg, offset) = divmod(n_items-1, self.segment_length)
         auto seg = (py::ssize_t) (n_items-1) / segment_length;
         auto offset = (n_items - 1) % segment_length;
+        // If there are no items left, the first available location is the start of the
+        // first segment.
+        if (n_items == 0)
+          {
+            seg = 0;
+            offset = -1;
+          }
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From aac36806290fb2d4a7793334b69f414c20bba626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 03/37] fix: uniform-field mover counted a full last segment
 twice

---
 Particle_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..b0d6f0a 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,8 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        if (ipOut != self.SEGMENT_LENGTH): # A full last segment has already been counted.
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From 1c7a792a004da229554d5e6adeac771d2bd8fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 04/37] fix: C++ neutral mover in x-y looked for the facet from
 the wrong starting point

The starting position was stored at offsets 3 and 4 of a 4-element array, while
find_facet() was given the address of element 2.
---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From 25946ca31e5cec2becbaeceb75c43dd4bfe2b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:29 +0000
Subject: [PATCH 05/37] fix: neutral mover left self.dx stale for reflecting
 boundary functions

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index b0d6f0a..63f1fe8 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2018,7 +2018,7 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From 86ccf6aa5748d21bb429a9415c3b4a074f08bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 06/37] fix: reflection read past the facet normal when the
 mesh has fewer dimensions than the particles

---
 cpp/Pstruct.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/cpp/Pstruct.h b/cpp/Pstruct.h
index 5d76a79..4108748 100644
--- a/cpp/Pstruct.h
+++ b/cpp/Pstruct.h
@@ -237,13 +237,17 @@ namespace dnt
       {
         auto sn = surface_normal.unchecked<1>();
 
-        auto n_dot_dx = sn[0]*dx[0] + sn[1]*dx[1];
-        auto n_dot_u = sn[0]*ux_ + sn[1]*uy_;
+        // On a 1D mesh, the normal has fewer components than the particle position
+        const double n0 = sn[0];
+        const double n1 = sn.shape(0) > 1 ? sn[1] : 0.0;
 
-        x_ -= 2.0 * n_dot_dx * sn[0];
-        y_ -= 2.0 * n_dot_dx * sn[1];
-        ux_ -= 2.0 * n_dot_u * sn[0];
-        uy_ -= 2.0 * n_dot_u * sn[1];
+        auto n_dot_dx = n0*dx[0] + n1*dx[1];
+        auto n_dot_u = n0*ux_ + n1*uy_;
+
+        x_ -= 2.0 * n_dot_dx * n0;
+        y_ -= 2.0 * n_dot_dx * n1;
+        ux_ -= 2.0 * n_dot_u * n0;
+        uy_ -= 2.0 * n_dot_u * n1;
       }
       
       //! Set the member values from a tuple
@@ -378,15 +382,20 @@ namespace dnt
       {
         auto sn = surface_normal.unchecked<1>();
 
-        auto n_dot_dx = sn[0]*dx[0] + sn[1]*dx[1] + sn[2]*dx[2];
-        auto n_dot_u = sn[0]*ux_ + sn[1]*uy_ + sn[2]*uz_;
+        // On a 1D or 2D mesh, the normal has fewer components than the particle position
+        const double n0 = sn[0];
+        const double n1 = sn.shape(0) > 1 ? sn[1] : 0.0;
+        const double n2 = sn.shape(0) > 2 ? sn[2] : 0.0;
 
-        x_ -= 2.0 * n_dot_dx * sn[0];
-        y_ -= 2.0 * n_dot_dx * sn[1];
-        z_ -= 2.0 * n_dot_dx * sn[2];
-        ux_ -= 2.0 * n_dot_u * sn[0];
-        uy_ -= 2.0 * n_dot_u * sn[1];
-        uz_ -= 2.0 * n_dot_u * sn[2];
+        auto n_dot_dx = n0*dx[0] + n1*dx[1] + n2*dx[2];
+        auto n_dot_u = n0*ux_ + n1*uy_ + n2*uz_;
+
+        x_ -= 2.0 * n_dot_dx * n0;
+        y_ -= 2.0 * n_dot_dx * n1;
+        z_ -= 2.0 * n_dot_dx * n2;
+        ux_ -= 2.0 * n_dot_u * n0;
+        uy_ -= 2.0 * n_dot_u * n1;
+        uz_ -= 2.0 * n_dot_u * n2;
       }
     
       //! Set the member values from a tuple
-- 
2.43.0


From 2e43ce935b0feeb5482c770a5036d651caa91ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:49 +0000
Subject: [PATCH 07/37] fix: C++ uniform-field mover failed on a species with
 no particles

---
 ...advance_charged_species_in_uniform_fields_cartesian_xyz.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
index deb9ac2..17fecf2 100644
--- a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
+++ b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
@@ -46,6 +46,9 @@
     const py::ssize_t segmentLength = sap->get_segment_length();
     
     // Start a loop over the sap segments. segTuple contains (npSeg, psegIn, psegOut)
+    if (sap->get_number_of_items() == 0) // There's nothing to advance
+      return;
+
     py::tuple segTuple = sap->init_inout_loop(true); // 'true' returns the data pointers for
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
-- 
2.43.0


From be54fb2cc27a39250d7f35239e0eef9f2d9f6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 08/37] fix: random external field could not be interpolated
 with one force component

---
 Dolfin_Module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..c2351cb 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1196,7 +1196,8 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            for d in range(len(fieldValue)):
+                field_at_points[ip][d] = fieldValue[d]
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From 071f3bc85d5c3e3da57a23416d30cc90d340cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:46 +0000
Subject: [PATCH 09/37] fix: random external field was evaluated at unused
 slots of a particle segment

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 63f1fe8..be4c1eb 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1512,7 +1512,7 @@ class Particle_C(object):
             if external_E_field is not None:
                 if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                     # Interpolate the external electric field to the particle positions
-                    external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
+                    external_E_field.interpolate_random_field_to_points(psegIn[0:npSeg], self.Eext)
                     Eext_seg = self.Eext[0:npSeg]
                     # The following is a vector operation on each component of E. This is the best
                     # you can do for a structured array. I'm not sure that you can add arrays
-- 
2.43.0


From 6a445f4b44d454a319c1557f9c2c46e2e97d34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:00 +0000
Subject: [PATCH 10/37] fix: mover failed when the solved or the external field
 is switched off for a species

---
 Particle_Module.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index be4c1eb..05e704b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1490,7 +1490,10 @@ class Particle_C(object):
             #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
             #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
-            Eseg = None # This is for the case where no fields are to be applied to the particles,
+            # This is for the case where no fields are to be applied to the particles.
+            self.negE[0:npSeg] = self.zeroE[0:npSeg]
+            Eseg = self.negE[0:npSeg]
+            Eext_seg = None
             if neg_E_field is not None:
                 if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                     # Interpolate the solved electric field to the particle positions
@@ -1754,7 +1757,7 @@ class Particle_C(object):
                                     E1Comps[0][i] = Eseg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
-                                if external_E_field is None:
+                                if Eext_seg is None:
                                     Eext1Comps[0][:] = 0.0
                                 else:
                                     for i in range(len(self.Eext1.dtype.names)):
-- 
2.43.0


From fdabe9100c134c36a6d73c1f77c991ecc1bba0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:28 +0000
Subject: [PATCH 11/37] fix: C++ charged-particle movers ignored accel_only

---
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 5 ++++-
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 5 ++++-
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..8e46a3b 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -278,7 +278,9 @@
                 //psegOut[ipOut].uz_ = psegIn[ipIn].uz_ + qmdt*EsegProxy(ipIn, 2);
               }
 
-            // Move the charged particle
+            // Move the charged particle, unless it's only to be accelerated
+            if (accel_only == false)
+              {
             // 1. Save the initial position
             psegOut[ipOut].x0_ = psegOut[ipOut].x_;
             //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
@@ -287,6 +289,7 @@
             psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
             //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
             //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..844eaea 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -242,7 +242,9 @@
                 //psegOut[ipOut].uz_ = psegIn[ipIn].uz_ + qmdt*EsegProxy(ipIn, 2);
               }
 
-            // Move the charged particle
+            // Move the charged particle, unless it's only to be accelerated
+            if (accel_only == false)
+              {
             // 1. Save the initial position
             psegOut[ipOut].x0_ = psegOut[ipOut].x_;
             psegOut[ipOut].y0_ = psegOut[ipOut].y_;
@@ -251,6 +253,7 @@
             psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
             psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
             //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..8db30b9 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -283,7 +283,9 @@
                 //psegOut[ipOut].uz_ = psegIn[ipIn].uz_ + qmdt*EsegProxy(ipIn, 2);
               }
 
-            // Move the charged particle
+            // Move the charged particle, unless it's only to be accelerated
+            if (accel_only == false)
+              {
             // 1. Save the initial position
             psegOut[ipOut].r0_ = psegOut[ipOut].r_;
             //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
@@ -292,6 +294,7 @@
             psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
             //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
             //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
-- 
2.43.0


From 23d9d046c8790ea8b8e25901ccaafde1302fb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:28 +0000
Subject: [PATCH 12/37] fix: C++ movers dereferenced a null field when it is
 switched off for a trajectory species

---
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp  | 2 +-
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 2 +-
 cpp/advance_charged_species_in_E_field_spherical_r.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 8e46a3b..ae108ac 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -176,7 +176,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE;
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_x@3" << std::endl;
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 844eaea..bee594a 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -145,7 +145,7 @@
 
     //std::cout << "Hello from advance_charged_species_in_E_field_cartesian_xy@2" << std::endl;
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE;
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 8db30b9..273fd77 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -179,7 +179,7 @@
 
     // Loop over the particles in this species
     
-    py::array_t<double>* EsegPtr = nullptr;
+    py::array_t<double>* EsegPtr = &zeroE;
     while (psegIn != nullptr) // Keep looping until we run out of "in" segments.
       {
         //std::cout << "Hello from advance_charged_species_in_E_field_spherical_r@3" << std::endl;
-- 
2.43.0


From bf5dc99c73988552c08bacd6fe0143ec7a113aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:28 +0000
Subject: [PATCH 13/37] fix: C++ x-y mover recorded only one field component at
 a boundary crossing

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index bee594a..64d4f32 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -368,13 +368,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From 0ea654970b6c4bca940d9804b8b582b33096b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:02 +0000
Subject: [PATCH 14/37] fix: a full trajectory stopped the recording of all the
 others

---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 05e704b..0abd733 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2767,7 +2767,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2804,6 +2804,11 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
+
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From d356ebcb168131c6fdedfb1886cf3791cc766ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 15/37] fix: particle number and kinetic energy included unused
 slots of the last C++ segment

---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 0abd733..7db5443 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,7 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -799,7 +799,7 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From f5ecba379e1f81475de63fbcd07cea0b5185258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 16/37] fix: NameError when a history is limited to max_points

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From 8ceb2cc3b3943e22f20c4a6b5248ba2779b344aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:29 +0000
Subject: [PATCH 17/37] fix: recording a history past the end of its storage
 raised IndexError

---
 Particle_Module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 7db5443..251e019 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2844,7 +2844,10 @@ class Particle_C(object):
 #        self.histories.data_array.dtype.names:
 
         counter = self.histories.counter
-        
+        if counter > self.histories.npoints - 1:
+            print("%s\tDnT WARNING: Index %d on step %d exceeds array size %d. Point will not be recorded." % (fncName, counter, step, self.histories.npoints))
+            return
+
         self.histories.data_array['step'][counter] = step
         self.histories.data_array['t'][counter] = time
 
-- 
2.43.0


From 3dfb9905a74a6db44e68f81dda511ed76e2af298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:25 +0000
Subject: [PATCH 18/37] fix: initialize_particles could not create particles
 over a region

---
 Particle_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 251e019..ac078b5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -484,9 +484,10 @@ class Particle_C(object):
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                step = 0
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From ec1d416fba61a02ccd2268afae322b422c3c88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:02 +0000
Subject: [PATCH 19/37] fix: no trajectory could be started for a source
 particle in a run without forces

---
 Particle_Module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index ac078b5..f68451d 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3061,6 +3061,9 @@ class Particle_C(object):
                         
                         # Record the initial datum for this new trajectory
 
+                        if self.force_components is None: # There are no fields to record
+                            self.record_trajectory_datum(speciesName, segIndex, fullIndex, step, time)
+                            continue
                         E1Comps = self.E1_comps # A convenience reference
                         # Compute the solved E-field at the particle
                         if neg_E_field is None:
-- 
2.43.0


From bc763b084f199e170409fad057f2044907a11505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 20/37] fix: C++ find_facet read out of bounds or exited when
 the path ends inside the cell

---
 cpp/dolfin_functions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpp/dolfin_functions.cpp b/cpp/dolfin_functions.cpp
index e6e7703..fefac90 100644
--- a/cpp/dolfin_functions.cpp
+++ b/cpp/dolfin_functions.cpp
@@ -253,6 +253,10 @@ namespace dnt
             exit(EXIT_FAILURE);
           }
         
+        if (facet == NO_FACET) // The path ends inside the cell, so there's no facet-normal to return.
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -359,6 +363,10 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+        if (facet == NO_FACET) // The path ends inside the cell, so there's no facet-normal to return.
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -457,8 +465,8 @@ namespace dnt
               }
           }
 
-        std::cout << "dolfin_functions.cpp::find_facet() for gDim = 1: Should never get here!!!" << std::endl;
-        exit(EXIT_FAILURE);
+        // The path ends inside the cell, so there's no facet-normal to return.
+        return py::make_tuple(facet, dxFraction, nullptr);
                                      
       } // else if (gDim == 1)
 
-- 
2.43.0


From c76fd8d08f07b84d080c7db5ea4c8a4536972184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 21/37] fix: a source density given as a string could not be
 assembled

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index c2351cb..f59fb5c 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1603,7 +1603,7 @@ class PoissonSolve_C(object):
         if source_density is None:
             source_expression = df_m.Constant(0.0)
         elif isinstance(source_density, str):
-            source_expression = df_m.Expression(source_density)
+            source_expression = df_m.Expression(source_density, element=self.V.ufl_element())
         elif isinstance(source_density, float):
             source_expression = df_m.Constant(source_density)
         elif isinstance(source_density, int):
-- 
2.43.0


From 5da222a0589f4c4c64cc254fc902a95cacc87f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 22/37] fix: the source density had no volume element in
 spherical coordinates

---
 Dolfin_Module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index f59fb5c..d30bf6f 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1479,6 +1479,8 @@ class PoissonSolve_C(object):
         """
 
 
+        # The coordinate system determines the volume-element in the source term
+        self.coordinate_system = phi_F.mesh_M.coordinate_system
         # The finite-element function space
         self.V = phi_F.function_space
         # A dolfin Function
@@ -1620,6 +1622,9 @@ class PoissonSolve_C(object):
         # needed to integrate over the domain).
             
         L = source_expression*self.v*df_m.dx
+        if self.coordinate_system == '1D-spherical-radial':
+            r = df_m.SpatialCoordinate(self.V.mesh())
+            L = source_expression*self.v*r[0]**2*df_m.dx
 #        self.b = df_m.assemble(L)
         self.b[:] = df_m.assemble(L) # b is reused
 
-- 
2.43.0


From e206950a98248e4572736659b9eb16d2a431e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 23/37] fix: solve_for_phi multiplied the caller's charge by
 the spacecharge factor

---
 Dolfin_Module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index d30bf6f..47d528b 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1686,10 +1686,10 @@ class PoissonSolve_C(object):
         # Charge sources (e.g., from delta-function kinetic particles) that are
         # already in the format needed to be added directly to the source-term b.
         if assembled_charge is not None:
-            # Apply a spacecharge multiplier
-            if assembled_charge_factor is not None:
-                assembled_charge.function_values[:] *= assembled_charge_factor
             self.b[:] = assembled_charge.function_values
+            # Apply a spacecharge multiplier (to b, so that the caller's charge is unchanged)
+            if assembled_charge_factor is not None:
+                self.b *= assembled_charge_factor
             
             # Apply the boundary conditions
             for bc in self.bcs:
-- 
2.43.0


From 73d49f3ae06c92b5d6bd2ff85de2337309a9d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 24/37] fix: function_values of the electric field were left
 behind by a field solve

---
 Dolfin_Module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 47d528b..b1197a7 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1741,6 +1741,7 @@ class PoissonSolve_C(object):
 
         function_space = self.neg_electric_field.function_space
         self.neg_electric_field.function = df_m.project(negE, function_space)
+        self.neg_electric_field.function_values = self.neg_electric_field.function.vector() # Keep the alias current
         if plot_flag is True:
             df_m.plot(self.neg_electric_field.function, title=plot_title+": -E")
             mplot_m.show()
-- 
2.43.0


From 27c23e8ab47a036cc34c7418f679af9458b3f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 25/37] fix: compute_cell_index returned an invalid index for a
 point outside the mesh

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index b1197a7..44588a7 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -466,9 +466,9 @@ class Mesh_C(object):
         # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
         # (eight Fs and F = 1111)
 #        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
+        if first == np_m.iinfo(np_m.uint32).max:
             print(fncName, ": particle is out of bounds")
-            sys.exit()
+            first = Mesh_C.NO_CELL
 
         return first
 #    def compute_cell_index(self, point):ENDDEF
-- 
2.43.0


From 4c5b5c9ef96216f0ff371b4fad15e72008240468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 26/37] fix: spherical cell volumes were negative if the
 vertices are numbered inward

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 44588a7..17833f9 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -521,7 +521,7 @@ class Mesh_C(object):
                 coords = cell.get_vertex_coordinates()
                 x0 = coords[0]
                 x1 = coords[1]
-                volume = (4.0/3.0)*np_m.pi*(x1*x1*x1 - x0*x0*x0)
+                volume = (4.0/3.0)*np_m.pi*abs(x1*x1*x1 - x0*x0*x0)
                 self.cell_volume_dict[ci] = volume
 #                print("cell", ci, "volume", volume)                
         else:
-- 
2.43.0


From fb1e607f2a61b088da43023cc199b50c45439269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 27/37] fix: particle boundaries of 1D and 3D Cartesian meshes
 were not marked

---
 UserMesh_y_Fields_FE_XYZ_Module.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/UserMesh_y_Fields_FE_XYZ_Module.py b/UserMesh_y_Fields_FE_XYZ_Module.py
index 78a4911..a07323a 100644
--- a/UserMesh_y_Fields_FE_XYZ_Module.py
+++ b/UserMesh_y_Fields_FE_XYZ_Module.py
@@ -118,6 +118,23 @@ class YBoundary_C(df_m.SubDomain):
 
 #class YBoundary_C(df_m.SubDomain):ENDCLASS
 
+#STARTCLASS
+class ZBoundary_C(df_m.SubDomain):
+    """The ZBoundary_C class is a specialized SubDomain
+    """
+    # Set the Z value of the boundary in the constructor
+    def __init__(self, z_boundary_value, map_tol=1.0e-10):
+        self.z_boundary_value=z_boundary_value
+        # Pass the map_tol argument on to the base class
+        super(self.__class__, self).__init__(map_tol=1.0e-10)
+
+    # Return true for points inside the subdomain
+    def inside(self, x, on_boundary):
+        tol = 1.0e-10
+        return on_boundary and abs(x[2]-self.z_boundary_value) < tol
+
+#class ZBoundary_C(df_m.SubDomain):ENDCLASS
+
 #STARTCLASS
 class SourceXrange(df_m.SubDomain):
     """The SourceXrange class is a specialized SubDomain to used to
@@ -270,6 +287,10 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
                 # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with non-zero size_t integers
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
             else:
                 particleBoundaryMarker = None
             #   END:if particleBoundaryDict is not None:
@@ -387,6 +408,14 @@ class UserMesh_C(Mesh_C):
                 particleBoundaryMarker = df_m.MeshFunction('size_t', mesh_df, mesh_df.topology().dim()-1)
             # Initialize all mesh facets with a default value of 0.
                 particleBoundaryMarker.set_all(0)
+
+                # Mark the boundaries with non-zero size_t integers
+                XBoundary_C(xmin).mark(particleBoundaryMarker, particleBoundaryDict['xmin'])
+                XBoundary_C(xmax).mark(particleBoundaryMarker, particleBoundaryDict['xmax'])
+                YBoundary_C(ymin).mark(particleBoundaryMarker, particleBoundaryDict['ymin'])
+                YBoundary_C(ymax).mark(particleBoundaryMarker, particleBoundaryDict['ymax'])
+                ZBoundary_C(zmin).mark(particleBoundaryMarker, particleBoundaryDict['zmin'])
+                ZBoundary_C(zmax).mark(particleBoundaryMarker, particleBoundaryDict['zmax'])
             else:
                 particleBoundaryMarker = None
 
-- 
2.43.0


From f1cdb363836bfe280420c9886e1985493d572a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 28/37] fix: boundary markers of a spherical mesh could not be
 read from files

---
 UserMesh_y_Fields_Spherical1D_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UserMesh_y_Fields_Spherical1D_Module.py b/UserMesh_y_Fields_Spherical1D_Module.py
index ca577aa..998670b 100644
--- a/UserMesh_y_Fields_Spherical1D_Module.py
+++ b/UserMesh_y_Fields_Spherical1D_Module.py
@@ -187,9 +187,9 @@ class UserMesh1DS_C(Mesh_C):
         fieldBoundaryFile = mesh_input.field_boundary_file
         particleBoundaryFile = mesh_input.particle_boundary_file
         if fieldBoundaryFile is not None:
-            fieldBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, fieldBoundaryFile)
+            self.field_boundary_marker = df_m.MeshFunction("size_t", self.mesh, fieldBoundaryFile)
         if particleBoundaryFile is not None:
-            particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, particleBoundaryFile)
+            self.particle_boundary_marker = df_m.MeshFunction("size_t", self.mesh, particleBoundaryFile)
 # or:       particleBoundaryMarker = df_m.MeshFunctionSizet(self.mesh, "Pbcs_quarter_circle_mesh_crossed.xml")
 
         return
-- 
2.43.0


From 87eb2960a16ef41e0004c7412e063cb0434ab2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:21 +0000
Subject: [PATCH 29/37] fix: set_gaussian_values on a region with more cells
 than DoFs overran the scratch array

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 17833f9..38e1ffb 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1063,8 +1063,8 @@ class Field_C(object):
         else:
             self.function_values[:] = 0.0 # Initialize all the elements to zero.
             numberOfValues = subdomain.ncell
-            randomVals = self.scratch_array # Alias to a numpy scratch array
-            randomVals[0:numberOfValues] = np_m.random.normal(0.0, standard_deviation, numberOfValues)
+            # One value per cell: there can be more cells than DoFs, so don't use self.scratch_array.
+            randomVals = np_m.random.normal(0.0, standard_deviation, numberOfValues)
 
 # Replace cell-loop with a loop over unique DoFs. It's OK as-is for the E-field, which is a cell quantity.
             
-- 
2.43.0


From 2dbcd43a56147b6100dcb9a174fde22229bd5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:17 +0000
Subject: [PATCH 30/37] fix: the first write to a new particle output file was
 skipped if the previous file was written on the same step

---
 Particle_Module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index f68451d..b167278 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3156,6 +3156,7 @@ class Particle_C(object):
             h5File.attrs[key] = self.charge[s]
 
         self.h5_step_counter = 0
+        self.h5_last_write_step = -1 # Nothing has been written to this file yet
 
         # Flush the buffer
         self.particle_output_handle.flush()
-- 
2.43.0


From 6de39a38cad87a36dd621156ecbff7560c9fe7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:17 +0000
Subject: [PATCH 31/37] fix: write_particles_to_file did not close the file
 when the step had already been written

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index b167278..7206507 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3187,6 +3187,8 @@ class Particle_C(object):
         step = ctrl.timeloop_count
         if step == self.h5_last_write_step:
             if printInfoSecondCall is True: print(fncName, "\t\"Second call on timestep %d: return without rewriting the data!\"" % step)
+            if close_flag is True:
+                self.particle_output_handle.close()
             return
 
         # Create a new group for this timestep
-- 
2.43.0


From a0a56b197e94f4165a17dcd2d4d1c5dd3c3e812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:48 +0000
Subject: [PATCH 32/37] fix: fast_expansion_sum_zeroelim read one element past
 the end of its operands

---
 cpp/predicates.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cpp/predicates.cpp b/cpp/predicates.cpp
index db9356a..a6c4b66 100644
--- a/cpp/predicates.cpp
+++ b/cpp/predicates.cpp
@@ -1068,19 +1068,19 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    if (++eindex < elen) enow = e[eindex];
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    if (++findex < flen) fnow = f[findex];
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      if (++eindex < elen) enow = e[eindex];
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      if (++findex < flen) fnow = f[findex];
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -1089,10 +1089,10 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        if (++eindex < elen) enow = e[eindex];
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        if (++findex < flen) fnow = f[findex];
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -1102,7 +1102,7 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    if (++eindex < elen) enow = e[eindex];
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -1110,7 +1110,7 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    if (++findex < flen) fnow = f[findex];
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
-- 
2.43.0


From b1aedb5d4b5a5d4fe8e190a036c79458dbcb24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:40 +0000
Subject: [PATCH 33/37] fix: move_particles_in_electrostatic_field failed with
 the solved field switched off and interpolated the external field past the
 stored particles

---
 Particle_Module.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 7206507..cd1939e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1092,7 +1092,9 @@ class Particle_C(object):
 #                print("position:", psegIn['x'][0:npSeg], psegIn['y'][0:npSeg]) #, psegIn['z']
 #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
-                Eseg = None # This is for the case where no fields are to be applied to the particles,
+                # This is for the case where no fields are to be applied to the particles.
+                self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                Eseg = self.negE[0:npSeg]
                 if neg_E_field is not None:
                     if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                         # Interpolate the solved electric field to the particle positions
@@ -1113,7 +1115,7 @@ class Particle_C(object):
                 if external_E_field is not None:
                     if ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True:
                         # Interpolate the external electric field to the particle positions
-                        external_E_field.interpolate_random_field_to_points(psegIn, self.Eext)
+                        external_E_field.interpolate_random_field_to_points(psegIn[0:npSeg], self.Eext)
                         Eext_seg = self.Eext[0:npSeg]
                         # The following is a vector operation on each component of E. This is the best
                         # you can do for a structured array. I'm not sure that you can add arrays
-- 
2.43.0


From 7979afce9ee275f144f8658d5fcfb24ee87e9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:41 +0000
Subject: [PATCH 34/37] fix: move_particles_in_electrostatic_field failed when
 a trajectory particle crossed a boundary

---
 Particle_Module.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index cd1939e..fb77989 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1095,6 +1095,7 @@ class Particle_C(object):
                 # This is for the case where no fields are to be applied to the particles.
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg]
+                Eext_seg = None
                 if neg_E_field is not None:
                     if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                         # Interpolate the solved electric field to the particle positions
@@ -1302,10 +1303,16 @@ class Particle_C(object):
                                     # Get the storage index that currently identifies this
                                     # particle in the trajectory list.
                                     fullIndex = sap.get_full_index(ipIn, "in")
-# Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
 
-# Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    # Record the fields that were interpolated to the
+                                    # starting point of the particle.
+                                    E1Comps = self.E1_comps # A convenience reference
+                                    Eext1Comps = self.Eext1_comps # A convenience reference
+                                    for i in range(len(self.negE1.dtype.names)):
+                                        E1Comps[0][i] = Eseg[ipIn][i]
+                                        Eext1Comps[0][i] = 0.0 if Eext_seg is None else Eext_seg[ipIn][i]
+
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, E_field_comps=E1Comps, external_E_field_comps=Eext1Comps, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
-- 
2.43.0


From 3e519a3109cbdcb86c0951a08dfee6bf18bca30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 35/37] fix: source particles could not be placed near the far
 corner of a long thin cell

---
 Dolfin_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 38e1ffb..edc694f 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1843,7 +1843,9 @@ class CellSet_C(object):
             midp = c.midpoint()
             for i in range(self.gdim):
                 self.midpoint[icell][i] = midp[i]
-            self.radius[icell] = c.circumradius()
+            # The distance from the mid-point to the farthest vertex. (This can be larger
+            # than the circumradius, whose center is generally not the mid-point.)
+            self.radius[icell] = max(midp.distance(v.point()) for v in df_m.vertices(c))
             
         return
 #    def __init__(self, mesh, plot_flag=False):ENDDEF
-- 
2.43.0


From 12d4c0aa4cc30dcf4bcd6e0785bdb3b87aac5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 36/37] fix: moving charged particles with the C++ movers and
 no solved field failed

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index fb77989..01a01b5 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1413,7 +1413,7 @@ class Particle_C(object):
             if self.use_cpp_integrators is True:
                 # Advance the particles in this species with C++
                 # Pull out the field data needed for interpolation to the particles
-                negEfieldFunction = neg_E_field.function.cpp_object() # Received as a dolfin::Function*
+                negEfieldFunction = None if neg_E_field is None else neg_E_field.function.cpp_object() # Received as a dolfin::Function*
                 self.integrators[sn](self, sn, ctrl, neg_E_field=negEfieldFunction, external_E_field=external_E_field, accel_only=accel_only)
             else:
                 # Advance the particles in this species with Python
-- 
2.43.0


From abb2ed0ce6bc8046fdded888620acd319607d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:32 +0000
Subject: [PATCH 37/37] fix: the error messages of the Python neutral mover
 used an undefined name

---
 Particle_Module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 01a01b5..b6bab67 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1910,6 +1910,8 @@ class Particle_C(object):
 
         """
 
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
+
         printInfoBoundaryCrossing = False
         
         # Set local names for the passed parameters
-- 
2.43.0

