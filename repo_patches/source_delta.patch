From aed1a4e2ed90a0da8e64269351bfba8e8e7a49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 1/8] fix: lines starting on a cell border were one cell off

CalcLinePos replaced a zero distance to the first border by one full cell,
whatever the direction of the line. This is right for a line that stays on the
border or that leaves it through the whole cell it was rounded to, but a line
crossing the border at its start was reported one cell (or one layer) behind
along its whole length.
---
 soil_simulator/body_pos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index 11aefc3..c52d6f5 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -785,11 +785,11 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
         dz = 1e-10;
 
     // Avoiding issue when at cell boundary
-    if (t_max_x == 0.0)
+    if ((t_max_x == 0.0) && (x1 == x2))
         t_max_x = 1;
-    if (t_max_y == 0.0)
+    if ((t_max_y == 0.0) && (y1 == y2))
         t_max_y = 1;
-    if (t_max_z == 0.0)
+    if ((t_max_z == 0.0) && (step_z == -1))
         t_max_z = 1;
 
     // Determining how long on the line to cross the cell
-- 
2.43.0


From 4e2bd053f349b8f8ff0c45c8f0ccb448f9fa13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 2/8] fix: do not write emptied body soil to the output file

An avalanche that takes all the soil from a wall leaves a body soil layer
without thickness. WriteSoil wrote a row for it, as if soil were there, and
omitted the dummy row when only such layers were left.
---
 soil_simulator/utils.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/soil_simulator/utils.cpp b/soil_simulator/utils.cpp
index 444b0a6..54bba38 100644
--- a/soil_simulator/utils.cpp
+++ b/soil_simulator/utils.cpp
@@ -536,31 +536,27 @@ void soil_simulator::WriteSoil(
     std::ofstream body_soil_file;
     body_soil_file.open(new_body_soil_filename);
     body_soil_file << "x,y,z\n";
-    if (sim_out->body_soil_pos_.size() == 0) {
-        // No soil is resting on the body
-        // Writing a dummy position for paraview
-        body_soil_file << grid.vect_x_[0] << "," << grid.vect_y_[0] << ","
-                << grid.vect_z_[0] << "\n";
-    } else {
-        for (auto ii = 0; ii < sim_out->terrain_.size(); ii++)
-            for (auto jj = 0; jj < sim_out->terrain_[0].size(); jj++) {
-                if (
-                    (sim_out->body_soil_[0][ii][jj] != 0.0) ||
-                    (sim_out->body_soil_[1][ii][jj] != 0.0)) {
-                    // Body soil is present
-                    body_soil_file << grid.vect_x_[ii] << "," <<
-                        grid.vect_y_[jj] << "," <<
-                        sim_out->body_soil_[1][ii][jj] << "\n";
-                }
+    bool no_soil = true;
+    for (auto ii = 0; ii < sim_out->terrain_.size(); ii++)
+        for (auto jj = 0; jj < sim_out->terrain_[0].size(); jj++)
+            for (auto ind = 0; ind < 4; ind += 2) {
+                // Avalanches may leave body soil with no thickness behind
                 if (
-                    (sim_out->body_soil_[2][ii][jj] != 0.0) ||
-                    (sim_out->body_soil_[3][ii][jj] != 0.0)) {
+                    sim_out->body_soil_[ind+1][ii][jj] -
+                    sim_out->body_soil_[ind][ii][jj] >
+                    0.5 * grid.cell_size_z_) {
                     // Body soil is present
                     body_soil_file << grid.vect_x_[ii] << "," <<
                         grid.vect_y_[jj] << "," <<
-                        sim_out->body_soil_[3][ii][jj] << "\n";
+                        sim_out->body_soil_[ind+1][ii][jj] << "\n";
+                    no_soil = false;
                 }
             }
+    if (no_soil) {
+        // No soil is resting on the body
+        // Writing a dummy position for paraview
+        body_soil_file << grid.vect_x_[0] << "," << grid.vect_y_[0] << ","
+                << grid.vect_z_[0] << "\n";
     }
 }
 
-- 
2.43.0


From 16446499771c3ecd81ace6ba41c68f440fc4a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:31 +0000
Subject: [PATCH 3/8] fix: carried soil far above the walls fell to the ground
 in grids with many metres or millimetres per cell

UpdateBodySoil initialised the smallest vertical distance, a length, with a
number of cells. In a simulation whose length unit makes cells larger than
one unit (e.g. millimetres), walls further away than that were ignored and
the soil was dropped on the terrain.
---
 soil_simulator/body_soil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/body_soil.cpp b/soil_simulator/body_soil.cpp
index c617f4a..2042e19 100644
--- a/soil_simulator/body_soil.cpp
+++ b/soil_simulator/body_soil.cpp
@@ -8,6 +8,7 @@ Copyright, 2023, Vilella Kenny.
 #include <algorithm>
 #include <cmath>
 #include <iostream>
+#include <limits>
 #include <vector>
 #include "soil_simulator/body_soil.hpp"
 #include "soil_simulator/types.hpp"
@@ -117,7 +118,7 @@ void soil_simulator::UpdateBodySoil(
         int ii_s;
         int jj_s;
         int ind_s;
-        float dist_s = 2 * grid.half_length_z_;
+        float dist_s = std::numeric_limits<float>::max();
 
         // Starting loop over neighbours
         for (auto xy = 0; xy < directions.size(); xy++) {
@@ -188,7 +189,7 @@ void soil_simulator::UpdateBodySoil(
         }
 
         if (!soil_moved) {
-            if (dist_s != 2 * grid.half_length_z_) {
+            if (dist_s != std::numeric_limits<float>::max()) {
                 // Moving body_soil to closest location, this implementation
                 // works regardless of the presence of body_soil
                 sim_out->body_soil_[ind_s][ii_s][jj_s] += (
-- 
2.43.0


From 2465fa79317e7f212df7274559036412b60608b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:11 +0000
Subject: [PATCH 4/8] fix: do not overwrite a body soil file left without its
 terrain file

The number of an output was chosen by looking at the terrain files only, so
a body_soil file whose terrain file had been removed was overwritten.
---
 soil_simulator/utils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/utils.cpp b/soil_simulator/utils.cpp
index 54bba38..b819d5c 100644
--- a/soil_simulator/utils.cpp
+++ b/soil_simulator/utils.cpp
@@ -510,10 +510,13 @@ void soil_simulator::WriteSoil(
             path + "terrain_" + std::string(nn, '0').append(file_number)
             + ".csv");
 
-        // Checking if file exists
+        // Checking if file exists, body soil file uses the same number
         std::ifstream infile(terrain_filename);
-        if (!infile.good()) {
-            // File does not exist
+        std::ifstream body_soil_infile(
+            path + "body_soil_" + std::string(nn, '0').append(file_number)
+            + ".csv");
+        if (!infile.good() && !body_soil_infile.good()) {
+            // Files do not exist
             break;
         }
     }
-- 
2.43.0


From bc155229138f0bca47d4ba5dde223e2e624ff780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 5/8] fix: centre the grid when its extent is not a whole
 number of cells

The vectors giving the position of the cells started at minus the extent of
the grid, whereas positions are converted to indices with half the number of
cells. With an extent that is not a whole number of cells, body walls were
therefore not at multiples of the cell height, soil was not conserved in
number of cells, and the soil resting on the body was shifted sideways.
---
 soil_simulator/types.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index 25c6ed3..aa04e21 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -60,15 +60,15 @@ soil_simulator::Grid::Grid(
     vect_y_.resize(2 * half_length_y_ + 1);
     vect_z_.resize(2 * half_length_z_ + 1);
 
-    vect_x_[0] = -grid_size_x;
+    vect_x_[0] = -half_length_x_ * cell_size_xy;
     for (auto ii = 1 ; ii < vect_x_.size() ; ii++)
         vect_x_[ii] = vect_x_[ii-1] + cell_size_xy;
 
-    vect_y_[0] = -grid_size_y;
+    vect_y_[0] = -half_length_y_ * cell_size_xy;
     for (auto ii = 1 ; ii < vect_y_.size() ; ii++)
         vect_y_[ii] = vect_y_[ii-1] + cell_size_xy;
 
-    vect_z_[0] = -grid_size_z + cell_size_z;
+    vect_z_[0] = -half_length_z_ * cell_size_z + cell_size_z;
     for (auto ii = 1 ; ii < vect_z_.size() ; ii++)
         vect_z_[ii] = vect_z_[ii-1] + cell_size_z;
 }
-- 
2.43.0


From a88e0974d502a489a55cdd289af5addd58ecb746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:22 +0000
Subject: [PATCH 6/8] fix: lines could end one cell off their course when an
 index passes a power of two

The running positions were kept in float, so that a vertex lying next to a
cell border drifted onto the border when the magnitude grew. The cells are
now counted.
---
 soil_simulator/body_pos.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index c52d6f5..613a951 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -808,34 +808,31 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
     // Creating line_pos and adding the starting point
     std::vector<std::vector<int>> line_pos;
     line_pos.resize(1, std::vector<int>(3, 0));
-    line_pos[0] = std::vector<int> {
-        static_cast<int>(round(x1)),
-        static_cast<int>(round(y1)),
-        static_cast<int>(std::ceil(z1))};
+    int x_ind = static_cast<int>(round(x1));
+    int y_ind = static_cast<int>(round(y1));
+    int z_ind = static_cast<int>(std::ceil(z1));
+    line_pos[0] = std::vector<int> {x_ind, y_ind, z_ind};
 
     // Iterating along the line until reaching the end
     while ((t_max_x < ab_norm) || (t_max_y < ab_norm) || (t_max_z < ab_norm)) {
         if (t_max_x < t_max_y) {
             if (t_max_x < t_max_z) {
-                x1 = x1 + step_x;
+                x_ind += step_x;
                 t_max_x += t_delta_x;
             } else {
-                z1 = z1 + step_z;
+                z_ind += step_z;
                 t_max_z += t_delta_z;
             }
         } else {
             if (t_max_y < t_max_z) {
-                y1 = y1 + step_y;
+                y_ind += step_y;
                 t_max_y += t_delta_y;
             } else {
-                z1 = z1 + step_z;
+                z_ind += step_z;
                 t_max_z += t_delta_z;
             }
         }
-        line_pos.push_back(std::vector<int> {
-            static_cast<int>(round(x1)),
-            static_cast<int>(round(y1)),
-            static_cast<int>(std::ceil(z1))});
+        line_pos.push_back(std::vector<int> {x_ind, y_ind, z_ind});
     }
     return line_pos;
 }
-- 
2.43.0


From 5724c633a8f61a966a0cdb53c48f7aa105683dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 7/8] fix: rounding errors of the ground added up over long
 avalanches

After some hundred passes heights were off the height lattice by more than
the tolerance, so that a column counted as unstable forever and the
equilibrium was never reached.
---
 soil_simulator/relax.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index cb6f5a5..215adfd 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -603,6 +603,8 @@ void soil_simulator::RelaxUnstableTerrainCell(
             (h_new + tol) / grid.cell_size_z_);
         h_new_c = (
             sim_out->terrain_[ii][jj] + sim_out->terrain_[ii_c][jj_c] - h_new);
+        // Rounding errors would otherwise add up over the iterations
+        h_new_c = grid.cell_size_z_ * std::round(h_new_c / grid.cell_size_z_);
         float body_bot;
 
         if (st[0] == '4') {
-- 
2.43.0


From 218a1f168751756915e276c955db268e9fe2a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:52 +0000
Subject: [PATCH 8/8] fix: rounding errors of carried soil added up over long
 avalanches

---
 soil_simulator/relax.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 215adfd..32ac3e0 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -817,7 +817,9 @@ void soil_simulator::RelaxUnstableBodyCell(
             sim_out->terrain_[ii_c][jj_c]);
         h_new = grid.cell_size_z_ * std::floor(
             (h_new + tol) / grid.cell_size_z_);
-        h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+        h_soil = grid.cell_size_z_ * std::round(
+            (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+            grid.cell_size_z_);
 
         // Checking amount of soil in body_soil_pos_
         if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -868,7 +870,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_soil_[1][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -903,7 +907,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_[1][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -943,7 +949,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_soil_[3][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -978,7 +986,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_[3][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -1018,7 +1028,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_soil_[3][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -1086,7 +1098,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_[3][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -1154,7 +1168,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_soil_[1][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
@@ -1222,7 +1238,9 @@ void soil_simulator::RelaxUnstableBodyCell(
                 sim_out->body_[1][ii_c][jj_c]);
             h_new = grid.cell_size_z_ * std::floor(
                 (h_new + tol) / grid.cell_size_z_);
-            h_soil = sim_out->body_soil_[ind+1][ii][jj] - h_new;
+            h_soil = grid.cell_size_z_ * std::round(
+                (sim_out->body_soil_[ind+1][ii][jj] - h_new) /
+                grid.cell_size_z_);
 
             // Checking amount of soil in body_soil_pos_
             if (h_soil > sim_out->body_soil_pos_[nn].h_soil) {
-- 
2.43.0

