From 876e9278993e414c2f7c431e94e0ca6e9a1f890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 01/29] fix: normalise the quintic spline kernel in three
 dimensions

The M5 spline on [0,3] integrates to 120 pi / 27 in 3D, so the prefactor is
9/(40 pi); 81/(359 pi) leaves every 3D density 0.28% too high.
---
 include/physics/kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index 32ac0ad..ef5aca0 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -39,7 +39,7 @@ namespace kernels {
 // h depends of the dimension and is added in the kernel
 const double cubic_spline_sigma[3] = {4. / 3., 40. / (7. * M_PI), 8. / M_PI};
 const double quintic_spline_sigma[3] = {
-  1. / 40., 63. / (478. * M_PI), 81. / (359. * M_PI)};
+  1. / 40., 63. / (478. * M_PI), 9. / (40. * M_PI)};
 const double wendland_c2_sigma[3] = {1.25, 7. / M_PI, 21. / (2. * M_PI)};
 const double wendland_c4_sigma[3] = {1.5, 9. / M_PI, 495. / (32. * M_PI)};
 const double wendland_c6_sigma[3] = {
-- 
2.43.0


From 421bebccdd8337eedd075b558ee1b35e91bbbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 02/29] fix: apply += and -= when a tensor is its own
 right-hand side

The element-wise operators skipped the update when the operand aliased the
destination, so a += a left a unchanged and a -= a did not give zero.
---
 include/tensor.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tensor.h b/include/tensor.h
index 15921b7..8a57446 100644
--- a/include/tensor.h
+++ b/include/tensor.h
@@ -938,11 +938,9 @@ struct tensor_u<T, ST, D, Ds...> {
 
 #define def_operator(op)                                                       \
   tensor_u & operator op(tensor_u const & rhs) {                               \
-    if(this != &rhs) {                                                         \
-      for(size_t i{0}; i < size(); i++) {                                      \
-        data_[i] op rhs[i];                                                    \
-      } /* for */                                                              \
-    } /* if */                                                                 \
+    for(size_t i{0}; i < size(); i++) {                                        \
+      data_[i] op rhs[i];                                                      \
+    } /* for */                                                                \
                                                                                \
     return *this;                                                              \
   }
-- 
2.43.0


From 6a6b8fd4d57a7c97891e0eba673929a3622ab2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:11 +0000
Subject: [PATCH 03/29] fix: let conflict_depth of the filling curves compile

It initialised an int from the static function max_depth instead of its value, so any use failed to build.
---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index fc26638..c7099d9 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -106,7 +106,7 @@ public:
   }
   //! Search for the depth were two keys are in conflict
   int conflict_depth(filling_curve key_a, filling_curve key_b) {
-    int conflict = max_depth;
+    int conflict = max_depth_;
     while(key_a != key_b) {
       key_a.pop();
       key_b.pop();
-- 
2.43.0


From 3d2bd0d2dd67539542ba683ff91911218f90cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 04/29] fix: place the leading one of a Morton key at the depth
 asked for

A key generated for less than the maximum depth kept its leading one at the
maximum depth, so it had the wrong depth and denoted another branch.
---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index c7099d9..36d193c 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -503,8 +503,8 @@ public:
   morton_curve_u(const std::array<point_t, 2> & range,
     const point_t & p,
     const size_t depth) {
-    *this = filling_curve<DIM, T, morton_curve_u>::min();
     assert(depth <= max_depth_);
+    value_ = int_t(1) << depth * dimension;
     std::array<int_t, dimension> coords;
     const int_t max_val = (int_t(1) << (bits_ - 1) / dimension)-1;
     for(size_t i = 0; i < dimension; ++i) {
-- 
2.43.0


From 75f842eeb105ca4b6f2e96b0a6a83cb536ec88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 05/29] fix: make the three-dimensional Hilbert curve
 continuous and invertible

The encoder applied the rotations of the decoder instead of their inverses, so
consecutive keys jumped between octants, and the decoder combined the second
bit with OR instead of XOR, so a key did not convert back to its own cell.
---
 include/tree_topology/filling_curve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 36d193c..4234abf 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -295,7 +295,7 @@ public:
       }
       if constexpr (dimension == 3) {
         value_ += s * s * s * ((7 * bits[0]) ^ (3 * bits[1]) ^ bits[2]);
-        rotation3d(s, coords, bits);
+        unrotation3d(s, coords, bits);
       }
     }
     // Then truncate the key to the depth
@@ -313,7 +313,7 @@ public:
       std::array<int_t, dimension> bits = {};
       if constexpr (dimension == 3) {
         bits[0] = (key & 4) > 0;
-        bits[1] = ((key & 2) ^ bits[0]) > 0;
+        bits[1] = ((key & 2) > 0) ^ bits[0];
         bits[2] = ((key & 1) ^ bits[0] ^ bits[1]) > 0;
         rotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
-- 
2.43.0


From 969413d85bfb719f95d642f44051c866599a375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 06/29] fix: keep every bit of one-dimensional Hilbert keys

The key dropped the lowest bit of the cell index, so neighbouring cells shared
a key, and converting a key back to coordinates ignored it.
---
 include/tree_topology/filling_curve.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 4234abf..75533f6 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -279,7 +279,7 @@ public:
     // Handle 1D case
     if(dimension == 1) {
       assert(value_ & 1UL << max_depth_);
-      value_ |= coords[0] >> dimension;
+      value_ |= coords[0];
       value_ >>= (max_depth_ - depth);
       return;
     }
@@ -320,6 +320,9 @@ public:
         coords[1] += bits[1] * mask;
         coords[2] += bits[2] * mask;
       }
+      if constexpr (dimension == 1) {
+        coords[0] += (key & 1) * mask;
+      }
       if constexpr (dimension == 2) {
         bits[0] = (key & 2) > 0;
         bits[1] = ((key & 1) ^ bits[0]) > 0;
-- 
2.43.0


From 7c9aef6f85fd0875b25aa1bc63360aebb35519df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:29 +0000
Subject: [PATCH 07/29] fix: take the velocity divergence from velocity
 differences

A uniform flow had a non-zero divergence, so the Cullen viscosity trigger
depended on the frame of reference.
---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..c0339fc 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -288,7 +288,7 @@ compute_divv(body & particle, std::vector<body *> & nbs) {
     const point_t DiWab = sph_kernel_gradient(pos_a - pos_b,h_ab);
     //point_t DiWab = .5*(sph_kernel_gradient(pos_a - pos_b,h_a)   // DEBUG
     //                 +  sph_kernel_gradient(pos_a - pos_b,h_b));
-    div_v += m_b*dot(v_a, DiWab);
+    div_v += m_b*dot(nb->getVelocity() - v_a, DiWab);
   }
   div_v /= particle.getDensity();
 
-- 
2.43.0


From be6d9b40d05d365e45141828bfafb7ee44e322a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 08/29] fix: do not stretch the time step beyond its limits to
 reach a screen output

---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index c0339fc..ebd41ad 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -787,7 +787,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     }
     if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
       dt_saved = dt;
-      totaltime_next = t_screen_output;
+      totaltime_next = std::min(totaltime_next, t_screen_output);
     }
   }
 
-- 
2.43.0


From 6960422949aa0741accb883dfe44b46949d93312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 09/29] fix: do not step past the next output when the saved
 time step is smaller

---
 include/physics/default_physics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index ebd41ad..ce94aab 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -785,7 +785,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
         dt = dt_saved;
       t_screen_output += out_screen_dt;
     }
-    if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
+    if (totaltime_next > t_screen_output - 0.1*out_screen_dt) {
       dt_saved = dt;
       totaltime_next = std::min(totaltime_next, t_screen_output);
     }
@@ -799,7 +799,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
         dt = dt_saved;
       t_scalar_output += out_scalar_dt;
     }
-    if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
+    if (totaltime_next > t_scalar_output - 0.1*out_scalar_dt) {
       dt_saved = dt;
       totaltime_next = std::min(totaltime_next, t_scalar_output);
     }
@@ -813,7 +813,7 @@ set_adaptive_timestep(std::vector<body> & bodies) {
         dt = dt_saved;
       t_h5data_output += out_h5data_dt;
     }
-    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
+    if (totaltime_next > t_h5data_output - 0.1*out_h5data_dt) {
       dt_saved = dt;
       totaltime_next = std::min(totaltime_next, t_h5data_output);
     }
-- 
2.43.0


From b781ddabcc122d666735f68a71fe579bc3b0dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 10/29] fix: keep the list of wall directions alive while it is
 read

---
 include/physics/eforce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..8cd4ca8 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -397,8 +397,8 @@ select(const std::string & efstr) {
     else if(boost::iequals(it->substr(0, 6), "walls:")) {
       // parse in which directions to place the walls
       // this can be e.g. "walls:xyz" or "walls:y" etc.
-      const char * cxyz = it->substr(6).c_str();
-      char imx = min(3, (int)it->substr(6).length());
+      const string cxyz = it->substr(6);
+      char imx = min(3, (int)cxyz.length());
       for(int i = 0; i < imx; ++i) {
         switch(cxyz[i]) {
           case 'x':
-- 
2.43.0


From f527ecba6ebf28ed820b563fe8b8a1d2093ae1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 11/29] fix: do not read or write a third component in the
 two-dimensional orbit force

---
 include/physics/eforce.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index 8cd4ca8..02105ab 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -289,13 +289,16 @@ acceleration_orbit(const body & particle) {
 
   point_t acc = 0.0;
 
-  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]);
+  double temp = 0.0;
+  for(unsigned short i = 1; i < gdimension; ++i)
+    temp += SQ(rp[i]);
+  temp += SQ(rp[0] - a_sp);
   temp = CU(temp);
   temp = sqrt(temp);
   double term1 = -grav * m_ns / temp;
   acc[0] += term1 * (rp[0] - a_sp);
-  acc[1] += term1 * rp[1];
-  acc[2] += term1 * rp[2];
+  for(unsigned short i = 1; i < gdimension; ++i)
+    acc[i] += term1 * rp[i];
 
   double term2 = grav * m_t / CU(a_sp);
   acc[0] += term2 * (rp[0] - a_sp * m_ns / m_t); // x-direction
@@ -311,8 +314,10 @@ potential_orbit(const point_t & rp) {
   static const double grav = gravitational_constant, a_sp = orbital_separation,
                       m_ns = mass_neutron_star, m_wd = mass_white_dwarf;
   const double m_t = m_ns + m_wd;
-  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]));
-  term1 = -grav * m_ns / term1;
+  double term1 = SQ(rp[0] - a_sp);
+  for(unsigned short i = 1; i < gdimension; ++i)
+    term1 += SQ(rp[i]);
+  term1 = -grav * m_ns / sqrt(term1);
   double term2 = -0.5 * grav * m_t / CU(a_sp);
   term2 = term2 * (SQ(rp[0] - a_sp * m_ns / m_t) + SQ(rp[1]));
   phi = term1 + term2;
-- 
2.43.0


From 26703c409636f8c49ea0693b37f86944866611ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 12/29] fix: cubic_interp returns zero outside the table
 instead of reading before it

---
 include/physics/density_profiles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..484cf69 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -317,6 +317,8 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
+  if(i2 < 0 || i2 == N - 1)
+    return 0.0;
   if(i2 == 0)
     i2 = 1;
   if(i2 > N - 3)
-- 
2.43.0


From 3905c1a5c508475a0de5d2f074279cced4337e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 13/29] fix: reduce the velocity statistics over all ranks

---
 include/diagnostic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 924d98b..042bb2c 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -103,6 +103,9 @@ compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
     V_min = std::min(V, V_min);
     V_tot += V;
   }
+  reduce_sum(V_tot);
+  reduce_min(V_min);
+  reduce_max(V_max);
   V_average = V_tot / totalnbodies;
 }
 
-- 
2.43.0


From 7e6a69c6500a3b5e98ac3928d1e76c8f3800f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:54 +0000
Subject: [PATCH 14/29] fix: start each neighbour statistic afresh and allow
 ranks without particles

---
 include/diagnostic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 042bb2c..cb0bd78 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -46,7 +46,8 @@ double V_min, V_max, V_average;
 void
 compute_neighbors_stats(std::vector<body> & bodies, int64_t totalnbodies) {
 
-  N_min = bodies[0].getNeighbors();
+  N_min = std::numeric_limits<int64_t>::max();
+  N_max = 0;
   uint64_t N_total = 0;
   for(auto & b : bodies) {
     uint64_t N = b.getNeighbors();
-- 
2.43.0


From 944ebd44503ce6e3c4c6da9ea6b8b59c8315f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 15/29] fix: reject string parameters that do not fit their
 storage

---
 include/params.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/params.h b/include/params.h
index f78b33c..624fea9 100644
--- a/include/params.h
+++ b/include/params.h
@@ -111,6 +111,10 @@
 
 #define READ_STRING_PARAM(PNAME)                                               \
   if(param_name == QUOTE(PNAME)) {                                             \
+    if(str_value.length() >= STRING_MAXLEN) {                                  \
+      log_one(error) << "ERROR: value too long: " << param_name << endl;       \
+      exit(2);                                                                 \
+    }                                                                          \
     strcpy(_##PNAME, str_value.c_str());                                       \
     unknown_param = false;                                                     \
   }
-- 
2.43.0


From 69f1674606a7bd02cf2395bc568741991170a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:10 +0000
Subject: [PATCH 16/29] fix: read wvt_set_boundary and fmm_max_cell_mass from
 the parameter file

---
 include/params.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/params.h b/include/params.h
index 624fea9..26921fb 100644
--- a/include/params.h
+++ b/include/params.h
@@ -1073,6 +1073,10 @@ set_param(const std::string & param_name, const std::string & param_value) {
   READ_NUMERIC_PARAM(wvt_cool_down)
 #endif
 
+#ifndef wvt_set_boundary
+  READ_BOOLEAN_PARAM(wvt_set_boundary)
+#endif
+
 #ifndef wvt_radius
   READ_NUMERIC_PARAM(wvt_radius)
 #endif
@@ -1197,6 +1201,10 @@ set_param(const std::string & param_name, const std::string & param_value) {
   READ_NUMERIC_PARAM(fmm_macangle)
 #endif
 
+#ifndef fmm_max_cell_mass
+  READ_NUMERIC_PARAM(fmm_max_cell_mass)
+#endif
+
   // relaxation parameters  --------------------------------------------------
 #ifndef relaxation_steps
   READ_NUMERIC_PARAM(relaxation_steps)
-- 
2.43.0


From 543dd725e40be61cabaed562f80e44b9b2573894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 17/29] fix: entity operator< is a strict order

---
 include/tree_topology/tree_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/tree_types.h b/include/tree_topology/tree_types.h
index 4c7bbe4..61ceba7 100644
--- a/include/tree_topology/tree_types.h
+++ b/include/tree_topology/tree_types.h
@@ -363,7 +363,7 @@ public:
   };
 
   constexpr bool operator<(const entity & ent) const {
-    return key_ <= ent.key_;
+    return key_ < ent.key_;
   }
 
   friend std::ostream & operator<<(std::ostream & os, const entity & b) {
-- 
2.43.0


From 1ae542a86c8d904ff405f7d0fbe5d2be20bed019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 18/29] fix: share boundary nodes and key bounds with all ranks
 for any number of ranks

---
 include/tree_topology/tree_topology.h | 30 +++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..2034e65 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1580,6 +1580,9 @@ private:
     // of the ghost rank represented.
     std::vector<share_entity_t> r_ghosts_entities_n2;
     std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Key bounds known by the ghost rank: none until it receives some
+    key_t lobound_n2 = key_t::max();
+    key_t hibound_n2 = key_t::min();
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1642,20 +1645,13 @@ private:
         // Case already handled before
         if(ghosts_rank == rank && partner < size)
           continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
         if(partner >= size) {
           partner -= (1 << (dim - 1));
         }
         if(partner == rank) {
-          // Add into each buffer, no communication needed
-          ghosts_entities.clear();
-          ghosts_nodes.clear();
-          find_nodes_(ghosts_nodes, ghosts_entities);
-          r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-            ghosts_entities.begin(), ghosts_entities.end());
-          r_ghosts_nodes_n2.insert(
-            r_ghosts_nodes_n2.end(), ghosts_nodes.begin(), ghosts_nodes.end());
+          // Take what the ghost rank knows, no communication needed
+          lobound_ = std::min(lobound_n2, lobound_);
+          hibound_ = std::max(hibound_n2, hibound_);
           for(size_t j = 0; j < r_ghosts_entities_n2.size(); ++j) {
             if(r_ghosts_entities_n2[j].owner != rank) {
               shared_entities_.push_back(r_ghosts_entities_n2[j].entity);
@@ -1691,14 +1687,16 @@ private:
           std::pair<int[2], key_t[2]> s_keys;
           s_keys.first[0] = s_ge_size;
           s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
+          key_t & lo = ghosts_rank == rank ? lobound_ : lobound_n2;
+          key_t & hi = ghosts_rank == rank ? hibound_ : hibound_n2;
+          s_keys.second[0] = lo;
+          s_keys.second[1] = hi;
           std::pair<int[2], key_t[2]> s_rkeys;
           MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
+          lo = std::min(s_rkeys.second[0], lo);
+          hi = std::max(s_rkeys.second[1], hi);
           // Send entities
           r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
           MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
@@ -1729,9 +1727,9 @@ private:
           }
           else {
             r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
+              r_ghosts_entities.begin(), r_ghosts_entities.end());
             r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
+              r_ghosts_nodes.begin(), r_ghosts_nodes.end());
           }
         } // if
       } // if
-- 
2.43.0


From 0fad3273b83dd0f11cf4988eba4a7a203b6a19c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 19/29] fix: bucket form of mpi_alltoallv_p2p delivers a rank's
 own bucket

---
 mpisph/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpisph/utils.h b/mpisph/utils.h
index 6efa050..dbf5732 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -210,13 +210,13 @@ mpi_alltoallv_p2p(std::vector<int> & sendcount,
   std::vector<MPI_Status> status(size);
   std::vector<MPI_Request> request(size);
   for(int i = 0; i < size; ++i) {
-    if(sendcount[i] != 0 && rank != i) {
+    if(sendcount[i] != 0) {
       MPI_Isend(&(sendbuffer[i][0]), sendcount[i], MPI_BYTE, i, 0,
         MPI_COMM_WORLD, &request[i]);
     }
   }
   for(int i = 0; i < size; ++i) {
-    if(recvcount[i] != 0 && rank != i) {
+    if(recvcount[i] != 0) {
       MPI_Recv(&(recvbuffer[i][0]), recvcount[i], MPI_BYTE, i, MPI_ANY_TAG,
         MPI_COMM_WORLD, &status[i]);
     }
-- 
2.43.0


From 136d670c5abd4accab59b7220d43e7faacca3bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 20/29] fix: a cell whose corner holds a neighbor's particle is
 not complete before sharing

---
 include/tree_topology/tree_topology.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index 2034e65..09257dc 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -990,6 +990,11 @@ public:
       lastnkey = nkey;
       max_depth_ = std::max(max_depth_, current_depth);
     } // for
+    // The bounds are keys held by the neighbors: keep what lies between them
+    if(!iam0)
+      lobound_ = key_t(lobound_.value() + 1);
+    if(!iamlast)
+      hibound_ = key_t(hibound_.value() - 1);
     share_nodes_(f_cc);
     MPI_Barrier(MPI_COMM_WORLD);
     log_one(trace) << "Building tree.done: " << omp_get_wtime() - start << "s"
-- 
2.43.0


From 3412d50dc4af2eaa151f4057da6370c9ed94a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:20 +0000
Subject: [PATCH 21/29] fix: set only the coordinates the dimension has when
 building the periodic box

---
 include/physics/boundary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..c783589 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -133,11 +133,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension >= 2) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension >= 3) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
-- 
2.43.0


From 31ce4a09b915a4274d623154d4ef3420db8c7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:20 +0000
Subject: [PATCH 22/29] fix: mirror WVT particles on their own side of the
 center in 1D

---
 include/physics/wvt.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index c5544ef..33f1dd2 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -144,14 +144,15 @@ cartesian_to_spherical(const point_t & pos_c) {
  *            cartesian
  *
  * @param     pos_s   Particle position in spherical coord.
+ * @param     side    In 1D, negative for positions left of the center
  */
 point_t
-spherical_to_cartesian(const point_t & pos_s) {
+spherical_to_cartesian(const point_t & pos_s, const double side = 1.0) {
   double r = pos_s[0];
   point_t pos_c = 0.0;
 
   if(gdimension == 1) {
-    pos_c[0] = r;
+    pos_c[0] = side < 0.0 ? -r : r;
   }
   else if(gdimension == 2) {
     pos_c[0] = r * cos(pos_s[1]);
@@ -225,7 +226,7 @@ wvt_acceleration_arth(body & particle, std::vector<body *> & nbs) {
           point_t pos_bs = cartesian_to_spherical(pos_b);
           if(pos_bs[0] < boundary) {
             pos_bs[0] = boundary + (boundary - pos_bs[0]);
-            pos_b = spherical_to_cartesian(pos_bs);
+            pos_b = spherical_to_cartesian(pos_bs, pos_b[0]);
             r_ab = flecsi::distance(pos_a, pos_b);
             // W_ab  = sph_kernel_function(r_ab,h_ab)*pow(h_ab,gdimension);
             // if (r_ab > 0.0 && r_ab <= h_ab) {
@@ -245,7 +246,7 @@ wvt_acceleration_arth(body & particle, std::vector<body *> & nbs) {
       if((r_a + h_a) > boundary) {
         point_t pos_ms = cartesian_to_spherical(pos_a);
         pos_ms[0] = boundary + (boundary - pos_ms[0]);
-        point_t pos_m = spherical_to_cartesian(pos_ms);
+        point_t pos_m = spherical_to_cartesian(pos_ms, pos_a[0]);
         double r_am = flecsi::distance(pos_a, pos_m);
         double W_am = sph_kernel_function(r_am, h_a) * pow(h_a, gdimension);
         // if (r_am > 0.0 && r_am <= h_a) {
@@ -311,7 +312,7 @@ wvt_acceleration_diehl(body & particle, std::vector<body *> & nbs) {
           point_t pos_bs = cartesian_to_spherical(pos_b);
           if(pos_bs[0] < boundary) {
             pos_bs[0] = boundary + (boundary - pos_bs[0]);
-            pos_b = spherical_to_cartesian(pos_bs);
+            pos_b = spherical_to_cartesian(pos_bs, pos_b[0]);
             r_ab = flecsi::distance(pos_a, pos_b);
             // W_ab  = SQ(h_ab/(r_ab+eps*h_ab))-SQ(h_ab/(h_ab+eps*h_ab));
             W_ab = SQ(h_a / (r_ab + eps * h_a)) - SQ(h_a / (h_a + eps * h_a));
@@ -330,7 +331,7 @@ wvt_acceleration_diehl(body & particle, std::vector<body *> & nbs) {
         point_t pos_ms = cartesian_to_spherical(pos_a);
         pos_ms[0] = boundary + (boundary - pos_ms[0]);
 
-        point_t pos_m = spherical_to_cartesian(pos_ms);
+        point_t pos_m = spherical_to_cartesian(pos_ms, pos_a[0]);
         double r_am = flecsi::distance(pos_a, pos_m);
         double W_am =
           SQ(h_a / (r_am + eps * h_a)) - SQ(h_a / (h_a + eps * h_a));
@@ -542,7 +543,7 @@ wvt_displacement(body & source) {
   if(r / boundary >= 1.0) {
     point_t rs = cartesian_to_spherical(rp);
     rs[0] = rs[0] - 2.0 * (rs[0] - boundary);
-    rp = spherical_to_cartesian(rs);
+    rp = spherical_to_cartesian(rs, rp[0]);
     // source.setAcceleration(0.0);
   }
 
-- 
2.43.0


From 5dd19aa3380087acf0d08380c256c93d9149343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 23/29] fix: give particles without stored identities distinct
 ones for any number of ranks

---
 mpisph/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..16bd9a7 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -335,7 +335,7 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset + 1;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-- 
2.43.0


From 013b0f9f6bf5174882645a43c44d061bcef8ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 24/29] fix: do not start from another iteration when no
 snapshot has the one asked for

---
 mpisph/io.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpisph/io.h b/mpisph/io.h
index 16bd9a7..64859a4 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -571,6 +571,7 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
       // check if this is what we are looking for
       if(file_iteration == iteration)
         break;
+      step = -1;
     }
     closedir(d);
   }
-- 
2.43.0


From a47ffb0f0b4f14c1a5a3d26c60de0d5b5f6ff933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 25/29] fix: delete old snapshots in the output directory, not
 in the working directory

---
 mpisph/io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 64859a4..c01beb9 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -615,8 +615,12 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          // directory entries are relative to the output directory
+          std::string path(output_dirname);
+          path += "/";
+          path += dir->d_name;
+          if(remove(path.c_str()) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << path
                           << std::endl;
             ++n_deleted;
           }
-- 
2.43.0


From ae2045ff8a59852392e17f790599f54f3b14f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 26/29] fix: accept fractional initial times

---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index 26921fb..40585c3 100644
--- a/include/params.h
+++ b/include/params.h
@@ -170,7 +170,7 @@ DECLARE_PARAM(int64_t, final_iteration, 0)
 #endif
 
 #ifndef initial_time
-DECLARE_PARAM(int64_t, initial_time, 0)
+DECLARE_PARAM(double, initial_time, 0.0)
 #endif
 
 #ifndef final_time
-- 
2.43.0


From 3087b0be2e2d4db2f7be690d1d3c657e8b15e2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 27/29] fix: renew ghosts before the adaptive viscosity reads
 sound speed and velocity divergence of neighbours

---
 app/drivers/hydro/main_driver.cc     | 4 ++++
 app/drivers/newtonian/main_driver.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5729301..5e3c76d 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -120,6 +120,8 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        // sync sound speed and velocity divergence
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -194,6 +196,8 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "compute adaptive viscosity" << std::endl;
+        // sync sound speed and velocity divergence
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index c632886..23a2192 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -127,6 +127,8 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        // sync sound speed and velocity divergence
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -209,6 +211,8 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        // sync sound speed and velocity divergence
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
-- 
2.43.0


From b010a30858f645acc1dc1bdf2d75bdb106c01bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:50 +0000
Subject: [PATCH 28/29] fix: take signal speeds once the sound speeds of all
 neighbours are known

---
 app/drivers/hydro/main_driver.cc     | 4 ++++
 app/drivers/newtonian/main_driver.cc | 4 ++++
 include/physics/default_physics.h    | 1 -
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5e3c76d..21bcad9 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -128,6 +128,8 @@ mpi_init_task(const char * parameter_file) {
       // compute acceleration
       log_one(trace) << "compute rhs of evolution equations" << std::endl;
       bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if (physics::iteration < relaxation_steps) {
         log_one(trace) << "add relaxation terms" << std::endl;
@@ -204,6 +206,8 @@ mpi_init_task(const char * parameter_file) {
       // compute acceleration
       log_one(trace) << "leapfrog: kick two (velocity)" << std::endl;
       bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(physics::iteration < relaxation_steps) {
         bs.apply_all(physics::add_drag_acceleration);
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index 23a2192..9f36975 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -135,6 +135,8 @@ mpi_init_task(const char * parameter_file) {
       // compute acceleration
       log_one(trace) << "compute rhs of evolution equations" << std::endl;
       bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(param::enable_fmm){
         log_one(trace) << "compute gravitation" << std::endl;
@@ -219,6 +221,8 @@ mpi_init_task(const char * parameter_file) {
       // compute acceleration
       log_one(trace) << "leapfrog: kick two (velocity)" << std::endl;
       bs.reset_ghosts();
+      if (adaptive_timestep)
+        bs.apply_in_smoothinglength(physics::compute_signalspeed);
       bs.apply_in_smoothinglength(physics::compute_acceleration);
       if(param::enable_fmm){
         log_one(trace) << "computing gravitation" << std::endl;
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index ce94aab..7eaa6ef 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -314,7 +314,6 @@ compute_density_pressure_soundspeed(body & particle,
     recover_internal_energy(particle);
   eos::compute_pressure(particle);
   eos::compute_soundspeed(particle);
-  compute_signalspeed(particle, nbs);
   if (sph_viscosity == visc_cullen)
     compute_divv(particle,nbs);
 }
-- 
2.43.0


From 36c50e886f5db7942388fe54738dfd3365a958a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:01 +0000
Subject: [PATCH 29/29] fix: output by time is written once per period, the
 first at the start

---
 include/physics/default_physics.h | 35 ++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 7eaa6ef..fd849f0 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -779,42 +779,45 @@ set_adaptive_timestep(std::vector<body> & bodies) {
   if(out_screen_dt > 0) {
     // if output to screen by time:
     // match the next screen output time
-    if (totaltime == t_screen_output) {
+    double t_next = t_screen_output;
+    if (totaltime == t_next) {
       if (dt_saved > 0)
         dt = dt_saved;
-      t_screen_output += out_screen_dt;
+      t_next += out_screen_dt;
     }
-    if (totaltime_next > t_screen_output - 0.1*out_screen_dt) {
+    if (totaltime_next > t_next - 0.1*out_screen_dt) {
       dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_screen_output);
+      totaltime_next = std::min(totaltime_next, t_next);
     }
   }
 
   if(out_scalar_dt > 0) {
     // if output scalar by time:
     // match the next scalar output time
-    if (totaltime == t_scalar_output) {
+    double t_next = t_scalar_output;
+    if (totaltime == t_next) {
       if (dt_saved > 0)
         dt = dt_saved;
-      t_scalar_output += out_scalar_dt;
+      t_next += out_scalar_dt;
     }
-    if (totaltime_next > t_scalar_output - 0.1*out_scalar_dt) {
+    if (totaltime_next > t_next - 0.1*out_scalar_dt) {
       dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_scalar_output);
+      totaltime_next = std::min(totaltime_next, t_next);
     }
   }
 
   if(out_h5data_dt > 0) {
     // if output h5data by time:
     // match the next h5data output time
-    if (totaltime == t_h5data_output) {
+    double t_next = t_h5data_output;
+    if (totaltime == t_next) {
       if (dt_saved > 0)
         dt = dt_saved;
-      t_h5data_output += out_h5data_dt;
+      t_next += out_h5data_dt;
     }
-    if (totaltime_next > t_h5data_output - 0.1*out_h5data_dt) {
+    if (totaltime_next > t_next - 0.1*out_h5data_dt) {
       dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_h5data_output);
+      totaltime_next = std::min(totaltime_next, t_next);
     }
   }
   dt = totaltime_next - totaltime;
@@ -851,6 +854,14 @@ compute_smoothinglength(std::vector<body> & bodies) {
  */
 void
 advance_time() {
+  // output due by now has been written: move on to the next output times
+  if (out_screen_dt > 0 && totaltime >= t_screen_output)
+    t_screen_output += out_screen_dt;
+  if (out_scalar_dt > 0 && totaltime >= t_scalar_output)
+    t_scalar_output += out_scalar_dt;
+  if (out_h5data_dt > 0 && totaltime >= t_h5data_output)
+    t_h5data_output += out_h5data_dt;
+
   iteration++;
   if (adaptive_timestep)
     totaltime = totaltime_next;
-- 
2.43.0

