From 024c26309a19beef8a079172a395cff556ccfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 01/39] fix: ColumnDepthPositionDistribution ordering compared
 the radius with itself

---
 .../private/primary/vertex/ColumnDepthPositionDistribution.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 2f57f80..5163545 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -228,7 +228,7 @@ bool ColumnDepthPositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(radius, endcap_length, f)
         <
-        std::tie(radius, x->endcap_length, depth_less);
+        std::tie(x->radius, x->endcap_length, depth_less);
 }
 
 } // namespace distributions
-- 
2.43.0


From d8c35229e80e34a65b39af567c0341ec35d6d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 02/39] fix: DecayRangePositionDistribution ordering compared
 the radius with itself

---
 .../private/primary/vertex/DecayRangePositionDistribution.cxx   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 2b28d0d..737f858 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -148,7 +148,7 @@ bool DecayRangePositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(radius, endcap_length, f)
         <
-        std::tie(radius, x->endcap_length, range_less);
+        std::tie(x->radius, x->endcap_length, range_less);
 }
 
 bool DecayRangePositionDistribution::AreEquivalent(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, std::shared_ptr<WeightableDistribution const> distribution, std::shared_ptr<siren::detector::DetectorModel const> second_detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> second_interactions) const {
-- 
2.43.0


From 6a19fd754d79cf9e39a4ac2738669c1a1762ea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 03/39] fix: RangePositionDistribution ordering compared the
 radius with itself and was not antisymmetric

---
 .../private/primary/vertex/RangePositionDistribution.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index fb00b9b..c185f9c 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -220,9 +220,9 @@ bool RangePositionDistribution::less(WeightableDistribution const & other) const
                 and *range_function < *x->range_function); // Less than
     bool f = false;
     return
-        std::tie(radius, endcap_length, f, target_types)
+        std::tie(radius, endcap_length, target_types, f)
         <
-        std::tie(radius, x->endcap_length, range_less, x->target_types);
+        std::tie(x->radius, x->endcap_length, x->target_types, range_less);
 }
 
 } // namespace distributions
-- 
2.43.0


From fd94be6ba3c546bc1e04cf9e61657fd0296e4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 04/39] fix: PointSourcePositionDistribution ordering compared
 the origin with itself

---
 .../private/primary/vertex/PointSourcePositionDistribution.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 4bcc31b..9bde125 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -185,7 +185,7 @@ bool PointSourcePositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(origin, max_distance)
         <
-        std::tie(origin, x->max_distance);
+        std::tie(x->origin, x->max_distance);
 }
 
 } // namespace distributions
-- 
2.43.0


From 0da1399df2c0dc87a847c8ae0cc50712e55c431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 05/39] fix: FixedDirection ordering compared the direction
 with itself

---
 .../private/primary/direction/FixedDirection.cxx            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/direction/FixedDirection.cxx b/projects/distributions/private/primary/direction/FixedDirection.cxx
index fd23ec0..e809abe 100644
--- a/projects/distributions/private/primary/direction/FixedDirection.cxx
+++ b/projects/distributions/private/primary/direction/FixedDirection.cxx
@@ -61,9 +61,9 @@ bool FixedDirection::less(WeightableDistribution const & other) const {
         double X = dir.GetX();
         double Y = dir.GetY();
         double Z = dir.GetZ();
-        double other_X = dir.GetX();
-        double other_Y = dir.GetY();
-        double other_Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
         return
             std::tie(X, Y, Z)
             <
-- 
2.43.0


From c1325de160ae073bc95f989b81bba83f6fff8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 06/39] fix: Cone direction ordering left unequal cones
 unordered

---
 .../private/primary/direction/Cone.cxx             | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 421da40..f3bd6bc 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -1,6 +1,7 @@
 #include "SIREN/distributions/primary/direction/Cone.h"
 
 #include <array>                                           // for array
+#include <tuple>                                           // for tie, opera...
 #include <math.h>                                          // for acos, cos
 #include <string>                                          // for basic_string
 #include <stdlib.h>                                        // for abs
@@ -78,9 +79,18 @@ bool Cone::equal(WeightableDistribution const & other) const {
 bool Cone::less(WeightableDistribution const & other) const {
     const Cone* x = dynamic_cast<const Cone*>(&other);
     if(abs(1.0 - siren::math::scalar_product(dir, x->dir)) < 1e-9) {
-        return false;
-    } else {
         return opening_angle < x->opening_angle;
+    } else {
+        double X = dir.GetX();
+        double Y = dir.GetY();
+        double Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
+        return
+            std::tie(X, Y, Z)
+            <
+            std::tie(other_X, other_Y, other_Z);
     }
 }
 
-- 
2.43.0


From ce1ecefa03c67f4182b4943f0933a7916f177f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:12 +0000
Subject: [PATCH 07/39] fix: PrimaryMass ordering was an equality test

---
 projects/distributions/private/primary/mass/PrimaryMass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/mass/PrimaryMass.cxx b/projects/distributions/private/primary/mass/PrimaryMass.cxx
index da62235..32a508a 100644
--- a/projects/distributions/private/primary/mass/PrimaryMass.cxx
+++ b/projects/distributions/private/primary/mass/PrimaryMass.cxx
@@ -64,7 +64,7 @@ bool PrimaryMass::equal(WeightableDistribution const & other) const {
 
 bool PrimaryMass::less(WeightableDistribution const & other) const {
     const PrimaryMass* x = dynamic_cast<const PrimaryMass*>(&other);
-    return primary_mass == x->primary_mass;
+    return primary_mass < x->primary_mass;
 }
 
 } // namespace distributions
-- 
2.43.0


From de6ca583f3f51ef9ca24b6a88d7220e6543e82b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 08/39] fix: FixedTargetPositionDistribution comparison ignored
 the fiducial volume and maximum length

---
 .../vertex/FixedTargetPositionDistribution.cxx    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index e2ca3ea..8b45702 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -270,13 +270,22 @@ bool FixedTargetPositionDistribution::equal(WeightableDistribution const & other
 
     if(!x)
         return false;
-    else
-        return (cylinder == x->cylinder);
+    bool same_fid = (!fiducial_volume and !x->fiducial_volume)
+        or (fiducial_volume and x->fiducial_volume and *fiducial_volume == *(x->fiducial_volume));
+    return cylinder == x->cylinder and max_length == x->max_length and same_fid;
 }
 
 bool FixedTargetPositionDistribution::less(WeightableDistribution const & other) const {
     const FixedTargetPositionDistribution* x = dynamic_cast<const FixedTargetPositionDistribution*>(&other);
-    return cylinder < x->cylinder;
+    if(cylinder < x->cylinder or x->cylinder < cylinder)
+        return cylinder < x->cylinder;
+    if(max_length != x->max_length)
+        return max_length < x->max_length;
+    bool fid_less =
+        (!fiducial_volume and x->fiducial_volume) // this->NULL and other->(not NULL)
+        or (fiducial_volume and x->fiducial_volume // both not NULL
+                and *fiducial_volume < *(x->fiducial_volume)); // Less than
+    return fid_less;
 }
 
 bool FixedTargetPositionDistribution::AreEquivalent(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, std::shared_ptr<WeightableDistribution const> distribution, std::shared_ptr<siren::detector::DetectorModel const> second_detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> second_interactions) const {
-- 
2.43.0


From f97be19e8f57951e30e33e422e93a4fc21ceb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 09/39] fix: SecondaryBoundedVertexDistribution comparison
 ignored the fiducial volume

---
 .../vertex/SecondaryBoundedVertexDistribution.cxx  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index c39fe4a..d757339 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -232,16 +232,22 @@ bool SecondaryBoundedVertexDistribution::equal(WeightableDistribution const & ot
 
     if(!x)
         return false;
-    else
-        return (max_length == x->max_length);
+    bool same_fid = (!fiducial_volume and !x->fiducial_volume)
+        or (fiducial_volume and x->fiducial_volume and *fiducial_volume == *(x->fiducial_volume));
+    return max_length == x->max_length and same_fid;
 }
 
 bool SecondaryBoundedVertexDistribution::less(WeightableDistribution const & other) const {
     const SecondaryBoundedVertexDistribution* x = dynamic_cast<const SecondaryBoundedVertexDistribution*>(&other);
+    bool fid_less =
+        (!fiducial_volume and x->fiducial_volume) // this->NULL and other->(not NULL)
+        or (fiducial_volume and x->fiducial_volume // both not NULL
+                and *fiducial_volume < *(x->fiducial_volume)); // Less than
+    bool f = false;
     return
-        std::tie(max_length)
+        std::tie(max_length, f)
         <
-        std::tie(x->max_length);
+        std::tie(x->max_length, fid_less);
 }
 
 } // namespace distributions
-- 
2.43.0


From 6b1acf0e004db7682638ae01c374d10e90b474bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 10/39] fix: HNLDipoleFromTable equality ignored the coupling,
 the units and the inelastic flag

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index b7eea32..82e2ac6 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -51,16 +51,22 @@ bool HNLDipoleFromTable::equal(CrossSection const & other) const {
         return
             std::tie(
                     z_samp,
+                    in_invGeV,
+                    inelastic,
                     primary_types,
                     hnl_mass,
+                    dipole_coupling,
                     channel,
                     differential,
                     total)
             ==
             std::tie(
                     x->z_samp,
+                    x->in_invGeV,
+                    x->inelastic,
                     x->primary_types,
                     x->hnl_mass,
+                    x->dipole_coupling,
                     x->channel,
                     x->differential,
                     x->total);
-- 
2.43.0


From d2e62aaea602a17514dd9b81b0bb095251810d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 11/39] fix: RangeTransform and SymLogTransform equality
 ignored their parameters

---
 projects/math/public/SIREN/math/Interpolation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/math/public/SIREN/math/Interpolation.h b/projects/math/public/SIREN/math/Interpolation.h
index 8a8292a..f9e5e8c 100644
--- a/projects/math/public/SIREN/math/Interpolation.h
+++ b/projects/math/public/SIREN/math/Interpolation.h
@@ -169,7 +169,7 @@ public:
         const SymLogTransform* x = dynamic_cast<const SymLogTransform*>(&other);
         if(!x)
             return false;
-        return true;
+        return min_x == x->min_x;
     }
     virtual bool less(Transform<T> const & other) const override {
         const SymLogTransform* x = dynamic_cast<const SymLogTransform*>(&other);
@@ -217,7 +217,7 @@ public:
         const RangeTransform* x = dynamic_cast<const RangeTransform*>(&other);
         if(!x)
             return false;
-        return true;
+        return std::tie(min_x, range) == std::tie(x->min_x, x->range);
     }
     virtual bool less(Transform<T> const & other) const override {
         const RangeTransform* x = dynamic_cast<const RangeTransform*>(&other);
-- 
2.43.0


From 1d616ab4f63423568d825317577cef46a6d5eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 12/39] fix: NormalizationConstant equality was not symmetric

---
 projects/distributions/private/Distributions.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/Distributions.cxx b/projects/distributions/private/Distributions.cxx
index 33f6336..df78ee8 100644
--- a/projects/distributions/private/Distributions.cxx
+++ b/projects/distributions/private/Distributions.cxx
@@ -76,13 +76,13 @@ std::string NormalizationConstant::Name() const {
 }
 
 bool NormalizationConstant::equal(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization==dist->GetNormalization();
 }
 
 bool NormalizationConstant::less(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization<dist->GetNormalization();
 }
-- 
2.43.0


From 1ad863563b2c53caf9ffaaf8142ea065a1f700a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 13/39] fix: DetectorModel equality ignored the detector
 rotation

---
 projects/detector/private/DetectorModel.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 4fe4683..a84992a 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -185,9 +185,9 @@ DetectorModel::DetectorModel(std::string const & path, std::string const & detec
 
 bool DetectorModel::operator==(DetectorModel const & o) const {
     return
-        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_)
+        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_, detector_rotation_)
         ==
-        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_);
+        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_, o.detector_rotation_);
 }
 
 std::string DetectorModel::GetPath() const {
-- 
2.43.0


From 8db9bc42e3f830028481ce370320ef256dce48da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 14/39] fix: DetectorModel archives dropped the detector
 rotation

---
 projects/detector/public/SIREN/detector/DetectorModel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/DetectorModel.h b/projects/detector/public/SIREN/detector/DetectorModel.h
index ce5dec8..8eda00a 100644
--- a/projects/detector/public/SIREN/detector/DetectorModel.h
+++ b/projects/detector/public/SIREN/detector/DetectorModel.h
@@ -120,18 +120,21 @@ public:
 
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
-        if(version == 0) {
+        if(version <= 1) {
             archive(cereal::make_nvp("Path", path_));
             archive(cereal::make_nvp("MaterialModel", materials_));
             archive(cereal::make_nvp("Sectors", sectors_));
             archive(cereal::make_nvp("SectorMap", sector_map_));
             archive(cereal::make_nvp("SectorNameMap", sector_name_map_));
             archive(cereal::make_nvp("DetectorOrigin", detector_origin_));
+            if(version >= 1) {
+                archive(cereal::make_nvp("DetectorRotation", detector_rotation_));
+            }
             if(Archive::is_loading::value) {
                 bvh_dirty_.store(true, std::memory_order_release); // BVH will be rebuilt on next query after load
             }
         } else {
-            throw std::runtime_error("DetectorModel only supports version <= 0!");
+            throw std::runtime_error("DetectorModel only supports version <= 1!");
         }
     }
 
@@ -341,7 +344,7 @@ std::ostream& operator<<(std::ostream& oss, siren::detector::DetectorSector & bc
 
 #include "SIREN/detector/DetectorModel.tcc"
 
-CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 0);
+CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 1);
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_DetectorModel);
 
-- 
2.43.0


From 28d52e86865688dae07a9fb556a9815fa67b78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:07 +0000
Subject: [PATCH 15/39] fix: do not derive closest-approach distances from a
 direction that was never given

UpdateVertexDistanceFromClosestApproach and UpdateInitialDistanceFromClosestApproach
read the uninitialised direction member when the point of closest approach, one end
point and the length are known but the direction is not.
---
 projects/dataclasses/private/InteractionRecord.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 42f820e..2a733cb 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -513,7 +513,7 @@ void PrimaryDistributionRecord::UpdateVertexDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         vertex_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and initial_position_set and length_set) {
+    } else if(point_of_closest_approach_set and initial_position_set and direction_set and length_set) {
         double p_dot_d = (
             (initial_position.at(0) * direction.at(0)) +
             (initial_position.at(1) * direction.at(1)) +
@@ -603,7 +603,7 @@ void PrimaryDistributionRecord::UpdateInitialDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         initial_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set) {
+    } else if(point_of_closest_approach_set and interaction_vertex_set and direction_set and length_set) {
         double p_dot_d = (
             (interaction_vertex.at(0) * direction.at(0)) +
             (interaction_vertex.at(1) * direction.at(1)) +
-- 
2.43.0


From 04af1ee19d7bc55e231e4a1bd73c993cefd9cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:07 +0000
Subject: [PATCH 16/39] fix: SecondaryDistributionRecord::Finalize reports a
 length that was never set

With only the interaction time given, the uninitialised length was used for the vertex.
---
 projects/dataclasses/private/InteractionRecord.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 2a733cb..47b1331 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1196,6 +1196,7 @@ void SecondaryDistributionRecord::Finalize(InteractionRecord & record) const {
     record.primary_mass = mass;
     record.primary_momentum = momentum;
     record.primary_helicity = helicity;
+    double const length = GetLength();
     record.interaction_vertex = initial_position;
     record.interaction_vertex.at(0) += length*direction.at(0);
     record.interaction_vertex.at(1) += length*direction.at(1);
-- 
2.43.0


From 7d29f0f691d94574ac26d3d52c13bbb5e8b17663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:07 +0000
Subject: [PATCH 17/39] fix: sign of the point of closest approach derived from
 the initial position

The initial position is derived as poca + distance * direction, so the point of closest
approach is the initial position minus distance * direction.
---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 47b1331..8364ed9 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -421,9 +421,9 @@ void PrimaryDistributionRecord::UpdatePointOfClosestApproach() const {
         return;
     if(initial_position_set and direction_set and initial_distance_from_closest_approach_set) {
         point_of_closest_approach = {
-            initial_position.at(0) + initial_distance_from_closest_approach * direction.at(0),
-            initial_position.at(1) + initial_distance_from_closest_approach * direction.at(1),
-            initial_position.at(2) + initial_distance_from_closest_approach * direction.at(2)};
+            initial_position.at(0) - initial_distance_from_closest_approach * direction.at(0),
+            initial_position.at(1) - initial_distance_from_closest_approach * direction.at(1),
+            initial_position.at(2) - initial_distance_from_closest_approach * direction.at(2)};
     } else if(interaction_vertex_set and direction_set and vertex_distance_from_closest_approach_set) {
         point_of_closest_approach = {
             interaction_vertex.at(0) - vertex_distance_from_closest_approach * direction.at(0),
-- 
2.43.0


From 05b4c9c899cb5658cb5aa814e08c05586fe243f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:00 +0000
Subject: [PATCH 18/39] fix: interpolators keep a zero mask that belongs to the
 current table

---
 .../utilities/public/SIREN/utilities/Interpolator.h  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 2165732..6d82f39 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -396,12 +396,16 @@ public:
         is_log = indexer.IsLog();
 
         std::vector<T> function_values(table.f.begin(), table.f.end());
+        zero_mask.clear();
         if(is_log) {
-            zero_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), zero_mask.begin(), [](T t)->T{return t<=0;});
+            zero_mask.resize(x.size());
+            for(unsigned int i=0; i<table.x.size(); ++i) {
+                zero_mask[xmap[table.x[i]]] = function_values[i] <= 0;
+            }
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
         }
 
+        function.clear();
         for(unsigned int i=0; i<table.x.size(); ++i) {
             function[
                         xmap[table.x[i]]
@@ -556,12 +560,14 @@ public:
         std::vector<T> function_values(table.f.begin(), table.f.end());
         std::vector<bool> z_mask;
         if(is_log) {
-            z_mask.reserve(function_values.size());
+            z_mask.resize(function_values.size());
             std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->T{return t<=0;});
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
             //std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{return log(t);});
         }
 
+        function.clear();
+        zero_mask.clear();
         for(unsigned int i=0; i<table.x.size(); ++i) {
             function[
                 std::pair<unsigned int, unsigned int>(
-- 
2.43.0


From 06fcef874353ee38b01f97081c4b6a4c08b8def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 19/39] fix: irregular index finder uses the first bin at and
 below the lower edge

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 6d82f39..0157053 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -124,10 +124,10 @@ struct IndexFinderIrregular {
         // begin is the first element
         // distance(begin, pointer to y) --> y
         // therefore this function returns the index of the lower bin edge
-        unsigned int index = std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x)) - 1;
+        int index = int(std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x))) - 1;
         if(index < 0)
             index = 0;
-        else if(index >= n_points - 1)
+        else if(index >= int(n_points) - 1)
             index = n_points - 2;
         return std::tuple<unsigned int, T, T, T>(index,
                 x,
-- 
2.43.0


From 1b5c0316a3ec4ace2c5bd53c0a8436069cb9e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:03 +0000
Subject: [PATCH 20/39] fix: a new detector model invalidates the path's
 intersections

---
 projects/detector/private/Path.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index a6dab82..40c3464 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -141,6 +141,7 @@ void Path::SetDetectorModel(std::shared_ptr<const DetectorModel> detector_model)
     }
     detector_model_ = detector_model;
     set_detector_model_ = true;
+    set_intersections_ = false;
     UpdatePoints();
 }
 
-- 
2.43.0


From 1592ab6dfeb00538c93d8049b83a393a6397527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:23 +0000
Subject: [PATCH 21/39] fix: publish the new pid after the id counters were
 reset

---
 projects/dataclasses/private/ParticleID.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/ParticleID.cxx b/projects/dataclasses/private/ParticleID.cxx
index 0f5c4b4..2c7020e 100644
--- a/projects/dataclasses/private/ParticleID.cxx
+++ b/projects/dataclasses/private/ParticleID.cxx
@@ -95,10 +95,11 @@ ParticleID ParticleID::GenerateID() {
                                                             //check whether another thread already updated this
         last_pid = global_last_pid_.load(std::memory_order_relaxed);
         if(this_pid != last_pid){
-            std::atomic_thread_fence(std::memory_order_release);
-            global_last_pid_.store(this_pid, std::memory_order_relaxed);
             global_major_id_.store(0, std::memory_order_relaxed); // this will cause a new major ID to be generated
             global_minor_id_.store(0, std::memory_order_relaxed); // reset the minor ID, too
+            // publish the new pid last: whoever sees it must not see the ids of the old process any more
+            std::atomic_thread_fence(std::memory_order_release);
+            global_last_pid_.store(this_pid, std::memory_order_relaxed);
         }
     }
 
-- 
2.43.0


From 0d8f07425a06bf319a55c9740350ff6906b508c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 22/39] fix: forward the remaining virtuals of the DarkNews
 classes to their Python overrides

---
 .../private/pyDarkNewsCrossSection.cxx        | 33 ++++++++++++++
 .../interactions/private/pyDarkNewsDecay.cxx  | 45 +++++++++++++++++++
 .../interactions/pyDarkNewsCrossSection.h     |  3 ++
 .../SIREN/interactions/pyDarkNewsDecay.h      |  4 ++
 4 files changed, 85 insertions(+)

diff --git a/projects/interactions/private/pyDarkNewsCrossSection.cxx b/projects/interactions/private/pyDarkNewsCrossSection.cxx
index 2d9f708..c9a336a 100644
--- a/projects/interactions/private/pyDarkNewsCrossSection.cxx
+++ b/projects/interactions/private/pyDarkNewsCrossSection.cxx
@@ -39,6 +39,17 @@ pyDarkNewsCrossSection::pyDarkNewsCrossSection(DarkNewsCrossSection const & pare
     self = pybind11::reinterpret_borrow<pybind11::object>(pybind11::handle(get_object_handle(&parent, pybind11::detail::get_type_info(typeid(DarkNewsCrossSection)))));
 }
 
+bool pyDarkNewsCrossSection::equal(CrossSection const & other) const {
+    SELF_OVERRIDE(
+            self,
+            DarkNewsCrossSection,
+            bool,
+            equal,
+            "equal",
+            std::cref(other)
+            )
+}
+
 double pyDarkNewsCrossSection::TotalCrossSectionAllFinalStates(siren::dataclasses::InteractionRecord const & record) const {
     SELF_OVERRIDE(
             self,
@@ -177,6 +188,18 @@ void pyDarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistribut
             )
 }
 
+double pyDarkNewsCrossSection::SampleInteractionTime(dataclasses::CrossSectionDistributionRecord const & record, std::shared_ptr<siren::utilities::SIREN_random> random) const {
+    SELF_OVERRIDE(
+            self,
+            DarkNewsCrossSection,
+            double,
+            SampleInteractionTime,
+            "SampleInteractionTime",
+            std::cref(record),
+            random
+            )
+}
+
 std::vector<siren::dataclasses::ParticleType> pyDarkNewsCrossSection::GetPossibleTargets() const {
     SELF_OVERRIDE_PURE(
             self,
@@ -241,6 +264,16 @@ double pyDarkNewsCrossSection::FinalStateProbability(dataclasses::InteractionRec
             )
 }
 
+std::vector<std::string> pyDarkNewsCrossSection::DensityVariables() const {
+    SELF_OVERRIDE(
+            self,
+            DarkNewsCrossSection,
+            std::vector<std::string>,
+            DensityVariables,
+            "DensityVariables"
+            )
+}
+
 } // namespace interactions
 } // namespace siren
 
diff --git a/projects/interactions/private/pyDarkNewsDecay.cxx b/projects/interactions/private/pyDarkNewsDecay.cxx
index 7e2706e..1cfc523 100644
--- a/projects/interactions/private/pyDarkNewsDecay.cxx
+++ b/projects/interactions/private/pyDarkNewsDecay.cxx
@@ -39,6 +39,39 @@ namespace interactions {
     }
     //pybind11::object self;
 
+bool pyDarkNewsDecay::equal(Decay const & other) const {
+        SELF_OVERRIDE(
+            self,
+            DarkNewsDecay,
+            bool,
+            equal,
+            "equal",
+            std::cref(other)
+        )
+    }
+
+double pyDarkNewsDecay::TotalDecayLengthAllFinalStates(dataclasses::InteractionRecord const & record) const {
+        SELF_OVERRIDE(
+            self,
+            DarkNewsDecay,
+            double,
+            TotalDecayLengthAllFinalStates,
+            "TotalDecayLengthAllFinalStates",
+            std::cref(record)
+        )
+    }
+
+double pyDarkNewsDecay::TotalDecayLength(dataclasses::InteractionRecord const & record) const {
+        SELF_OVERRIDE(
+            self,
+            DarkNewsDecay,
+            double,
+            TotalDecayLength,
+            "TotalDecayLength",
+            std::cref(record)
+        )
+    }
+
 double pyDarkNewsDecay::TotalDecayWidthAllFinalStates(dataclasses::InteractionRecord const & interaction) const {
         SELF_OVERRIDE(
             self,
@@ -107,6 +140,18 @@ void pyDarkNewsDecay::SampleFinalState(dataclasses::CrossSectionDistributionReco
         )
     }
 
+double pyDarkNewsDecay::SampleDecayTime(dataclasses::CrossSectionDistributionRecord const & record, std::shared_ptr<siren::utilities::SIREN_random> random) const {
+        SELF_OVERRIDE(
+            self,
+            DarkNewsDecay,
+            double,
+            SampleDecayTime,
+            "SampleDecayTime",
+            std::cref(record),
+            random
+        )
+    }
+
     std::vector<siren::dataclasses::InteractionSignature> pyDarkNewsDecay::GetPossibleSignatures() const {
         SELF_OVERRIDE_PURE(
             self,
diff --git a/projects/interactions/public/SIREN/interactions/pyDarkNewsCrossSection.h b/projects/interactions/public/SIREN/interactions/pyDarkNewsCrossSection.h
index 9b45bc1..c57d852 100644
--- a/projects/interactions/public/SIREN/interactions/pyDarkNewsCrossSection.h
+++ b/projects/interactions/public/SIREN/interactions/pyDarkNewsCrossSection.h
@@ -37,6 +37,7 @@ public:
     using DarkNewsCrossSection::DarkNewsCrossSection;
     pyDarkNewsCrossSection(DarkNewsCrossSection && parent);
     pyDarkNewsCrossSection(DarkNewsCrossSection const & parent);
+    bool equal(CrossSection const & other) const override;
     double TotalCrossSectionAllFinalStates(siren::dataclasses::InteractionRecord const & record) const override;
     double TotalCrossSection(dataclasses::InteractionRecord const & interaction) const override;
     double TotalCrossSection(siren::dataclasses::ParticleType primary, double energy, siren::dataclasses::ParticleType target) const override;
@@ -49,12 +50,14 @@ public:
     std::vector<double> SecondaryMasses(std::vector<dataclasses::ParticleType> const & secondary_types) const override;
     std::vector<double> SecondaryHelicities(dataclasses::InteractionRecord const & record) const override;
     void SampleFinalState(dataclasses::CrossSectionDistributionRecord & record, std::shared_ptr<siren::utilities::SIREN_random> random) const override;
+    double SampleInteractionTime(dataclasses::CrossSectionDistributionRecord const & record, std::shared_ptr<siren::utilities::SIREN_random> random) const override;
     std::vector<siren::dataclasses::ParticleType> GetPossibleTargets() const override;
     std::vector<siren::dataclasses::ParticleType> GetPossibleTargetsFromPrimary(siren::dataclasses::ParticleType primary_type) const override;
     std::vector<siren::dataclasses::ParticleType> GetPossiblePrimaries() const override;
     std::vector<siren::dataclasses::InteractionSignature> GetPossibleSignatures() const override;
     std::vector<siren::dataclasses::InteractionSignature> GetPossibleSignaturesFromParents(siren::dataclasses::ParticleType primary_type, siren::dataclasses::ParticleType target_type) const override;
     double FinalStateProbability(dataclasses::InteractionRecord const & record) const override;
+    std::vector<std::string> DensityVariables() const override;
 
     Pybind11TrampolineCerealMethods(DarkNewsCrossSection, pyDarkNewsCrossSection);
 };
diff --git a/projects/interactions/public/SIREN/interactions/pyDarkNewsDecay.h b/projects/interactions/public/SIREN/interactions/pyDarkNewsDecay.h
index 5a62dad..d8407b5 100644
--- a/projects/interactions/public/SIREN/interactions/pyDarkNewsDecay.h
+++ b/projects/interactions/public/SIREN/interactions/pyDarkNewsDecay.h
@@ -41,12 +41,16 @@ public:
     pyDarkNewsDecay(DarkNewsDecay && parent);
     pyDarkNewsDecay(DarkNewsDecay const & parent);
 
+    bool equal(Decay const & other) const override;
+    double TotalDecayLengthAllFinalStates(dataclasses::InteractionRecord const & record) const override;
+    double TotalDecayLength(dataclasses::InteractionRecord const & record) const override;
     double TotalDecayWidthAllFinalStates(dataclasses::InteractionRecord const & interaction) const override;
     double TotalDecayWidth(dataclasses::InteractionRecord const & interaction) const override;
     double TotalDecayWidth(siren::dataclasses::ParticleType primary) const override;
     double DifferentialDecayWidth(dataclasses::InteractionRecord const & interaction) const override;
     void SampleRecordFromDarkNews(dataclasses::CrossSectionDistributionRecord & record, std::shared_ptr<siren::utilities::SIREN_random> random) const override;
     void SampleFinalState(dataclasses::CrossSectionDistributionRecord & record, std::shared_ptr<siren::utilities::SIREN_random> random) const override;
+    double SampleDecayTime(dataclasses::CrossSectionDistributionRecord const & record, std::shared_ptr<siren::utilities::SIREN_random> random) const override;
     std::vector<siren::dataclasses::InteractionSignature> GetPossibleSignatures() const override;
     std::vector<siren::dataclasses::InteractionSignature> GetPossibleSignaturesFromParent(siren::dataclasses::ParticleType primary_type) const override;
     std::vector<std::string> DensityVariables() const override;
-- 
2.43.0


From 7c80c58fa9416ae87473919d8d4b6ae2700dc0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 23/39] fix: hand Python decays the record itself in
 SampleFinalState, not a copy

---
 projects/interactions/private/pyDecay.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/pyDecay.cxx b/projects/interactions/private/pyDecay.cxx
index 96a2f2a..826e276 100644
--- a/projects/interactions/private/pyDecay.cxx
+++ b/projects/interactions/private/pyDecay.cxx
@@ -100,7 +100,7 @@ double pyDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & in
 }
 
 void pyDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & record, std::shared_ptr<siren::utilities::SIREN_random> random) const {
-    SELF_OVERRIDE_PURE(
+    SELF_OVERRIDE_PURE_REF(
         self,
         Decay,
         void,
-- 
2.43.0


From a5a0268355e4d450173330850847f17b8459c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 24/39] fix: build the cone's rotation from the normalised
 direction

The constructor normalises its member and then went on with the raw
argument, so directions sampled for a non-unit argument were rotated
to the wrong axis.
---
 projects/distributions/private/primary/direction/Cone.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index f3bd6bc..d373320 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -28,9 +28,9 @@ Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_
     } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
-        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), dir);
+        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
         rotation = siren::math::Quaternion(r);
-        rotation.SetW(1.0 + dir.GetZ());
+        rotation.SetW(1.0 + this->dir.GetZ());
         rotation.normalize();
     }
 }
-- 
2.43.0


From c4c8648d24a6e466f5b2fdebd54456d172f8dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 25/39] fix: the power law has no density outside its energy
 range

The sampler only produces energies in [energyMin, energyMax], but the
density was non-zero everywhere, unlike the other energy distributions.
---
 projects/distributions/private/primary/energy/PowerLaw.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/energy/PowerLaw.cxx b/projects/distributions/private/primary/energy/PowerLaw.cxx
index 923dbb9..2897729 100644
--- a/projects/distributions/private/primary/energy/PowerLaw.cxx
+++ b/projects/distributions/private/primary/energy/PowerLaw.cxx
@@ -49,7 +49,11 @@ double PowerLaw::pdf(double energy) const {
 }
 
 double PowerLaw::GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const {
-    return pdf(record.primary_momentum[0]);
+    double const & energy = record.primary_momentum[0];
+    if(energy < energyMin or energy > energyMax)
+        return 0.0;
+    else
+        return pdf(energy);
 }
 
 std::string PowerLaw::Name() const {
-- 
2.43.0


From a3390ab98c558332a8865ae517fe3504ec871657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 26/39] fix: DarkNews total cross section is asked for the
 target, not the primary

TotalCrossSection(record) passed the primary's type as the target type.
---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 70ebc2f..deb7fa9 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -33,7 +33,7 @@ bool DarkNewsCrossSection::equal(CrossSection const & other) const {
 
 double DarkNewsCrossSection::TotalCrossSection(dataclasses::InteractionRecord const & interaction) const {
     siren::dataclasses::ParticleType primary_type = interaction.signature.primary_type;
-    siren::dataclasses::ParticleType target_type = interaction.signature.primary_type;
+    siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double const & primary_mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
-- 
2.43.0


From 8a443ed5bd94ba0666ccd53de2d7db61743f2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 27/39] fix: DarkNews differential cross section uses the
 outgoing particle

Q2 was computed from the target at rest instead of the secondary.
---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index deb7fa9..0e141cc 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -55,7 +55,7 @@ double DarkNewsCrossSection::DifferentialCrossSection(dataclasses::InteractionRe
     rk::P4 p1_lab;
     rk::P4 p3_lab;
     p1_lab = p1;
-    p3_lab = p2;
+    p3_lab = p3;
     primary_energy = p1_lab.e();
     double Q2 = -1*(std::pow(p1_lab.m(),2) + std::pow(p3_lab.m(),2) - 2.0*p1_lab.dot(p3_lab));
 
-- 
2.43.0


From 8ecac2355b2981183fd499eaf7c1bd5060671393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 28/39] fix: HNLDipoleFromTable differential cross section uses
 the target's mass

The record overload used the primary's mass as the target's.
---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 82e2ac6..216f59f 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -171,7 +171,7 @@ double HNLDipoleFromTable::DifferentialCrossSection(dataclasses::InteractionReco
     siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double primary_mass = interaction.primary_mass;
-    double target_mass = interaction.primary_mass;
+    double target_mass = interaction.target_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
     rk::P4 p2(geom3::Vector3(0, 0, 0), target_mass);
     double primary_energy;
-- 
2.43.0


From 38429dea30bc8dd75babdbe0fdcefbabe6a6795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 29/39] fix: DummyCrossSection filters signatures by target

GetPossibleSignaturesFromParents ignored the target type and returned the
signatures of every target.
---
 projects/interactions/private/DummyCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index c415503..ef238b5 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -184,7 +184,7 @@ std::vector<dataclasses::InteractionSignature> DummyCrossSection::GetPossibleSig
     std::vector<dataclasses::InteractionSignature> sigs = DummyCrossSection::GetPossibleSignatures();
     std::vector<dataclasses::InteractionSignature> these_sigs;
     for(auto sig : sigs) {
-        if(sig.primary_type == primary_type)
+        if(sig.primary_type == primary_type and sig.target_type == target_type)
             these_sigs.push_back(sig);
     }
     return these_sigs;
-- 
2.43.0


From ec6c9ff85027bf1df357342ac31918ef10c06c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:37 +0000
Subject: [PATCH 30/39] fix: DMesonELoss offers signatures only for the parents
 it handles

GetPossibleSignaturesFromParents returned a signature for any primary and
target, including ones TotalCrossSection rejects.
---
 projects/interactions/private/DMesonELoss.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/interactions/private/DMesonELoss.cxx b/projects/interactions/private/DMesonELoss.cxx
index debca2e..0b336da 100644
--- a/projects/interactions/private/DMesonELoss.cxx
+++ b/projects/interactions/private/DMesonELoss.cxx
@@ -73,6 +73,8 @@ std::vector<dataclasses::InteractionSignature> DMesonELoss::GetPossibleSignature
 
 std::vector<dataclasses::InteractionSignature> DMesonELoss::GetPossibleSignaturesFromParents(siren::dataclasses::Particle::ParticleType primary_type, siren::dataclasses::Particle::ParticleType target_type) const {
     std::vector<dataclasses::InteractionSignature> signatures;
+    if(primary_types_.count(primary_type) == 0 or target_types_.count(target_type) == 0)
+        return signatures;
     dataclasses::InteractionSignature signature;
     signature.primary_type = primary_type;
     signature.target_type = target_type;
-- 
2.43.0


From 1a68b5516a86a275c131ac6c764d499c11fd2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:23 +0000
Subject: [PATCH 31/39] fix: order transforms, indexers, range and depth
 functions by their dynamic type

---
 .../private/primary/vertex/DepthFunction.cxx         |  4 ++--
 .../private/primary/vertex/RangeFunction.cxx         |  4 ++--
 projects/math/public/SIREN/math/Interpolation.h      | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DepthFunction.cxx b/projects/distributions/private/primary/vertex/DepthFunction.cxx
index 74d88a1..3720ab9 100644
--- a/projects/distributions/private/primary/vertex/DepthFunction.cxx
+++ b/projects/distributions/private/primary/vertex/DepthFunction.cxx
@@ -25,10 +25,10 @@ bool DepthFunction::operator==(DepthFunction const & distribution) const {
 }
 
 bool DepthFunction::operator<(DepthFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangeFunction.cxx b/projects/distributions/private/primary/vertex/RangeFunction.cxx
index 737be7d..6c25241 100644
--- a/projects/distributions/private/primary/vertex/RangeFunction.cxx
+++ b/projects/distributions/private/primary/vertex/RangeFunction.cxx
@@ -24,10 +24,10 @@ bool RangeFunction::operator==(RangeFunction const & distribution) const {
 }
 
 bool RangeFunction::operator<(RangeFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
diff --git a/projects/math/public/SIREN/math/Interpolation.h b/projects/math/public/SIREN/math/Interpolation.h
index f9e5e8c..2e95ec4 100644
--- a/projects/math/public/SIREN/math/Interpolation.h
+++ b/projects/math/public/SIREN/math/Interpolation.h
@@ -50,10 +50,10 @@ public:
 			return this->equal(other);
     }
 	virtual bool operator<(Transform<T> const & other) const {
-		if(typeid(this) == typeid(&other))
+		if(typeid(*this) == typeid(other))
 			return this->less(other);
 		else
-			return std::type_index(typeid(this)) < std::type_index(typeid(&other));
+			return std::type_index(typeid(*this)) < std::type_index(typeid(other));
 	}
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
@@ -270,10 +270,10 @@ public:
 			return this->equal(other);
     }
 	virtual bool operator<(LinearInterpolationOperator<T> const & other) const {
-		if(typeid(this) == typeid(&other))
+		if(typeid(*this) == typeid(other))
 			return this->less(other);
 		else
-			return std::type_index(typeid(this)) < std::type_index(typeid(&other));
+			return std::type_index(typeid(*this)) < std::type_index(typeid(other));
 	}
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
@@ -413,10 +413,10 @@ public:
 			return this->equal(other);
     }
 	virtual bool operator<(Indexer1D<T> const & other) const {
-		if(typeid(this) == typeid(&other))
+		if(typeid(*this) == typeid(other))
 			return this->less(other);
 		else
-			return std::type_index(typeid(this)) < std::type_index(typeid(&other));
+			return std::type_index(typeid(*this)) < std::type_index(typeid(other));
 	}
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
-- 
2.43.0


From 446cd25a3b64574e7ac15ccfd834da92a901e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:23 +0000
Subject: [PATCH 32/39] fix: radiation fractions are computed for the
 components that are present

---
 projects/detector/private/MaterialModel.cxx               | 2 +-
 projects/detector/public/SIREN/detector/MaterialModel.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 871abb5..a054d52 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -384,7 +384,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
     fractions.reserve(particle_types.size());
     for(auto const & particle_type : particle_types) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, particle_type);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
diff --git a/projects/detector/public/SIREN/detector/MaterialModel.tcc b/projects/detector/public/SIREN/detector/MaterialModel.tcc
index 4bb1f6a..460817d 100644
--- a/projects/detector/public/SIREN/detector/MaterialModel.tcc
+++ b/projects/detector/public/SIREN/detector/MaterialModel.tcc
@@ -46,7 +46,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
     fractions.reserve(std::distance(begin, end));
     for(Iterator it = begin; it != end; ++it) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, *it);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
-- 
2.43.0


From 52ea206d9c15f3cd2f6e280e0484b463832ee7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:52 +0000
Subject: [PATCH 33/39] fix: re-adding a material forgets the components it had
 before

---
 projects/detector/private/MaterialModel.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index a054d52..973576a 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -185,6 +185,13 @@ void MaterialModel::AddMaterial(std::string const & material_name, std::map<int,
         }
     } else {
         material_radiation_length_[material_id] = rad_length;
+        // Forget the components the material had before
+        for(auto it = material_components_by_id_.begin(); it != material_components_by_id_.end();) {
+            if(it->first.first == material_id)
+                it = material_components_by_id_.erase(it);
+            else
+                ++it;
+        }
         // Store material components by material id and component particle type
         for(auto const & material_component : material_components) {
             material_components_by_id_[std::make_pair(material_id, material_component.component.type)] = material_component;
-- 
2.43.0


From 13f900e65ca2adf7abf32b88246eaedb9a51c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:53 +0000
Subject: [PATCH 34/39] fix: SetSectors looks at all sectors before it changes
 the model

---
 projects/detector/private/DetectorModel.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index a84992a..774ae28 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -211,20 +211,23 @@ std::vector<DetectorSector> const & DetectorModel::GetSectors() const {
 }
 
 void DetectorModel::SetSectors(std::vector<DetectorSector> const & sectors) {
-    sectors_ = sectors;
-    sector_map_.clear();
-    sector_name_map_.clear();
+    // Look at all sectors before changing anything, so that a refused list leaves the model as it was
+    decltype(sector_map_) sector_map;
+    decltype(sector_name_map_) sector_name_map;
     for(unsigned int i=0; i<sectors.size(); ++i) {
-        if(sector_map_.count(sectors[i].level) > 0) {
+        if(sector_map.count(sectors[i].level) > 0) {
             throw(std::runtime_error("Already have a sector of that heirarchy!"));
         }
         // Enforce unique sector names for name-based lookup
-        if(sector_name_map_.count(sectors[i].name) > 0) {
+        if(sector_name_map.count(sectors[i].name) > 0) {
             throw(std::runtime_error("Already have a sector named: " + sectors[i].name));
         }
-        sector_name_map_[sectors[i].name] = i;
-        sector_map_[sectors[i].level] = i;
+        sector_name_map[sectors[i].name] = i;
+        sector_map[sectors[i].level] = i;
     }
+    sectors_ = sectors;
+    sector_map_ = sector_map;
+    sector_name_map_ = sector_name_map;
     bvh_dirty_.store(true, std::memory_order_release);
 }
 
-- 
2.43.0


From 8ad33b21072f56f909974a8d44e54c1f582b7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:53 +0000
Subject: [PATCH 35/39] fix: a path refuses infinite points before it changes

---
 projects/detector/private/Path.cxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index 40c3464..1d4432b 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -152,6 +152,8 @@ void Path::EnsureDetectorModel() {
 }
 
 void Path::SetPoints(GeometryPosition first_point, GeometryPosition last_point) {
+    if(IsInfinite(first_point) or IsInfinite(last_point))
+        throw std::runtime_error("Both points are required to be finite here");
     first_point_ = first_point;
     last_point_ = last_point;
     direction_ = GeometryDirection(last_point_ - first_point_);
@@ -162,11 +164,12 @@ void Path::SetPoints(GeometryPosition first_point, GeometryPosition last_point)
     set_intersections_ = false;
     first_inf_ = IsInfinite(first_point);
     last_inf_ = IsInfinite(last_point);
-    RequireBothFinite();
     UpdatePoints();
 }
 
 void Path::SetPoints(DetectorPosition first_point, DetectorPosition last_point) {
+    if(IsInfinite(first_point) or IsInfinite(last_point))
+        throw std::runtime_error("Both points are required to be finite here");
     first_point_det_ = first_point;
     last_point_det_ = last_point;
     direction_det_ = DetectorDirection(last_point_det_ - first_point_det_);
@@ -177,11 +180,12 @@ void Path::SetPoints(DetectorPosition first_point, DetectorPosition last_point)
     set_intersections_ = false;
     first_inf_ = IsInfinite(first_point);
     last_inf_ = IsInfinite(last_point);
-    RequireBothFinite();
     UpdatePoints();
 }
 
 void Path::SetPointsWithRay(GeometryPosition first_point, GeometryDirection direction, double distance) {
+    if(IsInfinite(first_point))
+        throw std::runtime_error("First point is required to be finite here");
     // Check if the new ray is collinear with the cached intersections.
     // Intersections along the same line are reusable: SectorLoop compensates
     // for origin shifts via the offset calculation.
@@ -211,11 +215,12 @@ void Path::SetPointsWithRay(GeometryPosition first_point, GeometryDirection dire
     }
     first_inf_ = IsInfinite(first_point_); // Set using GeometryPosition
     last_inf_ = IsInfinite(last_point_); // Set using GeometryPosition
-    RequireFirstFinite();
     UpdatePoints();
 }
 
 void Path::SetPointsWithRay(DetectorPosition first_point, DetectorDirection direction, double distance) {
+    if(IsInfinite(first_point))
+        throw std::runtime_error("First point is required to be finite here");
     // Check if the new ray is collinear with the cached intersections.
     // intersections_ are stored in geometry frame, so we must convert the
     // detector-frame arguments before comparing.
@@ -247,7 +252,6 @@ void Path::SetPointsWithRay(DetectorPosition first_point, DetectorDirection dire
     }
     first_inf_ = IsInfinite(first_point_det_); // Set using DetectorPosition
     last_inf_ = IsInfinite(last_point_det_); // Set using DetectorPosition
-    RequireFirstFinite();
     UpdatePoints();
 }
 
-- 
2.43.0


From ed2b0c52993b05666855ab70f040cae35ef34929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:53 +0000
Subject: [PATCH 36/39] fix: a two-dimensional flux refuses energy bounds
 before it stores them

---
 .../primary/energy_direction/Tabulated2DFluxDistribution.cxx   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index ad58837..336709d 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -161,6 +161,9 @@ double Tabulated2DFluxDistribution::SamplePDF(double energy, double cosZenith) c
 }
 
 void Tabulated2DFluxDistribution::SetEnergyBounds(double eMin, double eMax) {
+    if(fluxTable.IsLogX() && (eMin <= 0 || eMax <= 0)) {
+        throw std::runtime_error("Energy bounds must be positive for log-spaced energy tables");
+    }
     energyMin = eMin;
     energyMax = eMax;
     energy_bounds_set = true;
-- 
2.43.0


From e9d42f42c3570d73cfd72121fc8b71d471cd8aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:04 +0000
Subject: [PATCH 37/39] fix: HNLDecay offers no three-body final states for
 parents that are not heavy neutral leptons

---
 projects/interactions/private/HNLDecay.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2f33d73..4eeb867 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -633,6 +633,8 @@ std::vector<dataclasses::InteractionSignature> HNLDecay::GetPossibleSignatures()
 std::vector<dataclasses::InteractionSignature> HNLDecay::GetPossibleSignaturesFromParent(siren::dataclasses::ParticleType primary) const {
 
     std::vector<dataclasses::InteractionSignature> signatures;
+    if(primary != siren::dataclasses::ParticleType::N4 && primary != siren::dataclasses::ParticleType::N4Bar)
+      return signatures;
     dataclasses::InteractionSignature signature;
     signature.primary_type = primary;
     signature.target_type = siren::dataclasses::ParticleType::Decay;
-- 
2.43.0


From a9731dcd86aeff319d7e6b7115d255fb215f79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:20 +0000
Subject: [PATCH 38/39] fix: DetectorModel's distance-to-point queries look
 backwards in detector coordinates too

The overloads in detector coordinates handed over to the ...FromPoint
functions without reversing the direction, so the answer depended on the
coordinate system the question was asked in.
---
 projects/detector/private/DetectorModel.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 774ae28..9ae4f22 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -2070,11 +2070,11 @@ double DetectorModel::DistanceForColumnDepthFromPoint(DetectorPosition const & p
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(Geometry::IntersectionList const & intersections, DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::GetMassDensity(Geometry::IntersectionList const & intersections, DetectorPosition const & p0,  std::set<siren::dataclasses::ParticleType> targets) const {
@@ -2154,14 +2154,14 @@ double DetectorModel::DistanceForInteractionDepthToPoint(Geometry::IntersectionL
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 double DetectorModel::DistanceForInteractionDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double interaction_depth,
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 //////////////////////////////////////////////////////////
-- 
2.43.0


From 2143d6107c1ccf2b313b649de79a545959065861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:46 +0000
Subject: [PATCH 39/39] fix: TabulatedFluxDistribution keeps the energies its
 CDF is tabulated at

ComputeCDF filled a local variable of the member's name, so GetCDFEnergyNodes
always returned an empty vector.
---
 .../private/primary/energy/TabulatedFluxDistribution.cxx   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index cfae9cc..75672f3 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -136,12 +136,9 @@ void TabulatedFluxDistribution::ComputeCDF() {
     );
     energies.push_back(energyMax);
 
-    // assign the energies vector so it's accessible outside of the function
-    //cdf_energy_nodes = energies;
-
-    // declare the cdf vectors
+    // declare the cdf vector and start the member that keeps its energies afresh
     std::vector<double> cdf_vector;
-    std::vector<double> cdf_energy_nodes;
+    cdf_energy_nodes.clear();
 
     cdf_vector.push_back(0); // start the CDF at zero
     cdf_energy_nodes.push_back(energies[0]);
-- 
2.43.0

