From b2a46a61e9018df9198ad28a195ce14d6a4e94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 01/14] fix: normalise the orientation given to a pose whatever
 its norm

A quaternion of norm above 1.0001 was stored as is, so the pose scaled every
point it was applied to.
---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 5f14e88bc59ef070ca7cad0d7df9e4ea20ae653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 02/14] fix: initialise the reference position of obstacles
 built from a name only

It was left uninitialised and then read by the modulation and by print.
---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..d3aed67 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From 3973d278447f660f90eed9cfe84a3bbfe52194d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 03/14] fix: give a copied agent an envelope of its own

The copy had a null envelope: transformed(), any setter or get_envelope() on a
copy dereferenced a null pointer.
---
 src/Agent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..1f98464 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -16,7 +16,9 @@ namespace DynamicObstacleAvoidance
 
 	Agent::Agent(const Agent& agent):
 	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
-	{}
+	{
+		this->envelope = std::make_shared<Ellipsoid>(*static_cast<Ellipsoid*>(agent.envelope.get()));
+	}
 
 	void Agent::update_envelope()
 	{
-- 
2.43.0


From fb844fa4d9b62ac6e41c5e9bb6ae7e517cd7a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 04/14] fix: wrap the index of the closest hull point

For a bearing above the last one (such as exactly pi, a point straight behind
the reference point) the index was one past the end of the hull.
---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..d397184 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,7 +87,7 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
+        unsigned int first_index = (it - vec.begin()) % vec.size();
         unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
         return std::make_pair(first_index, next_index);
     }
-- 
2.43.0


From 3f9683fcf183204837fb56d306944f2ba84168e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 05/14] fix: make the orthogonal basis orthonormal for normals
 out of the plane

The tangent was only of unit length for horizontal normals, so the velocity of
a moving obstacle was scaled down in compute_relative_velocities.
---
 src/Modulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..6608ed4 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -69,6 +69,7 @@ namespace DynamicObstacleAvoidance
 				unit_vector = Eigen::Vector3d::UnitY();
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
+			tangent_vector.normalize();
 
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
-- 
2.43.0


From 06a380cf3add9046460556a138da3fb6d768ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 06/14] fix: use a tangent of the surface as third column of
 the reference basis

tangent x reference direction is only tangent to the surface in the plane; in
space the modulated velocity could point into the obstacle on its surface.
---
 src/Modulation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 6608ed4..a0056bd 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -83,9 +83,8 @@ namespace DynamicObstacleAvoidance
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
-- 
2.43.0


From 307a26523a3e280668d9103f379a858b38c4f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 07/14] fix: make the velocity frame orthonormal for every
 direction of motion

For vertical motion the frame collapsed (the fallback axis was not used) and for
other motion out of the plane its axes were not of unit length, so the velocity
rebuilt from it was not the modulated one.
---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index a0056bd..7b6374c 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -112,9 +112,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From d5feb95c6156f53771a45f4dda0c7fd6aa3a5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 08/14] fix: smooth the hull with its new points only

The point following the smoothed one was read before being written, so the hull
depended on what it was before (zero the first time).
---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From e267b06d40bde04200d79ed3b0ebd4c8baa1ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 09/14] fix: return a unit normal from the hull

Its length was that of a hull segment, which scaled down the velocity of moving
aggregates in the modulation.
---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 50a2c82e9c4ccc2fef39501d6a5380d4d8ec00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 10/14] fix: intersect an ellipsoid with lines along its second
 axis too

The line was described by its slope, so that a line with equal first coordinates
never intersected.
---
 src/Obstacle/Ellipsoid.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..834500e 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -260,27 +260,27 @@ namespace DynamicObstacleAvoidance
 		// transform both reference points in the object frame
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
-		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		// calculate the direction of the line passing by the two points
+		double dx = rx2(0) - rx1(0);
+		double dy = rx2(1) - rx1(1);
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (dx*dx) / r1squared + (dy*dy) / r2squared;
+		double B = (2*rx1(0)*dx) / r1squared + (2*rx1(1)*dy) / r2squared;
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * dx, rx1(1) + t1 * dy, 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * dx, rx1(1) + t2 * dy, 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 28aeb73c31d40fbefc41d950be00dddf1fcccb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 11/14] fix: throw an exception rather than a pointer to one

linspace could not be caught as std::exception.
---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index d397184..7e7600f 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -5,7 +5,7 @@ namespace DynamicObstacleAvoidance
     std::vector<double> MathTools::linspace(double start, double end, int num) {
         // catch rarely, throw often
         if (num < 2) {
-            throw new std::exception();
+            throw std::exception();
         }
         int partitions = num - 1;
         std::vector<double> pts;
-- 
2.43.0


From f218c044f642ae00aacddb5bd39b1a1576e62bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 12/14] fix: give the origin defined polar coordinates

Its polar angle was acos(0/0), and converting back gave NaN.
---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 7e7600f..3bb0436 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -50,7 +50,7 @@ namespace DynamicObstacleAvoidance
     Eigen::Vector3d MathTools::cartesian_to_polar(const Eigen::Vector3d& cartesian_point)
     {
         double radius = sqrt(cartesian_point(0) * cartesian_point(0) + cartesian_point(1) * cartesian_point(1) + cartesian_point(2) * cartesian_point(2));
-        double theta = acos(cartesian_point(2) / radius);
+        double theta = (radius > 0) ? acos(cartesian_point(2) / radius) : 0;
         double phi = atan2(cartesian_point(1), cartesian_point(0));
         return Eigen::Vector3d(radius, theta, phi);
     }
-- 
2.43.0


From dcf3b1add6c554f1268d4ef460e5b31deb2182f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:14 +0000
Subject: [PATCH 13/14] fix: keep the bearings of a hull in increasing order

---
 src/Obstacle/StarShapeHull.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..d241169 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,8 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			// the crossing behind the reference point may carry the bearing pi, which would break the order of the bearings
+			surface_point(2) = phi[i];
 			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
-- 
2.43.0


From 0dc840498c530f103e44a341e2584a2df1cb0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:39 +0000
Subject: [PATCH 14/14] fix: the area of an ellipsoid grows with the square of
 its size

---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 834500e..961f590 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -247,7 +247,7 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0

