From 27da3c9ab84b17bf6615e13154002cd76543f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 01/29] fix: discard stale second order distance in fast
 marching update

---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..44dc375 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -466,6 +466,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Discard any second order distance from the other side.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From 69dc89e986773811edb784bf4a36d862099e4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 02/29] fix: make repeated marches on one FastMarchingMethod
 independent

---
 src/FastMarchingMethod.cpp | 7 +++++++
 src/FastMarchingMethod.h   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 44dc375..ef4c575 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -110,6 +110,9 @@ namespace slsm
             // Make sure node isn't masked.
             if (nodeStatus[i] != FMM_NodeStatus::MASKED)
             {
+                // Discard any status from a previous march.
+                nodeStatus[i] = FMM_NodeStatus::NONE;
+
                 // Zero contour passes through node.
                 if (signedDistanceCopy[i] == 0)
                 {
@@ -212,6 +215,10 @@ namespace slsm
                 maxHeapSize++;
         }
 
+        // Release the heap from any previous march.
+        delete heap;
+        heap = nullptr;
+
         heap = new Heap(maxHeapSize, isTest);
     }
 
diff --git a/src/FastMarchingMethod.h b/src/FastMarchingMethod.h
index e5d38b2..c465592 100644
--- a/src/FastMarchingMethod.h
+++ b/src/FastMarchingMethod.h
@@ -75,6 +75,10 @@ namespace slsm
          */
         FastMarchingMethod(const Mesh&, bool isTest_=false);
 
+        //! Copying is not allowed (the object owns its heap).
+        FastMarchingMethod(const FastMarchingMethod&) = delete;
+        FastMarchingMethod& operator=(const FastMarchingMethod&) = delete;
+
         //! Destructor.
         ~FastMarchingMethod();
 
-- 
2.43.0


From cd93a768a268f86406441714346cf915d885417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 03/29] fix: clear mine flags when the narrow band is rebuilt

---
 src/LevelSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..4dbeaa3 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -650,6 +650,7 @@ namespace slsm
         {
             // Flag node as inactive.
             mesh.nodes[i].isActive = false;
+            mesh.nodes[i].isMine = false;
 
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
-- 
2.43.0


From b1becf3e1c2874cff46610410329c91a768b506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 04/29] fix: make the cut polygon vertex comparison a strict
 weak ordering

---
 src/LevelSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 4dbeaa3..07c3866 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1435,9 +1435,9 @@ namespace slsm
         if ((point1.x - centre.x) == 0 && (point2.x - centre.x) == 0)
         {
             if ((point1.y - centre.y) >= 0 || (point2.y - centre.y) >= 0)
-                return (point1.y > point2.y) ? false : true;
+                return (point1.y < point2.y);
 
-            return (point2.y > point1.y) ? false : true;
+            return (point2.y < point1.y);
         }
 
         // Compute the cross product of the vectors (centre --> point1) x (centre --> point2).
@@ -1445,7 +1445,7 @@ namespace slsm
                    - (point2.x - centre.x) * (point1.y - centre.y);
 
         if (det < 0) return false;
-        else return true;
+        if (det > 0) return true;
 
         // Points are on the same line from the centre, check which point is
         // closer to the centre.
@@ -1456,7 +1456,7 @@ namespace slsm
         double d2 = (point2.x - centre.x) * (point2.x - centre.x)
                   + (point2.y - centre.y) * (point2.y - centre.y);
 
-        return (d1 > d2) ? false : true;
+        return (d1 < d2);
     }
 
     double LevelSet::polygonArea(std::vector<Coord>& vertices, const unsigned int& nVertices, const Coord& centre) const
-- 
2.43.0


From 8dcebf7a4c616f871e8aeff76229387d5a08cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 05/29] fix: do not truncate the point-in-polygon side test to
 an integer

---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 07c3866..2392e61 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1333,7 +1333,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From 5e175540028d3bf6d09371cddf086a0f71cd8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 06/29] fix: handle empty polygons

---
 src/LevelSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 2392e61..dbdf164 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -603,7 +603,7 @@ namespace slsm
         for (unsigned int i=0;i<mesh.nNodes;i++)
         {
             // Loop over all interface segments.
-            for (unsigned int j=0;j<points.size()-1;j++)
+            for (unsigned int j=0;j+1<points.size();j++)
             {
                 // Compute the minimum distance to the line segment j --> j+1.
                 double dist = pointToLineDistance(points[j], points[j+1], mesh.nodes[i].coord);
@@ -1306,7 +1306,7 @@ namespace slsm
         int windingNumber = 0;
 
         // Loop through all vertices.
-        for (unsigned int i=0;i<vertices.size()-1;i++)
+        for (unsigned int i=0;i+1<vertices.size();i++)
         {
             // Point lies above the vertex.
             if (vertices[i].y <= point.y)
-- 
2.43.0


From 9a097b790c643c856454fa5772d81c8e47a82247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 07/29] fix: check the mesh size before allocating the Swiss
 cheese holes

---
 src/LevelSet.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index dbdf164..4707a0d 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -497,12 +497,10 @@ namespace slsm
 #endif
 
         // Number of holes.
-        unsigned int n1 = (nx * ny);                // outer grid
-        unsigned int n2 = ((nx - 1) * (ny - 1));    // inner grid
-        unsigned int nHoles = n1 + n2;
+        unsigned int n1, n2;
 
-        // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        // Vector of holes.
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
@@ -510,6 +508,11 @@ namespace slsm
         // Check that mesh is large enough.
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // Initialise the number of holes.
+        n1 = (nx * ny);                 // outer grid
+        n2 = ((nx - 1) * (ny - 1));     // inner grid
+        holes.resize(n1 + n2);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From b962c82260e286750ed8e295baf45cc7a34cd185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 08/29] fix: keep grid-sized work arrays off the stack

---
 src/Boundary.cpp | 4 ++--
 src/LevelSet.cpp | 4 ++--
 src/Optimise.cpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..0571bce 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -540,10 +540,10 @@ namespace slsm
     void Boundary::computeNormalVectors(const LevelSet& levelSet)
     {
         // Whether the normal vector at a boundary point has been set.
-        bool isSet[nPoints];
+        std::vector<bool> isSet(nPoints);
 
         // Weighting factor for each point.
-        double weight[nPoints];
+        std::vector<double> weight(nPoints);
 
         // Initialise arrays.
         for (unsigned int i=0;i<nPoints;i++)
diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 4707a0d..2c9631e 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -707,10 +707,10 @@ namespace slsm
         // using inverse squared distance interpolation.
 
         // Whether the velocity at a node has been set.
-        bool isSet[mesh.nNodes];
+        std::vector<bool> isSet(mesh.nNodes);
 
         // Weighting factor for each node.
-        double weight[mesh.nNodes];
+        std::vector<double> weight(mesh.nNodes);
 
         // Initialise arrays.
         for (unsigned int i=0;i<mesh.nNodes;i++)
diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..7fbbc00 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -191,7 +191,7 @@ namespace slsm
         objectiveWrapper.callback = this;
 
         // Create wrappers for constraints.
-        NLoptWrapper constraintWrappers[nConstraints];
+        std::vector<NLoptWrapper> constraintWrappers(nConstraints);
         for (unsigned int i=0;i<nConstraints;i++)
         {
             constraintWrappers[i].index = i + 1;
-- 
2.43.0


From 774d292c1d1464f12e870e28349b567da9d5085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 09/29] fix: don't build a boundary segment from undetermined
 end points

---
 src/Boundary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 0571bce..fbe06f9 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -459,6 +459,9 @@ namespace slsm
                         }
                     }
 
+                    // The contour doesn't cross the active part of the element.
+                    if (nCut < 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From f97136bb8c9ab1c0d1031b4930c6cb3bcee07906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 10/29] fix: an element can hold a boundary segment on each of
 its four edges

---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..5e5ea45 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,7 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(4, 0)
     {
     }
 
-- 
2.43.0


From cb33e5c012c9255fde23906dd056fdf0c7b2aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 11/29] fix: record every segment when more than two meet at a
 boundary point

---
 src/Boundary.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index fbe06f9..c0f83a5 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -891,10 +891,24 @@ namespace slsm
             points[segments[i].start].length += 0.5 * segments[i].length;
             points[segments[i].end].length += 0.5 * segments[i].length;
 
+            // Make room when more than two segments meet at the start point.
+            if (points[segments[i].start].nSegments == points[segments[i].start].segments.size())
+            {
+                points[segments[i].start].segments.push_back(0);
+                points[segments[i].start].neighbours.push_back(0);
+            }
+
             // Update point to segment lookup for start point.
             points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
             points[segments[i].start].nSegments++;
 
+            // Make room when more than two segments meet at the end point.
+            if (points[segments[i].end].nSegments == points[segments[i].end].segments.size())
+            {
+                points[segments[i].end].segments.push_back(0);
+                points[segments[i].end].neighbours.push_back(0);
+            }
+
             // Update point to segment lookup for end point.
             points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
             points[segments[i].end].nSegments++;
-- 
2.43.0


From 5c61a483e9fc83c58f661eff18f457af46c217ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 12/29] fix: resolve a zero-mean element with four cut edges
 consistently

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index c0f83a5..f7a013a 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -357,7 +357,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From 65300dc45c32bd991fd1a8e9ce1d2956ebbfe709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 13/29] fix: store gradients by active constraint, not by
 original index

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 7fbbc00..e6ce5c1 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From 9af1b6b9c89f2c7966ef6fc35b625abe19622445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 14/29] fix: return multipliers to their original positions
 without reading past the index map

---
 src/Optimise.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index e6ce5c1..13b9a3b 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -288,8 +288,15 @@ namespace slsm
             {
                 // Copy the lambda values back into position.
                 // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
-                    lambdas[indexMap[i]] = lambdas[i];
+                // Multipliers of inactive constraints are zero.
+                for (unsigned int i=nConstraints;i>0;i--)
+                {
+                    if (indexMap[i] != i)
+                    {
+                        lambdas[indexMap[i]] = lambdas[i];
+                        lambdas[i] = 0;
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 01feb16ca2d0233d599043b4dab4c4931f63b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 15/29] fix: reject equality flags that don't match the
 constraints

---
 src/Optimise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 13b9a3b..7b8ad0f 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -64,6 +64,7 @@ namespace slsm
         errno = EINVAL;
         slsm_check(!((nConstraints > 0) && constraintDistances.empty()), "Empty constraint distance vector.");
         slsm_check(nConstraints == constraintDistances.size(), "Incorrect number of constraints.");
+        slsm_check(isEquality.empty() || (isEquality.size() == nConstraints), "Incorrect number of equality flags.");
 
         // Resize data structures.
         negativeLambdaLimits.resize(nConstraints + 1);
@@ -111,6 +112,7 @@ namespace slsm
         errno = EINVAL;
         slsm_check(!((nConstraints > 0) && constraintDistances.empty()), "Empty constraint distance vector.");
         slsm_check(nConstraints == constraintDistances.size(), "Incorrect number of constraints.");
+        slsm_check(isEquality.empty() || (isEquality.size() == nConstraints), "Incorrect number of equality flags.");
 
         // Resize data structures.
         negativeLambdaLimits.resize(nConstraints + 1);
-- 
2.43.0


From b0df138aeb895735dc0d8f9b46185abd48ca518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 16/29] fix: include <limits> where numeric_limits is used

---
 src/Optimise.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 7b8ad0f..d524e64 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <numeric>
 
 #include "Boundary.h"
-- 
2.43.0


From 5170a68b7cc60308843f192b62a7ffaf811a4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 17/29] fix: make the sensitivity and optimiser headers
 self-contained

---
 src/Optimise.h    | 2 ++
 src/Sensitivity.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/Optimise.h b/src/Optimise.h
index 692ae39..26494f1 100644
--- a/src/Optimise.h
+++ b/src/Optimise.h
@@ -24,6 +24,8 @@
 
 #include <nlopt.hpp>
 
+#include "Common.h"
+
 namespace slsm
 {
     // FORWARD DECLARATIONS
diff --git a/src/Sensitivity.h b/src/Sensitivity.h
index 4e140da..49f99ac 100644
--- a/src/Sensitivity.h
+++ b/src/Sensitivity.h
@@ -28,6 +28,8 @@ namespace slsm
 {
     // FORWARD DECLARATIONS
 
+    class Boundary;
+    class LevelSet;
     struct BoundaryPoint;
 
     //! Calculate the value of a function for a small displacement of a boundary point.
-- 
2.43.0


From 92ffb4a006a977b50a2d356cd2c22908efa1ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 18/29] fix: the test counter in MinUnit.h must not be defined
 by every includer

---
 src/MinUnit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinUnit.h b/src/MinUnit.h
index 9ccc783..a68eefc 100644
--- a/src/MinUnit.h
+++ b/src/MinUnit.h
@@ -32,6 +32,6 @@
         exit(result != 0);\
 }
 
-int tests_run;
+static int tests_run;
 
 #endif /* _MINUNIT_H */
-- 
2.43.0


From 2eb58304ab43cd37769f7bef5a54c1b76308be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 19/29] fix: give every data member a determinate value on
 construction

---
 src/Boundary.cpp           | 6 +++++-
 src/FastMarchingMethod.cpp | 5 ++++-
 src/LevelSet.h             | 6 +++---
 src/Mesh.cpp               | 6 +++++-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index f7a013a..dc14c37 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -45,12 +45,16 @@ namespace slsm
     BoundarySegment::BoundarySegment() :
         start(0),
         end(0),
+        element(0),
         length(0),
         weight(0)
     {
     }
 
-    Boundary::Boundary()
+    Boundary::Boundary() :
+        nPoints(0),
+        nSegments(0),
+        length(0)
     {
     }
 
diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index ef4c575..02e8677 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -34,7 +34,10 @@ namespace slsm
     FastMarchingMethod::FastMarchingMethod(const Mesh& mesh_, bool isTest_) :
         mesh(mesh_),
         isTest(isTest_),
-        outOfBounds(mesh.nNodes)
+        isVelocity(false),
+        outOfBounds(mesh.nNodes),
+        signedDistance(nullptr),
+        velocity(nullptr)
     {
         heap = nullptr;
 
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 3bd73d8..5de38a7 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -283,11 +283,11 @@ namespace slsm
         std::vector<double> target;             //!< Signed distance target (for shape matching).
         std::vector<unsigned int> narrowBand;   //!< Indices of nodes in the narrow band.
         std::vector<unsigned int> mines;        //!< Indices of nodes at the edge of the narrow band.
-        unsigned int nNarrowBand;               //!< The number of nodes in narrow band.
-        unsigned int nMines;                    //!< The number of mine nodes.
+        unsigned int nNarrowBand = 0;           //!< The number of nodes in narrow band.
+        unsigned int nMines = 0;                //!< The number of mine nodes.
         const double moveLimit;                 //!< The boundary movement limit (CFL condition).
 
-        double area;                            //!< The total mesh area fraction enclosed by the boundary.
+        double area = 0;                        //!< The total mesh area fraction enclosed by the boundary.
         Mesh mesh;                              //!< The fixed-grid mesh.
 
     private:
diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 5e5ea45..0e71f8a 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,9 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(4, 0)
+        boundarySegments(4, 0),
+        nBoundarySegments(0),
+        status(ElementStatus::NONE)
     {
     }
 
@@ -38,6 +40,8 @@ namespace slsm
         elements(4, 0),
         boundaryPoints(4, 0),
         nElements(0),
+        nBoundaryPoints(0),
+        status(NodeStatus::NONE),
         isActive(false),
         isDomain(false),
         isMasked(false),
-- 
2.43.0


From b32157678b710e95b438fec965916c65c305357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 20/29] fix: define the optimiser's return code before and
 after a failed attempt

---
 src/Optimise.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index d524e64..005c9f8 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -44,6 +44,7 @@ namespace slsm
                        bool isMax_,
                        const std::vector<bool>& isEquality_,
 					   nlopt::algorithm algorithm_) :
+                       nPoints(0),
                        boundaryPoints(boundaryPoints_),
                        constraintDistances(constraintDistances_),
                        lambdas(lambdas_),
@@ -51,7 +52,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(algorithm_)
+                       algorithm(algorithm_),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -92,6 +94,7 @@ namespace slsm
                        double maxDisplacement_,
                        bool isMax_,
                        const std::vector<bool>& isEquality_) :
+                       nPoints(0),
                        boundaryPoints(boundaryPoints_),
                        constraintDistances(constraintDistances_),
                        lambdas(lambdas_),
@@ -99,7 +102,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(nlopt::LD_SLSQP)
+                       algorithm(nlopt::LD_SLSQP),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -231,7 +235,7 @@ namespace slsm
         }
 
         // The optimum value of the objective function.
-        double optObjective;
+        double optObjective = 0;
 
         // Whether a single optimisation has been attempted.
         bool isAttempted = false;
@@ -250,6 +254,9 @@ namespace slsm
             // Catch roundoff errors.
             catch (nlopt::roundoff_limited)
             {
+                // Try again.
+                returnCode = nlopt::ROUNDOFF_LIMITED;
+
                 // Reduce the constraint change targets.
                 for (unsigned int i=0;i<nConstraints;i++)
                     constraintDistancesScaled[i] *= 0.7;
-- 
2.43.0


From c91fd6c9d4d007d7833e4861f8f5020766944cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 21/29] fix: reseeding discards the cached normal number

---
 src/MersenneTwister.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..e392f80 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,7 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From 3c2cfe0a7faa542234bb2a3cbbfcc30f2b7c6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 22/29] fix: numbered VTK files honour the velocity and
 gradient options

---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From bd43df88e6b1601a183de6327334b42059aea9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 23/29] fix: loading a text level set never stores outside the
 field or accepts malformed data

---
 src/InputOutput.cpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..d4900d1 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -218,26 +218,22 @@ namespace slsm
         inputFile.seekg(0, std::ios::beg);
 
         // Read the nodal signed distance fom file.
-
-        // File contains additional nodal coordinate information.
-        if (isXY)
+        for (unsigned int node=0;node<levelSet.mesh.nNodes;node++)
         {
             double tmp;
-            unsigned int node = 0;
 
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            // File contains additional nodal coordinate information.
+            if (isXY) inputFile >> tmp >> tmp;
+
+            inputFile >> levelSet.signedDistance[node] >> tmp >> tmp;
         }
 
-        // File only contains signed distance data.
-        else
-        {
-            double tmp;
-            unsigned int node = 0;
+        errno = EINVAL;
+        slsm_check(!inputFile.fail(), "Malformed data in file %s", fileName.c_str());
 
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
-        }
+        // Make sure that there's no more data.
+        inputFile >> std::ws;
+        slsm_check(inputFile.eof(), "Too much data in file %s", fileName.c_str());
 
         return;
 
-- 
2.43.0


From aaa570597cb7757f9ddbeaebd814590c8bd1a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 24/29] fix: reject binary level set files of the wrong size

---
 src/InputOutput.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index d4900d1..3765604 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -270,6 +270,11 @@ namespace slsm
         // Read the nodal signed distance fom file.
         inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
+        // Check that the file contains exactly one value per node.
+        errno = EINVAL;
+        slsm_check(!inputFile.fail(), "Too little data in file %s", fileName.c_str());
+        slsm_check(inputFile.peek() == std::ifstream::traits_type::eof(), "Too much data in file %s", fileName.c_str());
+
         return;
 
     error:
-- 
2.43.0


From 48b27821a4f5f90f33f789bca5aea47ec002ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 25/29] fix: pushing after a pop must not write past the heap's
 storage

---
 src/Heap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..f349938 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -48,6 +48,14 @@ namespace slsm
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // Handles aren't reused, so make room if entries have been popped.
+        if (listLength == address.size())
+        {
+            address.push_back(0);
+            distance.push_back(0);
+            backPointer.push_back(0);
+        }
+
         // Add entry to the heap.
         heap[heapLength]        = listLength;
         address[listLength]     = address_;
-- 
2.43.0


From 6f997389f988e5e43b6d97db185411d69b348a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 26/29] fix: don't keep displacements of fixed points from an
 earlier solve

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 005c9f8..7f974e9 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -157,7 +157,7 @@ namespace slsm
         nPoints = boundaryPoints.size();
 
         // Resize boundary point dependent data structures.
-        displacements.resize(nPoints);
+        displacements.assign(nPoints, 0);
 
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
-- 
2.43.0


From 999868e7a71ef14fd10bf2fd6736444e705ec81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 27/29] fix: solving again must start from the full set of
 constraints

---
 src/Optimise.cpp | 17 +++++++++++++++++
 src/Optimise.h   |  6 ++++++
 2 files changed, 23 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 7f974e9..a9cbc6a 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -80,6 +80,10 @@ namespace slsm
         // Set default as inequality constraints.
         if (isEquality.size() == 0) isEquality.resize(nConstraints, false);
 
+        // Store the full set of constraints.
+        constraintDistancesInitial = constraintDistances;
+        isEqualityInitial = isEquality;
+
         return;
 
     error:
@@ -130,6 +134,10 @@ namespace slsm
         // Set default as inequality constraints.
         if (isEquality.size() == 0) isEquality.resize(nConstraints, false);
 
+        // Store the full set of constraints.
+        constraintDistancesInitial = constraintDistances;
+        isEqualityInitial = isEquality;
+
         return;
 
     error:
@@ -159,6 +167,15 @@ namespace slsm
         // Resize boundary point dependent data structures.
         displacements.assign(nPoints, 0);
 
+        // Reinstate any constraints that were removed by an earlier call.
+        nConstraints = nConstraintsInitial;
+        constraintDistances = constraintDistancesInitial;
+        constraintDistancesScaled = constraintDistancesInitial;
+        isEquality = isEqualityInitial;
+        negativeLambdaLimits.resize(nConstraints + 1);
+        positiveLambdaLimits.resize(nConstraints + 1);
+        scaleFactors.resize(nConstraints + 1);
+
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
         std::iota(indexMap.begin(), indexMap.end(), 0);
diff --git a/src/Optimise.h b/src/Optimise.h
index 26494f1..6e18308 100644
--- a/src/Optimise.h
+++ b/src/Optimise.h
@@ -189,6 +189,9 @@ namespace slsm
         /// A vector of distances from the constraint manifold.
         std::vector<double> constraintDistances;
 
+        /// The initial distances from the constraint manifold.
+        std::vector<double> constraintDistancesInitial;
+
         /// A reference to a vector of optimum lambda values (to be found by the solver).
         std::vector<double>& lambdas;
 
@@ -204,6 +207,9 @@ namespace slsm
         /// Whether the constraints are equality constraints.
         std::vector<bool> isEquality;
 
+        /// Whether the initial constraints are equality constraints.
+        std::vector<bool> isEqualityInitial;
+
         /// The NLopt algorithm.
         nlopt::algorithm algorithm;
 
-- 
2.43.0


From 44c6b3e25ff2f471094d456dd85e32bdfe6fa727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:08 +0000
Subject: [PATCH 28/29] fix: name keyword arguments of the Python interface
 after their meaning

---
 python/bindings/bind_InputOutput.cpp     | 8 ++++----
 python/bindings/bind_MersenneTwister.cpp | 4 ++--
 python/bindings/bind_Optimise.cpp        | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/bindings/bind_InputOutput.cpp b/python/bindings/bind_InputOutput.cpp
index 29b72dd..c9d0b30 100644
--- a/python/bindings/bind_InputOutput.cpp
+++ b/python/bindings/bind_InputOutput.cpp
@@ -61,7 +61,7 @@ void bind_InputOutput(py::module &m)
         .def("saveLevelSetTXT", (void (InputOutput::*)(const std::string&,
             const LevelSet&, bool) const) &InputOutput::saveLevelSetTXT,
             "Write the level set to a plain text file.",
-            py::arg("filename"), py::arg("levelSet"), py::arg("isXY") = false)
+            py::arg("fileName"), py::arg("levelSet"), py::arg("isXY") = false)
 
         .def("saveLevelSetBIN", (void (InputOutput::*)(const std::string&,
             const LevelSet&) const) &InputOutput::saveLevelSetBIN,
@@ -71,18 +71,18 @@ void bind_InputOutput(py::module &m)
         .def("loadLevelSetTXT", (void (InputOutput::*)(const unsigned int&,
             LevelSet&, const std::string&, bool) const) &InputOutput::loadLevelSetTXT,
             "Load the level set from a plain text file.",
-            py::arg("datapoint"), py::arg("levelSet"), py::arg("outputDirectory") = "",
+            py::arg("datapoint"), py::arg("levelSet"), py::arg("inputDirectory") = "",
             py::arg("isXY") = false)
 
         .def("loadLevelSetTXT", (void (InputOutput::*)(const std::string&,
             LevelSet&, bool) const) &InputOutput::loadLevelSetTXT,
             "Load the level set from a plain text file.",
-            py::arg("filename"), py::arg("levelSet"), py::arg("isXY") = false)
+            py::arg("fileName"), py::arg("levelSet"), py::arg("isXY") = false)
 
         .def("loadLevelSetBIN", (void (InputOutput::*)(const unsigned int&,
             LevelSet&, const std::string&) const) &InputOutput::loadLevelSetBIN,
             "Load the level from a binary file.",
-            py::arg("datapoint"), py::arg("levelSet"), py::arg("outputDirectory") = "")
+            py::arg("datapoint"), py::arg("levelSet"), py::arg("inputDirectory") = "")
 
         .def("loadLevelSetBIN", (void (InputOutput::*)(const std::string&,
             LevelSet&) const) &InputOutput::loadLevelSetBIN,
diff --git a/python/bindings/bind_MersenneTwister.cpp b/python/bindings/bind_MersenneTwister.cpp
index 4b221bd..e97e19b 100644
--- a/python/bindings/bind_MersenneTwister.cpp
+++ b/python/bindings/bind_MersenneTwister.cpp
@@ -49,8 +49,8 @@ void bind_MersenneTwister(py::module &m)
             "Generate a normal distributed random number with zero mean and unit variance.")
 
         .def("normal", (double (MersenneTwister::*)(double, double)) &MersenneTwister::normal,
-            "Generate a normal distributed random number with specified mean and variance).",
-            py::arg("mean"), py::arg("variance"))
+            "Generate a normal distributed random number with specified mean and standard deviation.",
+            py::arg("mean"), py::arg("stdDev"))
 
         .def("getSeed", &MersenneTwister::getSeed,
             "Get the value of the generator's seed.")
diff --git a/python/bindings/bind_Optimise.cpp b/python/bindings/bind_Optimise.cpp
index 733128a..38c9912 100644
--- a/python/bindings/bind_Optimise.cpp
+++ b/python/bindings/bind_Optimise.cpp
@@ -34,7 +34,7 @@ void bind_Optimise(py::module &m)
 
         .def(py::init<std::vector<BoundaryPoint>&, std::vector<double>&, std::vector<double>&,
             MutableFloat&, double, bool, const std::vector<bool>&>(), "Constructor.",
-            py::arg("boundaryPoints"), py::arg("constraindDistances"), py::arg("lambdas"),
+            py::arg("boundaryPoints"), py::arg("constraintDistances"), py::arg("lambdas"),
             py::arg("timeStep"), py::arg("maxDisplacement") = 0.5, py::arg("isMax") = false,
             py::arg("isEquality") = std::vector<bool>())
 
-- 
2.43.0


From 1d98b0d6017b1d2659b50e4a20aa2a724b6e70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:10 +0000
Subject: [PATCH 29/29] fix: test the last entry of the heap in Heap::test

---
 src/Heap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index f349938..404106a 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -243,7 +243,7 @@ namespace slsm
 
             for (unsigned int j=0;j<2;j++)
             {
-                if (children[j] < (heapLength - 1))
+                if (children[j] < heapLength)
                 {
                     double parentDistance = distance[heap[i]];
                     double childDistance = distance[heap[children[j]]];
-- 
2.43.0

