From 49c55f803d0a7108bc53822b23e05f9dbf60ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 01/38] fix: mirrors without a DMD normal can be constructed

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From 86624c9801a47f8580fc98f75e7bdd341c708a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 02/38] fix: hand the hit optic its own shooting_from_outside,
 not that of the last optic listed

---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b6e509b..319e457 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            intersection_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, intersection_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From 59ba9d23446a6a7e72fc9347e8b0a2a003199487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 03/38] fix: a sphere touched tangentially behind the ray is
 not hit

---
 Shapes/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..50c8e13 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -345,8 +345,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, intersection_count
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From 9e09d2d8861fc7146023746966effc5ff90859ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 04/38] fix: a cylinder touched tangentially behind the ray is
 not hit

---
 Shapes/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 50c8e13..4083fa3 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -230,7 +230,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
-- 
2.43.0


From dcf44060f2f4acd9e7689b43c6bd9c1ceb34461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 05/38] fix: a ray parallel to a cylinder's axis misses it
 instead of hitting it at NaN

---
 Shapes/shapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4083fa3..570de1a 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -170,6 +170,8 @@ class InfiniteCylinder(Shape):
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
         discriminant = B * B - 4 * A * C
+        if A < 1e-24:  # ray parallel to the axis (to within rounding) never crosses the surface
+            discriminant = -1.0
         if discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
-- 
2.43.0


From 314126a3691207a77092c62697148a8cd8eda913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 06/38] fix: clip re-intersections above rounding error so a
 ray does not hit the surface it is leaving

---
 Shapes/shapes.py | 2 +-
 optics3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 570de1a..71d4b81 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -9,7 +9,7 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
     rotation_matrix4, scaling_matrix4, translation_matrix4
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 
 
 def check_R_and_D(R, D):
diff --git a/optics3d.py b/optics3d.py
index 319e457..d5b25cb 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -19,7 +19,7 @@ from Shapes.shapes import Rectangle, Circle, Sphere
 
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-9
 INDEX_OF_THE_WORLD = 1.0000000
 
 
-- 
2.43.0


From 0de4390b5769e1e130d090914d82bc748b7d92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 07/38] fix: rotation_matrix2 is a proper rotation for opposite
 vectors and leaves its arguments alone

---
 general_optics.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..ad77585 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -64,15 +64,20 @@ def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = unit_vector(a)
+    b = unit_vector(b)
+    if np.dot(a, b) < -0.5:
+        # (nearly) opposite vectors: first make a half turn about an axis perpendicular to a, which takes a to -a
+        p = np.eye(3)[np.argmin(np.abs(a))]
+        p = unit_vector(p - np.dot(p, a) * a)
+        return np.dot(rotation_matrix2(-a, b), 2 * np.outer(p, p) - np.eye(3))
 
     v = np.cross(a, b)
     sin_angle = np.linalg.norm(v)
     cos_angle = np.dot(a, b)
 
     if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+        M = np.identity(3)
     else:
         eye = np.eye(3)
         skew = np.array([[    0,  -v[2],   v[1]],
-- 
2.43.0


From 92e5462fcff086380128cc7fde28ec87113854f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:41 +0000
Subject: [PATCH 08/38] fix: rotation_matrix is a proper rotation for opposite
 vectors and leaves its arguments alone

---
 general_optics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index ad77585..94be846 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -132,15 +132,18 @@ def rotation_matrix(v1, v2):
     """
     Calculates the rotation matrix that changes v1 into v2.
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
+    v1 = unit_vector(v1)
+    v2 = unit_vector(v2)
 
     cos_angle = np.dot(v1, v2)
     d = np.cross(v1, v2)
     sin_angle = np.linalg.norm(d)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+    if cos_angle < -0.5:
+        # (nearly) opposite vectors: the axis d is lost in rounding, rotation_matrix2 (for column vectors) handles that
+        M = rotation_matrix2(v1, v2).T
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         d /= sin_angle
 
-- 
2.43.0


From 48a78344a15ce52f4d1ae40cd52eae5acfff8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 09/38] fix: a ray meets a compound where it first crosses the
 boundary of the whole solid

---
 general_optics.py | 291 +++++-----------------------------------------
 1 file changed, 31 insertions(+), 260 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 94be846..cba05ce 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -313,19 +313,38 @@ def printCsgDifference(res1, res2):
     return "( " + str(res1)  + " \ " + str(res2) + " )"
 
 
+def tree_crossings(tree, ray):
+    """ Where the ray crosses the surfaces of all the primitives of the tree: a list of (distance, point, normal) """
+    left, right = tree.getLeftChild(), tree.getRightChild()
+    if left is not None and right is not None:
+        return tree_crossings(left, ray) + tree_crossings(right, ray)
+    res = tree.getRootVal().test_intersect(ray)
+    return [(distance_between(ray.position, point), point, normal)
+            for point, normal in ((res[1], res[3]), (res[2], res[4])) if point is not None]
+
+
 def test_tree_intersect(tree, ray):
-    opers = {'union': operCsgUnion, 'difference': operCsgDifference, 'intersect': operCsgIntersect}
-    resA = None
-    resB = None
-    if tree:
-        resA = test_tree_intersect(tree.getLeftChild(), ray)
-        resB = test_tree_intersect(tree.getRightChild(), ray)
-        if resA is not None and resB is not None:
-            # if we are at an interior node, do the specified boolean on the child nodes
-            return opers[tree.getRootVal()](resA, resB, ray)
-        else:
-            # if we are at a leaf node, test intersect with that primitive:
-            return tree.getRootVal().test_intersect(ray)
+    # the surface of the whole is crossed where being inside the boolean combination of the primitives changes,
+    # which can only be at a crossing of one of them; in between, halfway is safely away from every surface
+    crossings = sorted(tree_crossings(tree, ray), key=lambda crossing: crossing[0])
+    intersection_point = None
+    normal = None
+    intersection_count = 0
+    was_inside = None
+    for ix, (distance, crossing_point, crossing_normal) in enumerate(crossings):
+        next_distance = crossings[ix + 1][0] if ix + 1 < len(crossings) else distance + 1.0
+        if was_inside is None:
+            was_inside = test_tree_point(tree, ray.position + distance / 2 * ray.direction)
+        if next_distance - distance < 1e-9:
+            continue  # surfaces that coincide here are crossed together
+        is_inside = test_tree_point(tree, ray.position + (distance + next_distance) / 2 * ray.direction)
+        if is_inside != was_inside:
+            intersection_count += 1
+            if intersection_count == 1:
+                intersection_point = crossing_point
+                normal = crossing_normal
+        was_inside = is_inside
+    return intersection_count > 0, intersection_point, None, normal, None, intersection_count
 
 
 def test_tree_point(tree, point):
@@ -382,251 +401,3 @@ def operCsgIndexDifference(resA, resB, point):
         return False
     else:
         return False
-
-
-def helper_findIntersects(res, ray, mode='nearest'):
-    if (res[1] is not None) and (res[2] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        distance2 = distance_between(ray.position, res[2])
-        if mode == 'nearest':
-            if distance1 < distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        elif mode == 'farthest':
-            if distance1 > distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        number_of_intersections = 2
-    elif (res[1] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        point = res[1]
-        normal = res[3]
-        distance = distance1
-        number_of_intersections = 1
-    elif (res[2] is not None):
-        distance2 = distance_between(ray.position, res[1])
-        point = res[2]
-        normal = res[4]
-        distance = distance2
-        number_of_intersections = 1
-    else:
-        point = None
-        normal = None
-        distance = None
-        number_of_intersections = 0
-    return point, normal, distance, number_of_intersections
-
-
-def operCsgUnion(resA, resB, ray):
-    # res's are results of the primitive shapes test_intersect methods
-    # have two inputs of syntax: intersected, int-pt1, int-pt2, norm1, norm2, intersection_count    (None if none)
-    # e.g.  "False, None, None, None, None, 0"    if there's no intersection with that primitive
-    # e.g. "True, int-pt1, int-pt2, norm1, norm2, 2"   if the ray intersects twice, goes in and out
-    # UNION: min(tA_min, tB_min)
-    # always add up the intersect counts
-    intersected = False
-    normalB = None
-    normalA = None
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        # since resA is a hit, get tA_min
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-
-        # since resB is a hit, get tB_min
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-
-        # get int pt for UNION: min(tA_min, tB_min)
-        if (pointA is not None) and (pointB is not None):
-            if distanceA < distanceB:
-                intersection_point = pointA
-                normal = normalA
-            else:
-                intersection_point = pointB
-                normal = normalB
-        elif (pointA is not None):
-            intersection_point = pointA
-            normal = normalA
-        else:
-            intersection_point = None
-            normal = None
-
-        # we did it! return
-        return intersected, intersection_point, None, normal, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B:
-    elif resB[0]:
-        intersected = True
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        return intersected, pointB, None, normalB, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgIntersect(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A and B"
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # print(f"distanceA_near = {distanceA_near}")
-        # print(f"distanceB_near = {distanceB_near}")
-        # print(f"distanceA_far = {distanceA_far}")
-        # print(f"distanceB_far = {distanceB_far}")
-
-        # if both numbers are even, we are hitting both things from the outside
-        if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
-            ######
-            # from the magic internet pseudocode:
-            if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-            elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                # I don't think it's supposed to reach here, but whatever, lets just put something
-                print("alert: something weird happening in operCsgIntersect, case 1")
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            ######
-        # if A is even and B is odd, we are outside A and we are inside B
-        elif np.isclose(np.mod(number_intersectionsA, 2), 0):
-            # both the B distances (_near, _far) returned from our helper should be the same
-            distanceB = distanceB_near
-            pointB = pointB_near
-            # if the B intersection is nearer than both the A intersections, we exit B before we hit A, so no intersect
-            if ((distanceB < distanceA_near) and (distanceB < distanceA_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside B and we haven't exited, the next intersection is the near A, right?
-            else:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        # if B is even and A is odd, we are outside B and we are inside A
-        elif np.isclose(np.mod(number_intersectionsB, 2), 0):
-            # both the A distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            pointA = pointA_near
-            # if the A intersection is nearer than both the B intersections, we exit A before we hit B, so no intersect
-            if ((distanceA < distanceB_near) and (distanceA < distanceB_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside A and we haven't exited, the next intersection is the near B, right?
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-        # if A and B are both odd, we are inside both A and B
-        else:
-            # in this case, each one gives odd intersection counts, so it'll say we're inside, but we're not...
-            # this is probably a sign of big trouble, but for now let me just put a plus one in here ## TODO
-            intersection_count_total += 1
-            # so we just need to take the nearest intersection
-            # both the A and B distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            distanceB = distanceB_near
-            if distanceA < distanceB:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-
-
-    # else, if the ray is only hitting primitive A, for intersect this is a miss:
-    elif resA[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for intersect this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgDifference(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A not in B"
-    #
-    # the order is important for this one:  we are doing A - B
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
-            return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        elif distanceB_far < distanceA_far:
-            return intersected, pointB_far, None, normalB_far, None, intersection_count_total
-        else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
-            intersected = False
-            return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-- 
2.43.0


From 1c9628997e3c6227b5ebf55566acd3d5cf487379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 10/38] fix: gratings diffract by the grating equation for
 light arriving from either side of the normal

---
 optics3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index d5b25cb..821d4b3 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -810,9 +810,9 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
-- 
2.43.0


From 1537ec8b80271e43f49a0ceab0603ae9e83b99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 11/38] fix: a diffraction order that does not exist ends the
 ray instead of giving it a NaN direction

---
 optics3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 821d4b3..e7a42e4 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -806,7 +806,11 @@ class Ray:
             # d = groove spacing (mm)
             # sign convention: negative orders are towards the side of zero order
             #                  positive orders are backtowards the incident light
-            beta = np.arcsin(optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha))
+            sin_beta = optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha)
+            if np.abs(sin_beta) > 1:  # this order does not exist at this wavelength and angle: no light goes there
+                self.blocked = True
+                return
+            beta = np.arcsin(sin_beta)
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-- 
2.43.0


From 1f38ddd6e1bba9e1052debe681921f47fcddb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 12/38] fix: the angle between equal or opposite vectors is not
 NaN

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index cba05ce..ba89e77 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -29,7 +29,7 @@ def angle_between(v1, v2, v_normal=None):
     if v_normal is not None: # signed
         angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
     else: # unsigned
-        angle = np.arccos(np.dot(v1_u, v2_u))
+        angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
 
 
-- 
2.43.0


From 29137cb3f0b93f48cab42aca693485653c6a43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 13/38] fix: the signed angle does not depend on the length of
 the normal

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index ba89e77..425bcd2 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -27,7 +27,7 @@ def angle_between(v1, v2, v_normal=None):
     v1_u = unit_vector(v1)
     v2_u = unit_vector(v2)
     if v_normal is not None: # signed
-        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
+        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), unit_vector(v_normal)), np.dot(v1_u, v2_u))
     else: # unsigned
         angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
-- 
2.43.0


From 6573e05666f38450978c464e0606496a8eb01432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 14/38] fix: light arriving at the back of a grating is
 diffracted back instead of passing through

---
 optics3d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index e7a42e4..a61c473 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -787,6 +787,8 @@ class Ray:
         elif reflect_type == "grating":
             normal = unit_vector(normal)
             incident = unit_vector(self.direction)
+            if np.dot(incident, normal) > 0:  # the normal has to face the side the light comes from
+                normal = -normal
             # get only angles in the grating active plane
             dispersion_plane_normal = optic.tangent
             n = unit_vector(project_onto_plane(normal, dispersion_plane_normal))
-- 
2.43.0


From 04c0df386e938c6b7b81882b3d39a13913ed61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 15/38] fix: script_czerny1 uses the order that its second
 mirror and detector are placed for

---
 script_czerny1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script_czerny1.py b/script_czerny1.py
index ce258bb..dc21cea 100644
--- a/script_czerny1.py
+++ b/script_czerny1.py
@@ -66,7 +66,7 @@ for xnorm in ray_sweep_xnorm:
         for z in ray_sweep_z:
             for x in ray_sweep_x:
                 for wave in ray_sweep_wavelength:
-                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=1, print_trajectory=False))
+                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=-1, print_trajectory=False))
 
 
 for ray in Ray_list:
-- 
2.43.0


From 59818405a1339284cc93a1e175bc9d9b8814cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 16/38] fix: savitzky_golay runs with current numpy (np.int is
 gone)

---
 general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index f08e1ba..2dbd226 100755
--- a/general.py
+++ b/general.py
@@ -180,8 +180,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     from math import factorial
     
     try:
-        window_size = np.abs(np.int(window_size))
-        order = np.abs(np.int(order))
+        window_size = np.abs(int(window_size))
+        order = np.abs(int(order))
     except ValueError:
         raise ValueError("window_size and order have to be of type int")
     if window_size % 2 != 1 or window_size < 1:
-- 
2.43.0


From 1c3021b64ed4710c11a5ee5093b4606fe927d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 17/38] fix: FD_int_num runs with current numpy (linspace needs
 an integer count)

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 2dbd226..082ad5b 100755
--- a/general.py
+++ b/general.py
@@ -76,7 +76,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
             N = np.nan
             err = np.nan
     else:
-        Nvec = np.linspace(1,Nmax,Nmax)
+        Nvec = range(1, Nmax + 1)
         for idx, N in enumerate(Nvec):
             a = -4.5 # limits for t
             b = 5.0
-- 
2.43.0


From e298f073bb3f5a188bab4de2ff7bd26a1eded931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 18/38] fix: delete_files_with_extension does not stop at a
 directory whose name has the extension

---
 general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 082ad5b..68244ce 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,8 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and (os.path.islink(os.path.join(folder, file))
+                                                    or not os.path.isdir(os.path.join(folder, file))):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From 9e9a303b4de193cb5dd26925cac45640453df7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 19/38] fix: nparray2spacedstring leaves numpy's global print
 options alone

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 68244ce..f75b9b3 100755
--- a/general.py
+++ b/general.py
@@ -369,11 +369,11 @@ def prism10widetextarray(nparray,numleftpadspaces,numrightpadspaces,numleftinden
 def nparray2spacedstring(nparray,leftpad,formatstr,rightpad,max_line_width):
     import re
     import numpy as np
-    np.set_printoptions(threshold=np.inf)
     spaced_str = np.array2string(
         nparray,
         precision = 5,
         max_line_width = max_line_width,
+        threshold = np.inf,
         separator=',',
         formatter={'float': lambda x: leftpad + format(x, formatstr) + rightpad}
     )
-- 
2.43.0


From 205ff5f4616d0ce0652d7d43ca1747af10cdd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 20/38] fix: base optics can be printed

---
 optics3d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index a61c473..7a0aa2b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -60,8 +60,7 @@ class Optic:
         self.shape = shape
 
     def __repr__(self):
-        return("Optic ({}, {}, {}),  ({}, {}, {})".format(self.optic_type,
-                                                       to_precision(self.position[0], 5),
+        return("Optic ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                        to_precision(self.position[1], 5),
                                                        to_precision(self.position[2], 5),
                                                        to_precision(self.normal[0], 5),
-- 
2.43.0


From 1629e4cfa3ea50695516f7fefeb0f13d0c808d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 21/38] fix: FD_int_num converts to the roman form with
 Gamma(j+1) for every order, not only j = 1/2

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index f75b9b3..58e5c66 100755
--- a/general.py
+++ b/general.py
@@ -96,7 +96,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
     if fType == 'script':
         pass
     elif fType == 'roman':
-        y = y * np.sqrt(np.pi)/2
+        y = y * spec.gamma( j + 1 )
     else:
         print("error: unrecognized fType (input 'script' or 'roman'")
     return (y, N, err)
-- 
2.43.0


From 3bef6966185fca89433c2973ebd073ae51f38c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 22/38] fix: mirrors and lenses without a normal can be printed

---
 optics3d.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index 7a0aa2b..d025700 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -167,12 +167,17 @@ class Mirror(Optic):
             self.surfaces.append(Circle(position, normal, D=D))
             self.surfaces.append(Sphere(center=self.p_rc, R=self.rc))
         elif shape == "circular_convex_spherical":
+            self.normal = unit_vector(normal) if normal is not None else None
             self.surfaces.append(Sphere(center=self.position, D=self.D))
         else:
             raise ValueError("Unknown shape")
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Mirror ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                                to_precision(self.position[1], 5),
+                                                to_precision(self.position[2], 5)))
         return("Mirror ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
@@ -345,6 +350,10 @@ class Lens(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Lens ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                                to_precision(self.position[1], 5),
+                                                to_precision(self.position[2], 5)))
         return("Lens ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-- 
2.43.0


From b3dc13f2726a2db66e53f78aef90c7631e3e1863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 23/38] fix: diverging ideal lenses send light on instead of
 back

---
 optics3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index d025700..40721a7 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -685,7 +685,7 @@ class Ray:
                 # vectors are very nearly parallel
                 # update the ray's direction to go at the focal point
                 focal_point = optic.position + optic.f * the_optic_normal
-                vector_to_image = focal_point - self.position
+                vector_to_image = np.sign(optic.f) * (focal_point - self.position)
                 self.direction = vector_to_image / np.linalg.norm(vector_to_image)
             else:
                 # vectors are neither parallel nor orthogonal
@@ -700,7 +700,7 @@ class Ray:
                 # step 2: get the image point as the inverted object point
                 image_point = -object_point
                 # step 3: update the ray's direction to go towards the image point
-                vector_to_image = image_point - r
+                vector_to_image = np.sign(optic.f) * (image_point - r)
                 self.direction = vector_to_image / np.linalg.norm(vector_to_image)
 
 
@@ -734,7 +734,7 @@ class Ray:
             else:
                 the_optic_normal = optic.normal
             focal_point = optic.position + optic.f * the_optic_normal
-            vector_to_image = focal_point - self.position
+            vector_to_image = np.sign(optic.f) * (focal_point - self.position)
             self.direction = vector_to_image / np.linalg.norm(vector_to_image)
 
         elif refract_type == "snells_law":
-- 
2.43.0


From cbb356877ab160cd142b3a4115ea9fc9375743ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 24/38] fix: a ray that meets a block is absorbed instead of
 raising AttributeError

---
 optics3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index 40721a7..fe24974 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -616,6 +616,10 @@ class Window(Optic):
 
 class Block(Optic):
 
+    def test_intersect(self, ray):  # Block
+        intersected, intersection_pt, normal = self.shape.test_intersect(ray)
+        return intersected, intersection_pt, normal, None
+
     def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):
         ray.blocked = True
 
-- 
2.43.0


From 7ddb91d5bc685d356c392008224660b32abcab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 25/38] fix: a rectangle of zero height or width is not hit by
 rays passing beside it

---
 Shapes/shapes.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 71d4b81..5308b83 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -405,16 +405,10 @@ class Rectangle(Shape):
         # Eric Baineville's answer
         intersect_the_plane, intersection_pt, normal = self.plane.test_intersect(ray)
         if intersect_the_plane:
-            M = intersection_pt
-            A = self.bounds[0, :]
-            B = self.bounds[1, :]
-            C = self.bounds[2, :]
-            AB = B - A
-            BC = C - B
-            AM = M - A
-            BM = M - B
-            if 0 <= np.dot(AB, AM) <= np.dot(AB, AB):
-                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC):
+            # (measured along the unit tangents, so that an edge of zero length admits nothing beside it)
+            CM = intersection_pt - self.center
+            if np.abs(np.dot(CM, self.tangent)) <= self.h / 2:
+                if np.abs(np.dot(CM, self.tangent2)) <= self.w / 2:
                     return True, intersection_pt, normal
         return False, None, None
 
-- 
2.43.0


From 59e81b5eb29a78fcd520551026ef5bc6cbaa87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 26/38] fix: FD_int_num has a value for arguments beyond 20 at
 every order

---
 general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/general.py b/general.py
index 58e5c66..15a332d 100755
--- a/general.py
+++ b/general.py
@@ -75,6 +75,10 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
             y = 8 * eta**(5/2) / 15 / np.sqrt(np.pi)
             N = np.nan
             err = np.nan
+        else:
+            y = eta**(j + 1) / spec.gamma(j + 2)
+            N = np.nan
+            err = np.nan
     else:
         Nvec = range(1, Nmax + 1)
         for idx, N in enumerate(Nvec):
-- 
2.43.0


From d60fef32fba8b6046fd828d225e7144ac57849e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 27/38] fix: discs and rectangles can be rendered with current
 matplotlib

---
 general_optics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/general_optics.py b/general_optics.py
index 425bcd2..8b0f4be 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -177,6 +177,7 @@ def pathpatch_2d_to_3d(pathpatch, z = 0, normal = 'z'):
     pathpatch.__class__ = art3d.PathPatch3D  # Change the class
     pathpatch._code3d = path.codes  # Copy the codes
     pathpatch._facecolor3d = pathpatch.get_facecolor  # Get the face color
+    pathpatch._axlim_clip = False  # (current matplotlib looks for this when rendering)
 
     verts = path.vertices  # Get the vertices in 2D
 
-- 
2.43.0


From 7647ac19216da9e7a31aed1484b67abf4079822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 28/38] fix: rectangular mirrors and gratings are drawn along
 their own tangent

---
 optics3d.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index fe24974..e656324 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -12,7 +12,6 @@ from general_optics import unit_vector, angle_between, distance_between, pathpat
     rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
 from matplotlib.patches import Circle as mplCircle
-from matplotlib.patches import Rectangle as mplRectangle
 from Shapes.shapes import Rectangle, Circle, Sphere
 
 # note: we are representing vectors as 1d numpy arrays, i.e., R = np.array([x, y, z])
@@ -292,14 +291,9 @@ class Mirror(Optic):
                 # return the Artist created
                 return None
             elif self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w/2, -self.h/2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                  edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                # the corners of the surface itself, so that h is drawn along the tangent and w across it
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", edgecolor="black", alpha=0.5))
                 return None
             elif self.shape == "circular_concave_spherical":  # for now just draw as circle
                 x = self.position[0]
@@ -532,15 +526,9 @@ class Grating(Optic):
         """Um, somehow draw the optic"""
         if view == "3d" or view == "xyz":
             if self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w / 2, -self.h / 2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                 edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
-                # return the Artist created
+                # the corners of the surface itself, so that h is drawn along the tangent and w across it
+                for surface in self.surfaces:
+                    ax.add_collection3d(Poly3DCollection([surface.bounds], facecolor="silver", edgecolor="black", alpha=0.5))
                 return None
 
 
-- 
2.43.0


From 6fec7939fde67dcc8cab863bc655ff03df7ad871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 29/38] fix: to_precision rounds correctly at every magnitude
 and precision

---
 general.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/general.py b/general.py
index 15a332d..763493b 100755
--- a/general.py
+++ b/general.py
@@ -271,7 +271,7 @@ def to_precision(x,p):
     Based on the webkit javascript implementation taken from here:
     https://code.google.com/p/webkit-mirror/source/browse/JavaScriptCore/kjs/number_object.cpp
     """
-    import math
+    import decimal
     import numpy as np
     if np.isnan(x):
         return "NaN"
@@ -282,19 +282,10 @@ def to_precision(x,p):
     if x < 0:
         out.append("-")
         x = -x
-    e = int(math.log10(x))
-    tens = math.pow(10, e - p + 1)
-    n = math.floor(x/tens)
-    if n < math.pow(10, p - 1):
-        e = e - 1
-        tens = math.pow(10, e - p+1)
-        n = math.floor(x / tens)
-    if abs((n + 1.) * tens - x) <= abs(n * tens - x):
-        n = n + 1
-    if n >= math.pow(10, p):
-        n = n / 10.
-        e = e + 1
-    m = "%.*g" % (p, n)
+    # the p significant digits in exact arithmetic: powers of ten are not floats, and may be out of their range
+    rounded = decimal.Context(prec=p, rounding=decimal.ROUND_HALF_UP).create_decimal(x)
+    e = rounded.adjusted()
+    m = "".join(str(digit) for digit in rounded.as_tuple().digits).ljust(p, "0")
     if e < -2 or e >= p:
         out.append(m[0])
         if p > 1:
-- 
2.43.0


From 7671df13020d7207834c655fee447eecdae9f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:23 +0000
Subject: [PATCH 30/38] fix: find_nearest on arrays of small or unsigned
 integers

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 763493b..6695321 100755
--- a/general.py
+++ b/general.py
@@ -382,7 +382,7 @@ def nparray2spacedstring(nparray,leftpad,formatstr,rightpad,max_line_width):
 
 def find_nearest(array,value):
     import numpy as np
-    idx = (np.abs(array-value)).argmin()
+    idx = (np.abs(1.0 * array - value)).argmin()  # (in floating point: the difference of small or unsigned integers wraps around)
     return idx, array[idx]
     
     
-- 
2.43.0


From 98b44a9f6b12e968dbe94b0daffbd76a793f2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 31/38] fix: rays do not hit the surface they leave again far
 from the origin or at grazing incidence

---
 Shapes/shapes.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 5308b83..6f657fa 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -12,6 +12,13 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
 INTERSECT_CLIPPING_FLOOR = 1e-9
 
 
+def clipping_floor(ray, center, size, cosine):
+    """How far a ray has to fly before it can hit a surface (again): above the rounding error of that distance, which
+    grows with the coordinates and, for a ray that makes a small angle with the surface, with 1 / cosine of incidence"""
+    coordinates = np.linalg.norm(center) + np.linalg.norm(ray.position) + size
+    return max(INTERSECT_CLIPPING_FLOOR, 32 * np.finfo(float).eps * coordinates / cosine)
+
+
 def check_R_and_D(R, D):
     if R is None:
         if D is None:
@@ -75,7 +82,7 @@ class Plane(Shape):
             # print(f"denominator = {denominator}")
             t = np.dot(difference, self.normal) / denominator
             # print(f"t = {t}")
-            if t > ARB_EPSILON_VALUE:
+            if t > clipping_floor(ray, self.center, 0.0, np.abs(denominator)):
                 intersection_pt = ray.position + t * ray.direction
                 # print(f"intersection_pt = {intersection_pt}")
                 # print("*** end test intersect -- hit***")
@@ -198,6 +205,7 @@ class InfiniteCylinder(Shape):
             # scaling should affect
             t0 = t0_objectSpace / scale_factor
             t1 = t1_objectSpace / scale_factor
+            floor = clipping_floor(ray, self.center, self.R, root / 2)
             pt0 = ray.position + t0 * ray.direction
             pt1 = ray.position + t1 * ray.direction
             normal0 = self.normal(pt0)
@@ -216,16 +224,16 @@ class InfiniteCylinder(Shape):
             # If one t is positive one t is negative, ray is shooting from inside
             # If both t are negative, ray is shooting away from the sphere, and intersection is impossible.
             # So we have to return the smaller and positive t as the intersecting distance for the ray
-            if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:
+            if t0 > floor and t1 > floor:
                 intersection_count = 2
                 if t0 < t1:
                     return True, pt0, pt1, normal0, normal1, intersection_count
                 else:
                     return True, pt1, pt0, normal1, normal0, intersection_count
-            elif t1 > INTERSECT_CLIPPING_FLOOR:
+            elif t1 > floor:
                 intersection_count = 1
                 return True, pt1, None, normal1, None, intersection_count
-            elif t0 > INTERSECT_CLIPPING_FLOOR:
+            elif t0 > floor:
                 intersection_count = 1
                 return True, pt0, None, normal0, None, intersection_count
             else:
@@ -321,6 +329,7 @@ class Sphere(Shape):
             pt1 = ray.position + t1 * ray.direction
             norm0 = self.normal(pt0)
             norm1 = self.normal(pt1)
+            floor = clipping_floor(ray, self.center, self.R, root / self.R)
 
             if ray.type == "faerie_fire":
                 pass
@@ -332,16 +341,16 @@ class Sphere(Shape):
             # If one t is positive one t is negative, ray is shooting from inside
             # If both t are negative, ray is shooting away from the sphere, and intersection is impossible.
             # So we have to return the smaller and positive t as the intersecting distance for the ray
-            if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:
+            if t0 > floor and t1 > floor:
                 intersection_count = 2
                 if t0 < t1:
                     return True, pt1, pt0, norm1, norm0, intersection_count
                 else:
                     return True, pt0, pt1, norm0, norm1, intersection_count
-            elif t1 > INTERSECT_CLIPPING_FLOOR:
+            elif t1 > floor:
                 intersection_count = 1
                 return True, pt1, None, norm1, None, intersection_count
-            elif t0 > INTERSECT_CLIPPING_FLOOR:
+            elif t0 > floor:
                 intersection_count = 1
                 return True, pt0, None, norm0, None, intersection_count
             else:
-- 
2.43.0


From 39005479ca559d89e3f945b1a215173aa6690ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 32/38] fix: draw the marker rays of the demonstrations with
 the keyword markersize (MarkerSize is rejected by matplotlib)

---
 script_testBestformLens.py       | 4 ++--
 script_testCompoundDifference.py | 2 +-
 script_testCompoundIntersect.py  | 2 +-
 script_testCylinder.py           | 4 ++--
 script_testSingletLens.py        | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/script_testBestformLens.py b/script_testBestformLens.py
index b47a6e8..253bc6a 100644
--- a/script_testBestformLens.py
+++ b/script_testBestformLens.py
@@ -82,7 +82,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=1)
+        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=1)
 
 
 
@@ -98,7 +98,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 
 ax.set_xlabel('x')
 ax.set_ylabel('y')
diff --git a/script_testCompoundDifference.py b/script_testCompoundDifference.py
index 88b93a5..57dadab 100644
--- a/script_testCompoundDifference.py
+++ b/script_testCompoundDifference.py
@@ -58,7 +58,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=1.0)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=1.0)
 for optic in Optic_list:
     optic.draw(ax, view="3d")
 
diff --git a/script_testCompoundIntersect.py b/script_testCompoundIntersect.py
index 9f61176..772751e 100644
--- a/script_testCompoundIntersect.py
+++ b/script_testCompoundIntersect.py
@@ -56,7 +56,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 for optic in Optic_list:
     optic.draw(ax, view="3d")
 
diff --git a/script_testCylinder.py b/script_testCylinder.py
index 3dbaaba..9dd2e0f 100644
--- a/script_testCylinder.py
+++ b/script_testCylinder.py
@@ -61,7 +61,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 2], "ob", MarkerSize=1)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 2], "ob", markersize=1)
 plt.axis("equal")
 
 
@@ -78,7 +78,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 
 ax.set_xlabel('x')
 ax.set_ylabel('y')
diff --git a/script_testSingletLens.py b/script_testSingletLens.py
index e03b9f1..26cfc4c 100644
--- a/script_testSingletLens.py
+++ b/script_testSingletLens.py
@@ -74,7 +74,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=1)
+        ax.plot(ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=1)
 
 
 
@@ -90,7 +90,7 @@ for ray in Ray_list:
     if ray.type == "normal":
         ax.plot(ray_history[:, 0], ray_history[:, 1], ray_history[:, 2], "-r")
     elif ray.type == "faerie_fire":
-        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", MarkerSize=0.5)
+        ax.plot(ray_history[1:, 0], ray_history[1:, 1], ray_history[1:, 2], "ob", markersize=0.5)
 
 ax.set_xlabel('x')
 ax.set_ylabel('y')
-- 
2.43.0


From 1ef967f2562a79939cf07be70e15763d100dc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 33/38] fix: ball lens demonstration: Lens has no parameter
 thinlens

---
 script_testBallLens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script_testBallLens.py b/script_testBallLens.py
index 3b50e38..dee9cbe 100644
--- a/script_testBallLens.py
+++ b/script_testBallLens.py
@@ -15,7 +15,7 @@ plt.close("all")
 
 lens_center = np.array([0, 100, 0])
 
-lens1 = Lens(lens_center, shape="spherical", D=50, thinlens=False, index=1.5)
+lens1 = Lens(lens_center, shape="spherical", D=50, index=1.5)
 Optic_list = []
 Optic_list.append(lens1)
 
-- 
2.43.0


From 5e47d8bcf3784cda481f9692c2e0f609cea1f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 34/38] fix: nparray2spacedstring: format whole numbers too
 instead of running them together

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 6695321..2497935 100755
--- a/general.py
+++ b/general.py
@@ -370,7 +370,7 @@ def nparray2spacedstring(nparray,leftpad,formatstr,rightpad,max_line_width):
         max_line_width = max_line_width,
         threshold = np.inf,
         separator=',',
-        formatter={'float': lambda x: leftpad + format(x, formatstr) + rightpad}
+        formatter={kind: lambda x: leftpad + format(x, formatstr) + rightpad for kind in ('float', 'int')}
     )
     if(len(leftpad)<2):
         spaced_str = re.sub(r"\[", "", spaced_str)
-- 
2.43.0


From 4f697418222d397132ad77decb9b2b58b6cc09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 35/38] fix: savitzky_golay lost all accuracy (or failed) for
 long windows of high order

---
 general.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index 2497935..9d80ae1 100755
--- a/general.py
+++ b/general.py
@@ -195,8 +195,9 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     order_range = range(order+1)
     half_window = (window_size -1) // 2
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A[deriv] * rate**deriv * factorial(deriv)
+    # (positions in units of half the window: their powers would otherwise drown the small coefficients, or overflow)
+    b = np.mat([[(k / half_window)**i for i in order_range] for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b).A[deriv] * (rate / half_window)**deriv * factorial(deriv)
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs( y[1:half_window+1][::-1] - y[0] )
-- 
2.43.0


From 190e06ec42159684c93642e6287d2b378ef2b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 36/38] fix: find_nearest confused large integers (time stamps
 in nanoseconds)

---
 general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 9d80ae1..63e30d0 100755
--- a/general.py
+++ b/general.py
@@ -383,7 +383,8 @@ def nparray2spacedstring(nparray,leftpad,formatstr,rightpad,max_line_width):
 
 def find_nearest(array,value):
     import numpy as np
-    idx = (np.abs(1.0 * array - value)).argmin()  # (in floating point: the difference of small or unsigned integers wraps around)
+    # (in extended floating point: the difference of small or unsigned integers wraps around, large ones need all their digits)
+    idx = (np.abs(np.longdouble(1) * array - value)).argmin()
     return idx, array[idx]
     
     
-- 
2.43.0


From 58c434210e9a19b4fae59ca363f40ac79047690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 37/38] fix: to_precision printed infinities as zero

---
 general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/general.py b/general.py
index 63e30d0..41de93a 100755
--- a/general.py
+++ b/general.py
@@ -276,6 +276,8 @@ def to_precision(x,p):
     import numpy as np
     if np.isnan(x):
         return "NaN"
+    if np.isinf(x):
+        return "Infinity" if x > 0 else "-Infinity"
     x = float(x)
     if x == 0.:
         return "0." + "0"*(p-1)
-- 
2.43.0


From 34d3289f25746d7d9d745c73e6d24309fdbdd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 38/38] fix: Ray.run counted a distance given as a numpy array
 down in place

---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index e656324..4b1d0cb 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -830,7 +830,7 @@ class Ray:
         Run the ray through an optical system
         """
         interaction_count = 0
-        distance_remaining = max_distance
+        distance_remaining = float(max_distance)
         if self.print_trajectory:
             print("--- run begin ---")
         while(distance_remaining > 0 and interaction_count < max_interactions and not self.blocked):
-- 
2.43.0

