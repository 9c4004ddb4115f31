From d5a756783de06934a7b2b454014dbfef3b5e4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 01/43] fix: Transform.rotate_about drops the cached inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From 91a0d1c652ed4fe2b1bfd76dbc6ff145ff933411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 02/43] fix: copies of elements do not share their transform
 with the original

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..52a9ccc 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -580,7 +580,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -746,7 +746,7 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From cc075ebddde49ba51e5a61e37db5f18a28d49bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 03/43] fix: Group.copy, restore and transform do not share
 children or transforms, and keep closed

---
 x7/geom/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 52a9ccc..3197a61 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -892,21 +892,23 @@ class Group(Elem):
         raise ValueError("Can't bbox_int_update a Group yet")
 
     def copy(self):
-        elems = dict(self.elems)
+        elems = {name: elem.copy() for name, elem in self.elems.items()}
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
         self.hidden = other.hidden
-        self.xform = other.xform
-        self.elems = dict(other.elems)
+        self.closed = other.closed
+        self.xform = other.xform.copy()
+        self.elems = {name: elem.copy() for name, elem in other.elems.items()}
         self.points = dict(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        elems = {name: elem.copy() for name, elem in self.elems.items()}
+        return Group(self.name, self.penbrush, self.hidden, xform, elems, dict(self.points), self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From a7b666e53b63d1ab186c9a3eee69a48622028b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 04/43] fix: ElemWithHoles.restore takes the holes and a copy
 of the transform from the snapshot

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3197a61..2beaaa0 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1114,9 +1114,9 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 7275a2f2831f06ec151d996a86d94a003625f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 05/43] fix: ElemWithHoles.bbox_int honours the outside's own
 transform and allows no holes

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 2beaaa0..1b8d0cf 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1093,9 +1093,9 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
-        if debug:
+        if debug and self.inside:
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-- 
2.43.0


From 113b34833717ac53ac0a86bce57c4597f6141aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 06/43] fix: Group.replace keeps the element's place and
 refuses clashes without losing it

---
 x7/geom/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1b8d0cf..830e4fc 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -992,11 +992,15 @@ class Group(Elem):
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
+                if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
-                self.add(replacement.name, replacement)
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+                self.elems = {
+                    (replacement.name if n == name else n): (replacement if n == name else old)
+                    for n, old in self.elems.items()
+                }
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
-- 
2.43.0


From 097557da7de80daaacac55c8ebe7be765de4f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 07/43] fix: SimpleAnimation.animate records each frame once

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From 78eb9a98023dff87633585df57d737e840567294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 08/43] fix: periodic time functions apply the offset as a
 phase, as documented

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..0dc2354 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = tau * frequency * t + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = tau * frequency * t + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From 3e04569bce4f5954095d16805aa8b7efda709637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 09/43] fix: transform_pts works for transformers that give (x,
 y) pairs

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..008e1cb 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From 4018efa3f88d1ef07f7bb1e5221106a4d6f764c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 10/43] fix: ElemCurve.add_one never splits the absent closing
 segment of an open curve

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 830e4fc..5aa7268 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -493,6 +493,8 @@ class ElemCurve(Elem):
         orig_len = len(self.control_points)
         cps = self.control_points
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        if not self.closed and len(cps) > 1:
+            dists.pop()     # An open curve has no segment from last back to first
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
-- 
2.43.0


From 88d9695fc35cd68ad5d2302b03979f355e6c857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 11/43] fix: bez_split keeps sharp end points sharp

---
 x7/geom/bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..09e68ad 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -644,9 +644,13 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     bcd = mid(bc, cd)
     abcd = mid(abc, bcd)
 
-    left = ControlPoint(a, cp1.dl, ab-a)
+    def kind(cp: ControlPoint):
+        # Only one handle is shortened, so very-smooth end points become just smooth
+        return 'smooth' if cp.kind == 'very-smooth' else cp.kind
+
+    left = ControlPoint(a, cp1.dl, ab-a, kind(cp1))
     middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
-    right = ControlPoint(d, cd-d, cp2.dr)
+    right = ControlPoint(d, cd-d, cp2.dr, kind(cp2))
 
     return left, middle, right
 
-- 
2.43.0


From 8cd11cb711c83c73ff9b6e43e8138d5b6f8b8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 12/43] fix: dump keeps hidden, named points, and shapes with
 holes evaluable

---
 x7/geom/model.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 5aa7268..ad83d08 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -943,7 +943,12 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
             for name, elem in sorted(self.elems.items()):
                 elem.dump(context)
@@ -1143,7 +1148,13 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, outside=list)
+        # The outside is a single element, not a list
+        context.lines[-1] = context.lines[-1][:-1]
+        with context:
+            self.outside.dump(context)
+            context.add_comma()
+        context.append('inside=[')
         with context:
             for elem in self.inside:
                 elem.dump(context)
-- 
2.43.0


From 1103ebdfcd036759db0a24443f2af22973f30d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 13/43] fix: VectorRelative.p gives the point of its current
 value

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..9777364 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -119,7 +119,7 @@ class Vector(typing.SupportsRound):
 
     @property
     def p(self):
-        return Point(self._x, self._y)
+        return Point(*self.xy())
 
     def set(self, v: 'Vector') -> None:
         self._x, self._y = v.xy()
-- 
2.43.0


From f5f9cfec5c60c798883ab90410f9889e15b64df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 14/43] fix: ElemWithHoles.iter_elems names have single dots

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ad83d08..36bd1cc 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1166,7 +1166,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From a07a84e221c7971d329387f662350c63dcb310de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 15/43] fix: Group.iter_elems restores the matrix when
 iteration is abandoned

---
 x7/geom/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 36bd1cc..75b6227 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -959,13 +959,11 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push():
+            if self.xform:
+                matrix.compose(self.xform)
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From 639aac4d0dfb323f69783484e83147891895f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:54 +0000
Subject: [PATCH 16/43] fix: ElemWithHoles.paths draws each path of a hole once

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 75b6227..86cc4bf 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1076,8 +1076,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From ba58b7d19622317f836bb757be6228cc25bc7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 17/43] fix: GroupBuilder.hide hides the group being built

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 86cc4bf..bb108dd 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1323,6 +1323,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From e2d1d88e3b3596f7df597667d4de7d7060c1acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 18/43] fix: add_one on a closed curve of one point keeps its
 shape

Both ends of the only segment are the same control point, so restoring it
from the right part discarded the handle shortened for the left part.
---
 x7/geom/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index bb108dd..d9e05f0 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -500,8 +500,12 @@ class ElemCurve(Elem):
         right = (left + 1) % len(cps)
         # print('add_one: left=%d right=%d len=%d' % (left, right, len(cps)))
         l, m, r = bez_split(cps[left], cps[right])
-        cps[left].restore(l)
-        cps[right].restore(r)
+        if left == right:       # Closed curve with just one point: both ends are the same
+            l.dl = r.dl
+            cps[left].restore(l)
+        else:
+            cps[left].restore(l)
+            cps[right].restore(r)
         cps.insert(right, m)
         assert orig_len + 1 == len(self.control_points)
 
-- 
2.43.0


From 26468e0c6f30bd34c40c90907d765cf56aa18aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 19/43] fix: a path without pen is not stroked

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d9e05f0..1db3956 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -263,7 +263,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From 46d68101a6545132b8d1df05be18f1c0ea9fac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:17 +0000
Subject: [PATCH 20/43] fix: shadow_draw restores the shadow colour it found

---
 x7/geom/drawing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 4724383..8f6a994 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -98,6 +98,7 @@ class DrawingContext(object):
     def shadow_draw(self, model, color=(140, 140, 170, 255)):
         # TODO - just draw into an L image?
         draw = self.draw
+        shadow_color = self.shadow_color
         self.alloc_shadow()
         shadow_draw = ImageDraw.Draw(self.shadow)
         try:
@@ -106,7 +107,7 @@ class DrawingContext(object):
             model.draw(self)
         finally:
             self.draw = draw
-            self.shadow_color = None
+            self.shadow_color = shadow_color
 
         self.shadow = make_shadow(self.shadow)
 
-- 
2.43.0


From 91f29f3d8c968e749e6f4871bcdb1034c9107e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:02 +0000
Subject: [PATCH 21/43] fix: control points are drawn as rectangles with
 ordered corners (Pillow refuses inverted ones)

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1db3956..0d9d52f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -300,9 +300,9 @@ class Elem(ABC):
                     draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                     draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                     draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
-                    draw.draw.rectangle((cp.c + rad).xy() + (cp.c - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')
                 elif isinstance(cp, BasePoint):
-                    draw.draw.rectangle((cp + rad).xy() + (cp - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp - rad).xy() + (cp + rad).xy(), outline='red', fill='grey')
                 else:
                     raise TypeError('unknown control_path element: %r' % cp)
 
-- 
2.43.0


From 75644c479e34d706a5502e4ae5a929c85ce8c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 22/43] fix: transforming a rounded rectangle keeps a scaling
 that differs between the axes in its transform

---
 x7/geom/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 0d9d52f..a288959 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -763,8 +763,14 @@ class ElemRectangleRounded(ElemP1P2):
 
     def transform(self, matrix: Transform):
         """Return a copy of this shape transformed by matrix.  .transform(identity) is like .copy()"""
-        rotate, (p1, p2, p1r) = self.transform_pts(matrix, [self.p1, self.p2, self.p1+Vector(self.radius, 0)])
-        radius = (p1r-p1).length()
+        radius_x, radius_y = Vector(self.radius, 0), Vector(0, self.radius)
+        rotate, (p1, p2, p1x, p1y) = self.transform_pts(matrix, [self.p1, self.p2, self.p1+radius_x, self.p1+radius_y])
+        radius = (p1x-p1).length()
+        if not math.isclose(radius, (p1y-p1).length()):
+            # One radius cannot describe corners scaled differently along each axis
+            with matrix.push().compose(self.xform) as xform:
+                return ElemRectangleRounded(self.name, self.penbrush, xform=xform.copy(),
+                                            p1=self.p1.copy(), p2=self.p2.copy(), radius=self.radius)
         return ElemRectangleRounded(self.name, self.penbrush, xform=rotate, p1=p1, p2=p2, radius=radius)
 
     def make_control_points(self) -> List[ControlPoint]:
-- 
2.43.0


From 4950b69b765d9a33f9f842e6c77933a10705e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 23/43] fix: MorphMultiStep keeps the start of open curves, as
 rotating those changes their shape

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 0dc2354..b1e6a5d 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -357,7 +357,7 @@ class MorphMultiStep(Animation):
                 c.add_one()
             # TODO-make sure points are CCW
             # Rotate the so that lower left is 0
-            rotate = force
+            rotate = force and c.closed     # an open curve has its ends where they are
             if rotate:
                 bbox = c.bbox()
                 dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
-- 
2.43.0


From 0de9fca25fa1bf143befb1b5648d72aa64c050f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 24/43] fix: MorphMultiStep works on copies of its targets,
 like it does for the source

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index b1e6a5d..a2e8a9a 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -348,7 +348,7 @@ class MorphMultiStep(Animation):
         super().__init__(Point(0, 0))
         self.model = model
         self.orig = source
-        all_steps, all_curves = zip(*([(0.0, source.copy())] + targets))
+        all_steps, all_curves = zip(*([(0.0, source.copy())] + [(step, c.copy()) for step, c in targets]))
         self.all_curves: List[ElemCurve] = all_curves
         self.all_steps: List[float] = all_steps
         max_len = max(len(c.control_points) for c in self.all_curves)
-- 
2.43.0


From 9d26c478c1605bc4adddbbcc9356c756f443e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 25/43] fix: Morph keeps its curves matched when another morph
 adds points to one of them

---
 x7/geom/anim.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index a2e8a9a..45fd9ab 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -296,10 +296,7 @@ class Morph(Animation):
         if force:
             if len(source.control_points) != len(target.control_points):
                 print('Force: source=%d target=%d' % (len(source.control_points), len(target.control_points)))
-            while len(source.control_points) < len(target.control_points):
-                source.add_one()
-            while len(target.control_points) < len(source.control_points):
-                target.add_one()
+            self.match(source, target)
         self.orig = source
         self.morph = source.fixed()
         self.target = target
@@ -309,6 +306,14 @@ class Morph(Animation):
         if not count:
             raise MorphError('Cannot find source in model')
 
+    @staticmethod
+    def match(*curves: ElemCurve):
+        """Add points until all curves have the same number of them"""
+        count = max(len(curve.control_points) for curve in curves)
+        for curve in curves:
+            while len(curve.control_points) < count:
+                curve.add_one()
+
     def validate(self):
         if len(self.orig.control_points) != len(self.target.control_points):
             raise MorphError('%s.#cp=%d %s.#cp=%d' % (
@@ -318,6 +323,8 @@ class Morph(Animation):
     def update(self, t):
         t = self.t_func(t)
 
+        # The curves may be shared with other morphs, which might have added points in the meantime
+        self.match(self.orig, self.target, self.morph)
         morph_cp = self.morph.control_points
         orig_cp = self.orig.control_points
         target_cp = self.target.control_points
-- 
2.43.0


From c2a1926423a6c7f6da77564ff24a7e45d9e2f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 26/43] fix: MorphMultiStep keeps its curves matched when a
 morph of its morph adds points to it

---
 x7/geom/anim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 45fd9ab..5f5e4ca 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -380,6 +380,8 @@ class MorphMultiStep(Animation):
             raise MorphError('Cannot find source in model')
 
     def update(self, t):
+        # Another morph that starts from this one might have added points
+        Morph.match(self.morph, *self.all_curves)
         morph_cps = self.morph.control_points
 
         t = self.t_func(t)
-- 
2.43.0


From 7478e21560633c630aecd72e076468a055aad253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 27/43] fix: Colors.filled and replacing pens and brushes
 accept colour 0

---
 x7/geom/colors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x7/geom/colors.py b/x7/geom/colors.py
index 7b18c48..e647ae8 100644
--- a/x7/geom/colors.py
+++ b/x7/geom/colors.py
@@ -24,7 +24,7 @@ class Colors(object):
 
     @property
     def filled(self):
-        return bool(self.fill)
+        return self.fill is not None
 
     def __repr__(self):
         return 'Colors(%s, %s)' % (self.outline, self.fill)
@@ -66,7 +66,7 @@ class Pen(object):
         return 'Pen(%r, %r)' % (self.brush.color, self.width)
 
     def replace(self, brush=None, width=None):
-        return Pen(brush or self.brush, width if width is not None else self.width)
+        return Pen(brush if brush is not None else self.brush, width if width is not None else self.width)
 
 
 class PenBrush(object):
@@ -122,11 +122,11 @@ class PenBrush(object):
         return 'PenBrush(%r, %r)' % (self.pen, self.brush)
 
     def replace(self, pen=None, width=None, brush=None):
-        if pen and width is not None:
+        if pen is not None and width is not None:
             raise ValueError("specify pen or width not both")
         if width is not None and self.pen:
             pen = Pen(self.pen.brush, width)
-        return PenBrush(pen or self.pen, brush or self.brush)
+        return PenBrush(pen if pen is not None else self.pen, brush if brush is not None else self.brush)
 
 
 class ColorsByShape(object):
-- 
2.43.0


From 7074a4eb9e759e95e57fac39ef63dbfe059e6872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 28/43] fix: SimpleAnimation draws frames the right way up
 about the image, not the model origin

---
 x7/geom/anim_simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..bee96fd 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -67,8 +67,8 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf = Transform().scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf.scale(1, -1).translate(0, self.image_size.y)     # y goes up in the model, down in the image
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From c287a2603c12ef01ca87771a24f957672383b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 29/43] fix: VectorField lookups follow vectors assigned after
 the first lookup

---
 x7/geom/vec_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 5fece85..3ee8998 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -48,6 +48,7 @@ class VectorField(Transformer):
         self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
         self.interp_x = None
         self.interp_y = None
+        self.interp_v = (None, None)    # What interp_x and interp_y were made from
 
     def __eq__(self, other):
         return (
@@ -64,11 +65,12 @@ class VectorField(Transformer):
 
     def interp_coords(self, pts: NumpyArray):
         """Lookup/interpolate at all pts.  Return (vx-list, vy-list)"""
-        if not self.interp_x:
+        if self.interp_x is None or self.interp_v[0] is not self.vx or self.interp_v[1] is not self.vy:
             coords = (self.mesh.coord_x, self.mesh.coord_y)
             rgi = scipy.interpolate.RegularGridInterpolator
             self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
             self.interp_y = rgi(coords, self.vy, method='linear', bounds_error=False, fill_value=None)
+            self.interp_v = (self.vx, self.vy)
         return self.interp_x(pts), self.interp_y(pts)
 
     def lookup(self, x, y):
-- 
2.43.0


From 4627d7155e2091896b9c7d992e2e60b7b736ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 30/43] fix: VectorField.normalized leaves a field of zeros
 alone

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 3ee8998..091f9a0 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -103,7 +103,7 @@ class VectorField(Transformer):
 
     def normalized(self) -> 'VectorField':
         mags = np.sqrt(np.add(np.multiply(self.vx, self.vx), np.multiply(self.vy, self.vy)))
-        max_mag = np.amax(mags)
+        max_mag = np.amax(mags) or 1    # Nothing to do for a field of zeros
         vx = np.multiply(self.vx, 1 / max_mag)
         vy = np.multiply(self.vy, 1 / max_mag)
         return VectorField(self.mesh, vx, vy)
-- 
2.43.0


From 6cc12d712a98ed4eb35e7fe61fedf9ca195f4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 31/43] fix: VectorField.quiver draws each vector at its own
 node

---
 x7/geom/vec_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 091f9a0..e9c25ad 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -84,7 +84,7 @@ class VectorField(Transformer):
         return [(x+vx, y+vy) for (x, y), vx, vy in zip(np_pts, vx_vals, vy_vals)]
 
     def quiver(self, ax):                               # pragma: no cover
-        ax.quiver(self.mesh.x_grid, self.mesh.y_grid, self.vx, self.vy, units='xy', scale=0.1, color='red')
+        ax.quiver(self.mesh.x_grid, self.mesh.y_grid, self.vx.T, self.vy.T, units='xy', scale=0.1, color='red')
 
     def plot(self, title=None, ax=None):                # pragma: no cover
         if ax is None:
-- 
2.43.0


From e2cf50ffd11886a27069ffb32f83066b6e5f7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 32/43] fix: bez_self_intersect leaves the control points it is
 given alone

---
 x7/geom/bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 09e68ad..241180d 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -350,7 +350,8 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
 
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
-    for cpa, cpb in iter_rotate(orig_cps):
+    cps_copied = [cp.copy() for cp in orig_cps]     # Handles are adjusted below
+    for cpa, cpb in iter_rotate(cps_copied):
         left, middle, right = bez_split(cpa, cpb)
         intersection = bez_intersect_new(left, middle, middle, right)
         if intersection:
-- 
2.43.0


From 7b0edbc1d0e5be60b20446e92ca5a2d72462c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 33/43] fix: a fixed point keeps its name when it is fixed
 again

---
 x7/geom/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 9777364..eed9f0d 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -318,7 +318,10 @@ class BasePoint(ABC, SupportsRound):
         return NotImplemented       # Vector - Point is not allowed
 
     def fixed(self) -> 'Point':
-        return Point(*self.xy(), 'fixed_' + self.name if self.name else None)
+        name = self.name
+        if name and not name.startswith('fixed_'):
+            name = 'fixed_' + name
+        return Point(*self.xy(), name or None)
 
     def xy(self):
         return 0, 0
-- 
2.43.0


From 726be343bcd9c3b37ec6ffff48113db0b7ad16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 34/43] fix: the copy of a point keeps its name, as copies of
 relative points do

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index eed9f0d..8313582 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -464,7 +464,7 @@ class Point(BasePoint):
 
     def copy(self) -> 'Point':
         """Return a copy of this point"""
-        return Point(self._x, self._y)
+        return Point(self._x, self._y, self.name)
 
     def restore(self, other: BasePoint):
         self._x, self._y = other.xy()
-- 
2.43.0


From ee5ac87e5ac326097ad2d3e6b4156c01bfa85630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 35/43] fix: the palette of an animation could not be made with
 current Pillow (its 256 entries were all taken)

---
 x7/geom/anim.py      | 4 +++-
 x7/geom/imagehelp.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 5f5e4ca..21d8f35 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -537,7 +537,9 @@ class Builder(object):
             print('make_palette: found %d colors' % len(colors))
         all_colors = list(reversed(sorted([(v, k) for k, v in colors.items()])))
 
-        im.palette.colors = {}  # Start over on list of colors
+        # Start over on list of colors
+        im.palette.palette = bytearray()
+        im.palette.colors = {}
         for count, color in all_colors[:256]:
             im.palette.getcolor(color)
         im.load()  # Force palette to be loaded into actual image
diff --git a/x7/geom/imagehelp.py b/x7/geom/imagehelp.py
index c4836d4..36404cb 100644
--- a/x7/geom/imagehelp.py
+++ b/x7/geom/imagehelp.py
@@ -152,7 +152,7 @@ def palette_image(empty_image=False):
     """Return a 16-place palette image"""
     im = Image.new('P', (1024, 64))
     pal: ImagePalette.ImagePalette = im.palette
-    pal.palette = b'\x00' * 768
+    pal.palette = bytearray()
     pal.getcolor((0, 0, 0))
     pal.getcolor((255, 255, 255))
     if not empty_image:
-- 
2.43.0


From 22f9baf3e4634ea8c47ff4273cbda3cb9855a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 36/43] fix: Builder.max_bbox failed if nothing is visible in
 one of the images

---
 x7/geom/anim.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 21d8f35..2b61a1b 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -474,9 +474,11 @@ class Builder(object):
 
     def max_bbox(self, images=None):
         images = images or self.images
-        bb = images[0].getbbox()
-        for im in images[1:]:
-            bb = bbox_max(bb, im.getbbox())
+        bb = None
+        for im in images:
+            im_bb = im.getbbox()
+            if im_bb:       # None for an image without anything visible
+                bb = bbox_max(bb, im_bb) if bb else im_bb
         print('BBox max: %s %s over %d images' % (images[0].size, bb, len(images)))
         return bb
 
@@ -555,7 +557,7 @@ class Builder(object):
             images = self.images
         if autocrop:
             xs, ys = images[0].size
-            bb = self.max_bbox(images)
+            bb = self.max_bbox(images) or (0, 0, xs, ys)
             xl, yl, xh, yh = bb
             radius = 16
             bb = (max(0, xl - radius), max(0, yl - radius), min(xs, xh + radius), min(ys, yh + radius))
-- 
2.43.0


From 415791310a86da371d21d476369d9783641b869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 37/43] fix: a polygon without fill and outline was outlined
 with the default white ink

---
 x7/geom/drawing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 8f6a994..13e12b8 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -142,7 +142,8 @@ class DrawingContext(object):
             :param outline: color name or None for no outline
         """
         pts = self.matrix.transform_pts(points, True)
-        self.draw.polygon(pts, fill=fill, outline=outline)
+        if fill is not None or outline is not None:
+            self.draw.polygon(pts, fill=fill, outline=outline)
 
     def grid(self, spacing=10, center=(0, 0)):
         unused(spacing, center)
-- 
2.43.0


From bf93f265f9706fb82462f30f5918a035b67efb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 38/43] fix: a corner cut off at OFFSET_PT_LIMIT goes to its
 own side

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a288959..0495737 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -433,7 +433,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From c5c22ef647257677b0ab2ddd8caac55dbfe24e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 39/43] fix: VectorField.smoothed takes in as many nodes after
 a node as before it

---
 x7/geom/vec_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index e9c25ad..b43d365 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -117,8 +117,8 @@ class VectorField(Transformer):
                 u, v = 0, 0
                 count = 0
                 r = 2
-                for x in range(max(0, i - r), min(shape[0], i + r)):
-                    for y in range(max(0, j - r), min(shape[1], j + r)):
+                for x in range(max(0, i - r), min(shape[0], i + r + 1)):
+                    for y in range(max(0, j - r), min(shape[1], j + r + 1)):
                         u += self.vx[x, y]
                         v += self.vy[x, y]
                         count += 1
-- 
2.43.0


From b82d499a9ab74cd8da98d0b75d6011ab705364ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 40/43] fix: the almost-equality of points and vectors honours
 places and delta

---
 x7/geom/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..6bcf3c4 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -117,8 +117,8 @@ class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
         super().__init__(test_case, self.KLASS)
 
     def almost_equal(self, first, second, places=None, delta=None) -> Union[bool, str]:
-        almost_x = self.test_case.almostEqualFloat(first.x, second.x)
-        almost_y = self.test_case.almostEqualFloat(first.y, second.y)
+        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
+        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
         msg = []
         if almost_x is not True:
             msg.append('x: ' + almost_x)
-- 
2.43.0


From f7398cbb0dc6ecf59cd74c0bf214c3ead18cae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 41/43] fix: the almost-equality of control points honours
 delta (it was passed as the message)

---
 x7/geom/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 6bcf3c4..9d33cbc 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -99,7 +99,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         vals_f = [getattr(first, attr) for attr in self.ATTRS]
         vals_s = [getattr(second, attr) for attr in self.ATTRS]
         # TODO-not quite right.  It should understand what was different by attr name
-        return self.test_case.almostEqual(vals_f, vals_s, places, delta)
+        return self.test_case.almostEqual(vals_f, vals_s, places=places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-- 
2.43.0


From 72ebb4e91758f1f1b15ae2ca98451c3f6df2d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 42/43] fix: explaining that two control points are close no
 longer fails on their kind

---
 x7/geom/testing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 9d33cbc..a21b5c0 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -102,11 +102,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         return self.test_case.almostEqual(vals_f, vals_s, places=places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
-        vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-        vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
-        if all(n.close(o) for n, o in zip(vals_n, vals_o)):
-            return True, None
-        return False, None
+        return new_data.close(old_data), None
 
 
 class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
-- 
2.43.0


From 8ed7e86a154147e882e3777a594bfa126dd13736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 43/43] fix: Builder.save_animation saves the animation on
 other platforms too (Linux: nothing was written)

---
 x7/geom/anim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 2b61a1b..cbe0759 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -584,6 +584,8 @@ class Builder(object):
             writeGif(output, images, duration=ms_per_frame / 1000.0)
             # [im.resize((100,100)).show() for im in images]
             platform.quicklook(output)
+        else:
+            images[0].save(output, save_all=True, append_images=images[1:], disposal=2, duration=ms_per_frame, loop=0)
 
     def run(self, steps=10, output=None):
         self.build_all(steps=steps)
-- 
2.43.0

