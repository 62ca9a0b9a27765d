From 9cccbcc74ef4b7803d1bd7c81dd384a4939e2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:48 +0000
Subject: [PATCH 01/57] fix: rotated regular polygons lost vertices

The vertex loop ran until the absolute angle reached 360 degrees starting
from the base rotation, so a polygon with a non-zero rotation was missing
base_rotation / angle_step vertices.
---
 src/pygerber/vm/commands/shape.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 1b460fa..2263b55 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -234,10 +234,8 @@ class Shape(Command):
         local_vertex_offset = local_vertex_offset.transform(
             Matrix3x3.new_rotate(base_rotation)
         )
-        current_angle = base_rotation
 
-        while current_angle < FULL_ANGLE_DEGREES:
-            current_angle += angle_step
+        for _ in range(vertices_count):
             new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)
 
             commands.append(
-- 
2.43.0


From f2e8bea2d858e70c711c76e286349b9022605422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:48 +0000
Subject: [PATCH 02/57] fix: step and repeat copies were shifted by the current
 point

The first copy of a step and repeat block must coincide with the block as
drawn; copies were additionally offset by the coordinates of the last
operation inside the block.
---
 src/pygerber/gerber/compiler/compiler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..659e23d 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -240,10 +240,9 @@ class Compiler(StateTrackingVisitor):
 
         for x in range(node.open.x_repeats):
             for y in range(node.open.y_repeats):
-                x_coordinate = self.coordinate_x + (x * x_delta)
-                y_coordinate = self.coordinate_y + (y * y_delta)
                 tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
-                    buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
+                    buffer,
+                    Matrix3x3.new_translate(x=x * x_delta, y=y * y_delta),
                 )
 
                 self._expand_buffer_to_current_buffer(tmp_buffer)
-- 
2.43.0


From df0f5e790948b0661653c56d98224bbe24d41347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 03/57] fix: program stop handling was inverted

M00/M02 did not stop processing by default, and processing stopped at them
when ignore_program_stop was requested.
---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 94467ce..54d1c26 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -948,6 +948,6 @@ class StateTrackingVisitor(AstVisitor):
     def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
         """Handle exception."""
         if isinstance(exception, ProgramStop):
-            return bool(self._ignore_program_stop)
+            return not self._ignore_program_stop
 
         return True
-- 
2.43.0


From ef287718fb63753ec14a61529db0a1dfef57f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 04/57] fix: arcs changed direction when rotated by 90 degrees

Whether a transform reverses orientation is decided by the sign of its
determinant, not by the product of the diagonal entries.
---
 src/pygerber/vm/commands/shape_segments/arc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 616851d..05b70b5 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -103,13 +103,12 @@ class Arc(ShapeSegment):
 
     def transform(self, transform: Matrix3x3) -> Self:
         """Transform points defining this line."""
+        determinant = (
+            transform[0][0] * transform[1][1] - transform[0][1] * transform[1][0]
+        )
         return self.__class__(
             start=self.start.transform(transform),
             end=self.end.transform(transform),
             center=self.center.transform(transform),
-            clockwise=(
-                self.clockwise
-                if transform[0][0] * transform[1][1] > 0
-                else not self.clockwise
-            ),
+            clockwise=(self.clockwise if determinant > 0 else not self.clockwise),
         )
-- 
2.43.0


From a1d048855eac8d87ed50aa76958e50c8a446433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 05/57] fix: mirror apertures before rotating them

The Gerber specification applies aperture mirroring before aperture
rotation; the transform matrix was composed the other way around.
---
 src/pygerber/gerber/compiler/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 659e23d..d96fcf3 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -659,7 +659,8 @@ class Compiler(StateTrackingVisitor):
         rotation_matrix = Matrix3x3.new_rotate(transform.rotation)
         scale_matrix = Matrix3x3.new_scale(transform.scaling, transform.scaling)
 
-        transform_matrix = mirroring_matrix @ rotation_matrix @ scale_matrix
+        # Mirroring is applied first, then rotation and scaling.
+        transform_matrix = scale_matrix @ rotation_matrix @ mirroring_matrix
 
         return self._get_buffer_with_transform(aperture_id, transform_matrix)
 
-- 
2.43.0


From 031181db3ba990b507281d67489db8686c73c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 06/57] fix: apply aperture scaling to draws and arcs

Load scaling (LS) affected flashes only, lines and arcs were drawn with
the unscaled aperture.
---
 src/pygerber/gerber/compiler/compiler.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index d96fcf3..1bbdc4b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -193,21 +193,26 @@ class Compiler(StateTrackingVisitor):
 
     def _get_line_thickness(self, line_direction: Vector) -> float:
         current_aperture = self.state.current_aperture
+        scaling = self.state.transform.scaling
+
         if isinstance(current_aperture, ADC):
-            return current_aperture.diameter
+            return current_aperture.diameter * scaling
 
         if isinstance(current_aperture, (ADR, ADO)):
             angle = line_direction.angle_between(Vector.unit.x)
             sin_angle = sin(radians(-angle))
             cos_angle = cos(radians(-angle))
 
-            return Vector(
-                x=current_aperture.width * cos_angle,
-                y=current_aperture.height * sin_angle,
-            ).length()
+            return (
+                Vector(
+                    x=current_aperture.width * cos_angle,
+                    y=current_aperture.height * sin_angle,
+                ).length()
+                * scaling
+            )
 
         if isinstance(current_aperture, ADP):
-            return current_aperture.outer_diameter
+            return current_aperture.outer_diameter * scaling
 
         raise NotImplementedError(type(current_aperture))
 
-- 
2.43.0


From faf7410abdb390f07cef893ce8ea43d3ddd3c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 07/57] fix: macro polygon primitive was rotated twice

Primitive 5 was rotated around its own center and then again around the
macro origin; only the latter is part of the Gerber specification.
---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 1bbdc4b..0210062 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -915,7 +915,7 @@ class MacroEvalVisitor(AstVisitor):
             (center_x, center_y),
             diameter,
             number_of_vertices,
-            rotation,
+            0.0,
             is_negative=(exposure == 0),
             metadata=self._metadata,
         )
-- 
2.43.0


From 4c296c84f6c7e3b6da93e8d210b37fb9e0b17351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 08/57] fix: moire primitive crashed when the innermost ring
 had no hole

A ring whose inner diameter is not positive is a full disc, and rings with
a non positive outer diameter do not exist. Previously the former failed
an assertion and the latter produced discs of negative diameter.
---
 src/pygerber/gerber/compiler/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 0210062..29d92da 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -970,7 +970,10 @@ class MacroEvalVisitor(AstVisitor):
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
             for _ in range(int(max_ring_count)):
-                if current_outer_diameter <= ring_thickness:
+                if current_outer_diameter <= 0:
+                    break
+
+                if current_inner_diameter <= 0:
                     shapes.append(
                         Shape.new_circle(
                             center, current_outer_diameter, is_negative=False
-- 
2.43.0


From da83a5c343b7a2c5261db3d9d296ee42a89e5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 09/57] fix: thermal primitive vanished for wide gaps

The gap thickness of primitive 7 is limited by the outer diameter divided
by the square root of two; it was compared with the inner diameter.
---
 src/pygerber/gerber/compiler/compiler.py | 28 ++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 29d92da..f6f5368 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1016,7 +1016,7 @@ class MacroEvalVisitor(AstVisitor):
 
         thickness = outer_diameter - inner_diameter
 
-        if gap_thickness * math.sqrt(2) >= inner_diameter:
+        if gap_thickness * math.sqrt(2) >= outer_diameter:
             return node
 
         if thickness <= 0:
@@ -1028,15 +1028,25 @@ class MacroEvalVisitor(AstVisitor):
         )
 
         shapes: list[Shape] = []
-        shapes.extend(
-            Shape.new_ring(
-                (0, 0),
-                outer_diameter,
-                inner_diameter,
-                is_negative=False,
-                metadata=self._metadata,
+        if inner_diameter > 0:
+            shapes.extend(
+                Shape.new_ring(
+                    (0, 0),
+                    outer_diameter,
+                    inner_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
+            )
+        else:
+            shapes.append(
+                Shape.new_circle(
+                    (0, 0),
+                    outer_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
             )
-        )
 
         # Compensate rounding errors with rotation.
         radius_delta = outer_diameter / 2 + thickness / 1.99
-- 
2.43.0


From e17f1457f8ab04db1570b361f182821f22716623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 10/57] fix: apertures sharing a thermal macro overwrote each
 other

The helper layer of primitive 7 was named after the macro node and the
current second, so every aperture created from one macro used the
parameters of the last one.
---
 src/pygerber/gerber/compiler/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index f6f5368..9953e21 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1022,7 +1022,10 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        aperture_id = ApertureIdStr(
+            f"%%Code7%{self._aperture_buffer.id_str}"
+            f"%{len(self._aperture_buffer.commands)}"
+        )
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 85e9c665e9cdbb40bd5bcda0e7e90e67524c49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 11/57] fix: submit a shared aperture layer only once

A layer used by two other layers was emitted twice, which the virtual
machine rejects. The emission order is now also deterministic.
---
 src/pygerber/gerber/compiler/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 9953e21..5468d83 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -780,15 +780,21 @@ class Compiler(StateTrackingVisitor):
 
     def _resolve_buffer_submit_order(self) -> list[CommandBuffer]:
         buffer_submit_order: list[str] = []
+        in_progress: set[str] = set()
 
         def _(buffer: CommandBuffer) -> None:
-            for dependency_id in buffer.depends_on:
+            in_progress.add(buffer.id_str)
+
+            for dependency_id in sorted(buffer.depends_on):
                 dependency = self._get_buffer(dependency_id)
-                _(dependency)
 
-                if buffer.id_str in buffer_submit_order:
+                if dependency_id in in_progress:
                     raise CyclicBufferDependencyError(buffer, dependency)
 
+                if dependency_id not in buffer_submit_order:
+                    _(dependency)
+
+            in_progress.remove(buffer.id_str)
             buffer_submit_order.append(buffer.id_str)
 
         _(self._get_buffer(self.MAIN_BUFFER_ID))
-- 
2.43.0


From 30316fd53ebdba1c487eae42dfddd459be1b3ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 12/57] fix: respect clear polarity when flashing block
 apertures

Blocks flashed with LPC were painted as if the polarity was dark. The
Gerber specification toggles polarity of the block contents.
---
 src/pygerber/gerber/compiler/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 5468d83..0e33372 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -742,6 +742,12 @@ class Compiler(StateTrackingVisitor):
         tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
             buffer, Matrix3x3.new_translate(x=self.coordinate_x, y=self.coordinate_y)
         )
+        if self.is_negative:
+            # Flashing block with clear polarity toggles polarity of its contents.
+            tmp_buffer.commands = [
+                cmd.model_copy(update={"is_negative": not cmd.is_negative})
+                for cmd in tmp_buffer.commands
+            ]
 
         self._expand_buffer_to_current_buffer(tmp_buffer)
 
-- 
2.43.0


From 3b23101af264e84035b9a49b795f8f200e22864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 13/57] fix: region metadata was computed but never returned

Regions carry both object and aperture attributes.
---
 src/pygerber/gerber/compiler/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 0e33372..d83b0e4 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -612,8 +612,11 @@ class Compiler(StateTrackingVisitor):
                 self.state.attributes.object_attributes
             )
             metadata.update(
-                _convert_attributes_to_metadata(self.state.attributes.object_attributes)
+                _convert_attributes_to_metadata(
+                    self.state.attributes.aperture_attributes
+                )
             )
+            return metadata
         return None
 
     def on_flush_region(self) -> None:
-- 
2.43.0


From 53f2c5dd2d666161cd5ab8f7c4a17cf5318cf33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 14/57] fix: arcs thicker than their diameter had holes

When half of the thickness exceeds the radius the inner edge of the arc
flipped to the opposite side of the center.
---
 src/pygerber/vm/commands/shape.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 2263b55..7a435c4 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -23,6 +23,7 @@ if TYPE_CHECKING:
 
 FULL_ANGLE_DEGREES = 360
 VERTEX_COUNT_IN_TRIANGLE = 3
+MIN_ARC_INNER_RADIUS = 1e-9
 
 
 class Shape(Command):
@@ -301,6 +302,24 @@ class Shape(Command):
         local_end_vector = end_vector - Vector.from_tuple(center)
         extend_end_vector = local_end_vector.normalized() * (thickness / 2)
 
+        inner_radius = local_start_vector.length() - thickness / 2
+        if inner_radius < MIN_ARC_INNER_RADIUS:
+            # Inner edge of arc reaches center, hence it degenerates to a pie slice.
+            return cls(
+                commands=[
+                    Arc(
+                        start=start_vector + extend_start_vector,
+                        end=end_vector + extend_end_vector,
+                        center=center_vector,
+                        clockwise=True,
+                    ),
+                    Line(start=end_vector + extend_end_vector, end=center_vector),
+                    Line(start=center_vector, end=start_vector + extend_start_vector),
+                ],
+                is_negative=is_negative,
+                metadata=metadata,
+            )
+
         return cls(
             commands=[
                 Arc(
-- 
2.43.0


From bc4c6bd43ca067a525e7c3b7e7fc6f827cf4b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 15/57] fix: rotated arcs produced self intersecting shapely
 polygons

Points duplicated at ends of an arc, differing by rounding errors, made
polygons invalid, and repairing them dropped large parts of the shape (for
example half of a rotated ring) or failed with a topology error.
---
 src/pygerber/vm/shapely/vm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 84e6113..b0235c1 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -317,7 +317,7 @@ class ShapelyVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle)
+        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
 
@@ -364,11 +364,13 @@ class ShapelyVirtualMachine(VirtualMachine):
         apply_delta: Callable[[float, float], float],
         compare_angles: Callable[[float, float], bool],
     ) -> Generator[float, None, None]:
-        current_angle = start
-        while compare_angles(current_angle, end):
+        # Exact start and end points are added separately, therefore only points
+        # strictly in between, and clearly apart from the end point, are generated.
+        half_delta = delta / 2
+        current_angle = apply_delta(start, delta)
+        while compare_angles(apply_delta(current_angle, half_delta), end):
             yield current_angle
             current_angle = apply_delta(current_angle, delta)
-        yield end
 
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
-- 
2.43.0


From 65038c12ada3ffaa79b7b96dec096eb946f857ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:30 +0000
Subject: [PATCH 16/57] fix: empty layers broke the virtual machine

Closing an auto sized layer without any commands left the handlers of
that layer active and a half created layer registered, so rendering a
Gerber file without any graphics, or one which uses an empty block
aperture, failed with an assertion error.
---
 src/pygerber/vm/pillow/vm.py  |  2 +-
 src/pygerber/vm/shapely/vm.py |  8 ++++++--
 src/pygerber/vm/vm.py         | 31 +++++++++++++++++++++----------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index b57a680..5ac2315 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -515,7 +515,7 @@ class PillowVirtualMachine(VirtualMachine):
         """Execute all commands."""
         super().run(rvmc)
 
-        layer = self._layers.get(self.MAIN_LAYER_ID, None)
+        layer = self._get_main_layer()
 
         if layer is None:
             if self._fail_on_empty_auto_sized_layer:
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index b0235c1..096aaa6 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -415,10 +415,14 @@ class ShapelyVirtualMachine(VirtualMachine):
         """Execute all commands."""
         super().run(rvmc)
 
-        layer = self._layers.get(self.MAIN_LAYER_ID, None)
+        layer = self._get_main_layer()
 
         if layer is None:
-            raise NoMainLayerError
+            if self._fail_on_empty_auto_sized_layer:
+                raise NoMainLayerError
+            return ShapelyResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), sh.unary_union([])
+            )
 
         assert isinstance(layer, ShapelyEagerLayer)
         return ShapelyResult(layer.box, sh.unary_union(layer.shape))
diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..667fff3 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -130,6 +130,7 @@ class VirtualMachine(CommandVisitor):
 
         self._fail_on_empty_auto_sized_layer = fail_on_empty_auto_sized_layer
         self._layers: dict[LayerID, Layer] = {}
+        self._empty_layers: set[LayerID] = set()
         self._layer_stack: list[Layer] = []
 
     def set_handlers_for_layer(self, layer: Layer) -> None:
@@ -176,6 +177,9 @@ class VirtualMachine(CommandVisitor):
 
     def on_paste_layer(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
+        if command.source_layer_id in self._empty_layers:
+            # There is nothing to paste.
+            return
         self._on_paste_layer_handler(command)
 
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
@@ -262,17 +266,18 @@ class VirtualMachine(CommandVisitor):
             if box is None:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
-                return
+                self._empty_layers.add(top_layer.layer_id)
 
-            new_layer = self.create_eager_layer(
-                top_layer.layer_id, top_layer.origin, box
-            )
-            self.set_layer(top_layer.layer_id, new_layer)
+            else:
+                new_layer = self.create_eager_layer(
+                    top_layer.layer_id, top_layer.origin, box
+                )
+                self.set_layer(top_layer.layer_id, new_layer)
 
-            self.push_layer_to_stack(new_layer)
-            self.set_eager_handlers()
-            self._eval_deferred_commands(top_layer.commands)
-            self.pop_layer_from_stack()
+                self.push_layer_to_stack(new_layer)
+                self.set_eager_handlers()
+                self._eval_deferred_commands(top_layer.commands)
+                self.pop_layer_from_stack()
 
         else:
             raise NotImplementedError(type(top_layer))
@@ -325,11 +330,17 @@ class VirtualMachine(CommandVisitor):
         for cmd in commands:
             cmd.visit(self)
 
+    def _get_main_layer(self) -> Optional[Layer]:
+        """Get main layer or None if there is no main layer or it is empty."""
+        if self.MAIN_LAYER_ID in self._empty_layers:
+            return None
+        return self._layers.get(self.MAIN_LAYER_ID, None)
+
     def run(self, rvmc: RVMC) -> Result:
         """Execute all commands."""
         for command in rvmc.commands:
             command.visit(self)
-        layer = self._layers.get(self.MAIN_LAYER_ID, None)
+        layer = self._get_main_layer()
 
         if layer is None:
             if self._fail_on_empty_auto_sized_layer:
-- 
2.43.0


From d0e5c02850ee08719c65dee8e561a57206888800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:54 +0000
Subject: [PATCH 17/57] fix: arc center offsets leaked into following arcs

I and J are not modal; an offset omitted in a D01 command is zero and not
the value used by some earlier arc.
---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 54d1c26..694e694 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -583,6 +583,9 @@ class StateTrackingVisitor(AstVisitor):
 
     def on_d01(self, node: D01) -> D01:
         """Handle `D01` node."""
+        # Unlike X and Y, arc center offsets are not modal.
+        self.state.coordinate_i = None
+        self.state.coordinate_j = None
         super().on_d01(node)
         self._on_d01_handler(node)
         self._update_coordinates()
-- 
2.43.0


From 5d293f50e351b9da96862d918cb473269deea372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:00 +0000
Subject: [PATCH 18/57] fix: nearly equal polygon points caused shapely
 topology errors

Outlines whose last point equals the first one only up to a rounding
error became invalid polygons when pasted, and rendering failed.
---
 src/pygerber/vm/shapely/vm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 096aaa6..151a156 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -25,6 +25,9 @@ from pygerber.vm.vm import DeferredLayer, EagerLayer, Layer, Result, VirtualMach
 
 FULL_ANGLE_DEGREES = 360
 
+# Points of a polygon closer to each other than this are considered the same point.
+MIN_POINT_DISTANCE = 1e-9
+
 DECREASE_ANGLE = (operator.sub, operator.gt)
 INCREASE_ANGLE = (operator.add, operator.lt)
 
@@ -268,7 +271,9 @@ class ShapelyVirtualMachine(VirtualMachine):
         self, points: Sequence[tuple[float, float]], *, is_negative: bool
     ) -> None:
         """Draw a polygon."""
-        polygon = sh.Polygon(points)
+        polygon = sh.remove_repeated_points(
+            sh.Polygon(points), tolerance=MIN_POINT_DISTANCE
+        )
 
         layer = self.layer
         x_offset = -layer.origin.x
-- 
2.43.0


From ccec4290d1aed789db78e75bb9ca513fe8912eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:25 +0000
Subject: [PATCH 19/57] fix: undefined macro variables raised KeyError instead
 of being zero

---
 src/pygerber/gerber/ast/expression_eval_visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/expression_eval_visitor.py b/src/pygerber/gerber/ast/expression_eval_visitor.py
index 056c604..8beec45 100644
--- a/src/pygerber/gerber/ast/expression_eval_visitor.py
+++ b/src/pygerber/gerber/ast/expression_eval_visitor.py
@@ -103,7 +103,8 @@ class ExpressionEvalVisitor(AstVisitor):
 
     def on_variable(self, node: Variable) -> Variable:
         """Handle `Variable` node."""
-        self.return_value = self.scope[node.variable]
+        # Variables which were never assigned have value 0.
+        self.return_value = self.scope.get(node.variable, 0.0)
         return node
 
     def on_constant(self, node: Constant) -> Constant:
-- 
2.43.0


From 6c009c803b896bed0287cf698a8e17c6ab97a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:25 +0000
Subject: [PATCH 20/57] fix: packing coordinates without decimal digits failed

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 694e694..85acf52 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -201,9 +201,8 @@ class CoordinateFormat(_StateModel):
         decimal: int,
     ) -> Callable[[Double], PackedCoordinateStr]:
         def _(coordinate: Double) -> PackedCoordinateStr:
-            integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
+            integer_str, _, decimal_str = f"{coordinate:.{decimal}f}".partition(".")
             assert len(integer_str) > 0
-            assert len(decimal_str) > 0
 
             if integer_str[0] in ("+", "-"):
                 sign, integer_str = integer_str[0], integer_str[1:]
@@ -225,9 +224,8 @@ class CoordinateFormat(_StateModel):
         decimal: int,
     ) -> Callable[[Double], PackedCoordinateStr]:
         def _(coordinate: Double) -> PackedCoordinateStr:
-            integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
+            integer_str, _, decimal_str = f"{coordinate:.{decimal}f}".partition(".")
             assert len(integer_str) > 0
-            assert len(decimal_str) > 0
 
             if integer_str[0] in ("+", "-"):
                 sign, integer_str = integer_str[0], integer_str[1:]
-- 
2.43.0


From c8c66a0687384aeeb5be3730a5ff4d36b1d21e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:19 +0000
Subject: [PATCH 21/57] fix: format step and repeat with omitted parameters

---
 src/pygerber/gerber/formatter/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7471884..d0d29a3 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -510,13 +510,13 @@ class Formatter(AstVisitor):
             if node.x is not None:
                 self._write(f"X{node.x}")
 
-            if node.x is not None:
+            if node.y is not None:
                 self._write(f"Y{node.y}")
 
-            if node.x is not None:
+            if node.i is not None:
                 self._write(f"I{node.i}")
 
-            if node.x is not None:
+            if node.j is not None:
                 self._write(f"J{node.j}")
 
         return node
-- 
2.43.0


From d1d797920dd81c0b5c3fbf62d87dd94ed8295596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:19 +0000
Subject: [PATCH 22/57] fix: keep integer zeros when formatting floats and
 honour trim option

---
 src/pygerber/gerber/formatter/formatter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index d0d29a3..b5d1388 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -130,6 +130,7 @@ from pygerber.gerber.ast.nodes import (
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
+    FloatTrimTrailingZeros,
     KeepNonStandaloneCodes,
     MacroEndInNewLine,
     MacroSplitMode,
@@ -279,7 +280,9 @@ class Formatter(AstVisitor):
 
         self.float_decimal_places = self.options.float_decimal_places
 
-        self.float_trim_trailing_zeros = self.options.float_trim_trailing_zeros
+        self.float_trim_trailing_zeros = (
+            self.options.float_trim_trailing_zeros == FloatTrimTrailingZeros.Yes
+        )
 
         if isinstance(self.options.d01_indent, int):
             self.d01_indent = self.options.indent_character * self.options.d01_indent
@@ -375,9 +378,9 @@ class Formatter(AstVisitor):
         if self.float_decimal_places < 0:
             return str(value)
         double = f"{value:.{self.float_decimal_places}f}"
-        if self.float_trim_trailing_zeros:
+        if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-        return double  # type: ignore[unreachable]
+        return double
 
     def _insert_base_indent(self) -> None:
         self._write(self._base_indent)
-- 
2.43.0


From 8090440ed307d888fea72013d93fb1a84cce92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:19 +0000
Subject: [PATCH 23/57] fix: keep outer indent when closing block without own
 indent

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index b5d1388..bdf6e98 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -181,7 +181,7 @@ def _decrease_base_indent(
             assert isinstance(self, Formatter)
 
             indent_delta = getattr(self, variable_name)
-            if self._base_indent.endswith(indent_delta):
+            if indent_delta and self._base_indent.endswith(indent_delta):
                 self._base_indent = self._base_indent[: -len(indent_delta)]
 
             return function(*args, **kwargs)
-- 
2.43.0


From f69d5c80dce36d9046cdbde20998c47ac604e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:23 +0000
Subject: [PATCH 24/57] fix: never format floats in scientific notation

---
 src/pygerber/gerber/formatter/formatter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index bdf6e98..23c9a88 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -5,6 +5,7 @@ configurable Gerber code formatting.
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from functools import wraps
 from io import StringIO
 from typing import (
@@ -376,7 +377,7 @@ class Formatter(AstVisitor):
 
     def _fmt_double(self, value: Double) -> str:
         if self.float_decimal_places < 0:
-            return str(value)
+            return format(Decimal(str(value)), "f")
         double = f"{value:.{self.float_decimal_places}f}"
         if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
@@ -476,9 +477,9 @@ class Formatter(AstVisitor):
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
             if node.params is not None:
                 first, *rest = node.params
-                self._write(f",{first}")
+                self._write(f",{self._fmt_double(first)}")
                 for param in rest:
-                    self._write(f"X{param}")
+                    self._write(f"X{self._fmt_double(param)}")
         return node
 
     @_decorator_insert_base_indent
@@ -1501,9 +1502,9 @@ class Formatter(AstVisitor):
         """Handle `OF` node."""
         with self._extended_command("OF"):
             if node.a_offset is not None:
-                self._write(f"A{node.a_offset}")
+                self._write(f"A{self._fmt_double(node.a_offset)}")
             if node.b_offset is not None:
-                self._write(f"B{node.b_offset}")
+                self._write(f"B{self._fmt_double(node.b_offset)}")
         return node
 
     @_decorator_insert_base_indent
-- 
2.43.0


From 88f6893bee4828c64950aae5bae262d2dda8f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:23 +0000
Subject: [PATCH 25/57] fix: spell .CLbN attribute name the way the format
 defines it

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 23c9a88..a35a9f1 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -850,7 +850,7 @@ class Formatter(AstVisitor):
     @_decorator_insert_base_indent
     def on_to_clbn(self, node: TO_CLbN) -> TO_CLbN:
         """Handle `TO_CLbN` node."""
-        with self._extended_command("TO.CLbn"):
+        with self._extended_command("TO.CLbN"):
             self._write(",")
             self._write(node.name)
 
-- 
2.43.0


From 148123568743b6aca63f07319f70677d8d9ab2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 26/57] fix: removed G54 and G55 codes left wrong indentation
 behind

---
 src/pygerber/gerber/formatter/formatter.py | 24 ++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index a35a9f1..b80e46d 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -128,6 +128,7 @@ from pygerber.gerber.ast.nodes import (
     TO_UserName,
     Variable,
 )
+from pygerber.gerber.ast.nodes.d_codes.D import D
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
@@ -335,6 +336,7 @@ class Formatter(AstVisitor):
 
         self._output: Optional[TextIO] = None
         self._base_indent: str = ""
+        self._is_prefix_removed: bool = False
 
     def format(self, source: File, output: TextIO) -> None:
         """Format Gerber AST according to rules specified in Formatter constructor."""
@@ -881,9 +883,17 @@ class Formatter(AstVisitor):
 
     # D codes
 
+    def _is_line_start(self, node: D) -> bool:
+        is_prefix_removed, self._is_prefix_removed = self._is_prefix_removed, False
+        return (
+            is_prefix_removed
+            or node.is_standalone
+            or not self.keep_non_standalone_codes
+        )
+
     def on_d01(self, node: D01) -> D01:
         """Handle `D01` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
             self._insert_extra_indent(self.d01_indent)
 
@@ -895,7 +905,7 @@ class Formatter(AstVisitor):
 
     def on_d02(self, node: D02) -> D02:
         """Handle `D02` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
             self._insert_extra_indent(self.d02_indent)
 
@@ -907,7 +917,7 @@ class Formatter(AstVisitor):
 
     def on_d03(self, node: D03) -> D03:
         """Handle `D03` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
             self._insert_extra_indent(self.d03_indent)
 
@@ -919,7 +929,7 @@ class Formatter(AstVisitor):
 
     def on_dnn(self, node: Dnn) -> Dnn:
         """Handle `Dnn` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
 
         with self._command(node.aperture_id):
@@ -974,19 +984,21 @@ class Formatter(AstVisitor):
         self._handle_g(node, G37)
         return node
 
-    @_decorator_insert_base_indent
     def on_g54(self, node: G54) -> G54:
         """Handle `G54` node."""
         if self.remove_g54:
+            self._is_prefix_removed = not node.is_standalone
             return node
+        self._insert_base_indent()
         self._handle_g(node, G54)
         return node
 
-    @_decorator_insert_base_indent
     def on_g55(self, node: G55) -> G55:
         """Handle `G55` node."""
         if self.remove_g55:
+            self._is_prefix_removed = not node.is_standalone
             return node
+        self._insert_base_indent()
         self._handle_g(node, G55)
         return node
 
-- 
2.43.0


From f2e7b7f5afb75f76378bfbc1b06934077feac6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:48 +0000
Subject: [PATCH 27/57] fix: keep node locations right in sources with tabs

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index a67d268..ea4740d 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -211,6 +211,9 @@ class Grammar:
             )
             .set_results_name("root_node")
             .set_parse_action(_)
+            # Without this tabs would be expanded into spaces before parsing and node
+            # locations wouldn't match locations in actual source code.
+            .parse_with_tabs()
         )
 
         if self.enable_packrat:
@@ -247,6 +250,9 @@ class Grammar:
             )
             .set_results_name("root_node")
             .set_parse_action(_)
+            # Without this tabs would be expanded into spaces before parsing and node
+            # locations wouldn't match locations in actual source code.
+            .parse_with_tabs()
         )
 
         if self.enable_packrat:
-- 
2.43.0


From 6b7c484854aabd93cb548a9611f8c05684c52b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:40 +0000
Subject: [PATCH 28/57] fix: look for nodes inside of block which is alone in
 file

---
 src/pygerber/gerber/ast/node_finder.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 002c0b4..1283bc5 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -50,10 +50,6 @@ class NodeFinder(AstVisitor):
         if len(node.nodes) == 0:
             return node
 
-        if len(node.nodes) == 1:
-            self.return_node = node.nodes[0]
-            return node
-
         self.return_node = self._bin_search(node.nodes)
 
         return node
-- 
2.43.0


From 1fbb58d11e640243f9c54304e9338673f58e860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:22 +0000
Subject: [PATCH 29/57] fix: find nodes left to the opening of the block they
 are in

---
 src/pygerber/gerber/ast/node_finder.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 1283bc5..b6f64c7 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -73,7 +73,15 @@ class NodeFinder(AstVisitor):
         if len(nodes) == 1:
             self.return_node = nodes[0]
             source_info = self.return_node.source_info
-            if source_info is not None and self.location.column < source_info.column:
+            if source_info is not None and (
+                (self.location.line, self.location.column)
+                < (source_info.line, source_info.column)
+                # Nodes inside of block may start left to the opening of the block.
+                or (
+                    not isinstance(self.return_node, (AB, AM, SR))
+                    and self.location.column < source_info.column
+                )
+            ):
                 self.return_node = None
                 return None
 
-- 
2.43.0


From 7118b64b20b53c654f32474293c12e4e188c49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:13 +0000
Subject: [PATCH 30/57] fix: builder forgot interpolation mode set by region
 outline

---
 src/pygerber/builder/gerber.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..528d532 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -1639,6 +1639,7 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
+            self._builder._plot_mode = mode  # noqa: SLF001
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
-- 
2.43.0


From deef99baa32b872675ac0c190aa6bf5e3a3c713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:54 +0000
Subject: [PATCH 31/57] fix: builder state changed when drawing operation was
 rejected

---
 src/pygerber/builder/gerber.py | 122 ++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 61 deletions(-)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index 528d532..2e5ba1a 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -185,6 +185,10 @@ class GerberX3Builder:
         """
         self._check_pad_not_a_pad_creator(pad)
 
+        location = at.end_location if isinstance(at, TraceDraw) else at
+        # Packing may fail, hence it has to happen before state of builder changes.
+        flash = D03(x=self._pack_x(location[0]), y=self._pack_y(location[1]))
+
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=pad.aperture_id,
@@ -195,16 +199,10 @@ class GerberX3Builder:
                 scale=scale,
             )
         )
-        location = at.end_location if isinstance(at, TraceDraw) else at
 
         draw = PadDraw(
             state_updates=state_updates,
-            draw_ops=[
-                D03(
-                    x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
-                    y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
-                )
-            ],
+            draw_ops=[flash],
             location=location,
         )
         self._add_draw(draw)
@@ -310,6 +308,10 @@ class GerberX3Builder:
         """
         self._check_pad_not_a_pad_creator(pad)
 
+        location = at.end_location if isinstance(at, TraceDraw) else at
+        # Packing may fail, hence it has to happen before state of builder changes.
+        flash = D03(x=self._pack_x(location[0]), y=self._pack_y(location[1]))
+
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=pad.aperture_id,
@@ -320,16 +322,10 @@ class GerberX3Builder:
                 scale=scale,
             )
         )
-        location = at.end_location if isinstance(at, TraceDraw) else at
 
         draw = PadDraw(
             state_updates=state_updates,
-            draw_ops=[
-                D03(
-                    x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
-                    y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
-                )
-            ],
+            draw_ops=[flash],
             location=location,
         )
         self._add_draw(draw)
@@ -370,18 +366,6 @@ class GerberX3Builder:
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
-        state_updates = list(
-            self._create_state_updates(
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-                plot_mode=PlotMode.LINEAR,
-            )
-        )
-
         draw_ops: list[Node] = []
         if self._current_location != begin_location:
             draw_ops.append(
@@ -398,6 +382,18 @@ class GerberX3Builder:
             )
         )
 
+        state_updates = list(
+            self._create_state_updates(
+                selected_aperture=aperture.aperture_id,
+                polarity=Polarity.Dark,
+                rotation=0.0,
+                mirror_x=False,
+                mirror_y=False,
+                scale=1.0,
+                plot_mode=PlotMode.LINEAR,
+            )
+        )
+
         draw = TraceDraw(
             state_updates=state_updates,
             draw_ops=draw_ops,
@@ -474,18 +470,6 @@ class GerberX3Builder:
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
-        state_updates = list(
-            self._create_state_updates(
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-                plot_mode=PlotMode.ARC,
-            )
-        )
-
         draw_ops: list[Node] = []
         if self._current_location != begin_location:
             draw_ops.append(
@@ -504,6 +488,18 @@ class GerberX3Builder:
             )
         )
 
+        state_updates = list(
+            self._create_state_updates(
+                selected_aperture=aperture.aperture_id,
+                polarity=Polarity.Dark,
+                rotation=0.0,
+                mirror_x=False,
+                mirror_y=False,
+                scale=1.0,
+                plot_mode=PlotMode.ARC,
+            )
+        )
+
         draw = ArcTraceDraw(
             state_updates=state_updates,
             draw_ops=draw_ops,
@@ -553,18 +549,6 @@ class GerberX3Builder:
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
-        state_updates = list(
-            self._create_state_updates(
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-                plot_mode=PlotMode.CCW_ARC,
-            )
-        )
-
         draw_ops: list[Node] = []
         if self._current_location != begin_location:
             draw_ops.append(
@@ -583,6 +567,18 @@ class GerberX3Builder:
             )
         )
 
+        state_updates = list(
+            self._create_state_updates(
+                selected_aperture=aperture.aperture_id,
+                polarity=Polarity.Dark,
+                rotation=0.0,
+                mirror_x=False,
+                mirror_y=False,
+                scale=1.0,
+                plot_mode=PlotMode.CCW_ARC,
+            )
+        )
+
         draw = ArcTraceDraw(
             state_updates=state_updates,
             draw_ops=draw_ops,
@@ -1571,16 +1567,6 @@ class RegionCreator:
             raise InvalidRegionOutlineError(msg)
 
         def _() -> Iterable[Node]:
-            aperture = self._builder._get_trace_aperture(1)  # noqa: SLF001
-            yield from self._builder._create_state_updates(  # noqa: SLF001
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-            )
-
             mode: Optional[PlotMode] = None
 
             yield G36()
@@ -1646,7 +1632,21 @@ class RegionCreator:
                 y=self._builder._pack_y(self._begin[1]),  # noqa: SLF001
             )
 
-        region = Region(nodes=list(_()), attributes=[], location=self._begin)
+        # Packing may fail, hence it has to happen before state of builder changes.
+        outline = list(_())
+        aperture = self._builder._get_trace_aperture(1)  # noqa: SLF001
+        state_updates = self._builder._create_state_updates(  # noqa: SLF001
+            selected_aperture=aperture.aperture_id,
+            polarity=Polarity.Dark,
+            rotation=0.0,
+            mirror_x=False,
+            mirror_y=False,
+            scale=1.0,
+        )
+
+        region = Region(
+            nodes=[*state_updates, *outline], attributes=[], location=self._begin
+        )
         self._builder._add_draw(region)  # noqa: SLF001
         return region
 
-- 
2.43.0


From 9833a4f3ea78bae23da8e2915e7f6e98219854db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 32/57] fix: report pasting of unknown and unfinished layers
 into auto-sized layers with their own errors

---
 src/pygerber/vm/vm.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index 667fff3..c6cbb5e 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -15,6 +15,7 @@ from pygerber.vm.types import (
     LayerNotFoundError,
     NoLayerSetError,
     NoMainLayerError,
+    PasteDeferredLayerNotAllowedError,
     Style,
     Vector,
 )
@@ -305,9 +306,7 @@ class VirtualMachine(CommandVisitor):
             box = cmd.outer_box
 
         elif isinstance(cmd, PasteLayer):
-            layer = self._layers[cmd.source_layer_id]
-            assert isinstance(layer, EagerLayer)
-            box = layer.box + cmd.center - layer.origin
+            box = self._calculate_pasted_layer_box(cmd)
 
         else:
             raise NotImplementedError(type(cmd))
@@ -317,15 +316,19 @@ class VirtualMachine(CommandVisitor):
                 box = box + cmd.outer_box
 
             elif isinstance(cmd, PasteLayer):
-                layer = self._layers[cmd.source_layer_id]
-                assert isinstance(layer, EagerLayer)
-                box = box + (layer.box + cmd.center - layer.origin)
+                box = box + self._calculate_pasted_layer_box(cmd)
 
             else:
                 raise NotImplementedError(type(cmd))
 
         return box
 
+    def _calculate_pasted_layer_box(self, command: PasteLayer) -> Box:
+        layer = self.get_layer(command.source_layer_id)
+        if not isinstance(layer, EagerLayer):
+            raise PasteDeferredLayerNotAllowedError(command.source_layer_id)
+        return layer.box + command.center - layer.origin
+
     def _eval_deferred_commands(self, commands: list[DrawCmdT]) -> None:
         for cmd in commands:
             cmd.visit(self)
-- 
2.43.0


From af4c88820eec3df6aefe0a7f4c4586a443977365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 33/57] fix: pasting negative of layer without any visible
 shape crashed

---
 src/pygerber/vm/shapely/vm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 151a156..2809453 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -405,6 +405,10 @@ class ShapelyVirtualMachine(VirtualMachine):
             for geom in source_layer.shape
         ]
 
+        if not transformed_shape:
+            # Nothing was left visible on source layer.
+            return
+
         if command.is_negative:
             dest_layer_tree = shtree.STRtree(self.layer.shape)
             dest_idx = dest_layer_tree.query(transformed_shape).T
-- 
2.43.0


From 3199796a23edc42d9ce347a002efe9c11e38d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:10 +0000
Subject: [PATCH 34/57] fix: layer abandoned by exception blocked creation of
 further nested layers

---
 src/pygerber/builder/rvmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/builder/rvmc.py b/src/pygerber/builder/rvmc.py
index c71a1ab..d0d16a1 100644
--- a/src/pygerber/builder/rvmc.py
+++ b/src/pygerber/builder/rvmc.py
@@ -183,11 +183,13 @@ class LayerBuilder:
         layer_context = LayerBuilder(
             layer_id=self._active_layer_id, box=box, origin=origin
         )
-        yield layer_context
+        try:
+            yield layer_context
+        finally:
+            self._active_layer_id = None
 
         layer_context.finalize()
         self._commands.extend(layer_context.commands)
-        self._active_layer_id = None
 
     @property
     def commands(self) -> Sequence[Command]:
-- 
2.43.0


From 7a43ccaf45ec14f13e7dc04e33a382e6f006af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 35/57] fix: render inch files at the requested dots per
 millimeter

---
 src/pygerber/gerber/api/_gerber_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index f21ece3..b36b602 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -610,15 +610,18 @@ class GerberFile:
         style = self._dispatch_style(style)
 
         rvmc = self._get_rvmc()
+        unit_mode = self._get_final_state().unit_mode
+        # Coordinates in RVMC are expressed in file units, not always in millimeters.
+        dots_per_unit = dpmm if unit_mode == UnitMode.METRIC else dpmm * 25.4
         result = render(
             rvmc,
             backend="pillow",
-            dpmm=dpmm,
+            dpmm=dots_per_unit,
         )
         assert isinstance(result, PillowResult)
         return PillowImage(
             image_space=ImageSpace(
-                units=self._get_final_state().unit_mode,
+                units=unit_mode,
                 box=result.main_box,
                 dpmm=dpmm,
             ),
-- 
2.43.0


From 5999d0ba8935a9e64bab79559d4013e9c6bc2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 36/57] fix: compare extents of composed files in common units

---
 src/pygerber/gerber/api/_composite_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 29eee02..0b79399 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -67,10 +67,10 @@ class CompositeView:
             file.render_with_pillow(dpmm=dpmm) for file in self.files
         ]
 
-        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x)
-        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y)
-        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x)
-        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y)
+        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
+        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
+        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
+        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
 
         width_pixels = (
             max_x_image.get_image_space().max_x_pixels
-- 
2.43.0


From e32ee52f9da11368c3dff5880e336764386adaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 37/57] fix: accept binary file objects as SVG destination

---
 src/pygerber/vm/shapely/vm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 2809453..170001d 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -132,7 +132,9 @@ class ShapelyResult(Result):
             with Path(destination).open("wb") as file:
                 self._dump_svg(file, color, encoding=encoding)
 
-        elif isinstance(destination, (BinaryIO, BytesIO)):
+        elif isinstance(destination, (BinaryIO, BytesIO)) or hasattr(
+            destination, "write"
+        ):
             self._dump_svg(destination, color, encoding=encoding)
 
         else:
-- 
2.43.0


From d230515987627367e4ca91d97d6fe258c1e6122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:12 +0000
Subject: [PATCH 38/57] fix: add missing drill map style to default alpha color
 map

---
 src/pygerber/gerber/api/_enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index 1437b4d..c20546d 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -243,6 +243,7 @@ DEFAULT_ALPHA_COLOR_MAP: COLOR_MAP_T = {
     FileTypeEnum.VCUT: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.VIAFILL: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.PADS: Style.presets.PASTE_MASK_ALPHA,
+    FileTypeEnum.DRILLMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.FABRICATIONDRAWING: Style.presets.SILK_ALPHA,
     FileTypeEnum.VCUTMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.ASSEMBLYDRAWING: Style.presets.SILK_ALPHA,
-- 
2.43.0


From f1ba6b6a2241aaaf73a3491cfa2fdf1a48c8d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:12 +0000
Subject: [PATCH 39/57] fix: recognize numbered layer extensions case
 insensitively

---
 src/pygerber/gerber/api/_enums.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index c20546d..f85555f 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -156,6 +156,8 @@ class FileTypeEnum(Enum):
 
     @classmethod
     def infer_from_extension(cls, extension: str) -> FileTypeEnum:
+        extension = extension.lower()
+
         if re.match(r"\.g[0-9]+", extension):
             return FileTypeEnum.COPPER
 
-- 
2.43.0


From a41b481814eb8004da6fa7507765d0d845a6b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:12 +0000
Subject: [PATCH 40/57] fix: allow creating job file objects which were not
 loaded from disk

---
 src/pygerber/gerber/api/_gerber_job_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..ccf6018 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -102,7 +102,8 @@ class GerberJobFile(_ModelType):
     __file_path__: Optional[Path] = None
 
     def model_post_init(self, __context: Any) -> None:
-        self.__file_path__ = Path(__context["__file_path__"])
+        if __context is not None and "__file_path__" in __context:
+            self.__file_path__ = Path(__context["__file_path__"])
         return super().model_post_init(__context)
 
     @classmethod
-- 
2.43.0


From 4333e9f77a775f48d0c59c8e4535141c96b5aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:12 +0000
Subject: [PATCH 41/57] fix: order inner layers of job files by layer number

---
 src/pygerber/gerber/api/_gerber_job_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ccf6018..f02a8d8 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -230,7 +230,7 @@ class GerberJobFile(_ModelType):
             top=CompositeView(extract_and_sort_files(top)),
             inner=(
                 CompositeView(extract_and_sort_files(inner[key]))
-                for key in sorted(inner)
+                for key in sorted(inner, key=int)
             ),
             bottom=CompositeView(extract_and_sort_files(bottom)),
         )
-- 
2.43.0


From d3af3a556d363472d074977dd3df1ee9f4c9245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 42/57] fix: call listeners of EventAstVisitor once per node

Handlers of abstract node types and of the end of file triggered listeners of
the concrete node for the second time.
---
 .../gerber/linter/event_ast_visitor.py        | 34 -------------------
 1 file changed, 34 deletions(-)

diff --git a/src/pygerber/gerber/linter/event_ast_visitor.py b/src/pygerber/gerber/linter/event_ast_visitor.py
index 8b996c3..4164999 100644
--- a/src/pygerber/gerber/linter/event_ast_visitor.py
+++ b/src/pygerber/gerber/linter/event_ast_visitor.py
@@ -10,7 +10,6 @@ from pygerber.gerber.ast.nodes import Node
 if TYPE_CHECKING:
     from pygerber.gerber.ast.nodes import (
         AB,
-        AD,
         ADC,
         ADO,
         ADP,
@@ -51,11 +50,8 @@ if TYPE_CHECKING:
         OF,
         SF,
         SR,
-        TA,
         TD,
-        TF,
         TF_MD5,
-        TO,
         TO_C,
         TO_CMNP,
         TO_N,
@@ -78,14 +74,12 @@ if TYPE_CHECKING:
         Code21,
         Code22,
         Constant,
-        Coordinate,
         CoordinateI,
         CoordinateJ,
         CoordinateX,
         CoordinateY,
         Div,
         Dnn,
-        Expression,
         File,
         Invalid,
         Mul,
@@ -158,10 +152,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_ab_open(node)
 
-    def on_ad(self, node: AD) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ad(node)
-
     def on_adc(self, node: ADC) -> ADC:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_adc(node)
@@ -206,10 +196,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_sr_open(node)
 
-    def on_ta(self, node: TA) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ta(node)
-
     def on_ta_user_name(self, node: TA_UserName) -> TA_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_ta_user_name(node)
@@ -234,10 +220,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_td(node)
 
-    def on_tf(self, node: TF) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_tf(node)
-
     def on_tf_user_name(self, node: TF_UserName) -> TF_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_tf_user_name(node)
@@ -284,10 +266,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_tf_md5(node)
 
-    def on_to(self, node: TO) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_to(node)
-
     def on_to_user_name(self, node: TO_UserName) -> TO_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_to_user_name(node)
@@ -488,10 +466,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_constant(node)
 
-    def on_expression(self, node: Expression) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_expression(node)
-
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_parenthesis(node)
@@ -504,10 +478,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_variable(node)
 
-    def on_coordinate(self, node: Coordinate) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_coordinate(node)
-
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_coordinate_x(node)
@@ -604,10 +574,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_file(node)
 
-    def on_end_of_file(self, node: File) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_end_of_file(node)
-
     def on_invalid(self, node: Invalid) -> Invalid:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_invalid(node)
-- 
2.43.0


From b676eec95ee9eab232fc9069e1d47c0395b9e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:26 +0000
Subject: [PATCH 43/57] fix: include the last character before MD5 attribute in
 the hash

When the attribute was not preceded by a line end, the last character of the
preceding command was left out and valid hashes were refused.
---
 src/pygerber/gerber/ast/nodes/attribute/TF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TF.py b/src/pygerber/gerber/ast/nodes/attribute/TF.py
index e16002f..eece283 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TF.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TF.py
@@ -225,7 +225,7 @@ class TF_MD5(TF):  # noqa: N801
             raise SourceNotAvailableError(self)
 
         source = (
-            self.source_info.source[: self.source_info.location - 1]
+            self.source_info.source[: self.source_info.location]
             .replace("\n", "")
             .replace("\r", "")
             .encode("utf-8")
-- 
2.43.0


From 38c24224706e55f96209316690d3f3b74d6fd1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 44/57] fix: infer file type again after parser options change

Type inferred from attributes of file parsed with previous options was kept.
---
 src/pygerber/gerber/api/_gerber_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index b36b602..0040a6e 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -403,6 +403,7 @@ class GerberFile:
     ) -> None:
         self._source_code = source_code
         self._file_type = file_type
+        self._requested_file_type = file_type
         self._parser_options: dict[str, Any] = {}
         self._compiler_options: dict[str, Any] = {}
         self._cached_ast: Optional[File] = None
@@ -425,6 +426,8 @@ class GerberFile:
         self._cached_ast = None
         self._cached_rvmc = None
         self._cached_final_state = None
+        # Type inferred from attributes depends on how source code was parsed.
+        self._file_type = self._requested_file_type
 
     @classmethod
     def from_file(
-- 
2.43.0


From 5f5a5281b6a0955b171d54e550948a58cd481827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:44 +0000
Subject: [PATCH 45/57] fix: recognize file types given in command line by name

NON_PLATED was the only name different from enum value, it was silently replaced
with UNDEFINED.
---
 src/pygerber/console/gerber.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c8e88ee..825e560 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -144,7 +144,7 @@ def png(
 ) -> None:
     """Convert Gerber image file to PNG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -231,7 +231,7 @@ def jpeg(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to JPEG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -299,7 +299,7 @@ def tiff(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to TIFF image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -336,7 +336,7 @@ def bmp(
 ) -> None:
     """Convert Gerber image file to BMP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -387,7 +387,7 @@ def webp(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to WEBP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -419,7 +419,7 @@ if is_shapely_available():
     ) -> None:
         """Convert Gerber image file to SVG image."""
         style_obj = _sanitize_style(style, foreground, background)
-        file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
         if implementation.lower() == "shapely":
             result = file.render_with_shapely(style_obj)
@@ -529,7 +529,7 @@ def merge_convert_png(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
@@ -563,7 +563,7 @@ def merge_convert_jpeg(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
-- 
2.43.0


From 17b87889327822b292276c6baa32110413e184f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:44 +0000
Subject: [PATCH 46/57] fix: leave output file untouched when formatting fails

---
 src/pygerber/console/gerber.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 825e560..6946b31 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -497,8 +497,12 @@ def format_cmd(
     output_path = Path(output)
     file = GerberFile.from_file(source)
 
-    with output_path.open("w") as f:
-        file.format(f, options=options)
+    # Format before opening output file, otherwise it would be truncated when formatting
+    # fails, possibly destroying source file when formatting in place.
+    formatted = file.formats(options=options)
+
+    with output_path.open("w", encoding="utf-8") as f:
+        f.write(formatted)
 
 
 @gerber.group("merge-convert")
-- 
2.43.0


From 03b7fd9440d63636400cc73e0ccec871545058de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 47/57] fix: visualize counterclockwise arcs as such in hover

---
 src/pygerber/gerber/language_server/_server/hover/gerber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 17c2ca9..66c3c9e 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -20,6 +20,7 @@ from pygerber.gerber.ast.nodes import (
     FS,
     G01,
     G02,
+    G03,
     G74,
     G75,
     LM,
@@ -446,7 +447,7 @@ class GerberHoverCreator(AstVisitor):
             {
                 PlotMode.LINEAR: G01(),
                 PlotMode.ARC: G02(),
-                PlotMode.CCW_ARC: G02(),
+                PlotMode.CCW_ARC: G03(),
             }[self.state.plot_mode]
         )
         nodes.append(
-- 
2.43.0


From ce2cd608ce9094c45bc4562c152c66d1169af5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 48/57] fix: visualize block apertures in hover

---
 .../gerber/language_server/_server/hover/gerber.py     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 66c3c9e..7af9219 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -24,6 +24,7 @@ from pygerber.gerber.ast.nodes import (
     G74,
     G75,
     LM,
+    LP,
     LR,
     LS,
     M02,
@@ -429,6 +430,11 @@ class GerberHoverCreator(AstVisitor):
         )
 
         nodes.append(MO(mode=self.state.unit_mode))
+        nodes.extend(self.state.apertures.macros.values())
+        nodes.extend(self.state.apertures.apertures.values())
+        # Commands in blocks alter graphics state, so blocks must come before it is set.
+        nodes.extend(self.state.apertures.blocks.values())
+        nodes.append(LP(polarity=Polarity.Dark))
         nodes.append(
             D02(
                 x=CoordinateX(
@@ -439,10 +445,6 @@ class GerberHoverCreator(AstVisitor):
                 ),
             )
         )
-        nodes.extend(self.state.apertures.macros.values())
-        nodes.extend(self.state.apertures.apertures.values())
-        nodes.extend(self.state.apertures.macros.values())
-
         nodes.append(
             {
                 PlotMode.LINEAR: G01(),
-- 
2.43.0


From 20f1476c0b964b6a15f7a4e108a4db475770c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 49/57] fix: complete commands in files without apertures

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 85acf52..e52f07c 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -360,8 +360,11 @@ class ApertureStorage(_StateModel):
         """Get next free aperture code."""
         return (
             max(
-                int(aperture_id.lstrip("D"))
-                for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                (
+                    int(aperture_id.lstrip("D"))
+                    for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                ),
+                default=9,
             )
             + 1
         )
-- 
2.43.0


From 31786e0ec9c2c250d4e20191bcbef0422b3f0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 50/57] fix: show center of arc in hover instead of its offset
 from start

---
 .../language_server/_server/hover/gerber.py   | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 7af9219..4c2ba08 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -333,6 +333,26 @@ class GerberHoverCreator(AstVisitor):
             f"{message} &nbsp;&nbsp;&nbsp; _x =_ `{x_value}` _y =_ `{y_value}`"
         )
 
+    def _append_arc_center(
+        self, i: Optional[Coordinate], j: Optional[Coordinate]
+    ) -> None:
+        if self.state.arc_interpolation == ArcInterpolation.SINGLE_QUADRANT:
+            # Signs of offsets are not known in single quadrant mode.
+            self._append_xy("Arc center offset:", i, j)
+            return
+
+        fmt = self.state.coordinate_format
+        if fmt is None:
+            return
+
+        x_value = self.state.current_x + (fmt.unpack_x(i.value) if i else 0.0)
+        y_value = self.state.current_y + (fmt.unpack_y(j.value) if j else 0.0)
+
+        self._sep()
+        self._print_line(
+            f"Arc center at: &nbsp;&nbsp;&nbsp; _x =_ `{x_value}` _y =_ `{y_value}`"
+        )
+
     def _current_aperture(self) -> None:
         self._print(f"`Aperture: {self.state.current_aperture_id}`")
 
@@ -498,7 +518,7 @@ class GerberHoverCreator(AstVisitor):
         )
 
         if self.state.plot_mode != PlotMode.LINEAR:
-            self._append_xy("Arc center at:", node.i, node.j)
+            self._append_arc_center(node.i, node.j)
 
         self._sep()
         self._current_aperture()
-- 
2.43.0


From 9ec11584f13f2dc5528c8806fa17e595b7cd0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 51/57] fix: consider commands in the same block when creating
 hover

---
 .../language_server/_server/hover/gerber.py   | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 4c2ba08..400339a 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -9,6 +9,7 @@ from typing import TYPE_CHECKING, Generator, Optional, cast
 from pygerber.gerber import formatter
 from pygerber.gerber.ast.ast_visitor import AstVisitor
 from pygerber.gerber.ast.nodes import (
+    AB,
     AD,
     ADC,
     ADO,
@@ -29,6 +30,7 @@ from pygerber.gerber.ast.nodes import (
     LS,
     M02,
     MO,
+    SR,
     TA,
     TD,
     TF,
@@ -95,14 +97,8 @@ class LimitedStateTrackingVisitor(StateTrackingVisitor):
         with suppress(ProgramStop):
             try:
                 for command in node.nodes:
-                    source_info = command.source_info
-                    assert source_info is not None
-
-                    if source_info.end_location > self.max_location:
-                        raise ProgramStop(M02())
-
                     try:
-                        command.visit(self)
+                        self._visit_before_max_location(command)
                     except Exception as e:
                         if self.on_exception(command, e):
                             raise
@@ -111,6 +107,21 @@ class LimitedStateTrackingVisitor(StateTrackingVisitor):
 
         return node
 
+    def _visit_before_max_location(self, command: Node) -> None:
+        source_info = command.source_info
+        assert source_info is not None
+
+        if source_info.end_location <= self.max_location:
+            command.visit(self)
+            return
+
+        # Only part of a block may be located before max_location.
+        if isinstance(command, (AB, SR)) and source_info.location < self.max_location:
+            for inner_command in (command.open, *command.nodes):
+                self._visit_before_max_location(inner_command)
+
+        raise ProgramStop(M02())
+
 
 class ToMarkdown(AstVisitor):
     """Convert Gerber Node to markdown."""
-- 
2.43.0


From 9bd241202bbf871489ed8398e950c05db95791e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 52/57] fix: answer hover requests in documents with incorrect
 commands

---
 .../language_server/_server/hover/gerber.py     | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 400339a..3f117af 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -122,6 +122,10 @@ class LimitedStateTrackingVisitor(StateTrackingVisitor):
 
         raise ProgramStop(M02())
 
+    def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
+        """Skip incorrect commands, edited documents may contain them."""
+        return isinstance(exception, ProgramStop)
+
 
 class ToMarkdown(AstVisitor):
     """Convert Gerber Node to markdown."""
@@ -446,6 +450,15 @@ class GerberHoverCreator(AstVisitor):
         return f'<p align="center"><img src="data:image/png;base64,{encoded_image}" alt="Embedded Image" /></p>'
 
     def _visualize_draw_op(self, extra_commands: list[Node]) -> None:
+        try:
+            tag = self._render_draw_op(extra_commands)
+        except Exception:  # noqa: BLE001
+            # Edited documents may contain commands which can't be visualized.
+            tag = "Visualization is not available."
+
+        self._print_line(tag)
+
+    def _render_draw_op(self, extra_commands: list[Node]) -> str:
         nodes: list[Node] = []
         assert self.state.coordinate_format is not None
 
@@ -508,9 +521,7 @@ class GerberHoverCreator(AstVisitor):
         result = render(bytecode, dpmm=dpmm)
         assert isinstance(result, PillowResult)
 
-        tag = self._base64_image_tag(result.get_image(Style.presets.COPPER_ALPHA))
-
-        self._print_line(tag)
+        return self._base64_image_tag(result.get_image(Style.presets.COPPER_ALPHA))
 
     def _spec_ref(self, bullets: str) -> None:
         self._sep()
-- 
2.43.0


From 697afd69256cab8db0692da6ece26ab6503ecd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 53/57] fix: answer completion requests in documents with
 incorrect commands

---
 .../language_server/_server/documents/gerber.py    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/documents/gerber.py b/src/pygerber/gerber/language_server/_server/documents/gerber.py
index f782d09..26bd698 100644
--- a/src/pygerber/gerber/language_server/_server/documents/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/documents/gerber.py
@@ -6,7 +6,7 @@ from io import StringIO
 from typing import Optional
 
 from pygerber.gerber.ast.node_finder import NodeFinder, ZeroBasedPosition
-from pygerber.gerber.ast.nodes import File, Invalid
+from pygerber.gerber.ast.nodes import File, Invalid, Node
 from pygerber.gerber.ast.state_tracking_visitor import State, StateTrackingVisitor
 from pygerber.gerber.formatter import Formatter
 from pygerber.gerber.language_server._server.documents.document import Document
@@ -24,6 +24,16 @@ def sha256(s: str) -> str:
     return hashlib.sha256(s.encode("utf-8")).hexdigest()
 
 
+class ResilientStateTrackingVisitor(StateTrackingVisitor):
+    """The `ResilientStateTrackingVisitor` class skips incorrect commands, edited
+    documents may contain them.
+    """
+
+    def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
+        """Handle exception."""
+        return False
+
+
 class GerberDocument(Document):
     """The `GerberDocument` class represents a single Gerber X3 document."""
 
@@ -173,7 +183,7 @@ class GerberDocument(Document):
     def get_gerber_state(self) -> Optional[State]:
         """Get the state of the document."""
         if self.state is None:
-            visitor = StateTrackingVisitor(ignore_program_stop=True)
+            visitor = ResilientStateTrackingVisitor(ignore_program_stop=True)
             if self.ast is None:
                 return None
 
-- 
2.43.0


From f8a25e3f2e5fc280c0eba5a904248a2ef53c78c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 54/57] fix: accept Gerber documents with upper case extensions
 in language server

---
 src/pygerber/gerber/language_server/_server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/language_server/_server/server.py b/src/pygerber/gerber/language_server/_server/server.py
index 3458129..2556e98 100644
--- a/src/pygerber/gerber/language_server/_server/server.py
+++ b/src/pygerber/gerber/language_server/_server/server.py
@@ -34,7 +34,7 @@ def get_server() -> LanguageServer:  # noqa: PLR0915, C901
         if document is not None:
             return document
 
-        wrapped_uri = Path(uri)
+        wrapped_uri = Path(uri.lower())
         if wrapped_uri.match("*.g*"):
             document = GerberDocument(gls)
 
-- 
2.43.0


From b216f6d7f42534c6bc4b519708e5704181eb874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 55/57] fix: positions compared unequal or ordered without
 regard to columns

---
 src/pygerber/common/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/common/position.py b/src/pygerber/common/position.py
index 95861f5..c7417a7 100644
--- a/src/pygerber/common/position.py
+++ b/src/pygerber/common/position.py
@@ -54,7 +54,7 @@ class Position:
     def __ne__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line != __value.line and self.column != __value.column
+        return self.line != __value.line or self.column != __value.column
 
     def __gt__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
@@ -66,7 +66,7 @@ class Position:
     def __ge__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line >= __value.line or (
+        return self.line > __value.line or (
             self.line == __value.line and self.column >= __value.column
         )
 
@@ -80,6 +80,6 @@ class Position:
     def __le__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line <= __value.line or (
+        return self.line < __value.line or (
             self.line == __value.line and self.column <= __value.column
         )
-- 
2.43.0


From 13979b6231165119c8a8cf5c82c2c40f4af78841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 56/57] fix: angle between vectors was 360 degrees for vectors
 of equal direction

---
 src/pygerber/vm/commands/shape_segments/arc.py | 3 +++
 src/pygerber/vm/types/vector.py                | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 05b70b5..9baee6d 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -90,6 +90,9 @@ class Arc(ShapeSegment):
             angle_x_minus = 360 - angle_x_minus
             angle_y_plus = 360 - angle_y_plus
 
+        # Arc which ends where it starts is a full circle.
+        total_angle = total_angle or 360
+
         if angle_x_plus < total_angle:
             vectors.append(Vector(x=radius, y=0))
         if angle_y_minus < total_angle:
diff --git a/src/pygerber/vm/types/vector.py b/src/pygerber/vm/types/vector.py
index 772dea1..177cfbb 100644
--- a/src/pygerber/vm/types/vector.py
+++ b/src/pygerber/vm/types/vector.py
@@ -126,7 +126,8 @@ class Vector(ModelType):
         >>> e.angle_between(s)
         270.0
         """
-        return 360 - self.angle_between_cc(other)
+        angle_degrees = 360 - self.angle_between_cc(other)
+        return angle_degrees if angle_degrees < 360 else 0.0  # noqa: PLR2004
 
     def angle_between_cc(self, other: Vector) -> float:
         """Calculate counter clockwise angle between two vectors in degrees.
@@ -140,7 +141,9 @@ class Vector(ModelType):
             ((v0.x * v1.x) + (v0.y * v1.y)),  # dot product
         )
         angle_degrees = math.degrees(angle_radians)
-        return angle_degrees + (360 * (angle_degrees < 0))
+        angle_degrees += 360 * (angle_degrees < 0)
+        # Tiny negative angles are rounded up to full angle.
+        return angle_degrees if angle_degrees < 360 else 0.0  # noqa: PLR2004
 
     def normalized(self) -> Vector:
         """Return normalized (unit length) vector."""
-- 
2.43.0


From 9d7601a40d3558d0cf069bf0ab8dd89426a0c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:37 +0000
Subject: [PATCH 57/57] fix: attach aperture attributes to rings of moire
 primitive

---
 src/pygerber/gerber/compiler/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index d83b0e4..212a124 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -991,7 +991,10 @@ class MacroEvalVisitor(AstVisitor):
                 if current_inner_diameter <= 0:
                     shapes.append(
                         Shape.new_circle(
-                            center, current_outer_diameter, is_negative=False
+                            center,
+                            current_outer_diameter,
+                            is_negative=False,
+                            metadata=self._metadata,
                         )
                     )
                     break
@@ -1002,6 +1005,7 @@ class MacroEvalVisitor(AstVisitor):
                         current_outer_diameter,
                         current_inner_diameter,
                         is_negative=False,
+                        metadata=self._metadata,
                     )
                 )
                 current_outer_diameter -= diameter_delta
-- 
2.43.0

