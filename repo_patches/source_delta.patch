From 0dc3b25569f7afb2b75e1d73be5be106e9ea88ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 01/22] fix: write years before 1000 with four digits at year
 and month resolution

---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..54aa91c 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04}-{self.dt.month:02}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From 01af16de46f260ecaad33d6707871b12eb5ee9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:47 +0000
Subject: [PATCH 02/22] fix: read a ScreenOverlay directly inside kml

---
 fastkml/kml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..4d227a9 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -66,6 +67,7 @@ kml_children = Union[
     Placemark,
     GroundOverlay,
     PhotoOverlay,
+    ScreenOverlay,
     NetworkLinkControl,
 ]
 
@@ -300,12 +302,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 9c73ee405c211b8e8983e397cda5e1020ed5761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 03/22] fix: keep track angles aligned when some samples have
 none

---
 fastkml/gx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..31c9553 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -356,7 +356,9 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From 20a4d8d6f30f072c0ce2eec0e6021ba8d45c9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:51 +0000
Subject: [PATCH 04/22] fix: report malformed integer attributes like other
 malformed values

---
 fastkml/helpers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..9eaff48 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -876,7 +876,7 @@ def attribute_int_kwarg(
         node_name (str): The name of the XML node containing the attribute.
         kwarg (str): The name of the keyword argument to store the extracted attribute.
         classes (Tuple[Type[object], ...]): A tuple of known types (unused).
-        strict (bool): A flag indicating whether to raise an exception (unused).
+        strict (bool): A flag indicating whether to raise an exception.
 
     Returns:
     -------
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From e32a98e0147e7407cdf9d87a26bd4b7fe60470a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:53 +0000
Subject: [PATCH 05/22] fix: do not modify the caller's name_spaces in
 KML.parse

---
 fastkml/kml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 4d227a9..fa9136c 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -239,10 +239,9 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = {**config.NAME_SPACES, **(name_spaces or {})}
         if ns:
             name_spaces["kml"] = ns
-        name_spaces = {**config.NAME_SPACES, **name_spaces}
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
-- 
2.43.0


From 3895721ac4c99cc214b06f10c00fbdbdc7f57915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:56 +0000
Subject: [PATCH 06/22] fix: look for lists of child elements in every
 registered namespace

---
 fastkml/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 9eaff48..4746a74 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1300,4 +1300,4 @@ def xml_subelement_list_kwarg(
                     for subelement in subelements
                 ],
             )
-    return {kwarg: args_list}
+    return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From 48aa3d229fc75a5f3cd1aa513993c23af5cca564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:44 +0000
Subject: [PATCH 07/22] fix: compare the altitude mode of line strings, rings
 and polygons

---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..907e8f0 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -639,6 +639,7 @@ class LineString(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
@@ -1123,6 +1124,7 @@ class Polygon(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
-- 
2.43.0


From 5ec6b7fc919fabf30db169ef15f1b34175d004ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:46 +0000
Subject: [PATCH 08/22] fix: line strings and rings with wrong coordinate
 dimensions have no geometry

---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 907e8f0..eede19a 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -662,7 +662,7 @@ class LineString(_Geometry):
             return None
         try:
             return geo.LineString.from_coordinates(self.kml_coordinates.coords)
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
@@ -802,7 +802,7 @@ class LinearRing(LineString):
                 geo.LinearRing,
                 geo.LinearRing.from_coordinates(self.kml_coordinates.coords),
             )
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
-- 
2.43.0


From edbc552fa4b56bdb8556a4e37f1bafd900d82bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:48 +0000
Subject: [PATCH 09/22] fix: keep the samples of a track aligned when a time or
 coordinate is unusable

---
 fastkml/gx.py      |  3 ++-
 fastkml/helpers.py | 56 ++++++++++++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 31c9553..37a233d 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -250,7 +250,7 @@ class Track(_Geometry):
             If both `geometry` and `track_items` are specified.
 
         """
-        angles = list(angles) if angles else []
+        angles = [angle for angle in angles if angle] if angles else []
         if (whens or coords) and track_items:
             msg = "Cannot specify both geometry and track_items"
             raise ValueError(msg)
@@ -267,6 +267,7 @@ class Track(_Geometry):
                     angles,
                     fillvalue=(),
                 )
+                if when and coord
             ]
         self.track_items = list(track_items) if track_items else []
         self.extended_data = extended_data
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 4746a74..3aa5392 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1147,17 +1147,22 @@ def datetime_subelement_list_kwarg(
     kwarg: str,
     classes: Tuple[Type[object], ...],
     strict: bool,
-) -> Dict[str, List["KmlDateTime"]]:
-    """Extract a list of KML datetime values from subelements of an XML element."""
-    args_list: List[KmlDateTime] = []
+) -> Dict[str, List[Optional["KmlDateTime"]]]:
+    """
+    Extract a list of KML datetime values from subelements of an XML element.
+
+    Missing and invalid values are None, to keep the position of the other values.
+    """
+    args_list: List[Optional[KmlDateTime]] = []
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
+            value = None
+            node_text = subelement.text.strip() if subelement.text else ""
             try:
-                args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
-                )
-            except ValueError as exc:  # noqa: PERF203
+                if node_text:
+                    value = cls.parse(node_text)  # type: ignore[attr-defined]
+            except ValueError as exc:
                 handle_error(
                     error=exc,
                     strict=strict,
@@ -1165,6 +1170,7 @@ def datetime_subelement_list_kwarg(
                     node=subelement,
                     expected="DateTime",
                 )
+            args_list.append(value)
     return {kwarg: args_list} if args_list else {}
 
 
@@ -1173,22 +1179,28 @@ def get_coord_args(
     subelements: Iterable[Element],
     strict: bool,  # noqa: FBT001
 ) -> Iterable[PointType]:
-    """Extract a list of KML coordinate values from subelements of an XML element."""
+    """
+    Extract a list of KML coordinate values from subelements of an XML element.
+
+    Missing and invalid values are empty, to keep the position of the other values.
+    """
     for subelement in subelements:
-        if subelement.text:
-            try:
-                yield cast(
-                    PointType,
-                    tuple(float(coord) for coord in subelement.text.split()),
-                )
-            except ValueError as exc:
-                handle_error(
-                    error=exc,
-                    strict=strict,
-                    element=element,
-                    node=subelement,
-                    expected="Coordinates",
-                )
+        coords: Tuple[float, ...] = ()
+        try:
+            coords = tuple(float(coord) for coord in (subelement.text or "").split())
+            if len(coords) not in (0, 2, 3):
+                msg = f"Invalid number of values '{subelement.text}'"
+                raise ValueError(msg)  # noqa: TRY301
+        except ValueError as exc:
+            coords = ()
+            handle_error(
+                error=exc,
+                strict=strict,
+                element=element,
+                node=subelement,
+                expected="Coordinates",
+            )
+        yield cast(PointType, coords)
 
 
 def coords_subelement_list_kwarg(
-- 
2.43.0


From 3dc9f2aed02da52050f4190aef15f6edb36054b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:50 +0000
Subject: [PATCH 10/22] fix: do not use a cached lxml schema with another etree
 implementation

---
 fastkml/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..0c60aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,10 +130,9 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
-    try:
-        schema_parser = get_schema_parser(schema)
-    except AttributeError:
+    if not hasattr(config.etree, "XMLSchema"):
         return None
+    schema_parser = get_schema_parser(schema)
 
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
-- 
2.43.0


From eb0f6e42825fefb2346e593ff4df384aa5332a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:11 +0000
Subject: [PATCH 11/22] fix: do not cut text off at a comment or processing
 instruction

---
 fastkml/base.py | 6 +++++-
 fastkml/kml.py  | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..b1115ca 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -441,12 +441,16 @@ class _XMLObject:
         name_spaces = name_spaces or {}
         name_spaces = {**config.NAME_SPACES, **name_spaces}
         ns = cls._get_ns(ns, name_spaces=name_spaces)
+        try:
+            parser = config.etree.XMLParser(remove_comments=True, remove_pis=True)
+        except TypeError:
+            parser = None
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
             element=cast(
                 Element,
-                config.etree.fromstring(string),
+                config.etree.fromstring(string, parser=parser),
             ),
         )
diff --git a/fastkml/kml.py b/fastkml/kml.py
index fa9136c..1bcc43b 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -103,6 +103,8 @@ def lxml_parse_and_validate(
         parser=config.etree.XMLParser(
             huge_tree=True,
             recover=True,
+            remove_comments=True,
+            remove_pis=True,
         ),
     )
     if validate:
-- 
2.43.0


From 726ed891ae37a99cfd674b9c67b851c0a749591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 12/22] fix: a style url without a fragment does not match
 styles without an id

---
 fastkml/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..d5ee8a2 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -316,6 +316,8 @@ class Document(_Container):
 
         """
         id_ = urlparse.urlparse(style_url).fragment
+        if not id_:
+            return None
         return next(
             find_all(  # type: ignore[arg-type]
                 self,
-- 
2.43.0


From fc435d08b1e64f2634bcdf219ee0ded475d4d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 13/22] fix: do not read a date without a month as a year

'2020--01' was accepted and silently became the year 2020.
---
 fastkml/times.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 54aa91c..8bcc9fa 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -51,7 +51,7 @@ __all__ = [
 # year and month may be separated by an optional dash
 # year is always 4 digits, month, day is always 2 digits
 year_month_day = re.compile(
-    r"^(?P<year>\d{4})(?:-)?(?P<month>\d{2})?(?:-)?(?P<day>\d{2})?$",
+    r"^(?P<year>\d{4})(?:-?(?P<month>\d{2})(?:-?(?P<day>\d{2}))?)?$",
 )
 
 
-- 
2.43.0


From 060f4534aad890bad0fcdec8b69bb4365913387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:21 +0000
Subject: [PATCH 14/22] fix: a track with coordinates of different dimensions
 has no geometry

It raised a DimensionError where a line string with the same coordinates
has no geometry.
---
 fastkml/gx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 37a233d..4953d24 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -90,6 +90,7 @@ from typing import Tuple
 from typing import cast
 
 import pygeoif.geometry as geo
+from pygeoif.exceptions import DimensionError
 from pygeoif.types import PointType
 
 from fastkml import config
@@ -314,7 +315,10 @@ class Track(_Geometry):
             The geometry of the track.
 
         """
-        return track_items_to_geometry(self.track_items)
+        try:
+            return track_items_to_geometry(self.track_items)
+        except DimensionError:
+            return None
 
     @property
     def whens(self) -> Tuple[KmlDateTime, ...]:
-- 
2.43.0


From 5088aac18288b2fa4f866f5c629e16f7400a189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 15/22] fix: keep the namespace of a geometry element for its
 coordinates and boundaries

---
 fastkml/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index eede19a..3243a91 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -415,7 +415,11 @@ class Point(_Geometry):
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None and geometry:
             kml_coordinates = (
-                Coordinates(coords=geometry.coords)  # type: ignore[arg-type]
+                Coordinates(
+                    ns=ns,
+                    name_spaces=name_spaces,
+                    coords=geometry.coords,  # type: ignore[arg-type]
+                )
                 if geometry
                 else None
             )
@@ -591,7 +595,11 @@ class LineString(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None:
-            kml_coordinates = Coordinates(coords=geometry.coords) if geometry else None
+            kml_coordinates = (
+                Coordinates(ns=ns, name_spaces=name_spaces, coords=geometry.coords)
+                if geometry
+                else None
+            )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
         self.tessellate = tessellate
@@ -1037,9 +1045,14 @@ class Polygon(_Geometry):
         if outer_boundary is not None and geometry is not None:
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
-            outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
+            outer_boundary = OuterBoundaryIs(
+                ns=ns,
+                name_spaces=name_spaces,
+                geometry=geometry.exterior,
+            )
             inner_boundaries = [
-                InnerBoundaryIs(geometry=interior) for interior in geometry.interiors
+                InnerBoundaryIs(ns=ns, name_spaces=name_spaces, geometry=interior)
+                for interior in geometry.interiors
             ]
         self.outer_boundary = outer_boundary
         self.inner_boundaries = list(inner_boundaries) if inner_boundaries else []
-- 
2.43.0


From 52d97b8b8d30da219191220624292f01d456ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 16/22] fix: a track coordinate that is not a number makes no
 sample

---
 fastkml/gx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 4953d24..0ca8b25 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -268,7 +268,7 @@ class Track(_Geometry):
                     angles,
                     fillvalue=(),
                 )
-                if when and coord
+                if when and coord and geo.Point(*coord)
             ]
         self.track_items = list(track_items) if track_items else []
         self.extended_data = extended_data
-- 
2.43.0


From a2c3126282002f9d419ee2cb17d4e2add1723bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 17/22] fix: a blank schema id is no id

---
 fastkml/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/data.py b/fastkml/data.py
index 573ca07..3c62e0f 100644
--- a/fastkml/data.py
+++ b/fastkml/data.py
@@ -240,7 +240,7 @@ class Schema(_XMLObject):
             If the id is not provided.
 
         """
-        if not id:
+        if not clean_string(id):
             msg = "Id is required for schema"
             raise KMLSchemaError(msg)
         super().__init__(
-- 
2.43.0


From 7aa95bc633589d0c88a276370ca3f92ee778da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:05 +0000
Subject: [PATCH 18/22] fix: nested multi-geometries take time in proportion to
 their depth

The geometry of each child was computed twice at every level, so that the
truth and the writing of nested MultiGeometries took exponential time.
---
 fastkml/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 3243a91..be5d7ac 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1351,9 +1351,8 @@ class MultiGeometry(_BaseObject):
     @property
     def geometry(self) -> Optional[MultiGeometryType]:
         """Return the geometry of the MultiGeometry."""
-        return create_multigeometry(
-            [geom.geometry for geom in self.kml_geometries if geom.geometry],
-        )
+        geometries = (geom.geometry for geom in self.kml_geometries)
+        return create_multigeometry([geom for geom in geometries if geom])
 
 
 registry.register(
-- 
2.43.0


From 5da75e4c5ba0849f224be5794d33e36a0fb3bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 19/22] fix: overlays take attributes that were registered for
 them

Every other element passes additional keyword arguments on to its base class;
an overlay raised a TypeError on them, so that a mapping registered for an
overlay could neither be set nor read.
---
 fastkml/overlays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..c8b8fd8 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -194,6 +195,8 @@ class _Overlay(_Feature):
             The draw order of the overlay.
         icon : Optional[Icon]
             The icon associated with the overlay.
+        **kwargs : Any
+            Additional keyword arguments.
 
         Returns
         -------
@@ -220,6 +223,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From 742acc8d1bb5888fea94739e5eac5305c4964af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:55 +0000
Subject: [PATCH 20/22] fix: write what is registered for the kml element

Mappings registered for KML were read, but never written: only the features
were.
---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 1bcc43b..aae99f0 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -189,15 +189,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From 5037e527cc3e75d621001a50183952e6a9f553f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 21/22] fix: compare additional attributes of geometries like
 all others

Comparing a point, line string or polygon that has an additional attribute
with one that has not raised an AttributeError, or ignored the attribute,
depending on the order.
---
 fastkml/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index be5d7ac..1914eff 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -471,14 +471,13 @@ class Point(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the Point objects are equal."""
         if isinstance(other, Point):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -642,7 +641,7 @@ class LineString(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
         if isinstance(other, LineString):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -650,7 +649,6 @@ class LineString(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -1132,7 +1130,7 @@ class Polygon(_Geometry):
     def __eq__(self, other: object) -> bool:
         """Check if the Polygon objects are equal."""
         if isinstance(other, Polygon):
-            return all(
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -1140,7 +1138,6 @@ class Polygon(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
-- 
2.43.0


From 6d3696d6dff7a47db2ab9917822558560270a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:35 +0000
Subject: [PATCH 22/22] fix: say what is wrong with an invalid element inside a
 larger document

The paths in the log of the schema are relative to the element that was
validated, not to the root of the document it stands in.
---
 fastkml/validator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 0c60aac..b3025cd 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -80,11 +80,14 @@ def handle_validation_error(
 
     """
     log = schema_parser.error_log
+    # the paths are relative to the element, which may be part of a larger document
+    tree = (
+        element if hasattr(element, "getroot") else config.etree.ElementTree(element)
+    )
     for error_entry in log:
         try:
-            parent = element.xpath(error_entry.path)[  # type: ignore[attr-defined]
-                0
-            ].getparent()
+            node = tree.xpath(error_entry.path)[0]
+            parent = None if node is element else node.getparent()
         except config.etree.XPathEvalError:
             parent = element
         if parent is None:
-- 
2.43.0

