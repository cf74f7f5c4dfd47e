From e05260bc0b8828bd381a99c093c3887a16866406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:25 +0000
Subject: [PATCH 01/52] fix: Vector.value setter left the previous members in
 the tag

---
 sangfroid/value/vector.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 6cb34ce..7a5b3ce 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -57,12 +57,11 @@ class Vector(Value):
             else:
                 self._raise_type_error()
         elif hasattr(v, 'items'):
-            members = v
+            members = dict(v.items())
         else:
             self._raise_type_error()
 
-        self._tag.name = self.TAG_NAME
-        self._tag.attrs = {}
+        addenda = []
 
         for k, v in members.items():
             addendum = bs4.element.Tag(name=k)
@@ -70,6 +69,13 @@ class Vector(Value):
                 addendum.string = '%.010f' % (v,)
             else:
                 addendum.string = str(v)
+            addenda.append(addendum)
+
+        self._tag.name = self.TAG_NAME
+        self._tag.attrs = {}
+        self._tag.clear()
+
+        for addendum in addenda:
             self._tag.append(addendum)
 
     def __getitem__(self, key):
-- 
2.43.0


From f32a3060056011085731af582317f4624caeb21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:28 +0000
Subject: [PATCH 02/52] fix: setters of String, Gradient, Composite and Canvas
 cleared the old value before checking the new one, and left <animated> behind

---
 sangfroid/value/canvas.py         | 10 +++++++---
 sangfroid/value/gradient.py       |  7 ++++++-
 sangfroid/value/string.py         |  5 ++++-
 sangfroid/value/transformation.py |  7 ++++++-
 sangfroid/value/value.py          | 10 ++++++++++
 5 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 3d5856a..36ab8b7 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -26,10 +26,14 @@ class Canvas(Value):
 
         from sangfroid.layer.layer import Layer
 
-        self._tag.clear()
+        layers = list(v)
 
-        for layer in v:
+        for layer in layers:
             if not isinstance(layer, Layer):
                 raise TypeError(type(layer))
-            self._tag.append(layer)
+
+        self._reset_tag()
+
+        for layer in layers:
+            self._tag.append(layer.tag)
             self._tag.append("\n")
diff --git a/sangfroid/value/gradient.py b/sangfroid/value/gradient.py
index 308dd0f..fd932bb 100644
--- a/sangfroid/value/gradient.py
+++ b/sangfroid/value/gradient.py
@@ -27,12 +27,17 @@ class Gradient(Value):
         if len(v)<2:
             self._raise_colour_count_error()
 
-        self._tag.clear()
+        colour_tags = []
 
         for pos, colour in sorted(v.items()):
 
             colour_tag = Color(colour).tag
             colour_tag['pos'] = '%.06g' % (pos,)
+            colour_tags.append(colour_tag)
+
+        self._reset_tag()
+
+        for colour_tag in colour_tags:
             self._tag.append(colour_tag)
 
     def _raise_colour_count_error(self):
diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 4e9a420..b390bed 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -13,7 +13,10 @@ class String(Value):
 
     @value.setter
     def value(self, v):
-        self._tag.string = str(v)
+        v = str(v)
+
+        self._reset_tag()
+        self._tag.string = v
 
     def as_python_expression(self):
         return repr(self.value)
diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 4d23e79..a72c08a 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,7 +66,7 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
-        self.tag.clear()
+        subtags = []
 
         for remaining, v in new_value.items():
 
@@ -75,6 +75,11 @@ class Composite(Value):
             new_subtag = bs4.Tag(name=remaining)
             new_subtag.append(copy(v_as_value.tag))
             new_subtag.append("\n")
+            subtags.append(new_subtag)
+
+        self._reset_tag()
+
+        for new_subtag in subtags:
             self.tag.append(new_subtag)
 
     def __getattr__(self, key):
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 2f83224..914cfe7 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -28,6 +28,16 @@ class Value:
         result = bs4.Tag(name=name)
         return result
 
+    def _reset_tag(self):
+        """
+        Makes our tag the same as that of a new, empty value.
+        """
+        empty = self._get_empty_tag()
+
+        self._tag.name = empty.name
+        self._tag.attrs = empty.attrs
+        self._tag.clear()
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From 4a4eefc4c159f537a46bf6a553589bf374bed4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:31 +0000
Subject: [PATCH 03/52] fix: assigning to a shortcut field deleted the other
 keys of the upstream field

---
 sangfroid/field.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index bb1b3e1..2252bc9 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -321,10 +321,7 @@ class ShortcutField(Field):
         return result
 
     def __set__(self, obj, value):
-        self.upstream.__set__(obj,
-                              {
-                                  self.name: value,
-                                  })
+        self.__get__(obj).value = value
 
     """
     Decorator. Imports all the keys of the named field as
-- 
2.43.0


From 731e07b64df01629a1ddc9027f818c6a1ee39517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:34 +0000
Subject: [PATCH 04/52] fix: an empty <string> read as 'None'

---
 sangfroid/value/string.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index b390bed..f2fe323 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -8,6 +8,9 @@ class String(Value):
 
     @property
     def value(self):
+        if len(self._tag.contents)==0:
+            return ''
+
         result = str(self._tag.string)
         return result
 
-- 
2.43.0


From 58ef06a32fd7344712e1798d193377b157a95fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:00 +0000
Subject: [PATCH 05/52] fix: a composite value could be assigned with keys
 missing, after which it couldn't be read

---
 sangfroid/value/transformation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index a72c08a..6a94783 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -66,6 +66,10 @@ class Composite(Value):
                     f"We can accept: "
                     f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")
 
+        for k in self.REQUIRED_KEYS or ():
+            if k not in new_value.keys():
+                raise KeyError(f"{k} is missing from the new value.")
+
         subtags = []
 
         for remaining, v in new_value.items():
-- 
2.43.0


From ffe1a878d97bec66aaa183d1d8b62ea27ca422dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:03 +0000
Subject: [PATCH 06/52] fix: assigning an animated value to a String stored the
 text '(animated)'

---
 sangfroid/value/string.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index f2fe323..74c8d15 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -16,6 +16,9 @@ class String(Value):
 
     @value.setter
     def value(self, v):
+        if isinstance(v, Value) and v.is_animated:
+            raise ValueError("You can't use an animated value as a string.")
+
         v = str(v)
 
         self._reset_tag()
-- 
2.43.0


From 2c30ae4ae4995bd7cfb7298e558407b0d61d4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:06 +0000
Subject: [PATCH 07/52] fix: reading a blend_method attribute raised
 AssertionError, and constructing a BlendMethod from a tag changed the tag

---
 sangfroid/field.py             |  2 +-
 sangfroid/value/blendmethod.py | 15 +++++++++------
 sangfroid/value/simple.py      |  7 ++-----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 2252bc9..328c799 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -227,7 +227,7 @@ class ParamTagField(Field):
                     f"{obj.tag}\n\n"
                     f"contains {len(contents)}.")
 
-        result = v.Value.from_tag(contents[0])
+        result = self.type_.from_tag(contents[0])
         return result
 
     def __get__(self, obj, obj_type=None):
diff --git a/sangfroid/value/blendmethod.py b/sangfroid/value/blendmethod.py
index 23f360c..c5a8bfe 100644
--- a/sangfroid/value/blendmethod.py
+++ b/sangfroid/value/blendmethod.py
@@ -30,16 +30,19 @@ class BlendMethod(Integer):
     
     ### }}}
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+    @classmethod
+    def _get_empty_tag(cls, name=None):
+        result = super()._get_empty_tag(name)
+        result['static'] = 'true'
+        return result
 
-        self._tag['static'] = 'true'
-        self._tag.name = 'integer'
+    @classmethod
+    def get_name_for_tag(cls):
+        return 'integer'
 
     @classmethod
     def from_tag(cls, t):
-        v = Integer.from_tag(t)
-        return cls(v.value)
+        return cls(Integer.from_tag(t).tag)
 
     def as_python_expression(self):
         return 'v.'+str(self)
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 9c1f0a2..d022de7 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -48,11 +48,8 @@ class Simple(Value):
 
         result = self._value_to_str(result)
 
-        self._tag.name = self.get_name_for_tag()
-        self._tag.attrs = {
-                'value': result,
-                }
-        self._tag.clear()
+        self._reset_tag()
+        self._tag['value'] = result
 
     @classmethod
     def _value_to_str(cls, v):
-- 
2.43.0


From 547ce786d7487989c7e9d7df3157b1c8913264a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:09 +0000
Subject: [PATCH 08/52] fix: a Time in a document couldn't be set to a number
 of seconds

---
 sangfroid/layer/layer.py  |  3 +++
 sangfroid/value/simple.py | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index e3ecbd3..ba7b861 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -451,6 +451,9 @@ class _TimeButString(v.Time):
     """
     our_type = str
 
+    def _coerce(self, v):
+        return self.our_type(v)
+
     @classmethod
     def get_name_for_tag(cls):
         return 'time'
diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index d022de7..67f6c96 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -38,7 +38,7 @@ class Simple(Value):
 
         else:
             try:
-                result = self.our_type(v)
+                result = self._coerce(v)
             except TypeError:
                 raise TypeError("I need a value of type "
                                 f"{self.our_type.__name__}, "
@@ -51,6 +51,9 @@ class Simple(Value):
         self._reset_tag()
         self._tag['value'] = result
 
+    def _coerce(self, v):
+        return self.our_type(v)
+
     @classmethod
     def _value_to_str(cls, v):
         return str(v)
@@ -138,6 +141,12 @@ class Angle(Simple):
 class Time(Simple):
     our_type = T
 
+    def _coerce(self, v):
+        return self.our_type(
+                v,
+                ref = self._tag,
+                )
+
     # We don't provide __float__ and __int__ here because
     # they'd be ambiguous between frames and seconds.
 
-- 
2.43.0


From 7a3dc5b7a2110a72272d297cf199d9f162f68dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:12 +0000
Subject: [PATCH 09/52] fix: Halftone3 couldn't be created, because it has a
 field of an unimplemented type

---
 sangfroid/layer/layer.py | 3 +++
 sangfroid/value/tbd.py   | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index ba7b861..6e4ef15 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -377,6 +377,9 @@ class Layer:
                         result[field.name] = value
 
                     elif isinstance(field, ParamTagField):
+                        if field.default is None:
+                            continue
+
                         param = bs4.Tag(name="param")
                         param['name'] = field.name
 
diff --git a/sangfroid/value/tbd.py b/sangfroid/value/tbd.py
index b0c62b9..cdc0b3b 100644
--- a/sangfroid/value/tbd.py
+++ b/sangfroid/value/tbd.py
@@ -9,6 +9,11 @@ class Tbd(Value):
         raise NotImplementedError(
                 f"{self.__class__.__name__} is not yet implemented.")
 
+    @value.setter
+    def value(self, v):
+        raise NotImplementedError(
+                f"{self.__class__.__name__} is not yet implemented.")
+
 @Value.handles_type()
 class Dynamic_List(Tbd):
     pass
-- 
2.43.0


From 76bba9d270bbe6a9da357bc8f5a54c31c010f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:37 +0000
Subject: [PATCH 10/52] fix: equal Ts could have different hashes

---
 sangfroid/t.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 68b7815..ad5b85b 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -282,11 +282,7 @@ class T:
     __repr__ = __str__
 
     def __hash__(self):
-        if self._frames == 0:
-            return 0
-
-        s = (self._frames, self._fps)
-        return hash(s)
+        return hash(self._frames)
 
 # It doesn't matter that you can produce invalid decimals with this regex:
 # that will be discovered when we do the float conversion.
-- 
2.43.0


From 35997c5253720b5822fefa5ef410ce392292937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:40 +0000
Subject: [PATCH 11/52] fix: T's text form could contain an exponent, which T's
 parser misreads

---
 sangfroid/t.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index ad5b85b..1f261b7 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -249,7 +249,7 @@ class T:
 
     def __str__(self):
         if self._fps is None:
-            return '%gf' % (self._frames, )
+            return _plain_decimal(self._frames)+'f'
 
         frames = self._frames
         seconds = abs(self._frames/self._fps)
@@ -268,7 +268,7 @@ class T:
 
         if seconds!=0 or result==[]:
             frames = abs(frames) % self._fps
-            result.append('%gf' % (frames,))
+            result.append(_plain_decimal(frames)+'f')
 
         if self._frames<0:
             minus = '-'
@@ -290,6 +290,10 @@ TIMESPEC_RE = re.compile(
         r'(-?[0-9.]+[hmsf])'
         )
 
+def _plain_decimal(n):
+    # '%g' would give exponents, which aren't part of the notation.
+    return ('%.10f' % (n,)).rstrip('0').rstrip('.')
+
 def _canvas_root(tag):
     parents = tag.find_parents()
 
-- 
2.43.0


From adcd9ec369c336e177dcccfed939604bd2fbdc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:43 +0000
Subject: [PATCH 12/52] fix: a T before the start of the animation turned into
 one near its end when put in a timeline

---
 sangfroid/t.py           | 3 +++
 sangfroid/value/value.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 1f261b7..33285d1 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -94,6 +94,9 @@ class T:
         try:
             if isinstance(value, str):
                 self._frames = self._parse_time_spec(value)
+            elif isinstance(value, T):
+                # this already counts from the start
+                self._frames = value._frames
             else:
                 self._frames = float(value)
 
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 914cfe7..a973c9a 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -315,7 +315,7 @@ class Timeline:
             return T(t, ref = self.parent._tag)
         elif isinstance(t, T):
             if t._fps is None:
-                return T(t._frames, self.parent._tag)
+                return T(t, ref = self.parent._tag)
             else:
                 return t
         else:
-- 
2.43.0


From 752cd3cba797543545f746fa6e6f6ce8c2b79366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:46 +0000
Subject: [PATCH 13/52] fix: negative times with several units, such as '-1m
 5s', weren't read as they're written

---
 sangfroid/t.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index 33285d1..ff765f4 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -161,7 +161,11 @@ class T:
                 ('s', 1),
                 ]:
             if unit in parts:
-                seconds = (seconds or 0.0) + parts[unit]*size
+                amount = parts[unit]*size
+                if seconds and seconds<0 and amount>0:
+                    # the minus sign covers the smaller units too
+                    amount = -amount
+                seconds = (seconds or 0.0) + amount
 
         result = 0.0
 
-- 
2.43.0


From 890746cec54fdf82a7b810016dfa453f7fd620f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:50 +0000
Subject: [PATCH 14/52] fix: T accepted specifications with no unit as zero,
 and times and frame rates which aren't finite

---
 sangfroid/t.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sangfroid/t.py b/sangfroid/t.py
index ff765f4..c7cc238 100644
--- a/sangfroid/t.py
+++ b/sangfroid/t.py
@@ -88,7 +88,7 @@ class T:
         else:
             self._fps = float(root_tag['fps'])
         
-            if self._fps<=0.0:
+            if not 0.0<self._fps<math.inf:
                 raise ValueError(f"FPS must be positive: {self._fps}")
 
         try:
@@ -122,6 +122,9 @@ class T:
 
         assert isinstance(self._frames, float)
 
+        if not math.isfinite(self._frames):
+            raise ValueError(f"Invalid time specification: {value}")
+
     def _parse_time_spec(self, s):
         assert isinstance(s, str)
 
@@ -142,6 +145,8 @@ class T:
         for spec in found:
             if spec.strip()=='':
                 continue
+            elif spec[-1] not in 'hmsf':
+                complain(f"'{spec}' doesn't end with a unit.")
             elif spec[-1] in parts:
                 complain(
                         f"The '{spec[-1]}' part was specified "
-- 
2.43.0


From a24ffa00134377ef6f0e8422879bd7ad33a01175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:34 +0000
Subject: [PATCH 15/52] fix: value.timeline += waypoint raised TypeError after
 adding the waypoint

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index a973c9a..65059c4 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -332,7 +332,7 @@ class Timeline:
         return list(self.parent._waypoints().items())
 
     def __iadd__(self, waypoints):
-        self.add(waypoints,
+        return self.add(waypoints,
             overwrite = True,
                  )
 
-- 
2.43.0


From 5c28fb6eb28cebb55fc02438585ff9ea58cf4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:36 +0000
Subject: [PATCH 16/52] fix: assigning a list of anything to a timeline
 destroyed the value

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 65059c4..ea9079c 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -106,7 +106,7 @@ class Value:
     @timeline.setter
     def timeline(self, v):
 
-        if isinstance(v, list) and all([n for n in v if isinstance(n, Waypoint)]):
+        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
             self._set_waypoints(v)
         elif isinstance(v, dict):
             self.timeline = list(v.values())
-- 
2.43.0


From 966766e59425bbddce884fb86ed6c14904ceba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:41 +0000
Subject: [PATCH 17/52] fix: Timeline.__getitem__ failed on some documents and
 on times given as strings

---
 sangfroid/value/value.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index ea9079c..a0c5797 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -388,15 +388,12 @@ class Timeline:
         return self
 
     def __getitem__(self, time):
-        if 'x_y' in str(self.parent._tag):
-            raise ValueError()
-        for t, wt in self.parent._waypoints().items():
-            if t==time:
-                return wt
-            elif t>time:
-                raise KeyError(time)
-
-        raise KeyError(time)
+        t = self._ensure_fps(time)
+
+        try:
+            return self.parent._waypoints()[t]
+        except KeyError:
+            raise KeyError(time)
 
     def __setitem__(self, t, v):
 
-- 
2.43.0


From 3f69066984939415a8cb561e96920fe69efa609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:43 +0000
Subject: [PATCH 18/52] fix: a timeline change which was refused, or should
 have been, could destroy the timeline

---
 sangfroid/value/value.py | 43 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index a0c5797..afe3f9e 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -181,16 +181,33 @@ class Value:
                     )
             return
 
+        v = sorted(v)
+
+        for left, right in zip(v, v[1:]):
+            if left.time==right.time:
+                raise ValueError("There is more than one waypoint "
+                                 f"at {left.time}.")
+
+        type_name = self._type_name()
+
+        for w in v:
+            if w.value.tag.name!=type_name:
+                raise ValueError(
+                        "Waypoint type must match parent: "
+                        f"parent={type_name}, child={w.value.tag.name}")
+
+        waypoint_tags = [w.tag for w in v]
+
         self._set_animated(
                 whether = True,
                 adjust_contents = False,
                 )
         self._tag.clear()
 
-        for i, w in enumerate(sorted(v)):
+        for i, waypoint_tag in enumerate(waypoint_tags):
             if i!=0:
                 self._tag.append('\n')
-            self._tag.append(w.tag)
+            self._tag.append(waypoint_tag)
 
     def __len__(self):
         return len(self._waypoints())
@@ -205,6 +222,9 @@ class Value:
         Returns:
             str
         """
+        return self._type_name()
+
+    def _type_name(self):
         result = self._tag.name
         if result==Value.ANIMATED:
             result = self._tag['type']
@@ -368,22 +388,14 @@ class Timeline:
                 if old.time==new.time
                 ]
 
-        if overwrite:
-            for old, _ in clashes:
-                del existing[old]
-        elif clashes:
+        if clashes and not overwrite:
             raise ValueError("There are already Waypoints with those "
                              "times in this timeline:\n"
                              f"{clashes}")
 
-        self.parent.is_animated = True
-
         existing |= dict([(w.time, w) for w in waypoints])
 
-        self.parent.tag.clear()
-
-        for w in sorted(existing.values()):
-            self.parent.tag.append(w.tag)
+        self.parent._set_waypoints(existing.values())
 
         return self
 
@@ -415,13 +427,6 @@ class Timeline:
                     ref = self.parent.tag,
                     )
 
-        if not self.parent.is_animated:
-            self.parent._tag.clear()
-            self.parent._set_animated(
-                    whether = True,
-                    adjust_contents = False,
-                    )
-
         waypoints = self.parent._waypoints()
 
         waypoints[t] = new_waypoint
-- 
2.43.0


From 8bc18eaf36bcef6d305cd10cfdaa9caf84ae3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:46 +0000
Subject: [PATCH 19/52] fix: putting a waypoint in a timeline by subscript
 changed the waypoint's own time

---
 sangfroid/value/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index afe3f9e..811241a 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -412,7 +412,7 @@ class Timeline:
         t = self._ensure_fps(t)
 
         if isinstance(v, Waypoint):
-            new_waypoint = v
+            new_waypoint = copy.copy(v)
             new_waypoint.time = t
         elif isinstance(v, self.parent.__class__):
             new_waypoint = Waypoint(
-- 
2.43.0


From 847e630fdd8d48995fdf9c15959d38e0794952d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:49 +0000
Subject: [PATCH 20/52] fix: setting is_animated to False failed on values
 which weren't in a layer

---
 sangfroid/value/value.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 811241a..6ac5158 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -80,22 +80,18 @@ class Value:
 
             if adjust_contents:
                 timeline = self.timeline
-                first_value = timeline.values()[0]
+                first_value = next(iter(timeline), None)
             else:
                 first_value = None
 
-            self._tag.clear()
-
-            new_tag = self._get_empty_tag()
-            self._tag.replace_with(new_tag)
-            self._tag = new_tag
-
             if first_value is not None:
-                old_tag = self._tag
+                new_tag = copy.deepcopy(first_value.value._tag)
+            else:
+                new_tag = self._get_empty_tag()
 
-                self._tag = copy.deepcopy(first_value.value._tag)
-                if old_tag.parent is not None:
-                    old_tag.replace_with(self._tag)
+            if self._tag.parent is not None:
+                self._tag.replace_with(new_tag)
+            self._tag = new_tag
 
     @property
     def timeline(self):
-- 
2.43.0


From 6508174e06e0b03f1ccce51f01781c942c643bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:52 +0000
Subject: [PATCH 21/52] fix: animating a Color rounded it to eight bits per
 channel

---
 sangfroid/value/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index 6ac5158..b272e1a 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -66,7 +66,8 @@ class Value:
         elif whether:
 
             if adjust_contents:
-                former_value = self.value
+                self.value # make sure we can be read
+                former_value = self.__class__(copy.copy(self._tag))
 
             our_type = self._tag.name
             self._tag.attrs = {}
-- 
2.43.0


From 8ede8f1755f9cf157e09319534837310f5e19823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:56 +0000
Subject: [PATCH 22/52] fix: several error paths used names which don't exist

---
 sangfroid/layer/layer.py | 16 ++++++++--------
 sangfroid/util.py        |  6 +++---
 sangfroid/value/value.py |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 6e4ef15..b454403 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -171,7 +171,7 @@ class Layer:
         matching_special = None
 
         if len(args)>1:
-            raise v.ValueError(
+            raise ValueError(
                     "You can only give one positional argument.")
         elif len(args)==1:
 
@@ -181,7 +181,7 @@ class Layer:
                      issubclass(args[0], Layer))
                     ):
                 if 'type' in kwargs:
-                    raise v.ValueError(
+                    raise ValueError(
                             "You can't give a type in both the positional "
                             "and keyword arguments.")
 
@@ -199,7 +199,7 @@ class Layer:
         if 'attrs' in kwargs:
             for k,v in kwargs['attrs'].items():
                 if k in kwargs:
-                    raise v.ValueError("{k} specified both as a kwarg and in attrs")
+                    raise ValueError(f"{k} specified both as a kwarg and in attrs")
                 kwargs[k] = v
 
             del kwargs['attrs']
@@ -267,7 +267,7 @@ class Layer:
                 logger.debug("  -- callback says: %s", result)
                 return result
 
-            raise v.ValueError(found_tag)
+            raise ValueError(found_tag)
 
         result = [
                 self.from_tag(x) for x in
@@ -329,7 +329,7 @@ class Layer:
         """
         tag_type = tag.get('type', None)
         if tag_type is None:
-            raise v.ValueError(
+            raise ValueError(
                     f"tag has no 'type' field: {tag}")
         return cls.handles_type.from_name(name=tag_type)(tag)
 
@@ -420,18 +420,18 @@ class Layer:
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-        raise v.ValueError(f"param is not a <param>: {tag}")
+        raise ValueError(f"param is not a <param>: {tag}")
 
     name = tag.get('name', None)
     if name is None:
-        raise v.ValueError(f"param has no 'name' field: {tag}")
+        raise ValueError(f"param has no 'name' field: {tag}")
 
     value_tags = [tag for tag in tag.children
                   if isinstance(tag, bs4.element.Tag)
                   ]
 
     if len(value_tags)!=1:
-        raise v.ValueError(f"param should have one value: {tag}")
+        raise ValueError(f"param should have one value: {tag}")
 
     value_tag = value_tags[0]
 
diff --git a/sangfroid/util.py b/sangfroid/util.py
index e498747..767e60f 100644
--- a/sangfroid/util.py
+++ b/sangfroid/util.py
@@ -20,9 +20,9 @@ def type_and_value_to_str(t, v):
         return str(v)
 
 def type_and_str_to_value(t, s):
-    if v is None:
+    if s is None:
         return None
     elif issubclass(t, bool):
-        return v.lower()=='true'
+        return s.lower()=='true'
     else:
-        return t(v)
+        return t(s)
diff --git a/sangfroid/value/value.py b/sangfroid/value/value.py
index b272e1a..79e4441 100644
--- a/sangfroid/value/value.py
+++ b/sangfroid/value/value.py
@@ -579,10 +579,10 @@ class Waypoint:
         v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]
 
         if len(v)==0:
-            raise ValueError(f"Waypoint without a value: {w}")
+            raise ValueError(f"Waypoint without a value: {tag}")
         elif len(v)!=1:
             raise ValueError(
-                    f"Waypoint with multiple values: {w}")
+                    f"Waypoint with multiple values: {tag}")
         elif v[0].name==Value.ANIMATED:
             raise ValueError("Values in waypoints cannot themselves "
                              "be animated")
-- 
2.43.0


From f49ed42c4949a5d229c6fbc01e0ea5234ac26cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:55 +0000
Subject: [PATCH 23/52] fix: looking up a parameter could find that of a layer
 nested inside

---
 sangfroid/animation.py   |  2 +-
 sangfroid/field.py       |  8 ++------
 sangfroid/layer/group.py |  8 ++------
 sangfroid/layer/layer.py | 24 ++++++++++++++++++------
 sangfroid/layer/tbd.py   |  8 ++++++++
 5 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 1a24900..d88e950 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -133,7 +133,7 @@ class Animation(Group):
 
     @property
     def name(self):
-        return self._tag.find('name').string
+        return self._tag.find('name', recursive=False).string
 
     @property
     def size(self):
diff --git a/sangfroid/field.py b/sangfroid/field.py
index 328c799..9bb5745 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -209,11 +209,7 @@ class ParamTagField(Field):
         assert self.type_.__module__!='builtins', self.type_
 
     def _get_value(self, obj):
-        holder = obj._tag.find('param',
-                               attrs={
-                                   'name': self.name,
-                                   },
-                               )
+        holder = obj._find_param(self.name)
 
         if holder is None:
             raise AttributeError(self.name)
@@ -283,7 +279,7 @@ class NamedChildField(Field):
                 )
 
     def get_subtag_for_obj(self, obj):
-        return obj._tag.find(self.name)
+        return obj._tag.find(self.name, recursive=False)
  
     def __get__(self, obj, obj_type=None):
 
diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index e29342b..a97e1b5 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -57,11 +57,7 @@ class Group(Layer):
 
     @property
     def canvas_tag(self):
-        param = self._tag.find('param',
-                              attrs={
-                                  'name': 'canvas',
-                                  },
-                              )
+        param = self._find_param('canvas')
 
         if param is None:
             raise ValueError(
@@ -70,7 +66,7 @@ class Group(Layer):
                     f"{self._tag}"
                     )
 
-        return param.find('canvas')
+        return param.find('canvas', recursive=False)
 
     def _get_children(self,
                  include_descendants = False,
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index b454403..47f3cd1 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -58,6 +58,9 @@ class Layer:
     def __init__(self, tag=None):
         if tag is None:
             self._tag = self._construct_empty_tag()
+        elif isinstance(tag, bs4.BeautifulSoup):
+            # we want the layer itself, not the document it's in
+            self._tag = tag.find(True)
         elif isinstance(tag, bs4.Tag):
             self._tag = tag
         else:
@@ -88,14 +91,26 @@ class Layer:
         result += ']'
         return result
 
+    def _find_param(self, name):
+        """
+        Finds the tag of our parameter with the given name.
+
+        We don't look for the parameters of any layers inside us.
+
+        Returns:
+            Tag or None
+        """
+        return self._tag.find('param', attrs={'name': name},
+                              recursive=False)
+
     def __getitem__(self, f):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         return _name_and_value_of(found)[1]
 
     def __setitem__(self, f, val):
-        found = self._tag.find('param', attrs={'name': f})
+        found = self._find_param(f)
         if found is None:
             raise KeyError(f)
         old_value = _name_and_value_of(found)[1]
@@ -111,10 +126,7 @@ class Layer:
         old_value.tag.replace_with(new_value.tag)
 
     def __contains__(self, f):
-        found = self._tag.find(
-                'param',
-                attrs={'name': f},
-                )
+        found = self._find_param(f)
         return found is not None
     
     @property
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 938be98..f32fdd2 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -72,6 +72,14 @@ class Switch(Layer):
 
     ### }}}
 
+    def _find_param(self, name):
+        # Our own parameters first, but we also
+        # answer for those of the layers we switch between.
+        result = super()._find_param(name)
+        if result is None:
+            result = self._tag.find('param', attrs={'name': name})
+        return result
+
 @Layer.handles_type()
 class Super_Sample(Layer):
     SYMBOL = 'X'
-- 
2.43.0


From 9f97117b33c1e308168ca281b0def7f252d86c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:59 +0000
Subject: [PATCH 24/52] fix: layer[name] = value took the value away from the
 layer it came from

---
 sangfroid/layer/layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 47f3cd1..ff70089 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -123,7 +123,7 @@ class Layer:
         else:
             new_value = old_value.__class__(val)
 
-        old_value.tag.replace_with(new_value.tag)
+        old_value.tag.replace_with(copy.copy(new_value.tag))
 
     def __contains__(self, f):
         found = self._find_param(f)
-- 
2.43.0


From f414dc2fe48b34a3606ad2e1d7f7d3a111703d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:01 +0000
Subject: [PATCH 25/52] fix: an animation's name couldn't be set, nor its desc
 if it had none

---
 sangfroid/animation.py | 4 ----
 sangfroid/field.py     | 6 ++++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index d88e950..7c10da3 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -131,10 +131,6 @@ class Animation(Group):
     def canvas_tag(self):
         return self._tag
 
-    @property
-    def name(self):
-        return self._tag.find('name', recursive=False).string
-
     @property
     def size(self):
         """
diff --git a/sangfroid/field.py b/sangfroid/field.py
index 9bb5745..9b9edd3 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -292,8 +292,14 @@ class NamedChildField(Field):
 
     def __set__(self, obj, value):
 
+        value = self.type_(value)
+
         subtag = self.get_subtag_for_obj(obj)
 
+        if subtag is None:
+            subtag = bs4.Tag(name=self.name)
+            obj._tag.insert(0, subtag)
+
         subtag.string = value
 
 """
-- 
2.43.0


From 4e737b48ee80fa49dc81aca456f7053751ec9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 26/52] fix: several attributes of Animation used names Synfig
 doesn't use, so never saw what the document says

---
 sangfroid/animation.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index 7c10da3..e3c3d4e 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -33,6 +33,9 @@ class TagTimeAttrField(TagAttrField):
                  ref = obj._tag,
                  )
 
+    def __set__(self, obj, value):
+        super().__set__(obj, T(value, ref = obj._tag))
+
 class Animation(Group):
     """
     A Synfig animation.
@@ -55,10 +58,10 @@ class Animation(Group):
     yres = TagAttrField(float,       2834.645669,
                         doc = "The vertical resolution.",
                         )
-    gamma_r = TagAttrField(float,       1.0)
-    gamma_g = TagAttrField(float,       1.0)
-    gamma_b = TagAttrField(float,       1.0)
-    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25') # XXX wrong
+    gamma_r = TagAttrField(float,       1.0, name='gamma-r')
+    gamma_g = TagAttrField(float,       1.0, name='gamma-g')
+    gamma_b = TagAttrField(float,       1.0, name='gamma-b')
+    view_box = TagAttrField(str, '-4.0 2.25 4.0 -2.25', name='view-box') # XXX wrong
     antialias = TagAttrField(int,         1) # XXX enum?
     fps = TagAttrField(float,       24.0,
         doc = """
@@ -67,12 +70,14 @@ class Animation(Group):
             (Can this be non-integer?)""",
            )
     begin_time = TagTimeAttrField(0,
+           name = 'begin-time',
            doc = """
             The time at which this animation starts.
 
             Almost always zero.""",
            )
     end_time = TagTimeAttrField('5s',
+            name = 'end-time',
             doc = 'The time at which this animation ends.',
            )
     bgcolor = TagAttrField(str,         '0.5 0.5 0.5 1.0')
@@ -161,20 +166,6 @@ class Animation(Group):
             ])
 
 
-    @property
-    def begin_time(self):
-        """
-        The time at which this animation starts.
-
-        Almost always zero.
-
-        Type:
-            T
-        """
-        return T(self._tag.attrs['begin-time'],
-                 ref = self._tag,
-                 )
-
     @property
     def framecount(self):
         """
-- 
2.43.0


From ff1dad5202b0ad1f4e7c49572eadcee468729dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 27/52] fix: len(group) counted more than its children, and a
 non-recursive search of a group found nothing

---
 sangfroid/layer/group.py |  3 +++
 sangfroid/layer/layer.py | 13 +++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index a97e1b5..f48b7d1 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -68,6 +68,9 @@ class Group(Layer):
 
         return param.find('canvas', recursive=False)
 
+    def _holder_of_sublayers(self):
+        return self.canvas_tag
+
     def _get_children(self,
                  include_descendants = False,
                  ):
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index ff70089..9c50b6f 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -283,9 +283,10 @@ class Layer:
 
         result = [
                 self.from_tag(x) for x in
-                self._tag.find_all(matcher,
-                                  recursive=recursive,
-                                  )
+                self._holder_of_sublayers().find_all(
+                    matcher,
+                    recursive=recursive,
+                    )
                 ]
         logger.debug("find_all found: %s",
                      result,
@@ -408,7 +409,7 @@ class Layer:
         return result
 
     def __len__(self):
-        return len(self._sublayer_tags())
+        return len(list(self.children))
 
     def append(self, layer):
         """
@@ -427,8 +428,8 @@ class Layer:
         raise NotImplementedError(
                 "Only Groups can contain other layers.")
 
-    def _sublayer_tags(self):
-        return self._tag.find_all('layer')
+    def _holder_of_sublayers(self):
+        return self._tag
 
 def _name_and_value_of(tag):
     if tag.name!='param':
-- 
2.43.0


From 66c96979941cf730ec3a660ff0e92131d8d3748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:10 +0000
Subject: [PATCH 28/52] fix: searching by type missed layers with an underscore
 in their type, or with a parameter called type

---
 sangfroid/layer/blurs.py   |  1 +
 sangfroid/layer/layer.py   | 24 ++++++++----------------
 sangfroid/layer/stylise.py |  2 ++
 sangfroid/layer/tbd.py     |  3 +++
 4 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/sangfroid/layer/blurs.py b/sangfroid/layer/blurs.py
index db34a24..f449441 100644
--- a/sangfroid/layer/blurs.py
+++ b/sangfroid/layer/blurs.py
@@ -18,6 +18,7 @@ class Blur(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name='type',
                         )
 
     ### }}}
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 9c50b6f..16eb623 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -221,7 +221,7 @@ class Layer:
                 if not isinstance(v, str):
                     v = v.__name__
 
-                kwargs[k] = v.lower().replace('_', '')
+                kwargs[k] = normalise_synfig_layer_type_name(v)
 
         logger.debug("begin find_all")
 
@@ -236,23 +236,15 @@ class Layer:
 
             if matching_special is None:
 
-                def munge(k,v):
-                    if k=='type':
-                        k = 'type_'
-                        v = v.lower()
+                logger.debug("want: %s", kwargs)
 
-                    return (k,v)
-
-                targets = [
-                    munge(k,v)
-                    for k,v in kwargs.items()
-                    ]
-
-                logger.debug("want: %s", targets)
-
-                for k, want_value in targets:
+                for k, want_value in kwargs.items():
                     try:
-                        found_value = getattr(found_layer, k)
+                        if k=='type':
+                            found_value = normalise_synfig_layer_type_name(
+                                    found_tag['type'])
+                        else:
+                            found_value = getattr(found_layer, k)
                         logger.debug("  -- %s field is %s; want %s", k,
                                      repr(found_value),
                                      repr(want_value),
diff --git a/sangfroid/layer/stylise.py b/sangfroid/layer/stylise.py
index d72ea10..08365e2 100644
--- a/sangfroid/layer/stylise.py
+++ b/sangfroid/layer/stylise.py
@@ -22,6 +22,7 @@ class Shade(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.1000000015, 0.1000000015),
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name='type',
                         )
     invert               = f.ParamTagField(v.Bool, False,
                         )
@@ -42,6 +43,7 @@ class Bevel(Layer):
     blend_method         = f.ParamTagField(v.BlendMethod, v.BlendMethod.ONTO,
                         )
     type_                = f.ParamTagField(v.Integer, 1,
+                                  name='type',
                         )
     color1               = f.ParamTagField(v.Color, (1.0, 1.0, 1.0, 1.0),
                         )
diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index f32fdd2..40a60cb 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -506,6 +506,7 @@ class Halftone3(Layer):
     size                 = f.ParamTagField(v.X_Y, (0.25, 0.25),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name='type',
                         )
     subtractive          = f.ParamTagField(v.Bool, True,
                         )
@@ -538,6 +539,7 @@ class Halftone2(Layer):
     color_dark           = f.ParamTagField(v.Color, (0.0, 0.0, 0.0, 1.0),
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name='type',
                         )
 
     ### }}}
@@ -725,6 +727,7 @@ class Spherize(Layer):
     clip                 = f.ParamTagField(v.Bool, False,
                         )
     type_                = f.ParamTagField(v.Integer, 0,
+                                  name='type',
                         )
 
     ### }}}
-- 
2.43.0


From 072660257963a2c88d4d3d49bc765c0573f35f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:13 +0000
Subject: [PATCH 29/52] fix: creating a layer changed the defaults of fields
 shared with every other class

---
 sangfroid/field.py       | 14 +++++++++++++-
 sangfroid/layer/layer.py |  3 +--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index 9b9edd3..e8b9279 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -73,6 +73,12 @@ class Field:
         if self.name is None:
             self.name = name
 
+    def default_for(self, cls):
+        """
+        The default value of this field in instances of the given class.
+        """
+        return self.default
+
     def __get__(self, obj, obj_type=None):
         raise NotImplementedError()
 
@@ -169,7 +175,7 @@ class TagAttrField(Field):
                          self.name,
                          self.default,
                          )
-            return self.default
+            return self.default_for(obj.__class__)
 
         value = obj._tag.get(self.name)
         logger.debug("%s field is %s",
@@ -388,6 +394,9 @@ class TypeNameField(TagAttrField):
         super().__set_name__(owner, name)
         self.default = owner.__name__.lower()
 
+    def default_for(self, cls):
+        return cls.__name__.lower()
+
     def __set__(self, obj, value):
         raise ValueError("You can't change the name of a type.")
 
@@ -407,6 +416,9 @@ class SynfigVersionField(TagAttrField):
         super().__set_name__(owner, name)
         self.default = owner.SYNFIG_VERSION
 
+    def default_for(self, cls):
+        return cls.SYNFIG_VERSION
+
 class DescField(TagAttrField):
     """
     A Field for the description of a layer.
diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 16eb623..7b822b6 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -366,9 +366,8 @@ class Layer:
         for c in cls.mro():
             for field in c.__dict__.values():
                 if isinstance(field, Field):
-                    field.__set_name__(cls, field.name)
                     if isinstance(field, TagAttrField):
-                        value = field.default
+                        value = field.default_for(cls)
                         if value is None:
                             continue
                         elif isinstance(value, str):
-- 
2.43.0


From 2203cffa07ebc65f82043603d4e8d88b4776d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:16 +0000
Subject: [PATCH 30/52] fix: a Group.insert() which was refused still added
 newlines

---
 sangfroid/layer/group.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sangfroid/layer/group.py b/sangfroid/layer/group.py
index f48b7d1..f64682a 100644
--- a/sangfroid/layer/group.py
+++ b/sangfroid/layer/group.py
@@ -127,9 +127,7 @@ class Group(Layer):
         before = self[index]
         # "before" from our perspective; *after* in the XML
 
-        before._tag.insert_after("\n")
-        before._tag.insert_after(layer._tag)
-        before._tag.insert_after("\n")
+        before._tag.insert_after("\n", layer._tag, "\n")
 
     def __getitem__(self, f):
         if isinstance(f, int):
-- 
2.43.0


From 4553d4f22fa1104b82cccbbce6d53c6f85a56f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:19 +0000
Subject: [PATCH 31/52] fix: from sangfroid import * raised AttributeError

---
 sangfroid/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sangfroid/__init__.py b/sangfroid/__init__.py
index dd5a826..cf4d5d5 100644
--- a/sangfroid/__init__.py
+++ b/sangfroid/__init__.py
@@ -29,7 +29,6 @@ __version__ = '0.1'
 
 __all__ = [
         'layer',
-        'Canvas',
         'Keyframe',
         'Animation',
         'T',
-- 
2.43.0


From 1d2ae29fe7380820196f4d33ddc086c4d3fcb2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 32/52] fix: a save which failed could truncate the file, or
 leave the animation referring to another one

---
 sangfroid/animation.py |  8 ++++----
 sangfroid/format.py    | 26 ++++++++++++--------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/sangfroid/animation.py b/sangfroid/animation.py
index e3c3d4e..8d5c657 100644
--- a/sangfroid/animation.py
+++ b/sangfroid/animation.py
@@ -219,18 +219,18 @@ class Animation(Group):
                         "you must give one when you save."
                         )
             filename = self._format.filename
+            new_format = self._format
         else:
+            # XXX copy the images over
             new_format = Format.from_filename(filename,
                                               load = False,
                                               )
-            if new_format!=self._format:
-                # XXX copy the images over
-                self._format = new_format
 
-        self._format.save(
+        new_format.save(
                 content = self._soup,
                 filename = filename,
                 )
+        self._format = new_format
 
 __all__ = [
         'Animation',
diff --git a/sangfroid/format.py b/sangfroid/format.py
index 9648c52..db26ec2 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -127,16 +127,8 @@ class Format:
         """
         raise NotImplementedError()
 
-    def _filename_for_saving(self, filename):
-        if filename is None:
-            filename = self.filename
-        else:
-            self.filename = filename
-
-        return filename
-
-    def _write_to_file(self, f, content):
-        f.write(str(content).encode('UTF-8'))
+    def _to_bytes(self, content):
+        return str(content).encode('UTF-8')
 
     @classmethod
     def handlers(cls):
@@ -172,10 +164,13 @@ class Sif(Format):
         return FileContextHandler(open(self.filename, 'r'))
 
     def save(self, content, filename=None):
-        filename = self._filename_for_saving(filename)
+        filename = filename or self.filename
+        encoded = self._to_bytes(content)
 
         with open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
+
+        self.filename = filename
 
 class Sifz(Format):
 
@@ -186,10 +181,13 @@ class Sifz(Format):
         return FileContextHandler(gzip.open(self.filename, 'r'))
 
     def save(self, content, filename=None):
-        filename = self._filename_for_saving(filename)
+        filename = filename or self.filename
+        encoded = self._to_bytes(content)
 
         with gzip.open(filename, 'wb') as f:
-            self._write_to_file(f, content)
+            f.write(encoded)
+
+        self.filename = filename
 
 class Sfg(Format):
     
-- 
2.43.0


From 91dc5781aa3830e5b8d9129cf09d3a7e80530d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:24 +0000
Subject: [PATCH 33/52] fix: .sif files were read using the locale's encoding,
 and never closed

---
 sangfroid/format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sangfroid/format.py b/sangfroid/format.py
index db26ec2..95da7be 100644
--- a/sangfroid/format.py
+++ b/sangfroid/format.py
@@ -161,7 +161,8 @@ class Sif(Format):
     extensions = ('sif',)
 
     def main_file(self):
-        return FileContextHandler(open(self.filename, 'r'))
+        with open(self.filename, 'rb') as f:
+            return FileContextHandler(f)
 
     def save(self, content, filename=None):
         filename = filename or self.filename
@@ -178,7 +179,8 @@ class Sifz(Format):
     extensions = ('sifz',)
 
     def main_file(self):
-        return FileContextHandler(gzip.open(self.filename, 'r'))
+        with gzip.open(self.filename, 'rb') as f:
+            return FileContextHandler(f)
 
     def save(self, content, filename=None):
         filename = filename or self.filename
-- 
2.43.0


From b94b36c91d82ca0dceb2d41423053dc564341c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:44 +0000
Subject: [PATCH 34/52] fix: new layers stored numeric default times with no
 unit

---
 sangfroid/layer/layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sangfroid/layer/layer.py b/sangfroid/layer/layer.py
index 7b822b6..2dbf1e3 100644
--- a/sangfroid/layer/layer.py
+++ b/sangfroid/layer/layer.py
@@ -459,6 +459,8 @@ class _TimeButString(v.Time):
     our_type = str
 
     def _coerce(self, v):
+        if isinstance(v, (int, float)):
+            return f'{v}f'
         return self.our_type(v)
 
     @classmethod
-- 
2.43.0


From c43fc141a89ca86c8f87365a4acc35c8f9aff4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:57 +0000
Subject: [PATCH 35/52] fix: simple values couldn't be assigned from, or
 compared with, some other types

---
 sangfroid/value/simple.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 67f6c96..c465497 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -33,6 +33,9 @@ class Simple(Value):
         if self.our_type is None:
             raise NotImplementedError()
 
+        if isinstance(v, Simple):
+            v = v.value
+
         if v==() or v is None:
             result = self.our_type()
 
@@ -64,7 +67,7 @@ class Simple(Value):
         else:
             try:
                 v = self.our_type(other)
-            except ValueError:
+            except (ValueError, TypeError):
                 v = other
 
         return self._compare_with(v)
-- 
2.43.0


From 17a930c9e027b26270f34a48e4b977d0265db6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:13 +0000
Subject: [PATCH 36/52] fix: Halftone3.tone raised AttributeError rather than
 NotImplementedError

---
 sangfroid/layer/tbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/layer/tbd.py b/sangfroid/layer/tbd.py
index 40a60cb..004b0f9 100644
--- a/sangfroid/layer/tbd.py
+++ b/sangfroid/layer/tbd.py
@@ -512,7 +512,7 @@ class Halftone3(Layer):
                         )
     color                = f.ParamArrayField(v.Color, (0.0, 1.0, 1.0, 1.0),
                         )
-    tone                 = f.ParamArrayField(v.Tone, default=None)
+    tone                 = f.NotImplementedField("Tone")
 
     ### }}}
 
-- 
2.43.0


From 481979c5120f8788f438aa485146123287be9967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:22 +0000
Subject: [PATCH 37/52] fix: the template tool changed the line endings of
 whole files

---
 sangfroid/template/replacer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index 33ba3a2..e8c7e07 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -41,7 +41,7 @@ class Replacer:
         changed = False
         ignore = False
 
-        with open(filename, 'r') as f:
+        with open(filename, 'r', newline='') as f:
 
             for i, line in enumerate(f):
                 if self.verbose:
@@ -114,7 +114,7 @@ class Replacer:
     def write_to(cls, filename, text):
         temp_filename = filename+'.1'
 
-        with open(temp_filename, 'w') as f:
+        with open(temp_filename, 'w', newline='') as f:
             f.write(text)
         os.rename(temp_filename, filename)
         print("Written:", filename)
-- 
2.43.0


From ef0bc9d0467ef295a7d1909311dccfa7492128c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:49 +0000
Subject: [PATCH 38/52] fix: comparing a number or flag no longer rounds what
 it is compared with

Integer(1)==1.5 and Bool(True)=='false' were True, and Time('1s')=='1s'
was False.
---
 sangfroid/value/simple.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index c465497..6b4d28b 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -62,13 +62,15 @@ class Simple(Value):
         return str(v)
 
     def __eq__(self, other):
-        if isinstance(other, self.__class__):
-            v = other.value
-        else:
-            try:
-                v = self.our_type(other)
-            except (ValueError, TypeError):
+        try:
+            if isinstance(other, Simple):
+                v = other.value
+            elif isinstance(other, str):
+                v = self._construct_value(other)
+            else:
                 v = other
+        except (ValueError, TypeError):
+            v = other
 
         return self._compare_with(v)
 
-- 
2.43.0


From 3e322576bf3ff53d063b88059a32165ac4e8a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:49 +0000
Subject: [PATCH 39/52] fix: vectors compare by component, whatever order they
 are written in

---
 sangfroid/value/vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 7a5b3ce..c2d21fe 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -132,13 +132,16 @@ class Vector(Value):
             return str(self.value)
 
     def __eq__(self, other):
+        if isinstance(other, (Vector, dict)):
+            return dict(self.items())==dict(other.items())
+
         try:
             if len(other)!=len(self):
                 return False
         except TypeError:
             return False
 
-        return all([left==right for left,right in zip(self, other)])
+        return all([left==right for left,right in zip(self.as_tuple(), other)])
 
     def __iter__(self):
         for v in self.values():
-- 
2.43.0


From 98606cb0434c0fe9e7c6b25aa0071ea4353291c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:49 +0000
Subject: [PATCH 40/52] fix: comparing a transformation with another dict
 doesn't raise KeyError

---
 sangfroid/value/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/transformation.py b/sangfroid/value/transformation.py
index 6a94783..a3fa988 100644
--- a/sangfroid/value/transformation.py
+++ b/sangfroid/value/transformation.py
@@ -154,7 +154,7 @@ class Composite(Value):
             return False
 
         for key, value in self.items():
-            if other[key]!=value:
+            if key not in other.keys() or other[key]!=value:
                 return False
 
         return True
-- 
2.43.0


From 8240ce71acaff4251f53bf3fb1797a700a64cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:49 +0000
Subject: [PATCH 41/52] fix: a canvas equals a canvas with the same layers

---
 sangfroid/value/canvas.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sangfroid/value/canvas.py b/sangfroid/value/canvas.py
index 36ab8b7..d79f947 100644
--- a/sangfroid/value/canvas.py
+++ b/sangfroid/value/canvas.py
@@ -37,3 +37,12 @@ class Canvas(Value):
         for layer in layers:
             self._tag.append(layer.tag)
             self._tag.append("\n")
+
+    def __eq__(self, other):
+        if isinstance(other, Canvas):
+            other = other.value
+        elif not isinstance(other, list):
+            return False
+
+        return ([layer.tag for layer in self.value]==
+                [getattr(layer, 'tag', None) for layer in other])
-- 
2.43.0


From 6faa901d495366d438528f4ae85556e992534cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:51 +0000
Subject: [PATCH 42/52] fix: Vector.values() came in another order than its
 keys

---
 sangfroid/value/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index c2d21fe..2044ef6 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -111,7 +111,7 @@ class Vector(Value):
     def values(self):
         if self.is_animated:
             return None
-        return [self.our_type(v) for v in self.value.values()]
+        return [self[k] for k in self.keys()]
 
     def items(self):
         return [(k, self.our_type(v)) for k,v in self.value.items()]
-- 
2.43.0


From a01c75fda5b4f5e3a6e79117878954cf3a8ec1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:41 +0000
Subject: [PATCH 43/52] fix: Bywords lost words which appear at the same time
 as others

---
 bywords/bywords.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 28c1375..ce075f0 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -144,7 +144,7 @@ class Bywords:
             and group.desc.lower().startswith('bywords')
             ])
 
-        result = {}
+        result = []
         found = None
 
         for start, duration, text in self.lines:
@@ -157,12 +157,11 @@ class Bywords:
                 if found:
                     break
             if found:
-                for word in found:
-                    result[word.time] = word
+                result.extend(found)
             else:
                 self.no_matches.append(text)
 
-        self.words = sorted(list(result.values()))
+        self.words = sorted(result)
 
     def dump_findings_to_logger(self):
         logger.info("\n\n=== Source timings ===\n")
-- 
2.43.0


From c93131f2860f427eaa758fe03d54954884a2d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:41 +0000
Subject: [PATCH 44/52] fix: the pauses of Bywords are by the length of each
 word, not of all before it

---
 bywords/bywords.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index ce075f0..9c60488 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -23,9 +23,10 @@ bywords_groups = None
 
 @functools.total_ordering
 class WordTiming:
-    def __init__(self, text, item):
+    def __init__(self, text, item, length):
         self.text = text
         self.item = item
+        self.length = length
         self.time = 0
 
     def __lt__(self, other):
@@ -91,6 +92,7 @@ class BywordsGroup:
                         WordTiming(
                             text = item.desc[:i],
                             item = item,
+                            length = len(word),
                             ))
 
                 if words and words[0].strip()=='':
@@ -98,13 +100,13 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
-        total_letters = sum([len(w.text) for w in word_timings])
+        total_letters = sum([w.length for w in word_timings])
         ms_per_letter = duration/total_letters
 
         time = start
         for w in word_timings:
             w.time = time/1000
-            time += len(w.text)*ms_per_letter
+            time += w.length*ms_per_letter
 
         return word_timings
 
-- 
2.43.0


From 03182b2061c850ad069e64c240799cc63dc9f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:41 +0000
Subject: [PATCH 45/52] fix: Bywords divided by zero if a line and a group both
 have no words

---
 bywords/bywords.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bywords/bywords.py b/bywords/bywords.py
index 9c60488..5aa43d3 100644
--- a/bywords/bywords.py
+++ b/bywords/bywords.py
@@ -100,6 +100,9 @@ class BywordsGroup:
 
             s = s[len(item.desc):]
 
+        if not word_timings:
+            return None
+
         total_letters = sum([w.length for w in word_timings])
         ms_per_letter = duration/total_letters
 
-- 
2.43.0


From e7abaafbaa4e8032c8eea1bedf7f5fd68aad3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:41 +0000
Subject: [PATCH 46/52] fix: Bywords failed for words in the first tenth of a
 millisecond

---
 bywords/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bywords/adjust.py b/bywords/adjust.py
index ec8a432..ad0eb6e 100644
--- a/bywords/adjust.py
+++ b/bywords/adjust.py
@@ -7,7 +7,7 @@ logger = logging.getLogger('bywords')
 def set_constant_waypoint(tl, time, value):
     s = sangfroid.value.String(value)
     t = sangfroid.T(
-            f"{time}s",
+            f"{time:.10f}s",
             ref = tl.parent.tag,
             )
     waypoint = sangfroid.value.Waypoint(
-- 
2.43.0


From e5157a31e124cf73247c26a75eddc40ba9b93e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:37 +0000
Subject: [PATCH 47/52] fix: the version of a layer which doesn't give it is a
 number, too

---
 sangfroid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sangfroid/field.py b/sangfroid/field.py
index e8b9279..e0a76e8 100644
--- a/sangfroid/field.py
+++ b/sangfroid/field.py
@@ -417,7 +417,7 @@ class SynfigVersionField(TagAttrField):
         self.default = owner.SYNFIG_VERSION
 
     def default_for(self, cls):
-        return cls.SYNFIG_VERSION
+        return self.type_override(cls.SYNFIG_VERSION)
 
 class DescField(TagAttrField):
     """
-- 
2.43.0


From 8eb42e8cb3606463b994560ba43242cf84f20b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 48/52] fix: a flag set to the text 'false' is false, and other
 text is refused

---
 sangfroid/value/simple.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sangfroid/value/simple.py b/sangfroid/value/simple.py
index 6b4d28b..b5bba1a 100644
--- a/sangfroid/value/simple.py
+++ b/sangfroid/value/simple.py
@@ -112,6 +112,19 @@ class Bool(Simple):
     def __bool__(self):
         return self.value
 
+    def _coerce(self, v):
+        if isinstance(v, Value):
+            raise TypeError(v)
+
+        if isinstance(v, str):
+            if v.lower() not in ('true', 'false'):
+                raise ValueError(
+                        "boolean string should have been 'true' or 'false', "
+                        f"but it was {repr(v)}.")
+            return self._construct_value(v)
+
+        return super()._coerce(v)
+
     def _construct_value(self, v):
         assert isinstance(v, str)
         if v.lower()=='true':
-- 
2.43.0


From 448979e145c6c31abc66d879b7f873e0106dadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 49/52] fix: a vector refuses parts which aren't numbers when
 they're in a dict, too

---
 sangfroid/value/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sangfroid/value/vector.py b/sangfroid/value/vector.py
index 2044ef6..58da00b 100644
--- a/sangfroid/value/vector.py
+++ b/sangfroid/value/vector.py
@@ -58,6 +58,12 @@ class Vector(Value):
                 self._raise_type_error()
         elif hasattr(v, 'items'):
             members = dict(v.items())
+
+            for m in members.values():
+                try:
+                    self.our_type(m)
+                except (TypeError, ValueError):
+                    self._raise_type_error()
         else:
             self._raise_type_error()
 
-- 
2.43.0


From 2675db7d2fee77e9e7d64e161122b067e9adcade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 50/52] fix: a colour refuses text which has signs or spaces
 among its hex digits

---
 sangfroid/value/color.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sangfroid/value/color.py b/sangfroid/value/color.py
index 235d345..0f24718 100644
--- a/sangfroid/value/color.py
+++ b/sangfroid/value/color.py
@@ -2,6 +2,7 @@ import bs4
 from sangfroid.value.value import Value
 
 RGBA = 'rgba'
+HEX_DIGITS = '0123456789abcdefABCDEF'
 
 @Value.handles_type()
 class Color(Value):
@@ -77,6 +78,9 @@ class Color(Value):
             else:
                 _raise_format_error()
 
+            if not all(d in HEX_DIGITS for d in v):
+                _raise_format_error()
+
             result = tuple(
                 round(int(v[i*2:i*2+2], 16)/255, 6)
                 for i in range(4))
-- 
2.43.0


From 30c44ebf233021ab77417baa72347de0cdb37bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:16 +0000
Subject: [PATCH 51/52] fix: the template tool refuses a block which begins
 inside another one

---
 sangfroid/template/replacer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/template/replacer.py b/sangfroid/template/replacer.py
index e8c7e07..cc16872 100644
--- a/sangfroid/template/replacer.py
+++ b/sangfroid/template/replacer.py
@@ -56,6 +56,9 @@ class Replacer:
 
                 m = START_BLOCK_RE.search(line)
                 if m:
+                    if current_block_name is not None:
+                        raise ValueError(f"{filename}:{i}: beginning block inside another one")
+
                     current_indent = len(m.groups()[0])
                     current_block_name = m.groups()[1]
                     if current_block_name == '':
-- 
2.43.0


From 5f599f2eff6619f293008bb05ad1ac31c510e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:43 +0000
Subject: [PATCH 52/52] fix: a string made from nothing is empty

---
 sangfroid/value/string.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sangfroid/value/string.py b/sangfroid/value/string.py
index 74c8d15..b95d86f 100644
--- a/sangfroid/value/string.py
+++ b/sangfroid/value/string.py
@@ -19,6 +19,9 @@ class String(Value):
         if isinstance(v, Value) and v.is_animated:
             raise ValueError("You can't use an animated value as a string.")
 
+        if isinstance(v, tuple) and len(v)==0:
+            v = ''
+
         v = str(v)
 
         self._reset_tag()
-- 
2.43.0

