From 9c142c0e1a095dfe3081c9aa82b20b053dc328fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 01/82] fix: register the default queue when it is created
 through its "active" alias

---
 gsp/io/command.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4502ae4..6015f9e 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -62,8 +62,9 @@ class NamedSingleton(type):
     def __call__(cls, name="default", *args, **kwargs):
         if name == "active" or name is None:
             if CommandQueue.active is None:
-                CommandQueue.active = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
-            return CommandQueue.active
+                name = "default"
+            else:
+                return CommandQueue.active
         if name not in cls._instances.keys():
             cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
         return cls._instances[name]
-- 
2.43.0


From d7eb00d9d3f1b7b0472924dab6b748457e42891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 02/82] fix: restore the queue read-only state when a command
 fails during run

---
 gsp/io/command.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 6015f9e..edfb0ce 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -150,9 +150,11 @@ class CommandQueue(metaclass = NamedSingleton):
 
         readonly = self.readonly
         self.readonly = True
-        for command in self.commands:
-            command.execute(backend_module)
-        self.readonly = readonly
+        try:
+            for command in self.commands:
+                command.execute(backend_module)
+        finally:
+            self.readonly = readonly
 
 
     def push(self, command):
-- 
2.43.0


From 180eb93281b7fbd36eb890da1fc16e2c9fdacec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 03/82] fix: do not record the default value of a parameter
 given as an object

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index edfb0ce..07f9fb8 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -243,7 +243,7 @@ def command(name=None):
 
             # Default parameters
             for key,value in defaults.items():
-                if key not in parameters.keys():
+                if key not in parameters.keys() and key+"(id)" not in parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
-- 
2.43.0


From 9031f2a957f63903057cd2c75ed7f739a3eb279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 04/82] fix: keep parameters given as an object identifier when
 executing a command

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 07f9fb8..943aa4e 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -422,7 +422,7 @@ class Command:
             if key.endswith("(id)"):
                 _parameters[key[:-4]] = Object.objects[value]
             elif isinstance(value, OID):
-                parameters[key] = Object.objects[value]
+                _parameters[key] = Object.objects[value]
             elif isinstance(value, Converter):
                 _parameters[key] = value()
             else:
-- 
2.43.0


From 3097ceda1ee257d75d8d675c5d489db7ce733521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 05/82] fix: resolve dotted creation commands in the backend
 module

---
 gsp/io/command.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 943aa4e..d7a0e65 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -436,11 +436,10 @@ class Command:
         #         parameters[key] = value()
 
         if "." in self.methodname:
-            module, name = self.methodname.split(".")
-            if len(module) > 0:
-                func = getattr(globals[module], name)
-            else:
-                func = eval(name, globals, locals)
+            func = backend_module
+            for name in self.methodname.split("."):
+                if len(name) > 0:
+                    func = getattr(func, name)
             object = func(**parameters)
             object.id = oid
             Object.objects[oid] = object
-- 
2.43.0


From 331ffd9c66386e052748950790d74e3a875cb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 06/82] fix: expose transforms in the matplotlib backend so
 that recorded ones can be replayed

---
 gsp_matplotlib/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index be10153..56f6c2d 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -9,6 +9,7 @@ from gsp.core.types import Marker
 
 from . import core
 from . import visual
+from gsp import transform
 
 
 # This part ensures tracked array have an accompanying
-- 
2.43.0


From 9632e79750b105ebe3669725154348b09bb7017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 07/82] fix: record the creation of matplotlib segments under
 their own name

---
 gsp_matplotlib/visual/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 3ad7918..95949b7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -16,7 +16,7 @@ class Segments(visual.Segments):
 
     __doc__ = visual.Segments.__doc__
 
-    @command("visual.Points")
+    @command("visual.Segments")
     def __init__(self, positions   : Transform | Buffer,
                        line_caps   : Transform | Buffer | LineCap,
                        line_colors : Transform | Buffer | Color,
-- 
2.43.0


From d544f35148dcdad70e89506fd9542d60376fa0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 08/82] fix: an explicitly given empty queue is not the active
 queue

---
 gsp/io/ansi.py | 2 +-
 gsp/io/json.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 204dacd..f4b8d5d 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -76,7 +76,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
     for command in queue.commands:
         commands += dump_command(command, stream=None)
diff --git a/gsp/io/json.py b/gsp/io/json.py
index adc4aaf..182fdac 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -60,7 +60,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
         commands.append(dump_command(command, stream=None))
@@ -76,7 +76,7 @@ def dump(queue=None, filename=None):
 def save(filename, queue = None ):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     dump(queue, filename)
 
 
@@ -87,7 +87,7 @@ def load(filename, queue = None):
         commands = json.load(stream)["commands"]
 
     # Get default command queue
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     queue.empty()
 
     for command in commands:
-- 
2.43.0


From 783082e182d5947f01c2f56f6e2151ba266f96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 09/82] fix: never give a new object an identifier that is
 already in use

---
 gsp/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp/object.py b/gsp/object.py
index 50ada14..2116a2b 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -65,6 +65,8 @@ class Object:
 
     def __init__(self):
         self._id = OID()
+        while self._id in Object.objects.keys():
+            self._id = OID()
         if Object.record:
             Object.objects[self.id] = self
 
-- 
2.43.0


From 2d6de16316309c33d957ed1dbb6fb73d0354718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 10/82] fix: convert a Color (a named tuple) to list and tuple

---
 gsp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 3e62dcb..19b992c 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -30,11 +30,11 @@ def tuple_to_Color(obj):
 
 @io.register("Color", "list")
 def Color_to_list(obj):
-    return obj._color.tolist()
+    return list(obj)
 
 @io.register("Color", "tuple")
 def Color_to_tuple(obj):
-    return tuple(obj._color.tolist())
+    return tuple(obj)
 
 @io.register("list", "tuple")
 def list_to_tuple(obj):
-- 
2.43.0


From f0616bff0cf85ed1f6236f0bbf4af8bcb820dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 11/82] fix: decode base64 content when converting a string to
 a memoryview

---
 gsp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 19b992c..5df3a38 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -18,7 +18,8 @@ if sys.version_info < (3, 11):
 
 @io.register("str", "memoryview")
 def str_to_memoryview(obj):
-    return memoryview(bytes(obj))
+    import base64
+    return memoryview(base64.b64decode(obj))
 
 @io.register("list", "Color")
 def list_to_Color(obj):
-- 
2.43.0


From 9e0819741d84c2137231d828e785ee04fc637950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 12/82] fix: keep the item shape of tracked arrays in their
 buffer, and through JSON

---
 gsp/io/convert.py             | 2 ++
 gsp/io/json.py                | 3 +++
 gsp_matplotlib/__init__.py    | 3 ++-
 gsp_matplotlib/core/buffer.py | 3 +++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index d4f63d0..228aa0a 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -158,6 +158,8 @@ def numpy_dtype_to_str(dt):
 
 @register("str", "dtype")
 def numpy_str_to_dtype(desc):
+    if ":" not in desc:
+        return np.dtype(desc)
     dt = []
     elements = desc.split(",")
     for element in elements:
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 182fdac..c374a5b 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -8,6 +8,7 @@ import base64
 import numpy as np
 from gsp.object import Object
 from . command import CommandQueue, Command
+from . convert import numpy_dtype_to_str
 
 def default(obj):
     from gsp.core.types import Color
@@ -17,6 +18,8 @@ def default(obj):
     elif isinstance(obj, bytes):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, np.dtype):
+        if obj.names or obj.subdtype:
+            return numpy_dtype_to_str(obj)
         return str(obj)
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 56f6c2d..c6848a6 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -72,7 +72,8 @@ class Tracker:
     def __init__(self, ndarray):
         if ndarray is not None:
             self.ndarray = ndarray
-            self.gsp_buffer = Buffer(len(ndarray), ndarray.dtype, ndarray.data)
+            dtype = np.dtype((ndarray.dtype, ndarray.shape[1:]))
+            self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
     def set_data(self, offset, bytes):
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 32fa690..56f1919 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -4,6 +4,7 @@
 from __future__ import annotations # Solve circular references with typing
 import numpy as np
 from gsp.io.command import command, register
+from gsp.io.convert import numpy_str_to_dtype
 
 from gsp import core
 
@@ -17,6 +18,8 @@ class Buffer(core.Buffer):
                        data : memoryview | bytes = None):
         super().__init__(count, dtype, data, __no_command__ = True)
         self._count = count
+        if isinstance(dtype, str):
+            dtype = numpy_str_to_dtype(dtype)
         self._dtype = dtype
 
         if isinstance(data, str):
-- 
2.43.0


From 870400281bfee10097f6f1982e5c7c592d0fbad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 13/82] fix: update the content of a matplotlib buffer in
 set_data

---
 gsp_matplotlib/core/buffer.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 56f1919..cedc650 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -32,14 +32,23 @@ class Buffer(core.Buffer):
     @command()
     def set_data(self, offset : int,
                        data : memoryview | bytes):
-        # Be careful with set_data when the underlying data is already tracked
-        # buffer = np.asanyarray(self).view(np.ubyte)
-        # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-        pass
+        # When the underlying data is already tracked, content is up to date
+        # and this merely writes the same bytes again.
+        if isinstance(data, str):
+            import base64
+            data = base64.b64decode(data)
+        data = np.frombuffer(data, np.ubyte)
+        array = self.__array__()
+        if not (array.flags.writeable and array.flags.c_contiguous):
+            self._array = array = array.copy()
+        buffer = array.reshape(-1).view(np.ubyte)
+        buffer[offset:offset+len(data)] = data
 
     def __array__(self):
         if self._array is None:
-            if self._data is not None:
+            if isinstance(self._data, memoryview) and not self._data.c_contiguous:
+                self._array = np.array(self._data)
+            elif self._data is not None:
                 self._array = np.frombuffer(self._data, self._dtype)
             else:
                 self._array = np.empty(self._count, self._dtype)
-- 
2.43.0


From 055811f74d560a768e95db55b4a3ff454f19ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 14/82] fix: make lists usable (conversion from python lists,
 length, items)

---
 gsp/core/list.py            |  2 +-
 gsp_matplotlib/__init__.py  | 10 +++++-----
 gsp_matplotlib/core/list.py | 12 ++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/gsp/core/list.py b/gsp/core/list.py
index ddca82f..61301c6 100644
--- a/gsp/core/list.py
+++ b/gsp/core/list.py
@@ -41,7 +41,7 @@ class List(Object):
         """ Return the number of items in the list """
         
         if isinstance(self._itemsizes, (int)):
-            return len(data) / self._itemsizes
+            return len(self._data) // self._itemsizes
         else:
             return len(self._itemsizes)
         
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index c6848a6..2369b89 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -35,17 +35,17 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
+    Z = np.asarray(obj).view(glm.ndarray.tracked)
     return Z._tracker.gsp_buffer
 
 @register("list", "List")
 def list_to_List(obj):
+    # A flat list (of item sizes) has no sublist
+    if all(np.ndim(sublist) == 0 for sublist in obj):
+        return list_to_Buffer(obj)
     count = [len(sublist) for sublist in obj]
-    count = glm.ndarray.tracked(count)
     items = [item for sublist in obj for item in sublist]
-    # items = glm.ndarray.tracked(items)
-    items = items.view(glm.ndarray.tracked)
-    return List(items, count)
+    return core.List(list_to_Buffer(items), list_to_Buffer(count))
 
 @register("int", "Marker")
 def int_to_Marker(obj):
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 37a57f0..e0cf264 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp.io.command import command, register
 
 from gsp import core
+from . buffer import Buffer
 
 class List(core.List):
 
@@ -19,5 +20,16 @@ class List(core.List):
     def __array__(self):
         return self._data.__array__()
 
+    def __iter__(self):
+        data = np.asanyarray(self._data)
+        if isinstance(self._itemsizes, int):
+            sizes = [self._itemsizes] * len(self)
+        else:
+            sizes = np.asanyarray(self._itemsizes)
+        start = 0
+        for size in sizes:
+            yield data[start:start+size]
+            start += size
+
     def __repr__(self):
         return f"List({len(self)}, {self._data._dtype})"
-- 
2.43.0


From 96c872c4b6a6bce419310bee78723f2eb875ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 15/82] fix: make matrices recorded by render serializable and
 usable on replay

---
 gsp/core/types.py                |  4 +++-
 gsp/io/json.py                   |  6 ++++--
 gsp/visual/visual.py             | 14 +++++++++++---
 gsp_matplotlib/__init__.py       |  4 ++--
 gsp_matplotlib/visual/markers.py |  2 +-
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4ccef29..4dce319 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -50,7 +50,9 @@ class Matrix:
             The 16 values of the matrix
         """
 
-        self._data = np.frombuffer(data, dtype=np.float32)
+        if isinstance(data, (bytes, memoryview)):
+            data = np.frombuffer(data, dtype=np.float32)
+        self._data = np.array(data, dtype=np.float32).reshape(4,4)
 
     def __array__(self):
         return self._data
diff --git a/gsp/io/json.py b/gsp/io/json.py
index c374a5b..974a4df 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -11,7 +11,7 @@ from . command import CommandQueue, Command
 from . convert import numpy_dtype_to_str
 
 def default(obj):
-    from gsp.core.types import Color
+    from gsp.core.types import Color, Matrix
 
     if isinstance(obj, memoryview):
         return base64.b64encode(bytes(obj)).decode()
@@ -24,7 +24,9 @@ def default(obj):
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
     elif isinstance(obj, Color):
-        return tuple(obj._color.tolist())
+        return tuple(obj)
+    elif isinstance(obj, Matrix):
+        return np.asarray(obj).ravel().tolist()
     elif isinstance(obj, Object):
         return obj.id
     raise TypeError(f'Object of type {obj.__class__.__name__} is not JSON serializable')
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ae20046..99ddade 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -9,6 +9,14 @@ from gsp.core import Viewport, List, Buffer, Matrix
 from gsp.io.command import command
 
 
+def to_array(matrix):
+    """ Matrix (possibly given as its 16 values) as a 4x4 array """
+
+    if isinstance(matrix, np.ndarray):
+        return matrix
+    return np.asarray(matrix, dtype=np.float32).reshape(4,4)
+
+
 class Visual(Object):
     """
     Generic Visual
@@ -109,11 +117,11 @@ class Visual(Object):
 
         # We store the model/view/proj matrices for resize events
         if model is not None:
-            self._model = model
+            self._model = to_array(model)
         if view is not None:
-            self._view = view
+            self._view = to_array(view)
         if proj is not None:
-            self._proj = proj
+            self._proj = to_array(proj)
 
         try:
             self._transform = self._proj @ self._view @ self._model
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 2369b89..8172d48 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,7 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
-from gsp.core.types import Marker
+from gsp.core.types import Marker, Matrix
 
 from . import core
 from . import visual
@@ -22,7 +22,7 @@ from .glm.mat234 import *
 from gsp.io import register
 
 
-@register("ndarray", "Matrix")
+@register(("ndarray", "list"), "Matrix")
 def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 20550f7..1410fa6 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -112,7 +112,7 @@ class Markers(visual.Markers):
         #  - A unique type of marker
         #  But then, we would still need to keep track of the
         #  different variables to check is anything has changed.
-        P = glm.to_vec3(glm.to_vec4(positions) @ model.T)
+        P = glm.to_vec3(glm.to_vec4(positions) @ self._model.T)
         self.generate_markers(P)
 
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-- 
2.43.0


From 1b0ff52ee14a417435ae50e3e0837195c9baa275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 16/82] fix: dump the creation of just-in-time buffers before
 the command using them

---
 gsp/io/command.py | 19 +++++++++++++++++++
 gsp/io/json.py    |  9 +++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index d7a0e65..c183e98 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -11,6 +11,7 @@ import types
 import typing
 import inspect
 import itertools
+import contextlib
 from datetime import datetime
 from functools import wraps
 from types import UnionType
@@ -181,6 +182,24 @@ class CommandQueue(metaclass = NamedSingleton):
         return False
 
 
+@contextlib.contextmanager
+def issued_commands():
+    """
+    Context manager that collects commands issued in its body,
+    without recording them in any known queue.
+    """
+
+    global __record__
+
+    recorded, active = __record__, CommandQueue.active
+    scratch = type.__call__(CommandQueue, "scratch")
+    __record__ = True
+    try:
+        yield scratch.commands
+    finally:
+        __record__, CommandQueue.active = recorded, active
+
+
 def get_default_args(func):
     """Retrieve default arguments and their values from a function. """
 
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 974a4df..14b731e 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -7,7 +7,7 @@ import json
 import base64
 import numpy as np
 from gsp.object import Object
-from . command import CommandQueue, Command
+from . command import CommandQueue, Command, issued_commands
 from . convert import numpy_dtype_to_str
 
 def default(obj):
@@ -68,7 +68,12 @@ def dump(queue=None, filename=None):
     queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
-        commands.append(dump_command(command, stream=None))
+        # Just-in-time conversion of parameters may create new objects
+        # (e.g. a buffer) whose own commands must come first.
+        with issued_commands() as issued:
+            payload = dump_command(command, stream=None)
+        commands.extend(dump_command(c, stream=None) for c in issued)
+        commands.append(payload)
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From a06937c265e7aeb7d946a65c4577409d1b270b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 17/82] fix: ansi dump of queues loaded from a file, without
 side effect on the queue

---
 gsp/io/ansi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index f4b8d5d..fc406c9 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import Union, get_args, get_origin
 from datetime import datetime
 from gsp.object import Object, OID
-from . command import CommandQueue, Command, Converter, CID
+from . command import CommandQueue, Command, Converter, CID, issued_commands
 
 def bold(s): return f"\033[1m{s}\033[0m"
 def dim(s): return f"\033[2m{s}\033[0m"
@@ -38,11 +38,13 @@ def dump_command(command, stream=sys.stdout):
     s += "     - COMMAND_ID: %s" % command.id + dim(" (int)\n")
     s += "     - TIMESTAMP: %s" % date.strftime("%Y-%m-%dT%H:%M:%S.%f") + dim(" (datetime)\n")
     s += dim("   PARAMETERS\n")
+    annotations = command.annotations or {}
     for key,value in command.parameters.items():
 
         # Immediate conversion for lisibility in the documentation
         if isinstance(value, Converter):
-            value = value()
+            with issued_commands():
+                value = value()
             if isinstance(value, Object):
                 value = value.id
             else:
@@ -53,10 +55,10 @@ def dump_command(command, stream=sys.stdout):
         else:
             if key.endswith("(id)"):
                 key = key[:-4]
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, int)
                 key += "_ID"
             else:
-                vtype = command.annotations[key]
+                vtype = annotations.get(key, type(value))
 
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
-- 
2.43.0


From cc15064cdc04948aee293414cd3506b065540278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 18/82] fix: text dump of a queue

---
 gsp/io/text.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gsp/io/text.py b/gsp/io/text.py
index 3e2312a..6657fd7 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -5,7 +5,7 @@ import io
 import sys
 from datetime import datetime
 from gsp.object import Object, OID
-from . command import CommandQueue, Command, Converter, CID
+from . command import CommandQueue, Command, Converter, CID, issued_commands
 
 def bold(s): return s
 def dim(s): return s
@@ -36,16 +36,28 @@ def dump_command(command, stream=sys.stdout):
     s += "     - COMMAND_ID: %s" % command.id + dim(" (int)\n")
     s += "     - TIMESTAMP: %s" % date.strftime("%Y-%m-%dT%H:%M:%S.%f") + dim(" (datetime)\n")
     s += dim("   PARAMETERS\n")
+    annotations = command.annotations or {}
     for key,value in command.parameters.items():
 
         # Immediate conversion for lisibility in the documentation
         if isinstance(value, Converter):
-            value = str(value()) + " (converted)"
+            with issued_commands():
+                value = value()
+            if isinstance(value, Object):
+                value = value.id
+            else:
+                value = str(value) + " (converted)"
 
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
-            vtype = command.annotations[key]
+            if key.endswith("(id)"):
+                key = key[:-4]
+                vtype = annotations.get(key, int)
+                key += "_ID"
+            else:
+                vtype = annotations.get(key, type(value))
+
             if hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
             else:
@@ -61,9 +73,9 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue.get_default()
+    queue = CommandQueue("active") if queue is None else queue
     commands = ""
-    for command in queue._commands:
+    for command in queue.commands:
         commands += dump_command(command, stream=None)
         commands += "\n"
 
-- 
2.43.0


From aeaec779a1f4c2368f09c40e6ccbec5dfa89c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 19/82] fix: create a generic Measure

---
 gsp/transform/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 4975fd7..1e2c02c 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -45,7 +45,8 @@ class Measure(Transform):
 
     @command("transform.Measure")
     def __init__(self):
-        super.__init__(__no_command__ = True)
+        Transform.__init__(self,
+                           __no_command__ = True)
 
 
     def evaluate(self, variables):
-- 
2.43.0


From 514512f9f9871df4643180f110b28553cbb6dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 20/82] fix: a meter is 100 centimeters

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 1e2c02c..c266339 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -215,7 +215,7 @@ class Meter(Measure):
         """Evaluate the transform"""
 
         measure = Measure.evaluate(self, variables)
-        return 10e2*self.dpi(variables)/2.54 * measure
+        return 1e2*self.dpi(variables)/2.54 * measure
 
 class Kilometer(Measure):
     """
-- 
2.43.0


From 6dddb1b8a49c92729d3c0210147158ad7e1180f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 21/82] fix: keep both operands when copying an operator

---
 gsp/transform/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 81c1a8d..9a61786 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -115,7 +115,7 @@ class Operator(Transform):
         if isinstance(self._right, Transform):
             transform.set_right(self._right.copy())
         else:
-            transform.set_left(self._left)
+            transform.set_right(self._right)
 
         return transform
 
-- 
2.43.0


From 74d4d5840275409965ee11589a5945da841f1180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 22/82] fix: bound property of operators with numeric or buffer
 operands

---
 gsp/transform/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 9a61786..23196e5 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -46,7 +46,8 @@ class Operator(Transform):
         Indicate if this transform is bound
         """
 
-        return self.left.bound and self.right.bound
+        return all(operand.bound for operand in (self.left, self.right)
+                   if isinstance(operand, Transform))
 
     @property
     def operator(self):
-- 
2.43.0


From 9ff7e542a681492141c2082205bc0adfaef31747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 23/82] fix: evaluate operators whose operands are lists or
 buffers

---
 gsp/transform/operator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 23196e5..a59a2ae 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
@@ -125,12 +126,12 @@ class Operator(Transform):
         if isinstance(self._left, Transform):
             left = self._left.evaluate(variables)
         else:
-            left = self._left
+            left = np.asanyarray(self._left)
 
         if isinstance(self._right, Transform):
             right = self._right.evaluate(variables)
         else:
-            right = self._right
+            right = np.asanyarray(self._right)
 
         return left, right
 
-- 
2.43.0


From 2bda2d91d6f00293468312ddb3b3a360a080adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 24/82] fix: evaluate accessors on buffers and without
 variables

---
 gsp/transform/accessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 7d2ea13..51acbf4 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -37,7 +37,7 @@ class Accessor(Transform):
         if self._next:
             buffer = self._next.evaluate(buffers)
         elif self._buffer is not None:
-            buffer = self._buffer
+            buffer = np.asanyarray(self._buffer)
         else:
             raise ValueError("Transform is not bound")
 
@@ -50,7 +50,7 @@ class Accessor(Transform):
         else:
             raise IndexError(f"Unknown key {self._key}")
 
-        if "index" in buffers.keys():
+        if buffers and "index" in buffers.keys():
             return buffer[buffers["index"]]
         else:
             return buffer
-- 
2.43.0


From 9f87f8ad34bd8bc17d774e18fad9ff37a35e1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 25/82] fix: take into account a colormap limit equal to zero

---
 gsp/transform/colormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 7bae427..1737346 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -79,6 +79,6 @@ class Colormap(Transform):
         else:
             value = self._buffer
         cmap = plt.get_cmap(self._colormap)
-        norm = mpl.colors.Normalize(vmin=self._vmin or value.min(),
-                                    vmax=self._vmax or value.max())
+        norm = mpl.colors.Normalize(vmin=value.min() if self._vmin is None else self._vmin,
+                                    vmax=value.max() if self._vmax is None else self._vmax)
         return cmap(norm(value))
-- 
2.43.0


From 3e87c739f994730206c5d329681e870b183a801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 26/82] fix: evaluate a colormap bound to a buffer

---
 gsp/transform/colormap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 1737346..d7dd41a 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from gsp.io.command import command
 from gsp.transform import Transform
@@ -77,7 +78,7 @@ class Colormap(Transform):
         if self._next:
             value = self._next.evaluate(buffers)
         else:
-            value = self._buffer
+            value = np.asanyarray(self._buffer)
         cmap = plt.get_cmap(self._colormap)
         norm = mpl.colors.Normalize(vmin=value.min() if self._vmin is None else self._vmin,
                                     vmax=value.max() if self._vmax is None else self._vmax)
-- 
2.43.0


From 9470b55f8edd8b90d851e50b6843d67a108064c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 27/82] fix: set_colormap sets the colormap

---
 gsp/transform/colormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index d7dd41a..8cb75b0 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -53,7 +53,7 @@ class Colormap(Transform):
         colormap:
             Name of the colormap
         """
-        pass
+        self._colormap = colormap
 
     def copy(self):
         """
-- 
2.43.0


From 1ade1f36ee1f228e68fc21af88ed2ab1cdd91611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 28/82] fix: errors of out transforms with an unknown key or
 when composed

---
 gsp/transform/out.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 4df39a1..00e8664 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -26,7 +26,7 @@ class Out(Transform):
         Transform.__init__(self, __no_command__ = True)
         self.name = name
 
-    def __call__(self):
+    def __call__(self, other):
         raise ValueError("Out transform cannot be composed")
 
     def copy(self):
@@ -60,6 +60,8 @@ class Out(Transform):
                 if set(key).issubset(set(swizzle)):
                     index = [swizzle.index(c) for c in key]
                     break
+            else:
+                raise IndexError(f"Unknown key {key}")
         else:
             name = self.name
             index = None
-- 
2.43.0


From c3c55bb18de2879d79baafc55a1beb7bd18a7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 29/82] fix: record the parameters of copied transforms such
 that they can be replayed

---
 gsp/transform/accessor.py  | 7 ++++---
 gsp/transform/colormap.py  | 6 +-----
 gsp/transform/out.py       | 3 +--
 gsp/transform/transform.py | 6 +++---
 4 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 51acbf4..e88b42e 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -29,9 +29,10 @@ class Accessor(Transform):
         self._key = key
 
     def copy(self):
-        transform = Transform.copy(self)
-        transform._key = self._key
-        return transform
+        # Specific accessors (X, Y, ...) already know their key
+        if type(self) is Accessor:
+            return Transform.copy(self, None, self._key)
+        return Transform.copy(self)
 
     def evaluate(self, buffers=None):
         if self._next:
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 8cb75b0..e0c1a24 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -60,11 +60,7 @@ class Colormap(Transform):
         Copy the transform
         """
 
-        transform = Transform.copy(self)
-        transform._colormap = self._colormap
-        transform._vmin = self._vmin
-        transform._vmax = self._vmax
-        return transform
+        return Transform.copy(self, self._colormap, self._vmin, self._vmax)
 
 
     def evaluate(self, buffers : list):
diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 00e8664..86bb105 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -34,10 +34,9 @@ class Out(Transform):
         Copy the transform
         """
 
-        transform = self.__class__()
+        transform = self.__class__(self.name)
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
-        transform.name = self.name
         if self._next:
             transform.set_next(self._next.copy())
         return transform
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2bac37a..96ab866 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -132,12 +132,12 @@ class Transform(Object):
         """
         return self.last.buffer is not None
 
-    def copy(self):
+    def copy(self, *args):
         """
-        Copy the transform
+        Copy the transform, using args to create the new one
         """
 
-        transform = self.__class__()
+        transform = self.__class__(*args)
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
         if self._next:
-- 
2.43.0


From c01f9978803fdc2495b2aa41afe37d3269ca6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 30/82] fix: arrays defer to transforms in arithmetic
 expressions

---
 gsp/transform/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 96ab866..043c35e 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -9,6 +9,9 @@ from gsp.io.command import command
 
 class Transform(Object):
 
+    # See https://numpy.org/doc/stable/user/c-info.beyond-basics.html
+    __array_priority__ = 2
+
     @command("transform.Transform")
     def __init__(self, base : Transform = None,
                        next : Transform = None,
-- 
2.43.0


From caebfb66927dc470dc4a338c5d53cd4d28346c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 31/82] fix: chain a transform at the end of an existing chain
 instead of replacing it

---
 gsp/transform/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 043c35e..55f0ee5 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -154,8 +154,9 @@ class Transform(Object):
 
         transform = self.copy()
         if isinstance(other, Transform):
-            transform.set_next(other.copy())
-            transform.set_buffer(None)
+            last = transform.last
+            last.set_next(other.copy())
+            last.set_buffer(None)
         elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
             if self.bound:
                 raise ValueError("Transform is already bound")
-- 
2.43.0


From dc1ad3d227e430c5acb0ec8661a4a2907cbae970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 32/82] fix: product of a bound measure with a number, and of a
 list with a measure

---
 gsp/transform/measure.py   | 2 +-
 gsp/transform/transform.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index c266339..45b2781 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -97,7 +97,7 @@ class Measure(Transform):
         return scale * value
 
     def __mul__(self, other):
-        if isinstance(other, (int,float,tuple,np.ndarray)):
+        if not self.bound and isinstance(other, (int,float,tuple,list,np.ndarray)):
             return self(other)
         return Transform.__mul__(self, other)
 
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 55f0ee5..fc9355a 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -157,7 +157,7 @@ class Transform(Object):
             last = transform.last
             last.set_next(other.copy())
             last.set_buffer(None)
-        elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
+        elif isinstance(other, (Buffer, np.ndarray, float, int, tuple, list)):
             if self.bound:
                 raise ValueError("Transform is already bound")
             transform.last.set_buffer(other)
-- 
2.43.0


From 8da4d24f337166184c669cdcf336d00c79d64b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 33/82] fix: convert tuples to buffers like lists

---
 gsp_matplotlib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 8172d48..650cfce 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -27,7 +27,7 @@ def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
 
-@register("list", "Buffer")
+@register(("list", "tuple"), "Buffer")
 def list_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
     #       several buffers pointing at the same underlying object?
-- 
2.43.0


From ab6f79b7643950f26a1b4b7b72d48d1020c0bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 34/82] fix: division of a number by a transform

---
 gsp/transform/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index fc9355a..d0a9071 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -197,6 +197,9 @@ class Transform(Object):
         from gsp.transform import Div
         return Div(self, other)
 
+    def __rtruediv__(self, other):
+        from gsp.transform import Div
+        return Div(other, self)
 
     def __repr__(self):
 
-- 
2.43.0


From c10c3e9fd8e8da72f1de0bfa7917f34ab636fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 35/82] fix: draw pixels from far to near like every other
 visual

---
 gsp_matplotlib/visual/pixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index fab47b4..5ca9808 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -69,7 +69,7 @@ class Pixels(visual.Pixels):
         positions = self.eval_variable("positions")
         # positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-        sort_indices = np.argsort(positions[:,2])
+        sort_indices = np.argsort(-positions[:,2])
         collection.set_offsets(positions[sort_indices,:2])
 
         self.set_variable("screen[positions]", positions)
-- 
2.43.0


From 261b6bcf9f1cf71c7eaff6f8bca8f31a209017fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 36/82] fix: do not draw pixels, points and markers twice

---
 gsp_matplotlib/visual/markers.py | 1 -
 gsp_matplotlib/visual/pixels.py  | 1 -
 gsp_matplotlib/visual/points.py  | 1 -
 3 files changed, 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 1410fa6..5fdab75 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -83,7 +83,6 @@ class Markers(visual.Markers):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 5ca9808..4b7c7e2 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -49,7 +49,6 @@ class Pixels(visual.Pixels):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 57e9ac8..6033a8f 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -43,7 +43,6 @@ class Points(visual.Points):
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
             self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
-- 
2.43.0


From 05c4c204db02424a412a989412a5aeb613de691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 37/82] fix: a single color is not one color per item when
 there are four items

---
 gsp_matplotlib/visual/markers.py  | 4 ++--
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/pixels.py   | 2 +-
 gsp_matplotlib/visual/points.py   | 4 ++--
 gsp_matplotlib/visual/polygons.py | 4 ++--
 gsp_matplotlib/visual/segments.py | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 5fdab75..eee7719 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -128,13 +128,13 @@ class Markers(visual.Markers):
         collection.set_offsets(positions[sort_indices,:2])
 
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray) and (len(fill_colors) == len(positions)):
+        if np.ndim(fill_colors) > 1 and len(fill_colors) == len(positions):
             collection.set_facecolors(fill_colors[sort_indices])
         else:
             collection.set_facecolors(fill_colors)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if np.ndim(line_colors) > 1 and len(line_colors) == len(positions):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b1df20d..fceebde 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -115,7 +115,7 @@ class Paths(visual.Paths):
 
         # Line colors
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
             # Number of color == number of paths
             if len(line_colors) == len(paths):
                 collection.set_edgecolors(line_colors[sort_indices])
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 4b7c7e2..59af24e 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -75,7 +75,7 @@ class Pixels(visual.Pixels):
 
         colors = self.eval_variable("colors")
         if colors is not None:
-            if isinstance(colors, np.ndarray) and len(colors) == len(positions):
+            if np.ndim(colors) > 1 and len(colors) == len(positions):
                 collection.set_facecolors(colors[sort_indices])
             else:
                 collection.set_facecolors(colors)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 6033a8f..3099161 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -72,13 +72,13 @@ class Points(visual.Points):
 
 
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray) and (len(fill_colors) == len(positions)):
+        if np.ndim(fill_colors) > 1 and len(fill_colors) == len(positions):
             collection.set_facecolors(fill_colors[sort_indices])
         else:
             collection.set_facecolors(fill_colors)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if np.ndim(line_colors) > 1 and len(line_colors) == len(positions):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index e0d737b..d5b34d4 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -111,7 +111,7 @@ class Polygons(visual.Polygons):
 
         # Fil colors
         fill_colors = self.eval_variable("fill_colors")
-        if isinstance(fill_colors, np.ndarray):
+        if isinstance(fill_colors, np.ndarray) and fill_colors.ndim > 1:
             # Number of color == number of polygons
             if len(fill_colors) == len(polygons):
                 collection.set_facecolors(fill_colors[sort_indices])
@@ -126,7 +126,7 @@ class Polygons(visual.Polygons):
 
         # Line colors
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray):
+        if isinstance(line_colors, np.ndarray) and line_colors.ndim > 1:
             # Number of color == number of polygons
             if len(line_colors) == len(polygons):
                 collection.set_edgecolors(line_colors[sort_indices])
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 95949b7..389d11b 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -74,7 +74,7 @@ class Segments(visual.Segments):
         self.set_variable("screen[segments]", depth)
 
         line_colors = self.eval_variable("line_colors")
-        if isinstance(line_colors, np.ndarray) and (len(line_colors) == len(positions)):
+        if np.ndim(line_colors) > 1 and len(line_colors) == len(positions):
             collection.set_edgecolors(line_colors[sort_indices])
         else:
             collection.set_edgecolors(line_colors)
-- 
2.43.0


From e3ea8b7a8a1fc22ca7809ec51157e9f80329075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 38/82] fix: a single size may result from a transform

---
 gsp_matplotlib/visual/markers.py | 2 +-
 gsp_matplotlib/visual/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index eee7719..ac1d092 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -149,7 +149,7 @@ class Markers(visual.Markers):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.broadcast_to(np.ravel(sizes), len(positions)))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 3099161..5375c38 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -93,7 +93,7 @@ class Points(visual.Points):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.broadcast_to(np.ravel(sizes), len(positions)))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From 994a124180596f9ce158c05553b878e7c76a0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 39/82] fix: paths and polygons with a list of sizes

---
 gsp_matplotlib/visual/paths.py    | 4 ++++
 gsp_matplotlib/visual/polygons.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index fceebde..0cba4c6 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -81,6 +81,10 @@ class Paths(visual.Paths):
         # Here we consider all the case of indices shape
         indices = self.eval_variable("indices")
 
+        # List of integers are sizes, like a buffer
+        if isinstance(indices, list) and all(np.ndim(i) == 0 for i in indices):
+            indices = np.asarray(indices, dtype=int)
+
         # Integer means paths of equal size, consecutive vertices
         if isinstance(indices, (int)):
             size  = indices
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index d5b34d4..7761f5b 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -77,6 +77,10 @@ class Polygons(visual.Polygons):
         # Here we consider all the case of indices shape
         indices = self.eval_variable("indices")
 
+        # List of integers are sizes, like a buffer
+        if isinstance(indices, list) and all(np.ndim(i) == 0 for i in indices):
+            indices = np.asarray(indices, dtype=int)
+
         # Integer means polygons of equal size, consecutive vertices
         if isinstance(indices, (int)):
             size  = indices
-- 
2.43.0


From 9911d19b136640ccc067afa57787931c5949ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 40/82] fix: size of the raster image of a canvas

---
 gsp_matplotlib/core/canvas.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 17ce1dd..c942a0b 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -30,13 +30,22 @@ class Canvas(core.Canvas):
 
         self._figure = plt.figure(frameon=False, dpi=self._dpi)
         self._figure.patch.set_alpha(0.0)
-        self._figure.set_size_inches(self._width / self._dpi,
-                                     self._height /self._dpi)
+        self._figure.set_size_inches(self._inches(self._width),
+                                     self._inches(self._height))
 
         canvas = self._figure.canvas
         canvas.mpl_connect('resize_event', lambda event: self._figure.canvas.draw())
 
 
+    def _inches(self, pixels):
+        """ Convert pixels to inches such that no pixel is lost to rounding """
+
+        inches = pixels / self._dpi
+        if inches * self._dpi < pixels:
+            inches = np.nextafter(inches, np.inf)
+        return inches
+
+
     @property
     def size(self):
         # figure.dpi and canvas.dpi might be different because system
@@ -52,6 +61,7 @@ class Canvas(core.Canvas):
                 self._figure.savefig(output, format="raw")
                 output.seek(0)
                 data = np.frombuffer(output.getvalue(), dtype=np.uint8)
-            return data.reshape(self._height, self._width, -1)
+            width, height = [int(size) for size in self.size]
+            return data.reshape(height, width, -1)
         else:
             self._figure.savefig(target, dpi=self._dpi)
-- 
2.43.0


From 9e117e6d83068e1b91e5004d147f2eb54f1ee780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 41/82] fix: sizes given as a list follow the item they belong
 to

---
 gsp_matplotlib/visual/markers.py | 6 +++---
 gsp_matplotlib/visual/points.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index ac1d092..f8660d7 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -145,11 +145,11 @@ class Markers(visual.Markers):
         else:
             collection.set_linewidths(line_widths)
 
-        sizes = self.eval_variable("sizes")
-        if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
+        sizes = np.ravel(self.eval_variable("sizes"))
+        if len(sizes) == len(positions):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes(np.broadcast_to(np.ravel(sizes), len(positions)))
+            collection.set_sizes(np.broadcast_to(sizes, len(positions)))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 5375c38..69bf675 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -89,11 +89,11 @@ class Points(visual.Points):
         else:
             collection.set_linewidths(line_widths)
 
-        sizes = self.eval_variable("sizes")
-        if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
+        sizes = np.ravel(self.eval_variable("sizes"))
+        if len(sizes) == len(positions):
             collection.set_sizes(sizes[sort_indices])
         else:
-            collection.set_sizes(np.broadcast_to(np.ravel(sizes), len(positions)))
+            collection.set_sizes(np.broadcast_to(sizes, len(positions)))
 
         # Restore tracking
         glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From b932db3c60fb74211d8252fa30cbff6bf40b693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 42/82] fix: frustum matrix when it is not vertically centered

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index ceaa163..422a22e 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -131,7 +131,7 @@ def frustum(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=F
     M[1, 1] = +2.0 * znear / (top - bottom)
     M[2, 2] = -(zfar + znear) / (zfar - znear)
     M[0, 2] = (right + left) / (right - left)
-    M[2, 1] = (top + bottom) / (top - bottom)
+    M[1, 2] = (top + bottom) / (top - bottom)
     M[2, 3] = -2.0 * znear * zfar / (zfar - znear)
     M[3, 2] = -1.0
 
-- 
2.43.0


From 0e5cb1d33f2e238096d781268358e84f1a21ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 43/82] fix: ortho matrix when it is not horizontally centered

---
 gsp_matplotlib/glm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 422a22e..835548c 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -213,7 +213,7 @@ def ortho(left, right, bottom, top, znear, zfar, dtype=np.float32, transpose=Fal
     M[1, 1] = +2.0 / (top - bottom)
     M[2, 2] = -2.0 / (zfar - znear)
     M[3, 3] = 1.0
-    M[0, 2] = -(right + left) / float(right - left)
+    M[0, 3] = -(right + left) / float(right - left)
     M[1, 3] = -(top + bottom) / float(top - bottom)
     M[2, 3] = -(zfar + znear) / float(zfar - znear)
 
-- 
2.43.0


From b9ed3047a17398dbeccf1251e107ff1d9c518dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 44/82] fix: lookat takes transpose into account

---
 gsp_matplotlib/glm/glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 835548c..d5d0f74 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -257,12 +257,17 @@ def lookat(eye=(0,0,4.5), center=(0,0,0), up=(0,0,1), dtype=np.float32, transpos
     Y = up
     X = normalize(np.cross(Y, Z))
     Y = normalize(np.cross(Z, X))
-    return np.array([
+    M = np.array([
         [X[0], X[1], X[2], -np.dot(X, eye)],
         [Y[0], Y[1], Y[2], -np.dot(Y, eye)],
         [Z[0], Z[1], Z[2], -np.dot(Z, eye)],
         [0, 0, 0, 1]], dtype=dtype)
 
+    if transpose:
+        return np.transpose(M)
+    else:
+        return M
+
 
 def scale(scale, dtype=np.float32, transpose=False):
     """Non-uniform scaling along the x, y, and z axes
-- 
2.43.0


From 7d3cc5a98ed25f437221a3d98e3869e259732ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 45/82] fix: align vectors that have the same or opposite
 direction

---
 gsp_matplotlib/glm/glm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index d5d0f74..82d2975 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -532,11 +532,15 @@ def align(U, V, dtype=np.float32, transpose=False):
     v = np.cross(a, b)
     c = np.dot(a, b)
     s = np.linalg.norm(v)
+    if c < 0 and s < 1e-10:
+        # Opposite vectors: half turn around any axis orthogonal to a
+        axis = normalize(np.cross(a, np.eye(3)[np.argmin(np.abs(a))]))
+        return rotate(180, axis, dtype, transpose)
     K = np.array([[   0, -v[2], v[1]],
                   [ v[2],   0, -v[0]],
                   [-v[1], v[0],   0]])
     R = np.zeros((4,4), dtype=dtype)
-    R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / (s ** 2))
+    R[:3, :3] = np.eye(3) + K + K@K * ((1 - c) / s**2 if c < 0 else 1 / (1 + c))
     R[3, 3] = 1
 
     if transpose:
-- 
2.43.0


From 6556e478561c0283a6e831d0fa68179a0f1157a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 46/82] fix: undefined names in fit (and mesh) and center

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 82d2975..7d281e9 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -315,7 +315,7 @@ def fit(vertices):
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
-    V = 2*(vertices - Vmin) / max(Vmax-Vmin) - 1
+    V = 2*(vertices - vmin) / max(vmax-vmin) - 1
     return  V - (V.min(axis=0) + V.max(axis=0))/2
 
 
@@ -365,7 +365,7 @@ def center(vertices):
 
     vmin = vertices.min(axis=0)
     vmax = vertices.max(axis=0)
-    return V - (vmax+vmin)/2
+    return vertices - (vmax+vmin)/2
 
 
 def xrotate(theta=0, dtype=np.float32, transpose=False):
-- 
2.43.0


From d10f3a77b1cf2d3988e567be565eb000f9acecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 47/82] fix: scale and translation of the static camera

---
 gsp_matplotlib/glm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 7d281e9..9df0817 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -572,8 +572,8 @@ def camera(xrotation=25, yrotation=45, zoom=1, mode="perspective"):
     xrotation = min(max(xrotation, 0), 90)
     yrotation = min(max(yrotation, 0), 90)
     zoom = max(0.1, zoom)
-    model = scale(zoom,zoom,zoom) @ xrotate(xrotation) @ yrotate(yrotation)
-    view  = translate(0, 0, -4.5)
+    model = scale((zoom,zoom,zoom)) @ xrotate(xrotation) @ yrotate(yrotation)
+    view  = translate((0, 0, -4.5))
     if mode == "ortho":
         proj  = ortho(-1, +1, -1, +1, 1, 100)
     else:
-- 
2.43.0


From e7447389bb50ff32323b4250cddb971779abaa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 48/82] fix: undefined name in icosahedron

---
 gsp_matplotlib/glm/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/shapes.py b/gsp_matplotlib/glm/shapes.py
index 19d951a..eae99fd 100644
--- a/gsp_matplotlib/glm/shapes.py
+++ b/gsp_matplotlib/glm/shapes.py
@@ -105,5 +105,5 @@ def icosahedron():
               [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9],
               [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1] ]
     verts = np.array(verts, dtype=np.float32)/np.sqrt(a+2)/2
-    faces = np.array(faces, dtype=uint32)
+    faces = np.array(faces, dtype=np.uint32)
     return verts, faces
-- 
2.43.0


From 3ef4dd2ca367af2ce4a9837d59d05c42e0598332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 49/82] fix: set components of a vector whose number of items
 equals number of components

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index 3eb6d82..c54d462 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -34,6 +34,7 @@ class swizzle(tracked):
 
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
+                components = self.ndim == 1 or isinstance(value, tuple)
                 value = np.asarray(value)
                 shape = value.shape
                 indices = [swizzle.index(c) for c in key]
@@ -43,6 +44,11 @@ class swizzle(tracked):
                     for index in indices:
                         self[..., index] = value
                     break
+                # Z.xy = 1,2
+                elif components and shape == (len(key),):
+                    for index, component in zip(indices, value):
+                        self[..., index] = component
+                    break
                 # Z.xy = np.ones(10)
                 elif len(self) == value.size: # shape[-1] == 1:
                     for index in indices:
-- 
2.43.0


From 0c7cdf7e8fce1d7d94fdbe696ac0d1a3cc693222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 50/82] fix: signal the memory that is actually modified to the
 tracker (views, negative steps, array keys)

---
 gsp_matplotlib/glm/ndarray/tracked.py | 100 +++++++++++++-------------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index a48e145..b5d415d 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -43,10 +43,7 @@ class tracked(np.ndarray):
 
         if not isinstance(obj, tracked):
             self.__class__.__init__(self)
-        if obj is None:
-            self._extents = 0, self.size*self.itemsize
-        else:
-            self._extents = self._compute_extents(obj)
+        self._extents = 0, self.size*self.itemsize
         self._dirty = self._extents
         self._tracker = getattr(obj, '_tracker', None)
         if self._tracker is None and self.__tracker_class__ is not None:
@@ -83,18 +80,28 @@ class tracked(np.ndarray):
                 stop = max(self._dirty[1], stop)
                 self._dirty = start, stop
 
+    @property
+    def _root(self):
+        """Tracked array this array is a (direct or indirect) view of"""
+
+        root = self
+        while isinstance(root.base, tracked):
+            root = root.base
+        return root
+
     def _compute_extents(self, Z):
-        """Compute extents (start, stop) in bytes in the base array"""
-
-        if Z.base is not None:
-            base = Z.base.__array_interface__['data'][0]
-            view = Z.__array_interface__['data'][0]
-            offset = view - base
-            shape = np.array(Z.shape) - 1
-            strides = Z.strides[-len(shape):]
-            size = (shape*strides).sum() + Z.itemsize
-            return offset, offset+size
-        return 0, Z.size*Z.itemsize
+        """Compute extents (start, stop) in bytes in the root array"""
+
+        def bounds(Z):
+            start = stop = Z.__array_interface__['data'][0]
+            for size, stride in zip(Z.shape, Z.strides):
+                start += min(0, (size-1)*stride)
+                stop += max(0, (size-1)*stride)
+            return start, stop + Z.itemsize
+
+        start, stop = bounds(Z)
+        offset, _ = bounds(self._root)
+        return start - offset, stop - offset
 
     # def _compute_extents(self, Z):
     #     """Compute extents (start, stop) in bytes in the base array"""
@@ -113,47 +120,40 @@ class tracked(np.ndarray):
     #     return 0, Z.size*Z.itemsize
 
 
-    def __getitem__(self, key):
-        Z = np.ndarray.__getitem__(self, key)
-        if not hasattr(Z, 'shape') or Z.shape == ():
-            return Z
-        Z._extents = self._compute_extents(Z)
-        return Z
-
     def __setitem__(self, key, value):
-        Z = np.ndarray.__getitem__(self, key)
-        if Z.shape == ():
-            # This test for the case of [...,index] notation. Since we
-            # know the result is a scalar, we can safely remove the
-            # ellipsis component (that should be the first item).
-            if (isinstance(key, tuple)):
-                key = tuple([k for k in key if k is not Ellipsis])
-            key = tuple(np.mod(np.array(key), self.shape))
-            offset = np.ravel_multi_index(key, self.shape, mode='wrap')*self.itemsize
-            self._update(offset, offset+self.itemsize)
-
         # Test for fancy indexing
-        elif (Z.base is not self and (isinstance(key, list) or
-               (hasattr(key, '__iter__') and
-                any(isinstance(k, (list,np.ndarray)) for k in key)))):
+        if (isinstance(key, list) or
+            (isinstance(key, tuple) and
+             any(isinstance(k, (list,np.ndarray)) for k in key))):
             raise NotImplementedError("Fancy indexing not supported")
-        else:
-            Z._extents = self._compute_extents(Z)
-            self._update(Z._extents[0], Z._extents[1])
+
+        Z = np.ndarray.__getitem__(self, key)
+        if not isinstance(Z, np.ndarray):
+            # Scalar: get a view on it instead
+            key = key if isinstance(key, tuple) else (key,)
+            Z = np.ndarray.__getitem__(self, key + (Ellipsis,))
         np.ndarray.__setitem__(self, key, value)
 
-        if self._tracker:
-            base = self
-            while base.base is not None and isinstance(base.base, tracked):
-                base = base.base
-            data = base.view(np.ubyte).ravel()
-            start, stop = self._dirty
-            if base is not self:
-                base._tracker.set_data(start, data[start:stop].tobytes())
-                base.clear()
+        if Z.size:
+            # When selection is not a view (array of indices or
+            # booleans), any part of the array might have been modified
+            if not np.may_share_memory(Z, self):
+                Z = self
+            self._update(*self._compute_extents(Z))
+        self._signal()
+
+    def _signal(self):
+        """ Signal the dirty region to the tracker (if any) """
+
+        root = self._root
+        if root._tracker and root._dirty:
+            if root.flags.c_contiguous:
+                start, stop = root._dirty
+                data = root.view(np.ndarray).reshape(-1).view(np.ubyte)
+                root._tracker.set_data(start, data[start:stop].tobytes())
             else:
-                self._tracker.set_data(start, data[start:stop].tobytes())
-                self.clear()
+                root._tracker.set_data(0, root.tobytes())
+            root.clear()
 
     def __getslice__(self, start, stop):
         return self.__getitem__(slice(start, stop))
-- 
2.43.0


From 66001079b28d717caddc43502ac36c9bb2510e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 51/82] fix: signal in place operations to the tracker

---
 gsp_matplotlib/glm/ndarray/tracked.py | 35 +++++++++++++++------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index b5d415d..59aece8 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -161,18 +161,23 @@ class tracked(np.ndarray):
     def __setslice__(self, start, stop,  value):
         self.__setitem__(slice(int(start), int(stop)), value)
 
-    def __iadd__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__iadd__(self, other)
-
-    def __isub__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__isub__(self, other)
-
-    def __imul__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__imul__(self, other)
-
-    def __idiv__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+    def _inplace(name):
+        """ In place operator that signals modification to the tracker """
+
+        operator = getattr(np.ndarray, name)
+        def method(self, other):
+            result = operator(self, other)
+            if result is self and self.size:
+                self._update(*self._compute_extents(self))
+                self._signal()
+            return result
+        return method
+
+    __iadd__ = _inplace("__iadd__")
+    __isub__ = _inplace("__isub__")
+    __imul__ = _inplace("__imul__")
+    __itruediv__ = _inplace("__itruediv__")
+    __ifloordiv__ = _inplace("__ifloordiv__")
+    __imod__ = _inplace("__imod__")
+    __ipow__ = _inplace("__ipow__")
+    del _inplace
-- 
2.43.0


From 66a4474d1d4e04e6915d452e3688ec51d5702873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 52/82] fix: copies and parts of a tracked array do not use its
 buffer

---
 gsp_matplotlib/__init__.py            | 16 ++++++++++++++++
 gsp_matplotlib/glm/ndarray/tracked.py |  8 ++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 650cfce..e75e2a1 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -59,12 +59,22 @@ def ndarray_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
+    if isinstance(obj, glm.ndarray.tracked):
+        return tracked_to_Buffer(obj)
     Z = obj.view(glm.ndarray.tracked)
     return Z._tracker.gsp_buffer
 
 
 @register("tracked", "Buffer")
 def tracked_to_Buffer(obj):
+    if obj._tracker is None:
+        # Array has been computed from a tracked array
+        if obj._root is not obj:
+            return Tracker(obj).gsp_buffer
+        obj._tracker = Tracker(obj)
+    elif not obj._tracker.tracks(obj):
+        # Array is a part or another view of a tracked array
+        return Tracker(obj).gsp_buffer
     return obj._tracker.gsp_buffer
 
 
@@ -76,6 +86,12 @@ class Tracker:
             self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
+    def tracks(self, ndarray):
+        """ Whether buffer corresponds to the exact content of ndarray """
+
+        return all(self.ndarray.__array_interface__[key] == ndarray.__array_interface__[key]
+                   for key in ["data", "shape", "strides", "typestr", "descr"])
+
     def set_data(self, offset, bytes):
         self.gsp_buffer.set_data(offset, bytes)
 
diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 59aece8..cc1bde2 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -45,8 +45,12 @@ class tracked(np.ndarray):
             self.__class__.__init__(self)
         self._extents = 0, self.size*self.itemsize
         self._dirty = self._extents
-        self._tracker = getattr(obj, '_tracker', None)
-        if self._tracker is None and self.__tracker_class__ is not None:
+        self._tracker = None
+        if isinstance(obj, tracked):
+            # Tracker is shared with views, not with copies
+            if np.may_share_memory(self, obj):
+                self._tracker = obj._tracker
+        elif obj is not None and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
 
     def clear(self):
-- 
2.43.0


From 3b5da99c1bd9038f3966e164073a9280a93b3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 53/82] fix: stepped and empty slices of a ragged array

---
 gsp_matplotlib/glm/ndarray/ragged.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 01fdeb7..4117c80 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -91,9 +91,21 @@ class ragged:
         self._items[0:, 1] += C
 
 
+    def _normalize(self, key):
+        """ Selection of non consecutive (or no) items as a list of indices """
+
+        if isinstance(key, slice):
+            indices = range(self._count)[key]
+            if indices.step != 1 or not len(indices):
+                return list(indices)
+        elif isinstance(key, np.ndarray) and key.ndim == 1:
+            return list(np.arange(self._count)[key])
+        return key
+
     def __getitem__(self, key):
         """ x.__getitem__(y) <==> x[y] """
 
+        key = self._normalize(key)
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
@@ -108,6 +120,7 @@ class ragged:
     def __setitem__(self, key, value):
         """ x.__setitem__(y, v) <==> x[y] = v"""
 
+        key = self._normalize(key)
         if isinstance(key, (list, tuple)):
             indices = []
             for k in key:
-- 
2.43.0


From 139d91c53ebb0bbf4141f9d6de5308e59664f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 54/82] fix: svg paths with commands following a closepath

---
 gsp/core/svg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index bcf525f..340718d 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -342,7 +342,6 @@ def _parse_path(pathdef, current_pos):
             yield COMMAND_CODES['Z'], verts
 
             current_pos = start_pos
-            start_pos = None
             command = None  # You can't have implicit commands after closing.
 
         # LINETO
@@ -395,7 +394,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'S':
             # Smooth curve. First control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'CS':
+            if last_command not in ('C', 'S'):
                 # If there is no previous command or if the previous command
                 # was not an C, c, S or s, assume the first control point is
                 # coincident with the current point.
@@ -437,7 +436,7 @@ def _parse_path(pathdef, current_pos):
         elif command == 'T':
             # Smooth curve. Control point is the "reflection" of
             # the second control point in the previous path.
-            if last_command not in 'QT':
+            if last_command not in ('Q', 'T'):
                 # If there is no previous command or if the previous command
                 # was not an Q, q, T or t, assume the first control point is
                 # coincident with the current point.
-- 
2.43.0


From 0db201910e89d0da2b84ca8dac7b556fe751e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 55/82] fix: do not convert a parameter that already has one of
 the declared types

---
 gsp/io/command.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index c183e98..9cb98cd 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -284,8 +284,8 @@ def command(name=None):
 
                     base_types = inspect.getmro(value.__class__)
 
+                    # Parameter is an instance of one the annotated type
                     for annotated_type in annotated_types:
-                        # Parameter is an instance of one the annotated type
                         if (annotated_type == parameter_type or
                             isinstance(parameter_type,annotated_type) or
                             issubclass(parameter_type,annotated_type)):
@@ -294,8 +294,11 @@ def command(name=None):
                         elif parameter_type == types.NoneType:
                             check = True
                             break
+                    if check:
+                        continue
 
-                        # Search for possible converters in any base type
+                    # Search for possible converters in any base type
+                    for annotated_type in annotated_types:
                         for base_type in base_types:
                             # Found converter, register it
                             converter = get_converter(base_type, annotated_type)
-- 
2.43.0


From 71775a678db0eeaaab5b0e46697659f666a4d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 56/82] fix: look for a converter in all the base classes of a
 value (numpy dtypes, glm vectors)

---
 gsp/io/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 228aa0a..66b6024 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -119,7 +119,7 @@ def get_converter(value : object,
         return converter
 
     # Get converter from bases
-    for base in value.__class__.__bases__:
+    for base in value.__class__.__mro__[1:]:
         src_type = base.__name__
         converter = is_registered(src_type, dst_type)
         if converter:
-- 
2.43.0


From d14d598b38600f644317f708848be3d643abe24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 57/82] fix: replay visuals whose line style, cap or join comes
 from a file

---
 gsp_matplotlib/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index e75e2a1..89b64d1 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,7 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
-from gsp.core.types import Marker, Matrix
+from gsp.core.types import Marker, Matrix, LineStyle, LineCap, LineJoin
 
 from . import core
 from . import visual
@@ -51,6 +51,18 @@ def list_to_List(obj):
 def int_to_Marker(obj):
     return Marker(obj)
 
+@register("int", "LineStyle")
+def int_to_LineStyle(obj):
+    return LineStyle(obj)
+
+@register("int", "LineCap")
+def int_to_LineCap(obj):
+    return LineCap(obj)
+
+@register("int", "LineJoin")
+def int_to_LineJoin(obj):
+    return LineJoin(obj)
+
 @register("ndarray", "Buffer")
 def ndarray_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
-- 
2.43.0


From c3c8ab61e395b7f913400754de9d81bafab78b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 58/82] fix: use a Matrix object as model, view or projection
 matrix

---
 gsp/core/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4dce319..eb7068d 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -54,8 +54,8 @@ class Matrix:
             data = np.frombuffer(data, dtype=np.float32)
         self._data = np.array(data, dtype=np.float32).reshape(4,4)
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self._data, dtype=dtype, copy=copy)
 
 
 # class Color:
-- 
2.43.0


From 76e62b9a0a604e6dbe4a870f016fe3e2ca07bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 59/82] fix: attributes given as lists follow the item they
 belong to

---
 gsp/visual/visual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 99ddade..4da7465 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -85,7 +85,9 @@ class Visual(Object):
             value = value.evaluate(self._in_variables | self._out_variables)
         elif isinstance(value, (Buffer, np.ndarray)):
             value = np.asanyarray(value)
-        elif isinstance(value, (List, list)):
+        elif isinstance(value, List):
+            return value
+        elif isinstance(value, list) and name == "indices":
             return value
         elif isinstance(value, (float, int, str)):
             return value
-- 
2.43.0


From 1819ce7ba1a57c81f91d59b506538d108dfb9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 60/82] fix: evaluate accessors that are built from a transform

---
 gsp/transform/accessor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index e88b42e..bcc4c27 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -24,8 +24,12 @@ class Accessor(Transform):
             Name of the field to access
         """
 
-        Transform.__init__(self, buffer=buffer,
-                           __no_command__ = True)
+        if isinstance(buffer, Transform):
+            Transform.__init__(self, next=buffer,
+                               __no_command__ = True)
+        else:
+            Transform.__init__(self, buffer=buffer,
+                               __no_command__ = True)
         self._key = key
 
     def copy(self):
-- 
2.43.0


From 81de24b9c1ec03d94af2be29f933be51a73da237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 61/82] fix: line widths that come from a component of an out
 variable

---
 gsp_matplotlib/visual/markers.py  | 2 +-
 gsp_matplotlib/visual/points.py   | 2 +-
 gsp_matplotlib/visual/segments.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index f8660d7..5d393ad 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -141,7 +141,7 @@ class Markers(visual.Markers):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 69bf675..025acec 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -85,7 +85,7 @@ class Points(visual.Points):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 389d11b..b68c312 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -81,7 +81,7 @@ class Segments(visual.Segments):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
-- 
2.43.0


From f3e6a8037561952f6c1b23ff7bcccfa74dbff3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 62/82] fix: default size of a viewport on a canvas whose size
 is a measure

---
 gsp_matplotlib/core/viewport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 55b224b..02543ee 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -22,8 +22,10 @@ class Viewport(core.Viewport):
         super().__init__(canvas, x, y, width, height, color)
 
         self._canvas = canvas
-        width = width or canvas._width
-        height = height or canvas._height
+        # A canvas whose size is a measure may have a non integer size (and
+        # a float would be interpreted as a fraction of the canvas)
+        width = width or int(canvas._width)
+        height = height or int(canvas._height)
         self._color = color
         self._extent = x, y, width, height
         self._axes = canvas._figure.add_axes([0,0,1,1])
-- 
2.43.0


From ac551b1c549bc073d17d0ffa7489f1d262736217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 63/82] fix: positions of pixels, points and markers given as a
 transform

---
 gsp/visual/markers.py            | 2 ++
 gsp/visual/pixels.py             | 2 ++
 gsp/visual/points.py             | 2 ++
 gsp_matplotlib/visual/markers.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/gsp/visual/markers.py b/gsp/visual/markers.py
index 5c463fa..8f70a6d 100644
--- a/gsp/visual/markers.py
+++ b/gsp/visual/markers.py
@@ -98,6 +98,8 @@ class Markers(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/pixels.py b/gsp/visual/pixels.py
index 005a9cd..a40ca80 100644
--- a/gsp/visual/pixels.py
+++ b/gsp/visual/pixels.py
@@ -66,6 +66,8 @@ class Pixels(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp/visual/points.py b/gsp/visual/points.py
index 3ab38ce..1f38a04 100644
--- a/gsp/visual/points.py
+++ b/gsp/visual/points.py
@@ -82,6 +82,8 @@ class Points(Visual):
         # These variables exists only during rendering and are
         # available on server side only. We have thus to make
         # sure they are not tracked.
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         n = len(positions)
         self._out_variables = {
             "screen[positions]" : np.empty((n,3), np.float32),
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 5d393ad..00361ea 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -35,6 +35,8 @@ class Markers(visual.Markers):
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
         angles = self.eval_variable("angles")
+        if isinstance(positions, Transform):
+            positions = positions.evaluate({"dpi":100})
         self.paths = []
 
         for i in range(len(positions)):
-- 
2.43.0


From 607cac3b7b22f2cfa76aed3e7c345cb89cee7f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 64/82] fix: to_vec2 of integer vec4

---
 gsp_matplotlib/glm/vec234.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/vec234.py b/gsp_matplotlib/glm/vec234.py
index 82985c0..19d667d 100644
--- a/gsp_matplotlib/glm/vec234.py
+++ b/gsp_matplotlib/glm/vec234.py
@@ -67,7 +67,7 @@ def to_vec2(other, dtype  = None):
         elif V.shape[1] == 3:
             return _V
         elif V.shape[1] == 4:
-            _V /= V[:,3, np.newaxis]
+            _V[...] = V[:,:2] / V[:,3, np.newaxis]
             return _V
 
     raise TypeError("Cannot convert %s to vec2" % other)
-- 
2.43.0


From 46d47d5e410558c08193b95b7c7c7e068dd54c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 65/82] fix: set several items of a ragged array made of
 tracked vectors

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 4117c80..6ff2856 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -126,7 +126,7 @@ class ragged:
             for k in key:
                 start,stop = self._items[k]
                 indices.extend(list(range(start,stop)))
-            self._data[indices] = value
+            self._data[np.array(indices, dtype=int)] = value
         else:
             indices = self._items[key]
             start, stop = indices.min(), indices.max()
-- 
2.43.0


From 245f2c59d60fce91fee55b45a5403832853fb97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 66/82] fix: alignment of opposite vectors given in single
 precision

---
 gsp_matplotlib/glm/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 9df0817..5f2d056 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -528,7 +528,8 @@ def align(U, V, dtype=np.float32, transpose=False):
         Rotation matrix
     """
 
-    a, b = normalize(U), normalize(V)
+    a = normalize(np.asarray(U, dtype=np.float64))
+    b = normalize(np.asarray(V, dtype=np.float64))
     v = np.cross(a, b)
     c = np.dot(a, b)
     s = np.linalg.norm(v)
-- 
2.43.0


From b0278f152170bc26de8381e61cb8dd4227f3b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 67/82] fix: overflow of item sizes given as small integers

---
 gsp_matplotlib/core/list.py       | 2 +-
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/polygons.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index e0cf264..b52c6dc 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -25,7 +25,7 @@ class List(core.List):
         if isinstance(self._itemsizes, int):
             sizes = [self._itemsizes] * len(self)
         else:
-            sizes = np.asanyarray(self._itemsizes)
+            sizes = np.asanyarray(self._itemsizes).tolist()
         start = 0
         for size in sizes:
             yield data[start:start+size]
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 0cba4c6..2b94907 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -97,7 +97,7 @@ class Paths(visual.Paths):
             end = 0
             paths = []
             for size in indices:
-                end += size
+                end += int(size)
                 paths.append (positions[start:end])
                 start = end
 
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 7761f5b..fc05e99 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -93,7 +93,7 @@ class Polygons(visual.Polygons):
             end = 0
             polygons = []
             for size in indices:
-                end += size
+                end += int(size)
                 polygons.append (positions[start:end])
                 start = end
 
-- 
2.43.0


From 77500d257157a030dfda19122eb80f3248b585c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 68/82] fix: flags of svg arcs that are not separated from what
 follows

---
 gsp/core/svg.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsp/core/svg.py b/gsp/core/svg.py
index 340718d..6078693 100644
--- a/gsp/core/svg.py
+++ b/gsp/core/svg.py
@@ -275,6 +275,14 @@ def _next_pos(elements):
     return float(elements.pop()) + float(elements.pop()) * 1j
 
 
+def _next_flag(elements):
+    # A flag is a single digit and what follows may not be separated from it
+    token = elements.pop()
+    if len(token) > 1:
+        elements.append(token[1:])
+    return float(token[0])
+
+
 def _parse_path(pathdef, current_pos):
     # In the SVG specs, initial movetos are absolute, even if specified as 'm'.
     # This is the default behavior here as well. But if you pass in a
@@ -461,8 +469,8 @@ def _parse_path(pathdef, current_pos):
         elif command == 'A':
             radius = _next_pos(elements)
             rotation = float(elements.pop())
-            large = float(elements.pop())
-            sweep = float(elements.pop())
+            large = _next_flag(elements)
+            sweep = _next_flag(elements)
             end = _next_pos(elements)
 
             if not absolute:
-- 
2.43.0


From be2a9dac430e639eb7928236f00af8ec943fac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 69/82] fix: set components of as many vectors as components
 from an array of vectors

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index c54d462..bc6bb05 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -35,7 +35,7 @@ class swizzle(tracked):
         for swizzle in self.swizzle:
             if set(key).issubset(set(swizzle)):
                 components = self.ndim == 1 or isinstance(value, tuple)
-                value = np.asarray(value)
+                value = np.array(value)
                 shape = value.shape
                 indices = [swizzle.index(c) for c in key]
 
@@ -49,6 +49,11 @@ class swizzle(tracked):
                     for index, component in zip(indices, value):
                         self[..., index] = component
                     break
+                # Z.xy = Z.yx
+                elif not components and shape == self.shape[:-1] + (len(key),):
+                    for tgt_index, src_index in enumerate(indices):
+                        self[..., src_index] = value[..., tgt_index]
+                    break
                 # Z.xy = np.ones(10)
                 elif len(self) == value.size: # shape[-1] == 1:
                     for index in indices:
-- 
2.43.0


From 1a09b17a1a8fce4f4d62824e15d8f1410a66ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 70/82] fix: normalize, fit and center vectors whose type is
 too small for intermediate values

---
 gsp_matplotlib/glm/glm.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 5f2d056..33624a6 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -40,7 +40,10 @@ def mesh(filename):
 def normalize(V):
     """ Normalize V """
 
-    return V/(1e-16+np.sqrt((np.array(V)**2).sum(axis=-1)))[..., np.newaxis]
+    # Squares do not necessarily fit the original type
+    S = np.array(V)
+    S = S.astype(np.result_type(S, np.float32))**2
+    return V/(1e-16+np.sqrt(S.sum(axis=-1)))[..., np.newaxis]
 
 
 def clamp(V, vmin=0, vmax=1):
@@ -312,8 +315,9 @@ def fit(vertices):
         (np.ndarray): vertices contained in the normalize cube
     """
 
-    vmin = vertices.min(axis=0)
-    vmax = vertices.max(axis=0)
+    # Product with 1.0 prevents the overflow of small integers
+    vmin = 1.0*vertices.min(axis=0)
+    vmax = 1.0*vertices.max(axis=0)
     # return 2*(vertices-vmin) / max(vmax-vmin)-1
     V = 2*(vertices - vmin) / max(vmax-vmin) - 1
     return  V - (V.min(axis=0) + V.max(axis=0))/2
@@ -363,8 +367,9 @@ def center(vertices):
         (np.ndarray): vertices centered
     """
 
-    vmin = vertices.min(axis=0)
-    vmax = vertices.max(axis=0)
+    # Product with 1.0 prevents the overflow of small integers
+    vmin = 1.0*vertices.min(axis=0)
+    vmax = 1.0*vertices.max(axis=0)
     return vertices - (vmax+vmin)/2
 
 
-- 
2.43.0


From 37d541aef767e135be79d968f7089759922de146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 71/82] fix: ragged arrays whose item sizes are unsigned
 integers

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 6ff2856..f3982f3 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -86,7 +86,7 @@ class ragged:
         self._size = len(data)
         self._count = count
         self._items = np.zeros((count, 2), int)
-        C = np.cumsum(itemsize)
+        C = np.cumsum(itemsize, dtype=int)
         self._items[1:, 0] += C[:-1]
         self._items[0:, 1] += C
 
-- 
2.43.0


From f188412b7fc2f3d2fdd2dbf875bc986998bd6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 72/82] fix: clear the dirty region through a view of a view

---
 gsp_matplotlib/glm/ndarray/tracked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index cc1bde2..190a229 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -57,7 +57,7 @@ class tracked(np.ndarray):
         """ Clear dirty region"""
 
         if isinstance(self.base, tracked):
-            self.base._dirty = None
+            self.base.clear()
         elif self._dirty:
             self._dirty = None
 
-- 
2.43.0


From d7f58e2152aa12c5934775128f110e1776b10634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 73/82] fix: text converters and wildcards are looked up under
 the destination type's name

---
 gsp/io/convert.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 66b6024..473f427 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -97,22 +97,22 @@ def get_converter(value : object,
     A convert function or None
     """
 
+    # Get dst type
+    if isinstance(dst_type, type):
+        dst_type = dst_type.__name__
+    elif not isinstance(dst_type, str):
+        raise ValueError("dst_type must be a type or a string")
+
     # Get source type
     src_type = None
     if isinstance(value, type):
         src_type = value.__name__
     else:
-        if isinstance(value, str) and is_registered(value, dst_type):
+        if isinstance(value, str) and (value, dst_type) in converters:
             src_type = value
         else:
             src_type = type(value).__name__
 
-    # Get dst type
-    if isinstance(dst_type, type):
-        dst_type = dst_type.__name__
-    elif not isinstance(dst_type, str):
-        raise ValueError("dst_type must be a type or a string")
-
     # Get direct converter
     converter = is_registered(src_type, dst_type)
     if converter:
-- 
2.43.0


From 58443b9cea61ed151db6268d3810b14e1563f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 74/82] fix: representation of transforms bound to values

---
 gsp/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index d0a9071..568e79c 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -210,6 +210,8 @@ class Transform(Object):
 
         if self._next:
             s += "(%s)" % repr(self._next.id)
-        elif self._buffer:
+        elif isinstance(self._buffer, Object):
             s += "(%s)" % repr(self._buffer.id)
+        elif self._buffer is not None:
+            s += "(%s)" % repr(self._buffer)
         return s
-- 
2.43.0


From dde25210dd6715e9723b58b994bbc3a5b4473b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 75/82] fix: source of documentation blocks that start with or
 hold blank lines

---
 gsp/io/mkdocs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gsp/io/mkdocs.py b/gsp/io/mkdocs.py
index 7dbe29a..4e80a9a 100644
--- a/gsp/io/mkdocs.py
+++ b/gsp/io/mkdocs.py
@@ -36,12 +36,15 @@ class mkdocs():
         while True:
             next_line = linecache.getline(filename, line + i)
             next_line_indent = len(next_line) - len(next_line.lstrip())
-            if indent == 0:
-                indent = next_line_indent
-            elif (next_line_indent < indent and len(next_line.strip()) > 0) or next_line == "":
+            if next_line == "":
                 break
-            if next_line == "\n": # preserve newlines
-                lines.append(next_line)
+            elif len(next_line.strip()) > 0:
+                if indent == 0:
+                    indent = next_line_indent
+                elif next_line_indent < indent:
+                    break
+            if not len(next_line.strip()): # preserve newlines
+                lines.append("\n")
             else:
                 lines.append(next_line[indent:])
             i += 1
-- 
2.43.0


From 1d1f7f481e50d112c5e7933607dfb92f6eb21cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 76/82] fix: marker types and angles that depend on the
 positions on screen are the ones of the current rendering

---
 gsp_matplotlib/visual/markers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 00361ea..87e6394 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -114,7 +114,6 @@ class Markers(visual.Markers):
         #  But then, we would still need to keep track of the
         #  different variables to check is anything has changed.
         P = glm.to_vec3(glm.to_vec4(positions) @ self._model.T)
-        self.generate_markers(P)
 
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
 
@@ -125,6 +124,9 @@ class Markers(visual.Markers):
 
         self.set_variable("screen[positions]", positions)
 
+        # Types and angles might depend on the screen positions
+        self.generate_markers(P)
+
         paths = [self.paths[i] for i in sort_indices]
         collection.set_paths(paths)
         collection.set_offsets(positions[sort_indices,:2])
-- 
2.43.0


From 8aeb30221c64722cf439886de10bca5ffee8ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 77/82] fix: marker types and angles given as a column or as a
 single item

---
 gsp_matplotlib/visual/markers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 87e6394..772e22e 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -35,19 +35,17 @@ class Markers(visual.Markers):
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
         angles = self.eval_variable("angles")
+
+        # One per marker (possibly as a column) or a single one
+        types = np.ravel(types)
+        angles = np.ravel(angles)
         if isinstance(positions, Transform):
             positions = positions.evaluate({"dpi":100})
         self.paths = []
 
         for i in range(len(positions)):
-            try:
-                mtype = types[i]
-            except:
-                mtype = types
-            try:
-                angle = angles[i]
-            except:
-                angle = angles
+            mtype = types[i] if len(types) > 1 else types[0]
+            angle = angles[i] if len(angles) > 1 else angles[0]
             mtype = Marker.path(mtype)
             marker = mpl.markers.MarkerStyle(mtype)
             rotation = mpl.transforms.Affine2D().rotate_deg(angle)
-- 
2.43.0


From b2679870f33d5d47c4509545ef4a869cfd117558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 78/82] fix: output variables that are attributes of a visual
 hold their value

---
 gsp/visual/visual.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 4da7465..8d200d4 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -17,6 +17,23 @@ def to_array(matrix):
     return np.asarray(matrix, dtype=np.float32).reshape(4,4)
 
 
+class Variables(dict):
+    """
+    Variables of a visual, attributes being evaluated when accessed
+    """
+
+    def __init__(self, visual):
+        dict.__init__(self, visual._in_variables | visual._out_variables)
+        self._visual = visual
+
+    def __getitem__(self, name):
+        # An output that is not computed by the rendering is an attribute
+        if (name in self._visual._in_variables and
+            name in self._visual._out_variables):
+            return np.asanyarray(self._visual.eval_variable(name))
+        return dict.__getitem__(self, name)
+
+
 class Visual(Object):
     """
     Generic Visual
@@ -82,7 +99,7 @@ class Visual(Object):
 
         value = self.get_variable(name)
         if isinstance(value, Transform):
-            value = value.evaluate(self._in_variables | self._out_variables)
+            value = value.evaluate(Variables(self))
         elif isinstance(value, (Buffer, np.ndarray)):
             value = np.asanyarray(value)
         elif isinstance(value, List):
-- 
2.43.0


From e7bca2a5f62c6e391230e71d44b960c3acdcd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 79/82] fix: giving an id to an unregistered object leaves the
 registry alone

---
 gsp/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/object.py b/gsp/object.py
index 2116a2b..4984f3f 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -76,7 +76,7 @@ class Object:
 
     @id.setter
     def id(self, newid):
-        if self._id in Object.objects.keys():
+        if Object.objects.get(self._id) is self:
             del Object.objects[self._id]
             Object.objects[newid] = self
         self._id = newid
-- 
2.43.0


From e3a920327ef9ef818448f0adfbe2e62153030eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 80/82] fix: orientation of triangles whose type is too small
 for intermediate values

---
 gsp_matplotlib/glm/glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp_matplotlib/glm/glm.py b/gsp_matplotlib/glm/glm.py
index 33624a6..7d76006 100644
--- a/gsp_matplotlib/glm/glm.py
+++ b/gsp_matplotlib/glm/glm.py
@@ -568,6 +568,8 @@ def frontback(T):
     --------
     front and back facing triangles as (n1,3) and (n2,3) arrays (n1+n2=n)
     """
+    # Differences and products do not necessarily fit the original type
+    T = np.asarray(T, dtype=np.float64)
     Z = (T[:,1,0]-T[:,0,0])*(T[:,1,1]+T[:,0,1]) + \
         (T[:,2,0]-T[:,1,0])*(T[:,2,1]+T[:,1,1]) + \
         (T[:,0,0]-T[:,2,0])*(T[:,0,1]+T[:,2,1])
-- 
2.43.0


From 4facb5f025281f64fe5e2c836b606a542b58315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:14 +0000
Subject: [PATCH 81/82] fix: ragged arrays without values can be partitioned by
 a common item size

---
 gsp_matplotlib/glm/ndarray/ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index f3982f3..3eaecd3 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -76,7 +76,7 @@ class ragged:
             if (len(data) % itemsize) != 0:
                 raise ValueError("Cannot partition data as requested")
             count = len(data) // itemsize
-            itemsize = np.ones(count, dtype=int) * (len(data) // count)
+            itemsize = np.ones(count, dtype=int) * itemsize
         else:
             if np.sum(itemsize) != len(data):
                 raise ValueError("Cannot partition data as requested")
-- 
2.43.0


From 75a04151795a1118f5e0878dfad70e093c9a3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 82/82] fix: swizzle write of a (1,k) array with as many
 vectors as components

---
 gsp_matplotlib/glm/ndarray/swizzle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/glm/ndarray/swizzle.py b/gsp_matplotlib/glm/ndarray/swizzle.py
index bc6bb05..48f5c8d 100644
--- a/gsp_matplotlib/glm/ndarray/swizzle.py
+++ b/gsp_matplotlib/glm/ndarray/swizzle.py
@@ -55,7 +55,7 @@ class swizzle(tracked):
                         self[..., src_index] = value[..., tgt_index]
                     break
                 # Z.xy = np.ones(10)
-                elif len(self) == value.size: # shape[-1] == 1:
+                elif len(self) == value.size and shape != (1,len(key)): # shape[-1] == 1:
                     for index in indices:
                         self[..., index] = np.squeeze(value)
                     break
-- 
2.43.0

