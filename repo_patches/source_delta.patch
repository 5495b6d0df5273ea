From 6d9ffb16a628f127c5d3ba61e0c878a53a1627b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 01/76] fix: restore the read-only flag of a queue when running
 it fails

---
 gsp/io/command.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4502ae4..90b7968 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -149,9 +149,11 @@ class CommandQueue(metaclass = NamedSingleton):
 
         readonly = self.readonly
         self.readonly = True
-        for command in self.commands:
-            command.execute(backend_module)
-        self.readonly = readonly
+        try:
+            for command in self.commands:
+                command.execute(backend_module)
+        finally:
+            self.readonly = readonly
 
 
     def push(self, command):
-- 
2.43.0


From c6dfc575153bd32f4f20470f3cd619391b743b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 02/76] fix: run live queues with constructors looked up in the
 backend module

---
 gsp/io/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 90b7968..78d6f71 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -437,9 +437,9 @@ class Command:
         if "." in self.methodname:
             module, name = self.methodname.split(".")
             if len(module) > 0:
-                func = getattr(globals[module], name)
+                func = getattr(getattr(backend_module, module), name)
             else:
-                func = eval(name, globals, locals)
+                func = getattr(backend_module, name)
             object = func(**parameters)
             object.id = oid
             Object.objects[oid] = object
-- 
2.43.0


From 937731c1f062599c793233330ab6d42bb498b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 03/76] fix: the implicit default queue is the one found under
 its name, once

---
 gsp/io/command.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 78d6f71..0a33930 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -10,6 +10,7 @@ import sys
 import types
 import typing
 import inspect
+import threading
 import itertools
 from datetime import datetime
 from functools import wraps
@@ -58,15 +59,17 @@ class NamedSingleton(type):
     """
 
     _instances = {}
+    _lock = threading.RLock()
 
     def __call__(cls, name="default", *args, **kwargs):
         if name == "active" or name is None:
-            if CommandQueue.active is None:
-                CommandQueue.active = super(NamedSingleton, cls).__call__("default", *args, **kwargs)
-            return CommandQueue.active
-        if name not in cls._instances.keys():
-            cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
-        return cls._instances[name]
+            if CommandQueue.active is not None:
+                return CommandQueue.active
+            name = "default"
+        with cls._lock:
+            if name not in cls._instances.keys():
+                cls._instances[name] = super(NamedSingleton, cls).__call__(name, *args, **kwargs)
+            return cls._instances[name]
 
 
 class CommandQueue(metaclass = NamedSingleton):
-- 
2.43.0


From d433d9ca44c021db4988824133cfa598ab3f8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 04/76] fix: record matplotlib segments as segments instead of
 points

---
 gsp_matplotlib/visual/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 3ad7918..95949b7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -16,7 +16,7 @@ class Segments(visual.Segments):
 
     __doc__ = visual.Segments.__doc__
 
-    @command("visual.Points")
+    @command("visual.Segments")
     def __init__(self, positions   : Transform | Buffer,
                        line_caps   : Transform | Buffer | LineCap,
                        line_colors : Transform | Buffer | Color,
-- 
2.43.0


From a6b1bbd9fb7fe416ee31f8843a89414f4d426838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 05/76] fix: make transforms available in the matplotlib
 backend for replay

---
 gsp_matplotlib/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index be10153..56f6c2d 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -9,6 +9,7 @@ from gsp.core.types import Marker
 
 from . import core
 from . import visual
+from gsp import transform
 
 
 # This part ensures tracked array have an accompanying
-- 
2.43.0


From 585a1b0629729b695411564bdeda8156fa61d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 06/76] fix: running a queue does not record into the active
 queue

---
 gsp/io/command.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 0a33930..3d10409 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -150,13 +150,15 @@ class CommandQueue(metaclass = NamedSingleton):
             Dictionary containing the current scope's local variables
         """
 
-        readonly = self.readonly
-        self.readonly = True
+        # The queue is made active for the time of the run such that
+        # commands issued by the backend are not recorded anywhere.
+        active, readonly = CommandQueue.active, self.readonly
+        CommandQueue.active, self.readonly = self, True
         try:
             for command in self.commands:
                 command.execute(backend_module)
         finally:
-            self.readonly = readonly
+            CommandQueue.active, self.readonly = active, readonly
 
 
     def push(self, command):
-- 
2.43.0


From 7fededfa5e27f9cc58244aea5c5f2f8984469111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 07/76] fix: do not record the default of a parameter that was
 given an object

---
 gsp/io/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 3d10409..2136d8a 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -247,7 +247,7 @@ def command(name=None):
 
             # Default parameters
             for key,value in defaults.items():
-                if key not in parameters.keys():
+                if key not in parameters.keys() and f"{key}(id)" not in parameters.keys():
                     if isinstance(value, Object):
                         key = key + "(id)"
                     parameters[key] = value
-- 
2.43.0


From 221a3d8c4b712271b5b0121351b16d8b61c093cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 08/76] fix: never give a new object the identifier of a
 registered object

---
 gsp/object.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp/object.py b/gsp/object.py
index 50ada14..91dd05d 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -28,7 +28,10 @@ class OID(int):
         """
 
         if oid is None:
+            # Identifiers may already be used by replayed objects
             oid = 1 + next(OID.counter)
+            while oid in Object.objects.keys():
+                oid = 1 + next(OID.counter)
         else:
             oid = int(oid)
         return super(OID, cls).__new__(cls, oid)
-- 
2.43.0


From 85c59ae845933fa29324cd492f770726f65f8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 09/76] fix: save buffers created by conversions ahead of the
 command using them

---
 gsp/io/command.py | 20 ++++++++++++++++++++
 gsp/io/json.py    | 10 ++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 2136d8a..4203fc4 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -11,6 +11,7 @@ import types
 import typing
 import inspect
 import threading
+import contextlib
 import itertools
 from datetime import datetime
 from functools import wraps
@@ -185,6 +186,25 @@ class CommandQueue(metaclass = NamedSingleton):
         return False
 
 
+@contextlib.contextmanager
+def capture():
+    """
+    Collect commands that are issued in the meantime instead of
+    recording them in the active queue. This is needed for conversions
+    that issue commands of their own.
+    """
+
+    global __record__
+
+    queue = CommandQueue("active")
+    state = queue.commands, queue.readonly, __record__
+    queue.commands, queue.readonly, __record__ = [], False, True
+    try:
+        yield queue.commands
+    finally:
+        queue.commands, queue.readonly, __record__ = state
+
+
 def get_default_args(func):
     """Retrieve default arguments and their values from a function. """
 
diff --git a/gsp/io/json.py b/gsp/io/json.py
index adc4aaf..d4a1c74 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -7,7 +7,7 @@ import json
 import base64
 import numpy as np
 from gsp.object import Object
-from . command import CommandQueue, Command
+from . command import CommandQueue, Command, capture
 
 def default(obj):
     from gsp.core.types import Color
@@ -63,7 +63,13 @@ def dump(queue=None, filename=None):
     queue = queue or CommandQueue("active")
     commands = []
     for command in queue.commands:
-        commands.append(dump_command(command, stream=None))
+        # Commands issued by just in time conversions (e.g. buffer
+        # creation) have to come before the command using them.
+        with capture() as issued:
+            payload = dump_command(command, stream=None)
+        for extra in issued:
+            commands.append(dump_command(extra, stream=None))
+        commands.append(payload)
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From 21d51ae6cd8f0c70b4802538d7098857c158c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 10/76] fix: save and load the given queue even if it is empty

---
 gsp/io/json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index d4a1c74..72e0cbf 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -60,7 +60,7 @@ def dump_command(command, stream=sys.stdout):
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     commands = []
     for command in queue.commands:
         # Commands issued by just in time conversions (e.g. buffer
@@ -82,7 +82,7 @@ def dump(queue=None, filename=None):
 def save(filename, queue = None ):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     dump(queue, filename)
 
 
@@ -93,7 +93,7 @@ def load(filename, queue = None):
         commands = json.load(stream)["commands"]
 
     # Get default command queue
-    queue = queue or CommandQueue("active")
+    queue = CommandQueue("active") if queue is None else queue
     queue.empty()
 
     for command in commands:
-- 
2.43.0


From 1840dcde7b14aecedf10043c184697ff86c82331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 11/76] fix: convert python lists to buffers and lists that can
 be replayed

---
 gsp/core/list.py            |  2 +-
 gsp_matplotlib/__init__.py  |  8 ++++----
 gsp_matplotlib/core/list.py | 13 +++++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/gsp/core/list.py b/gsp/core/list.py
index ddca82f..61301c6 100644
--- a/gsp/core/list.py
+++ b/gsp/core/list.py
@@ -41,7 +41,7 @@ class List(Object):
         """ Return the number of items in the list """
         
         if isinstance(self._itemsizes, (int)):
-            return len(data) / self._itemsizes
+            return len(self._data) // self._itemsizes
         else:
             return len(self._itemsizes)
         
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 56f6c2d..7aba783 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -35,17 +35,17 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
+    Z = np.asarray(obj).view(glm.ndarray.tracked)
     return Z._tracker.gsp_buffer
 
 @register("list", "List")
 def list_to_List(obj):
     count = [len(sublist) for sublist in obj]
-    count = glm.ndarray.tracked(count)
+    count = np.asarray(count, dtype=int).view(glm.ndarray.tracked)
     items = [item for sublist in obj for item in sublist]
     # items = glm.ndarray.tracked(items)
-    items = items.view(glm.ndarray.tracked)
-    return List(items, count)
+    items = np.asarray(items, dtype=int).view(glm.ndarray.tracked)
+    return core.List(items, count)
 
 @register("int", "Marker")
 def int_to_Marker(obj):
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 37a57f0..fe43280 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -19,5 +19,18 @@ class List(core.List):
     def __array__(self):
         return self._data.__array__()
 
+    def __iter__(self):
+        """ Iterate over the items of the list """
+
+        data = np.asarray(self._data).ravel()
+        if isinstance(self._itemsizes, int):
+            sizes = [self._itemsizes] * len(self)
+        else:
+            sizes = np.asarray(self._itemsizes).ravel()
+        start = 0
+        for size in sizes:
+            yield data[start:start+size]
+            start += size
+
     def __repr__(self):
         return f"List({len(self)}, {self._data._dtype})"
-- 
2.43.0


From c62d9afcadd270273b8e8bfdf4ca079aeb4161f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 12/76] fix: save the matrices of a render command and accept
 them on replay

---
 gsp/core/types.py                | 9 ++++++---
 gsp/io/json.py                   | 4 +++-
 gsp/visual/visual.py             | 6 +++---
 gsp_matplotlib/__init__.py       | 4 ++--
 gsp_matplotlib/visual/markers.py | 2 +-
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index 4ccef29..a760420 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -50,10 +50,13 @@ class Matrix:
             The 16 values of the matrix
         """
 
-        self._data = np.frombuffer(data, dtype=np.float32)
+        self._data = np.array(data, dtype=float).reshape(4,4)
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self._data, dtype=dtype)
+
+    def tolist(self):
+        return self._data.tolist()
 
 
 # class Color:
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 72e0cbf..6ec2d40 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -10,7 +10,7 @@ from gsp.object import Object
 from . command import CommandQueue, Command, capture
 
 def default(obj):
-    from gsp.core.types import Color
+    from gsp.core.types import Color, Matrix
 
     if isinstance(obj, memoryview):
         return base64.b64encode(bytes(obj)).decode()
@@ -20,6 +20,8 @@ def default(obj):
         return str(obj)
     elif isinstance(obj, np.ndarray):
         return base64.b64encode(obj).decode()
+    elif isinstance(obj, Matrix):
+        return obj.tolist()
     elif isinstance(obj, Color):
         return tuple(obj._color.tolist())
     elif isinstance(obj, Object):
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ae20046..d33bae6 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -109,11 +109,11 @@ class Visual(Object):
 
         # We store the model/view/proj matrices for resize events
         if model is not None:
-            self._model = model
+            self._model = np.asarray(model, dtype=float)
         if view is not None:
-            self._view = view
+            self._view = np.asarray(view, dtype=float)
         if proj is not None:
-            self._proj = proj
+            self._proj = np.asarray(proj, dtype=float)
 
         try:
             self._transform = self._proj @ self._view @ self._model
diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 7aba783..ea164f8 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -5,7 +5,7 @@
 from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
-from gsp.core.types import Marker
+from gsp.core.types import Marker, Matrix
 
 from . import core
 from . import visual
@@ -22,7 +22,7 @@ from .glm.mat234 import *
 from gsp.io import register
 
 
-@register("ndarray", "Matrix")
+@register(["ndarray", "list"], "Matrix")
 def ndarray_to_Matrix(obj):
     return Matrix(obj)
 
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 20550f7..1410fa6 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -112,7 +112,7 @@ class Markers(visual.Markers):
         #  - A unique type of marker
         #  But then, we would still need to keep track of the
         #  different variables to check is anything has changed.
-        P = glm.to_vec3(glm.to_vec4(positions) @ model.T)
+        P = glm.to_vec3(glm.to_vec4(positions) @ self._model.T)
         self.generate_markers(P)
 
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-- 
2.43.0


From e09d3247ef1b0dcf100a07b436dd09b5da5341a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 13/76] fix: give the items of a replayed buffer their
 components back

---
 gsp_matplotlib/core/buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 32fa690..9765e14 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -39,7 +39,10 @@ class Buffer(core.Buffer):
             if self._data is not None:
                 self._array = np.frombuffer(self._data, self._dtype)
             else:
-                self._array = np.empty(self._count, self._dtype)
+                self._array = np.zeros(self._count, self._dtype)
+            # Items may have several components (e.g. vec3)
+            if self._count and self._array.size != self._count:
+                self._array = self._array.reshape(self._count, -1)
         return self._array
 
     def __repr__(self):
-- 
2.43.0


From ee1220d0fe99180a68468ba63369280cd16d4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 14/76] fix: accept line caps, styles and joins of a loaded
 session

---
 gsp_matplotlib/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index ea164f8..51f152a 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -6,6 +6,7 @@ from .core.canvas import Canvas
 from .core.viewport import Viewport
 from .core.buffer import Buffer
 from gsp.core.types import Marker, Matrix
+from gsp.core.types import LineCap, LineStyle, LineJoin
 
 from . import core
 from . import visual
@@ -51,6 +52,18 @@ def list_to_List(obj):
 def int_to_Marker(obj):
     return Marker(obj)
 
+@register("int", "LineCap")
+def int_to_LineCap(obj):
+    return LineCap(obj)
+
+@register("int", "LineStyle")
+def int_to_LineStyle(obj):
+    return LineStyle(obj)
+
+@register("int", "LineJoin")
+def int_to_LineJoin(obj):
+    return LineJoin(obj)
+
 @register("ndarray", "Buffer")
 def ndarray_to_Buffer(obj):
     # WARN: Do we need to keep track of obj/Buffer such as not create
-- 
2.43.0


From c322df7dc11651729a2c48bb34eb1bf731b273f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 15/76] fix: resolve the types of a matplotlib list

---
 gsp_matplotlib/core/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index fe43280..896e80e 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp.io.command import command, register
 
 from gsp import core
+from . buffer import Buffer
 
 class List(core.List):
 
-- 
2.43.0


From f9b0f93668661673e2eba984f495a9bbed1759ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 16/76] fix: record the parameters of copied transforms

---
 gsp/transform/accessor.py  |  8 ++++----
 gsp/transform/colormap.py  | 14 +++-----------
 gsp/transform/out.py       | 14 ++------------
 gsp/transform/transform.py |  9 ++++++++-
 4 files changed, 17 insertions(+), 28 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index 7d2ea13..eaf11c4 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -28,10 +28,10 @@ class Accessor(Transform):
                            __no_command__ = True)
         self._key = key
 
-    def copy(self):
-        transform = Transform.copy(self)
-        transform._key = self._key
-        return transform
+    def _clone(self):
+        if type(self) is Accessor:
+            return Accessor(None, self._key)
+        return self.__class__()
 
     def evaluate(self, buffers=None):
         if self._next:
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 7bae427..44eedf4 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -52,18 +52,10 @@ class Colormap(Transform):
         colormap:
             Name of the colormap
         """
-        pass
-
-    def copy(self):
-        """
-        Copy the transform
-        """
+        self._colormap = colormap
 
-        transform = Transform.copy(self)
-        transform._colormap = self._colormap
-        transform._vmin = self._vmin
-        transform._vmax = self._vmax
-        return transform
+    def _clone(self):
+        return self.__class__(self._colormap, self._vmin, self._vmax)
 
 
     def evaluate(self, buffers : list):
diff --git a/gsp/transform/out.py b/gsp/transform/out.py
index 4df39a1..496942b 100644
--- a/gsp/transform/out.py
+++ b/gsp/transform/out.py
@@ -29,18 +29,8 @@ class Out(Transform):
     def __call__(self):
         raise ValueError("Out transform cannot be composed")
 
-    def copy(self):
-        """
-        Copy the transform
-        """
-
-        transform = self.__class__()
-        transform.set_buffer(self._buffer)
-        transform.set_base(self.base)
-        transform.name = self.name
-        if self._next:
-            transform.set_next(self._next.copy())
-        return transform
+    def _clone(self):
+        return self.__class__(self.name)
 
 
     def evaluate(self, variables : dict):
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 2bac37a..26fa54a 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -132,12 +132,19 @@ class Transform(Object):
         """
         return self.last.buffer is not None
 
+    def _clone(self):
+        """
+        New unbound transform with same parameters
+        """
+
+        return self.__class__()
+
     def copy(self):
         """
         Copy the transform
         """
 
-        transform = self.__class__()
+        transform = self._clone()
         transform.set_buffer(self._buffer)
         transform.set_base(self.base)
         if self._next:
-- 
2.43.0


From 3822a0cc89388fb60d4898f2c96cb5f1baadcea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 17/76] fix: copy the right operand of an operator

---
 gsp/transform/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 81c1a8d..9a61786 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -115,7 +115,7 @@ class Operator(Transform):
         if isinstance(self._right, Transform):
             transform.set_right(self._right.copy())
         else:
-            transform.set_left(self._left)
+            transform.set_right(self._right)
 
         return transform
 
-- 
2.43.0


From 2a8cf52f0877eaf4ecbc89da3129387ff986383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 18/76] fix: accept 0 as bound of a colormap

---
 gsp/transform/colormap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 44eedf4..aa9760c 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -71,6 +71,7 @@ class Colormap(Transform):
         else:
             value = self._buffer
         cmap = plt.get_cmap(self._colormap)
-        norm = mpl.colors.Normalize(vmin=self._vmin or value.min(),
-                                    vmax=self._vmax or value.max())
+        vmin = value.min() if self._vmin is None else self._vmin
+        vmax = value.max() if self._vmax is None else self._vmax
+        norm = mpl.colors.Normalize(vmin=vmin, vmax=vmax)
         return cmap(norm(value))
-- 
2.43.0


From d924e31f1680d95a7bf996e2583fd87d4e868d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 19/76] fix: evaluate transforms that are bound to a replayed
 buffer

---
 gsp/transform/accessor.py | 2 +-
 gsp/transform/colormap.py | 3 ++-
 gsp/transform/operator.py | 5 +++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/accessor.py b/gsp/transform/accessor.py
index eaf11c4..9524ad4 100644
--- a/gsp/transform/accessor.py
+++ b/gsp/transform/accessor.py
@@ -37,7 +37,7 @@ class Accessor(Transform):
         if self._next:
             buffer = self._next.evaluate(buffers)
         elif self._buffer is not None:
-            buffer = self._buffer
+            buffer = np.asarray(self._buffer)
         else:
             raise ValueError("Transform is not bound")
 
diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index aa9760c..c688408 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from gsp.io.command import command
 from gsp.transform import Transform
@@ -69,7 +70,7 @@ class Colormap(Transform):
         if self._next:
             value = self._next.evaluate(buffers)
         else:
-            value = self._buffer
+            value = np.asarray(self._buffer)
         cmap = plt.get_cmap(self._colormap)
         vmin = value.min() if self._vmin is None else self._vmin
         vmax = value.max() if self._vmax is None else self._vmax
diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 9a61786..ceff55f 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,6 +1,7 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
@@ -125,11 +126,15 @@ class Operator(Transform):
             left = self._left.evaluate(variables)
         else:
             left = self._left
+            if isinstance(left, Buffer):
+                left = np.asarray(left)
 
         if isinstance(self._right, Transform):
             right = self._right.evaluate(variables)
         else:
             right = self._right
+            if isinstance(right, Buffer):
+                right = np.asarray(right)
 
         return left, right
 
-- 
2.43.0


From 361dffcf48a1cc5ac0bd5ccf0f4517413dfd235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 20/76] fix: copies of a tracked array do not update the buffer
 of the original

---
 gsp_matplotlib/__init__.py            | 13 +++++++++----
 gsp_matplotlib/glm/ndarray/tracked.py |  8 ++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index 51f152a..c2addda 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -36,8 +36,7 @@ def list_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = np.asarray(obj).view(glm.ndarray.tracked)
-    return Z._tracker.gsp_buffer
+    return Tracker(np.asarray(obj)).gsp_buffer
 
 @register("list", "List")
 def list_to_List(obj):
@@ -72,12 +71,18 @@ def ndarray_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
-    Z = obj.view(glm.ndarray.tracked)
-    return Z._tracker.gsp_buffer
+    return Tracker(obj).gsp_buffer
 
 
 @register("tracked", "Buffer")
 def tracked_to_Buffer(obj):
+    # Partial views and untracked copies need a buffer of their own
+    if (obj._tracker is None or
+        obj.shape != obj._tracker.ndarray.shape or
+        obj.dtype != obj._tracker.ndarray.dtype or
+        obj.strides != obj._tracker.ndarray.strides or
+        not np.shares_memory(obj, obj._tracker.ndarray)):
+        return Tracker(obj).gsp_buffer
     return obj._tracker.gsp_buffer
 
 
diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index a48e145..186d8c8 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -48,8 +48,12 @@ class tracked(np.ndarray):
         else:
             self._extents = self._compute_extents(obj)
         self._dirty = self._extents
-        self._tracker = getattr(obj, '_tracker', None)
-        if self._tracker is None and self.__tracker_class__ is not None:
+        self._tracker = None
+        if isinstance(obj, tracked):
+            # A view shares the tracker while a copy is not tracked
+            if np.may_share_memory(self, obj):
+                self._tracker = getattr(obj, '_tracker', None)
+        elif obj is not None and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
 
     def clear(self):
-- 
2.43.0


From f33899400b5e7163cdfdbab040b2d41b21ccdb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 21/76] fix: track modifications made through views at the
 right place

---
 gsp_matplotlib/glm/ndarray/tracked.py | 105 +++++++++++++-------------
 1 file changed, 51 insertions(+), 54 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 186d8c8..2bdeac7 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -46,7 +46,7 @@ class tracked(np.ndarray):
         if obj is None:
             self._extents = 0, self.size*self.itemsize
         else:
-            self._extents = self._compute_extents(obj)
+            self._extents = self._compute_extents(self)
         self._dirty = self._extents
         self._tracker = None
         if isinstance(obj, tracked):
@@ -59,46 +59,53 @@ class tracked(np.ndarray):
     def clear(self):
         """ Clear dirty region"""
 
-        if isinstance(self.base, tracked):
-            self.base._dirty = None
-        elif self._dirty:
-            self._dirty = None
+        self._root()._dirty = None
 
     @property
     def dirty(self):
         """ Dirty region as (start, stop) in bytes """
 
-        if isinstance(self.base, tracked):
-            return self.base.dirty
-        elif self._dirty:
-            return self._dirty
-        return None
+        return getattr(self._root(), "_dirty", None)
+
+    def _root(self):
+        """ Tracked array this array is a view of (or itself) """
+
+        root = self
+        while isinstance(root.base, tracked):
+            root = root.base
+        return root
 
     def _update(self, start, stop):
         """ Update dirty region """
 
-        if isinstance(self.base, tracked):
-            self.base._update(start, stop)
-        else:
-            if not hasattr(self, "_dirty") or self._dirty is None:
-                self._dirty = start, stop
-            else:
-                start = min(self._dirty[0], start)
-                stop = max(self._dirty[1], stop)
-                self._dirty = start, stop
+        root = self._root()
+        dirty = self.dirty
+        if dirty is not None:
+            start = min(dirty[0], start)
+            stop = max(dirty[1], stop)
+        root._dirty = start, stop
 
     def _compute_extents(self, Z):
-        """Compute extents (start, stop) in bytes in the base array"""
-
-        if Z.base is not None:
-            base = Z.base.__array_interface__['data'][0]
-            view = Z.__array_interface__['data'][0]
-            offset = view - base
-            shape = np.array(Z.shape) - 1
-            strides = Z.strides[-len(shape):]
-            size = (shape*strides).sum() + Z.itemsize
-            return offset, offset+size
-        return 0, Z.size*Z.itemsize
+        """Compute extents (start, stop) in bytes in the root array"""
+
+        root = self._root()
+        if not root.flags.c_contiguous:
+            return 0, root.nbytes
+        base = root.__array_interface__['data'][0]
+        view = Z.__array_interface__['data'][0]
+        offsets = [(n-1)*stride for n,stride in zip(Z.shape, Z.strides)]
+        start = view - base + sum(min(0,offset) for offset in offsets)
+        stop = view - base + sum(max(0,offset) for offset in offsets) + Z.itemsize
+        return max(start, 0), min(stop, root.nbytes)
+
+    def _notify(self):
+        """ Send the dirty region to the tracker """
+
+        if self._tracker:
+            start, stop = self.dirty
+            data = self._root().tobytes()
+            self._tracker.set_data(start, data[start:stop])
+            self.clear()
 
     # def _compute_extents(self, Z):
     #     """Compute extents (start, stop) in bytes in the base array"""
@@ -127,37 +134,27 @@ class tracked(np.ndarray):
     def __setitem__(self, key, value):
         Z = np.ndarray.__getitem__(self, key)
         if Z.shape == ():
-            # This test for the case of [...,index] notation. Since we
-            # know the result is a scalar, we can safely remove the
-            # ellipsis component (that should be the first item).
-            if (isinstance(key, tuple)):
-                key = tuple([k for k in key if k is not Ellipsis])
-            key = tuple(np.mod(np.array(key), self.shape))
-            offset = np.ravel_multi_index(key, self.shape, mode='wrap')*self.itemsize
-            self._update(offset, offset+self.itemsize)
+            # We look for the item itself, not its value
+            if not isinstance(key, tuple):
+                key = key,
+            if not any(k is Ellipsis for k in key):
+                Z = np.ndarray.__getitem__(self, key + (Ellipsis,))
+            else:
+                Z = np.ndarray.__getitem__(self, key)
+            self._update(*self._compute_extents(Z))
 
         # Test for fancy indexing
         elif (Z.base is not self and (isinstance(key, list) or
                (hasattr(key, '__iter__') and
                 any(isinstance(k, (list,np.ndarray)) for k in key)))):
             raise NotImplementedError("Fancy indexing not supported")
-        else:
-            Z._extents = self._compute_extents(Z)
-            self._update(Z._extents[0], Z._extents[1])
+        elif Z.size:
+            if not np.may_share_memory(Z, self):
+                Z = self
+            self._update(*self._compute_extents(Z))
         np.ndarray.__setitem__(self, key, value)
-
-        if self._tracker:
-            base = self
-            while base.base is not None and isinstance(base.base, tracked):
-                base = base.base
-            data = base.view(np.ubyte).ravel()
-            start, stop = self._dirty
-            if base is not self:
-                base._tracker.set_data(start, data[start:stop].tobytes())
-                base.clear()
-            else:
-                self._tracker.set_data(start, data[start:stop].tobytes())
-                self.clear()
+        if self.dirty:
+            self._notify()
 
     def __getslice__(self, start, stop):
         return self.__getitem__(slice(start, stop))
-- 
2.43.0


From 60acfc5fe2cc983081452a54aa83fbd77e9a418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 22/76] fix: send in-place operations on a tracked array to its
 tracker

---
 gsp_matplotlib/glm/ndarray/tracked.py | 51 ++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 2bdeac7..12c972f 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -162,18 +162,51 @@ class tracked(np.ndarray):
     def __setslice__(self, start, stop,  value):
         self.__setitem__(slice(int(start), int(stop)), value)
 
+    def _inplace(self, method, other):
+        """ Apply in-place operator and send the modified region """
+
+        if self.size:
+            self._update(*self._compute_extents(self))
+        result = method(self, other)
+        if self.dirty:
+            self._notify()
+        return result
+
     def __iadd__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__iadd__(self, other)
+        return self._inplace(np.ndarray.__iadd__, other)
 
     def __isub__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__isub__(self, other)
+        return self._inplace(np.ndarray.__isub__, other)
 
     def __imul__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__imul__(self, other)
+        return self._inplace(np.ndarray.__imul__, other)
+
+    def __imatmul__(self, other):
+        return self._inplace(np.ndarray.__imatmul__, other)
+
+    def __itruediv__(self, other):
+        return self._inplace(np.ndarray.__itruediv__, other)
+
+    def __ifloordiv__(self, other):
+        return self._inplace(np.ndarray.__ifloordiv__, other)
+
+    def __imod__(self, other):
+        return self._inplace(np.ndarray.__imod__, other)
+
+    def __ipow__(self, other):
+        return self._inplace(np.ndarray.__ipow__, other)
+
+    def __ilshift__(self, other):
+        return self._inplace(np.ndarray.__ilshift__, other)
+
+    def __irshift__(self, other):
+        return self._inplace(np.ndarray.__irshift__, other)
+
+    def __iand__(self, other):
+        return self._inplace(np.ndarray.__iand__, other)
+
+    def __ior__(self, other):
+        return self._inplace(np.ndarray.__ior__, other)
 
-    def __idiv__(self, other):
-        self._update(self._extents[0], self._extents[1])
-        return np.ndarray.__idiv__(self, other)
+    def __ixor__(self, other):
+        return self._inplace(np.ndarray.__ixor__, other)
-- 
2.43.0


From c65747af82bfe426ff0e8594a644358edd367b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 23/76] fix: save buffers created by nested conversions

---
 gsp/io/json.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index 6ec2d40..ee65c08 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -59,19 +59,25 @@ def dump_command(command, stream=sys.stdout):
     else:
         return payload
 
-def dump(queue=None, filename=None):
-    """ Save command queue to a file """
+def dump_commands(commands):
+    """ Dump commands as a list, with the commands they depend on """
 
-    queue = CommandQueue("active") if queue is None else queue
-    commands = []
-    for command in queue.commands:
+    payloads = []
+    for command in commands:
         # Commands issued by just in time conversions (e.g. buffer
         # creation) have to come before the command using them.
         with capture() as issued:
             payload = dump_command(command, stream=None)
-        for extra in issued:
-            commands.append(dump_command(extra, stream=None))
-        commands.append(payload)
+        payloads.extend(dump_commands(issued))
+        payloads.append(payload)
+    return payloads
+
+
+def dump(queue=None, filename=None):
+    """ Save command queue to a file """
+
+    queue = CommandQueue("active") if queue is None else queue
+    commands = dump_commands(queue.commands)
     payload = { "gsp_version": "1.0", "commands" : commands }
 
     if filename is None:
-- 
2.43.0


From fe0ebc400326b80a0bd36d8433a3028a02e14589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 24/76] fix: keep using the buffer of a tracked array when a
 visual is recorded

---
 gsp_matplotlib/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index c2addda..bbd06ee 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -71,6 +71,8 @@ def ndarray_to_Buffer(obj):
     #       this convertes is called such that if the obj has been
     #       mofidied, it shoudl be ok
     # Z = glm.ndarray.tracked(obj)
+    if isinstance(obj, glm.ndarray.tracked):
+        return tracked_to_Buffer(obj)
     return Tracker(obj).gsp_buffer
 
 
-- 
2.43.0


From ec70a078b6f53e36900e78f1ba918fa9593f690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 25/76] fix: saving does not capture commands issued by other
 threads

---
 gsp/io/command.py | 76 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 4203fc4..e54d636 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -186,23 +186,73 @@ class CommandQueue(metaclass = NamedSingleton):
         return False
 
 
-@contextlib.contextmanager
-def capture():
+class Capture:
     """
-    Collect commands that are issued in the meantime instead of
-    recording them in the active queue. This is needed for conversions
-    that issue commands of their own.
+    Stand-in for the active queue that collects the commands issued by
+    the current thread instead of recording them.
     """
 
-    global __record__
+    current = threading.local()
+
+    def __init__(self, force):
+        self.commands = []
+        self.force = force
+
+    @classmethod
+    def forced(cls):
+        return getattr(getattr(cls.current, "value", None), "force", False)
+
+    @property
+    def readonly(self):
+        return not self.force and CommandQueue("active").readonly
 
-    queue = CommandQueue("active")
-    state = queue.commands, queue.readonly, __record__
-    queue.commands, queue.readonly, __record__ = [], False, True
+    def push(self, command):
+        self.commands.append(command)
+        return True
+
+
+@contextlib.contextmanager
+def capture(force : bool = True):
+    """
+    Collect commands that are issued in the meantime by the current
+    thread instead of recording them in the active queue. This is
+    needed for conversions that issue commands of their own.
+
+    Parameters
+    ----------
+    force : bool
+        Whether to collect commands that would not be recorded.
+    """
+
+    outer = getattr(Capture.current, "value", None)
+    inner = Capture(force or Capture.forced())
+    Capture.current.value = inner
     try:
-        yield queue.commands
+        yield inner.commands
     finally:
-        queue.commands, queue.readonly, __record__ = state
+        Capture.current.value = outer
+
+
+def recorder():
+    """ Return the active queue, or the current capture if there is one. """
+
+    return getattr(Capture.current, "value", None) or CommandQueue("active")
+
+
+def atomic(func):
+    """
+    Function decorator such that commands that are issued by the
+    function are recorded only if the function succeeds.
+    """
+
+    @wraps(func)
+    def inner(*args, **kwargs):
+        with capture(force=False) as commands:
+            result = func(*args, **kwargs)
+        for command in commands:
+            recorder().push(command)
+        return result
+    return inner
 
 
 def get_default_args(func):
@@ -236,10 +286,10 @@ def command(name=None):
 
             result = func(self, *args, **kwargs)
 
-            if not __record__:
+            if not __record__ and not Capture.forced():
                 return result
 
-            queue = CommandQueue("active")
+            queue = recorder()
             keys = func.__code__.co_varnames[1:]
             annotations = func.__annotations__
             annotations = typing.get_type_hints(func)
-- 
2.43.0


From 58010d0dd9ba35aa41721b2f6aeb5a22ac033127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 26/76] fix: do not record canvases, viewports and exports that
 failed

---
 gsp_matplotlib/core/canvas.py   | 3 +++
 gsp_matplotlib/core/viewport.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index 17ce1dd..a94bfb7 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -8,11 +8,13 @@ import matplotlib.pyplot as plt
 
 from gsp import core
 from gsp import transform
+from gsp.io.command import atomic
     
 class Canvas(core.Canvas):
 
     __doc__ = core.Canvas.__doc__
 
+    @atomic
     def __init__(self, width : int,
                        height : int,
                        dpi : float):
@@ -45,6 +47,7 @@ class Canvas(core.Canvas):
         return self._figure.get_size_inches() * dpi
 
 
+    @atomic
     def render(self, target : str):
         if target is None:
             self._figure.canvas.draw()
diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 55b224b..94d1f3c 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -6,12 +6,14 @@ import numpy as np
 from gsp import core
 from gsp.core import Color
 from gsp.transform import Transform
+from gsp.io.command import atomic
 from . canvas import Canvas
 
 class Viewport(core.Viewport):
 
     __doc__ = core.Viewport.__doc__
 
+    @atomic
     def __init__(self, canvas : Canvas,
                        x : Transform | int | float,
                        y : Transform | int | float,
-- 
2.43.0


From c77be4b59827f9ebd3ede42bee3ef00646cdb9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 27/76] fix: do not record a render that failed

---
 gsp_matplotlib/visual/markers.py  | 3 ++-
 gsp_matplotlib/visual/paths.py    | 3 ++-
 gsp_matplotlib/visual/pixels.py   | 3 ++-
 gsp_matplotlib/visual/points.py   | 3 ++-
 gsp_matplotlib/visual/polygons.py | 3 ++-
 gsp_matplotlib/visual/segments.py | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 1410fa6..4a5c8ea 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -5,7 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
-from gsp.io.command import command
+from gsp.io.command import command, atomic
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color, Marker, Vec3
 import matplotlib as mpl
@@ -65,6 +65,7 @@ class Markers(visual.Markers):
             self.paths.append(path)
 
 
+    @atomic
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index b1df20d..548965e 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -5,7 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
-from gsp.io.command import command
+from gsp.io.command import command, atomic
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Color, Measure, LineCap, LineStyle, LineJoin
 
@@ -28,6 +28,7 @@ class Paths(visual.Paths):
                          line_styles, line_joins, line_caps, __no_command__ = True)
 
 
+    @atomic
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index fab47b4..f313f1a 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -5,7 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
-from gsp.io.command import command
+from gsp.io.command import command, atomic
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color
 
@@ -30,6 +30,7 @@ class Pixels(visual.Pixels):
         super().__init__(positions, colors, __no_command__ = True)
 
 
+    @atomic
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 57e9ac8..b36b893 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -5,7 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
-from gsp.io.command import command
+from gsp.io.command import command, atomic
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color
 
@@ -25,6 +25,7 @@ class Points(visual.Points):
                          line_widths, __no_command__ = True)
 
 
+    @atomic
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index e0d737b..253043d 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -5,7 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
-from gsp.io.command import command
+from gsp.io.command import command, atomic
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Color, Measure, LineStyle, LineJoin
 
@@ -28,6 +28,7 @@ class Polygons(visual.Polygons):
                          line_widths, line_styles, line_joins, __no_command__ = True)
 
 
+    @atomic
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 95949b7..9040e26 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -5,7 +5,7 @@
 import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
-from gsp.io.command import command
+from gsp.io.command import command, atomic
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color, LineCap
 
@@ -26,6 +26,7 @@ class Segments(visual.Segments):
                          line_widths, __no_command__ = True)
 
 
+    @atomic
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-- 
2.43.0


From 051bb6f447b5279105a1f605bbd1a5f63b199622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 28/76] fix: keep tracking arrays after a render that failed

---
 gsp_matplotlib/glm/ndarray/tracked.py | 17 +++++++++++++++++
 gsp_matplotlib/visual/markers.py      |  1 +
 gsp_matplotlib/visual/paths.py        |  1 +
 gsp_matplotlib/visual/pixels.py       |  1 +
 gsp_matplotlib/visual/points.py       |  1 +
 gsp_matplotlib/visual/polygons.py     |  1 +
 gsp_matplotlib/visual/segments.py     |  1 +
 7 files changed, 23 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 12c972f..cc7b07f 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -4,6 +4,7 @@
 # -----------------------------------------------------------------------------
 """ Memory aware array class """
 import numpy as np
+from functools import wraps
 
 class tracked(np.ndarray):
     """
@@ -210,3 +211,19 @@ class tracked(np.ndarray):
 
     def __ixor__(self, other):
         return self._inplace(np.ndarray.__ixor__, other)
+
+
+def untracked(func):
+    """
+    Function decorator that restores the tracker class when the
+    function exits, however it exits.
+    """
+
+    @wraps(func)
+    def inner(*args, **kwargs):
+        tracker = tracked.__tracker_class__
+        try:
+            return func(*args, **kwargs)
+        finally:
+            tracked.__tracker_class__ = tracker
+    return inner
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 4a5c8ea..4b0943e 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -66,6 +66,7 @@ class Markers(visual.Markers):
 
 
     @atomic
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 548965e..c11dc37 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -29,6 +29,7 @@ class Paths(visual.Paths):
 
 
     @atomic
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index f313f1a..d1e2479 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -31,6 +31,7 @@ class Pixels(visual.Pixels):
 
 
     @atomic
+    @glm.ndarray.untracked
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index b36b893..0dc1e09 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -26,6 +26,7 @@ class Points(visual.Points):
 
 
     @atomic
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 253043d..1b1a4bb 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -29,6 +29,7 @@ class Polygons(visual.Polygons):
 
 
     @atomic
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 9040e26..ce85af2 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -27,6 +27,7 @@ class Segments(visual.Segments):
 
 
     @atomic
+    @glm.ndarray.untracked
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-- 
2.43.0


From 411d574646d7b2f5bc3def5b46f998935588999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 29/76] fix: draw points, pixels and markers once, and retry
 failed first renders

---
 gsp_matplotlib/visual/markers.py  | 3 +--
 gsp_matplotlib/visual/paths.py    | 2 +-
 gsp_matplotlib/visual/pixels.py   | 3 +--
 gsp_matplotlib/visual/points.py   | 3 +--
 gsp_matplotlib/visual/polygons.py | 2 +-
 gsp_matplotlib/visual/segments.py | 2 +-
 6 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 4b0943e..450d6f0 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -84,14 +84,13 @@ class Markers(visual.Markers):
             collection = viewport._axes.scatter([],[])
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
-            self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index c11dc37..1595f89 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -57,7 +57,6 @@ class Paths(visual.Paths):
                           LineCap.round: "round",
                           LineCap.cap:   "projecting"}[line_caps]            
             collection = LineCollection([], clip_on=True, snap=False, capstyle=line_caps)
-            self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -65,6 +64,7 @@ class Paths(visual.Paths):
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index d1e2479..c5ad40b 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -50,14 +50,13 @@ class Pixels(visual.Pixels):
             collection = viewport._axes.scatter( [],[], size)
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
-            self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 0dc1e09..b7436db 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -44,14 +44,13 @@ class Points(visual.Points):
             collection = viewport._axes.scatter([],[])
             collection.set_antialiaseds(True)
             collection.set_linewidths(0)
-            self._viewports[viewport] = collection
-            viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 1b1a4bb..6b3507a 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -53,7 +53,6 @@ class Polygons(visual.Polygons):
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = PolyCollection([], clip_on=True, snap=False)
-            self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -61,6 +60,7 @@ class Polygons(visual.Polygons):
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index ce85af2..7bc2c2b 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -43,7 +43,6 @@ class Segments(visual.Segments):
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = LineCollection([], clip_on=True, snap=False, capstyle="round")
-            self._viewports[viewport] = collection
             viewport._axes.add_collection(collection, autolim=False)
 
             # This is necessary for measure transforms that need to be
@@ -51,6 +50,7 @@ class Segments(visual.Segments):
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
                                lambda event: self.render(viewport))
+            self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
         # render Such call is only used to declare that this visual is
-- 
2.43.0


From 8d83b1ce6c94c44aaed90d5ea9a3d605a0d8ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 30/76] fix: keep the matrices of each viewport a visual is
 rendered on

---
 gsp/visual/visual.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index d33bae6..7778f90 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -25,6 +25,7 @@ class Visual(Object):
         self._model = np.eye(4)
         self._view = np.eye(4)
         self._proj = np.eye(4)
+        self._matrices = {}
         self._transform = np.eye(4)
 
     def set_variable(self, name, value):
@@ -107,6 +108,10 @@ class Visual(Object):
             Projection matrix to use for rendering
         """
 
+        # Matrices are those this viewport has been last rendered with
+        if viewport in self._matrices:
+            self._model, self._view, self._proj = self._matrices[viewport]
+
         # We store the model/view/proj matrices for resize events
         if model is not None:
             self._model = np.asarray(model, dtype=float)
@@ -120,4 +125,5 @@ class Visual(Object):
         except:
             self._transform = None
 
+        self._matrices[viewport] = self._model, self._view, self._proj
         self.set_variable("viewport", viewport)
-- 
2.43.0


From b0c630b39bdc8217fd6386cb4ddb2f33c4595576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 31/76] fix: a color given as a tuple is not a list of values
 per item

---
 gsp/visual/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 7778f90..ab1c461 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -80,7 +80,7 @@ class Visual(Object):
             value = np.asanyarray(value)
         elif isinstance(value, (List, list)):
             return value
-        elif isinstance(value, (float, int, str)):
+        elif isinstance(value, (float, int, str, tuple)):
             return value
         elif value is None:
             return None
-- 
2.43.0


From 22858a4befd9ff22ba37c11a776348021184398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 32/76] fix: do not record a render command for each resize

---
 gsp/visual/visual.py              | 11 ++++++++++-
 gsp_matplotlib/visual/markers.py  |  2 +-
 gsp_matplotlib/visual/paths.py    |  2 +-
 gsp_matplotlib/visual/pixels.py   |  2 +-
 gsp_matplotlib/visual/points.py   |  2 +-
 gsp_matplotlib/visual/polygons.py |  2 +-
 gsp_matplotlib/visual/segments.py |  2 +-
 7 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index ab1c461..9dcaad2 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -6,7 +6,7 @@ import numpy as np
 from gsp.object import Object
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Matrix
-from gsp.io.command import command
+from gsp.io.command import command, capture
 
 
 class Visual(Object):
@@ -127,3 +127,12 @@ class Visual(Object):
 
         self._matrices[viewport] = self._model, self._view, self._proj
         self.set_variable("viewport", viewport)
+
+    def redraw(self, viewport):
+        """
+        Render the visual on viewport again, e.g. when the viewport has
+        been resized, without recording a command.
+        """
+
+        with capture(force=False):
+            self.render(viewport)
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 450d6f0..7f93da5 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -89,7 +89,7 @@ class Markers(visual.Markers):
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
-                               lambda event: self.render(viewport))
+                               lambda event: self.redraw(viewport))
             self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 1595f89..5d4a768 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -63,7 +63,7 @@ class Paths(visual.Paths):
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
-                               lambda event: self.render(viewport))
+                               lambda event: self.redraw(viewport))
             self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index c5ad40b..9096b04 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -55,7 +55,7 @@ class Pixels(visual.Pixels):
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
-                               lambda event: self.render(viewport))
+                               lambda event: self.redraw(viewport))
             self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index b7436db..2ec7120 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -49,7 +49,7 @@ class Points(visual.Points):
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
-                               lambda event: self.render(viewport))
+                               lambda event: self.redraw(viewport))
             self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index 6b3507a..fe1575f 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -59,7 +59,7 @@ class Polygons(visual.Polygons):
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
-                               lambda event: self.render(viewport))
+                               lambda event: self.redraw(viewport))
             self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 7bc2c2b..39a68e5 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -49,7 +49,7 @@ class Segments(visual.Segments):
             # kept up to date with canvas size
             canvas = viewport._canvas._figure.canvas
             canvas.mpl_connect('resize_event',
-                               lambda event: self.render(viewport))
+                               lambda event: self.redraw(viewport))
             self._viewports[viewport] = collection
 
         # If render has been called without model/view/proj, we don't
-- 
2.43.0


From d8462f815452a3dc5b14e9d7b650688d22f87b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 33/76] fix: record the matrices of a render as they are when
 it is issued

---
 gsp/core/types.py    | 4 ++++
 gsp/io/command.py    | 2 ++
 gsp/visual/visual.py | 6 +++---
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gsp/core/types.py b/gsp/core/types.py
index a760420..50f99af 100644
--- a/gsp/core/types.py
+++ b/gsp/core/types.py
@@ -39,6 +39,10 @@ class Matrix:
     Representation of 4x4 float matrix.
     """
 
+    # Matrices are often modified in place from one render to the next
+    # such that the conversion cannot be postponed.
+    __immediate__ = True
+
     def __init__(self, data : tuple | list | np.ndarray):
         """
         Representation of 4x4 float matrix.
diff --git a/gsp/io/command.py b/gsp/io/command.py
index e54d636..e4ba6b1 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -362,6 +362,8 @@ def command(name=None):
                                 # else:
                                 # Delayed conversion
                                 parameters[key] = Converter(converter, value)
+                                if getattr(annotated_type, "__immediate__", False):
+                                    parameters[key] = converter(value)
 
                     if check:
                         continue
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 9dcaad2..5ae300c 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -114,11 +114,11 @@ class Visual(Object):
 
         # We store the model/view/proj matrices for resize events
         if model is not None:
-            self._model = np.asarray(model, dtype=float)
+            self._model = np.array(model, dtype=float)
         if view is not None:
-            self._view = np.asarray(view, dtype=float)
+            self._view = np.array(view, dtype=float)
         if proj is not None:
-            self._proj = np.asarray(proj, dtype=float)
+            self._proj = np.array(proj, dtype=float)
 
         try:
             self._transform = self._proj @ self._view @ self._model
-- 
2.43.0


From 963148cb27fa6b929637c77c40e2ba3e90874b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 34/76] fix: update the data of buffers that own it

---
 gsp_matplotlib/core/buffer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 9765e14..b68855c 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -21,7 +21,9 @@ class Buffer(core.Buffer):
 
         if isinstance(data, str):
             import base64
-            self._data = base64.b64decode(data)
+            self._data = bytearray(base64.b64decode(data))
+        elif isinstance(data, bytes):
+            self._data = bytearray(data)
         else:
             self._data = data
         self._array = None
@@ -30,9 +32,16 @@ class Buffer(core.Buffer):
     def set_data(self, offset : int,
                        data : memoryview | bytes):
         # Be careful with set_data when the underlying data is already tracked
-        # buffer = np.asanyarray(self).view(np.ubyte)
-        # buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
-        pass
+        # (it is up to date) and the buffer does not own it
+        if isinstance(self._data, memoryview):
+            return
+        if isinstance(data, str):
+            import base64
+            data = base64.b64decode(data)
+        buffer = np.asarray(self).reshape(-1).view(np.ubyte)
+        if offset < 0 or offset + len(data) > len(buffer):
+            raise ValueError("Data does not fit into the buffer")
+        buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
 
     def __array__(self):
         if self._array is None:
-- 
2.43.0


From 0499495389f8649cfd90b9c09e3e097008abee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 35/76] fix: draw farther pixels first

---
 gsp_matplotlib/visual/pixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 9096b04..2adc23f 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -70,7 +70,7 @@ class Pixels(visual.Pixels):
         positions = self.eval_variable("positions")
         # positions = positions.reshape(-1,3)
         positions = glm.to_vec3(glm.to_vec4(positions) @ self._transform.T)
-        sort_indices = np.argsort(positions[:,2])
+        sort_indices = np.argsort(-positions[:,2])
         collection.set_offsets(positions[sort_indices,:2])
 
         self.set_variable("screen[positions]", positions)
-- 
2.43.0


From 865e1b1b5da100c745108a1255cf0a7a08bc46cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 36/76] fix: accept a replayed buffer as positions of oriented
 markers

---
 gsp_matplotlib/visual/markers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 7f93da5..209af20 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -32,6 +32,7 @@ class Markers(visual.Markers):
     def generate_markers(self, positions):
         """ Generate path for markers at given positions."""
 
+        positions = np.asanyarray(positions)
         axis = self.eval_variable("axis")
         types = self.eval_variable("types")
         angles = self.eval_variable("angles")
-- 
2.43.0


From 08d8e9b58a2fbf6538fa32a9966df83f9d6858eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 37/76] fix: a meter is one hundred centimeters

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 4975fd7..27aad07 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -214,7 +214,7 @@ class Meter(Measure):
         """Evaluate the transform"""
 
         measure = Measure.evaluate(self, variables)
-        return 10e2*self.dpi(variables)/2.54 * measure
+        return 1e2*self.dpi(variables)/2.54 * measure
 
 class Kilometer(Measure):
     """
-- 
2.43.0


From cdba6f91128c85acb78a40c607a62aa03a6b07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 38/76] fix: load buffers with a structured type

---
 gsp_matplotlib/core/buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index b68855c..2abe23a 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -18,6 +18,10 @@ class Buffer(core.Buffer):
         super().__init__(count, dtype, data, __no_command__ = True)
         self._count = count
         self._dtype = dtype
+        # Structured types are saved as a list of fields
+        if isinstance(dtype, str) and dtype.startswith(("[", "(", "{")):
+            import ast
+            self._dtype = np.dtype(ast.literal_eval(dtype))
 
         if isinstance(data, str):
             import base64
-- 
2.43.0


From b3da3268b7aa32943a01df55a94af6c9be481055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 39/76] fix: a snapshot has the current size of the canvas

---
 gsp_matplotlib/core/canvas.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/core/canvas.py b/gsp_matplotlib/core/canvas.py
index a94bfb7..024d989 100644
--- a/gsp_matplotlib/core/canvas.py
+++ b/gsp_matplotlib/core/canvas.py
@@ -32,13 +32,21 @@ class Canvas(core.Canvas):
 
         self._figure = plt.figure(frameon=False, dpi=self._dpi)
         self._figure.patch.set_alpha(0.0)
-        self._figure.set_size_inches(self._width / self._dpi,
-                                     self._height /self._dpi)
+        self._figure.set_size_inches(self._inches(self._width),
+                                     self._inches(self._height))
 
         canvas = self._figure.canvas
         canvas.mpl_connect('resize_event', lambda event: self._figure.canvas.draw())
 
 
+    def _inches(self, size):
+        """ Size in inches that is converted back to (at least) size pixels """
+
+        inches = size / self._dpi
+        while int(inches * self._dpi) < int(size):
+            inches = np.nextafter(inches, np.inf)
+        return inches
+
     @property
     def size(self):
         # figure.dpi and canvas.dpi might be different because system
@@ -55,6 +63,8 @@ class Canvas(core.Canvas):
                 self._figure.savefig(output, format="raw")
                 output.seek(0)
                 data = np.frombuffer(output.getvalue(), dtype=np.uint8)
-            return data.reshape(self._height, self._width, -1)
+            # The figure may have been resized since its creation
+            width, height = self._figure.canvas.get_width_height()
+            return data.reshape(height, width, -1)
         else:
             self._figure.savefig(target, dpi=self._dpi)
-- 
2.43.0


From 65b66aab2b4d611e438b40806b4632e21153255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 40/76] fix: saving never leaves a partial session file

---
 gsp/io/json.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index ee65c08..6d5d4b4 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -2,7 +2,11 @@
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
 import io
+import os
 import sys
+import shutil
+import threading
+import contextlib
 import json
 import base64
 import numpy as np
@@ -83,8 +87,43 @@ def dump(queue=None, filename=None):
     if filename is None:
         return json.dumps(payload, indent=2, default=default)
     else:
+        write(filename, json.dumps(payload, default=default))
+
+
+def write(filename, text):
+    """
+    Write text to a file such that the file has either its previous
+    or its new content, whatever happens in the meantime.
+    """
+
+    filename = os.path.realpath(filename)
+    if os.path.exists(filename) and not os.path.isfile(filename):
+        # Devices and pipes cannot be replaced
         with open(filename, "w") as stream:
-            json.dump(payload, stream, default=default)
+            stream.write(text)
+        return
+
+    temporary = f"{filename}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        with open(temporary, "w") as stream:
+            stream.write(text)
+            stream.flush()
+            os.fsync(stream.fileno())
+        if os.path.exists(filename):
+            shutil.copymode(filename, temporary)
+        os.replace(temporary, filename)
+    except:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        raise
+
+    # Make the new name durable where directories can be synchronized
+    if hasattr(os, "O_DIRECTORY"):
+        directory = os.open(os.path.dirname(filename), os.O_RDONLY | os.O_DIRECTORY)
+        try:
+            os.fsync(directory)
+        finally:
+            os.close(directory)
 
 
 def save(filename, queue = None ):
-- 
2.43.0


From ab27789faf500e6e9fc11fa69b6d17fbdae3bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 41/76] fix: a session that cannot be loaded leaves everything
 unchanged

---
 gsp/__init__.py |  8 +++-----
 gsp/io/json.py  | 33 ++++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/gsp/__init__.py b/gsp/__init__.py
index 3e62dcb..e82ecbd 100644
--- a/gsp/__init__.py
+++ b/gsp/__init__.py
@@ -78,15 +78,13 @@ def load(filename, format=None):
     """
 
     import pathlib
-    from gsp.io import queue, json
-
-    Object.objects = {}
-    queue = queue("active").empty()
+    from gsp.io import json
 
     format = format or pathlib.Path(filename).suffix[1:]
     if format in ["json"]:
-        json.load(filename)
+        queue = json.load(filename)
     else:
         raise ValueError(f"Unknown format ({format})")
 
+    Object.objects = {}
     return queue
diff --git a/gsp/io/json.py b/gsp/io/json.py
index 6d5d4b4..e96ea71 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -137,20 +137,31 @@ def load(filename, queue = None):
     """ Load commands from JSON file into the default command queue """
 
     with open(filename) as stream:
-        commands = json.load(stream)["commands"]
+        payloads = json.load(stream)["commands"]
+    if not isinstance(payloads, list):
+        raise ValueError("Commands are not a list")
+
+    # Nothing is modified until the whole file has been checked
+    commands = [load_command(payload) for payload in payloads]
 
     # Get default command queue
     queue = CommandQueue("active") if queue is None else queue
     queue.empty()
+    queue.commands.extend(commands)
+    return queue
 
-    for command in commands:
-        method = command["method"]
-        try:
-            classname, methodname = method.split("/")
-        except ValueError:
-            classname, methodname = method, "__init__"
-        parameters = command["parameters"]
-        command = Command(classname,  methodname, parameters)
-        queue.push(command)
 
-    return queue
+def load_command(payload):
+    """ Build a command from its json payload """
+
+    method = payload["method"]
+    if method.count("/") > 1:
+        raise ValueError(f"Unknown method ({method})")
+    try:
+        classname, methodname = method.split("/")
+    except ValueError:
+        classname, methodname = method, "__init__"
+    parameters = payload["parameters"]
+    if not isinstance(parameters, dict) or type(parameters.get("id")) is not int:
+        raise ValueError("Parameters needs to have an id")
+    return Command(classname,  methodname, parameters)
-- 
2.43.0


From c06d54b584e5d5b2a6dc377e51aac18a6c83d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 42/76] fix: accept sizes and widths of points computed from
 their depth

---
 gsp_matplotlib/visual/markers.py  | 4 ++--
 gsp_matplotlib/visual/points.py   | 4 ++--
 gsp_matplotlib/visual/segments.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 209af20..ae6c311 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -144,13 +144,13 @@ class Markers(visual.Markers):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes([sizes]*len(positions))
 
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 2ec7120..09f24e1 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -87,13 +87,13 @@ class Points(visual.Points):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
         sizes = self.eval_variable("sizes")
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
-            collection.set_sizes(sizes[sort_indices])
+            collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes([sizes]*len(positions))
 
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 39a68e5..6fdf622 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -83,7 +83,7 @@ class Segments(visual.Segments):
 
         line_widths = self.eval_variable("line_widths")
         if isinstance(line_widths, np.ndarray) and (len(line_widths) == len(positions)):
-            collection.set_linewidths(line_widths[sort_indices])
+            collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
 
-- 
2.43.0


From 7069b8d980359eb00c83deb03e2ea983fdc8b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 43/76] fix: accept viewports that vanish in a small window

---
 gsp_matplotlib/core/viewport.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index 94d1f3c..c292c28 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -119,6 +119,9 @@ class Viewport(core.Viewport):
         # self._axes.set_aspect(width/height)
 
         width, height = self.size
+        if not width or not height:
+            # Nothing to see, but the viewport may grow again
+            return x, y, width, height
         zoom = self._axes.zoom
         if width > height:
             xlim = zoom*width/height
-- 
2.43.0


From 44a5dd9eb1817e87f9a8050bb202e7cdfcab5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 44/76] fix: objects never take over ids of a loaded session

---
 gsp/io/json.py | 5 ++++-
 gsp/object.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gsp/io/json.py b/gsp/io/json.py
index e96ea71..f7a9639 100644
--- a/gsp/io/json.py
+++ b/gsp/io/json.py
@@ -10,7 +10,7 @@ import contextlib
 import json
 import base64
 import numpy as np
-from gsp.object import Object
+from gsp.object import Object, OID
 from . command import CommandQueue, Command, capture
 
 def default(obj):
@@ -148,6 +148,9 @@ def load(filename, queue = None):
     queue = CommandQueue("active") if queue is None else queue
     queue.empty()
     queue.commands.extend(commands)
+
+    # Objects created before the commands are run must not use these ids
+    OID.reserved.update(command.parameters["id"] for command in commands)
     return queue
 
 
diff --git a/gsp/object.py b/gsp/object.py
index 91dd05d..123fc40 100644
--- a/gsp/object.py
+++ b/gsp/object.py
@@ -22,6 +22,9 @@ class OID(int):
     # Identifier counter
     counter = itertools.count()
 
+    # Identifiers of objects that a loaded session is yet to create
+    reserved = set()
+
     def __new__(cls, oid=None):
         """
         Creates a new identifier unless oid is provided
@@ -30,7 +33,7 @@ class OID(int):
         if oid is None:
             # Identifiers may already be used by replayed objects
             oid = 1 + next(OID.counter)
-            while oid in Object.objects.keys():
+            while oid in Object.objects.keys() or oid in OID.reserved:
                 oid = 1 + next(OID.counter)
         else:
             oid = int(oid)
-- 
2.43.0


From 688e6f4193517dcbffa66213150a86d12e44c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 45/76] fix: all views of a tracked array share its dirty
 region

---
 gsp_matplotlib/glm/ndarray/tracked.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index cc7b07f..7e42c7d 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -44,17 +44,19 @@ class tracked(np.ndarray):
 
         if not isinstance(obj, tracked):
             self.__class__.__init__(self)
+        # A view shares the tracker and the dirty region of its array
+        # while a copy is not tracked
+        shared = isinstance(obj, tracked) and np.may_share_memory(self, obj)
+        self._array = obj._root() if shared else None
         if obj is None:
             self._extents = 0, self.size*self.itemsize
         else:
             self._extents = self._compute_extents(self)
         self._dirty = self._extents
         self._tracker = None
-        if isinstance(obj, tracked):
-            # A view shares the tracker while a copy is not tracked
-            if np.may_share_memory(self, obj):
-                self._tracker = getattr(obj, '_tracker', None)
-        elif obj is not None and self.__tracker_class__ is not None:
+        if shared:
+            self._tracker = getattr(obj, '_tracker', None)
+        elif obj is not None and not isinstance(obj, tracked) and self.__tracker_class__ is not None:
             self._tracker = self.__tracker_class__(obj)
 
     def clear(self):
@@ -71,10 +73,8 @@ class tracked(np.ndarray):
     def _root(self):
         """ Tracked array this array is a view of (or itself) """
 
-        root = self
-        while isinstance(root.base, tracked):
-            root = root.base
-        return root
+        array = getattr(self, "_array", None)
+        return self if array is None else array
 
     def _update(self, start, stop):
         """ Update dirty region """
-- 
2.43.0


From 36427a1b5a9f064fb5aec9638197d4424bfc8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 46/76] fix: viewports that are not square show undistorted
 data from the start

---
 gsp_matplotlib/core/viewport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index c292c28..ef2a9c6 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -30,13 +30,13 @@ class Viewport(core.Viewport):
         self._extent = x, y, width, height
         self._axes = canvas._figure.add_axes([0,0,1,1])
         self._axes.zoom = 1.0
-        self._update()
 
         self._axes.patch.set_color(self._color)
         self._axes.autoscale(False)
 
         self._axes.set_xlim(-1, 1)
         self._axes.set_ylim(-1, 1)
+        self._update()
 
         self._axes.get_xaxis().set_visible(False)
         self._axes.get_yaxis().set_visible(False)
-- 
2.43.0


From 6e2865bc30d477f9c8bb68f6d41391b338e8c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 47/76] fix: buffers keep the shape of items that are arrays of
 vectors

---
 gsp_matplotlib/__init__.py    | 6 +++++-
 gsp_matplotlib/core/buffer.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/__init__.py b/gsp_matplotlib/__init__.py
index bbd06ee..d77a3eb 100644
--- a/gsp_matplotlib/__init__.py
+++ b/gsp_matplotlib/__init__.py
@@ -92,7 +92,11 @@ class Tracker:
     def __init__(self, ndarray):
         if ndarray is not None:
             self.ndarray = ndarray
-            self.gsp_buffer = Buffer(len(ndarray), ndarray.dtype, ndarray.data)
+            # Items keep their shape
+            dtype = ndarray.dtype
+            if ndarray.ndim > 2 and ndarray.size:
+                dtype = np.dtype((dtype, ndarray.shape[1:]))
+            self.gsp_buffer = Buffer(len(ndarray), dtype, ndarray.data)
             self.gsp_buffer.set_data(0, ndarray.tobytes())
 
     def set_data(self, offset, bytes):
diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 2abe23a..2033f8c 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -54,7 +54,7 @@ class Buffer(core.Buffer):
             else:
                 self._array = np.zeros(self._count, self._dtype)
             # Items may have several components (e.g. vec3)
-            if self._count and self._array.size != self._count:
+            if self._count and len(self._array) != self._count:
                 self._array = self._array.reshape(self._count, -1)
         return self._array
 
-- 
2.43.0


From 59da3413ed93db0410df5e87038d4feab3c0e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 48/76] fix: measures can be bound to a tuple of lengths

---
 gsp/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 26fa54a..85f09dc 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -66,7 +66,7 @@ class Transform(Object):
         self._next = next
 
     @command()
-    def set_buffer(self, buffer : Transform | Buffer | float | int = None):
+    def set_buffer(self, buffer : Transform | Buffer | float | int | tuple = None):
         """Bind the transform to the given buffer.
 
         Parameters
-- 
2.43.0


From b49850f94a58725d7f344d6b89cd352907fdb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 49/76] fix: renders report matrices that are not 4x4 before
 keeping any

A matrix of another shape was kept although the call failed (or, worse,
was silently ignored), such that later renders showed nothing.
---
 gsp/visual/visual.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 5ae300c..a58ed41 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -109,21 +109,14 @@ class Visual(Object):
         """
 
         # Matrices are those this viewport has been last rendered with
-        if viewport in self._matrices:
-            self._model, self._view, self._proj = self._matrices[viewport]
-
-        # We store the model/view/proj matrices for resize events
-        if model is not None:
-            self._model = np.array(model, dtype=float)
-        if view is not None:
-            self._view = np.array(view, dtype=float)
-        if proj is not None:
-            self._proj = np.array(proj, dtype=float)
-
-        try:
-            self._transform = self._proj @ self._view @ self._model
-        except:
-            self._transform = None
+        matrices = self._matrices.get(viewport, (self._model, self._view, self._proj))
+
+        # We store the model/view/proj matrices for resize events (once
+        # they have all been found to be matrices)
+        model, view, proj = [old if new is None else np.array(new, dtype=float).reshape(4,4)
+                             for old, new in zip(matrices, (model, view, proj))]
+        self._transform = proj @ view @ model
+        self._model, self._view, self._proj = model, view, proj
 
         self._matrices[viewport] = self._model, self._view, self._proj
         self.set_variable("viewport", viewport)
-- 
2.43.0


From 17b4859084ffd5356b6a7eec4d121dbe65df952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 50/76] fix: a failing render leaves its collection as it was

An attribute that matplotlib rejects stayed with the collection, such that
the canvas could not be drawn anymore and resizes kept failing.
---
 gsp/visual/visual.py              |  4 ++++
 gsp_matplotlib/visual/markers.py  |  2 ++
 gsp_matplotlib/visual/paths.py    |  2 ++
 gsp_matplotlib/visual/pixels.py   |  2 ++
 gsp_matplotlib/visual/points.py   |  2 ++
 gsp_matplotlib/visual/polygons.py |  2 ++
 gsp_matplotlib/visual/rollback.py | 28 ++++++++++++++++++++++++++++
 gsp_matplotlib/visual/segments.py |  2 ++
 8 files changed, 44 insertions(+)
 create mode 100644 gsp_matplotlib/visual/rollback.py

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index a58ed41..8219efb 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -127,5 +127,9 @@ class Visual(Object):
         been resized, without recording a command.
         """
 
+        # Not if it could not be rendered so far
+        if viewport not in self._viewports:
+            return
+
         with capture(force=False):
             self.render(viewport)
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index ae6c311..63fbecd 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
 from gsp.io.command import command, atomic
+from . rollback import rollback
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color, Marker, Vec3
 import matplotlib as mpl
@@ -68,6 +69,7 @@ class Markers(visual.Markers):
 
     @atomic
     @glm.ndarray.untracked
+    @rollback
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index 5d4a768..c09eb27 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
 from gsp.io.command import command, atomic
+from . rollback import rollback
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Color, Measure, LineCap, LineStyle, LineJoin
 
@@ -30,6 +31,7 @@ class Paths(visual.Paths):
 
     @atomic
     @glm.ndarray.untracked
+    @rollback
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index 2adc23f..ae78712 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
 from gsp.io.command import command, atomic
+from . rollback import rollback
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color
 
@@ -32,6 +33,7 @@ class Pixels(visual.Pixels):
 
     @atomic
     @glm.ndarray.untracked
+    @rollback
     def render(self, viewport, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 09f24e1..ce3a9ec 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
 from gsp.io.command import command, atomic
+from . rollback import rollback
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color
 
@@ -27,6 +28,7 @@ class Points(visual.Points):
 
     @atomic
     @glm.ndarray.untracked
+    @rollback
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index fe1575f..b320dd5 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
 from gsp.io.command import command, atomic
+from . rollback import rollback
 from gsp.transform import Transform
 from gsp.core import Viewport, List, Buffer, Color, Measure, LineStyle, LineJoin
 
@@ -30,6 +31,7 @@ class Polygons(visual.Polygons):
 
     @atomic
     @glm.ndarray.untracked
+    @rollback
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
diff --git a/gsp_matplotlib/visual/rollback.py b/gsp_matplotlib/visual/rollback.py
new file mode 100644
index 0000000..b0e9087
--- /dev/null
+++ b/gsp_matplotlib/visual/rollback.py
@@ -0,0 +1,28 @@
+# Package: Graphic Server Protocol / Matplotlib
+# License: BSD 3 clause
+from functools import wraps
+
+
+def rollback(render):
+    """
+    Decorator for the render method of visuals. If rendering fails,
+    what the viewport shows for the visual stays (or becomes again)
+    what it was: a collection that has been updated in part may be
+    such that the whole canvas cannot be drawn anymore.
+    """
+
+    @wraps(render)
+    def inner(self, viewport=None, *args, **kwargs):
+        before = self._viewports.get(viewport)
+        state = None if before is None else dict(vars(before))
+        try:
+            return render(self, viewport, *args, **kwargs)
+        except BaseException:
+            collection = self._viewports.get(viewport)
+            if before is not None:
+                vars(before).update(state)
+            elif collection is not None:
+                del self._viewports[viewport]
+                collection.remove()
+            raise
+    return inner
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index 6fdf622..da49fe7 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -6,6 +6,7 @@ import numpy as np
 from gsp_matplotlib import glm
 from gsp import visual
 from gsp.io.command import command, atomic
+from . rollback import rollback
 from gsp.transform import Transform
 from gsp.core import Viewport, Buffer, Color, LineCap
 
@@ -28,6 +29,7 @@ class Segments(visual.Segments):
 
     @atomic
     @glm.ndarray.untracked
+    @rollback
     def render(self, viewport=None, model=None, view=None, proj=None):
 
         super().render(viewport, model, view, proj)
-- 
2.43.0


From c02f778cf939a723d56ac797574f8e37f37683ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 51/76] fix: huge drags do not break the orientation of a
 trackball

Products of the coordinates overflowed, the orientation became NaN (or a
null quaternion) and stayed so.
---
 gsp_matplotlib/glm/trackball.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 33a6901..7b3abd8 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -239,8 +239,10 @@ class Trackball(object):
 
         if not dx and not dy:
             return [ 0.0, 0.0, 0.0, 1.0]
-        last = [x, y,       self._project(self._TRACKBALLSIZE, x, y)]
-        new  = [x+dx, y+dy, self._project(self._TRACKBALLSIZE, x+dx, y+dy)]
+        # Products of coordinates far away must not overflow
+        x0, y0, x1, y1 = [max(-1e30, min(1e30, float(v))) for v in (x, y, x+dx, y+dy)]
+        last = [x0, y0, self._project(self._TRACKBALLSIZE, x0, y0)]
+        new  = [x1, y1, self._project(self._TRACKBALLSIZE, x1, y1)]
         a = _v_cross(new, last)
         d = _v_sub(last, new)
         t = _v_length(d) / (2.0*self._TRACKBALLSIZE)
-- 
2.43.0


From 14f2dfff5b64c6656868bc10b20dae2b81e4d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 52/76] fix: angles of a trackball beyond 90 degrees are read
 as set

They were folded, and reading one angle made setting the other one change
the orientation altogether.
---
 gsp_matplotlib/glm/trackball.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 7b3abd8..9cb73e8 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -192,9 +192,9 @@ class Trackball(object):
         ''' Return current computed orientation (theta,phi). '''
 
         q0,q1,q2,q3 = self._rotation
-        ax = math.atan(2*(q0*q1+q2*q3)/(1-2*(q1*q1+q2*q2)))*180.0/math.pi
-        az = math.atan(2*(q0*q3+q1*q2)/(1-2*(q2*q2+q3*q3)))*180.0/math.pi
-        return -az,ax
+        ax = math.atan2(2*(q0*q1+q2*q3), 1-2*(q1*q1+q2*q2))*180.0/math.pi
+        az = math.atan2(2*(q0*q3+q1*q2), 2*(q2*q2+q3*q3)-1)*180.0/math.pi
+        return az,ax
 
     def _set_orientation(self, theta, phi):
         ''' Computes rotation corresponding to theta and phi. '''
-- 
2.43.0


From 827262b5f52d61dfd94286da37de9ef9e6d4f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 53/76] fix: evaluating an unbound colormap is an error

---
 gsp/transform/colormap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index c688408..2c16c95 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -69,8 +69,10 @@ class Colormap(Transform):
 
         if self._next:
             value = self._next.evaluate(buffers)
-        else:
+        elif self._buffer is not None:
             value = np.asarray(self._buffer)
+        else:
+            raise ValueError("Transform is not bound")
         cmap = plt.get_cmap(self._colormap)
         vmin = value.min() if self._vmin is None else self._vmin
         vmax = value.max() if self._vmax is None else self._vmax
-- 
2.43.0


From a69cfbfc1de6017e4bfeb1805b34acc58183825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 54/76] fix: chaining a chain of transforms keeps all of them

---
 gsp/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 85f09dc..04eafad 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -158,8 +158,8 @@ class Transform(Object):
 
         transform = self.copy()
         if isinstance(other, Transform):
-            transform.set_next(other.copy())
-            transform.set_buffer(None)
+            transform.last.set_buffer(None)
+            transform.last.set_next(other.copy())
         elif isinstance(other, (Buffer, np.ndarray, float, int, tuple)):
             if self.bound:
                 raise ValueError("Transform is already bound")
-- 
2.43.0


From 9b4953c85ed9fe082a5a95d54860ca6f14bda487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 55/76] fix: transforms bound to numbers or arrays can be
 printed

---
 gsp/transform/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index 04eafad..d583997 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -210,6 +210,6 @@ class Transform(Object):
 
         if self._next:
             s += "(%s)" % repr(self._next.id)
-        elif self._buffer:
-            s += "(%s)" % repr(self._buffer.id)
+        elif self._buffer is not None:
+            s += "(%s)" % repr(getattr(self._buffer, "id", self._buffer))
         return s
-- 
2.43.0


From 7c09685e97c7a47aa2b61a6b45427ada244aa7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 56/76] fix: a call with parameters of a wrong type changes
 nothing

---
 gsp/io/command.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index e4ba6b1..5183f1b 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -284,12 +284,9 @@ def command(name=None):
                 no_command = True
                 del kwargs["__no_command__"]
 
-            result = func(self, *args, **kwargs)
-
             if not __record__ and not Capture.forced():
-                return result
+                return func(self, *args, **kwargs)
 
-            queue = recorder()
             keys = func.__code__.co_varnames[1:]
             annotations = func.__annotations__
             annotations = typing.get_type_hints(func)
@@ -297,10 +294,8 @@ def command(name=None):
             values = args
             defaults = get_default_args(func)
 
-            # Add self (identifying by id) to parameters
-            parameters = {"id": self.id}
-
             # Parameters
+            parameters = {}
             for key,value in zip(keys,values):
                 # We change the name of the parameter to indicate it is an ID
                 # This will be used later whne executing a command queue
@@ -372,6 +367,13 @@ def command(name=None):
                             "No converter found for converting '%s' (%s) to %s."
                             % (key, parameter_type, annotated_types))
 
+            # Parameters are known to be of the right type, call can be made
+            result = func(self, *args, **kwargs)
+
+            # Add self (identifying by id) to parameters
+            parameters = {"id": self.id} | parameters
+
+            queue = recorder()
             if not no_command and not queue.readonly:
                 classname = self.__class__.__name__
                 methodname = func.__code__.co_name if name is None else name
-- 
2.43.0


From 3bddd18512a47c36f82a9dd6be9d230f0173c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 57/76] fix: colormaps of numbers are evaluated like those of
 arrays

---
 gsp/transform/colormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/colormap.py b/gsp/transform/colormap.py
index 2c16c95..afe56f6 100644
--- a/gsp/transform/colormap.py
+++ b/gsp/transform/colormap.py
@@ -68,7 +68,7 @@ class Colormap(Transform):
         import matplotlib.pyplot as plt
 
         if self._next:
-            value = self._next.evaluate(buffers)
+            value = np.asarray(self._next.evaluate(buffers))
         elif self._buffer is not None:
             value = np.asarray(self._buffer)
         else:
@@ -77,4 +77,4 @@ class Colormap(Transform):
         vmin = value.min() if self._vmin is None else self._vmin
         vmax = value.max() if self._vmax is None else self._vmax
         norm = mpl.colors.Normalize(vmin=vmin, vmax=vmax)
-        return cmap(norm(value))
+        return np.asarray(cmap(norm(value)))
-- 
2.43.0


From 69aeb3061011acb902912a1224daa95861762898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 58/76] fix: record which copies an operator is made of, such
 that changes of its parts are replayed

---
 gsp/transform/operator.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index ceff55f..46f6328 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -1,13 +1,33 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+from functools import wraps
 import numpy as np
 from gsp.core import Buffer
 from . transform import Transform
 from gsp.io.command import command
 
+def operands(init):
+    """
+    Constructor decorator such that the copies of the operands an
+    operator is made of are recorded as being its operands.
+    """
+
+    @wraps(init)
+    def inner(self, *args, **kwargs):
+        nested = "__no_command__" in kwargs
+        init(self, *args, **kwargs)
+        if not nested:
+            if isinstance(self._left, Transform):
+                self.set_left(self._left)
+            if isinstance(self._right, Transform):
+                self.set_right(self._right)
+    return inner
+
+
 class Operator(Transform):
 
+    @operands
     @command("transform.Operator")
     def __init__(self, operator : str,
                        left : Transform | Buffer | int | float = None,
@@ -151,6 +171,7 @@ class Operator(Transform):
 
 class Add(Operator):
 
+    @operands
     @command("transform.Add")
     def __init__(self, left : Transform | Buffer | float | int = None,
                        right : Transform | Buffer | float | int = None):
@@ -167,6 +188,7 @@ class Add(Operator):
 
 class Sub(Operator):
 
+    @operands
     @command("transform.Sub")
     def __init__(self, left : Transform | Buffer | float | int = None,
                        right : Transform | Buffer | float | int = None):
@@ -182,6 +204,7 @@ class Sub(Operator):
 
 class Mul(Operator):
 
+    @operands
     @command("transform.Mul")
     def __init__(self, left : Transform | Buffer | float | int = None,
                        right : Transform | Buffer | float | int = None):
@@ -197,6 +220,7 @@ class Mul(Operator):
 
 class Div(Operator):
 
+    @operands
     @command("transform.Div")
     def __init__(self,left : Transform | Buffer | float | int = None,
                       right : Transform | Buffer | float | int = None):
-- 
2.43.0


From 3f633dfdfa45b4b60e40c5ed74a78e05cfffe209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 59/76] fix: text dumps show any queue and leave it alone

---
 gsp/io/ansi.py | 52 ++++++++++++++++++++++++++++++--------------------
 gsp/io/text.py | 51 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 69 insertions(+), 34 deletions(-)

diff --git a/gsp/io/ansi.py b/gsp/io/ansi.py
index 204dacd..0fcc339 100644
--- a/gsp/io/ansi.py
+++ b/gsp/io/ansi.py
@@ -7,7 +7,8 @@ from types import UnionType
 from typing import Union, get_args, get_origin
 from datetime import datetime
 from gsp.object import Object, OID
-from . command import CommandQueue, Command, Converter, CID
+from . command import CommandQueue, Command, Converter, CID, capture
+from . json import write
 
 def bold(s): return f"\033[1m{s}\033[0m"
 def dim(s): return f"\033[2m{s}\033[0m"
@@ -51,21 +52,22 @@ def dump_command(command, stream=sys.stdout):
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
-            if key.endswith("(id)"):
-                key = key[:-4]
-                vtype = command.annotations[key]
-                key += "_ID"
+            name = key.removesuffix("(id)")
+            if name in (command.annotations or {}):
+                vtype = command.annotations[name]
             else:
-                vtype = command.annotations[key]
-
-            if hasattr(vtype, "__name__"):
+                # Loaded commands are not annotated
+                vtype = type(value)
+            if key != name:
+                name += "_ID"
+
+            if isinstance(vtype, UnionType):
+                vtype = " | ".join([str(v.__name__) for v in get_args(vtype)])
+            elif hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
             else:
-                if isinstance(vtype, UnionType):
-                    vtype = " | ".join([str(v.__name__) for v in get_args(vtype)])
-                else:
-                    vtype = str(vtype)
-            s +="     - %s: %s" % (key.upper(), value)
+                vtype = str(vtype)
+            s += "     - %s: %s" % (name.upper(), str(value))
             s += dim(" (%s)\n" % (vtype))
 
     if stream == sys.stdout:
@@ -73,20 +75,28 @@ def dump_command(command, stream=sys.stdout):
     else:
         return s
 
+def dump_commands(commands):
+    """ Dump commands as text, with the commands they depend on """
+
+    text = ""
+    for command in commands:
+        # Commands issued by just in time conversions (e.g. buffer
+        # creation) have to come before the command using them.
+        with capture() as issued:
+            dumped = dump_command(command, stream=None)
+        text += dump_commands(issued) + dumped + "\n"
+    return text
+
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue("active")
-    commands = ""
-    for command in queue.commands:
-        commands += dump_command(command, stream=None)
-        commands += "\n"
+    queue = CommandQueue("active") if queue is None else queue
+    commands = dump_commands(queue.commands)
 
     if filename is None:
         return commands
     else:
-        with open(filename, "w") as stream:
-            stream.write(commands)
+        write(filename, commands)
 
 def save(queue, filename):
     """ Save command queue to a file """
@@ -97,4 +107,4 @@ def save(queue, filename):
 def load(filename):
     """ Load commands from JSON file into the default command queue """
 
-    raise NotImplemented
+    raise NotImplementedError("Commands cannot be loaded from text")
diff --git a/gsp/io/text.py b/gsp/io/text.py
index 3e2312a..7896ea0 100644
--- a/gsp/io/text.py
+++ b/gsp/io/text.py
@@ -3,9 +3,12 @@
 # License: BSD 3 clause
 import io
 import sys
+from types import UnionType
+from typing import get_args
 from datetime import datetime
 from gsp.object import Object, OID
-from . command import CommandQueue, Command, Converter, CID
+from . command import CommandQueue, Command, Converter, CID, capture
+from . json import write
 
 def bold(s): return s
 def dim(s): return s
@@ -40,17 +43,31 @@ def dump_command(command, stream=sys.stdout):
 
         # Immediate conversion for lisibility in the documentation
         if isinstance(value, Converter):
-            value = str(value()) + " (converted)"
+            value = value()
+            if isinstance(value, Object):
+                value = value.id
+            else:
+                value = str(value) + " (converted)"
 
         if key == "id":
             s += "     - OBJECT_ID: %s" % value + dim(" (int)\n")
         else:
-            vtype = command.annotations[key]
-            if hasattr(vtype, "__name__"):
+            name = key.removesuffix("(id)")
+            if name in (command.annotations or {}):
+                vtype = command.annotations[name]
+            else:
+                # Loaded commands are not annotated
+                vtype = type(value)
+            if key != name:
+                name += "_ID"
+
+            if isinstance(vtype, UnionType):
+                vtype = " | ".join([str(v.__name__) for v in get_args(vtype)])
+            elif hasattr(vtype, "__name__"):
                 vtype = vtype.__name__
             else:
                 vtype = str(vtype)
-            s +="     - %s: %s" % (key.upper(), value)
+            s += "     - %s: %s" % (name.upper(), str(value))
             s += dim(" (%s)\n" % (vtype))
 
     if stream == sys.stdout:
@@ -58,20 +75,28 @@ def dump_command(command, stream=sys.stdout):
     else:
         return s
 
+def dump_commands(commands):
+    """ Dump commands as text, with the commands they depend on """
+
+    text = ""
+    for command in commands:
+        # Commands issued by just in time conversions (e.g. buffer
+        # creation) have to come before the command using them.
+        with capture() as issued:
+            dumped = dump_command(command, stream=None)
+        text += dump_commands(issued) + dumped + "\n"
+    return text
+
 def dump(queue=None, filename=None):
     """ Save command queue to a file """
 
-    queue = queue or CommandQueue.get_default()
-    commands = ""
-    for command in queue._commands:
-        commands += dump_command(command, stream=None)
-        commands += "\n"
+    queue = CommandQueue("active") if queue is None else queue
+    commands = dump_commands(queue.commands)
 
     if filename is None:
         return commands
     else:
-        with open(filename, "w") as stream:
-            stream.write(commands)
+        write(filename, commands)
 
 def save(queue, filename):
     """ Save command queue to a file """
@@ -82,4 +107,4 @@ def save(queue, filename):
 def load(filename):
     """ Load commands from JSON file into the default command queue """
 
-    raise NotImplemented
+    raise NotImplementedError("Commands cannot be loaded from text")
-- 
2.43.0


From 36f682445320f03c4ff54108c3269e52002bbfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:48 +0000
Subject: [PATCH 60/76] fix: a download that fails leaves no partial file in
 the cache

---
 examples/common/asset_downloader.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/examples/common/asset_downloader.py b/examples/common/asset_downloader.py
index 9b61bc3..ce2f045 100644
--- a/examples/common/asset_downloader.py
+++ b/examples/common/asset_downloader.py
@@ -11,6 +11,8 @@ SPDX-License-Identifier: MIT
 
 # Imports
 
+import os
+import contextlib
 from pathlib import Path
 
 # Constants
@@ -32,6 +34,25 @@ def is_lfs_pointer(content_bytes: bytes) -> bool:
     return text.startswith('version https://git-lfs.github.com') and 'oid sha256:' in text
 
 
+def write_file(file_path: Path, chunks) -> None:
+    """
+    Write chunks to a file that is either left as it was or completely written, whatever happens
+    in the meantime (network or disk error, crash).
+    """
+    temporary = f'{file_path}.{os.getpid()}.tmp'
+    try:
+        with open(temporary, 'wb') as f:
+            for chunk in chunks:
+                f.write(chunk)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temporary, file_path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        raise
+
+
 def download_data(rel_path: str, force_download: bool = False) -> Path:
     """
     Download a file from the datoviz/data GitHub repo into a local cache directory, handling Git
@@ -74,14 +95,11 @@ def download_data(rel_path: str, force_download: bool = False) -> Path:
             print(f'Detected Git LFS file. Downloading from: {media_url}')
             r = requests.get(media_url, stream=True, timeout=60)
             r.raise_for_status()
-            with open(file_path, 'wb') as f:
-                for chunk in r.iter_content(chunk_size=8192):
-                    f.write(chunk)
+            write_file(file_path, r.iter_content(chunk_size=8192))
         else:
             # Normal file
             print(f'Downloading file from: {raw_url}')
-            with open(file_path, 'wb') as f:
-                f.write(content)
+            write_file(file_path, [content])
 
     except Exception as e:
         raise RuntimeError(f'Failed to download {rel_path}: {e}') from e
-- 
2.43.0


From 5179321a5e1d0c90f04c8e9e2b8934e788b77f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 61/76] fix: variables output by visuals are those they are
 rendered with instead of uninitialised memory

---
 gsp/visual/markers.py  | 16 ++++++++--------
 gsp/visual/paths.py    | 10 +++++-----
 gsp/visual/pixels.py   |  2 +-
 gsp/visual/points.py   | 10 +++++-----
 gsp/visual/polygons.py | 12 ++++++------
 gsp/visual/segments.py | 10 +++++-----
 gsp/visual/visual.py   | 34 +++++++++++++++++++++++++++++++++-
 7 files changed, 63 insertions(+), 31 deletions(-)

diff --git a/gsp/visual/markers.py b/gsp/visual/markers.py
index 5c463fa..06943c3 100644
--- a/gsp/visual/markers.py
+++ b/gsp/visual/markers.py
@@ -100,12 +100,12 @@ class Markers(Visual):
         # sure they are not tracked.
         n = len(positions)
         self._out_variables = {
-            "screen[positions]" : np.empty((n,3), np.float32),
-            "types" :             np.empty(n, np.uint8),
-            "sizes" :             np.empty(n, np.float32),
-            "axis" :              np.empty((n,3), np.float32),
-            "angles" :            np.empty(n, np.float32),
-            "fill_colors" :       np.empty((n,4), np.float32),
-            "line_colors" :       np.empty((n,4), np.float32),
-            "line_widths" :       np.empty(n, np.float32),
+            "screen[positions]" : np.zeros((n,3), np.float32),
+            "types" :             np.zeros(n, np.uint8),
+            "sizes" :             np.zeros(n, np.float32),
+            "axis" :              np.zeros((n,3), np.float32),
+            "angles" :            np.zeros(n, np.float32),
+            "fill_colors" :       np.zeros((n,4), np.float32),
+            "line_colors" :       np.zeros((n,4), np.float32),
+            "line_widths" :       np.zeros(n, np.float32),
         }
diff --git a/gsp/visual/paths.py b/gsp/visual/paths.py
index 6d6bd68..ac312a4 100644
--- a/gsp/visual/paths.py
+++ b/gsp/visual/paths.py
@@ -163,11 +163,11 @@ class Paths(Visual):
             npaths = len(indices)
         
         self._out_variables = {
-            "screen[positions]" : np.empty((n,3), np.float32),
-            "screen[paths]"    :  np.empty((npaths,3), np.float32),
-            "line_caps" :         np.empty((n,2), np.uint8),
-            "line_colors" :       np.empty((n,4), np.float32),
-            "line_widths" :       np.empty(n, np.float32),
+            "screen[positions]" : np.zeros((n,3), np.float32),
+            "screen[paths]"    :  np.zeros((npaths,3), np.float32),
+            "line_caps" :         np.zeros((n,2), np.uint8),
+            "line_colors" :       np.zeros((n,4), np.float32),
+            "line_widths" :       np.zeros(n, np.float32),
         }
 
     # # Private
diff --git a/gsp/visual/pixels.py b/gsp/visual/pixels.py
index 005a9cd..0c92fb4 100644
--- a/gsp/visual/pixels.py
+++ b/gsp/visual/pixels.py
@@ -68,5 +68,5 @@ class Pixels(Visual):
         # sure they are not tracked.
         n = len(positions)
         self._out_variables = {
-            "screen[positions]" : np.empty((n,3), np.float32),
+            "screen[positions]" : np.zeros((n,3), np.float32),
         }
diff --git a/gsp/visual/points.py b/gsp/visual/points.py
index 3ab38ce..344c5cb 100644
--- a/gsp/visual/points.py
+++ b/gsp/visual/points.py
@@ -84,9 +84,9 @@ class Points(Visual):
         # sure they are not tracked.
         n = len(positions)
         self._out_variables = {
-            "screen[positions]" : np.empty((n,3), np.float32),
-            "sizes" :             np.empty(n, np.float32),
-            "fill_colors" :       np.empty((n,4), np.float32),
-            "line_colors" :       np.empty((n,4), np.float32),
-            "line_widths" :       np.empty(n, np.float32),
+            "screen[positions]" : np.zeros((n,3), np.float32),
+            "sizes" :             np.zeros(n, np.float32),
+            "fill_colors" :       np.zeros((n,4), np.float32),
+            "line_colors" :       np.zeros((n,4), np.float32),
+            "line_widths" :       np.zeros(n, np.float32),
         }
diff --git a/gsp/visual/polygons.py b/gsp/visual/polygons.py
index db42118..d0c131a 100644
--- a/gsp/visual/polygons.py
+++ b/gsp/visual/polygons.py
@@ -158,10 +158,10 @@ class Polygons(Visual):
             npolys = len(indices)
         
         self._out_variables = {
-            "screen[positions]" : np.empty((n,3), np.float32),
-            "screen[polygons]"  :  np.empty((npolys,3), np.float32),
-            "line_caps" :         np.empty((n,2), np.uint8),
-            "fill_colors" :       np.empty((n,4), np.float32),
-            "line_colors" :       np.empty((n,4), np.float32),
-            "line_widths" :       np.empty(n, np.float32),
+            "screen[positions]" : np.zeros((n,3), np.float32),
+            "screen[polygons]"  :  np.zeros((npolys,3), np.float32),
+            "line_caps" :         np.zeros((n,2), np.uint8),
+            "fill_colors" :       np.zeros((n,4), np.float32),
+            "line_colors" :       np.zeros((n,4), np.float32),
+            "line_widths" :       np.zeros(n, np.float32),
         }
diff --git a/gsp/visual/segments.py b/gsp/visual/segments.py
index 3e90790..cac42e6 100644
--- a/gsp/visual/segments.py
+++ b/gsp/visual/segments.py
@@ -82,9 +82,9 @@ class Segments(Visual):
         n = len(positions)
 
         self._out_variables = {
-            "screen[positions]" : np.empty((n,2,3), np.float32),
-            "screen[segments]" :  np.empty(n, np.float32),
-            "line_caps" :         np.empty((n,2), np.uint8),
-            "line_colors" :       np.empty((n,4), np.float32),
-            "line_widths" :       np.empty(n, np.float32),
+            "screen[positions]" : np.zeros((n,2,3), np.float32),
+            "screen[segments]" :  np.zeros(n, np.float32),
+            "line_caps" :         np.zeros((n,2), np.uint8),
+            "line_colors" :       np.zeros((n,4), np.float32),
+            "line_widths" :       np.zeros(n, np.float32),
         }
diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index 8219efb..a4f3c28 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -9,6 +9,33 @@ from gsp.core import Viewport, List, Buffer, Matrix
 from gsp.io.command import command, capture
 
 
+class Variables(dict):
+    """
+    Variables of a visual as seen by its transforms. What is both an in and
+    an out variable is output as it is rendered (and evaluated on demand).
+    """
+
+    def __init__(self, visual, pending):
+        super().__init__(visual._in_variables | visual._out_variables)
+        self._visual = visual
+        self._pending = pending
+
+    def __getitem__(self, name):
+        visual = self._visual
+        if name not in visual._in_variables or name not in visual._out_variables:
+            return super().__getitem__(name)
+        if name in self._pending:
+            raise ValueError(f"Variable {name} depends on itself")
+        value = visual._evaluate(name, self._pending)
+        out = visual._out_variables[name]
+        if np.size(value) == out.size:
+            return np.reshape(value, out.shape)
+        try:
+            return np.broadcast_to(value, out.shape)
+        except ValueError:
+            return value
+
+
 class Visual(Object):
     """
     Generic Visual
@@ -73,9 +100,14 @@ class Visual(Object):
             Name of the variable to evaluate
         """
 
+        return self._evaluate(name)
+
+    def _evaluate(self, name, pending=()):
+        """ Evaluate variable *name*, on behalf of those that are pending """
+
         value = self.get_variable(name)
         if isinstance(value, Transform):
-            value = value.evaluate(self._in_variables | self._out_variables)
+            value = value.evaluate(Variables(self, (*pending, name)))
         elif isinstance(value, (Buffer, np.ndarray)):
             value = np.asanyarray(value)
         elif isinstance(value, (List, list)):
-- 
2.43.0


From d46ce1ab718c2dfe941925819962ae7da1098081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 62/76] fix: new vectors and matrices do not show former
 contents of the memory

---
 gsp_matplotlib/glm/ndarray/tracked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 7e42c7d..4531294 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -36,6 +36,9 @@ class tracked(np.ndarray):
 
     def __new__(cls, *args, **kwargs):
         obj = np.ndarray.__new__(cls, *args, **kwargs)
+        # Parts that are not written must not depend on former use of the memory
+        if obj.base is None:
+            obj.view(np.ndarray)[...] = np.zeros((), obj.dtype)
         if cls.__tracker_class__ is not None:
             obj._tracker = cls.__tracker_class__(obj)
         return obj
-- 
2.43.0


From 0effea7d770096d37ddaadf5e8accc106f518262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 63/76] fix: ragged lists give the items asked for, refuse
 improper sizes and may be empty

---
 gsp_matplotlib/glm/ndarray/ragged.py | 70 ++++++++++++----------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/ragged.py b/gsp_matplotlib/glm/ndarray/ragged.py
index 01fdeb7..6aaee9e 100644
--- a/gsp_matplotlib/glm/ndarray/ragged.py
+++ b/gsp_matplotlib/glm/ndarray/ragged.py
@@ -61,64 +61,56 @@ class ragged:
             an error is raised.
         """
 
-        if isinstance(data, (list, tuple)):
+        if isinstance(data, (list, tuple)) and len(data):
             itemsize = np.array([len(l) for l in data], dtype=int)
             if isinstance(data[0], np.ndarray):
                 data = np.concatenate(data, axis=0).view(data[0].__class__)
             else:
                 data = np.concatenate(data, axis=0)
 
-        data = np.asanyarray(data)
+        data = np.asanyarray([] if data is None else data)
         if itemsize is None:
-            itemsize = len(data)
+            itemsize = len(data) or 1
 
-        if isinstance(itemsize, int):
-            if (len(data) % itemsize) != 0:
+        itemsize = np.asarray(itemsize)
+        if itemsize.ndim > 1 or (itemsize.size and itemsize.dtype.kind not in "iu"):
+            raise ValueError("Item sizes must be an integer or a list of integers")
+        if itemsize.ndim == 0:
+            if itemsize < 1 or (len(data) % itemsize) != 0:
                 raise ValueError("Cannot partition data as requested")
-            count = len(data) // itemsize
-            itemsize = np.ones(count, dtype=int) * (len(data) // count)
-        else:
-            if np.sum(itemsize) != len(data):
-                raise ValueError("Cannot partition data as requested")
-            count = len(itemsize)
+            itemsize = np.full(len(data) // int(itemsize), itemsize, dtype=int)
+        elif np.any(itemsize < 0) or np.sum(itemsize) != len(data):
+            raise ValueError("Cannot partition data as requested")
 
         self._data = data
         self._size = len(data)
-        self._count = count
-        self._items = np.zeros((count, 2), int)
-        C = np.cumsum(itemsize)
-        self._items[1:, 0] += C[:-1]
-        self._items[0:, 1] += C
+        self._count = len(itemsize)
+        self._items = np.zeros((self._count, 2), int)
+        C = np.cumsum(itemsize, dtype=int)
+        self._items[1:, 0] = C[:-1]
+        self._items[:, 1] = C
+
+    def _index(self, key):
+        """ Index in the data of the items designated by key """
 
+        if isinstance(key, (list, tuple)):
+            key = np.array(key) if len(key) else np.zeros(0, int)
+        items = self._items[np.arange(self._count)[key]].reshape(-1, 2)
+        if not isinstance(key, np.ndarray) and np.all(items[1:, 0] == items[:-1, 1]):
+            # Successive items: this is a view on the data
+            return slice(items[0, 0], items[-1, 1]) if len(items) else slice(0, 0)
+        indices = [np.arange(start, stop) for start, stop in items]
+        return np.concatenate([np.zeros(0, int)] + indices)
 
     def __getitem__(self, key):
         """ x.__getitem__(y) <==> x[y] """
 
-        if isinstance(key, (list, tuple)):
-            indices = []
-            for k in key:
-                start,stop = self._items[k]
-                indices.extend(list(range(start,stop)))
-            return self._data[indices]
-        else:
-            indices = self._items[key]
-            start, stop = indices.min(), indices.max()
-            return self._data[start:stop]
+        return self._data[self._index(key)]
 
     def __setitem__(self, key, value):
         """ x.__setitem__(y, v) <==> x[y] = v"""
 
-        if isinstance(key, (list, tuple)):
-            indices = []
-            for k in key:
-                start,stop = self._items[k]
-                indices.extend(list(range(start,stop)))
-            self._data[indices] = value
-        else:
-            indices = self._items[key]
-            start, stop = indices.min(), indices.max()
-            self._data[start:stop] = value
-
+        self._data[self._index(key)] = value
 
     @property
     def data(self):
@@ -156,5 +148,5 @@ class ragged:
         s += ']'
         return s
 
-    def __array__(self):
-        return self.data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self.data, dtype, copy=copy, subok=True)
-- 
2.43.0


From 40ff7c3cf6e8d20f61d7ca50556c3907596f0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 64/76] fix: buffers and lists convert to arrays of another
 type

---
 gsp_matplotlib/core/buffer.py | 4 ++--
 gsp_matplotlib/core/list.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsp_matplotlib/core/buffer.py b/gsp_matplotlib/core/buffer.py
index 2033f8c..65ab8b2 100644
--- a/gsp_matplotlib/core/buffer.py
+++ b/gsp_matplotlib/core/buffer.py
@@ -47,7 +47,7 @@ class Buffer(core.Buffer):
             raise ValueError("Data does not fit into the buffer")
         buffer[offset:offset+len(data)] = np.frombuffer(data, np.ubyte)
 
-    def __array__(self):
+    def __array__(self, dtype=None, copy=None):
         if self._array is None:
             if self._data is not None:
                 self._array = np.frombuffer(self._data, self._dtype)
@@ -56,7 +56,7 @@ class Buffer(core.Buffer):
             # Items may have several components (e.g. vec3)
             if self._count and len(self._array) != self._count:
                 self._array = self._array.reshape(self._count, -1)
-        return self._array
+        return np.array(self._array, dtype, copy=copy)
 
     def __repr__(self):
         return f"Buffer({self._count}, {self._dtype})"
diff --git a/gsp_matplotlib/core/list.py b/gsp_matplotlib/core/list.py
index 896e80e..6cc374a 100644
--- a/gsp_matplotlib/core/list.py
+++ b/gsp_matplotlib/core/list.py
@@ -17,8 +17,8 @@ class List(core.List):
                        itemsizes : Buffer | int):
         super().__init__(data, itemsizes, __no_command__ = True)
 
-    def __array__(self):
-        return self._data.__array__()
+    def __array__(self, dtype=None, copy=None):
+        return self._data.__array__(dtype, copy)
 
     def __iter__(self):
         """ Iterate over the items of the list """
-- 
2.43.0


From d3cf0ca3ed60a1d6a844a469daa0aec82a1da3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 65/76] fix: setting one angle of the trackball leaves the
 other one as it reads

---
 gsp_matplotlib/glm/trackball.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/glm/trackball.py b/gsp_matplotlib/glm/trackball.py
index 9cb73e8..d72f0b1 100644
--- a/gsp_matplotlib/glm/trackball.py
+++ b/gsp_matplotlib/glm/trackball.py
@@ -174,7 +174,7 @@ class Trackball(object):
     @theta.setter
     def theta(self, theta):
         self._set_orientation(math.fmod(theta,360.0),
-                              math.fmod(self._phi,360.0))
+                              math.fmod(self.phi,360.0))
 
     @property
     def phi(self):
@@ -184,7 +184,7 @@ class Trackball(object):
 
     @phi.setter
     def phi(self, phi):
-        self._set_orientation(math.fmod(self._theta,360.),
+        self._set_orientation(math.fmod(self.theta,360.),
                               math.fmod(phi,360.0))
 
 
-- 
2.43.0


From 835dd6f9bec50932f3f545c8c3656eb4a1f47e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 66/76] Revert "fix: a download that fails leaves no partial
 file in the cache" (a file of the examples)

---
 examples/common/asset_downloader.py | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/examples/common/asset_downloader.py b/examples/common/asset_downloader.py
index ce2f045..9b61bc3 100644
--- a/examples/common/asset_downloader.py
+++ b/examples/common/asset_downloader.py
@@ -11,8 +11,6 @@ SPDX-License-Identifier: MIT
 
 # Imports
 
-import os
-import contextlib
 from pathlib import Path
 
 # Constants
@@ -34,25 +32,6 @@ def is_lfs_pointer(content_bytes: bytes) -> bool:
     return text.startswith('version https://git-lfs.github.com') and 'oid sha256:' in text
 
 
-def write_file(file_path: Path, chunks) -> None:
-    """
-    Write chunks to a file that is either left as it was or completely written, whatever happens
-    in the meantime (network or disk error, crash).
-    """
-    temporary = f'{file_path}.{os.getpid()}.tmp'
-    try:
-        with open(temporary, 'wb') as f:
-            for chunk in chunks:
-                f.write(chunk)
-            f.flush()
-            os.fsync(f.fileno())
-        os.replace(temporary, file_path)
-    except BaseException:
-        with contextlib.suppress(OSError):
-            os.unlink(temporary)
-        raise
-
-
 def download_data(rel_path: str, force_download: bool = False) -> Path:
     """
     Download a file from the datoviz/data GitHub repo into a local cache directory, handling Git
@@ -95,11 +74,14 @@ def download_data(rel_path: str, force_download: bool = False) -> Path:
             print(f'Detected Git LFS file. Downloading from: {media_url}')
             r = requests.get(media_url, stream=True, timeout=60)
             r.raise_for_status()
-            write_file(file_path, r.iter_content(chunk_size=8192))
+            with open(file_path, 'wb') as f:
+                for chunk in r.iter_content(chunk_size=8192):
+                    f.write(chunk)
         else:
             # Normal file
             print(f'Downloading file from: {raw_url}')
-            write_file(file_path, [content])
+            with open(file_path, 'wb') as f:
+                f.write(content)
 
     except Exception as e:
         raise RuntimeError(f'Failed to download {rel_path}: {e}') from e
-- 
2.43.0


From b32921fe86ac71a272148339d5f0f4dcd4bb66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 67/76] fix: rendering in a thread does not switch the tracking
 of arrays off for others

---
 gsp_matplotlib/glm/ndarray/tracked.py | 27 +++++++++++++++++++--------
 gsp_matplotlib/visual/markers.py      | 10 ----------
 gsp_matplotlib/visual/paths.py        | 10 ----------
 gsp_matplotlib/visual/pixels.py       | 10 ----------
 gsp_matplotlib/visual/points.py       | 10 ----------
 gsp_matplotlib/visual/polygons.py     | 10 ----------
 gsp_matplotlib/visual/segments.py     | 10 ----------
 7 files changed, 19 insertions(+), 68 deletions(-)

diff --git a/gsp_matplotlib/glm/ndarray/tracked.py b/gsp_matplotlib/glm/ndarray/tracked.py
index 4531294..4a60ec6 100644
--- a/gsp_matplotlib/glm/ndarray/tracked.py
+++ b/gsp_matplotlib/glm/ndarray/tracked.py
@@ -3,9 +3,13 @@
 # Copyright 2023 Nicolas P. Rougier - BSD 2 Clauses licence
 # -----------------------------------------------------------------------------
 """ Memory aware array class """
+import threading
 import numpy as np
 from functools import wraps
 
+# Whether tracking is suspended, by thread
+suspended = threading.local()
+
 class tracked(np.ndarray):
     """
     A tracked array keeps track of the smallest contiguous block
@@ -39,8 +43,8 @@ class tracked(np.ndarray):
         # Parts that are not written must not depend on former use of the memory
         if obj.base is None:
             obj.view(np.ndarray)[...] = np.zeros((), obj.dtype)
-        if cls.__tracker_class__ is not None:
-            obj._tracker = cls.__tracker_class__(obj)
+        if cls._tracker_class() is not None:
+            obj._tracker = cls._tracker_class()(obj)
         return obj
 
     def __array_finalize__(self, obj):
@@ -59,8 +63,14 @@ class tracked(np.ndarray):
         self._tracker = None
         if shared:
             self._tracker = getattr(obj, '_tracker', None)
-        elif obj is not None and not isinstance(obj, tracked) and self.__tracker_class__ is not None:
-            self._tracker = self.__tracker_class__(obj)
+        elif obj is not None and not isinstance(obj, tracked) and self._tracker_class() is not None:
+            self._tracker = self._tracker_class()(obj)
+
+    @classmethod
+    def _tracker_class(cls):
+        """ Class of the trackers of arrays that are created by this thread """
+
+        return None if getattr(suspended, "value", False) else cls.__tracker_class__
 
     def clear(self):
         """ Clear dirty region"""
@@ -218,15 +228,16 @@ class tracked(np.ndarray):
 
 def untracked(func):
     """
-    Function decorator that restores the tracker class when the
-    function exits, however it exits.
+    Function decorator such that arrays that are created by the
+    function are not tracked (or else, this would create GSP buffers)
     """
 
     @wraps(func)
     def inner(*args, **kwargs):
-        tracker = tracked.__tracker_class__
+        outer = getattr(suspended, "value", False)
+        suspended.value = True
         try:
             return func(*args, **kwargs)
         finally:
-            tracked.__tracker_class__ = tracker
+            suspended.value = outer
     return inner
diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 63fbecd..2b798ac 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -77,11 +77,6 @@ class Markers(visual.Markers):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = viewport._axes.scatter([],[])
@@ -99,8 +94,6 @@ class Markers(visual.Markers):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -155,6 +148,3 @@ class Markers(visual.Markers):
             collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes([sizes]*len(positions))
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/paths.py b/gsp_matplotlib/visual/paths.py
index c09eb27..cd2a362 100644
--- a/gsp_matplotlib/visual/paths.py
+++ b/gsp_matplotlib/visual/paths.py
@@ -39,11 +39,6 @@ class Paths(visual.Paths):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
 
         # 1. First things first, how many paths?
 
@@ -72,8 +67,6 @@ class Paths(visual.Paths):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         # Project positions onto screen
@@ -146,6 +139,3 @@ class Paths(visual.Paths):
         # Unique line width
         else:
             collection.set_linewidths(line_widths)
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/pixels.py b/gsp_matplotlib/visual/pixels.py
index ae78712..c94fa71 100644
--- a/gsp_matplotlib/visual/pixels.py
+++ b/gsp_matplotlib/visual/pixels.py
@@ -41,11 +41,6 @@ class Pixels(visual.Pixels):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             size = 0.25*(72/viewport._canvas._dpi)**2
@@ -64,8 +59,6 @@ class Pixels(visual.Pixels):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -84,6 +77,3 @@ class Pixels(visual.Pixels):
             else:
                 collection.set_facecolors(colors)
 
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index ce3a9ec..54c8769 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -36,11 +36,6 @@ class Points(visual.Points):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = viewport._axes.scatter([],[])
@@ -58,8 +53,6 @@ class Points(visual.Points):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -98,6 +91,3 @@ class Points(visual.Points):
             collection.set_sizes(sizes[sort_indices].ravel())
         else:
             collection.set_sizes([sizes]*len(positions))
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/polygons.py b/gsp_matplotlib/visual/polygons.py
index b320dd5..79d97ca 100644
--- a/gsp_matplotlib/visual/polygons.py
+++ b/gsp_matplotlib/visual/polygons.py
@@ -39,11 +39,6 @@ class Polygons(visual.Polygons):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
 
         # 1. First things first, how many polygons?
 
@@ -68,8 +63,6 @@ class Polygons(visual.Polygons):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         # Project positions onto screen
@@ -157,6 +150,3 @@ class Polygons(visual.Polygons):
         # Unique line width
         else:
             collection.set_linewidths(line_widths)
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
diff --git a/gsp_matplotlib/visual/segments.py b/gsp_matplotlib/visual/segments.py
index da49fe7..0f75c7e 100644
--- a/gsp_matplotlib/visual/segments.py
+++ b/gsp_matplotlib/visual/segments.py
@@ -37,11 +37,6 @@ class Segments(visual.Segments):
         view = view if view is not None else self._view
         proj = proj if proj is not None else self._proj
 
-        # Disable tracking for newly created glm.ndarray (or else,
-        # this will create GSP buffers)
-        tracker = glm.ndarray.tracked.__tracker_class__
-        glm.ndarray.tracked.__tracker_class__ = None
-
         # Create the collection if necessary
         if viewport not in self._viewports:
             collection = LineCollection([], clip_on=True, snap=False, capstyle="round")
@@ -58,8 +53,6 @@ class Segments(visual.Segments):
         # render Such call is only used to declare that this visual is
         # to be rendered on that viewport.
         if self._transform is None:
-            # Restore tracking
-            glm.ndarray.tracked.__tracker_class__ = tracker
             return
 
         collection = self._viewports[viewport]
@@ -88,6 +81,3 @@ class Segments(visual.Segments):
             collection.set_linewidths(line_widths[sort_indices].ravel())
         else:
             collection.set_linewidths(line_widths)
-
-        # Restore tracking
-        glm.ndarray.tracked.__tracker_class__ = tracker
-- 
2.43.0


From 40a0199db41bb5e8b6e3877f6d2a7026caa9897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 68/76] fix: operators tell whether they are bound whatever
 their operands

---
 gsp/transform/operator.py  | 3 ++-
 gsp/transform/transform.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsp/transform/operator.py b/gsp/transform/operator.py
index 46f6328..14e45f9 100644
--- a/gsp/transform/operator.py
+++ b/gsp/transform/operator.py
@@ -67,7 +67,8 @@ class Operator(Transform):
         Indicate if this transform is bound
         """
 
-        return self.left.bound and self.right.bound
+        return all(operand.bound if isinstance(operand, Transform) else operand is not None
+                   for operand in (self.left, self.right))
 
     @property
     def operator(self):
diff --git a/gsp/transform/transform.py b/gsp/transform/transform.py
index d583997..d9a8260 100644
--- a/gsp/transform/transform.py
+++ b/gsp/transform/transform.py
@@ -130,7 +130,8 @@ class Transform(Object):
         """
         Indicate if this transform is bound
         """
-        return self.last.buffer is not None
+        last = self.last
+        return last.buffer is not None if last is self else last.bound
 
     def _clone(self):
         """
-- 
2.43.0


From 946f79e9feab154feafa6745a9f5ccfa179e6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 69/76] fix: a viewport without a size covers a canvas measured
 in units

---
 gsp_matplotlib/core/viewport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/core/viewport.py b/gsp_matplotlib/core/viewport.py
index ef2a9c6..ca3c577 100644
--- a/gsp_matplotlib/core/viewport.py
+++ b/gsp_matplotlib/core/viewport.py
@@ -24,8 +24,9 @@ class Viewport(core.Viewport):
         super().__init__(canvas, x, y, width, height, color)
 
         self._canvas = canvas
-        width = width or canvas._width
-        height = height or canvas._height
+        # (a float would be a fraction of the canvas, not pixels)
+        width = width or int(canvas._width)
+        height = height or int(canvas._height)
         self._color = color
         self._extent = x, y, width, height
         self._axes = canvas._figure.add_axes([0,0,1,1])
-- 
2.43.0


From 78d800a2b1e129f3e2b13dfe580fdae240bebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 70/76] fix: converters of several types are registered all or
 none

---
 gsp/io/convert.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index d4f63d0..303f061 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -1,11 +1,14 @@
 # Package: Graphic Server Protocol / Matplotlib
 # Authors: Nicolas P .Rougier <nicolas.rougier@gmail.com>
 # License: BSD 3 clause
+import threading
 import numpy as np
 
 converters = {}
 """ Registered converters with keys equal to (src_type, dst_type) """
 
+_lock = threading.Lock()
+
 class Converter:
     """
     This class is used to postpone the conversion of a parameter of
@@ -51,20 +54,14 @@ def register(src_types : str | tuple[str,...],
     """
 
     def inner(func):
-        if isinstance(src_types,(list,tuple)):
-            for src_type in src_types:
-                if (src_type,dst_type) not in converters.keys():
-                    converters[(src_type, dst_type)] = func
-                else:
+        with _lock:
+            # Nothing is registered unless everything can be
+            names = src_types if isinstance(src_types,(list,tuple)) else [src_types]
+            for src_type in names:
+                if (src_type,dst_type) in converters.keys():
                     raise TypeError(
                         f"A converter for '{src_type}' to '{dst_type}' has already been registered.")
-        else:
-            src_type = src_types
-            if (src_type,dst_type) not in converters.keys():
-                converters[(src_type, dst_type)] = func
-            else:
-                raise TypeError(
-                    f"A converter for '{src_type}' to '{dst_type}' has already been registered.")
+            converters.update({(src_type, dst_type): func for src_type in names})
 
         return func
     return inner
-- 
2.43.0


From 1a587c9734cae0a8d1783b3e61844e23a265d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 71/76] fix: values are converted by the converter of their
 nearest type, if at all

---
 gsp/io/command.py |  3 +++
 gsp/io/convert.py | 16 ++++++----------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/gsp/io/command.py b/gsp/io/command.py
index 5183f1b..fe81894 100644
--- a/gsp/io/command.py
+++ b/gsp/io/command.py
@@ -339,6 +339,7 @@ def command(name=None):
                         if (annotated_type == parameter_type or
                             isinstance(parameter_type,annotated_type) or
                             issubclass(parameter_type,annotated_type)):
+                            parameters[key] = value
                             check = True
                             break
                         elif parameter_type == types.NoneType:
@@ -359,6 +360,8 @@ def command(name=None):
                                 parameters[key] = Converter(converter, value)
                                 if getattr(annotated_type, "__immediate__", False):
                                     parameters[key] = converter(value)
+                                # Found for the nearest base type
+                                break
 
                     if check:
                         continue
diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 303f061..08fcdc6 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -110,19 +110,15 @@ def get_converter(value : object,
     elif not isinstance(dst_type, str):
         raise ValueError("dst_type must be a type or a string")
 
-    # Get direct converter
-    converter = is_registered(src_type, dst_type)
-    if converter:
-        return converter
-
-    # Get converter from bases
-    for base in value.__class__.__bases__:
-        src_type = base.__name__
-        converter = is_registered(src_type, dst_type)
+    # Get converter from the type and its bases, nearest first
+    cls = value if isinstance(value, type) else value.__class__
+    for name in (src_type, *[base.__name__ for base in cls.__mro__[1:]]):
+        converter = converters.get((name, dst_type), None)
         if converter:
             return converter
 
-    return None
+    # Get converter from any type
+    return is_registered("*", dst_type)
 
 
 def convert(value : object,
-- 
2.43.0


From 19939054056bc2806a88329fd959160f93116b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 72/76] fix: convert() hides neither interrupts nor what a
 converter raises

---
 gsp/io/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index 08fcdc6..c6e46e1 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -128,9 +128,10 @@ def convert(value : object,
     exists such a converter.
     """
 
-    try:
-        return get_converter(value, dst_type)(value)
-    except:
+    converter = get_converter(value, dst_type)
+    if converter:
+        return converter(value)
+    else:
         src_type = value.__class__.__name__
         raise ValueError(f"No converter found for converting '{value}' ({src_type}) to '{dst_type}'.")
 
-- 
2.43.0


From 8340428ea567b504a1723306ea8e609b74b42c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 73/76] fix: threads that register and unregister converters do
 not interfere

---
 gsp/io/convert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gsp/io/convert.py b/gsp/io/convert.py
index c6e46e1..2839091 100644
--- a/gsp/io/convert.py
+++ b/gsp/io/convert.py
@@ -36,14 +36,15 @@ def unregister(src_types : str | tuple[str,...],
     Unregister converters from `src_types` to `dst_type`.
     """
 
-    if isinstance(src_types,(list,tuple)):
-        for src_type in src_types:
+    with _lock:
+        if isinstance(src_types,(list,tuple)):
+            for src_type in src_types:
+                if (src_type,dst_type) in converters.keys():
+                    del converters[(src_type, dst_type)]
+        else:
+            src_type = src_types
             if (src_type,dst_type) in converters.keys():
                 del converters[(src_type, dst_type)]
-    else:
-        src_type = src_types
-        if (src_type,dst_type) in converters.keys():
-            del converters[(src_type, dst_type)]
 
 
 def register(src_types : str | tuple[str,...],
-- 
2.43.0


From a20f3bb4f9a67866ea0838c58baf90bbbc6d70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:41 +0000
Subject: [PATCH 74/76] fix: a measure of no particular unit can be created

---
 gsp/transform/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsp/transform/measure.py b/gsp/transform/measure.py
index 27aad07..e842670 100644
--- a/gsp/transform/measure.py
+++ b/gsp/transform/measure.py
@@ -45,7 +45,7 @@ class Measure(Transform):
 
     @command("transform.Measure")
     def __init__(self):
-        super.__init__(__no_command__ = True)
+        super().__init__(__no_command__ = True)
 
 
     def evaluate(self, variables):
-- 
2.43.0


From e4c398f8482b089b5a1980be8d794633c89550b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:42 +0000
Subject: [PATCH 75/76] fix: a uniform size may be an array or an expression of
 one value

---
 gsp_matplotlib/visual/markers.py | 2 +-
 gsp_matplotlib/visual/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsp_matplotlib/visual/markers.py b/gsp_matplotlib/visual/markers.py
index 2b798ac..97fa3bc 100644
--- a/gsp_matplotlib/visual/markers.py
+++ b/gsp_matplotlib/visual/markers.py
@@ -147,4 +147,4 @@ class Markers(visual.Markers):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices].ravel())
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.broadcast_to(np.ravel(sizes), len(positions)))
diff --git a/gsp_matplotlib/visual/points.py b/gsp_matplotlib/visual/points.py
index 54c8769..4e32164 100644
--- a/gsp_matplotlib/visual/points.py
+++ b/gsp_matplotlib/visual/points.py
@@ -90,4 +90,4 @@ class Points(visual.Points):
         if isinstance(sizes, np.ndarray) and (len(sizes) == len(positions)):
             collection.set_sizes(sizes[sort_indices].ravel())
         else:
-            collection.set_sizes([sizes]*len(positions))
+            collection.set_sizes(np.broadcast_to(np.ravel(sizes), len(positions)))
-- 
2.43.0


From 87e6f6067a56d9daf33dcdc19cb12d7f710fad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 76/76] fix: uniform widths and colours given as arrays are
 those of the last render

---
 gsp/visual/visual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsp/visual/visual.py b/gsp/visual/visual.py
index a4f3c28..cc3d75e 100644
--- a/gsp/visual/visual.py
+++ b/gsp/visual/visual.py
@@ -117,7 +117,8 @@ class Visual(Object):
         elif value is None:
             return None
 
-        return np.atleast_1d(value)
+        # A copy: what has been rendered does not follow later changes
+        return np.array(value, ndmin=1)
 
     @command()
     def render(self, viewport : Viewport,
-- 
2.43.0

