From 3299a2038bc2cde6610453273bd45579dc37cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 01/28] fix: SuffixAliaser.unalias with empty suffix returned
 an empty key

---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 2a119615d4628a654083eea487652fa71df79be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 02/28] fix: failing Lifecycle.detach muted all further
 notifications of the node

---
 src/node/behaviors/lifecycle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..0910986 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -51,8 +51,10 @@ class Lifecycle(Behavior):
     @plumb
     def detach(_next, self, key):
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = False
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From d2780e16dcc1077d190245ad98a638e5297b563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 03/28] fix: Fallback lookups raised AttributeError outside the
 importing thread

---
 src/node/behaviors/fallback.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..a643ec2 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,12 @@ import threading
 _marker = dict()
 
 
+class _processing_data(threading.local):
+    processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _processing_data()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From d3230c82931dfd02f18a0ed8b6195a79816c6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 04/28] fix: threads taking the lock of a tree first at the
 same time got different locks

---
 src/node/locking.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..d9faafe 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -2,13 +2,18 @@
 from threading import RLock
 
 
+# guards creation of the lock on the tree root
+_create_lock = RLock()
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
-        self.lock = getattr(root, '_treelock', None)
-        if self.lock is None:
-            self.lock = root._treelock = RLock()
+        with _create_lock:
+            self.lock = getattr(root, '_treelock', None)
+            if self.lock is None:
+                self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From d2bf0d0ba04befa59755281e8e0a5722d45fa852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 05/28] fix: event declarations leaked into base classes and
 hid inherited ones

---
 src/node/behaviors/events.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..242c648 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,9 +24,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
-    events = cls.__events__
+    # each class gets its own list, including the events of its base classes
+    events = list()
+    for base in cls.__mro__:
+        for event in base.__dict__.get('__events__', list()):
+            if event not in events:
+                events.append(event)
+    cls.__events__ = events
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
             if attr not in events:
-- 
2.43.0


From 571f388308d05f9b8892772c4646e4d310a19a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 06/28] fix: event dispatching objects could not be created
 with constructor arguments

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 242c648..c1b595d 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -240,7 +240,7 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From 02b4b4d3d6116e9414f06ba6058bcc172dce5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 07/28] fix: unbinding a subscriber while dispatching skipped
 the next one

---
 src/node/behaviors/events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index c1b595d..e0c891b 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -306,7 +306,9 @@ class Events(Behavior):
                 return
             if event in suppress_events.data.events:
                 return
+        # subscribers may bind or unbind while being notified
+        subscribers = list(self.__subscribers__.get(event, list()))
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        for subscriber in subscribers:
             subscriber(*args, **kw)
-- 
2.43.0


From baca2af1504db3af8f15850dc465cefe44557c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 08/28] fix: suppress_events leaked its events if not entered
 and could not be reused

---
 src/node/behaviors/events.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index e0c891b..b997b13 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -73,11 +73,10 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
-        self.events = events
+        self.events = tuple(events)
 
     def __enter__(self):
+        self.data.events.extend(self.events)
         self.data.suppress += 1
         return self.data.suppress
 
-- 
2.43.0


From 62482faa568fe32dd6bfceb9447b032187a4510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 09/28] fix: events and event attributes raised AttributeError
 outside the importing thread

---
 src/node/behaviors/events.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index b997b13..7fd8d8d 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -41,6 +41,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _suppress_data(threading.local):
+
+    def __init__(self):
+        self.suppress = 0
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -65,9 +72,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _suppress_data()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -91,8 +96,13 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _attribute_subscribers_data(threading.local):
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _attribute_subscribers_data()
 
 
 @contextmanager
-- 
2.43.0


From 8e8353a78900c5ce9b7db4a5cb3aa2ef2df71aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 10/28] fix: adoption was not reverted if adding a child failed
 with other errors

---
 src/node/behaviors/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..85e7d0d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,8 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
-            # XXX: In what other cases do we want to revert adoption?
+        except Exception:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From 3bdb36e1883670ce84e8d4ecb16b4c344f7da436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 11/28] fix: nil UUID was not found in index

---
 src/node/behaviors/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..4c8c6b7 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -73,11 +73,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = int(uuid) if uuid is not None else None
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = int(self._uuid) if self._uuid is not None else None
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
-- 
2.43.0


From f1e1cb1460a85d82c2f9efb7f9bb2660a33cc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 12/28] fix: uuid index of reference trees missed or kept nodes

Overwriting a child kept the old subtree in the index, a removed subtree
kept sharing the index of its former tree, the children of an added subtree
kept using the former index of the subtree, and duplicate uuids were accepted
for nodes without children.
---
 src/node/behaviors/reference.py | 56 ++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 4c8c6b7..89c0d52 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 from node.interfaces import INode
 from node.interfaces import IReference
+from node.interfaces import IStorage
 from plumber import Behavior
 from plumber import default
 from plumber import override
@@ -38,26 +39,46 @@ class Reference(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if INode.providedBy(val):
-            try:
-                next(val.iterkeys())
-                keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
-                    raise ValueError('Node with uuid already exists')
-            except StopIteration:
-                pass
-            self._index.update(val._index)
-            val._index = self._index
-        _next(self, key, val)
+        index = self._index
+        # child which gets overwritten
+        old = self.storage.get(key) if IStorage.providedBy(self) else None
+        removed, added = dict(), dict()
+        if INode.providedBy(val) \
+                and (val is not old or val._index is not index):
+            if any(iuuid in index for iuuid in val._index):
+                raise ValueError('Node with uuid already exists')
+            added = val._index
+        if old is not val and hasattr(old, '_to_delete'):
+            removed = self._unindex(old)
+        index.update(added)
+        for node in added.values():
+            node._index = index
+        try:
+            _next(self, key, val)
+        except Exception:
+            for iuuid, node in added.items():
+                del index[iuuid]
+                node._index = added
+            index.update(removed)
+            raise
+        for node in removed.values():
+            node._index = removed
 
     @plumb
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
+        removed = dict()
         if hasattr(todel, '_to_delete'):
-            for iuuid in todel._to_delete():
-                del self._index[iuuid]
-        _next(self, key)
+            removed = self._unindex(todel)
+        try:
+            _next(self, key)
+        except Exception:
+            self._index.update(removed)
+            raise
+        # removed nodes form a tree on their own
+        for node in removed.values():
+            node._index = removed
 
     @plumb
     def detach(_next, self, key):
@@ -92,6 +113,13 @@ class Reference(Behavior):
     def node(self, uuid):
         return self._index.get(int(uuid))
 
+    @default
+    def _unindex(self, node):
+        removed = dict()
+        for iuuid in node._to_delete():
+            removed[iuuid] = self._index.pop(iuuid)
+        return removed
+
     @default
     def _to_delete(self):
         todel = [int(self.uuid)]
-- 
2.43.0


From 080094a3e2630aa84cc1c5019781eb6380ac901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 13/28] fix: unnamed node could be inserted to an empty node

---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..c0c666e 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -16,6 +16,7 @@ class Order(Behavior):
     def insertfirst(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[0]]
@@ -25,6 +26,7 @@ class Order(Behavior):
     def insertlast(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[-1]]
-- 
2.43.0


From 2cfde59167bcf7537bc508e2b0a41e561a77d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 14/28] fix: failing insertion left the rejected node behind or
 lost children

The new node was stored before its insertion was validated, a name already
taken destroyed the order of the children, a node named like a child was taken
as reference node, and a reserved name ended up among the children.
---
 src/node/behaviors/order.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index c0c666e..57e9072 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from node.interfaces import INodespaces
 from node.interfaces import IOrder
 from plumber import Behavior
 from plumber import override
@@ -34,21 +35,24 @@ class Order(Behavior):
 
     @override
     def insertbefore(self, newnode, refnode):
-        self._validateinsertion(newnode)
-        try:
-            self.storage.insertbefore(refnode.name, newnode.name, newnode)
-        except KeyError:
-            raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._insert(self.storage.insertbefore, newnode, refnode)
 
     @override
     def insertafter(self, newnode, refnode):
+        self._insert(self.storage.insertafter, newnode, refnode)
+
+    @override
+    def _insert(self, insert, newnode, refnode):
         self._validateinsertion(newnode)
-        try:
-            self.storage.insertafter(refnode.name, newnode.name, newnode)
-        except KeyError:
+        name = newnode.name
+        if self.storage.get(refnode.name) is not refnode:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        insert(refnode.name, name, newnode)
+        try:
+            self[name] = newnode
+        except Exception:
+            del self.storage[name]
+            raise
 
     @override
     def _validateinsertion(self, node):
@@ -59,3 +63,8 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        if node.name in self.storage:
+            raise KeyError('Child with name of given node already exists.')
+        if INodespaces.providedBy(self) \
+                and node.name.startswith('__') and node.name.endswith('__'):
+            raise ValueError('Given node has a name reserved for nodespaces.')
-- 
2.43.0


From 5e918c689f0d7b62a9699ec21fc7d1c707dffea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 15/28] fix: missing fallback child stopped the search for
 further fallbacks

---
 src/node/behaviors/fallback.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index a643ec2..675bffe 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -34,7 +34,10 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if fallback is _marker:
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From a155a25e2a36c292cad9f7a0278f490f187962fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 16/28] fix: deleted child was still returned from cache if
 read while deleting

---
 src/node/behaviors/cache.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..1401c3c 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -110,10 +110,13 @@ class Cache(Behavior):
     @plumb
     def __delitem__(_next, self, key):
         try:
-            del self.cache[key]
-        except KeyError:
-            pass
-        _next(self, key)
+            _next(self, key)
+        finally:
+            # behaviors may read the child while deleting it
+            try:
+                del self.cache[key]
+            except KeyError:
+                pass
 
     @plumb
     def __iter__(_next, self):
-- 
2.43.0


From 6ccbbc69a6dd22c9353df9423bd9daa6ccde3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 17/28] fix: insertfirst and insertlast next to a child which
 is no node

The name of the first or last child was asked for, which a plain value
does not have. The key is known already.
---
 src/node/behaviors/order.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 57e9072..b445af9 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -15,45 +15,50 @@ class Order(Behavior):
 
     @override
     def insertfirst(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
-            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
-        refnode = self[keys[0]]
-        self.insertbefore(newnode, refnode)
+        self._insert(self.storage.insertbefore, newnode, keys[0])
 
     @override
     def insertlast(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
-            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
-        refnode = self[keys[-1]]
-        self.insertafter(newnode, refnode)
+        self._insert(self.storage.insertafter, newnode, keys[-1])
 
     @override
     def insertbefore(self, newnode, refnode):
-        self._insert(self.storage.insertbefore, newnode, refnode)
+        self._validateinsertion(newnode)
+        refkey = self._validatereference(refnode)
+        self._insert(self.storage.insertbefore, newnode, refkey)
 
     @override
     def insertafter(self, newnode, refnode):
-        self._insert(self.storage.insertafter, newnode, refnode)
+        self._validateinsertion(newnode)
+        refkey = self._validatereference(refnode)
+        self._insert(self.storage.insertafter, newnode, refkey)
 
     @override
-    def _insert(self, insert, newnode, refnode):
-        self._validateinsertion(newnode)
+    def _insert(self, insert, newnode, refkey):
         name = newnode.name
-        if self.storage.get(refnode.name) is not refnode:
-            raise ValueError('Given reference node not child of self.')
-        insert(refnode.name, name, newnode)
+        insert(refkey, name, newnode)
         try:
             self[name] = newnode
         except Exception:
             del self.storage[name]
             raise
 
+    @override
+    def _validatereference(self, refnode):
+        if self.storage.get(refnode.name) is not refnode:
+            raise ValueError('Given reference node not child of self.')
+        return refnode.name
+
     @override
     def _validateinsertion(self, node):
         if node.name is None:
-- 
2.43.0


From 46d5c217029b300b59e96da7339af98b47675871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 18/28] fix: detach a value which is no node from a referencing
 node

The value was removed, then detach failed with AttributeError.
---
 src/node/behaviors/reference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 89c0d52..f94509f 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -83,8 +83,10 @@ class Reference(Behavior):
     @plumb
     def detach(_next, self, key):
         node = _next(self, key)
-        node._index = {int(node.uuid): node}
-        node._index_nodes()
+        # non-Node values have no index
+        if INode.providedBy(node):
+            node._index = {int(node.uuid): node}
+            node._index_nodes()
         return node
 
     @property
-- 
2.43.0


From 5ccdcf4b4f15f1a186129b18c1555e290ac9f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:28 +0000
Subject: [PATCH 19/28] fix: invalidating a whole caching node reaches all
 children

---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 1401c3c..7b95d48 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached_key in _keys(cache):
+                del cache[cached_key]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From e270c71ffc7018d43133572549d4f72be0310239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:08 +0000
Subject: [PATCH 20/28] fix: an empty strict DictAliaser lists no keys

---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From c9b32c113d8644f5d3aa79e682312d7c7973c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 21/28] fix: decode UUID, UNSET and references nested in
 dictionaries

---
 src/node/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..136de08 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -193,8 +193,8 @@ class NodeDecoder(object):
                 elif isinstance(node, cls):
                     callback(self, node, node_data)
             return node
-        # no custom deserialization required
-        return data
+        # decode values of dict
+        return dict((key, self.decode(value)) for key, value in data.items())
 
 
 ###############################################################################
-- 
2.43.0


From 201ed19916c39fab9edd3c75d060c6e73314bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 22/28] fix: serialize nodes of nested classes under their
 qualified name

---
 src/node/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 136de08..e89c85f 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -101,7 +101,7 @@ class NodeEncoder(json.JSONEncoder):
                 [ob.im_class.__module__, ob.im_class.__name__, ob.__name__]
             )
         else:
-            return '.'.join([ob.__module__, ob.__class__.__name__])
+            return self.dotted_name(ob.__class__)
 
     def default(self, ob):
         # serialize UNSET
-- 
2.43.0


From 625183fb46cecf3a50ff03eeec55972e1a0f9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 23/28] fix: deepcopy of a UUID aware tree containing plain
 values failed

---
 src/node/behaviors/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 85e7d0d..7377dbf 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -207,4 +207,6 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
-                self.set_uuid_for(child, override, recursiv)
+                # non-Node values have no uuid
+                if INode.providedBy(child):
+                    self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From fc148da57b5d7b679c1d611085b2f4d46b4f8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 24/28] fix: trees can be copied and pickled after their lock
 was used

---
 src/node/locking.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index d9faafe..673c93c 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,5 +1,14 @@
 # -*- coding: utf-8 -*-
-from threading import RLock
+import threading
+
+
+class RLock(type(threading.RLock())):
+    """Reentrant lock. Copied or unpickled, it is a new lock, thus trees can
+    be copied and pickled regardless whether they have been locked before.
+    """
+
+    def __reduce__(self):
+        return (RLock, ())
 
 
 # guards creation of the lock on the tree root
-- 
2.43.0


From 2f89afe033012e631cf22c3a32a802b2989c435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 25/28] fix: copies and pickles of UNSET are UNSET

---
 src/node/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index d720ba6..ee9b629 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -33,6 +33,10 @@ class Unset(object):
     def __repr__(self):
         return '<UNSET>'
 
+    def __reduce__(self):
+        # copies and pickles of UNSET are UNSET
+        return 'UNSET'
+
 
 UNSET = Unset()
 
-- 
2.43.0


From 1b7401f50db7986f2a7970cdc9401c12c6d60f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 26/28] fix: acquire stopped at ancestors which are false

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..b2c96ca 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -71,7 +71,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From 5dce0edd591d02b8209ef63ba8db829fbf14ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 27/28] fix: deserializing in a fresh process failed to resolve
 classes of submodules not imported yet

---
 src/node/serializer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index e89c85f..380518f 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -145,8 +145,13 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
+        path = components[0]
+        ob = __import__(path)
         for comp in components[1:]:
+            path = '{}.{}'.format(path, comp)
+            if hasattr(ob, '__path__') and not hasattr(ob, comp):
+                # submodule of package which has not been imported yet
+                __import__(path)
             ob = getattr(ob, comp)
         return ob
 
-- 
2.43.0


From d169e4de9490cb7ccef6a3581854f7a6d3a5b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 28/28] fix: GetattrChildren raises AttributeError for missing
 attributes

---
 src/node/behaviors/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 7377dbf..a2c772d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -133,7 +133,11 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            # hasattr, copy and zope.interface expect AttributeError
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0

