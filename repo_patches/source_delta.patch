From 2799bf6e8836e1e43e9dd97620248a0d2eb1fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 01/81] fix: Stack.redocount counts the redo history, not the
 undo history

---
 src/bgem/undo.py | 650 +++++++++++++++++++++++------------------------
 1 file changed, 325 insertions(+), 325 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..7d2bcae 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,325 +1,325 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._undos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        self.setreceiver([])
-        yield
-        self.resetreceiver()
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is None:
+            stack().resetreceiver()
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        self.setreceiver([])
+        yield
+        self.resetreceiver()
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 8a64b3b687d564841e07c466696d6cd7f77c77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 02/81] fix: undo.group gives the receiver back on failure,
 nesting and disabled undo

---
 src/bgem/undo.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 7d2bcae..b13e17e 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -101,12 +101,17 @@ class _Group:
         self._stack = []
 
     def __enter__(self):
-        stack().setreceiver(self._stack)
+        self._owner = stack()
+        self._outer = self._owner._receiver
+        self._owner.setreceiver(self._stack)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
+        # Give the receiver back to whoever had it: the stack itself, an
+        # enclosing group, or nobody (recording disabled).
+        self._owner._receiver = self._outer
+        # Actions completed before a failure stay undoable.
+        if exc_type is None or self._stack:
+            self._owner.append(self)
         return False
 
     def undo(self):
-- 
2.43.0


From cc056f7054a4e85cd3248613a8c4d35955a137f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 03/81] fix: undo/redo leave the recording state (disabled,
 failed) as it was

---
 src/bgem/undo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index b13e17e..3cc7779 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -275,9 +275,12 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
-        yield
-        self.resetreceiver()
+        try:
+            yield
+        finally:
+            self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From a15b534aac70033e36099b70dc82a8ef70946323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 04/81] fix: Stack.haschanged sees another action at the depth
 of the savepoint

---
 src/bgem/undo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 3cc7779..98a4449 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -305,14 +305,18 @@ class Stack:
 
     def savepoint(self):
         ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
+        self._savepoint = self._position()
+
+    def _position(self):
+        ''' Position in the history: the last action done, if any. '''
+        return self._undos[-1] if self._undos else self
 
     def haschanged(self):
         ''' Return *True* if the state has changed since the savepoint. 
         
         This will always return *True* if the savepoint has not been set.
         '''
-        return self._savepoint is None or self._savepoint != self.undocount()
+        return self._savepoint is None or self._savepoint is not self._position()
 
 
 _stack = None
-- 
2.43.0


From ced4caaa9a6ec9b07137b3f895ef24ea06766e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 05/81] fix: AABB_Lookup.closest_candidates ignores removed
 boxes and keeps an exact hit

---
 src/bgem/polygons/aabb_lookup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..9ccfa84 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -72,9 +72,10 @@ class AABB_Lookup:
         :return: List of IDs.
         """
         boxes = self.boxes[:self.n_boxes, :]
-        if boxes.shape[0] == 0 :
+        if not np.any(boxes[:, 0] < self.inf):
+            # nothing added or everything removed
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
@@ -89,7 +90,7 @@ class AABB_Lookup:
         #except:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
-        return np.where(inf_dists < l2_max)[0]
+        return np.where(inf_dists <= l2_max)[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 1eb584ea1ac46f1580d9e896a4ad1c0fcbcb5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 06/81] fix: add_line attaches free points lying on the line

---
 src/bgem/polygons/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..f3135ff 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -480,6 +480,8 @@ class PolygonDecomposition:
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
         candidates = self.segments_lookup.intersect_candidates(box)
         candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
+        # free points the line passes through
+        candidate_pt |= {self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box)}
         candidate_pt = candidate_pt.difference(omit)
         # new line close to existing vertices, snap to them
         for pt in candidate_pt:
-- 
2.43.0


From 9d82870c2521381e6088abb5158e1fd63e75892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 07/81] fix: deleting a bridge to an inner tree left its wire
 as its own parent

---
 src/bgem/polygons/decomp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..9a07fb8 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -520,7 +520,10 @@ class Decomposition:
             # possible wires in the new inner_wire bubble
             for seg, side in inner_wire.segments():
                 side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
+                if side_wire == inner_wire:
+                    # dendrite, no bubble behind
+                    continue
+                assert inner_wire.contains_wire(side_wire)
                 side_wire.set_parent(inner_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
-- 
2.43.0


From 78b479133ed9ceaba33615765e9cbbaa5e801b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 08/81] fix: wire containment test survives large coordinates

---
 src/bgem/polygons/polygon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygon.py b/src/bgem/polygons/polygon.py
index db0dbb3..4c4433e 100644
--- a/src/bgem/polygons/polygon.py
+++ b/src/bgem/polygons/polygon.py
@@ -211,7 +211,11 @@ class Wire(idmap.IdObject):
         if side == right_side:
             norm = -norm
         eps = 1e-10  # TODO: review this value to be as close to the line as possible while keep intersection work
-        inner_point = seg.vtxs[out_vtx].xy + 0.5 * tang + eps * norm
+        mid_point = seg.vtxs[out_vtx].xy + 0.5 * tang
+        # the shift must survive rounding of large coordinates
+        rounding = 16 * np.finfo(float).eps * np.max(np.abs(mid_point))
+        eps = max(eps, rounding / np.linalg.norm(tang))
+        inner_point = mid_point + eps * norm
         return self.contains_point(inner_point)
 
     def child_wires(self):
-- 
2.43.0


From e3e6e348946a182eb7a2efc99610415e8d17be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 09/81] fix: undo of adding an existing segment keeps that
 segment

---
 src/bgem/polygons/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index f3135ff..72eebda 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -637,11 +637,14 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
+        is_new = len(self.segments) > n_segments
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
-- 
2.43.0


From f446479ab516106ade477bf754246aeb1c1fe79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 10/81] fix: undo of a removal restores the attributes

---
 src/bgem/polygons/polygons.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 72eebda..dcbf432 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -653,16 +653,19 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        self._add_point(pt.xy, pt.poly).attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
         seg = self.segments[seg.id]
+        polygon_attrs = [(poly.id, poly.attr) for poly in seg.polygons()]
         self.segments_lookup.rm_object(seg.id)
         self.decomp.delete_segment(seg)
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        self._add_segment(seg.vtxs[0], seg.vtxs[1]).attr = seg.attr
+        for poly_id, attr in polygon_attrs:
+            self.polygons[poly_id].attr = attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
-- 
2.43.0


From 55283d6f0143cbacd9a23bb53aba218615cf8578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 11/81] fix: joined segment keeps no stale direction vector

---
 src/bgem/polygons/decomp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 9a07fb8..78d8ad6 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
-- 
2.43.0


From 3c0a12a417f83c8462321c87f7ab3642f4c193bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 12/81] fix: deleting a bridge re-parents all wires of the
 released bubble

---
 src/bgem/polygons/decomp.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 78d8ad6..e410dba 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -518,14 +518,20 @@ class Decomposition:
             # childs of the orig wire are in outer wire
             for ch in list(a_wire.childs):
                 ch.set_parent(outer_wire)
-            # possible wires in the new inner_wire bubble
-            for seg, side in inner_wire.segments():
-                side_wire = seg.wire[1-side]
-                if side_wire == inner_wire:
-                    # dendrite, no bubble behind
-                    continue
-                assert inner_wire.contains_wire(side_wire)
-                side_wire.set_parent(inner_wire)
+            # possible wires in the new inner_wire bubble, including those that
+            # neighbour with the inner_wire only through other wires of the bubble
+            bubble = {inner_wire}
+            front = [inner_wire]
+            while front:
+                for seg, side in front.pop().segments():
+                    side_wire = seg.wire[1-side]
+                    if side_wire in bubble:
+                        # dendrite, no bubble behind, or already processed wire
+                        continue
+                    assert inner_wire.contains_wire(side_wire)
+                    side_wire.set_parent(inner_wire)
+                    bubble.add(side_wire)
+                    front.append(side_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
 
-- 
2.43.0


From 70b38fc422cbbae0fc70c049c3c178b1aff929bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 13/81] fix: joined segment is found along its whole length

---
 src/bgem/polygons/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index dcbf432..833395b 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -686,6 +686,9 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self.segments_lookup.add_object(seg0.id,
+                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],
+                                                              margin=self.tolerance))
         yield "Join segments", mid_pt
 
         self._split_segment(seg0, mid_pt)
-- 
2.43.0


From 52200ab6665201b2ce990cc2d1524eefdb553e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 14/81] fix: GmshIO.read keeps elements with less than two tags

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..017bf8b 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -147,7 +147,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 and len(columns) > 5 or readmode == 3 and len(columns) > 3):
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 1d6485c979e4dab8b44ec995dac315e00b2d832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 15/81] fix: GmshIO.read keeps physical names with spaces

---
 src/bgem/gmsh/gmsh_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 017bf8b..394209f 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -121,6 +121,8 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
+                    # name may contain spaces
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
 
-- 
2.43.0


From a92b7f9c690ae5b6f77a5885a6e512b8752881a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 16/81] fix: GmshIO.read of the version 1.0 mesh without
 $MeshFormat

---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 394209f..ae7ac0c 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,6 +97,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0   # version 1.0 has no $MeshFormat, always ASCII
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From 485131111d8027547e437138644b7cdedc9d546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 17/81] fix: GmshIO.read reports a file cut off inside a
 section

---
 src/bgem/gmsh/gmsh_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index ae7ac0c..1470211 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,6 +97,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        open_section = None
         ftype = 0   # version 1.0 has no $MeshFormat, always ASCII
         print('Reading %s' % mshfile.name)
         line = 'a'
@@ -105,6 +106,10 @@ class GmshIO:
             line = line.strip()
 
             if line.startswith('$'):
+                if line.upper().startswith('$END'):
+                    open_section = None
+                else:
+                    open_section = line
                 if line == '$NOD' or line == '$Nodes':
                     readmode = 1
                 elif line == '$ELM':
@@ -190,6 +195,9 @@ class GmshIO:
                         raise
                     mshfile.read(1)
 
+        if open_section is not None:
+            raise Exception("Unexpected end of the mesh file in the section: {}".format(open_section))
+
         print('  %d Nodes' % len(self.nodes))
         print('  %d Elements' % len(self.elements))
 
-- 
2.43.0


From cb857888bd3d4fdfd8d01f9871f5113320f5e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 18/81] fix: GmshIO.write_ascii closes its file and reports a
 failed flush

---
 src/bgem/gmsh/gmsh_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 1470211..627c619 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -207,7 +207,9 @@ class GmshIO:
         """Dump the mesh out to a Gmsh 2.0 msh file."""
 
         if not mshfile:
-            mshfile = open(self.filename, 'w')
+            # close the file, so that a failed flush is reported
+            with open(self.filename, 'w') as mshfile:
+                return self.write_ascii(mshfile)
 
         print('$MeshFormat\n2.2 0 8\n$EndMeshFormat', file=mshfile)
         print('$PhysicalNames\n%d' % len(self.physical), file=mshfile)
-- 
2.43.0


From 6e523498c9e99f9d5e1dada598d6fccabb4b2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 19/81] fix: GmshIO.write_fields into the current mesh file

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 627c619..444a9a1 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -312,7 +312,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From f187714c5268494cefd053b51dfc9d438025dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 20/81] fix: GmshIO.write_element_data accepts one value per
 element

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 444a9a1..ca0ffa9 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -277,7 +277,7 @@ class GmshIO:
         """
         n_els = values.shape[0]
         n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        values = np.reshape(values, (n_els, n_comp))
         header_dict = dict(
             field=str(name),
             time=0,
-- 
2.43.0


From 9aafddb13bdc35086f9d5bbabcf8c5e6df3444b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 21/81] fix: GmshIO.read does not stop at an empty line

---
 src/bgem/gmsh/gmsh_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index ca0ffa9..c5cab4d 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -100,10 +100,13 @@ class GmshIO:
         open_section = None
         ftype = 0   # version 1.0 has no $MeshFormat, always ASCII
         print('Reading %s' % mshfile.name)
-        line = 'a'
-        while line:
+        while True:
             line = mshfile.readline()
+            if not line:
+                break
             line = line.strip()
+            if not line:
+                continue
 
             if line.startswith('$'):
                 if line.upper().startswith('$END'):
-- 
2.43.0


From 58aadf715324f3283a895a74eff7fe3c39f5db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 22/81] fix: HealMesh measures the mesh diameter by node
 coordinates, not ids

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..5ccfb72 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From 996ae2c6a04f49d278de7beffe36ae6da5030768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 23/81] fix: undo.py keeps its original line endings

---
 src/bgem/undo.py | 674 +++++++++++++++++++++++------------------------
 1 file changed, 337 insertions(+), 337 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 98a4449..808888f 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,337 +1,337 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        self._owner = stack()
-        self._outer = self._owner._receiver
-        self._owner.setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        # Give the receiver back to whoever had it: the stack itself, an
-        # enclosing group, or nobody (recording disabled).
-        self._owner._receiver = self._outer
-        # Actions completed before a failure stay undoable.
-        if exc_type is None or self._stack:
-            self._owner.append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._redos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        receiver = self._receiver
-        self.setreceiver([])
-        try:
-            yield
-        finally:
-            self._receiver = receiver
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self._position()
-
-    def _position(self):
-        ''' Position in the history: the last action done, if any. '''
-        return self._undos[-1] if self._undos else self
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint is not self._position()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        self._owner = stack()
+        self._outer = self._owner._receiver
+        self._owner.setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        # Give the receiver back to whoever had it: the stack itself, an
+        # enclosing group, or nobody (recording disabled).
+        self._owner._receiver = self._outer
+        # Actions completed before a failure stay undoable.
+        if exc_type is None or self._stack:
+            self._owner.append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
+        self.setreceiver([])
+        try:
+            yield
+        finally:
+            self._receiver = receiver
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self._position()
+
+    def _position(self):
+        ''' Position in the history: the last action done, if any. '''
+        return self._undos[-1] if self._undos else self
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint is not self._position()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From b578bce4db89b6dee032e916977f6d28d4be4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 24/81] fix: GmshIO.read reports a section without all its
 entries

---
 src/bgem/gmsh/gmsh_io.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index c5cab4d..68d936d 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -31,6 +31,9 @@ class GmshIO:
     write([file]) -- Output a Gmsh version 2.0 mesh file
     """
 
+    counted_sections = ('$NOD', '$Nodes', '$ELM', '$Elements', '$PhysicalNames')
+    # sections that declare the number of their entries
+
     def __init__(self, filename=None):
         """Initialise Gmsh data structure"""
         self.reset()
@@ -98,6 +101,7 @@ class GmshIO:
 
         readmode = 0
         open_section = None
+        n_declared, n_entries = None, 0   # number of entries of the section
         ftype = 0   # version 1.0 has no $MeshFormat, always ASCII
         print('Reading %s' % mshfile.name)
         while True:
@@ -110,9 +114,17 @@ class GmshIO:
 
             if line.startswith('$'):
                 if line.upper().startswith('$END'):
+                    if open_section is None or line[4:].upper() != open_section[1:].upper():
+                        raise Exception("Unexpected end: {} of the section: {}".format(line, open_section))
+                    if open_section in self.counted_sections and ftype == 0 and n_entries != n_declared:
+                        raise Exception("Section {} declares {} entries, valid are {}".format(
+                            open_section, n_declared, n_entries))
                     open_section = None
                 else:
+                    if open_section is not None:
+                        raise Exception("Section {} inside of the section: {}".format(line, open_section))
                     open_section = line
+                    n_declared, n_entries = None, 0
                 if line == '$NOD' or line == '$Nodes':
                     readmode = 1
                 elif line == '$ELM':
@@ -129,11 +141,14 @@ class GmshIO:
                     readmode = 0
             elif readmode:
                 columns = line.split()
+                if n_declared is None and len(columns) == 1 and columns[0].isdigit():
+                    n_declared = int(columns[0])
                 if readmode == 5:
                     # name may contain spaces
                     columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                        n_entries += 1
 
                 if readmode == 4:
                     if len(columns) == 3:
@@ -148,6 +163,7 @@ class GmshIO:
                     try:
                         if ftype == 0 and len(columns) == 4:
                             self.nodes[int(columns[0])] = [float(col) for col in columns[1:]]
+                            n_entries += 1
                         elif ftype == 1:
                             nnods = int(columns[0])
                             for N in range(nnods):
@@ -177,6 +193,7 @@ class GmshIO:
                             tags = columns[3:3 + ntags]
                             nodes = columns[3 + ntags:]
                         self.elements[id] = (type, tags, nodes)
+                        n_entries += 1
                 elif readmode == 3 and ftype == 1:
                     # el_type : num of nodes per element
                     tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 5, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
-- 
2.43.0


From f374024ed4e9996ac3a7e06ad23fdd8ccb02a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 25/81] fix: BREP writer numbers the objects of every file anew

---
 src/bgem/bspline/brep_writer.py | 44 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..00b3f9b 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -56,6 +56,19 @@ def check_matrix(mat, shape, values, idx=[]):
         raise ParamError(e)
 
 
+def _index(obj, group, groups):
+    '''
+    Assign a number to an object in its group, unless it already has been done in the current indexing.
+    :param obj: Object to number.
+    :param group: Name of the group.
+    :param groups: see Shape.index_all
+    '''
+    if id(obj) not in groups['indexed']:
+        groups['indexed'].add(id(obj))
+        groups[group].append(obj)
+        obj.id = len(groups[group])
+
+
 class Location:
     """
     Location defines an affine transformation in 3D space. Corresponds to the <location data 1> in the BREP file.
@@ -84,10 +97,8 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
-            id=len(groups['locations'])+1
-            self.id = id
-            groups['locations'].append(self)
+        if self.matrix is not None:
+            _index(self, 'locations', groups)
 
     def _brep_output(self, stream, groups):
         stream.write("1\n")
@@ -118,7 +129,7 @@ class ComposedLocation(Location):
 
         for location,power in self.location_powers:
             location._dfs(groups)
-        Location._dfs(self, groups)
+        _index(self, 'locations', groups)
 
     def _brep_output(self, stream, groups):
         stream.write("2 ")
@@ -194,10 +205,7 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['curves_3d']) + 1
-            self.id = id
-            groups['curves_3d'].append(self)
+        _index(self, 'curves_3d', groups)
 
 
     def _brep_output(self, stream, groups):
@@ -249,10 +257,7 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['curves_2d']) + 1
-            self.id = id
-            groups['curves_2d'].append(self)
+        _index(self, 'curves_2d', groups)
 
     def _brep_output(self, stream, groups):
         # writes b-spline curve
@@ -331,10 +336,7 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
-            id = len(groups['surfaces']) + 1
-            self.id = id
-            groups['surfaces'].append(self)
+        _index(self, 'surfaces', groups)
 
     def _brep_output(self, stream, groups):
         #writes b-spline surface
@@ -601,13 +603,12 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if id(self) in groups['indexed']:
             return
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
             sub_ref.shape._dfs(groups)
-        groups['shapes'].append(self)
-        self.id = len(groups['shapes'])
+        _index(self, 'shapes', groups)
 
     def _brep_output(self, stream, groups):
         stream.write("{}\n".format(self.shpname))
@@ -643,7 +644,8 @@ class Shape:
         # print("Index")
         # print(compound.__class__.__name__) #prints class name
 
-        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
+        # 'indexed' - identities of the objects that have got their number in this indexing
+        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], indexed=set())
         self._dfs(groups)  # pridej jako parametr dictionary listu jednotlivych grup. v listech primo objekty
         location._dfs(groups)
         # print(groups)
-- 
2.43.0


From 569e3972040c0cdfa349b32492f49046cb00aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 26/81] fix: BREP vertices keep the flags set for them

---
 src/bgem/bspline/brep_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 00b3f9b..6b1c1a0 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -978,8 +978,6 @@ class Vertex(Shape):
         """
         check_matrix(point, [3], scalar_types)
 
-        # These flags are produced by OCC for vertices.
-        self.flags = ShapeFlag(0, 1, 0, 1, 1, 0, 1)
         # Coordinates in the 3D space. [X, Y, Z]
         self.point=np.array(point)
         # tolerance of representations.
@@ -992,6 +990,8 @@ class Vertex(Shape):
         self.sub_types=[]
 
         super().__init__(childs=[])
+        # These flags are produced by OCC for vertices.
+        self.set_flags((0, 1, 0, 1, 1, 0, 1))
 
     def attach_to_3d_curve(self, t, curve, location=Location()):
         """
-- 
2.43.0


From bd964fef934809cf429866346890683835b48af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 27/81] fix: write_model places the model at the given location

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 6b1c1a0..529e7cd 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1087,7 +1087,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From 4de0fe7eadf1404db0d4ae921040b2123480e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 28/81] fix: identity does not end the record of a composed
 location

---
 src/bgem/bspline/brep_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 529e7cd..e2fefed 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -134,7 +134,9 @@ class ComposedLocation(Location):
     def _brep_output(self, stream, groups):
         stream.write("2 ")
         for loc, pow in self.location_powers:
-            stream.write("{} {} ".format(loc.id, pow))
+            # zero ID terminates the record, identity can be skipped
+            if loc.id != 0:
+                stream.write("{} {} ".format(loc.id, pow))
         stream.write("0\n")
 
 def check_knots(deg, knots, N):
-- 
2.43.0


From b92436604ccdc83743dd81fb2959e040a321a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 29/81] fix: Edge does not reorient vertex references of other
 edges

---
 src/bgem/bspline/brep_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index e2fefed..fed00ee 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -865,9 +865,9 @@ class Edge(Shape):
         assert(len(vertices) == 2)
 
         super().__init__(vertices)
-        # Overwrite vertex orientation
-        self.childs[0].orientation = Orient.Forward
-        self.childs[1].orientation = Orient.Reversed
+        # Overwrite vertex orientation, the given references may be used elsewhere
+        self.childs = [ShapeRef(ref.shape, orient, ref.location)
+                       for ref, orient in zip(self.childs, (Orient.Forward, Orient.Reversed))]
 
     def set_edge_flags(self, same_parameter, same_range, degenerated):
         """
-- 
2.43.0


From a77d08d121ace55dce53ce92191b94617a660e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 30/81] fix: Approx.plane does not extend the list of its
 caller

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index fed00ee..1aeaf6b 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -379,7 +379,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From 158f14c169f06f163c894961429b146568f8c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 31/81] fix: a shape can be printed after it was extended

---
 src/bgem/bspline/brep_writer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 1aeaf6b..81a4347 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -626,8 +626,10 @@ class Shape:
         stream.write("\n")
 
     def __repr__(self):
-        if not hasattr(self, 'id'):
-            self.index_all()
+        self.index_all()
+        return self._repr()
+
+    def _repr(self):
         if len(self.childs)==0:
             return ""
         repr = ""
@@ -636,7 +638,7 @@ class Shape:
             repr+=child.__repr__()
         repr+="\n"
         for child in self.childs:
-            repr+=child.shape.__repr__()
+            repr+=child.shape._repr()
         repr+="\n"
         return repr
 
-- 
2.43.0


From 054ec8d2fa52c490aa11cfdee3497c63c8b609a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 32/81] fix: failures of the gmsh kernel are reported as
 BoolOperationError and GetBoundaryError

---
 src/bgem/gmsh/gmsh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..6562a73 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -365,7 +365,7 @@ class GeometryOCC:
 
         try:
             new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
-        except ValueError as err:
+        except Exception as err:    # gmsh raises bare Exception
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
 
@@ -570,7 +570,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=combined, oriented=False)
-        except ValueError as err :
+        except Exception as err:    # gmsh raises bare Exception
             message = "\nobj dimtags: {}".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         regions = [Region.default_region[dim] for dim, tag in dimtags]
@@ -652,7 +652,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=False, oriented=False, recursive=True)
-        except ValueError as err :
+        except Exception as err:    # gmsh raises bare Exception
             message = "\nobj dimtags: {} ...".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         nodes = [(dim, tag) for dim, tag in dimtags if dim == 0]
@@ -721,7 +721,7 @@ class ObjectSet:
         tool_objects = self.factory.group(*tool_objects).copy()
         try:
             new_tags, old_tags_map = operation(self.dim_tags, tool_objects.dim_tags, removeObject=True, removeTool=True)
-        except ValueError as err :
+        except Exception as err:    # gmsh raises bare Exception
             message = "\nobj dimtags: {}\ntool dimtags: {}".format(str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))
             raise BoolOperationError(message) from err
 
-- 
2.43.0


From f216afcdd98ab575d43076b0042d503123b33747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 33/81] fix: GeometryOCC.rectangle does not extend the list of
 sides

---
 src/bgem/gmsh/gmsh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 6562a73..f62d806 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,8 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
-        corner = np.array(center) - np.array(xy_sides) / 2
+        corner = np.array(center) - np.array([*xy_sides[0:2], 0]) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
         return self.object(2, rec_tag)
-- 
2.43.0


From 52f452fdabf5b970f665c57ddc32cd5e55a495f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 34/81] fix: GeometryOCC.make_polygon requests synchronization

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index f62d806..335cc56 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -295,6 +295,7 @@ class GeometryOCC:
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From 4b5101aabad0f6314e3035f83a9c934e4b8ed4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 35/81] fix: GeometryOCC.keep_only requests synchronization

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 335cc56..49fdd96 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -469,6 +469,7 @@ class GeometryOCC:
             self.model.remove(list(remove_dimtags), recursive=False)
         except ValueError:
             pass
+        self._need_synchronize = True
 
     def all_entities(self):
         self.synchronize()
-- 
2.43.0


From 02834333a5cb82d188bc43e45da628f650509432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 36/81] fix: GeometryOCC.make_polygon accepts an integer mesh
 step

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 49fdd96..632050d 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -288,7 +288,7 @@ class GeometryOCC:
         """
         if mesh_step is None:
             mesh_step = 0.0
-        if type(mesh_step) is float:
+        if np.isscalar(mesh_step):
             mesh_step = np.full(len(points), mesh_step)
         vertices = [self.model.addPoint(*p, step, tag=-1) for p, step in zip(points, mesh_step)]
         vertices.append(vertices[0])
-- 
2.43.0


From 1a080fafc3b03e240784d68a9650b80d413e8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 37/81] fix: GeometryOCC.fragment accepts a single shape

---
 src/bgem/gmsh/gmsh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 632050d..614e522 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -368,6 +368,9 @@ class GeometryOCC:
         except Exception as err:    # gmsh raises bare Exception
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
+        if len(all_dimtags) == 1:
+            # gmsh has nothing to do and returns empty map
+            tags_map = [all_dimtags]
 
         # assign regions
         new_sets = []
-- 
2.43.0


From bcba9259b73d65359de17e5593ccfa7c83f6741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 38/81] fix: GeometryOCC.keep_only removes also the boundaries
 of removed shapes

---
 src/bgem/gmsh/gmsh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 614e522..84aeca5 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -469,7 +469,8 @@ class GeometryOCC:
         all_dimtags = set(gmsh.model.getEntities())
         remove_dimtags = all_dimtags.difference(set(group_dimtags))
         try:
-            self.model.remove(list(remove_dimtags), recursive=False)
+            # boundary of an existing shape is not removed, so begin with the highest dimension
+            self.model.remove(sorted(remove_dimtags, reverse=True), recursive=False)
         except ValueError:
             pass
         self._need_synchronize = True
-- 
2.43.0


From fad15e5514b8cd90f9f099371796074dd5dd39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 39/81] fix: repeated make_mesh replaces its physical groups

---
 src/bgem/gmsh/gmsh.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 84aeca5..a76a2f0 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -212,12 +212,15 @@ class GeometryOCC:
         print("GMSH initialized")
 
         self._region_names = {}
+        # dimtags of the physical groups assigned by the last make_mesh
+        self._physical_groups = []
         self._need_synchronize = False
 
         gmsh.option.setNumber("General.Terminal", kwargs.get('verbose', False))
 
     def reinit(self):
         gmsh.clear()
+        self._physical_groups = []
 
     def get_region_name(self, name):
         region = self._region_names.get(name, Region.get(name))
@@ -409,9 +412,13 @@ class GeometryOCC:
                                        ):
                     reg_to_tags[id][0].set_unique_name(i)
 
-        # set physical groups
+        # set physical groups, replace those of the previous mesh
+        if self._physical_groups:
+            gmsh.model.removePhysicalGroups(self._physical_groups)
+            self._physical_groups = []
         for reg, tags in reg_to_tags.values():
             reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)
+            self._physical_groups.append((reg.dim, reg._gmsh_id))
             gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)
 
     def make_mesh(self, objects: List['ObjectSet'], dim=3, eliminate=True) -> None:
-- 
2.43.0


From 67ae31bcd7d8cf6033c9796141c2501e4e9e3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 40/81] fix: ObjectSet.copy copies objects of all dimensions

---
 src/bgem/gmsh/gmsh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index a76a2f0..e97c3b0 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -559,7 +559,11 @@ class ObjectSet:
         return self
 
     def copy(self) -> 'ObjectSet':
-        copy_tags = self.factory.model.copy(self.dim_tags)
+        # gmsh returns copies of the highest dimension only
+        copies = {}
+        for dim in {dim for dim, tag in self.dim_tags}:
+            copies[dim] = iter(self.factory.model.copy([dt for dt in self.dim_tags if dt[0] == dim]))
+        copy_tags = [next(copies[dim]) for dim, tag in self.dim_tags]
         self.factory._need_synchronize = True
         return ObjectSet(self.factory, copy_tags, self.regions)
 
-- 
2.43.0


From 93a8187127e4585dd9fd384f909c2d1cb32ab20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 41/81] fix: shape shared by objects of one region is in its
 physical group once

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e97c3b0..fbc5fad 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -417,6 +417,8 @@ class GeometryOCC:
             gmsh.model.removePhysicalGroups(self._physical_groups)
             self._physical_groups = []
         for reg, tags in reg_to_tags.values():
+            # fragments shared by several objects would be meshed for every occurence
+            tags = list(dict.fromkeys(tags))
             reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)
             self._physical_groups.append((reg.dim, reg._gmsh_id))
             gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)
-- 
2.43.0


From 2e4197094f39c63be4c991dd3b692b5373da11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 42/81] fix: repeated make_mesh meshes the new shapes

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index fbc5fad..f6b2406 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -439,6 +439,8 @@ class GeometryOCC:
         if eliminate:
             self.keep_only(group)
         self.synchronize()
+        # shapes added to an existing mesh would not be meshed
+        gmsh.model.mesh.clear()
         gmsh.model.mesh.generate(dim)
         gmsh.model.mesh.removeDuplicateNodes()
         bad_entities = gmsh.model.mesh.getLastEntityError()
-- 
2.43.0


From 736dbe5c8c825e59c7a7f5198f7f528d686530b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 43/81] fix: Z_Surface.eval returns a point

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..53aa4f5 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -857,7 +857,7 @@ class Z_Surface:
         :param u, v: Evaluation point.
         :return: D-dimensional numpy array. D - is dimension given by dimension of poles.
         """
-        z = self.z_surface.eval(u, v)
+        z = self.z_surface.eval(u, v)[0]
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-- 
2.43.0


From 896d97cf73a78479257c82d57faa87d9c25748a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 44/81] fix: refused Z_Surface.transform leaves the surface
 unchanged

---
 src/bgem/bspline/bspline.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 53aa4f5..d976958 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -756,11 +756,18 @@ class Z_Surface:
         :param z_shift: np.array, [ z_scale, z_shift]
         :return: None
         """
+        # Check arguments before any change.
+        if xy_mat is not None:
+            xy_mat = np.array(xy_mat, dtype=float)
+            assert xy_mat.shape == (2, 3)
+            la.inv(xy_mat[0:2, 0:2])    # raises LinAlgError for a singular matrix
+        if z_mat is not None:
+            z_mat = np.array(z_mat, dtype=float)
+            assert z_mat.shape == (2,)
+
         if xy_mat is not None:
             self._reset_transform_xy()
             surf_center = self.center()
-            xy_mat = np.array(xy_mat)
-            assert xy_mat.shape == (2, 3)
 
             self._xy_mat = xy_mat
             self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
@@ -774,8 +781,6 @@ class Z_Surface:
         if z_mat is not None:
             self._reset_transform_z()
             surf_center = self.center()
-            z_mat = np.array(z_mat)
-            assert z_mat.shape == (2,)
 
             self.z_mat = z_mat
             self._z_mat[0] = z_mat[0]
-- 
2.43.0


From 44d558b3d095c9e724c1a8f502f6a8b8e985cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 45/81] fix: Z_Surface.transform of a bilinear surface

---
 src/bgem/bspline/bspline.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index d976958..ef417b7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -728,7 +728,8 @@ class Z_Surface:
         if xy_quad.shape[0] == 3:
             xy_quad = np.concatenate( (xy_quad, v11[None, :]), axis = 0)
 
-        if np.allclose(xy_quad[3], v11):
+        self._is_linear = np.allclose(xy_quad[3], v11)
+        if self._is_linear:
             # linear case
             self.quad = xy_quad
             self._xy_shift = self.quad[1]
@@ -770,10 +771,11 @@ class Z_Surface:
             surf_center = self.center()
 
             self._xy_mat = xy_mat
-            self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
             quad_center = surf_center[0:2]
-            self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
-            self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
+            if self._is_linear:
+                self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
+                self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
+                self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
             # transform quad
             self.quad = np.dot(self.quad - quad_center, xy_mat[0:2,0:2].T) + xy_mat[0:2, 2] + quad_center
 
-- 
2.43.0


From ca90b72c35ec19dda8e9d10cdc2393fff849d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 46/81] fix: Z_Surface.get_copy evaluates with its own XY
 transform

---
 src/bgem/bspline/bspline.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index ef417b7..e4810ed 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -737,13 +737,19 @@ class Z_Surface:
             u_vec = self.quad[2] - self.quad[1]
             self._mat_uv_to_xy = np.column_stack((u_vec, v_vec))
             self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
+        else:
+            # bilinear case
+            self.quad = xy_quad
+        self._set_xy_map()
 
+    def _set_xy_map(self):
+        """
+        Set optimized mappings between XY and UV, methods bound to this instance.
+        """
+        if self._is_linear:
             self.xy_to_uv = self._linear_xy_to_uv
             self.uv_to_xy = self._linear_uv_to_xy
-
         else:
-            # bilinear case
-            self.quad = xy_quad
             self.xy_to_uv = self._bilinear_xy_to_uv
             self.uv_to_xy = self._bilinear_uv_to_xy
 
@@ -817,7 +823,9 @@ class Z_Surface:
         bs.Surface for Z coordinates (Z poles).
         :return: A copy of the Z_Surface object.
         """
-        return copy.copy(self)
+        z_copy = copy.copy(self)
+        z_copy._set_xy_map()
+        return z_copy
 
 
     """
-- 
2.43.0


From 8be7c5732f5ecd8da1113f567388ea31a44f1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 47/81] fix: Z_Surface.aabb of a surface turned upside down

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index e4810ed..ec9050a 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -941,7 +941,7 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])
         return xyz_box
 
 
-- 
2.43.0


From 9afcc8f11b332e87c70802d5d974c9e0c614bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 48/81] fix: Z_Surface.get_transform after the Z transform was
 applied to the poles

---
 src/bgem/bspline/bspline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index ec9050a..95ff6d1 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -813,8 +813,7 @@ class Z_Surface:
             self.z_surface = self.z_surface.deep_copy()
             self.z_surface.poles *= self._z_mat[0]
             self.z_surface.poles += self._z_mat[1]
-            self._z_mat = np.array([1.0, 0.0])
-            self._have_z_mat = False
+            self._reset_transform_z()
 
 
     def get_copy(self):
-- 
2.43.0


From baa0529b167415d4f45bd9ff7026cf8650564f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 49/81] fix: GridSurface.z_eval_array applies the same Z
 transform as eval_array

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 95ff6d1..2a145dd 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1170,7 +1170,7 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From aac5417e4e5beefef592d437325e481341e5f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 50/81] fix: aabb of rational curves and surfaces does not
 contain weights

---
 src/bgem/bspline/bspline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 2a145dd..280fe18 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -434,7 +434,8 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        xyz_poles = self.poles[:, 0:self.dim]
+        return np.array( [np.amin(xyz_poles, axis=0), np.amax(xyz_poles, axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -585,7 +586,8 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        xyz_poles = self.poles[:, :, 0:self.dim]
+        return np.array( [np.amin(xyz_poles, axis=(0,1)), np.amax(xyz_poles, axis=(0,1))] )
 
 
     def bounding_boxes(self):
-- 
2.43.0


From 0344f95d58f853cae3f4cd6b9537456e38124e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 51/81] fix: Surface.deep_copy of a rational surface

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 280fe18..d2dcc7e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -569,7 +569,7 @@ class Surface:
         u_basis = copy.copy(self.u_basis)
         v_basis = copy.copy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From d62d88b156e63f8edd3bd2beea5c51ad86223ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 52/81] fix: rational curves and surfaces keep own weights

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index d2dcc7e..0ecdf65 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -381,8 +381,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -514,8 +514,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From fe2e2a02eda3ea833295f0e6c32e68586e9d18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 53/81] fix: approximation of weighted points

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..a55b7af 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -431,8 +431,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From fa92ee9673198affdec14fa63e699d5cd7eaafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 54/81] fix: surface approximation does not depend on the
 random state

---
 src/bgem/bspline/bspline_approx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index a55b7af..f0afa81 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -443,9 +443,11 @@ class SurfaceApprox:
 
         logging.info('Computing A and B svds approximation ...')
         start_time = time.time()
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=None,
+        # Fixed starting vector, result must be reproducible.
+        v0 = np.random.RandomState(0).uniform(-1, 1, bb_mat.shape[0])
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=v0,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM',
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=v0,
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From 01d149d0b18bd8d00ba10679488be2fff4033355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 55/81] fix: surface approximation with a single interval in
 both directions

---
 src/bgem/bspline/bspline_approx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index f0afa81..f99f1bc 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -445,9 +445,10 @@ class SurfaceApprox:
         start_time = time.time()
         # Fixed starting vector, result must be reproducible.
         v0 = np.random.RandomState(0).uniform(-1, 1, bb_mat.shape[0])
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=v0,
+        ncv = min(10, bb_mat.shape[0] - 1)
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=v0,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=v0,
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=v0,
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From 406e4794384b2ba786b67bb496071e58691895d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 56/81] fix: error of the surface approximation is the maximum
 norm

---
 src/bgem/bspline/bspline_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index f99f1bc..2b71655 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -464,7 +464,7 @@ class SurfaceApprox:
         logging.info('Computing error ...')
         start_time = time.time()
         diff = b_mat.dot(z_vec) - g_vec
-        self.error = max_diff = np.max(diff)
+        self.error = max_diff = np.max(np.abs(diff))
         logging.info("Approximation error (max norm): {}".format(max_diff) )
         end_time = time.time()
         logging.info('Computed in: {} s'.format(end_time - start_time))
-- 
2.43.0


From 02c000c830adb61a4f2cb74eec9036f1e43ccc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 57/81] fix: surface approximation keeps points on the border
 of the quad

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 2b71655..3f2d6bf 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -512,8 +512,8 @@ class SurfaceApprox:
         mat_xy_to_uv = la.inv(mat_uv_to_xy)
         points_uv = np.dot((self._xy_points - xy_shift), mat_xy_to_uv.T)
 
-        # remove points far from unit square
-        eps = 1.0e-15
+        # remove points far from unit square, tolerate rounding errors of map coordinates
+        eps = 1.0e-9
         cut_min = np.array( [ -eps, -eps ])
         cut_max = np.array( [ 1+eps, 1+eps ])
         in_idx = np.all(np.logical_and(cut_min < points_uv,  points_uv <= cut_max), axis=1)
-- 
2.43.0


From 084c19f49eea8bc4606d26981984d99ff638e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 58/81] fix: polygon maps of merged drawings cover islands and
 empty drawings

---
 src/bgem/polygons/merge.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..00f422d 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -130,16 +130,21 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
     # Fill remaining maps_other[2] items using DFS
     for poly_id in decomp.polygons.keys():
         maps_other[2].setdefault(poly_id, None)
+    if len(other.segments) == 0:
+        # no boundary to start from, everything lies in the outer polygon
+        maps_other[2][decomp.outer_polygon.id] = other.outer_polygon.id
     for new_poly, other_poly in list(maps_other[2].items()):
         if other_poly != None:
             stack = [new_poly]
             while stack:
                 p_id = stack.pop(-1)
                 maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
-                    ngh_poly = seg.wire[1 - side].polygon
-                    if maps_other[2][ngh_poly.id] is None:
-                        stack.append(ngh_poly.id)
+                outer_wire = decomp.polygons[p_id].outer_wire
+                for wire in [outer_wire, *outer_wire.childs]:
+                    for seg, side in wire.segments():
+                        ngh_poly = seg.wire[1 - side].polygon
+                        if maps_other[2][ngh_poly.id] is None:
+                            stack.append(ngh_poly.id)
 
     # # Check
     # for p in decomp.polygons.values():
-- 
2.43.0


From 85625570e9a93f8639f823726b5140bbfed935fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 59/81] fix: merged segments are subdivided by the existing
 points they pass through

---
 src/bgem/polygons/merge.py | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 00f422d..a2ba954 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -1,3 +1,5 @@
+import itertools
+from . import aabb_lookup
 from . import polygons
 from .decomp import PolygonChange, in_vtx, out_vtx, right_side, left_side
 
@@ -39,6 +41,24 @@ def deep_copy(self):
     return decomp, id_maps
 
 
+def _points_on_line(decomp, a_pt, b_pt):
+    """
+    Points of the decomposition on the line from 'a_pt' to 'b_pt' within the tolerance,
+    in order along the line, including both end points.
+    """
+    box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=decomp.tolerance)
+    vec = b_pt.xy - a_pt.xy
+    on_line = []
+    for pt_id in decomp.points_lookup.intersect_candidates(box):
+        pt = decomp.points[pt_id]
+        if pt == a_pt or pt == b_pt:
+            continue
+        t = decomp.seg_project_point(vec, a_pt.xy, pt.xy)
+        if decomp.pt_dist(pt, a_pt.xy + t * vec) < decomp.tolerance:
+            on_line.append((t, pt.id, pt))
+    return [a_pt, *(pt for t, pt_id, pt in sorted(on_line, key=lambda item: item[:2])), b_pt]
+
+
 def intersect_single(decomp, other, merge_tol = 1e-10):
     """
     TODO: move to separate intersection module.
@@ -98,15 +118,19 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
         other_right_poly, other_left_poly = seg.polygons()
         # print(decomp)
         # print('add line {} {}'.format(a, b))
-        line_div = decomp._add_line_seg_intersections(new_a_pt, new_b_pt)
-        # TODO: modify to changes in _add_line_seg_intersections
-        # we have no seg_b, and the new line may be curved by snapping.
-        for t, (mid_pt, seg_a, seg_b) in line_div.items():
-            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
-            assert seg_a.id not in maps_other[1]
-            #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
-
-        for new_seg, change, side in decomp._add_line_new_segments(new_a_pt, new_b_pt, line_div):
+        line_pts = _points_on_line(decomp, new_a_pt, new_b_pt)
+        new_segments = []
+        for sub_a_pt, sub_b_pt in zip(line_pts[:-1], line_pts[1:]):
+            line_div = decomp._add_line_seg_intersections(sub_a_pt, sub_b_pt)
+            # TODO: modify to changes in _add_line_seg_intersections
+            # we have no seg_b, and the new line may be curved by snapping.
+            for t, (mid_pt, seg_a, seg_b) in line_div.items():
+                maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
+                assert seg_a.id not in maps_other[1]
+                #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
+            new_segments.append(decomp._add_line_new_segments(sub_a_pt, sub_b_pt, line_div))
+
+        for new_seg, change, side in itertools.chain(*new_segments):
             maps_other[1][new_seg.id] = seg.id
             #maps_self[1].setdefault(new_seg.id, None)
 
-- 
2.43.0


From 1ec876ee88e47208d032f91e79325723562fe85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 60/81] fix: moved points and segments are found by the lookup
 at their new place

---
 src/bgem/polygons/polygons.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 833395b..9a18c21 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -251,8 +251,13 @@ class PolygonDecomposition:
         param: displacement: Numpy array, 2D vector of displacement to add to the points.
         :return: None
         """
+        moved_segments = set()
         for pt in points:
             pt.move(displacement)
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            moved_segments.update(seg for seg, side in pt.segments())
+        for seg in moved_segments:
+            self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([pt.xy for pt in seg.vtxs], margin=self.tolerance))
 
 
     def get_last_polygon_changes(self):
-- 
2.43.0


From 1bc184bad7e805bfb9aca6c702ab327241630ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 61/81] fix: displacement of free points is checked against
 their polygon

---
 src/bgem/polygons/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 9a18c21..5fa8cb6 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -210,7 +210,8 @@ class PolygonDecomposition:
 
         # Todo: For the outer wire of the moving segments, add parent and its holes to the envelope.
         # Outer wire is the maximal parent wire for the set of all wires connected to moving edges.
-        boundary_wires = [poly.outer_wire for poly in changed_polygons]
+        free_pt_polygons = {pt.poly for pt in points if pt.is_free()}
+        boundary_wires = [poly.outer_wire for poly in changed_polygons | free_pt_polygons]
         for wire in boundary_wires:
             for child in wire.childs:
                 boundary_wires.append(child)
-- 
2.43.0


From c007ee1d9b7d038faf76895cd7d3c2208cafac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 62/81] fix: displacement through a vertex is a collision

---
 src/bgem/polygons/polygons.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 5fa8cb6..2b17cc3 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -224,7 +224,7 @@ class PolygonDecomposition:
         for e_seg in envelope:
             # Check collision of points with envelope.
             for pt in points:
-                (t0, t1) = self.seg_intersection(e_seg, pt.xy, pt.xy + displacement)
+                (t0, t1) = self.seg_intersection(e_seg, pt.xy, pt.xy + displacement, closed=True)
                 # TODO: Treat case of vector and segment in line.
                 # TODO: Check bound checks in intersection.
                 if t0 is not None:
@@ -238,7 +238,7 @@ class PolygonDecomposition:
                     b = seg.vtxs[1 - side].xy + displacement
                 else:
                     b = seg.vtxs[1 - side].xy
-                (t0, t1) = self.seg_intersection(e_seg, a, b)
+                (t0, t1) = self.seg_intersection(e_seg, a, b, closed=True)
                 if t0 is not None:
                     return False
 
@@ -737,11 +737,12 @@ class PolygonDecomposition:
 
 
     @staticmethod
-    def seg_intersection(seg, a, b):
+    def seg_intersection(seg, a, b, closed=False):
         """
         Find intersection of the 'self' segment and the line (a,b).
         :param a: start vtx of the line segment
         :param b: end vtx of the line segment
+        :param closed: accept also intersections at the end points of 'seg'
         :return: (t0, t1) Parameters of the intersection for 'self' and other edge.
 
         """
@@ -763,7 +764,8 @@ class PolygonDecomposition:
         # if (np.abs(t1) < eps or np.abs(1-t1) < eps) and (-eps < t0 < 1+eps):
         #     # one of new points close to the segment, should not happend
         #     assert False
-        if 0 + eps < t0 < 1 - eps and 0 + eps < t1 < 1 - eps:
+        margin = -eps if closed else eps
+        if 0 + margin < t0 < 1 - margin and 0 + eps < t1 < 1 - eps:
             return (t0, t1)
         else:
             # TODO: catch also case of existing close points
-- 
2.43.0


From a54449cc65374c14df9bdbf2ac0bdb1342b2f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 63/81] fix: quality of a tetrahedron with cocircular nodes is
 zero

---
 src/bgem/gmsh/heal_mesh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 5ccfb72..c009e50 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -101,9 +101,12 @@ class Tetrahedron(ShapeBase):
             # circum radius
             a,b,c,A,B,C = self.edge_lens
             x_area = (a*A + b*B + c*C)*(a*A + b*B - c*C)*(a*A - b*B + c*C)*(-a*A + b*B + c*C)
-            assert x_area > 0, x_area
-            R = np.sqrt(x_area) / 24 / max(1e-300, V)
-            self._gamma = 3 * r/max(1e-300, R)
+            if x_area > 0:
+                R = np.sqrt(x_area) / 24 / max(1e-300, V)
+                self._gamma = 3 * r/max(1e-300, R)
+            else:
+                # flat tetrahedron with nodes on a common circle
+                self._gamma = 0.0
         return self._gamma
 
 
-- 
2.43.0


From 54db5fc5df3302d8dc301c15f6ed5ba30edd530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 64/81] fix: the flatness assertion of mesh healing depends on
 the mesh scale

---
 src/bgem/gmsh/heal_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index c009e50..152480d 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -676,7 +676,8 @@ class HealMesh:
         normal_component = ele.shape.nodes @ common_normal
         avg = np.average(normal_component)
         flat_nodes = ele.shape.nodes - (normal_component - avg)[:, None] * common_normal[None, :]
-        assert np.isclose(np.linalg.det(flat_nodes[1:, :] - flat_nodes[0, :]), 0.0)
+        max_edge = np.max(ele.shape.edge_lens)
+        assert np.isclose(np.linalg.det((flat_nodes[1:, :] - flat_nodes[0, :]) / max_edge), 0.0)
 
         # cases for projected shapes
         cos_face_norm = ele.shape.face_normals @ common_normal
-- 
2.43.0


From 05d2e77dca14a50a437f20aee2075f486659a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 65/81] fix: mesh healing forgets elements modified by its last
 step

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 152480d..9177995 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -450,7 +450,7 @@ class HealMesh:
         orig_n_el = self.max_ele_id
         el_to_check = collections.deque(self.mesh.elements.keys())
         modified = []
-        while el_to_check:
+        while el_to_check or modified:
             el_to_check.extend(modified)
             modified = []
             # prevent infinite loop
-- 
2.43.0


From f9825bef70c25551e1bdf53bd8f61174a45bb790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 66/81] fix: field.threshold ignores the upper bound

---
 src/bgem/gmsh/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..dc50e62 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -45,7 +45,7 @@ def distance_edges(curves, nodes_per_edge=8, coordinate_fields=None) -> Field:
 def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     """
     field_min, threshold_min = lower_bound
-    field_max, threshold_max = lower_bound
+    field_max, threshold_max = upper_bound
 
     threshold = threshold_min IF field <= field_min
     threshold = threshold_max IF field >= field_max
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From 64942d1db6fd4ad92832e93a69f560c276d60066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 67/81] fix: field.restrict gives an unlimited size everywhere

---
 src/bgem/gmsh/field.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index dc50e62..53af3dd 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -137,9 +137,11 @@ def restrict(field:Field, *object_sets, add_boundary=False):
         group = factory.group(group, b_group)
     points, edges, faces, volumes = group.split_by_dimension()
     id = gmsh_field.add('Restrict')
-    gmsh_field.setNumber(id, "IField", field)
-    gmsh_field.setNumbers(id, "VerticesList", points.tags)
-    gmsh_field.setNumbers(id, "EdgesList", edges.tags)
-    gmsh_field.setNumbers(id, "FacesList", faces.tags)
-    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)
+    # the boundary is listed explicitely
+    gmsh_field.setNumber(id, "IncludeBoundary", False)
+    gmsh_field.setNumber(id, "InField", field)
+    gmsh_field.setNumbers(id, "PointsList", points.tags)
+    gmsh_field.setNumbers(id, "CurvesList", edges.tags)
+    gmsh_field.setNumbers(id, "SurfacesList", faces.tags)
+    gmsh_field.setNumbers(id, "VolumesList", volumes.tags)
     return id
\ No newline at end of file
-- 
2.43.0


From 18c98b9e93fb267157f651ebe974e3037a822917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 68/81] fix: merging of two close intersections of a drawn line
 fails

---
 src/bgem/polygons/polygons.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 2b17cc3..40c5686 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -524,12 +524,13 @@ class PolygonDecomposition:
         b_diff = (a.xy - b.xy) #/2
         #a_can_move = self.check_displacment([a],  a_diff)
         b_can_move = self.check_displacment([b],  b_diff)
-        b_can_move = b_can_move and not b.segment[0].attr.boundary
+        b_can_move = b_can_move and not getattr(b.segment[0].attr, 'boundary', False)
         if b_can_move:
             #a.move(a_diff)
-            for seg, b_idx in list(b.segments()):
-                seg_vtxs = seg.vtxs
+            moved = [(seg, list(seg.vtxs), b_idx) for seg, b_idx in b.segments()]
+            for seg, seg_vtxs, b_idx in moved:
                 self._rm_segment(seg)
+            for seg, seg_vtxs, b_idx in moved:
                 seg_vtxs[b_idx] = a
                 self._add_segment(*seg_vtxs)
             self._rm_point(b)
-- 
2.43.0


From 9763a93ac08871f94e1b93b44b0ac6064a08558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 69/81] fix: add_line returns segments replaced by a merge of
 close intersections

---
 src/bgem/polygons/polygons.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 40c5686..74f2bd2 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -597,20 +597,22 @@ class PolygonDecomposition:
         """
         Generator for added new segments of the new line.
         """
-        start_pt = a_pt
+        # merge close intersections first, merging replaces the segments of the merged point
+        line_points = [a_pt]
         for t1, (mid_pt, seg0, seg1) in sorted(line_div.items()):
+            start_pt = line_points[-1]
             if start_pt == mid_pt:
                 continue
             if np.linalg.norm(start_pt.xy - mid_pt.xy) < self.tolerance:
                 # two close intersections, merge points
-                start_pt = self.merge_points(start_pt, mid_pt)
+                line_points[-1] = self.merge_points(start_pt, mid_pt)
                 continue
-            new_seg = self._add_segment(start_pt, mid_pt)
-            yield (new_seg, self.decomp.last_polygon_change, new_seg.vtxs[out_vtx] == start_pt)
-            start_pt = mid_pt
+            line_points.append(mid_pt)
+        if line_points[-1] != b_pt:
+            line_points.append(b_pt)
 
-        if start_pt != b_pt:
-            new_seg = self._add_segment(start_pt, b_pt)
+        for start_pt, end_pt in zip(line_points[:-1], line_points[1:]):
+            new_seg = self._add_segment(start_pt, end_pt)
             yield (new_seg, self.decomp.last_polygon_change, new_seg.vtxs[out_vtx] == start_pt)
 
 
-- 
2.43.0


From d68e2e90e6f4e50c039ead2f0199d333213735e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 70/81] fix: merging the end points of a segment fails, the
 segment should vanish

---
 src/bgem/polygons/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 74f2bd2..4b39e1c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -532,7 +532,8 @@ class PolygonDecomposition:
                 self._rm_segment(seg)
             for seg, seg_vtxs, b_idx in moved:
                 seg_vtxs[b_idx] = a
-                self._add_segment(*seg_vtxs)
+                if seg_vtxs[0] != seg_vtxs[1]:
+                    self._add_segment(*seg_vtxs)
             self._rm_point(b)
             return a
         else:
-- 
2.43.0


From 4f0a781fff0a029082f3f58cb012e78efaad8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 71/81] fix: a line is interrupted where close intersections
 can not be merged

---
 src/bgem/polygons/polygons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 4b39e1c..9411b85 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -606,8 +606,10 @@ class PolygonDecomposition:
                 continue
             if np.linalg.norm(start_pt.xy - mid_pt.xy) < self.tolerance:
                 # two close intersections, merge points
-                line_points[-1] = self.merge_points(start_pt, mid_pt)
-                continue
+                merged = self.merge_points(start_pt, mid_pt)
+                if merged is start_pt or start_pt.id not in self.points:
+                    line_points[-1] = merged
+                    continue
             line_points.append(mid_pt)
         if line_points[-1] != b_pt:
             line_points.append(b_pt)
-- 
2.43.0


From 1b9a6899be2999725059323011968c4e0c0dc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 72/81] fix: moving a segment over collinear points is not
 detected as a collision

---
 src/bgem/polygons/polygons.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 9411b85..34b7377 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -229,6 +229,8 @@ class PolygonDecomposition:
                 # TODO: Check bound checks in intersection.
                 if t0 is not None:
                     return False
+                if any(self._is_inside_line(vtx.xy, pt.xy, pt.xy + displacement) for vtx in e_seg.vtxs):
+                    return False
 
             # Check collision of segments with envelope.
             for (seg, side) in moving_segs:
@@ -241,6 +243,8 @@ class PolygonDecomposition:
                 (t0, t1) = self.seg_intersection(e_seg, a, b, closed=True)
                 if t0 is not None:
                     return False
+                if any(self._is_inside_line(vtx.xy, a, b) for vtx in e_seg.vtxs):
+                    return False
 
         return True
 
@@ -742,6 +746,24 @@ class PolygonDecomposition:
         return min(max(t, 0.0), 1.0)
 
 
+    @staticmethod
+    def _is_inside_line(point, a, b):
+        """
+        True if the point lies on the line segment (a,b) and it is not its end point.
+        Detects points of segments parallel with the line, that have no single intersection.
+        """
+        vec = b - a
+        size = la.norm(vec)
+        if size == 0:
+            return False
+        eps = 1e-10
+        diff = point - a
+        t = diff.dot(vec) / size**2
+        dist = abs(vec[0] * diff[1] - vec[1] * diff[0]) / size
+        rounding = 16 * np.finfo(float).eps * np.max(np.abs([a, b]))
+        return eps < t < 1 - eps and dist <= max(eps * size, rounding)
+
+
     @staticmethod
     def seg_intersection(seg, a, b, closed=False):
         """
-- 
2.43.0


From 341d36a831e51794c90b7c5102bf8e07b1313db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 73/81] fix: add_line returns segments replaced by a merge in a
 later part of the line

---
 src/bgem/polygons/point.py    |  2 ++
 src/bgem/polygons/polygons.py | 26 ++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/point.py b/src/bgem/polygons/point.py
index d8961b0..cf3a4e6 100644
--- a/src/bgem/polygons/point.py
+++ b/src/bgem/polygons/point.py
@@ -12,6 +12,8 @@ class Point(idmap.IdObject):
         # Containing polygon for free-nodes. None for others.
         self.segment = (None, None)
         # (seg, vtx_side) One of segments joined to the Point and local idx of the segment (out_vtx, in_vtx).
+        self.merged_to = None
+        # Point that has replaced this one, see PolygonDecomposition.merge_points.
 
     def __repr__(self):
         return "Pt({}) {}".format(self.id, self.xy)
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 34b7377..8234229 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -506,13 +506,34 @@ class PolygonDecomposition:
                 #     assert False
                 # subdivide segment, snap to existing mid point
                 omit_pt = omit | {pt}
-                return self.add_line_for_points(a_pt, pt, omit=omit_pt) + \
-                       self.add_line_for_points(pt, b_pt, omit=omit_pt)
+                result = self.add_line_for_points(a_pt, pt, omit=omit_pt)
+                a_pt, b_pt = self._merged_point(pt), self._merged_point(b_pt)
+                result += self.add_line_for_points(a_pt, b_pt, omit=omit_pt)
+                return self._merged_segments(result)
 
         # no snapping, subdivide by intersections
         line_div = self._add_line_seg_intersections(a_pt, b_pt)
         return [seg for seg, change, side in self._add_line_new_segments(a_pt, b_pt, line_div)]
 
+    @staticmethod
+    def _merged_point(pt):
+        while pt.merged_to is not None:
+            pt = pt.merged_to
+        return pt
+
+    def _merged_segments(self, segments):
+        """
+        Replace segments removed by merging of their points.
+        """
+        result = []
+        for seg in segments:
+            if self.segments.get(seg.id) is not seg:
+                a_id, b_id = (self._merged_point(pt).id for pt in seg.vtxs)
+                seg = self.decomp.pt_to_seg.get((a_id, b_id)) or self.decomp.pt_to_seg.get((b_id, a_id))
+            if seg is not None and seg not in result:
+                result.append(seg)
+        return result
+
     def merge_points(self, a, b):
         """
         Move  two points to its average and remove the second one.
@@ -539,6 +560,7 @@ class PolygonDecomposition:
                 if seg_vtxs[0] != seg_vtxs[1]:
                     self._add_segment(*seg_vtxs)
             self._rm_point(b)
+            b.merged_to = a
             return a
         else:
             # just skip the segment
-- 
2.43.0


From 86310b303e710aa4b97243be88d24c349de9d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 74/81] fix: quality of a degenerate triangle is zero, not NaN

---
 src/bgem/gmsh/heal_mesh.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 9177995..f433b73 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -166,9 +166,13 @@ class Triangle(ShapeBase):
             #r = np.sqrt(s*(s-a)*(s-b)*(s-c)) / s
             #R = a*b*c / 4 / r / s
             #gamma =  2 * r / R
-            alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/c-1)
-            #assert np.isclose(gamma, alt_gamma)
-            self._gamma =  alt_gamma
+            if min(a, b, c) > 0:
+                alt_gamma = 8 * (s/a-1)*(s/b-1)*(s/c-1)
+                #assert np.isclose(gamma, alt_gamma)
+                self._gamma =  alt_gamma
+            else:
+                # nodes at the same place
+                self._gamma = 0.0
         return self._gamma
 
 
-- 
2.43.0


From 370c18b0a6f60d093e73d3567cfa9d5c1c5b593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 75/81] fix: make_rectangle joins the corners in their order,
 not crosswise

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index f6b2406..8b113d2 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -330,7 +330,7 @@ class GeometryOCC:
 
     def make_rectangle(self, scale) -> int:
         # Vertices of the rectangle
-        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])
+        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])
         corners = shifts[:, :] * scale[None, :]
         point_tags = [self.model.addPoint(*corner) for corner in corners]
         lines = [self.model.addLine(point_tags[i - 1], point_tags[i]) for i in range(4)]
-- 
2.43.0


From a38d4a1050d6ea58062df37ad40e6e2408977803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 76/81] fix: write_mesh without arguments writes msh, it ended
 in an endless recursion of gmsh

---
 src/bgem/gmsh/gmsh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 8b113d2..c29737a 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -462,7 +462,8 @@ class GeometryOCC:
         """
         if filename is None:
             gmsh.option.setNumber('Mesh.Format', format)
-            extension = format.name
+            # no file has the extension 'auto', gmsh writes its own format by default
+            extension = 'msh' if format == MeshFormat.auto else format.name
             filename = "{}.{}".format(self.model_name, extension)
         gmsh.write(filename)
 
-- 
2.43.0


From c675933061fbbe39d1f11a0a97f5e3e63e32ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 77/81] fix: get_transform hands out copies of the transform

---
 src/bgem/bspline/bspline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 0ecdf65..c1650ed 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -803,7 +803,8 @@ class Z_Surface:
         Return additional transform applied through the 'transform' method.
         :return:
         """
-        return (self._xy_mat, self.z_mat)
+        # copies, the surface must not change with the result
+        return (self._xy_mat.copy(), self.z_mat.copy())
 
     def apply_z_transform(self):
         """
-- 
2.43.0


From b7add3106d4f45b7400c20e06cc65fe3522ba698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:43 +0000
Subject: [PATCH 78/81] fix: lines and bilinear surfaces with an overhang
 accept whole number coordinates

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 3f2d6bf..e8ddbc0 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,7 +47,7 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
@@ -78,7 +78,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From a5ef83aa9e46f9ba08ceee257f9420edfef06436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 79/81] fix: merge_points accepts a free point

---
 src/bgem/polygons/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 8234229..b6bada2 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -549,7 +549,7 @@ class PolygonDecomposition:
         b_diff = (a.xy - b.xy) #/2
         #a_can_move = self.check_displacment([a],  a_diff)
         b_can_move = self.check_displacment([b],  b_diff)
-        b_can_move = b_can_move and not getattr(b.segment[0].attr, 'boundary', False)
+        b_can_move = b_can_move and (b.is_free() or not getattr(b.segment[0].attr, 'boundary', False))
         if b_can_move:
             #a.move(a_diff)
             moved = [(seg, list(seg.vtxs), b_idx) for seg, b_idx in b.segments()]
-- 
2.43.0


From 734b070ffaeb963c47af4c3fe2251b420b9f678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 80/81] fix: point between two segments stays at its projection
 if that is far enough from the other

---
 src/bgem/polygons/polygons.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index b6bada2..9a275b7 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -406,6 +406,10 @@ class PolygonDecomposition:
                 db, seg_b, tb = close_segments[1]
                 xa, ua = seg_a.vtxs[out_vtx].xy, seg_a.vector
                 xb, ub = seg_b.vtxs[out_vtx].xy, seg_b.vector
+                xt = seg_a.parametric(ta)
+                if np.linalg.norm(xt - seg_b.parametric(self.seg_project_point(ub, xb, xt))) >= self.tolerance:
+                    # already far enough, e.g. between two parallel segments
+                    return (1, seg_a, ta)
                 nb = np.array([ub[1], -ub[0]])
                 nb /= np.linalg.norm(nb)
                 if nb @ (point - xb) < 0:
-- 
2.43.0


From c08fe3ccfab18495101ecac2299319f22033d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 81/81] fix: a line does not snap to points behind its ends

---
 src/bgem/polygons/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 9a275b7..99b49cb 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -503,7 +503,7 @@ class PolygonDecomposition:
             diff = t * (b_pt.xy - a_pt.xy)
             x = a_pt.xy + diff
             dist = la.norm(pt.xy - x)
-            if dist < self.tolerance:
+            if 0.0 < t < 1.0 and dist < self.tolerance:
                 # if np.linalg.norm(pt.xy - a_pt.xy) < self.tolerance or np.linalg.norm(pt.xy - b_pt.xy) < self.tolerance:
                 #     import geomop.plot_polygons as pp
                 #     pp.plot_polygon_decomposition(self, [a_pt, b_pt, pt])
-- 
2.43.0

