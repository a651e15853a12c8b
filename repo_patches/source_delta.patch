From 8579a0853917979d8ee2847bac629d03cd7b6b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:02 +0000
Subject: [PATCH 01/83] fix: replace the root lexicon when only its derived
 argument differs

Derived lexicons compare equal to each other, so changing the root lexicon
to another derivate of the same lexicon left the old root lexicon in place.
---
 parce/treebuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..974b740 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -387,7 +387,7 @@ class TreeBuilder(util.Observable):
         """
         tree, start, end, offset, lexicons = result
 
-        if not tree.lexicon or tree.lexicon != self.root.lexicon:
+        if not tree.lexicon or tree.lexicon is not self.root.lexicon:
             # whole tree update
             root = self.root
             for n in tree:
-- 
2.43.0


From 39547ff79a22d125a3aef7be91cc6f9d3c7bd18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:31 +0000
Subject: [PATCH 02/83] fix: merge a change that starts before the earlier
 pending changes

The start position of the earlier change was kept and the overlap was
computed from the wrong end, so text before it could stay un-tokenized.
---
 parce/treebuilderutil.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..0c284b9 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -87,21 +87,13 @@ class Changes:
             self.removed = removed
             self.added = added
             return
-        # determine the offset for removed and added
-        if start + removed < self.start:
-            offset = self.start - start - removed
-        elif start > self.start + self.added:
-            offset = start - self.start - self.added
-        else:
-            offset = 0
-        # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
-        end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        # the region of the current text that covers both changes
+        head = min(start, self.start)
+        tail = max(start + removed, self.start + self.added)
         # set the new values
-        self.start = min(self.start, start)
-        self.removed += removed + offset
-        self.added += added + offset
+        self.start = head
+        self.removed += tail - head - self.added
+        self.added = tail - head + added - removed
 
     def has_changes(self):
         """Return True when there are actually changes."""
-- 
2.43.0


From d6dc56c15dd3078f99c5d22746f87fb09e6cdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:57 +0000
Subject: [PATCH 03/83] fix: keep the last unchanged tokens when a build
 restarts inside the new tree

The tokens just verified to be unchanged were deleted from the new tree, but
parsing continues after them, so one token was lost on such a restart.
---
 parce/treebuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 974b740..7005014 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -278,11 +278,10 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From ed999336c2d9d6b724651e5df9bc6ba02885b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:10 +0000
Subject: [PATCH 04/83] fix: report the right updated region when changes
 arrive during several builds

The end of the region of an earlier build was only moved by the changes a
later build started with, not by those it picked up while running.
---
 parce/treebuilder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 7005014..3395239 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -254,7 +254,7 @@ class TreeBuilder(util.Observable):
         offset = added - removed
 
         if not root_lexicon:
-            return BuildResult(Context(root_lexicon, None), start, start + added, 0, [])
+            return BuildResult(Context(root_lexicon, None), start, len(text), 0, [])
 
         # If there remains text after the modified part,
         # we try to reuse the old tokens
@@ -568,7 +568,10 @@ class TreeBuilder(util.Observable):
             self.emit("replace")
             r = self.replace_tree(result)
             start = r.start if start == -1 else min (start, r.start)
-            end = r.end if end == -1 else max(c.new_position(end), r.end)
+            if end == -1 or r.lexicons is not None:
+                end = r.end     # no tail reused, so this is the end of the text
+            else:
+                end = max(end + result.offset, r.end)
             if r.lexicons is not None:
                 lexicons = r.lexicons
             self._lock.acquire()
-- 
2.43.0


From ffcaca799b675025be03e4fe04de457f53f599e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 05/83] fix: do not loop forever when the root lexicon's
 default target pops or at the end of the text

---
 parce/lexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..ffc2d0e 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -158,7 +158,9 @@ class Lexer:
                             del lexicons[target.pop:]
                         state = (pos, len(lexicons), len(target.push))
                         if state in circular:
-                            if target.push and pos < len(text):
+                            if pos == len(text):
+                                return  # would go on forever
+                            if target.push or not target.pop:
                                 pos += 1
                             circular.clear()
                         else:
-- 
2.43.0


From 9be1d16fbff135682d36ab586356e8a5c1f4de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 06/83] fix: let replace() with an empty string end

---
 parce/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..a7adff1 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -222,7 +222,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
             pos = text.find(old)
             while pos >= 0:
                 self[start+pos:start+pos+length] = new
-                pos = text.find(old, pos + length)
+                pos = text.find(old, pos + (length or 1))
                 count -= 1
                 if count == 0:
                     break
-- 
2.43.0


From 06510a27121166123f3ac150ee552c8ae65715b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 07/83] fix: replace(), re_sub() and trim() with a negative
 start position

---
 parce/document.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/document.py b/parce/document.py
index a7adff1..9bc8f13 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -216,6 +216,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
         """
         if old == new:
             return
+        start, end = self._parse_key(slice(start, end))
         text = self[start:end]
         length = len(old)
         with self:
@@ -247,6 +248,7 @@ class AbstractDocument(mutablestring.AbstractMutableString):
             pattern = re.compile(pattern, re_flags)
         if not callable(replacement):
             replacement = (lambda repl: lambda m: m.expand(repl))(replacement)
+        start, end = self._parse_key(slice(start, end))
         text = self[start:end]
         with self:
             for i, m in enumerate(pattern.finditer(text), 1):
-- 
2.43.0


From f60e0c50358bde46a39663af9d437e402e75b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 08/83] fix: forget the collected edits when they are refused
 because they overlap

---
 parce/mutablestring.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..2e163fc 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
+            try:
+                changes = list(self._get_changes())
+            finally:
+                self._changes.clear()
             head = old = changes[0][0]
             added = 0
             for start, end, text in changes:
                 added += start - old + len(text)
                 old = end
             self._update_text(changes)
-            self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From 9df2da94590fbad716418fe85c9109a6c442fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:24 +0000
Subject: [PATCH 09/83] fix: notify that undo or redo is no longer available
 when the last one is used

---
 parce/document.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index 9bc8f13..8b7f33b 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -376,10 +376,11 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
-            with switch, self:
-                for start, end, text in changes:
-                    self[start:end] = text
+            with self._check_undo_state():
+                changes, modified = stack.pop()
+                with switch, self:
+                    for start, end, text in changes:
+                        self[start:end] = text
             self.modified = modified
 
     @contextlib.contextmanager
@@ -389,6 +390,9 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         Emits "undo_available" and "redo_available" when they change.
 
         """
+        if self._in_undo or self._in_redo:
+            yield   # undo() or redo() already does this
+            return
         can_undo = self.can_undo()
         can_redo = self.can_redo()
         try:
-- 
2.43.0


From a7c04d77d7d41a1035a2e34a09192c760f444bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 10/83] fix: move cursors correctly when several changes are
 applied together

---
 parce/document.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index 8b7f33b..d28a2b5 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,10 +81,14 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
+        offset = 0
+        cursors = list(self._cursors)
         for start, end, text in changes:
-            for c in cursors[i:]:
+            # the cursors already moved along with the previous changes
+            start += offset
+            end += offset
+            remaining = []  # cursors that later changes can affect
+            for c in cursors:
                 ahead = c.pos > start
                 if ahead:
                     if end >= c.pos:
@@ -97,7 +101,10 @@ class AbstractDocument(mutablestring.AbstractMutableString):
                     else:
                         c.end += start + len(text) - end
                 elif not ahead:
-                    i += 1  # don't consider this cursor any more
+                    continue    # don't consider this cursor any more
+                remaining.append(c)
+            cursors = remaining
+            offset += start + len(text) - end
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From b02f6ae7d2212a118222e400602de611d4b93f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:11 +0000
Subject: [PATCH 11/83] fix: emit() when handlers connect or disconnect
 handlers

---
 parce/util.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..b6f76f6 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -378,22 +378,36 @@ class Observable:
             slots = self._callbacks[event]
         except KeyError:
             return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        # handlers may connect or disconnect handlers, so iterate over a copy
+        for observer in list(slots):
+            if not self._is_registered(event, observer):
+                continue    # disconnected meanwhile
+            if observer.once:
+                self._unregister(event, observer)
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
             if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+                # the object of a weakly referenced method could be gone
+                self._unregister(event, observer)
         return s
 
+    def _is_registered(self, event, observer):
+        """Return True if this very observer is (still) in the list for the event."""
+        return any(o is observer for o in self._callbacks.get(event, ()))
+
+    def _unregister(self, event, observer):
+        """Remove this very observer from the list for the event, if there."""
+        slots = self._callbacks.get(event, ())
+        for i, o in enumerate(slots):
+            if o is observer:
+                del slots[i]
+                if not slots:
+                    del self._callbacks[event]
+                break
+
 
 class Switch:
     """A context manager that evaluates to True when in a context, else to False.
-- 
2.43.0


From ff4664be613186381c82ebe1433fc9984cfc4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:31 +0000
Subject: [PATCH 12/83] fix: consult the fallback of a registry that is empty
 itself

---
 parce/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/registry.py b/parce/registry.py
index bfb7a75..1af689a 100644
--- a/parce/registry.py
+++ b/parce/registry.py
@@ -301,7 +301,7 @@ class Registry(dict):
             def lexicons(reg):
                 for qualname in reg.suggest(filename, mimetype, contents):
                     yield reg.lexicon(qualname)
-        while self:
+        while self is not None:
             for lexicon in lexicons(self):
                 return lexicon
             self = self.fallback
-- 
2.43.0


From 7424c04105db2c68c7f1b0d049859b1a928598cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 13/83] fix: ancestors(upto) stopped early when upto is no
 ancestor

---
 parce/tree.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..1464fbe 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -190,15 +190,11 @@ class Node:
 
         """
         node = self.parent
-        if upto and upto.parent is not None:
-            p = upto.parent
-            while node is not None and node is not p:
-                yield node
-                node = node.parent
-        else:
-            while node is not None:
-                yield node
-                node = node.parent
+        while node is not None:
+            yield node
+            if node is upto:
+                break
+            node = node.parent
 
     def ancestors_with_index(self, upto=None):
         """Yield the ancestors(upto), and the index of each node in the parent."""
-- 
2.43.0


From 6735c648dff23e2a30a29263d71576a1002a3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 14/83] fix: Node.delete() removed a wrong node when a parent
 became empty

---
 parce/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/tree.py b/parce/tree.py
index 1464fbe..1897606 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -308,7 +308,8 @@ class Node:
         Returns the first non-empty ancestor.
 
         """
-        for parent, index in self.ancestors_with_index():
+        # get the indices first, they cannot be found anymore in emptied parents
+        for parent, index in list(self.ancestors_with_index()):
             del parent[index]
             if len(parent):
                 return parent
-- 
2.43.0


From 804ef9a52997051e5601cffcb77339e030b3fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 15/83] fix: a range between two tokens in different contexts
 contained both contexts

---
 parce/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/tree.py b/parce/tree.py
index 1897606..2c278a1 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -1001,6 +1001,8 @@ class Range:
             if not start_trail:
                 return
             if end_trail:
+                if start_trail > end_trail:
+                    return # there is no token between start and end
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From b892a03215e81b19a1ae79365713dc18b2716241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 16/83] fix: siblings in a query that includes the root node

---
 parce/query.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parce/query.py b/parce/query.py
index 9687785..43b2f5d 100644
--- a/parce/query.py
+++ b/parce/query.py
@@ -505,7 +505,7 @@ class Query:
     def right(self):
         """Yield the right sibling, if any."""
         for n in self:
-            n = n.right_sibling()
+            n = n.parent is not None and n.right_sibling()
             if n:
                 yield n
 
@@ -513,7 +513,7 @@ class Query:
     def left(self):
         """Yield the left sibling, if any."""
         for n in self:
-            n = n.left_sibling()
+            n = n.parent is not None and n.left_sibling()
             if n:
                 yield n
 
@@ -521,13 +521,15 @@ class Query:
     def right_siblings(self):
         """Yield the right siblings, if any."""
         for n in self:
-            yield from n.right_siblings()
+            if n.parent is not None:
+                yield from n.right_siblings()
 
     @pquery
     def left_siblings(self):
         """Yield the left siblings, if any."""
         for n in self:
-            yield from n.left_siblings()
+            if n.parent is not None:
+                yield from n.left_siblings()
 
     @query
     def map(self, function):
-- 
2.43.0


From fce606494c5988f9e88ad3210c429332e5c65175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:37 +0000
Subject: [PATCH 17/83] fix: don't search literally for the pattern of a
 lexicon that uses re.VERBOSE

---
 parce/lexicon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 3ea5dac..c0445b3 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -312,7 +312,7 @@ class Lexicon:
 
         # if there is only one pattern, and no dynamic action or target,
         # see if the pattern is simple enough to just use str.find
-        if len(patterns) == 1 and not self.re_flags & re.IGNORECASE and \
+        if len(patterns) == 1 and not self.re_flags & (re.IGNORECASE | re.VERBOSE) and \
                 not needs_evaluation(rules[0]):
             needle = parce.regex.to_string(patterns[0])
             if needle:
-- 
2.43.0


From f7b97482a4d7d8917e1346dbb3c9020843d99817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:37 +0000
Subject: [PATCH 18/83] fix: using() for a subgroup that did not contribute to
 the match

---
 parce/ruleitem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index c295554..cc41442 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -414,6 +414,8 @@ class DelegateAction(ActionItem):
 
     def replace(self, lexer, pos, text, match):
         """Use our lexicon to parse the matched text."""
+        if not text:
+            return  # the subgroup did not contribute to the match
         sublexer = type(lexer)([self._lexicon])
         for e in sublexer.events(text):
             for p, txt, action in e.lexemes:
-- 
2.43.0


From d0b50e3d84ed5a7f4a9776d3add6723b8b2dcff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:37 +0000
Subject: [PATCH 19/83] fix: do not loop forever on an empty match in a lexicon
 with a default target

---
 parce/lexicon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index c0445b3..48981c3 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -424,8 +424,10 @@ class Lexicon:
                     m = match(text, pos)
                     if m:
                         yield token(m)
+                    if m and m.end() > pos:
                         pos = m.end()
                     else:
+                        # no match, or an empty match that has no target
                         if pos < len(text):
                             yield pos, "", None, None, default_target
                         break
-- 
2.43.0


From 481faf1ae8387a2f5b72efec2d2c73e343690b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:55 +0000
Subject: [PATCH 20/83] fix: do not skip text at targets that are not circular

---
 parce/lexer.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parce/lexer.py b/parce/lexer.py
index ffc2d0e..c42cd7f 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,16 +156,17 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
-                        state = (pos, len(lexicons), len(target.push))
-                        if state in circular:
-                            if pos == len(text):
-                                return  # would go on forever
-                            if target.push or not target.pop:
-                                pos += 1
-                            circular.clear()
-                        else:
-                            circular.add(state)
                         lexicons.extend(target.push)
+                        if target.push or not target.pop:
+                            # came here before without moving forward?
+                            state = (pos, *map(id, lexicons))
+                            if state in circular:
+                                if pos == len(text):
+                                    return  # would go on forever
+                                pos += 1
+                                circular.clear()
+                            else:
+                                circular.add(state)
                         add_target(target)
                     break   # continue with new lexicon
                 elif txt:
-- 
2.43.0


From ffaa2005eff2079a28ca430d0041577eb221da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:15 +0000
Subject: [PATCH 21/83] fix: patterns ending in a comment in a lexicon with
 re.VERBOSE

---
 parce/lexicon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/lexicon.py b/parce/lexicon.py
index 48981c3..bf527e9 100644
--- a/parce/lexicon.py
+++ b/parce/lexicon.py
@@ -366,8 +366,10 @@ class Lexicon:
                             pos = i + l
                 return parse
 
-        # compile the regexp for all patterns
-        rx = re.compile("|".join("(?P<g_{0}>{1})".format(i, pattern)
+        # compile the regexp for all patterns; a newline ends a possible comment
+        # at the end of a verbose pattern
+        template = "(?P<g_{0}>{1}\n)" if self.re_flags & re.VERBOSE else "(?P<g_{0}>{1})"
+        rx = re.compile("|".join(template.format(i, pattern)
             for i, pattern in enumerate(patterns)), self.re_flags)
         # make a fast mapping list from matchObj.lastindex to the rules.
         # rules that contain Item instances are put in the dynamic index
-- 
2.43.0


From 0a5c39e096c75a5b76ecdbd6c065f70c9e6f9a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:47 +0000
Subject: [PATCH 22/83] fix: transform_text() with contexts that have no
 transform method

---
 parce/transform.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..6e48060 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,9 +214,11 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
+            The lexemes are the ones for the last of the lexicons.
+
             Returns the tree and the next event (if any), with adapted pop
             value.
 
@@ -225,11 +227,12 @@ class Transformer(util.Observable):
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
@@ -280,7 +283,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
@@ -288,7 +291,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From c2809af5fb42884d8749a12edb6b3858ef786b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 23/83] fix: invalidating a node that has no cached transform
 result

---
 parce/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/transform.py b/parce/transform.py
index 6e48060..38d2f9c 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -401,7 +401,7 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From 9ea466ec16253a233e88d13ecd33b79871a49fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:16 +0000
Subject: [PATCH 24/83] fix: races between worker processes that overlap

When a new process started while an older one was still transforming or
announcing its results, the older process could announce the state as ready
while the new one was busy, transform a tree that was being changed, and the
interrupt flags could clash (KeyError). Also a transformer that was set again
after being removed could use cached results for a tree that had changed
meanwhile.
---
 parce/transform.py |  35 +++++++++---
 parce/work.py      | 135 +++++++++++++++++++++++++++++----------------
 2 files changed, 116 insertions(+), 54 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 38d2f9c..73754d0 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -30,6 +30,7 @@ See also the documentation: :doc:`transforming`.
 """
 
 import collections
+import threading
 import weakref
 
 from . import util
@@ -193,7 +194,8 @@ class Transformer(util.Observable):
         super().__init__()
         self._transforms = util.caching_dict(self.find_transform)
         self._cache = weakref.WeakKeyDictionary()
-        self._interrupt = weakref.WeakKeyDictionary()
+        self._running = weakref.WeakKeyDictionary() # identifies the active run for a tree
+        self._lock = threading.Lock()
 
     def transform_text(self, root_lexicon, text, pos=0):
         """Directly create an evaluated object from text using root_lexicon.
@@ -303,7 +305,7 @@ class Transformer(util.Observable):
 
     def transform_tree(self, tree):
         """Evaluate a tree structure."""
-        self._interrupt[tree] = False
+        run = self._running[tree] = object()
 
         if not tree.lexicon:
             return  # a root lexicon can be None, but then there are no children
@@ -315,7 +317,7 @@ class Transformer(util.Observable):
             add_untransformed = _allow_untransformed(root_meth)
             stack = []
             node, items, i = tree, ItemList(tree.lexicon.arg), 0
-            while not self._interrupt[tree]:
+            while self._running.get(tree) is run:
                 for i in range(i, len(node)):
                     n = node[i]
                     if n.is_token:
@@ -371,17 +373,23 @@ class Transformer(util.Observable):
         self.emit("started", tree)
         yield "build"
         result = self.transform_tree(tree)
+        run = self._running.get(tree)   # None if interrupted
         yield "replace"
-        if not self._interrupt[tree]:
-            self._cache[tree] = result
+        with self._lock:
+            # we could be interrupted meanwhile
+            updated = run and self._running.get(tree) is run
+            if updated:
+                self._cache[tree] = result
+                del self._running[tree]
+        if updated:
             self.emit("updated", tree, result)
-        del self._interrupt[tree]
         yield "done"
         self.emit("finished", tree)
 
     def interrupt(self, tree):
         """Tell the Transformer to stop transforming the specified tree."""
-        self._interrupt[tree] = True
+        with self._lock:
+            self._running.pop(tree, None)
 
     def result(self, tree):
         """Get the result of the transformed tree.
@@ -404,6 +412,19 @@ class Transformer(util.Observable):
             self._cache.pop(node, None)
             node = node.parent
 
+    def invalidate_tree(self, tree):
+        """Remove the transform results for all nodes of the tree from our cache.
+
+        Does not throw away the result for the root context. This is needed
+        when the tree was changed without calling :meth:`invalidate_node`.
+
+        """
+        nodes = [n for n in tree if n.is_context]
+        while nodes:
+            node = nodes.pop()
+            self._cache.pop(node, None)
+            nodes.extend(n for n in node if n.is_context)
+
     def connect_treebuilder(self, builder):
         """Connect to the events of the TreeBuilder.
 
diff --git a/parce/work.py b/parce/work.py
index cb2be97..fed4341 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -96,9 +96,13 @@ class Worker(util.Observable):
         self._transformer = transformer
 
         self._condition = threading.Condition()
-        self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
+        self._tree_lock = threading.Lock()  # held when changing or transforming the tree
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._process = None                # identifies the process last started
+        self._active_transformer = None     # the transformer that last visited the tree
+        self._tree_ready = object()         # event for the get_root() callbacks
+        self._transform_ready = object()    # event for the get_transform() callbacks
 
         treebuilder.connect("invalidate", self.slot_invalidate)
         treebuilder.connect("replace", self.slot_replace)
@@ -118,11 +122,13 @@ class Worker(util.Observable):
 
         """
         if transformer is not self._transformer:
-            with self._transform_lock:
+            with self._condition:
                 self._transformer = transformer
-                with self._condition:
-                    start = self._transform_state & REPLACE == 0
-            if start:
+                if transformer:
+                    self._transform_state = BUILD
+            # a process that is still building the tree will use the new transformer
+            if not self._builder.busy:
+                self._builder.busy = True
                 self.start()
 
     def transformer(self):
@@ -151,9 +157,9 @@ class Worker(util.Observable):
 
         """
         with self._condition:
+            self._process = object()
             self._tree_state = BUILD
-            if self._transformer and self._transform_state == IDLE:
-                self._transform_state = BUILD
+            self._transform_state = BUILD if self._transformer else IDLE
         self.run_process()
 
     def run_process(self):
@@ -170,48 +176,83 @@ class Worker(util.Observable):
             pass
 
     def process(self):
-        """Generator performing the actual process, exhausted by :meth:`run_process`."""
+        """Generator performing the actual process, exhausted by :meth:`run_process`.
+
+        When a new process is started while this one has finished building the
+        tree but is still busy otherwise, only the new process may change the
+        state and transform the tree.
+
+        """
         c = self._condition
+        lock = self._tree_lock
+        locked = False
+        process = self._process
 
         try:
             ## run the treebuilder
+            callbacks = None
             self.start_build()
             for stage in self._builder.process():
+                if locked:
+                    lock.release()
+                    locked = False
                 yield "tree_" + stage
-                state = _STATES.get(stage)
-                if state:
-                    with c:
-                        self._tree_state = state
+                if stage == "replace":
+                    # an older process could still be transforming the tree
+                    self.slot_replace()
+                    lock.acquire()
+                    locked = True
+                with c:
+                    if process is self._process:
+                        self._tree_state = _STATES[stage]
+                        if stage == "done":
+                            callbacks, self._tree_ready = self._tree_ready, object()
             self.finish_build()
+            if callbacks:
+                self.emit(callbacks)
             with c:
-                self._tree_state = IDLE
-                c.notify_all()
+                if process is self._process:
+                    self._tree_state = IDLE
+                    c.notify_all()
+                    t = self._transformer
+                else:
+                    t = None
 
             ## run the transformer
-            self._transform_lock.acquire()
-            t, old = self._transformer, None
             if t:
-                while t and t is not old:
-                    self._transform_lock.release()
-                    for stage in t.process(self._builder.root):
-                        yield "transform_" + stage
-                        state = _STATES.get(stage)
-                        if state is not None:
-                            with c:
-                                self._transform_state = state
-                    self._transform_lock.acquire()
-                    # if the transformer was replaced while running, start again
-                    t, old = self._transformer, t
-                self._transform_lock.release()
-                self.finish_transform()
-            else:
-                self._transform_lock.release()
+                for stage in t.process(self._builder.root):
+                    if locked:
+                        lock.release()
+                        locked = False
+                    yield "transform_" + stage
+                    if stage == "build":
+                        lock.acquire()
+                        locked = True
+                        if process is not self._process:
+                            break
+                        if t is not self._active_transformer:
+                            # t missed earlier changes to the tree
+                            t.invalidate_tree(self._builder.root)
+                            self._active_transformer = t
+                    with c:
+                        if process is self._process:
+                            self._transform_state = _STATES[stage]
+                callbacks = None
+                with c:
+                    if process is self._process:
+                        callbacks, self._transform_ready = self._transform_ready, object()
+                if callbacks:
+                    self.finish_transform()
+                    self.emit(callbacks)
 
         finally:
+            if locked:
+                lock.release()
             with c:
-                self._tree_state = IDLE
-                self._transform_state = IDLE
-                c.notify_all()
+                if process is self._process:
+                    self._tree_state = IDLE
+                    self._transform_state = IDLE
+                    c.notify_all()
 
     def wait_build(self):
         """Wait for the build job to be completed.
@@ -256,7 +297,7 @@ class Worker(util.Observable):
         with self._condition:
             if self._tree_state & REPLACE:
                 if callback:
-                    self.connect("tree_finished", callback, True, True)
+                    self.connect(self._tree_ready, callback, True, True)
                 if not wait:
                     return
                 self.wait_build()
@@ -276,14 +317,14 @@ class Worker(util.Observable):
         If no Transformer was set, None is returned always.
 
         """
-        if self._transformer:
-            with self._condition:
-                if self._transform_state & REPLACE:
-                    if callback:
-                        self.connect("transform_finished", callback, True, True)
-                    if not wait:
-                        return
-                    self.wait_transform()
+        with self._condition:
+            if self._transformer and self._transform_state & REPLACE:
+                if callback:
+                    self.connect(self._transform_ready, callback, True, True)
+                if not wait:
+                    return
+                self.wait_transform()
+            if self._transformer:
                 return self._transformer.result(self._builder.root)
 
     def slot_invalidate(self, context):
@@ -292,8 +333,8 @@ class Worker(util.Observable):
         Clears the node and its parents from the transform cache.
 
         """
-        if self._transformer:
-            self._transformer.invalidate_node(context)
+        if self._active_transformer:
+            self._active_transformer.invalidate_node(context)
 
     def slot_replace(self):
         """Called when TreeBuilder emits ``"replace"``.
@@ -301,8 +342,8 @@ class Worker(util.Observable):
         Interrupts the transformer.
 
         """
-        if self._transformer:
-            self._transformer.interrupt(self._builder.root)
+        if self._active_transformer:
+            self._active_transformer.interrupt(self._builder.root)
 
     def start_build(self):
         """Called when the build process starts.
-- 
2.43.0


From 840d4a02970679b8d7ede074826d9508f731c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:15 +0000
Subject: [PATCH 25/83] fix: object_locker() removed a lock that other threads
 were waiting for

Then a third request got a new lock, and two threads could be in the locked
section, e.g. creating two derived Lexicons for the same argument.
---
 parce/util.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index b6f76f6..4b7a4fc 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -509,20 +509,19 @@ def object_locker():
     locker = {}
     locker_lock = threading.Lock()
 
+    @contextlib.contextmanager
     def lock_object(obj):
         with locker_lock:
-            try:
-                return locker[obj]
-            except KeyError:
-                lock = locker[obj] = threading.Lock()
-                @contextlib.contextmanager
-                def cleanup():
-                    try:
-                        with lock:
-                            yield
-                    finally:
-                        del locker[obj]
-                return cleanup()
+            entry = locker.setdefault(obj, [threading.Lock(), 0])
+            entry[1] += 1   # the number of threads using the lock
+        try:
+            with entry[0]:
+                yield
+        finally:
+            with locker_lock:
+                entry[1] -= 1
+                if not entry[1]:
+                    del locker[obj]
     return lock_object
 
 
-- 
2.43.0


From 57e6602baad59fbc201e211da9c304d832188356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:15 +0000
Subject: [PATCH 26/83] fix: a new StandardAction was visible to other threads
 before it had a name

---
 parce/standardaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/standardaction.py b/parce/standardaction.py
index a9ee5d6..60e4257 100644
--- a/parce/standardaction.py
+++ b/parce/standardaction.py
@@ -109,9 +109,10 @@ class StandardAction:
             try:
                 return d[name]
             except KeyError:
-                new = d[name] = object.__new__(cls)
+                new = object.__new__(cls)
                 new._name = name
                 new._parent = parent
+                d[name] = new   # only now other threads can see it
                 return new
 
     def __getattr__(self, name):
-- 
2.43.0


From 3fd536c34b816d0da857d70ff78bf98c2cbc47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:30 +0000
Subject: [PATCH 27/83] fix: file_cache() with a modification time of -1

---
 parce/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 4b7a4fc..a903260 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -631,14 +631,14 @@ def file_cache(func):
                 try:
                     mtime, value = super().__getitem__(key)
                 except KeyError:
-                    mtime = -1
+                    mtime = None
                 try:
                     new_mtime = os.path.getmtime(key)
                 except OSError:
-                    new_mtime = -2
-                if mtime != new_mtime:
+                    new_mtime = None
+                if new_mtime is None or mtime != new_mtime:
                     value = func(key)
-                    if new_mtime >= 0:
+                    if new_mtime is not None:
                         self[key] = new_mtime, value
                 return value
     return filecache()
-- 
2.43.0


From 45a421b2bdf63ed0f77e601f3bd885b16df2f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:45 +0000
Subject: [PATCH 28/83] fix: format_ranges() of a part of the tree with more
 than one theme

The index in the sliced part of a context was used in the whole context, so
tokens were formatted twice or outside the requested range.
---
 parce/formatter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..4803282 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -202,16 +202,15 @@ class AbstractFormatter:
 
                 for context, slice_ in r.slices():
                     check_lang(context.lexicon.language)
-                    n = context[slice_]
+                    n = context
                     stack = []
-                    i = 0
+                    i, stop, _ = slice_.indices(len(n))
                     while True:
-                        for i in range(i, len(n)):
+                        for i in range(i, stop):
                             m = n[i]
                             if m.is_context:
-                                stack.append(i)
-                                i = 0
-                                n = m
+                                stack.append((i + 1, stop))
+                                n, i, stop = m, 0, len(m)
                                 check_lang(n.lexicon.language)
                                 break
                             yield m
@@ -219,7 +218,7 @@ class AbstractFormatter:
                             if stack:
                                 n = n.parent
                                 check_lang(n.lexicon.language)
-                                i = stack.pop() + 1
+                                i, stop = stack.pop()
                             else:
                                 break
 
-- 
2.43.0


From 840b1e1c6389b821e31fc1dbebd8fc6170bdfa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:17 +0000
Subject: [PATCH 29/83] fix: a declared encoding that is no text encoding could
 not be loaded or saved

---
 parce/docio.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index ef74c6e..0155222 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -39,7 +39,6 @@ see if an encoding is defined there, and use that for I/O operations.
 
 """
 
-import codecs
 import collections
 import io
 import os
@@ -335,8 +334,8 @@ def _validate_encoding(encoding):
     """
     if encoding:
         try:
-            codecs.lookup(encoding)
+            io.TextIOWrapper(io.BytesIO(), encoding)
             return encoding
-        except LookupError:
+        except (LookupError, ValueError):
             pass
 
-- 
2.43.0


From a8eb7c9668f4baff87b17c2ac89847178ce21b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:17 +0000
Subject: [PATCH 30/83] fix: find the same encoding in a text when loading and
 saving, also with coding:

---
 parce/docio.py     | 2 +-
 parce/lang/css.py  | 2 +-
 parce/lang/html.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/docio.py b/parce/docio.py
index 0155222..4a54d9d 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -198,7 +198,7 @@ class IO:
         (en)coding: xxxx variants. Returns None if no encoding is found.
 
         """
-        m = re.search(r'\b(?:en)coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text)
+        m = re.search(r'\b(?:en)?coding[\t ]*?(?::[ \t]*?|=[\t ]*?")([\w_-]+)', text, re.ASCII)
         if m:
             return m.group(1)
 
diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..c9454f7 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -317,7 +317,7 @@ class CssIO(docio.IO):
 
     def find_encoding(self, text):
         """Find encoding in Css."""
-        m = re.search(r'@charset\s*"([\w_-]+)"', text)
+        m = re.search(r'@charset\s*"([\w_-]+)"', text, re.ASCII)
         if m:
             return m.group(1)
 
diff --git a/parce/lang/html.py b/parce/lang/html.py
index 7e1e94c..b357c0e 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -121,7 +121,7 @@ class XHtmlIO(XmlIO):
                 elif a == "http-equiv" and v.lower().strip() == "content-type":
                     http_equiv = True
                 elif a == "content":
-                    m = re.search(r'\bcharset\s*?=\s*?([\w_-]+)', v, re.IGNORECASE)
+                    m = re.search(r'\bcharset\s*?=\s*?([\w_-]+)', v, re.IGNORECASE | re.ASCII)
                     if m:
                         enc = m.group(1)
             if http_equiv and enc:
-- 
2.43.0


From 133d2dfd566d708e7eb5b37601c06f1195dce6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:17 +0000
Subject: [PATCH 31/83] fix: recognize the byte order mark of UTF-32-LE

---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index a903260..3270c05 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -737,10 +737,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
+        (codecs.BOM_UTF32_LE, 'utf_32_le'),     # before UTF16_LE, it starts the same
+        (codecs.BOM_UTF32_BE, 'utf_32_be'),
         (codecs.BOM_UTF16_LE, 'utf_16_le'),
         (codecs.BOM_UTF16_BE, 'utf_16_be'),
-        (codecs.BOM_UTF32_LE, 'utf_32_le'),
-        (codecs.BOM_UTF32_BE, 'utf_32_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From c3aff930214bd7ad299fc1aa15171ee81c884164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:17 +0000
Subject: [PATCH 32/83] fix: a document read with a UTF-16 or UTF-32 byte order
 mark was saved without it

---
 parce/docio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parce/docio.py b/parce/docio.py
index 4a54d9d..ceddaaa 100644
--- a/parce/docio.py
+++ b/parce/docio.py
@@ -301,6 +301,11 @@ def decode_data(
     # or determined via the BOM.
     if not encoding:
         encoding = doc_enc or read_enc
+        if read_enc and encoding:
+            # an encoding that needs the BOM must also write it again
+            m = re.fullmatch(r'(utf[-_]?(?:16|32))[-_]?[bl]e', encoding, re.IGNORECASE)
+            if m:
+                encoding = m.group(1)
 
     # now let Python decode the text
     text = io.TextIOWrapper(io.BytesIO(data), actual_read_enc, errors, newline).read()
-- 
2.43.0


From 0e5d4e00027f2350c282a171327a715505fa01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:28 +0000
Subject: [PATCH 33/83] fix: quoted strings in style sheets

---
 parce/css.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..faa606e 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1198,11 +1198,12 @@ class CssTransform(Transform):
         Called by :meth:`sqstring` and :meth:`dqstring`.
 
         """
-        for i in items.tokens():
-            if i.action is String:
-                yield i.text
-            elif i.action is a.String.Escape:
-                yield self.get_escape(i.text)
+        for i in items:
+            if i.is_token:
+                if i.action is a.String:
+                    yield i.text
+                elif i.action is a.String.Escape:
+                    yield self.get_escape(i.text)
 
     def get_ident_token(self, items):
         """Return a two-tuple(name, action).
-- 
2.43.0


From 21ff02e137b37c96cafd81db6fdc2d5f255f540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:28 +0000
Subject: [PATCH 34/83] fix: escapes in style sheets that do not denote a valid
 character

---
 parce/css.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index faa606e..ad4afbb 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1186,10 +1186,11 @@ class CssTransform(Transform):
         value = text[1:]
         if value == '\n':
             return ''
-        try:
-            codepoint = int(value, 16)
-        except ValueError:
+        if not re.match(r'[0-9A-Fa-f]', value):
             return value
+        codepoint = int(value, 16)
+        if codepoint == 0 or 0xd800 <= codepoint <= 0xdfff or codepoint > 0x10ffff:
+            return '\ufffd'
         return chr(codepoint)
 
     def get_string(self, items):
-- 
2.43.0


From a03030bda2a72a6250a75a7b0167ba20907d20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:28 +0000
Subject: [PATCH 35/83] fix: rules after a nested @-rule like @media were lost

---
 parce/lang/css.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index c9454f7..f26fdf5 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -211,6 +211,7 @@ class Css(Language):
     def atrule_nested(cls):
         """An atrule that has nested toplevel contents (@media, etc.)"""
         yield r"\{", Bracket, cls.atrule_nested_block
+        yield r";", Delimiter, -2 # immediately leave the atrule context
         yield from cls.atrule_common()
 
     @lexicon
@@ -228,7 +229,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule context
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From dc8622a5eebc13c1cd06b78f6d5df31e613edf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:28 +0000
Subject: [PATCH 36/83] fix: rgb() and rgba() colors with zero, fractional or
 percentage values

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index ad4afbb..f3ddab4 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1280,13 +1280,13 @@ class CssTransform(Transform):
 
     def get_rgba_color(self, func_args):
         """Convert the arguments to a rgba(1 2 3 4) call to a Color."""
-        values = (v for v in func_args if isinstance(v, Value) and v.number)
+        values = (v for v in func_args if isinstance(v, Value) and v.number is not None)
         r = next(values, -1)
-        if r != -1: r = self.get_number_value(r, 255)
+        if r != -1: r = int(self.get_number_value(r, 255))
         g = next(values, -1)
-        if g != -1: g = self.get_number_value(g, 255)
+        if g != -1: g = int(self.get_number_value(g, 255))
         b = next(values, -1)
-        if b != -1: b = self.get_number_value(b, 255)
+        if b != -1: b = int(self.get_number_value(b, 255))
         a = next(values, 1.0)
         if a != 1.0: a = self.get_number_value(a, 1.0)
         return Color(r, g, b, a)
@@ -1301,7 +1301,7 @@ class CssTransform(Transform):
         """
         n = value.number
         if value.unit == "%":
-            n = n * maximum // 100
+            n = n * maximum / 100
         if n < 0: n = 0
         if n > maximum: n = maximum
         return n
-- 
2.43.0


From ca41fafd8ef0f2843140d62e7439f53c373e354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:08 +0000
Subject: [PATCH 37/83] fix: the cascade of !important, empty and shorthand
 properties

---
 parce/css.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index f3ddab4..13028c6 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -395,20 +395,20 @@ class Style:
         is a list of Value instances.
 
         """
-        result = {}
-        important_properties = set()
-        for rule in self.rules:
+        normal, important = {}, {}
+        # the most specific rule is the first one; the properties are returned
+        # in order of precedence, so that shorthand properties can be handled.
+        for rule in reversed(self.rules):
             for key, value in rule.properties.items():
-                important = False
-                if value[-1] == '!important':
+                result = normal
+                if value and value[-1] == '!important':
                     value = value[:-1]
-                    important = True
-                if key not in result:
-                    result[key] = value
-                elif important and key not in important_properties:
-                    result[key] = value
-                    important_properties.add(key)
-        return result
+                    result = important
+                result.pop(key, None)
+                result[key] = value
+        for key in important:
+            normal.pop(key, None)
+        return {**normal, **important}
 
 
 class Atrules:
@@ -934,7 +934,13 @@ class CssTransform(Transform):
         for name, obj in items.items():
             if obj and name == "declaration":
                 prop, values = obj
-                d[prop] = values
+                important = values[-1:] == ['!important']
+                # ignore a declaration without a value, or a normal one after
+                # an important one
+                if len(values) > important and (important
+                        or d.get(prop, ())[-1:] != ['!important']):
+                    d.pop(prop, None)
+                    d[prop] = values
         return d
 
     def declaration(self, items):
-- 
2.43.0


From a40259b72b82fc11c0110deb77ef245e08c6aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:08 +0000
Subject: [PATCH 38/83] fix: consider all ancestors and siblings when matching
 a selector

---
 parce/css.py | 61 ++++++++++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 13028c6..73e7512 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -562,46 +562,31 @@ class AbstractElement:
 
     def match_selectors(self, selectors):
         """Match with a list of selectors with operators in between."""
-        selectors = iter(reversed(selectors))
-        sel = next(selectors, None)
-        if not sel or not self.match_selector(sel):
+        if not selectors or not self.match_selector(selectors[-1]):
             return False
-        element = self
-        operator = next(selectors, None)
-        sel = next(selectors, None)
-        while operator and sel:
-            if operator == ">":
-                # parent should match
+        if len(selectors) < 3:
+            return True
+        *selectors, operator, sel = selectors
+        if operator == ">":
+            # parent should match
+            element = self.get_parent()
+            return element is not None and element.match_selectors(selectors)
+        elif operator == " ":
+            # an ancestor should match
+            element = self.get_parent()
+            while element is not None:
+                if element.match_selectors(selectors):
+                    return True
                 element = element.get_parent()
-                if element is None or not element.match_selector(sel):
-                    return False
-            elif operator == " ":
-                # an ancestor should match
-                element = element.get_parent()
-                while element is not None:
-                    if element.match_selector(sel):
-                        break
-                    element = element.get_parent()
-                else:
-                    return False
-            elif operator == "+":
-                # immediate sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                    return False
-                else:
-                    return False
-            else: # operator == "~":
-                # a sibling should match
-                for element in element.previous_siblings():
-                    if element.match_selector(sel):
-                        break
-                else:
-                    return False
-            operator = next(selectors, None)
-            sel = next(selectors, None)
-        return True
+        elif operator == "+":
+            # immediate sibling should match
+            for element in self.previous_siblings():
+                return element.match_selectors(selectors)
+        elif operator == "~":
+            # a sibling should match
+            return any(element.match_selectors(selectors)
+                for element in self.previous_siblings())
+        return False
 
     def match_selector(self, selector):
         """Match with a single CSS selector dictionary.
-- 
2.43.0


From fe50980d19e07ce4745fcec80ac0bfcd085e8d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:08 +0000
Subject: [PATCH 39/83] fix: match attribute selectors with an empty value

---
 parce/css.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 73e7512..f3baeb2 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -611,7 +611,7 @@ class AbstractElement:
                 value = attributes[attrname]
             except KeyError:
                 return False
-            if operator and text:
+            if operator and text is not None:
                 if flag in ('i', 'I'):
                     text = text.lower()
                     value = value.lower()
@@ -625,13 +625,13 @@ class AbstractElement:
                     if text != value and not value.startswith(text + "-"):
                         return False
                 elif operator == "^=":
-                    if not value.startswith(text):
+                    if not text or not value.startswith(text):
                         return False
                 elif operator == "$=":
-                    if not value.endswith(text):
+                    if not text or not value.endswith(text):
                         return False
                 elif operator == "*=":
-                    if text not in value:
+                    if not text or text not in value:
                         return False
 
         # pseudo_class?
@@ -984,7 +984,7 @@ class CssTransform(Transform):
             elif i.name == 'attribute':
                 attr = i.obj
             elif i.name == 'ident_token':
-                if val:
+                if val is not None:
                     flag = i.obj
                 else:
                     val = i.obj
-- 
2.43.0


From 5fae8096663b416f4b3d3d3adc8c688f929f88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:08 +0000
Subject: [PATCH 40/83] fix: the specificity of a rule with more than one
 selector, or none at all

---
 parce/css.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index f3baeb2..6a13fc1 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -338,7 +338,9 @@ class StyleSheet:
                 if isinstance(r, Condition):
                     yield from get_rules(r.style.rules)
                 elif isinstance(r, Rule):
-                    yield r
+                    # every selector has its own specificity
+                    for selectors in r.prelude or ():
+                        yield Rule([selectors], r.properties)
         rules = sorted(get_rules(self.rules),
             key=lambda rule: calculate_specificity(rule.prelude))
         rules.reverse()
-- 
2.43.0


From 360a65cf3ae8adc71613c5f84f36e65e086343cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:08 +0000
Subject: [PATCH 41/83] fix: select_lxml_element() and
 AbstractElement.get_child_count()

---
 parce/css.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 6a13fc1..3336ac1 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -385,7 +385,6 @@ class Style:
             if element.match(rule.prelude):
                 yield rule
 
-    @style_query
     def select_lxml_element(self, element):
         """Select the rules that match with lxml.etree.Element."""
         return self.select_element(LxmlElement(element))
@@ -487,7 +486,7 @@ class AbstractElement:
         """Implement to yield our children."""
         yield from ()
 
-    def get_child_count():
+    def get_child_count(self):
         """Implement to return the number of children."""
         return 0
 
@@ -733,7 +732,9 @@ class LxmlElement(AbstractElement):
 
     def get_parent(self):
         """Return the parent Element or None."""
-        return type(self)(self.e.getparent())
+        parent = self.e.getparent()
+        if parent is not None:
+            return type(self)(parent)
 
     def get_attributes(self):
         """Return a dictionary of attributes, keys and values are str."""
-- 
2.43.0


From b028176e4fb6716d49bef27d8a649b30d197c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:34 +0000
Subject: [PATCH 42/83] fix: @import rules in style sheets

---
 parce/css.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3336ac1..7126485 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -222,9 +222,9 @@ class StyleSheet:
         ``allow_import`` is False, the @import atrule is ignored.
 
         """
-        filenames = {filename}
+        filenames = {os.path.normpath(filename)}
 
-        def get_import_rules(values):
+        def get_import_rules(values, filename, imported):
             """Yield rules from an @import at-rule.
 
             If the @import rule has a media query after the filename/url,
@@ -232,9 +232,9 @@ class StyleSheet:
 
             """
             for n, v in enumerate(values):
-                if isinstance(v, Value) and v.text or v.url:
+                if isinstance(v, Value) and (v.text or v.url):
                     fname = v.text or v.url
-                    fname = os.path.join(os.path.dirname(filename), fname)
+                    fname = os.path.normpath(os.path.join(os.path.dirname(filename), fname))
                     # avoid circular @import references
                     if fname not in filenames:
                         filenames.add(fname)
@@ -242,14 +242,13 @@ class StyleSheet:
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls.from_css(icss, fname, path, allow_import)
-                            yield Condition("import", values, s)
+                            yield Condition("import", values, get_sheet(icss, fname))
                         else:
-                            self._imported_filenames.append(fname)
-                            yield from get_rules(icss)
+                            imported.append(fname)
+                            yield from get_rules(icss, fname, imported)
                     return
 
-        def get_rules(css):
+        def get_rules(css, filename, imported):
             """Get all CSS rules from the CSS structure, either as Rule or
             as Condition.
 
@@ -264,7 +263,7 @@ class StyleSheet:
                     # @-rule
                     if rule.keyword == "import":
                         if allow_import:
-                            rules.extend(get_import_rules(rule.contents))
+                            rules.extend(get_import_rules(rule.contents, filename, imported))
                         continue
                     elif isinstance(rule.block, list):
                         # nested @-rule
@@ -272,7 +271,14 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        def get_sheet(css, filename):
+            """Return the StyleSheet with all rules and imported filenames."""
+            imported = []
+            sheet = cls(get_rules(css, filename, imported), filename)
+            sheet._imported_filenames = imported
+            return sheet
+
+        return get_sheet(css, filename)
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From 5b7f57c1a9844cdbb9095f50c8070c2f253db4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:34 +0000
Subject: [PATCH 43/83] fix: themes with commas in or without a value for font
 and other properties

---
 parce/theme.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parce/theme.py b/parce/theme.py
index 443a077..39899c4 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -257,7 +257,8 @@ class TextFormat:
 
     def __init__(self, properties):
         for prop, values in properties.items():
-            self._dispatch(prop, values)
+            # leave out delimiters such as commas
+            self._dispatch(prop, [v for v in values if isinstance(v, css.Value)])
 
     def __bool__(self):
         """Return True if at least one property is set."""
@@ -461,8 +462,7 @@ class TextFormat:
 
     @_dispatch("font-style")
     def read_font_style(self, values):
-        v = values[0]
-        for n in values[1:] + [None]:
+        for v, n in zip(values, values[1:] + [None]):
             if v.text in ("normal", "italic"):
                 self.font_style = v.text
                 return
@@ -472,7 +472,6 @@ class TextFormat:
                     self.font_style_angle = n.number
                     self.font_style_angle_unit = n.unit
                     return
-            v = n
 
     @_dispatch("font-variant-caps")
     def read_font_variant_caps(self, values):
-- 
2.43.0


From c729c591e6ca8ea3f31d56446df8dbf8416f1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 44/83] fix: CSS numbers with an exponent without sign

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index f26fdf5..6e2288b 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -46,7 +46,7 @@ RE_CSS_ESCAPE = r"\\(?:[0-9A-Fa-f]{1,6} ?|.)"
 RE_CSS_NUMBER = (
     r"[+-]?"               # sign
     r"(?:\d*\.)?\d+"       # mantisse
-    r"(?:[Ee][+-]\d+)?")   # exponent
+    r"(?:[Ee][+-]?\d+)?")  # exponent
 # match either 8, 6, 4 or 3 hex digits
 RE_HEX_COLOR = r"#[0-9a-fA-F]{3}(?:[0-9a-fA-F]{5}|[0-9a-fA-F]{3}|[0-9a-fA-F]?)"
 
-- 
2.43.0


From d4393f4c8ec84177398fb5928b316f27301e0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:21 +0000
Subject: [PATCH 45/83] fix: transparent is a color in style sheets

---
 parce/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/css.py b/parce/css.py
index 7126485..dfbf0a8 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1218,7 +1218,7 @@ class CssTransform(Transform):
                 if i.action is a.Escape:
                     yield self.get_escape(i.text)
                 elif i.action not in a.Delimiter:
-                    if i.action in a.Name:
+                    if i.action in a.Name or i.action is a.Literal.Color:
                         actions.append(i.action)
                     yield i.text
         name = ''.join(gen())
-- 
2.43.0


From 6b4e4f97cfbf058d123433533c12f6bf87efe188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:21 +0000
Subject: [PATCH 46/83] fix: write the unit of a font-stretch percentage

---
 parce/theme.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 39899c4..39bbf5e 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -347,7 +347,8 @@ class TextFormat:
         elif self.font_style:
             yield "font-style", self.font_style
         if self.font_stretch:
-            yield "font-stretch", format(self.font_stretch)
+            yield "font-stretch", self.font_stretch if isinstance(self.font_stretch, str) \
+                else "{}%".format(self.font_stretch)
         if self.font_kerning:
             yield "font-kerning", self.font_kerning
         if self.font_variant_caps:
-- 
2.43.0


From acb94b0d9007e97398f496974d9686328e3a27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:08 +0000
Subject: [PATCH 47/83] fix: whitespace around the contents of url() in style
 sheets

---
 parce/lang/css.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 6e2288b..705d06b 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -270,6 +270,7 @@ class Css(Language):
         yield r"'", String, cls.sqstring
         yield r"/\*", Comment, cls.comment
         yield RE_CSS_ESCAPE, Escape
+        yield r"\s+", skip  # whitespace is not part of the url
         yield default_action, Literal.Url
 
     @lexicon
-- 
2.43.0


From c6c4bef075ff0f64f87e62aea16497c67ab72160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:54 +0000
Subject: [PATCH 48/83] fix: the indent of lines that consist of whitespace
 only

---
 parce/indent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index c10dbe5..8516f6b 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -302,9 +302,9 @@ class AbstractIndenter:
         if info.indent is None:
             if info.allow_indent:
                 text = block.text()
-                info.indent = text[:-len(text.lstrip())]
+                info.indent = text[:len(text)-len(text.lstrip())]
             else:
-                info.indent == ""
+                info.indent = ""
         return info
 
     def indent_events(self, block, prev_indents=()):
-- 
2.43.0


From b08edc0580b5b0181e260b5219bf26efad096ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:54 +0000
Subject: [PATCH 49/83] fix: auto_indent() after lines that open or close more
 than one level, and blank lines

---
 parce/indent.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/parce/indent.py b/parce/indent.py
index 8516f6b..c7411f5 100644
--- a/parce/indent.py
+++ b/parce/indent.py
@@ -179,7 +179,7 @@ class AbstractIndenter:
                     if block.pos < cursor.pos:
                         # we're outside the cursor's range
                         # obey the existing indent if not a special case
-                        if info.prefer_indent is None:
+                        if info.prefer_indent is None and not info.is_blank:
                             indents[-1] = info.indent
                     else:
                         # we're inside the cursor's range; may replace the indent
@@ -210,22 +210,23 @@ class AbstractIndenter:
             else:
                 # search backwards
                 depth = info.dedents_start
+                indents = ""
                 while not b.is_first():
                     b = b.previous_block()
                     info = self.indent_info(b)
-                    if info.allow_indent:
-                        if 0 <= depth < len(info.indents):
-                            # we found the indent to use
-                            index = len(info.indents) - depth - 1
-                            new_indent = info.indent + (info.indents[index] or self.indent_string)
-                            break
-                        depth -= len(info.indents)
-                        depth += info.dedents_end
-                        if depth == 0:
-                            # same indent as this line
-                            new_indent = info.indent
-                            break
-                        depth += info.dedents_start
+                    # indents of this line that are still open
+                    count = max(0, len(info.indents) - depth)
+                    indents = "".join(i or self.indent_string for i in info.indents[:count]) + indents
+                    depth -= len(info.indents) - count
+                    depth += info.dedents_end
+                    if depth == 0 and info.allow_indent and info.prefer_indent is None and not info.is_blank:
+                        # we found the line to indent relative to
+                        new_indent = info.indent + indents
+                        break
+                    depth += info.dedents_start
+                else:
+                    if depth == 0 and not block.is_first():
+                        new_indent = indents
             if new_indent != current_indent:
                 with cursor.document() as d:
                     d[block.pos:block.pos + len(current_indent)] = new_indent
-- 
2.43.0


From be8b6921c605bf54bdafc80f0510a006eb1f1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 50/83] fix: keep large integers exact in JsonTransform

---
 parce/lang/json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index f916310..d9b2cd3 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -110,9 +110,12 @@ class JsonTransform(Transform):
         for i in items:
             if i.is_token:
                 if i.action is Number:
-                    n = float(i.text)
-                    if n.is_integer():
-                        n = int(n)
+                    try:
+                        n = int(i.text)
+                    except ValueError:
+                        n = float(i.text)
+                        if n.is_integer():
+                            n = int(n)
                     yield n
                 elif i.action is Name.Constant:
                     yield JSON_CONSTANTS[i.text]
-- 
2.43.0


From 5a2212c23b2581f15e780b49c714c9042b19136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 51/83] fix: combine surrogate pairs written as two escapes in
 JsonTransform

---
 parce/lang/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/lang/json.py b/parce/lang/json.py
index d9b2cd3..41dc4ed 100644
--- a/parce/lang/json.py
+++ b/parce/lang/json.py
@@ -149,4 +149,6 @@ class JsonTransform(Transform):
                         yield JSON_ESCAPE_CHARS[t.text[1]]
                 else:
                     yield t.text
-        return ''.join(gen())
+        # combine escaped surrogate pairs
+        text = ''.join(gen())
+        return text.encode('utf-16', 'surrogatepass').decode('utf-16', 'surrogatepass')
-- 
2.43.0


From eea0fbf0e7691e21fe8ded2e24982aef147e23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 52/83] fix: CsvTransform failed on a quote without any text
 after it

---
 parce/lang/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/csv.py b/parce/lang/csv.py
index 002ccae..3e2fbd9 100644
--- a/parce/lang/csv.py
+++ b/parce/lang/csv.py
@@ -93,7 +93,7 @@ class CsvTransform(Transform):
 
         """
         start, end = 0, len(items) - 1
-        while items[start].action in (a.Invalid, a.String.Start):
+        while start <= end and items[start].action in (a.Invalid, a.String.Start):
             start += 1
         while end >= start and items[end].action in (a.String.End, a.Invalid):
             end -= 1
-- 
2.43.0


From ef0d58ebf8c1aab68407fee7b5e2e00866a1e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 53/83] fix: records of CSV may end with CRLF

---
 parce/lang/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/csv.py b/parce/lang/csv.py
index 3e2fbd9..48f253e 100644
--- a/parce/lang/csv.py
+++ b/parce/lang/csv.py
@@ -42,8 +42,8 @@ class Csv(Language):
     @lexicon(re_flags=re.MULTILINE)
     def record(cls):
         """Split a record in escaped (string) and non-escaped fields."""
-        yield r'$\n?', skip, -1
-        yield r'[^,"\n]+(?=$|,|\n)', a.Name
+        yield r'\r?$\n?', skip, -1
+        yield r'[^,"\r\n]+(?=$|,|\r?\n)', a.Name
         yield r'[ \t]*((?:[^,"\s]+[ \t]*)+)?(")', bygroup(a.Invalid, a.String.Start), cls.string
         yield ',', a.Separator
 
-- 
2.43.0


From 75ae68dda2a7bda9954b6e5d017dc1b3e498bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 54/83] fix: only escapes in INI keys and values are unescaped,
 not section names

---
 parce/lang/ini.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 392b73c..041de38 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -124,18 +124,17 @@ class IniTransform(Transform):
         """Return a string, handling escaped characters, stripping spaces."""
         result = []
         if items:
-            # de-tokenize
-            items = [t.text for t in items]
-            # strip whitespace, but not from escapes
-            if not items[0].startswith('\\'):
-                items[0] = items[0].lstrip(' \t')
-            if not items[-1].startswith('\\'):
-                items[-1] = items[-1].rstrip(' \t')
             # unescape
             for t in items:
-                if t.startswith('\\'):
-                    t = chr(int(t[2:], 16)) if t[1] in ('x', 'X') else t[1]
-                result.append(t)
+                text = t.text
+                if t.action is Escape:
+                    text = chr(int(text[2:], 16)) if text[1] in ('x', 'X') else text[1]
+                result.append(text)
+            # strip whitespace, but not from escapes
+            if items[0].action is not Escape:
+                result[0] = result[0].lstrip(' \t')
+            if items[-1].action is not Escape:
+                result[-1] = result[-1].rstrip(' \t')
         return ''.join(result)
 
     comment = None
-- 
2.43.0


From 2849a40737ce983967fd8d404d2324ca26fd12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:29 +0000
Subject: [PATCH 55/83] fix: translate the escaped control characters in INI
 values

---
 parce/lang/ini.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parce/lang/ini.py b/parce/lang/ini.py
index 041de38..52f40a6 100644
--- a/parce/lang/ini.py
+++ b/parce/lang/ini.py
@@ -35,6 +35,16 @@ from parce.action import (
 from parce.transform import Transform
 
 
+INI_ESCAPE_CHARS = {
+    '0': '\0',
+    'a': '\a',
+    'b': '\b',
+    't': '\t',
+    'r': '\r',
+    'n': '\n',
+}
+
+
 class Ini(Language):
     @lexicon
     def root(cls):
@@ -128,7 +138,11 @@ class IniTransform(Transform):
             for t in items:
                 text = t.text
                 if t.action is Escape:
-                    text = chr(int(text[2:], 16)) if text[1] in ('x', 'X') else text[1]
+                    text = text[1:]
+                    if text[0] in ('x', 'X'):
+                        text = chr(int(text[1:], 16))
+                    else:
+                        text = INI_ESCAPE_CHARS.get(text, text)
                 result.append(text)
             # strip whitespace, but not from escapes
             if items[0].action is not Escape:
-- 
2.43.0


From 4c37344ccb7ab381d824158a20a4e498e4e9defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:30 +0000
Subject: [PATCH 56/83] fix: Dutch and German tens that start with a unit, and
 hyphens around en and und

---
 parce/lang/numbers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index 2ff9653..b4c472f 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -308,10 +308,10 @@ class Nederlands(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         yield words(cls._TO19[10:]), Number, -1
-        yield r'({})(?:\s*[eë]n\s*({}))?'.format(
+        yield words(cls._TENS), Number, -1
+        yield r'({})(?:[\s-]*[eë]n[\s-]*({}))?'.format(
             words(cls._TO19[1:10]),
             words(cls._TENS)), bygroup(Number, Number), -1
-        yield words(cls._TENS), Number, -1
         yield cls._TO19[0], Number, -1
         yield default_target, -1
 
@@ -360,11 +360,10 @@ class Deutsch(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         TENS = cls._TENS + ('dreissig',)
-        yield words(cls._TO19[10:]), Number, -1
-        yield r'({})(?:\s*und\s*({}))?'.format(
+        yield words(cls._TO19[10:] + TENS + cls._TO19[:1] + ('eins',)), Number, -1
+        yield r'({})(?:[\s-]*und[\s-]*({}))?'.format(
             words(cls._TO19[1:10]),
             words(TENS)), bygroup(Number, Number), -1
-        yield words(TENS + cls._TO19[:1] + ('eins',)), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From 350d55e51d7995de8bd9b6915aaad65b2e331e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:30 +0000
Subject: [PATCH 57/83] fix: French numbers from 70 to 79 and from 90 to 99,
 and quatre-vingts

---
 parce/lang/numbers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/lang/numbers.py b/parce/lang/numbers.py
index b4c472f..494af0a 100644
--- a/parce/lang/numbers.py
+++ b/parce/lang/numbers.py
@@ -418,14 +418,14 @@ class Français(Numbers):
         """Numerical value below 100."""
         yield _SKIP
         tens = (cls._TENS[4], cls._TENS[6]) # soixante, quatre-vingt + 10-19
-        yield r'({})[\s-]*({})'.format(
-            words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
+        yield r'({})[\s-]*(?:et)?[\s-]*({})'.format(
+            words(tens), words(cls._TO19[10:])), bygroup(Number, Number), -1
+        yield words(('quatre-vingts', 'zero')), Number, -1
         # vingt, treize, quatorze, cinquante, soixante, quatre-vingt (+ 0-9)
         tens = cls._TENS[:5] + cls._TENS[6:7]
         yield r'({})(?:[\s-]*(?:et)?[\s-]*({}))?'.format(
             words(tens), words(cls._TO19[1:10])), bygroup(Number, Number), -1
         yield words(cls._TO19), Number, -1
-        yield words(('quatre-vingts', 'zero')), Number, -1
         yield default_target, -1
 
 
-- 
2.43.0


From c5b9c313e8d972a44fd768eeedd236762ecff12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:36 +0000
Subject: [PATCH 58/83] fix: Document.token() at the end of the last token of
 the document

---
 parce/work.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index fed4341..e3d7c0e 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -515,17 +515,17 @@ class WorkerDocumentMixin:
         different block. Returns None if there are no tokens in the block.
 
         """
-        token = self.get_root(True).find_token(pos)
-        if token:
-            if token.pos <= pos:
-                return token
-            # token is to the right, see if left token touches pos
-            left_token = token.previous_token()
-            if left_token and left_token.end == pos:
-                return left_token
-            # see if token (to the right) is on the same line
-            if self.block_separator not in self[pos:token.pos]:
-                return token
+        root = self.get_root(True)
+        token = root.find_token(pos)
+        if token and token.pos <= pos:
+            return token
+        # token is to the right, see if left token touches pos
+        left_token = token.previous_token() if token else root.last_token()
+        if left_token and left_token.end == pos:
+            return left_token
+        # see if token (to the right) is on the same line
+        if token and self.block_separator not in self[pos:token.pos]:
+            return token
 
     def _callback_to_self(self, callback):
         """Return a callable that calls callback with self as first argument.
-- 
2.43.0


From 50a1c73461e03dd996a8089c81f56500810426b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:12 +0000
Subject: [PATCH 59/83] fix: validate default targets that pop and push, and
 those the lexer handles

---
 parce/validate.py | 59 ++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/parce/validate.py b/parce/validate.py
index 3a33374..08ca3dd 100644
--- a/parce/validate.py
+++ b/parce/validate.py
@@ -26,6 +26,7 @@ import parce
 from . import introspect
 from .lexicon import Lexicon
 from .ruleitem import variations, a_number
+from .target import TargetFactory
 
 
 class LexiconValidator:
@@ -118,53 +119,37 @@ class LexiconValidator:
         This could hang the parser, and we wouldn't like to have that :-)
 
         """
-        # a unique object for every entered context, mimicking tree builder behaviour
-        class Context:
-            def __init__(self, lexicon):
-                self.lexicon = lexicon
-
         lexicon = self.lexicon
         lexicons = collections.Counter()    # count them to find the circular culprits
-        state = [Context(lexicon)]
-        circular = set()                    # track circular (existing) contexts
-        warn = False
-        context = state[-1]
+        state = [lexicon]                   # lexicons below are not known
+        states = set()                      # track the states we were in before
         while True:
-            circular.add(context)
             lexicons.update((lexicon,))     # count
-            depth = len(state)
+            states.add(tuple(state))
             for t in target:
-                if isinstance(t, int):
-                    if t < 0:
-                        if len(state) + t < 1:
-                            return
-                        del state[t:]
-                    else:
-                        for _ in range(t):
-                            state.append(Context(lexicon))
-                elif not isinstance(t, Lexicon):
+                if not isinstance(t, (int, Lexicon)):
                     self.error("in default target only integer or lexicon allowed", lexicon)
                     return
-                else:
-                    state.append(Context(t))
-            newcontext = state[-1]
-            lexicon = newcontext.lexicon
-            if newcontext is context:
+            t = TargetFactory.make(lexicon, target)
+            if not t:
                 self.error("invalid default target", lexicon)
                 return
-            context = newcontext
-            if newcontext in circular:
-                # a circular default state that lands in an existing context
-                # is handled gracefully by the tree builder
-                warn = True
-            if len(circular) > 100:
+            if t.pop:
+                del state[t.pop:]
+            state.extend(t.push)
+            if not state:
+                return
+            lexicon = state[-1]
+            if tuple(state) in states:
+                # a circular default target that comes back in an existing
+                # state is handled gracefully by the lexer
+                lexicons = " <-> ".join(str(l) for l in lexicons)
+                self.warning("handled circular default target: {}".format(lexicons), lexicon)
+                return
+            if len(states) > 100:
+                # run away default states creating new contexts all the time
                 lexicons = " <-> ".join(str(l) for l, n in lexicons.items() if n > 1)
-                if warn:
-                    # this type of circular default state is handled
-                    self.warning("handled circular default target: {}".format(lexicons), lexicon)
-                else:
-                    # run away default states creating new contexts all the time
-                    self.error("circular default target: {}".format(lexicons), lexicon)
+                self.error("circular default target: {}".format(lexicons), lexicon)
                 return
             for pattern, *target in lexicon.rules:
                 if pattern is parce.default_target:
-- 
2.43.0


From 1b1837b5ddf409b4f8480adce5f15a263d3d1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 60/83] fix: check the targets of rules with the skip action

---
 parce/ruleitem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parce/ruleitem.py b/parce/ruleitem.py
index cc41442..96be952 100644
--- a/parce/ruleitem.py
+++ b/parce/ruleitem.py
@@ -572,9 +572,12 @@ def variations(rule):
     items = tuple(rule)
     for i, item in enumerate(items):
         if isinstance(item, Item):
+            choices = tuple(item.variations())
+            if not choices:
+                continue
             prefix = items[:i]
             for suffix in variations(items[i+1:]):
-                for v in item.variations():
+                for v in choices:
                     for l in variations(util.unroll(v)):
                         yield prefix + l + suffix
             break
-- 
2.43.0


From fc2d6ab4a08fe6a34b0418b3441bea0109cb624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:08 +0000
Subject: [PATCH 61/83] fix: Python floats with an exponent without sign

---
 parce/lang/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 8c7afae..7cf6f64 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -79,7 +79,7 @@ class Python(Language):
         yield '0[oO](?:_?[0-7])+', Number.Octal
         yield '0[bB](?:_?[01])+', Number.Binary
         yield '0[xX](?:_?[0-9a-fA-F])+', Number.Hexadecimal
-        yield r'(?:\.\d(?:_?\d)*|\d(?:_?\d)*(?:\.(?:\d(?:_?\d)*)?)?)(?:[eE][-+]\d(?:_?\d)*)?[jJ]?', Number
+        yield r'(?:\.\d(?:_?\d)*|\d(?:_?\d)*(?:\.(?:\d(?:_?\d)*)?)?)(?:[eE][-+]?\d(?:_?\d)*)?[jJ]?', Number
 
         ## keywords, variables, functions
         yield words(python_words.keywords, prefix=r'\b', suffix=r'\b'), Keyword
-- 
2.43.0


From 75098fd836cc33be6af2ce94001733281fc54d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:05 +0000
Subject: [PATCH 62/83] fix: Python short strings that continue on the next
 line after a backslash

---
 parce/lang/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 7cf6f64..4f6f8a7 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -261,7 +261,7 @@ class Python(Language):
     @classmethod
     def short_string_common(cls):
         yield arg(), String.End, -1
-        yield pattern(ifeq(ARG, "'", r"[^']*?$", r'[^"]*?$')), String.Invalid, -1
+        yield pattern(ifeq(ARG, "'", r"[^\\'\n]*$", r'[^\\"\n]*$')), String.Invalid, -1
         yield default_action, String
 
     @classmethod
@@ -386,7 +386,7 @@ class Python(Language):
     @classmethod
     def short_bytes_common(cls):
         yield arg(), Bytes.End, -1
-        yield pattern(ifeq(ARG, "'", r"[^']*?$", r'[^"]*?$')), Bytes.Invalid, -1
+        yield pattern(ifeq(ARG, "'", r"[^\\'\n]*$", r'[^\\"\n]*$')), Bytes.Invalid, -1
         yield default_action, Bytes
 
     @classmethod
-- 
2.43.0


From 09f5d31e7da43c00cf5881505f4a54d08351d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:04 +0000
Subject: [PATCH 63/83] fix: the end of raw triple-quoted Python strings with
 backslashes before quotes

---
 parce/lang/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 4f6f8a7..d5dbf83 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -279,7 +279,7 @@ class Python(Language):
 
     @lexicon
     def long_string_raw(cls):
-        yield arg(prefix=r'\\'), String  # escape quote, but the \ remains
+        yield r'''\\[\\"']''', String  # escape quote, but the \ remains
         yield from cls.long_string_common()
 
     @lexicon
@@ -290,7 +290,7 @@ class Python(Language):
 
     @lexicon
     def long_string_raw_format(cls):
-        yield arg(prefix=r'\\'), String  # escape quote, but the \ remains
+        yield r'''\\[\\"']''', String  # escape quote, but the \ remains
         yield from cls.string_formatstring()
         yield from cls.long_string_common()
 
@@ -381,6 +381,7 @@ class Python(Language):
 
     @lexicon
     def long_bytes_raw(cls):
+        yield r'''\\[\\"']''', Bytes  # escape quote, but the \ remains
         yield from cls.long_bytes_common()
 
     @classmethod
-- 
2.43.0


From 8a707247d3c7ff99928105409624e85b10de8fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 64/83] fix: @ is an operator in Python unless it starts a
 decorator

---
 parce/lang/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index d5dbf83..d471267 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -49,8 +49,9 @@ Bytes = Data.Bytes
 class Python(Language):
     @lexicon(re_flags=re.MULTILINE)
     def root(cls):
+        # an @ elsewhere in a line is an operator
+        yield fr'^(?<!\\\n)({_S_}*)(@)', bygroup(Whitespace.Indent, Name.Decorator), cls.decorator
         yield fr'^{_S_}+($|(?=#))?', ifgroup(1, Whitespace, Whitespace.Indent)
-        yield r'@', Name.Decorator, cls.decorator
         yield fr'(class\b){_S_}*({_I_})', bygroup(Keyword,
             ifmember(MATCH[2], python_words.keywords, Invalid, Name.Class.Definition)), cls.classdef
         yield fr'(def\b){_S_}*({_I_})', bygroup(Keyword,
@@ -427,6 +428,7 @@ class PythonConsole(Python):
     def root(cls):
         yield r'(?=^Traceback \(most recent call last\):)', Literal.Error, cls.traceback
         yield RE_PYTHON_NO_PROMPT, Literal.Output
+        yield r'(?:(?<=^>>> )|(?<=^\.\.\. ))([ \t]*)(@)', bygroup(Whitespace.Indent, Name.Decorator), cls.decorator
         yield from super().root
 
     @classmethod
-- 
2.43.0


From 1cc0dfe0e0d881fec97d3f844b102daa5208db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:20 +0000
Subject: [PATCH 65/83] fix: dots after quoted TOML keys

---
 parce/lang/toml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/toml.py b/parce/lang/toml.py
index 7852009..1f508ab 100644
--- a/parce/lang/toml.py
+++ b/parce/lang/toml.py
@@ -148,7 +148,7 @@ class Toml(Language):
 
     @lexicon(re_flags=re.MULTILINE)
     def string_basic(cls):
-        yield r'(")([^\s,}#\]=]*)', bygroup(String, Invalid), -1
+        yield r'(")([^\s,}#\]=.]*)', bygroup(String, Invalid), -1
         yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4})', String.Escape
         yield r'\\.', String.Invalid
         yield r'[^"]*?$', String.Invalid, -1
@@ -161,7 +161,7 @@ class Toml(Language):
 
     @lexicon(re_flags=re.MULTILINE)
     def string_literal(cls):
-        yield r"(')([^\s,}#\]=]*)", bygroup(String, Invalid), -1
+        yield r"(')([^\s,}#\]=.]*)", bygroup(String, Invalid), -1
         yield r"[^']*?$", String.Invalid, -1
         yield default_action, String
 
-- 
2.43.0


From 4e9523012bf734223ba0b020a8aa02d51b1bc8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 66/83] fix: quotes before the end of a TOML multi-line string

---
 parce/lang/toml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/toml.py b/parce/lang/toml.py
index 1f508ab..1530960 100644
--- a/parce/lang/toml.py
+++ b/parce/lang/toml.py
@@ -140,7 +140,7 @@ class Toml(Language):
 
     @lexicon
     def string_multiline_basic(cls):
-        yield r'(""")([^\s,}#\]]*)', bygroup(String, Invalid), -1
+        yield r'("{3,5})([^\s,}#\]]*)', bygroup(String, Invalid), -1
         yield r'\\\s+', Whitespace
         yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4})', String.Escape
         yield r'\\.', String.Invalid
@@ -156,7 +156,7 @@ class Toml(Language):
 
     @lexicon
     def string_multiline_literal(cls):
-        yield r"(''')([^\s,}#\]]*)", bygroup(String, Invalid), -1
+        yield r"('{3,5})([^\s,}#\]]*)", bygroup(String, Invalid), -1
         yield default_action, String
 
     @lexicon(re_flags=re.MULTILINE)
-- 
2.43.0


From 1fe4c039cc9c7862a13fc3a0dfbde1fbe5f8556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 67/83] fix: eight digit escapes in TOML strings

---
 parce/lang/toml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/toml.py b/parce/lang/toml.py
index 1530960..145192d 100644
--- a/parce/lang/toml.py
+++ b/parce/lang/toml.py
@@ -142,14 +142,14 @@ class Toml(Language):
     def string_multiline_basic(cls):
         yield r'("{3,5})([^\s,}#\]]*)', bygroup(String, Invalid), -1
         yield r'\\\s+', Whitespace
-        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4})', String.Escape
+        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})', String.Escape
         yield r'\\.', String.Invalid
         yield default_action, String
 
     @lexicon(re_flags=re.MULTILINE)
     def string_basic(cls):
         yield r'(")([^\s,}#\]=.]*)', bygroup(String, Invalid), -1
-        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4})', String.Escape
+        yield r'\\(?:["\\bfnrt]|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})', String.Escape
         yield r'\\.', String.Invalid
         yield r'[^"]*?$', String.Invalid, -1
         yield default_action, String
-- 
2.43.0


From c58de5e9af417a1f97b40302bb0c2d970e6a13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 68/83] fix: == is a comparison in Python, not two assignments

---
 parce/lang/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index d471267..e9206f9 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -57,7 +57,7 @@ class Python(Language):
         yield fr'(def\b){_S_}*({_I_})', bygroup(Keyword,
             ifmember(MATCH[2], python_words.keywords, Invalid, Name.Function.Definition)), cls.funcdef
         yield fr':(?={_S_}*(?:$|#))', Delimiter.Indent
-        yield fr'({_I_})\s*(=)', bygroup(
+        yield fr'({_I_})\s*(=)(?!=)', bygroup(
             select(call(str.isupper, TEXT),
                    select(call(isclassname, TEXT), Name.Variable, Name.Class),
                    Name.Constant),
@@ -115,7 +115,7 @@ class Python(Language):
 
         ## delimiters, operators
         yield r'\.\.\.', Delimiter.Special.Ellipsis
-        yield r'(?:\*\*|//|<<|>>|[-+*/%@&|^:])?=', Operator.Assignment
+        yield r'(?:\*\*|//|<<|>>|[-+*/%@&|^:])?=(?!=)', Operator.Assignment
         yield r'\*\*|//|<<|>>|[<>=!]=|[-+*/%@&|^~<>]', Operator
         yield r'[.;,:]', Delimiter
 
-- 
2.43.0


From c7631923f319e021deda28518a0964dd4a396843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 69/83] fix: a bracket after self or cls in Python is a
 delimiter

---
 parce/lang/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index e9206f9..5e8cfc8 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -85,7 +85,7 @@ class Python(Language):
         ## keywords, variables, functions
         yield words(python_words.keywords, prefix=r'\b', suffix=r'\b'), Keyword
         yield words(python_words.constants, prefix=r'\b', suffix=r'\b'), Name.Constant
-        yield fr'\b(self|cls)\b(?:{_SN_}*([\[\(]))?', Name.Variable.Special, \
+        yield fr'\b(self|cls)\b(?:{_SN_}*([\[\(]))?', bygroup(Name.Variable.Special, Delimiter), \
             dselect(MATCH[2], {'(': cls.call, '[': cls.item})
         # method, class or attribute (keywords after a . are also caught)
         yield fr'(\.){_SN_}*\b({_I_})\b(?:{_SN_}*([\[\(]))?', \
-- 
2.43.0


From 203d138b4df3c9fbcbc7223b5baf6d77860faf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 70/83] fix: ignore case inside elements in HTML, like in the
 root lexicon

---
 parce/lang/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index 8aaac73..a4fd32c 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -102,7 +102,7 @@ class Xml(_XmlBase):
         yield r'&\S*?;', Escape
         yield default_action, select(call(str.isspace, TEXT), Text, Whitespace)
 
-    @lexicon
+    @lexicon(re_flags=re.IGNORECASE)
     def tag(cls):
         yield from cls.root()
 
-- 
2.43.0


From 2eec72e6d23dc05b885bf6d3f2bebeebd329c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 71/83] fix: contents of uppercase STYLE and SCRIPT elements in
 HTML

---
 parce/lang/html.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/lang/html.py b/parce/lang/html.py
index b357c0e..c1bf695 100644
--- a/parce/lang/html.py
+++ b/parce/lang/html.py
@@ -30,7 +30,7 @@ import re
 
 from parce import Language, lexicon, default_target, root
 from parce.action import Delimiter, Name, Operator, String
-from parce.rule import ARG, MATCH, TEXT, bygroup, dselect, using, words
+from parce.rule import ARG, MATCH, TEXT, bygroup, call, dselect, using, words
 
 from parce.lang.xml import Xml, XmlIO
 from parce.lang.css import Css
@@ -49,7 +49,7 @@ class XHtml(Xml):
     @lexicon(re_flags=re.IGNORECASE)
     def root(cls):
         yield r'(<)(style|script)\b(>|/\s*>)?', bygroup(Delimiter, cls.tag_action(), Delimiter), \
-            dselect(MATCH[2], {
+            dselect(call(str.lower, MATCH[2]), {
                 "style": dselect(MATCH[3], {'>': cls.css_style_tag, None: cls.attrs("css")}),
                 "script": dselect(MATCH[3], {'>': cls.script_tag, None: cls.attrs("js")}),
             })  # by default a close tag, stay in the context.
@@ -69,13 +69,13 @@ class XHtml(Xml):
     @lexicon
     def script_tag(cls):
         """Stuff between <script> and </script>."""
-        yield r'(<\s*/)\s*(script)\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
+        yield r'(<\s*/)\s*((?i:script))\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
         yield from JavaScript.root
 
     @lexicon
     def css_style_tag(cls):
         """Stuff between <style> and </style>."""
-        yield r'(<\s*/)\s*(style)\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
+        yield r'(<\s*/)\s*((?i:style))\s*(>)', bygroup(Delimiter, cls.tag_action(), Delimiter), -1
         yield from Css.root
 
     @lexicon
-- 
2.43.0


From e471161d5f0a95ed8c1e1dc5cbfcb68a6d1f0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:37 +0000
Subject: [PATCH 72/83] fix: Scheme numbers with unknown digits, exactness and
 faulty input

---
 parce/lang/scheme.py | 94 +++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 57 deletions(-)

diff --git a/parce/lang/scheme.py b/parce/lang/scheme.py
index 4325e19..00fded3 100644
--- a/parce/lang/scheme.py
+++ b/parce/lang/scheme.py
@@ -214,83 +214,61 @@ def scheme_number(tokens):
         """Get an unsigned integer from the tokens.
 
         Returns a float when there were unknown digits (``#``) and there was
-        no exact prefix (``#e``)
+        no exact prefix (``#e``), or when there was an inexact prefix (``#i``).
 
         """
-        if not tokens:
+        if not tokens or tokens[0].action is not mantisse_action:
             raise ValueError("expecting unsigned integer (radix: {})".format(radix))
-        v = 0
-        for t in tokens:
-            if t.action is mantisse_action:
-                v = int(t.text, radix)
-            elif t.action is Number.Special.UnknownDigit:
-                v *= radix * len(t.text)
-                return float(v) if not exact else v
-            else:
-                raise ValueError("unknown token in radix {}: {}".format(radix, repr(t.text)))
-        return v
+        v = int(tokens[0].text, radix)
+        inexact = exact is False
+        if len(tokens) > 1:
+            # only unknown digits may follow
+            if len(tokens) > 2 or tokens[1].action is not Number.Special.UnknownDigit:
+                raise ValueError("unknown token in radix {}: {}".format(radix, repr(tokens[-1].text)))
+            v *= radix ** len(tokens[1].text)
+            inexact = not exact
+        return float(v) if inexact else v
 
     def get_decimal10(tokens):
         """Get a decimal10 value from the tokens. Only called in decimal mode."""
         v = []
-        e = True
-        i, z = 0, len(tokens)
-        while i < z:
-            t = tokens[i]
-            if t.action is Number.Decimal:
-                v.append(t.text)
-            elif t.action is Number.Special.UnknownDigit:
-                v.append('0' * len(t.text))
-            elif e and t.action is Number.Dot:
-                v.append('.')
-                e = False
-            elif t.action is Number.Exponent:
-                e = False
+        for t in tokens:
+            if t.action is Number.Exponent:
                 v.append('e')
-                i += 1
-                while i < z:
-                    t = tokens[i]
-                    if t.action is Operator.Sign:
-                        v.append(t.text)
-                    elif t.action is Number.Decimal:
-                        v.append(t.text)
-                        break
-                    else:
-                        raise ValueError("unknown token in exponent: {}".format(repr(t.text)))
-                    i += 1
-                else:
-                    raise ValueError("missing exponent")
-                break
+            elif t.action in (Number.Decimal, Number.Dot, Number.Special.UnknownDigit, Operator.Sign):
+                v.append(t.text)
             else:
                 raise ValueError("unknown token in decimal 10: {}".format(repr(t.text)))
-            i += 1
         s = ''.join(v)
-        if s:
-            if e:
-                return float(s) if exact is False else int(s)
-            return fractions.Fraction(s) if exact else float(s)
-        raise ValueError("expecting decimal value")
+        if not re.fullmatch(r'(?:\d+#+\.?#*|\d+\.?\d*#*|\.\d+#*)(?:e[-+]?\d+)?', s):
+            raise ValueError("expecting decimal value")
+        if s.isdecimal():
+            return float(s) if exact is False else int(s)
+        s = s.replace('#', '0')
+        return fractions.Fraction(s) if exact else float(s)
 
     def get_real(tokens):
         """Return a real value from the tokens (can be int, float or Fraction.)."""
         # get a sign, inf or nan
-        i, z = 0, len(tokens)
+        i = 0
         sign = 1
-        while i < z:
-            t = tokens[i]
+        if tokens:
+            t = tokens[0]
             if t.action is Operator.Sign:
                 if t == '-':
-                    sign *= -1
-            elif t.action is Number.Infinity:
+                    sign = -1
+                i = 1
+            elif t.action in (Number.Infinity, Number.NaN):
+                if len(tokens) > 1:
+                    raise ValueError("unexpected token: {}".format(repr(tokens[1].text)))
+                if t.action is Number.NaN:
+                    return math.nan
                 return math.inf if t.text[0] == '+' else -math.inf
-            elif t.action is Number.NaN:
-                return math.nan
-            else:
-                break
-            i += 1
         # now, get either uint, uint/uint or decimal10
         tokens, *fract = split_list(tokens[i:], '/')
-        if fract:
+        if len(fract) > 1:
+            raise ValueError("more than one fraction separator")
+        elif fract:
             numerator = get_uint(tokens)
             denominator = get_uint(fract[0])
             if isinstance(numerator, float) or isinstance(denominator, float) or exact is False:
@@ -346,7 +324,9 @@ def scheme_number(tokens):
 
     tokens, *polar = split_list(tokens[i:], '@')
 
-    if polar:
+    if len(polar) > 1:
+        raise ValueError("more than one polar separator")
+    elif polar:
         return cmath.rect(get_real(tokens), get_real(polar[0]))
     elif tokens and tokens[-1].text.lower() == 'i':
         return get_complex(tokens)
-- 
2.43.0


From 6ba10a76a0406c4ed1677a8497ebb4f5a059bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:38 +0000
Subject: [PATCH 73/83] fix: a dot before a parenthesis in Scheme

---
 parce/lang/scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/scheme.py b/parce/lang/scheme.py
index 00fded3..3053bd6 100644
--- a/parce/lang/scheme.py
+++ b/parce/lang/scheme.py
@@ -95,7 +95,7 @@ class Scheme(Language):
         yield r'(\.?)(\d+)', bygroup(Number.Dot, Number.Decimal), pop, cls.number
 
         if pop == 0:
-            yield r"\.(?!\S)", Delimiter.Dot
+            yield r"\." + RE_SCHEME_RIGHT_BOUND, Delimiter.Dot
 
     @lexicon(consume=True)
     def list(cls):
-- 
2.43.0


From ac4fd96c984ed78aebbef8bd856740ff38603bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:31 +0000
Subject: [PATCH 74/83] fix: the first ?> ends an XML processing instruction

---
 parce/lang/xml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index a4fd32c..bafc6d9 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -114,8 +114,10 @@ class Xml(_XmlBase):
     @lexicon
     def processing_instruction(cls):
         yield fr'({_N_})\s*?(=)(?=\s*?["\'])', bygroup(Name.Attribute, Operator)
-        yield from cls.find_strings()
-        yield r'&\S*?;', Escape
+        # the first "?>" ends the instruction, also between two quotes
+        yield r'"(?=(?:(?!\?>)[^"])*")', String.Double.Start, cls.dqstring
+        yield r"'(?=(?:(?!\?>)[^'])*')", String.Single.Start, cls.sqstring
+        yield r'&(?:(?!\?>)\S)*?;', Escape
         yield r'\?>', Bracket.Preprocessed.End, -1
         yield default_action, Text.Preprocessed
 
-- 
2.43.0


From e7d7c817f22e283095bc9ff41e1b2772860dbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:17 +0000
Subject: [PATCH 75/83] fix: a backslash continues the line in a raw Python
 string

---
 parce/lang/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/lang/python.py b/parce/lang/python.py
index 5e8cfc8..4b9f2ee 100644
--- a/parce/lang/python.py
+++ b/parce/lang/python.py
@@ -268,7 +268,7 @@ class Python(Language):
     @classmethod
     def short_string_raw_common(cls):
         yield arg(), String.End, -1
-        yield r'\\\\', String
+        yield r'\\[\\\n]', String  # a backslash also continues the line
         yield pattern(ifeq(ARG, "'", fr"([^\\']*?|\\'{_S_}*)$", fr'([^\\"]*?|\\"{_S_}*)$')), String.Invalid, -1
         yield arg(prefix=r'\\'), String  # escape quote, but the \ remains
         yield default_action, String
@@ -393,7 +393,7 @@ class Python(Language):
 
     @classmethod
     def short_bytes_raw_common(cls):
-        yield r'\\\\', Bytes
+        yield r'\\[\\\n]', Bytes  # a backslash also continues the line
         yield pattern(ifeq(ARG, "'", fr"([^\\']*?|\\'{_S_}*)$", fr'([^\\"]*?|\\"{_S_}*)$')), Bytes.Invalid, -1
         yield arg(prefix=r'\\'), Bytes  # escape quote, but the \ remains
         yield from cls.long_bytes_common()
-- 
2.43.0


From 6d3b741b8d27d508395ed0cffcc9e15a9cc92ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:17 +0000
Subject: [PATCH 76/83] fix: a processing instruction in the internal subset of
 a DTD

---
 parce/lang/xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index bafc6d9..be749a3 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -132,6 +132,8 @@ class Xml(_XmlBase):
     @lexicon
     def internal_dtd(cls):
         yield r'\]', Bracket, -1
+        yield fr'(<\?)({_N_})?', bygroup(Bracket.Preprocessed.Start, Name.Tag.Preprocessed), \
+            cls.processing_instruction
         yield from Dtd.root
 
     @lexicon
-- 
2.43.0


From caeb6848381c924f18fd5f7db6373ed8b27cfc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:23 +0000
Subject: [PATCH 77/83] fix: a long word with underscores in a comment took
 exponential time

---
 parce/language.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/language.py b/parce/language.py
index f66fa9e..d64d171 100644
--- a/parce/language.py
+++ b/parce/language.py
@@ -52,7 +52,7 @@ class Language(metaclass=_LanguageType):
         languages use this method for their comment lexicons.
 
         """
-        yield r'\b\w+(?:[._%+-]\w+)*@\w+(?:[._-]\w+)*\b', a.Comment.Email
+        yield r'\b\w+(?:[.%+-]\w+)*@\w+(?:[._-]\w+)*\b', a.Comment.Email
         yield r'(?:(?:https?|ftp):/|\bwww\.)(?:[\w_~:/#-]+([.?=][\w_~:/#-]+)*|\([\w._~:?/#-]*\))+', a.Comment.Url
         yield r"\b(ALERT|BUG|FIXME|TEMP|TODO|XXX+)\b", a.Comment.Alert
         yield parce.default_action, a.Comment
-- 
2.43.0


From 59145651256726377df79ff286bd040959baf25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:27 +0000
Subject: [PATCH 78/83] fix: a long CSV field before a carriage return took
 exponential time

---
 parce/lang/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/csv.py b/parce/lang/csv.py
index 48f253e..eb3a485 100644
--- a/parce/lang/csv.py
+++ b/parce/lang/csv.py
@@ -44,7 +44,7 @@ class Csv(Language):
         """Split a record in escaped (string) and non-escaped fields."""
         yield r'\r?$\n?', skip, -1
         yield r'[^,"\r\n]+(?=$|,|\r?\n)', a.Name
-        yield r'[ \t]*((?:[^,"\s]+[ \t]*)+)?(")', bygroup(a.Invalid, a.String.Start), cls.string
+        yield r'[ \t]*([^,"\s]+(?:[ \t]+[^,"\s]+)*[ \t]*)?(")', bygroup(a.Invalid, a.String.Start), cls.string
         yield ',', a.Separator
 
     @lexicon(consume=True)
-- 
2.43.0


From 130dace1dd3c4b00a3eb589decfc372c80ff5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 79/83] fix: the font property took an angle for the weight or
 size and ignored size keywords

---
 parce/theme.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parce/theme.py b/parce/theme.py
index 39bbf5e..0178929 100644
--- a/parce/theme.py
+++ b/parce/theme.py
@@ -501,7 +501,10 @@ class TextFormat:
 
     @_dispatch("font")
     def read_font(self, values):
-        self.read_font_style(values)
+        # an angle belongs to the font style, any other number does not
+        angles = [v for v in values if v.unit in ("deg", "grad", "rad", "turn")]
+        self.read_font_style([v for v in values if v.number is None or v in angles])
+        values = [v for v in values if v not in angles]
         numvalues = []
         for v in values:
             if v.text in ("caption", "icon", "menu", "message-box",
@@ -516,6 +519,10 @@ class TextFormat:
                 self.font_stretch = v.text
             elif v.text in ("bold", "lighter", "bolder"):
                 self.font_weight = v.text
+            elif v.text in ("xx-small", "x-small", "small", "medium",
+                            "large", "x-large", "xx-large", "xxx-large",
+                            "larger", "smaller"):
+                numvalues.append((v.text, None))
             elif v.number is not None:
                 numvalues.append((v.number, v.unit))
         self.read_font_family(values)
-- 
2.43.0


From 89d1347d0b5abe4ad917dee73240cc9da660700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:40 +0000
Subject: [PATCH 80/83] fix: a DTD attribute with the name of a type, such as
 ID, was taken for a type

---
 parce/lang/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parce/lang/xml.py b/parce/lang/xml.py
index be749a3..984ac93 100644
--- a/parce/lang/xml.py
+++ b/parce/lang/xml.py
@@ -193,6 +193,9 @@ class Dtd(_XmlBase):
 
     @lexicon
     def attlist(cls):
+        # an attribute may have the name of a type, e.g. ID ID #IMPLIED
+        yield r'\b(?!NOTATION\b)' + _N_ + r'(?=\s+(?:(?:CDATA|ID(?:REFS?)?|ENTIT(?:Y|IES)|' \
+            r'NMTOKENS?|NOTATION)\b|\())', Name.Attribute.Definition
         yield words(("#REQUIRED", "#IMPLIED", "#FIXED"), suffix=r'\b'), Name.Builtin
         yield words(('CDATA', 'ID', 'IDREF', 'IDREFS', 'ENTITY', 'ENTITIES',
             'NMTOKEN', 'NMTOKENS'), prefix=r'\b', suffix=r'\b'), Name.Type
-- 
2.43.0


From 2878fbbcf742b74f701725d1e35a5015358832fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:30 +0000
Subject: [PATCH 81/83] fix: a ";", "#" or "{" in a quoted Tcl string was not
 taken as part of it

---
 parce/lang/tcl.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parce/lang/tcl.py b/parce/lang/tcl.py
index b3fd3b1..8cacbbf 100644
--- a/parce/lang/tcl.py
+++ b/parce/lang/tcl.py
@@ -47,18 +47,23 @@ class Tcl(Language):
 
     @classmethod
     def values(cls):
-        yield r'\[', Delimiter, cls.command
         yield r'"', String, cls.quoted
         yield r'\{', Delimiter.Bracket, cls.braced
-        yield r'(\$(?:[0-9a-zA-Z_]|::+)+)(\()?', \
-            bygroup(Name.Variable, Delimiter), ifgroup(2, cls.index)
-        yield r'\${.*?\}', Name.Variable
-        yield r'\\(?:[0-7]{1,3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|\n|.)', Escape
+        yield from cls.substitution()
         yield r'^\s*(#)', bygroup(Comment), cls.comment
         yield RE_TCL_NUMBER, gselect(Number.Octal, Number.Binary, Number.Hexadecimal, Number.Decimal)
         yield r'(;)(?:[ \t]*(#))?', bygroup(Delimiter.Separator, Comment), \
             ifgroup(2, cls.comment)
 
+    @classmethod
+    def substitution(cls):
+        """What is replaced, also between double quotes."""
+        yield r'\[', Delimiter, cls.command
+        yield r'(\$(?:[0-9a-zA-Z_]|::+)+)(\()?', \
+            bygroup(Name.Variable, Delimiter), ifgroup(2, cls.index)
+        yield r'\${.*?\}', Name.Variable
+        yield r'\\(?:[0-7]{1,3}|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|\n|.)', Escape
+
     @lexicon(re_flags=re.MULTILINE)
     def root(cls):
         yield r'\A#!.*?$', Comment.Special
@@ -78,8 +83,8 @@ class Tcl(Language):
     @lexicon
     def quoted(cls):
         yield r'"', String, -1
-        yield r'\[', Delimiter, cls.command
-        yield from cls.values()
+        yield from cls.substitution()
+        yield RE_TCL_NUMBER, gselect(Number.Octal, Number.Binary, Number.Hexadecimal, Number.Decimal)
         yield default_action, String
 
     @lexicon(re_flags=re.MULTILINE)
-- 
2.43.0


From e45050a18dbc23f8d7afc5a7d0d0d4751b64181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:30 +0000
Subject: [PATCH 82/83] fix: an escaped quote in the name of a Bash command
 started a string

---
 parce/lang/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/bash.py b/parce/lang/bash.py
index 9eab492..065bbd5 100644
--- a/parce/lang/bash.py
+++ b/parce/lang/bash.py
@@ -35,7 +35,7 @@ from parce.rule import *
 
 
 RE_NAME = r'[^\W\d]\w*(?:[-.+]\w+)*'
-RE_COMMAND = r'''[^\s|&;()<>$"'`#][^\s|&;()<>$"'`]*'''
+RE_COMMAND = r'''(?:\\.|[^\s|&;()<>$"'`#\\])(?:\\.|[^\s|&;()<>$"'`\\])*'''
 RE_BRACE = (
     r'''([^|&;()<>\s"'`!{}]*)'''   # preamble
     r'(\{)'     # brace {
-- 
2.43.0


From 3200efd29d77d3c80729b6c45e3c226a777655e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:01 +0000
Subject: [PATCH 83/83] fix: a Bash group { a; } with a blank before the
 closing brace never ended

---
 parce/lang/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/bash.py b/parce/lang/bash.py
index 065bbd5..a347d4c 100644
--- a/parce/lang/bash.py
+++ b/parce/lang/bash.py
@@ -63,7 +63,7 @@ class Bash(Language):
         """
         yield r'\A#!.*?$', Comment.Special
         yield '#', Comment, cls.comment
-        yield '\n', skip
+        yield r'\s+', skip
         yield default_target, derive(cls.command, ARG)
 
     @lexicon(re_flags=re.MULTILINE)
-- 
2.43.0

