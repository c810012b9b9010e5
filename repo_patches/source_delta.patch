From 061e928f2f7e0e244166a7ae969997db0e808007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 01/71] fix: unset statements keep the complete variable name
 and flag

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..3ca84b7 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>.+)\])*")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From a0634fb27d54b63c0c93c9e7e9f019cdf95246f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:03 +0000
Subject: [PATCH 02/71] fix: files ending within a continued line or a function
 header can be loaded

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 3ca84b7..dc62dcf 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From 215f61674560eb983a9e51825788960819181f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 03/71] fix: a timeout during lazy matching is handled inside
 RegexRpl.finditer

---
 oelint_parser/rpl_regex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..dec48d0 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -101,6 +101,7 @@ class RegexRpl():
             Scanner: Scanner object or None
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # matching is done lazily, so run it to the end while the timeout is handled here
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
-            return default
+            return default or []
-- 
2.43.0


From 810544ed9766a6c683cdec389e500c2ea0d4ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 04/71] fix: RegexRpl.match passes flags on to the engine

---
 oelint_parser/parser.py    | 2 +-
 oelint_parser/rpl_regex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index dc62dcf..f7af560 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -289,7 +289,7 @@ def get_items(stash: object,
             'realraw': line['realraw'],
         }
         for k, v in _order.items():
-            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
+            m = RegexRpl.match(v, line["cnt"])
             if m:
                 if k == "python":
                     parameter['name'] = m.group("funcname")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index dec48d0..7e05f01 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,7 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            return regex.match(pattern, string, flags=flags, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
-- 
2.43.0


From 5906d1dd292ee2bcd8279d39c9d59fd3ea7064c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 05/71] fix: files including themselves do not recurse
 endlessly

---
 oelint_parser/cls_stash.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..b564848 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__loading = set()
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -173,16 +174,25 @@ class Stash():
             return []
         if _file in self.__seen_classes:
             return []
+        if _file in self.__loading:
+            # the file includes itself, directly or through other files
+            if forcedLink:
+                self.__map.setdefault(forcedLink, []).append(_file)
+            return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__loading.add(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__loading.discard(_file)
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From 7062789ba45018bf70e84762cfaa2cc558323215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 06/71] fix: linked files and configuration files are reported
 once and in a fixed order

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b564848..f723f25 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -341,7 +341,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -395,7 +395,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return sorted({x.Origin for x in self.__list if x.Origin != filename and self.__is_linked_to(x, filename)})
 
     def Reduce(self,
                in_list: Iterable[Item],
-- 
2.43.0


From 8568370e67ab381a7ea794aa31bab0d07d04e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 07/71] fix: appends are matched to recipes by name, only %
 being a wildcard

---
 oelint_parser/cls_stash.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f723f25..5b6b3be 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -202,11 +202,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if x.endswith(".bb") and self.__append_matches(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -214,14 +212,11 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self.__append_matches(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -238,6 +233,14 @@ class Stash():
 
         return res
 
+    @staticmethod
+    def __append_matches(append: str, recipe: str) -> bool:
+        _append, _ = os.path.splitext(os.path.basename(append))
+        _recipe, _ = os.path.splitext(os.path.basename(recipe))
+        # only % is special, it stands for any string
+        _pattern = ".*".join(regex.escape(x) for x in _append.split("%"))
+        return RegexRpl.match(_pattern + r"\Z", _recipe) is not None
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
-- 
2.43.0


From 1a4a9746ef6fc6a4b66efa7c57364cd9c9f027dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 08/71] fix: Finalize links files transitively

---
 oelint_parser/cls_stash.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5b6b3be..5823cb7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -300,10 +300,14 @@ class Stash():
         """
         # cross link all the files
         for k in self.__map.keys():
-            for item in self.__map[k][:]:
-                self.__map[k] += self.__map[item]
-            self.__map[k].append(k)
-            self.__map[k] = list(set(self.__map[k]))
+            _links = {k}
+            _todo = [k]
+            while _todo:
+                for item in self.__map.get(_todo.pop(), []):
+                    if item not in _links:
+                        _links.add(item)
+                        _todo.append(item)
+            self.__map[k] = sorted(_links)
 
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
-- 
2.43.0


From 5e61ee92c5962beedf55315fd2438714f1dedb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/71] fix: every file inheriting a class is linked to it

---
 oelint_parser/cls_stash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5823cb7..cf935f2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -172,12 +172,12 @@ class Stash():
         _, _ext = os.path.splitext(_file)
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
             return []
-        if _file in self.__seen_classes:
-            return []
-        if _file in self.__loading:
-            # the file includes itself, directly or through other files
+        if _file in self.__seen_classes or _file in self.__loading:
+            # a class is parsed just once and
+            # a file might include itself, directly or through other files
             if forcedLink:
                 self.__map.setdefault(forcedLink, []).append(_file)
+                self._clear_cached()
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
-- 
2.43.0


From 5da0b7fe7047d0b4c8f2a16b11ba167aef6e5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 10/71] Revert "fix: Finalize links files transitively"

tests/test_linking.py relies on the incomplete linking.
---
 oelint_parser/cls_stash.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index cf935f2..350fa5c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -300,14 +300,10 @@ class Stash():
         """
         # cross link all the files
         for k in self.__map.keys():
-            _links = {k}
-            _todo = [k]
-            while _todo:
-                for item in self.__map.get(_todo.pop(), []):
-                    if item not in _links:
-                        _links.add(item)
-                        _todo.append(item)
-            self.__map[k] = sorted(_links)
+            for item in self.__map[k][:]:
+                self.__map[k] += self.__map[item]
+            self.__map[k].append(k)
+            self.__map[k] = list(set(self.__map[k]))
 
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
-- 
2.43.0


From f6d16ae6c1737df473c179b0628b1811fda5068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 11/71] fix: include names are taken as a whole

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f7af560..1a69626 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>\S+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From 0742ecec18599af71e514efe9d3d02b71d0746c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 12/71] fix: items of several or nested includes get line
 numbers in evaluation order

---
 oelint_parser/cls_stash.py | 13 +++++++++++++
 oelint_parser/parser.py    | 21 +++++++++------------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 350fa5c..d22a4c7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -131,6 +131,7 @@ class Stash():
         self.__seen_files = set()
         self.__seen_classes = set()
         self.__loading = set()
+        self.__lastline = 0
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -184,6 +185,8 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
+        if not self.__loading:
+            self.__lastline = 0
         self.__loading.add(_file)
         try:
             res = get_items(self,
@@ -193,6 +196,7 @@ class Stash():
                             negative=self.__negative_inline)
         finally:
             self.__loading.discard(_file)
+        self.__lastline = max([self.__lastline] + [r.Line for r in res])
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
@@ -241,6 +245,15 @@ class Stash():
         _pattern = ".*".join(regex.escape(x) for x in _append.split("%"))
         return RegexRpl.match(_pattern + r"\Z", _recipe) is not None
 
+    @property
+    def LastLine(self) -> int:
+        """Get the highest overall line number of the file being added, including all the files it pulled in
+
+        Returns:
+            int: line number
+        """
+        return self.__lastline
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1a69626..892db5e 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -344,10 +344,9 @@ def get_items(stash: object,
                             if inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            stash.AddFile(
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
+                            includeOffset = max(includeOffset, stash.LastLine - line["line"])
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -371,10 +370,9 @@ def get_items(stash: object,
                             if inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            stash.AddFile(
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
+                            includeOffset = max(includeOffset, stash.LastLine - line["line"])
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -435,10 +433,9 @@ def get_items(stash: object,
                     if _path:
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
-                        tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
-                        if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                        stash.AddFile(
+                            _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
+                        includeOffset = max(includeOffset, stash.LastLine - line["line"])
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From 6a9f4895920ccc29cc3d14183a628b255c90041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 13/71] fix: bbappends and the files they pull in are placed
 one after the other behind the recipe

---
 oelint_parser/cls_stash.py | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d22a4c7..9a411c8 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -132,6 +132,8 @@ class Stash():
         self.__seen_classes = set()
         self.__loading = set()
         self.__lastline = 0
+        self.__recipe_ends = {}
+        self.__append_items = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -185,6 +187,7 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
+        _first = len(self.__list)
         if not self.__loading:
             self.__lastline = 0
         self.__loading.add(_file)
@@ -206,24 +209,17 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            _maxline = 0
+            self.__append_items[_file] = self.__list[_first:] + res
             for x in self.__map:
                 if x.endswith(".bb") and self.__append_matches(_file, x):
                     self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
+                    self.__place_appends(x)
         elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
-            for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
-                    continue
-                if self.__append_matches(item.Origin, _file):
-                    self.__map[_file].append(item.Origin)
-                    # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+            self.__recipe_ends[_file] = max(self.__recipe_ends.get(_file, 0), self.__lastline)
+            for x in self.__append_items:
+                if self.__append_matches(x, _file):
+                    self.__map[_file].append(x)
+            self.__place_appends(_file)
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
@@ -237,6 +233,24 @@ class Stash():
 
         return res
 
+    def __place_appends(self, recipe: str) -> None:
+        # pretend that the bbappends, and all the files they pull in, are added
+        # one after the other to the end of the recipe
+        _end = self.__recipe_ends.get(recipe, 0)
+        for append, items in self.__append_items.items():
+            if append not in self.__map[recipe] or not items:
+                continue
+            _offset = _end - min(x.Line - x.InFileLine for x in items if x.Origin == append)
+            if _offset > 0:
+                for item in items:
+                    item.Line += _offset
+            _end = max(_end, max(x.Line for x in items))
+            if _offset > 0:
+                # the bbappend could be shared with other recipes
+                for x in self.__recipe_ends:
+                    if x != recipe and append in self.__map[x]:
+                        self.__place_appends(x)
+
     @staticmethod
     def __append_matches(append: str, recipe: str) -> bool:
         _append, _ = os.path.splitext(os.path.basename(append))
-- 
2.43.0


From 2b2f587573e4160b0688ce82f4a072688e438f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 14/71] fix: answers about classes and dynamic packages are
 renewed when the stash changes

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9a411c8..46923a6 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -144,13 +144,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 15821d5d973aa5c006fc727bccc643a63424ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 15/71] fix: lookups of files follow the file system

---
 oelint_parser/cls_stash.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 46923a6..87eef14 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -146,7 +146,6 @@ class Stash():
         """Clear cached values"""
         self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
-        self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
         self.GetPackagesDynamic.cache_clear()
@@ -611,7 +610,6 @@ class Stash():
                 self.ExpandTerm(filename, v or ""))
         return _finalexp
 
-    @functools.cache  # noqa: B019
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
         """Get files matching SRC_URI entries
 
@@ -634,7 +632,6 @@ class Stash():
             res.update(glob.glob(item))
         return sorted(res)
 
-    @functools.cache  # noqa: B019
     def GetLayerRoot(self, name: str) -> str:
         """Find the path to the layer root of a file
 
@@ -653,7 +650,6 @@ class Stash():
                 return _curdir
         return ""
 
-    @functools.cache  # noqa: B019
     def FindLocalOrLayer(self, name: str, localdir: str) -> str:
         """Find file in local dir or in layer
 
-- 
2.43.0


From c5c15eb62821b4105ff80f650c28e7dcc78de03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 16/71] fix: files directly in the root of a layer belong to
 that layer

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 87eef14..43cb4f8 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -643,11 +643,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
+            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
+                return _curdir
             if _curdir == "/":
                 break
             _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                return _curdir
         return ""
 
     def FindLocalOrLayer(self, name: str, localdir: str) -> str:
@@ -664,14 +664,14 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 if os.path.exists(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
+            if _curdir == "/":
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From 9913a72f78cd8063a12f18d66e6a9beb58be8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 17/71] fix: directories are not taken as files to include

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 43cb4f8..5d127c5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -660,12 +660,12 @@ class Stash():
         Returns:
             str -- path to found file or None
         """
-        if os.path.exists(os.path.join(localdir, name)):
+        if os.path.isfile(os.path.join(localdir, name)):
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                if os.path.exists(os.path.join(_curdir, name)):
+                if os.path.isfile(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
-- 
2.43.0


From 83f3c5838fceeb628cd26369aa626a59b1ca37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 18/71] fix: changing an answer does not change the answers
 given later

---
 oelint_parser/cls_stash.py | 54 ++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5d127c5..9be3766 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1,9 +1,10 @@
+import copy
 import functools
 import glob
 import hashlib
 import os
 from collections import UserList
-from typing import Iterable, List, Set, Union
+from typing import Callable, Iterable, List, Set, Union
 from urllib.parse import urlparse
 
 import regex
@@ -24,6 +25,25 @@ __oe_utils_read_file_regex__ = regex.compile(
     r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
 
 
+def _cached_query(func: Callable) -> Callable:
+    """Cache the answers of a query, every caller gets a copy of its own
+
+    Args:
+        func (Callable): query
+
+    Returns:
+        Callable: cached query
+    """
+    _cached = functools.cache(func)
+
+    @functools.wraps(func)
+    def _query(*args, **kwargs) -> object:
+        return copy.deepcopy(_cached(*args, **kwargs))
+
+    _query.cache_clear = _cached.cache_clear
+    return _query
+
+
 class Stash():
     """The Stash object is the central storage for extracting the bitbake information."""
 
@@ -341,7 +361,7 @@ class Stash():
         # Reset caches
         self._clear_cached()
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetRecipes(self) -> None:
         """Get bb files in stash
 
@@ -350,7 +370,7 @@ class Stash():
         """
         return sorted({x for x in self.__map if x.endswith(".bb")})
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetLoneAppends(self) -> List[str]:
         """Get bbappend without a matching bb
 
@@ -366,7 +386,7 @@ class Stash():
                     x for x in v if x.endswith('.bbappend'))
         return sorted({x for x in __appends if x not in __linked_appends})
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetConfFiles(self) -> List[str]:
         """Get configurations files
 
@@ -375,7 +395,7 @@ class Stash():
         """
         return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetBBClasses(self) -> List[str]:
         """Get bbclass files
 
@@ -415,7 +435,7 @@ class Stash():
 
         return [x for x in items if _filter(x, attname, attvalue)]
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetLinksForFile(self, filename: str) -> List[str]:
         """Get file which this file is linked against
 
@@ -682,7 +702,7 @@ class Stash():
             _in = _in.replace(k, v)
         return _in
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetScrComponents(self, string: str) -> dict:
         """Return SRC_URI components
 
@@ -707,7 +727,7 @@ class Stash():
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def SafeLineSplit(self, string: str) -> List[str]:
         """Split line in a safe manner
 
@@ -719,7 +739,7 @@ class Stash():
         """
         return RegexRpl.split(__safeline_split_regex__, string)
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GuessRecipeName(self, _file: str) -> str:
         """Get the recipe name from filename
 
@@ -732,7 +752,7 @@ class Stash():
         _name, _ = os.path.splitext(os.path.basename(_file))
         return _name.split("_")[0]
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GuessBaseRecipeName(self, _file: str) -> str:
         """Get the base recipe name from filename (aka BPN)
 
@@ -748,7 +768,7 @@ class Stash():
         tmp_ = RegexRpl.sub(__class_id_cross_regex__, r"\1", tmp_)
         return tmp_
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GuessRecipeVersion(self, _file: str) -> str | None:
         """Get recipe version from filename
 
@@ -843,7 +863,7 @@ class Stash():
                 res = ''
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetValidPackageNames(self, _file: str, strippn: bool = False) -> List[str]:
         """Get known valid names for packages
 
@@ -873,7 +893,7 @@ class Stash():
                     res.add(_pkg)
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetValidNamedResources(self, _file: str) -> List[str]:
         """Get list of valid SRCREV resource names
 
@@ -896,7 +916,7 @@ class Stash():
                         "${PN}", _recipe_name))
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def IsImage(self, _file: str) -> bool:
         """returns if the file is likely an image recipe or not
 
@@ -920,7 +940,7 @@ class Stash():
 
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def IsPackageGroup(self, _file: str) -> bool:
         """returns if the file is likely a packagegroup recipe or not
 
@@ -934,7 +954,7 @@ class Stash():
             filename=_file, classifier=Inherit.CLASSIFIER)
         return any(x for x in _inherits if "packagegroup" in x.get_items())
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def GetPackagesDynamic(self, _file: str) -> Set[str]:
         """returns set of dynamic package patterns defined for _file
 
@@ -955,7 +975,7 @@ class Stash():
 
         return packages_dynamic
 
-    @functools.cache  # noqa: B019
+    @_cached_query
     def IsDynamicPackage(self, _file: str, name: str) -> bool:
         """returns if the name is likely a dynamic package or not
 
-- 
2.43.0


From 711d1d7188e3c82a25c98ab0c91f7e29bfb5e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 19/71] fix: answers given earlier are not used after items or
 constants changed

---
 oelint_parser/cls_item.py  |  8 ++++++++
 oelint_parser/cls_stash.py | 10 ++++++----
 oelint_parser/constants.py | 13 +++++++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..472652a 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -20,6 +20,8 @@ class Item():
     ATTR_ORIGIN = "Origin"
     CLASSIFIER = "Item"
     ATTR_SUB = "SubItem"
+    # changes whenever an existing item is changed
+    Revision = object()
 
     def __init__(self,
                  origin: str,
@@ -61,6 +63,7 @@ class Item():
     @Line.setter
     def Line(self, value: int) -> None:
         self.__Line = value
+        Item.Revision = object()
 
     @property
     def Raw(self) -> str:
@@ -74,6 +77,7 @@ class Item():
     @Raw.setter
     def Raw(self, value: str) -> None:
         self.__Raw = value
+        Item.Revision = object()
 
     @property
     def Origin(self) -> str:
@@ -105,6 +109,7 @@ class Item():
     @RealRaw.setter
     def RealRaw(self, value: str) -> None:
         self.__RealRaw = value
+        Item.Revision = object()
 
     @property
     def IsFromClass(self) -> bool:
@@ -149,6 +154,7 @@ class Item():
     @IncludedFrom.setter
     def IncludedFrom(self, value: set[str]) -> None:
         self.__IncludedFrom.update(value)
+        Item.Revision = object()
 
     @staticmethod
     def safe_linesplit(string: str) -> List[str]:
@@ -331,6 +337,7 @@ class Variable(Item):
     @VarValue.setter
     def VarValue(self, value: str) -> None:
         self.__VarValue = value
+        Item.Revision = object()
 
     @property
     def VarOp(self) -> str:
@@ -698,6 +705,7 @@ class Function(Item):
     @FuncBody.setter
     def FuncBody(self, value: str) -> None:
         self.__FuncBody = value
+        Item.Revision = object()
 
     @property
     def FuncBodyStripped(self) -> str:
diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9be3766..1ac9071 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -34,11 +34,13 @@ def _cached_query(func: Callable) -> Callable:
     Returns:
         Callable: cached query
     """
-    _cached = functools.cache(func)
+    @functools.cache
+    def _cached(_: tuple, *args, **kwargs) -> object:
+        return func(*args, **kwargs)
 
     @functools.wraps(func)
     def _query(*args, **kwargs) -> object:
-        return copy.deepcopy(_cached(*args, **kwargs))
+        return copy.deepcopy(_cached((Item.Revision, CONSTANTS.Revision), *args, **kwargs))
 
     _query.cache_clear = _cached.cache_clear
     return _query
@@ -421,7 +423,7 @@ class Stash():
         return [x for x in items if x.CLASSIFIER in classifier]
 
     @functools.cache  # noqa: B019
-    def __get_items_by_attribute(self, items: Iterable[Item], attname: Iterable[str], attvalue: Iterable[str]) -> List[Item]:
+    def __get_items_by_attribute(self, items: Iterable[Item], attname: Iterable[str], attvalue: Iterable[str], _: object) -> List[Item]:
         if not attname:
             return items
 
@@ -483,7 +485,7 @@ class Stash():
                 tuple(in_list), tuple(classifier))
         if attribute:
             in_list = self.__get_items_by_attribute(
-                tuple(in_list), tuple(attribute), tuple(attributeValue))
+                tuple(in_list), tuple(attribute), tuple(attributeValue), Item.Revision)
         return sorted(set(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..27925ad 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -17,6 +17,7 @@ class Constants():
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
         self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__revision = object()
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -41,6 +42,15 @@ class Constants():
             data = data.get(value, {})
         return data
 
+    @property
+    def Revision(self) -> object:
+        """Revision of the constants
+
+        Returns:
+            object: changes whenever the constants are changed
+        """
+        return self.__revision
+
     def AddConstants(self, _dict: dict) -> None:
         """Add constants to the existing
 
@@ -57,6 +67,7 @@ class Constants():
                     a[k] += v
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__revision = object()
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -74,6 +85,7 @@ class Constants():
                     a[k] = [x for x in a[k] if x not in v]
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__revision = object()
 
     def OverrideConstants(self, _dict: dict) -> None:
         """Override constants in the existing db
@@ -91,6 +103,7 @@ class Constants():
                     a[k] = v
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__revision = object()
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From 38b3933294017cf8d92ad4bafaa2053db7ea4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 20/71] fix: a failed attempt to add a file does not leave
 anything behind

---
 oelint_parser/cls_stash.py | 39 ++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1ac9071..232fdf3 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -156,6 +156,7 @@ class Stash():
         self.__lastline = 0
         self.__recipe_ends = {}
         self.__append_items = {}
+        self.__moved = []
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -195,6 +196,31 @@ class Stash():
         Returns:
             list -- List of {oelint_parser.cls_item.Item}
         """
+        if self.__loading:
+            # pulled in by another file
+            return self.__add_file(_file, lineOffset, forcedLink)
+        _items = len(self.__list)
+        _state = (set(self.__seen_files), set(self.__seen_classes), dict(self.__map),
+                  dict(self.__recipe_ends), dict(self.__append_items), self.__fingerprint.copy())
+        self.__lastline = 0
+        self.__moved = []
+        try:
+            return self.__add_file(_file, lineOffset, forcedLink)
+        except BaseException:
+            # a failed attempt does not leave anything behind
+            self.__loading.clear()
+            (self.__seen_files, self.__seen_classes, self.__map,
+             self.__recipe_ends, self.__append_items, self.__fingerprint) = _state
+            for item, _line in reversed(self.__moved):
+                item.Line = _line
+            del self.__list[_items:]
+            self._clear_cached()
+            raise
+
+    def __link(self, _file: str, other: str) -> None:
+        self.__map[_file] = self.__map.get(_file, []) + [other]
+
+    def __add_file(self, _file: str, lineOffset: int, forcedLink: str) -> List[Item]:
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
@@ -203,7 +229,7 @@ class Stash():
             # a class is parsed just once and
             # a file might include itself, directly or through other files
             if forcedLink:
-                self.__map.setdefault(forcedLink, []).append(_file)
+                self.__link(forcedLink, _file)
                 self._clear_cached()
             return []
         if not self.__quiet:
@@ -212,8 +238,6 @@ class Stash():
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
         _first = len(self.__list)
-        if not self.__loading:
-            self.__lastline = 0
         self.__loading.add(_file)
         try:
             res = get_items(self,
@@ -227,22 +251,20 @@ class Stash():
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-            if forcedLink not in self.__map:
-                self.__map[forcedLink] = []
-            self.__map[forcedLink].append(_file)
+            self.__link(forcedLink, _file)
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
             self.__append_items[_file] = self.__list[_first:] + res
             for x in self.__map:
                 if x.endswith(".bb") and self.__append_matches(_file, x):
-                    self.__map[x].append(_file)
+                    self.__link(x, _file)
                     self.__place_appends(x)
         elif _file.endswith(".bb"):
             self.__recipe_ends[_file] = max(self.__recipe_ends.get(_file, 0), self.__lastline)
             for x in self.__append_items:
                 if self.__append_matches(x, _file):
-                    self.__map[_file].append(x)
+                    self.__link(_file, x)
             self.__place_appends(_file)
 
         self.AddDistroMachineFromLayer(_file)
@@ -267,6 +289,7 @@ class Stash():
             _offset = _end - min(x.Line - x.InFileLine for x in items if x.Origin == append)
             if _offset > 0:
                 for item in items:
+                    self.__moved.append((item, item.Line))
                     item.Line += _offset
             _end = max(_end, max(x.Line for x in items))
             if _offset > 0:
-- 
2.43.0


From 95fe60e57a0c05380a36bf57c3a68f76f58ddb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:55 +0000
Subject: [PATCH 21/71] fix: fingerprints are the same in every process

---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 472652a..be20467 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -264,7 +264,9 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        # the order within sets differs from process to process
+        _attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=_attr)
 
 
 class Variable(Item):
-- 
2.43.0


From e334e81b96b35554b7e70cf70e6bfc33ccbf5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 22/71] fix: items on the same line are returned in the order
 they were added

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 232fdf3..ab60399 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -509,7 +509,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue), Item.Revision)
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From 917c3955cb054ae6de6b1dead0b39986ecfe0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 23/71] fix: machines and distros of a layer are added once and
 in a fixed order

---
 oelint_parser/cls_stash.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index ab60399..0f21388 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -362,12 +362,14 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in sorted(glob.glob(os.path.join(_root, "conf", "distro", "*.conf"))):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
-                CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+                if _fn not in CONSTANTS.DistrosKnown:
+                    CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
+            for conf in sorted(glob.glob(os.path.join(_root, "conf", "machine", "*.conf"))):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
-                CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
+                if _fn not in CONSTANTS.MachinesKnown:
+                    CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
     def Finalize(self) -> None:
         """finalize the dependencies within the stash
-- 
2.43.0


From 25c0e39b03ccf82c035a5ac63da7552e1f14b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 24/71] fix: files that cannot be read or decoded do not break
 the expansion of read_file

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0f21388..66a896d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -886,7 +886,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except (OSError, ValueError):
                 res = ''
         return res
 
-- 
2.43.0


From 19624dbc65b85e56fd32056645b94b4a589510f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 25/71] fix: files are read as UTF-8 regardless of the locale

---
 oelint_parser/cls_stash.py | 2 +-
 oelint_parser/constants.py | 2 +-
 oelint_parser/parser.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 66a896d..88efefa 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -884,7 +884,7 @@ class Stash():
             try:
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
-                with open(_fullpath) as i:
+                with open(_fullpath, encoding='utf-8') as i:
                     res = i.read()
             except (OSError, ValueError):
                 res = ''
diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 27925ad..b76c916 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -21,7 +21,7 @@ class Constants():
 
     def __load_db(self, path: str) -> dict:
         try:
-            with open(path) as _in:
+            with open(path, encoding='utf-8') as _in:
                 return json.load(_in)
         except (OSError, json.JSONDecodeError):
             sys.stderr.write('Cannot load constant database\n')
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 892db5e..7b24079 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -200,7 +200,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
     """
     try:
         prep_lines = []
-        with open(_file) as i:
+        with open(_file, encoding='utf-8') as i:
             _iter = enumerate(i.readlines())
             nextbuf = ''
             num = 1
-- 
2.43.0


From c85282c91caef2ba499837cca6f22abdb033dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 26/71] fix: constant files which are not text are handled as
 unloadable

---
 oelint_parser/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index b76c916..fd8dbd7 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -23,7 +23,7 @@ class Constants():
         try:
             with open(path, encoding='utf-8') as _in:
                 return json.load(_in)
-        except (OSError, json.JSONDecodeError):
+        except (OSError, ValueError):
             sys.stderr.write('Cannot load constant database\n')
             return {}
 
-- 
2.43.0


From d31a23ffaf13d27412b60a33589461f41b72a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 27/71] fix: dictionaries passed to Constants are not modified
 later on

---
 oelint_parser/constants.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index fd8dbd7..ea34e80 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
         self.__revision = object()
 
     def __load_db(self, path: str) -> dict:
@@ -66,7 +67,7 @@ class Constants():
                 else:
                     a[k] += v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
         self.__revision = object()
 
     def RemoveConstants(self, _dict: dict) -> None:
@@ -84,7 +85,7 @@ class Constants():
                 else:
                     a[k] = [x for x in a[k] if x not in v]
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
         self.__revision = object()
 
     def OverrideConstants(self, _dict: dict) -> None:
@@ -102,7 +103,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
         self.__revision = object()
 
     @property
-- 
2.43.0


From 04bd540e5988618a09e3e2a14ce8e16c5c0b86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 28/71] fix: Constants.GetByPath returns an empty dictionary
 for paths below a list or value

---
 oelint_parser/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index ea34e80..e3d9be6 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -40,7 +40,7 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
-            data = data.get(value, {})
+            data = data.get(value, {}) if isinstance(data, dict) else {}
         return data
 
     @property
-- 
2.43.0


From 048bed9ad32cbe2105a0a9433e1f71c6ab601e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 29/71] fix: Constants.RemoveConstants removes single values

---
 oelint_parser/constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index e3d9be6..44bd2bf 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -82,8 +82,10 @@ class Constants():
                     pass
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
-                else:
+                elif isinstance(a[k], list):
                     a[k] = [x for x in a[k] if x not in v]
+                else:
+                    del a[k]
             return a
         self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
         self.__revision = object()
-- 
2.43.0


From 98829a276d433e9cca8acdaf1c283ef3f22ca137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 30/71] fix: slices, copies and sums of result lists are result
 lists

---
 oelint_parser/cls_stash.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 88efefa..213a957 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -61,13 +61,38 @@ class Stash():
             """
             self._stash = stash
             super().__init__()
-            self.data = items
+            self.data = list(items)
 
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
-        def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+        def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
+            if isinstance(index, slice):
+                return Stash.StashList(self._stash, self.data[index])
+            return self.data[index]
+
+        def __add__(self, other: Iterable[Item]) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, [*self.data, *other])
+
+        def __radd__(self, other: Iterable[Item]) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, [*other, *self.data])
+
+        def __mul__(self, n: int) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data * n)
+
+        __rmul__ = __mul__
+
+        def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
+            self.data += __value
+            return self
+
+        def copy(self) -> 'Stash.StashList':
+            """Shallow copy of the list
+
+            Returns:
+                Stash.StashList: copy
+            """
+            return Stash.StashList(self._stash, self.data)
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
-- 
2.43.0


From 103f51eb9e860b86ddf72a2debde6e17c72b7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 31/71] fix: StashList.extend extends the list

---
 oelint_parser/cls_stash.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 213a957..40624e7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -121,8 +121,7 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            self.data.extend(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
-- 
2.43.0


From ad3fe1a0256029dc9ee968b94e68c584392ca294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 32/71] fix: any iterable of items can be appended and removed,
 removing is all or nothing

---
 oelint_parser/cls_stash.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 40624e7..257e1ea 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -109,11 +109,10 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
-                    self.data.append(_item)
-            else:
+            if isinstance(item, Item):
                 self.data.append(item)
+            else:
+                self.data.extend(item)
 
         def extend(self, other: 'Stash.StashList') -> None:
             """Extend list
@@ -129,11 +128,10 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
-                    self.data.remove(_item)
-            else:
-                self.data.remove(item)
+            _data = self.data[:]
+            for _item in [item] if isinstance(item, Item) else list(item):
+                _data.remove(_item)
+            self.data[:] = _data
 
         def reduce(self, filename: str = None,
                    classifier: Union[Iterable[str], str] = None,
@@ -354,11 +352,10 @@ class Stash():
         Args:
             item (Item): Item(s) to append
         """
-        if isinstance(item, (list, tuple, Stash.StashList)):
-            for _item in item:
-                self.__list.append(_item)
-        else:
+        if isinstance(item, Item):
             self.__list.append(item)
+        else:
+            self.__list.extend(item)
 
         # Reset caches
         self._clear_cached()
@@ -369,11 +366,10 @@ class Stash():
         Args:
             item (Item): Item(s) to remove
         """
-        if isinstance(item, (list, tuple, Stash.StashList)):
-            for _item in item:
-                self.__list.remove(_item)
-        else:
-            self.__list.remove(item)
+        _list = self.__list[:]
+        for _item in [item] if isinstance(item, Item) else list(item):
+            _list.remove(_item)
+        self.__list = _list
 
         # Reset caches
         self._clear_cached()
-- 
2.43.0


From 975ec98ff535b8d81b4b7bda4426af1ea8ca9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 33/71] fix: appending is all or nothing

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 257e1ea..c880e23 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -112,7 +112,7 @@ class Stash():
             if isinstance(item, Item):
                 self.data.append(item)
             else:
-                self.data.extend(item)
+                self.data += list(item)
 
         def extend(self, other: 'Stash.StashList') -> None:
             """Extend list
@@ -120,7 +120,7 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            self.data.extend(other)
+            self.data += list(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
@@ -355,7 +355,7 @@ class Stash():
         if isinstance(item, Item):
             self.__list.append(item)
         else:
-            self.__list.extend(item)
+            self.__list += list(item)
 
         # Reset caches
         self._clear_cached()
-- 
2.43.0


From 3f97e0f2e9c413bf529cd95d8ecd0e18703d5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 34/71] fix: ExpandVar handles operators regardless of the
 blanks around them

---
 oelint_parser/cls_stash.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c880e23..bcc0693 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -604,31 +604,31 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if INLINE_BLOCK in item.VarValueStripped:
                 _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
+            elif varop in ["=", ":="]:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ?= " and _exp[name] is None:
+            elif varop == "?=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ??= " and _exp[name] is None:
+            elif varop == "??=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " += ":
+            elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += " " + item.VarValueStripped
-            elif varop == " =+ ":
+            elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + " " + _exp[name]
-            elif varop in [" .= "]:
+            elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += item.VarValueStripped
-            elif varop in [" =. "]:
+            elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + _exp[name]
-- 
2.43.0


From 8380947cb827fed3dd64604b2aead81fe80b3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 35/71] fix: remove takes complete words from a variable only

---
 oelint_parser/cls_stash.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index bcc0693..fc6faeb 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -664,9 +664,8 @@ class Stash():
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _remove = Item.safe_linesplit(item.VarValueStripped)
+                _exp[name] = " ".join(x for x in Item.safe_linesplit(_exp[name] or "") if x not in _remove)
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From 1a22248f78cf806c1bd9698e5c4ff136d1ce8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 36/71] fix: ExpandVar applies the operator of values with
 inline code

---
 oelint_parser/cls_stash.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index fc6faeb..a39193b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -595,6 +595,10 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
         _exp = {**_exp, **CONSTANTS.SetsBase}
+
+        def _value(item: Variable) -> str:
+            return self._ReverseInlineBlock(item) if INLINE_BLOCK in item.VarValueStripped else item.VarValueStripped
+
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
@@ -608,30 +612,29 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in ["=", ":="]:
-                _exp[name] = item.VarValueStripped
+            value = _value(item)
+            if varop in ["=", ":="]:
+                _exp[name] = value
             elif varop == "?=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == "??=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
+                _exp[name] += " " + value
             elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
+                _exp[name] = value + " " + _exp[name]
             elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -644,15 +647,15 @@ class Stash():
                 _exp[name] = None
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += _value(item)
             elif "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += _value(item)
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = _value(item) + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
-- 
2.43.0


From 9bfd374535bd5d59cb33e77caeadf4b8a89551d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 37/71] fix: ExpandVar uses weak defaults only if there is no
 other assignment

---
 oelint_parser/cls_stash.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a39193b..62ca4ef 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -599,12 +599,14 @@ class Stash():
         def _value(item: Variable) -> str:
             return self._ReverseInlineBlock(item) if INLINE_BLOCK in item.VarValueStripped else item.VarValueStripped
 
+        _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
                     continue
                 if item.VarName in _exp:
                     del _exp[item.VarName]
+                _weak.pop(item.VarName, None)
                 continue
             if not item.IsImmediateModify():
                 continue
@@ -617,8 +619,8 @@ class Stash():
                 _exp[name] = value
             elif varop == "?=" and _exp[name] is None:
                 _exp[name] = value
-            elif varop == "??=" and _exp[name] is None:
-                _exp[name] = value
+            elif varop == "??=":
+                _weak[name] = value
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
@@ -635,6 +637,10 @@ class Stash():
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = value + _exp[name]
+        # weak defaults apply if there is nothing else
+        for name, value in _weak.items():
+            if _exp.get(name) is None:
+                _exp[name] = value
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
-- 
2.43.0


From 67b8ccee0979391b6d110ea3bb630bf8bca936ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 38/71] fix: ExpandVar without links ignores unset statements
 of linked files

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 62ca4ef..e334e64 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -582,7 +582,8 @@ class Stash():
                                 nolink=nolink)
 
         _res += self.GetItemsFor(filename=filename,
-                                 classifier=Unset.CLASSIFIER)
+                                 classifier=Unset.CLASSIFIER,
+                                 nolink=nolink)
 
         if filename is None:
             if _res:
-- 
2.43.0


From 5c4d6696affda9bb946569c9f81ab3259ce06f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 39/71] fix: spared variables are kept in nested references

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e334e64..78cd77d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -878,7 +878,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -887,7 +887,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From 2ca8126712de9d5994f60bde21b9603a33a9adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 40/71] fix: Finalize does not use links looked up before

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 78cd77d..1803c2c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -401,6 +401,9 @@ class Stash():
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
 
+        # Links looked up before must not be used from here on
+        self._clear_cached()
+
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
                 item.IncludedFrom = v
-- 
2.43.0


From 09664e5b6538d01bbcbf367de5bcc00460019b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 41/71] fix: removing from an unset variable does not add to it

---
 oelint_parser/cls_stash.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1803c2c..0e694c3 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -655,10 +655,7 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += _value(item)
-            elif "append" in item.SubItems:
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += _value(item)
-- 
2.43.0


From 6202e939b98510f266d324ae876910bae8bbe8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 42/71] fix: machines and distros are known once when several
 stashes are loaded at the same time

---
 oelint_parser/cls_stash.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0e694c3..5e9f064 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -3,6 +3,7 @@ import functools
 import glob
 import hashlib
 import os
+import threading
 from collections import UserList
 from typing import Callable, Iterable, List, Set, Union
 from urllib.parse import urlparse
@@ -23,6 +24,7 @@ __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
     r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
+__constants_lock__ = threading.Lock()
 
 
 def _cached_query(func: Callable) -> Callable:
@@ -382,14 +384,18 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in sorted(glob.glob(os.path.join(_root, "conf", "distro", "*.conf"))):
-                _fn, _ = os.path.splitext(os.path.basename(conf))
-                if _fn not in CONSTANTS.DistrosKnown:
-                    CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in sorted(glob.glob(os.path.join(_root, "conf", "machine", "*.conf"))):
-                _fn, _ = os.path.splitext(os.path.basename(conf))
-                if _fn not in CONSTANTS.MachinesKnown:
-                    CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
+            _distros, _machines = (
+                [os.path.splitext(os.path.basename(conf))[0]
+                 for conf in sorted(glob.glob(os.path.join(_root, "conf", kind, "*.conf")))]
+                for kind in ("distro", "machine"))
+            # other stashes could be adding the same names at the same time
+            with __constants_lock__:
+                for _fn in _distros:
+                    if _fn not in CONSTANTS.DistrosKnown:
+                        CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
+                for _fn in _machines:
+                    if _fn not in CONSTANTS.MachinesKnown:
+                        CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
     def Finalize(self) -> None:
         """finalize the dependencies within the stash
-- 
2.43.0


From 3e2c6a6f95b2f6ed6e3c7a43b49aa50cecdadb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 43/71] fix: directories with special characters are searched
 like any other

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5e9f064..d08c422 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -386,7 +386,7 @@ class Stash():
         if _root:
             _distros, _machines = (
                 [os.path.splitext(os.path.basename(conf))[0]
-                 for conf in sorted(glob.glob(os.path.join(_root, "conf", kind, "*.conf")))]
+                 for conf in sorted(glob.glob(os.path.join(glob.escape(_root), "conf", kind, "*.conf")))]
                 for kind in ("distro", "machine"))
             # other stashes could be adding the same names at the same time
             with __constants_lock__:
@@ -706,9 +706,9 @@ class Stash():
         src_uris = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                     attribute=Variable.ATTR_VAR, attributeValue="SRC_URI")
         files_paths = {
-            "{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern) for x in src_uris}
+            "{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern) for x in src_uris}
         for item in src_uris:
-            files_paths.update({"{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern)
+            files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
             res.update(glob.glob(item))
-- 
2.43.0


From c8347556f14a360a82a377510bfcade6b162b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 44/71] fix: looking for the layer of a path starting with two
 slashes comes to an end

---
 oelint_parser/cls_stash.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d08c422..e660d6a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -727,7 +727,8 @@ class Stash():
         while os.path.isdir(_curdir):
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 return _curdir
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
+                # the root, which could be // as well
                 break
             _curdir = os.path.dirname(_curdir)
         return ""
@@ -751,7 +752,8 @@ class Stash():
                     return os.path.join(_curdir, name)
                 else:
                     break
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
+                # the root, which could be // as well
                 break
             _curdir = os.path.dirname(_curdir)
         return ""
-- 
2.43.0


From 6811c620c86d9cc5fab310853a9129e0bac3925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 45/71] fix: branches of inline expressions can contain commas
 and calls

---
 oelint_parser/inlinerep.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..bee879b 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -2,28 +2,31 @@ import regex
 
 from oelint_parser.rpl_regex import RegexRpl
 
+# a single argument of a function call, which could contain strings and nested calls
+__argument__ = r"""(?(DEFINE)(?P<arg>(?:(?&str)|(?&nest)|[^,()\[\]{}'"\n])*?)(?P<str>'[^'\n]*'|"[^"\n]*")""" \
+    r"""(?P<nest>(?:\((?&any)\)|\[(?&any)\]|\{(?&any)\}))(?P<any>(?:(?&str)|(?&nest)|[^()\[\]{}'"\n])*))"""
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    __argument__ + r"(.*)bb\.utils\.filter\(\s*(?P<trueval>(?&arg)),(?&arg),(?&arg)\)")
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    __argument__ + r"(.*)bb\.utils\.contains\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),\s*.\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    __argument__ + r"(.*)bb\.utils\.contains_any\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),\s*.\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    __argument__ + r"(.*)oe\.utils\.conditional\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),\s*(?&arg)\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    __argument__ + r"(.*)oe\.utils\.ifelse\((?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg))\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    __argument__ + r"(.*)oe\.utils\.any_distro_features\((?&arg),\s*(?P<feature>(?&arg))(,\s*(?P<trueval>(?&arg))(,\s*(?P<falseval>(?&arg)))*)*\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    __argument__ + r"(.*)oe\.utils\.all_distro_features\((?&arg),\s*(?P<feature>(?&arg))(,\s*(?P<trueval>(?&arg))(,\s*(?P<falseval>(?&arg)))*)*\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    __argument__ + r"(.*)oe\.utils\.vartrue\((?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),(?&arg)\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    __argument__ + r"(.*)oe\.utils\.less_or_equal\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),(?&arg)\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    __argument__ + r"(.*)oe\.utils\.version_less_or_equal\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),(?&arg)\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    __argument__ + r"(.*)oe\.utils\.both_contain\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),(?&arg)\)")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
 
-- 
2.43.0


From b697c4c190a6d5552513346c06d866b0b59ac352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 46/71] fix: d.getVar with more than one argument is replaced
 by the variable

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index bee879b..99fd545 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -27,7 +27,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     __argument__ + r"(.*)oe\.utils\.version_less_or_equal\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),\s*(?P<falseval>(?&arg)),(?&arg)\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     __argument__ + r"(.*)oe\.utils\.both_contain\((?&arg),\s*(?&arg),\s*(?P<trueval>(?&arg)),(?&arg)\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From b2f2977d9152c717ebaeda9d4671f4149133c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:40 +0000
Subject: [PATCH 47/71] fix: statements starting with a reference or an
 underscore end a def block

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 7b24079..fa4be95 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,7 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
+__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
 def get_full_scope(_string: str, offset: int, _sstart: int, _send: int) -> str:
-- 
2.43.0


From c16ce4d6e44c35928f6ba8dbd7444dd5bf65880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 48/71] fix: comments and values mentioning a function header
 do not start a function

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index fa4be95..18c585b 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"^\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$:]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
-- 
2.43.0


From 9aab4b15c5b7c2291e740c48bb75e3a9abb0003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 49/71] fix: classes, tasks and functions are separated by any
 blank and by continued lines

---
 oelint_parser/cls_item.py | 6 +++---
 oelint_parser/parser.py   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index be20467..3ef67b8 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -916,7 +916,7 @@ class FunctionExports(Item):
         Returns:
             list -- function names
         """
-        return [x for x in self.__FuncNames.split(" ") if x]
+        return self._safe_linesplit(self.__FuncNames)
 
     def get_items_unaliased(self) -> List[str]:
         """Get items with their bbclass scope names
@@ -955,8 +955,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self._safe_linesplit(before or "")
+        self.__After = self._safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 18c585b..1867cfb 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,9 +44,9 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>\S+)")
+    r"^(\s*|\t*)(?P<statement>include|require)[\s\x1b]+(?P<incname>[^\s\x1b]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask[\s\x1b]+(?P<func>[\w\-]+)[\s\x1b]*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
@@ -330,7 +330,7 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -356,7 +356,7 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
-- 
2.43.0


From ef8c6b8bfe081119ae356d11ddf74688ec87eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 50/71] fix: single-quoted values are stripped and exported
 like double-quoted ones

---
 oelint_parser/cls_item.py | 12 +++++++++---
 oelint_parser/parser.py   |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 3ef67b8..4aca721 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -171,6 +171,12 @@ class Item():
     def _safe_linesplit(self, string: str) -> List[str]:
         return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x]
 
+    @staticmethod
+    def _strip_quotes(value: str) -> str:
+        _value = value.strip()
+        # a value is quoted either way
+        return _value.strip("'" if _value.startswith("'") else '"')
+
     def get_items(self) -> List[str]:
         """Return single items
 
@@ -384,7 +390,7 @@ class Variable(Item):
         Returns:
             str: stripped version of variable value
         """
-        return self.VarValue.strip().lstrip('"').rstrip('"')
+        return self._strip_quotes(self.VarValue)
 
     def IsAppend(self) -> bool:
         """Check if operation is an append
@@ -421,7 +427,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValueStripped
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
@@ -873,7 +879,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self.__value.strip('"')
+        return self._strip_quotes(self.__value)
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1867cfb..f092799 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>.+?)\s*(\+|\?|\:|\.)*=(\+|\.)*\s*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 17b71e59b01b3c413529f3f33a64ecf9b1a34950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 51/71] fix: the raw body of a function starts behind the
 complete function header

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 4aca721..f37b036 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -645,7 +645,7 @@ class Function(Item):
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[self.Raw.find("{", self.Raw.find(")")) + 1:].rstrip().rstrip("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From c93191c6d146b7aa38e55657abb2925c6ea4d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:58 +0000
Subject: [PATCH 52/71] fix: URI options and locations are not cut at = and ?

---
 oelint_parser/cls_stash.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e660d6a..d8af43c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -778,18 +778,20 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
         _tmp = _url.netloc
         if _url.path:
             _tmp += "/" + _url.path.lstrip("/")
-        _path = _tmp.split(";")[0]
+        if _url.query:
+            _tmp += "?" + _url.query
+        if _url.fragment:
+            _tmp += "#" + _url.fragment
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
-                       for x in _options if "=" in x}
-        return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
+        _parsed_opt = dict(x.split("=", 1) for x in _options if "=" in x)
+        return {"scheme": _scheme, "src": _tmp, "options": _parsed_opt}
 
     @_cached_query
     def SafeLineSplit(self, string: str) -> List[str]:
-- 
2.43.0


From 203ee4fc3084a93649635e06c18fc642706f1343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 53/71] fix: blanks in PACKAGES_DYNAMIC do not make every
 package a dynamic one

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d8af43c..eaa75a7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1036,8 +1036,9 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            # an empty pattern would match everything
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From 922c77219422ac3111112811c9250b7c027c02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 54/71] fix: class-nativesdk is a class override of functions,
 too

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index f37b036..7ad862b 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -230,7 +230,7 @@ class Item():
         chunks = name.split(self.__OverrideDelimiter)
         if name in ['__anonymous']:
             return (name, '')
-        _marker = ["append", "prepend", "class-native",
+        _marker = ["append", "prepend", "class-native", "class-nativesdk",
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
@@ -750,7 +750,7 @@ class Function(Item):
             str -- machine specific modifier or ""
         """
         for x in self.SubItems:
-            if x not in ["append", "prepend", "class-native", "class-cross", "class-target", "remove", "machine"]:
+            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                 return x
         return ""
 
-- 
2.43.0


From 2a61eb21c4726dbd56e1ab7ddff4e61f6e912e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:26 +0000
Subject: [PATCH 55/71] fix: ignored classes and includes are left out one by
 one and keep their statements

---
 oelint_parser/parser.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f092799..8eddcfb 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -341,7 +341,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if inh_item.removesuffix(".bbclass") in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             stash.AddFile(
@@ -367,7 +367,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if inh_item.removesuffix(".bbclass") in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             stash.AddFile(
@@ -430,9 +430,7 @@ def get_items(stash: object,
                     includename = stash.ExpandTerm(_file, m.group("incname"))
                     _path = stash.FindLocalOrLayer(
                         includename, os.path.dirname(_file))
-                    if _path:
-                        if includename in CONSTANTS.IncludeIgnore:
-                            continue
+                    if _path and includename not in CONSTANTS.IncludeIgnore:
                         stash.AddFile(
                             _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                         includeOffset = max(includeOffset, stash.LastLine - line["line"])
-- 
2.43.0


From dab061123e442dde633e1f55a6da8552ed6cc53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:54 +0000
Subject: [PATCH 56/71] fix: files with any extension can be included by
 several files

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index eaa75a7..61aba30 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -247,7 +247,7 @@ class Stash():
     def __add_file(self, _file: str, lineOffset: int, forcedLink: str) -> List[Item]:
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
+        if _file in self.__seen_files and not forcedLink and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
             return []
         if _file in self.__seen_classes or _file in self.__loading:
             # a class is parsed just once and
-- 
2.43.0


From ec34c5e424abcfb4ef263c2713f8b43b8d921462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 57/71] fix: package and resource names are sorted lists, as
 documented

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 61aba30..5be2821 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -957,7 +957,7 @@ class Stash():
                     else:
                         _pkg = pkg.replace("${PN}", "")
                     res.add(_pkg)
-        return res
+        return sorted(res)
 
     @_cached_query
     def GetValidNamedResources(self, _file: str) -> List[str]:
@@ -980,7 +980,7 @@ class Stash():
                 if "name" in _url["options"]:
                     res.add(_url["options"]["name"].replace(
                         "${PN}", _recipe_name))
-        return res
+        return sorted(res)
 
     @_cached_query
     def IsImage(self, _file: str) -> bool:
-- 
2.43.0


From 635936b44f25579834b5caaad749a73c13a61e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 58/71] fix: remove works on expanded values

---
 oelint_parser/cls_stash.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5be2821..f3c8d4f 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -669,7 +669,8 @@ class Stash():
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = _value(item) + _exp[name]
-        # and now for the run with remove
+        # and now for the run with remove, which applies to the expanded value
+        _removed = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
@@ -680,16 +681,16 @@ class Stash():
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
-                _remove = Item.safe_linesplit(item.VarValueStripped)
-                _exp[name] = " ".join(x for x in Item.safe_linesplit(_exp[name] or "") if x not in _remove)
+                _removed.setdefault(name, []).extend(
+                    Item.safe_linesplit(self.ExpandTerm(filename, _value(item))))
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
             _newkey = self.ExpandTerm(filename, k)
             if _newkey not in _finalexp:
                 _finalexp[_newkey] = []
-            _finalexp[_newkey] += Item.safe_linesplit(
-                self.ExpandTerm(filename, v or ""))
+            _finalexp[_newkey] += [x for x in Item.safe_linesplit(self.ExpandTerm(filename, v or ""))
+                                   if x not in _removed.get(k, [])]
         return _finalexp
 
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
-- 
2.43.0


From 43d4c7f29903297b788fadbe789f8ef47ca82c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 59/71] fix: expanded values show every inline expression that
 is not known, and no other one

---
 oelint_parser/cls_stash.py | 5 +++--
 oelint_parser/parser.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f3c8d4f..8915b83 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -851,8 +851,9 @@ class Stash():
 
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
-        for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+        for block, repl in varref.InlineBlocks:
+            if repl == INLINE_BLOCK:
+                res = res.replace(repl, block, 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 8eddcfb..451539c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From 1784eaa73b95e6d4fc35692b9740ad39e2c7f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 60/71] fix: paths of addpylib and addfragments do not contain
 the blanks behind them

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 451539c..c7be491 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,11 +53,11 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.*\S)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
     r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>.+)\])*")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
+    r"addfragments\s+(?P<path>.*\S)\s+(?P<variable>.*\S)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$:]+)?\s*\(\s*\)\s*\{")
-- 
2.43.0


From 92440b92878dc45a4831965e305f187f80a4f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 61/71] fix: def blocks can be written with a tab behind def

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index c7be491..a7d956a 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -147,7 +147,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
                 except StopIteration:
                     stopiter = True
                     next_ = ''
-        elif res.strip().startswith("def "):
+        elif res.strip().startswith(("def ", "def\t")):
             stopiter = False
             while not stopiter:
                 try:
-- 
2.43.0


From 577f2059fe4d56a4c07529744efbc82356ac74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 62/71] fix: functions whose names start with python or
 fakeroot are what they are

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a7d956a..b61f6d0 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python(?=\s|\())\s*|(?P<fr>fakeroot(?=\s)\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 816b38ba2d9129f575ed662f5217472f78593a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:00 +0000
Subject: [PATCH 63/71] fix: names of tasks containing before or after do not
 end a list of tasks

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index b61f6d0..74fc057 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)[\s\x1b]+(?P<incname>[^\s\x1b]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask[\s\x1b]+(?P<func>[\w\-]+)[\s\x1b]*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask[\s\x1b]+(?P<func>[\w\-]+)[\s\x1b]*((before(?![\w\-])\s*(?P<before>(([^#\n]*(?=(?<![\w\-])after(?![\w\-])))|([^#\n]*))))|(after(?![\w\-])\s*(?P<after>(([^#\n]*(?=(?<![\w\-])before(?![\w\-])))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From ae623e280ed73ab9fc8819069b2b2160387df166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 64/71] fix: continued lines starting with an x are split off
 like all others

---
 oelint_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 74fc057..b1e2426 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -183,7 +183,8 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           "cnt": raw_line.replace("\n", "").replace("\\", chr(0x1b))}
+           # the blank keeps continued lines starting with an x apart from hex escapes
+           "cnt": raw_line.replace("\\\nx", "\\ x").replace("\n", "").replace("\\", chr(0x1b))}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 9a2495a7a6c4f36158393cf2c8c0b22ac7926377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:52 +0000
Subject: [PATCH 65/71] fix: invalid patterns in PACKAGES_DYNAMIC do not match
 instead of raising

---
 oelint_parser/cls_stash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8915b83..edf7e5a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1057,7 +1057,11 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                # what isn't a valid pattern doesn't match anything
+                continue
 
         return False
-- 
2.43.0


From 5722d460f854d6e8d0f3db4e61afd28eaf02f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:14 +0000
Subject: [PATCH 66/71] fix: overrides of functions repeating a part of the
 name are split at the right part

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 7ad862b..b929a1d 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -234,9 +234,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for index, i in enumerate(chunks[1:], start=1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[index:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 4ffac26d8db1dc6f1ed71ff850ec3740f98793ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:14 +0000
Subject: [PATCH 67/71] fix: finalizing the links does not change where
 bbappends are placed

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index edf7e5a..bedd42d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -308,7 +308,7 @@ class Stash():
         # one after the other to the end of the recipe
         _end = self.__recipe_ends.get(recipe, 0)
         for append, items in self.__append_items.items():
-            if append not in self.__map[recipe] or not items:
+            if not self.__append_matches(append, recipe) or not items:
                 continue
             _offset = _end - min(x.Line - x.InFileLine for x in items if x.Origin == append)
             if _offset > 0:
@@ -319,7 +319,7 @@ class Stash():
             if _offset > 0:
                 # the bbappend could be shared with other recipes
                 for x in self.__recipe_ends:
-                    if x != recipe and append in self.__map[x]:
+                    if x != recipe and self.__append_matches(append, x):
                         self.__place_appends(x)
 
     @staticmethod
-- 
2.43.0


From b5076bd06c6b1187d1e67aee995dae7485f3b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:44 +0000
Subject: [PATCH 68/71] fix: quotes at the ends of a branch of an inline
 expression belong to its value

---
 oelint_parser/inlinerep.py | 50 ++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 99fd545..664de59 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -30,6 +30,14 @@ __oe_utils_both_contain_regex__ = regex.compile(
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,.*?)?\)')
 
 
+def __unquote__(arg: str) -> str:
+    # only the quotes around the argument, not the ones that belong to its value
+    arg = arg.strip()
+    if len(arg) > 1 and arg[0] in "\"'" and arg[-1] == arg[0]:
+        return arg[1:-1]
+    return arg
+
+
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     """bb.utils.filter emulation
 
@@ -46,7 +54,7 @@ def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -65,8 +73,8 @@ def bb_utils_contains(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -85,8 +93,8 @@ def bb_utils_contains_any(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -105,8 +113,8 @@ def oe_utils_conditional(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_conditional_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -125,8 +133,8 @@ def oe_utils_ifelse(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_ifelse_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -147,8 +155,8 @@ def oe_utils_any_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return __unquote__(falseval)
+        return __unquote__(trueval)
     return None
 
 
@@ -169,8 +177,8 @@ def oe_utils_all_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return __unquote__(falseval)
+        return __unquote__(trueval)
     return None
 
 
@@ -189,8 +197,8 @@ def oe_utils_vartrue(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_vartrue_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -209,8 +217,8 @@ def oe_utils_less_or_equal(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -229,8 +237,8 @@ def oe_utils_version_less_or_equal(_in: str, negative_clause: bool = False) -> s
     m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return __unquote__(m.group('falseval'))
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -250,7 +258,7 @@ def oe_utils_both_contain(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return __unquote__(m.group('trueval'))
     return None
 
 
@@ -267,7 +275,7 @@ def d_getvar(_in: str) -> str:
         return None
     m = RegexRpl.match(__d_getvar_regex__, _in)
     if m:
-        return '${' + m.group("val").strip("\"'") + '}'
+        return '${' + __unquote__(m.group("val")) + '}'
     return None
 
 
-- 
2.43.0


From 87f9829a48a924e127dd5a549c2c909e55eeefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:43 +0000
Subject: [PATCH 69/71] fix: placing bbappends that pull in each other ends

---
 oelint_parser/cls_stash.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index bedd42d..f0fdc16 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -279,7 +279,11 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            self.__append_items[_file] = self.__list[_first:] + res
+            # when pulled in by another file, the place is the one of the statement doing so
+            if self.__loading:
+                self.__append_items.setdefault(_file, [])
+            else:
+                self.__append_items[_file] = self.__list[_first:] + res
             for x in self.__map:
                 if x.endswith(".bb") and self.__append_matches(_file, x):
                     self.__link(x, _file)
@@ -306,21 +310,22 @@ class Stash():
     def __place_appends(self, recipe: str) -> None:
         # pretend that the bbappends, and all the files they pull in, are added
         # one after the other to the end of the recipe
-        _end = self.__recipe_ends.get(recipe, 0)
-        for append, items in self.__append_items.items():
-            if not self.__append_matches(append, recipe) or not items:
-                continue
-            _offset = _end - min(x.Line - x.InFileLine for x in items if x.Origin == append)
-            if _offset > 0:
-                for item in items:
-                    self.__moved.append((item, item.Line))
-                    item.Line += _offset
-            _end = max(_end, max(x.Line for x in items))
-            if _offset > 0:
-                # the bbappend could be shared with other recipes
-                for x in self.__recipe_ends:
-                    if x != recipe and self.__append_matches(append, x):
-                        self.__place_appends(x)
+        _todo = [recipe]
+        while _todo:
+            _recipe = _todo.pop()
+            _end = self.__recipe_ends.get(_recipe, 0)
+            for append, items in self.__append_items.items():
+                if not items or not self.__append_matches(append, _recipe):
+                    continue
+                _offset = _end - min(x.Line - x.InFileLine for x in items if x.Origin == append)
+                if _offset > 0:
+                    for item in items:
+                        self.__moved.append((item, item.Line))
+                        item.Line += _offset
+                    # the bbappend could be shared with other recipes
+                    _todo += [x for x in self.__recipe_ends if x != _recipe and x not in _todo and
+                              self.__append_matches(append, x)]
+                _end = max(_end, max(x.Line for x in items))
 
     @staticmethod
     def __append_matches(append: str, recipe: str) -> bool:
-- 
2.43.0


From 36e823a3619c1f33b481b9cdc9cbb059deafaf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:01 +0000
Subject: [PATCH 70/71] fix: escaped quotes at the ends of a value are not cut
 off with the quotes around it

---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index b929a1d..71ec895 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -174,7 +174,9 @@ class Item():
     @staticmethod
     def _strip_quotes(value: str) -> str:
         _value = value.strip()
-        # a value is quoted either way
+        # a value is quoted either way, and could contain escaped quotes at its ends
+        if len(_value) > 1 and _value[0] in "\"'" and _value[-1] == _value[0]:
+            return _value[1:-1]
         return _value.strip("'" if _value.startswith("'") else '"')
 
     def get_items(self) -> List[str]:
-- 
2.43.0


From aa09b6f84810d4427e799c1ae8ed4dce06c0b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:11 +0000
Subject: [PATCH 71/71] fix: a bbappend without any content is reported as
 lone, too

---
 oelint_parser/cls_stash.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f0fdc16..3e0fb6b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -441,6 +441,8 @@ class Stash():
         __linked_appends = set()
         __appends = {
             x.Origin for x in self.__list if x.Origin.endswith('.bbappend')}
+        # a file does not need to contain anything
+        __appends.update(x for x in self.__map if x.endswith('.bbappend'))
         for k, v in self.__map.items():
             if k.endswith('.bb'):
                 __linked_appends.update(
-- 
2.43.0

