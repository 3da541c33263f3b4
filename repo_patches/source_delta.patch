From ded9ad4cea77b1305aceb700bd393256f25d562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 01/57] fix: keep earlier records when an integer path key
 repeats

With dynamic_path_key_to_int, value_to_list looked the text form of the key
up, did not find it and replaced the results by None.
---
 ttp/ttp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..5ddf2bc 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2888,6 +2888,9 @@ class _results_class:
         """
         if PATH:
             name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer
+                name = int(name) if name.isdigit() else name
             # add support for null path
             if name == "_":
                 if len(PATH) == 1:  # reached end of PATH, process DATA and return it
-- 
2.43.0


From ac47e45804cc00efd1ce2d8b91227fdfd2ec7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 02/57] fix: null path items must not appear in newly created
 branches

list_to_dict_fwd compared the (name, asterisks) tuple with '_', and only one
null item in a row was skipped elsewhere.
---
 ttp/ttp.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5ddf2bc..dcc1e88 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2900,8 +2900,7 @@ class _results_class:
                         DATA[-1].update(result)
                     return DATA
                 else:  # have more path items, need to skip null path,
-                    _ = PATH.pop(0)  # remove null path item to skip it
-                    name = PATH[0][0]
+                    return self.value_to_list(DATA, PATH[1:], result)
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2931,11 +2930,8 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0] == "_":
-                if len(KEYS) == 1:
-                    return {}
-                else:
-                    _ = KEYS.pop(0)
+            if KEYS[0][0] == "_":
+                return self.list_to_dict_fwd(KEYS[1:])
             name = KEYS[0][0]
             asterisk_count = KEYS[0][1]
             if self._ttp_["dynamic_path_key_to_int"]:
@@ -2972,8 +2968,7 @@ class _results_class:
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
-                    _ = PATH.pop(0)  # remove null path item to skip it
-                    name = PATH[0][0]
+                    return self.dict_by_path(PATH[1:], ELEMENT)
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From c2bf844ed5d7c3896436d8a32af99191e4b80f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 03/57] fix: drop matches of all groups nested in an ended
 group

Only the direct parent was checked, so matches of grandchildren of a group
that was ended or filtered were saved in the results.
---
 ttp/ttp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index dcc1e88..c025a76 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1646,6 +1646,7 @@ class _group_class:
         pathchar=".",
         vars=None,
         parent_group_id=None,
+        ancestors_ids=None,
     ):
         """Init method
         Attributes:
@@ -1667,6 +1668,7 @@ class _group_class:
             grp_index (int): unique index of the group
             name (str): dot separate path string representing group result location within results tree
             group_id (tuple): unique ID of the group, tuple of (self.name, self.grp_index,)
+            ancestors_ids (set): group_id of the parent group, its parent and so on
         """
         self._ttp_ = _ttp_
         self.pathchar = pathchar
@@ -1686,6 +1688,7 @@ class _group_class:
         self.name = ""
         self.group_id = ""
         self.parent_group_id = parent_group_id
+        self.ancestors_ids = ancestors_ids or set()
         self.vars = vars or {}
         self.grp_index = grp_index
         self.inputs = []
@@ -1901,6 +1904,7 @@ class _group_class:
                     vars=self.vars,
                     grp_index=g_index,
                     parent_group_id=self.group_id,
+                    ancestors_ids=self.ancestors_ids.union([self.group_id]),
                     _ttp_=self._ttp_,
                 )
             )
@@ -2816,8 +2820,8 @@ class _results_class:
                 if result_data == False:
                     self.ended_groups.add(re_["GROUP"].group_id)
                     continue
-                # if parent is ended skip this child group results
-                elif re_["GROUP"].parent_group_id in self.ended_groups:
+                # if parent or any other ancestor is ended skip this child group results
+                elif not self.ended_groups.isdisjoint(re_["GROUP"].ancestors_ids):
                     continue
                 # evaluate results to check if need to un-end ended group
                 elif re_["GROUP"].group_id in self.ended_groups:
-- 
2.43.0


From d2b4037adb4277c1fada271ad44d070352f0c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 04/57] fix: compare end and start matches by absolute offsets

Offsets relative to the searched slice were compared with absolute ones, so
text in front of a group could change what its _end_ line does.
---
 ttp/ttp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c025a76..f0bd306 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2541,7 +2541,8 @@ class _parser_class:
                     s = start_matches[0].span()[0]
                 # if se is smaller make it bigger except for when start re is _line_,
                 # if start re is _line_ end matches have bigger priority
-                if se < start_matches[-1].span()[0] and not R["IS_LINE"]:
+                # se is an absolute offset, spans are relative to start
+                if se < start_matches[-1].span()[1] + start and not R["IS_LINE"]:
                     se = start_matches[-1].span()[1] + start
             start = start + s
             # if no matches found for any start REs of this group - skip the rest of REs
@@ -2574,7 +2575,10 @@ class _parser_class:
                 check_matches(R, end_matches, results, start)
                 # make e bigger if e is smaller than last end match
                 # and last end match is bigger than last start match
-                if e < end_matches[-1].span()[1] and end_matches[-1].span()[1] > se:
+                if (
+                    e < end_matches[-1].span()[1]
+                    and end_matches[-1].span()[1] + start > se
+                ):
                     e = end_matches[-1].span()[1]
             if e != -1:
                 end = start + e
-- 
2.43.0


From 6c819f5c4b7ca4ed0b374fa9ed863eb4f6155e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 05/57] fix: put dynamic path values in the path literally

Values were used as regular expression replacement templates, so backslash
sequences in them changed; cached values that are not strings raised.
---
 ttp/ttp.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f0bd306..c20b1e4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3221,19 +3221,14 @@ class _results_class:
                     if m in self.record["result"]:
                         self.dyn_path_cache[m] = self.record["result"][m]
                         repl = str(self.record["result"].pop(m))
-                        # try re replacement first
-                        try:
-                            path_item = re.sub(pattern, repl, path_item)
-                        # might fail if match contains '\', try string replace
-                        except re.error:
-                            path_item = re.sub(pattern, "__replace_me__", path_item)
-                            path_item = path_item.replace("__replace_me__", repl)
                     elif m in self.dyn_path_cache:
-                        path_item = re.sub(pattern, self.dyn_path_cache[m], path_item)
+                        repl = str(self.dyn_path_cache[m])
                     elif m in self.variables:
-                        path_item = re.sub(pattern, str(self.variables[m]), path_item)
+                        repl = str(self.variables[m])
                     else:
                         return False
+                    # function returns repl as is, '\' in it are not escapes
+                    path_item = re.sub(pattern, lambda _: repl, path_item)
             path[index] = (
                 path_item,
                 asterisk_count * "*",
-- 
2.43.0


From 28c24094ab987831fed2ea03e0558c024c1ac6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 06/57] fix: clear_result must not touch results already
 returned

It emptied in place the lists result() had returned earlier, and raised
AttributeError when outputs had turned the results into text.
---
 ttp/ttp.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c20b1e4..2b36acb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -705,14 +705,9 @@ class ttp:
         # filter templates objects to clear results for
         templates = [templates] if isinstance(templates, str) else templates
         # clear results
-        if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
-        else:
-            [t_obj.results.clear() for t_obj in self._templates]
+        for t_obj in self._templates:
+            if not templates or t_obj.name in templates:
+                t_obj.results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
-- 
2.43.0


From 4eddd8befd87932ac3051ba34b1fc42a4fd65d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 07/57] fix: add_vars must not change the dictionary given to
 the constructor

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2b36acb..80a0e3d 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -231,7 +231,7 @@ class ttp:
         self._templates = []
         self.base_path = base_path
         self.multiproc_threshold = 5242880  # in bytes, equal to 5MBytes
-        self.vars = vars or {}  # dictionary of variables to add to each template vars
+        self.vars = dict(vars or {})  # dictionary of variables to add to each template vars
         self.lookups = {}
         # setup logging
         logging_config(log_level, log_file)
-- 
2.43.0


From 105e15b7b9dc41626597e180e31b79e379012dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 08/57] fix: keep built-in functions in workers when custom
 functions are added

In multiprocess mode the dictionary of custom functions of a scope replaced
all functions of that scope.
---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 80a0e3d..4a7de28 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -829,7 +829,8 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From 677f1b6ca35df90471454c2d0c1b84cb962e5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 09/57] fix: extend must not skip or lose what follows the
 extend tag

The tag was replaced while its siblings were being enumerated, so the next
sibling was skipped when nothing, or only text, replaced it; lines after a
nested extend were lost, and extend of text within extend raised.
---
 ttp/ttp.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4a7de28..a6c4772 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1312,11 +1312,14 @@ class _template_class:
                     ret.append(t)
         return ret
 
-    def handle_extend(self, template_text=None, template_ET=None, top=True):
+    def handle_extend(
+        self, template_text=None, template_ET=None, top=True, parent_ET=None
+    ):
         """
         Function to handle all extend tags including nested within groups.
 
         :param template_text: (str) template string
+        :param parent_ET: (obj) ET.XML object that template_ET is inserted in
         :return: (str) final template string after extending it
         """
         # load template string to XML etree object
@@ -1328,7 +1331,10 @@ class _template_class:
                 if child.tag == "macro":
                     self.parse_macro(child)
         # recursively iterate over etree handling extend tags
-        for index, child in enumerate(template_ET):
+        parent_ET = template_ET if parent_ET is None else parent_ET
+        index = -1
+        for child in list(template_ET):
+            index += 1
             if child.tag == "extend":
                 path_to_template = child.attrib.get("template", "")
                 content = self._ttp_["utils"]["load_files"](path_to_template, read=True)
@@ -1349,8 +1355,9 @@ class _template_class:
                     len(extend_ET) == 1
                     and extend_ET[0].attrib.get("name") == "_anonymous_"
                 ):
-                    template_ET.text += extend_ET[0].text
+                    parent_ET.text = (parent_ET.text or "") + extend_ET[0].text
                     template_ET.remove(child)
+                    index -= 1
                 # process extended template children to extend parent element
                 else:
                     # run filtering for extended template tags
@@ -1358,9 +1365,19 @@ class _template_class:
                         extend_template=extend_ET, extend_tag=child, top=top
                     )
                     # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=filtered_ET, top=False)
+                    self.handle_extend(
+                        template_ET=filtered_ET, top=False, parent_ET=parent_ET
+                    )
                     # save extended elements as parent children
                     template_ET[index : index + 1] = filtered_ET
+                    index += len(filtered_ET) - 1
+                # keep text that follows extend tag
+                if child.tail and child.tail.strip():
+                    if index >= 0:
+                        last = template_ET[index]
+                        last.tail = (last.tail or "") + child.tail
+                    else:
+                        parent_ET.text = (parent_ET.text or "") + child.tail
             # run recursion for child groups looking for extend tags
             elif child.tag == "group":
                 self.handle_extend(template_ET=child, top=False)
-- 
2.43.0


From f506fcd2dddd94af45bb27896e8f28db6673b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 10/57] fix: handle extend tags within groups written as g or
 grp

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a6c4772..4ff1544 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1379,7 +1379,7 @@ class _template_class:
                     else:
                         parent_ET.text = (parent_ET.text or "") + child.tail
             # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
+            elif child.tag in ["g", "grp", "group"]:
                 self.handle_extend(template_ET=child, top=False)
 
         if top:
-- 
2.43.0


From 665b185e4030579e50580b255a8e41e3e163dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 11/57] fix: load groups that have no text before or after a
 nested tag

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4ff1544..599f3df 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1709,7 +1709,7 @@ class _group_class:
         # extract data:
         self.get_attributes(element.attrib)
         self.set_anonymous_path()
-        self.get_regexes(element.text)
+        self.get_regexes(element.text or "")
         self.get_children(list(element))
 
     def set_anonymous_path(self):
@@ -1922,7 +1922,7 @@ class _group_class:
                 )
             )
             # get regexes from tail
-            if group.tail.strip():
+            if group.tail and group.tail.strip():
                 self.get_regexes(data=group.tail, tail=True)
 
     def set_runs(self):
-- 
2.43.0


From 315f724fbb6fee9b7484dbe9d77c157e0555870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 12/57] fix: macro of one template must not replace macro of
 another

With a custom macro function added all templates shared one dictionary; worker
processes loaded macro tags in the order of a set, not of the template.
---
 ttp/ttp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 599f3df..7dc09f4 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -919,11 +919,11 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
-            set()
-        )  # set to contain macro functions text to transfer into other processes
+            []
+        )  # list of macro functions text to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
@@ -1165,7 +1165,7 @@ class _template_class:
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.add(element.text)
+            self.macro_text.append(element.text)
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
-- 
2.43.0


From 784ca5be313594ef235bd40b50278e7531a0acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 13/57] fix: give custom macro functions to templates nested in
 template tags

---
 ttp/ttp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 7dc09f4..e1138a1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1187,6 +1187,7 @@ class _template_class:
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
                 name=str(template_index),
+                ttp_macro=self._ttp_.get("_custom_functions_", {}).get("macro", {}),
                 _ttp_=self._ttp_,
             )
         )
-- 
2.43.0


From 2af020210b889217b8273476ebfcbb9c15592f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 14/57] fix: joinmatches must not extend lists shared with
 template variables

Joining changed the list in place, so a list set from a template variable grew
in the variable and in other records.
---
 ttp/ttp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e1138a1..791ef18 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3177,6 +3177,8 @@ class _results_class:
                     if isinstance(self.record["result"][k], str):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
+                        # the list might belong to template variables or defaults
+                        self.record["result"][k] = list(self.record["result"][k])
                         if isinstance(result[k], list):
                             self.record["result"][k] += result[k]  # join lists
                         else:
-- 
2.43.0


From 920d21ea043637c5f708ddaaa01f735b8c0126d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 15/57] fix: drop all start matches of a group found after its
 last end

Items were removed from the list that was being iterated over, so every second
one of several start matches of a line was kept.
---
 ttp/ttp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 791ef18..a2d62da 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2600,9 +2600,11 @@ class _parser_class:
                 # can happen if stat re is _line_
                 empty_matches_keys = []
                 for span_start, mathches in results.items():
-                    for item in mathches:
-                        if item[0]["GROUP"] is group and span_start > end:
-                            mathches.remove(item)
+                    mathches[:] = [
+                        item
+                        for item in mathches
+                        if not (item[0]["GROUP"] is group and span_start > end)
+                    ]
                     # if no matches left
                     if mathches == []:
                         empty_matches_keys.append(span_start)
-- 
2.43.0


From f7311bb307b57c073fde49416073ffc47ca35a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 16/57] fix: parsers must not use each other's data in plugin
 functions

Plugin modules were shared, each parser that loaded one put its own _ttp_ in
its globals, so parsers used in turns saw variables and macro of the last one.
Loading a module also replaced custom functions named as its functions.
---
 ttp/ttp.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a2d62da..9aa9285 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -8,6 +8,7 @@ import logging
 import copy
 import ast
 import pickle
+import types
 from xml.etree import cElementTree as ET
 from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
@@ -33,6 +34,8 @@ class CachedModule:
     function directly
     """
 
+    function = None  # actual function, set once loaded
+
     def __init__(self, import_path, parent_dir, function_name, functions, _ttp_):
         self.import_path = import_path
         self.parent_dir = parent_dir
@@ -47,6 +50,12 @@ class CachedModule:
             abs_import = ""
         path = "{abs}{imp}".format(abs=abs_import, imp=self.import_path)
         module = __import__(path, fromlist=[None])
+        # use a copy of the module, as other parsers have their own _ttp_
+        spec = getattr(module, "__spec__", None)
+        if spec is not None:
+            module = types.ModuleType(module.__name__)
+            module.__spec__, module.__file__ = spec, spec.origin
+            spec.loader.exec_module(module)
         # add _ttp_ to module globals space
         setattr(module, "_ttp_", self._ttp_)
         try:
@@ -55,18 +64,26 @@ class CachedModule:
             _name_map_ = {}
         for func_name in self.parent_module_functions:
             name = _name_map_.get(func_name, func_name)
-            self._ttp_[self.parent_dir][name] = getattr(module, func_name)
+            cached = self._ttp_[self.parent_dir].get(name)
+            # skip functions overridden by custom functions
+            if isinstance(cached, CachedModule):
+                cached.function = getattr(module, func_name)
+
+    def __getstate__(self):
+        # functions are loaded anew in the other process
+        return {k: v for k, v in self.__dict__.items() if k != "function"}
 
     def __call__(self, *args, **kwargs):
         # this method invoked on CachedModule class call, triggering function import
-        log.info(
-            "calling CachedModule: module '{}', function '{}'".format(
-                self.import_path, self.function_name
+        if self.function is None:
+            log.info(
+                "calling CachedModule: module '{}', function '{}'".format(
+                    self.import_path, self.function_name
+                )
             )
-        )
-        self.load()
+            self.load()
         # call original function
-        return self._ttp_[self.parent_dir][self.function_name](*args, **kwargs)
+        return self.function(*args, **kwargs)
 
 
 def lazy_import_functions():
-- 
2.43.0


From 47bd6186a04a1ccfcfe2363178e11f4c3a45609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 17/57] fix: tail lines of a discarded record must not go in
 another record

When group functions discarded a record at the start of its child group, lines
after that child were merged in the last saved record, or raised IndexError.
---
 ttp/ttp.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9aa9285..eaed936 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2722,6 +2722,9 @@ class _results_class:
         self.ended_groups = (
             set()
         )  # keeps track of ended groups to not add false matches or filtered results
+        self.discarded_groups = (
+            set()
+        )  # keeps track of groups which current record was discarded by functions
         self.record = {
             "result": {},
             "PATH": [],
@@ -3117,6 +3120,7 @@ class _results_class:
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
         }
+        self.discarded_groups.discard(REDICT["GROUP"].group_id)
 
     def startempty(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3150,6 +3154,7 @@ class _results_class:
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
         }
+        self.discarded_groups.discard(REDICT["GROUP"].group_id)
 
     def add(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3161,7 +3166,10 @@ class _results_class:
         # if different path - that can happen if we have group ended and result
         # actually belongs to another already started group, hence need to save
         # directly into results
-        elif REDICT["GROUP"].group_id in self.started_groups:
+        elif (
+            REDICT["GROUP"].group_id in self.started_groups
+            and REDICT["GROUP"].group_id not in self.discarded_groups
+        ):
             # save current results to results structure and start new record
             self.start(
                 result=result,
@@ -3209,7 +3217,10 @@ class _results_class:
         # if different path - that can happen if we have group ended and result
         # actually belongs to another already started group, hence need to save
         # directly into results
-        elif REDICT["GROUP"].group_id in self.started_groups:
+        elif (
+            REDICT["GROUP"].group_id in self.started_groups
+            and REDICT["GROUP"].group_id not in self.discarded_groups
+        ):
             # save current results to results structure and start new record by calling self.start
             self.start(
                 result=result,
@@ -3293,6 +3304,8 @@ class _results_class:
                 self.record["result"], *args, **kwargs
             )
             if flags == False:
+                if not self.record.get("merge_with_last"):
+                    self.discarded_groups.add(self.record["GRP_ID"])
                 return False
         processed_path = self.form_path(self.record["PATH"])
         if processed_path:
-- 
2.43.0


From 905c46d7a88c55ef376738c5cfa51ca07c9dd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 18/57] fix: tail lines of a record saved without values must
 not raise IndexError

---
 ttp/ttp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index eaed936..a985c41 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3053,7 +3053,7 @@ class _results_class:
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
         if isinstance(E, list) and result_data:
-            if self.record.get("merge_with_last"):
+            if self.record.get("merge_with_last") and E:
                 self._merge_recursively(E[-1], result_data)
             else:
                 E.append(result_data)
@@ -3081,10 +3081,10 @@ class _results_class:
         """
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
-        if isinstance(E, list):
-            copied = E[-1].copy()
-        elif isinstance(E, dict):
-            copied = E.copy()
+        # list is empty if record had no values to save
+        if isinstance(E, list) and E:
+            E = E[-1]
+        copied = E.copy() if isinstance(E, dict) else {}
         copied.update(result_data)
         return copied
 
-- 
2.43.0


From 4c15861f68c51bac7847a856b23538cc42ed0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 19/57] fix: unrange must not fail parsing if range is not made
 of integers

---
 ttp/match/unrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/unrange.py b/ttp/match/unrange.py
index 3a5d452..06b5d8b 100644
--- a/ttp/match/unrange.py
+++ b/ttp/match/unrange.py
@@ -19,10 +19,10 @@ def unrange(data, rangechar, joinchar):
         # form split list checking that i is not empty
         item_split = [i for i in item.split(joinchar) if i]
         if result:
-            start_int = int(result[-1])
             try:
+                start_int = int(result[-1])
                 end_int = int(item_split[0])
-            except ValueError as e:
+            except (ValueError, IndexError) as e:
                 log.error(
                     "ttp.match.unrange: Unrange failed, data '{}', rangechar '{}', joinchar '{}', error: {}".format(
                         data, rangechar, joinchar, e
-- 
2.43.0


From d2407e72cc083dc4dec808794f0a92302387e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 20/57] fix: append and prepend must use values of global
 variables

---
 ttp/match/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 740b518..734b8d6 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -62,7 +62,7 @@ def append(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
@@ -76,7 +76,7 @@ def prepend(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-- 
2.43.0


From 7229e74fa0b22a9f8259fc5d553faa6bad3ebe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 21/57] fix: item must not fail parsing if match result is
 empty

---
 ttp/match/item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/match/item.py b/ttp/match/item.py
index 83c86a1..5a1406e 100644
--- a/ttp/match/item.py
+++ b/ttp/match/item.py
@@ -1,6 +1,9 @@
 def item(data, item_index):
     """Method to return item of iterable at given index"""
     item_index = int(item_index)
+    # no items to return
+    if len(data) == 0:
+        return data, None
     # item_index not out of range
     if 0 <= item_index and item_index <= len(data) - 1:
         return data[item_index], None
-- 
2.43.0


From bc85eecf27e56a15638281c5c4b822c3c78419f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 22/57] fix: group contains must check all variables if first
 one has default value

---
 ttp/group/contains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/group/contains.py b/ttp/group/contains.py
index bccb22d..b589ae4 100644
--- a/ttp/group/contains.py
+++ b/ttp/group/contains.py
@@ -4,6 +4,6 @@ def contains(data, *args):
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
                 if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
-                    return data, False
+                    continue
             return data, True
     return data, False
-- 
2.43.0


From c6bad5d65f74161c1d404619d9b02672ae506f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 23/57] fix: group exclude and excludeall must see matches of
 variables with defaults

---
 ttp/group/exclude.py    | 3 ++-
 ttp/group/excludeall.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/group/exclude.py b/ttp/group/exclude.py
index 548f682..db4c1ed 100644
--- a/ttp/group/exclude.py
+++ b/ttp/group/exclude.py
@@ -3,6 +3,7 @@ def exclude(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             return data, False
     return data, True
diff --git a/ttp/group/excludeall.py b/ttp/group/excludeall.py
index bedfa15..03817d7 100644
--- a/ttp/group/excludeall.py
+++ b/ttp/group/excludeall.py
@@ -4,7 +4,8 @@ def excludeall(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             found_vars.append(var)
     if list(args) == found_vars:
         return data, False
-- 
2.43.0


From a4fc76568ff7610d4355ace987655534d47f7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 24/57] fix: drop matches of the line that follows last end
 line as well

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a985c41..2887ef7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2620,7 +2620,7 @@ class _parser_class:
                     mathches[:] = [
                         item
                         for item in mathches
-                        if not (item[0]["GROUP"] is group and span_start > end)
+                        if not (item[0]["GROUP"] is group and span_start >= end)
                     ]
                     # if no matches left
                     if mathches == []:
-- 
2.43.0


From 461093af05aa0ba262f51bbc8ce4d4913ce66fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 25/57] fix: _headers_ must support tables of less than three
 columns

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2887ef7..f2c239c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2284,7 +2284,7 @@ class _variable_class:
             # find all headers
             headers = re.findall(r"(\S+\s+|\S+)", self.regex)
             # form columns count
-            columns = len(headers) - 2
+            columns = max(1, len(headers) - 2)
             for attribute in self.attributes:
                 if attribute["name"] == "columns":
                     columns = max(1, int(attribute["args"][0]))
-- 
2.43.0


From 92a5145a530b4e83b4a6bdd1a6624fa2d0c22b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 26/57] fix: joinmatches must not fail parsing if only some
 matches are strings

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f2c239c..63b3412 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3201,7 +3201,9 @@ class _results_class:
             # join results:
             for k in result.keys():
                 if k in self.record["result"]:  # if we already have results
-                    if isinstance(self.record["result"][k], str):
+                    if isinstance(self.record["result"][k], str) and isinstance(
+                        result[k], str
+                    ):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
                         # the list might belong to template variables or defaults
-- 
2.43.0


From a0b97e285d069cfb6eda5efc154b4ddc3091b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 27/57] fix: to_int and to_float must not fail parsing if match
 result cannot be converted

---
 ttp/match/to.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..fa40ece 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -14,7 +14,7 @@ def to_list(data):
 def to_int(data):
     try:
         return int(data), None
-    except ValueError:
+    except (ValueError, TypeError):
         log.error(
             "ttp.to_int: ValueError, failed to convert value '{}' to integer".format(
                 data
@@ -26,7 +26,7 @@ def to_int(data):
 def to_float(data):
     try:
         return float(data), None
-    except TypeError:
+    except (ValueError, TypeError):
         log.error(
             "ttp.to_int: TypeError, failed to convert value '{}' to float".format(data)
         )
-- 
2.43.0


From 85791c38caba2543d4fc86fa38f81ee1fba60f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 28/57] fix: end line found before any group started must not
 fail parsing

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 63b3412..154af41 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3245,7 +3245,8 @@ class _results_class:
             self.record["PATH"] != PATH
             and
             # if below is true, this is child group:
-            REDICT["GROUP"].group_id == self.started_groups[-1]
+            self.started_groups
+            and REDICT["GROUP"].group_id == self.started_groups[-1]
         ):
             return
         # action to end current group by adding it to ended groups
-- 
2.43.0


From 0b907fd5200f232d0cc1d55bb17ac754b7b0aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 29/57] fix: group to_int must not truncate values already
 converted to float

---
 ttp/group/to_converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttp/group/to_converters.py b/ttp/group/to_converters.py
index 2a3da45..007cc10 100644
--- a/ttp/group/to_converters.py
+++ b/ttp/group/to_converters.py
@@ -22,6 +22,10 @@ def to_int(data, *keys, intlist=False):
         except KeyError:
             continue
 
+        # functions run again for tail lines, keep values already converted
+        if isinstance(v, float):
+            continue
+
         # do best effort string to int conversion
         try:
             data[k] = int(v)
-- 
2.43.0


From a81cbd5570d8056481f7c98a7bc09c2255e928d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 30/57] fix: lookup must not fail parsing if value is a list or
 dictionary

---
 ttp/group/lookup.py | 3 ++-
 ttp/match/lookup.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 6d6a290..b351464 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -55,7 +55,8 @@ def lookup(
     try:
         if isinstance(lookup_data, dict):
             found_value = lookup_data[data[key]]
-    except KeyError:
+    # TypeError raised if value is a list or dictionary
+    except (KeyError, TypeError):
         return data, None
     # decide what action to do with found value
     if add_field:
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6c9a64e..caa1723 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -39,7 +39,8 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
     # perform lookup:
     try:
         found_value = lookup_data[data]
-    except KeyError:
+    # TypeError raised if value is a list or dictionary
+    except (KeyError, TypeError):
         return data, None
     # decide to replace match result or add new field:
     if add_field is not False:
-- 
2.43.0


From ea7b747801de9edacb9e221225bc421969773adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 31/57] fix: lookup values saved in results must not be lookup
 table's own

---
 ttp/group/lookup.py | 4 +++-
 ttp/match/lookup.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index b351464..7e87648 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -54,7 +55,8 @@ def lookup(
     # perform lookup:
     try:
         if isinstance(lookup_data, dict):
-            found_value = lookup_data[data[key]]
+            # copy to not change lookup table while working with results
+            found_value = deepcopy(lookup_data[data[key]])
     # TypeError raised if value is a list or dictionary
     except (KeyError, TypeError):
         return data, None
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index caa1723..8d03885 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -38,7 +39,8 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
         lookup_data = lookup_data.get(i, {})
     # perform lookup:
     try:
-        found_value = lookup_data[data]
+        # copy to not change lookup table while working with results
+        found_value = deepcopy(lookup_data[data])
     # TypeError raised if value is a list or dictionary
     except (KeyError, TypeError):
         return data, None
@@ -64,7 +66,7 @@ def rlookup(data, name, add_field=False):
         return data, None
     for key in rlookup.keys():
         if key in data:
-            found_value = rlookup[key]
+            found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
     if found_value is None:
-- 
2.43.0


From c9729a711af2ba86c0bef98b661cd402ee243a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 32/57] fix: default results of a group interleaved with
 matches in texts over ten million characters

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 154af41..878efd1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2580,7 +2580,8 @@ class _parser_class:
             if not group_start_found:
                 # handle group with no matches but with start re default values
                 if group.has_start_re_default:
-                    key = 10000000
+                    # default results go after all the matches
+                    key = max(10000000, len(self.DATATEXT))
                     # group.start_re == [] only for tag with no regexes
                     start_re = (
                         {"ACTION": "start", "VARIABLES": group.runs, "GROUP": group}
-- 
2.43.0


From 84a83a0ce2821c1a0156416c60a2ca4d3287ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 33/57] fix: parse in multiprocess never returned if parsing of
 some data raised an exception

---
 ttp/ttp.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 878efd1..c5771f2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -8,6 +8,7 @@ import logging
 import copy
 import ast
 import pickle
+import traceback
 import types
 from xml.etree import cElementTree as ET
 from multiprocessing import Process, cpu_count, JoinableQueue, Queue
@@ -508,9 +509,15 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
-            for i in range(num_jobs):
-                result = results_queue.get()
-                template.form_results(result)
+            results = [results_queue.get() for i in range(num_jobs)]
+            for succeeded, result in results:
+                if not succeeded:
+                    raise RuntimeError(
+                        "ttp.parse: failed to parse data in multiprocess:\n{}".format(
+                            result
+                        )
+                    )
+                template.form_results(pickle.loads(result))
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -880,15 +887,19 @@ class _worker(Process):
             if next_task is None:
                 self.task_queue.task_done()
                 break
-            # set parser object parameters
-            self.parserObj.set_data(
-                next_task["data"],
-                main_results={},
-                input_functions=next_task["input_functions"],
-            )
-            # parse and get results
-            self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.main_results
+            try:
+                # set parser object parameters
+                self.parserObj.set_data(
+                    next_task["data"],
+                    main_results={},
+                    input_functions=next_task["input_functions"],
+                )
+                # parse and get results
+                self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
+                result = (True, pickle.dumps(self.parserObj.main_results))
+            except (Exception, SystemExit):
+                # parent process waits for the result of each task
+                result = (False, traceback.format_exc())
             # put results in the queue and finish task
             self.task_queue.task_done()
             self.results_queue.put(result)
-- 
2.43.0


From 910e0e717258062b6691202b280bfb905851d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 34/57] fix: cache file with unexpected content made ttp
 unusable

---
 ttp/ttp.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c5771f2..622c89e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -98,6 +98,7 @@ def lazy_import_functions():
         "global_vars": {},
         "template_obj": {},
         "vars": {},
+        "__version__": __version__,
     }
     log.info("ttp.lazy_import_functions: starting functions lazy import")
 
@@ -107,26 +108,17 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
+                cached_ttp = pickle.load(f)
             # use unpickled _ttp_ dictionary if it of the same python version
+            # otherwise rebuilt _ttp_ dictionary as it is of different version
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached_ttp["python_major_version"] == version_info.major
+                and cached_ttp.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
-            # rebuilt _ttp_ dictionary as it is of different version
-            else:
-                _ttp_ = {
-                    "macro": {},
-                    "python_major_version": version_info.major,
-                    "global_vars": {},
-                    "template_obj": {},
-                    "vars": {},
-                    "__version__": __version__,
-                }
+                return cached_ttp
     except Exception as e:
         log.warning(
             "ttp.lazy_import_functions: failed load ttp_dict_cache.pickle, loading functions directly, error '{}'".format(
-- 
2.43.0


From f3de9f6d686a90a4d5978716cd807c57d454bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 35/57] fix: group outputs that follow a not existing one were
 not resolved

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 622c89e..9cb55f5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1094,7 +1094,9 @@ class _template_class:
         self.groups_outputs
         """
         for G in self.groups:
-            for output_index, grp_output in enumerate(G.outputs):
+            # iterate over the copy as outputs that not found are removed
+            for grp_output in list(G.outputs):
+                output_index = G.outputs.index(grp_output)
                 group_output_found = False
                 # search through global outputs:
                 for glob_index, glob_output in enumerate(self.outputs):
-- 
2.43.0


From 717a2443dd44166ad651348ea091071707c7dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 36/57] fix: results of all but the first datum lost in
 per_template mode with group specific outputs

---
 ttp/ttp.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9cb55f5..4e60d15 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -532,10 +532,11 @@ class ttp:
                             datum, main_results={}, input_functions=input_obj.functions
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
-                        result = parserObj.main_results
+                        result = parserObj.get_results()
                         template.form_results(result)
             elif template.results_method.lower() == "per_template":
                 results_data = {}
+                grps_results = []
                 for input_name, input_obj in template.inputs.items():
                     for datum in input_obj.data:
                         parserObj.set_data(
@@ -544,8 +545,13 @@ class ttp:
                             input_functions=input_obj.functions,
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
+                        # keep groups outputs results apart, so that results of
+                        # the next datum are saved together with results of this one
                         results_data = parserObj.main_results
-                template.form_results(results_data)
+                        grps_results += parserObj.grps_results
+                parserObj.main_results = results_data
+                parserObj.grps_results = grps_results
+                template.form_results(parserObj.get_results())
 
     def result(self, templates=None, structure="list", **kwargs):
         """Method to get parsing results, supports basic filtering based on
@@ -888,7 +894,7 @@ class _worker(Process):
                 )
                 # parse and get results
                 self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-                result = (True, pickle.dumps(self.parserObj.main_results))
+                result = (True, pickle.dumps(self.parserObj.get_results()))
             except (Exception, SystemExit):
                 # parent process waits for the result of each task
                 result = (False, traceback.format_exc())
@@ -2395,6 +2401,7 @@ class _parser_class:
         self.original_vars = vars
         self.groups = groups
         self.main_results = {}
+        self.grps_results = []
         self.DATATEXT = ""
         self.DATANAME = ""
         self._ttp_ = _ttp_
@@ -2407,6 +2414,7 @@ class _parser_class:
         main_results = main_results or {}
         input_functions = input_functions or []
         self.main_results = main_results
+        self.grps_results = []
         if D[0] == "text_data":
             self.DATATEXT = "\n" + D[1] + "\n\n"
             self.DATANAME = "text_data"
@@ -2695,14 +2703,15 @@ class _parser_class:
             grp_result = RSLTSOBJ.results
             for output in grp_raw_result[1]:
                 grp_result = output.run(data=grp_result)
-            # transform results into list:
-            if isinstance(self.main_results, dict):
-                if self.main_results:
-                    self.main_results = [self.main_results]
-                else:
-                    self.main_results = []
-            # save results into global results list:
-            self.main_results.append(grp_result)
+            self.grps_results.append(grp_result)
+
+    def get_results(self):
+        """Method to return results, if there are results of groups' specific
+        outputs, transforms results into a list and adds them to it
+        """
+        if not self.grps_results:
+            return self.main_results
+        return ([self.main_results] if self.main_results else []) + self.grps_results
 
 
 """
-- 
2.43.0


From 09df0e7ea525b370da298a720408b4ed2e331455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 37/57] fix: dict_to_list changed the results it was run
 against, e.g. getting results in table format with key added that key to
 parser results

---
 ttp/output/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..ac16c36 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,6 +57,8 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
+            # make a copy to not change the data itself
+            v = dict(v)
             v.update({key_name: k})
             result.append(v)
     elif isinstance(traversed_data, list):
-- 
2.43.0


From 93120a67fc49ab5efae99fb2d16f370c713607f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 38/57] fix: lookup by results of a template that has no
 results yet raised IndexError

---
 ttp/group/lookup.py | 2 +-
 ttp/match/lookup.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 7e87648..ee2b6d6 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -27,7 +27,7 @@ def lookup(
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 8d03885..4cd9faa 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -18,7 +18,7 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
-- 
2.43.0


From 035113114c91af7d2d4769bb103fdb0202221df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 39/57] fix: add_template filters loaded no child templates
 unless the name of their parent was listed too

---
 ttp/ttp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4e60d15..4c87d9a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1452,6 +1452,10 @@ class _template_class:
 
         # filter - do not load template groups if template name not in filter
         if self.filters and self.name not in self.filters:
+            # child templates still can be requested
+            children = [c for c in list(template_ET) if c.tag.lower() == "template"]
+            for t_index, t in enumerate(children):
+                self.parse_template(t, t_index)
             return
 
         self.parse_hierarch_tmplt(template_ET)
-- 
2.43.0


From bf88192ff972e1977864b81dd1a119e39b56f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 40/57] fix: an output of a template without macros ran macros
 of another template

---
 ttp/ttp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4c87d9a..024b0c1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3470,9 +3470,8 @@ class _outputter_class:
         :param data: (dict or list) data to run outputter for
         :param macro: (dict) dictionary of macro functions
         """
-        marco = macro or {}
         self._ttp_["output_object"] = self
-        if macro:
+        if macro is not None:
             self._ttp_["macro"] = macro
         format_type = self.attributes["format"]
         results = data
-- 
2.43.0


From 40194f007d1c095b9dc87a55c8d441598c398035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 41/57] fix: a template tag with text only lost its attributes,
 failed to load or produced nothing

---
 ttp/ttp.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 024b0c1..d3b3a19 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1433,11 +1433,9 @@ class _template_class:
             template_ET = ET.XML("<template>\n{}\n</template>".format(template_text))
         # check if template has children, if not, make it an _anonymous_  group
         if not list(template_ET):
-            template_ET = ET.XML(
-                '<template><group name="_anonymous_">\n{}\n</group></template>'.format(
-                    template_text
-                )
-            )
+            group_ET = ET.SubElement(template_ET, "group", {"name": "_anonymous_"})
+            group_ET.text = "\n{}\n".format(template_ET.text or "")
+            template_ET.text = None
         return template_ET
 
     def load_template_xml(self, template_text):
-- 
2.43.0


From bf7f645d14862f41ee083b9b9055a2125b7c1a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:26 +0000
Subject: [PATCH 42/57] fix: the command line tool raised KeyError for output
 formats in upper case

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d3b3a19..c71d210 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3778,7 +3778,7 @@ def cli_tool():
             )
             OUTPUTTER = "json"
         results = parser_Obj.result(structure=STRUCTURE, templates=OUT_TEMPLATE)
-        print(_ttp_["formatters"][OUTPUTTER](results))
+        print(_ttp_["formatters"][OUTPUTTER.lower()](results))
         timing("{} dumped".format(OUTPUTTER))
     timing("Done")
 
-- 
2.43.0


From 74684ef26e09707ff68b715883a7ca994d5cface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 43/57] fix: uptimeparse took the first digit of the number
 after yr, mo or mth for a part of that word

---
 ttp/match/uptimeparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/uptimeparse.py b/ttp/match/uptimeparse.py
index 9a8e294..6ee2a54 100644
--- a/ttp/match/uptimeparse.py
+++ b/ttp/match/uptimeparse.py
@@ -8,8 +8,8 @@ but code was stripped to provide matching for required time formats only
 
 import re
 
-YEARS = r"(?P<years>\d+)\s*(?:ys?|yrs?.?|years?)"
-MONTHS = r"(?P<months>\d+)\s*(?:mos?.?|mths?.?|months?)"
+YEARS = r"(?P<years>\d+)\s*(?:ys?|yrs?\.?|years?)"
+MONTHS = r"(?P<months>\d+)\s*(?:mos?\.?|mths?\.?|months?)"
 WEEKS = r"(?P<weeks>[\d.]+)\s*(?:w|wks?|weeks?)"
 DAYS = r"(?P<days>[\d.]+)\s*(?:d|dys?|days?)"
 HOURS = r"(?P<hours>[\d.]+)\s*(?:h|hrs?|hours?)"
-- 
2.43.0


From 7a81704d7d95b5ba4809375d1d8923bf023864a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:28 +0000
Subject: [PATCH 44/57] fix: deepdiff with add_field put its report into the
 results themselves

---
 ttp/output/deepdiffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/output/deepdiffer.py b/ttp/output/deepdiffer.py
index f4459b3..344e2e2 100644
--- a/ttp/output/deepdiffer.py
+++ b/ttp/output/deepdiffer.py
@@ -93,9 +93,9 @@ def deepdiff_func(
     # return results
     if add_field:
         if isinstance(data, list):
-            data.append({add_field: result})
+            data = data + [{add_field: result}]
         elif isinstance(data, dict):
-            data[add_field] = result
+            data = dict(data, **{add_field: result})
         return data
     else:
         return result
-- 
2.43.0


From 1310bfbb47caca4837b4f01b6c9d8706d718bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 45/57] fix: the info text of the validate output left a key
 "inf" in the results

---
 ttp/output/validate_cerberus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..3c7a820 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -20,7 +20,9 @@ def _run_validation(data, schema_data, info, errors, result, validator_engine):
     ret = {result: validator_engine.validate(document=data, schema=schema_data)}
     if info:
         try:
-            formatted, _ = _ttp_["group"]["sformat"](data, string=info, add_field="inf")
+            formatted, _ = _ttp_["group"]["sformat"](
+                dict(data), string=info, add_field="inf"
+            )
             ret["info"] = formatted["inf"]
         except:
             ret["info"] = info
-- 
2.43.0


From fec1d7db6bd70d0de76d86a39aab096dabf06c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 46/57] fix: the validate output dropped items of results that
 are not dictionaries

---
 ttp/output/validate_cerberus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 3c7a820..d031135 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -56,6 +56,7 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
     elif isinstance(data, list):
         return [
             _run_validation(i, schema_data, info, errors, result, validator_engine)
-            for i in data
             if isinstance(i, dict)
+            else i
+            for i in data
         ]
-- 
2.43.0


From e37ad65c04f50ed4eb0695b88ee0f3364a378998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 47/57] fix: the excel formatter removed tab names from the
 table it was given

---
 ttp/formatters/excel_formatter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..5e796cf 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -35,11 +35,7 @@ def excel_formatter(data, **kwargs):
     # form table_tabs - list of dictionaries
     table_tabs = []
     for index, tab_det in enumerate(table):
-        tab_name = (
-            tab_det.pop("tab_name")
-            if "tab_name" in tab_det
-            else "Sheet{}".format(index)
-        )
+        tab_name = tab_det.get("tab_name", "Sheet{}".format(index))
         headers = tab_det.get("headers", None)
         if isinstance(headers, str):
             headers = [i.strip() for i in headers.split(",")]
-- 
2.43.0


From 1eac929b8f3bfe50ee1f0c2120ff44bc0f530943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 48/57] fix: the excel formatter raised KeyError for tabs
 without path

---
 ttp/formatters/excel_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 5e796cf..767ea08 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -41,7 +41,7 @@ def excel_formatter(data, **kwargs):
             headers = [i.strip() for i in headers.split(",")]
         # get attributes out of tab_det
         tab_kwargs = {
-            "path": [i.strip() for i in tab_det.get("path", "").split(".")],
+            "path": [i.strip() for i in tab_det.get("path", "").split(".") if i.strip()],
             "headers": headers,
             "missing": tab_det.get("missing", ""),
             "key": tab_det.get("key", ""),
-- 
2.43.0


From 2691cdb854d3a59b3cad1578f6bad420aa702de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 49/57] fix: the excel formatter did not update workbooks whose
 file name has variables

---
 ttp/formatters/excel_formatter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 767ea08..cdb0ff9 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -51,6 +51,14 @@ def excel_formatter(data, **kwargs):
         tab_table_data = _ttp_["formatters"]["table"](data, **tab_kwargs)
         table_tabs.append({"name": tab_name, "data": tab_table_data})
 
+    # file returner formats file name with template variables, look for the same file
+    try:
+        fkwargs = _ttp_["global_vars"].copy()
+        fkwargs.update(_ttp_["vars"])
+        filename = filename.format(**fkwargs)
+    except Exception as e:
+        log.error("excel_formatter: failed format filename - '{}'".format(e))
+
     # check if need to load existing workbook
     if update and os.path.exists(os.path.join(url, filename)):
         wb = load_workbook(os.path.join(url, filename))
-- 
2.43.0


From 16f2bd0b782776c9f3794a00ff0b52143bdcb515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:15 +0000
Subject: [PATCH 50/57] fix: a second input of the same name without data no
 longer adds the first one's files again

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c71d210..67ae0f7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1642,7 +1642,7 @@ class _input_class:
         if self.attributes["load"] == "text" and element_text:
             self.data = [("text_data", element_text)]
             return
-        elif data:
+        elif data is not None:
             for d_item in data:
                 if not d_item in self.data:
                     self.data.append(d_item)
-- 
2.43.0


From b4e88e1ea8ad0b141d409033fb9412b3e60f1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:06 +0000
Subject: [PATCH 51/57] fix: several dynamic variables written without spaces
 in one group name item are all replaced

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 67ae0f7..d79459a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3280,7 +3280,7 @@ class _results_class:
         for index, path_item in enumerate(path):
             asterisk_count = len(path_item) - len(path_item.rstrip("*"))
             path_item = path_item.rstrip("*")
-            match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
+            match = re.findall(r"{{\s*(\S+?)\s*}}", path_item)
             if match:
                 for m in match:
                     pattern = r"{{\s*" + m + r"\s*}}"
-- 
2.43.0


From 84b11843bb20f807ed566ef97ce523d538392ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:06 +0000
Subject: [PATCH 52/57] fix: itemize does not fail if it has no value for a
 variable of its path

---
 ttp/group/itemize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/group/itemize.py b/ttp/group/itemize.py
index 18e19fa..ece683a 100644
--- a/ttp/group/itemize.py
+++ b/ttp/group/itemize.py
@@ -18,10 +18,12 @@ def itemize(data, key, path=""):
         if path[-1].endswith("**") or not path[-1].endswith("*"):
             path[-1] = "{}*".format(path[-1].rstrip("*"))
         processed_path = _ttp_["results_object"].form_path(path)
-        # save item into results:
-        _ttp_["results_object"].save_curelements(
-            result_data=data[key], result_path=processed_path
-        )
+        # save item into results, path cannot be formed if has no value for
+        # dynamic variable:
+        if processed_path:
+            _ttp_["results_object"].save_curelements(
+                result_data=data[key], result_path=processed_path
+            )
     # group considered to be invalid if no key in it
     else:
         return data, False
-- 
2.43.0


From 02df2a7b80a63b14104ae480549f099f80ff6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 53/57] fix: dynamic path of an itemized record does not look
 for variables in the text of the item

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d79459a..b3d7c5a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3284,7 +3284,11 @@ class _results_class:
             if match:
                 for m in match:
                     pattern = r"{{\s*" + m + r"\s*}}"
-                    if m in self.record["result"]:
+                    # result is not a dictionary if itemize function produced it
+                    if (
+                        isinstance(self.record["result"], dict)
+                        and m in self.record["result"]
+                    ):
                         self.dyn_path_cache[m] = self.record["result"][m]
                         repl = str(self.record["result"].pop(m))
                     elif m in self.dyn_path_cache:
-- 
2.43.0


From 286a1a748b3431c3a141f21b7a7a5c1c1dbc929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:34 +0000
Subject: [PATCH 54/57] fix: is_equal compares with loaded data that is empty

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b3d7c5a..17c4162 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3372,7 +3372,8 @@ class _outputter_class:
             self.attributes["load"] = "text"
         # run attributes extraction
         attribs = self._ttp_["utils"]["load_struct"](element.text, **self.attributes)
-        self.tag_load = attribs if attribs else element.text
+        # loaded data can be empty, e.g. an empty list
+        self.tag_load = element.text if attribs is None else attribs
         if isinstance(attribs, dict):
             self.attributes.update(attribs)
 
-- 
2.43.0


From 6907154339a0fb893e9fcebabc1f9894a16c4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:39 +0000
Subject: [PATCH 55/57] fix: expand does not change results saved before when
 the record is rejected afterwards

---
 ttp/group/expand.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/group/expand.py b/ttp/group/expand.py
index 2470a7e..ef5dfa2 100644
--- a/ttp/group/expand.py
+++ b/ttp/group/expand.py
@@ -18,7 +18,10 @@ def expand(data):
                 if isinstance(ref, dict):
                     ref[new_key] = value
                 break
-            # expand dictionary tree
+            # expand dictionary tree, do not change dictionaries that are part
+            # of data already as they might belong to saved results
+            if isinstance(ref.get(new_key), dict):
+                ref[new_key] = dict(ref[new_key])
             ref = ref.setdefault(new_key, {})
     del data
     return ret, True
-- 
2.43.0


From 4b6433b4f548824032c712f78d15b10103e9d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:55 +0000
Subject: [PATCH 56/57] fix: an output without a name writes to the default
 file name

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 335598e..80f4f67 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -26,7 +26,7 @@ def file_returner(D, **kwargs):
     else:
         filename = "output_{}.txt".format(ctime)
     # if no filename provided, add outputter name to filename
-    if not kwargs.get("filename", False):
+    if not kwargs.get("filename", False) and _ttp_["output_object"].name:
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-- 
2.43.0


From be97877404dc0c960ee01b990029be6b109edfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:55 +0000
Subject: [PATCH 57/57] fix: get_timestamp_ms always has the three digits of
 the same moment

---
 ttp/variable/time_funcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/variable/time_funcs.py b/ttp/variable/time_funcs.py
index dcc1c3f..188d963 100644
--- a/ttp/variable/time_funcs.py
+++ b/ttp/variable/time_funcs.py
@@ -13,7 +13,10 @@ def get_date(*args, **kwargs):
 
 def get_timestamp_ms(*args, **kwargs):
     strformat = "%Y-%m-%d %H:%M:%S.{ms}"
-    return time.strftime(strformat).format(ms=str(time.time()).split(".")[-1][:3])
+    now = time.time()
+    return time.strftime(strformat, time.localtime(now)).format(
+        ms="{:03d}".format(int(now * 1000) % 1000)
+    )
 
 
 def get_timestamp(*args, **kwargs):
-- 
2.43.0

