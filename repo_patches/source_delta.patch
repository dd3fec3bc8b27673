From 341152f8413bdfdb7249d02175156af764e0c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 01/64] fix: merge chains of overlapping ranges in Intervals

---
 kerncraft/intervals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index a2f77ee..8a1547e 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -29,7 +29,9 @@ class Intervals(object):
 
                 # removed contained range
                 del self.data[i+1]
-            i += 1
+                # i-th range may now also reach the following range, thus look at it again
+            else:
+                i += 1
 
     def __and__(self, other):
         """Combine two intervals, under the assumption that they are sane."""
-- 
2.43.0


From 1cb810f5600ccc7d14932f6a50d3f3d0e878de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 02/64] fix: Intervals no longer changes ranges of its operands
 and callers

---
 kerncraft/intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index 8a1547e..d62e2ba 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -7,7 +7,8 @@ class Intervals(object):
 
     def __init__(self, *args, **kwargs):
         """If keywords *sane* is True (default: False), checks will not be done on given data."""
-        self.data = list(args)
+        # copy ranges, to never change data passed in (or data of the operands in __and__)
+        self.data = [list(d) for d in args]
         if not kwargs.get('sane', False):
             self.data = [d for d in self.data if d[1] > d[0]]
             self._enforce_order()
-- 
2.43.0


From a80effcbc0307120688bd0cf921433e4bbae6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 03/64] fix: clean_code lost or kept characters next to removed
 comments

Line comments at the end of the text left their last character, the index
after a removed comment was wrong (following comments were kept, text could
be duplicated) and /*/ was taken for a complete comment.
---
 kerncraft/pycparser_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kerncraft/pycparser_utils.py b/kerncraft/pycparser_utils.py
index bd988a5..7bcecca 100644
--- a/kerncraft/pycparser_utils.py
+++ b/kerncraft/pycparser_utils.py
@@ -39,15 +39,22 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
         while idx < len(code) - 1:
             if comment_start is None and code[idx:idx + 2] == '//':
                 end_idx = code.find('\n', idx)
+                if end_idx == -1:
+                    # comment is not followed by a newline
+                    end_idx = len(code)
                 code = code[:idx] + code[end_idx:]
-                idx -= end_idx - idx
+                # continue right behind removed comment
+                idx -= 1
             elif comment_start is None and code[idx:idx + 2] == '/*':
                 comment_start = idx
+                # opening must not overlap with closing, as in /*/
+                idx += 1
             elif comment_start is not None and code[idx:idx + 2] == '*/':
                 code = (code[:comment_start] +
                         '\n' * code[comment_start:idx].count('\n') +
                         code[idx + 2:])
-                idx -= idx - comment_start
+                # continue right behind removed comment
+                idx = comment_start - 1
                 comment_start = None
             idx += 1
 
-- 
2.43.0


From c82e05bfcd6edd9dd920c76db95c9fdc95c21d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 04/64] fix: factors of the prefixes T, P and E

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 8268a30..ac5f7e9 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -5,7 +5,7 @@ import ruamel.yaml
 
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
-    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e13, 'P': 1e16, 'E': 1e19, 'Z': 1e21, 'Y': 1e24,
+    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
                 '': 1}
 
 
-- 
2.43.0


From ce2ab3b4755445fcde3abb7482f6c13864d34f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 05/64] fix: parse all prefixes that are printed in
 PrefixedUnit

---
 kerncraft/prefixedunit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index ac5f7e9..871ea82 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -12,7 +12,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
     yaml = ruamel.yaml.YAML()
     yaml_tag = u'!prefixed'
     yaml_implicit_pattern = re.compile(re.compile(
-        r'^(?P<value>[0-9]+(?:\.[0-9]+)?) (?P<prefix>[kMGTP])?(?P<unit>.*)$'))
+        r'^(?P<value>[0-9]+(?:\.[0-9]+)?) (?P<prefix>[kMGTPEZY])?(?P<unit>.*)$'))
 
     @classmethod
     def from_yaml(cls, loader, node):
@@ -26,7 +26,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if len(args) == 1:
             if isinstance(args[0], str):
                 m = re.match(
-                    r'^(?P<value>(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTP])?(?P<unit>.*)$',
+                    r'^(?P<value>(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTPEZY])?(?P<unit>.*)$',
                     args[0])
                 assert m, "Could not parse unit parameter "+repr(args[0])
                 g = m.groups()
@@ -35,7 +35,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
                 args = [float(args[0]), '', '']
 
         if len(args) == 2:
-            m = re.match(r'^(?P<prefix>[kMGTP])?(?P<unit>.+)$', args[1])
+            m = re.match(r'^(?P<prefix>[kMGTPEZY])?(?P<unit>.+)$', args[1])
             assert m, "Could not parse unit parameter"+repr(args)
             gd = m.groupdict()
             args = [float(args[0]), gd['prefix'], gd['unit']]
-- 
2.43.0


From f05f2ee022e18ef2ec78ddcfec9b414582057257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 06/64] fix: arithmetic on PrefixedUnit without unit or with a
 unit starting like a prefix

---
 kerncraft/prefixedunit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 871ea82..1683856 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -114,7 +114,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)*float(other), unit)
+        v = self.__class__(float(self)*float(other), '', unit)
         return v.reduced()
 
     def __truediv__(self, other):
@@ -123,7 +123,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)/float(other), unit)
+        v = self.__class__(float(self)/float(other), '', unit)
         return v.reduced()
 
     __div__ = __truediv__
@@ -134,7 +134,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)//float(other), unit)
+        v = self.__class__(float(self)//float(other), '', unit)
         return v.reduced()
 
     def __sub__(self, other):
@@ -146,11 +146,11 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for subtraction.")
 
-        v = self.__class__(float(self)-float(other), unit)
+        v = self.__class__(float(self)-float(other), '', unit)
         return v.reduced()
 
     def __abs__(self):
-        v = self.__class__(abs(float(self)), self.unit)
+        v = self.__class__(abs(float(self)), '', self.unit)
         return v.reduced()
 
     def __add__(self, other):
@@ -162,7 +162,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for addition.")
 
-        v = self.__class__(float(self) + float(other), self.unit)
+        v = self.__class__(float(self) + float(other), '', self.unit)
         return v.reduced()
 
     def __mod__(self, other):
@@ -174,7 +174,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for modulo.")
 
-        v = self.__class__(float(self) % float(other), self.unit)
+        v = self.__class__(float(self) % float(other), '', self.unit)
         return v.reduced()
 
     def __lt__(self, other):
-- 
2.43.0


From 31fc821042ce5a72d3038f4e1d24508065fc7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 07/64] fix: iteration numbering of loops with increments other
 than one

---
 kerncraft/kernel.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..f4247f5 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -479,15 +479,13 @@ class Kernel(object):
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
-        last_incr = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+(((global_iterator*last_incr) // total_length)*incr) % length
+            counter = start+((global_iterator // total_length) % length)*incr
             total_length = total_length*length
-            last_incr = incr
 
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
@@ -513,7 +511,7 @@ class Kernel(object):
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
             length = int_ceil((end-start), incr)
-            global_iterator += (loop_var - start) * total_length
+            global_iterator += ((loop_var - start) // incr) * total_length
             total_length *= length
         return global_iterator
 
-- 
2.43.0


From 3dbfc1a5e1cb0e2f6f159e8ef097a09c072aa2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 08/64] fix: constants set after a query no longer leave stale
 substitutions

---
 kerncraft/kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index f4247f5..02b8b76 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -262,6 +262,8 @@ class Kernel(object):
         # Ensure constants will always be sorted by keys
         self.constants = collections.OrderedDict(
             sorted(self.constants.items(), key=lambda i: str(i[0])))
+        # results of earlier substitutions are no longer valid
+        self.subs_consts.cache_clear()
 
     def set_variable(self, name, type_, size):
         """
@@ -2036,3 +2038,5 @@ class BinaryDescription(Kernel):
             self.constants[name] = value
         else:
             self.constants[symbol_pos_int(name)] = value
+        # results of earlier substitutions are no longer valid
+        self.subs_consts.cache_clear()
-- 
2.43.0


From a6732445b6facb3256e38b957832e3902ab4fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 09/64] fix: kernels without constants can be analyzed from the
 command line

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..f284331 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -370,7 +370,7 @@ def run(parser, args, output_file=sys.stdout):
             raise ValueError("Not all constants have been defined. Required are: {}".format(
                 required_consts))
     else:
-        define_product = [{}]
+        define_product = [()]
 
     for define in define_product:
         # Reset state of kernel
-- 
2.43.0


From dae49b610db973d52a4ed81f1f24963985e1fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 10/64] fix: combinations of constants given more than once are
 analyzed once

---
 kerncraft/kerncraft.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index f284331..bdc0ff3 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -353,16 +353,15 @@ def run(parser, args, output_file=sys.stdout):
             default_const_values = dict(args.define)['.']
             for name in required_consts:
                 name = str(name)
-                define_dict[str(name)] = [[str(name), v] for v in default_const_values]
+                define_dict[str(name)] = [[str(name), v] for v in uniquify(default_const_values)]
         for name, values in args.define:
             if name not in [str(n) for n in required_consts]:
                 # ignore
                 continue
             if name not in define_dict:
-                define_dict[name] = [[name, v] for v in values]
-                continue
+                define_dict[name] = []
             for v in values:
-                if v not in define_dict[name]:
+                if [name, v] not in define_dict[name]:
                     define_dict[name].append([name, v])
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
-- 
2.43.0


From a4f5def5f2d69bef4cc026db9a4c0d3a7935320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 11/64] fix: reject definitions with trailing text and empty
 ranges

---
 kerncraft/kerncraft.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index bdc0ff3..d1dd699 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -102,15 +102,17 @@ class AppendStringRange(argparse.Action):
         if len(values) != 2:
             message = 'requires 2 arguments'
         else:
-            m = re.match(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
-                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
-                         values[1])
+            m = re.fullmatch(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
+                             r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
+                             values[1])
             if m:
                 gd = m.groupdict()
                 if gd['stop'] is None:
                     values[1] = [int(gd['start'])]
                 elif gd['num'] is None:
                     values[1] = list(range(int(gd['start']), int(gd['stop']) + 1))
+                    if not values[1]:
+                        message = 'start of range must not be greater than stop'
                 else:
                     log = gd['log'] is not None
                     base = int(gd['base']) if gd['base'] is not None else 10
-- 
2.43.0


From 29d1f6992e57e1c7c2d10e7fb38994ad7817943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 12/64] fix: definitions do not leak into following uses of the
 parser

---
 kerncraft/kerncraft.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index d1dd699..b94412b 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -124,10 +124,8 @@ class AppendStringRange(argparse.Action):
         if message:
             raise argparse.ArgumentError(self, message)
 
-        if hasattr(namespace, self.dest):
-            getattr(namespace, self.dest).append(values)
-        else:
-            setattr(namespace, self.dest, [values])
+        # Not appending in place, as the list might be the default shared by all parsed arguments
+        setattr(namespace, self.dest, (getattr(namespace, self.dest, None) or []) + [values])
 
 
 class VersionAction(argparse.Action):
-- 
2.43.0


From 75d27c58584f65cfb62fd033fd0aff91ad0a82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 13/64] fix: stored identifier does not depend on hash order
 with default constants

---
 kerncraft/kerncraft.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index b94412b..f3ca8ec 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -351,9 +351,8 @@ def run(parser, args, output_file=sys.stdout):
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
             default_const_values = dict(args.define)['.']
-            for name in required_consts:
-                name = str(name)
-                define_dict[str(name)] = [[str(name), v] for v in uniquify(default_const_values)]
+            for name in sorted([str(n) for n in required_consts]):
+                define_dict[name] = [[name, v] for v in uniquify(default_const_values)]
         for name, values in args.define:
             if name not in [str(n) for n in required_consts]:
                 # ignore
-- 
2.43.0


From 9af7ad6f56f0af30f234668d1c1b20d2cbdde990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 14/64] fix: eventstr works with keyword arguments

---
 kerncraft/models/benchmark.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..7175e07 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -144,10 +144,11 @@ def eventstr(event_tuple=None, event=None, register=None, parameters=None):
     >>> eventstr(event='DTLB_LOAD_MISSES_WALK_DURATION', register='PMC3')
     'DTLB_LOAD_MISSES_WALK_DURATION:PMC3'
     """
-    if len(event_tuple) == 3:
-        event, register, parameters = event_tuple
-    elif len(event_tuple) == 2:
-        event, register = event_tuple
+    if event_tuple is not None:
+        if len(event_tuple) == 3:
+            event, register, parameters = event_tuple
+        elif len(event_tuple) == 2:
+            event, register = event_tuple
     event_dscr = [event, register]
 
     if parameters:
-- 
2.43.0


From 0461091a32a16902753f9ab068a5ffb805926c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 15/64] fix: events without any register no longer hang the
 measurement planning

---
 kerncraft/models/benchmark.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 7175e07..cf52bf8 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -165,6 +165,9 @@ def build_minimal_runs(events):
     # Build list of runs per register group
     scheduled_runs = {}
     scheduled_events = []
+    for event, registers, parameters in events:
+        if not any(True for _ in register_options(registers)):
+            raise ValueError("No register to measure {} in: {!r}".format(event, registers))
     cur_run = 0
     while len(scheduled_events) != len(events):
         for event_tpl in events:
-- 
2.43.0


From 459a5f2fc7851979b5c7d85c4bf62f6b4d3ad029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 16/64] fix: keep counters of an event measured in several runs

---
 kerncraft/models/benchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index cf52bf8..65ae4e5 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -437,7 +437,10 @@ class Benchmark(PerformanceModel):
                 ctrs = ','.join([eventstr(e) for e in run])
                 r = self.perfctr([bench_filename] + [str(repetitions)] + args, group=ctrs)
                 raw_results.append(r)
-                measured_ctrs.update(r)
+                for event, values in r.items():
+                    if isinstance(values, dict):
+                        # the same event might have been measured in other runs
+                        measured_ctrs.setdefault(event, {}).update(values)
             bench_lock_fp.close()
             # Match measured counters to symbols
             event_counter_results = {}
-- 
2.43.0


From f8aa1a67a153ba18aca7515b21cda8e68031982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 17/64] fix: read results of counters with parameters without
 value

---
 kerncraft/models/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 65ae4e5..23d5596 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -256,7 +256,7 @@ def perfctr(cmd, cores, group='MEM', code_markers=True, verbose=0):
             else:
                 counter_value = int(line[2])
             if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
-                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9]+=[0-9a-fA-Fx]+)*', line[1]):
+                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9_]+(=[0-9a-fA-Fx]+)?)*', line[1]):
                 results.setdefault(line[0], {})
                 results[line[0]][line[1]] = counter_value
                 continue
-- 
2.43.0


From 309a0c0ffee3545336ed06a2bcd53d140fb8dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 18/64] fix: counters whose names contain each other in
 performance metrics

---
 kerncraft/machinemodel.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..f8589a1 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -17,6 +17,7 @@ from functools import lru_cache
 import psutil
 import ruamel.yaml
 import cachesim
+from sympy import Symbol
 from sympy.parsing.sympy_parser import parse_expr
 
 from .prefixedunit import PrefixedUnit
@@ -587,22 +588,20 @@ class MachineModel(object):
     def parse_perfmetric(metric):
         """Return (sympy expressions, event names and symbols dict) from performance metric str."""
         metric = str(metric)
-        # Find all perfs counter references
-        perfcounters = re.findall(r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*', metric)
-
-        # Build a temporary metric, with parser-friendly Symbol names
-        temp_metric = metric
-        temp_pc_names = {"SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc)): pc
-                         for i, pc in enumerate(perfcounters)}
-        for var_name, pc in temp_pc_names.items():
-            temp_metric = temp_metric.replace(pc, var_name)
-        # Parse temporary expression
-        expr = parse_expr(temp_metric)
-
-        # Rename symbols to originals
-        for s in expr.free_symbols:
-            if s.name in temp_pc_names:
-                s.name = temp_pc_names[str(s)]
+        # Replace all perfs counter references by parser-friendly symbol names
+        perfcounters = []
+
+        def to_symbol_name(match):
+            if match.group() not in perfcounters:
+                perfcounters.append(match.group())
+            return "SYM{}".format(perfcounters.index(match.group()))
+
+        temp_metric = re.sub(r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*',
+                             to_symbol_name, metric)
+        # Parse temporary expression, using the original names for symbols
+        expr = parse_expr(
+            temp_metric,
+            local_dict={"SYM{}".format(i): Symbol(pc) for i, pc in enumerate(perfcounters)})
 
         events = {s: MachineModel.parse_perfctr_event(s.name) for s in expr.free_symbols
                   if s.name in perfcounters}
-- 
2.43.0


From 919e30119ac7f4eb5a02f2a10c44adea55490a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 19/64] fix: maximum bandwidth uses only measurements with
 cores of one NUMA domain

---
 kerncraft/machinemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index f8589a1..45b8282 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -491,7 +491,9 @@ class MachineModel(object):
             # Choose maximum number of cores to get bandwidth for
             max_cores = min(self['memory hierarchy'][cache_level]['cores per group'],
                             self['cores per NUMA domain'])
-            bw = max(bw_measurements['results'][measurement_kernel][:max_cores])
+            bw = max([result for c, result in zip(bw_measurements['cores'],
+                                                  bw_measurements['results'][measurement_kernel])
+                      if c <= max_cores])
 
         # Correct bandwidth due to miss-measurement of write allocation
         # TODO support non-temporal stores and non-write-allocate architectures
-- 
2.43.0


From 9f00f5b26d77a89c28eedd5498345d289c51b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 20/64] fix: bandwidth selection for symbolic stream counts
 without writes

---
 kerncraft/machinemodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 45b8282..36c2e8c 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -455,10 +455,11 @@ class MachineModel(object):
         # try to find best fitting kernel (closest to read/write ratio):
         # write allocate has to be handled in kernel information (all writes are also reads)
         # TODO support for non-write-allocate architectures
-        try:
-            target_ratio = read_streams/write_streams
-        except ZeroDivisionError:
+        if write_streams == 0:
+            # not relying on ZeroDivisionError, which is not raised by sympy
             target_ratio = float('inf')
+        else:
+            target_ratio = read_streams/write_streams
         measurement_kernel = 'load'
         measurement_kernel_info = self['benchmarks']['kernels'][measurement_kernel]
         measurement_kernel_ratio = float('inf')
-- 
2.43.0


From 42ca7867dd4db2ffdc8364fd6621a5ccbf6db315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 21/64] fix: picklemerge uses collections.abc.Mapping
 (collections.Mapping is gone since Python 3.10)

---
 kerncraft/picklemerge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..ced0646 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -2,7 +2,7 @@
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
 import pickle
-import collections
+from collections.abc import Mapping
 
 
 def update(d, u):
@@ -12,7 +12,7 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
+        if isinstance(v, Mapping):
             r = update(d.get(k, {}), v)
             d[k] = r
         else:
@@ -33,11 +33,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From 2bcf992a62fb2fc1491a7a5c86edd093904ecec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 22/64] fix: picklemerge replaces a plain result by a later
 group of results instead of failing

---
 kerncraft/picklemerge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index ced0646..62bd60d 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -13,8 +13,8 @@ def update(d, u):
     """
     for k, v in u.items():
         if isinstance(v, Mapping):
-            r = update(d.get(k, {}), v)
-            d[k] = r
+            r = d.get(k)
+            d[k] = update(r if isinstance(r, Mapping) else {}, v)
         else:
             d[k] = u[k]
     return d
-- 
2.43.0


From 858fafe4e088e435a80eee89493c9c5856277f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 23/64] fix: writing PrefixedUnit to YAML keeps its full value

---
 kerncraft/prefixedunit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 1683856..3fb5fc1 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -1,5 +1,7 @@
 #!/usr/bin/env python3
+import math
 import re
+from decimal import Decimal
 
 import ruamel.yaml
 
@@ -20,13 +22,18 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
 
     @classmethod
     def to_yaml(cls, dumper, data):
-        return dumper.represent_scalar(cls.yaml_tag, str(data))
+        # str() is rounded for printing, the full value needs to be kept here
+        value = float(data.value)
+        if math.isfinite(value):
+            value = '{:f}'.format(Decimal(repr(value)))
+        return dumper.represent_scalar(
+            cls.yaml_tag, '{} {}{}'.format(value, data.prefix, data.unit))
 
     def __init__(self, *args):
         if len(args) == 1:
             if isinstance(args[0], str):
                 m = re.match(
-                    r'^(?P<value>(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTPEZY])?(?P<unit>.*)$',
+                    r'^(?P<value>-?(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTPEZY])?(?P<unit>.*)$',
                     args[0])
                 assert m, "Could not parse unit parameter "+repr(args[0])
                 g = m.groups()
-- 
2.43.0


From 8a3aecc6daa46e0cf66497d7a824e7103583cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 24/64] fix: identifier of machine models which were not loaded
 from a file

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 36c2e8c..f64d874 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -407,7 +407,7 @@ class MachineModel(object):
         if self._path:
             return os.path.basename(self._path)
         else:
-            return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
+            return hashlib.sha256(repr(self._data).encode()).hexdigest()
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 80a69ccff72ea6699c3d12b5e5b68f3ec28df2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 25/64] fix: cache simulators reflect the requested core count

---
 kerncraft/machinemodel.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index f64d874..af03a08 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -423,24 +423,20 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
-            self._cachesimulator.mark_all_invalid()
-            self._cachesimulator.reset_stats()
-        else:
-            cache_dict = {}
-            for c in self['memory hierarchy']:
-                # Skip main memory
-                if 'cache per group' not in c:
-                    continue
-                cache_dict[c['level']] = deepcopy(c['cache per group'])
-                cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
-                # Scale size of last cache according to cores (typically shared within NUMA domain)
-                if c['cores per group'] > 1:
-                    cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
-
-            self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
-
-        return self._cachesimulator
+        cache_dict = {}
+        for c in self['memory hierarchy']:
+            # Skip main memory
+            if 'cache per group' not in c:
+                continue
+            cache_dict[c['level']] = deepcopy(c['cache per group'])
+            cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
+            # Scale size of last cache according to cores (typically shared within NUMA domain)
+            if c['cores per group'] > 1:
+                cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
+
+        cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
+
+        return cachesimulator
 
     def get_bandwidth(self, cache_level, read_streams, write_streams, threads_per_core, cores=None):
         """
-- 
2.43.0


From bdd39baca841bc823588176e6afe13f6b1335d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 26/64] fix: machine models can be written to files again

---
 kerncraft/machinemodel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index af03a08..f22c07b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -611,8 +611,11 @@ class MachineModel(object):
         """
         Return YAML string to store machine model and store to f (if path or fp passed).
         """
-        yaml = ruamel.yaml.YAML()
-        yaml_string = yaml.dump(self._data)
+        yaml = ruamel.yaml.YAML(typ='unsafe')
+        yaml.register_class(PrefixedUnit)
+        stream = io.StringIO()
+        yaml.dump(self._data, stream)
+        yaml_string = stream.getvalue()
         if f is None:
             f = self._path
 
-- 
2.43.0


From 911f66e79f082cb0df2184e142ba6751f9a6765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 27/64] fix: machine models do not share data and notice
 changed files

---
 kerncraft/machinemodel.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index f22c07b..1829f06 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -158,15 +158,15 @@ class MachineModel(object):
         if path_to_yaml:
             yaml = ruamel.yaml.YAML(typ='unsafe')
             yaml.register_class(PrefixedUnit)
-            # Load into cache and save to self._data
-            abspath_to_yaml = os.path.abspath(path_to_yaml)
-            if abspath_to_yaml not in self._loaded_machine_yaml:
-                with open(path_to_yaml, 'r') as f:
-                    # Ignore ruamel unsafe loading warning, by supplying Loader parameter
-                    self._loaded_machine_yaml[abspath_to_yaml] = yaml.load(f)
-            self._data = self._loaded_machine_yaml[abspath_to_yaml]
+            # Load into cache (by content, since files may change) and save copy to self._data
+            with open(path_to_yaml, 'r') as f:
+                yaml_string = f.read()
+            if yaml_string not in self._loaded_machine_yaml:
+                # Ignore ruamel unsafe loading warning, by supplying Loader parameter
+                self._loaded_machine_yaml[yaml_string] = yaml.load(yaml_string)
+            self._data = deepcopy(self._loaded_machine_yaml[yaml_string])
         elif machine_yaml:
-            self._data = machine_yaml
+            self._data = deepcopy(machine_yaml)
 
         assert 'kerncraft version' in self._data, \
             "Machine description requires a 'kerncraft version' entry, containg the kerncraft " \
-- 
2.43.0


From d71280da218e233ff1dc89bca1cfde74ed8169c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 28/64] fix: caches are shared by no more cores than there are
 in a cache group

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 1829f06..1ef04c5 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -432,7 +432,8 @@ class MachineModel(object):
             cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
             # Scale size of last cache according to cores (typically shared within NUMA domain)
             if c['cores per group'] > 1:
-                cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
+                cache_dict[c['level']]['sets'] //= int(min(
+                    cores, c['cores per group'], self['cores per NUMA domain']))
 
         cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
 
-- 
2.43.0


From ea8dea2b8723172bbbac97582412f8ff8f4f07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 29/64] fix: machine descriptions of version 0.8.3 are
 supported

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 1ef04c5..2fb3007 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -24,7 +24,8 @@ from .prefixedunit import PrefixedUnit
 from . import __version__
 
 
-MIN_SUPPORTED_VERSION = "0.8.3.dev0"
+# LooseVersion orders development versions (e.g., 0.8.3.dev0) after their release
+MIN_SUPPORTED_VERSION = "0.8.3"
 
 CHANGES_SINCE = OrderedDict([
     ("0.6.6",
-- 
2.43.0


From fd4c9a92c13161a64002db4be11617cc987642d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 30/64] fix: cycles per iteration of the ECM CPU model

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 663b9b6..20c3486 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -362,7 +362,7 @@ class ECMCPU(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl*elements_per_cacheline
+        cy_it = cy_cl/elements_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 3f053da77edd9a36b0b6327462c479d1a80e0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 31/64] fix: unit of performance without data transfers

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 20c3486..997a9ae 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -183,7 +183,7 @@ class ECMData(PerformanceModel):
             it_s = clock/cy_cl*elements_per_cacheline
             it_s.unit = 'It/s'
         else:
-            it_s = PrefixedUnit('inf It/S')
+            it_s = PrefixedUnit(float('inf'), '', 'It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-- 
2.43.0


From 1df5c34067f97ceea5e720f6e9a314491ee4b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 32/64] fix: iterations per cache line of loops with other
 increments in ECM units

---
 kerncraft/models/ecm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 997a9ae..24a6202 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -177,17 +177,17 @@ class ECMData(PerformanceModel):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
 
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = float(self.machine['cacheline size']) / \
+            float(self.kernel.bytes_per_iteration)
         if cy_cl != 0:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
             it_s = PrefixedUnit(float('inf'), '', 'It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
@@ -352,17 +352,17 @@ class ECMCPU(PerformanceModel):
         if not isinstance(cy_cl, PrefixedUnit):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = float(self.machine['cacheline size']) / \
+            float(self.kernel.bytes_per_iteration)
         if cy_cl == 0.0:
             it_s = PrefixedUnit(float('inf'))
         else:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 688fd4ef7851de8a2d52adda5d7314808528cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 33/64] fix: ECM reports are written to the given output file

---
 kerncraft/models/ecm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 24a6202..d361be6 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -216,7 +216,8 @@ class ECMData(PerformanceModel):
                 level, self.conv_cy(cycles)[self._args.unit]), file=output_file)
 
         if self.results['penalty']:
-            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']))
+            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']),
+                  file=output_file)
 
         if self.verbose > 1:
             if 'memory bandwidth kernel' in self.results:
@@ -568,8 +569,8 @@ class ECM(PerformanceModel):
         """Print generated model data in human readable format."""
         report = ''
         if self.verbose > 1:
-            self._CPU.report()
-            self._data.report()
+            self._CPU.report(output_file)
+            self._data.report(output_file)
 
         model_construction = 'max({}, sum({})) cy/CL'.format(
             ', '.join(self.results['ECM Model Construction'][:-1]),
-- 
2.43.0


From 9bf6d90d57c61db7fece7b84623029d7984839dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 34/64] fix: ECM uses the given cache predictor

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index d361be6..e96a364 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -439,7 +439,7 @@ class ECM(PerformanceModel):
         self._CPU = ECMCPU(kernel, machine, args, parser, asm_block=asm_block,
                            pointer_increment=pointer_increment, verbose=verbose)
         self._data = ECMData(kernel, machine, args, parser,
-                             cache_predictor=CacheSimulationPredictor, cores=cores, verbose=verbose)
+                             cache_predictor=cache_predictor, cores=cores, verbose=verbose)
 
     def analyze(self):
         """Run complete analysis."""
-- 
2.43.0


From aef6b1ce1b90f73f374b8408425160d5575b705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 35/64] fix: Roofline uses the peak performance of the element
 type

---
 kerncraft/models/roofline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 91ab6a9..e9db5c0 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -158,7 +158,7 @@ class RooflineFLOP(PerformanceModel):
 
     def analyze(self):
         """Run analysis."""
-        precision = 'DP' if self.kernel.datatype == 'double' else 'SP'
+        precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
         self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-- 
2.43.0


From 08c3871d82fc9e9c83f6c3a9d1ab8ab5e55a782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 36/64] fix: Roofline CPU limit is a performance in FLOP/s

---
 kerncraft/models/roofline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index e9db5c0..95a6d0d 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -161,8 +161,11 @@ class RooflineFLOP(PerformanceModel):
         precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
-        self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-            self.machine['FLOPs per cycle'][precision]['total'])
+        max_flops = float(self.machine['clock'] * self.cores *
+                          self.machine['FLOPs per cycle'][precision]['total'])
+        flops_per_it = sum(self.kernel._flops.values())
+        self.results['max_perf'] = self.conv_perf(PrefixedUnit(
+            max_flops / flops_per_it if flops_per_it else float('inf'), 'It/s'))
 
     def conv_perf(self, it_s):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
@@ -206,9 +209,10 @@ class RooflineFLOP(PerformanceModel):
                       file=output_file)
             print('', file=output_file)
 
-        if self.results['min performance']['FLOP/s'] > max_perf['FLOP/s']:
+        if self.results['min performance']['It/s'] > max_perf['It/s']:
             # CPU bound
-            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf), file=output_file)
+            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf[self._args.unit]),
+                  file=output_file)
         else:
             # Cache or mem bound
             print('Cache or mem bound.', file=output_file)
-- 
2.43.0


From 397709133cac1d628f018231b96fe6ccf055dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 37/64] fix: Roofline of kernels without array accesses

---
 kerncraft/models/roofline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 95a6d0d..da5ff1a 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -99,8 +99,8 @@ class RooflineFLOP(PerformanceModel):
         # arithmetic intensity = Iterations / bytes loaded
         if total_loads == 0:
             # This happens in case of full-caching
-            arith_intens = None
-            it_s = None
+            arith_intens = float('inf')
+            it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
             arith_intens = 1.0/(total_loads/elements_per_cacheline)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
-- 
2.43.0


From e80916c8753ed3691650361c04d121a368d804f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 38/64] fix: iterations of loops with other increments in
 Roofline

---
 kerncraft/models/roofline.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index da5ff1a..a81e2f0 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -66,9 +66,7 @@ class RooflineFLOP(PerformanceModel):
 
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
         cacheline_size = float(self.machine['cacheline size'])
-        elements_per_cacheline = int(cacheline_size // element_size)
-
-        total_flops = sum(self.kernel._flops.values())*elements_per_cacheline
+        iterations_per_cacheline = cacheline_size / float(self.kernel.bytes_per_iteration)
 
         # TODO let user choose threads_per_core:
         threads_per_core = 1
@@ -77,8 +75,9 @@ class RooflineFLOP(PerformanceModel):
 
         # CPU-L1 stats (in bytes!)
         # We compile CPU-L1 stats on our own, because cacheprediction only works on cache lines
+        iterations = max(int(iterations_per_cacheline), 1)
         read_offsets, write_offsets = zip(*list(self.kernel.compile_global_offsets(
-            iteration=range(0, elements_per_cacheline))))
+            iteration=range(0, iterations))))
         read_offsets = set([item for sublist in read_offsets if sublist is not None
                             for item in sublist])
         write_offsets = set([item for sublist in write_offsets if sublist is not None
@@ -102,7 +101,7 @@ class RooflineFLOP(PerformanceModel):
             arith_intens = float('inf')
             it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
-            arith_intens = 1.0/(total_loads/elements_per_cacheline)
+            arith_intens = 1.0/(total_loads/iterations)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
         self.results['mem bottlenecks'].append({
@@ -140,7 +139,7 @@ class RooflineFLOP(PerformanceModel):
                 arith_intens = float('inf')
                 it_s = PrefixedUnit(float('inf'), 'It/s')
             else:
-                arith_intens = 1/(bytes_transfered/elements_per_cacheline)
+                arith_intens = 1/(bytes_transfered/iterations_per_cacheline)
                 it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
             self.results['mem bottlenecks'].append({
@@ -173,9 +172,9 @@ class RooflineFLOP(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(float(self.machine['cacheline size'])) / element_size
-        cy_cl = clock/it_s*elements_per_cacheline
+        iterations_per_cacheline = float(self.machine['cacheline size']) / \
+            float(self.kernel.bytes_per_iteration)
+        cy_cl = clock/it_s*iterations_per_cacheline
         cy_cl.unit = 'cy/CL'
         cy_it = clock/it_s
         cy_it.unit = 'cy/It'
@@ -315,7 +314,7 @@ class RooflineASM(RooflineFLOP):
         if uops is not None:
             uops = uops*block_to_cl_ratio
         cl_throughput = block_throughput*block_to_cl_ratio
-        flops_per_element = sum(self.kernel._flops.values())
+        iterations_per_block = block_size / float(self.kernel.bytes_per_iteration)
 
         # Overwrite CPU-L1 stats, because they are covered by In-Core Model
         self.results['mem bottlenecks'][0] = None
@@ -338,7 +337,7 @@ class RooflineASM(RooflineFLOP):
                 'cl throughput': cl_throughput,
                 'uops': uops,
                 'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*elements_per_block
+                    self.machine['clock']/block_throughput*iterations_per_block
                     * self.cores, "It/s")),
                 'in-core model output': incore_output}})
 
-- 
2.43.0


From 047266765ed163a5bb41be86e0e113cf223f5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 39/64] fix: Roofline counts no L1 traffic for kernels without
 array accesses

---
 kerncraft/models/roofline.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index a81e2f0..4702c1e 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -76,12 +76,9 @@ class RooflineFLOP(PerformanceModel):
         # CPU-L1 stats (in bytes!)
         # We compile CPU-L1 stats on our own, because cacheprediction only works on cache lines
         iterations = max(int(iterations_per_cacheline), 1)
-        read_offsets, write_offsets = zip(*list(self.kernel.compile_global_offsets(
-            iteration=range(0, iterations))))
-        read_offsets = set([item for sublist in read_offsets if sublist is not None
-                            for item in sublist])
-        write_offsets = set([item for sublist in write_offsets if sublist is not None
-                             for item in sublist])
+        offsets = list(self.kernel.compile_global_offsets(iteration=range(0, iterations)))
+        read_offsets = set([item for reads, _ in offsets for item in reads])
+        write_offsets = set([item for _, writes in offsets for item in writes])
 
         write_streams = len(write_offsets)
         read_streams = len(read_offsets) + write_streams  # write-allocate
-- 
2.43.0


From ce6663067d8ab28130490491267695f7912564bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 40/64] fix: identifiers of machine files depend on their
 content

---
 kerncraft/machinemodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 2fb3007..2021234 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -404,11 +404,12 @@ class MachineModel(object):
         )
 
     def get_identifier(self):
-        """Return identifier which is either the machine file name or sha256 checksum of data."""
+        """Return identifier made of machine file name (if any) and sha256 checksum of data."""
+        checksum = hashlib.sha256(repr(self._data).encode()).hexdigest()
         if self._path:
-            return os.path.basename(self._path)
+            return '{}-{}'.format(os.path.basename(self._path), checksum[:16])
         else:
-            return hashlib.sha256(repr(self._data).encode()).hexdigest()
+            return checksum
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 87b4145d37b8bdff39a02a5ecb542ab151c7f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 41/64] fix: locations of intermediates are different for
 different dependencies

---
 kerncraft/kernel.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 02b8b76..ec23a77 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -19,6 +19,8 @@ from itertools import chain
 import random
 import atexit
 import re
+import hashlib
+import urllib.parse
 from contextlib import contextmanager
 import fcntl
 
@@ -206,6 +208,16 @@ def force_iterable(f):
     return wrapper
 
 
+def path_component(text):
+    """Return name of a single directory, different for each text."""
+    name = urllib.parse.quote(str(text), safe='=+-,:()')
+    if name in ['', '.', '..']:
+        return '@' + name
+    if len(name) > 200:
+        name = hashlib.sha256(name.encode()).hexdigest()
+    return name
+
+
 def reduce_path(path):
     """Reduce absolute path to relative (if shorter) for easier readability."""
     relative_path = os.path.relpath(path)
@@ -767,7 +779,7 @@ class KernelCode(Kernel):
         :param name: filename to use for caching
         :param machine_and_compiler_dependent: set to False if file content does not depend on
                                                machine file or compiler settings
-        :param other_dependencies: list of strings to use in path. slashes are stripped
+        :param other_dependencies: list of strings to use in path
         """
         if self._filename:
             base_name = os.path.join(os.path.dirname(self._filename),
@@ -781,12 +793,11 @@ class KernelCode(Kernel):
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
-            compiler_args = '_'.join(compiler_args).replace('/', '')
-            base_name += '/{}/{}/{}/'.format(
-                self._machine.get_identifier(), compiler, compiler_args)
-        
+            other_dependencies = [self._machine.get_identifier(), compiler,
+                                  ' '.join(compiler_args)] + list(other_dependencies)
+
         for i in other_dependencies:
-            base_name = os.path.join(base_name, str(i).replace('/', ''))
+            base_name = os.path.join(base_name, path_component(i))
 
         # Create dirs recursively
         os.makedirs(base_name, exist_ok=True)
-- 
2.43.0


From 0d073c12cfee64935d1b2972830e66e7b763d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 42/64] fix: intermediates depend on content of the kernel and
 on its constants

---
 kerncraft/kernel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index ec23a77..b3ad9a3 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -796,6 +796,11 @@ class KernelCode(Kernel):
             other_dependencies = [self._machine.get_identifier(), compiler,
                                   ' '.join(compiler_args)] + list(other_dependencies)
 
+        # Content of kernel and names of constants (which become arguments) matter for all files
+        other_dependencies = [
+            hashlib.sha256(self.kernel_code.encode()).hexdigest()[:16],
+            ','.join(str(name) for name in self.constants)] + list(other_dependencies)
+
         for i in other_dependencies:
             base_name = os.path.join(base_name, path_component(i))
 
-- 
2.43.0


From cd8aa313198568456f2a633c085ba5f6fd798eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 43/64] fix: cached cache predictions and benchmark code depend
 on the machine

---
 kerncraft/cacheprediction.py | 6 ++++--
 kerncraft/kernel.py          | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..783acbb 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,8 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False,
+                other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -517,7 +518,8 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=[machine.get_identifier(), str(cores)] +
+                                   [str(t) for t in self.kernel.constants.items()])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index b3ad9a3..c400478 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1388,7 +1388,8 @@ class KernelCode(Kernel):
         """
         file_name = 'kernel.h'
         file_path = self.get_intermediate_location(
-            file_name, machine_and_compiler_dependent=False)
+            file_name, machine_and_compiler_dependent=False,
+            other_dependencies=[self._machine.get_identifier()])  # included by main.c
         lock_mode, lock_fp = self.lock_intermediate(file_path)
         if lock_mode == fcntl.LOCK_SH:
             # use cache
@@ -1540,7 +1541,9 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        file_path = self.get_intermediate_location(
+            'main.c', machine_and_compiler_dependent=False,
+            other_dependencies=[self._machine.get_identifier()])  # arrays are aligned to cachelines
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From 98953ebcde140f6fb74e258766dd5f85c748e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 44/64] fix: cached in-core analyses depend on marked block and
 pointer increment

---
 kerncraft/kernel.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index c400478..433bce2 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1597,15 +1597,18 @@ class KernelCode(Kernel):
         return file_path, lock_fp
 
 
-    def assemble_to_object(self, in_filename, verbose=False):
+    def assemble_to_object(self, in_filename, verbose=False, other_dependencies=[]):
         """
         Assemble *in_filename* assembly into *out_filename* object.
 
+        :param other_dependencies: list of strings that *in_filename* depends on
+
         Returns tuple of filename to binary file and shared lock file pointer
         """
         # Build file name
         file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        out_filename = self.get_intermediate_location(
+            file_base_name + '.o', other_dependencies=other_dependencies)
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1718,7 +1721,7 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, model_parameter, asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
@@ -1726,14 +1729,15 @@ class KernelCode(Kernel):
             analysis_lock_fp.close()  # release lock
             return analysis, self.pointer_increment
         
+        marked_dependencies = [asm_block, pointer_increment]
         marked_filename = self.get_intermediate_location('kernel-marked.s',
-            other_dependencies=[asm_block, pointer_increment])
+            other_dependencies=marked_dependencies)
         lock_mode, marked_lock_fp = self.lock_intermediate(marked_filename)
         if lock_mode == fcntl.LOCK_SH:
             # use cached maked assembly and extract asm_block and pointer_increment
             with open(marked_filename) as f:
                 marked_asm = f.read()
-            m = re.search(r'pointer_increment=([0-9]+)', marked_asm)
+            m = re.search(r'pointer_increment=(-?[0-9]+)', marked_asm)
             if m:
                 self.pointer_increment = int(m.group(1))
             else:
@@ -1760,7 +1764,8 @@ class KernelCode(Kernel):
             analysis = incore_model.llvm_mca_analyse_instrumented_assembly(
                 marked_filename, model_parameter, isa=self._machine['isa'])
         elif model == 'IACA':
-            obj_name, obj_lock_fp = self.assemble_to_object(marked_filename, verbose=verbose)
+            obj_name, obj_lock_fp = self.assemble_to_object(
+                marked_filename, verbose=verbose, other_dependencies=marked_dependencies)
             analysis = incore_model.iaca_analyse_instrumented_binary(obj_name, model_parameter)
             obj_lock_fp.close()
         else:
-- 
2.43.0


From e3034f3cddf31d42ef618ca3cb1e3514d87276a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 45/64] fix: intermediates only appear once they are complete

---
 kerncraft/cacheprediction.py |  13 ++--
 kerncraft/kernel.py          | 114 +++++++++++++++++++++--------------
 2 files changed, 76 insertions(+), 51 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 783acbb..f70e678 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -10,7 +10,7 @@ import sympy
 from sympy.logic.boolalg import BooleanTrue, BooleanFalse
 import numpy as np
 
-from kerncraft.kernel import symbol_pos_int, KernelCode
+from kerncraft.kernel import symbol_pos_int, KernelCode, atomic_write
 from collections import defaultdict
 import operator
 from io import StringIO
@@ -274,7 +274,8 @@ class LayerConditionPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.build_symbolic_LCs()
-                compress_pickle.dump(self.results, file_path)
+                with atomic_write(file_path) as tmp_path:
+                    compress_pickle.dump(self.results, tmp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
@@ -531,9 +532,11 @@ class CacheSimulationPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.simulate()
-                compress_pickle.dump(
-                    {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
-                    file_path)
+                with atomic_write(file_path) as tmp_path:
+                    compress_pickle.dump(
+                        {'first_dim_factor': self.first_dim_factor, 'stats': self.stats,
+                         'pretty_stats': self.pretty_stats},
+                        tmp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 433bce2..b1deb10 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -51,6 +51,23 @@ def set_recursionlimit(new_limit):
         sys.setrecursionlimit(old_limit)
 
 
+@contextmanager
+def atomic_write(file_path):
+    """
+    Provide name of a temporary file, which becomes *file_path* once it was completely written.
+
+    In case of an exception or if the process is killed, *file_path* is left as it was.
+    """
+    tmp_path = os.path.join(os.path.dirname(file_path),
+                            'tmp{}-{}'.format(os.getpid(), os.path.basename(file_path)))
+    try:
+        yield tmp_path
+        os.replace(tmp_path, file_path)
+    finally:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+
+
 @lru_cache()
 def symbol_pos_int(*args, **kwargs):
     """Create a sympy.Symbol with positive and integer assumptions."""
@@ -1400,7 +1417,7 @@ class KernelCode(Kernel):
             func_decl = self._build_kernel_function_declaration(name=name)
             code = CGenerator().visit(
                 c_ast.FileAST(ext=[func_decl]))
-            with open(file_path, 'w') as f:
+            with atomic_write(file_path) as tmp_path, open(tmp_path, 'w') as f:
                 f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
@@ -1468,7 +1485,7 @@ class KernelCode(Kernel):
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
             # Store to file
-            with open(file_path, 'w') as f:
+            with atomic_write(file_path) as tmp_path, open(tmp_path, 'w') as f:
                 f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
@@ -1590,7 +1607,7 @@ class KernelCode(Kernel):
                    '\n\n' + code
 
             # Store to file
-            with open(file_path, 'w') as f:
+            with atomic_write(file_path) as tmp_path, open(tmp_path, 'w') as f:
                 f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
@@ -1621,14 +1638,15 @@ class KernelCode(Kernel):
             # Compile to object file
             compiler_args.append('-c')
 
-            cmd = [compiler] + [in_filename] + compiler_args + ['-o', out_filename]
+            try:
+                with atomic_write(out_filename) as tmp_filename:
+                    cmd = [compiler] + [in_filename] + compiler_args + ['-o', tmp_filename]
 
-            if verbose:
-                print('Executing (assemble_to_object): ', ' '.join(cmd))
+                    if verbose:
+                        print('Executing (assemble_to_object): ', ' '.join(cmd))
 
-            try:
-                # Assemble all to a binary
-                subprocess.check_output(cmd)
+                    # Assemble all to a binary
+                    subprocess.check_output(cmd)
                 self.release_exclusive_lock(lock_fp)  # degrade to shared lock
             except subprocess.CalledProcessError as e:
                 print("Assembly failed:", e, file=sys.stderr)
@@ -1665,36 +1683,37 @@ class KernelCode(Kernel):
 
             header_filename, header_lock_fp = self.get_kernel_header()
             in_filename, in_lock_fp = self.get_kernel_code(openmp=openmp)
-            cmd = ([compiler] +
-                   [in_filename,
-                    '-c',
-                    '-I'+reduce_path(os.path.abspath(os.path.dirname(
-                        os.path.realpath(__file__)))+'/headers/'),
-                    '-o', out_filename] +
-                   compiler_args)
-
-            if verbose:
-                print('Executing (compile_kernel): ', ' '.join(cmd))
-
-            try:
-                subprocess.check_output(cmd)
-                in_lock_fp.close()
-                header_lock_fp.close()
+            with atomic_write(out_filename) as tmp_filename:
+                cmd = ([compiler] +
+                       [in_filename,
+                        '-c',
+                        '-I'+reduce_path(os.path.abspath(os.path.dirname(
+                            os.path.realpath(__file__)))+'/headers/'),
+                        '-o', tmp_filename] +
+                       compiler_args)
+
+                if verbose:
+                    print('Executing (compile_kernel): ', ' '.join(cmd))
 
-            except subprocess.CalledProcessError as e:
-                print("Compilation failed:", e, file=sys.stderr)
-                sys.exit(1)
-
-            # FIXME TODO FIXME TODO FIXME TODO
-            # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512, which 
-            # are invalid and should be kmovb):
-            if compiler == 'icc' and assembly:
-                with open(out_filename, 'r+') as f:
-                    assembly = f.read()
-                    f.seek(0)
-                    f.write(assembly.replace('vkmovb', 'kmovb'))
-                    f.truncate()
-            # FIXME TODO FIXME TODO FIXME TODO
+                try:
+                    subprocess.check_output(cmd)
+                    in_lock_fp.close()
+                    header_lock_fp.close()
+
+                except subprocess.CalledProcessError as e:
+                    print("Compilation failed:", e, file=sys.stderr)
+                    sys.exit(1)
+
+                # FIXME TODO FIXME TODO FIXME TODO
+                # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512,
+                # which are invalid and should be kmovb):
+                if compiler == 'icc' and assembly:
+                    with open(tmp_filename, 'r+') as f:
+                        assembly = f.read()
+                        f.seek(0)
+                        f.write(assembly.replace('vkmovb', 'kmovb'))
+                        f.truncate()
+                # FIXME TODO FIXME TODO FIXME TODO
 
             self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
 
@@ -1748,7 +1767,8 @@ class KernelCode(Kernel):
         else:  # analysis_lock_mode == fcntl.LOCK_EX
             # marked assembly needs update
             asm_filename, asm_lock_fp = self.compile_kernel(assembly=True, verbose=verbose)
-            with open(asm_filename, 'r') as in_file, open(marked_filename, 'w') as out_file:
+            with atomic_write(marked_filename) as tmp_filename, \
+                    open(asm_filename, 'r') as in_file, open(tmp_filename, 'w') as out_file:
                 asm_block, self.pointer_increment = incore_model.asm_instrumentation(
                     in_file, out_file,
                     block_selection=asm_block,
@@ -1770,7 +1790,8 @@ class KernelCode(Kernel):
             obj_lock_fp.close()
         else:
             raise ValueError("Unknown micro-architecture model: {!r}".format(model))
-        compress_pickle.dump((analysis, self.pointer_increment), analysis_filename)
+        with atomic_write(analysis_filename) as tmp_filename:
+            compress_pickle.dump((analysis, self.pointer_increment), tmp_filename)
         analysis_lock_fp.close()
         marked_lock_fp.close()
         return analysis, self.pointer_increment
@@ -1823,13 +1844,14 @@ class KernelCode(Kernel):
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
                        kernel_obj_filename, main_filename]
 
-            cmd = [compiler] + infiles + compiler_args + ['-o', out_filename]
-            # remove empty arguments
-            cmd = list(filter(bool, cmd))
-            if verbose:
-                print('Executing (build_executable): ', ' '.join(cmd))
             try:
-                subprocess.check_output(cmd)
+                with atomic_write(out_filename) as tmp_filename:
+                    cmd = [compiler] + infiles + compiler_args + ['-o', tmp_filename]
+                    # remove empty arguments
+                    cmd = list(filter(bool, cmd))
+                    if verbose:
+                        print('Executing (build_executable): ', ' '.join(cmd))
+                    subprocess.check_output(cmd)
                 main_lock_fp.close()
                 kernel_obj_lock_fp.close()
                 self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
-- 
2.43.0


From b5df37932d395134c7e959bedcc40d85aa369986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 46/64] fix: intermediates to be removed are not shared with
 other instances

---
 kerncraft/kernel.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index b1deb10..3558e9f 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -776,6 +776,7 @@ class KernelCode(Kernel):
         self.kernel_code = kernel_code
         self._filename = filename
         self._keep_intermediates = keep_intermediates
+        self._private_location = None
         parser = CParser()
         try:
             self.kernel_ast = parser.parse(self._strip_comments(self._as_function()),
@@ -798,15 +799,17 @@ class KernelCode(Kernel):
                                                machine file or compiler settings
         :param other_dependencies: list of strings to use in path
         """
-        if self._filename:
+        if self._filename and self._keep_intermediates:
             base_name = os.path.join(os.path.dirname(self._filename),
                                      '.' + os.path.basename(self._filename) + '_kerncraft')
         else:
-            base_name = tempfile.mkdtemp()
-
-        if not self._keep_intermediates:
-            # Remove directory and all content up on program exit
-            atexit.register(shutil.rmtree, base_name, ignore_errors=True)
+            # Not to be shared with (or removed under) other kerncraft instances
+            if self._private_location is None:
+                self._private_location = tempfile.mkdtemp()
+                if not self._keep_intermediates:
+                    # Remove directory and all content up on program exit
+                    atexit.register(shutil.rmtree, self._private_location, ignore_errors=True)
+            base_name = self._private_location
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
@@ -836,7 +839,8 @@ class KernelCode(Kernel):
             # Check if file is newer than machine file, kerncraft code and input kernel code
             if (file_modified > self._machine.get_last_modified_datetime() and  # machine file
                 file_modified > kerncraft.get_last_modified_datetime() and  # kerncraft
-                file_modified > datetime.utcfromtimestamp(os.stat(self._filename).st_mtime)):
+                (not self._filename or
+                 file_modified > datetime.utcfromtimestamp(os.stat(self._filename).st_mtime))):
                     return True
         return False
 
-- 
2.43.0


From c0d759ad1f6b258c00de5a50a1c50b9654128380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:01 +0000
Subject: [PATCH 47/64] fix: blocks of assembly can be selected by number

---
 kerncraft/incore_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..02a6a11 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -631,7 +631,7 @@ def asm_instrumentation(
 
     :param input_file: file-like object to read from
     :param output_file: file-like object to write to
-    :param block_selection: label of the assembly block to instrument, or 'auto' for automatically
+    :param block_selection: number of the assembly block to instrument, or 'auto' for automatically
                             using block with the
                             most vector instructions, or 'manual' to read index to prompt user
     :param pointer_increment: number of bytes the pointer is incremented after the loop or
@@ -660,7 +660,10 @@ def asm_instrumentation(
             loop_blocks, default=ISA.get_isa(isa).select_best_block(loop_blocks), debug=debug
         )
     elif isinstance(block_selection, int):
-        block_label = block_selection
+        if not 0 <= block_selection < len(loop_blocks):
+            raise ValueError("block {} does not exist, {} blocks were found in assembly.".format(
+                block_selection, len(loop_blocks)))
+        block_label = list(loop_blocks)[block_selection]
     else:
         raise ValueError("block_selection has to be an integer, 'auto' or 'manual' ")
     block_lines = loop_blocks[block_label]
-- 
2.43.0


From d0f1f5887832d305c8d2afeed5c0e8e01a161184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 48/64] fix: pointer increments are only reported if addresses
 change by them

---
 kerncraft/incore_model.py | 486 +++++++++++++++-----------------------
 1 file changed, 195 insertions(+), 291 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 02a6a11..bb9f173 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -46,6 +46,75 @@ class LlvmMCA(IncoreModel):
     pass
 
 
+class InductionAnalysis:
+    """
+    Follow registers and addresses through one iteration of a loop block.
+
+    Registers and addresses are described as linear forms of the register values at the beginning
+    of the iteration (dict of register names to factors, with the constant stored at None) or None
+    if not known.
+    """
+
+    def __init__(self):
+        self.registers = {}
+        self.loads = []
+        self.stores = []
+
+    def value(self, register):
+        """Return linear form of current register content."""
+        if register is None:
+            return {}
+        return self.registers.get(register, {register: 1})
+
+    @staticmethod
+    def combine(*terms):
+        """Return linear form of sum over (linear form, factor) terms."""
+        result = defaultdict(int)
+        for form, factor in terms:
+            if form is None:
+                return None
+            for key, value in form.items():
+                result[key] += value * factor
+        return {key: value for key, value in result.items() if value != 0}
+
+    def address(self, base, index, scale, offset):
+        """Return linear form of address. Symbolic offsets are constant and may be ignored."""
+        offset = int(offset.value) if isinstance(offset, ImmediateOperand) else 0
+        return self.combine(
+            (self.value(base), 1), (self.value(index), int(scale)), ({None: offset}, 1)
+        )
+
+    def get_increment(self):
+        """
+        Return increment of addresses per iteration or None if not known to be unique.
+
+        Only stores to changing addresses are considered, or loads if there are no such stores.
+        """
+        # change of registers per iteration
+        changes = {}
+        for register, form in self.registers.items():
+            change = self.combine((form, 1), ({register: 1}, -1))
+            changes[register] = None
+            if change is not None and not set(change) - {None}:
+                changes[register] = change.get(None, 0)
+        for addresses in [self.stores, self.loads]:
+            increments = set()
+            for form in addresses:
+                parts = [None] if form is None else [
+                    (factor, changes.get(reg, 0)) for reg, factor in form.items() if reg is not None
+                ]
+                if any(part is None or part[1] is None for part in parts):
+                    increments.add(None)
+                else:
+                    increments.add(sum(factor * change for factor, change in parts))
+            increments.discard(0)
+            if len(increments) == 1:
+                return increments.pop()
+            elif increments:
+                return None
+        return None
+
+
 class ISA:
     @staticmethod
     def get_isa(isa="x86"):
@@ -126,129 +195,88 @@ class x86(ISA):
             instruction_ctr,
         )
 
+    @staticmethod
+    def normalize_to_register_str(register):
+        """Return name of 64bit register containing given register."""
+        if register is None:
+            return None
+        name = register.name.lower()
+        match = re.match(r"^(r\d+)[dwb]$", name)
+        if match:
+            return match.group(1)
+        match = re.match(r"^[er]?(ax|bx|cx|dx|si|di|bp|sp)$", name) or re.match(
+            r"^(si|di|bp|sp)l$", name
+        )
+        if match:
+            return "r" + match.group(1)
+        match = re.match(r"^([abcd])[lh]$", name)
+        if match:
+            return "r" + match.group(1) + "x"
+        return name
+
     @staticmethod
     def get_pointer_increment(block):
         """Return pointer increment."""
-        increments = {}
-        mem_references = []
-        stores_only = False
+        analysis = InductionAnalysis()
+        register_str = x86.normalize_to_register_str
+
+        def address(mref):
+            return analysis.address(
+                register_str(mref.base), register_str(mref.index), mref.scale, mref.offset
+            )
 
-        modified_registers = []
         for line in block:
             # Skip non-instruction lines (e.g., comments)
             if line.mnemonic is None:
                 continue
-
-            # Extract destination references, ignoring var(%rip)
-            dst_mem_references = [
-                op
-                for op in line.semantic_operands["destination"]
-                if isinstance(op, MemoryOperand) and (op.base is None or op.base.name != "rip")
-            ]
-            if dst_mem_references:
-                if not stores_only:
-                    stores_only = True
-                    mem_references = []
-                mem_references += dst_mem_references
-
-            # If no destination references were found sofar, include source references
-            if not stores_only:
-                mem_references += [
-                    op for op in line.semantic_operands["source"] if isinstance(op, MemoryOperand)
+            ops = line.operands
+            semantics = line.semantic_operands
+            is_lea = re.match(r"^lea[bwlq]?$", line.mnemonic)
+
+            if not is_lea:
+                analysis.loads += [
+                    address(op)
+                    for op in chain(semantics["source"], semantics["src_dst"])
+                    if isinstance(op, MemoryOperand)
                 ]
-            if re.match(r"^inc[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = 1
-            elif (
-                re.match(r"^add[bwlq]?$", line.mnemonic)
-                and isinstance(line.operands[0], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
-            ):
-                reg = line.operands[1].name
-                increments[reg] = int(line.operands[0].value)
-                modified_registers.append(reg)
-            elif re.match(r"^dec[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = -1
-            elif (
-                re.match(r"^sub[bwlq]?$", line.mnemonic)
-                and isinstance(line.operands[0], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
-            ):
-                reg = line.operands[1].name
-                modified_registers.append(reg)
-                increments[reg] = -int(line.operands[0].value)
-            elif re.match(r"^lea[bwlq]?$", line.mnemonic):
-                # `lea 1(%r11), %r11` is the same as `add $1, %r11`
-                if (
-                    line.operands[0].base is not None
-                    and line.operands[0].base.name == line.operands[1].name
-                    and line.operands[0].index is None
-                ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
-                # `lea 1(,%r11), %r11` is the same as `add $1, %r11`
-                if (
-                    line.operands[0].index is not None
-                    and line.operands[0].index.name == line.operands[1].name
-                    and line.operands[0].base is None
-                ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
-
-        # deduce loop increment from memory index register
-        pointer_increment = None  # default -> can not decide, let user choose
-        possible_idx_regs = None
-        if mem_references:
-            # we found memory references to work with
-            possible_idx_regs = list(
-                set(increments.keys()).intersection(
-                    set(
-                        [mref.base.name for mref in mem_references if mref.base is not None]
-                        + [mref.index.name for mref in mem_references if mref.index is not None]
-                    )
-                )
-            )
-            for mref in mem_references:
-                for reg in list(possible_idx_regs):
-                    # Only consider references with two registers, where one could be an
-                    # index
-                    if None not in [mref.base, mref.index]:
-                        # One needs to mach, other registers will be excluded
-                        if not (
-                            (mref.base is not None and reg == mref.base.name)
-                            or (mref.index is not None and reg == mref.index.name)
-                        ):
-                            # reg can not be it
-                            possible_idx_regs.remove(reg)
-
-            idx_reg = None
-            if len(possible_idx_regs) == 1:
-                # good, exactly one register was found
-                idx_reg = possible_idx_regs[0]
-            elif possible_idx_regs and itemsEqual(
-                [increments[pidxreg] for pidxreg in possible_idx_regs]
-            ):
-                # multiple were option found, but all have the same increment
-                # use first match:
-                idx_reg = possible_idx_regs[0]
-
-            if idx_reg and modified_registers.count(idx_reg) == 1:
-                mem_scales = [
-                    mref.scale
-                    for mref in mem_references
-                    if (mref.index is not None and idx_reg == mref.index.name)
-                    or (mref.base is not None and idx_reg == mref.base.name)
+                analysis.stores += [
+                    address(op)
+                    for op in chain(semantics["destination"], semantics["src_dst"])
+                    if isinstance(op, MemoryOperand)
                 ]
 
-                if itemsEqual(mem_scales):
-                    # good, all scales are equal
-                    pointer_increment = mem_scales[0] * increments[idx_reg]
+            # Any changed register is unknown, unless the operation is understood
+            changes = {
+                register_str(op): None
+                for op in chain(semantics["destination"], semantics["src_dst"])
+                if isinstance(op, RegisterOperand)
+            }
+            if ops and isinstance(ops[-1], RegisterOperand):
+                reg = register_str(ops[-1])
+                source = None
+                if isinstance(ops[0], ImmediateOperand):
+                    source = {None: int(ops[0].value)}
+                elif isinstance(ops[0], RegisterOperand):
+                    source = analysis.value(register_str(ops[0]))
+                if re.match(r"^(inc|dec)[bwlq]?$", line.mnemonic):
+                    factor = 1 if line.mnemonic.startswith("inc") else -1
+                    changes[reg] = analysis.combine((analysis.value(reg), 1), ({None: 1}, factor))
+                elif re.match(r"^(add|sub)[bwlq]?$", line.mnemonic) and len(ops) == 2:
+                    factor = 1 if line.mnemonic.startswith("add") else -1
+                    changes[reg] = analysis.combine((analysis.value(reg), 1), (source, factor))
+                elif re.match(r"^(sal|shl)[lq]?$", line.mnemonic) and (
+                    len(ops) == 2 and isinstance(ops[0], ImmediateOperand)
+                ):
+                    changes[reg] = analysis.combine(
+                        (analysis.value(reg), 2 ** int(ops[0].value))
+                    )
+                elif re.match(r"^mov[lq]?$", line.mnemonic):
+                    changes[reg] = source
+                elif is_lea:
+                    changes[reg] = address(ops[0])
+            analysis.registers.update(changes)
 
+        pointer_increment = analysis.get_increment()
         if pointer_increment is None:
             pointer_increment = find_increment_in_cache(block)
         return pointer_increment
@@ -296,193 +324,69 @@ class AArch64(ISA):
     @staticmethod
     def get_pointer_increment(block):
         """Return pointer increment."""
-        increments = defaultdict(int)
-        mem_references = []
-        stores_only = False
-
-        # build dict of modified registers in block with count of number of modifications
-        modified_registers = defaultdict(int)
-        for dests in [l.semantic_operands["destination"] for l in block]:
-            for d in dests:
-                if isinstance(d, RegisterOperand):
-                    # if 'range' in d.register:
-                    #    modified_registers[AArch64.normalize_to_register_str(d.register.range[0])] += 1
-                    # else:
-                    modified_registers[AArch64.normalize_to_register_str(d)] += 1
-        for l in block:
-            for d in l.operands:
-                if isinstance(d, MemoryOperand):
-                    if d.post_indexed is not False or d.pre_indexed:
-                        modified_registers[AArch64.normalize_to_register_str(d.base)] += 1
-                        inc = 1
-                        if isinstance(d.post_indexed, dict):
-                            inc = int(d.post_indexed["value"])
-                        if d.pre_indexed:
-                            inc = int(d.offset.value)
-                        increments[AArch64.normalize_to_register_str(d.base)] = inc
+        analysis = InductionAnalysis()
+        register_str = AArch64.normalize_to_register_str
 
         for line in block:
             # Skip non-instruction lines (such as comments and labels)
             if line.mnemonic is None:
                 continue
-
-            # Extract and filter destination references (stores)
-            dst_mem_references = []
-            for dst in [
-                op
-                for op in chain(
-                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+            ops = line.operands
+            semantics = line.semantic_operands
+            # Any changed register is unknown, unless the operation is understood
+            changes = {
+                register_str(op): None
+                for op in chain(semantics["destination"], semantics["src_dst"])
+                if isinstance(op, RegisterOperand)
+            }
+
+            for op in [op for op in ops if isinstance(op, MemoryOperand)]:
+                base = register_str(op.base)
+                scale = op.scale
+                if op.index is not None and op.index.shift:
+                    scale = 2 ** int(op.index.shift[0]["value"])
+                address = analysis.address(base, register_str(op.index), scale, op.offset)
+                is_store = any(
+                    op is o for o in chain(semantics["destination"], semantics["src_dst"])
                 )
-                if isinstance(op, MemoryOperand)
-            ]:
-                # base or index must be a modified (i.e., changing) register
-                if (
-                    AArch64.normalize_to_register_str(dst.base) not in modified_registers
-                    and AArch64.normalize_to_register_str(dst.index) not in modified_registers
-                ):
-                    continue
-
-                # offset operands with identifiers (e.g. `:lo12:gosa`) are ignored
-                if dst.offset is not None and isinstance(dst.offset, IdentifierOperand):
-                    continue
-
-                dst_mem_references.append(dst)
-            # consider only stores from here on
-            if dst_mem_references and not stores_only:
-                stores_only = True
-                mem_references = []
-            mem_references += dst_mem_references
-
-            # If no destination references were found sofar, include source references (loads)
-            if not stores_only:
-                mem_references += [
-                    op
-                    for op in chain(
-                        line.semantic_operands["source"], line.semantic_operands["src_dst"]
-                    )
-                    if isinstance(op, MemoryOperand)
+                (analysis.stores if is_store else analysis.loads).append(address)
+                if op.pre_indexed:
+                    changes[base] = address
+                elif op.post_indexed is not False:
+                    changes[base] = None
+                    if "value" in op.post_indexed:
+                        changes[base] = analysis.combine(
+                            (analysis.value(base), 1), ({None: int(op.post_indexed["value"])}, 1)
+                        )
+
+            if len(ops) > 1 and isinstance(ops[0], RegisterOperand):
+                reg = register_str(ops[0])
+                source = [
+                    {None: int(op.value)}
+                    if isinstance(op, ImmediateOperand) and op.value is not None
+                    else analysis.value(register_str(op))
+                    if isinstance(op, RegisterOperand)
+                    else None
+                    for op in ops[1:]
                 ]
-
-            # ADD dest_reg, src_reg, immd
-            if (
-                re.match(r"^add[s]?$", line.mnemonic)
-                and line.operands[0] == line.operands[1]
-                and isinstance(line.operands[2], ImmediateOperand)
-            ):
-                reg_name = AArch64.normalize_to_register_str(line.operands[0])
-                inc = int(line.operands[2].value)
-                increments[reg_name] = inc
-            # SUB dest_reg, src_reg, immd
-            elif (
-                re.match(r"^sub[s]?$", line.mnemonic)
-                and line.operands[0] == line.operands[1]
-                and isinstance(line.operands[2], ImmediateOperand)
-            ):
-                reg_name = AArch64.normalize_to_register_str(line.operands[0])
-                inc = -int(line.operands[2].value)
-                if reg_name in increments and increments[reg_name] == inc:
-                    increments[reg_name] = inc
-
-        # Remove any increments that are modiefed more than once
-        increments = {
-            reg_name: inc
-            for reg_name, inc in increments.items()
-            if modified_registers[reg_name] == 1
-        }
-
-        # Second pass to find lsl instructions on increments
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # LSL dest_reg, src_reg, immd
-            if (
-                re.match(r"^lsl$", line.mnemonic)
-                and isinstance(line.operands[2], ImmediateOperand)
-                and AArch64.normalize_to_register_str(line.operands[1]) in increments
-            ):
-                increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
-                    AArch64.normalize_to_register_str(line.operands[1])
-                ] * 2 ** int(line.operands[2].value)
-
-        new_increments = []
-        # Third pass to find registers based on constant +- increment
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # ADD|SUB dest_reg, const_reg, increment_reg (source registers may be switched)
-            m = re.match(r"^(add|sub)[s]?$", line.mnemonic)
-            if m:
-                if m.group(1) == "add":
-                    factor = 1
-                else:
-                    factor = -1
-                if not isinstance(line.operands[1], RegisterOperand) or not isinstance(
-                    line.operands[2], RegisterOperand
-                ):
-                    continue
-                for i, j in [(1, 2), (2, 1)]:
-                    reg_i_name = AArch64.normalize_to_register_str(line.operands[i])
-                    reg_j_name = AArch64.normalize_to_register_str(line.operands[j])
-                    if reg_i_name in increments and reg_j_name not in modified_registers:
-                        reg_dest_name = AArch64.normalize_to_register_str(line.operands[0])
-                        inc = factor * increments[reg_i_name]
-                        if reg_dest_name in increments and increments[reg_dest_name] == inc:
-                            modified_registers[reg_dest_name] -= 1
-                        increments[reg_dest_name] = inc
-                        new_increments.append(reg_dest_name)
-
-        # Remove any increments that are modified more often than updates have been detected
-        increments = {
-            reg_name: inc
-            for reg_name, inc in increments.items()
-            if modified_registers[reg_name] == 1
-        }
-
-        # Last pass to find lsl instructions on increments
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # LSL dest_reg, src_reg, immd
-            if (
-                re.match(r"^lsl$", line.mnemonic)
-                and isinstance(line.operands[2], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
-            ):
-                src_reg_name = AArch64.normalize_to_register_str(line.operands[1])
-                if src_reg_name in new_increments and src_reg_name in increments:
-                    increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
-                        src_reg_name
-                    ] * 2 ** int(line.operands[2].value)
-
-        # deduce loop increment from memory index register
-        address_registers = []
-        scales = defaultdict(lambda: 1)
-        for mref in mem_references:
-            # Assume base to be scaled
-            base_reg = AArch64.normalize_to_register_str(mref.base)
-            if mref.index is not None:
-                # If index register is used, check which is incremented
-                index_reg = AArch64.normalize_to_register_str(mref.index)
-                if index_reg in increments:
-                    reg = index_reg
-                    # If index is used, a scale other than 1 needs to be considered
-                    if mref.index.shift:
-                        scales[reg] = 2 ** int(mref.index.shift[0]["value"])
-                else:
-                    reg = base_reg
-            else:
-                reg = base_reg
-            # ignore all unmodiefed registers
-            if reg in modified_registers:
-                address_registers.append(reg)
-            increment = None
-
-        pointer_increment = None  # default -> can not decide, let user choose
-        if address_registers and all([reg in increments for reg in address_registers]):
-            if itemsEqual([increments[reg] for reg in address_registers]):
-                # good, all relevant increments are equal
-                pointer_increment = increments[address_registers[0]] * scales[address_registers[0]]
-
+                if re.match(r"^(add|sub)[s]?$", line.mnemonic) and len(ops) == 3:
+                    factor = 1 if line.mnemonic.startswith("add") else -1
+                    # shift and extension of register is not part of the operand
+                    modifier = re.match(
+                        r"^(?:[^,]+,){3}\s*(\w+)\s*#?(\d*)\s*$", line.line.split("//")[0]
+                    )
+                    if modifier and isinstance(ops[2], RegisterOperand):
+                        if modifier.group(1).lower() not in ["lsl", "uxtw", "sxtw", "uxtx", "sxtx"]:
+                            source[1] = None
+                        factor *= 2 ** int(modifier.group(2) or 0)
+                    changes[reg] = analysis.combine((source[0], 1), (source[1], factor))
+                elif re.match(r"^lsl$", line.mnemonic) and isinstance(ops[2], ImmediateOperand):
+                    changes[reg] = analysis.combine((source[0], 2 ** int(ops[2].value)))
+                elif re.match(r"^mov$", line.mnemonic):
+                    changes[reg] = source[0]
+            analysis.registers.update(changes)
+
+        pointer_increment = analysis.get_increment()
         # Check cache as last resort
         if pointer_increment is None:
             pointer_increment = find_increment_in_cache(block)
-- 
2.43.0


From 0b3d10183f13595a8ac9303ac55b28ac80e9223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 49/64] fix: names known to sympy may be used in kernel
 descriptions

---
 kerncraft/kernel.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 3558e9f..0a7801a 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -85,13 +85,9 @@ def string_to_sympy(s):
     elif s is None:
         return None
     else:
-        # Step 1 build expression with the whole alphabet redefined:
-        local_dict = {c: symbol_pos_int(c) for c in s if c in string.ascii_letters}
-        # TODO find nicer solution for N and other pre-mapped letters
-        preliminary_expr = parse_expr(s, local_dict=local_dict)
-        # Replace all free symbols with positive integer versions:
-        local_dict.update(
-            {s.name: symbol_pos_int(s.name) for s in preliminary_expr.free_symbols})
+        # All names (which are not called) are symbols, even those known to sympy (e.g., N or pi)
+        local_dict = {name: symbol_pos_int(name)
+                      for name in re.findall(r'\b[A-Za-z_]\w*\b(?!\s*\()', s)}
         return parse_expr(s, local_dict=local_dict)
 
 
-- 
2.43.0


From b5e6064a3942ba3d8176b64666d8c5a641f28cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 50/64] fix: octal and floating-point constants in kernels are
 not misread

---
 kerncraft/kernel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 0a7801a..17f1f78 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -984,6 +984,13 @@ class KernelCode(Kernel):
         self._p_for(loop_nest[-1])
         self.swaps = swaps
 
+    @staticmethod
+    def _int_constant(const):
+        """Return value of an integer constant (decimal, hexadecimal or octal)."""
+        if re.fullmatch('0[0-7]+', const.value):
+            return int(const.value, 8)
+        return int(const.value, 0)
+
     def conv_ast_to_sym(self, math_ast):
         """
         Convert mathematical expressions to a sympy representation.
@@ -993,7 +1000,7 @@ class KernelCode(Kernel):
         if type(math_ast) is c_ast.ID:
             return symbol_pos_int(math_ast.name)
         elif type(math_ast) is c_ast.Constant:
-            return sympy.Integer(math_ast.value)
+            return sympy.Integer(self._int_constant(math_ast))
         else:  # elif type(dim) is c_ast.BinaryOp:
             op = {
                 '*': operator.mul,
@@ -1072,7 +1079,7 @@ class KernelCode(Kernel):
             const_name = floop.cond.right.name
             iter_max = symbol_pos_int(const_name)
         elif type(floop.cond.right) is c_ast.Constant:
-            iter_max = sympy.Integer(floop.cond.right.value)
+            iter_max = sympy.Integer(self._int_constant(floop.cond.right))
         else:  # type(floop.cond.right) is c_ast.BinaryOp
             bop = floop.cond.right
             assert bop.op in '+-*', ('only addition (+), substraction (-) and multiplications (*) '
@@ -1088,7 +1095,7 @@ class KernelCode(Kernel):
             assert floop.next.lvalue.name == floop.cond.left.name == floop.init.decls[0].name, \
                 'initial, condition and next statement of for loop must act on same loop ' \
                 'counter variable'
-            step_size = int(floop.next.rvalue.value)
+            step_size = self._int_constant(floop.next.rvalue)
         else:
             assert type(floop.next.expr) is c_ast.ID, 'next operation may only act on loop counter'
             assert floop.next.expr.name == floop.cond.left.name == floop.init.decls[0].name, \
-- 
2.43.0


From 3bc6dcc8cf9288e5b46626a3aba7cc77131d1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 51/64] fix: increments and decrements within expressions are
 writes

---
 kerncraft/kernel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 17f1f78..6ddc468 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1186,7 +1186,14 @@ class KernelCode(Kernel):
             self._flops[stmt.op] = self._flops.get(stmt.op, 0)+1
         elif type(stmt) is c_ast.UnaryOp:
             self._p_sources(stmt.expr)
-            self._flops[stmt.op] = self._flops.get(stmt.op[-1], 0)+1
+            if stmt.op != '-':
+                # increments and decrements also write
+                assert type(stmt.expr) in [c_ast.ArrayRef, c_ast.ID], \
+                    "Only array elements and variables may be incremented or decremented."
+                self.destinations.setdefault(self._get_basename(stmt.expr), set()).add(
+                    self._get_offsets(stmt.expr))
+            op = stmt.op[-1]
+            self._flops[op] = self._flops.get(op, 0)+1
 
         return sources
 
-- 
2.43.0


From 4a336109e74cfb7611cac0e8b7acb11cbbe747a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 52/64] fix: addresses of accesses depending only on loops of
 length one

---
 kerncraft/kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 6ddc468..dc8051d 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -652,15 +652,16 @@ class Kernel(object):
         #                   fillvalue=None)
 
         # Data access as they appear with iteration order
+        # (offsets are the same in all iterations, if they only depend on a loop of length one)
         load_offsets = []
         for o in global_load_offsets:
-            load_offsets.append(o(*counter_per_it))
+            load_offsets.append(numpy.broadcast_to(o(*counter_per_it), iteration.shape))
         # Convert to numpy ndarray and transpose to get offsets per iterations
         load_offsets = numpy.asarray(load_offsets).T
 
         store_offsets = []
         for o in global_store_offsets:
-            store_offsets.append(o(*counter_per_it))
+            store_offsets.append(numpy.broadcast_to(o(*counter_per_it), iteration.shape))
         store_offsets = numpy.asarray(store_offsets).T
 
         # Combine loads and stores
-- 
2.43.0


From a7cc3376edd5670a91225a3628616f24c37c22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 53/64] fix: code is also generated for constant and
 initialized scalars

---
 kerncraft/kernel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index dc8051d..9cfd008 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1389,6 +1389,7 @@ class KernelCode(Kernel):
                 d.type.declname += suffix
             if pointer:
                 d.type = c_ast.PtrDecl(quals=[], type=d.type)
+                d.init = None
         return decls
 
     def _build_scalar_extern_declarations(self):
@@ -1477,12 +1478,16 @@ class KernelCode(Kernel):
             scalar_init = []
             scalar_copy_back = []
             for sd in deepcopy(self.get_scalar_declarations()):
+                is_const = 'const' in sd.quals
                 sd.storage = ['static']
+                sd.quals = sd.type.quals = [q for q in sd.quals if q != 'const']
+                sd.init = None
                 scalar_decl.append(sd)
                 s_id = c_ast.ID(name=sd.name)
                 ptr = c_ast.UnaryOp(op='*', expr=c_ast.ID(name=sd.name + '_'))
                 scalar_init.append(c_ast.Assignment(op='=', lvalue=s_id, rvalue=ptr))
-                scalar_copy_back.append(c_ast.Assignment(op='=', lvalue=ptr, rvalue=s_id))
+                if not is_const:
+                    scalar_copy_back.append(c_ast.Assignment(op='=', lvalue=ptr, rvalue=s_id))
             kernel = scalar_decl + scalar_init + kernel + scalar_copy_back
 
             function_ast = c_ast.FuncDef(decl=c_ast.Decl(
-- 
2.43.0


From d08aa89f961192ff528087f02c3f230d41a72917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 54/64] fix: benchmarks of kernels which swap arrays

---
 kerncraft/headers/kerncraft.h | 2 +-
 kerncraft/kernel.py           | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerncraft/headers/kerncraft.h b/kerncraft/headers/kerncraft.h
index 5624537..b12b0ed 100644
--- a/kerncraft/headers/kerncraft.h
+++ b/kerncraft/headers/kerncraft.h
@@ -6,7 +6,7 @@
 #define swap(a, b) {void* t = a; a = b; b = t;}
 
 
-inline void* aligned_malloc(size_t size, size_t align) {
+static inline void* aligned_malloc(size_t size, size_t align) {
     // Based on http://stackoverflow.com/q/16376942
     void *result;
     #if defined(_MSC_VER)
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 9cfd008..e4a46bf 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1314,7 +1314,9 @@ class KernelCode(Kernel):
         :return: list of nodes
         """
         with set_recursionlimit(100000):
-            kernel = deepcopy(self.get_kernel_loop_nest())
+            # without swaps, which would exchange arrays of the main program
+            kernel = deepcopy([s for s in self.get_kernel_loop_nest()
+                               if type(s) is not c_ast.FuncCall])
         # traverse to the inner most for loop:
         inner_most = self._find_inner_most_loop(kernel)
         orig_inner_stmt = inner_most.stmt
@@ -1500,6 +1502,10 @@ class KernelCode(Kernel):
             with set_recursionlimit(100000):
                 code = CGenerator().visit(function_ast)
             
+            if self.swaps:
+                # defines swap
+                code = '#include "kerncraft.h"\n\n' + code
+
             if not openmp:
                 # remove all omp pragmas
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
-- 
2.43.0


From 2d3fbafae68702b12f8d0bb0f2116e84019858eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 55/64] fix: constants of benchmarks may exceed the range of
 int

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index e4a46bf..7372948 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1242,7 +1242,7 @@ class KernelCode(Kernel):
             init = None
             if with_init:
                 init = c_ast.FuncCall(
-                    c_ast.ID('atoi'),
+                    c_ast.ID('atoll'),
                     c_ast.ExprList([c_ast.ArrayRef(c_ast.ID('argv'),
                                                    c_ast.Constant('int', str(i)))]))
             i += 1
-- 
2.43.0


From f411e34025291cb8c6bfa7f88c08c5cdf2b27961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 56/64] fix: loop counters are computed with integers

Quotients of floats may be below their exact value: in iteration 49 of an inner loop
of 49 iterations, the outer loop counter was still at its first value.
---
 kerncraft/kernel.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 7372948..f9d1953 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -12,7 +12,7 @@ import sys
 import numbers
 import collections
 from datetime import datetime
-from functools import reduce, lru_cache
+from functools import reduce, lru_cache, partial
 import string
 from collections import defaultdict
 from itertools import chain
@@ -210,6 +210,16 @@ def find_pragmas(ast):
         return [ast]
 
 
+def loop_counter(start, increment, length, inner_length, iteration):
+    """
+    Return value of loop counter in *iteration* (or array thereof).
+
+    Integers are used all the way, since quotients of floats may be less than their exact value.
+    """
+    start, increment, length, inner_length = map(int, (start, increment, length, inner_length))
+    return start + iteration // inner_length % length * increment
+
+
 def force_iterable(f):
     """Will make any functions return an iterable objects by wrapping its result in a list."""
     def wrapper(*args, **kwargs):
@@ -504,27 +514,18 @@ class Kernel(object):
         """
         # unwind global iteration count into loop counters:
         base_loop_counters = {}
-        global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+((global_iterator // total_length) % length)*incr
+            base_loop_counters[loop_var] = partial(
+                loop_counter, *[self.subs_consts(x) for x in (start, incr, length, total_length)])
             total_length = total_length*length
 
-            base_loop_counters[loop_var] = sympy.lambdify(
-                global_iterator,
-                self.subs_consts(counter),
-                modules='numpy')
-
             if git is not None:
-                try:  # Try to resolve to integer if global_iterator was given
-                    base_loop_counters[loop_var] = sympy.Integer(self.subs_consts(counter))
-                    continue
-                except (ValueError, TypeError):
-                    base_loop_counters[loop_var] = base_loop_counters[loop_var](git)
+                base_loop_counters[loop_var] = base_loop_counters[loop_var](git)
 
         return base_loop_counters
 
-- 
2.43.0


From 775ad3e487b7fabdbd5e910e820e8d2e9efb8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 57/64] fix: cache simulation which warms up just to the end of
 the kernel

A sweep is complete then, and no iterations are left to be simulated.
---
 kerncraft/cacheprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index f70e678..e5d2251 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -575,7 +575,7 @@ class CacheSimulationPredictor(CachePredictor):
         while invalid_entries > 0 and step < max_steps and not complete_sweep:
             prev_warmup_iteration = warmup_iteration
             warmup_iteration = warmup_iteration + warmup_increment
-            if warmup_iteration > max_iterations:
+            if warmup_iteration >= max_iterations:
                 warmup_iteration = max_iterations
                 complete_sweep = True
 
-- 
2.43.0


From f5499c7b818ff23638b0f12c974420d6e5db03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 58/64] fix: benchmarking of machines with increased verbosity

---
 kerncraft/machinemodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 2021234..c51e3aa 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -348,8 +348,6 @@ class MachineModel(object):
 
             # Run actual benchmarks and safe machine file in between
             for mem_level in sorted(list(benchmarks['measurements'].keys())):
-                if verbose > 1:
-                    print('Running for {} with {}kB'.format(mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                 for threads_per_core in sorted(list(benchmarks['measurements'][mem_level].keys())):
                     measurement = benchmarks['measurements'][mem_level][threads_per_core]
                     if overwrite or kernel not in measurement['results'] or \
@@ -364,6 +362,9 @@ class MachineModel(object):
                         if len(measurement['results'][kernel]) > i:
                             # Skip already existing data
                             continue
+                        if verbose > 1:
+                            print('Running for {} with {}kB'.format(
+                                mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                         stats = []
                         for r in range(repetitions):
                             stats.append(measure_bw(
-- 
2.43.0


From 77c07e3b5e161670a28ccdad29883bab9e89e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 59/64] fix: benchmarks of machines are repeated once their
 sizes changed

---
 kerncraft/machinemodel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index c51e3aa..4d41fba 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -290,12 +290,16 @@ class MachineModel(object):
                 if threads_per_core in measurement:
                     for k, v in sizes_dict.items():
                         if k in measurement[threads_per_core]:
-                            if v == sizes_dict[k]:
+                            previous = measurement[threads_per_core][k]
+                            if v == previous:
                                 # Exact compartison matched
                                 continue
-                            for i, j in zip(v, sizes_dict[k]):
+                            if not isinstance(previous, list) or len(v) != len(previous):
+                                needs_update = True
+                                break
+                            for i, j in zip(v, previous):
                                 # Fuzzy comparison with relative error tolerance of 1%
-                                if abs(i - j)/min(i, j) >= 0.01:
+                                if abs(float(i) - float(j)) >= 0.01 * min(float(i), float(j)):
                                     needs_update = True
                                     break
                         else:
-- 
2.43.0


From 0727e08528bb82a3816eb900fb75f7011bc3fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 60/64] fix: machine files survive being benchmarked into

---
 kerncraft/machinemodel.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 4d41fba..8606e4d 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -9,6 +9,7 @@ from datetime import datetime
 from distutils.spawn import find_executable
 from distutils.version import LooseVersion
 import re
+import shutil
 from collections import OrderedDict
 from copy import deepcopy, copy
 import hashlib
@@ -629,9 +630,23 @@ class MachineModel(object):
 
         if isinstance(f, io.IOBase):
             f.write(yaml_string)
-        else:
+        elif os.path.exists(f) and not os.path.isfile(f):
             with open(f, 'w') as fp:
                 fp.write(yaml_string)
+        else:
+            # Replace at once, earlier measurements must not be lost if this is interrupted
+            f = os.path.realpath(f)
+            temp_name = '{}.{}.tmp'.format(f, os.getpid())
+            try:
+                with open(temp_name, 'w') as fp:
+                    fp.write(yaml_string)
+                if os.path.exists(f):
+                    shutil.copymode(f, temp_name)
+                os.replace(temp_name, f)
+            except BaseException:
+                if os.path.exists(temp_name):
+                    os.remove(temp_name)
+                raise
 
         return yaml_string
 
@@ -895,7 +910,8 @@ def main():
     parser.add_argument('--compare-host', action='store_true',
                         help='Compares machine file (require --machine) with current hosts and '
                               'reports if system differs in a configuration.')
-    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('w'), default='-',
+    # not truncated, it may be the file given as --machine
+    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('a'), default='-',
                         help='File to save new machine description to.')
 
     parser.set_defaults(readouts=True, memory_hierarchy=True, benchmarks=True, overwrite=True)
-- 
2.43.0


From f2f8891f9b0c6e72647bbaea07cfcc0be9852000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 61/64] fix: machine descriptions are updated without
 overwriting and without shared entries

---
 kerncraft/machinemodel.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 8606e4d..47b9295 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -192,10 +192,19 @@ class MachineModel(object):
                machine_state=True, cpuinfo_path: str='/proc/cpuinfo'):
         """Update model from readouts and benchmarks on current machine."""
         if readouts:
-            self._data.update(get_machine_readouts(cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_machine_readouts(cpuinfo_path=cpuinfo_path)))
         if memory_hierarchy:
-            self._data.update(get_memory_hierarchy(placeholders=overwrite,
-                                                   cpuinfo_path=cpuinfo_path))
+            current = deepcopy(get_memory_hierarchy(placeholders=overwrite,
+                                                    cpuinfo_path=cpuinfo_path))
+            if not overwrite and isinstance(self._data['memory hierarchy'], list):
+                # Keep what is already described of each level
+                described = {mem['level']: mem for mem in self._data['memory hierarchy']}
+                for i, mem in enumerate(current['memory hierarchy']):
+                    if mem['level'] in described:
+                        for k, v in mem.items():
+                            described[mem['level']].setdefault(k, v)
+                        current['memory hierarchy'][i] = described[mem['level']]
+            self._data.update(current)
 
         if benchmarks:
             self._update_benchmarks()
@@ -561,7 +570,7 @@ class MachineModel(object):
 
         :return: True if it is the same
         """
-        current_topology = get_machine_readouts()
+        current_topology = dict(get_machine_readouts())
         current_topology.update(get_memory_hierarchy())
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
@@ -771,6 +780,7 @@ def get_memory_hierarchy(placeholders=True, cpuinfo_path: str='/proc/cpuinfo'):
                     ('write_allocate', 'INFORMATION_REQUIRED (True/False)'),
                     ('write_back', 'INFORMATION_REQUIRED (True/False)'),
                 ])
+            mem_level.setdefault('cache per group', OrderedDict())
             mem_level['cache per group']['load_from'] = 'L' + str(int(mem_level['level'][1:]) + 1)
             mem_level['cache per group']['store_to'] = 'L' + str(int(mem_level['level'][1:]) + 1)
             mem_level['size per group'] = size
-- 
2.43.0


From 382b0f1598a6257f9945d7825daa555cfef62ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 62/64] fix: generated machine descriptions can be read again

---
 kerncraft/machinemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 47b9295..f210f43 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -630,6 +630,8 @@ class MachineModel(object):
         Return YAML string to store machine model and store to f (if path or fp passed).
         """
         yaml = ruamel.yaml.YAML(typ='unsafe')
+        # Long keys (e.g., cache per group) in flow style could not be read again
+        yaml.default_flow_style = False
         yaml.register_class(PrefixedUnit)
         stream = io.StringIO()
         yaml.dump(self._data, stream)
-- 
2.43.0


From e7d842bc1a3b564a826c02f1a1a59c423564e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 63/64] fix: layer conditions of several cores are those of the
 cores asked for

---
 kerncraft/models/layer_condition.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index fc89b3c..87d7288 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -46,9 +46,13 @@ class LC(PerformanceModel):
 
     def analyze(self):
         """Run complete analysis."""
-        lcp = LayerConditionPredictor(self.kernel, self.machine, symbolic=True)
+        lcp = LayerConditionPredictor(self.kernel, self.machine, self._cores(), symbolic=True)
         self.results = lcp.results
 
+    def _cores(self):
+        """Return number of cores the caches are shared by."""
+        return self._args.cores if self._args else 1
+
     def report(self, output_file=sys.stdout):
         """Report generated model in human readable form."""
         if self._args and self._args.verbose > 2:
@@ -56,12 +60,14 @@ class LC(PerformanceModel):
             print()
 
         for cache, cache_results in zip(
-                self.machine.get_cachesim(self._args.cores).levels(with_mem=False),
+                self.machine.get_cachesim(self._cores()).levels(with_mem=False),
                 self.results['cache']):
-            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
-            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
+            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:",
+                  file=output_file)
+            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"),
+                  file=output_file)
             for lc_condition in cache_results:
                 print("    {!r:>35} {:>7} {:>5}".format(lc_condition['condition'],
                                                       lc_condition['misses'],
-                                                      lc_condition['hits']))
-            print()
+                                                      lc_condition['hits']), file=output_file)
+            print(file=output_file)
-- 
2.43.0


From 947f547567bf4bb914c5f065b13208ffc19c4738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 64/64] fix: benchmarked loops with steps which do not divide
 their length

---
 kerncraft/models/benchmark.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 23d5596..e7ff620 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -396,11 +396,7 @@ class Benchmark(PerformanceModel):
 
         # Base metrics for further metric computations:
         # An iteration is equal to one high-level code inner-most-loop iteration
-        iterations_per_repetition = reduce(
-            operator.mul,
-            [self.kernel.subs_consts(max_ - min_) / self.kernel.subs_consts(step)
-             for idx, min_, max_, step in self.kernel._loop_stack],
-            1)
+        iterations_per_repetition = self.kernel.iteration_length()
         iterations_per_cacheline = (float(self.machine['cacheline size']) /
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
-- 
2.43.0

