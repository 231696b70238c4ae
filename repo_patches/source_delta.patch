From d5816ce64f6c3cf5e5992f17503fc74c7e744903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 01/47] fix: make the unused-return-types pattern selectable
 from the command line

The list of choices used another name than the configuration, so selecting
the pattern was accepted and silently ignored.
---
 diffkemp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/cli.py b/diffkemp/cli.py
index bae6e5c..fb15c6f 100644
--- a/diffkemp/cli.py
+++ b/diffkemp/cli.py
@@ -144,7 +144,7 @@ def make_argument_parser():
 
     BUILTIN_PATTERNS = ["struct-alignment",
                         "function-splits",
-                        "unused-returns",
+                        "unused-return-types",
                         "kernel-prints",
                         "dead-code",
                         "numerical-macros",
-- 
2.43.0


From 0ad5fdd8640aeb3f465bf5807b77aa8ec7bceff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 02/47] fix: preprocess cached modules with the FFI pattern
 structure

A Python object was passed instead, which cffi refuses with a TypeError, so
every comparison with the module cache enabled crashed.
---
 diffkemp/simpll/simpll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index ebb483f..371365e 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -46,7 +46,7 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
         for module in [first, second]:
             if module not in module_cache and module in modules_to_cache:
                 module_cache[module] = SimpLLModule(module)
-                module_cache[module].preprocess(config.builtin_patterns)
+                module_cache[module].preprocess(builtin_patterns[0])
 
         use_cached_modules = (module_cache and first in module_cache and
                               second in module_cache)
-- 
2.43.0


From 9547d0dca20bf1e2aabd3775beaeb6df645b1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 03/47] fix: keep files outside of the source directory out of
 the snapshot

A directory name that starts with the name of the source directory or a path
leaving the source directory through '..' passed the prefix test, and the file
was then written outside of the snapshot.
---
 diffkemp/llvm_ir/llvm_module.py | 6 +++---
 diffkemp/llvm_ir/source_tree.py | 3 ++-
 diffkemp/utils.py               | 7 +++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/diffkemp/llvm_ir/llvm_module.py b/diffkemp/llvm_ir/llvm_module.py
index 01d0b45..97c620a 100644
--- a/diffkemp/llvm_ir/llvm_module.py
+++ b/diffkemp/llvm_ir/llvm_module.py
@@ -5,7 +5,7 @@ Functions for working with modules and parameters in them.
 
 from diffkemp.simpll.library import SimpLLModule
 from diffkemp.simpll._simpll.lib import shutdownSimpLL
-from diffkemp.utils import get_opt_command
+from diffkemp.utils import get_opt_command, is_inside_dir
 import os
 import re
 import shutil
@@ -153,7 +153,7 @@ class LlvmModule:
         :param new_root: Project root directory to move to.
         :return:
         """
-        if self.llvm.startswith(old_root):
+        if is_inside_dir(self.llvm, old_root):
             dest_llvm = os.path.join(new_root,
                                      os.path.relpath(self.llvm, old_root))
             # Copy the .ll file and replace all occurrences of the old root by
@@ -168,7 +168,7 @@ class LlvmModule:
                             llvm_new.write(line)
             self.llvm = dest_llvm
 
-        if self.source and self.source.startswith(old_root):
+        if self.source and is_inside_dir(self.source, old_root):
             # Copy the C source file.
             dest_source = os.path.join(new_root,
                                        os.path.relpath(self.source, old_root))
diff --git a/diffkemp/llvm_ir/source_tree.py b/diffkemp/llvm_ir/source_tree.py
index 7eafbf0..046b5c6 100644
--- a/diffkemp/llvm_ir/source_tree.py
+++ b/diffkemp/llvm_ir/source_tree.py
@@ -4,6 +4,7 @@ Contains functions for getting LLVM modules from the project.
 """
 from diffkemp.llvm_ir.llvm_module import LlvmModule
 from diffkemp.llvm_ir.llvm_source_finder import SourceNotFoundException
+from diffkemp.utils import is_inside_dir
 import os
 import shutil
 
@@ -115,7 +116,7 @@ class SourceTree:
 
             # Copy linked sources and headers.
             for src_sourcefile in mod.get_included_sources():
-                if not src_sourcefile.startswith(self.source_dir):
+                if not is_inside_dir(src_sourcefile, self.source_dir):
                     continue
                 dest_sourcefile = os.path.join(
                     target_source_tree.source_dir,
diff --git a/diffkemp/utils.py b/diffkemp/utils.py
index c7d1cb9..8e13e97 100644
--- a/diffkemp/utils.py
+++ b/diffkemp/utils.py
@@ -16,6 +16,13 @@ def get_simpll_build_dir():
     return "build"
 
 
+def is_inside_dir(path, directory):
+    """
+    Check whether the given path lies inside the given directory.
+    """
+    return os.path.relpath(path, directory).split(os.sep)[0] != os.pardir
+
+
 def get_llvm_version():
     """
     Return the current LLVM major version number.
-- 
2.43.0


From 73ce71ae47b39e96e5c0ed5b2aead84aa89e4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 04/47] fix: warn about a missing LLVM file instead of failing

The os module has no stderr, so the warning itself raised AttributeError.
---
 diffkemp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/utils.py b/diffkemp/utils.py
index 8e13e97..fab4c1f 100644
--- a/diffkemp/utils.py
+++ b/diffkemp/utils.py
@@ -1,6 +1,7 @@
 import os
 import subprocess
 import re
+import sys
 
 LLVM_FUNCTION_REGEX = re.compile(r"^define.*@(\w+)\(", flags=re.MULTILINE)
 
@@ -94,7 +95,7 @@ def get_functions_from_llvm(llvm_files):
     functions = {}
     for llvm_filename in llvm_files:
         if not os.path.exists(llvm_filename):
-            os.stderr.write(
+            sys.stderr.write(
                 f"Warning: llvm file '{llvm_filename}' does not exist\n")
             continue
         with open(llvm_filename, 'r') as llvm_file:
-- 
2.43.0


From 783f6b5135bcc5cc091bf773a445673efba1228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 05/47] fix: restore kernel headers when a build or comparison
 ends early

An empty symbol list, an exception, or an incompatible second snapshot left the
headers of the kernel source tree (and of the snapshots) modified.
---
 diffkemp/config.py   | 20 ++++++++++++++-
 diffkemp/diffkemp.py | 58 +++++++++++++++++++++++++++++---------------
 diffkemp/snapshot.py | 32 +++++++++++++-----------
 3 files changed, 75 insertions(+), 35 deletions(-)

diff --git a/diffkemp/config.py b/diffkemp/config.py
index cfa2862..ae474ef 100644
--- a/diffkemp/config.py
+++ b/diffkemp/config.py
@@ -170,8 +170,26 @@ class Config:
         """
         # Parse both the new and the old snapshot.
         snapshot_first = Snapshot.load_from_dir(args.snapshot_dir_old)
-        snapshot_second = Snapshot.load_from_dir(args.snapshot_dir_new)
+        try:
+            snapshot_second = Snapshot.load_from_dir(args.snapshot_dir_new)
+            try:
+                return cls._from_snapshots(args, snapshot_first,
+                                           snapshot_second)
+            except BaseException:
+                snapshot_second.finalize()
+                raise
+        except BaseException:
+            snapshot_first.finalize()
+            raise
 
+    @classmethod
+    def _from_snapshots(cls, args, snapshot_first, snapshot_second):
+        """
+        Create the configuration from command line arguments.
+        :param args: Command line arguments
+        :param snapshot_first: First loaded snapshot.
+        :param snapshot_second: Second loaded snapshot.
+        """
         if args.function:
             snapshot_first.filter([args.function])
             snapshot_second.filter([args.function])
diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 4b53dd1..ddef6e0 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -169,26 +169,32 @@ def build_kernel(args):
     source_finder = KernelLlvmSourceBuilder(args.source_dir)
     source = KernelSourceTree(args.source_dir, source_finder)
     list_kind = "sysctl" if args.sysctl else "function"
-    snapshot = Snapshot.create_from_source(source,
-                                           args.output_dir,
-                                           list_kind,
-                                           not args.no_source_dir)
+    try:
+        snapshot = Snapshot.create_from_source(source,
+                                               args.output_dir,
+                                               list_kind,
+                                               not args.no_source_dir)
+        try:
+            # Read the symbol list
+            symbol_list = read_symbol_list(args.symbol_list)
+            if not symbol_list:
+                sys.stderr.write(
+                    "ERROR: symbol list is empty or could not be read\n")
+                return
 
-    # Read the symbol list
-    symbol_list = read_symbol_list(args.symbol_list)
-    if not symbol_list:
-        sys.stderr.write("ERROR: symbol list is empty or could not be read\n")
-        return
+            # Generate snapshot contents
+            if args.sysctl:
+                generate_from_sysctl_list(snapshot, symbol_list)
+            else:
+                generate_from_function_list(snapshot, symbol_list)
 
-    # Generate snapshot contents
-    if args.sysctl:
-        generate_from_sysctl_list(snapshot, symbol_list)
-    else:
-        generate_from_function_list(snapshot, symbol_list)
-
-    # Create the snapshot directory containing the YAML description file
-    snapshot.generate_snapshot_dir()
-    snapshot.finalize()
+            # Create the snapshot directory with the YAML description file
+            snapshot.generate_snapshot_dir()
+        finally:
+            snapshot.finalize()
+    finally:
+        # Restore the kernel sources even if the snapshot was not created
+        source.finalize()
 
 
 def llvm_to_snapshot(args):
@@ -371,6 +377,20 @@ def compare(args):
         output_dir = None
 
     config = Config.from_args(args)
+    try:
+        return compare_snapshots(args, config, output_dir)
+    finally:
+        config.snapshot_first.finalize()
+        config.snapshot_second.finalize()
+
+
+def compare_snapshots(args, config, output_dir):
+    """
+    Compare functions of the loaded snapshots and report the results.
+    :param args: CLI arguments of the "diffkemp compare" command.
+    :param config: Configuration containing the loaded snapshots.
+    :param output_dir: Output directory (None to use the standard output).
+    """
     result = Result(Result.Kind.NONE, args.snapshot_dir_old,
                     args.snapshot_dir_old, start_time=default_timer())
 
@@ -482,8 +502,6 @@ def compare(args):
         yaml_output = YamlOutput(snapshot_dir_old=old_dir_abs,
                                  snapshot_dir_new=new_dir_abs, result=result)
         yaml_output.save(output_dir=output_dir, file_name="diffkemp-out.yaml")
-    config.snapshot_first.finalize()
-    config.snapshot_second.finalize()
 
     if output_dir is not None and os.path.isdir(output_dir):
         print("Differences stored in {}/".format(output_dir))
diff --git a/diffkemp/snapshot.py b/diffkemp/snapshot.py
index 0aa4797..a64d43e 100644
--- a/diffkemp/snapshot.py
+++ b/diffkemp/snapshot.py
@@ -95,20 +95,24 @@ class Snapshot:
         snapshot_tree = SourceTree(snapshot_dir)
         loaded_snapshot = cls(None, snapshot_tree)
 
-        with open(os.path.join(snapshot_dir, config_file), "r") as \
-                snapshot_yaml:
-            loaded_snapshot._from_yaml(snapshot_yaml.read())
-
-        # Check if the snapshot LLVM version is compatible with
-        # the current version.
-        llvm_version = get_llvm_version()
-        if llvm_version != loaded_snapshot.llvm_version:
-            sys.stderr.write(
-                f"Error: The snapshot {snapshot_dir} was built with LLVM"
-                f"{loaded_snapshot.llvm_version}, "
-                f"the current version is {llvm_version}.\n"
-            )
-            sys.exit(errno.EINVAL)
+        try:
+            with open(os.path.join(snapshot_dir, config_file), "r") as \
+                    snapshot_yaml:
+                loaded_snapshot._from_yaml(snapshot_yaml.read())
+
+            # Check if the snapshot LLVM version is compatible with
+            # the current version.
+            llvm_version = get_llvm_version()
+            if llvm_version != loaded_snapshot.llvm_version:
+                sys.stderr.write(
+                    f"Error: The snapshot {snapshot_dir} was built with LLVM"
+                    f"{loaded_snapshot.llvm_version}, "
+                    f"the current version is {llvm_version}.\n"
+                )
+                sys.exit(errno.EINVAL)
+        except BaseException:
+            loaded_snapshot.finalize()
+            raise
 
         return loaded_snapshot
 
-- 
2.43.0


From 25e7e9005b9596df3e140e880b72471a8507cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 06/47] fix: do not lose differences of functions also called
 with unused results

If a function was first reached over a call whose result is not used (weak
dependency), later ordinary (strong) dependencies on it were ignored.
---
 diffkemp/semdiff/caching.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index fe45d9d..d6e3da6 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -322,7 +322,9 @@ class ComparisonGraph:
                     # Invalid successor.
                     continue
                 target = self[edge.target_name]
-                if target in visited:
+                if (target in visited and
+                        (edge.kind == ComparisonGraph.DependencyKind.WEAK or
+                         target in result)):
                     continue
                 if (target.files[side].endswith(".c") and
                         original_source_files[side] != target.files[side]):
@@ -332,7 +334,8 @@ class ComparisonGraph:
                     # comparison boundary beyond which we don't consider the
                     # results interesting.
                     continue
-                queue.appendleft(target)
+                if target not in visited:
+                    queue.appendleft(target)
                 if target not in backtracking_map:
                     backtracking_map[target] = edge
                 if edge.kind == ComparisonGraph.DependencyKind.WEAK:
-- 
2.43.0


From ce601dbb646438fae381c2cffc9741cd08a070c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 07/47] fix: report unreadable SimpLL output as an error

The YAML error (e.g. because of a macro body which is not valid UTF-8) was
ignored and the whole comparison then ended with a KeyError.
---
 diffkemp/simpll/simpll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index 371365e..592dd6a 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -206,6 +206,6 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
             missing_defs = simpll_result["missing-defs"] \
                 if "missing-defs" in simpll_result else None
     except yaml.YAMLError:
-        pass
+        raise SimpLLException("Output of SimpLL could not be read")
 
     return first_out, second_out, result_graph, missing_defs
-- 
2.43.0


From 20dd056fbfb114cb8ea4d21544834645985da352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 08/47] fix: keep unknown and error results when filtering by
 regex

The filter set every result without a matching difference to equal, also
results of failed comparisons; results without a diff made it crash.
---
 diffkemp/diffkemp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index ddef6e0..bfad1ca 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -444,11 +444,12 @@ def compare_snapshots(args, config, output_dir):
             result_graph = fun_result.graph
 
             if fun_result is not None:
-                if args.regex_filter is not None:
+                if (args.regex_filter is not None and
+                        fun_result.kind == Result.Kind.NOT_EQUAL):
                     # Filter results by regex
                     pattern = re.compile(args.regex_filter)
                     for called_res in fun_result.inner.values():
-                        if pattern.search(called_res.diff):
+                        if pattern.search(called_res.diff or ""):
                             break
                     else:
                         fun_result.kind = Result.Kind.EQUAL
-- 
2.43.0


From 8eba29d03744ff4308a415a303a53eb7c2be0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 09/47] fix: report a verdict of equal functions with
 --full-diff

Functions without any difference were reported with no verdict and unknown
results with an empty syntax diff were lost.
---
 diffkemp/semdiff/function_diff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/function_diff.py b/diffkemp/semdiff/function_diff.py
index 9b0fd8f..282e76e 100644
--- a/diffkemp/semdiff/function_diff.py
+++ b/diffkemp/semdiff/function_diff.py
@@ -303,10 +303,12 @@ def functions_diff(mod_first, mod_second,
                         fun_result.diff = "unknown\n"
                 # Do not save the result if there is neither syntactic nor
                 # semantic difference.
-                if (fun_result.kind != Result.Kind.NOT_EQUAL and
+                if (fun_result.kind == Result.Kind.EQUAL and
                         fun_result.diff == ""):
                     continue
                 result.add_inner(fun_result)
+            if not result.inner:
+                result.kind = Result.Kind.EQUAL
     except ValueError:
         result.kind = Result.Kind.ERROR
     except SimpLLException as e:
-- 
2.43.0


From 4e78d16ffed86982ee3d3ea20c93f76993b9e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 10/47] fix: name the new snapshot in the overall result

---
 diffkemp/diffkemp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index bfad1ca..5fb9ff5 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -392,7 +392,7 @@ def compare_snapshots(args, config, output_dir):
     :param output_dir: Output directory (None to use the standard output).
     """
     result = Result(Result.Kind.NONE, args.snapshot_dir_old,
-                    args.snapshot_dir_old, start_time=default_timer())
+                    args.snapshot_dir_new, start_time=default_timer())
 
     for group_name, group in sorted(config.snapshot_first.fun_groups.items()):
         group_printed = False
-- 
2.43.0


From 252285c3de97d76c720f1dfe393a093481664d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 11/47] fix: list functions whose comparison timed out

---
 diffkemp/diffkemp.py       | 1 +
 diffkemp/semdiff/result.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 5fb9ff5..1b94aea 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -459,6 +459,7 @@ def compare_snapshots(args, config, output_dir):
                 # Printing information about failures and non-equal functions.
                 if fun_result.kind in [Result.Kind.NOT_EQUAL,
                                        Result.Kind.UNKNOWN,
+                                       Result.Kind.TIMEOUT,
                                        Result.Kind.ERROR] or config.full_diff:
                     if fun_result.kind == Result.Kind.NOT_EQUAL or \
                        config.full_diff:
diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index 7ac2423..4ff6972 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -207,7 +207,7 @@ class Result:
             if errs > 0:
                 print("\nFunctions whose comparison ended with an error: ")
                 for f, r in sorted(self.inner.items()):
-                    if r.kind == Result.Kind.ERROR:
+                    if r.kind in [Result.Kind.ERROR, Result.Kind.TIMEOUT]:
                         print(f)
                 print()
 
-- 
2.43.0


From 3745de7eca6cd0694a3410a076bba9df5b3c42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 12/47] fix: compare all call arguments after one equal in the
 C source

When an argument differed in the LLVM IR but corresponded to the same C source
expression, the calls were considered equal without comparing the remaining
arguments.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index c11ed20..670dff4 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -1847,6 +1847,9 @@ int DifferentialFunctionComparator::cmpOperationsWithOperands(
                                                       OpL,
                                                       OpR,
                                                       i);
+                    // The arguments are equal, go on with the other operands.
+                    if (!Res)
+                        continue;
                 }
                 RETURN_WITH_LOG(Res);
             }
-- 
2.43.0


From ebde77e5cad5c200764c0d23d49f791776663d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 13/47] fix: compare operations of constant expressions

Constant expressions with the same operands were considered equal even if they
performed different operations on them.
---
 .../simpll/DifferentialFunctionComparator.cpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 670dff4..cfb9faf 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -1598,6 +1598,27 @@ int DifferentialFunctionComparator::cmpConstants(const Constant *L,
                                                  const Constant *R) const {
     int Result = FunctionComparator::cmpConstants(L, R);
 
+    if (Result == 0) {
+        // For constant expressions, the original function compares just the
+        // operands. Compare the performed operation, too.
+        auto *CEL = dyn_cast<ConstantExpr>(L);
+        auto *CER = dyn_cast<ConstantExpr>(R);
+        if (CEL && CER) {
+            Result = cmpNumbers(CEL->getOpcode(), CER->getOpcode());
+            if (!Result && CEL->isCompare())
+                Result = cmpNumbers(CEL->getPredicate(), CER->getPredicate());
+
+            // Members of structures are identified by the indices, in all other
+            // cases, the element type determines the offset.
+            auto *GEPL = dyn_cast<GEPOperator>(CEL);
+            auto *GEPR = dyn_cast<GEPOperator>(CER);
+            if (!Result && GEPL && GEPR
+                && !(isa<StructType>(GEPL->getSourceElementType())
+                     && isa<StructType>(GEPR->getSourceElementType())))
+                Result = cmpGEPs(GEPL, GEPR);
+        }
+    }
+
     if (Result == 0)
         return Result;
 
-- 
2.43.0


From c73d04cae2e02a9e0e3bd9adc4a850cd355c7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 14/47] fix: match reordered binary operations only by their
 operands

When the operands could not be collected, the compared operations themselves
were used instead. As they have been already synchronized, the comparison
always succeeded.
---
 .../simpll/DifferentialFunctionComparator.cpp | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index cfb9faf..ec9453f 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -998,11 +998,29 @@ int DifferentialFunctionComparator::cmpBasicBlocks(
                         dyn_cast<BinaryOperator>(&*InstR)->getOpcode();
                 std::multiset<int> SnSetL, SnSetR;
                 std::multiset<int64_t> ConstantsSetL, ConstantsSetR;
-                if (OpcodeL == OpcodeR
-                    && collectBinaryOperands(
-                            &*InstL, OpcodeL, SnSetL, ConstantsSetL, sn_mapL)
-                    && collectBinaryOperands(
-                            &*InstR, OpcodeR, SnSetR, ConstantsSetR, sn_mapR)
+                // The instructions themselves are already synchronized with
+                // each other, hence collect their operands.
+                if (OpcodeL == OpcodeR && cmpValues(&*InstL, &*InstR) == 0
+                    && collectBinaryOperands(InstL->getOperand(0),
+                                             OpcodeL,
+                                             SnSetL,
+                                             ConstantsSetL,
+                                             sn_mapL)
+                    && collectBinaryOperands(InstL->getOperand(1),
+                                             OpcodeL,
+                                             SnSetL,
+                                             ConstantsSetL,
+                                             sn_mapL)
+                    && collectBinaryOperands(InstR->getOperand(0),
+                                             OpcodeR,
+                                             SnSetR,
+                                             ConstantsSetR,
+                                             sn_mapR)
+                    && collectBinaryOperands(InstR->getOperand(1),
+                                             OpcodeR,
+                                             SnSetR,
+                                             ConstantsSetR,
+                                             sn_mapR)
                     && SnSetL == SnSetR && ConstantsSetL == ConstantsSetR) {
                     InstL++;
                     InstR++;
-- 
2.43.0


From 4597ee3c1d3e9a331b39deaf7c65640ee8ff1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 15/47] fix: do not skip repeated loads conflicting with code
 of the same loop

The part of the block following the load was not checked although it precedes
the load in the next iteration of a loop.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index ec9453f..7d6445d 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -633,7 +633,9 @@ bool DifferentialFunctionComparator::maySkipLoad(const LoadInst *Load) const {
     bool first = true;
     const Value *Replacement = nullptr;
     std::deque<const BasicBlock *> blockQueue = {BB};
-    std::unordered_set<const BasicBlock *> visitedBlocks = {BB};
+    // The block of the load is not visited yet as only its part preceding the
+    // load is checked first. The rest must be checked if the load is in a loop.
+    std::unordered_set<const BasicBlock *> visitedBlocks;
     while (!blockQueue.empty()) {
         BB = blockQueue.front();
         blockQueue.pop_front();
@@ -651,6 +653,13 @@ bool DifferentialFunctionComparator::maySkipLoad(const LoadInst *Load) const {
                 continue;
             }
 
+            // The load has been reached again (through a loop) and there is no
+            // conflict in between.
+            if (&*it == Load) {
+                checkPredecessors = false;
+                break;
+            }
+
             const Value *ReplacementCandidate = nullptr;
             if (auto PreviousLoad = dyn_cast<LoadInst>(&*it)) {
                 if (Load->getPointerOperand()
-- 
2.43.0


From 85040158c3735e3e2cea9eae9fda6f7d848d1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 16/47] fix: consider all memory accesses of relocated code

Only the first load and the first store of the relocated code were checked for
dependencies and its last instruction was omitted. Also, two stores to the same
pointer were allowed to be swapped.
---
 .../simpll/DifferentialFunctionComparator.cpp | 27 +++++++------------
 .../simpll/DifferentialFunctionComparator.h   |  4 +--
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 7d6445d..55d3322 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -2086,30 +2086,23 @@ bool DifferentialFunctionComparator::findMatchingOpWithOffset(
 /// Check if there is a dependency between the given instruction and the
 /// currently stored relocation.
 /// There is a dependency if both the instruction and the relocated code (any
-/// instruction within it) access the same pointer and one of the accesses
-/// is a store and the other one is a load.
+/// instruction within it) access the same pointer and at least one of the
+/// accesses is a store.
 /// \param Inst Instruction to check
 /// \return True if there exists a dependency, otherwise false.
 bool DifferentialFunctionComparator::isDependingOnReloc(
         const Instruction &Inst) const {
-    auto *Load = dyn_cast<LoadInst>(&Inst);
-    auto *Store = dyn_cast<StoreInst>(&Inst);
-    if (!Load && !Store)
+    auto *Ptr = getLoadStorePointerOperand(&Inst);
+    if (!Ptr)
         return false;
 
-    auto RelocInst = Reloc.begin;
-    do {
-        if (!Load)
-            Load = dyn_cast<LoadInst>(&*RelocInst);
-        if (!Store)
-            Store = dyn_cast<StoreInst>(&*RelocInst);
-
-        if (Load && Store
-            && Load->getPointerOperand() == Store->getPointerOperand())
+    // The relocated code includes the end instruction
+    auto RelocEnd = std::next(Reloc.end);
+    for (auto RelocInst = Reloc.begin; RelocInst != RelocEnd; RelocInst++) {
+        if ((isa<StoreInst>(&Inst) || isa<StoreInst>(&*RelocInst))
+            && getLoadStorePointerOperand(&*RelocInst) == Ptr)
             return true;
-
-        RelocInst++;
-    } while (RelocInst != Reloc.end);
+    }
 
     return false;
 }
diff --git a/diffkemp/simpll/DifferentialFunctionComparator.h b/diffkemp/simpll/DifferentialFunctionComparator.h
index 7c67c64..035f15c 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.h
+++ b/diffkemp/simpll/DifferentialFunctionComparator.h
@@ -288,8 +288,8 @@ class DifferentialFunctionComparator : public FunctionComparator {
     /// Check if there is a dependency between the given instruction and the
     /// currently stored relocation.
     /// There is a dependency if both the instruction and the relocated code
-    /// (any instruction within it) access the same pointer and one of the
-    /// accesses is a store and the other one is a load.
+    /// (any instruction within it) access the same pointer and at least one
+    /// of the accesses is a store.
     bool isDependingOnReloc(const Instruction &Inst) const;
 
     /// Recursively collect operands of reorderable binary operators.
-- 
2.43.0


From 4958d39bc44884b7d4c39e6baef6c12887631add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 17/47] fix: restore the compared position when a relocation is
 rejected

When the matched instruction depended on the relocated code, the skipped code
was never compared.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 55d3322..f7d0df5 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -2060,8 +2060,12 @@ bool DifferentialFunctionComparator::findMatchingOpWithOffset(
             Reloc.end = end;
             // Make sure that the first equal instruction is not depending on
             // the relocation
-            if (isDependingOnReloc(*MovedInst))
-                return false;
+            if (isDependingOnReloc(*MovedInst)) {
+                sn_mapL = sn_mapL_backup;
+                sn_mapR = sn_mapR_backup;
+                mappedValuesBySn = mappedValuesBySnBackup;
+                break;
+            }
             Reloc.status = RelocationInfo::Stored;
             Reloc.prog = prog_to_search;
             Reloc.tryInlineBackup = tryInlineBackup;
-- 
2.43.0


From 82c7a79a3acd289d307f165d7be432ae6b54e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 18/47] fix: treat kernel print functions alike only with the
 pattern enabled

Calls to different kernel print functions (e.g. printk and _dev_info) were
compared as equal, and bodies of print functions were not compared, also
with the kernel-prints pattern disabled.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index f7d0df5..b60a671 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -1303,7 +1303,8 @@ int DifferentialFunctionComparator::cmpGlobalValues(GlobalValue *L,
         if (hasSuffix(NameR.str()))
             NameR = NameR.substr(0, NameR.find_last_of("."));
         if (NameL == NameR
-            || (isKernelPrintFunction(NameL.str())
+            || (config.Patterns.KernelPrints
+                && isKernelPrintFunction(NameL.str())
                 && isKernelPrintFunction(NameR.str()))) {
             if (isa<Function>(L) && isa<Function>(R)) {
                 // Functions compared as being the same have to be also compared
@@ -1313,8 +1314,9 @@ int DifferentialFunctionComparator::cmpGlobalValues(GlobalValue *L,
 
                 // Do not compare SimpLL abstractions and intrinsic functions.
                 if (!isSimpllAbstraction(FunL) && !isSimpllAbstraction(FunR)
-                    && !isKernelPrintFunction(L->getName().str())
-                    && !isKernelPrintFunction(R->getName().str())
+                    && !(config.Patterns.KernelPrints
+                         && (isKernelPrintFunction(L->getName().str())
+                             || isKernelPrintFunction(R->getName().str())))
                     && !FunL->isIntrinsic() && !FunR->isIntrinsic()) {
                     // Store the called functions into the current
                     // functions' callee set.
-- 
2.43.0


From a2fa8a75e505d3808c278df649d6680667f3f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 19/47] fix: keep inner results which have the same name

A result replaced an earlier one of the same name, e.g. differences of a
macro used in two functions (one of the functions was not reported at all) or
of a function belonging to multiple sysctl groups.
---
 diffkemp/semdiff/result.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index 4ff6972..9c96bd8 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -159,7 +159,15 @@ class Result:
         Add result of an inner entity.
         The overall current result is updated based on the entity result.
         """
-        self.inner[result.first.name] = result
+        # Note: there can be more inner entities having the same name (e.g.
+        # a macro used in multiple functions or a function contained in
+        # multiple groups).
+        name = result.first.name
+        count = 1
+        while name in self.inner:
+            count += 1
+            name = "{} ({})".format(result.first.name, count)
+        self.inner[name] = result
         # The current result is joined with the inner result (the result with
         # a higher priority is chosen from the two).
         self.kind = Result.Kind(max(int(self.kind), int(result.kind)))
-- 
2.43.0


From eb8dc017cee6a81b67597b54f59d9feb3648bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 20/47] fix: write the function name of repeated results to the
 YAML output

---
 diffkemp/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/output.py b/diffkemp/output.py
index af34b34..5433fbb 100644
--- a/diffkemp/output.py
+++ b/diffkemp/output.py
@@ -37,7 +37,8 @@ class YamlOutput:
         """Creates call stacks of not-equal functions."""
         # list of all not-equal functions callstacks
         results = []
-        for fun_name, fun_result in self.result.inner.items():
+        for fun_result in self.result.inner.values():
+            fun_name = fun_result.first.name
             if fun_result.kind != Result.Kind.NOT_EQUAL:
                 continue
             self.function_names.add(fun_name)
-- 
2.43.0


From 57c8f4da0f6d7f5c5a8be6c731fe46dca67f2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 21/47] fix: keep the graph when a compared function has none

Functions which could not be compared have no graph. Adding their results
dropped the graph of the previous results, hence definitions were missing
in the YAML output and printing extended statistics crashed.
---
 diffkemp/semdiff/result.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index 9c96bd8..b853234 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -173,8 +173,10 @@ class Result:
         self.kind = Result.Kind(max(int(self.kind), int(result.kind)))
         # The graph of the latest inner result is the graph of the outer one.
         # Note: this is true because the graph is built incrementally, reusing
-        # the already known results from the previous comparison.
-        self.graph = result.graph
+        # the already known results from the previous comparison. It is missing
+        # for functions which could not be compared.
+        if result.graph is not None:
+            self.graph = result.graph
 
     def report_symbol_stat(self, show_errors=False):
         """
@@ -248,13 +250,14 @@ class Result:
                 unique_diffs.add(UniqueDiff(inner_res))
 
         # Generate counts
-        compared = len(self.graph.vertices)
+        vertices = self.graph.vertices if self.graph is not None else {}
+        compared = len(vertices)
         compared_instructions = sum([v.stats.compared_inst_cnt() for v in
-                                     self.graph.vertices.values()])
+                                     vertices.values()])
         compared_lines = sum([v.stats.compared_lines_cnt() for v in
-                              self.graph.vertices.values()])
+                              vertices.values()])
         equal_instructions = sum([v.stats.compared_inst_equal_cnt() for v
-                                  in self.graph.vertices.values()])
+                                  in vertices.values()])
         if compared_instructions > 0:
             equal_percent = equal_instructions / compared_instructions * 100
         else:
-- 
2.43.0


From 19e737a5e8129ce30bd87b10c5bcb31ffebe8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 22/47] fix: use graphs of all groups when printing definitions
 and statistics

Each function group (e.g. a sysctl) has its own graph but only the graph of
the last one was used for definitions of functions and types in the YAML
output and for extended statistics.
---
 diffkemp/output.py         | 20 ++++++++++++--------
 diffkemp/semdiff/result.py | 21 +++++++++++++++++----
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/diffkemp/output.py b/diffkemp/output.py
index 5433fbb..bf955dd 100644
--- a/diffkemp/output.py
+++ b/diffkemp/output.py
@@ -80,13 +80,11 @@ class YamlOutput:
         self._create_type_defs()
 
     def _create_function_defs(self):
-        if self.result.graph is None:
-            return
         definitions = {}
         for name in self.function_names:
-            if name not in self.result.graph.vertices:
+            vertex = self._find_vertex(name)
+            if vertex is None:
                 continue
-            vertex = self.result.graph[name]
             definition = {
                 "kind": "function",
                 "old": self._create_def_info(vertex.lines[0],
@@ -109,13 +107,11 @@ class YamlOutput:
         :param type_names: Set of tuples (type name, parent name),
                            parent name - name of function in which type is used
         """
-        if self.result.graph is None:
-            return
         definitions = {}
         for type_name, parent_name in self.type_names:
-            if parent_name not in self.result.graph.vertices:
+            vertex = self._find_vertex(parent_name)
+            if vertex is None:
                 continue
-            vertex = self.result.graph[parent_name]
             for non_fun in vertex.nonfun_diffs:
                 if non_fun.name == type_name and \
                         isinstance(non_fun, ComparisonGraph.TypeDiff):
@@ -134,6 +130,14 @@ class YamlOutput:
                     break
         self.output["definitions"].update(definitions)
 
+    def _find_vertex(self, name):
+        """Returns the vertex of a function or None if there is not any.
+        Note: results of distinct function groups have distinct graphs."""
+        for graph in self.result.all_graphs():
+            if name in graph.vertices:
+                return graph[name]
+        return None
+
     def _create_def_info(self, line, file, snapshot_dir, kind):
         info = {
             "line": line,
diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index b853234..e9a1b63 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -178,6 +178,18 @@ class Result:
         if result.graph is not None:
             self.graph = result.graph
 
+    def all_graphs(self):
+        """
+        Get the graphs of this result and of all inner results. There can be
+        more of them (e.g. each function group has its own graph).
+        """
+        graphs = []
+        for result in [self, *self.inner.values()]:
+            if (result.graph is not None and
+                    not any(result.graph is graph for graph in graphs)):
+                graphs.append(result.graph)
+        return graphs
+
     def report_symbol_stat(self, show_errors=False):
         """
         Report symbol statistics.
@@ -250,14 +262,15 @@ class Result:
                 unique_diffs.add(UniqueDiff(inner_res))
 
         # Generate counts
-        vertices = self.graph.vertices if self.graph is not None else {}
+        vertices = [vertex for graph in self.all_graphs()
+                    for vertex in graph.vertices.values()]
         compared = len(vertices)
         compared_instructions = sum([v.stats.compared_inst_cnt() for v in
-                                     vertices.values()])
+                                     vertices])
         compared_lines = sum([v.stats.compared_lines_cnt() for v in
-                              vertices.values()])
+                              vertices])
         equal_instructions = sum([v.stats.compared_inst_equal_cnt() for v
-                                  in vertices.values()])
+                                  in vertices])
         if compared_instructions > 0:
             equal_percent = equal_instructions / compared_instructions * 100
         else:
-- 
2.43.0


From 704ff3af8658b3824cbad86855b59a2bb1948730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 23/47] fix: do not stop when a source file of a difference is
 not available

Functions without debug information have no source file and source files
can be removed or changed after building a snapshot. Such a function which
was found to be different stopped the whole comparison.
---
 diffkemp/output.py                       | 5 +++--
 diffkemp/syndiff/function_syntax_diff.py | 2 +-
 diffkemp/utils.py                        | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/diffkemp/output.py b/diffkemp/output.py
index bf955dd..507b0db 100644
--- a/diffkemp/output.py
+++ b/diffkemp/output.py
@@ -141,10 +141,11 @@ class YamlOutput:
     def _create_def_info(self, line, file, snapshot_dir, kind):
         info = {
             "line": line,
-            "file": os.path.relpath(file, snapshot_dir),
+            # Note: the file is not known if there is no debug information.
+            "file": os.path.relpath(file, snapshot_dir) if file else "",
         }
         try:
             info["end-line"] = get_end_line(file, line, kind)
-        except (UnicodeDecodeError, EndLineNotFound):
+        except (OSError, UnicodeDecodeError, EndLineNotFound):
             pass
         return info
diff --git a/diffkemp/syndiff/function_syntax_diff.py b/diffkemp/syndiff/function_syntax_diff.py
index c3aa1b5..f4505d1 100644
--- a/diffkemp/syndiff/function_syntax_diff.py
+++ b/diffkemp/syndiff/function_syntax_diff.py
@@ -30,7 +30,7 @@ def syntax_diff(first_file, second_file, name, kind, first_line, second_line):
                       first_file=first_file, second_file=second_file,
                       first_start=first_line, second_start=second_line,
                       first_end=first_end, second_end=second_end)
-    except (UnicodeDecodeError, EndLineNotFound):
+    except (OSError, UnicodeDecodeError, EndLineNotFound):
         return DIFF_NOT_OBTAINED_MESSAGE
 
     if diff.isspace() or diff == "":
diff --git a/diffkemp/utils.py b/diffkemp/utils.py
index fab4c1f..10f688b 100644
--- a/diffkemp/utils.py
+++ b/diffkemp/utils.py
@@ -61,7 +61,7 @@ class EndLineNotFound(Exception):
 def get_end_line(filename, start, kind):
     """
     Get number of line where function / type ends.
-    Can raise UnicodeDecodeError, EndLineError.
+    Can raise OSError, UnicodeDecodeError, EndLineNotFound.
     """
 
     if kind == "function":
@@ -71,6 +71,8 @@ def get_end_line(filename, start, kind):
 
     with open(filename, "r", encoding='utf-8') as file:
         lines = file.readlines()
+        if not 1 <= start <= len(lines):
+            raise EndLineNotFound
 
         # The end of the function is detected as a line that contains
         # nothing but an ending curly bracket
-- 
2.43.0


From ea3d4407fc274ce81a92c525aaa949a49216d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 24/47] fix: do not cache functions whose file is not known

Functions compared after a function without debug information ended with
an error since a cache file cannot be created without a file name.
---
 diffkemp/semdiff/caching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index d6e3da6..6ba0c99 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -611,7 +611,8 @@ class SimpLLCache:
         # Sort vertices into a map based on source file pairs.
         vertex_map = {}
         for vertex in vertices:
-            if not vertex.cachable:
+            # Note: SimpLL does not look up functions whose file is not known.
+            if not vertex.cachable or not all(vertex.files):
                 continue
             if vertex.files not in vertex_map:
                 vertex_map[vertex.files] = []
-- 
2.43.0


From 4caf93d45a7daadba6b9f2f338b0714590419d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 25/47] fix: print the text of the syntactic difference itself

Texts of syntactic differences were looked up by name only. If there were
more differences of the same name (e.g. differences in assembly code found
by distinct runs of SimpLL, which are numbered from 1 in each run), the text
of the last one was printed for all of them.
---
 diffkemp/semdiff/caching.py       | 3 ++-
 diffkemp/semdiff/function_diff.py | 5 ++---
 diffkemp/semdiff/result.py        | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index 6ba0c99..1662b4e 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -544,7 +544,8 @@ class ComparisonGraph:
                             None,
                             calls,
                             "syntactic",
-                            False
+                            False,
+                            body=nonfun_diff.body[side]
                         ))
                         syndiff_bodies[nonfun_diff.name] = \
                             nonfun_diff.body[side]
diff --git a/diffkemp/semdiff/function_diff.py b/diffkemp/semdiff/function_diff.py
index 282e76e..e7605dc 100644
--- a/diffkemp/semdiff/function_diff.py
+++ b/diffkemp/semdiff/function_diff.py
@@ -253,7 +253,7 @@ def functions_diff(mod_first, mod_second,
                              if v.result not in [Result.Kind.UNKNOWN,
                                                  Result.Kind.ASSUMED_EQUAL]])
 
-        objects_to_compare, syndiff_bodies_left, syndiff_bodies_right = \
+        objects_to_compare, _, _ = \
             curr_result_graph.graph_to_fun_pair_list(fun_first,
                                                      fun_second,
                                                      config.full_diff)
@@ -294,8 +294,7 @@ def functions_diff(mod_first, mod_second,
                         # Find the syntax differences and append the left and
                         # right value to create the resulting diff
                         fun_result.diff = "  {}\n\n  {}\n".format(
-                            syndiff_bodies_left[fun_result.first.name],
-                            syndiff_bodies_right[fun_result.second.name])
+                            fun_result.first.body, fun_result.second.body)
                     else:
                         sys.stderr.write(
                             "warning: unknown diff kind: {}\n".format(
diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index e9a1b63..e51d7c6 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -131,13 +131,15 @@ class Result:
         If it is a function, it contains the file of the function.
         """
         def __init__(self, name, filename=None, line=None, callstack=None,
-                     diff_kind="function", covered=False):
+                     diff_kind="function", covered=False, body=None):
             self.name = name
             self.filename = filename
             self.line = line
             self.callstack = callstack
             self.diff_kind = diff_kind
             self.covered = covered
+            # Compared text (for syntactic differences only)
+            self.body = body
 
     def __init__(self, kind, first_name, second_name, start_time=None,
                  stop_time=None):
-- 
2.43.0


From ca2aa8279955c30526e4ed632daf88c5713d5898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 26/47] fix: do not mix results of distinct functions having
 the same name

Results are shared among the compared functions by name. A static function
having the same name as an already compared function from another source
file got its result and a difference in it was lost.
---
 diffkemp/semdiff/caching.py       | 24 +++++++++++++++++++++++-
 diffkemp/semdiff/function_diff.py | 16 ++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index 1662b4e..dac52e2 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -88,6 +88,8 @@ class ComparisonGraph:
             # This list is used in situations when the result changes in graph
             # merging to reset their cachable flags to True.
             self.prevents_caching_of = []
+            # Modules (left and right) in which the functions were compared.
+            self.modules = None
             # Used only for the detection of uncachable vertices in header
             # files.
             self.predecessors = ([], [])
@@ -344,6 +346,21 @@ class ComparisonGraph:
                 result.append(target)
         return result, backtracking_map
 
+    def conflicts_with(self, graph):
+        """
+        Checks whether this graph and the other one contain a result of distinct
+        functions having the same name (i.e. static functions from distinct
+        source files). Such graphs cannot be merged.
+        """
+        for name, vertex in graph.vertices.items():
+            if name not in self.vertices:
+                continue
+            for first, second in zip(self[name].files, vertex.files):
+                if (first and second and
+                        os.path.normpath(first) != os.path.normpath(second)):
+                    return True
+        return False
+
     def absorb_graph(self, graph):
         """
         Merges another graph into this one. New vertices (i.e. vertices from
@@ -628,7 +645,12 @@ class SimpLLCache:
             cache_file = self.cache_map[files]
             cache_file.add_function_pairs([v.names for v in vertices_in_file])
 
-    def clear(self):
+    def reset(self):
+        """Forget all functions."""
         for cache_file in self.cache_map.values():
             cache_file.clear()
+        self.cache_map = {}
+
+    def clear(self):
+        self.reset()
         os.rmdir(self.directory)
diff --git a/diffkemp/semdiff/function_diff.py b/diffkemp/semdiff/function_diff.py
index e7605dc..fab28b3 100644
--- a/diffkemp/semdiff/function_diff.py
+++ b/diffkemp/semdiff/function_diff.py
@@ -197,6 +197,9 @@ def functions_diff(mod_first, mod_second,
             print("Semantic diff of {} (in {})".format(fun_str,
                                                        mod_first.llvm))
 
+        # Names of the modules (before linking of missing definitions)
+        modules = (mod_first.llvm, mod_second.llvm)
+
         simplify = True
         while simplify:
             simplify = False
@@ -204,6 +207,7 @@ def functions_diff(mod_first, mod_second,
                     fun_first in prev_result_graph.vertices and
                     (prev_result_graph[fun_first].result !=
                      Result.Kind.ASSUMED_EQUAL) and
+                    prev_result_graph[fun_first].modules == modules and
                     prev_result_graph[fun_first].same_file()):
                 first_simpl = ""
                 second_simpl = ""
@@ -236,6 +240,18 @@ def functions_diff(mod_first, mod_second,
                                                 mod_second,
                                                 fun_pair["second"]):
                                 simplify = True
+                for vertex in curr_result_graph.vertices.values():
+                    vertex.modules = modules
+                if (prev_result_graph and not simplify and
+                        prev_result_graph.conflicts_with(curr_result_graph)):
+                    # Results of the previous comparisons are for distinct
+                    # functions having the same names. Forget them and rerun
+                    # the comparison (the functions that are in the cache were
+                    # not compared).
+                    prev_result_graph = None
+                    if function_cache:
+                        function_cache.reset()
+                    simplify = True
                 if prev_result_graph and not simplify:
                     # Note: "curr_result_graph" is here the partial result
                     # graph, i.e. can contain unknown results that are known in
-- 
2.43.0


From e1fc3aa623ca9c45deb6535be054de932bc4bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 27/47] fix: do not reuse results of functions compared w.r.t.
 a variable

A function compared w.r.t. a variable is sliced, i.e. its result only says
whether the effect of the variable is the same. The result was reused for
other functions (of the same sysctl) which call the function, hence
differences unrelated to the variable were lost.
---
 diffkemp/diffkemp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 1b94aea..b7a7fa1 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -434,14 +434,20 @@ def compare_snapshots(args, config, output_dir):
             glob_var = LlvmParam(old_fun_desc.glob_var) \
                 if old_fun_desc.glob_var else None
 
+            # A function compared w.r.t. a variable is sliced, hence its result
+            # must not be reused for other functions.
+            reuse_results = glob_var is None
+
             # Run the semantic diff
             fun_result = functions_diff(
                 mod_first=old_fun_desc.mod, mod_second=new_fun_desc.mod,
                 fun_first=fun, fun_second=fun,
                 glob_var=glob_var, config=config,
-                prev_result_graph=result_graph, function_cache=cache,
+                prev_result_graph=result_graph if reuse_results else None,
+                function_cache=cache if reuse_results else None,
                 module_cache=module_cache, modules_to_cache=modules_to_cache)
-            result_graph = fun_result.graph
+            if reuse_results:
+                result_graph = fun_result.graph
 
             if fun_result is not None:
                 if (args.regex_filter is not None and
-- 
2.43.0


From 57986edfccdd2b989d31d4b311bb347b021486ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 28/47] fix: do not mix distinct results of functions defined
 in headers

---
 diffkemp/semdiff/caching.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index dac52e2..97458fc 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -350,11 +350,17 @@ class ComparisonGraph:
         """
         Checks whether this graph and the other one contain a result of distinct
         functions having the same name (i.e. static functions from distinct
-        source files). Such graphs cannot be merged.
+        source files, or functions from the same header which differ in
+        distinct modules). Such graphs cannot be merged.
         """
+        final_results = [Result.Kind.EQUAL, Result.Kind.NOT_EQUAL]
         for name, vertex in graph.vertices.items():
             if name not in self.vertices:
                 continue
+            if (self[name].result in final_results and
+                    vertex.result in final_results and
+                    self[name].result != vertex.result):
+                return True
             for first, second in zip(self[name].files, vertex.files):
                 if (first and second and
                         os.path.normpath(first) != os.path.normpath(second)):
-- 
2.43.0


From 6b7376ee440424f2b237d2911396bd0c0c186864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 29/47] fix: do not skip repeated loads after atomic operations

---
 diffkemp/simpll/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/simpll/Utils.cpp b/diffkemp/simpll/Utils.cpp
index 843b32d..93fc63e 100644
--- a/diffkemp/simpll/Utils.cpp
+++ b/diffkemp/simpll/Utils.cpp
@@ -890,7 +890,8 @@ bool mayStoreTo(const Instruction *Inst, const Value *Ptr) {
         // unless it is a debug call.
         return !isDebugInfo(*Call);
     }
-    return false;
+    // Other instructions may write to memory, too (e.g., atomic operations).
+    return Inst->mayWriteToMemory();
 }
 
 /// Given two pointer values, try do determine whether they may alias. The
-- 
2.43.0


From c1fbdee97bd244c70a79e9061568f231169216b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 30/47] fix: do not skip volatile and atomic loads

---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index b60a671..e7d3c24 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -625,6 +625,10 @@ bool DifferentialFunctionComparator::maySkipLoad(const LoadInst *Load) const {
     if (!BB) {
         return false;
     }
+    // Volatile and atomic loads may give a different value each time.
+    if (!Load->isUnordered()) {
+        return false;
+    }
 
     // Check if all backward CFG paths starting in the load lead to either:
     // - a single load from the same pointer,
-- 
2.43.0


From 82e0a82ac236cb66d9dbc136033d31c7e02e4446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 31/47] fix: compare indices of pointers only if they have the
 same base

---
 diffkemp/simpll/Utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffkemp/simpll/Utils.cpp b/diffkemp/simpll/Utils.cpp
index 93fc63e..e266041 100644
--- a/diffkemp/simpll/Utils.cpp
+++ b/diffkemp/simpll/Utils.cpp
@@ -912,6 +912,10 @@ bool mayAlias(const Value *PtrL, const Value *PtrR) {
         // At this point, we know that the pointers point to the same alloca.
         // If any of the pointers is the alloca itself, the pointers alias.
         return true;
+    if (GEPL->getPointerOperand() != GEPR->getPointerOperand()
+        || GEPL->getSourceElementType() != GEPR->getSourceElementType())
+        // Indices may be compared only if they are applied to the same pointer.
+        return true;
     auto GEPLIdxIt = GEPL->idx_begin(), GEPLIdxE = GEPL->idx_end();
     auto GEPRIdxIt = GEPR->idx_begin(), GEPRIdxE = GEPR->idx_end();
     // Go through the indices of both GEPs in parallel. If they diverge at some
-- 
2.43.0


From f9f59a71806b9528545f7158b1ee0008601f2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 32/47] fix: relocate code with side effects only within its
 basic block

---
 .../simpll/DifferentialFunctionComparator.cpp | 26 +++++++++++++++++++
 .../simpll/DifferentialFunctionComparator.h   |  4 +++
 2 files changed, 30 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index e7d3c24..29b0bdc 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -1104,6 +1104,9 @@ int DifferentialFunctionComparator::cmpBasicBlocks(
             if (Reloc.status == RelocationInfo::Stored) {
                 // If there is an inequality found and we have previously found
                 // a possibly relocated block, try to match it now.
+                if (!isRelocPossible(Reloc.prog == Program::First ? *InstL
+                                                                  : *InstR))
+                    return Res;
                 Reloc.status = RelocationInfo::Matching;
                 LOG("Try to match the relocated block\n");
                 // The instructions are not equal
@@ -2117,6 +2120,29 @@ bool DifferentialFunctionComparator::isDependingOnReloc(
     return false;
 }
 
+/// Check if the currently stored relocation may be moved before the given
+/// instruction (of the same program). Code having no side effects may be moved
+/// to a following basic block which is entered at most once for every execution
+/// of the relocated code; other code may be moved within its block only.
+/// \param Inst Instruction to check
+/// \return True if the code may be moved before the instruction.
+bool DifferentialFunctionComparator::isRelocPossible(
+        const Instruction &Inst) const {
+    auto *BB = Inst.getParent();
+    if (BB == Reloc.begin->getParent())
+        return true;
+
+    auto RelocEnd = std::next(Reloc.end);
+    for (auto RelocInst = Reloc.begin; RelocInst != RelocEnd; RelocInst++) {
+        if (RelocInst->mayHaveSideEffects())
+            return false;
+    }
+
+    while (BB && BB != Reloc.begin->getParent())
+        BB = BB->getSinglePredecessor();
+    return BB;
+}
+
 /// Recursively collect operands of reorderable binary operators.
 /// Leafs must be constants or already synchronized values.
 /// Return false if a non-synchronized non-constant leaf is found.
diff --git a/diffkemp/simpll/DifferentialFunctionComparator.h b/diffkemp/simpll/DifferentialFunctionComparator.h
index 035f15c..0ea9fbb 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.h
+++ b/diffkemp/simpll/DifferentialFunctionComparator.h
@@ -292,6 +292,10 @@ class DifferentialFunctionComparator : public FunctionComparator {
     /// of the accesses is a store.
     bool isDependingOnReloc(const Instruction &Inst) const;
 
+    /// Check if the currently stored relocation may be moved before the given
+    /// instruction (of the same program).
+    bool isRelocPossible(const Instruction &Inst) const;
+
     /// Recursively collect operands of reorderable binary operators.
     /// Leafs must be constants or already synchronized values.
     /// Return false if a non-synchronized non-constant leaf is found.
-- 
2.43.0


From 5dd5823d975bec33ba310a2d20cda57e78a194f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 33/47] fix: replace a load only by a value of the same type

---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 29b0bdc..043cd02 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -667,14 +667,16 @@ bool DifferentialFunctionComparator::maySkipLoad(const LoadInst *Load) const {
             const Value *ReplacementCandidate = nullptr;
             if (auto PreviousLoad = dyn_cast<LoadInst>(&*it)) {
                 if (Load->getPointerOperand()
-                    == PreviousLoad->getPointerOperand()) {
+                            == PreviousLoad->getPointerOperand()
+                    && Load->getType() == PreviousLoad->getType()) {
                     // Found an identical load, save the candidate.
                     ReplacementCandidate = PreviousLoad;
                 }
             } else if (auto Store = dyn_cast<StoreInst>(&*it)) {
                 if (ignoredInstructions.count(Store)
-                    && Store->getPointerOperand()
-                               == Load->getPointerOperand()) {
+                    && Store->getPointerOperand() == Load->getPointerOperand()
+                    && Store->getValueOperand()->getType()
+                               == Load->getType()) {
                     // Found a previously ignored store, save the candidate.
                     ReplacementCandidate = Store->getValueOperand();
                 }
-- 
2.43.0


From 012b22308bdf4133487fe035dd6c902a67bffc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 34/47] fix: do not skip volatile and atomic stores

---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 043cd02..55aa7d0 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -729,6 +729,10 @@ bool DifferentialFunctionComparator::maySkipStore(
     if (!config.Patterns.GroupVars) {
         return false;
     }
+    // Volatile and atomic stores may be observed by others.
+    if (!Store->isUnordered()) {
+        return false;
+    }
     // We can skip a store if it stores to a skipped/ignored local variable.
     // This is allowed because any load from the same variable will
     // also fail, and will have to be skipped and replaced with the
-- 
2.43.0


From 6825531e023cfc3e79d5f62be733685bb08f1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 35/47] fix: map outputs of a custom pattern to each other

---
 diffkemp/simpll/CustomPatternComparator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffkemp/simpll/CustomPatternComparator.cpp b/diffkemp/simpll/CustomPatternComparator.cpp
index 63105be..91fffcf 100644
--- a/diffkemp/simpll/CustomPatternComparator.cpp
+++ b/diffkemp/simpll/CustomPatternComparator.cpp
@@ -226,8 +226,8 @@ void CustomPatternComparator::processPatternMatch(
         if (Pat->OutputMapping.find(InstPair.first)
             != Pat->OutputMapping.end()) {
             auto MappedInstR = Pat->OutputMapping[InstPair.first];
-            auto MappedInstL = PatternComps->second->InstMatchMap[MappedInstR];
-            InstMappings[MappedInstL] = InstPair.second;
+            auto ModInstR = PatternComps->second->InstMatchMap[MappedInstR];
+            InstMappings[InstPair.second] = ModInstR;
         }
     }
 
-- 
2.43.0


From d695d1464e0085ca3888fd85a4877a5df2fee8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:33 +0000
Subject: [PATCH 36/47] fix: do not load value patterns without values

---
 diffkemp/simpll/CustomPatternSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/diffkemp/simpll/CustomPatternSet.cpp b/diffkemp/simpll/CustomPatternSet.cpp
index a3c32a1..97ddcc9 100644
--- a/diffkemp/simpll/CustomPatternSet.cpp
+++ b/diffkemp/simpll/CustomPatternSet.cpp
@@ -395,6 +395,13 @@ bool CustomPatternSet::initializeValuePattern(ValuePattern &Pat) {
          EntryBBR = &Pat.PatternR->getEntryBlock();
     auto TermL = EntryBBL->getTerminator(), TermR = EntryBBR->getTerminator();
 
+    // There must be a value to compare.
+    if (TermL->getNumOperands() == 0 || TermR->getNumOperands() == 0) {
+        LOG("Failed to load value pattern "
+            << Pat.Name << " since it does not return any value.\n");
+        return false;
+    }
+
     // Read the compared values.
     Pat.ValueL = TermL->getOperand(0);
     Pat.ValueR = TermR->getOperand(0);
-- 
2.43.0


From 3e89fc52fe05172025cae3bfcd4511de552bf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 37/47] fix: skip custom patterns with a missing side

---
 diffkemp/simpll/CustomPatternSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/CustomPatternSet.cpp b/diffkemp/simpll/CustomPatternSet.cpp
index 97ddcc9..3fd45e2 100644
--- a/diffkemp/simpll/CustomPatternSet.cpp
+++ b/diffkemp/simpll/CustomPatternSet.cpp
@@ -193,7 +193,7 @@ void CustomPatternSet::addPatternFromModule(
 
         // Find the corresponding pattern function with the right prefix.
         auto FunctionR = PatternModule->getFunction(NameR);
-        if (!FunctionR)
+        if (!FunctionR || FunctionR->isDeclaration())
             continue;
         LOG("Loading the difference pattern " << Name << ".\n");
 
-- 
2.43.0


From f79ca791b906dec514b37caf9a8255245af00101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 38/47] fix: do not accept pattern matches that skip no
 compared instruction

---
 diffkemp/simpll/CustomPatternComparator.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/diffkemp/simpll/CustomPatternComparator.cpp b/diffkemp/simpll/CustomPatternComparator.cpp
index 91fffcf..de1a56c 100644
--- a/diffkemp/simpll/CustomPatternComparator.cpp
+++ b/diffkemp/simpll/CustomPatternComparator.cpp
@@ -78,6 +78,17 @@ bool CustomPatternComparator::matchInstPattern(const Instruction *InstL,
                 continue;
             }
 
+            // Matches that do not begin in the compared instructions would not
+            // skip any of them.
+            auto Pat = InstPatternCompPair.first;
+            if (PatternComps->first->InstMatchMap.lookup(Pat->StartPositionL)
+                        != InstL
+                && PatternComps->second->InstMatchMap.lookup(
+                           Pat->StartPositionR)
+                           != InstR) {
+                continue;
+            }
+
             LOG("Found a match for instruction pattern "
                 << InstPatternCompPair.first->Name << "\n");
 
-- 
2.43.0


From d6a8915e9a5f71dc6ca77ca7db7c0b097594f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 39/47] fix: quote all strings in the YAML output of SimpLL

A function (file, macro body) whose name is e.g. "on", "off", "yes" or "no" was
written without quotes, read by DiffKemp as a boolean and the comparison
crashed.
---
 diffkemp/simpll/Output.cpp | 59 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/diffkemp/simpll/Output.cpp b/diffkemp/simpll/Output.cpp
index be48eb7..92f708d 100644
--- a/diffkemp/simpll/Output.cpp
+++ b/diffkemp/simpll/Output.cpp
@@ -18,13 +18,35 @@
 
 using namespace llvm::yaml;
 
+// Strings (names, paths, and source code) to YAML. They are always quoted since
+// some of them (e.g. a function named "on") would otherwise be treated as values
+// of other types by YAML 1.1 readers (such as the one used by DiffKemp).
+LLVM_YAML_STRONG_TYPEDEF(std::string, QuotedString)
+
+namespace llvm {
+namespace yaml {
+template <> struct ScalarTraits<QuotedString> {
+    static void output(const QuotedString &str, void *, raw_ostream &out) {
+        out << str.value;
+    }
+    static StringRef input(StringRef scalar, void *, QuotedString &str) {
+        str.value = scalar.str();
+        return "";
+    }
+    static QuotingType mustQuote(StringRef) { return QuotingType::Double; }
+};
+} // namespace yaml
+} // namespace llvm
+
 // CallInfo to YAML
 namespace llvm {
 namespace yaml {
 template <> struct MappingTraits<CallInfo> {
     static void mapping(IO &io, CallInfo &callinfo) {
-        io.mapRequired("function", callinfo.fun);
-        io.mapRequired("file", callinfo.file);
+        QuotedString fun(callinfo.fun);
+        io.mapRequired("function", fun);
+        QuotedString file(callinfo.file);
+        io.mapRequired("file", file);
         io.mapRequired("line", callinfo.line);
         io.mapRequired("weak", callinfo.weak);
     }
@@ -54,9 +76,10 @@ namespace llvm {
 namespace yaml {
 template <> struct MappingTraits<FunctionInfo> {
     static void mapping(IO &io, FunctionInfo &info) {
-        std::string name = info.name;
+        QuotedString name(info.name);
         io.mapRequired("function", name);
-        io.mapOptional("file", info.file);
+        QuotedString file(info.file);
+        io.mapOptional("file", file);
         io.mapOptional("line", info.line, 0);
         io.mapOptional("stats", info.stats);
         auto calls =
@@ -72,17 +95,21 @@ namespace llvm {
 namespace yaml {
 template <> struct MappingTraits<std::unique_ptr<NonFunctionDifference>> {
     static void mapping(IO &io, std::unique_ptr<NonFunctionDifference> &diff) {
-        io.mapRequired("name", diff->name);
-        io.mapRequired("function", diff->function);
+        QuotedString name(diff->name);
+        io.mapRequired("name", name);
+        QuotedString function(diff->function);
+        io.mapRequired("function", function);
         io.mapRequired("stack-first", diff->StackL);
         io.mapRequired("stack-second", diff->StackR);
 
         if (auto syntaxDiff = unique_dyn_cast<SyntaxDifference>(diff)) {
-            io.mapOptional("body-first", syntaxDiff->BodyL);
-            io.mapOptional("body-second", syntaxDiff->BodyR);
+            QuotedString bodyL(syntaxDiff->BodyL), bodyR(syntaxDiff->BodyR);
+            io.mapOptional("body-first", bodyL);
+            io.mapOptional("body-second", bodyR);
         } else if (auto typeDiff = unique_dyn_cast<TypeDifference>(diff)) {
-            io.mapOptional("file-first", typeDiff->FileL);
-            io.mapOptional("file-second", typeDiff->FileR);
+            QuotedString fileL(typeDiff->FileL), fileR(typeDiff->FileR);
+            io.mapOptional("file-first", fileL);
+            io.mapOptional("file-second", fileR);
             io.mapOptional("line-first", typeDiff->LineL);
             io.mapOptional("line-second", typeDiff->LineR);
         }
@@ -128,12 +155,12 @@ namespace llvm {
 namespace yaml {
 template <> struct MappingTraits<GlobalValuePair> {
     static void mapping(IO &io, GlobalValuePair &globvals) {
-        std::string nameFirst =
-                globvals.first ? globvals.first->getName().str() : "";
-        io.mapOptional("first", nameFirst, std::string());
-        std::string nameSecond =
-                globvals.second ? globvals.second->getName().str() : "";
-        io.mapOptional("second", nameSecond, std::string());
+        QuotedString nameFirst(
+                globvals.first ? globvals.first->getName().str() : "");
+        io.mapOptional("first", nameFirst, QuotedString());
+        QuotedString nameSecond(
+                globvals.second ? globvals.second->getName().str() : "");
+        io.mapOptional("second", nameSecond, QuotedString());
     }
 };
 } // namespace yaml
-- 
2.43.0


From 0234e0650add26a4f1b89d4a3ffa850b1e6261df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 40/47] fix: allocate memory for the output of SimpLL as needed

The output was copied to a buffer of a fixed size, larger outputs were
written past its end.
---
 diffkemp/simpll/library/FFI.cpp | 13 +++++++++----
 diffkemp/simpll/library/FFI.h   |  8 +++++---
 diffkemp/simpll/simpll.py       |  7 ++++---
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/diffkemp/simpll/library/FFI.cpp b/diffkemp/simpll/library/FFI.cpp
index 5e75d30..01093dd 100644
--- a/diffkemp/simpll/library/FFI.cpp
+++ b/diffkemp/simpll/library/FFI.cpp
@@ -103,6 +103,8 @@ void freeStringArray(struct ptr_array PtrArr) {
     freePointerArray(PtrArr);
 }
 
+void freeString(char *Str) { delete[] Str; }
+
 void *getFunction(void *ModRaw, const char *Fun) {
     Module *Mod = (Module *)ModRaw;
     return (void *)Mod->getFunction(std::string(Fun));
@@ -235,6 +237,7 @@ struct kernel_param getData(const char *Sysctl, void *SysctlTableRaw) {
 }
 
 /// Simplifies modules and compares the specified functions.
+/// Note: the output has to be freed by the caller using freeString.
 void runSimpLL(void *ModL,
                void *ModR,
                const char *ModLOut,
@@ -242,7 +245,7 @@ void runSimpLL(void *ModL,
                const char *FunL,
                const char *FunR,
                struct config Conf,
-               char *Output) {
+               char **Output) {
     Config config(FunL,
                   FunR,
                   (Module *)ModL,
@@ -263,7 +266,9 @@ void runSimpLL(void *ModL,
     processAndCompare(config, Result);
 
     std::string outputString = reportOutputToString(Result);
-    strcpy(Output, outputString.c_str());
+    // Note: the string has to be freed by the caller using freeString.
+    *Output = new char[outputString.size() + 1];
+    std::strcpy(*Output, outputString.c_str());
 }
 
 /// Clones modules to get separate copies of them and runs the simplification
@@ -275,7 +280,7 @@ void cloneAndRunSimpLL(void *ModL,
                        const char *FunL,
                        const char *FunR,
                        struct config Conf,
-                       char *Output) {
+                       char **Output) {
     std::unique_ptr<Module> UqModL(CloneModule(*((Module *)ModL)));
     std::unique_ptr<Module> UqModR(CloneModule(*((Module *)ModR)));
     runSimpLL(UqModL.get(),
@@ -297,7 +302,7 @@ void parseAndRunSimpLL(const char *ModL,
                        const char *FunL,
                        const char *FunR,
                        struct config Conf,
-                       char *Output) {
+                       char **Output) {
     LLVMContext CtxL, CtxR;
     SMDiagnostic err;
 
diff --git a/diffkemp/simpll/library/FFI.h b/diffkemp/simpll/library/FFI.h
index 1a8adaa..b93ddde 100644
--- a/diffkemp/simpll/library/FFI.h
+++ b/diffkemp/simpll/library/FFI.h
@@ -69,6 +69,8 @@ void freePointerArray(struct ptr_array PtrArr);
 
 void freeStringArray(struct ptr_array PtrArr);
 
+void freeString(char *Str);
+
 void *getFunction(void *ModRaw, const char *Fun);
 
 const char *getFunctionName(void *FunRaw);
@@ -119,7 +121,7 @@ void runSimpLL(void *ModL,
                const char *FunL,
                const char *FunR,
                struct config Conf,
-               char *Output);
+               char **Output);
 
 /// Clones modules to get separate copies of them and runs the simplification
 /// and comparison on the copies.
@@ -130,7 +132,7 @@ void cloneAndRunSimpLL(void *ModL,
                        const char *FunL,
                        const char *FunR,
                        struct config Conf,
-                       char *Output);
+                       char **Output);
 
 /// Loads modules from the specified filers and runs the simplification and
 /// comparison on the loaded objects, which are discarded after the comparison.
@@ -141,7 +143,7 @@ void parseAndRunSimpLL(const char *ModL,
                        const char *FunL,
                        const char *FunR,
                        struct config Conf,
-                       char *Output);
+                       char **Output);
 
 /// Runs preprocess passes on module and marks it as being preprocessed so they
 /// won't be run again when the module is compared.
diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index 592dd6a..ccae9b8 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -51,7 +51,7 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
         use_cached_modules = (module_cache and first in module_cache and
                               second in module_cache)
 
-        output = ffi.new("char [1000000]")
+        output = ffi.new("char **")
         cache_dir = ffi.new("char []", cache_dir.encode("ascii") if cache_dir
                             else b"")
         custom_patterns = ffi.new(
@@ -94,7 +94,7 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
                     lib.runSimpLL(module_left, module_right, module_left_out,
                                   module_right_out, fun_left, fun_right,
                                   conf_struct[0], output)
-                    os.write(w, ffi.string(output))
+                    os.write(w, ffi.string(output[0]))
                     os.close(w)
                     os._exit(0)
                 else:
@@ -110,7 +110,8 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
                                       module_left_out, module_right_out,
                                       fun_left, fun_right, conf_struct[0],
                                       output)
-                simpll_out = ffi.string(output)
+                simpll_out = ffi.string(output[0])
+                lib.freeString(output[0])
                 lib.shutdownSimpLL()
         except ffi.error:
             raise SimpLLException("Simplifying files failed")
-- 
2.43.0


From 4d50624e877368e91dabb2f2568af521bd9a0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:01 +0000
Subject: [PATCH 41/47] fix: keep results of inlined functions which are still
 needed

After the callers became equal by inlining, the results of all inlined
functions were erased and their calls were marked as weak even if the
functions were still called. A difference of a function which another
compared function calls was lost, and a recursive function which became
equal after inlining itself aborted the tool.
---
 diffkemp/simpll/ModuleComparator.cpp | 97 +++++++++++++++++++++++-----
 diffkemp/simpll/ModuleComparator.h   |  6 ++
 2 files changed, 86 insertions(+), 17 deletions(-)

diff --git a/diffkemp/simpll/ModuleComparator.cpp b/diffkemp/simpll/ModuleComparator.cpp
index bb492fb..3f045e6 100644
--- a/diffkemp/simpll/ModuleComparator.cpp
+++ b/diffkemp/simpll/ModuleComparator.cpp
@@ -34,6 +34,57 @@ void ModuleComparator::updateStats(
     result.Second.stats.linesCnt = fComp.ComparedLinesR.size();
 }
 
+/// Mark the call of an inlined function as weak unless the function is still
+/// called after the inlining.
+static void markInlinedCall(const std::set<CallInfo> &calls,
+                            const std::set<CallInfo> &callsAfter,
+                            const Function *inlined) {
+    CallInfo call(inlined->getName().str(), "", 0);
+    if (callsAfter.count(call))
+        return;
+    auto found = calls.find(call);
+    if (found != calls.end())
+        found->weak = true;
+}
+
+/// Check whether a set of calls contains a call of the given function which
+/// the result of the caller depends on.
+static bool dependsOn(const std::set<CallInfo> &calls, const Function *fun) {
+    auto found = calls.find(CallInfo(fun->getName().str(), "", 0));
+    return found != calls.end() && !found->weak;
+}
+
+/// Check whether the result of comparison of a function pair is needed for some
+/// other result.
+bool ModuleComparator::isResultUsed(const ConstFunPair &funPair) const {
+    for (auto &other : ComparedFuns) {
+        if (other.first != funPair
+            && dependsOn(other.second.First.calls, funPair.first)
+            && dependsOn(other.second.Second.calls, funPair.second))
+            return true;
+    }
+    return false;
+}
+
+/// Erase results of the inlined functions, except for the results of functions
+/// which are still being compared or which other results depend on.
+void ModuleComparator::eraseInlinedResults(
+        const std::set<ConstFunPair> &inlinedPairs) {
+    bool erased = true;
+    while (erased) {
+        erased = false;
+        for (auto &inlinedPair : inlinedPairs) {
+            auto found = ComparedFuns.find(inlinedPair);
+            if (found != ComparedFuns.end()
+                && found->second.kind != Result::UNKNOWN
+                && !isResultUsed(inlinedPair)) {
+                ComparedFuns.erase(found);
+                erased = true;
+            }
+        }
+    }
+}
+
 /// Semantic comparison of functions.
 /// Function declarations are equal if they have the same name.
 /// Functions with body are compared using custom FunctionComparator that
@@ -168,28 +219,41 @@ void ModuleComparator::compareFunctions(Function *FirstFun,
             simplifyFunction(SecondFun);
 
             // Reset the function diff result
-            ComparedFuns.at({FirstFun, SecondFun}).kind = Result::UNKNOWN;
+            auto &pairResult = ComparedFuns.at({FirstFun, SecondFun});
+            pairResult.kind = Result::UNKNOWN;
+            // Collect the calls again to see which of them remain in the
+            // functions after the inlining.
+            auto callsBeforeFirst = pairResult.First.calls;
+            auto callsBeforeSecond = pairResult.Second.calls;
+            pairResult.First.calls.clear();
+            pairResult.Second.calls.clear();
             // Re-run the comparison
             DifferentialFunctionComparator fCompSecond(
                     FirstFun, SecondFun, config, DI, &CustomPatterns, this);
             result = fCompSecond.compare();
             updateStats(ComparedFuns.at({FirstFun, SecondFun}), fCompSecond);
 
-            // If the functions are equal after the inlining and there is a
-            // call to the inlined function, mark it as weak.
+            auto callsAfterFirst = pairResult.First.calls;
+            auto callsAfterSecond = pairResult.Second.calls;
+            pairResult.First.calls.insert(callsBeforeFirst.begin(),
+                                          callsBeforeFirst.end());
+            pairResult.Second.calls.insert(callsBeforeSecond.begin(),
+                                           callsBeforeSecond.end());
+
+            // If the functions are equal after the inlining and there was a
+            // call to an inlined function which is not there any more, mark it
+            // as weak.
             if (result == 0) {
-                if (calledFirst)
-                    for (const CallInfo &CI :
-                         ComparedFuns.at({FirstFun, SecondFun}).First.calls) {
-                        if (CI.fun == calledFirst->getName().str())
-                            CI.weak = true;
-                    }
-                if (calledSecond)
-                    for (const CallInfo &CI :
-                         ComparedFuns.at({FirstFun, SecondFun}).Second.calls) {
-                        if (CI.fun == calledSecond->getName().str())
-                            CI.weak = true;
-                    }
+                for (auto &inlinedPair : inlinedPairs) {
+                    if (inlinedPair.first)
+                        markInlinedCall(pairResult.First.calls,
+                                        callsAfterFirst,
+                                        inlinedPair.first);
+                    if (inlinedPair.second)
+                        markInlinedCall(pairResult.Second.calls,
+                                        callsAfterSecond,
+                                        inlinedPair.second);
+                }
             }
 
             LOG_UNINDENT();
@@ -197,8 +261,7 @@ void ModuleComparator::compareFunctions(Function *FirstFun,
                 // If the functions are equal after inlining, results for all
                 // inlined functions must be reset as they may pollute
                 // the overall output otherwise
-                for (auto &inlinedPair : inlinedPairs)
-                    ComparedFuns.erase(inlinedPair);
+                eraseInlinedResults(inlinedPairs);
 
                 LOG("\"" << FirstFun->getName() << "\" and \""
                          << SecondFun->getName() << "\" "
diff --git a/diffkemp/simpll/ModuleComparator.h b/diffkemp/simpll/ModuleComparator.h
index 43e4292..edc4787 100644
--- a/diffkemp/simpll/ModuleComparator.h
+++ b/diffkemp/simpll/ModuleComparator.h
@@ -94,6 +94,12 @@ class ModuleComparator {
                                Program program,
                                bool FunctionSplitsEnabled) const;
 
+    /// Check whether some other result depends on the result of the given pair.
+    bool isResultUsed(const ConstFunPair &funPair) const;
+
+    /// Erase results of inlined functions which nothing depends on.
+    void eraseInlinedResults(const std::set<ConstFunPair> &inlinedPairs);
+
     static void updateStats(Result &result,
                             const DifferentialFunctionComparator &fComp);
 };
-- 
2.43.0


From fa7276ad7f33fbb111b1060819c1c231c54e6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:32 +0000
Subject: [PATCH 42/47] fix: one sysctl option without source does not stop the
 others

---
 diffkemp/diffkemp.py                   | 16 +++++++++++++---
 diffkemp/llvm_ir/kernel_source_tree.py | 13 ++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index b7a7fa1..6e59f6e 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -310,9 +310,19 @@ def generate_from_sysctl_list(snapshot, sysctl_list):
             data = sysctl_mod.get_data(sysctl)
             if not data:
                 continue
-            for data_mod in \
-                    snapshot.source_tree.get_modules_using_symbol(data.name):
-                for data_fun in data_mod.get_functions_using_param(data):
+            try:
+                data_mods = snapshot.source_tree.get_modules_using_symbol(
+                    data.name)
+            except SourceNotFoundException:
+                print("  could not build functions using data variable")
+                continue
+            for data_mod in data_mods:
+                try:
+                    data_funs = data_mod.get_functions_using_param(data)
+                except ValueError:
+                    print("  could not load {}".format(data_mod.llvm))
+                    continue
+                for data_fun in data_funs:
                     if data_fun == proc_fun:
                         continue
                     snapshot.add_fun(
diff --git a/diffkemp/llvm_ir/kernel_source_tree.py b/diffkemp/llvm_ir/kernel_source_tree.py
index 9914b24..3ed6b03 100644
--- a/diffkemp/llvm_ir/kernel_source_tree.py
+++ b/diffkemp/llvm_ir/kernel_source_tree.py
@@ -30,7 +30,7 @@ class KernelSourceTree(SourceTree):
         entries = sysctl.split(".")
         if entries[0] in ["kernel", "vm", "fs", "debug", "dev"]:
             table = "sysctl_base_table"
-        elif entries[0] == "net":
+        elif entries[0] == "net" and len(entries) > 2:
             if entries[1] == "ipv4":
                 if entries[2] == "conf":
                     table = "devinet_sysctl.1"
@@ -51,11 +51,18 @@ class KernelSourceTree(SourceTree):
             # LlvmSysctlModule with the obtained sysctl table.
             table_var = table.split(".")[0]
             kernel_mod = self.get_module_for_symbol(table_var)
-            sysctl_mod = LlvmSysctlModule(kernel_mod, table)
+            try:
+                sysctl_mod = LlvmSysctlModule(kernel_mod, table)
+            except ValueError:
+                # The module with the table could not be loaded
+                raise SourceNotFoundException(sysctl)
 
             if i == len(entries) - 1:
                 return sysctl_mod
-            table = sysctl_mod.get_child(entry).name
+            child = sysctl_mod.get_child(entry)
+            if child is None:
+                raise SourceNotFoundException(sysctl)
+            table = child.name
         raise SourceNotFoundException(sysctl)
 
     def get_kernel_module(self, mod_dir, mod_name):
-- 
2.43.0


From a14d71558eb6aaf1c0b808bfea7447af51f335fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 43/47] fix: the compiler wrapper passes failures of the
 compiler to the build

---
 diffkemp/building/cc_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index a1c1275..c16a5ad 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -220,4 +220,4 @@ def target(driver, args):
 
 # Enable running directly under Python interpreter
 if __name__ == "__main__":
-    wrapper(sys.argv)
+    sys.exit(wrapper(sys.argv))
-- 
2.43.0


From 348012d3f7da54b05fbacad1b2c4bd538b56d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 44/47] fix: paths with a colon in the database of the compiler
 wrapper

---
 diffkemp/building/cc_wrapper.py          | 2 +-
 diffkemp/llvm_ir/wrapper_build_finder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index c16a5ad..6c884e9 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -207,7 +207,7 @@ def wrapper(argv):
     with open(db_filename, "a") as db_file:
         # TODO: RPython-compatible file locking
         for entry in db:
-            if not os.path.exists(entry.split(":")[1]):
+            if not os.path.exists(entry.split(":", 1)[1]):
                 continue
             db_file.write(entry + "\n")
 
diff --git a/diffkemp/llvm_ir/wrapper_build_finder.py b/diffkemp/llvm_ir/wrapper_build_finder.py
index c058d28..857761c 100644
--- a/diffkemp/llvm_ir/wrapper_build_finder.py
+++ b/diffkemp/llvm_ir/wrapper_build_finder.py
@@ -31,7 +31,7 @@ class WrapperBuildFinder(LlvmSourceFinder):
         # present in the o: files
         llvm_files = []
         with open(self.wrapper_db_filename, 'r') as db_file:
-            llvm_files = [line.split(':')[1].rstrip()
+            llvm_files = [line.split(':', 1)[1].rstrip()
                           for line in db_file.readlines()
                           if line.startswith("o:")]
 
-- 
2.43.0


From 7f735f287600be1e62b69777877af320a83806e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 45/47] fix: the compiler wrapper handles -ofile, default
 outputs, dependencies, and preprocessing

The object file was overwritten by text for -ofile, default outputs were never
recorded, dependency files were rewritten to depend on LLVM IR, and preprocessed
sources were recorded as LLVM IR.
---
 diffkemp/building/cc_wrapper.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index 6c884e9..f54d5be 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -113,19 +113,39 @@ def wrapper(argv):
         print("cc_wrapper: warning: original build command failed")
         return 1
 
+    # Do not run clang if the command only preprocesses
+    if "-E" in argv or "-M" in argv or "-MM" in argv:
+        return 0
+
     # Analyze and modify parameters for clang (phase 1)
     clang_argv = []
     old_clang = clang
     linking_with_sources = False
     output_file = None
     linking = "-c" not in argv
-    for index, arg in enumerate(argv):
+    # Separate the output file from its option (it may be given as -ofile)
+    # and leave out options which would overwrite dependency files
+    args = []
+    skip_next = False
+    for arg in argv:
+        if skip_next:
+            skip_next = False
+        elif arg in ["-MF", "-MT", "-MQ"]:
+            skip_next = True
+        elif arg.startswith("-M") or arg.startswith("-Wp,-M"):
+            continue
+        elif arg.startswith("-o") and len(arg) > 2:
+            args.append("-o")
+            args.append(arg[2:])
+        else:
+            args.append(arg)
+    for index, arg in enumerate(args):
         if arg in drop:
             continue
         is_object_file = (arg.endswith(".o") or arg.endswith(".lo") or
                           arg.endswith(".ko"))
         is_source_file = arg.endswith(".c")
-        if index > 1 and argv[index - 1] == "-o":
+        if index > 1 and args[index - 1] == "-o":
             if is_object_file and not linking:
                 # Compiling to object file: swap .o with .ll
                 arg = arg.rsplit(".", 1)[0] + ".ll"
@@ -164,9 +184,11 @@ def wrapper(argv):
         db.append(prefix + os.path.join(os.getcwd(), output_file))
     elif not linking:
         # Compiling to default output file
-        db.extend(["o:" + os.path.join(os.getcwd(),
-                                       arg.rsplit(".", 1)[0] + ".ll")
-                   for arg in clang_argv if not arg.endswith(".c")])
+        # Note: the file is created in the current directory
+        for arg in clang_argv:
+            if arg.endswith(".c"):
+                name = arg.rsplit("/", 1)[-1].rsplit(".", 1)[0] + ".ll"
+                db.append("o:" + os.path.join(os.getcwd(), name))
 
     # Analyze and modify parameters for clang (phase 2)
     clang_argv[0] = clang
-- 
2.43.0


From e3e225164ab1d97aa6675f401948dd77bf3cade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 46/47] fix: pass the file to build by as -f, make has no -c

---
 diffkemp/diffkemp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 6e59f6e..1488f78 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -65,7 +65,7 @@ def build_c_project(args):
     make_cc_setting = 'CC="{}"'.format(cc_wrapper)
     make_args = [args.build_program, "-C", args.source_dir, make_cc_setting]
     if args.build_file is not None:
-        make_args.extend(["-c", args.build_file])
+        make_args.extend(["-f", args.build_file])
     make_target_args = make_args[:]
     if args.target is not None:
         make_target_args.extend(args.target)
-- 
2.43.0


From bc4ad7c5f78d2c9ecf868e891826e079ac2440b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 47/47] fix: do not take LLVM IR left by a failed optimisation
 for built

---
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 083a83c..444b38f 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -588,6 +588,9 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
                 # Run opt with selected optimisations
                 self._opt_llvm(llvm_file)
             except BuildException:
+                # Incomplete LLVM IR must not be taken for built later
+                if os.path.isfile(llvm_file):
+                    os.remove(llvm_file)
                 raise
             finally:
                 os.chdir(cwd)
-- 
2.43.0

