From b1fae8ed0169862fcf370f8874b94b1510dbbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 01/48] fix: treat "except*" like other try statements when
 scanning source

Imports in a try/except* statement were reported as unconditional imports.
---
 modulegraph2/_ast_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..400134b 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -10,6 +10,9 @@ from typing import Deque
 
 from ._importinfo import ImportInfo, create_importinfo
 
+# "try: ... except* ...:" has a node class of its own (Python 3.11 or later)
+TRY_STATEMENTS = (ast.Try, getattr(ast, "TryStar", ast.Try))
+
 
 def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
     """
@@ -61,7 +64,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, TRY_STATEMENTS):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From c99d2001d9c121371e5518007002fc38a3c4e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 02/48] fix: handle any number of EXTENDED_ARG prefixes in the
 bytecode scanner

Code with large constant or name tables caused an AssertionError, or
classified class bodies as functions.
---
 modulegraph2/_bytecode_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..fd600de 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -58,7 +58,11 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
 
       is_class_code: True if this is the code object for a class
     """
-    instructions = list(dis.get_instructions(code))
+    # EXTENDED_ARG prefixes are already folded into the argument of the
+    # instruction they belong to, there can be more than one of them.
+    instructions = [
+        inst for inst in dis.get_instructions(code) if inst.opname != "EXTENDED_ARG"
+    ]
 
     imports: list[ImportInfo] = []
     globals_written: set[str] = set()
@@ -70,12 +74,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
     for offset, inst in enumerate(instructions):
         if inst.opname == "IMPORT_NAME":
             from_inst_offset = 1
-            if instructions[offset - from_inst_offset].opname == "EXTENDED_ARG":
-                from_inst_offset += 1
-
             level_inst_offset = from_inst_offset + 1
-            if instructions[offset - level_inst_offset].opname == "EXTENDED_ARG":
-                level_inst_offset += 1
 
             assert (
                 instructions[offset - from_inst_offset].opname == "LOAD_CONST"
-- 
2.43.0


From aec1375de562edb77e7dc376b504760281617570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 03/48] fix: names declared global in a class body are globals

---
 modulegraph2/_bytecode_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index fd600de..06565a6 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -129,7 +129,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
+            if inst.opname == "STORE_NAME" and (is_class_code or is_function_code):
                 continue
 
             const_offset = inst.arg
-- 
2.43.0


From 1e13a8e34beed776e2858553c0ae08bdf7abcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 04/48] fix: relative imports in a script are invalid

The path of the script was used as if it is a module name, which resulted
in an AssertionError or in bogus missing modules.
---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..3ee6dff 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -514,6 +515,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # Scripts are not part of a package, and their name is a filesystem path
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From fa5136662e28304f4570a39fddb6e460ac718678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 05/48] fix: source or bytecode that cannot be loaded results
 in an InvalidModule

Undecodable source, null bytes in source, too deeply nested source and invalid
".pyc" files raised exceptions from ModuleGraph.add_module, and a package with
undecodable source was not a Package in the graph.
---
 modulegraph2/_graphbuilder.py | 46 +++++++++++++++--------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 3ee6dff..010b3ea 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -34,6 +34,18 @@ from ._nodes import (
     SourceModule,
 )
 
+# Exceptions raised by loaders and the compiler for source code and bytecode
+# that cannot be decoded or compiled.
+INVALID_CODE_ERRORS = (
+    SyntaxError,
+    ValueError,
+    TypeError,
+    EOFError,
+    ImportError,
+    RecursionError,
+    MemoryError,
+)
+
 SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 
 SIX_MOVES_TO = {
@@ -232,34 +244,14 @@ def node_for_spec(
         # Likewise for _frozen_importlib_external._NamespaceLoader
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
-        try:
-            source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
-            node = InvalidModule(
-                name=spec.name,
-                loader=loader,
-                distribution=(
-                    distribution_for_file(spec.origin, path)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                extension_attributes={},
-                filename=(
-                    pathlib.Path(spec.origin)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                globals_written=set(),
-                globals_read=set(),
-                code=None,
-            )
-            return node, []
-
         ast_imports: Iterable[ImportInfo] | None
         node_type: type[Module] | None = None
 
+        try:
+            source_code = inspect_loader.get_source(spec.name)
+        except INVALID_CODE_ERRORS:
+            node_type = InvalidModule
+
         if source_code is not None:
             filename = spec.origin
             assert filename is not None
@@ -272,7 +264,7 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except INVALID_CODE_ERRORS:
                 node_type = InvalidModule
                 ast_imports = None
 
@@ -285,7 +277,7 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        except INVALID_CODE_ERRORS:
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
-- 
2.43.0


From dcce6027b4149c76b31cf7977e831d16764e297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 06/48] fix: source that parses but does not compile has no
 imports

Code such as a "return" at module level is an invalid module, just like other
syntax errors, but its imports were added to the graph.
---
 modulegraph2/_graphbuilder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 010b3ea..9bafd2d 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -279,6 +279,7 @@ def node_for_spec(
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
         except INVALID_CODE_ERRORS:
             node_type = InvalidModule
+            ast_imports = None
             bytecode_imports = []
             names_written = set()
             names_read = set()
-- 
2.43.0


From e407b7f709a49d156135c74bef7cecd9d5bfaa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:41 +0000
Subject: [PATCH 07/48] fix: excludes and implied actions also apply to the
 module behind an alias

---
 modulegraph2/_modulegraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..9f68474 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -652,7 +652,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
-            if self.find_node(node) is None:
+            actual_node = self._find_module(node.name)
+            if actual_node is None:
+                actual_node = self._implied_references(alias_node, node.name)
+
+            if actual_node is None:
+                actual_node = node
                 self.add_node(node)
                 self._process_import_list(node, imports)
 
@@ -662,7 +667,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     parent_node = self._find_or_load_module(None, containing_package)
                     self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
 
-            self.add_edge(alias_node, node, DEFAULT_DEPENDENCY)
+            self.add_edge(alias_node, actual_node, DEFAULT_DEPENDENCY)
             return alias_node
 
         self.add_node(node)
-- 
2.43.0


From 49abad2a1794468d8a5893c6b9d24233ae669ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 08/48] fix: look for data files in all sub directories of a
 package

Only the first sub directory found was searched.
---
 modulegraph2/_graphbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 9bafd2d..9d03b56 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -130,7 +130,8 @@ def _contains_datafiles(directory: pathlib.Path):
                 continue
 
             elif p.is_dir():
-                return _contains_datafiles(p)
+                if _contains_datafiles(p):
+                    return True
 
             else:
                 return True
-- 
2.43.0


From 4255bfff869fe67334d4409ebd27b7315f218bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 09/48] fix: an unreadable distribution does not hide other
 distributions

An OSError for one ".dist-info" directory ended the scan of that path entry.
---
 modulegraph2/_distributions.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..44b8dc7 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -142,23 +142,27 @@ def all_distributions(
 
     for entry in path:
         try:
-            for fname in os.listdir(entry):
-                if not fname.endswith(".dist-info"):
-                    continue
+            fnames = os.listdir(entry)
+        except OSError:
+            continue
 
-                dist_name = os.path.join(entry, fname)
+        for fname in fnames:
+            if not fname.endswith(".dist-info"):
+                continue
 
-                try:
-                    dist = _cached_distributions[dist_name]
+            dist_name = os.path.join(entry, fname)
 
-                except KeyError:
-                    dist = create_distribution(dist_name)
-                    _cached_distributions[dist_name] = dist
+            try:
+                dist = _cached_distributions[dist_name]
 
-                yield dist
+            except KeyError:
+                try:
+                    dist = create_distribution(dist_name)
+                except OSError:
+                    continue
+                _cached_distributions[dist_name] = dist
 
-        except OSError:
-            continue
+            yield dist
 
 
 def distribution_for_file(
-- 
2.43.0


From a2460e42b1ff02c85fcee14777818cff8630dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:42 +0000
Subject: [PATCH 10/48] fix: files outside of the installation directory are
 not importable

Python scripts in "../../../bin" ended up in import_names.
---
 modulegraph2/_distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 44b8dc7..0476461 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -106,6 +106,11 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
             if "/__pycache__/" in relpath or relpath.startswith("__pycache__/"):
                 continue
 
+            if relpath.startswith("../") or os.path.isabs(relpath):
+                # Installed outside of the search path entry (scripts, headers,
+                # data), and hence not importable.
+                continue
+
             for suffix in all_suffixes:
                 if not relpath.endswith(suffix):
                     continue
-- 
2.43.0


From 9547b3fa6ac32af20a3219c2bd7a31db92c6df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 11/48] fix: the mypyc hook does not add roots or run the work
 stack

The mypyc helper module ended up as a root of the graph, and processing pending
work in the hook made the call stack grow with the length of import chains.
---
 modulegraph2/_mypyc_support.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..7d7686b 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -8,7 +8,6 @@ import ast
 import modulegraph2
 
 from ._ast_tools import extract_ast_info
-from ._depinfo import DependencyInfo
 from ._nodes import BaseNode, ExtensionModule, Package
 
 # Mypyc compiles Python code in a package to extension
@@ -85,8 +84,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
         return
 
     # Add explicit dependency to the mypy helper extension module
-    helper_node = graph.add_module(helper_module)
-    graph.add_edge(node, helper_node, DependencyInfo(False, True, False, None))
+    graph.import_module(node, helper_module)
 
     source_code = source_filename.read_bytes()
 
@@ -107,4 +105,3 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     # And finally process the dependencies found in the source file.
     if imports:
         graph._process_import_list(node, imports)
-        graph._run_stack()
-- 
2.43.0


From 09712973641408a777a55a857a7f337ca3ce60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 12/48] fix: the mypyc hook ignores source containing null
 bytes

---
 modulegraph2/_mypyc_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 7d7686b..10add01 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -96,7 +96,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
             flags=ast.PyCF_ONLY_AST,
             dont_inherit=True,
         )
-    except SyntaxError:
+    except (SyntaxError, ValueError):
         return
 
     else:
-- 
2.43.0


From e3a54da9e088fd7a1cc545acca290076cb941e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 13/48] fix: the SWIG hook always removes its fake package from
 sys.modules

---
 modulegraph2/_swig_support.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..51539a9 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -92,9 +92,10 @@ def swig_missing_hook(
             ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
         )
 
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-
-        del sys.modules[to_import]
+        try:
+            spec = importlib.util.find_spec("." + missing_name, to_import)
+        finally:
+            del sys.modules[to_import]
 
     if spec is not None:
         node, imports = node_for_spec(spec, sys.path)
-- 
2.43.0


From 93afede13d5cd8a7bad854a64c359e841b7e0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 14/48] fix: run post processing hooks for nodes created by
 missing hooks

---
 modulegraph2/_modulegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9f68474..fdb1eeb 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -399,6 +399,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         node = self._missing_hook(self, importing_module, module_name)
         if node is not None:
+            # Ensure that post processing hooks are called for the node
+            self._process_import_list(node, ())
             return node
 
         node = MissingModule(module_name)
-- 
2.43.0


From 2d1e86d30f155e553d3ece82cd64fe80a2af13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 15/48] fix: import_package does not add "__init__" and
 "__pycache__" as submodules

---
 modulegraph2/_modulegraph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index fdb1eeb..f7267f0 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -329,7 +329,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             path = pathlib.Path(path_name)
             for fn in path.glob("*.py"):
                 module = fn.stem
-                if not module.isidentifier():
+                if not module.isidentifier() or module == "__init__":
                     continue
 
                 module_node = self._find_or_load_module(
@@ -344,7 +344,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 )
 
             for fn in path.iterdir():
-                if fn.is_dir() and fn.name.isidentifier():
+                if (
+                    fn.is_dir()
+                    and fn.name.isidentifier()
+                    and fn.name != "__pycache__"
+                ):
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
                     )
-- 
2.43.0


From 85956f4ae97c5b275c3c970bb5ebcade18207810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 16/48] fix: "from alias import *" binds the globals of the
 aliased module

---
 modulegraph2/_modulegraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index f7267f0..4a4bd50 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -952,6 +952,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         assert isinstance(importing_module, (Module, Package, Script))
         if import_info.star_import:
+            if isinstance(imported_module, AliasNode):
+                node = self._find_module(imported_module.actual_module)
+                assert node is not None
+                imported_module = node
+
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
 
-- 
2.43.0


From 6a46b71094a932be0486395dc1b76a0256d006e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 17/48] fix: add_dependencies_for_source handles relative
 imports as invalid imports

These raised ValueError or were treated as absolute imports.
---
 modulegraph2/_modulegraph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 4a4bd50..868fb6d 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -203,6 +203,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
+            if info.import_level:
+                # The source code is not part of a package
+                invalid_name = "." * info.import_level + info.import_module
+                node = self._find_module(invalid_name)
+                if node is None:
+                    node = InvalidRelativeImport(invalid_name)
+                    self.add_node(node)
+                    self._process_import_list(node, ())
+
+                self.add_root(node)
+                self._run_stack()
+                continue
+
             self.add_module(info.import_module)
             for name in info.import_names:
                 self.add_module(f"{info.import_module}.{name}")
-- 
2.43.0


From 420cc6ad357daead8e88fa8d3cc9ec07b4379564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 18/48] fix: escape names in the HTML report and only link to
 existing sections

---
 modulegraph2/_htmlbuilder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 2caf3c7..760151c 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -7,6 +7,7 @@ Support code for generating HTML output from a module graph
     package, with modulegraph2 specific functionality in this module.
 """
 
+import html
 import operator
 import textwrap
 from typing import TextIO
@@ -45,14 +46,17 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
 
     file.write(HTML_PREFIX)
 
-    reachable = {node.identifier for node in graph.iter_graph()}
+    # Only these nodes have a section in the report that can be linked to
+    reachable = {
+        node.identifier for node in graph.iter_graph() if isinstance(node, BaseNode)
+    }
 
     for node in sorted(graph.iter_graph(), key=operator.attrgetter("identifier")):
         if not isinstance(node, BaseNode):
             continue
 
         print(
-            f'<a name="{node.identifier}"><h2>{type(node).__name__} {node.name}</h2></a>',  # noqa:E501, B950
+            f'<a name="{html.escape(node.identifier)}"><h2>{type(node).__name__} {html.escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
         outgoing = list(graph.outgoing(node))
@@ -60,7 +64,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Depends on:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{target.identifier}">{target.name}</a>'
+                    f'<a href="#{html.escape(target.identifier)}">{html.escape(target.name)}</a>'
                     for _, target in outgoing
                 ),
                 file=file,
@@ -71,7 +75,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Used by:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{source.identifier}">{source.name}</a>'
+                    f'<a href="#{html.escape(source.identifier)}">{html.escape(source.name)}</a>'
                     for _, source in incoming
                     if source.identifier in reachable
                 ),
-- 
2.43.0


From b77f6ac58083ef30c3318d0bc068b95f2339a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 19/48] fix: escape quotes and backslashes in Graphviz output

---
 modulegraph2/_dotbuilder.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index e8605ad..e3136ff 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -15,6 +15,13 @@ from objectgraph import EDGE_TYPE, NODE_TYPE  # , ObjectGraph
 from ._modulegraph import ModuleGraph
 
 
+def quote(value: str) -> str:
+    """
+    Return *value* as a quoted string for Graphviz.
+    """
+    return '"' + value.replace("\\", "\\\\").replace('"', '\\"') + '"'
+
+
 def format_attributes(callable, *args):
     """
     Format the results of *callable* in the format expected
@@ -53,22 +60,22 @@ def export_to_dot(
 
     for source in graph.iter_graph():
         print(
-            f'    "{source.identifier}"{format_attributes(format_node, source)}',
+            f"    {quote(source.identifier)}{format_attributes(format_node, source)}",
             file=file,
         )
         for edge, target in graph.outgoing(source):
             print(
-                f'    "{source.identifier}" -> "{target.identifier}"{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
+                f"    {quote(source.identifier)} -> {quote(target.identifier)}{format_attributes(format_edge, source, target, edge)}",  # noqa: B950
                 file=file,
             )
 
     for idx, (group_name, group_icon, group_items) in enumerate(group_nodes(graph)):
         print(f"subgraph cluster_{idx} {{", file=file)
-        print(f'   label = "{group_name}"', file=file)
+        print(f"   label = {quote(group_name)}", file=file)
         print(f"   shape = {group_icon}", file=file)
         print("   style=filled; color=lightgray", file=file)
         for node in group_items:
-            print(f'   "{node.identifier}"', file=file)
+            print(f"   {quote(node.identifier)}", file=file)
 
         print("}", file=file)
         print(file=file)
-- 
2.43.0


From 8b372bdff48b86d1cc7d02002f78478e1d791fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 20/48] fix: importing names through an alias for another alias

---
 modulegraph2/_modulegraph.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 868fb6d..d90e2b2 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -796,6 +796,25 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         return None
 
+    def _resolve_alias(self, node: BaseNode) -> BaseNode:
+        """
+        Follow aliases until reaching a node that's not an alias.
+
+        Args:
+          node: A node
+
+        Returns:
+          The actual node for *node*, which can be *node* itself. The
+          result is an alias only when aliases refer to each other.
+        """
+        seen: set[str] = set()
+        while isinstance(node, AliasNode) and node.identifier not in seen:
+            seen.add(node.identifier)
+            actual_node = self._find_module(node.actual_module)
+            assert actual_node is not None
+            node = actual_node
+        return node
+
     def _find_or_load_module(
         self,
         importing_module: BaseNode | None,
@@ -965,11 +984,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         assert isinstance(importing_module, (Module, Package, Script))
         if import_info.star_import:
-            if isinstance(imported_module, AliasNode):
-                node = self._find_module(imported_module.actual_module)
-                assert node is not None
-                imported_module = node
-
+            imported_module = self._resolve_alias(imported_module)
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
 
@@ -979,10 +994,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             ):
                 if isinstance(imported_module, AliasNode):
                     importing_module.globals_written.update(import_info.import_names)
-                    node = self._find_module(imported_module.actual_module)
-                    assert node is not None
-
-                    imported_module = node
+                    imported_module = self._resolve_alias(imported_module)
                     if not isinstance(
                         imported_module, (Package, NamespacePackage, Module)
                     ):
-- 
2.43.0


From d39bbc51deca826244be28b6a9715924323e9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 21/48] fix: recognise class bodies that use variables of an
 enclosing function

---
 modulegraph2/_bytecode_tools.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 06565a6..8f2466b 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -6,6 +6,7 @@ and the use of global names.
 
 import collections
 import dis
+import inspect
 import sys
 import types
 from collections.abc import Iterator
@@ -158,28 +159,15 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
                 const_offset = instructions[offset - 2].arg
             assert const_offset is not None
 
-            if sys.version_info[:2] >= (3, 11):
-                if (
-                    offset >= 2
-                    and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                elif (
-                    offset >= 3
-                    and instructions[offset - 2].opname == "PUSH_NULL"
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
+            # Function bodies keep their local variables in an array, class bodies
+            # use a dictionary. The instructions before this one don't identify
+            # a class, e.g. a class body that uses variables of an enclosing
+            # function is preceded by instructions that build a closure.
+            body = code.co_consts[const_offset]
+            if body.co_flags & inspect.CO_OPTIMIZED:
+                func_codes.add(body)
             else:
-                if (
-                    offset >= 3
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
+                class_codes.add(body)
 
     return imports, globals_written, globals_read, func_codes, class_codes
 
-- 
2.43.0


From b1f78bba678f172b2c99caf795845e1a19c29633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 22/48] fix: errors raised by missing hooks are not handled as
 lookup errors

---
 modulegraph2/_modulegraph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index d90e2b2..035f231 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -620,10 +620,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-            if spec is None:
-                node = self._create_missing_module(importing_module, module_name)
-                return node
-
         except Exception as exc:
             if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
                 exc
@@ -660,6 +656,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
+        if spec is None:
+            node = self._create_missing_module(importing_module, module_name)
+            return node
+
         node, imports = node_for_spec(spec, sys.path)
 
         if node.name != module_name:
-- 
2.43.0


From 07db746a886b07c927e641ca24dd743e98f9dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 23/48] fix: packages that exit when imported do not end graph
 building

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 035f231..83b3ce6 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -620,7 +620,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
                 exc
             ):
-- 
2.43.0


From 0c655e114ebfcaef34686f09953b9b0a06ec9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 24/48] fix: callbacks registered by a running callback do not
 repeat that callback

---
 modulegraph2/_callback_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_callback_list.py b/modulegraph2/_callback_list.py
index 2bd7cd5..421645a 100644
--- a/modulegraph2/_callback_list.py
+++ b/modulegraph2/_callback_list.py
@@ -64,7 +64,7 @@ class CallbackList(Generic[T]):
           args: Positional arguments for the function
           kwds: Keyword arguments for the function
         """
-        for function in self._callbacks:
+        for function in list(self._callbacks):
             function(*args, **kwds)
 
 
@@ -113,7 +113,7 @@ class FirstNotNone(Generic[T]):
         Returns:
           The first not :data:`None` result or :data:`None`
         """
-        for function in self._callbacks:
+        for function in list(self._callbacks):
             result = function(*args, **kwds)
             if result is not None:
                 return result
-- 
2.43.0


From b5c9c3d79be166fc4aaef48624f2362907f9b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 25/48] fix: source modules without an origin ended the build
 with an AssertionError

---
 modulegraph2/_graphbuilder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 9d03b56..1f2b8de 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -254,8 +254,8 @@ def node_for_spec(
             node_type = InvalidModule
 
         if source_code is not None:
-            filename = spec.origin
-            assert filename is not None
+            # Loaders for code that is not in a file need not set an origin
+            filename = spec.origin if spec.origin is not None else "<unknown>"
 
             try:
                 ast_node = compile(
-- 
2.43.0


From 413603ffed1de7c2105ede74547dec1869a522fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 26/48] fix: packages that are not in the filesystem or a zip
 file ended the build with an OSError

---
 modulegraph2/_graphbuilder.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 1f2b8de..5ba9361 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -489,6 +489,14 @@ def node_for_spec(
         else:
             node_class = Package
 
+        has_data_files = False
+        if node_file is not None:
+            try:
+                has_data_files = _contains_datafiles(node_file)
+            except OSError:
+                # The package is not located in the filesystem or a zip file
+                pass
+
         package = node_class(
             name=node.name,
             loader=node.loader,
@@ -497,7 +505,7 @@ def node_for_spec(
             filename=node_file,
             init_module=node,
             search_path=[pathlib.Path(loc) for loc in spec.submodule_search_locations],
-            has_data_files=node_file is not None and _contains_datafiles(node_file),
+            has_data_files=has_data_files,
             namespace_type=namespace_type,
         )
 
-- 
2.43.0


From 53b4a543e19de2fc332752835875a823c98c4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 27/48] fix: node_for_spec puts the sys.modules entries it
 removes back

---
 modulegraph2/_graphbuilder.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 5ba9361..548fc31 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -373,9 +373,12 @@ def node_for_spec(
 
             if moved_spec.name == spec.name:
                 print(moved_spec.name, spec.name, actual_name, file=sys.stderr)
-                del sys.modules[actual_name]
-                importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(actual_name)
+                orig = sys.modules.pop(actual_name)
+                try:
+                    importlib.invalidate_caches()
+                    moved_spec = importlib.util.find_spec(actual_name)
+                finally:
+                    sys.modules[actual_name] = orig
                 if moved_spec is None:
                     # The moved-to name doesn't actually exist. This
                     # can happen on systems where parts of the stdlib
@@ -418,9 +421,14 @@ def node_for_spec(
             if moved_spec is not None and moved_spec.name == spec.name:
                 # In pkg_resources the *vendor_pkg* points to the *root_name*
                 # in sys.path. Below is a crude hack to work arount that...
-                del sys.modules[f"{vendor_pkg}.{relative_name}"]
-                importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
+                orig = sys.modules.pop(f"{vendor_pkg}.{relative_name}")
+                try:
+                    importlib.invalidate_caches()
+                    moved_spec = importlib.util.find_spec(
+                        f"{vendor_pkg}.{relative_name}"
+                    )
+                finally:
+                    sys.modules[f"{vendor_pkg}.{relative_name}"] = orig
         except ModuleNotFoundError:
             moved_spec = importlib.util.find_spec(relative_name)
 
@@ -438,9 +446,12 @@ def node_for_spec(
         # The distutils_hack loader is used by newer versions of setuptools
         # to fully replace the stdlib version of distutils.
         assert spec.name == "distutils", spec.name
-        del sys.modules["setuptools._distutils"]
-        importlib.invalidate_caches()
-        moved_spec = importlib.util.find_spec("setuptools._distutils")
+        orig = sys.modules.pop("setuptools._distutils")
+        try:
+            importlib.invalidate_caches()
+            moved_spec = importlib.util.find_spec("setuptools._distutils")
+        finally:
+            sys.modules["setuptools._distutils"] = orig
         if moved_spec is None:  # pragma: no branch
             return MissingModule("distutils"), ()  # pragma: no cover
         assert (
-- 
2.43.0


From 5a946b747f6d7def15ef12dcc3e7896d54fa0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 28/48] fix: files of distributions found through a relative
 search path entry were not absolute

---
 modulegraph2/_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 0476461..ba2e621 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -100,7 +100,7 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                 # The record file is a CSV file that can contain quoted strings.
                 relpath = relpath[1:-1].replace('""', '"')
 
-            abspath = os.path.normpath(os.path.join(distribution_dir, relpath))
+            abspath = os.path.abspath(os.path.join(distribution_dir, relpath))
             files.append(abspath)
 
             if "/__pycache__/" in relpath or relpath.startswith("__pycache__/"):
-- 
2.43.0


From 7870745556acf2ce067fc086f7a4b8f61d8827fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 29/48] fix: the SWIG hook does not fail for toplevel modules

---
 modulegraph2/_swig_support.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 51539a9..7697281 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -65,6 +65,9 @@ def swig_missing_hook(
         to_import = importing_module.name
     else:
         to_import = importing_module.name.rpartition(".")[0]
+        if not to_import:
+            # A toplevel module, there is no package to look in.
+            return None
 
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-- 
2.43.0


From a36d56d319404d1b8fc9bb1bd56254a13e457951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 30/48] fix: the SWIG hook copes with every failure to import
 the package

---
 modulegraph2/_swig_support.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 7697281..03252c5 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -71,7 +71,7 @@ def swig_missing_hook(
 
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
+    except (Exception, SystemExit):
         # Loading the package may fail if there's and error. This
         # code assumes that's due to the invalid import by swig and
         # adjusts sys.modules for that before retrying.
@@ -80,6 +80,10 @@ def swig_missing_hook(
         # because the assumption is not generally true and leaving the
         # fake module might cause problems in the generic code dealing
         # with simular problems.
+        if to_import in sys.modules:
+            # Not a proper package, it cannot contain the extension
+            return None
+
         sp = importlib.util.find_spec(to_import)
 
         # By this time it must be possible to locate the spec,
-- 
2.43.0


From f05714abca2e3e7e46f359be0b864bdba3b65ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 31/48] fix: the mypyc hook ignores source that is too complex
 to parse

---
 modulegraph2/_mypyc_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 10add01..24cbdcb 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -96,7 +96,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
             flags=ast.PyCF_ONLY_AST,
             dont_inherit=True,
         )
-    except (SyntaxError, ValueError):
+    except (SyntaxError, ValueError, RecursionError, MemoryError):
         return
 
     else:
-- 
2.43.0


From 74b3f59f1387662616071a3da4356e37c70e3473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 32/48] fix: the SWIG hook copes with importers that cannot be
 found by their name

---
 modulegraph2/_swig_support.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 03252c5..5ad3faf 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -3,7 +3,6 @@ Support code that deals with SWIG.
 """
 
 import importlib.util
-import os
 import sys
 from types import ModuleType
 from typing import cast
@@ -84,19 +83,18 @@ def swig_missing_hook(
             # Not a proper package, it cannot contain the extension
             return None
 
-        sp = importlib.util.find_spec(to_import)
+        try:
+            sp = importlib.util.find_spec(to_import)
+        except ImportError:
+            sp = None
 
-        # By this time it must be possible to locate the spec,
-        # as we were already passed as proper module node.
-        #
-        # The origin should be set as well, the ImportError shouldn't
-        # happen for implicit namespace packages (which don't have
-        # an __init__.py and no origin)
-        assert sp is not None
-        assert sp.origin is not None
+        if sp is None or sp.submodule_search_locations is None:
+            # The name of the importing module is not one it can be
+            # imported by.
+            return None
 
         sys.modules[to_import] = cast(
-            ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
+            ModuleType, FakePackage(list(sp.submodule_search_locations))
         )
 
         try:
-- 
2.43.0


From 16b6ca08174158cb749648f340457e41a0c650b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 33/48] fix: submodules of packages that fail to import or have
 no search path ended the build with an AssertionError

---
 modulegraph2/_modulegraph.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 83b3ce6..5a114c4 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -630,28 +630,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # Try to work around this by inserting a fake module object
                 # in sys.modules and retrying.
                 #
-                # node_for_spec on a submodule is called only after
-                # successfully calling node_for_spec on the parent package,
-                # hence we know that find_spec will be successfull and
-                # will find a pacakge with an __init__.py.
+                # There is nothing to retry when the parent is not a package
+                # with a search path, or when it was imported after all.
                 parent = module_name.rpartition(".")[0]
-                assert parent not in sys.modules
-
-                spec = importlib.util.find_spec(parent)
-                assert spec is not None
-                loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
-                if loader.is_package(spec.name):
-                    path = spec.origin
-                    assert path is not None
-                    assert path.rpartition(os.sep)[-1].startswith("__init__."), path
-                    path = os.path.dirname(path)
-                    sys.modules[parent] = cast(ModuleType, FakePackage([path]))
-                    return self._load_module(importing_module, module_name)
+                spec = None
+                if parent not in sys.modules:
+                    spec = importlib.util.find_spec(parent)
 
-                else:
+                if spec is None or spec.submodule_search_locations is None:
                     node = self._create_missing_module(importing_module, module_name)
                     return node
+
+                path = list(spec.submodule_search_locations)
+                sys.modules[parent] = cast(ModuleType, FakePackage(path))
+                return self._load_module(importing_module, module_name)
             else:
                 node = self._create_missing_module(importing_module, module_name)
                 return node
-- 
2.43.0


From 8c41eae24e8966b9693f79ec430a1ee4ffae1054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 34/48] fix: explicit namespace packages that fail to import
 with other exceptions than ImportError ended the build

---
 modulegraph2/_graphbuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 548fc31..6083b4d 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -482,7 +482,9 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except (Exception, SystemExit):
+                # Importing the package runs its code, which can fail for
+                # any reason.
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
-- 
2.43.0


From f5ef85c3ecae83437f4f12ab1a8e6e1de93f2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 35/48] fix: targets of six.moves and vendored names that
 cannot be located ended the build

---
 modulegraph2/_graphbuilder.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 6083b4d..b21ffee 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -171,6 +171,18 @@ def _contains_datafiles(directory: pathlib.Path):
     return False
 
 
+def _find_moved_spec(name: str) -> importlib.machinery.ModuleSpec | None:
+    """
+    Return the spec for *name*, or None when it cannot be located
+    """
+    try:
+        return importlib.util.find_spec(name)
+    except (Exception, SystemExit):
+        # find_spec imports the packages *name* is in, which can fail
+        # for any reason.
+        return None
+
+
 def node_for_spec(
     spec: importlib.machinery.ModuleSpec, path: list[str]
 ) -> tuple[BaseNode, Iterable[ImportInfo]]:
@@ -364,7 +376,7 @@ def node_for_spec(
             except KeyError:
                 return MissingModule(spec.name), ()
 
-            moved_spec = importlib.util.find_spec(actual_name)
+            moved_spec = _find_moved_spec(actual_name)
             if moved_spec is None:
                 # The moved-to name doesn't actually exist. This
                 # can happen on systems where parts of the stdlib
@@ -430,7 +442,9 @@ def node_for_spec(
                 finally:
                     sys.modules[f"{vendor_pkg}.{relative_name}"] = orig
         except ModuleNotFoundError:
-            moved_spec = importlib.util.find_spec(relative_name)
+            moved_spec = _find_moved_spec(relative_name)
+        except (Exception, SystemExit):
+            moved_spec = None
 
         if moved_spec is None:
             return MissingModule(f"{vendor_pkg}.{relative_name}"), ()
-- 
2.43.0


From d0d2f7891b52c6ce6c245dd1be9b047ffdfec4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 36/48] fix: missing hooks were not asked for names that
 six.moves or a vendor package cannot locate

---
 modulegraph2/_modulegraph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5a114c4..f3c36d7 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -654,6 +654,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         node, imports = node_for_spec(spec, sys.path)
 
+        if isinstance(node, MissingModule) and node.name == module_name:
+            return self._create_missing_module(importing_module, module_name)
+
         if node.name != module_name:
             # Module is aliased in sys.modules. One example of
             # this is "os.path", which is a virtual submodule
@@ -667,6 +670,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             if actual_node is None:
                 actual_node = self._implied_references(alias_node, node.name)
 
+            if actual_node is None and isinstance(node, MissingModule):
+                # The real module cannot be located as is, it might be
+                # provided by the missing hooks.
+                actual_node = self._find_or_load_module(alias_node, node.name)
+
             if actual_node is None:
                 actual_node = node
                 self.add_node(node)
-- 
2.43.0


From 94a5d6fcb9dacf0d0c8e48add08ba02c050b914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 37/48] fix: modules of excluded packages were loaded when they
 were reached under another name

---
 modulegraph2/_modulegraph.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index f3c36d7..db4af48 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -666,24 +666,30 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
+            containing_package, _ = split_package(node.name)
+            parent_node = None
+            if containing_package is not None and self.find_node(node.name) is None:
+                # Ensure that the aliased node links back to its package
+                parent_node = self._find_or_load_module(None, containing_package)
+
             actual_node = self._find_module(node.name)
+            if actual_node is None and (
+                isinstance(node, MissingModule)
+                or isinstance(parent_node, ExcludedModule)
+            ):
+                # The real module cannot be located as is (it might be provided
+                # by the missing hooks) or is part of an excluded package.
+                actual_node = self._find_or_load_module(alias_node, node.name)
+
             if actual_node is None:
                 actual_node = self._implied_references(alias_node, node.name)
 
-            if actual_node is None and isinstance(node, MissingModule):
-                # The real module cannot be located as is, it might be
-                # provided by the missing hooks.
-                actual_node = self._find_or_load_module(alias_node, node.name)
-
             if actual_node is None:
                 actual_node = node
                 self.add_node(node)
                 self._process_import_list(node, imports)
 
-                containing_package, _ = split_package(node.name)
-                if containing_package is not None:
-                    # Ensure that the aliased node links back to its package
-                    parent_node = self._find_or_load_module(None, containing_package)
+                if parent_node is not None:
                     self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
 
             self.add_edge(alias_node, actual_node, DEFAULT_DEPENDENCY)
-- 
2.43.0


From 1301fac9b8595f5c6c105545daba0d0fec3d4c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 38/48] fix: import_package raised for packages with a search
 location that is not a directory

---
 modulegraph2/_modulegraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index db4af48..54b0dfe 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -340,6 +340,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
         for path_name in spec.submodule_search_locations or []:
             path = pathlib.Path(path_name)
+            if not path.is_dir():
+                # Not in the filesystem (for example in a zip file), or gone.
+                continue
+
             for fn in path.glob("*.py"):
                 module = fn.stem
                 if not module.isidentifier() or module == "__init__":
-- 
2.43.0


From d90eab59474467fbe82bbf48dd9e5d3bf883d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 39/48] fix: hidden Python files in a distribution made
 add_distribution raise ValueError

---
 modulegraph2/_distributions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index ba2e621..b34ab07 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -116,12 +116,14 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                     continue
 
                 if relpath.endswith("/__init__" + suffix):
-                    import_names.append(
-                        relpath[: -len("/__init__") + -len(suffix)].replace("/", ".")
-                    )
-
+                    import_name = relpath[: -len("/__init__") + -len(suffix)]
                 else:
-                    import_names.append(relpath[: -len(suffix)].replace("/", "."))
+                    import_name = relpath[: -len(suffix)]
+
+                import_name = import_name.replace("/", ".")
+                if all(import_name.split(".")):
+                    # Hidden files (such as "._name.py") cannot be imported
+                    import_names.append(import_name)
 
                 break
 
-- 
2.43.0


From bd34848afe2dad1ead5160a73f2f7f893e9eb641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 40/48] fix: builtins imported from six.moves were reported as
 missing modules

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 54b0dfe..53e06a3 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1071,7 +1071,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, dep_node, DEFAULT_DEPENDENCY
                                 )
                                 continue
-                        elif (
+                        if (
                             isinstance(imported_module, Package)
                             and nm in imported_module.globals_written
                         ):
-- 
2.43.0


From 6fa555d28bee7a6bcdef55288e07b2a863446df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 41/48] fix: names in six.moves that were unknown or mapped to
 modules that do not exist

---
 modulegraph2/_graphbuilder.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index b21ffee..18950c5 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -50,12 +50,15 @@ SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 
 SIX_MOVES_TO = {
     "builtins": "builtins",
+    "collections_abc": "collections.abc",
     "configparser": "configparser",
     "copyreg": "copyreg",
     "cPickle": "pickle",
     "cStringIO": "io",
     "dbm_gnu": "dbm.gnu",
-    "_dummy_thread": "_dummy_thread",
+    "dbm_ndbm": "dbm.ndbm",
+    "_dummy_thread": "_thread",
+    "email_mime_image": "email.mime.image",
     "email_mime_multipart": "email.mime.multipart",
     "email_mime_nonmultipart": "email.mime.nonmultipart",
     "email_mime_text": "email.mime.text",
@@ -75,7 +78,7 @@ SIX_MOVES_TO = {
     "_thread": "_thread",
     "tkinter": "tkinter",
     "tkinter_dialog": "tkinter.dialog",
-    "tkinter_filedialog": "tkinter.FileDialog",
+    "tkinter_filedialog": "tkinter.filedialog",
     "tkinter_scrolledtext": "tkinter.scrolledtext",
     "tkinter_simpledialog": "tkinter.simpledialog",
     "tkinter_ttk": "tkinter.ttk",
@@ -94,10 +97,11 @@ SIX_MOVES_TO = {
     "urllib.request": "urllib.request",
     "urllib.response": "urllib.response",
     "urllib.robotparser": "urllib.robotparser",
+    "urllib_parse": "urllib.parse",
+    "urllib_error": "urllib.error",
+    "urllib_request": "urllib.request",
+    "urllib_response": "urllib.response",
     "urllib_robotparser": "urllib.robotparser",
-    "UserDict": "collections.UserDict",
-    "UserList": "collections.UserList",
-    "UserString": "collections.UserString",
     "winreg": "winreg",
     "xmlrpc_client": "xmlrpc.client",
     "xmlrpc_server": "xmlrpc.server",
@@ -106,9 +110,14 @@ SIX_MOVES_TO = {
     "filterfalse": "itertools",
     "getcwd": "os",
     "getcwdb": "os",
+    "getoutput": "subprocess",
     "intern": "sys",
     "reduce": "functools",
     "reload_module": "importlib",
+    "StringIO": "io",
+    "UserDict": "collections",
+    "UserList": "collections",
+    "UserString": "collections",
     "zip_longest": "itertools",
 }
 
-- 
2.43.0


From 06ab6e6dd321cdd7f520b866b9ad5e9fbe8bf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 42/48] fix: import_package did not look in search locations
 added by namespace packages

---
 modulegraph2/_modulegraph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 53e06a3..f012936 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -7,7 +7,6 @@ import contextlib
 import importlib
 import operator
 import os
-import pathlib
 import sys
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
@@ -336,10 +335,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
+        for path in node.search_path:
             if not path.is_dir():
                 # Not in the filesystem (for example in a zip file), or gone.
                 continue
-- 
2.43.0


From db0fb88df8a3441f1b2e7932c3f1e25b8f3fb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 43/48] fix: fall back to the top-level name when a vendored
 package lacks the requested one

---
 modulegraph2/_graphbuilder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 18950c5..7ef3ede 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -450,6 +450,9 @@ def node_for_spec(
                     )
                 finally:
                     sys.modules[f"{vendor_pkg}.{relative_name}"] = orig
+            if moved_spec is None:
+                # The vendored packages don't include this name.
+                moved_spec = _find_moved_spec(relative_name)
         except ModuleNotFoundError:
             moved_spec = _find_moved_spec(relative_name)
         except (Exception, SystemExit):
-- 
2.43.0


From c0ef38050514d9e7c13a91f53b1b708f9be90b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 44/48] fix: a distribution with malformed metadata does not
 hide other distributions

---
 modulegraph2/_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index b34ab07..1718787 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -79,9 +79,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = BytesParser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
-    assert isinstance(version, str)
+    if not isinstance(name, str) or not isinstance(version, str):
+        raise ValueError(f"{distribution_file!r} does not contain valid metadata")
 
     with open(os.path.join(distribution_file, "RECORD")) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
@@ -165,7 +165,7 @@ def all_distributions(
             except KeyError:
                 try:
                     dist = create_distribution(dist_name)
-                except OSError:
+                except (OSError, ValueError):
                     continue
                 _cached_distributions[dist_name] = dist
 
-- 
2.43.0


From b4edc58b61f214db2317256aefde1cbdf83709cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 45/48] fix: the RECORD of a distribution is decoded the same
 way in every locale

---
 modulegraph2/_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 1718787..0e1153a 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -83,7 +83,11 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
     if not isinstance(name, str) or not isinstance(version, str):
         raise ValueError(f"{distribution_file!r} does not contain valid metadata")
 
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(
+        os.path.join(distribution_file, "RECORD"),
+        encoding="utf-8",
+        errors="surrogateescape",
+    ) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
-- 
2.43.0


From 110b726ae0328e7155da0159afcd6cd955e5b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 46/48] fix: link explicit namespace packages found through an
 alias to pkgutil or pkg_resources

---
 modulegraph2/_modulegraph.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index f012936..bfe93fb 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -687,6 +687,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             if actual_node is None:
                 actual_node = node
                 self.add_node(node)
+                self._process_hidden_import(node)
                 self._process_import_list(node, imports)
 
                 if parent_node is not None:
@@ -696,7 +697,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             return alias_node
 
         self.add_node(node)
+        self._process_hidden_import(node)
+        self._process_import_list(node, imports)
+
+        return node
 
+    def _process_hidden_import(self, node: BaseNode) -> None:
+        """
+        Add the dependency on the module implementing explicit
+        namespace packages.
+
+        Args:
+          node: A module that was added to the graph
+        """
         if isinstance(node, Package):
             # Hidden import in explicit namespace packages
             if node.namespace_type in {"pkgutil", "pkg_resources"}:
@@ -704,10 +717,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 assert nspkg is not None
                 self.add_edge(node, nspkg, DEFAULT_DEPENDENCY)
 
-        self._process_import_list(node, imports)
-
-        return node
-
     def _load_script(self, script_path: os.PathLike) -> Script:
         """
         Add a :class:`Script` node to the graph.
-- 
2.43.0


From 9329450332b54621c41122ad4a45b9662a2e11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 47/48] fix: write output files as UTF-8 and accept names that
 cannot be decoded

---
 modulegraph2/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/__main__.py b/modulegraph2/__main__.py
index aca8f81..df2f6a4 100644
--- a/modulegraph2/__main__.py
+++ b/modulegraph2/__main__.py
@@ -319,7 +319,11 @@ def format_graph(args: argparse.Namespace, mg: ModuleGraph) -> None:
         print_graph(sys.stdout, args.output_format, mg)
     else:
         try:
-            with open(args.output_file, "w") as fp:  # pragma: no branch
+            # Names can contain any character, including those used to represent
+            # filenames that cannot be decoded.
+            with open(  # pragma: no branch
+                args.output_file, "w", encoding="utf-8", errors="surrogateescape"
+            ) as fp:
                 print_graph(fp, args.output_format, mg)
 
         except OSError as exc:
-- 
2.43.0


From 8b756417fa64132264de1f09d40ec1e2d5a417e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:38 +0000
Subject: [PATCH 48/48] fix: a class body with type parameters is not inside a
 function

Type parameters are compiled to a code object of their own, which runs when
the definition is executed. The bytecode scanner took it for a function, hence
imports in the body of such a class were flagged as being in a function.
---
 modulegraph2/_bytecode_tools.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 8f2466b..ced0b3e 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -164,10 +164,14 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             # a class, e.g. a class body that uses variables of an enclosing
             # function is preceded by instructions that build a closure.
             body = code.co_consts[const_offset]
-            if body.co_flags & inspect.CO_OPTIMIZED:
-                func_codes.add(body)
-            else:
+            if not body.co_flags & inspect.CO_OPTIMIZED:
                 class_codes.add(body)
+            elif not body.co_name.startswith("<generic parameters of "):
+                # Type parameters have a scope of their own that runs when
+                # the definition is executed and hence is not a function. In
+                # particular the body of a class with type parameters is not
+                # inside a function.
+                func_codes.add(body)
 
     return imports, globals_written, globals_read, func_codes, class_codes
 
-- 
2.43.0

