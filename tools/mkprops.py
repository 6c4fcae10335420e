"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": ["modulegraph2/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Source scan reports every import statement, once and as written",
 "For every Python source the compiler accepts, the source scanner reports each module named by an `import` statement, and each `from ... import` statement, exactly once, no matter which statements it is nested in or how deeply. Each report carries the module name, the alias, the relative level, the imported names with their aliases, and whether it is a star import, exactly as written; `*` itself is never reported as a name; a module that one statement names twice is reported once for that statement.",
 ["inputs", "programs"], "every syntax tree: every statement class of the grammar as the encloser, every nesting depth, every alias/level/name combination",
 "The tests scan about a dozen snippets; the guarantee ranges over every enclosing statement kind (with, match, class, loops, async, try/else, except*) and their combinations.",
 ["_ast_tools.py", "_importinfo.py"],
 [("work-queue scan of the tree", "modulegraph2/_ast_tools.py:extract_ast_info"), ("report construction", "modulegraph2/_importinfo.py:create_importinfo")],
 observe=["ImportInfo objects yielded by the scan", "edges out of a SourceModule node"])

prop("C02", "Import flags describe exactly the statements that enclose the import",
 "An import found in source is flagged in-function exactly when a function definition encloses it at any depth, conditional exactly when an `if` statement encloses it, and try/except exactly when it is in the try, except or else part of a try statement (`except*` included), an import only in the finally part not being flagged by that statement. A dependency is optional exactly when at least one of the three flags holds and global exactly when it is not in a function. Being inside one encloser never erases the flag of another.",
 ["inputs", "programs"], "every chain of enclosing statements around an import, every combination of the three flags",
 "Tests cover single enclosers and a few pairs; the flags must be right for every chain of enclosers and every field of every statement kind.",
 ["_ast_tools.py", "_importinfo.py", "_depinfo.py"],
 [("flags carried on the work queue", "modulegraph2/_ast_tools.py:extract_ast_info"), ("optional/global", "modulegraph2/_importinfo.py:ImportInfo"), ("edge attributes", "modulegraph2/_depinfo.py:from_importinfo")],
 observe=["DependencyInfo on graph edges"])

prop("C03", "Bytecode scan reports every import in every nested code object",
 "For every code object, the bytecode scanner visits the code object and every code object nested in it at any depth, and reports every import instruction with its module name, relative level, imported names and star flag, whatever the width of the instruction operands. An import is flagged in-function exactly when its code object is a function's or is nested in one (the scope of type parameters is not a function); it is never flagged conditional or try/except.",
 ["inputs", "programs"], "every code object tree and every constant/name table size (one or more operand-extension prefixes)",
 "Tests use table sizes that need at most one operand extension and a few nesting shapes.",
 ["_bytecode_tools.py", "_importinfo.py"],
 [("code object traversal", "modulegraph2/_bytecode_tools.py:_all_code_objects"), ("instruction scan", "modulegraph2/_bytecode_tools.py:_extract_single"), ("accumulation", "modulegraph2/_bytecode_tools.py:extract_bytecode_info")],
 observe=["extract_bytecode_info()[0]"])

prop("C04", "Global-name bookkeeping separates globals from class and local names",
 "For every code object, the reported written globals are exactly the names stored by module-level code, the names from-imported (other than `*`) by module-level code, and the names any code stores through a `global` declaration; the reported read globals are the names loaded by module-level code or loaded as globals by any function or class code. Names bound only as locals of functions or in class bodies are never reported, and results of all nested code objects are accumulated.",
 ["inputs", "programs"], "every opcode crossed with every position of the code object (module, class, function, nested)",
 "Tests sample a handful of snippets; every opcode/position pair has to be classified.",
 ["_bytecode_tools.py"],
 [("per-instruction classification", "modulegraph2/_bytecode_tools.py:_extract_single"), ("accumulation", "modulegraph2/_bytecode_tools.py:extract_bytecode_info")],
 state=[("globals_written", "global names a module binds", "modulegraph2/_nodes.py:Module"), ("globals_read", "global names a module reads", "modulegraph2/_nodes.py:Module")],
 observe=["Module.globals_written", "Module.globals_read"])

prop("C05", "Every import yields an edge carrying that import's own attributes",
 "Whenever a scanned node imports a module with a valid absolute or relative import, the graph gets an edge from that node to the node for the imported module, even when the module is missing, excluded or already present. The edge carries the optional and global attributes and the `as` name of that very import, and is not marked as coming from a from-list. All imports reported for a node are processed, none is skipped.",
 ["inputs", "programs", "histories"], "every import of every scanned module, every state of the graph when it is processed",
 "Tests assert edges of fixed fixtures; the edge must be added on every path through import processing, for every kind of target node and any prior graph content.",
 ["_modulegraph.py", "_depinfo.py"],
 [("per-import processing", "modulegraph2/_modulegraph.py:ModuleGraph._process_import"), ("scheduling", "modulegraph2/_modulegraph.py:ModuleGraph._process_import_list"), ("edge attributes", "modulegraph2/_depinfo.py:from_importinfo")],
 observe=["ObjectGraph.edges()/edge_data()"])

prop("C06", "Relative imports resolve against the right package or are flagged invalid",
 "A relative import of level n is resolved against the importing module's n-th enclosing package, where a package (regular or namespace) counts as its own first enclosing package and a module does not. When there is no such package, or the importer is a script, the import produces exactly one node named by the dots plus the given name that marks an invalid relative import, an edge to it with that import's attributes, and nothing else is loaded for it.",
 ["inputs", "programs"], "every level, every module depth, every kind of importing node",
 "Tests use levels 1 to 3 on a few names and never a script that uses a relative import.",
 ["_graphbuilder.py", "_modulegraph.py"],
 [("package computation", "modulegraph2/_graphbuilder.py:relative_package"), ("import processing", "modulegraph2/_modulegraph.py:ModuleGraph._process_import")],
 observe=["InvalidRelativeImport nodes", "edges of the importer"])

prop("C07", "Names imported from a package link to the submodules they denote",
 "For every name in `from P import n` where P is a package (regular, namespace, or reached through an alias) and n is not a global that P binds, n is resolved as submodule P.n, and the graph gets an edge from the importer to that node marked as from-list import with that name's alias and the statement's optional/global attributes, plus an edge from that node to P. When n is a global of P that is itself an imported module, the edge goes from the importer to that module instead; a name that a plain module or package merely binds never creates a missing-module node edge. A star import binds in the importer every global bound by the imported module or package. Every name in the list is handled, whatever happened to the names before it.",
 ["inputs", "programs", "histories"], "every name list, every kind of imported node, every combination of bound and unbound names",
 "Tests use lists of one or two names over fixed fixtures; handling must be independent per name and complete for all node kinds.",
 ["_modulegraph.py"],
 [("from-list processing", "modulegraph2/_modulegraph.py:ModuleGraph._process_namelist")],
 observe=["edges with in_fromlist", "MissingModule nodes"])

prop("C08", "A dotted module is always accompanied by, and linked to, its package",
 "Resolving a dotted name first resolves its containing package, so every ancestor package of a module node added this way is in the graph before it. Every found module or package node with a dotted name gets an edge to the node of its containing package, and so does a missing one unless it was only tried as a name bound by a from-list. Nothing below a missing package is loaded: it becomes a missing module too.",
 ["inputs", "histories"], "every dotted name of any depth, every order in which names are requested",
 "Tests check a few two- and three-level names.",
 ["_modulegraph.py", "_utilities.py"],
 [("recursive resolution", "modulegraph2/_modulegraph.py:ModuleGraph._find_or_load_module"), ("name splitting", "modulegraph2/_utilities.py:split_package")],
 observe=["edges child -> package", "MissingModule nodes"])

prop("C09", "A name is resolved at most once: one node per name, first answer kept",
 "Whatever the sequence of requests, a name already in the graph is answered with the existing node and neither scanned nor loaded again, so adding a module again changes nothing but roots and edges. The builder never adds a second node under an existing name, and each node it creates is scheduled for import processing exactly once.",
 ["histories", "inputs"], "every sequence of additions, imports, aliases and hooks",
 "Tests add a few names twice; the guarantee covers every interleaving of direct, aliased and implied loads.",
 ["_modulegraph.py", "_swig_support.py"],
 [("lookup before load", "modulegraph2/_modulegraph.py:ModuleGraph._find_or_load_module"), ("load", "modulegraph2/_modulegraph.py:ModuleGraph._load_module"), ("implied nodes", "modulegraph2/_modulegraph.py:ModuleGraph._implied_references")],
 observe=["ObjectGraph.nodes()", "ValueError from add_node"])

prop("C10", "Names that cannot be found become missing nodes after asking the hooks",
 "A name that cannot be located never raises out of graph building: the missing-module hooks are asked once, most recently added first, with the graph, the importing node and the name; the first non-None answer is used, otherwise a missing-module node with exactly that name is added. Failures while importing packages to locate names, and odd objects in the interpreter's module table, are handled the same way instead of escaping.",
 ["inputs", "fault_sequences"], "every way a lookup can fail (not found, parent raises, bad __spec__), every list of hooks",
 "Tests provoke a few failures; every exit of the lookup must end in a node or in the hook's answer.",
 ["_modulegraph.py", "_callback_list.py"],
 [("missing handling", "modulegraph2/_modulegraph.py:ModuleGraph._create_missing_module"), ("lookup and its exception handling", "modulegraph2/_modulegraph.py:ModuleGraph._load_module"), ("first answer wins", "modulegraph2/_callback_list.py:FirstNotNone")],
 observe=["MissingModule nodes", "hook calls"])

prop("C11", "Excluded modules are never located, scanned or replaced by implied actions",
 "A name excluded before it is first needed appears in the graph only as an excluded node: it is not located, its imports are not gathered, and everything below it is excluded as well. Excludes take precedence over implied actions whichever is configured first, and hold however the name is reached: by import, from-list, parent package, implied action, or as the real module behind an alias. `__main__` is excluded in every new graph.",
 ["configurations", "histories", "programs"], "every set of excludes and implies in any configuration order, every route by which a name is reached",
 "Tests exclude one module or package and reach it by plain import.",
 ["_modulegraph.py"],
 [("exclude table", "modulegraph2/_modulegraph.py:ModuleGraph.add_excludes"), ("precedence", "modulegraph2/_modulegraph.py:ModuleGraph.add_implies"), ("lookup", "modulegraph2/_modulegraph.py:ModuleGraph._implied_references"), ("submodules", "modulegraph2/_modulegraph.py:ModuleGraph._find_or_load_module")],
 state=[("pending implied actions and excludes", "None means excluded", "modulegraph2/_modulegraph.py:ModuleGraph._global_lazy_nodes")],
 observe=["ExcludedModule nodes", "edges of excluded nodes"])

prop("C12", "Implied actions are applied once, completely, and cannot loop",
 "When a name with an implied action is first resolved, a list makes the module itself be loaded and gives it an edge to every listed name, an alias or virtual entry makes an alias or virtual node with an edge to the named module. The action is taken out of the table before anything it refers to is resolved, so self-referential and mutually referential configurations terminate, and it applies no matter which module triggers the resolution. The built-in table is in force unless use_stdlib_implies is given as false.",
 ["configurations", "histories"], "every implies table, including cyclic ones, and every order of resolution",
 "Tests use acyclic tables with a few entries.",
 ["_modulegraph.py", "_implies.py"],
 [("implied actions", "modulegraph2/_modulegraph.py:ModuleGraph._implied_references"), ("table", "modulegraph2/_implies.py")],
 observe=["AliasNode/VirtualNode", "implied edges"])

prop("C13", "Post-processing hooks run once per node, after the node's imports",
 "For every module or script node the builder adds to the graph, each post-processing hook is called exactly once with the graph and that node, most recently added hook first, even when the node's imports are processed again; what one graph has done or registered does not count for another. The call happens only after all imports reported for the node (and what they pulled in) have been processed.",
 ["histories", "inputs"], "every node, every hook list, every order in which work is scheduled",
 "One test counts hook calls on one graph; order and exactly-once must hold for every node kind and schedule.",
 ["_modulegraph.py", "_callback_list.py", "_swig_support.py"],
 [("scheduling below the imports on a LIFO stack", "modulegraph2/_modulegraph.py:ModuleGraph._process_import_list"), ("hook list", "modulegraph2/_callback_list.py:CallbackList")],
 state=[("names whose hooks were scheduled", "at-most-once guard", "modulegraph2/_modulegraph.py:ModuleGraph._post_processing_seen"), ("pending work", "LIFO list of calls", "modulegraph2/_modulegraph.py:ModuleGraph._work_stack")],
 observe=["hook invocations"])

prop("C14", "Public operations finish all the work they start",
 "When add_script, add_module, add_distribution or a hook_context block ends normally, no import processing is pending: the graph is complete for everything reachable from what was added. A hook_context block drains pending work also when its body raises, and nested package imports neither lose nor reorder the pending work of the operation they run inside, and leave the work they have not come to when they raise. From-list names are only looked at after the module they are imported from has been processed.",
 ["histories", "fault_sequences"], "every sequence of operations and every nesting of hook calls, with and without exceptions",
 "Tests look at final graphs of simple sequences; a forgotten drain shows only for particular sequences.",
 ["_modulegraph.py"],
 [("drain loop", "modulegraph2/_modulegraph.py:ModuleGraph._run_stack"), ("nested work", "modulegraph2/_modulegraph.py:ModuleGraph._saved_stack"), ("hook context", "modulegraph2/_modulegraph.py:ModuleGraph.hook_context"), ("order of from-list work", "modulegraph2/_modulegraph.py:ModuleGraph._process_import")],
 state=[("pending work", "LIFO list of calls", "modulegraph2/_modulegraph.py:ModuleGraph._work_stack")],
 observe=["graph contents when a public method returns"])

prop("C15", "Graph roots are exactly what the user asked for",
 "add_script, add_module and a first add_distribution make exactly the node they add or find a root, and add_dependencies_for_source makes roots of the modules (and from-imported names) its code imports. Nothing else becomes a root: not dependencies, parents, implied modules, modules imported through the hook APIs, or modules pulled in by the built-in hooks.",
 ["histories", "programs"], "every operation sequence and every module content",
 "Tests check roots for simple fixtures and never for the built-in hooks.",
 ["_modulegraph.py", "_mypyc_support.py", "_swig_support.py"],
 [("root registration", "modulegraph2/_modulegraph.py:ModuleGraph.add_module"), ("hook APIs", "modulegraph2/_modulegraph.py:ModuleGraph.import_module"), ("mypyc hook", "modulegraph2/_mypyc_support.py:mypyc_post_processing_hook")],
 observe=["ObjectGraph.roots()"])

prop("C16", "A rejected addition raises the documented error and changes nothing",
 "add_script raises ValueError for a script already in the graph, and lets the open, decoding or syntax error of an unreadable or invalid script through; add_distribution raises ValueError for an unknown name; add_excludes raises TypeError for a single string. In all these cases the graph (nodes, edges, roots, pending work) is unchanged. Adding a distribution that is already present returns the existing node without changing the graph.",
 ["inputs", "fault_sequences"], "every script content and every failing step of the addition",
 "Tests check that errors are raised, not that no step before the failure touched the graph.",
 ["_modulegraph.py"],
 [("script loading", "modulegraph2/_modulegraph.py:ModuleGraph._load_script"), ("script addition", "modulegraph2/_modulegraph.py:ModuleGraph.add_script"), ("distribution addition", "modulegraph2/_modulegraph.py:ModuleGraph.add_distribution")],
 observe=["exceptions", "graph contents after an exception"])

prop("C17", "Located modules get the node class that matches how they are loaded",
 "A module located by the import system becomes: a namespace-package node when it has no loader or a namespace loader, a built-in, extension, frozen, source or bytecode module node according to its loader and the availability of source, wrapped in a package node when the loader says it is a package. A module whose source or code cannot be decoded or compiled becomes an invalid-module node instead of raising, without imports when there is no usable code at all. When source is available the reported imports are those of the source, otherwise those of the bytecode; extension, built-in and namespace nodes report none.",
 ["inputs", "configurations"], "every loader kind crossed with source present/absent/invalid and package/module",
 "Tests have one fixture per common combination; a decode error past the second line, for one, is not among them.",
 ["_graphbuilder.py"],
 [("classification", "modulegraph2/_graphbuilder.py:node_for_spec")],
 observe=["node classes", "imports returned with a node"])

prop("C18", "Building a graph leaves the interpreter's import state as it was",
 "Every entry of the interpreter's module table and search path that the library replaces or removes while building a graph or running the command line is put back, in the same table and list object, before the operation finishes, also when an exception is raised. Stand-in package objects never stay behind in the module table.",
 ["fault_sequences", "inputs"], "every exit, normal or exceptional, of every function that touches sys.modules or sys.path",
 "Tests check one normal exit of the search-path helper; the guarantee is about all exits of all writers.",
 ["_modulegraph.py", "_swig_support.py", "_graphbuilder.py", "_utilities.py", "__main__.py"],
 [("search path helper", "modulegraph2/_utilities.py:saved_sys_path"), ("lookup workarounds", "modulegraph2/_modulegraph.py:ModuleGraph._load_module"), ("SWIG lookup", "modulegraph2/_swig_support.py:swig_missing_hook")],
 state=[("sys.modules / sys.path", "process-wide import state", "interpreter")],
 observe=["sys.modules and sys.path before and after"])

prop("C19", "Node attributes are faithful to the located module and never shared",
 "A module node carries the located name and loader, the file it was located at (none for built-in and frozen modules), the distribution that owns that file, its compiled code and its own sets of written and read globals; a package node carries the directory of its file, its search path, its init module and its namespace type. A package is said to have data files exactly when some non-Python, non-ignored file exists anywhere below it, in the file system or in a zip file. A module says it uses `__import__` or `__file__` exactly when that is among the globals it reads; a package has the globals of its init module, a namespace package none. Every node gets a fresh attribute dictionary for its user.",
 ["inputs", "configurations"], "every located module and every directory tree below a package",
 "Tests compare attributes for single fixtures; data-file detection depends on the listing order and tree shape.",
 ["_graphbuilder.py", "_nodes.py"],
 [("node construction", "modulegraph2/_graphbuilder.py:node_for_spec"), ("data files", "modulegraph2/_graphbuilder.py:_contains_datafiles"), ("node classes", "modulegraph2/_nodes.py")],
 observe=["public node attributes"])

prop("C20", "Distribution lookup sees every installed distribution, one object each",
 "Looking through a search path yields every `.dist-info` distribution in every readable entry in path order, the same object each time the same distribution is seen. An unreadable path entry, or a distribution that is unreadable or has malformed metadata, is skipped without hiding the others. Lookup by file returns the first distribution that records the file, lookup by name the first with that name, otherwise none.",
 ["configurations", "fault_sequences", "histories"], "every search path content and every unreadable entry or distribution",
 "Tests use one healthy site directory.",
 ["_distributions.py"],
 [("enumeration and cache", "modulegraph2/_distributions.py:all_distributions"), ("by file", "modulegraph2/_distributions.py:distribution_for_file"), ("by name", "modulegraph2/_distributions.py:distribution_named")],
 state=[("distribution cache", "one object per dist-info path", "modulegraph2/_distributions.py:_cached_distributions")],
 observe=["all_distributions()", "node.distribution"])

prop("C21", "Distribution records become the right file and import-name sets",
 "A distribution object lists the normalised absolute path of every file in its record, CSV-quoted and non-ASCII names (UTF-8 in every locale) included. Its import names are exactly the dotted names of the Python source, bytecode and extension files recorded inside the installation directory, a package being named by its `__init__` file; files in `__pycache__`, other files, files recorded outside that directory, and files whose dotted name would have an empty component (hidden files such as `._x.py`) contribute no import name.",
 ["inputs"], "every record line: quoting, suffix, nesting, location",
 "Tests read the records of two small packages; scripts recorded outside the installation directory are not among them.",
 ["_distributions.py"],
 [("record parsing", "modulegraph2/_distributions.py:create_distribution")],
 observe=["PyPIDistribution.files", "PyPIDistribution.import_names"])

prop("C22", "Queries report each reachable node and each distribution exactly once",
 "distributions() yields each distribution that owns a node exactly once, looking only at nodes reachable from the roots by default and at all nodes on request, and never a distribution that is merely itself a node. report() prints one line per reachable module or script node, in identifier order, with its class, identifier and file, and nothing for distribution nodes.",
 ["histories", "inputs"], "every graph",
 "Tests print graphs of at most a few nodes.",
 ["_modulegraph.py"],
 [("distribution query", "modulegraph2/_modulegraph.py:ModuleGraph.distributions"), ("report", "modulegraph2/_modulegraph.py:ModuleGraph.report")],
 observe=["values yielded", "text written"])

prop("C23", "HTML output is complete, links resolve, and names are escaped",
 "The HTML report has exactly one section for every module or script node reachable from the roots, naming its class, all nodes it depends on and all reachable module or script nodes that use it. Every link targets a section of the same document. Text taken from node names is escaped, so no name can break the markup.",
 ["inputs", "histories"], "every graph and every node name (script names are arbitrary paths)",
 "Tests look for a marker in the output of one graph.",
 ["_htmlbuilder.py"],
 [("HTML writer", "modulegraph2/_htmlbuilder.py:export_to_html")],
 observe=["text written"])

prop("C24", "Graphviz output states every reachable node, edge and group, quoted safely",
 "The Graphviz output contains one node statement for every reachable node and one edge statement for every edge leaving a reachable node, in the right direction and with the attributes computed for that node or edge, and one closed cluster per distribution listing that distribution's reachable nodes. An edge is dashed exactly when all imports behind it are optional, has no arrowhead exactly when it leads to a package containing its source, and roots are marked as such. Names are quoted so that any identifier yields valid output.",
 ["inputs", "histories"], "every graph and every node name",
 "Tests check the first and last line for one graph.",
 ["_dotbuilder.py", "__main__.py"],
 [("dot writer", "modulegraph2/_dotbuilder.py:export_to_dot"), ("attributes and groups", "modulegraph2/__main__.py:format_edge")],
 observe=["text written"])

prop("C25", "The command line does what its options say, for all arguments",
 "Every positional name is added as a module, script or distribution as selected, after all excludes are registered and with every --path directory on the search path ahead of the existing entries in the order given; the search path is restored afterwards. Repeated -x and --exclude-stdlib accumulate. The graph is written once in the selected format to the selected file or standard output; the file is UTF-8 in every locale and takes every name, undecodable file names included, and a file that cannot be opened ends the program with exit status 1.",
 ["configurations", "inputs"], "every combination and repetition of options",
 "Tests try single options.",
 ["__main__.py", "_utilities.py"],
 [("graph construction", "modulegraph2/__main__.py:make_graph"), ("parsing", "modulegraph2/__main__.py:parse_arguments"), ("output", "modulegraph2/__main__.py:format_graph")],
 observe=["graph built", "output written", "exit status"])

prop("C26", "Callback lists call newest first, pass arguments through, stop when told",
 "A callback list calls every registered callback exactly once per invocation, and no other list's, most recently added first, with the arguments given. A first-answer list calls callbacks in the same order, returns the first result that is not None (falsy results included) without calling the remaining ones, and returns None when there is no such result. Clearing a list empties it.",
 ["inputs", "histories"], "every list of callbacks, every argument list, every result value",
 "Tests use up to three callbacks with truthy results.",
 ["_callback_list.py"],
 [("CallbackList", "modulegraph2/_callback_list.py:CallbackList"), ("FirstNotNone", "modulegraph2/_callback_list.py:FirstNotNone")],
 observe=["callback invocations and result"])

prop("C27", "Hook import APIs add the requested modules and edges, all of them",
 "import_module adds an edge from the importing node to the node for the name, loading it when needed, and returns that node. import_package does the same for the package and, when it is a regular package, adds a node for every Python source file and every directory found in any of its search locations, recursively for those that are regular packages, each linked from its package (locations that are no directory are passed over); names that are not identifiers, the package's own `__init__` and `__pycache__` are not added, and for anything but a regular package nothing more is done.",
 ["inputs", "histories"], "every directory content of a package and every prior graph state",
 "Tests import three packages and check some submodules.",
 ["_modulegraph.py"],
 [("import_module", "modulegraph2/_modulegraph.py:ModuleGraph.import_module"), ("import_package", "modulegraph2/_modulegraph.py:ModuleGraph.import_package")],
 observe=["nodes and edges after hook_context"])

prop("C28", "The SWIG hook answers only for SWIG extensions and adds a proper node",
 "The SWIG hook answers a missing name only when the importer is a module or package that defines swig_import_helper, the name is an underscore plus the importer's last name component, and an extension module of that name is found in the importer's own package; otherwise it answers nothing and leaves the graph unchanged. When it answers, the extension is added to the graph as a top-level module under exactly the missing name. Every graph uses the hook unless use_builtin_hooks is given as false.",
 ["inputs", "programs"], "every importer, every missing name, every lookup outcome",
 "Tests use three fixture packages.",
 ["_swig_support.py"],
 [("hook", "modulegraph2/_swig_support.py:swig_missing_hook")],
 observe=["hook result", "ExtensionModule nodes"])

prop("C29", "The mypyc hook adds dependencies only for mypyc-compiled modules",
 "The mypyc hook acts only on an extension module (or a package whose init module is one) that belongs to a distribution containing a mypyc helper module and whose Python source lies next to it; then it links the node to the helper module and processes every import of that source as an import of that node, treating undecodable or invalid source as having none. For every other node it changes nothing. Every graph uses the hook unless use_builtin_hooks is given as false.",
 ["inputs", "programs"], "every node kind, distribution and neighbouring source file",
 "Tests build three small packages.",
 ["_mypyc_support.py"],
 [("hook", "modulegraph2/_mypyc_support.py:mypyc_post_processing_hook")],
 observe=["edges of the extension node"])

prop("C30", "A name that resolves to another module becomes an alias of the real one",
 "When the import system answers a name with a module of a different name, the graph gets an alias node under the requested name with an edge to the node of the real module, and the real module is added and its imports processed once, linked to its own package when it has one. Importing names or `*` through an alias has the effect of importing them from the real module.",
 ["inputs", "histories"], "every aliased name, every order in which alias and real module are reached",
 "Tests alias three modules, never with a star import through the alias.",
 ["_modulegraph.py"],
 [("aliased load", "modulegraph2/_modulegraph.py:ModuleGraph._load_module"), ("names through an alias", "modulegraph2/_modulegraph.py:ModuleGraph._process_namelist")],
 observe=["AliasNode edges", "edges of modules importing through an alias"])

prop("C31", "Stack depth does not grow with import chains or source nesting",
 "Building a graph uses an explicit work list: the depth of the interpreter's call stack does not grow with the length of import chains between modules, nor does scanning a module recurse into nested statements or nested code objects.",
 ["inputs", "programs"], "every chain length and nesting depth",
 "Tests use short chains; a recursive rewrite passes them all.",
 ["_modulegraph.py", "_ast_tools.py", "_bytecode_tools.py", "_mypyc_support.py"],
 [("work stack", "modulegraph2/_modulegraph.py:ModuleGraph._run_stack"), ("scan queues", "modulegraph2/_ast_tools.py:extract_ast_info")],
 observe=["RecursionError on long chains"])

prop("C32", "Names that stand for other modules lead to those modules",
 "The `moves` package of a six project, wherever it is vendored, is a package of its own that binds six's built-in names and nothing else; each module name in it leads to the standard-library module it stands for, each attribute imported from it to the module that defines it, and an unknown name to a missing module of that full name. A name of a `setuptools.extern`-style vendored package leads to the vendored module or, when there is none, to the top-level module of that name; `distutils` replaced by setuptools leads to setuptools' copy. A target that does not exist gives a missing module named after it.",
 ["inputs", "environments"], "every documented six name, every vendoring prefix, every outcome of looking up the target",
 "The tests import three names and need six and an old setuptools to be installed; the tables and forwarding branches cover some seventy names and several failure modes.",
 ["_graphbuilder.py", "_modulegraph.py"],
 [("table of moved names", "modulegraph2/_graphbuilder.py:SIX_MOVES_TO"), ("forwarding loaders", "modulegraph2/_graphbuilder.py:node_for_spec"), ("names imported from six.moves", "modulegraph2/_modulegraph.py:ModuleGraph._process_namelist")],
 observe=["AliasNode.actual_module", "edges of a module that imports from six.moves", "MissingModule nodes"])

prop("C33", "Built-in implied actions are complete and well formed everywhere",
 "Unless told not to, every graph starts with the built-in implied actions, and no graph changes them for others. On every platform and Python release each entry is a list of module names, an alias, a virtual module or an exclusion; names that stand for other names end at a module. What CPython's own extension modules load from C, and what sysconfig, dbm and turtledemo load by computed name, is implied by them; os.path leads to the platform's path module, the virtual modules of typing and pyexpat to the module that provides them.",
 ["configurations", "environments"], "every platform, every Python release, every entry",
 "Tests run on one platform and one release and look at a few entries; a dropped, misspelt or wrongly shaped entry passes them.",
 ["_implies.py", "_modulegraph.py"],
 [("built-in table", "modulegraph2/_implies.py:STDLIB_IMPLIES"), ("platform updates", "modulegraph2/_implies.py:STDLIB_PLATFORM_IMPLIES"), ("use of the table", "modulegraph2/_modulegraph.py:ModuleGraph.__init__")],
 observe=["nodes and edges implied by an extension module"])

prop("C34", "An added distribution leads to everything that it provides",
 "Adding a distribution, by object or by the name of an installed one, adds that distribution as one root node and gives it a plain edge to the node of every importable name it provides, loading what is not in the graph, whatever the prior state of the graph. A distribution that is in the graph is answered with its node and nothing changes.",
 ["inputs", "histories"], "every distribution, every number of provided names, every prior graph state",
 "Tests add two small distributions to an empty graph.",
 ["_modulegraph.py"],
 [("adding a distribution", "modulegraph2/_modulegraph.py:ModuleGraph.add_distribution")],
 observe=["nodes, roots and edges after add_distribution"])

prop("C35", "Packages joined at run time lead to the module that joins them",
 "Every package in the graph that is put together at run time by pkgutil or pkg_resources (an explicit namespace package) has a plain edge to the node of that module, which is loaded when needed, however the package was reached: under its own name, as the package of another module, or through an alias. No other node gets such an edge.",
 ["inputs", "histories"], "every located package, every order in which it and pkgutil or pkg_resources are reached",
 "Tests load two such packages directly, never through an alias or after their joiner.",
 ["_modulegraph.py", "_graphbuilder.py"],
 [("hidden import", "modulegraph2/_modulegraph.py:ModuleGraph._load_module"), ("kind of package", "modulegraph2/_graphbuilder.py:node_for_spec")],
 observe=["edges of Package nodes with a namespace_type"])

prop("C90", "The graph contains every module the program imports at run time",
 "For every program, every module imported while it runs is a node reachable from its root.",
 ["programs"], "all programs and their executions", "Dynamic imports depend on run-time values.",
 ["_modulegraph.py"], [("whole builder", "modulegraph2/_modulegraph.py")], observe=["sys.modules of the finished program"])

prop("C91", "The finished graph does not depend on the order of additions",
 "Adding the same scripts, modules and distributions in any order, under any hash seed, gives the same nodes and edges.",
 ["histories", "configurations"], "all permutations of additions and all set iteration orders", "Tests fix one order and one hash seed.",
 ["_modulegraph.py"], [("work stack", "modulegraph2/_modulegraph.py")], observe=["nodes and edges"])

prop("C92", "Graphs may be built concurrently in several threads",
 "Building separate graphs in separate threads gives each the graph a single-threaded build would give.",
 ["schedules"], "all interleavings of two builds", "No test uses threads.",
 ["_modulegraph.py", "_distributions.py", "_graphbuilder.py"], [("process-wide import state", "sys.modules, sys.path, modulegraph2/_distributions.py:_cached_distributions")], observe=["nodes and edges"])

prop("C93", "Graph building time is proportional to the program analysed",
 "The time and memory needed to build a graph grow no faster than linearly with the number of modules and imports analysed.",
 ["inputs"], "all programs", "No test measures cost.",
 ["_modulegraph.py", "_distributions.py"], [("whole builder", "modulegraph2/_modulegraph.py")], observe=["time and memory"])

for p in P:
    print(json.dumps(p))
