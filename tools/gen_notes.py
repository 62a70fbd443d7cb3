"""Source of /verif/tools/notes.json: per property, the deciding monitor, its oracle, its bounds (run by hand; output committed)."""
import json, os
N = {}
def note(pid, technique, oracle, reach, bounds):
    N[pid] = {"technique": "runtime monitoring: " + technique, "oracle": oracle, "reach": reach, "bounds": bounds,
              "level_note": f"Held on every generated case of the run (seeded; counts in the evidence file). Oracle: {oracle} Bounds: {bounds}"}
note("C01", "round trips of generated object graphs watched by a strict independent view",
     "strict structural view of the live objects (class, name, value, type, order of every attribute), written without dessia_common; "
     "json.loads/dumps of the standard library for plainness; a hand-written BSON check.",
     "graphs, containers, texts and numbers are drawn, so None entries, empty containers, deep nesting, namesake classes, keyword-only "
     "arguments and numeric limits meet in combinations no test lists",
     "graphs of depth <= 6 and some hundreds of nodes; two input classes that no fix covers are listed as known findings")
N["C01"]["reach"] += '; measures of every class with equal values, dicts in any key order'
note("C02", "pointer documents checked by an independent JSON-pointer resolver and an identity map of the rebuilt graph",
     "resolver that walks the JSON text; sharing compared as a partition of positions (identity before or data equality -> identity after).",
     "sharing between lists, dicts, tuples, custom serializations, twins that are equal but distinct, cycles of references between siblings",
     "acyclic object graphs (the library does not support cycles)")
N["C02"]["reach"] += '; documents edited afterwards, pointers that go through other pointers, near twins that differ by one value'
note("C03", "algebraic-law monitors over pairs and triples of generated objects, one controlled change at a time, hash computed in other processes",
     "the change made by the generator decides whether the two objects have the same data; hashes recomputed in sub-processes with other hash seeds.",
     "changes are made at random positions of random structures and at both sides of the float tolerance",
     "float tolerance cases stay clear of the last bit of the limit")
N["C03"]["reach"] += '; dicts filled in another order, a second process with another hash seed'
note("C04", "diff outputs checked against the change made by the generator, both directions",
     "the generator knows the position, kind and values of the single change; equality oracle of C03.",
     "every kind of change at every kind of position, falsy and None values included", "one change per pair for localisation, any number for emptiness")
N["C04"]["reach"] += '; pairs of large or close numbers on both sides of the tolerance'
note("C05", "aliasing monitor: identity sets of every mutable object reachable from original and copy; views before and after mutation",
     "object identity (id) of the interpreter and strict views.",
     "sharing, private attributes, files with moved positions, redefined classes of the same name",
     "graphs of depth <= 5")
N["C05"]["reach"] += '; classes redefined under the same name, classes with a copy of their own, key order'
note("C06", "files and streams written and read in a scratch directory, contents and positions watched",
     "bytes on disk read with the standard library; zipfile; position of the stream before and after.",
     "texts with any unicode (surrogates, newlines of each kind), binary contents, long contents, moved positions, archives with equal names",
     "contents up to some hundred kB")
N["C06"]["reach"] += '; byte order marks, windows newlines in archives, key order of saved dicts'
note("C07", "reads and writes through paths compared with step-by-step access, whole-object view before and after a write",
     "plain Python access (getattr, indexing) following the generated path; complete views for 'nothing else changed'.",
     "all paths of random graphs, integer-like keys, negative and out-of-range indices, pointer documents", "paths of <= 8 segments")
note("C08", "trace monitor of instrumented user functions in generated workflows, reference evaluator",
     "independent evaluator of the workflow description (plain Python functions in topological order); trace of calls for exactly-once and order.",
     "random DAGs with nested workflows, loops, detached, default and locked values, listed in any order; long chains and dense wirings",
     "up to some 60 blocks; functions deterministic")
N["C08"]["reach"] += '; runs of the platform from serialized arguments and again, a block that fails, locked inputs'
note("C09", "online monitor of interactive states: a model of available/evaluated blocks advanced action by action",
     "model of availability and reference evaluator; monotony of progress; trace of calls.",
     "random interleavings of giving inputs, evaluating one block, the next ones, a bounded number or all, also on almost finished states",
     "histories of some tens of actions")
N["C09"]["reach"] += '; failing blocks, progress callbacks, values of any type (None, falsy, objects), several states and runs from one dict of values'
note("C10", "written, read back and copied workflows compared element by element with the original, then run and modified",
     "independent description (wfdesc) of blocks, settings, pipes, steps, labels, positions, values; reference evaluator for runs.",
     "every block kind with every setting; falsy defaults; namesake variables; steps with displays", "same workflows as C08")
N["C10"]["reach"] += '; block settings changed one at a time, dicts of earlier versions (imposed values, old display settings), drafts without output'
note("C11", "generated scripts executed in a fresh module and compared with the original workflow",
     "Python compiler and an empty namespace; description of C10; reference evaluator.",
     "nested workflows, loops, names and documentation with quotes, newlines and unicode; scripts of runs", "plain locked values and inputs")
note("C12", "states saved, copied and restored at every point of generated executions, then resumed next to the original",
     "strict view of inputs, activations, values; uninterrupted run as reference; view of the original before and after.",
     "every prefix of an execution is a save point; falsy outputs, None, objects, files", "JSON-serializable inputs and outputs")
N["C12"]["reach"] += '; values shared between pipes, runs with files, restored states compared by what they can still reach'
note("C13", "online model of step editing: partition of inputs, order and labels checked after each edit of a random history, form compared",
     "partition model updated from the documented meaning of each edit; reference evaluator for displays and unchanged results.",
     "random histories with rejected edits in between", "histories of <= 25 edits")
note("C14", "each block evaluated on generated inputs, inputs viewed before and after",
     "one-line Python definition of each block; zip and file readers of the standard library for exports.",
     "sizes from empty to many, falsy and nested values, wrong types", "block settings that the constructors accept")
N["C14"]["reach"] += '; values handed to sub workflows, None for inputs that have a default'
note("C15", "graph views compared with a model computed from the pipes alone",
     "networkx-free recomputation of upstream sets, needed blocks, longest-path levels and inputs from the generated description.",
     "random DAGs, several components, parallel pipes, dense wirings (time bound: exponential algorithms hang and are reported)", "up to 60 blocks")
N["C15"]["reach"] += '; packages and imports of displays, upstream branches and layouts of several components'
note("C16", "schemas of generated classes and methods compared with the signature they come from; annotations written and read back",
     "the generator builds the signature, so expected keys, types, forms, defaults and documentation are known; typing objects compared by ==.",
     "nested annotations, unions, literals with any text, default values of every kind, documented in any order, problematic definitions",
     "annotations nested <= 3 levels")
N["C16"]["reach"] += '; parts of annotations that cannot be edited'
note("C17", "arguments of generated methods serialized, sent through JSON and deserialized; type matching checked against value semantics",
     "strict views of values; 'a match implies every sample value of the first type is accepted by the second' by sampling values.",
     "random signatures and values, redefined classes of the same name, values of the wrong kind at any depth", "sampled values per type")
note("C18", "filters applied to generated objects and datasets, list viewed before and after",
     "list comprehension with the operators of the standard library.", "all operators, deep paths, empty lists, several filters, changed filters", "finite values")
note("C19", "histories of dataset operations followed by a list model, statistics recomputed",
     "plain Python lists and textbook formulas (exact fractions or fsum where precision matters).",
     "large offsets, one element, empty, boolean and slice indices with steps, heterogeneous objects", "datasets of <= 200 elements")
N["C19"]["reach"] += '; objects without vector features, few features, features of mixed classes in the order of the objects'
note("C20", "partition monitors over Pareto, cluster and sampling results", "brute-force dominance (O(n^2)); multiset comparison; itertools.product for grids.",
     "ties, duplicates, one or many costs, non-contiguous labels, outliers", "datasets of <= 150 elements; pyDOE2 is absent here and replaced by a stand-in sampler")
N["C20"]["reach"] += '; frontiers, outputs of clusterings, almost equal costs'
note("C21", "exported workbooks read with openpyxl and compared cell by cell with the object graph; read back",
     "openpyxl and an independent walk of the object graph; links followed to rows.",
     "shared and equal sub-objects, containers, names, attribute names that look like container names", "supported shapes named in the statement")
N["C21"]["reach"] += '; large and tiny numbers, texts that look like literals or formulas, keys with dots and blanks, long dicts'
note("C22", "displays, exports and check lists of generated classes called under a recorder of calls",
     "recorder in the generated methods (called once, on that object); model of decorators; level arithmetic for check lists.",
     "failing displays among good ones, inherited decorators, workflow branches outside the main one, restored runs", "user methods are generated")
N["C22"]["reach"] += '; platform faults, branches, documents of workflows, solids drawn with a stand-in CAD kernel, validity of documents at each level'
note("C23", "optimizers run on recorded objective functions; conversions and interpolation compared with definitions",
     "trace of every evaluated point checked against bounds; exact rational arithmetic or definitions for helpers.",
     "fixed attributes, tiny and zero-width intervals, periods, decreasing and flat segments", "small iteration budgets for CMA")
note("C24", "markdown and docx read back by an independent parser", "cell-by-cell comparison with the values, python-docx reader.",
     "limits around their thresholds, empty cells, headings of every level, unicode", "tables of <= 60 rows")
N["C24"]["reach"] += '; long lists of several classes, styles, nested headings up to the ninth level'
note("C25", "generated validity predicates, trace of visited nodes", "brute-force enumeration with itertools.", "random trees, also with one-valued levels", "<= 5 levels, <= 4 choices")
N["C25"]["reach"] += '; trees with measured sizes, choices whose validity depends on their order'
json.dump(N, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.json"), "w"), indent=1)
