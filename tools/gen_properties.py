"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id_, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id_, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})

D = "dessia_common/"
p("C01", "Serialization round trip loses no data",
  "For every object made of supported data (finite numbers, strings, booleans, None, sub-objects, classes, lists and string-keyed dicts of any nesting, and tuples where the argument is annotated as a tuple), writing it to a dict - with or without pointers - sending that dict through JSON text and reading it back gives an object of the same class, data-equal to the original, whose attributes have the same values, types (classes of measures too), order of elements and keys, and names (integers within 64 bits; the keys '$ref', 'object_class' and '_references' are reserved; with pointers, equal sub-objects count as one object). The written dict is plain JSON (and BSON-compatible when its keys hold no dot), and a second round trip gives the same content again.",
  ["inputs", "configurations"], "every object graph of serializable classes, nesting depth, container shape and attribute value; both pointer modes; dict, JSON text and untyped/typed attributes",
  "Tests round-trip a dozen fixed models; data loss depends on the shape (empty containers, nested sequences, non-annotated attributes, unicode, sub-objects inside dicts inside tuples).",
  [D+"serialization.py", D+"core.py", D+"utils/types.py"],
  [("serialize / serialize_with_pointers", D+"serialization.py"), ("dict_to_object / deserialize_sequence", D+"serialization.py"), ("is_jsonable, is_bson_valid", D+"utils/types.py")],
  observe=["DessiaObject.to_dict", "DessiaObject.dict_to_object"])
p("C02", "Pointers keep sharing and always resolve",
  "When an object graph is serialized with pointers, every pointer in the document resolves to one entry of that document, a sub-object used in several places (same instance or data-equal instances) is written once and comes back as one single shared object in all those places, and objects with different data never come back merged. Serializing never changes the object, and serializing again describes the same content.",
  ["inputs", "histories"], "every sharing pattern (same instance or equal instances, standalone or not, in attributes, sequences, dicts, nested objects) and any sequence of repeated serializations",
  "Tests use two or three hand-made sharing patterns; which site gets the pointer depends on traversal order, depth and class flags.",
  [D+"serialization.py", D+"utils/helpers.py"],
  [("memo / id_memo, add_references", D+"serialization.py"), ("pointer_graph, deserialization_order, dereference_jsonpointers", D+"serialization.py")],
  [("_references", "section of the document holding every shared object", D+"serialization.py")])
p("C03", "Data equality and hash obey their laws",
  "Data equality of objects is reflexive and symmetric, ignores names and excluded attributes, and is true for objects rebuilt independently from the same data; it is false as soon as one compared value anywhere in the structure differs by more than the float tolerance, has an extra or missing entry, or belongs to another class. The order in which dicts were filled does not count. Equality operators agree with data equality, and objects rebuilt from the same plain data have equal data hashes, which are the same in every process.",
  ["inputs"], "every pair of objects and every single mutation (value, length, key, order, type) at every position of the structure",
  "Tests compare a few fixed objects; a missed position (middle of a list, nested dict key, float in a tuple) is only visible when that exact leaf changes.",
  [D+"core.py", D+"utils/diff.py", D+"utils/helpers.py"],
  [("data_eq, dict_data_eq, sequence_data_eq", D+"utils/diff.py"), ("_data_hash, choose_hash", D+"core.py")])
p("C04", "Diff is empty exactly when data are equal, and locates changes",
  "The diff of two objects is empty if and only if they are data-equal. When exactly one value, key, length or type differs, the diff reports it in the right category (different value, missing on one side, different type) with a path that leads to the changed element and with both values, and the result mirrors when the arguments are swapped.",
  ["inputs"], "every pair of objects and single mutation; both argument orders",
  "Tests assert the diff of two or three hard-coded objects.",
  [D+"utils/diff.py"], [("diff, dict_diff, sequence_diff", D+"utils/diff.py")])
p("C05", "Deep copies are equal and independent, shallow copies share",
  "A deep copy of any object (including files, filters, datasets and nested containers) is data-equal to the original with the same name and the same container types, keeps sub-objects that were shared shared with each other and distinct ones distinct, and shares no mutable object with it: changing anything in one is never visible in the other. A shallow copy holds the same values as the original. Copying never alters the original.",
  ["inputs", "histories"], "every object graph, then every mutation of either side",
  "Tests check equality of a few copies; aliasing shows only when the aliased part is mutated afterwards.",
  [D+"utils/copy.py", D+"core.py", D+"files.py", D+"workflow/core.py"],
  [("deepcopy_value and friends", D+"utils/copy.py"), ("DessiaObject.__deepcopy__ / __copy__", D+"core.py")])
p("C06", "Saving to and loading from files or streams loses nothing",
  "An object saved to a JSON file or stream and loaded back is data-equal to the original whatever characters its strings contain, and files held in memory (text or binary) keep exactly their content and name when written to disk, read from disk, copied, or passed through a stream (which carries no name). Two in-memory files are equal exactly when their kind (text or binary), name and content are equal, and saving, exporting, zipping or comparing does not lose or move content.",
  ["inputs", "histories"], "every object and every text/binary content (unicode, newlines, empty, large), every sequence of write/seek/read/save/copy operations",
  "Tests save one or two ASCII objects and files.",
  [D+"core.py", D+"files.py"], [("save_to_file/stream, from_json, from_json_stream", D+"core.py"), ("StringFile, BinaryFile", D+"files.py")])
p("C07", "Deep paths read and write exactly the addressed value",
  "Reading a deep path (attribute, list index, dict key segments) on an object or on its serialized dict, following pointers, gives the very element that step-by-step access gives; writing through a path changes that element and nothing else. A path that does not exist raises an error rather than returning or creating something else.",
  ["inputs"], "every structure and every valid or invalid path in it",
  "Tests use a handful of paths of depth 1-2.",
  [D+"utils/helpers.py"], [("get_in_object_from_path, set_in_object_from_path, extract_segment_from_object", D+"utils/helpers.py")])
p("C08", "A workflow run computes exactly what its graph says",
  "Running a complete workflow gives, for every block its output needs, the outputs obtained by calling the block's function on the values delivered by its incoming pipes, user inputs, default and locked values, and the run's output is the value of the designated output. Each of these blocks is evaluated exactly once and only after everything it depends on, whatever the order in which blocks and pipes were listed; missing mandatory inputs raise an error instead of producing a result; running again gives the same.",
  ["programs", "inputs", "schedules"], "every acyclic workflow (fan-in/out, detached variables, naming, nested workflows, loops), every declaration order of blocks and pipes, every assignment of inputs",
  "Tests run some ten fixed workflows in one declaration order.",
  [D+"workflow/core.py", D+"workflow/blocks.py"],
  [("Workflow.run, WorkflowState.continue_run", D+"workflow/core.py"), ("_runtime_blocks / activable blocks", D+"workflow/core.py")],
  [("WorkflowState.values", "value of each evaluated pipe/variable", D+"workflow/core.py"), ("activated_items", "what has been evaluated", D+"workflow/core.py")])
p("C09", "Interactive execution is consistent at every point",
  "Whatever the order in which inputs are given and blocks or next available steps are evaluated, an interactive workflow state only evaluates blocks whose inputs are available, never changes a value already computed, reports a progress that never decreases and reaches 1 exactly when every block the output needs has run, and ends with the same values and output as one full run. Finished states can be turned into a run; unfinished ones cannot. Progress given to callbacks stays in [0, 1] and never decreases. A block that raises leaves the state as it was before it: its error reaches the caller, what was computed stays, and it can be evaluated again. States are independent of each other and of the dict of values they were started from.",
  ["histories", "schedules"], "every interleaving of input assignment, single-block evaluation, partial and full runs on every workflow",
  "Tests follow one order of manual evaluations.",
  [D+"workflow/core.py"], [("WorkflowState.add_input_value, block_evaluation, evaluate_next_block, continue_run, progress, to_workflow_run", D+"workflow/core.py")])
p("C10", "Workflows survive serialization and copy",
  "A workflow that is written to a dict (through JSON) and read back, or deep-copied, is equal to the original, has the same blocks, pipes, output, steps, positions, names, labels, default and locked values, documentation and description, and running it with the same inputs gives the same results. Modifying the copy never affects the original, and workflows that differ by a block's setting, a pipe, the steps, a locked value or the output are not equal, while two built the same way are. Dicts of earlier versions (locks as imposed values, no steps or texts) are read as the same workflow, and drafts are written and read back as well.",
  ["programs", "inputs"], "every workflow over every block kind and every editing history of names, defaults, locks, positions and steps",
  "Tests round-trip fixed example workflows and compare with an equality that ignores most of these fields.",
  [D+"workflow/core.py", D+"workflow/blocks.py"], [("Workflow.to_dict, dict_to_object, __deepcopy__, Block.to_dict", D+"workflow/core.py")])
p("C11", "Generated workflow scripts rebuild the workflow",
  "The Python script generated for a workflow with an output is valid Python that, executed in a fresh module, needs nothing but its own imports and builds a workflow equal to the original, with the same names, block settings, detached variables and locked plain values, that gives the same result when run with the same inputs. This includes nested workflows, loops and every built-in block that supports scripting, and the script of a run with plain inputs, which gives each input its own value.",
  ["programs"], "every workflow over the scriptable blocks, any name (quotes, unicode), any nesting",
  "Tests compare the script with stored text; they never execute most of them.",
  [D+"workflow/core.py", D+"workflow/blocks.py", D+"workflow/utils.py"], [("Workflow._to_script, ToScriptElement", D+"workflow/core.py")])
p("C12", "Workflow states and runs survive saving, copy and resume",
  "A workflow state saved at any point of its execution, or copied, and restored has the same input values, activations and progress and the computed values it still holds, and continuing it gives the same final output as the uninterrupted run (values that several pipes share are still shared). A workflow run restored from its dict is equal to the original with the same output and values; evolving a copy never changes the original.",
  ["histories", "crash_points"], "every point of every execution at which the state is saved/restored or copied",
  "Tests save one state at one point.",
  [D+"workflow/core.py"], [("WorkflowState.to_dict / dict_to_object / copy, WorkflowRun.to_dict / dict_to_object", D+"workflow/core.py")])
p("C13", "Step editing conserves workflow inputs",
  "Through any sequence of adding, inserting, removing, reordering, renaming, resetting and filling steps, groups and displays, every workflow input is in exactly one place - one step or the spare inputs - no input is lost, duplicated or invented, steps keep their order and labels, and the workflow's form presents exactly those inputs. Rejected edits leave everything unchanged, and editing steps never changes what the workflow computes.",
  ["histories"], "every editing history over every workflow",
  "Tests apply three or four edits to one workflow.",
  [D+"workflow/core.py"], [("Workflow.add_step, remove_step, add_step_input, remove_step_input, reset_steps, Step", D+"workflow/core.py")],
  [("steps, spare_inputs", "partition of workflow inputs", D+"workflow/core.py")])
p("C14", "Each built-in block does what it documents",
  "For every input, every built-in block gives the result its documentation states: instantiation, method and class-method calls, attribute reading (deep paths included) and setting, sequence building, concatenation, unpacking, flattening, cartesian product, filtering, sums and differences, string assembly, sub-workflows, loops over a list of inputs (same order and length), and exports/archives whose files hold exactly the exported content. Concatenating values of different or unsupported types and archiving what is not a file are refused. Blocks never alter input values unless documented to (setting an attribute).",
  ["inputs", "configurations"], "every block kind, arity and input value (empty lists, single elements, nested lists, None, floats)",
  "Tests evaluate a few blocks with one input each.",
  [D+"workflow/blocks.py"], [("Block.evaluate of each block class", D+"workflow/blocks.py")])
p("C15", "Workflow graph structure stays coherent",
  "For every workflow, upstream blocks, runtime blocks, input list, layout levels and graph views agree with its pipes: a block's upstream set is exactly the blocks that feed it, everything needed by the output is kept, layers never put a consumer before its producer, each node is laid out once, and indices map back to the same variable. Inputs are exactly the unconnected inputs of the blocks plus the detached variables that feed the workflow.",
  ["programs"], "every acyclic workflow graph and declaration order",
  "Tests check the layout of a few diagrams.",
  [D+"workflow/core.py", D+"graph.py"], [("Workflow.graph, layout, upstream_blocks, variable_indices, get_upstream_nbv", D+"workflow/core.py"), ("get_column_by_node, explore_tree_from_leaves", D+"graph.py")])
p("C16", "Schemas describe every typed signature faithfully",
  "For every class or method whose arguments have supported annotations, the generated schema is valid JSON that lists exactly the editable arguments in order, each with the type, form, default value and documentation found in the code, and default dicts and method dicts hold those defaults. Supported annotations written as text and read back are the same annotation (an optional one comes back without its None), and problematic definitions (missing or unsupported annotations, mutable defaults, wrong default types) are reported by the schema checks or refused.",
  ["programs", "inputs"], "every signature over the supported annotation grammar, any nesting, any default",
  "Tests check schemas of the sample classes only.",
  [D+"schemas/core.py"], [("ClassSchema, MethodSchema, get_schema, Property subclasses", D+"schemas/core.py"), ("serialize_annotation, deserialize_annotation, extract_args, parse_docstring", D+"schemas/core.py")])
p("C17", "Arguments are deserialized according to their declared type",
  "Values serialized for a method argument and deserialized against the argument's annotation come back equal to the original value with the declared type (including Union, Optional, lists, tuples, dicts of builtins, InstanceOf and nested objects), None stays None, and a value incompatible with a declared builtin type is refused rather than silently converted. Type matching of variables never accepts a type whose values are not acceptable for the other, accepts identical types, child classes, Optional and Any targets and unions that hold the type, works element by element on containers, and refuses unrelated classes.",
  ["inputs", "programs"], "every annotation/value pair of the supported grammar; every pair of types",
  "Tests check a small table of pairs.",
  [D+"serialization.py", D+"utils/types.py", D+"core.py"], [("deserialize_argument, deserialize_with_typing, dict_to_arguments", D+"serialization.py"), ("typematch, heal_type", D+"utils/types.py")])
p("C18", "Filters select exactly the matching elements",
  "Applying a filter or a list of filters combined with 'and', 'or' or (for one or two filters) 'xor' to any list of objects returns exactly the elements whose attribute values (deep paths included) satisfy the comparison(s), in their original order, with the boolean index in agreement, and never alters the list. Unknown operators are refused.",
  ["inputs"], "every list of objects, operator, bound and logical combination (including empty lists, one filter, ties)",
  "Tests filter one sample list with a few filters.",
  [D+"core.py", D+"datatools/dataset.py"], [("DessiaFilter, FiltersList", D+"core.py")])
p("C19", "Dataset operations agree with the underlying objects",
  "Whatever sequence of indexing, slicing, filtering, sorting, adding and extending is applied to a dataset, its length, elements, matrix, columns and statistics always agree with its list of objects: each matrix row holds the common attribute values of its object, sub-datasets hold exactly the selected elements in dataset order, sorting yields a sorted permutation (labels of clustered ones following), and means, deviations, covariances, distances and scalings equal their definitions. Printed rows and plotted samples are those of the elements they stand for.",
  ["histories", "inputs"], "every list of objects (mixed classes, ties, one element, empty) and every sequence of operations, cached values included",
  "Tests run each operation once on one sample; cached matrices go stale only along particular sequences.",
  [D+"datatools/dataset.py", D+"datatools/metrics.py"], [("Dataset.__getitem__, __add__, extend, sort, matrix, common_attributes", D+"datatools/dataset.py"), ("metrics functions", D+"datatools/metrics.py")],
  [("_matrix, _common_attributes", "lazily cached matrix", D+"datatools/dataset.py")])
p("C20", "Pareto fronts, clusters and samples partition correctly",
  "Pareto selection returns exactly the non-dominated elements of the given costs (the first one of equal points), successive sheets and clusters form a partition of the dataset (each element in exactly one, with labels, tags and sub-lists in agreement and in order, outliers last), cluster summaries (sizes, centroids, distances, real centroids) are those of their members (none for an empty dataset), the workbook of a clustered dataset holds each element under its cluster, and samplings hold exactly the points of their grid or stay within their bounds and constants.",
  ["inputs"], "every dataset, cost matrix (ties, duplicates, constant columns) and labelling (noise label, more than ten clusters)",
  "Tests print clusterings of one sample.",
  [D+"datatools/dataset.py", D+"datatools/cluster.py"], [("pareto_indexes, pareto_points, pareto_sheets", D+"datatools/dataset.py"), ("ClusteredDataset", D+"datatools/cluster.py")])
p("C21", "Spreadsheets describe and rebuild objects faithfully",
  "The spreadsheet exported for an object contains one row per distinct sub-object of each class with its attribute values and a path that leads to it, and links that lead to the row of the linked object. Reading such a spreadsheet (objects holding plain values, direct sub-objects and one list or dict of objects per class), or a catalog sheet, rebuilds objects of the named class with the cell values (texts stay texts, whatever they look like) and dict keys, row by row and in order, and reports missing or duplicated attributes as errors.",
  ["inputs"], "every object graph of classes with scalar, list and sub-object attributes; every catalog",
  "Tests read three stored workbooks.",
  [D+"exports.py", D+"excel_reader.py", D+"breakdown.py"], [("XLSXWriter", D+"exports.py"), ("ExcelReader", D+"excel_reader.py"), ("breakdown", D+"breakdown.py")])
p("C22", "Displays, exports and checks report instead of breaking",
  "For every object, the list of display settings (plot data, markdown and CAD views) and export formats names each decorated method once with its selector, type and options, selecting one calls exactly that method on that object, an unknown selector is refused, and an error inside a display is contained in that display's traceback while every other display stays correct. Workflow runs list their display and export blocks under distinct selectors and compute the one selected. Check lists keep every check with its level, order and message, and validity at a level is decided exactly by the checks at or above it.",
  ["inputs", "fault_sequences"], "every class with any set of decorated methods, any subset of which fails; every list of checks and level",
  "Tests look at the sample classes' selectors.",
  [D+"core.py", D+"displays.py", D+"decorators.py", D+"checks.py"], [("display_settings, _displays, _display_from_selector", D+"core.py"), ("CheckList", D+"checks.py")])
p("C23", "Optimization and numeric helpers respect bounds and units",
  "Optimizers only ever evaluate and return points inside the declared bounds, with fixed values respected and the returned objective equal to the model's objective at the returned point, and a gradient refinement never gives a worse point than the one it starts from; parameters and unit measures convert back and forth without loss (values stay within bounds, periodic values equal modulo their period). Interpolation and number helpers agree with their mathematical definition on every segment.",
  ["inputs"], "every bound, starting point, parameter range, measure and unit, number and sampling",
  "Tests run one optimization and a couple of conversions.",
  [D+"optimization.py", D+"core.py", D+"measures.py", D+"utils/algebra.py", D+"utils/interpolation.py"], [("InstantiatingModelOptimizer, DrivenModelOptimizer", D+"optimization.py"), ("Parameter", D+"core.py"), ("Measure", D+"measures.py")])
p("C24", "Text reports show the data they summarize",
  "Markdown tables and documents generated from objects, datasets and markdown text contain every row and column they are meant to show, in order, with values shortened only as documented (print and table limits) and counts of omitted rows that are right; documents built from markdown list their headings first and keep all headings with their level, paragraphs and table cells in order.",
  ["inputs"], "every object, matrix, limit and markdown text",
  "Tests only check that generation does not fail.",
  [D+"exports.py", D+"document_generator.py", D+"datatools/dataset.py"], [("MarkdownWriter", D+"exports.py"), ("DocxWriter.parse_markdown / from_markdown", D+"document_generator.py")])
p("C25", "Tree generation enumerates each valid solution once",
  "A decision-tree generator yields exactly the models of the valid leaves of its tree - every one, each once, in tree order - and never explores below an invalid node; the sorted and unique variants yield exactly the sorted or distinct valid vectors.",
  ["inputs", "programs"], "every tree shape and validity predicate",
  "Tests run one generator.",
  [D+"generation.py"], [("DecisionTreeGenerator.generate, RegularDecisionTreeGenerator.generate", D+"generation.py")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
