"""
Generator of workflows over every built-in block, with an independent reference evaluation, and a monitor of block
evaluations (each Block subclass' evaluate is wrapped at class level: real arguments and results are recorded).
"""
import copy
import functools
import zipfile
from typing import Dict, List, Tuple

from dessia_common.core import DessiaFilter
from dessia_common.files import StringFile, BinaryFile
from dessia_common.typings import MethodType, ClassMethodType, AttributeType, MarkdownType, PlotDataType, CadViewType
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Block, Pipe, Variable, Workflow

from .wfmodels import Box, Crate, plain, loose

TYPES = {"int": int, "small": int, "str": str, "ints": List[int], "strs": List[str], "box": Box, "boxes": List[Box],
         "intlists": List[List[int]], "crate": Crate, "marks": Dict[str, int], "pair": Tuple[int, int], "filename": str}
LIST_OF = {"int": "ints", "str": "strs", "box": "boxes", "ints": "intlists"}
ELEMENT_OF = {v: k for k, v in LIST_OF.items()}
NAMES = ["", "block", "My Block", "a/b", "é", "x_1", "Some long block name", "0", "it's", 'quo"te', "back\\slash", "N: 1"]


# ------------------------------------------------------------------------------------------------ evaluation monitor
class Evaluation:
    def __init__(self, block, inputs):
        self.block, self.inputs, self.outputs, self.raised = block, inputs, None, None


TRACE = []
_WRAPPED = set()


def _wrap(cls):
    original = cls.__dict__["evaluate"]

    @functools.wraps(original)
    def evaluate(self, values, *args, **kwargs):
        if type(self).evaluate is not evaluate:
            return original(self, values, *args, **kwargs)  # super() call of an already monitored evaluation
        event = Evaluation(self, [plain(values[i]) if i in values else "<absent>" for i in self.inputs])
        event.raw = [values.get(i) for i in self.inputs]
        TRACE.append(event)
        try:
            result = original(self, values, *args, **kwargs)
        except BaseException as exc:
            event.raised = exc
            raise
        event.outputs = [plain(v) for v in result]
        return result
    cls.evaluate = evaluate
    _WRAPPED.add(cls)


def install():
    """ Wrap evaluate of every block class that defines one. """
    todo = [Block]
    while todo:
        cls = todo.pop()
        todo.extend(cls.__subclasses__())
        if cls not in _WRAPPED and "evaluate" in cls.__dict__ and cls not in (Block, Workflow):
            _wrap(cls)


install()


def trace_of(workflow, start=0):
    """ Evaluations of the blocks of this very workflow, in order. """
    return [e for e in TRACE[start:] if any(e.block is b for b in workflow.blocks)]


# ------------------------------------------------------------------------------------------------------------- specs
class Node:
    """ A block, what feeds it and its reference function. """

    def __init__(self, block, kinds, outs, func, tag):
        self.block, self.kinds, self.outs, self.func, self.tag = block, kinds, outs, func, tag
        self.sources = [None] * len(kinds)      # (node, port) | Variable (nonblock) | None (free)
        self.fresh = set()                      # output ports that hold an object nobody else holds
        self.minlen = {}                        # known length of output sequences

    def __repr__(self):
        return self.tag


class WF:
    """ Generated workflow with its reference. """

    def __init__(self):
        self.nodes, self.nbvs, self.kind_of = [], [], {}
        self.given = {}       # Variable -> value the user gives
        self.effective = {}   # Variable -> value the workflow must use (given, default or locked)
        self.output = None    # (node, port)
        self.workflow = None

    def free_variables(self):
        out = []
        for node in self.nodes:
            for variable, source in zip(node.block.inputs, node.sources):
                if source is None:
                    out.append(variable)
        return out + list(self.nbvs)

    def input_values(self):
        inputs = self.workflow.inputs
        return {index_of(inputs, v): value for v, value in self.given.items()}

    def needed(self):
        """ Nodes upstream of the output. """
        seen, todo = [], [self.output[0]]
        while todo:
            node = todo.pop()
            if node in seen:
                continue
            seen.append(node)
            todo.extend(s[0] for s in node.sources if isinstance(s, tuple))
        return seen

    def node_of(self, block):
        return next(n for n in self.nodes if n.block is block)

    def reference(self, values=None, only=None):
        """ {node: (inputs, outputs)} of the nodes; `values` replaces the values of the free variables. """
        values = self.effective if values is None else values
        done = {}

        def compute(node):
            if node not in done:
                inputs = []
                for variable, source in zip(node.block.inputs, node.sources):
                    if source is None:
                        inputs.append(values[variable])
                    elif isinstance(source, tuple):
                        inputs.append(compute(source[0])[1][source[1]])
                    else:
                        inputs.append(values[source])
                done[node] = (inputs, node.func(*copy_list(inputs)))
            return done[node]
        for node in (self.nodes if only is None else only):
            compute(node)
        return done

    def run_reference(self, positional):
        """ Output for values given in the order of workflow.inputs (used for sub workflows). """
        values = dict(self.effective)
        for variable, value in zip(self.workflow.inputs, positional):
            if not variable.locked:
                values[variable] = value
        node, port = self.output
        return self.reference(values, only=[node])[node][1][port]

    def describe(self):
        lines = []
        for i, node in enumerate(self.nodes):
            sources = []
            for variable, source in zip(node.block.inputs, node.sources):
                if source is None:
                    sources.append("free" + ("!" if variable._locked else ""))
                elif isinstance(source, tuple):
                    sources.append(f"{self.nodes.index(source[0])}.{source[1]}")
                else:
                    sources.append(f"nbv{self.nbvs.index(source)}")
            lines.append(f"{node.tag}({', '.join(sources)})")
        order = [self.nodes.index(self.node_of(b)) for b in self.workflow.blocks]
        values = [(index_of(self.workflow.inputs, v), plain(x)) for v, x in self.given.items()]
        return (f"{'; '.join(lines)} -> {self.nodes.index(self.output[0])}.{self.output[1]} order={order} "
                f"pipes={[(p.input_variable.name, p.output_variable.name) for p in self.workflow.pipes]} values={values}")


def copy_list(values):
    """ Shallow: reference functions never alter their arguments. """
    return list(values)


def index_of(sequence, item):
    return next(i for i, other in enumerate(sequence) if other is item)


def set_copy(box, attribute, value):
    copied = Box(box.value, box.tags, name=box.name)
    setattr(copied, attribute, value)
    return copied


OPERATORS = {"gt": lambda a, b: a > b, "lt": lambda a, b: a < b, "ge": lambda a, b: a >= b, "le": lambda a, b: a <= b,
             "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
SYMBOLS = {"gt": ">", "lt": "<", "ge": ">=", "le": "<=", "eq": "==", "ne": "!="}


def zipped(files, name):
    """ Reference of an archive: name and entries. """
    return ("archive", name + ".zip", [(f.filename, f.getvalue()) for f in files])


def archive_view(file):
    """ What an archive really holds. """
    with zipfile.ZipFile(file) as archive:
        entries = [(i.filename, archive.read(i)) for i in archive.infolist()]
    if len({name for name, _ in entries}) < len(entries):
        return ("same names", entries)
    return entries_view(entries)


def entries_view(entries):
    """ Entries of an archive, those that had to be numbered because an earlier one has the same name as this one. """
    names = []
    for name, _ in entries:
        radical, dot, extension = name.rpartition(".") if "." in name else (name, "", "")
        first = radical.rpartition("_")[0] if radical.rpartition("_")[2].isdigit() and "_" in radical else radical
        names.append(first + dot + extension if first + dot + extension in names else name)
    return [(name, content) for name, (_, content) in zip(names, entries)]


class FileSpec:
    """ Reference of an exported file. """

    def __init__(self, text, filename, content):
        self.text, self.filename, self.content = text, filename, content


class WFGen:
    """ Random workflow generator. """

    def __init__(self, rng, files=False, displays=True, nested=1, names=NAMES, locks=True, mutate=True, scriptable=False):
        self.rng, self.nested, self.files, self.displays, self.names = rng, nested, files, displays, names
        self.locks, self.mutate, self.scriptable = locks, mutate, scriptable
        self.selectors = 0

    # ---- values
    def value(self, kind):
        rng = self.rng
        if kind == "int":
            return rng.choice([0, 1, 2, 3, 5, 7, -1, -4, 12, 100])
        if kind == "small":
            return rng.choice([0, 1, 2, 3])
        if kind == "str":
            return rng.choice(["", "a", "bc", "é", "x y", "it's", "1"])
        if kind == "filename":
            return rng.choice(["file", "out", "my_export", "é", "a b"])
        if kind in ("ints", "strs", "boxes", "intlists"):
            return [self.value(ELEMENT_OF[kind]) for _ in range(rng.choice([0, 1, 2, 3, 3]))]
        if kind == "box":
            value, tags = self.value("int"), self.value("ints")
            # data-equal objects may be merged by copies and pointers: they have equal names
            return Box(value, tags, name=["", "b1", "b2"][(value + sum(tags)) % 3])
        if kind == "crate":
            return Crate(self.value("boxes"), self.value("box"), self.value("marks"), name="c")
        if kind == "marks":
            return {rng.choice("abc"): self.value("int") for _ in range(rng.choice([0, 1, 2]))}
        if kind == "pair":
            return (self.value("int"), self.value("int"))
        raise KeyError(kind)

    def name(self):
        return self.rng.choice(self.names)

    def views(self):
        rng = self.rng
        return [rng.choice([B.ScatterView(tuple(rng.sample(["value", "name"], 2)), name=rng.choice(["", "s"])),
                            B.ParallelView(rng.sample(["value", "name"], rng.choice([1, 2])), name=rng.choice(["", "p q"]))])
                for _ in range(rng.choice([1, 2]))]

    def position(self):
        return self.rng.choice([(0, 0), (10, -20), (1.5, 2.25), (100, 200)])

    # ---- blocks
    def make(self, kind, wf):
        """ Build a node of the given kind. """
        rng = self.rng
        config = {"name": self.name(), "position": self.position()}
        if kind == "box":
            node = Node(B.InstantiateModel(Box, **config), ["int", "ints", "str"], ["box"],
                        lambda v, t, n: [Box(v, t, name=n)], "Box")
            node.fresh = {0}
            return node
        if kind == "crate":
            return Node(B.InstantiateModel(Crate, **config), ["boxes", "box", "marks", "str"], ["crate"],
                        lambda b, lid, m, n: [Crate(b, lid, m, name=n)], "Crate")
        if kind == "build":
            node = Node(B.ClassMethod(ClassMethodType(Box, "build"), **config), ["int", "int", "str"], ["box"],
                        lambda b, s, n: [Box(b - s, [b, s], name=n)], "build")
            node.fresh = {0}
            return node
        if kind == "describe":
            return Node(B.ClassMethod(ClassMethodType(Box, "describe"), **config), ["int", "str"], ["str"],
                        lambda b, p: [f"{p}{b}"], "describe")
        if kind == "pack":
            node = Node(B.ClassMethod(ClassMethodType(Box, "pack"), **config), ["int", "int"], ["pair"],
                        lambda a, b: [(a, b)], "pack")
            node.minlen = {0: 2}
            return node
        if kind == "method":
            method = rng.choice(["double", "scaled", "reported", "spread", "split"])
            block = B.ModelMethod(MethodType(Box, method), **config)
            if method == "double":
                return Node(block, ["box"], ["int", "box"], lambda b: [2 * b.value, b], method)
            if method == "scaled":
                node = Node(block, ["box", "int", "int"], ["box", "box"],
                            lambda b, f, o: [Box(b.value * f + o, b.tags + [o], name=b.name), b], method)
                node.fresh = {0}
                return node
            if method == "split":
                return Node(block, ["box", "small"], ["boxes", "box"],
                            lambda b, c: [[Box(b.value + 10 * i, name=f"{b.name}/{i}") for i in range(c)], b], method)
            return Node(block, ["box", "small"], ["ints", "box"],
                        lambda b, c: [[b.value + i for i in range(c)], b], method)
        if kind == "crate_method":
            method = rng.choice(["total", "values"])
            block = B.ModelMethod(MethodType(Crate, method), **config)
            if method == "total":
                return Node(block, ["crate"], ["int", "crate"], lambda c: [sum(b.value for b in c.boxes), c], method)
            return Node(block, ["crate"], ["ints", "crate"], lambda c: [[b.value for b in c.boxes], c], method)
        if kind == "sequence":
            element = rng.choice(list(LIST_OF))
            count = rng.choice([1, 2, 3, 4])
            node = Node(B.Sequence(count, **config), [element] * count, [LIST_OF[element]],
                        lambda *v: [list(v)], f"Sequence{count}:{element}")
            node.minlen = {0: count}
            return node
        if kind == "concatenate":
            element = rng.choice(["ints", "boxes", "strs", "intlists"])
            count = rng.choice([1, 2, 2, 3])
            return Node(B.Concatenate(count, **config), [element] * count, [element],
                        lambda *v: [[x for sub in v for x in sub]], f"Concatenate{count}:{element}")
        if kind == "unpacker":
            candidates = [(n, p) for n in wf.nodes for p in n.minlen if n.minlen[p]]
            if not candidates:
                return None
            source = rng.choice(candidates)
            length = source[0].minlen[source[1]]
            indices = [rng.randrange(-length, length) for _ in range(rng.choice([1, 2, 3]))]
            element = "int" if source[0].outs[source[1]] == "pair" else ELEMENT_OF[source[0].outs[source[1]]]
            node = Node(B.Unpacker(indices, **config), ["any"], [element] * len(indices),
                        lambda v: [v[i] for i in indices], f"Unpacker{indices}")
            node.sources[0] = source
            return node
        if kind == "flatten":
            return Node(B.Flatten(**config), ["intlists"], ["ints"], lambda v: [[x for s in v for x in s]], "Flatten")
        if kind == "product":
            count = rng.choice([1, 2, 2])
            kinds = [rng.choice(["ints", "strs"]) for _ in range(count)]

            def product(*lists):
                out = [()]
                for sub in lists:
                    out = [o + (x,) for o in out for x in sub]
                return [out]
            return Node(B.Product(count, **config), kinds, ["tuples"], product, f"Product{count}")
        if kind == "filter":
            count = rng.choice([1, 1, 2])
            settings = [(rng.choice(list(OPERATORS)), self.value("int")) for _ in range(count)]
            logical = rng.choice(["and", "or"])
            filters = [DessiaFilter("value", op, bound) for op, bound in settings]
            combine = all if logical == "and" else any

            def apply(boxes):
                return [[b for b in boxes if combine(OPERATORS[op](b.value, bound) for op, bound in settings)]]
            return Node(B.Filter(filters, logical, **config), ["boxes"], ["boxes"], apply, f"Filter{settings}{logical}")
        if kind == "attribute":
            owner, path, out, getter = rng.choice([
                ("box", "value", "int", lambda b: b.value), ("box", "tags", "ints", lambda b: b.tags),
                ("box", "name", "str", lambda b: b.name), ("crate", "boxes", "boxes", lambda c: c.boxes),
                ("crate", "lid", "box", lambda c: c.lid), ("crate", "lid/value", "int", lambda c: c.lid.value),
                ("crate", "lid/tags", "ints", lambda c: c.lid.tags), ("crate", "marks", "marks", lambda c: c.marks)])
            if "/" in path or rng.random() < .5:
                block = B.ModelAttribute(path, **config)
            else:
                block = B.GetModelAttribute(AttributeType(TYPES[owner], path), **config)
            return Node(block, [owner], [out], lambda o: [getter(o)], f"{type(block).__name__}:{path}")
        if kind == "set":
            candidates = [(n, p) for n in wf.nodes for p in n.fresh
                          if not any(isinstance(s, tuple) and s == (n, p) for o in wf.nodes for s in o.sources)]
            if not candidates or not self.mutate:
                return None
            attribute, kind_in = rng.choice([("value", "int"), ("tags", "ints")])
            source = rng.choice(candidates)
            node = Node(B.SetModelAttribute(AttributeType(Box, attribute), **config), ["box", kind_in], ["box"],
                        lambda b, v: [set_copy(b, attribute, v)], f"Set:{attribute}")
            source[0].fresh.discard(source[1])
            source[0].taken = getattr(source[0], "taken", set()) | {source[1]}
            node.sources[0] = source
            return node
        if kind == "sum":
            count = rng.choice([1, 2, 3])
            return Node(B.Sum(count, **config), ["int"] * count, ["int"], lambda *v: [sum(v)], f"Sum{count}")
        if kind == "substraction":
            return Node(B.Substraction(**config), ["int", "int"], ["int"], lambda a, b: [a - b], "Substraction")
        if kind == "strings":
            count = rng.choice([1, 2, 3])
            separator = rng.choice(["", "-", ", ", "'", "\n", "é"])
            return Node(B.ConcatenateStrings(count, separator, **config), ["str"] * count, ["str"],
                        lambda *v: [separator.join(v)], f"Strings{count}")
        if kind == "export":
            text = rng.random() < .5
            filename, extension = self.value("filename"), rng.choice(["txt", "bin"])
            block = B.Export(MethodType(Box, "save_note" if text else "save_blob"), text, extension, filename=filename,
                             **config)

            def export(box, name):
                file = (StringFile if text else BinaryFile)(f"{name}.{extension}")
                if text:
                    file.write(f"note {box.value} {box.tags} {box.name}\nend")
                else:
                    file.write(bytes([box.value % 256]) * 3 + b"\x00\xff" + repr(box.tags).encode())
                return [file]
            return Node(block, ["box", "filename"], ["file"], export, f"Export{text}")
        if kind == "archive":
            files = [(n, p) for n in wf.nodes for p, k in enumerate(n.outs) if k == "file"]
            if not files:
                return None
            count = rng.choice([1, 2])
            node = Node(B.Archive(count, self.value("filename"), **config), ["file"] * count + ["filename"], ["archive"],
                        lambda *v: [zipped(v[:-1], v[-1])], f"Archive{count}")
            for i in range(count):
                node.sources[i] = rng.choice(files)
            return node
        if kind == "display":
            self.selectors += 1
            block, kind_in = rng.choice([
                (B.Markdown(MarkdownType(Box, "Note"), load_by_default=rng.random() < .5, **config), "box"),
                (B.PlotData(PlotDataType(Box, "Chart"), load_by_default=rng.random() < .5, **config), "box"),
                (B.CadView(CadViewType(Box, "Shape"), load_by_default=rng.random() < .5, **config), "box"),
                (B.MultiPlot(f"Multi {self.selectors}", ["value", "name"], load_by_default=rng.random() < .5,
                             **config), "boxes"),
                (B.MultiObject(f"Multi {self.selectors}", self.views(), load_by_default=rng.random() < .5,
                               **config), "boxes")])
            return Node(block, [kind_in], ["display"], lambda b: ["<display>"], type(block).__name__)
        if kind in ("workflow", "foreach"):
            sub = WFGen(rng, displays=False, nested=self.nested - 1, names=self.names, locks=False,
                        mutate=False, scriptable=self.scriptable).generate(rng.choice([1, 2, 3]))
            kinds = [sub.kind_of[v] for v in sub.workflow.inputs]
            out = sub.output[0].outs[sub.output[1]]
            if not kinds:
                return None
            wblock = B.WorkflowBlock(sub.workflow, **config)
            if kind == "workflow":
                node = Node(wblock, kinds, [out], lambda *v: [sub.run_reference(v)], f"WorkflowBlock[{sub.describe()}]")
            else:
                iterable = [i for i, k in enumerate(kinds) if k in LIST_OF]
                if not iterable:
                    return None
                index = rng.choice(iterable)
                block = B.ForEach(wblock, index, name=self.name(), position=self.position())
                kinds = list(kinds)
                kinds[index] = LIST_OF[kinds[index]]

                def loop(*values):
                    return [[sub.run_reference(values[:index] + (x,) + values[index + 1:]) for x in values[index]]]
                node = Node(block, kinds, [LIST_OF.get(out, "any")], loop, f"ForEach{index}[{sub.describe()}]")
            node.sub = sub
            return node
        raise KeyError(kind)

    KINDS = ["box", "box", "crate", "build", "describe", "pack", "method", "method", "crate_method", "sequence",
             "concatenate", "unpacker", "flatten", "product", "filter", "attribute", "attribute", "set", "sum",
             "substraction", "strings"]

    CHAINED = ["box", "build", "method", "method", "sequence", "unpacker", "attribute", "attribute", "sum", "substraction",
               "describe", "strings"]

    def generate(self, count, shuffle=True, chain=False):
        """ With chain, every block is fed by the one made just before. """
        rng = self.rng
        wf = WF()
        kinds = list(self.CHAINED) if chain else list(self.KINDS) + (["workflow", "foreach"] * 2 if self.nested > 0 else []) \
            + (["export", "export", "archive"] if self.files else []) + (["display"] * 2 if self.displays else [])
        pipes = []
        tries = 0
        while len(wf.nodes) < count and tries < 60 + 10 * count:
            tries += 1
            kind = rng.choice(kinds)
            if kind == "product" and any(n.tag.startswith("Product") for n in wf.nodes):
                continue
            node = self.make(kind, wf)
            if node is None:
                continue
            if kind == "display" and not self.connect_display(wf, node):
                continue
            shared = len(wf.nbvs)
            for i, kind_in in enumerate(node.kinds):
                if node.sources[i] is None:
                    node.sources[i] = self.choose_source(wf, kind_in, node, i, chain)
            if chain and wf.nodes and not any(isinstance(s, tuple) and s[0] is wf.nodes[-1] for s in node.sources):
                del wf.nbvs[shared:]
                continue
            wf.nodes.append(node)
            self.configure(wf, node)
        outputs = [(n, p) for n in wf.nodes for p, k in enumerate(n.outs)
                   if k not in ("display",) and p not in getattr(n, "taken", set())]
        # favour late outputs so that most blocks are needed
        wf.output = rng.choice(outputs[-3:] if rng.random() < .7 or chain else outputs) if outputs else None
        if wf.output is None:
            return self.generate(count, shuffle, chain)
        for node in wf.nodes:
            for variable, source in zip(node.block.inputs, node.sources):
                if isinstance(source, tuple):
                    pipes.append(Pipe(source[0].block.outputs[source[1]], variable))
                elif source is not None:
                    pipes.append(Pipe(source, variable))
        blocks = [n.block for n in wf.nodes]
        if shuffle:
            rng.shuffle(blocks)
            rng.shuffle(pipes)
        wf.workflow = Workflow(blocks, pipes, output=wf.output[0].block.outputs[wf.output[1]], name=self.name(),
                               description=rng.choice(["", "a description"]),
                               documentation=rng.choice(["", "some *doc*\nwith lines", "a \"quoted\" \\ text"]))
        self.choose_values(wf)
        return wf

    def connect_display(self, wf, node):
        sources = [(n, p) for n in wf.nodes for p, k in enumerate(n.outs)
                   if k == node.kinds[0] and p not in getattr(n, "taken", set())]
        if not sources:
            return False
        node.sources[0] = self.rng.choice(sources)
        return True

    def choose_source(self, wf, kind, node, index, chain=False):
        rng = self.rng
        sources = [(n, p) for n in wf.nodes for p, k in enumerate(n.outs)
                   if k == kind and p not in getattr(n, "taken", set())]
        if kind == "filename":
            sources = []
        if kind == "small":
            sources = []
        if sources and rng.random() < .75:
            source = sources[-1] if chain and not any(isinstance(s, tuple) for s in node.sources) else rng.choice(sources)
            source[0].fresh.discard(source[1])
            return source
        if kind == "file":
            return rng.choice(sources)
        if rng.random() < .25:
            known = [v for v in wf.nbvs if wf.kind_of[v] == kind]
            if known and rng.random() < .6:
                return rng.choice(known)
            variable = Variable(type_=TYPES.get(kind), name=rng.choice(["shared", "v", "nbv name", "é"]),
                                label=rng.choice(["", "label"]), position=self.position())
            wf.nbvs.append(variable)
            wf.kind_of[variable] = kind
            return variable
        return None

    def configure(self, wf, node):
        for variable, kind, source in zip(node.block.inputs, node.kinds, node.sources):
            wf.kind_of[variable] = kind if source is None else wf.kind_of.get(variable, kind)
            if source is None and self.rng.random() < .15:
                variable.label = self.rng.choice(["Label", "é label", "a 'b'"])

    def choose_values(self, wf):
        """ Decide what the user gives, what is left to defaults, what is locked. """
        rng = self.rng
        for variable in wf.free_variables():
            kind = wf.kind_of[variable]
            signature_default = variable.has_default_value
            needs_value = kind in ("box", "small") or (kind == "ints" and variable.default_value is None)
            r = rng.random()
            if self.locks and r < .08:
                value = self.value(kind)
                variable.lock(value)
                wf.effective[variable] = value
                if rng.random() < .5:
                    wf.given[variable] = self.value(kind)  # must be ignored
            elif self.locks and r < .16:
                value = self.value(kind)
                variable.default_value = value
                wf.effective[variable] = value
                if rng.random() < .5:
                    wf.given[variable] = wf.effective[variable] = self.value(kind)
            elif signature_default and r < .5 and not (needs_value and variable.default_value is None):
                wf.effective[variable] = variable.default_value
            else:
                value = self.value(kind)
                wf.given[variable] = wf.effective[variable] = value
