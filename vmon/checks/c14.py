""" C14: each built-in block does what it documents. """
import copy
import json
from typing import List, Optional

from dessia_common.core import DessiaFilter, DessiaObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.typings import AttributeType, CadViewType, ClassMethodType, MarkdownType, MethodType, PlotDataType
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Pipe, Workflow

from vmon.core import scenario
from vmon import wfmodels
from vmon.wfgen import WFGen, archive_view, OPERATORS
from vmon.wfmodels import Box, Crate, plain

POSITION = (1, 2)


class Bag:
    """ Something else than a list that can be extended. """

    def __init__(self, items=()):
        self.items = list(items)

    def extend(self, other):
        self.items.extend(other.items)


class BagList(list):
    """ A list of another class. """


def anything(rng, depth=2):
    """ A value of any kind. """
    kind = rng.choice(["int", "float", "str", "none", "bool", "box", "list", "tuple", "dict", "crate"])
    if kind in ("list", "tuple", "dict") and not depth:
        kind = "float"
    if kind == "int":
        return rng.choice([0, -1, 7, 10 ** 20])
    if kind == "float":
        return rng.choice([0.0, -1.5, 1e-300, float("inf"), 0.1])
    if kind == "str":
        return rng.choice(["", "é", "text\n"])
    if kind == "none":
        return None
    if kind == "bool":
        return rng.random() < .5
    if kind == "box":
        return Box(rng.choice([0, 1, 2]), [1], name="b")
    if kind == "crate":
        return Crate([Box(1), Box(2)], Box(3, [4]), {"m": 1})
    items = [anything(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    return items if kind == "list" else tuple(items) if kind == "tuple" else {f"k{i}": v for i, v in enumerate(items)}


def seq(rng, make, sizes=(0, 1, 2, 3, 5)):
    return [make() for _ in range(rng.choice(sizes))]


def evaluate(rng, m, block, values, keep=True):
    """ Results of the block for the values of its inputs, evaluated alone or by a run of a workflow around it. """
    before = plain(list(values))
    m.case(f"{type(block).__name__} {before!r}")
    m.ev("block:" + type(block).__name__)
    if rng.random() < .5 or isinstance(block, B.Display):
        m.ev("way:evaluate")
        results = m.call("evaluate", block.evaluate, dict(zip(block.inputs, values)))
    else:
        m.ev("way:run")
        results = []
        for output in block.outputs:
            workflow = Workflow([block], [], output)
            order = list(range(len(values)))
            rng.shuffle(order)
            indices = [next(i for i, v in enumerate(workflow.inputs) if v is variable) for variable in block.inputs]
            results.append(m.call("run", workflow.run, {indices[i]: values[i] for i in order}).output_value)
            if not keep:
                break
    m.check(isinstance(results, list) and (not keep or len(results) == len(block.outputs)), "one-result-per-output")
    if keep:
        m.same(plain(list(values)), before, "inputs-unaltered", type(block).__name__)
    return results


def identical(m, got, expected, kind):
    """ Same elements: same objects, same order, same container class. """
    m.check(type(got) is type(expected) and len(got) == len(expected), kind + "-shape", "", plain(got), plain(expected))
    for one, other in zip(got, expected):
        if isinstance(other, tuple) and kind == "product":
            identical(m, one, other, "product-element")
        else:
            m.check(one is other, kind + "-element", "", plain(one), plain(other))


@scenario("C14", 3000, 60000, rule="sequence, concatenation, unpacking, flattening, product of any arity over any values: same objects, order "
                                   "and count; alone or in a run")
def containers(rng, m):
    kind = rng.choice(["sequence", "concatenate", "unpacker", "flatten", "product"])
    make = lambda: anything(rng)
    if kind == "sequence":
        values = seq(rng, make, (1, 2, 3, 4, 12))
        result = evaluate(rng, m, B.Sequence(len(values), position=POSITION), values)[0]
        return identical(m, result, list(values), kind)
    if kind == "concatenate":
        count = rng.choice([1, 2, 2, 3, 4, 11])
        values = [seq(rng, make) for _ in range(count)]
        if rng.random() < .15:
            values[rng.randrange(count)] = values[0]  # the same list several times
        expected = [x for v in values for x in v]
        shape = rng.choice(["list", "list", "list", "bag", "subclass", "mixed", "refused"])
        block = B.Concatenate(count)
        if shape == "mixed" and count > 1:
            values[rng.randrange(count)] = rng.choice([(1,), "a", {}, 3, None])
            if len({type(v) for v in values}) > 1:
                m.case(f"mixed {plain(values)!r}")
                return m.refuses("mixed-concatenation", block.evaluate, dict(zip(block.inputs, values)), errors=(TypeError,))
            return None
        if shape == "refused":
            values = [rng.choice([(1,), (2, 3)]) for _ in range(count)]
            m.case(f"refused {plain(values)!r}")
            return m.refuses("concatenation-of-fixed", block.evaluate, dict(zip(block.inputs, values)), errors=(ValueError,))
        if shape == "bag":
            bags = [Bag(v) for v in values]
            result = m.call("evaluate", block.evaluate, dict(zip(block.inputs, bags)))[0]
            m.check(isinstance(result, Bag) and not any(result is b for b in bags), "bag")
            identical(m, result.items, expected, kind)
            for bag, value in zip(bags, values):
                identical(m, bag.items, value, "inputs-unaltered")
            return None
        if shape == "subclass":
            values = [BagList(v) for v in values]
            expected = BagList(expected)
        result = evaluate(rng, m, block, values)[0]
        return identical(m, result, expected, kind)
    if kind == "unpacker":
        value = seq(rng, make, (1, 2, 5))
        value = tuple(value) if rng.random() < .3 else value
        indices = [rng.randrange(-len(value), len(value)) for _ in range(rng.choice([1, 2, 3, 6]))]
        block = B.Unpacker(indices)
        result = evaluate(rng, m, block, [value])
        m.check(len(block.outputs) == len(indices), "unpacker-outputs")
        m.check(len(result) == len(indices), "unpacker-count")
        for one, index in zip(result, indices):
            m.check(one is value[index], "unpacker-element", f"{index}", plain(one), plain(value))
        outside = rng.choice([len(value), -len(value) - 1])
        other = B.Unpacker([0, outside])
        return m.refuses("unpacker-outside", other.evaluate, {other.inputs[0]: value}, errors=(IndexError,))
    if kind == "flatten":
        value = [tuple(seq(rng, make)) if rng.random() < .3 else seq(rng, make) for _ in range(rng.choice([0, 1, 2, 4]))]
        expected = [x for sub in value for x in sub]
        return identical(m, evaluate(rng, m, B.Flatten(), [value])[0], expected, kind)
    count = rng.choice([1, 2, 2, 3, 4])
    values = [seq(rng, make, (0, 1, 2, 3) if count < 4 else (1, 2)) for _ in range(count)]
    expected = [()]
    for value in values:
        expected = [e + (x,) for e in expected for x in value]
    return identical(m, evaluate(rng, m, B.Product(count), values)[0], expected, "product")


@scenario("C14", 1500, 30000, rule="sums, differences, string assembly over numbers, floats and texts, any arity")
def arithmetic(rng, m):
    number = lambda: rng.choice([0, 1, -3, 2.5, -0.1, 1e16, 10 ** 18, True, 1 / 3, 3 + 2j])
    kind = rng.choice(["sum", "difference", "strings"])
    if kind == "sum":
        values = [number() for _ in range(rng.choice([1, 2, 2, 3, 7, 12]))]
        expected = 0
        for value in values:
            expected = expected + value
        got = evaluate(rng, m, B.Sum(len(values)), values)[0]
        m.check(abs(got - expected) <= 1e-9 * max(abs(v) for v in values) + 1e-12, "sum", "", got, expected)
        if all(isinstance(v, int) for v in values):
            m.check(got == expected and isinstance(got, int), "integer-sum", "", got, expected)
    elif kind == "difference":
        first, second = number(), number()
        m.same(evaluate(rng, m, B.Substraction(), [first, second])[0], first - second, "difference")
    else:
        values = [rng.choice(["", "a", "é", "\n", "two words", "1"]) for _ in range(rng.choice([1, 2, 2, 3, 7, 12]))]
        separator = rng.choice(["", "-", ", ", "\n", "%s", "{}"])
        expected = values[0]
        for value in values[1:]:
            expected += separator + value
        m.same(evaluate(rng, m, B.ConcatenateStrings(len(values), separator), values)[0], expected, "strings")


@scenario("C14", 1500, 30000, rule="filters of any attribute, operator, bound and logical operator: exactly the matching elements, in order")
def filtering(rng, m):
    boxes = [Box(rng.choice([-2, -1, 0, 0, 1, 2, 2.5, 3]), [rng.choice([0, 1])], name=rng.choice("ab"))
             for _ in range(rng.choice([0, 1, 2, 5, 9]))]
    crates = [Crate([b], b, {}) for b in boxes]
    deep = rng.random() < .4
    path = rng.choice(["lid/value", "lid/tags/0"]) if deep else rng.choice(["value", "tags/0"])
    read = {"lid/value": lambda c: c.lid.value, "lid/tags/0": lambda c: c.lid.tags[0], "value": lambda b: b.value,
            "tags/0": lambda b: b.tags[0]}[path]
    settings = [(rng.choice(list(OPERATORS)), rng.choice([-1, 0, 1, 2, 2.5])) for _ in range(rng.choice([1, 1, 2, 3]))]
    logical = rng.choice(["and", "or", "xor"])
    filters = [DessiaFilter(path, op, bound) for op, bound in settings]
    objects = crates if deep else boxes
    matches = [[OPERATORS[op](read(o), bound) for op, bound in settings] for o in objects]
    keep = {"and": all, "or": any, "xor": lambda flags: sum(flags) == 1}[logical]
    expected = [o for o, flags in zip(objects, matches) if keep(flags)]
    if logical == "xor":
        return  # decided by C18
    result = evaluate(rng, m, B.Filter(filters, logical), [objects])[0]
    m.check(len(result) == len(expected) and all(a is b for a, b in zip(result, expected)), "filtered",
            f"{settings} {logical} {path}", plain(result), plain(expected))


@scenario("C14", 1500, 30000, rule="instantiation, method, class method, static method, attribute reading and setting: called once with the "
                                   "given arguments, by name, same results as a direct call")
def calls(rng, m):
    kind = rng.choice(["box", "crate", "method", "class", "static", "get", "path", "set"])
    integer = lambda: rng.choice([0, 1, -2, 5, 2.5])
    if kind == "box":
        values = [integer(), rng.choice([None, [], [1, 2]]), rng.choice(["", "é"])]
        result = evaluate(rng, m, B.InstantiateModel(Box), values)[0]
        m.check(type(result) is Box and result.value is values[0], "instance")
        m.same(plain(result), plain(Box(values[0], values[1], name=values[2])), "instance-data")
        if values[1]:
            m.check(result.tags is values[1], "argument-passed-as-is")
        return
    if kind == "crate":
        boxes = [Box(1), Box(2)]
        values = [boxes, rng.choice([None, boxes[0]]), rng.choice([None, {"a": 1}]), "n"]
        result = evaluate(rng, m, B.InstantiateModel(Crate), values)[0]
        m.check(type(result) is Crate and result.boxes is boxes and result.lid is values[1] and result.name == "n", "crate")
        m.same(result.marks, {} if values[2] is None else values[2], "crate-marks")
        return
    box = Box(integer(), seq(rng, integer), name=rng.choice(["", "n"]))
    if kind == "method":
        name = rng.choice(["double", "scaled", "reported", "spread", "split"])
        block = B.ModelMethod(MethodType(Box, name))
        arguments = {"double": [], "scaled": [integer(), integer()]}.get(name, [rng.choice([0, 1, 3])])
        if isinstance(box.value, float):
            box.value = 2
        expected = getattr(copy.deepcopy(box), name)(*arguments)
        del wfmodels.CALLS[:]
        results = evaluate(rng, m, block, [box] + arguments)
        calls_ = list(wfmodels.CALLS)
        m.same(plain(results[0]), plain(expected), "method-result", name)
        m.check(results[1] is box, "model-output")
        m.check(1 <= len(calls_) <= len(block.outputs) and len(set(map(repr, calls_))) == 1, "called-once", "", calls_)
        return
    if kind in ("class", "static"):
        name, values, expected = rng.choice([
            ("build", [5, 3, "l"], Box(2, [5, 3], name="l")), ("describe", [4, "é"], "é4"), ("pack", [1, 2], (1, 2))])
        del wfmodels.CALLS[:]
        result = evaluate(rng, m, B.ClassMethod(ClassMethodType(Box, name)), values)[0]
        m.same(plain(result), plain(expected), "class-method", name)
        m.check(len(wfmodels.CALLS) == 1, "called-once", "", wfmodels.CALLS)
        return
    crate = Crate([box, Box(8, [1, 2])], box, {"a": 4}, name="c")
    if kind == "get":
        name = rng.choice(["boxes", "lid", "marks", "name"])
        result = evaluate(rng, m, B.GetModelAttribute(AttributeType(Crate, name)), [crate])[0]
        m.check(result is getattr(crate, name), "attribute", name)
    elif kind == "path":
        path, expected = rng.choice([("lid", crate.lid), ("lid/value", box.value), ("boxes/1", crate.boxes[1]),
                                     ("boxes/1/tags/0", 1), ("boxes/0/tags", box.tags), ("marks/a", 4), ("name", "c")])
        result = evaluate(rng, m, B.ModelAttribute(path), [crate])[0]
        m.check(result is expected, "deep-attribute", path, plain(result))
    else:
        name, value = rng.choice([("value", integer()), ("tags", [9]), ("name", "other"), ("value", None)])
        others = {a: getattr(box, a) for a in ("value", "tags", "name") if a != name}
        result = evaluate(rng, m, B.SetModelAttribute(AttributeType(Box, name)), [box, value], keep=False)[0]
        m.check(result is box, "set-returns-model")
        m.check(getattr(box, name) is value, "attribute-set", name)
        for attribute, kept in others.items():
            m.check(getattr(box, attribute) is kept, "others-untouched", attribute)


@scenario("C14", 500, 8000, rule="loops and workflow blocks over random sub-workflows: one result per element, in order, equal to separate runs")
def loops(rng, m):
    gen = WFGen(rng, displays=False, nested=rng.choice([0, 0, 1]), locks=rng.random() < .3, mutate=False)
    sub = gen.generate(rng.choice([1, 2, 3]))
    inputs = sub.workflow.inputs
    if not inputs:
        return
    kinds = [sub.kind_of[v] for v in inputs]
    given = [sub.effective[v] for v in inputs]
    iterated = [i for i, v in enumerate(inputs) if not v.locked]
    block = B.WorkflowBlock(sub.workflow)
    m.case(sub.describe())
    if not iterated or rng.random() < .3:
        got = evaluate(rng, m, block, given)[0]
        m.same(plain(got), plain(sub.run_reference(given)), "workflow-block")
        return
    index = rng.choice(iterated)
    elements = [gen.value(kinds[index]) if kinds[index] in ("int", "small", "str", "ints", "strs", "box", "boxes", "intlists", "crate",
                                                           "marks", "pair", "filename") else given[index]
                for _ in range(rng.choice([0, 1, 2, 4]))]
    loop = B.ForEach(block, index)
    values = given[:index] + [elements] + given[index + 1:]
    got = evaluate(rng, m, loop, values)[0]
    expected = [sub.run_reference(given[:index] + [e] + given[index + 1:]) for e in elements]
    m.check(isinstance(got, list), "loop-list")
    m.same(plain(got), plain(expected), "loop")


@scenario("C14", 800, 12000, rule="exports and archives: files hold exactly what the methods wrote, under the given names, inputs readable again")
def files(rng, m):
    box = Box(rng.choice([0, 1, 255, 300, -1]), seq(rng, lambda: rng.choice([1, 2])), name=rng.choice(["", "é", "\r\n"]))
    filename = rng.choice(["export", "é", "a b", "dir/file", "x.y"])
    text = rng.random() < .5
    extension = rng.choice(["txt", "json", "bin"])
    block = B.Export(MethodType(Box, "save_note" if text else "save_blob"), text, extension, filename=rng.choice(["", "z", filename]))
    stream = (StringFile if text else BinaryFile)("any")
    (box.save_note if text else box.save_blob)(stream)
    got = evaluate(rng, m, block, [box, filename], keep=rng.random() < .5)[0]
    m.check(type(got) is type(stream), "file-class", "", type(got))
    m.same(got.filename, f"{filename}.{extension}", "file-name")
    m.same(got.getvalue(), stream.getvalue(), "file-content")
    count = rng.choice([1, 2, 3, 5])
    entries = []
    for i in range(count):
        file = (StringFile if rng.random() < .5 else BinaryFile)(f"{i}.{rng.choice(['txt', 'bin'])}")
        content = rng.choice(["", "é\n", "a\r\nb", "x" * 70000])
        file.write(content if isinstance(file, StringFile) else content.encode() + b"\x00\xff")
        if rng.random() < .5:
            file.seek(0)
        entries.append(file)
    if rng.random() < .4:
        entries[rng.randrange(count)] = got
    archive = B.Archive(count, rng.choice(["archive", "z"]))
    result = evaluate(rng, m, archive, entries + [filename])[0]
    m.check(type(result) is BinaryFile and result.filename == filename + ".zip", "archive-name", "", result.filename)
    expected = [(f.filename, f.getvalue().encode() if isinstance(f, StringFile) else f.getvalue()) for f in entries]
    m.same(archive_view(result), expected, "archive-entries")
    m.refuses("archive-of-no-file", archive.evaluate, dict(zip(archive.inputs, [rng.choice([3, "text", None, b"", box])] * count + ["f"])),
              errors=(ValueError,))


def sample_values(sample):
    return {k: v for k, v in sample.items() if k not in ("type_", "values", "reference_path", "name", "object_class",
                                                         "package_version")}


@scenario("C14", 300, 5000, rule="display blocks: the view of the object, multi-plots with one sample per object, with its values and its path")
def displays(rng, m):
    boxes = [Box(rng.choice([0, 1, 2.5]), [i], name=rng.choice(["", f"n{i}"])) for i in range(rng.choice([0, 1, 2, 5]))]
    path = rng.choice(["#", "#/values/3"])
    kind = rng.choice(["markdown", "plot", "cad", "multi", "object"])
    if kind in ("markdown", "plot", "cad"):
        box = Box(rng.choice([1, 2]))
        block = {"markdown": lambda: B.Markdown(MarkdownType(Box, "Note")), "plot": lambda: B.PlotData(PlotDataType(Box, "Chart")),
                 "cad": lambda: B.CadView(CadViewType(Box, "Shape"))}[kind]()
        m.case(f"{kind} {box.value} {path}")
        got = m.call("evaluate", block.evaluate, {block.inputs[0]: box}, reference_path=path, progress_callback=lambda x: None)
        expected = box.note() if kind == "markdown" else box.shape() if kind == "cad" else box.chart(reference_path=path)
        return m.same(got, [expected], "display-" + kind)
    attributes = rng.choice([["value", "name"], ["value", "tags/0"], ["name", "value", "tags/0"]])
    m.case(f"{kind} {attributes} {plain(boxes)!r} {path}")
    if kind == "multi":
        block = B.MultiPlot("Multi", attributes)
    else:
        views = [B.ScatterView(tuple(attributes[:2])), B.ParallelView(list(attributes))]
        block = B.MultiObject("Multi", views[:rng.choice([1, 2])])
        attributes = list(dict.fromkeys(a for v in block.configurations for a in v.attributes))
    got = m.call("evaluate", block.evaluate, {block.inputs[0]: boxes}, reference_path=path)[0]
    m.call("display-json", json.dumps, got)
    read = {"value": lambda b: b.value, "name": lambda b: b.name, "tags/0": lambda b: b.tags[0]}
    m.check(len(got["elements"]) == len(boxes), "one-sample-per-object")
    for i, (sample, box) in enumerate(zip(got["elements"], boxes)):
        m.check(sample["reference_path"] == f"{path}/{i}", "sample-path", "", sample["reference_path"])
        values = sample.get("values", sample)
        for attribute in attributes:
            m.check(values.get(attribute) == read[attribute](box), "sample-value", attribute, values, plain(box))
    return None


class Optioned(DessiaObject):
    """ Everything may be left out or None. """

    def __init__(self, first: Optional[int] = 4, second: Optional[List[int]] = None, third: Optional[str] = "third",
                 fourth: Optional[Box] = None, name: str = "n"):
        self.first, self.second, self.third, self.fourth = first, second, third, fourth
        DessiaObject.__init__(self, name=name)

    def joined(self, first: Optional[int] = 7, third: Optional[str] = "own") -> List[int]:
        """ What was received, once. """
        return [self.first, self.second, self.third, self.fourth, first, third]


OPTIONS = {"first": [None, 0, 3], "second": [None, [], [1, 2]], "third": [None, "", "x"], "fourth": [None, Box(1)], "name": ["", "x"]}


@scenario("C14", 500, 8000, rule="sub-workflows and loops whose inputs have defaults: exactly the given values reach them, None and empty ones too")
def given_to_subworkflows(rng, m):
    model = B.InstantiateModel(Optioned)
    blocks, pipes, output = [model], [], model.outputs[0]
    if rng.random() < .6:
        method = B.ModelMethod(MethodType(Optioned, "joined"))
        blocks, pipes, output = [model, method], [Pipe(model.outputs[0], method.inputs[0])], method.outputs[0]
    workflow = Workflow(blocks, pipes, output)
    depth = rng.choice([1, 1, 2, 3])
    block = B.WorkflowBlock(workflow)
    for _ in range(depth - 1):
        block = B.WorkflowBlock(Workflow([block], [], block.outputs[0]))
    names = [v.name for v in workflow.inputs]

    def expect(values):
        made = Optioned(**dict(zip(names[:len(model.inputs)], values)))
        return made if len(blocks) == 1 else made.joined(*values[len(model.inputs):])

    def seen(value):
        return plain(list(vars(value).values()) if isinstance(value, Optioned) else value)
    values = [rng.choice(OPTIONS[n]) for n in names]
    if rng.random() < .5:
        got = evaluate(rng, m, block, values)[0]
        m.same(seen(got), seen(expect(values)), "given-to-sub-workflow")
        m.ev("none-given", sum(v is None for v in values))
        return
    index = rng.randrange(len(names))
    elements = [rng.choice(OPTIONS[names[index]]) for _ in range(rng.choice([0, 1, 3]))]
    got = evaluate(rng, m, B.ForEach(block, index), values[:index] + [elements] + values[index + 1:])[0]
    m.same([seen(g) for g in got], [seen(expect(values[:index] + [e] + values[index + 1:])) for e in elements], "given-to-loop")
