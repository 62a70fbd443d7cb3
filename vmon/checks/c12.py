""" C12: states and runs survive saving, copy and resume, at every point of an execution. """
import copy
import io
import json
import zipfile

from dessia_common.core import DessiaObject
from dessia_common.typings import AttributeType, MethodType
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Pipe, Workflow, WorkflowState, WorkflowRun

from vmon.core import probe, scenario
from vmon.gen import Gen, view
from vmon.wfgen import TRACE, index_of
from vmon.wfmodels import Box, Crate, plain, loose
from vmon.checks.c08 import generate
from vmon.checks.c09 import Model


def boxes_of(value, out):
    if isinstance(value, Box):
        out.append((repr(("Box", loose(value.value), loose(value.tags))), value.name))
    elif isinstance(value, Crate):
        for sub in (value.boxes, value.lid):
            boxes_of(sub, out)
        out.append((repr(nameless(loose(value))), value.name))
    elif isinstance(value, (list, tuple)):
        for sub in value:
            boxes_of(sub, out)
    elif isinstance(value, dict):
        for sub in value.values():
            boxes_of(sub, out)


def nameless(value):
    if isinstance(value, list):
        if value and value[0] == "Box" and len(value) == 4:
            return ["Box", nameless(value[1]), nameless(value[2])]
        if value and value[0] == "Crate" and len(value) == 5:
            return ["Crate", *[nameless(v) for v in value[1:4]]]
        return [nameless(v) for v in value]
    if isinstance(value, dict):
        return {k: nameless(v) for k, v in value.items()}
    return value


def ambiguous(values):
    """ Data-equal objects with different names: references legitimately see them as the same object. """
    found = []
    for value in values:
        boxes_of(value, found)
    names = {}
    for key, name in found:
        if names.setdefault(key, name) != name:
            return True
    return False


class Driver:
    """ Drives a state (original or restored) against the model of its workflow. """

    def __init__(self, m, wf, state, model, content):
        self.m, self.wf, self.state, self.model, self.content = m, wf, state, model, content
        self.everything = {v: x for v, x in wf.given.items() if not v.locked}

    def clone(self, state, content):
        model = Model(self.wf, {})
        model.inputs, model.outputs, model.given = dict(self.model.inputs), dict(self.model.outputs), set(self.model.given)
        return Driver(self.m, self.wf, state, model, content)

    def node(self, block):
        return self.wf.node_of(self.wf.workflow.blocks[index_of(self.state.workflow.blocks, block)])

    def absorb(self, start):
        for event in TRACE[start:]:
            if not any(event.block is b for b in self.state.workflow.blocks):
                continue
            node = self.node(event.block)
            self.m.check(node not in self.model.outputs or node not in self.model.needed, "evaluated-twice", node.tag)
            values = self.model.values(node)
            for i, (got, expected) in enumerate(zip(event.raw_plain, values)):
                self.m.same(got, loose(expected), "delivered-value", f"input {i} of {node.tag}")
            self.model.outputs[node] = node.func(*values)
            self.m.ev("evaluations")

    def give(self, rng, all_=False):
        pending = [v for v in self.everything if v not in self.model.given and not self.model.used(v)]
        for variable in pending:
            if all_ or rng.random() < .5:
                self.m.call("add_input_value", self.state.add_input_value,
                            index_of(self.wf.workflow.inputs, variable), self.everything[variable])
                self.model.inputs[variable] = self.everything[variable]
                self.model.given.add(variable)

    def act(self, rng):
        mark = len(TRACE)
        action = rng.choice(["give", "next", "next", "block", "continue"])
        self.m.log(action)
        if action == "give":
            self.give(rng)
        elif action == "next":
            self.m.call("evaluate_next_block", self.state.evaluate_next_block)
        elif action == "block":
            index = rng.randrange(len(self.wf.nodes))
            if self.content is loose and self.node(self.state.workflow.blocks[index]) in self.model.outputs:
                return  # consumed values are not saved: blocks out of the main branch are not evaluated again
            self.m.call("block_evaluation", self.state.block_evaluation, index)
        elif rng.random() < .3:
            self.m.call("continue_run", self.state.continue_run)
        self.absorb(mark)

    def finish(self, rng):
        mark = len(TRACE)
        self.give(rng, all_=True)
        self.m.call("continue_run", self.state.continue_run)
        self.absorb(mark)
        self.check()
        self.m.check(self.state.progress == 1, "never-finishes")

    def check(self):
        """ The state is the one of the model. """
        m, state, model, workflow = self.m, self.state, self.model, self.state.workflow
        m.close(state.progress, model.progress, "progress")
        for block in workflow.blocks:
            m.check(bool(state.activated_items[block]) == (self.node(block) in model.outputs), "block-activation",
                    self.node(block).tag)
        node, port = self.wf.output
        if node in model.outputs:
            if node.outs[port] not in ("archive", "file"):
                m.same(self.content(state.output_value), self.content(model.outputs[node][port]), "output-value")
        else:
            m.check(state.output_value is None, "no-output-yet")
        for variable, value in model.inputs.items():
            index = index_of(self.wf.workflow.inputs, variable)
            if index in state.input_values or variable in model.given:
                m.same(self.content(state.input_values.get(index)), self.content(value), "input-value", variable.name)
        m.equal({i for i in state.input_values},
                {index_of(self.wf.workflow.inputs, v) for v in model.inputs}, "input-indices")
        # every value still to be consumed is there
        for pipe in workflow.pipes:
            consumer = next(b for b in workflow.blocks if any(v is pipe.output_variable for v in b.inputs))
            producer = [b for b in workflow.blocks if any(v is pipe.input_variable for v in b.outputs)]
            if producer and self.node(producer[0]) in model.outputs and self.node(consumer) not in model.outputs:
                source = self.node(producer[0])
                port = index_of(producer[0].outputs, pipe.input_variable)
                m.check(pipe in state.values, "pending-value-kept", source.tag)
                m.same(self.content(state.values[pipe]), self.content(model.outputs[source][port]), "pending-value")
                m.ev("pending-values")


def start(rng, m, **kwargs):
    options = {"files": False, "mutate": False, "nested": rng.choice([0, 0, 1])}
    options.update(kwargs)
    wf = generate(rng, m, **options)
    given = {v: x for v, x in wf.given.items() if not v.locked
             and (rng.random() < .5 or (v.has_default_value and v.default_value is None))}
    TRACE.clear()
    state = m.call("start_run", wf.workflow.start_run, {index_of(wf.workflow.inputs, v): x for v, x in given.items()},
                   name=rng.choice(["", "state name", "é"]))
    driver = Driver(m, wf, state, Model(wf, given), plain)
    return wf, driver


def possible(wf):
    """ Values that may appear in the saved document. """
    values = [wf.effective[v] for v in wf.effective] + list(wf.given.values())
    for inputs, outputs in wf.reference().values():
        values += [o for o in outputs if not isinstance(o, str) or o != "<display>"]
    return values + defaults(wf.workflow)


def defaults(workflow):
    """ Every default value of a workflow and of those inside it. """
    values = []
    for block in workflow.blocks:
        values += [v.default_value for v in list(block.inputs) + list(block.outputs) if v.has_default_value]
        inner = getattr(block, "workflow", None) or getattr(getattr(block, "workflow_block", None), "workflow", None)
        if inner is not None:
            values += defaults(inner)
    return values + [v.default_value for v in list(workflow.nonblock_variables) + list(workflow.detached_variables) if v.has_default_value]


def has_tuple(value):
    """ Tuples of untyped values are read back as lists. """
    return loose(value) != plain(value) and "('tuple'" in repr(plain(value))


def save(m, rng, state, cls):
    way = rng.choice(["pointers", "plain", "copy", "deepcopy"])
    m.ev("way:" + way)
    if way in ("copy", "deepcopy"):
        return m.call("copy", state.copy if way == "copy" else lambda: copy.deepcopy(state)), plain, way
    dict_ = m.call("to_dict", state.to_dict, use_pointers=way == "pointers")
    text = m.call("json", json.dumps, dict_)
    reader = rng.choice([cls.dict_to_object, DessiaObject.dict_to_object])
    return m.call("dict_to_object", reader, json.loads(text)), loose, way


def relax(value):
    """ `plain` values seen as `loose` ones. """
    if isinstance(value, tuple):
        return [relax(v) for v in (value[1:] if value and value[0] == "tuple" else value)]
    if isinstance(value, list):
        return [relax(v) for v in value]
    if isinstance(value, dict):
        return {k: relax(v) for k, v in value.items()}
    return value


class Lazy:
    def __get__(self, event, owner):
        return [relax(v) for v in event.inputs]


from vmon.wfgen import Evaluation  # noqa: E402
Evaluation.raw_plain = Lazy()


@scenario("C12", 1500, 25000, rule="random executions saved, restored or copied at random points: same state, continued to the same end, "
                                   "original unaffected")
def resume(rng, m):
    wf, driver = start(rng, m)
    if ambiguous(possible(wf)):
        m.ev("ambiguous-names")
        return
    drivers = [driver]
    for _ in range(rng.choice([1, 2, 4])):
        for _ in range(rng.choice([0, 1, 3, 6])):
            driver.act(rng)
        driver.check()
        restored, content, way = save(m, rng, driver.state, WorkflowState)
        m.log("saved", way)
        m.check(type(restored) is WorkflowState, "state-class", way)
        m.equal(restored.name, driver.state.name, "state-name", way)
        if content is plain or not has_tuple([driver.state.output_value, list(driver.state.input_values.values())]):
            m.check(restored == driver.state and driver.state == restored, "state-equal", way)
            m.equal(hash(restored), hash(driver.state), "state-hash", way)
        driver.check()
        content = loose if driver.content is loose else content
        new = driver.clone(restored, content)
        new.check()
        m.ev("saves")
        drivers.append(new)
        if rng.random() < .7:
            driver = new
    rng.shuffle(drivers)
    for driver in drivers:
        driver.finish(rng)
        for other in drivers:
            other.check()
        run = m.call("to_workflow_run", driver.state.to_workflow_run, "run")
        m.ev("finished")
        node, port = wf.output
        if node.outs[port] not in ("file", "archive"):
            m.same(driver.content(run.output_value), driver.content(driver.model.outputs[node][port]), "run-output")


@scenario("C12", 1000, 15000, rule="runs saved and restored or copied: equal, same output, inputs, kept values and displays")
def runs(rng, m):
    wf, driver = start(rng, m)
    if ambiguous(possible(wf)):
        m.ev("ambiguous-names")
        return
    run = m.call("run", wf.workflow.run, wf.input_values(), name=rng.choice(["", "my run"]))
    before = {k: plain(v) for k, v in run.input_values.items()}, plain(run.output_value)
    restored, content, way = save(m, rng, run, WorkflowRun)
    m.check(type(restored) is WorkflowRun, "run-class", way)
    if content is plain or not has_tuple([run.output_value, list(run.input_values.values())]):
        m.check(restored == run and run == restored, "run-equal", way)
    m.equal(restored.name, run.name, "run-name")
    m.equal(restored.log, run.log, "run-log")
    m.same(content(restored.output_value), content(run.output_value), "run-output", way)
    m.same({i: content(v) for i, v in restored.input_values.items()},
           {i: content(v) for i, v in run.input_values.items()}, "run-inputs", way)
    index = {i: run.workflow.pipes.index(p) for i, p in enumerate(run.values)}
    mine = {run.workflow.pipes.index(p): content(v) for p, v in run.values.items()}
    other = {restored.workflow.pipes.index(p): content(v) for p, v in restored.values.items()}
    m.same(other, mine, "run-values", way)
    m.equal(restored.progress, 1, "run-progress")
    m.equal(restored.execution_info.execution_time, run.execution_info.execution_time, "run-time")
    for attribute in ("before_block_memory_usage", "after_block_memory_usage"):
        m.equal([(index_of(restored.workflow.blocks, b), x) for b, x in getattr(restored.execution_info, attribute)],
                [(index_of(run.workflow.blocks, b), x) for b, x in getattr(run.execution_info, attribute)], "run-info")
    settings = [(s.selector, s.type, s.method) for s in run.display_settings()]
    m.equal([(s.selector, s.type, s.method) for s in restored.display_settings()], settings, "run-displays")
    again = m.call("run_again", restored.run_again, wf.input_values())
    m.same(loose(again.output_value), loose(run.output_value), "run-again")
    for element in (run, restored):
        reach(m, element)
    # changes never cross
    for value in list(restored.input_values.values()) + [restored.output_value]:
        spoil(value)
    m.same(({k: plain(v) for k, v in run.input_values.items()}, plain(run.output_value)), before, "change-crosses", way)
    m.ev("runs")


def reach(m, run):
    """ Everything a run kept is found at its path. """
    def inside(value, path, depth=3):
        yield path, value
        if depth and isinstance(value, (list, tuple)):
            for i, sub in enumerate(value):
                yield from inside(sub, f"{path}/{i}", depth - 1)
        elif depth and isinstance(value, (Box, Crate)):
            for name in ("value", "tags", "boxes", "lid"):
                if hasattr(value, name):
                    yield from inside(getattr(value, name), f"{path}/{name}", depth - 1)

    roots = [(f"#/values/{index_of(run.workflow.pipes, pipe)}", value) for pipe, value in run.values.items()]
    for root, value in roots + [("#/output_value", run.output_value)]:
        for path, expected in inside(value, root):
            m.check(m.call("reach", run._get_from_path, path) is expected, "reach-identity", path)
    m.refuses("reach-unknown", run._get_from_path, "#/nothing/3")


def spoil(value):
    if isinstance(value, Box):
        value.value = "spoiled"
        value.tags.append("spoiled")
    elif isinstance(value, Crate):
        value.boxes.append("spoiled")
        spoil(value.lid)
    elif isinstance(value, list):
        for sub in value:
            spoil(sub)
        value.append("spoiled")
    elif isinstance(value, dict):
        value["spoiled"] = 1


@scenario("C12", 400, 6000, rule="states that differ by an input value, an evaluated block or the output are not equal")
def differences(rng, m):
    wf, driver = start(rng, m, nested=0)
    for _ in range(rng.choice([0, 2, 5])):
        driver.act(rng)
    state = driver.state
    other = m.call("copy", state.copy)
    m.check(state == other, "equal-before")
    kind = rng.choice(["input", "block", "output"])
    if kind == "input":
        plain_inputs = [i for i, v in other.input_values.items() if isinstance(v, (int, str)) and not isinstance(v, bool)]
        if not plain_inputs:
            return
        index = rng.choice(plain_inputs)
        other.input_values[index] = other.input_values[index] + (1 if isinstance(other.input_values[index], int) else "x")
    elif kind == "block":
        twin = driver.clone(other, plain)
        before = len(twin.model.outputs)
        mark = len(TRACE)
        other.evaluate_next_block()
        twin.absorb(mark)
        if len(twin.model.outputs) == before:
            return
    else:
        if not isinstance(other.output_value, int):
            return
        other.output_value += 1
    m.ev("difference:" + kind)
    m.check(not (state == other) and not (other == state), "difference-ignored", kind)


def numbers(rng):
    """ Values next to plain ones, with what they are read back as. """
    import numpy as npy
    integer, real = rng.randint(-10**6, 10**6), rng.uniform(-10, 10)
    return rng.choice([(npy.int64(integer), integer), (npy.float64(real), real), ([npy.float64(real)], [real]),
                       ({"a": npy.int64(integer)}, {"a": integer})])


@scenario("C12", 500, 10000, rule="any serializable value as input, pending and output of a run saved and restored at every point: same values, "
                                  "same output, equal run")
def any_values(rng, m):
    gen = Gen(rng)
    count = rng.randint(1, 4)
    pairs = []
    for _ in range(count):
        if rng.random() < .15:
            pairs.append(numbers(rng))
        else:
            value = gen.payload(rng.choice([0, 1, 2, 3]))
            pairs.append((value, value))
    sequence, unpacker = B.Sequence(count), B.Unpacker(rng.sample(range(count), rng.randint(1, count)))
    blocks, pipes = [sequence, unpacker], [Pipe(sequence.outputs[0], unpacker.inputs[0])]
    index = unpacker.indices[0]
    output, expected = unpacker.outputs[0], pairs[index][1]
    if rng.random() < .5:
        wrap = B.Sequence(len(unpacker.indices))
        blocks.append(wrap)
        pipes += [Pipe(a, b) for a, b in zip(unpacker.outputs, wrap.inputs)]
        output, expected = wrap.outputs[0], [pairs[i][1] for i in unpacker.indices]
    workflow = Workflow(blocks, pipes, output, name="values")
    given = {index_of(workflow.inputs, v): value for v, (value, _) in zip(sequence.inputs, pairs)}
    read = {index_of(workflow.inputs, v): value for v, (_, value) in zip(sequence.inputs, pairs)}
    m.case(view([value for _, value in pairs]) + [len(blocks), unpacker.indices])
    state = m.call("start", workflow.start_run, dict(given))
    for _ in range(rng.randint(0, len(blocks))):
        m.call("next", state.evaluate_next_block)
    for way in ("dict", "copy"):
        if way == "dict":
            other = m.call("read", WorkflowState.dict_to_object, json.loads(m.call("json", json.dumps, m.call("to_dict", state.to_dict))))
        else:
            other = m.call("copy", state.copy)
        m.check(other == state and state == other, "any-state-equal", way)
        m.same({i: view(v) for i, v in other.input_values.items()}, {i: view(v) for i, v in (read if way == "dict" else given).items()},
               "any-input-values", way)
        m.equal(other.progress, state.progress, "any-progress", way)
        m.call("continue", other.continue_run)
        run = m.call("to-run", other.to_workflow_run, name="r")
        wanted = expected if way == "dict" else None
        if wanted is not None:
            m.same(view(run.output_value), view(wanted), "any-output", way)
        again = m.call("run-read", WorkflowRun.dict_to_object, json.loads(json.dumps(m.call("run-to_dict", run.to_dict))))
        m.same(view(again.output_value), view(expected), "any-run-output", way)
        m.same({i: view(v) for i, v in again.input_values.items()}, {i: view(v) for i, v in read.items()}, "any-run-inputs", way)
        m.check(again == run and run == again, "any-run-equal", way)
        m.equal(again.name, run.name, "any-run-name")
        m.ev(f"any:{way}:{type(expected).__name__}")


@probe("C12", "C12-pending-file")
def pending_file(rng, m):
    make, export, archive = B.InstantiateModel(Box), B.Export(MethodType(Box, "save_note"), True, "txt"), B.Archive(1)
    workflow = Workflow([make, export, archive], [Pipe(make.outputs[0], export.inputs[0]), Pipe(export.outputs[0], archive.inputs[0])],
                        archive.outputs[0])
    given = {i: 1 if v.name == "value" else [] if v.name == "tags" else "text" for i, v in enumerate(workflow.inputs)}
    state = workflow.start_run(given)
    state.evaluate_next_block()
    state.evaluate_next_block()
    other = m.call("pending-read", WorkflowState.dict_to_object, json.loads(json.dumps(state.to_dict())))
    m.call("pending-file-resume", other.continue_run)


@scenario("C12", 200, 4000, rule="runs that give a file, saved, restored or copied: files are left out, everything else is kept, a copy keeps the file")
def file_runs(rng, m):
    make, archive = B.InstantiateModel(Box, name="make"), None
    text = rng.random() < .5
    exports = [B.Export(MethodType(Box, "save_note" if text else "save_blob"), text, "ext", name=f"export {i}") for i in range(rng.randint(1, 2))]
    blocks, pipes = [make] + exports, [Pipe(make.outputs[0], e.inputs[0]) for e in exports]
    output = exports[0].outputs[0]
    if rng.random() < .5:
        archive = B.Archive(len(exports), name="archive")
        blocks.append(archive)
        pipes += [Pipe(e.outputs[0], v) for e, v in zip(exports, archive.inputs)]
        output = archive.outputs[0]
    workflow = Workflow(blocks, pipes, output, name="files")
    value = rng.choice([0, 3, 300])
    contents = {"value": value, "tags": [rng.randint(0, 9)], "name": rng.choice(["", "é"])}
    given = {i: contents.get(v.name, f"file {i}") for i, v in enumerate(workflow.inputs)}
    m.case([len(exports), archive is not None, text, contents])
    run = m.call("run", workflow.run, dict(given), name="r")
    before = data_of(run.output_value)
    again = m.call("file-run-read", WorkflowRun.dict_to_object, json.loads(m.call("json", json.dumps, m.call("file-run-to_dict", run.to_dict))))
    m.same({i: v for i, v in again.input_values.items()}, given, "file-run-inputs")
    m.equal(again.progress, 1, "file-run-progress")
    m.equal(again.name, "r", "file-run-name")
    m.check(again.workflow == run.workflow, "file-run-workflow")
    rerun = m.call("run-again", again.run_again, dict(again.input_values))
    m.equal(data_of(rerun.output_value), before, "file-run-again")
    copied = m.call("copy", run.copy)
    m.equal(data_of(copied.output_value), before, "file-run-copy")
    m.equal(copied.output_value.filename, run.output_value.filename, "file-run-copy", "name of the file")
    m.equal(data_of(run.output_value), before, "file-run-original")


def data_of(stream):
    """ What a file holds; for an archive, what each of its files holds. """
    data = stream.getvalue()
    if isinstance(data, bytes) and zipfile.is_zipfile(io.BytesIO(data)):
        with zipfile.ZipFile(io.BytesIO(data)) as archive:
            return sorted((info.filename, archive.read(info)) for info in archive.infolist())
    return data


@scenario("C12", 300, 5000, rule="objects that several pending values share, modified by later blocks: once saved, restored or copied, the run still ends "
                                 "as if it had not been interrupted")
def shared_values(rng, m):
    """ One box goes through several branches: setting its value in one of them is seen by the other ones. """
    make = B.InstantiateModel(Box)
    blocks, pipes, ends = [make], [], []
    source, actions = make.outputs[0], []
    for _ in range(rng.choice([2, 3, 4])):
        kind = rng.choice(["set", "set", "get", "double", "whole"])
        if kind == "set":
            block = B.SetModelAttribute(AttributeType(Box, "value"))
        elif kind == "get":
            block = B.GetModelAttribute(AttributeType(Box, "value"))
        elif kind == "double":
            block = B.ModelMethod(MethodType(Box, "double"))
        else:
            block = B.Sequence(1)
        blocks.append(block)
        pipes.append(Pipe(source, block.inputs[0]))
        ends.append(block.outputs[0])
        actions.append(kind)
    if rng.random() < .5:
        ends.append(source)
    gather = B.Sequence(len(ends))
    pipes += [Pipe(end, variable) for end, variable in zip(ends, gather.inputs)]
    blocks.append(gather)
    workflow = Workflow(blocks, pipes, gather.outputs[0])
    values = {}
    for index, variable in enumerate(workflow.inputs):
        values[index] = [rng.randint(1, 3)] if variable.name == "tags" else "" if variable.name == "name" else rng.randint(10, 99)
    order = list(range(1, len(blocks) - 1))
    rng.shuffle(order)
    order = [0] + order + [len(blocks) - 1]
    m.case({"actions": actions, "order": order, "values": repr(values)})

    def finish(state, done):
        for index in order[done:]:
            m.check(m.call("block_evaluation", state.block_evaluation, index), "evaluated")
        return state.output_value
    expected = finish(m.call("start_run", workflow.start_run, copy.deepcopy(values)), 0)
    state = m.call("start_run", workflow.start_run, copy.deepcopy(values))
    pairs = [(state, 0)]
    for done, index in enumerate(order):
        m.check(m.call("block_evaluation", pairs[0][0].block_evaluation, index), "evaluated")
        pairs[0] = (pairs[0][0], done + 1)
        way = rng.choice(["", "pointers", "copy", "deepcopy"])
        if way in ("copy", "deepcopy"):
            pairs.append((m.call("copy", state.copy if way == "copy" else lambda: copy.deepcopy(state)), done + 1))
        elif way == "pointers" and done == 0:
            # nothing else in the document is equal to the box
            text = json.dumps(m.call("to_dict", state.to_dict))
            pairs.append((m.call("dict_to_object", WorkflowState.dict_to_object, json.loads(text)), done + 1))
        if way:
            m.ev("way:" + way)
    rng.shuffle(pairs)
    for one, done in pairs:
        output = finish(one, done)
        m.same(loose(output), loose(expected), "shared-value")
        kept = [o for o in output if isinstance(o, Box)]
        m.check(all(o is kept[0] for o in kept), "shared-object")
