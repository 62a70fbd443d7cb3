""" C08: a run computes exactly what the graph says. """
import json

from dessia_common.serialization import serialize
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Pipe, Variable, Workflow, WorkflowRun
from dessia_common.typings import MethodType

from vmon.core import scenario
from vmon import wfmodels
from vmon.wfmodels import Box, Recorder, plain, loose
from vmon.wfgen import WF, WFGen, TRACE, trace_of, archive_view, entries_view, index_of


def view(value):
    """ Plain view, archives as entries. """
    if isinstance(value, tuple) and value and value[0] == "archive":
        return ("archive", value[1], entries_view([(n, c.encode() if isinstance(c, str) else c) for n, c in value[2]]))
    if hasattr(value, "filename") and str(value.filename).endswith(".zip"):
        return ("archive", value.filename, archive_view(value))
    return plain(value)


def check_trace(m, wf, trace, reference, needed):
    """ Every needed block once, after what it depends on, on the right values, with the right results. """
    order = [wf.node_of(e.block) for e in trace]
    for node in needed:
        m.check(order.count(node) == 1, "block-once", f"{node.tag} evaluated {order.count(node)} times", wf.describe())
    for node in order:
        m.check(node in needed, "only-needed", node.tag, wf.describe())
        for source in node.sources:
            if isinstance(source, tuple):
                m.check(source[0] in order and order.index(source[0]) < order.index(node), "after-producers", node.tag)
    for event in trace:
        node = wf.node_of(event.block)
        inputs, outputs = reference[node]
        for i, (got, expected) in enumerate(zip(event.inputs, inputs)):
            if node.kinds[i] == "file":
                continue  # compared as archive content
            m.same(got, plain(expected), "delivered-value", f"input {i} of {node.tag}")
        for i, (got, expected) in enumerate(zip(event.outputs, outputs)):
            if node.outs[i] not in ("display", "archive"):
                m.same(got, plain(expected), "block-result", f"output {i} of {node.tag}")
    m.ev("evaluations", len(trace))


def generate(rng, m, **kwargs):
    options = {"files": rng.random() < .3, "nested": rng.choice([0, 1, 1, 2])}
    options.update(kwargs)
    long = options.pop("long", .006)
    if rng.random() < long:
        wf = WFGen(rng, **options).generate(rng.choice([14, 15, 17, 20, 26]), chain=True)
        m.ev("chains")
    else:
        wf = WFGen(rng, **options).generate(rng.choice([1, 2, 3, 4, 6, 9, 13]))
    m.case(wf.describe())
    for node in wf.nodes:
        m.ev("block:" + type(node.block).__name__)
    return wf


@scenario("C08", 4000, 60000, rule="random workflows over every block kind, shuffled block and pipe lists, defaults, locks, "
                                   "shared inputs: trace of evaluations against an independent reference evaluation")
def full_run(rng, m):
    wf = generate(rng, m)
    needed = wf.needed()
    reference = wf.reference(only=needed)
    values = wf.input_values()
    before = {i: plain(v) for i, v in values.items()}
    keys = list(values)
    rng.shuffle(keys)
    TRACE.clear()
    run = m.call("run", wf.workflow.run, {k: values[k] for k in keys})
    check_trace(m, wf, trace_of(wf.workflow), reference, needed)
    node, port = wf.output
    m.check(isinstance(run, WorkflowRun), "run-class")
    m.equal(view(run.output_value), view(reference[node][1][port]), "run-output")
    m.same({i: plain(v) for i, v in values.items()}, before, "run-alters-inputs")
    # input values of the run: the ones really used
    for variable in wf.free_variables():
        index = index_of(wf.workflow.inputs, variable)
        m.same(plain(run.input_values[index]), plain(wf.effective[variable]), "run-input-values", variable.name)
    # values kept for displays
    for pipe, value in run.values.items():
        producer = [(n, n.block.outputs.index(pipe.input_variable)) for n in wf.nodes
                    if any(o is pipe.input_variable for o in n.block.outputs)]
        if producer and producer[0][0] in reference and producer[0][0].outs[producer[0][1]] not in ("file", "archive"):
            if not any("Set" in n.tag for n in wf.nodes):
                m.same(plain(value), plain(reference[producer[0][0]][1][producer[0][1]]), "kept-value")
    m.check(run.progress == 1, "run-progress")


@scenario("C08", 800, 12000, rule="same workflow run twice, run_again and arguments sent through JSON: same results, workflow "
                                  "unchanged by runs")
def repeated(rng, m):
    wf = generate(rng, m, files=False, mutate=False)
    values = wf.input_values()
    reference = wf.reference(only=wf.needed())
    node, port = wf.output
    expected = plain(reference[node][1][port])
    description = json.dumps(loose_dict(wf.workflow.to_dict()), sort_keys=True)
    run = m.call("run", wf.workflow.run, dict(values))
    m.same(plain(run.output_value), expected, "run-output")
    TRACE.clear()
    again = m.call("run_again", run.run_again, dict(values))
    m.same(plain(again.output_value), expected, "run-again-output")
    check_trace(m, wf, trace_of(wf.workflow), reference, wf.needed())
    m.equal(json.dumps(loose_dict(wf.workflow.to_dict()), sort_keys=True), description, "run-changes-workflow")
    # the way the frontend calls it (untyped inputs cannot be described to it)
    if any(variable.type_ is None for variable in wf.given):
        return
    serialized = json.loads(json.dumps({str(i): serialize(v) for i, v in values.items()}))
    arguments = m.call("dict_to_arguments", wf.workflow.dict_to_arguments, serialized, "run")
    third = m.call("run", wf.workflow.run, **arguments)
    m.equal(loose(third.output_value), loose(reference[node][1][port]), "run-from-json-output")


@scenario("C08", 600, 10000, rule="a run asked as the platform does: the dict of default values completed by what the user gives, through "
                                  "JSON: the dict holds each default, the run uses what was given, then the defaults, locked values always")
def platform_run(rng, m):
    wf = generate(rng, m, files=False, mutate=False)
    workflow = wf.workflow
    inputs = workflow.inputs
    dict_ = m.call("method_dict", workflow.method_dict, "run")
    m.equal(sorted(dict_), sorted(str(i) for i, v in enumerate(inputs) if v.has_default_value), "method-dict-keys")
    for i, variable in enumerate(inputs):
        if variable.has_default_value:
            m.equal(loose(dict_[str(i)]), loose(serialize(variable.default_value)), "method-dict-value", variable.name)
    m.refuses("method-dict-unknown", workflow.method_dict, rng.choice(["runs", "to_dict", None, ""]))
    if any(variable.type_ is None for variable in list(wf.given) + [v for v in inputs if v.has_default_value]):
        m.ev("untyped")
        return
    reference = wf.reference(only=wf.needed())
    node, port = wf.output
    asked = json.loads(m.call("json", json.dumps, dict_))
    asked.update(json.loads(json.dumps({str(i): serialize(v) for i, v in wf.input_values().items()})))
    name = rng.choice([None, "a run", "é", ""])
    if name is not None:
        asked[str(len(inputs))] = name
    items = list(asked.items())
    rng.shuffle(items)
    arguments = m.call("dict_to_arguments", workflow.dict_to_arguments, dict(items), "run")
    m.equal(sorted(arguments), ["input_values", "name"], "platform-arguments")
    m.equal(arguments["name"], name, "platform-name")
    for i, variable in enumerate(inputs):
        if not variable.locked and variable in wf.effective and i in arguments["input_values"]:
            m.equal(loose(arguments["input_values"][i]), loose(wf.effective[variable]), "platform-argument", variable.name)
        if variable.locked:
            m.check(i not in arguments["input_values"], "platform-locked", variable.name)
    run = m.call("run", workflow.run, **arguments)
    m.equal(loose(run.output_value), loose(reference[node][1][port]), "platform-output")
    if rng.random() < .5:
        again = m.call("run_again", run.run_again, arguments["input_values"])
        m.equal(loose(again.output_value), loose(reference[node][1][port]), "platform-run-again-output")
    if name:
        m.equal(run.name, name, "platform-run-name")
    else:
        m.check(bool(run.name), "platform-run-name", "a run always has a name")
    m.refuses("platform-method", workflow.dict_to_arguments, dict(items), rng.choice(["start_run", "to_dict", ""]),
              errors=(NotImplementedError,))


def loose_dict(dict_):
    """ Serialized dict without what legitimately changes (random reference ids). """
    text = json.dumps(dict_)
    for i, ref in enumerate(dict_.get("_references", {})):
        text = text.replace(ref, f"ref{i}")
    return json.loads(text)


@scenario("C08", 800, 12000, rule="a mandatory input is left out: run raises before evaluating anything")
def missing_input(rng, m):
    wf = generate(rng, m, nested=rng.choice([0, 1]))
    mandatory = [v for v in wf.given if not v.has_default_value]
    if not mandatory:
        m.ev("no-mandatory")
        return
    missing = rng.choice(mandatory)
    index = index_of(wf.workflow.inputs, missing)
    values = {i: v for i, v in wf.input_values().items() if i != index}
    TRACE.clear()
    m.refuses("missing-refused", wf.workflow.run, values, errors=(ValueError,))
    m.check(not trace_of(wf.workflow), "missing-nothing-evaluated")


DEFAULTS = {"number": 5, "text": "x", "items": None, "marks": None, "flag": True, "ratio": 1.5, "name": ""}
ODD_VALUES = {"number": [None, 0, 1, -1, 5, False], "text": ["", None, "x", "0"], "items": [[], None, [0], [None, 1]],
              "marks": [{}, None, {"": 0}], "flag": [False, True, None, 0], "ratio": [0., None, 0, -0.5, 1.5],
              "name": ["", "n", "0"]}


def recorders(rng):
    """ Workflow of blocks accepting anything: (workflow, {index: value to give}, [reference outputs], [blocks]). """
    blocks, pipes, expected = [], [], []
    used, shared = {}, {}
    for i in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(["model", "class", "method"])
        names = ["number", "text", "items", "marks", "flag", "name"] if kind != "class" \
            else ["number", "text", "items", "ratio", "flag"]
        if kind == "class":
            block = B.ClassMethod(B.ClassMethodType(Recorder, "record"), name=f"record {i}")
        else:
            block = B.InstantiateModel(Recorder, name=f"recorder {i}")
        blocks.append(block)
        values = []
        for name, variable in zip(names, block.inputs):
            if rng.random() < .1 and (i or not shared):
                if name not in shared:
                    shared[name] = Variable(type_=variable.type_, name=name)
                    used[shared[name]] = odd_variable(rng, shared[name], name)
                pipes.append(Pipe(shared[name], variable))
                values.append(used[shared[name]][1])
            else:
                used[variable] = odd_variable(rng, variable, name)
                values.append(used[variable][1])
        if kind == "class":
            expected.append(repr(tuple(values)))
        elif kind == "model":
            expected.append(Recorder(*values))
        else:
            reader = B.ModelMethod(MethodType(Recorder, "told"), name=f"told {i}")
            blocks.append(reader)
            pipes.append(Pipe(block.outputs[0], reader.inputs[0]))
            extra = []
            for name, variable in zip(["number", "flag"], reader.inputs[1:]):
                used[variable] = odd_variable(rng, variable, name)
                extra.append(used[variable][1])
            expected.append(repr((*values, *extra)))
    gather = B.Sequence(len(expected), name="all")
    ends = [b for b in blocks if isinstance(b, (B.ClassMethod, B.ModelMethod))
            or not any(p.input_variable is b.outputs[0] for p in pipes)]
    for block, variable in zip(ends, gather.inputs):
        pipes.append(Pipe(block.outputs[0], variable))
    order = blocks + [gather]
    rng.shuffle(order)
    rng.shuffle(pipes)
    workflow = Workflow(order, pipes, output=gather.outputs[0], name="odd values")
    given = {index_of(workflow.inputs, v): g for v, (g, _) in used.items() if g is not NOTHING}
    effective = {index_of(workflow.inputs, v): e for v, (_, e) in used.items()}
    return workflow, given, effective, expected


NOTHING = object()


def odd_variable(rng, variable, name):
    """ (value to give or NOTHING, value to be used), the variable being maybe locked or given another default. """
    value = rng.choice(ODD_VALUES[name])
    decision = rng.random()
    if decision < .12:
        variable.lock(value)
        return (rng.choice(ODD_VALUES[name]) if rng.random() < .3 else NOTHING), value
    if decision < .3:
        variable.default_value = value
        return NOTHING, value
    if decision < .5 and variable.has_default_value:
        return NOTHING, variable.default_value
    return value, value


@scenario("C08", 500, 10000, rule="falsy, null and odd values given explicitly, by default, by lock: each reaches its block "
                                   "as it is, none is mistaken for a missing value")
def odd_values(rng, m):
    workflow, given, effective, expected = recorders(rng)
    m.case(([b.name for b in workflow.blocks], given, effective))
    keys = list(given)
    rng.shuffle(keys)
    if rng.random() < .5:
        run = m.call("run", workflow.run, {k: given[k] for k in keys})
    else:
        state = m.call("start_run", workflow.start_run, {k: given[k] for k in keys if k % 2})
        for key in keys:
            if not key % 2:
                m.call("add_input_value", state.add_input_value, key, given[key])
        m.call("continue_run", state.continue_run)
        run = m.call("to_workflow_run", state.to_workflow_run, "named")
    m.same(plain(run.output_value), plain(expected), "run-output")
    for index, value in effective.items():
        m.check(index in run.input_values, "run-input-values", index)
        m.same(run.input_values[index], value, "run-input-values", index)


@scenario("C08", 400, 8000, rule="histories of locks, unlocks, defaults and resets on the inputs of one workflow, with runs in between: each run uses "
                                 "what is then locked, given or set by default, and is refused when a value is missing")
def locks(rng, m):
    block = B.InstantiateModel(Box, name="box")
    total = B.ModelMethod(MethodType(Box, "scaled"), name="scaled")
    text = B.ConcatenateStrings(2, name="text")
    both = B.Sequence(2, name="both")
    free = Variable(type_=int, name="free")
    target = rng.choice([block, total])
    number = [v for v in target.inputs if v.name in ("value", "factor")][0]
    blocks = [block, total, text, both]
    rng.shuffle(blocks)
    pipes = [Pipe(block.outputs[0], total.inputs[0]), Pipe(free, number), Pipe(total.outputs[0], both.inputs[0]), Pipe(text.outputs[0], both.inputs[1])]
    rng.shuffle(pipes)
    workflow = Workflow(blocks, pipes, both.outputs[0], name="locks")
    inputs = workflow.inputs
    pools = {v: {int: [0, 1, -3, 7], str: ["", "a", "é"]}.get(v.type_, [None, [], [4], [4, 5]]) for v in inputs}
    model = {v: [v.default_value if v.has_default_value else NOTHING, False] for v in inputs}
    done = []

    def at(variable):
        return index_of(workflow.inputs, variable)

    for _ in range(rng.choice([2, 6, 15])):
        variable = rng.choice(inputs)
        value = rng.choice(pools[variable])
        state = model[variable]
        action = rng.choice(["lock", "lock", "lock-as-is", "unlock", "forget", "default", "reset", "assign", "run", "run"])
        done.append((action, at(variable), value))
        if action == "lock":
            m.call("lock", *rng.choice([(variable.lock, value), (workflow.lock_input, at(variable), value)]))
            model[variable] = [value, True]
        elif action == "lock-as-is":
            how = rng.choice([(variable.lock,), (workflow.lock_input, at(variable))])
            if state[0] is NOTHING:
                m.refuses("lock-without-value", *how, errors=(ValueError,))
            else:
                m.call("lock", *how)
                state[1] = True
        elif action in ("unlock", "forget"):
            m.call("unlock", variable.unlock, keep_default=action == "unlock")
            model[variable] = [state[0] if action == "unlock" else NOTHING, False]
        elif action == "default":
            m.call("set-default", workflow.set_input_default, at(variable), value)
            state[0] = value
        elif action == "reset" and not state[1]:
            m.call("reset-default", workflow.reset_input_default, at(variable))
            state[0] = NOTHING
        elif action == "assign":
            m.refuses("assign-lock", setattr, variable, "locked", rng.choice([True, False]), errors=(AttributeError,))
        elif action == "run":
            given = {v: rng.choice(pools[v]) for v in inputs if rng.random() < .7}
            used = {v: d if lock or v not in given else given[v] for v, (d, lock) in model.items()}
            missing = [v for v, x in used.items() if x is NOTHING]
            values = {at(v): x for v, x in given.items()}
            if missing:
                m.refuses("run-without-value", workflow.run, values, errors=(ValueError,))
                continue
            run = m.call("run", workflow.run, values)
            args = {v.name: used[v] for v in inputs if v in block.inputs}
            more = {v.name: used[v] for v in inputs if v in total.inputs}
            (args if target is block else more)[number.name] = used[free]
            expected = [Box(**args).scaled(**more), "".join(used[v] for v in text.inputs)]
            m.same(plain(list(run.output_value)), plain(expected), "locked-run")
            m.ev("runs")
        for v, (default, locked) in model.items():
            m.equal(v.locked, locked, "lock-kept", action)
            m.equal(v.has_default_value, default is not NOTHING, "default-kept", action)
            if default is not NOTHING:
                m.same(v.default_value, default, "default-kept", action)
        m.equal({i for i, v in enumerate(workflow.inputs) if v in workflow.locked_inputs}, {at(v) for v, (_, lock) in model.items() if lock}, "locked-inputs")
    m.case(repr(done))


@scenario("C08", 8, 100, rule="dense workflows (every block fed by several earlier ones, many paths between two blocks): a run "
                               "ends and computes the expected value")
def dense(rng, m):
    count = rng.choice([10, 16, 24, 30])
    blocks, values, pipes, given = [], [], [], {}
    start = B.Sum(1, name="start")
    order = [start]
    reference = [3]
    for i in range(count):
        width = rng.choice([2, 3, 3])
        block = B.Sum(width, name=f"sum {i}")
        sources = [rng.choice(range(max(0, len(order) - 4), len(order))) for _ in range(width)]
        sources[0] = len(order) - 1
        for index, variable in zip(sources, block.inputs):
            pipes.append(Pipe(order[index].outputs[0], variable))
        reference.append(sum(reference[k] for k in sources))
        order.append(block)
    blocks = list(order)
    rng.shuffle(blocks)
    rng.shuffle(pipes)
    workflow = m.call("workflow", Workflow, blocks, pipes, output=order[-1].outputs[0], name="dense")
    m.case((count, reference))
    TRACE.clear()
    run = m.call("run", workflow.run, {0: 3})
    m.same(run.output_value, reference[-1], "run-output")
    m.equal(len(trace_of(workflow)), len(order), "block-once")


class Failure(Exception):
    pass


class Fragile(Box):
    """ A box whose method fails for some values. """

    def __init__(self, value: int, tags: list = None, name: str = ""):
        Box.__init__(self, value, tags, name)

    def check(self, limit: int) -> Box:
        """ Fails over limit. """
        wfmodels.CALLS.append(("check", self.value, limit))
        if self.value > limit:
            raise FAILURE[0](f"{self.value} over {limit}")
        return self

    def check_reporting(self, limit: int, progress_callback=lambda x: None) -> Box:
        """ Fails over limit, telling its progress. """
        wfmodels.CALLS.append(("check", self.value, limit))
        progress_callback(0.5)
        if self.value > limit:
            raise FAILURE[0](f"{self.value} over {limit}")
        return self

    def check_keyword(self, limit: int, *, progress_callback=None) -> Box:
        """ Fails over limit, telling its progress. """
        return self.check_reporting(limit, progress_callback)


FAILURE = [Failure]


@scenario("C08", 300, 4000, rule="a user method raises (any kind of error, reporting progress or not): the error reaches the caller, "
                                  "the method was called once, nothing downstream is evaluated")
def failing_block(rng, m):
    value, limit = rng.randint(0, 9), rng.randint(0, 9)
    count = rng.choice([0, 1, 3])
    make = B.ClassMethod(B.ClassMethodType(Box, "pack"), name="other")
    FAILURE[0] = rng.choice([Failure, Failure, TypeError, ValueError, KeyError, AttributeError, RuntimeError])
    which = rng.choice(["check", "check", "check_reporting", "check_keyword"])
    method = B.ModelMethod(MethodType(Fragile, which), name="check")
    after = [B.ModelAttribute("value", name="read")] + [B.Sum(2, name=f"sum{i}") for i in range(count)]
    pipes = [Pipe(method.outputs[0], after[0].inputs[0])]
    for one, two in zip(after, after[1:]):
        pipes.append(Pipe(one.outputs[0], two.inputs[0]))
    blocks = [method, *after, make]
    rng.shuffle(blocks)
    workflow = Workflow(blocks, pipes, output=after[-1].outputs[0], name="w")
    values = {}
    for i, variable in enumerate(workflow.inputs):
        if variable is method.inputs[0]:
            values[i] = Fragile(value, [1], name="f")
        elif variable is method.inputs[1]:
            values[i] = limit
        else:
            values[i] = 1
    m.case((value, limit, count, which, FAILURE[0].__name__, [b.name for b in blocks]))
    seen = []
    TRACE.clear()
    wfmodels.CALLS.clear()
    if value > limit:
        m.refuses("error-propagates", workflow.run, values, progress_callback=seen.append, errors=(FAILURE[0],))
        m.check(not any(e.block in after for e in TRACE), "nothing-after-error")
    else:
        run = m.call("run", workflow.run, values, progress_callback=seen.append)
        m.same(run.output_value, value + count, "run-output")
    m.equal([c for c in wfmodels.CALLS if c[0] == "check"], [("check", value, limit)], "method-called-once")
    expected = {"check": 0}.get(which, 1 / 2 / len(blocks))
    m.check(not expected or any(abs(x - expected) < 1e-9 for x in seen) or any(x > expected for x in seen), "progress-told", which, seen)


@scenario("C08", 500, 8000, rule="loops: the sub workflow of ForEach and WorkflowBlock is evaluated once per element, in order")
def loops(rng, m):
    gen = WFGen(rng, displays=False, nested=rng.choice([0, 0, 1]), locks=False, mutate=False)
    for _ in range(50):
        holder = WF()
        node = gen.make("foreach", holder) if gen.nested else WFGen(rng, displays=False, nested=1, locks=False,
                                                                    mutate=False).make("foreach", holder)
        if node is not None:
            break
    else:
        m.ev("no-loop")
        return
    index = node.block.iter_input_index
    values = [gen.value(k) for k in node.kinds]
    values[index] = [gen.value(inner) for inner in [sub_kind(node, index)] for _ in range(rng.choice([0, 1, 2, 5]))]
    m.case((node.tag, plain(values)))
    workflow = Workflow([node.block], [], output=node.block.outputs[0])
    TRACE.clear()
    run = m.call("run", workflow.run, dict(enumerate(values)))
    expected = node.func(*values)[0]
    m.same(plain(run.output_value), plain(expected), "loop-output")
    m.equal(len(run.output_value), len(values[index]), "loop-length")
    sub = node.sub
    for needed in sub.needed():
        count = len([e for e in TRACE if e.block is needed.block])
        m.equal(count, len(values[index]), "loop-evaluations", needed.tag)
    m.ev("iterations", len(values[index]))


def sub_kind(node, index):
    return node.sub.kind_of[node.sub.workflow.inputs[index]]
