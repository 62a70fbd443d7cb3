""" C10: workflows survive serialization and copy. """
import copy
import json

from dessia_common.core import DessiaFilter, DessiaObject
from dessia_common.typings import AttributeType, CadViewType, ClassMethodType, MarkdownType, MethodType, PlotDataType
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Workflow, Variable, Pipe, Step, RESULT_VARIABLE_NAME

from vmon.core import probe, scenario
from vmon.wfdesc import describe, variables_of, address
from vmon.wfedit import Editor
from vmon.wfgen import index_of
from vmon.wfmodels import Box, Crate, Recorder, packaged, plain, loose
from vmon.checks.c08 import generate, view


def edited(rng, m, **kwargs):
    """ A random workflow with a random editing history. """
    wf = generate(rng, m, **kwargs)
    for _ in range(rng.choice([0, 0, 1, 2])):
        variable = Variable(type_=rng.choice([int, str]), name=rng.choice(["loose", "é"]), label=rng.choice(["", "L"]),
                            position=rng.choice([(0, 0), (3, 4.5)]))
        if rng.random() < .4:
            variable.default_value = 3 if variable.type_ is int else "t"
        wf.workflow.detached_variables.append(variable)
    editor = Editor(rng, wf, m)
    for _ in range(rng.choice([0, 0, 3, 8, 15])):
        m.log(editor.edit()[0])
    if any(not v.locked and v not in wf.given for v in wf.effective if not v.has_default_value):
        m.ev("incomplete")
    return wf


def round_trip(m, workflow, way):
    if way == "dict":
        dict_ = m.call("to_dict", workflow.to_dict)
        text = m.call("json", json.dumps, dict_)
        return m.call("dict_to_object", rng_choice_reader(text), json.loads(text))
    if way == "deepcopy":
        return m.call("deepcopy", copy.deepcopy, workflow)
    return m.call("copy", workflow.copy)


def rng_choice_reader(text):
    return Workflow.dict_to_object if len(text) % 2 else DessiaObject.dict_to_object


@scenario("C10", 1500, 24000, rule="random workflows with random edits, then JSON round trip or copy: same description, equal, "
                                   "same result, no shared variable")
def faithful(rng, m):
    wf = edited(rng, m)
    workflow = wf.workflow
    way = rng.choice(["dict", "dict", "deepcopy", "copy"])
    m.ev("way:" + way)
    content = loose if way == "dict" else plain
    ordered = way != "dict"
    before = describe(workflow, content, ordered)
    other = round_trip(m, workflow, way)
    m.same(describe(other, content, ordered), before, "description-kept", way)
    m.same(describe(workflow, content, ordered), before, "original-untouched", way)
    m.check(workflow == other and other == workflow, "equal", way)
    m.check(hash(workflow) == hash(other), "hash", way)
    mine = {id(v) for v in variables_of(workflow)} | {id(b) for b in workflow.blocks} | {id(p) for p in workflow.pipes} \
        | {id(s) for s in workflow.steps}
    theirs = {id(v) for v in variables_of(other)} | {id(b) for b in other.blocks} | {id(p) for p in other.pipes} \
        | {id(s) for s in other.steps}
    m.check(not mine & theirs, "nothing-shared", way)
    values = wf.input_values()
    reference = m.call("run", workflow.run, dict(values))
    result = m.call("run-copy", other.run, dict(values))
    m.same(view(result.output_value), view(reference.output_value), "same-result", way)
    if rng.random() < .3:  # once more
        again = round_trip(m, other, rng.choice(["dict", "deepcopy"]))
        m.same(describe(again, loose, False), describe(workflow, loose, False), "second-trip")


@scenario("C10", 500, 9000, rule="dicts as earlier versions wrote them (locks as imposed values, no steps, no texts, no step settings): read as the "
                                 "same workflow with the same locks, the missing parts being the default ones, and the same results")
def older_dicts(rng, m):
    wf = edited(rng, m)
    workflow = wf.workflow
    dict_ = json.loads(m.call("json", json.dumps, m.call("to_dict", workflow.to_dict)))
    expected = describe(workflow, loose, False)
    if rng.random() < .6:
        imposed = {}
        for i, block in enumerate(dict_["blocks"]):
            for j, (variable, config) in enumerate(zip(workflow.blocks[i].inputs, block.get("inputs", []))):
                if variable._locked and config.get("default_value") is not None:
                    imposed[str((i, 0, j))] = config.pop("default_value")
                    config.pop("locked")
        for i, (variable, config) in enumerate(zip(workflow.nonblock_variables, dict_["nonblock_variables"])):
            if variable._locked and config.get("default_value") is not None:
                imposed[str(i)] = config.pop("default_value")
                config.pop("locked")
        dict_["imposed_variable_values"] = imposed
        m.ev("imposed", len(imposed))
    for name in ("documentation", "description"):
        if rng.random() < .3:
            del dict_[name]
            expected[name] = ""
    if rng.random() < .3:
        for step, wanted in zip(dict_["steps"], expected["steps"]):
            for name, default in (("documentation", ""), ("display_variable_index", None)):
                if rng.random() < .5 and not (name != "documentation" and step["display_setting"]):
                    del step[name]
                    wanted[name] = default
    if rng.random() < .3:
        del dict_["steps"]
        fresh = describe(Workflow(*fresh_parts(m, workflow)), loose, False)
        expected["steps"], expected["spare"] = fresh["steps"], fresh["spare"]
        for step in expected["steps"]:
            step.pop("id")
    other = m.call("dict_to_object", rng_choice_reader(json.dumps(dict_)), dict_)
    got = describe(other, loose, False)
    if "steps" not in dict_:
        for step in got["steps"]:
            step.pop("id")
    m.same(got, expected, "older-dict")
    values = wf.input_values()
    reference, result = m.call("run", workflow.run, dict(values)), m.call("run-older", other.run, dict(values))
    m.same(view(result.output_value), view(reference.output_value), "older-result")


def fresh_parts(m, workflow):
    copied = round_trip(m, workflow, "deepcopy")
    return copied.blocks, copied.pipes, copied.output


@scenario("C10", 150, 3000, rule="display blocks as earlier versions wrote them (selectors as strings, selector dicts, none): the workflow is read, "
                                 "survives new trips, gives the same result, and displays what the current block displays")
def older_displays(rng, m):
    source = B.InstantiateModel(Box, name="source")
    gather = B.Sequence(2, name="gather")
    kinds = {"md": lambda: B.Markdown(MarkdownType(Box, "Note"), name=rng.choice(["d", "é"])),
             "plot": lambda: B.PlotData(PlotDataType(Box, "Chart"), name="p"),
             "cad": lambda: B.CadView(CadViewType(Box, "Shape"), name="c"),
             "multi": lambda: B.MultiPlot(selector_name=rng.choice(["Results", "R é"]), attributes=rng.choice([["value", "name"], ["name", "value", "value"]]),
                                          name="m")}
    chosen = rng.sample(sorted(kinds), rng.choice([1, 2, 4]))
    blocks, pipes = [source, gather], [Pipe(source.outputs[0], gather.inputs[0]), Pipe(source.outputs[0], gather.inputs[1])]
    for kind in chosen:
        block = kinds[kind]()
        block.position = rng.choice([(0, 0), (4, 7.5)])
        blocks.append(block)
        pipes.append(Pipe((gather if kind == "multi" else source).outputs[0], block.inputs[0]))
    workflow = Workflow(blocks, pipes, gather.outputs[0], name=rng.choice(["", "old"]))
    dict_ = json.loads(json.dumps(m.call("to_dict", workflow.to_dict)))
    olds = []
    for kind, config in zip(chosen, dict_["blocks"][2:]):
        old = rng.choice(["now", "string", "string"] if kind != "multi" else ["now", "string", "dict", "none"])
        if old != "now":
            config.pop("inputs"), config.pop("outputs")
            selector = config.pop("selector")
            config.pop("selector_name", None)
            if old != "none":
                config["selector"] = selector["name"] if old == "string" else selector
            if kind != "multi" and rng.random() < .7:
                config.pop("load_by_default")
        olds.append(old)
        m.ev(f"{kind}:{old}")
    if rng.random() < .3:
        names = [f"in{i}" for i in range(len(blocks[0].inputs))]
        dict_["blocks"][0].update({"input_names": names, "output_names": ["made"]})
    value = rng.randint(-3, 9)
    m.case((chosen, olds, value, json.dumps(dict_)))
    other = m.call("dict_to_object", Workflow.dict_to_object, dict_)
    for way in ("dict", "deepcopy", "copy"):
        third = round_trip(m, other, way)
        m.check(third == other and other == third and hash(third) == hash(other), "older-display-equal", way)
        m.same(describe(third, loose, False), describe(other, loose, False), "older-display-kept", way)
    m.equal([tuple(b.position) for b in other.blocks], [tuple(b.position) for b in blocks], "older-display-positions")
    m.equal([b.name for b in other.blocks], [b.name for b in blocks], "older-display-names")
    runs = [m.call("run", w.run, {0: value}) for w in (workflow, other)]
    m.same(view(runs[1].output_value), view(runs[0].output_value), "older-display-result")
    for i, (kind, old) in enumerate(zip(chosen, olds)):
        shown = []
        for run in runs:
            settings_ = [s for s in m.call("settings", lambda: run.workflow.blocks_display_settings) if s.arguments["block_index"] == i + 2]
            m.equal(len(settings_), 1, "older-display-settings", kind)
            shown.append((settings_[0].type, m.call("display", run._display_from_selector, settings_[0].selector).to_dict()))
            if old != "none":
                m.check(settings_[0].selector in [s.selector for s in run.display_settings()],
                        "older-display-listed", kind)
        for type_, shown_ in shown:
            m.equal(shown_["traceback"], "", "older-display-shows", kind)
        if old == "none":  # the block of that version did not draw the same figure
            elements = [s["data"]["elements"] for _, s in shown]
            m.equal(*[[(e["values"], e["reference_path"]) for e in side] for side in elements], "older-display-samples")
        else:
            m.same(*[json.loads(json.dumps(s, default=str)) for s in shown], "older-display-same", f"{kind} {old}")


@scenario("C10", 300, 6000, rule="drafts: workflows without output, without blocks, with a piped result name: they survive the dict and the copy, "
                                 "and differ from the finished workflow")
def drafts(rng, m):
    kind = rng.choice(["open", "open", "empty", "named", "named"])
    m.ev(kind)
    if kind == "empty":
        workflow = rng.choice([Workflow.generate_empty, lambda: Workflow([], [], None, name="e", documentation="d"),
                               lambda: Workflow([], [], None, detached_variables=[Variable(type_=int, name="alone", label="L", position=(1, 2))])])()
        finished = None
    else:
        finished = edited(rng, m).workflow
        blocks, pipes, output = fresh_parts(m, finished)
        if kind == "named":
            target = B.ConcatenateStrings(2, name="text")
            variable = Variable(type_=str, name=RESULT_VARIABLE_NAME, label=rng.choice(["", "Result Name"]), position=(1, 2))
            blocks, pipes = blocks + [target], pipes + [Pipe(variable, target.inputs[rng.randint(0, 1)])]
        workflow = Workflow(blocks, pipes, None if kind == "open" else output, name=finished.name,
                            documentation=rng.choice(["", finished.documentation]), description=finished.description)
    way = rng.choice(["dict", "dict", "deepcopy", "copy"])
    content, ordered = (loose, False) if way == "dict" else (plain, True)
    before = describe(workflow, content, ordered)
    m.case(before)
    other = round_trip(m, workflow, way)
    m.same(describe(other, content, ordered), before, "draft-kept", f"{kind} {way}")
    m.same(describe(workflow, content, ordered), before, "draft-untouched", f"{kind} {way}")
    m.check(workflow == other and other == workflow and hash(workflow) == hash(other), "draft-equal", f"{kind} {way}")
    if finished is not None and kind == "open":
        m.check(not workflow == finished and not finished == workflow, "draft-differs")
    if kind == "named":
        at = [i for i, v in enumerate(workflow.inputs) if v.name == RESULT_VARIABLE_NAME]
        m.equal(at, [i for i, v in enumerate(other.inputs) if v.name == RESULT_VARIABLE_NAME], "name-input")
        m.equal(len(at), 1, "name-input")


@scenario("C10", 700, 12000, rule="edit the copy (steps, labels, locks, defaults, mutable defaults, names): original unchanged, and conversely")
def independence(rng, m):
    wf = edited(rng, m, mutate=False)
    workflow = wf.workflow
    other = round_trip(m, workflow, rng.choice(["dict", "deepcopy", "copy"]))
    target, kept = (workflow, other) if rng.random() < .5 else (other, workflow)
    before = describe(kept)
    actions = ["label", "default", "lock", "mutate", "block", "nbv", "steps", "text", "insert"]
    for _ in range(rng.choice([1, 3, 6])):
        action = rng.choice(actions)
        m.ev("edit:" + action)
        if action == "label" and target.inputs:
            rng.choice(target.inputs).label = "changed label"
        elif action == "default" and target.inputs:
            rng.choice(target.inputs).default_value = "changed"
        elif action == "lock" and target.inputs:
            rng.choice(target.inputs).lock(99)
        elif action == "mutate":
            for variable in variables_of(target):
                value = variable.default_value
                if isinstance(value, list):
                    value.append("changed")
                elif isinstance(value, dict):
                    value["changed"] = 1
                elif isinstance(value, Box):
                    value.tags.append("changed")
                    value.value = "changed"
        elif action == "block":
            block = rng.choice(target.blocks)
            block.name, block.position = "changed", (77, 77)
            for name in ("filters", "attributes", "indices"):
                if hasattr(block, name):
                    getattr(block, name).append("changed")
        elif action == "nbv" and target.nonblock_variables:
            variable = rng.choice(target.nonblock_variables)
            variable.name, variable.label, variable.position = "changed", "changed", (55, 55)
        elif action == "steps":
            for step in target.steps:
                step.label, step.documentation = "changed", "changed"
                step.inputs.reverse()
                step.group_inputs.append(None)
        elif action == "insert":
            target.steps.append(Step(label="changed"))
            target.spare_inputs.reverse()
            target.pipes.reverse()
        else:
            target.name, target.description, target.documentation = "changed", "changed", "changed"
    m.same(describe(kept), before, "edits-leak")


@scenario("C10", 700, 12000, rule="two workflows that differ by one block setting, pipe, step, lock, or output are not equal")
def discrimination(rng, m):
    wf = edited(rng, m, nested=rng.choice([0, 0, 1]))
    workflow = wf.workflow
    other = round_trip(m, workflow, rng.choice(["dict", "deepcopy"]))
    m.check(workflow == other, "equal-before")
    blocks, pipes, output, steps = other.blocks, other.pipes, other.output, other.steps
    changes = ["output", "pipe", "step", "lock", "setting", "setting", "setting", "remove_pipe", "lock_value"]
    change = rng.choice(changes)
    if change == "output":
        candidates = [v for b in blocks for v in b.outputs if v is not output]
        if not candidates:
            return
        other = Workflow(blocks, pipes, rng.choice(candidates), steps=steps)
    elif change == "pipe":
        if not pipes:
            return
        index = rng.randrange(len(pipes))
        old = pipes[index]
        fed = [p.output_variable for p in pipes]
        candidates = [v for b in blocks for v in b.inputs if not any(v is f for f in fed)]
        if not candidates:
            return
        try:
            pipes = list(pipes)
            pipes[index] = Pipe(old.input_variable, rng.choice(candidates))
            other = Workflow(blocks, pipes, output)
            reference = Workflow(workflow.blocks, workflow.pipes, workflow.output)
        except Exception:  # a cycle
            return
        m.check(not (reference == other), "pipe-ignored")
        m.check(not (other == reference), "pipe-ignored")
        return
    elif change == "remove_pipe":
        if not pipes:
            return
        pipes = list(pipes)
        del pipes[rng.randrange(len(pipes))]
        other = Workflow(blocks, pipes, output)
    elif change == "step":
        if other.steps and rng.random() < .7:
            step = rng.choice(other.steps)
            what = rng.choice(["label", "documentation", "inputs"])
            if what == "label":
                step.label += "x"
            elif what == "documentation":
                step.documentation += "x"
            elif step.inputs:
                other.remove_input_from_step(index_of(other.inputs, step.inputs[-1]))
            else:
                return
        else:
            other.insert_step("new")
    elif change == "lock_value":
        locked = [v for v in other.inputs if v.locked and isinstance(v.default_value, (int, str, list))]
        if not locked:
            return
        variable = rng.choice(locked)
        value = variable.default_value
        variable.lock(value + 1 if isinstance(value, int) else value + ["x"] if isinstance(value, list) else value + "x")
    elif change == "lock":
        unlocked = [v for v in other.inputs if not v.locked]
        if not unlocked:
            return
        rng.choice(unlocked).lock(5)
    else:
        index = rng.randrange(len(blocks))
        block = blocks[index]
        done = change_setting(rng, block)
        m.log(type(block).__name__, done)
        if not done:
            m.ev("no-setting")
            return
        change += ":" + done
    m.ev("change:" + change)
    m.check(not (workflow == other), "difference-ignored", change)
    m.check(not (other == workflow), "difference-ignored", change + " swapped")


def boxed(method):
    return MethodType(Box, method)


def small_workflow(number, method):
    """ A one-block workflow to be nested. """
    block = B.ModelMethod(boxed(method)) if method else B.Sum(number)
    return Workflow([block], [], block.outputs[0])


def view_of(code):
    """ A view of multi object blocks: s(catter) or p(arallel plot), then a letter by attribute. """
    attributes = [{"a": "value", "b": "name", "c": "tags"}[letter] for letter in code[1:]]
    return B.ScatterView(tuple(attributes)) if code[0] == "s" else B.ParallelView(attributes)


# kind of block -> (what each of its settings can be, how it is built out of them)
KINDS = {
    "InstantiateModel": ([[Box, Crate, Recorder, *packaged()]], B.InstantiateModel),
    "ClassMethod": ([["build", "describe"]], lambda n: B.ClassMethod(ClassMethodType(Box, n))),
    "ModelMethod": ([["double", "spread", "split", "scaled", "reported"]], lambda n: B.ModelMethod(boxed(n))),
    "Sequence": ([[1, 2, 3, 11]], B.Sequence),
    "Concatenate": ([[1, 2, 3]], B.Concatenate),
    "Product": ([[1, 2, 3]], B.Product),
    "Sum": ([[1, 2, 3]], B.Sum),
    "ConcatenateStrings": ([[1, 2, 3], ["", "-", "- ", " -", "--", " ", "\t", "é", "É", "e\u0301"]], B.ConcatenateStrings),
    "Unpacker": ([[[0], [1], [0, 1], [1, 0], [2, 0, 1]]], lambda i: B.Unpacker(list(i))),
    "Filter": ([["value", "name"], ["gt", "ge", "lt", "eq"], [0, 1, 2.5], [None, 1], ["and", "or"]],
               lambda a, o, b, c, l: B.Filter([DessiaFilter(a, o, b)]
                                              + ([DessiaFilter("value", "lt", c)] if c is not None else []),
                                              logical_operator=l)),
    "MultiPlot": ([["Sel", "Other"], [["value"], ["name"], ["value", "name"], ["name", "value"]]],
                  lambda s, a: B.MultiPlot(s, list(a))),
    "MultiObject": ([["Sel", "Other"], ["sab", "pab", "pba", "sba", "sab pba", "pba sab", "pab sab", "sab sab", "pabc", "pacb"]],
                    lambda s, c: B.MultiObject(s, [view_of(v) for v in c.split()])),
    "CadView": ([["Shape", "Other"]], lambda s: B.CadView(CadViewType(Box, s))),
    "Markdown": ([["Note", "Other"], [Box, Crate]], lambda s, c: B.Markdown(MarkdownType(c, s))),
    "PlotData": ([["Chart", "Other"]], lambda s: B.PlotData(PlotDataType(Box, s))),
    "ModelAttribute": ([["value", "names", "tags/0"]], B.ModelAttribute),
    "GetModelAttribute": ([["value", "tags", "name"]], lambda n: B.GetModelAttribute(AttributeType(Box, n))),
    "SetModelAttribute": ([["value", "tags", "name"]], lambda n: B.SetModelAttribute(AttributeType(Box, n))),
    "Export": ([["save_note", "save_blob"], [True, False], ["txt", "csv", "TXT"], ["export", "other", "Export", "export "]],
               lambda n, t, e, f: B.Export(boxed(n), t, e, f)),
    "Archive": ([[1, 2], ["archive", "other"]], B.Archive),
    "WorkflowBlock": ([[2, 3], ["", "spread", "split"]], lambda c, n: B.WorkflowBlock(small_workflow(c, n))),
    "ForEach": ([[0, 1], ["", "spread", "split"]],
                lambda i, n: B.ForEach(B.WorkflowBlock(small_workflow(2, n)), i)),
    # classes of the same name in different packages
    "ClassMethod of namesakes": ([packaged()], lambda c: B.ClassMethod(ClassMethodType(c, "of"))),
    "ModelMethod of namesakes": ([packaged()], lambda c: B.ModelMethod(MethodType(c, "grow"))),
    "GetModelAttribute of namesakes": ([packaged()], lambda c: B.GetModelAttribute(AttributeType(c, "size"))),
    "Flatten": ([], B.Flatten),
    "Substraction": ([], B.Substraction)}


def built(kind, values):
    block = KINDS[kind][1](*values)
    return Workflow([block], [], block.outputs[0])


@scenario("C10", 5000, 60000, rule="two one-block workflows of every built-in kind, each setting drawn from a small pool: they are "
                                   "equal, both ways, exactly when every setting is the same, equal ones have the same hash, "
                                   "and each is equal to what it is read back to")
def settings(rng, m):
    kind = rng.choice(sorted(KINDS))
    pools = KINDS[kind][0]
    first = [rng.choice(pool) for pool in pools]
    second = list(first)
    if pools and rng.random() < .7:
        for index in rng.sample(range(len(pools)), rng.choice([1, 1, len(pools)])):
            second[index] = rng.choice(pools[index])
    other_kind = kind
    if rng.random() < .08:
        other_kind = rng.choice(sorted(KINDS))
        second = second if other_kind == kind else [rng.choice(pool) for pool in KINDS[other_kind][0]]
    same = kind == other_kind and first == second
    if {kind, other_kind} & {"WorkflowBlock"} and kind == other_kind and first[1] == second[1] != "":
        same = True  # the count is not used
    one, two = m.call("first", built, kind, first), m.call("second", built, other_kind, second)
    m.log(kind, first, other_kind, second)
    m.case((kind, first, other_kind, second))
    m.ev(f"{kind}:{'same' if same else 'differ'}")
    if rng.random() < .4:
        one = round_trip(m, one, rng.choice(["dict", "deepcopy", "copy"]))
    m.equal(m.call("eq", lambda: one == two), same, "settings-equality", kind)
    m.equal(m.call("eq", lambda: two == one), same, "settings-equality", kind + " swapped")
    if kind == other_kind:
        m.equal(m.call("eq", lambda: one.blocks[0].equivalent(two.blocks[0])), same, "block-equivalent", kind)
    if same:
        m.equal(hash(one), hash(two), "settings-hash", kind)


@probe("C10", "C10-renamed-input")
def renamed_input(rng, m):
    block = B.WorkflowBlock(small_workflow(2, ""))
    block.inputs[0].name = "renamed"
    workflow = Workflow([block], [], block.outputs[0])
    m.check(round_trip(m, workflow, "dict") == workflow, "renamed-input-round-trip")


def change_setting(rng, block):
    """ Change one setting that decides what the block does, in place. """
    if isinstance(block, B.InstantiateModel):
        return ""
    if isinstance(block, B.Unpacker):
        block.indices = [block.indices[0] + 1] + list(block.indices[1:])
        return "Unpacker.indices"
    if isinstance(block, B.ConcatenateStrings):
        block.separator += "x"
        return "ConcatenateStrings.separator"
    if isinstance(block, B.ModelAttribute):
        block.attribute_name += "x"
        return "ModelAttribute.attribute_name"
    if isinstance(block, B.Filter):
        if rng.random() < .5:
            block.logical_operator = "or" if block.logical_operator == "and" else "and"
            return "Filter.logical_operator"
        filter_ = rng.choice(block.filters)
        filter_.bound = filter_.bound + 1 if isinstance(filter_.bound, int) else 0
        return "Filter.bound"
    if isinstance(block, B.MultiPlot):
        block.attributes = list(block.attributes) + ["tags"]
        return "MultiPlot.attributes"
    if isinstance(block, B.MultiObject):
        view = rng.choice(block.configurations)
        view.attributes = list(view.attributes) + ["tags"]
        return "MultiObject.configurations"
    if isinstance(block, B.CadView):
        block.selector = type(block.selector)(Box, "Other")
        return "Display.selector"
    if isinstance(block, B.ForEach):
        inner = block.workflow_block.workflow
        return "ForEach>" + sub if (sub := change_setting(rng, rng.choice(inner.blocks))) else ""
    if isinstance(block, B.WorkflowBlock):
        return "WorkflowBlock>" + sub if (sub := change_setting(rng, rng.choice(block.workflow.blocks))) else ""
    if isinstance(block, B.ModelMethod) and block.method_type.name in ("reported", "spread"):
        block.method_type = MethodType(Box, "split")
        return "ModelMethod.method"
    if isinstance(block, (B.GetModelAttribute, B.SetModelAttribute)):
        block.attribute_type = type(block.attribute_type)(block.attribute_type.class_,
                                                          "name" if block.attribute_type.name != "name" else "value")
        return "AttributeType"
    return ""
