""" C13: step editing conserves workflow inputs; the form presents exactly them. """
import copy
import json

from vmon.core import scenario
from vmon.wfdesc import describe
from vmon.wfedit import Editor, upstream_inputs
from vmon.wfgen import TRACE, trace_of, index_of
from vmon.wfmodels import Box, Crate, plain, loose
from vmon.checks.c08 import generate, view

from dessia_common.serialization import serialize


def check_property(m, workflow, chunk):
    index = int(chunk["key"])
    variable = workflow.inputs[index]
    m.equal(chunk["editable"], not variable._locked, "form-editable")
    if variable.label:
        m.equal(chunk["title"], variable.label, "form-title")
    else:
        m.check(chunk["title"] != "", "form-title")
    if variable.has_default_value and type(variable.default_value) in (int, str):
        m.same(chunk.get("defaultValue"), variable.default_value, "form-default")
    if not variable.has_default_value and variable.type_ in (int, str):
        m.check(chunk.get("defaultValue") is None, "form-default")
    return index


def check_form(m, editor, form):
    """ The form holds exactly the inputs, at their place. """
    workflow = editor.workflow
    m.equal(len(form["steps"]), len(editor.steps), "form-steps")
    seen = []
    for chunk, expected in zip(form["steps"], editor.steps):
        m.equal(chunk["label"], expected["label"], "form-label")
        m.equal(chunk["documentation"], expected["documentation"], "form-documentation")
        group = expected["display"][2] if expected["display"] else set()
        free, grouped = [], []
        for property_ in chunk["properties"]:
            if property_.get("formType") == "group":
                grouped.extend(check_property(m, workflow, p) for p in property_["properties"])
                m.ev("groups")
            else:
                free.append(check_property(m, workflow, property_))
        m.equal(free, [i for i in expected["inputs"] if i not in group], "form-inputs")
        m.equal(grouped, [i for i in expected["inputs"] if i in group], "form-group")
        m.equal(chunk["displayVariable"], expected["display"][1] if expected["display"] else None, "form-display")
        setting = chunk["displaySetting"]
        m.equal(setting["selector"] if setting else None, expected["display"][0] if expected["display"] else None,
                "form-display")
        seen += free + grouped
    spare = [check_property(m, workflow, p) for p in form["spareProperties"]]
    m.equal(sorted(spare), sorted(editor.spare), "form-spare")
    m.equal(sorted(seen + spare), list(range(len(workflow.inputs))), "form-partition")
    if not any(v.type_ is None and v.has_default_value for v in workflow.inputs):  # untyped inputs have no form
        m.call("form-json", json.dumps, form)
    m.ev("forms")


@scenario("C13", 900, 10000, rule="random editing histories: after each edit, inputs are partitioned as the model says and the form presents them")
def histories(rng, m):
    wf = generate(rng, m, long=.0015, files=False, nested=rng.choice([0, 0, 1]), mutate=False)
    editor = Editor(rng, wf, m)
    workflow = wf.workflow
    computes = [describe(workflow)[k] for k in ("pipes", "output")]
    for _ in range(rng.choice([3, 8, 15, 30])):
        action, form = editor.edit()
        m.ev("action:" + action)
        m.log(action)
        if form is not None and rng.random() < .5:
            check_form(m, editor, form)
    check_form(m, editor, workflow.method_schemas["run"])
    m.equal([describe(workflow)[k] for k in ("pipes", "output")], computes, "graph-kept")
    values = {i: v for i, v in wf.input_values().items()}
    node, port = wf.output
    reference = wf.reference(only=wf.needed())
    TRACE.clear()
    run = m.call("run", workflow.run, values)
    m.equal(view(run.output_value), view(reference[node][1][port]), "computation-kept")


def snapshot(workflow):
    return describe(workflow)


@scenario("C13", 600, 8000, rule="invalid edits (unknown steps, inputs, selectors, orders) raise and leave everything as it was")
def rejected(rng, m):
    wf = generate(rng, m, long=.0015, files=False, nested=0, mutate=False)
    editor = Editor(rng, wf, m)
    workflow = wf.workflow
    for _ in range(rng.choice([1, 4, 10])):
        editor.edit()
    nsteps, ninputs = len(workflow.steps), len(workflow.inputs)
    for _ in range(rng.choice([1, 3])):
        kind = rng.choice(["unknown_step", "unknown_input", "partly_unknown", "spare_out", "order_short", "order_twice",
                           "order_out", "inputs_order", "rename", "remove", "document", "selector", "display_step",
                           "lock_unknown", "label_unknown", "lock_without_value", "undisplay"])
        before = snapshot(workflow)
        m.ev("rejected:" + kind)
        m.log(kind)
        bad_step, bad_input = nsteps + rng.choice([0, 1, 5]), ninputs + rng.choice([0, 3])
        if kind == "unknown_step" and ninputs:
            call = (workflow.change_inputs_step, [rng.randrange(ninputs)], bad_step)
        elif kind == "unknown_input" and nsteps:
            call = (workflow.change_inputs_step, [bad_input], rng.randrange(nsteps))
        elif kind == "partly_unknown" and nsteps and ninputs:
            call = (workflow.change_inputs_step, [rng.randrange(ninputs), bad_input], rng.randrange(nsteps))
        elif kind == "spare_out" and workflow.spare_inputs:
            call = (workflow.remove_input_from_step, index_of(workflow.inputs, rng.choice(workflow.spare_inputs)))
        elif kind == "order_short" and nsteps:
            call = (workflow.reorder_steps, list(range(nsteps - 1)))
        elif kind == "order_twice" and nsteps > 1:
            call = (workflow.reorder_steps, [0] * nsteps)
        elif kind == "order_out" and nsteps:
            call = (workflow.reorder_steps, list(range(1, nsteps + 1)))
        elif kind == "inputs_order" and nsteps:
            step_index = rng.randrange(nsteps)
            current = [index_of(workflow.inputs, v) for v in workflow.steps[step_index].inputs]
            order = rng.choice([current + [bad_input], current[:-1] if current else [0], current + current[:1] or [1],
                                [c + 1 for c in current] or [0]])
            if sorted(order) == sorted(current):
                continue
            call = (workflow.reorder_step_inputs, step_index, order)
        elif kind == "rename":
            call = (workflow.rename_step, bad_step, "new")
        elif kind == "remove":
            call = (workflow.remove_step, bad_step)
        elif kind == "document":
            call = (workflow.save_step_documentation, bad_step, "new")
        elif kind == "undisplay":
            call = (workflow.remove_step_display, bad_step)
        elif kind in ("selector", "display_step"):
            outputs = [v for b in workflow.blocks for v in b.outputs if v.available_display_settings]
            if not outputs or not nsteps:
                continue
            variable = index_of(workflow.variables, rng.choice(outputs))
            if kind == "selector":
                call = (workflow.add_step_display, variable, rng.randrange(nsteps), "No such selector")
            else:
                selector = workflow.variables[variable].available_display_settings[0].selector
                call = (workflow.add_step_display, variable, bad_step, selector)
                if not upstream_inputs(workflow, workflow.variables[variable]):
                    pass
        elif kind == "lock_unknown":
            call = (workflow.lock_input, bad_input, 3)
        elif kind == "label_unknown":
            call = (workflow.rename_input, bad_input, "new")
        elif kind == "lock_without_value":
            free = [v for v in workflow.inputs if not v.has_default_value]
            if not free:
                continue
            call = (workflow.lock_input, index_of(workflow.inputs, rng.choice(free)))
        else:
            continue
        m.refuses("invalid-edit-refused", *call)
        m.same(snapshot(workflow), before, "invalid-edit-changes", kind)


@scenario("C13", 500, 6000, rule="displays attached to steps evaluate exactly the needed blocks on the given values and show the right object")
def displays(rng, m):
    wf = generate(rng, m, long=.0015, files=False, nested=rng.choice([0, 0, 1]), mutate=False)
    editor = Editor(rng, wf, m)
    workflow = wf.workflow
    outputs = [(n, p) for n in wf.nodes for p, k in enumerate(n.outs) if k == "box"
               and n.block.outputs[p].type_ is Box]
    if not outputs:
        m.ev("no-display")
        return
    for _ in range(rng.choice([0, 3, 8])):
        editor.edit()
    workflow.insert_step("displayed")
    step = len(workflow.steps) - 1
    node, port = rng.choice(outputs)
    variable = node.block.outputs[port]
    selector = rng.choice(["Note", "Chart"])
    m.call("add_step_display", workflow.add_step_display, index_of(workflow.variables, variable), step, selector)
    values = {str(i): serialize(v) for i, v in wf.input_values().items() if not workflow.inputs[i].locked}
    needed = set()
    todo = [node]
    while todo:
        current = todo.pop()
        if current not in needed:
            needed.add(current)
            todo.extend(s[0] for s in current.sources if isinstance(s, tuple))
    TRACE.clear()
    display = m.call("compute_step_display", workflow.compute_step_display, step, json.loads(json.dumps(values)))
    order = [wf.node_of(e.block) for e in trace_of(workflow)]
    m.equal(sorted(order, key=id), sorted(needed, key=id), "display-evaluates-needed-once")
    box = wf.reference(only=[node])[node][1][port]
    if selector == "Note":
        m.equal(display["data"], f"# Box {box.value}", "display-data")
    else:
        m.equal(display["data"], [f"chart of {box.value} at #"], "display-data")
    m.equal(display["traceback"], "", "display-traceback")
    m.ev("displays")


@scenario("C13", 300, 5000, rule="display settings available for each step only need inputs of this step and previous ones or spare ones")
def available_displays(rng, m):
    wf = generate(rng, m, long=.0015, files=False, nested=0, mutate=False)
    editor = Editor(rng, wf, m)
    workflow = wf.workflow
    for _ in range(rng.choice([3, 8, 12])):
        editor.edit()
    result = m.call("displayable_display_settings", workflow.displayable_display_settings)
    available = result["available_display_settings"]
    m.equal(len(available), len(editor.steps), "one-entry-per-step")
    for i in range(len(editor.steps)):
        later = {x for s in editor.steps[i + 1:] for x in s["inputs"]}
        expected = set()
        for block in workflow.blocks:
            for variable in block.outputs:
                if variable.available_display_settings and not upstream_inputs(workflow, variable) & later:
                    expected.add(index_of(workflow.variables, variable))
        m.equal(set(available[i]), expected, "available-displays", f"step {i}")
        for index, settings in available[i].items():
            m.equal([s["selector"] for s in settings],
                    [s.selector for s in workflow.variables[index].available_display_settings], "available-selectors")
    m.ev("available")
