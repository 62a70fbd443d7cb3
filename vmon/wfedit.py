""" Random editing histories of workflow steps and inputs, with a model of what the workflow must look like. """
from dessia_common.workflow.core import UNDEFINED

from .wfgen import index_of

LABELS = ["", "Step", "Étape", "a 'b'", "Step", "second"]


def upstream_inputs(workflow, variable):
    """ Indices of the unlocked inputs a block output depends on, computed from pipes only. """
    feeds = {}
    for pipe in workflow.pipes:
        feeds[id(pipe.output_variable)] = pipe.input_variable
    block = next(b for b in workflow.blocks if any(v is variable for v in list(b.inputs) + list(b.outputs)))
    seen, todo, out = [], [block], set()
    while todo:
        block = todo.pop()
        if any(block is b for b in seen):
            continue
        seen.append(block)
        for input_ in block.inputs:
            upstream = feeds.get(id(input_))
            if upstream is None:
                if not input_._locked:
                    out.add(index_of(workflow.inputs, input_))
            else:
                owner = [b for b in workflow.blocks if any(v is upstream for v in b.outputs)]
                if owner:
                    todo.append(owner[0])
                elif not upstream._locked:
                    out.add(index_of(workflow.inputs, upstream))
    return out


class Editor:
    """ Applies random edits to a workflow and to a model of it. """

    ACTIONS = ["insert", "insert", "move", "move", "move", "take_out", "rename", "reorder", "remove", "reset", "order_inputs",
               "display", "display", "undisplay", "document", "label", "lock", "default"]

    def __init__(self, rng, wf, m, values=True):
        self.rng, self.wf, self.workflow, self.m = rng, wf, wf.workflow, m
        self.values = values      # whether defaults and locks may change
        self.steps = []           # dicts
        self.spare = list(range(len(self.workflow.inputs)))
        self.labels = [v.label for v in self.workflow.inputs]

    def random_inputs(self):
        return self.rng.sample(range(len(self.workflow.inputs)), self.rng.randint(1, len(self.workflow.inputs)))

    def drop(self, index):
        """ Remove an input from where it is. """
        if index in self.spare:
            self.spare.remove(index)
        for step in self.steps:
            if index in step["inputs"]:
                step["inputs"].remove(index)

    def edit(self):
        """ One random edit; returns (name, form returned by the workflow or None). """
        rng, workflow, m = self.rng, self.workflow, self.m
        action = rng.choice(self.ACTIONS)
        nsteps, ninputs = len(self.steps), len(workflow.inputs)
        step_index = rng.randrange(nsteps) if nsteps else None
        form = None
        if action == "insert" and nsteps < 6:
            label, where = rng.choice(LABELS), rng.choice([None, None, 0, nsteps, rng.randint(0, nsteps)])
            form = m.call("insert_step", workflow.insert_step, label, where)
            self.steps.insert(nsteps if where is None else where,
                              {"label": label, "inputs": [], "documentation": "", "display": None})
        elif action == "move" and nsteps and ninputs:
            chosen = self.random_inputs()
            form = m.call("change_inputs_step", workflow.change_inputs_step, list(chosen), step_index)
            for index in chosen:
                self.drop(index)
                self.steps[step_index]["inputs"].append(index)
        elif action == "take_out" and nsteps and self.steps[step_index]["inputs"]:
            index = rng.choice(self.steps[step_index]["inputs"])
            form = m.call("remove_input_from_step", workflow.remove_input_from_step, index)
            self.drop(index)
            self.spare.append(index)
        elif action == "rename" and nsteps:
            label = rng.choice(LABELS)
            form = m.call("rename_step", workflow.rename_step, step_index, label)
            self.steps[step_index]["label"] = label
        elif action == "reorder" and nsteps:
            order = rng.sample(range(nsteps), nsteps)
            form = m.call("reorder_steps", workflow.reorder_steps, list(order))
            self.steps = [self.steps[i] for i in order]
        elif action == "remove" and nsteps:
            form = m.call("remove_step", workflow.remove_step, step_index)
            self.spare.extend(self.steps.pop(step_index)["inputs"])
        elif action == "reset" and nsteps and rng.random() < .4:
            form = m.call("reset_steps", workflow.reset_steps)
            for step in self.steps:
                self.spare.extend(step["inputs"])
            self.steps = []
        elif action == "order_inputs" and nsteps:
            order = rng.sample(self.steps[step_index]["inputs"], len(self.steps[step_index]["inputs"]))
            form = m.call("reorder_step_inputs", workflow.reorder_step_inputs, step_index, list(order))
            self.steps[step_index]["inputs"] = order
        elif action == "display" and nsteps:
            outputs = [v for b in workflow.blocks for v in b.outputs if v.available_display_settings]
            if not outputs:
                return "none", None
            variable = rng.choice(outputs)
            selector = rng.choice(variable.available_display_settings).selector
            variable_index = index_of(workflow.variables, variable)
            form = m.call("add_step_display", workflow.add_step_display, variable_index, step_index, selector)
            group = upstream_inputs(workflow, variable)
            previous = {i for s in self.steps[:step_index] for i in s["inputs"]}
            step = self.steps[step_index]
            moved = group - previous
            for index in moved:
                self.drop(index)
            kept = list(step["inputs"])
            got = [index_of(workflow.inputs, v) for v in workflow.steps[step_index].inputs]
            m.equal(got[:len(kept)], kept, "display-keeps-inputs")
            m.equal(sorted(got[len(kept):]), sorted(moved), "display-moves-needed-inputs")
            step["inputs"] = got
            step["display"] = (selector, variable_index, group)
        elif action == "undisplay" and nsteps:
            form = m.call("remove_step_display", workflow.remove_step_display, step_index)
            self.steps[step_index]["display"] = None
        elif action == "document" and nsteps:
            text = rng.choice(["", "doc", "# Doc\nwith \"quotes\""])
            form = m.call("save_step_documentation", workflow.save_step_documentation, step_index, text)
            self.steps[step_index]["documentation"] = text
        elif action == "label" and ninputs:
            index, label = rng.randrange(ninputs), rng.choice(["", "Label", "é", "x 'y'"])
            form = m.call("rename_input", workflow.rename_input, index, label)
            self.labels[index] = label
        elif action in ("lock", "default") and ninputs and self.values:
            index = rng.randrange(ninputs)
            variable = workflow.inputs[index]
            value = self.wf.effective[variable]
            if value is None:
                return "none", None
            if action == "lock":
                form = m.call("lock_input", workflow.lock_input, index, value)
            elif variable not in self.wf.given or not variable.locked:
                form = m.call("set_input_default", workflow.set_input_default, index, value)
            else:
                return "none", None
        else:
            return "none", None
        self.check()
        return action, form

    def check(self):
        """ The partition of inputs, steps, labels are the ones of the model. """
        m, workflow = self.m, self.workflow
        m.equal(len(workflow.steps), len(self.steps), "step-count")
        for step, expected in zip(workflow.steps, self.steps):
            m.equal(step.label, expected["label"], "step-label")
            m.equal([index_of(workflow.inputs, v) for v in step.inputs], expected["inputs"], "step-inputs")
            m.equal(step.documentation, expected["documentation"], "step-documentation")
            if expected["display"] is None:
                m.check(step.display_setting is None and not step.group_inputs and step.display_variable_index is None,
                        "step-without-display")
            else:
                m.equal(step.display_setting.selector, expected["display"][0], "step-display")
                m.equal(step.display_variable_index, expected["display"][1], "step-display")
                m.equal({index_of(workflow.inputs, v) for v in step.group_inputs}, expected["display"][2], "step-group")
        m.equal(sorted(index_of(workflow.inputs, v) for v in workflow.spare_inputs), sorted(self.spare), "spare-inputs")
        places = [id(v) for s in workflow.steps for v in s.inputs] + [id(v) for v in workflow.spare_inputs]
        m.equal(sorted(places), sorted(id(v) for v in workflow.inputs), "inputs-partition")
        m.equal([v.label for v in workflow.inputs], self.labels, "input-labels")
        m.ev("edits")
