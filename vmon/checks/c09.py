""" C09: interactive execution, monitored action by action against a model of what is available and evaluated. """
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Pipe, Workflow, WorkflowRun

from vmon.core import scenario
from vmon.wfmodels import plain
from vmon.wfgen import WFGen, TRACE, trace_of, index_of
from vmon.checks.c08 import view, generate


class Model:
    """ What an interactive state must look like. """

    def __init__(self, wf, given):
        self.wf, self.needed = wf, wf.needed()
        self.inputs = {}       # free variable -> value
        for variable in wf.free_variables():
            if variable.locked or variable.has_default_value:
                self.inputs[variable] = variable.default_value
        self.inputs.update(given)
        self.outputs = {}      # node -> output values
        self.given = set(given)

    def ready(self, node):
        for variable, source in zip(node.block.inputs, node.sources):
            if source is None:
                if variable not in self.inputs:
                    return False
            elif isinstance(source, tuple):
                if source[0] not in self.outputs:
                    return False
            elif source not in self.inputs:
                return False
        return True

    def activable(self, node):
        return self.ready(node) and (node not in self.outputs or node not in self.needed)

    def values(self, node):
        out = []
        for variable, source in zip(node.block.inputs, node.sources):
            if source is None:
                out.append(self.inputs[variable])
            elif isinstance(source, tuple):
                out.append(self.outputs[source[0]][source[1]])
            else:
                out.append(self.inputs[source])
        return out

    def used(self, variable):
        """ Whether an evaluated block already consumed this input. """
        for node in self.outputs:
            for own, source in zip(node.block.inputs, node.sources):
                if own is variable and source is None or source is variable:
                    return True
        return False

    @property
    def progress(self):
        return len([n for n in self.needed if n in self.outputs]) / len(self.needed)


def absorb(m, model, events):
    """ Check new evaluations one by one and update the model. """
    for event in events:
        node = model.wf.node_of(event.block)
        m.check(model.ready(node), "evaluated-without-inputs", node.tag)
        m.check(node not in model.outputs or node not in model.needed, "evaluated-twice", node.tag)
        values = model.values(node)
        for i, (got, expected) in enumerate(zip(event.inputs, values)):
            if node.kinds[i] != "file":
                m.same(got, plain(expected), "delivered-value", f"input {i} of {node.tag}")
        model.outputs[node] = node.func(*values)
        for i, (got, expected) in enumerate(zip(event.outputs, model.outputs[node])):
            if node.outs[i] not in ("display", "archive"):
                m.same(got, plain(expected), "block-result", f"output {i} of {node.tag}")
        m.ev("evaluations")


def check_state(m, model, state, last_progress, mutating):
    wf = model.wf
    progress = state.progress
    m.close(progress, model.progress, "progress-value")
    m.check(progress >= last_progress, "progress-decreases")
    m.check((progress == 1) == all(n in model.outputs for n in model.needed), "progress-complete")
    for node in wf.nodes:
        m.check(bool(state.activated_items[node.block]) == (node in model.outputs), "block-activation", node.tag)
    # values delivered by pipes: exactly the ones of evaluated blocks and available inputs
    for pipe in wf.workflow.pipes:
        producer = [(n, i) for n in wf.nodes for i, o in enumerate(n.block.outputs) if o is pipe.input_variable]
        if producer:
            node, port = producer[0]
            m.check((pipe in state.values) == (node in model.outputs), "pipe-has-value", node.tag)
            if pipe in state.values and node.outs[port] not in ("file", "archive", "display") and not mutating:
                m.same(plain(state.values[pipe]), plain(model.outputs[node][port]), "pipe-value", node.tag)
        else:
            m.check((pipe in state.values) == (pipe.input_variable in model.inputs), "pipe-has-value", "input")
    node, port = wf.output
    if node in model.outputs and not mutating:
        m.equal(view(state.output_value), view(model.outputs[node][port]), "state-output")
    elif node not in model.outputs:
        m.check(state.output_value is None, "no-output-yet")
    return progress


@scenario("C09", 3500, 50000, rule="random histories of input giving, block evaluations, next-block evaluations and continuations "
                                   "on random workflows; every step compared with a model")
def histories(rng, m):
    mutating = rng.random() < .2
    wf = generate(rng, m, files=rng.random() < .1, mutate=mutating, nested=rng.choice([0, 0, 1]))
    workflow = wf.workflow
    everything = {v: x for v, x in wf.given.items() if not v.locked}
    start = {v: x for v, x in everything.items()
             if rng.random() < .4 or (v.has_default_value and v.default_value is None)}
    model = Model(wf, start)
    TRACE.clear()
    state = m.call("start_run", workflow.start_run, {index_of(workflow.inputs, v): x for v, x in start.items()})
    m.check(not trace_of(workflow), "start-evaluates")
    progress = check_state(m, model, state, 0, mutating)
    for step in range(rng.choice([2, 5, 10, 20])):
        action = rng.choice(["input", "input", "several", "block", "block", "next", "next", "continue", "run", "block_inputs"])
        mark = len(TRACE)
        pending = [v for v in everything if v not in model.given and not model.used(v)]
        m.log(action)
        m.ev("action:" + action)
        if action == "input" and pending:
            variable = rng.choice(pending)
            m.call("add_input_value", state.add_input_value, index_of(workflow.inputs, variable), everything[variable])
            model.inputs[variable] = everything[variable]
            model.given.add(variable)
        elif action == "several" and pending:
            chosen = rng.sample(pending, rng.randint(1, len(pending)))
            indices = [index_of(workflow.inputs, v) for v in chosen]
            m.call("add_several_input_values", state.add_several_input_values, indices,
                   {i: everything[v] for i, v in zip(indices, chosen)})
            for variable in chosen:
                model.inputs[variable] = everything[variable]
                model.given.add(variable)
        elif action == "block_inputs":
            node = rng.choice(wf.nodes)
            block_index = index_of(workflow.blocks, node.block)
            variables = []
            for own, source in zip(node.block.inputs, node.sources):
                if not isinstance(source, tuple):
                    variable = own if source is None else source
                    if not any(variable is v for v in variables):
                        variables.append(variable)
            if any(v.locked or model.used(v) for v in variables):
                continue
            values, missing = {}, False
            for variable in variables:
                if variable in everything:
                    values[str(index_of(workflow.inputs, variable))] = everything[variable]
                elif variable not in model.inputs:
                    missing = True
            if missing:
                continue
            m.call("add_block_input_values", state.add_block_input_values, block_index, values)
            for variable in variables:
                if variable in everything:
                    model.inputs[variable] = everything[variable]
                    model.given.add(variable)
        elif action == "block":
            node = rng.choice(wf.nodes)
            if node in model.outputs and node.tag.startswith("Set"):
                continue
            expected = model.activable(node)
            done = m.call("block_evaluation", state.block_evaluation, index_of(workflow.blocks, node.block))
            m.check(bool(done) == expected, "block-evaluation-result", node.tag)
            events = trace_of(workflow, mark)
            m.equal([e.block is node.block for e in events], [True] * int(expected), "evaluates-only-that-block")
            absorb(m, model, events)
        elif action == "next":
            candidates = [n for n in wf.nodes if model.ready(n) and n not in model.outputs]
            block = m.call("evaluate_next_block", state.evaluate_next_block)
            events = trace_of(workflow, mark)
            if not candidates:
                m.check(block is None and not events, "next-without-candidates", "", events)
            else:
                m.check(any(block is n.block for n in candidates), "next-is-available")
                m.check(len(events) == 1 and events[0].block is block, "next-evaluates-one")
            absorb(m, model, events)
        elif action == "continue":
            if any(n.tag.startswith("Set") for n in model.outputs) and mutating:
                pass
            m.call("continue_run", state.continue_run)
            absorb(m, model, trace_of(workflow, mark))
            stuck = [n for n in model.needed if n not in model.outputs and model.ready(n)]
            m.check(not stuck, "continue-stops-early", "", stuck)
        elif action == "run":
            if model.progress == 1:
                run = m.call("to_workflow_run", state.to_workflow_run, "name")
                m.check(isinstance(run, WorkflowRun), "run-class")
                if not mutating:
                    m.equal(view(run.output_value), view(model.outputs[wf.output[0]][wf.output[1]]), "run-output")
            else:
                m.refuses("unfinished-run-refused", state.to_workflow_run, errors=(ValueError,))
        progress = check_state(m, model, state, progress, mutating)
    # finish
    for variable, value in everything.items():
        if variable not in model.given and not model.used(variable):
            m.call("add_input_value", state.add_input_value, index_of(workflow.inputs, variable), value)
            model.inputs[variable] = value
            model.given.add(variable)
    mark = len(TRACE)
    m.call("continue_run", state.continue_run)
    absorb(m, model, trace_of(workflow, mark))
    progress = check_state(m, model, state, progress, mutating)
    m.check(progress == 1, "never-finishes")
    run = m.call("to_workflow_run", state.to_workflow_run)
    complete = all(v in model.given for v in everything)
    if complete and not mutating:
        full = m.call("run", workflow.run, wf.input_values())
        m.equal(view(run.output_value), view(full.output_value), "same-as-full-run")
        m.ev("complete-histories")


@scenario("C09", 100, 1500, rule="long chains evaluated one block after the other: progress counts them one by one and the "
                                 "state cannot become a run before the very last one")
def last_block(rng, m):
    wf = generate(rng, m, mutate=False, files=False, displays=False, nested=0, long=.5)
    needed = wf.needed()
    TRACE.clear()
    state = m.call("start_run", wf.workflow.start_run, wf.input_values())
    model = Model(wf, dict(wf.given))
    model.inputs.update(wf.effective)
    done = 0
    while done < len(needed):
        m.check(state.progress < 1, "progress-before-end")
        m.refuses("unfinished-run-refused", state.to_workflow_run, errors=(ValueError,))
        ready = [n for n in needed if n not in model.outputs and model.ready(n)]
        node = rng.choice(ready)
        mark = len(TRACE)
        m.check(m.call("block_evaluation", state.block_evaluation, index_of(wf.workflow.blocks, node.block)),
                "block-evaluation-result")
        absorb(m, model, trace_of(wf.workflow, mark))
        done += 1
        m.close(state.progress, done / len(needed), "progress-value")
    m.check(state.progress == 1, "progress-complete")
    run = m.call("to_workflow_run", state.to_workflow_run)
    m.equal(view(run.output_value), view(model.outputs[wf.output[0]][wf.output[1]]), "run-output")
    m.ev("blocks-of-chains", len(needed))


@scenario("C09", 300, 4000, rule="inputs asked for but not given are refused and change nothing")
def missing_values(rng, m):
    wf = generate(rng, m, mutate=False, nested=0)
    workflow = wf.workflow
    state = workflow.start_run({})
    mandatory = [index_of(workflow.inputs, v) for v in wf.given if not v.has_default_value]
    if not mandatory:
        return
    missing = rng.choice(mandatory)
    before = {k: bool(v) for k, v in state.activated_items.items()}
    m.refuses("missing-value-refused", state.add_several_input_values, [missing], {}, errors=(ValueError,))
    m.check(all(bool(state.activated_items[k]) == v for k, v in before.items()), "refusal-changes-nothing")
    m.refuses("check-all-inputs", state.activate_inputs, check_all_inputs=True, errors=(ValueError,))


@scenario("C09", 400, 6000, rule="progress reported through the callback during full and interactive runs stays within [0, 1] and ends at 1")
def callbacks(rng, m):
    wf = generate(rng, m, mutate=False, nested=rng.choice([0, 1]))
    seen = []
    m.call("run", wf.workflow.run, wf.input_values(), progress_callback=seen.append)
    m.check(seen and seen[-1] == 1, "callback-ends-at-1", "", seen)
    m.check(all(0 <= x <= 1 + 1e-9 for x in seen), "callback-range", "", seen)
    m.check(all(x <= y + 1e-9 for x, y in zip(seen, seen[1:])), "callback-decreases", "", seen)
    m.ev("callbacks", len(seen))
    state = m.call("start_run", wf.workflow.start_run, wf.input_values())
    told = []
    for _ in range(rng.choice([1, 3, 8, 20])):
        way = rng.choice(["next", "block", "block"])
        mark = len(told)
        before = state.progress
        if way == "next":
            done = m.call("evaluate_next_block", state.evaluate_next_block, progress_callback=told.append) is not None
        else:
            node = rng.choice(wf.nodes)
            if node.tag.startswith("Set"):
                continue
            done = m.call("block_evaluation", state.block_evaluation, index_of(wf.workflow.blocks, node.block),
                          progress_callback=told.append)
        new = told[mark:]
        m.check(bool(new) == bool(done), "callback-iff-evaluated", way, new)
        m.check(all(before - 1e-9 <= x <= 1 + 1e-9 for x in new), "callback-range", way, before, new)
        m.check(all(x <= y + 1e-9 for x, y in zip([before, *new], new)), "callback-decreases", way, before, new)
        m.check(not new or abs(new[-1] - state.progress) < 1e-9, "callback-last", way, new, state.progress)
        m.ev("interactive-callbacks", len(new))


class Broken(Exception):
    """ Injected failure. """


def fails_first(block, error, times):
    """ Make the block raise at its first evaluations, before or instead of computing. """
    original, left = block.evaluate, [times]

    def evaluate(values, *args, **kwargs):
        if left[0]:
            left[0] -= 1
            raise error("injected")
        return original(values, *args, **kwargs)
    block.evaluate = evaluate
    return left


@scenario("C09", 500, 8000, rule="blocks that fail at first: the error reaches the caller, the state is as before that block, what was "
                                 "computed stays and is not computed again, and evaluation can go on to the same end")
def failures(rng, m):
    wf = generate(rng, m, mutate=False, files=False, nested=rng.choice([0, 0, 1]))
    workflow = wf.workflow
    needed = wf.needed()
    victims = {n: rng.choice([1, 1, 2]) for n in rng.sample(needed, min(len(needed), rng.choice([1, 1, 2])))}
    error = rng.choice([Broken, TypeError, ValueError, KeyError])
    left = {n: fails_first(n.block, error, times) for n, times in victims.items()}
    m.log([n.tag for n in victims])
    TRACE.clear()
    state = m.call("start_run", workflow.start_run, wf.input_values())
    model = Model(wf, dict(wf.given))
    model.inputs.update(wf.effective)
    progress = check_state(m, model, state, 0, False)
    for _ in range(60):
        way = rng.choice(["continue", "continue", "next", "block"])
        mark = len(TRACE)
        before = sum(c[0] for c in left.values())
        failed = False
        ready = [n for n in needed if n not in model.outputs and model.ready(n)]
        if not ready:
            break
        try:
            if way == "continue":
                state.continue_run()
            elif way == "next":
                state.evaluate_next_block()
            else:
                state.block_evaluation(index_of(workflow.blocks, rng.choice(ready).block))
        except error as exc:
            failed = True
            m.check("injected" in str(exc), "other-failure", way, repr(exc))
        m.check(failed == (sum(c[0] for c in left.values()) < before), "failure-reported", way)
        m.check(sum(c[0] for c in left.values()) >= before - 1, "evaluated-after-failure", way)
        absorb(m, model, trace_of(workflow, mark))
        progress = check_state(m, model, state, progress, False)
        if failed:
            m.check(progress < 1, "complete-after-failure")
            m.refuses("unfinished-run-refused", state.to_workflow_run, errors=(ValueError,))
            m.ev("failures")
    m.check(state.progress == 1, "never-finishes")
    run = m.call("to_workflow_run", state.to_workflow_run)
    m.equal(view(run.output_value), view(model.outputs[wf.output[0]][wf.output[1]]), "run-output")


ANY_INPUTS = [None, False, True, 0, 1, -1, 0., .5, "", "text", [], [0], [None], {}, {"a": 0}, (), (1, 2)]


@scenario("C09", 400, 6000, rule="any values, None and empty ones included, given one by one, several at once or by block, again and again before "
                                 "they are used: the last ones given are the ones used")
def any_values(rng, m):
    """ Trees of sequences, whose output shows every value where it was given. """
    blocks, pipes, leaves = [], [], []
    for _ in range(rng.choice([1, 2, 3, 5])):
        block = B.Sequence(rng.choice([1, 2, 3]))
        for variable in block.inputs:
            if leaves and rng.random() < .5:
                pipes.append(Pipe(leaves.pop(rng.randrange(len(leaves))).outputs[0], variable))
        blocks.append(block)
        leaves.append(block)
    if len(leaves) > 1:
        last = B.Sequence(len(leaves))
        pipes += [Pipe(b.outputs[0], v) for b, v in zip(leaves, last.inputs)]
        blocks.append(last)
    output = blocks[-1]
    rng.shuffle(blocks)
    workflow = Workflow(blocks, pipes, output.outputs[0])
    fed = {pipe.output_variable: pipe.input_variable for pipe in pipes}
    owner = {b.outputs[0]: b for b in blocks}
    free = list(workflow.inputs)
    given = {v: rng.choice(ANY_INPUTS) for v in free if rng.random() < .3}
    m.case({"blocks": [len(b.inputs) for b in blocks], "given": [repr(given.get(v, "-")) for v in free]})
    state = m.call("start_run", workflow.start_run, {free.index(v): x for v, x in given.items()})
    for _ in range(rng.choice([1, 3, 6])):
        way = rng.choice(["one", "several", "block", "block"])
        m.ev("way:" + way)
        if way == "one" and free:
            variable = rng.choice(free)
            given[variable] = rng.choice(ANY_INPUTS)
            m.call("add_input_value", state.add_input_value, free.index(variable), given[variable])
        elif way == "several":
            chosen = rng.sample(free, rng.randint(0, len(free)))
            values = {v: rng.choice(ANY_INPUTS) for v in chosen if v not in given or rng.random() < .6}
            given.update(values)
            m.call("add_several_input_values", state.add_several_input_values, [free.index(v) for v in chosen],
                   {free.index(v): x for v, x in values.items()})
        elif way == "block":
            index = rng.randrange(len(blocks))
            chosen = [v for v in blocks[index].inputs if v not in fed]
            values = {v: rng.choice(ANY_INPUTS) for v in chosen if v not in given or rng.random() < .6}
            given.update(values)
            m.call("add_block_input_values", state.add_block_input_values, index, {str(free.index(v)): x for v, x in values.items()})
        m.same({i: x for i, x in state.input_values.items()}, {free.index(v): x for v, x in given.items()}, "given-values")
    for variable in free:
        if variable not in given:
            given[variable] = rng.choice(ANY_INPUTS)
            m.call("add_input_value", state.add_input_value, free.index(variable), given[variable])
    order = rng.choice(["next", "continue"])
    while order == "next" and m.call("evaluate_next_block", state.evaluate_next_block) is not None:
        pass
    m.call("continue_run", state.continue_run)

    def expected(block):
        return [expected(owner[fed[v]]) if v in fed else given[v] for v in block.inputs]
    m.equal(state.progress, 1, "progress")
    m.same(state.output_value, expected(output), "any-values")


@scenario("C09", 300, 5000, rule="several states of one workflow, started from one dict of values and driven by turns, and the runs made from them: "
                                 "none changes because of another one, nor the given dict")
def independent_states(rng, m):
    wf = generate(rng, m, files=False, mutate=False, nested=0)
    workflow = wf.workflow
    everything = {index_of(workflow.inputs, v): x for v, x in wf.given.items() if not v.locked}
    given = {i: x for i, x in everything.items() if rng.random() < .5
             or workflow.inputs[i].has_default_value and workflow.inputs[i].default_value is None}
    kept = dict(given)
    states = [m.call("start_run", workflow.start_run, given) for _ in range(rng.choice([2, 2, 3]))]
    runs = []

    def picture(state):
        return {"inputs": {i: view(x) for i, x in state.input_values.items()}, "progress": state.progress, "output": view(state.output_value),
                "evaluated": [bool(state.activated_items[x]) for x in workflow.blocks + workflow.pipes],
                "values": [view(state.values[p]) for p in workflow.pipes if p in state.values]}
    pictures = {id(s): picture(s) for s in states}
    m.equal({i: view(x) for i, x in given.items()}, {i: view(x) for i, x in kept.items()}, "given-dict")
    for _ in range(rng.choice([3, 6, 12])):
        state = rng.choice(states)
        action = rng.choice(["input", "input", "next", "continue", "block", "run"])
        m.log(action, states.index(state))
        if action == "input" and everything:
            index = rng.choice(sorted(everything))
            m.call("add_input_value", state.add_input_value, index, everything[index])
        elif action == "next":
            m.call("evaluate_next_block", state.evaluate_next_block)
        elif action == "continue":
            m.call("continue_run", state.continue_run)
        elif action == "block":
            m.call("block_evaluation", state.block_evaluation, rng.randrange(len(workflow.blocks)))
        elif action == "run":
            for index, value in everything.items():
                if index not in state.input_values:
                    m.call("add_input_value", state.add_input_value, index, value)
            m.call("continue_run", state.continue_run)
            run = m.call("to_workflow_run", state.to_workflow_run, "run")
            runs.append(run)
            pictures[id(run)] = picture(run)
            m.ev("runs")
        pictures[id(state)] = picture(state)
        for other in states + runs:
            m.equal(picture(other), pictures[id(other)], "independent")
        m.equal({i: view(x) for i, x in given.items()}, {i: view(x) for i, x in kept.items()}, "given-dict")
