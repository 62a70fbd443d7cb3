""" C11: generated scripts rebuild the workflow. """
import ast
import os
import sys
import tempfile
import types

from typing import Any, Dict, List, Literal, Tuple, Union

from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance
from dessia_common.typings import AttributeType, ClassMethodType, InstanceOf, MethodType
from dessia_common.workflow.blocks import InstantiateModel, Sequence
from dessia_common.workflow.core import Pipe, Variable, Workflow, WorkflowRun

from vmon.core import probe, scenario
from vmon.wfdesc import describe, describe_block
from vmon.wfmodels import packaged, plain, Box, Crate
from vmon.checks.c08 import generate, view

LITERAL = ("int", "small", "str", "ints", "strs", "intlists", "marks", "pair", "filename")


def scriptable(rng, m, **kwargs):
    """ A workflow whose user-set values can be written as literals; all the others are given at run time. """
    wf = generate(rng, m, **kwargs)
    for variable in wf.free_variables():
        if wf.kind_of[variable] not in LITERAL and variable.locked:
            variable.unlock()
        if not variable.locked:
            wf.given[variable] = wf.effective[variable]
    return wf


def promised(workflow):
    """ What a script keeps: not the description, nor labels and defaults of unlocked block inputs. """
    out = describe(workflow, plain, True)
    out.pop("description")
    out.pop("detached")
    for description, block in zip(out["blocks"], workflow.blocks):
        clean_block(description, block)
    for description, variable in zip(out["nonblock"], workflow.nonblock_variables):
        if not variable.locked:
            description.pop("default")
    for step in out["steps"]:  # default steps carry labels of nothing else than the workflow's
        step.pop("id")
    return out


def clean_block(description, block):
    for side in ("inputs", "outputs"):
        for sub, variable in zip(description[side], getattr(block, side)):
            sub.pop("label")
            if not variable.locked:
                sub.pop("default")
    for name in ("workflow", "workflow_block"):
        if name in description:
            value = getattr(block, name)
            if isinstance(value, Workflow):
                description[name] = promised(value)
            else:
                description[name] = describe_block(value, plain)
                clean_block(description[name], value)


def execute(m, script, where):
    """ Execute the script in a module of its own, knowing nothing but builtins. """
    tree = m.call("parse", ast.parse, script)
    m.ev("script-statements", len(tree.body))
    module = types.ModuleType("fresh_script")
    names = set(module.__dict__)
    code = m.call("compile", compile, tree, where, "exec")
    m.call("execute", exec, code, module.__dict__)  # pylint: disable=exec-used
    return {k: v for k, v in module.__dict__.items() if k not in names and k != "__builtins__"}


def write(rng, m, element):
    """ The script, obtained one of the public ways. """
    way = rng.choice(["text", "stream", "file", "export"])
    m.ev("way:" + way)
    if way == "text":
        script = m.call("to_script", element.to_script)
        return script if isinstance(script, str) else script.imports_to_str() + "\n" + script.declaration
    if way == "stream":
        stream = StringFile("script.py")
        m.call("save_script_to_stream", element.save_script_to_stream, stream)
        return stream.getvalue()
    if way == "export":
        formats = [f for f in element._export_formats() if f.selector == "py"]
        m.check(len(formats) == 1 and formats[0].text and formats[0].extension == "py", "export-format")
        stream = StringFile("script.py")
        m.call("export", getattr(element, formats[0].method_name), stream)
        return stream.getvalue()
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, rng.choice(["script", "script.py"]))
        stdout, sys.stdout = sys.stdout, open(os.devnull, "w", encoding="utf-8")
        try:
            m.call("save_script_to_file", element.save_script_to_file, path)
        finally:
            sys.stdout.close()
            sys.stdout = stdout
        m.same(os.listdir(folder), ["script.py"], "script-file")
        with open(os.path.join(folder, "script.py"), encoding="utf-8", newline="") as file:
            return file.read()


@scenario("C11", 1000, 20000, rule="random workflows over every scriptable block, names and texts with quotes, backslashes and unicode, "
                                   "nested workflows and loops: execute the script in a fresh module, compare everything, run both")
def rebuilt(rng, m):
    wf = scriptable(rng, m)
    workflow = wf.workflow
    if rng.random() < .3:
        workflow.documentation = rng.choice(['"""', "\\", "ends with \"", "tab\t é\n\n# title\n'''", "\\n", "{x}", "a\rb", '"' * 7])
    if rng.random() < .2:
        workflow.name = rng.choice(["\\", "a\nb", '""', "'", "{name}", "tab\t", "\\N{DASH}", "é\u2028x", "\x00"[:0] + "%s"])
    before = describe(workflow)
    script = write(rng, m, workflow)
    m.same(describe(workflow), before, "original-untouched")
    scope = execute(m, script, "script")
    m.check(isinstance(scope.get("workflow"), Workflow), "defines-workflow")
    other = scope["workflow"]
    m.same(promised(other), promised(workflow), "rebuilt-description", script[:600])
    m.check(workflow == other and other == workflow, "equal")
    m.check(hash(workflow) == hash(other), "hash")
    values = wf.input_values()
    reference = m.call("run", workflow.run, dict(values))
    result = m.call("run-rebuilt", other.run, dict(values))
    m.same(view(result.output_value), view(reference.output_value), "same-result")
    if rng.random() < .3:
        m.equal(write(rng, m, other), script, "second-script")
    # same text whenever it is asked for
    m.equal(m.call("to_script-again", workflow.to_script), script, "stable-script")


@scenario("C11", 500, 8000, rule="runs whose inputs are plain values: the script of the run, executed in a fresh module, gives the same "
                                 "inputs and output")
def run_script(rng, m):
    wf = scriptable(rng, m, nested=rng.choice([0, 1]))
    if any(wf.kind_of[v] not in LITERAL for v in wf.free_variables() if not v.locked):
        return
    run = m.call("run", wf.workflow.run, wf.input_values())
    script = write(rng, m, run)
    scope = execute(m, script, "run script")
    m.ev("run-scripts")
    other = scope.get("workflow_run")
    m.check(isinstance(other, WorkflowRun), "defines-run")
    m.same({k: plain(v) for k, v in other.input_values.items()}, {k: plain(v) for k, v in run.input_values.items()}, "same-inputs")
    m.same(view(other.output_value), view(run.output_value), "run-output")
    m.same(promised(other.workflow), promised(wf.workflow), "run-workflow")


def annotations():
    leaves = [int, float, bool, str, Box, Crate, Distance, StringFile, BinaryFile, Literal["a"], Literal["a", "b c"], Any,
              InstanceOf[Box], MethodType[Box], ClassMethodType[Crate], AttributeType[Box], None]
    return leaves


def annotation(rng, depth=2):
    """ A random supported annotation. """
    kind = rng.choice(["leaf", "leaf", "list", "dict", "tuple", "many", "union"]) if depth else "leaf"
    leaves = [t for t in annotations() if t is not None]
    if kind == "leaf":
        return rng.choice(leaves)
    if kind == "list":
        return List[annotation(rng, depth - 1)]
    if kind == "dict":
        return Dict[str, annotation(rng, depth - 1)]
    if kind == "tuple":
        return Tuple[tuple(annotation(rng, depth - 1) for _ in range(rng.choice([1, 2, 3])))]
    if kind == "many":
        return Tuple[rng.choice(leaves), ...]
    return Union[Box, Crate]


@scenario("C11", 600, 8000, rule="shared inputs of any supported type, label and position, among blocks with the same names: same types after "
                                 "executing the script")
def typed_inputs(rng, m):
    count = rng.choice([1, 2, 3])
    block = Sequence(count, name="s")
    variables = [Variable(type_=None if rng.random() < .1 else annotation(rng), name=rng.choice(["v", "it's", 'a"b', "é\\n"]),
                          label=rng.choice(["", "L'\"", "\\"]), position=rng.choice([(0, 0), (1.5, -2)])) for _ in range(count)]
    pipes = [Pipe(v, i) for v, i in zip(variables, block.inputs)]
    rng.shuffle(pipes)
    workflow = Workflow([block], pipes, block.outputs[0], name="w")
    m.case(repr([(v.type_, v.name) for v in variables]))
    scope = execute(m, write(rng, m, workflow), "script")
    m.same(promised(scope["workflow"]), promised(workflow), "typed-description")
    for variable, other in zip(workflow.nonblock_variables, scope["workflow"].nonblock_variables):
        m.check(variable.type_ == other.type_, "same-type", variable.type_, other.type_)
    m.check(scope["workflow"] == workflow, "equal-typed")


@scenario("C11", 1, 1, rule="a workflow without output has no script")
def refused(_, m):
    from dessia_common.workflow.blocks import Sum
    m.case("no output")
    m.refuses("no-output", Workflow([Sum(2)], [], None).to_script, errors=(ValueError,))


@probe("C11", "C11-namesake-classes")
def namesake_classes(rng, m):
    first, second, _ = packaged()
    blocks = [InstantiateModel(first, name="a"), InstantiateModel(second, name="b"), Sequence(2, name="both")]
    pipes = [Pipe(blocks[i].outputs[0], blocks[2].inputs[i]) for i in range(2)]
    workflow = Workflow(blocks, pipes, blocks[2].outputs[0], name="namesakes")
    made = execute(m, m.call("to_script", workflow.to_script), "namesakes")["workflow"]
    values = {i: 1 for i, v in enumerate(workflow.inputs) if v.name == "size"}
    m.equal([type(v) for v in made.run(values).output_value], [first, second], "namesakes-rebuilt")
