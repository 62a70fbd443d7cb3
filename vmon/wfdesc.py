""" Independent description of a workflow: everything a user set on it, read attribute by attribute. """
import inspect

from dessia_common.core import DessiaFilter
from dessia_common.workflow.core import Block, Workflow, UNDEFINED, RESULT_VARIABLE_NAME

from .wfmodels import plain, loose


def setting(value, content):
    """ Description of a block setting. """
    if isinstance(value, Workflow):
        return describe(value, content)
    if isinstance(value, Block):
        return describe_block(value, content)
    if isinstance(value, type):
        return f"class {value.__module__}.{value.__qualname__}"
    if isinstance(value, DessiaFilter):
        return ("filter", value.attribute, value.comparison_operator, content(value.bound))
    if isinstance(value, (list, tuple)):
        return [setting(v, content) for v in value]
    if hasattr(value, "class_") and hasattr(value, "name"):
        return (type(value).__name__, setting(value.class_, content), value.name)
    return content(value)


def describe_variable(variable, content):
    default = "<undefined>" if variable.default_value is UNDEFINED else ("default", content(variable.default_value))
    return {"name": variable.name, "label": variable.label, "type": repr(variable.type_), "default": default,
            "locked": variable._locked}


def describe_block(block, content=plain):
    out = {"class": type(block).__name__}
    for name in list(inspect.signature(type(block).__init__).parameters)[1:]:
        value = getattr(block, name, "<no attribute>")
        if name == "position":
            value = list(value)
        out[name] = setting(value, content)
    selector = getattr(block, "selector", None)
    if selector is not None:
        out["selector"] = repr(getattr(selector, "class_", None)), getattr(selector, "name", selector)
    out["inputs"] = [describe_variable(v, content) for v in block.inputs]
    out["outputs"] = [describe_variable(v, content) for v in block.outputs]
    return out


def address(workflow, variable):
    """ Where a variable is, by identity. """
    for i, block in enumerate(workflow.blocks):
        for j, other in enumerate(block.inputs):
            if other is variable:
                return (i, 0, j)
        for j, other in enumerate(block.outputs):
            if other is variable:
                return (i, 1, j)
    for i, other in enumerate(workflow.nonblock_variables):
        if other is variable:
            return ("nonblock", i)
    for i, other in enumerate(workflow.detached_variables):
        if other is variable:
            return ("detached", i)
    return "nowhere"


def describe_step(workflow, step):
    setting_ = step.display_setting
    display = None if setting_ is None else (setting_.selector, setting_.type, setting_.method, setting_.load_by_default)
    return {"label": step.label, "inputs": [address(workflow, v) for v in step.inputs],
            "group_inputs": [address(workflow, v) for v in step.group_inputs], "documentation": step.documentation,
            "display": display, "display_variable_index": step.display_variable_index, "group_id": step.group_id,
            "id": step.id_}


def describe_nbv(variable, content):
    out = describe_variable(variable, content)
    out["position"] = list(variable.position)
    return out


def describe(workflow, content=plain, spare_order=True):
    spare = [address(workflow, v) for v in workflow.spare_inputs]
    return {"class": type(workflow).__name__, "name": workflow.name, "description": workflow.description,
            "documentation": workflow.documentation,
            "blocks": [describe_block(b, content) for b in workflow.blocks],
            "nonblock": [describe_nbv(v, content) for v in workflow.nonblock_variables],
            "detached": [describe_nbv(v, content) for v in workflow.detached_variables
                         if v.name != RESULT_VARIABLE_NAME],
            "pipes": [(address(workflow, p.input_variable), address(workflow, p.output_variable))
                      for p in workflow.pipes],
            "output": None if workflow.output is None else address(workflow, workflow.output),
            "inputs": [address(workflow, v) for v in workflow.inputs],
            "steps": [describe_step(workflow, s) for s in workflow.steps],
            "spare": spare if spare_order else sorted(spare, key=repr)}


def variables_of(workflow):
    out = [v for b in workflow.blocks for v in list(b.inputs) + list(b.outputs)]
    return out + list(workflow.nonblock_variables) + [v for v in workflow.detached_variables
                                                      if v.name != RESULT_VARIABLE_NAME]
