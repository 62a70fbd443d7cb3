""" C07: deep paths. """
import copy
import json

from dessia_common.core import DessiaObject
from dessia_common.utils.helpers import get_in_object_from_path, set_in_object_from_path

from vmon import models as M
from vmon.core import scenario
from vmon.gen import Gen, view, walk, public_attributes

KEYS = ["a", "b", "key", "with space", "é", "0", "1", "12", "name", "-x", "k.v", "values", "(1)", "items", "#h"]
MISSING = (IndexError, KeyError, AttributeError, TypeError, ValueError)
try:
    from dessia_common.errors import ExtractionError
    MISSING = MISSING + (ExtractionError,)
except ImportError:
    pass


def build(rng, integer_keys=True):
    gen = Gen(rng, keys=KEYS)
    obj = gen.obj(4)
    if rng.random() < .5:
        extra = {}
        if integer_keys:
            for _ in range(rng.randint(0, 3)):
                number = rng.choice([0, 1, 5, 10, 123])
                extra[number] = gen.payload(2)
                if rng.random() < .4:
                    extra[str(rng.choice([number, 1]))] = gen.payload(2)
        obj = M.Payload([gen.payload(3), obj, extra], name="top")
    return obj


def readable(path):
    """ A path that can be written as text: no separator in keys, first segment not starting with '#'. """
    return not (path and str(path[0][1]).startswith("#"))


def text(rng, path):
    prefix = rng.choice(["", "#/", "/"])
    return prefix + "/".join(str(s) for _, s in path)


def twice_read(value, path):
    """ A string key shadows the integer key of the same text. """
    for kind, seg in path:
        if kind == "key" and isinstance(seg, int) and str(seg) in value:
            return True
        value = step(value, kind, seg)
    return False


def step(value, kind, seg):
    return getattr(value, seg) if kind == "attr" else value[seg]


@scenario("C07", quick=1500, thorough=40000)
def read_objects(rng, m):
    """ Reading any path of an object gives the very element (identity) of step-by-step access, and changes nothing. """
    obj = build(rng)
    before = view(obj)
    m.case(before)
    nodes = [(p, v) for p, v in walk(obj) if p and readable(p) and not twice_read(obj, p)]
    rng.shuffle(nodes)
    for path, value in nodes[:40]:
        got = m.call("read", get_in_object_from_path, obj, text(rng, path))
        m.check(got is value or (isinstance(value, (int, float, str, bool)) and got == value and
                                 type(got) is type(value)), "read", text(rng, path), got, value)
        got = m.call("read-method", obj._get_from_path, "#/" + "/".join(str(s) for _, s in path))
        m.check(got is value or got == value, "read-method", str(path), got, value)
        m.ev(f"depth:{len(path)}")
    m.same(view(obj), before, "reading-changes-nothing")


@scenario("C07", quick=1500, thorough=40000)
def read_serialized(rng, m):
    """ On the serialized dict (pointers or not, before and after JSON), the path of an element of the object leads to
    its serialized value: scalars equal, containers of the same size, objects of the same class. """
    obj = build(rng, integer_keys=False)
    pointers = rng.random() < .8
    dict_ = obj.to_dict(use_pointers=pointers)
    if rng.random() < .5:
        dict_ = json.loads(json.dumps(dict_))
    frozen = copy.deepcopy(dict_)
    m.case([frozen])
    nodes = [(p, v) for p, v in walk(obj) if p and readable(p)]
    rng.shuffle(nodes)
    for path, value in nodes[:40]:
        got = m.call("read", get_in_object_from_path, dict_, text(rng, path))
        hops = 0
        while isinstance(got, dict) and set(got) == {"$ref"} and hops < 5:
            got = m.call("read-pointer", get_in_object_from_path, dict_, got["$ref"])
            hops += 1
        if isinstance(value, DessiaObject):
            name = f"{type(value).__module__}.{type(value).__name__}"
            m.check(isinstance(got, dict) and got.get("object_class") == name, "serialized-object", str(path), got)
            m.check(got.get("name", "") == value.name, "serialized-object-name", str(path), got)
        elif isinstance(value, (list, tuple)):
            m.check(isinstance(got, (list, tuple)) and len(got) == len(value), "serialized-sequence", str(path), got)
        elif isinstance(value, dict):
            m.check(isinstance(got, dict) and sorted(got) == sorted(value), "serialized-dict", str(path), got, value)
        elif isinstance(value, type):
            pass
        else:
            m.check(got == value and type(got) is type(value), "serialized-scalar", str(path), got, value)
        m.ev(f"hops:{hops}")
    m.same(dict_, frozen, "reading-changes-nothing")


def resolve(root, path, value=None):
    """ Reference implementation on serialized dicts. """
    element = root
    for _, seg in path:
        while isinstance(element, dict) and "$ref" in element:
            element = resolve(root, [(None, s) for s in element["$ref"].lstrip("#/").split("/")])
        element = element[int(seg)] if isinstance(element, (list, tuple)) else element[seg]
    return element


@scenario("C07", quick=1500, thorough=40000)
def write_objects(rng, m):
    """ Writing through a path puts the value there and changes nothing else. """
    obj = build(rng)
    m.case(view(obj))
    nodes = [(p, v) for p, v in walk(obj) if p and readable(p) and not twice_read(obj, p)]
    if not nodes:
        return
    path, _ = rng.choice(nodes)
    owner = obj
    for kind, seg in path[:-1]:
        owner = step(owner, kind, seg)
    new = rng.choice([None, -77, "new value", [1, 2], {"z": 1}, M.Leaf(-99)])
    expected = dict_view(obj, owner, path[-1], new)
    if isinstance(owner, tuple):
        before = view(obj)
        m.refuses("write-tuple", set_in_object_from_path, obj, text(rng, path), new, errors=(TypeError,))
        m.same(view(obj), before, "refused-write-changes-nothing")
        return
    m.call("write", set_in_object_from_path, obj, text(rng, path), new)
    kind, seg = path[-1]
    m.check(step(owner, kind, seg) is new, "written-value", str(path), step(owner, kind, seg), new)
    m.same(view(obj), expected, "writes-nothing-else")
    m.check(get_in_object_from_path(obj, text(rng, path)) is new, "read-after-write")


def dict_view(obj, owner, last, new):
    """ View of obj once owner's last segment is new: done on a view so the object itself is not touched. """
    marks = []

    def rec(value, names=True):
        if value is owner:
            marks.append(1)
            kind, seg = last
            if isinstance(value, DessiaObject):
                attrs = {k: (rec(v) if k != seg else view(new)) for k, v in sorted(public_attributes(value).items())
                         if k != "name"}
                name = new if seg == "name" else value.name
                return {"__class__": f"{type(value).__module__}.{type(value).__qualname__}", "__name__": name,
                        "attrs": attrs}
            if isinstance(value, dict):
                return {"__dict__": [[k, view(new) if k == seg and type(k) is type(seg) else rec(v)]
                                     for k, v in sorted(value.items(), key=lambda kv: repr(kv[0]))]}
            return [view(new) if i == seg else rec(v) for i, v in enumerate(value)]
        if isinstance(value, DessiaObject):
            return {"__class__": f"{type(value).__module__}.{type(value).__qualname__}", "__name__": value.name,
                    "attrs": {k: rec(v) for k, v in sorted(public_attributes(value).items()) if k != "name"}}
        if isinstance(value, dict):
            return {"__dict__": [[k, rec(v)] for k, v in sorted(value.items(), key=lambda kv: repr(kv[0]))]}
        if isinstance(value, tuple):
            return {"__tuple__": [rec(v) for v in value]}
        if isinstance(value, list):
            return [rec(v) for v in value]
        return view(value)
    return rec(obj)


@scenario("C07", quick=1200, thorough=30000)
def write_serialized(rng, m):
    """ Writing through a path of a serialized dict: the pointed element is modified, and nothing else. """
    obj = build(rng, integer_keys=False)
    dict_ = json.loads(json.dumps(obj.to_dict(use_pointers=rng.random() < .8)))
    nodes = [p for p, v in walk(obj) if p and readable(p) and not isinstance(v, type)]
    m.case([dict_])
    if not nodes:
        return
    path = rng.choice(nodes)
    reference = copy.deepcopy(dict_)
    owner = resolve(reference, path[:-1])
    while isinstance(owner, dict) and "$ref" in owner:
        owner = resolve(reference, [(None, s) for s in owner["$ref"].lstrip("#/").split("/")])
    new = rng.choice([None, -77, "new value", [1, 2], {"z": 1}])
    if isinstance(owner, list):
        owner[int(path[-1][1])] = new
    else:
        owner[path[-1][1]] = new
    m.call("write", set_in_object_from_path, dict_, text(rng, path), new)
    m.same(dict_, reference, "serialized-write")


@scenario("C07", quick=1500, thorough=30000)
def missing_paths(rng, m):
    """ A path that does not exist raises and changes nothing, when reading and when writing below it. """
    serialized = rng.random() < .4
    obj = build(rng, integer_keys=not serialized)
    root = obj.to_dict(use_pointers=rng.random() < .5) if serialized else obj
    frozen = copy.deepcopy(root) if serialized else view(obj)
    nodes = [(p, v) for p, v in walk(obj) if readable(p) and (isinstance(v, (list, tuple, dict, DessiaObject)))
             and not twice_read(obj, p)]
    path, value = rng.choice(nodes)
    if isinstance(value, (list, tuple)):
        bad = rng.choice([str(len(value)), str(len(value) + 7), "nope", "1.5", ""])
    elif isinstance(value, dict):
        bad = rng.choice(["nope", "99", "a b c", "", "(7,8)", "nope.x"])
    else:
        bad = rng.choice(["nope", "0", "attribute_x", "value s"])
    tail = rng.choice(["", "", "/a", "/0"])
    where = "#/" + "/".join([str(s) for _, s in path] + [bad]) + tail
    if not path and not bad:
        return
    m.case(where + str(type(value)))
    m.refuses("missing-read", get_in_object_from_path, root, where, errors=MISSING)
    if tail or isinstance(value, (list, tuple)):
        m.refuses("missing-write", set_in_object_from_path, root, where, 1, errors=MISSING)
    if serialized:
        m.same(root, frozen, "missing-changes-nothing")
    else:
        m.same(view(obj), frozen, "missing-changes-nothing")
