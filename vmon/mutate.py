""" Single random changes of an object graph, made by direct access (never through the code under test). """
from dessia_common.core import DessiaObject

from . import models as M
from .gen import walk

SIBLING = {M.Leaf: M.StandaloneLeaf, M.StandaloneLeaf: M.Leaf, M.Payload: M.StandalonePayload,
           M.StandalonePayload: M.Payload, M.Pair: M.StandalonePair, M.StandalonePair: M.Pair}


def get(obj, path):
    for kind, segment in path:
        obj = getattr(obj, segment) if kind == "attr" else obj[segment]
    return obj


def put(obj, path, value):
    owner = get(obj, path[:-1])
    kind, segment = path[-1]
    if kind == "attr":
        setattr(owner, segment, value)
    elif isinstance(owner, tuple):
        put(obj, path[:-1], owner[:segment] + (value,) + owner[segment + 1:])
    else:
        owner[segment] = value


def text(path):
    return "#" + "".join(f"/{s}" for _, s in path)


def reclass(value):
    new = SIBLING[type(value)].__new__(SIBLING[type(value)])
    new.__dict__.update(value.__dict__)
    return new


def change(rng, obj, skip=("name",)):
    """ Make one change somewhere below obj. Returns a description, None if nothing could be changed. """
    spots = [(p, v) for p, v in walk(obj) if p and p[-1] not in [("attr", s) for s in skip]]
    if not spots:
        return None
    path, value = rng.choice(spots)
    if isinstance(value, bool):
        put(obj, path, not value)
        return "value", path
    if isinstance(value, int):
        put(obj, path, rng.choice([value + 1, value - 1, -value if value else 3, value + 10**5]))
        return "value", path
    if isinstance(value, float):
        step = max(1., abs(value)) * rng.choice([1e-8, 1e-7, 1e-6, 1e-4])
        put(obj, path, rng.choice([value + step, value - step, -value if abs(value) > 1e-6 else 3.25, value * 2 + 1 if abs(value + 1) > 1e-3 else 5.5]))
        return "value", path
    if isinstance(value, str):
        options = [value + "x", "y" + value, value[1:] + "??", value + " "]
        if len(value) > 1 and value != value[::-1]:
            options += [value[::-1]] * 3  # same characters: same string hash in the library
        put(obj, path, rng.choice(options))
        return "value", path
    if value is None:
        put(obj, path, rng.choice([0, "None", [], 1.5]))
        return "type", path
    if isinstance(value, type):
        put(obj, path, M.Physical if value is not M.Physical else M.Leaf)
        return "value", path
    if isinstance(value, dict):
        kind = rng.choice(["add", "add", "del", "rename"]) if value else "add"
        if kind == "add":
            value["new key"] = rng.choice([0, None, "v", [], {}])
        elif kind == "del":
            del value[rng.choice(sorted(value))]
        else:
            key = rng.choice(sorted(value))
            value[key + "_r"] = value.pop(key)
        return kind, path
    if isinstance(value, (list, tuple)):
        kind = rng.choice(["append", "pop", "swap", "middle"])
        content = list(value)
        if kind == "pop" and content:
            content.pop(rng.randrange(len(content)))
        elif kind == "swap" and len(content) > 2:
            i = rng.randrange(len(content) - 1)
            content[i], content[i + 1] = content[i + 1], content[i]
        elif kind == "middle" and len(content) > 2 and isinstance(content[1], (int, float)):
            content[1] += 1
        else:
            content.append(rng.choice([0, None, "v", False]))
        put(obj, path, type(value)(content))
        return kind, path
    if isinstance(value, DessiaObject):
        if type(value) in SIBLING and rng.random() < .6:
            put(obj, path, reclass(value))
            return "class", path
        put(obj, path, rng.choice([None, 3, "text"]))
        return "type", path
    return None
