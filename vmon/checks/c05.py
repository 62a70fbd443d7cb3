""" C05: copies. """
import copy
import io
import random

from dessia_common.core import DessiaObject
from dessia_common.files import StringFile, BinaryFile, TextFile, XLSXFile
from dessia_common.utils.copy import deepcopy_value
from dessia_common.datatools.dataset import Dataset

from vmon import models as M
from vmon.core import scenario
from vmon.gen import Gen, key_orders, view, walk, sharing, loose_view
from vmon.mutate import change


def mutables(value, out=None):
    """ Identities of every mutable object reachable (whole __dict__, private attributes included). """
    out = {} if out is None else out
    if isinstance(value, (str, int, float, type, type(None), bytes)) or type(value) is object:
        return out
    if id(value) in out:
        return out
    if isinstance(value, tuple):
        for sub in value:
            mutables(sub, out)
        return out
    out[id(value)] = value
    if isinstance(value, dict):
        for sub in value.values():
            mutables(sub, out)
    elif isinstance(value, list):
        for sub in value:
            mutables(sub, out)
    elif hasattr(value, "__dict__"):
        for sub in vars(value).values():
            mutables(sub, out)
    return out


def deep(rng, obj):
    return rng.choice([lambda: obj.copy(), lambda: copy.deepcopy(obj), lambda: obj.copy(deep=True, memo={}),
                       lambda: obj.copy(deep=True), lambda: deepcopy_value(obj, memo={}), lambda: obj.__deepcopy__()])()


def check_independent(m, original, copied):
    mine, other = mutables(original), mutables(copied)
    common = [mine[i] for i in set(mine) & set(other)]
    m.check(not common, "copy-shares-nothing", "", common[:3])
    m.ev("mutables", len(mine))


def check_shape(m, original, copied):
    """ Objects shared in the original are shared in the copy, distinct objects, even equal ones, are not merged. """
    twin = {p: v for p, v in walk(copied) if isinstance(v, DessiaObject)}
    first, back = {}, {}
    for path, sub in walk(original):
        if isinstance(sub, DessiaObject):
            m.check(path in twin, "copy-same-positions", str(path))
            m.check(first.setdefault(id(sub), twin[path]) is twin[path], "copy-keeps-sharing", str(path))
            known = back.setdefault(id(twin[path]), sub)
            m.check(known is sub, "copy-merges-different", str(path))


@scenario("C05", 2500, 50000, rule="random object graphs with sharing: deep copy equal, same names and types, disjoint, original untouched")
def deep_copy(rng, m):
    gen = Gen(rng, twins=True, free_tuples=True)
    obj = gen.obj(rng.choice([1, 2, 3, 4]))
    m.case(view(obj))
    before, shape = view(obj), sharing(obj)
    copied = m.call("deepcopy", deep, rng, obj)
    m.check(type(copied) is type(obj), "copy-class")
    m.same(view(obj), before, "copy-alters-original")
    m.equal(sharing(obj), shape, "copy-alters-original-sharing")
    m.same(view(copied), before, "copy-same-data")
    m.check(key_orders(copied) == key_orders(obj), "copy-key-order")
    m.check(copied == obj and obj == copied, "copy-equal")
    m.equal(hash(copied), hash(obj), "copy-hash")
    check_independent(m, obj, copied)
    check_shape(m, obj, copied)
    # changes never cross
    if change(rng, copied):
        m.same(view(obj), before, "change-crosses", "change of the copy seen in the original")
        m.ev("changes")
    copied = m.call("deepcopy", deep, rng, obj)
    if change(rng, obj):
        m.same(view(copied), before, "change-crosses", "change of the original seen in the copy")
        m.ev("changes")


@scenario("C05", 800, 12000, rule="containers of objects copied through deepcopy_value and copy.deepcopy, with tuples and nested sharing")
def containers(rng, m):
    gen = Gen(rng, twins=True, free_tuples=True)
    leaf = gen.obj(2)
    value = rng.choice([[leaf, (leaf, 1)], {"a": leaf, "b": [leaf]}, (leaf, [leaf], {"k": (1, "x")}),
                        [gen.payload(2), leaf], {"x": (1, 2, (3, leaf))}, ([1], [2, 3], {"k": []}), ([], {}),
                        [([leaf], {"k": [leaf]})], gen.payload(4)])
    m.case(view(value))
    before = view(value)
    copied = m.call("deepcopy_value", deepcopy_value, value, {})
    m.same(view(value), before, "copy-alters-original")
    m.same(view(copied), before, "copy-same-data")
    check_shape(m, value, copied)
    check_independent(m, value, copied)


@scenario("C05", 500, 6000, rule="files held by objects: content, name and class copied, buffers independent, positions untouched")
def files(rng, m):
    content = "".join(rng.choice("abc\né☃") for _ in range(rng.choice([0, 1, 5, 200])))
    blob = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 7, 300])))
    one = rng.choice([StringFile, TextFile])(rng.choice(["", "a.txt", "dir/b.txt"]))
    two = rng.choice([BinaryFile, XLSXFile])(rng.choice(["", "b.bin"]))
    one.write(content)
    two.write(blob)
    position = rng.randint(0, len(content)), rng.randint(0, len(blob))
    one.seek(position[0])
    two.seek(position[1])
    obj = rng.choice([M.FileHolder(one, two, name="h"), M.Payload([one, {"f": two}], name="h")])
    m.case(repr((content, blob, one.filename, two.filename, type(obj).__name__)))
    before = view(obj)
    copied = m.call("deepcopy", deep, rng, obj)
    m.same(view(copied), before, "file-copy-data")
    m.same(view(obj), before, "copy-alters-original")
    m.equal((one.tell(), two.tell()), position, "copy-moves-original")
    m.check(copied == obj, "file-copy-equal")
    check_independent(m, obj, copied)
    copy_one = copied.text if isinstance(obj, M.FileHolder) else copied.payload[0]
    copy_two = copied.binary if isinstance(obj, M.FileHolder) else copied.payload[1]["f"]
    copy_one.seek(0, io.SEEK_END)
    copy_one.write("more")
    copy_two.seek(0)
    copy_two.write(b"other content")
    m.same(view(obj), before, "file-change-crosses")
    m.check(not copied == obj, "file-change-seen")


@scenario("C05", 300, 4000, rule="datasets: copies hold copies of the objects, in order")
def datasets(rng, m):
    gen = Gen(rng, twins=True)
    obj = Dataset([gen.leaf() for _ in range(rng.choice([0, 1, 3, 8]))], name=gen.name())
    m.case(view(list(obj)))
    before = view(list(obj))
    copied = m.call("dataset-copy", deep, rng, obj)
    m.same(view(list(copied)), before, "dataset-copy-data")
    m.equal(copied.name, obj.name, "dataset-copy-name")
    m.check(copied == obj, "dataset-copy-equal")
    m.check(not {id(o) for o in copied} & {id(o) for o in obj}, "dataset-copy-shares")
    if len(obj):
        copied[0].integer += 1
        m.same(view(list(obj)), before, "dataset-change-crosses")


@scenario("C05", 800, 10000, rule="shallow copies: same class, name, equal data, containers shared with the original")
def shallow(rng, m):
    gen = Gen(rng, twins=True)
    obj = gen.obj(3)
    if isinstance(obj, M.Derived):
        obj = M.Payload(obj)
    m.case(view(obj))
    before = view(obj)
    copied = m.call("shallow-copy", rng.choice([lambda: obj.copy(deep=False), lambda: copy.copy(obj)]))
    m.same(view(obj), before, "shallow-alters-original")
    m.check(copied is not obj and type(copied) is type(obj), "shallow-class")
    m.same(view(copied), before, "shallow-same-data")
    m.check(copied == obj, "shallow-equal")
    for key, value in obj.__dict__.items():
        if isinstance(value, (list, dict)) and not key.startswith("_"):
            m.check(copied.__dict__[key] is value, "shallow-shares", key)
    copied.name = "changed"
    m.equal(view(obj), before, "shallow-name-independent")


@scenario("C05", 300, 5000, rule="a memo shared by several copies gives one copy per object")
def common_memo(rng, m):
    gen = Gen(rng, twins=True)
    shared = gen.obj(2)
    first, second = M.Payload([shared, 1], name="1"), M.Payload({"k": shared, "n": 2}, name="2")
    m.case(view([first, second]))
    memo = {}
    one, two = m.call("copy-memo", first.copy, True, memo), m.call("copy-memo", second.copy, True, memo)
    m.check(one.payload[0] is two.payload["k"], "memo-shares")
    m.check(one.payload[0] is not shared, "memo-copies")
    m.same(view([one, two]), view([first, second]), "memo-data")


@scenario("C05", 300, 5000, rule="classes of one module having the same name and other signatures (redefined classes): each is copied by its own signature")
def namesakes(rng, m):
    module = f"vmon_c05_{rng.getrandbits(40)}"
    kept = []
    for _ in range(rng.choice([2, 3])):
        names = rng.sample(["alpha", "beta", "gamma", "delta"], rng.choice([1, 2, 3]))
        signature = ", ".join(n + rng.choice(["", "=None"]) for n in names)
        if "=None" in signature:
            signature = ", ".join(f"{n}=None" for n in names)
        scope = {}
        exec(f"def __init__(self, {signature}, name=''):\n    " + "; ".join(f"self.{n} = {n}" for n in names) + "; self.name = name", scope)
        class_ = type("Namesake", (DessiaObject,), {"__init__": scope["__init__"], "__module__": module})
        kept.append((names, class_(*[rng.choice([1, 2.5, "t", [1, 2]]) for _ in names], name=rng.choice(["", "n"]))))
    m.case(repr([n for n, _ in kept]))
    for _ in range(2):
        for names, obj in kept:
            for how, copied in (("deep", m.call("deep", deep, rng, obj)), ("shallow", m.call("shallow", copy.copy, obj))):
                m.check(type(copied) is type(obj), "namesake-class", how)
                m.same(vars(copied), vars(obj), "namesake-attributes", f"{how} {names}")


class OwnCopy(DessiaObject):
    """ Copies itself its own way, as geometry libraries do. """

    def __init__(self, value: int, inside=None, name: str = ""):
        self.value = value
        self.inside = inside
        DessiaObject.__init__(self, name=name)

    def copy(self, deep=True, memo=None):
        return type(self)(self.value, deepcopy_value(self.inside, memo={} if memo is None else memo), name=self.name)


class PlainCopy(OwnCopy):
    """ Its copy takes no argument. """

    def copy(self):
        return type(self)(self.value, copy.deepcopy(self.inside), name=self.name)


class Point2D:
    """ Not a DessiaObject, copied through its own method. """

    def __init__(self, x, y):
        self.x, self.y = x, y

    def copy(self, deep=True, memo=None):
        return type(self)(self.x, self.y)


class Vector3D(Point2D):
    """ Its copy takes no argument. """

    def copy(self):
        return type(self)(self.x, self.y)


class Foreign:
    """ Supports the protocol of the standard library. """

    def __init__(self, values):
        self.values = values

    def __deepcopy__(self, memo):
        return type(self)(copy.deepcopy(self.values, memo))


class ForeignOwn(Foreign):
    """ Inherited protocol. """


def own_state(value):
    """ Everything such an object holds. """
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [own_state(v) for v in value]
    if isinstance(value, dict):
        return {k: own_state(v) for k, v in value.items()}
    if isinstance(value, (OwnCopy, Point2D, Foreign, M.Payload)):
        return [type(value).__name__, {k: own_state(v) for k, v in vars(value).items()}]
    return view(value)


@scenario("C05", 400, 8000, rule="objects whose class has its own copy method (with or without the memo arguments) or protocol, shared or not, "
                                 "anywhere in a container: copied once each by their own method, with their sharing")
def own_copies(rng, m):
    makers = {"own": lambda: OwnCopy(rng.randint(0, 9), rng.choice([None, [1, [2]], {"a": [1]}]), name=rng.choice(["", "n"])),
              "plain": lambda: PlainCopy(rng.randint(0, 9), rng.choice([None, [1, [2]]]), name=rng.choice(["", "n"])),
              "point": lambda: Point2D(rng.randint(0, 9), 2.5), "vector": lambda: Vector3D(1, rng.randint(0, 9)),
              "foreign": lambda: Foreign([rng.randint(0, 9), [1]]), "foreign own": lambda: ForeignOwn({"a": [1]})}
    kinds = [rng.choice(sorted(makers)) for _ in range(rng.randint(1, 4))]
    pool = [makers[kind]() for kind in kinds]
    places = [rng.randrange(len(pool)) for _ in range(rng.randint(1, 6))]
    content = [pool[i] for i in places]
    shape = rng.choice(["list", "tuple", "dict", "nested"])
    if shape == "tuple":
        content = tuple(content)
    elif shape == "dict":
        content = {f"k{i}": v for i, v in enumerate(content)}
    elif shape == "nested":
        content = [content[:2], {"rest": content[2:]}]
    obj = M.Payload(content, name="holder")
    m.case([kinds, places, shape, own_state(obj)])
    before = own_state(obj)
    copied = m.call("own-copy", deep, rng, obj)
    m.equal(own_state(copied), before, "own-copy-state")
    m.equal(own_state(obj), before, "own-copy-alters-original")

    def flat(value):
        if isinstance(value, (list, tuple)):
            return [x for v in value for x in flat(v)]
        return [x for v in value.values() for x in flat(v)] if isinstance(value, dict) else [value]

    copies = flat(copied.payload)
    m.equal(len(copies), len(places), "own-copy-count")
    for i, (place, one) in enumerate(zip(places, copies)):
        m.check(type(one) is type(pool[place]), "own-copy-class", kinds[place])
        m.check(one is not pool[place], "own-copy-is-original", kinds[place])
        for other, two in zip(places[:i], copies):
            if other != place:
                m.check(one is not two, "own-copy-merged", kinds[place])
            elif kinds[place] not in ("point", "vector"):
                m.check(one is two, "own-copy-sharing", kinds[place])
        for name, sub in vars(pool[place]).items():
            if isinstance(sub, (list, dict)):
                m.check(vars(one)[name] is not sub, "own-copy-shares-content", kinds[place] + "." + name)
        m.ev("own:" + kinds[place])
