""" C17: arguments are deserialized according to their declared type; type matching. """
import itertools
import json
from typing import Any, Dict, Iterator, List, Literal, Optional, Tuple, Type, TypeVar, Union

from dessia_common.core import DessiaObject
from dessia_common.files import BinaryFile, StringFile
from dessia_common.measures import Distance, Mass, Measure
from dessia_common.serialization import deserialize_argument, serialize
from dessia_common.typings import InstanceOf
from dessia_common.utils.types import typematch

from vmon.core import scenario
from vmon.models import Leaf, StandaloneLeaf, Pair, Payload, Typed, KwOnly

COUNTER = itertools.count()


def view(value):
    """ Everything about a deserialized value, types included. """
    if isinstance(value, type):
        return ("class", f"{value.__module__}.{value.__qualname__}")
    if isinstance(value, DessiaObject):
        return (type(value).__name__, {k: view(v) for k, v in vars(value).items() if not k.startswith("_")})
    if isinstance(value, (StringFile, BinaryFile)):
        return (type(value).__name__, value.filename, value.getvalue())
    if isinstance(value, tuple):
        return ("tuple", *[view(v) for v in value])
    if isinstance(value, list):
        return [view(v) for v in value]
    if isinstance(value, dict):
        return {k: view(v) for k, v in value.items()}
    return value


class Twin(Leaf):
    """ Child class with nothing of its own. """


class Values:
    """ Random annotations, with random values of them. """

    def __init__(self, rng):
        self.rng = rng

    def builtin(self):
        rng = self.rng
        return rng.choice([(int, lambda: rng.choice([0, 1, -5, 2 ** 40])), (float, lambda: rng.choice([0.0, 1.5, -1e-9, 1e300])),
                           (str, lambda: rng.choice(["", "a", "é", "1", "None"])), (bool, lambda: rng.random() < .5)])

    def leaf(self):
        return Leaf(self.rng.choice([0, 1, 2]), self.rng.choice([.5, 2.5]), self.rng.choice(["", "t"]), name=self.rng.choice(["", "n"]))

    def sub(self):
        return StandaloneLeaf(self.rng.choice([3, 4]), name=self.rng.choice(["", "s"]))

    def pair(self):
        leaf = self.leaf()
        return Pair(leaf, self.rng.choice([None, leaf, self.sub(), 3, "text"]), tag=self.rng.choice([0, 1]))

    def keyword(self):
        return KwOnly(self.rng.choice([0, 1]), second=self.rng.choice([.5, 2.5]), third=self.rng.choice([None, ["a"]]))

    def twin(self):
        return Twin(self.rng.choice([5, 6]), name=self.rng.choice(["", "w"]))

    def object(self):
        return self.rng.choice([(Leaf, self.leaf), (Leaf, self.twin), (Twin, self.twin), (StandaloneLeaf, self.sub), (Pair, self.pair), (KwOnly, self.keyword),
                                (Leaf, self.sub)])

    def any(self, depth=2):
        """ (annotation, maker of values) """
        rng = self.rng
        kind = rng.choice(["builtin", "builtin", "object", "object", "list", "list", "tuple", "many", "dict", "optional", "union",
                           "instance", "literal", "any", "measure", "type", "iterator"]) if depth else \
            rng.choice(["builtin", "builtin", "object"])
        if kind == "builtin":
            return self.builtin()
        if kind == "object":
            return self.object()
        if kind == "list":
            type_, make = self.any(depth - 1)
            return List[type_], lambda: [make() for _ in range(rng.choice([0, 1, 2, 4]))]
        if kind == "tuple":
            members = [self.any(depth - 1) for _ in range(rng.choice([1, 2, 3]))]
            return Tuple[tuple(t for t, _ in members)], lambda: tuple(make() for _, make in members)
        if kind == "many":
            type_, make = self.any(depth - 1)
            return Tuple[type_, ...], lambda: tuple(make() for _ in range(rng.choice([0, 1, 2, 4])))
        if kind == "dict":
            type_, make = self.builtin()
            return Dict[str, type_], lambda: {rng.choice(["a", "b", "é"]): make() for _ in range(rng.choice([0, 1, 2]))}
        if kind == "optional":
            type_, make = self.any(depth - 1)
            annotation = rng.choice([Optional[type_], Union[None, type_], Union[type_, None]])
            return annotation, lambda: None if rng.random() < .3 else make()
        if kind == "union":
            members = rng.sample([(Leaf, self.leaf), (StandaloneLeaf, self.sub), (Pair, self.pair), (KwOnly, self.keyword), (Twin, self.twin)],
                                 rng.choice([2, 3]))
            return Union[tuple(t for t, _ in members)], lambda: rng.choice(members)[1]()
        if kind == "instance":
            base, makers = rng.choice([(DessiaObject, [self.leaf, self.pair, self.sub, self.twin]), (Leaf, [self.leaf, self.sub, self.twin])])
            return InstanceOf[base], lambda: rng.choice(makers)()
        if kind == "literal":
            return Literal["a", "b c"], lambda: rng.choice(["a", "b c"])
        if kind == "any":
            return Any, lambda: rng.choice([None, 1, 2.5, "t", [1, [2]], {"a": [1]}, True])
        if kind == "measure":
            class_ = rng.choice([Distance, Mass])
            return class_, lambda: rng.choice([0.0, 1.5, 1e-3])
        if kind == "type":
            return Type, lambda: rng.choice([Leaf, Pair, DessiaObject])
        type_, make = self.any(depth - 1)
        return Iterator[type_], lambda: [make() for _ in range(rng.choice([0, 1, 3]))]


def written(rng, value):
    """ The serialized value, through JSON. """
    if isinstance(value, DessiaObject):
        value = value.to_dict(use_pointers=rng.random() < .5)
    elif isinstance(value, (list, tuple)) and rng.random() < .4:
        return [written(rng, v) for v in value]
    return json.loads(json.dumps(serialize(value)))


def has_iterator(type_):
    return getattr(type_, "__origin__", None) is Iterator.__origin__ or any(has_iterator(a) for a in getattr(type_, "__args__", ()))


def consumed(type_, value):
    """ Iterators read, following the annotation. """
    origin, args = getattr(type_, "__origin__", None), getattr(type_, "__args__", ())
    if value is None or not args:
        return value
    if origin is Iterator.__origin__:
        assert not isinstance(value, list)
        return [consumed(args[0], v) for v in value]
    if origin is list:
        return [consumed(args[0], v) for v in value]
    if origin is tuple:
        types = [args[0]] * len(value) if Ellipsis in args else args
        return tuple(consumed(t, v) for t, v in zip(types, value))
    if origin is Union and len(args) == 2 and type(None) in args:
        return consumed(next(a for a in args if a is not type(None)), value)
    return value


def make_class(signature, annotations):
    """ A user class whose method has the given arguments. """
    index = next(COUNTER)
    scope = {}
    exec(f"def method(self{''.join(', ' + a for a in signature)}):\n    return dict(locals())", scope)  # pylint: disable=exec-used
    method = scope["method"]
    method.__annotations__ = annotations
    method.__module__ = __name__
    return type(f"Dynamic{index}", (DessiaObject,), {"method": method, "__module__": __name__, "_allowed_methods": ["method"]})


@scenario("C17", 3000, 60000, rule="random signatures over the supported annotations: values serialized to JSON and turned into arguments are the "
                                   "same values, by name, and the method accepts them")
def arguments(rng, m):
    values = Values(rng)
    count = rng.choice([1, 2, 3, 5])
    signature, annotations, given, types = [], {}, {}, []
    defaults = rng.randint(0, count)
    for i in range(count):
        type_, make = values.any()
        types.append(type_)
        annotations[f"arg{i}"] = type_
        signature.append(f"arg{i}=None" if i >= defaults else f"arg{i}")
        if i < defaults or rng.random() < .6:
            given[i] = make()
    m.case(repr((types, {i: view(v) for i, v in given.items()})))
    for type_ in types:
        m.ev("type:" + str(getattr(type_, "__origin__", type_)))
    object_ = make_class(signature, annotations)()
    dict_ = {str(i): written(rng, v) for i, v in given.items()}
    before = json.dumps(dict_)
    got = m.call("dict_to_arguments", object_.dict_to_arguments, dict_, "method")
    m.same(json.dumps(dict_), before, "dict-unaltered")
    m.same(sorted(got), sorted(f"arg{i}" for i in given), "argument-names")
    for i, value in given.items():
        result = consumed(types[i], got[f"arg{i}"])
        m.same(view(result), view(value), "argument-value", f"{types[i]}")
    m.call("method", object_.method, **got)


@scenario("C17", 300, 6000, rule="classes of one module having the same name and other methods (redefined classes), and several methods of a class: "
                                 "arguments follow the method of the object at hand")
def namesakes(rng, m):
    values = Values(rng)
    kept = []
    module = f"vmon_c17_{rng.getrandbits(40)}"
    for _ in range(rng.choice([2, 3])):
        space, methods = {"__module__": module}, {}
        for name in rng.sample(["method", "other"], rng.choice([1, 2])):
            members = [(f"arg{i}", *values.builtin()) for i in rng.sample(range(4), rng.choice([1, 2, 3]))]
            scope = {}
            exec(f"def {name}(self{''.join(', ' + a for a, *_ in members)}):\n    return dict(locals())", scope)  # pylint: disable=exec-used
            scope[name].__annotations__ = {a: t for a, t, _ in members}
            space[name] = scope[name]
            methods[name] = members
        kept.append((type("Namesake", (DessiaObject,), space)(), methods))
    m.case(repr([{n: [a[:2] for a in members] for n, members in methods.items()} for _, methods in kept]))
    for _ in range(2):
        for object_, methods in kept:
            for name, members in methods.items():
                given = [make() for _, _, make in members]
                got = m.call("dict_to_arguments", object_.dict_to_arguments, {str(i): v for i, v in enumerate(given)}, name)
                m.same(got, {a: v for (a, *_), v in zip(members, given)}, "namesake-arguments", f"{name}")


@scenario("C17", 1500, 30000, rule="one value against one annotation, files included")
def single(rng, m):
    values = Values(rng)
    type_, make = values.any(3)
    value = make()
    m.case(repr((type_, view(value))))
    m.same(view(consumed(type_, m.call("deserialize", deserialize_argument, type_, written(rng, value)))), view(value), "value", f"{type_}")
    m.check(m.call("deserialize", deserialize_argument, type_, None) is None, "none-is-none")
    if isinstance(value, DessiaObject):
        m.check(m.call("deserialize", deserialize_argument, type_, value) is value, "object-kept")
    file = rng.choice([StringFile, BinaryFile])("f.txt")
    file.write("content" if isinstance(file, StringFile) else b"content")
    m.check(deserialize_argument(type(file), file) is file, "file-kept")
    m.check(deserialize_argument(type(file), [file]) is file, "single-file-of-list")
    several = m.call("deserialize", deserialize_argument, List[type(file)], [file, file])
    m.check(len(several) == 2 and all(f is file for f in several), "files-kept")


WRONG = {int: ["a", 1.5, [1], {"a": 1}, "1", "12", "", "0", " 3", 2.0, "None", b"1", (), 1e300],
         float: ["1.5", [1.5], {}, "a", "12", "", "nan", "inf", "1e5", "-3", b"2", (1.5,), "1_0"],
         str: [1, 2.5, ["a"], True, {}, b"text", (), ("a",), 0, [], 10 ** 30],
         bool: ["True", 1, 0, 1.0, [], "", "false", 0.0, {}, b"", "1"]}


@scenario("C17", 1000, 20000, rule="values of another kind than the declared builtin type, alone or inside lists, tuples and optionals, tuples of "
                                   "another length: refused with a TypeError")
def refused(rng, m):
    builtin = rng.choice(list(WRONG))
    wrong = rng.choice(WRONG[builtin])
    right = {int: 1, float: 1.5, str: "t", bool: True}[builtin]
    type_, value = rng.choice([
        (builtin, wrong), (List[builtin], [right, wrong]), (Optional[builtin], wrong), (Tuple[int, builtin], [1, wrong]),
        (Tuple[builtin, ...], [right, right, wrong]), (List[Tuple[builtin, int]], [[right, 1], [wrong, 2]]),
        (Tuple[builtin, int], [right]), (Tuple[builtin, int], [right, 1, 2]), (List[List[builtin]], [[], [right, wrong]])])
    m.case(repr((type_, value)))
    m.refuses("wrong-builtin", deserialize_argument, type_, value, errors=(TypeError,))
    object_ = make_class(["arg0", "arg1=2"], {"arg0": int, "arg1": type_})()
    m.refuses("wrong-argument", object_.dict_to_arguments, {"0": 1, "1": value}, "method", errors=(TypeError,))
    # an integer is a valid real number, given as a float
    m.same(deserialize_argument(float, 3), 3.0, "integer-as-float")
    m.same(deserialize_argument(List[float], [1, 2.5]), [1.0, 2.5], "integers-as-floats")


# ------------------------------------------------------------------------------------------------------- type matching
PARENTS = {StandaloneLeaf: [Leaf, DessiaObject, object], Leaf: [DessiaObject, object], Pair: [DessiaObject, object],
           int: [float, object], bool: [int, object], Distance: [Measure, float], str: [object], float: [object],
           DessiaObject: [object], object: []}
LEAVES = [StandaloneLeaf, Leaf, Pair, int, bool, Distance, str, float, DessiaObject]


def random_type(rng, depth=2):
    kind = rng.choice(["leaf", "leaf", "list", "tuple", "many", "dict", "optional", "union"]) if depth else "leaf"
    if kind == "leaf":
        return rng.choice(LEAVES)
    if kind == "list":
        return List[random_type(rng, depth - 1)]
    if kind == "tuple":
        return Tuple[tuple(random_type(rng, depth - 1) for _ in range(rng.choice([1, 2, 3])))]
    if kind == "many":
        return Tuple[random_type(rng, depth - 1), ...]
    if kind == "dict":
        return Dict[rng.choice([str, int]), random_type(rng, depth - 1)]
    if kind == "optional":
        return Optional[random_type(rng, depth - 1)]
    return Union[tuple(rng.sample([t for t in LEAVES if t is not bool], rng.choice([2, 3])))]


def args_of(type_):
    return getattr(type_, "__args__", ())


def strip(type_):
    """ Without its Optional. """
    if getattr(type_, "__origin__", None) is Union and type(None) in args_of(type_) and len(args_of(type_)) == 2:
        return strip(next(a for a in args_of(type_) if a is not type(None)))
    return type_


def accepts(wide, value):
    """ Whether a described value is acceptable. Values: ('leaf', class) | ('list', [..]) | ('tuple', [..]) | ('dict', key, value). """
    wide = strip(wide)
    if wide is Any:
        return True
    origin, args = getattr(wide, "__origin__", None), args_of(wide)
    if origin is Union:
        return any(accepts(a, value) for a in args if a is not type(None))
    if origin is list:
        return value[0] == "list" and all(accepts(args[0], v) for v in value[1])
    if origin is tuple:
        if value[0] != "tuple":
            return False
        if Ellipsis in args:
            return all(accepts(args[0], v) for v in value[1])
        return len(args) == len(value[1]) and all(accepts(a, v) for a, v in zip(args, value[1]))
    if origin is dict:
        return value[0] == "dict" and accepts(args[0], value[1]) and accepts(args[1], value[2])
    if value[0] != "leaf":
        return wide is object
    return issubclass(value[1], wide) or (wide is float and issubclass(value[1], int))


def a_value(rng, type_):
    """ A described value of a type: covers every member across draws. """
    type_ = strip(type_)
    origin, args = getattr(type_, "__origin__", None), args_of(type_)
    if origin is Union:
        return a_value(rng, rng.choice([a for a in args if a is not type(None)]))
    if origin is list:
        return ("list", [a_value(rng, args[0]) for _ in range(rng.choice([1, 2]))])
    if origin is tuple:
        if Ellipsis in args:
            return ("tuple", [a_value(rng, args[0]) for _ in range(rng.choice([0, 1, 2, 3, 4]))])
        return ("tuple", [a_value(rng, a) for a in args])
    if origin is dict:
        return ("dict", a_value(rng, args[0]), a_value(rng, args[1]))
    return ("leaf", type_)


def widen(rng, type_):
    """ A type that accepts every value of the given one, of a form the matching documents. """
    if rng.random() < .15:
        return type_
    if rng.random() < .1:
        return rng.choice([Any, TypeVar("T")])
    if rng.random() < .2:
        return Optional[type_]
    origin, args = getattr(type_, "__origin__", None), args_of(type_)
    if origin is list:
        return List[widen(rng, args[0])]
    if origin is tuple:
        if Ellipsis in args:
            return Tuple[widen(rng, args[0]), ...]
        if len(set(args)) == 1 and rng.random() < .4:
            return Tuple[widen(rng, args[0]), ...]
        return Tuple[tuple(widen(rng, a) for a in args)]
    if origin is dict:
        return Dict[args[0], widen(rng, args[1])]
    if origin is Union:
        if type(None) in args and len(args) == 2:
            return widen(rng, strip(type_))
        return Union[args + (rng.choice(LEAVES),)] if rng.random() < .6 else Union[tuple(rng.sample(args, len(args)))]
    if type_ in PARENTS:
        if PARENTS[type_] and rng.random() < .7:
            return rng.choice(PARENTS[type_])
        return Union[type_, rng.choice(LEAVES)]
    return type_


@scenario("C17", 3000, 60000, rule="random pairs of types: reflexive; a match implies that every value of the first type is acceptable for the "
                                   "second; widened types (parents, Optional, Any, unions, elementwise) always match, also in chains")
def matching(rng, m):
    first = random_type(rng)
    second = random_type(rng) if rng.random() < .5 else widen(rng, random_type(rng, 1))
    wide = widen(rng, first)
    m.case(repr((first, second, wide)))
    m.check(m.call("typematch", typematch, first, first) is True, "reflexive", "", first)
    m.check(m.call("typematch", typematch, first, Any) is True, "any", "", first)
    m.check(m.call("typematch", typematch, first, wide) is True, "widened", f"{first} -> {wide}")
    for one, other in ((first, second), (second, first), (wide, first)):
        if any(isinstance(t, TypeVar) or "~T" in repr(t) for t in (one, other)):
            continue
        matched = m.call("typematch", typematch, one, other)
        m.check(matched is True or matched is False, "boolean")
        if matched:
            m.ev("matches")
            for _ in range(6):
                if one is Any:
                    break
                if "Any" in repr(one):
                    continue
                value = a_value(rng, one)
                m.check(accepts(other, value), "match-is-sound", f"{one} -> {other} for {value}")
    if isinstance(wide, type) and isinstance(first, type) and wide in PARENTS and PARENTS[wide] and wide is not int:
        top = rng.choice(PARENTS[wide])
        m.check(typematch(first, top) is True, "transitive", f"{first} {wide} {top}")
    for one in (Leaf, StandaloneLeaf, int, str):
        for other in (Pair, Typed, Payload):
            m.check(typematch(one, other) is False and typematch(List[one], List[other]) is False, "unrelated")
