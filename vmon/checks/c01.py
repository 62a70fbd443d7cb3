""" C01: serialization round trip. """
import json
import string
import sys
import types

from dessia_common.core import DessiaObject
from dessia_common.serialization import dict_to_object, serialize, deserialize, is_serializable
from dessia_common.utils.types import is_bson_valid, is_jsonable

from vmon import models as M
from vmon.core import scenario, probe
from vmon.gen import Gen, key_orders, view


def assert_plain_json(m, value, path="#"):
    """ Only JSON types, string keys, finite nesting. """
    if isinstance(value, dict):
        for key, sub in value.items():
            m.check(type(key) is str, "plain-json", f"non string key at {path}", key)
            assert_plain_json(m, sub, f"{path}/{key}")
    elif isinstance(value, list):
        for i, sub in enumerate(value):
            assert_plain_json(m, sub, f"{path}/{i}")
    else:
        m.check(value is None or type(value) in (str, int, float, bool), "plain-json",
                f"{type(value).__name__} at {path}", value)


def reader(rng, cls):
    """ One of the equivalent public ways of reading a dict. """
    return rng.choice([cls.dict_to_object, DessiaObject.dict_to_object, dict_to_object])


def round_trip(rng, m, obj, use_pointers, tuples=True):
    original = view(obj)
    dict_ = m.call("to_dict", obj.to_dict, use_pointers=use_pointers)
    m.same(view(obj), original, "to-dict-alters-object")
    assert_plain_json(m, dict_)
    bson, hint = m.call("is_bson_valid", is_bson_valid, dict_)
    m.check(bson, "bson-valid", hint)
    m.check(is_jsonable(dict_), "is-jsonable", "to_dict result is not JSON dumpable")
    text = json.dumps(dict_)
    m.log("json", text[:800])
    loaded = json.loads(text)
    back = m.call("dict_to_object", reader(rng, type(obj)), loaded)
    m.check(type(back) is type(obj), "round-trip-class", "", type(back), type(obj))
    m.same(view(back, tuples=tuples), view(obj, tuples=tuples), "round-trip-data", f"use_pointers={use_pointers}")
    m.check(key_orders(back) == key_orders(obj), "round-trip-key-order", f"use_pointers={use_pointers}")
    m.check(m.call("eq", lambda: back == obj) and m.call("eq", lambda: obj == back), "round-trip-equal",
            "round-tripped object is not data-equal", text[:600])
    m.equal(hash(back), hash(obj), "round-trip-hash")
    m.ev("round_trips")
    return back


@scenario("C01", 3000, 60000, rule="random object graph (payloads, typed containers, shared sub-objects, measures, classes) "
                                  "round-tripped through JSON with and without pointers")
def graph_round_trip(rng, m):
    gen = Gen(rng)
    obj = gen.obj(rng.choice([1, 2, 3, 4]))
    m.case(view(obj))
    pointers = rng.random() < .5
    back = round_trip(rng, m, obj, pointers)
    round_trip(rng, m, back, rng.random() < .5)
    round_trip(rng, m, obj, not pointers)


@scenario("C01", 500, 10000, rule="objects holding physical measures, alone and in lists, dicts and tuples: class and exact value kept")
def measures(rng, m):
    gen = Gen(rng)
    number = lambda: rng.choice([0., -0.5, 1 / 3, 1e-11, -2.5e-300, 1e22, 123456.123456789, rng.uniform(-1e3, 1e3), rng.gauss(0, 1e-9)])
    maybe = lambda make: make() if rng.random() < .6 else None
    obj = M.Measured(M.Distance(number()), maybe(lambda: M.Angle(number())), maybe(lambda: [M.Mass(number()) for _ in range(rng.randint(0, 4))]),
                     maybe(lambda: {k: M.Force(number()) for k in rng.sample(["a", "b", "c d", "1"], rng.randint(0, 3))}),
                     maybe(lambda: (M.Time(number()), M.Distance(number()))), maybe(gen.leaf), name=gen.name())
    if rng.random() < .3:
        obj = M.Payload([obj, obj, M.Distance(number()), {"x": M.Time(number())}], name=gen.name())
    m.case(view(obj))
    round_trip(rng, m, obj, rng.random() < .5)


@scenario("C01", 1500, 30000, rule="objects holding arbitrary plain JSON values (deep nesting, long lists, odd strings)")
def plain_payload(rng, m):
    gen = Gen(rng)
    value = gen.plain(rng.choice([2, 3, 4, 5]))
    cls = rng.choice([M.Payload, M.StandalonePayload])
    obj = cls(value, name=gen.name())
    m.case(view(obj))
    round_trip(rng, m, obj, rng.random() < .5)
    serialized = m.call("serialize", serialize, value)
    back = m.call("deserialize", deserialize, json.loads(json.dumps(serialized)))
    m.same(back, value, "serialize-deserialize")


@scenario("C01", 1500, 30000, rule="random strings (unicode, dots, separators, control characters, look-alikes of syntax)")
def string_values(rng, m):
    alphabets = [string.printable, "ab.c/#_", "éàü☃日本🎉\u200b\u00a0", ".", "\x00\x01\x1f\x7f\"\\", string.ascii_letters + "._"]
    texts = []
    for _ in range(8):
        alphabet = rng.choice(alphabets)
        texts.append("".join(rng.choice(alphabet) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30]))))
    texts += [rng.choice(["1.5", "v1.0", "a.b", "file.txt", "Hello. World", "www.site.org", "x.y.z.t", "3.", "e.g.", "..",
                          "...", "a..b", "module.Class", "math.pi", "os.path", "json.dumps", "sys.path", "dessia_common.core.Missing", "dessia.", "$ref", "object_class"])
              for _ in range(3)]
    texts = [t for t in texts if not names_a_class(t)]
    obj = rng.choice([M.Payload, M.StandalonePayload])(
        rng.choice([texts, {f"k{i}": t for i, t in enumerate(texts)}, [[t] for t in texts], texts[0] if texts else ""]),
        name=rng.choice(texts) if texts else "")
    m.case(view(obj))
    round_trip(rng, m, obj, rng.random() < .5)
    leaf = M.Leaf(1, 2.5, texts[0] if texts else "x", True, name="leaf")
    round_trip(rng, m, leaf, rng.random() < .5)


def names_a_class(text):
    """ True when a string names something importable (excluded: known finding). """
    if "." not in text or text[0] == ".":
        return False
    import importlib
    module, _, attr = text.rpartition(".")
    try:
        return isinstance(getattr(importlib.import_module(module), attr, None), type)
    except Exception:
        return False


@scenario("C01", 400, 4000, rule="numeric extremes: big/small ints and floats, negative zero, booleans, keep value and type")
def number_values(rng, m):
    ints = [0, -1, 2**31, 2**53, 2**53 + 1, 2**62, -2**62, 2**63 - 1, -2**63, rng.getrandbits(40)]
    floats = [1e-300, 1e300, -0.0, 5e-324, 1.7976931348623157e308, 0.1 + 0.2, 1 / 3, rng.uniform(-1e9, 1e9), 1e22, 123456789.123]
    values = [rng.choice(ints) for _ in range(5)] + [rng.choice(floats) for _ in range(5)] + [True, False, None]
    rng.shuffle(values)
    obj = rng.choice([M.Payload, M.StandalonePayload])(rng.choice([values, {"v": values}, [values, values]]))
    m.case(view(obj))
    for pointers in (True, False):
        round_trip(rng, m, obj, pointers)
    leaf = M.Leaf(rng.choice(ints), rng.choice(floats), flag=rng.random() < .5)
    round_trip(rng, m, leaf, True)


@scenario("C01", 200, 2000, rule="numpy scalars are written as plain numbers of the same value")
def numpy_values(rng, m):
    import numpy as npy
    ints = [rng.randint(-10**6, 10**6) for _ in range(3)]
    floats = [rng.uniform(-10, 10) for _ in range(3)]
    obj = M.Payload({"i": [npy.int64(i) for i in ints], "f": [npy.float64(f) for f in floats], "s": npy.int64(ints[0])})
    m.case(repr((ints, floats)))
    for pointers in (True, False):
        dict_ = m.call("to_dict", obj.to_dict, use_pointers=pointers)
        assert_plain_json(m, {k: v for k, v in dict_.items()})
        back = m.call("dict_to_object", DessiaObject.dict_to_object, json.loads(json.dumps(dict_)))
        m.same(back.payload, {"i": ints, "f": floats, "s": ints[0]}, "numpy-round-trip")
        m.check(back == obj, "numpy-equal")


@scenario("C01", 500, 6000, rule="the written dict names class and name, lists exactly the public attributes")
def dict_content(rng, m):
    gen = Gen(rng)
    obj = gen.obj(2)
    m.case(view(obj))
    for pointers in (True, False):
        dict_ = m.call("to_dict", obj.to_dict, use_pointers=pointers)
        m.equal(dict_["object_class"], f"{type(obj).__module__}.{type(obj).__name__}", "dict-class")
        m.equal(dict_["name"], obj.name, "dict-name")
        expected = {k for k in obj.__dict__ if not k.startswith("_") and k not in type(obj)._non_serializable_attributes}
        m.equal(set(dict_) - {"_references", "object_class"}, expected, "dict-attributes")
    m.check(m.call("is_serializable", is_serializable, obj), "is-serializable", "", obj)


NAMESAKE = """
from typing import Any, List, Tuple, Dict
from dessia_common.core import DessiaObject
class Namesake(DessiaObject):
    _standalone_in_db = {standalone}
    def __init__(self, {signature}, name: str = ""):
        {body}
        DessiaObject.__init__(self, name=name)
class Keeper(DessiaObject):
    def __init__(self, kept: List[Namesake], one: Namesake = None, name: str = ""):
        self.kept = kept
        self.one = one
        DessiaObject.__init__(self, name=name)
"""


@scenario("C01", 150, 2000, rule="classes of the same name in several modules, with arguments of other names and types, used together")
def namesakes(rng, m):
    gen = Gen(rng)
    built, modules = [], []
    for index in range(rng.choice([2, 2, 3])):
        makers = {"Tuple[int, str]": lambda: (gen.integer(), gen.word()), "List[float]": lambda: [gen.real() for _ in range(3)],
                  "int": gen.integer, "str": gen.word, "Dict[str, int]": lambda: gen.dict_of(gen.integer), "Any": lambda: gen.plain(2)}
        arguments = {f"{rng.choice('abcd')}{i}": rng.choice(list(makers)) for i in range(rng.randint(1, 4))}
        signature = ", ".join(f"{n}: {t}" + (" = None" if rng.random() < .0 else "") for n, t in arguments.items())
        module = types.ModuleType(f"vmon_namesake_{rng.getrandbits(60):x}_{index}")
        exec(NAMESAKE.format(standalone=rng.random() < .5, signature=signature,
                             body="; ".join(f"self.{n} = {n}" for n in arguments)), module.__dict__)
        sys.modules[module.__name__] = module
        modules.append(module.__name__)
        items = [module.Namesake(**{n: makers[t]() for n, t in arguments.items()}, name=f"n{index}{i}") for i in range(2)]
        if items[0] == items[1]:
            items = items[:1]
        built += [rng.choice(items), module.Keeper(items, items[0], name=f"k{index}")]
    try:
        rng.shuffle(built)
        obj = M.Payload(built, name="top")
        m.case(view(obj))
        round_trip(rng, m, obj, rng.random() < .6)
        for item in built:
            round_trip(rng, m, item, rng.random() < .6)
    finally:
        for name in modules:
            del sys.modules[name]


@scenario("C01", 40, 400, rule="values that are not serializable are refused, not silently dropped or replaced")
def refused(rng, m):
    from dessia_common.errors import SerializationError
    bad = rng.choice([object(), {1, 2}, b"bytes"[:rng.choice([5])], complex(1, 2), lambda: 1, iter([1])])
    wrap = rng.choice([lambda v: v, lambda v: [v], lambda v: {"k": v}, lambda v: [1, {"a": [v]}]])
    obj = M.Payload(wrap(bad))
    m.case(repr(type(bad)) + wrap("x").__repr__())
    if isinstance(bad, bytes):
        return
    for pointers in (True, False):
        m.refuses("unserializable-refused", obj.to_dict, use_pointers=pointers, errors=(SerializationError, TypeError))
    m.check(not is_serializable(wrap(bad)), "is-serializable-false", "", bad)


@probe("C01", "C01-class-name-string")
def class_name_string(rng, m):
    obj = M.Payload("collections.OrderedDict")
    back = DessiaObject.dict_to_object(json.loads(json.dumps(obj.to_dict())))
    m.same(back.payload, obj.payload, "class-name-string-round-trip")


@probe("C01", "C01-slash-key")
def slash_key(rng, m):
    leaf = M.Leaf(1)
    obj = M.Payload({"a/b": leaf, "c": leaf})
    dict_ = m.call("slash-key-to_dict", obj.to_dict)
    back = m.call("slash-key-read", DessiaObject.dict_to_object, json.loads(json.dumps(dict_)))
    m.same(view(back), view(obj), "slash-key-round-trip")
