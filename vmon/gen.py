""" Generators of plain values and object graphs, and independent (strict) views of object graphs. """
import math
from dessia_common.core import DessiaObject
from dessia_common.measures import Measure
from . import models as M

WORDS = ["", "a", "b", "Z", "abc", "hello world", "é", "日本語", "naïve ☃", "\"quoted\"", "it's", "back\\slash", "tab\tnew\nline",
         "0", "-1", "1.5", "3.14.15", "None", "True", "null", "{}", "[1, 2]", "#", "#/a/b", "/", "a/b", ".hidden", "..",
         "end.", "name", "object_class", "x" * 120, "not.a.class", "v1.2.3", "e.g. this", "%s %d", "$ref", "🎉", "\u200b",
         "nan", "inf", " lead", "trail ", "CamelCase", "under_score", "http://x.y/z?a=b#c", "a.b", "A.B.C", "1.2"]
KEYS = ["a", "b", "c", "key", "long key with spaces", "é", "K0", "K1", "0", "1", "12", "x_y", "Z", "name", "_p", "10", "日本",
        "-3", "None", "k-v", "(1)", "values", "items", "keys"]
FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 1e-3, 1e5, -1e5, 3.141592653589793, 2.718281828, 1e10, -7.75, 100.125, 1e-2,
          12345.678, 1e15, -0.001, 42.0, 1/3]
INTS = [0, 1, 2, 3, -1, -2, 7, 10, 42, 255, 256, -1000, 65536, 10**9, 2**53 - 1, -2**53 + 1, 2**31, 5, 13]


CHARS = "abcdefgXYZ0123456789 _-.,;:!?()[]{}<>|&^%$#@~`'\"\\/\n\t\u00e9\u00df\u2603\u65e5\U0001F389"


class Gen:
    """ One generator per case: keeps a registry so that data-equal objects always carry the same name and types. """

    def __init__(self, rng, standalone=True, words=WORDS, keys=KEYS, tuples=True, twins=False, free_tuples=False):
        self.rng = rng
        self.words, self.keys = words, keys
        self.standalone = standalone
        self.tuples = tuples
        self.free_tuples = free_tuples  # whether tuples may be found where none is declared
        self.twins = twins  # whether data-equal objects may be distinct, with their own names
        self.by_loose = {}
        self.pool = []
        self.counter = 0

    # ---- scalars
    def word(self):
        if self.words is WORDS and self.rng.random() < .04:
            return self.random_text(self.rng.choice([1, 2, 3, 8, 20, 200, 1500]))
        return self.rng.choice(self.words)

    def random_text(self, length):
        return "".join(self.rng.choice(CHARS) for _ in range(length))

    def key(self):
        if self.keys is KEYS and self.rng.random() < .06:
            return self.rng.choice("abXYZ_é") + "".join(self.rng.choice("abcxyz_019 ABC-") for _ in range(self.rng.randint(1, 12)))
        return self.rng.choice(self.keys)

    def integer(self):
        return self.rng.choice(INTS) if self.rng.random() < .8 else self.rng.randint(-10**6, 10**6)

    def real(self):
        return self.rng.choice(FLOATS) if self.rng.random() < .8 else round(self.rng.uniform(-1e3, 1e3), 3)

    def scalar(self):
        r = self.rng.random()
        if r < .3:
            return self.integer()
        if r < .55:
            return self.real()
        if r < .8:
            return self.word()
        if r < .9:
            return self.rng.random() < .5
        return None

    def name(self):
        self.counter += 1
        return self.rng.choice(["", "obj", self.word(), f"n{self.counter}"])

    # ---- containers
    def size(self, big=False):
        return self.rng.choice([0, 1, 1, 2, 2, 3, 4, 6] + ([12, 15] if big else []))

    def dict_of(self, func, size=None):
        out = {}
        for _ in range(self.size() if size is None else size):
            out[self.key()] = func()
        return out

    def unusual(self):
        """ Plain values of unusual shapes: long, uniform, deep, empty or repetitive. """
        rng = self.rng
        kind = rng.randrange(9)
        size = rng.choice([17, 33, 64, 101, 150])
        if kind == 0:
            return [self.real() for _ in range(size)]
        if kind == 1:
            return [self.integer() for _ in range(size)]
        if kind == 2:
            return [self.word() for _ in range(size)]
        if kind == 3:
            return {f"key{i}": self.scalar() for i in range(size)}
        if kind == 4:
            value = self.scalar()
            for i in range(rng.randint(4, 9)):
                value = [value] if rng.random() < .5 else {self.key(): value}
            return value
        if kind == 5:
            return [[], {}, [[]], [{}], {"a": []}, {"a": {}}, "", None, 0, False][:rng.randint(1, 10)]
        if kind == 6:
            names = [self.key() for _ in range(3)]
            return [{k: self.scalar() for k in names} for _ in range(rng.randint(3, 25))]
        if kind == 7:
            return [rng.choice([None, 0, 1, False, True, 0.0, "", "0"]) for _ in range(rng.randint(2, 30))]
        return [[float(i * j) for j in range(rng.choice([1, 3, 12]))] for i in range(rng.choice([2, 12, 25]))]

    def plain(self, depth=3):
        """ Plain JSON value (no tuple: untyped positions). """
        if self.rng.random() < .03:
            return self.unusual()
        r = self.rng.random()
        if depth <= 0 or r < .45:
            return self.scalar()
        if r < .75:
            return [self.plain(depth - 1) for _ in range(self.size(big=True))]
        return self.dict_of(lambda: self.plain(depth - 1))

    def payload(self, depth=3, objects=True):
        """ Value of an untyped attribute: plain values mixed with objects. """
        if self.rng.random() < .04:
            return self.unusual()
        r = self.rng.random()
        if objects and r < .35:
            return self.obj(depth - 1)
        if depth <= 0 or r < .5:
            return self.scalar()
        if r < .8:
            content = [self.payload(depth - 1, objects) for _ in range(self.size())]
            if self.free_tuples and self.rng.random() < .5:
                if self.rng.random() < .3:
                    content = [v for v in content if isinstance(v, (list, dict, tuple))] or [[1], {"a": [2]}]
                return tuple(content)
            return content
        return self.dict_of(lambda: self.payload(depth - 1, objects))

    # ---- objects
    def register(self, obj):
        """ Return a previously made object when a data-equal one exists: equality in the code under test ignores
        names (and bool/int differences), so two 'equal' objects are legitimately merged. """
        if self.twins:
            self.pool.append(obj)
            if self.rng.random() < .3:
                return self.rng.choice([o for o in self.pool if type(o) is type(obj)])
            return obj
        loose, strict = repr(loose_view(obj)), repr(view(obj, names=False))
        if loose in self.by_loose:
            known_strict, known = self.by_loose[loose]
            if known_strict == strict:
                obj.name = known.name
                if self.rng.random() < .5:
                    return known
                return obj
            return known
        self.by_loose[loose] = (strict, obj)
        self.pool.append(obj)
        return obj

    def leaf(self):
        if self.pool and self.rng.random() < .25:
            leaves = [o for o in self.pool if isinstance(o, M.Leaf)]
            if leaves:
                return self.rng.choice(leaves)
        cls = self.rng.choice([M.Leaf, M.StandaloneLeaf] if self.standalone else [M.Leaf])
        return self.register(cls(self.integer(), self.real(), self.word(), self.rng.random() < .5, name=self.name()))

    def typed(self, depth):
        cls = self.rng.choice([M.Typed, M.StandaloneTyped] if self.standalone else [M.Typed])
        size = self.size
        return cls(ints=[self.integer() for _ in range(size(True))], pair=(self.integer(), self.word()),
                   triple=(self.real(), self.leaf(), self.word()),
                   mapping=self.dict_of(self.real), child=self.leaf(),
                   children=[self.leaf() for _ in range(size())], leafmap=self.dict_of(self.leaf),
                   matrix=[[self.real() for _ in range(size())] for _ in range(size())],
                   pairs=[(self.integer(), self.word()) for _ in range(size())],
                   option=self.rng.choice([None, self.leaf()]), label=self.word(), name=self.name())

    def obj(self, depth=3):
        rng = self.rng
        if self.pool and rng.random() < .3:
            return rng.choice(self.pool)
        r = rng.random()
        if depth <= 0 or r < .25:
            return self.leaf()
        if r < .5:
            cls = rng.choice([M.Payload, M.StandalonePayload] if self.standalone else [M.Payload])
            return self.register(cls(self.payload(depth - 1), name=self.name()))
        if r < .65:
            return self.register(self.typed(depth - 1))
        if r < .8:
            cls = rng.choice([M.Pair, M.StandalonePair] if self.standalone else [M.Pair])
            return self.register(cls(self.obj(depth - 1), self.payload(depth - 1), self.integer(), name=self.name()))
        if r < .85:
            return self.register(M.Derived([self.integer() for _ in range(self.size())], name=self.name()))
        if r < .88:
            return self.register(M.KwOnly(self.integer(), second=self.real(),
                                          third=rng.choice([None, [], [self.word()], [self.word(), self.word()]]),
                                          name=self.name()))
        if r < .92:
            return self.register(M.ClassHolder(rng.choice([M.Leaf, M.Payload, M.Derived, M.StandaloneLeaf, M.Typed]),
                                               self.integer(), name=self.name()))
        if r < .96:
            return self.register(M.MeasureHolder(self.real(), [self.real() for _ in range(self.size())], self.real(),
                                                 name=self.name()))
        return self.register(M.Physical(self.real(), rng.choice([None, [], [self.leaf()], [self.leaf(), self.leaf()]]),
                                        name=self.name()))


# ---------------------------------------------------------------------------------------------------- strict views
def public_attributes(obj):
    skip = type(obj)._non_serializable_attributes
    return {k: v for k, v in obj.__dict__.items() if not k.startswith("_") and k not in skip}


def view(value, names=True, tuples=True, memo=None):
    """ Strict plain view of an object graph: classes, attribute values, types, order, names. Independent of the code
    under test (only reads __dict__). """
    if isinstance(value, DessiaObject):
        attrs = {k: view(v, names, tuples) for k, v in sorted(public_attributes(value).items()) if k != "name"}
        return {"__class__": f"{type(value).__module__}.{type(value).__qualname__}",
                **({"__name__": value.name} if names else {}), "attrs": attrs}
    if isinstance(value, dict):
        return {"__dict__": [[k, view(v, names, tuples)] for k, v in sorted(value.items(), key=lambda kv: repr(kv[0]))]}
    if isinstance(value, tuple):
        content = [view(v, names, tuples) for v in value]
        return {"__tuple__": content} if tuples else content
    if isinstance(value, list):
        return [view(v, names, tuples) for v in value]
    if isinstance(value, type):
        return {"__type__": f"{value.__module__}.{value.__qualname__}"}
    if hasattr(value, "getvalue") and hasattr(value, "filename"):
        return {"__file__": type(value).__name__, "filename": value.filename, "content": value.getvalue()}
    if isinstance(value, Measure):
        return {"__measure__": type(value).__name__, "value": repr(float(value))}
    if isinstance(value, float):
        return {"__float__": repr(float(value))}
    if isinstance(value, bool) or value is None or isinstance(value, (str, int)):
        return value
    if hasattr(value, "__dict__"):
        return {"__class__": type(value).__qualname__, "attrs": {k: view(v, names, tuples) for k, v in
                                                                 sorted(vars(value).items())}}
    return repr(value)


def loose_view(value):
    """ View up to what data equality may identify: names ignored, bool ~ int, tuple ~ list, floats rounded. """
    if isinstance(value, DessiaObject):
        return (type(value).__name__, [(k, loose_view(v)) for k, v in sorted(public_attributes(value).items())
                                       if k != "name"])
    if isinstance(value, dict):
        return ("d", [(k, loose_view(v)) for k, v in sorted(value.items(), key=lambda kv: repr(kv[0]))])
    if isinstance(value, (list, tuple)):
        return [loose_view(v) for v in value]
    if isinstance(value, bool):
        return int(value)
    if isinstance(value, float):
        return "f%.6g" % value
    if isinstance(value, type):
        return "class"
    return value


def walk(value, path=()):
    """ All (path, value) pairs of a graph; paths are tuples of ('attr'|'idx'|'key', segment). """
    yield path, value
    if isinstance(value, DessiaObject):
        for key, sub in public_attributes(value).items():
            yield from walk(sub, path + (("attr", key),))
    elif isinstance(value, dict):
        for key, sub in value.items():
            yield from walk(sub, path + (("key", key),))
    elif isinstance(value, (list, tuple)):
        for i, sub in enumerate(value):
            yield from walk(sub, path + (("idx", i),))


def sharing(value):
    """ Partition of object positions by identity: {path: class number}. """
    classes, out = {}, {}
    for path, sub in walk(value):
        if isinstance(sub, DessiaObject):
            out[path] = classes.setdefault(id(sub), len(classes))
    return out


def key_orders(value):
    """ The order of the keys of every dict of a graph. """
    return {path: list(sub) for path, sub in walk(value) if isinstance(sub, dict)}


def close_floats(a, b):
    return a == b or math.isclose(a, b, abs_tol=1e-8)
