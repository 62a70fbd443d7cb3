""" C03: data equality and hash laws. """
import json
import os
import random
import subprocess
import sys

import numpy as npy
from dessia_common import FLOAT_TOLERANCE
from dessia_common.core import DessiaObject, data_eq

from vmon import models as M
from vmon.core import scenario
from vmon.gen import Gen, view, loose_view, walk
from vmon.mutate import change, text


def twins(rng, depth=None):
    """ The same graph built twice from the same data. """
    seed = rng.getrandbits(64)
    depth = rng.choice([1, 2, 3]) if depth is None else depth
    return Gen(random.Random(seed)).obj(depth), Gen(random.Random(seed)).obj(depth)


def equal(m, a, b):
    forward, backward = m.call("eq", lambda: a == b), m.call("eq", lambda: b == a)
    m.check(type(forward) is bool and forward == backward, "eq-symmetric", "", forward, backward)
    m.check(m.call("ne", lambda: a != b) is (not forward), "ne-is-not-eq")
    data_forward, data_backward = m.call("data_eq", a._data_eq, b), m.call("data_eq", b._data_eq, a)
    m.check(bool(data_forward) == bool(data_backward), "data-eq-symmetric", "", data_forward, data_backward)
    m.check(not forward or data_forward, "eq-implies-data-eq")
    if forward:
        m.equal(hash(a), hash(b), "equal-objects-equal-hash")
    return forward, bool(data_forward)


@scenario("C03", 2500, 50000, rule="the same random data built twice: equal, equal hash, reflexive, whatever the names")
def same_data(rng, m):
    a, b = twins(rng)
    m.case(view(a))
    m.check(equal(m, a, a) == (True, True), "eq-reflexive")
    m.check(equal(m, a, b) == (True, True), "independent-equal", "two objects built from the same data differ")
    m.equal(hash(a), hash(b), "independent-hash")
    m.equal(hash(a), hash(a), "hash-stable")
    m.check(a in [b] and len({a, b}) == 1 and {a: 1}[b] == 1, "usable-in-containers")
    before = view(b)
    for _, sub in walk(b):
        if isinstance(sub, DessiaObject):
            sub.name = rng.choice(["", "renamed", "other"])
    m.check(equal(m, a, b) == (True, True), "names-ignored")
    m.equal(hash(a), hash(b), "names-not-hashed")
    m.same(view(b, names=False), {**before, "__name__": None} and view(a, names=False), "eq-alters-object")
    reordered = 0
    for _, sub in list(walk(b)):
        if isinstance(sub, dict) and len(sub) > 1:
            items = list(sub.items())
            rng.shuffle(items)
            sub.clear()
            sub.update(items)
            reordered += 1
    m.check(equal(m, a, b) == (True, True), "dict-order-ignored", "dicts filled in another order")
    m.equal(hash(a), hash(b), "dict-order-not-hashed")
    m.ev("reordered-dicts:" + str(min(reordered, 3)))


@scenario("C03", 6000, 120000, rule="one change (value, entry, length, order, class, type) anywhere makes objects unequal both ways")
def one_change(rng, m):
    a, b = twins(rng)
    done = change(rng, b)
    if done is None or (done[0] != "value" and loose_view(a) == loose_view(b)):
        m.ev("no-change")
        return
    m.case(repr((view(a), done)))
    m.ev("change:" + done[0])
    before_a, before_b = view(a), view(b)
    forward, data = equal(m, a, b)
    m.check(not forward, "difference-seen", f"{done[0]} at {text(done[1])} not seen by ==", before_a)
    m.check(not data, "difference-seen-by-data-eq", f"{done[0]} at {text(done[1])} not seen by data equality", before_a)
    m.check(len({a, b}) == 2 and a not in [b], "different-in-containers")
    m.same(view(a), before_a, "eq-alters-object")
    m.same(view(b), before_b, "eq-alters-object")


@scenario("C03", 500, 8000, rule="attributes excluded from equality are ignored, attributes only excluded from hash are compared")
def exclusions(rng, m):
    gen = Gen(rng)
    main, extra = gen.integer(), gen.plain(2)
    a = M.CustomEq(main, "first", extra, name="a")
    b = M.CustomEq(main, gen.word(), extra, name="b")
    m.case(view([a, b]))
    m.check(equal(m, a, b) == (True, True), "excluded-attribute-ignored")
    m.equal(hash(a), hash(b), "excluded-attribute-not-hashed")
    wrap = rng.choice([lambda o: M.Payload(o), lambda o: M.Payload([o]), lambda o: M.Pair(o, {"k": o})])
    m.check(equal(m, wrap(a), wrap(b)) == (True, True), "excluded-attribute-ignored-nested")
    c = M.CustomEq(main, "first", [extra, 1], name="a")
    m.check(not a == c and not wrap(a) == wrap(c), "unhashed-attribute-compared")
    m.equal(hash(a), hash(c), "unhashed-attribute-not-hashed")
    d = M.CustomEq(main + 1, "first", extra, name="a")
    m.check(not a == d and not wrap(a) == wrap(d), "main-attribute-compared")
    one, two = M.IdentityEq(main), M.IdentityEq(main)
    m.check(one == one and not one == two and one != two, "identity-equality")
    m.check(len({one, two, one}) == 2, "identity-hash")


@scenario("C03", 800, 15000, rule="floats within the tolerance are data-equal, beyond it are not; numpy scalars equal their value")
def tolerance(rng, m):
    base = rng.choice([0.0, 1.0, -3.5, 1e-3, 1e6, 1e10, -123456.789, rng.uniform(-10, 10), rng.uniform(-1e5, 1e5)])
    scale = max(1.0, abs(base))
    near, far = base + rng.choice([-1, 1]) * FLOAT_TOLERANCE * .3 * scale, base + rng.choice([-1, 1]) * FLOAT_TOLERANCE * rng.choice([3, 30, 1e3]) * scale
    wrap = rng.choice([lambda v: v, lambda v: [0, v, 1], lambda v: {"k": [v]}, lambda v: M.Leaf(1, v)])
    m.case(repr((base, near, far, wrap(0.0) if not isinstance(wrap(0.), DessiaObject) else "leaf")))
    a, b, c = M.Payload(wrap(base)), M.Payload(wrap(near)), M.Payload(wrap(far))
    m.check(a._data_eq(b) and b._data_eq(a), "float-tolerance", "", base, near)
    m.check(not a._data_eq(c) and not c._data_eq(a) and not a == c, "float-beyond-tolerance", "", base, far)
    number = rng.randint(-1000, 1000)
    for one, two in [(npy.float64(base), base), (npy.int64(number), number)]:
        x, y = M.Payload(wrap(one)), M.Payload(wrap(two))
        m.check(equal(m, x, y) == (True, True), "numpy-equal", "", one, two)
        z = M.Payload(wrap(two + max(1, abs(two) // 1000)))
        m.check(equal(m, x, z) == (False, False), "numpy-different", "", one, two)
        for other in ("text", None, [], {}):
            m.check(not data_eq(one, other) and not data_eq(other, one), "numpy-other-type", "", one, other)


SMALL = [0, 1, True, False, 2, "a", "b", "ab", "ba", None, 1.0, 0.0, 2.0, [], {}, [1], [1, 2], (1, 2), [2, 1], {"a": 1}, {"b": 1},
         {"a": 1, "b": 1}, {"a": 1, "b": 2}, [[1], 2], [None], [1, 3, 2], [1, 4, 2], {"a": 1, "c": 5, "b": 1},
         {"a": 1, "c": 6, "b": 1}, "", [""], ["a", "b"], ["b", "a"], {"a": []}, {"a": {}}, {"a": None}, {}]


@scenario("C03", 4000, 60000, rule="pairs from a small colliding domain compared to an independent equality")
def collisions(rng, m):
    def make():
        value = rng.choice(SMALL)
        if rng.random() < .3:
            value = rng.choice([[value, rng.choice(SMALL)], {"k": value}, M.Leaf(rng.choice([1, 2])), [M.Payload(value)]])
        return rng.choice([M.Payload, M.StandalonePayload, M.Payload])(value)

    def reference(one, two):
        if isinstance(one, (list, tuple)) and isinstance(two, (list, tuple)):
            return len(one) == len(two) and all(reference(x, y) for x, y in zip(one, two))
        if isinstance(one, DessiaObject) or isinstance(two, DessiaObject):
            return type(one) is type(two) and all(reference(v, two.__dict__[k]) for k, v in one.__dict__.items() if k != "name")
        if isinstance(one, dict) and isinstance(two, dict):
            return set(one) == set(two) and all(reference(v, two[k]) for k, v in one.items())
        if isinstance(one, int) and isinstance(two, int):
            return one == two
        return type(one) is type(two) and one == two
    a, b = make(), make()
    m.case(view([a, b]))
    forward, data = equal(m, a, b)
    expected = reference(a, b)
    m.check(forward == expected and data == expected, "eq-agrees-with-reference", f"got {forward}/{data}, expected {expected}",
            view([a, b]))
    m.ev("equal-pairs" if expected else "different-pairs")


@scenario("C03", 600, 6000, rule="comparison with values of any other type is False and never raises")
def foreign(rng, m):
    obj = Gen(rng).obj(2)
    others = [None, 0, 1.5, "", "text", [], [obj], {}, {"a": obj}, (), object(), M.Leaf, set(), b"x", npy.zeros(2),
              hash(obj), float(hash(obj)), obj.to_dict()]
    other = rng.choice(others)
    m.case(repr(type(other)) + str(view(obj)))
    if isinstance(other, npy.ndarray):
        m.check(m.call("eq-foreign", obj.__eq__, other) is False, "eq-foreign")
        return
    m.check(m.call("eq-foreign", lambda: obj == other) is False, "eq-foreign", "", other)
    m.check(m.call("eq-foreign", lambda: other == obj) is False, "eq-foreign", "", other)
    m.check(m.call("ne-foreign", lambda: obj != other) is True, "ne-foreign", "", other)


CHILD = """
import sys, json, random
from vmon.gen import Gen
from vmon import models as M
from vmon.checks.c03 import hashable_objects
json.dump([hash(o) for o in hashable_objects(int(sys.argv[1]))], sys.stderr)
"""


def hashable_objects(seed):
    out = []
    for i in range(120):
        obj = Gen(random.Random(f"{seed}/{i}")).obj(3)
        if not any(isinstance(v, type) for _, v in walk(obj)):
            out.append(obj)
    return out


@scenario("C03", 4, 16, rule="hashes of the same data computed in another process with another PYTHONHASHSEED are the same")
def other_process(rng, m):
    seed, hash_seed = rng.getrandbits(30), rng.randint(1, 10**6)
    objects = hashable_objects(seed)
    m.case(repr((seed, hash_seed)))
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONWARNINGS="ignore")
    proc = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, str(seed)], env=env, stdout=subprocess.DEVNULL,
                          stderr=subprocess.PIPE, text=True, timeout=90)
    m.check(proc.returncode == 0, "child-process", proc.stderr[-500:])
    hashes = json.loads(proc.stderr[proc.stderr.rindex("["):])
    m.equal(hashes, [hash(o) for o in objects], "hash-reproducible")
    m.ev("hashes-compared", len(hashes))
