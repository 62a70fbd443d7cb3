""" C04: diff. """
import math
import random

import numpy as npy
from dessia_common import FLOAT_TOLERANCE
from dessia_common.core import DessiaObject, data_eq
from dessia_common.files import StringFile
from dessia_common.utils.diff import diff, Diff

from vmon import models as M
from vmon.core import scenario
from vmon.gen import Gen, view, loose_view, public_attributes
from vmon.mutate import change, text, get


def compared(obj):
    skip = set(type(obj)._non_data_eq_attributes) | {"name", "package_version"}
    return {k: v for k, v in public_attributes(obj).items() if k not in skip}


def reference(a, b, path="#"):
    """ Independent diff: list of (category, path, value1, value2). """
    seq = (list, tuple)
    if isinstance(a, seq) and isinstance(b, seq):
        if len(a) != len(b):
            return [("value", path, a, b)]
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in reference(x, y, f"{path}/{i}")]
    if isinstance(a, DessiaObject) and isinstance(b, DessiaObject):
        if type(a) is not type(b):
            return [("type", path, a, b)]
        return reference(compared(a), compared(b), path)
    if isinstance(a, dict) and isinstance(b, dict):
        out = [("missing-second", f"{path}/{k}", None, None) for k in a if k not in b]
        out += [("missing-first", f"{path}/{k}", None, None) for k in b if k not in a]
        return out + [d for k in a if k in b for d in reference(a[k], b[k], f"{path}/{k}")]
    if isinstance(a, type) and isinstance(b, type):
        return [] if a is b else [("value", path, a, b)]
    if not isinstance(a, type(b)) and not isinstance(b, type(a)):
        return [("type", path, a, b)]
    if isinstance(a, float):
        return [] if math.isclose(a, b, abs_tol=FLOAT_TOLERANCE) else [("value", path, a, b)]
    return [] if a == b else [("value", path, a, b)]


def entries(result):
    out = [("value", d.path, d.value1, d.value2) for d in result.different_values]
    out += [("missing-first" if d.missing_in_first_object else "missing-second", d.path, None, None)
            for d in result.missing_attributes]
    return out + [("type", d.path, d.value1, d.value2) for d in result.invalid_types]


def canonical(items):
    return sorted((c, p, repr(view(a)), repr(view(b))) for c, p, a, b in items)


def check_pair(m, a, b):
    before = view(a), view(b)
    result = m.call("diff", diff, a, b)
    m.check(isinstance(result, Diff), "diff-type")
    expected = reference(a, b)
    m.equal(canonical(entries(result)), canonical(expected), "diff-entries")
    m.equal(result.is_empty(), not expected, "diff-is-empty")
    m.equal(result.is_empty(), bool(data_eq(a, b)), "diff-empty-iff-data-equal")
    swap = {"missing-first": "missing-second", "missing-second": "missing-first"}
    mirrored = m.call("diff", diff, b, a)
    m.equal(canonical(entries(mirrored)), canonical([(swap.get(c, c), p, y, x) for c, p, x, y in entries(result)]), "diff-mirrors")
    shown = m.call("diff-repr", repr, result)
    for _, path, _, _ in expected:
        m.check(path in shown, "diff-repr-lists-path", path, shown)
    m.same((view(a), view(b)), before, "diff-alters-objects")
    if isinstance(a, DessiaObject) and type(a) is type(b):
        m.equal(canonical(entries(m.call("_data_diff", a._data_diff, b))), canonical(expected), "data-diff-method")
    total = result + mirrored
    m.equal(len(entries(total)), 2 * len(expected), "diff-add")
    m.ev("diffs")
    return expected


def resolve(obj, path):
    """ Follow a diff path with plain access. """
    for segment in path.split("/")[1:]:
        if isinstance(obj, (list, tuple)):
            obj = obj[int(segment)]
        elif isinstance(obj, dict):
            obj = obj[segment]
        else:
            obj = getattr(obj, segment)
    return obj


@scenario("C04", 4000, 80000, rule="the same random data built twice, then zero to three random changes in one copy")
def changed(rng, m):
    seed, depth = rng.getrandbits(64), rng.choice([1, 2, 3])
    words = [w for w in Gen(rng).words]
    keys = [k for k in Gen(rng).keys if "/" not in k]
    a, b = (Gen(random.Random(seed), words=words, keys=keys).obj(depth) for _ in range(2))
    m.equal(check_pair(m, a, b), [], "same-data-empty-diff")
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        done = change(rng, b)
        if done:
            m.log(done[0], text(done[1]))
            m.ev("change:" + done[0])
    m.case(repr((view(a), view(b))))
    expected = check_pair(m, a, b)
    for category, path, value1, value2 in entries(diff(a, b)):
        if category in ("value", "type"):
            m.same(view(resolve(a, path)), view(value1), "diff-path-first")
            m.same(view(resolve(b, path)), view(value2), "diff-path-second")
        else:
            owner = resolve(a if category == "missing-second" else b, path)
            m.ev("missing-resolved")
    m.ev("entries", len(expected))


@scenario("C04", 1500, 20000, rule="two unrelated random values or objects")
def unrelated(rng, m):
    gen = Gen(rng)
    if rng.random() < .5:
        a, b = gen.plain(3), gen.plain(3)
    else:
        cls = rng.choice([M.Payload, M.StandalonePayload])
        a, b = cls(gen.payload(2)), rng.choice([cls, M.Payload])(gen.payload(2))
    m.case(repr((view(a), view(b))))
    check_pair(m, a, b)


@scenario("C04", 800, 10000, rule="dicts with overlapping keys of any sizes: keys missing on either side are reported on the right side")
def dict_keys(rng, m):
    universe = ["a", "b", "c", "d", "e", "f"]
    a = {k: rng.randint(0, 2) for k in rng.sample(universe, rng.randint(0, 6))}
    b = {k: rng.randint(0, 2) for k in rng.sample(universe, rng.randint(0, 6))}
    wrap = rng.choice([lambda d: d, lambda d: [d], lambda d: M.Payload(d), lambda d: {"k": d}])
    m.case(repr((a, b, type(wrap(1)))))
    check_pair(m, wrap(a), wrap(b))


@scenario("C04", 400, 6000, rule="reals that differ by less or more than the tolerance, around zero and far from it, at any place of the structure")
def near(rng, m):
    base = rng.choice([0.0, 0.0, 1.0, -2.5, 1e6, 1e-12, -1e-10])
    scale = max(1.0, abs(base))
    delta = rng.choice([0, .01, .3, .7, 3, 30, 1e6]) * rng.choice([-1, 1]) * FLOAT_TOLERANCE * scale
    wrap = rng.choice([lambda v: v, lambda v: [1, v], lambda v: {"a": "x", "b": v}, M.Payload, lambda v: M.Payload([{"k": v}]), lambda v: M.Leaf(1, v)])
    one, two = wrap(base), wrap(base + delta)
    m.case(repr(view([one, two])))
    expected = check_pair(m, one, two)
    m.equal(bool(expected), abs(delta) > FLOAT_TOLERANCE * scale, "near-reals", f"{base} {delta}")


@scenario("C04", 300, 4000, rule="classes, files, numpy numbers, excluded attributes")
def special(rng, m):
    gen = Gen(rng)
    a = M.CustomEq(rng.randint(0, 1), gen.word(), rng.choice([1, [1], "x"]), name=gen.name())
    b = M.CustomEq(rng.randint(0, 1), gen.word(), rng.choice([1, [1], "x"]), name=gen.name())
    m.case(repr(view([a, b])))
    check_pair(m, a, b)
    check_pair(m, M.Payload([a]), M.Payload([b]))
    c = M.ClassHolder(rng.choice([M.Leaf, M.Pair]), 1)
    d = M.ClassHolder(rng.choice([M.Leaf, M.Pair]), rng.randint(1, 2))
    check_pair(m, c, d)
    one, two = StringFile("f.txt"), StringFile("f.txt")
    one.write("abc")
    two.write(rng.choice(["abc", "abd"]))
    result = m.call("diff-files", diff, M.Payload(one), M.Payload(two))
    m.equal(result.is_empty(), one.getvalue() == two.getvalue(), "diff-files")
    x, y = rng.randint(0, 2), rng.randint(0, 2)
    for f in (npy.int64, npy.float64):
        raw = (lambda v: float(v)) if f is npy.float64 else (lambda v: v)
        for left, right in ((f(x), f(y)), (f(x), raw(y)), (raw(x), f(y))):
            result = m.call("diff-numpy", diff, {"k": left}, {"k": right})
            m.equal(result.is_empty(), x == y, "diff-numpy", repr((left, right)))
            if x != y:
                m.equal([(d.path, d.value1, d.value2) for d in result.different_values], [("#/k", x, y)], "diff-numpy-entry")
