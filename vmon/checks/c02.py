""" C02: pointers keep sharing and always resolve. """
import copy
import json
import random

from dessia_common.core import DessiaObject
from dessia_common.serialization import dict_to_object, serialize_with_pointers, find_references

from vmon import models as M
from vmon.core import scenario, probe
from vmon.mutate import change
from vmon.gen import Gen, view, walk, sharing, loose_view

REF = "$ref"


def resolve(m, doc, pointer):
    """ Independent pointer resolution: every segment must be a key or index of the document, refs are followed. """
    m.check(isinstance(pointer, str) and pointer.startswith("#/"), "pointer-shape", "", pointer)
    element = doc
    for segment in pointer[2:].split("/"):
        element = deref(m, doc, element)
        if isinstance(element, list):
            m.check(segment.isdigit() and int(segment) < len(element), "pointer-resolves", pointer, segment)
            element = element[int(segment)]
        else:
            m.check(isinstance(element, dict) and segment in element, "pointer-resolves", pointer, segment)
            element = element[segment]
    return element


def deref(m, doc, element, depth=0):
    while isinstance(element, dict) and REF in element:
        m.check(depth < 50, "pointer-loop", "", element)
        m.equal(set(element), {REF}, "pointer-alone")
        element = resolve(m, doc, element[REF])
        depth += 1
    return element


def expand(m, doc, element, top=False):
    """ The document with every pointer replaced by what it points to. """
    element = deref(m, doc, element)
    if isinstance(element, dict):
        return {k: expand(m, doc, v) for k, v in element.items() if not (top and k == "_references")}
    if isinstance(element, list):
        return [expand(m, doc, v) for v in element]
    return element


def all_refs(element):
    if isinstance(element, dict):
        if REF in element:
            yield element[REF]
        else:
            for value in element.values():
                yield from all_refs(value)
    elif isinstance(element, list):
        for value in element:
            yield from all_refs(value)


def location(m, doc, path):
    """ Serialized element (after dereference) of the object at given path of the original graph. """
    element = doc
    for _, segment in path:
        element = deref(m, doc, element)
        element = element[segment]
    return deref(m, doc, element)


def standalone_count(element):
    if isinstance(element, dict):
        return ("object_class" in element) + sum(standalone_count(v) for v in element.values())
    if isinstance(element, list):
        return sum(standalone_count(v) for v in element)
    return 0


def check_document(m, obj, doc):
    # every pointer resolves to a serialized object of the document
    references = doc.get("_references", {})
    pointers = list(all_refs(doc))
    m.ev("pointers", len(pointers))
    for pointer in pointers:
        target = deref(m, doc, resolve(m, doc, pointer))
        m.check(isinstance(target, dict) and "object_class" in target, "pointer-target-is-object", pointer, target)
    m.equal({p.split("/")[2] for p in pointers if p.startswith("#/_references/")} - set(references), set(),
            "references-known")
    # written once, at one place
    by_identity, by_location = {}, {}
    for path, sub in walk(obj):
        if isinstance(sub, DessiaObject):
            element = location(m, doc, path)
            m.equal(element.get("object_class"), f"{type(sub).__module__}.{type(sub).__name__}", "location-class", str(path))
            known = by_identity.setdefault(id(sub), id(element))
            m.check(known == id(element), "shared-written-once", f"object at {path} is written twice", sub)
            other = by_location.setdefault(id(element), sub)
            m.check(other is sub or loose_view(other) == loose_view(sub), "different-data-merged-in-document", str(path))
            if path and type(sub)._standalone_in_db:
                m.check(any(element is r for r in references.values()), "standalone-in-references", str(path))
    # the number of serialized objects is the number of distinct objects, not of uses
    m.check(standalone_count(doc) <= len(by_identity), "no-duplicates", "", standalone_count(doc), len(by_identity))
    m.ev("objects", len(by_identity))


def check_graph(rng, m, obj):
    before, shape = view(obj), sharing(obj)
    doc = m.call("to_dict", obj.to_dict)
    m.same(view(obj), before, "serialize-alters-object")
    m.equal(sharing(obj), shape, "serialize-alters-sharing")
    check_document(m, obj, doc)
    text = json.dumps(doc)
    m.log("doc", text[:1500])
    loaded = json.loads(text)
    plain = m.call("to_dict-plain", obj.to_dict, use_pointers=False)
    m.same(expand(m, loaded, loaded, top=True), json.loads(json.dumps(plain)), "pointers-expand-to-plain")
    again = m.call("to_dict", obj.to_dict)
    m.same(expand(m, again, again, top=True), expand(m, loaded, loaded, top=True), "serialize-again-same")
    # the document is detached from the object
    scribble(doc)
    m.same(view(obj), before, "document-aliases-object")

    source = copy.deepcopy(loaded)
    back = m.call("dict_to_object", rng.choice([type(obj).dict_to_object, dict_to_object]), loaded)
    m.same(loaded, source, "reading-alters-document")
    m.same(view(back), before, "pointers-round-trip")
    identities, expected = {}, {}
    mine = {path: sub for path, sub in walk(back) if isinstance(sub, DessiaObject)}
    for path, sub in walk(obj):
        if isinstance(sub, DessiaObject):
            m.check(path in mine, "same-positions", str(path))
            got = mine[path]
            known = expected.setdefault(id(sub), got)
            m.check(known is got, "sharing-kept", f"{path} was shared and is not any more")
            known = identities.setdefault(id(got), sub)
            m.check(known is sub or loose_view(known) == loose_view(sub), "different-data-merged", str(path))
    m.ev("shared_positions", len(mine) - len(expected))
    return back


def scribble(element):
    if isinstance(element, dict):
        for value in list(element.values()):
            scribble(value)
        element.clear()
    elif isinstance(element, list):
        for value in element:
            scribble(value)
        element.clear()


@scenario("C02", 2500, 50000, rule="random object graphs with shared sub-objects (embedded and standalone) at random places")
def graphs(rng, m):
    gen = Gen(rng)
    obj = gen.obj(rng.choice([2, 3, 4]))
    if not isinstance(obj, (M.Payload, M.Pair, M.Typed)):
        obj = M.StandalonePair(obj, [obj, {"again": obj}], name="top")
    m.case(view(obj))
    back = check_graph(rng, m, obj)
    check_graph(rng, m, back)


@scenario("C02", 700, 25000, rule="long lists and dicts (over ten entries, so that paths are prefixes of each other) of a small "
                                   "pool of shared objects that contain each other")
def dense_sharing(rng, m):
    gen = Gen(rng)
    pool = [gen.leaf() for _ in range(rng.choice([1, 2, 4]))]
    for i in range(rng.choice([1, 3, 6])):
        cls = rng.choice([M.Payload, M.StandalonePayload, M.Pair, M.StandalonePair])
        if issubclass(cls, M.Payload):
            size = rng.choice([1, 2, 12])
            content = rng.choice([[rng.choice(pool) for _ in range(size)],
                                  {str(k): rng.choice(pool) for k in range(size)},
                                  [[rng.choice(pool)] for _ in range(size)],
                                  {"1": {"1": rng.choice(pool), "11": [rng.choice(pool)]}, "11": rng.choice(pool)}])
            new = cls([i, content], name=f"p{i}")
        else:
            new = cls(rng.choice(pool), [rng.choice(pool) for _ in range(rng.choice([0, 1, 11]))], i, name=f"q{i}")
        pool.append(gen.register(new))
    size = rng.choice([3, 11, 14, 23])
    top = rng.choice([M.Payload, M.StandalonePayload])(
        rng.choice([[rng.choice(pool) for _ in range(size)], {f"a{k}": rng.choice(pool) for k in range(size)},
                    [{"x": rng.choice(pool), "xx": [rng.choice(pool)]} for _ in range(size)]]), name="top")
    m.case(view(top))
    check_graph(rng, m, top)


@scenario("C02", 1000, 15000, rule="families of large objects that differ from each other by one single value anywhere, in one graph: "
                                   "none is merged with another")
def near_twins(rng, m):
    seed, depth = rng.getrandbits(64), rng.choice([1, 2, 2])
    cls = rng.choice([M.Payload, M.StandalonePayload])

    def build():
        gen = Gen(random.Random(seed), standalone=False)
        return gen.unusual() if depth == 1 else [gen.unusual(), gen.payload(2), gen.unusual()]
    family = [cls(build(), name=f"o{0}")]
    kinds = []
    for i in range(rng.choice([1, 2, 4])):
        twin = cls(build(), name=f"o{i + 1}")
        done = change(rng, twin, skip=("name", "total"))
        if any(isinstance(v, M.Derived) and v.total != sum(v.values) for _, v in walk(twin)):
            continue
        if done and all(loose_view(twin) != loose_view(other) for other in family):
            family.append(twin)
            kinds.append(done[0])
    wrap = rng.choice([lambda o: o, lambda o: [o], lambda o: {"k": o}, lambda o: M.Pair(o, None, 0)])
    places = [wrap(rng.choice(family)) for _ in range(rng.choice([0, 3]))] + [wrap(o) for o in family]
    rng.shuffle(places)
    top = M.Payload(places, name="top")
    m.case(view(top))
    for kind in kinds:
        m.ev("twin:" + kind)
    check_graph(rng, m, top)


@scenario("C02", 500, 8000, rule="chains of nested objects where the same leaf hangs at every level")
def chains(rng, m):
    leaf = rng.choice([M.Leaf, M.StandaloneLeaf])(rng.randint(0, 9), name="leaf")
    current, levels = leaf, []
    for i in range(rng.choice([2, 4, 8])):
        cls = rng.choice([M.Pair, M.StandalonePair])
        current = cls(current, rng.choice([leaf, [leaf], {"k": leaf}, current, [current, leaf], None]), i, name=f"l{i}")
        levels.append(current)
    top = M.Payload([rng.choice(levels) for _ in range(3)] + [leaf], name="top")
    m.case(view(top))
    check_graph(rng, m, top)


@scenario("C02", 300, 5000, rule="plain dicts of objects serialized directly; find_references lists exactly the pointers")
def containers(rng, m):
    gen = Gen(rng)
    value = gen.dict_of(lambda: rng.choice([gen.obj(2), [gen.obj(1), gen.obj(1)]]), size=rng.choice([2, 5]))
    m.case(view(value))
    before = view(value)
    doc, _ = m.call("serialize_with_pointers", serialize_with_pointers, value)
    m.same(view(value), before, "serialize-alters-value")
    for pointer in all_refs(doc):
        resolve(m, doc, pointer)
    found = m.call("find_references", find_references, doc)
    m.equal(sorted(p for _, p in found), sorted(all_refs(doc)), "find-references")
    for path, pointer in found:
        element = doc
        for segment in path[2:].split("/"):
            element = element[int(segment)] if isinstance(element, list) else element[segment]
        m.equal(element, {REF: pointer}, "find-references-path", path)
    back = m.call("dict_to_object", dict_to_object, json.loads(json.dumps(doc)))
    back.pop("_references", None)
    m.same(view(back), before, "container-round-trip")


def objects_of(m, doc, element, pointer, depth=0):
    """ Pointers to every serialized object below an element, through the pointers met on the way. """
    element = deref(m, doc, element)
    if isinstance(element, dict):
        if "object_class" in element:
            yield pointer
        for key, value in element.items():
            if key not in ("object_class", "name") and depth < 9:
                yield from objects_of(m, doc, value, f"{pointer}/{key}", depth + 1)
    elif isinstance(element, list):
        for i, value in enumerate(element):
            yield from objects_of(m, doc, value, f"{pointer}/{i}", depth + 1)


def reach(value, segments):
    for segment in segments:
        if isinstance(value, dict):
            value = value[segment]
        elif isinstance(value, (list, tuple)):
            value = value[int(segment)]
        else:
            value = getattr(value, segment)
    return value


@scenario("C02", 1200, 20000, rule="documents written without sharing where pointers are then set by hand (as other tools do): to an "
                                   "object, to another pointer, or to something inside what other pointers lead to")
def edited_documents(rng, m):
    counter = iter(range(1000))

    def part(level):
        if not level or rng.random() < .2:
            return rng.choice([M.Leaf, M.StandaloneLeaf])(next(counter), .5, "t", name=rng.choice(["", "n"]))
        children = [part(level - 1) for _ in range(rng.choice([1, 2, 2, 11 if level == 1 else 3]))]
        content = rng.choice([lambda: children, lambda: dict(zip(("a", "ab", "b", "0", "payload", "1", "10", "2", "é", "a b", "x"), children)),
                              lambda: {"a": [children, next(counter)]}, lambda: children[0], lambda: [[c] for c in children]])()
        if rng.random() < .3:
            return rng.choice([M.Pair, M.StandalonePair])(children[-1], content, next(counter), name="p")
        return rng.choice([M.Payload, M.StandalonePayload])(content, name="q")

    names = rng.sample(["a", "ab", "abc", "b", "parts", "slots", "0", "00"], rng.choice([1, 2, 3]))
    top = M.Payload({"parts": {n: part(rng.choice([1, 2, 3])) for n in names}}, name="top")
    doc = json.loads(json.dumps(m.call("to_dict-plain", top.to_dict, use_pointers=False)))
    parts = doc["payload"]["parts"]
    known = []
    for i, name in enumerate(names):
        inside = [p for p in objects_of(m, doc, parts[name], f"#/payload/parts/{name}")]
        if known and rng.random() < .5 and len(inside) > 1:
            chosen = rng.choice(inside[1:])
            holder = reach(doc, chosen[2:].split("/")[:-1])
            last = chosen.split("/")[-1]
            holder[int(last) if isinstance(holder, list) else last] = {REF: rng.choice(known)}
            inside = list(objects_of(m, doc, parts[name], f"#/payload/parts/{name}"))
            m.ev("inner_pointers")
        known.extend(inside)
    as_list = rng.random() < .4
    slots = []
    count = rng.choice([1, 2, 4, 12])
    label = rng.choice(["s", "slots", "a"])
    keys = [str(i) if as_list else f"{label}{i}" for i in range(count)]
    recent = []
    for i, key in enumerate(keys):
        pointer = rng.choice(recent if recent and rng.random() < .6 else known)
        slots.append({REF: pointer})
        place = [("payload", "slots", keys[j]) for j in range(i + 1)]
        doc["payload"]["slots"] = list(slots) if as_list else dict(zip(keys, slots))
        recent.extend(objects_of(m, doc, slots[-1], "#/" + "/".join(place[-1])))
    if rng.random() < .5:
        doc["payload"] = {"slots": doc["payload"].pop("slots"), **doc["payload"]}
    m.case(json.dumps(doc))
    m.log("doc", json.dumps(doc)[:1500])
    m.ev("chained", sum(p[REF].startswith("#/payload/slots") for p in slots))
    source = copy.deepcopy(doc)
    back = m.call("dict_to_object", rng.choice([M.Payload.dict_to_object, DessiaObject.dict_to_object, dict_to_object]), doc)
    m.same(doc, source, "reading-alters-document")
    flat = expand(m, doc, doc)
    m.same(json.loads(json.dumps(m.call("to_dict-plain", back.to_dict, use_pointers=False))), flat, "pointers-read-as-expanded")
    elements, objects = {}, {}
    for pointer in known + recent:
        element = id(deref(m, doc, resolve(m, doc, pointer)))
        obj = m.call("reach", reach, back, pointer[2:].split("/"))
        m.check(elements.setdefault(element, obj) is obj, "pointed-object-shared", pointer)
        m.check(objects.setdefault(id(obj), element) == element, "different-objects-merged", pointer)
    m.ev("positions", len(known) + len(recent))
