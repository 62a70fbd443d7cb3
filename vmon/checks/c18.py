""" C18: filters select exactly the matching elements. """
import operator

from dessia_common.core import DessiaFilter, DessiaObject, FiltersList
from dessia_common.datatools.dataset import Dataset

from vmon.core import scenario


class Part(DessiaObject):
    """ An element of the filtered lists: numbers, texts, sub-objects, lists and dicts to look into. """

    _vector_features = ["size", "cost"]

    def __init__(self, size: int, cost: float, text: str, sub: "Part" = None, series=None, table=None, name: str = ""):
        self.size = size
        self.cost = cost
        self.text = text
        self.sub = sub
        self.series = series or []
        self.table = table or {}
        super().__init__(name=name)

    @property
    def ratio(self):
        return self.cost * 2 + self.size


class OtherPart(Part):
    """ Another class with the same attributes. """

    def __init__(self, size, cost, text, extra=0, name=""):
        self.extra = extra
        Part.__init__(self, size, cost, text, Part(1, 1., "o"), [4, 5, 6], {"k": 1, "m": 2}, name=name)


OPERATORS = {">": operator.gt, "<": operator.lt, ">=": operator.ge, "<=": operator.le, "==": operator.eq, "!=": operator.ne,
             "gt": operator.gt, "lt": operator.lt, "ge": operator.ge, "gte": operator.ge, "le": operator.le,
             "lte": operator.le, "eq": operator.eq, "ne": operator.ne}

# path -> (how to read it without the library, bounds of its kind)
NUMBERS = [-3, 0, 1, 2, 1.5, 2.5, 1e-12, 3, 1e9]
TEXTS = ["", "a", "b", "ab", "é"]
PATHS = {
    "size": (lambda p: p.size, NUMBERS),
    "cost": (lambda p: p.cost, NUMBERS),
    "text": (lambda p: p.text, TEXTS),
    "name": (lambda p: p.name, TEXTS),
    "ratio": (lambda p: p.cost * 2 + p.size, NUMBERS),
    "sub/size": (lambda p: p.sub.size, NUMBERS),
    "sub/cost": (lambda p: p.sub.cost, NUMBERS),
    "sub/text": (lambda p: p.sub.text, TEXTS),
    "series/0": (lambda p: p.series[0], NUMBERS),
    "series/2": (lambda p: p.series[2], NUMBERS),
    "table/k": (lambda p: p.table["k"], NUMBERS),
    "table/m": (lambda p: p.table["m"], NUMBERS),
}


def make_part(rng, deep=True):
    size, cost = rng.choice([-3, -1, 0, 1, 2, 3, 10]), rng.choice([0.0, -0.0, 1.5, 2.5, 1e-12, -1e9, 1.0])
    text = rng.choice(TEXTS)
    if not deep:
        return Part(size, cost, text, name=rng.choice(TEXTS))
    if rng.random() < .2:
        return OtherPart(size, cost, text, rng.randint(0, 3), name=rng.choice(TEXTS))
    return Part(size, cost, text, make_part(rng, False), [rng.choice(NUMBERS) for _ in range(3)],
                {"k": rng.choice(NUMBERS), "m": rng.choice(NUMBERS), "z": None}, name=rng.choice(TEXTS))


def make_parts(rng, low=0):
    size = rng.choice([0, 1, 2, 3, 5, 8, 13, 40])
    parts = [make_part(rng) for _ in range(max(low, size))]
    for _ in range(rng.choice([0, 0, 1, 3])):    # the same object several times
        if parts:
            parts.insert(rng.randrange(len(parts)), rng.choice(parts))
    return parts


def make_filter(rng, parts):
    path = rng.choice(list(PATHS))
    read, bounds = PATHS[path]
    bound = read(rng.choice(parts)) if parts and rng.random() < .5 else rng.choice(bounds)
    return path, rng.choice(list(OPERATORS)), bound


def decide(part, spec):
    path, symbol, bound = spec
    return bool(OPERATORS[symbol](PATHS[path][0](part), bound))


def image(part):
    return (id(part), type(part).__name__, part.size, part.cost, part.text, part.name, id(part.sub), tuple(part.series),
            tuple(part.table.items()), sorted(vars(part)))


def combined(verdicts, logical):
    if logical == "and":
        return all(verdicts)
    if logical == "or":
        return any(verdicts)
    return len(verdicts) == 1 and verdicts[0] or len(verdicts) == 2 and verdicts[0] != verdicts[1]


def ids(parts):
    return [id(p) for p in parts]


@scenario("C18", 400, 20000, rule="one filter, every operator alias, attributes, properties and deep paths")
def single(rng, mon):
    parts = make_parts(rng)
    spec = make_filter(rng, parts)
    mon.case((len(parts), spec, [PATHS[spec[0]][0](p) for p in parts]))
    before = [image(p) for p in parts]
    filter_ = DessiaFilter(*spec, name=rng.choice(["", "f"]))
    expected = [decide(p, spec) for p in parts]
    index = mon.call("get-index", filter_.get_booleans_index, parts)
    mon.check(isinstance(index, list) and all(v is True or v is False for v in index) and index == expected,
              "boolean-index", "boolean index of a filter", spec, index, expected)
    mon.ev("kept", sum(expected)), mon.ev("left-out", len(expected) - sum(expected))
    kept = mon.call("apply", DessiaFilter.apply, parts, index)
    mon.check(ids(kept) == [id(p) for p, ok in zip(parts, expected) if ok], "filter-selection", "elements kept", spec)
    mon.check(kept is not parts, "filter-new-list", "filtering returned the list itself")
    mon.check(DessiaFilter.booleanlist_to_indexlist(index) == [i for i, ok in enumerate(expected) if ok], "index-list",
              "indexes from booleans", index)
    mon.check([image(p) for p in parts] == before, "elements-untouched", "filtering altered its list or elements")
    again = filter_.get_booleans_index(parts)
    mon.check(again == expected, "boolean-index", "boolean index at the second use", spec)
    mon.check((filter_.attribute, filter_.comparison_operator, filter_.bound) == spec, "filter-untouched", "filter altered")


@scenario("C18", 500, 25000, rule="lists of filters combined with and / or / xor, on lists and datasets")
def several(rng, mon):
    parts = make_parts(rng)
    logical = rng.choice(["and", "or", "xor"])
    count = rng.choice([1, 2, 2]) if logical == "xor" else rng.choice([1, 2, 2, 3, 3, 4, 6, 9])
    specs = [make_filter(rng, parts) for _ in range(count)]
    if count > 1 and rng.random() < .25:
        specs[-1] = specs[0]
    mon.case((len(parts), logical, specs, [p.size for p in parts]))
    filters = [DessiaFilter(*spec) for spec in specs]
    if rng.random() < .5:
        flist = FiltersList(filters, logical, name="fl")
    else:
        flist = mon.call("from-filters", FiltersList.from_filters_list, filters, logical, "fl")
    if logical == "and" and rng.random() < .3:
        flist = FiltersList(filters)        # the default operator
    before = [image(p) for p in parts]
    expected = [combined([decide(p, spec) for spec in specs], logical) for p in parts]
    mon.check(len(flist) == count, "filters-length", "length of a list of filters", len(flist), count)
    index = mon.call("get-index", flist.get_booleans_index, parts)
    mon.check(list(index) == expected, "combined-index", "boolean index of filters", logical, specs, index, expected)
    mon.ev("combined:" + logical)
    mon.ev("kept", sum(expected)), mon.ev("left-out", len(expected) - sum(expected))
    kept = mon.call("apply", flist.apply, parts)
    mon.check(isinstance(kept, list) and ids(kept) == [id(p) for p, ok in zip(parts, expected) if ok], "filters-selection",
              "elements kept", logical, specs)
    mon.check([image(p) for p in parts] == before, "elements-untouched", "filtering altered its list or elements")
    mon.check([id(f) for f in flist.filters] == [id(f) for f in filters], "filter-untouched", "list of filters altered")

    # a saved and restored list of filters selects the same elements
    clone = mon.call("restore", FiltersList.dict_to_object, flist.to_dict())
    mon.check(list(clone.get_booleans_index(parts)) == expected, "restored-filters", "restored filters select others", logical, specs)
    if parts:
        dataset = Dataset(list(parts), name="d")
        if rng.random() < .5:
            _ = dataset.matrix
        filtered = mon.call("dataset-filtering", dataset.filtering, flist)
        mon.check(isinstance(filtered, Dataset), "dataset-filtering", "filtered dataset is not a dataset", filtered)
        mon.check(ids(filtered.dessia_objects) == ids(kept), "dataset-filtering", "dataset keeps other elements", logical, specs)
        mon.check(ids(dataset.dessia_objects) == ids(parts), "dataset-untouched", "filtering changed the dataset")
        features = filtered.common_attributes if len(filtered) else []
        mon.check([list(r) for r in filtered.matrix] == [[getattr(p, f) for f in features] for p in kept],
                  "dataset-filtered-matrix", "matrix of the filtered dataset")


@scenario("C18", 150, 6000, rule="combination of boolean lists against truth tables, unknown operators refused")
def tables(rng, mon):
    length = rng.choice([0, 1, 2, 3, 8, 30])
    logical = rng.choice(["and", "or", "xor", "nand", "AND", "", "not", None])
    count = rng.choice([1, 2]) if logical == "xor" else rng.randint(1, 6)
    rows = [[rng.random() < .5 for _ in range(length)] for _ in range(count)]
    mon.case((logical, rows))
    copy = [list(r) for r in rows]
    if logical not in ("and", "or", "xor"):
        mon.refuses("unknown-operator", FiltersList.combine_booleans_lists, rows, logical, errors=(NotImplementedError,))
        parts = make_parts(rng, 1)
        flist = FiltersList([DessiaFilter(*make_filter(rng, parts))], logical)
        mon.refuses("unknown-operator", flist.apply, parts, errors=(NotImplementedError,))
        return
    expected = [combined([r[i] for r in rows], logical) for i in range(length)]
    got = mon.call("combine", FiltersList.combine_booleans_lists, rows, logical)
    mon.check(list(got) == expected, "truth-table", "combination of booleans", logical, rows, got)
    mon.check(rows == copy, "lists-untouched", "boolean lists altered")
    mon.ev("truth-table:" + logical)


@scenario("C18", 120, 5000, rule="elements without the attribute are an error, never silently kept or left out")
def missing(rng, mon):
    parts = make_parts(rng, 1)
    path = rng.choice(["nothing", "sub/nothing", "table/nothing", "series/7", "size/deep"])
    mon.case((len(parts), path))
    filter_ = DessiaFilter(path, rng.choice(list(OPERATORS)), 1)
    mon.refuses("missing-attribute", filter_.get_booleans_index, parts)
    symbol = rng.choice(["=>", "=", "", "in", "GT"])
    mon.refuses("unknown-comparison", DessiaFilter("size", symbol, 1).get_booleans_index, parts)


@scenario("C18", 100, 4000, rule="filters and their texts; equality of filters")
def identity(rng, mon):
    specs = [make_filter(rng, []) for _ in range(rng.randint(1, 4))]
    mon.case(specs)
    filters = [DessiaFilter(*s) for s in specs]
    for spec, filter_ in zip(specs, filters):
        other = make_filter(rng, [])
        mon.check(filter_ == DessiaFilter(*spec) and hash(filter_) == hash(DessiaFilter(*spec)), "filter-equality",
                  "equal filters", spec)
        mon.check((filter_ == DessiaFilter(*other)) == (spec == other), "filter-equality", "filters of other content", spec, other)
        mon.check(not filter_ == spec[0] and filter_ != 3 and filter_ != Part(1, 1., "a"), "filter-equality", "filter equals something else")
        text = mon.call("filter-text", str, filter_)
        symbol = {"gt": ">", "lt": "<", "ge": ">=", "gte": ">=", "le": "<=", "lte": "<=", "eq": "==", "ne": "!="}.get(spec[1], spec[1])
        mon.check(text.startswith(spec[0]) and text.endswith(str(spec[2])), "filter-text", "text of a filter", text, spec)
        middle = text[len(spec[0]):len(text) - len(str(spec[2]))].strip()
        mon.check(middle == symbol, "filter-text", "operator of a filter's text", text, spec)
    text = mon.call("filters-text", str, FiltersList(filters, "or", name="combined"))
    lines = text.splitlines()
    mon.check(len(lines) == 1 + len(filters) and "'or'" in lines[0] and f"{len(filters)} filters" in lines[0], "filters-text",
              "text of a list of filters", text)


@scenario("C18", 150, 6000, rule="filters and lists of filters whose settings or elements change between two uses: the current ones decide")
def changed(rng, mon):
    parts = make_parts(rng, 1)
    specs = [make_filter(rng, parts) for _ in range(rng.choice([1, 2, 3]))]
    filters = [DessiaFilter(*spec) for spec in specs]
    logical = rng.choice(["and", "or"])
    flist = FiltersList(filters, logical)
    log = []
    for _ in range(rng.randint(2, 6)):
        for spec, filter_ in zip(specs, filters):
            mon.check(filter_.get_booleans_index(parts) == [decide(p, spec) for p in parts], "boolean-index",
                      "boolean index after a change", log, spec)
        expected = [combined([decide(p, spec) for spec in specs], logical) for p in parts]
        mon.check(list(flist.get_booleans_index(parts)) == expected, "combined-index", "combination after a change", log, specs)
        mon.check(ids(flist.apply(parts)) == [id(p) for p, ok in zip(parts, expected) if ok], "filters-selection",
                  "selection after a change", log, specs)
        action = rng.choice(["bound", "operator", "attribute", "logical", "element", "list", "add", "remove"])
        log.append(action)
        i = rng.randrange(len(filters))
        path, symbol, bound = specs[i]
        if action == "bound":
            bound = rng.choice(PATHS[path][1])
            filters[i].bound = bound
        elif action == "operator":
            symbol = rng.choice(list(OPERATORS))
            filters[i].comparison_operator = symbol
        elif action == "attribute":
            path = rng.choice([p for p in PATHS if PATHS[p][1] is PATHS[path][1]])
            filters[i].attribute = path
        elif action == "logical":
            logical = rng.choice(["and", "or"])
            flist.logical_operator = logical
        elif action == "element":
            part = rng.choice(parts)
            part.size, part.cost, part.text = rng.choice([-3, 0, 2, 7]), rng.choice([0., 2.5, -1.]), rng.choice(TEXTS)
        elif action == "list":
            parts = make_parts(rng, 1)
        elif action == "add" and flist.filters is filters:
            specs.append(make_filter(rng, parts))
            filters.append(DessiaFilter(*specs[-1]))
            continue
        elif action == "remove" and len(filters) > 1 and flist.filters is filters:
            del filters[i], specs[i]
            continue
        specs[i] = (path, symbol, bound)
        mon.ev("change:" + action)
    mon.case((log, specs, logical, [p.size for p in parts]))
