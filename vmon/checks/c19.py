""" C19: dataset operations agree with the underlying objects. """
import itertools
import math

import numpy

from dessia_common.core import DessiaFilter, DessiaObject, FiltersList
from dessia_common.datatools import metrics
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset

from vmon.core import scenario


class Point(DessiaObject):
    _vector_features = ["x", "y", "z"]

    def __init__(self, x: float, y: float, z: float, name: str = ""):
        self.x, self.y, self.z = x, y, z
        super().__init__(name=name)

    features = lambda self: {"x": self.x, "y": self.y, "z": self.z}


class Swapped(DessiaObject):
    """ The same features in another order, plus one. """

    _vector_features = ["w", "z", "x", "y"]

    def __init__(self, x: float, y: float, z: float, w: float = 1., name: str = ""):
        self.x, self.y, self.z, self.w = x, y, z, w
        super().__init__(name=name)

    features = lambda self: {"x": self.x, "y": self.y, "z": self.z, "w": self.w}


class Narrow(DessiaObject):
    _vector_features = ["z", "x"]

    def __init__(self, x: float, z: float, extra: float = 0., name: str = ""):
        self.x, self.z, self.extra = x, z, extra
        super().__init__(name=name)

    features = lambda self: {"x": self.x, "z": self.z}


class Computed(DessiaObject):
    """ Features which are not attributes: computed by to_vector. """

    def __init__(self, x: float, y: float, name: str = ""):
        self.x, self.y = x, y
        super().__init__(name=name)

    def to_vector(self):
        return [self.x + self.y, self.x - self.y, self.x]

    @classmethod
    def vector_features(cls):
        return ["total", "difference", "x"]

    features = lambda self: {"total": self.x + self.y, "difference": self.x - self.y, "x": self.x}


CLASSES = [Point, Swapped, Narrow, Computed]
VALUES = [0.0, 1.0, -1.0, 2.5, 1e-3, -7.25, 1e6, 3, 0, 12]
NAMES = ["", "a", "b", "alpha", "a long name of an object", "é"]


def make_object(rng, classes):
    cls = rng.choice(classes)
    value = lambda: rng.choice(VALUES) if rng.random() < .6 else round(rng.uniform(-100, 100), rng.choice([0, 2, 6]))
    if cls is Point:
        return Point(value(), value(), value(), name=rng.choice(NAMES))
    if cls is Swapped:
        return Swapped(value(), value(), value(), value(), name=rng.choice(NAMES))
    if cls is Narrow:
        return Narrow(value(), value(), value(), name=rng.choice(NAMES))
    return Computed(value(), value(), name=rng.choice(NAMES))


def common(objects):
    """ The features common to the objects, in the order of the first class. """
    if not objects:
        return []
    classes = []
    for obj in objects:
        if type(obj) not in classes:
            classes.append(type(obj))
    return [f for f in classes[0].vector_features() if all(f in c.vector_features() for c in classes)]


def ids(objects):
    return [id(o) for o in objects]


class Tracked:
    """ A dataset, with the list of objects it has to hold. """

    def __init__(self, dataset, objects, labels=None, low=None, exact=False):
        self.dataset, self.objects, self.labels = dataset, objects, labels
        self.low = low           # features that have to be there at least (those of the datasets it comes from)
        self.exact = exact       # the features are exactly the common ones

    @property
    def clustered(self):
        return self.labels is not None


def agree(mon, t, what):
    """ The dataset agrees with its list of objects, through every way to look at it. """
    data, objects = t.dataset, t.objects
    mon.check(len(data) == len(objects), "length", what, len(data), len(objects))
    mon.check(ids(data.dessia_objects) == ids(objects), "elements", what)
    mon.check(ids([o for o in data]) == ids(objects), "iteration", what)
    for i in {0, len(objects) - 1, -1, -len(objects), len(objects) // 2}:
        if -len(objects) <= i < len(objects):
            mon.check(data[i] is objects[i], "element", what, i)
    for i in (len(objects), -len(objects) - 1):
        mon.refuses("out-of-range", lambda: data[i], errors=(IndexError,))
    if t.clustered:
        mon.check(list(data.labels) == t.labels, "labels", what, data.labels, t.labels)
        mon.check(data.n_clusters == len(set(t.labels) - {-1}), "number-of-clusters", what, data.n_clusters, t.labels)
    check_matrix(mon, t, what)


def check_matrix(mon, t, what):
    features = list(t.dataset.common_attributes)
    full = common(t.objects)
    if not t.objects:
        mon.check(list(t.dataset.matrix) == [], "matrix", what, t.dataset.matrix)
        return
    if t.exact:
        mon.check(features == full, "common-attributes", what, features, full)
    else:
        low = t.low or set()
        mon.check(len(set(features)) == len(features) and set(features) <= set(full) and (low <= set(features) or not t.objects),
                  "common-attributes", what, features, full, low)
    rows = [[o.features()[f] for f in features] for o in t.objects]
    matrix = t.dataset.matrix
    mon.check([list(r) for r in matrix] == rows, "matrix", what, matrix, rows)
    mon.ev("matrix-rows", len(rows))


def statistics(mon, rng, t):
    """ Columns, statistics and distances against their definitions. """
    data, objects = t.dataset, t.objects
    features = list(data.common_attributes)
    if not objects or not features:
        return
    rows = [[float(o.features()[f]) for f in features] for o in objects]
    columns = [list(c) for c in zip(*rows)]
    n = len(rows)
    for i, f in enumerate(features):
        mon.check(data.column_values(i) == columns[i], "column-values", "column", f)
        mon.check(data.attribute_values(f) == columns[i], "attribute-values", "attribute values", f)
    mon.check(data.attribute_values("name") == [o.name for o in objects], "attribute-values", "names")
    mon.refuses("unknown-attribute", data.attribute_values, "unknown", errors=(ValueError,))
    picked = [rng.choice(features) for _ in range(rng.randint(1, 3))]
    mon.check(data.sub_matrix(picked) == [[o.features()[f] for f in picked] for o in objects], "sub-matrix", "sub matrix", picked)

    means = [math.fsum(c) / n for c in columns]
    scale = [max(1e-9, max(abs(v) for v in c)) for c in columns]
    variances = [math.fsum((v - m) ** 2 for v in c) / n for c, m in zip(columns, means)]
    near = lambda got, expected, size: abs(got - expected) <= 1e-9 * size + 1e-12
    got = data.mean()
    mon.check(len(got) == len(features) and all(map(near, got, means, scale)), "mean", "means", got, means)
    got = data.variances()
    mon.check(len(got) == len(features) and all(near(g, v, s * s) for g, v, s in zip(got, variances, scale)), "variance", "variances",
              got, variances)
    got = data.standard_deviation()
    mon.check(len(got) == len(features) and all(abs(g - math.sqrt(v)) <= 1e-7 * math.sqrt(v) + 1e-12 * s
                                                for g, v, s in zip(got, variances, scale)),
              "standard-deviation", "standard deviations", got, variances)
    if n > 1:
        got = data.covariance_matrix()
        mon.check(len(got) == len(features) and all(len(r) == len(features) for r in got), "covariance-shape", "covariances", got)
        for i, j in itertools.product(range(len(features)), repeat=2):
            expected = math.fsum((a - means[i]) * (b - means[j]) for a, b in zip(columns[i], columns[j])) / (n - 1)
            mon.check(near(got[i][j], expected, scale[i] * scale[j]), "covariance", "covariance", features[i], features[j],
                      got[i][j], expected)
    if n > 1:
        method, args, norm = rng.choice(DISTANCES)
        got = data.distance_matrix(method, **dict(args)) if method else data.distance_matrix()
        mon.check(len(got) == n and all(len(r) == n for r in got), "distance-shape", "distance matrix", method)
        for i, j in itertools.product(range(n), repeat=2):
            expected = norm([a - b for a, b in zip(rows[i], rows[j])])
            mon.check(math.isclose(got[i][j], expected, rel_tol=1e-9, abs_tol=1e-9), "distance", f"distance {method}", rows[i],
                      rows[j], got[i][j], expected)
        mon.ev("distances", n * n)
    if n > 1 and all(v > 1e-6 * s * s for v, s in zip(variances, scale)):
        values, points = data.singular_values()
        correlations = numpy.corrcoef(numpy.array(columns)) if len(columns) > 1 else numpy.array([[1.]])
        eigen = numpy.sqrt(numpy.clip(numpy.sort(numpy.linalg.eigvalsh(numpy.atleast_2d(correlations)))[::-1], 0, None))
        eigen = (eigen / eigen.sum())[:len(values)]
        mon.check(len(values) == min(n, len(features)) and numpy.allclose(values, eigen, atol=1e-5), "singular-values",
                  "singular values", values, eigen)
        mon.check(abs(sum(values) - 1) < 1e-9 and all(a >= b - 1e-12 for a, b in zip(values, values[1:])), "singular-values",
                  "normalized, descending", values)
        mon.check(len(points) == len(values), "singular-values", "points", points)


DISTANCES = [
    (None, {}, lambda d: math.hypot(*d)),
    ("minkowski", {}, lambda d: math.hypot(*d)),
    ("minkowski", {"p": 1}, lambda d: sum(map(abs, d))),
    ("minkowski", {"p": 3}, lambda d: sum(abs(v) ** 3 for v in d) ** (1 / 3)),
    ("euclidean", {}, lambda d: math.hypot(*d)),
    ("cityblock", {}, lambda d: sum(map(abs, d))),
    ("chebyshev", {}, lambda d: max(map(abs, d))),
    ("sqeuclidean", {}, lambda d: sum(v * v for v in d)),
]


def printed(mon, t):
    """ The printed table. """
    data, objects = t.dataset, t.objects
    lines = mon.call("print", str, data).split("\n")
    features = list(data.common_attributes)
    mon.check(f"{len(objects)} samples, {len(features)} features" in lines[0], "printed-counts", "header", lines[0])
    if not objects:
        mon.check(len(lines) == 1, "printed-rows", "rows of an empty dataset", lines)
        return
    attributes = (["label"] if t.clustered else []) + ["name"] + features
    titles = [c.strip() for c in lines[1].strip("|").split("|")]
    mon.check(titles == [a.capitalize() for a in attributes], "printed-titles", "titles", lines[1], attributes)
    rows = [line for line in lines[3:] if line.startswith("|")]
    shown = list(range(len(objects))) if len(objects) <= 10 else [*range(5), *range(len(objects) - 5, len(objects))]
    mon.check(len(rows) == len(shown), "printed-rows", "rows", rows)
    more = [line for line in lines if line.startswith("+")]
    mon.check(len(more) == (len(objects) > 10), "printed-omitted", "omitted rows", lines)
    if more:
        mon.check(more[0].startswith(f"+ {len(objects) - 10} undisplayed object"), "printed-omitted", "omitted rows", more)
    for index, row in zip(shown, rows):
        cells = [c.strip() for c in row[1:-1].split("|")]
        values = ([t.labels[index]] if t.clustered else []) + [objects[index].name] + \
            [objects[index].features()[f] for f in features]
        mon.check(len(cells) == len(values), "printed-cells", "cells of a row", row, values)
        for cell, value in zip(cells, values):
            text = str(value)
            good = cell == text if len(text) <= 10 else (cell == text or cell.endswith("...") and text.startswith(cell[:-3]))
            mon.check(good, "printed-cells", f"row {index}", row, values)
    mon.ev("printed-rows", len(rows))


def plotted(mon, t):
    """ The samples of plots hold the values of the elements, and lead to them. """
    data, objects = t.dataset, t.objects
    features = list(data.common_attributes)
    if not objects:
        return
    path = "#/a/b"

    def check_samples(plot):
        mon.check(len(plot.elements) == len(objects), "plotted-elements", "number of samples", len(plot.elements), len(objects))
        for row, (sample, obj) in enumerate(zip(plot.elements, objects)):
            expected = {f: obj.features()[f] for f in features}
            if t.clustered:
                expected["Cluster Label"] = t.labels[row]
            mon.check(sample.values == expected, "plotted-values", "values of a sample", sample.values, expected)
            mon.check(sample.reference_path == f"{path}/dessia_objects/{row}", "plotted-paths", "path of a sample", sample.reference_path)
            mon.check(sample.name == (obj.name or f"Sample {row}"), "plotted-names", "name of a sample", sample.name, obj.name)

    if len(features) < 2:
        mon.refuses("scatter-of-few", data.plot_scatter_matrix, errors=(ValueError,))
        if not features:
            mon.refuses("parallel-of-none", data.plot_parallel_plot, errors=(ValueError,))
        else:
            plot = mon.call("histogram", data.plot_parallel_plot, reference_path=path)
            check_samples(plot)
            axis = plot.x_variable if hasattr(plot, "x_variable") else plot.attribute_names[0]
            mon.check(axis == features[0], "histogram-axis", "axis of the histogram", axis, features)
        mon.ev("plotted-few", len(objects))
        return
    for plot in (mon.call("scatter-matrix", data.plot_scatter_matrix, reference_path=path),
                 mon.call("parallel-plot", data.plot_parallel_plot, reference_path=path)):
        check_samples(plot)
    mon.check(sorted(plot.attribute_names) == sorted(features), "parallel-axes", "axes", plot.attribute_names, features)
    scatter = data.plot_scatter_matrix()
    mon.check(len(scatter.plots) == len(features) ** 2, "scatter-plots", "number of scatters", len(scatter.plots))
    families = sorted(i for family in scatter.points_sets for i in family.indices)
    mon.check(families == list(range(len(objects))), "point-families", "points of the families", families)
    if t.clustered:
        for family in scatter.points_sets:
            mon.check(len({t.labels[i] for i in family.indices}) == 1, "point-families", "family of several labels", family.indices, t.labels)
    mon.ev("plotted", len(objects))


def sort_key(t, rng):
    features = list(t.dataset.common_attributes)
    choices = [("name", "name")]
    if features:
        i = rng.randrange(len(features))
        choices += [(i, features[i]), (features[i], features[i])] * 2
    return rng.choice(choices)


def value_of(obj, feature):
    return obj.name if feature == "name" else obj.features()[feature]


def random_slice(rng, n):
    bound = lambda: rng.choice([None, 0, 1, -1, 2, -2, n, n // 2, -n, n + 3, rng.randint(-n - 1, n + 1)])
    return slice(bound(), bound(), rng.choice([None, None, None, 1, 2, -1, -2]))


def step(mon, rng, pool):
    """ One random operation on a dataset of the pool. """
    t = rng.choice(pool)
    n = len(t.objects)
    kind = rng.choice(["slice", "slice", "booleans", "indexes", "filter", "sort", "sort", "add", "extend", "stats", "print",
                       "plot", "bad", "look", "empty"])
    mon.ev("step:" + kind)
    new = None
    if kind == "slice":
        key = random_slice(rng, n)
        got = t.dataset[key]
        new = (got, t.objects[key], t.labels[key] if t.clustered else None, f"slice {key} of {n}")
    elif kind == "booleans":
        key = [rng.random() < rng.choice([.2, .5, .9]) for _ in range(n)]
        if n:
            new = (t.dataset[key], list(itertools.compress(t.objects, key)),
                   list(itertools.compress(t.labels, key)) if t.clustered else None, f"booleans {key}")
    elif kind == "indexes":
        if n:
            key = sorted({rng.randrange(n) for _ in range(rng.randint(1, n + 1))})
            given = [i - n if rng.random() < .3 else i for i in key]
            if rng.random() < .4:          # picked in the order of the dataset, once each
                given += [rng.choice(given) for _ in range(rng.randint(0, 2))]
                rng.shuffle(given)
            new = (t.dataset[given], [t.objects[i] for i in key], [t.labels[i] for i in key] if t.clustered else None, f"indexes {given}")
    elif kind == "empty":
        if n:
            new = (t.dataset[[]], [], [] if t.clustered else None, "no index")
    elif kind == "filter":
        bound = rng.choice(VALUES)
        symbol, decide = rng.choice([(">", lambda v: v > bound), ("<=", lambda v: v <= bound), ("!=", lambda v: v != bound)])
        if all(hasattr(o, "x") for o in t.objects):
            keep = [decide(o.x) for o in t.objects]
            new = (t.dataset.filtering(FiltersList([DessiaFilter("x", symbol, bound)])), list(itertools.compress(t.objects, keep)),
                   list(itertools.compress(t.labels, keep)) if t.clustered else None, f"filter x {symbol} {bound}")
    elif kind == "sort":
        key, feature = sort_key(t, rng)
        ascend = rng.random() < .5
        before = t.labels or [None] * n
        t.dataset.sort(key, ascend) if rng.random() < .7 or not ascend else t.dataset.sort(key)
        after = list(t.dataset.dessia_objects)
        mon.check(sorted(ids(after)) == sorted(ids(t.objects)), "sort-permutation", "sorted elements", key)
        values = [value_of(o, feature) for o in after]
        ordered = all(a <= b for a, b in zip(values, values[1:])) if ascend else all(a >= b for a, b in zip(values, values[1:]))
        mon.check(ordered, "sort-order", f"sorted by {key}, ascending {ascend}", values)
        if t.clustered:
            labels = list(t.dataset.labels)
            mon.check(sorted(zip(ids(t.objects), before)) == sorted(zip(ids(after), labels)), "sort-labels", "labels after a sort", key)
            t.labels = labels
        t.objects, t.exact = after, False
        t.low = set(common(after)) if t.low is None else t.low
    elif kind in ("add", "extend"):
        other = rng.choice(pool)
        if t.clustered or other.clustered:
            mon.refuses("add-clustered", lambda: t.dataset + other.dataset, errors=(TypeError,))
            return
        low = set(t.dataset.common_attributes) & set(other.dataset.common_attributes)
        if kind == "add":
            new = (t.dataset + other.dataset, t.objects + other.objects, None, "addition", low)
        else:
            given = t.dataset.dessia_objects
            before = list(given)
            t.dataset.extend(other.dataset)
            mon.check(t is other or other.dataset.dessia_objects is not t.dataset.dessia_objects, "extend-apart", "datasets share a list")
            t.objects, t.exact, t.low = t.objects + other.objects, False, low
            mon.check(ids(given) == ids(before) or given is t.dataset.dessia_objects, "given-list", "extend changed the given list")
    elif kind == "stats":
        statistics(mon, rng, t)
    elif kind == "print":
        printed(mon, t)
    elif kind == "plot" and n <= 12:
        plotted(mon, t)
    elif kind == "look":
        _ = rng.choice([lambda: t.dataset.common_attributes, lambda: t.dataset.matrix])()
    elif kind == "bad" and n:
        wrong = [True] * (n + rng.choice([-1, 1, 2]))
        if wrong:
            mon.refuses("wrong-length", lambda: t.dataset[wrong], errors=(ValueError,))
        mon.refuses("wrong-key", lambda: t.dataset[rng.choice(["x", 1.5, None, [1.5], ["x"], (0, 1)])])
    if new is not None:
        got, objects, labels, what, *rest = new
        mon.log(what)
        if not objects and not isinstance(got, Dataset):     # nothing picked from an empty dataset
            mon.check(len(got) == 0, "empty-selection", what, got)
            return
        mon.check(type(got) is (ClusteredDataset if labels is not None else Dataset), "selection-class", what, type(got))
        low = rest[0] if rest else set(t.dataset.common_attributes)
        tracked = Tracked(got, objects, labels, low if objects else set())
        pool.append(tracked)
        return what


@scenario("C19", 500, 20000, rule="random sequences of dataset operations, every dataset compared with a list model after each step")
def sequences(rng, mon):
    classes = rng.choice([[Point], [Swapped], [Narrow], [Computed], [Point, Swapped], [Swapped, Point], CLASSES, [Point, Narrow],
                          [Narrow, Computed]])
    pool = []
    for _ in range(rng.randint(1, 3)):
        objects = [make_object(rng, classes) for _ in range(rng.choice([0, 1, 2, 3, 5, 6, 9, 11, 12, 16]))]
        given = list(objects)
        if rng.random() < .35:
            labels = [rng.choice([-1, 0, 1, 2, 5]) for _ in objects]
            pool.append(Tracked(ClusteredDataset(given, list(labels), name="c"), list(objects), labels, exact=True))
        else:
            pool.append(Tracked(Dataset(given, name=rng.choice(["", "data"])), list(objects), exact=True))
    mon.case(([[type(o).__name__ + repr(sorted(o.features().items())) for o in t.objects][:4] for t in pool], rng.random()))
    for _ in range(rng.randint(3, 10)):
        what = step(mon, rng, pool)
        # lazily computed matrices: do not look at every dataset at every step
        for t in pool:
            if rng.random() < .3:
                agree(mon, t, str(what))
        if len(pool) > 8:
            pool.pop(rng.randrange(len(pool)))
    for t in pool:
        agree(mon, t, "at the end")
        mon.ev("datasets")


@scenario("C19", 150, 6000, rule="fresh datasets: features, statistics, print, plots")
def fresh(rng, mon):
    classes = rng.choice([[Point], [Swapped], [Point, Swapped], [Swapped, Point], [Computed], [Narrow, Point], CLASSES])
    objects = [make_object(rng, classes) for _ in range(rng.choice([0, 1, 2, 4, 7, 10, 11, 25]))]
    mon.case(repr([o.features() for o in objects]))
    if rng.random() < .4:
        labels = [rng.choice([-1, 0, 1, 3]) for _ in objects]
        t = Tracked(ClusteredDataset(list(objects), list(labels)), objects, labels, exact=True)
    else:
        t = Tracked(Dataset(list(objects)), objects, exact=True)
    order = [lambda: statistics(mon, rng, t), lambda: printed(mon, t), lambda: agree(mon, t, "fresh")]
    if len(objects) <= 12:
        order.append(lambda: plotted(mon, t))
    rng.shuffle(order)
    for look in order:
        look()
    clone = t.dataset.copy(deep=False)
    restored = type(t.dataset).dict_to_object(t.dataset.to_dict()) if Computed not in map(type, objects) else None
    for other in (clone, restored):
        if other is not None and objects:
            mon.check([list(r) for r in other.matrix] == [list(r) for r in t.dataset.matrix], "copied-matrix", "matrix of a copy")


@scenario("C19", 300, 15000, rule="norms, distances and statistics of vectors against their definitions")
def vectors(rng, mon):
    n = rng.randint(1, 8)
    number = lambda: rng.choice([0., 1., -1., .5, rng.uniform(-10, 10), rng.uniform(-1e4, 1e4), 1e-6, 3])
    base = rng.choice([0., 0., 1e3, -1e6, 1e8])     # far from zero, the spread is small before the values
    a, b = [base + number() for _ in range(n)], [base + number() for _ in range(n)]
    mon.case((a, b))
    size = max(map(abs, a + b)) + 1
    near = lambda got, expected, kind, scale=1.: mon.check(abs(got - expected) <= 1e-9 * scale * n, kind, kind, got, expected, a, b)
    d = [u - v for u, v in zip(a, b)]
    near(metrics.l1_norm(a), sum(abs(v) for v in a), "l1-norm", size)
    near(metrics.l2_norm(a), math.hypot(*a), "l2-norm", size)
    near(metrics.inf_norm(a), max(abs(v) for v in a), "inf-norm", size)
    for p in (1, 2, 3, 4.5):
        near(metrics.lp_norm(a, mink_power=p), sum(abs(v) ** p for v in a) ** (1 / p), "lp-norm", size)
        near(metrics.minkowski_distance(a, b, mink_power=p), sum(abs(v) ** p for v in d) ** (1 / p), "minkowski", size)
    near(metrics.lp_norm(a), math.hypot(*a), "lp-norm", size)
    near(metrics.minkowski_distance(a, b), math.hypot(*d), "minkowski", size)
    near(metrics.manhattan_distance(a, b), sum(abs(v) for v in d), "manhattan", size)
    near(metrics.euclidian_distance(a, b), math.hypot(*d), "euclidean", size)
    mean_a, mean_b = math.fsum(a) / n, math.fsum(b) / n
    near(metrics.mean(a), mean_a, "vector-mean", size)
    var = math.fsum((v - mean_a) ** 2 for v in a) / n
    deviation = math.sqrt(var)
    mon.check(abs(metrics.variance(a) - var) <= 1e-7 * var + 1e-12 * size * (deviation + 1e-6 * size), "vector-variance", "variance",
              metrics.variance(a), var, a)
    mon.check(abs(metrics.std(a) - deviation) <= 1e-7 * deviation + 1e-12 * size, "vector-std", "standard deviation",
              metrics.std(a), deviation, a)
    near(metrics.covariance(a, b), math.fsum((u - mean_a) * (v - mean_b) for u, v in zip(a, b)) / n, "vector-covariance", size ** 2)
    mon.refuses("covariance-lengths", metrics.covariance, a, b + [1.], errors=(ValueError,))
    mon.check(list(metrics.diff_list(a, b)) == d, "difference", "difference", a, b)
    if n > 1:
        # an explicit well-conditioned covariance: Mahalanobis distance by solving the linear system
        factor = numpy.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        cov = factor @ factor.T + numpy.eye(n)
        expected = math.sqrt(max(0., float(numpy.array(d) @ numpy.linalg.solve(cov, numpy.array(d)))))
        got = metrics.mahalanobis_distance(a, b, cov.tolist())
        mon.check(math.isclose(got, expected, rel_tol=1e-6, abs_tol=1e-6 * size), "mahalanobis", "mahalanobis", got, expected)


def feature_class(rng, number):
    """ A class that declares no feature: those are its numeric arguments and its numeric class attributes. """
    kinds = {"float": lambda: rng.choice([0., 1.5, -2.25, 1e6]), "int": lambda: rng.randint(-5, 5), "bool": lambda: rng.random() < .5,
             "str": lambda: rng.choice(["", "t"]), "list": lambda: [1.], "DessiaObject": lambda: None, "dict": lambda: {"a": 1}}
    names = rng.sample(["x", "length", "Mass", "mass", "a1", "B", "total_cost", "z", "count", "flag", "é"], rng.randint(1, 6))
    args = [(n, rng.choice(["float", "int", "float", "bool", "str", "list", "DessiaObject", "dict"])) for n in names]
    constants = {n: rng.choice([3, 2.5, True, "text", [1]]) for n in rng.sample(["factor", "Unit", "scale"], rng.choice([0, 0, 1, 2]))}
    lines = ["class Auto(DessiaObject):"] + [f"    {n} = {v!r}" for n, v in constants.items()]
    lines += [f"    def __init__(self, {', '.join(f'{n}: {t}' for n, t in args)}, name: str = ''):"]
    lines += [f"        self.{n} = {n}" for n in names] + ["        DessiaObject.__init__(self, name=name)"]
    space = {"DessiaObject": DessiaObject, "__name__": __name__}
    exec("\n".join(lines), space)
    numeric = [n for n, t in args if t in ("float", "int", "bool")]
    fixed = [n for n, v in constants.items() if not isinstance(v, (str, list))]
    return space["Auto"], numeric, fixed, lambda: [kinds[t]() for _, t in args], "\n".join(lines)


@scenario("C19", 50, 2000, rule="objects of classes that declare no feature: vectors and matrices hold their numeric arguments, in order, and numeric class "
                                 "attributes, whatever the names; features given as titles of lower case attributes are read too")
def default_features(rng, mon):
    objects, expected, sources = [], [], []
    for number in range(rng.choice([1, 1, 2])):
        cls, numeric, fixed, values, source = feature_class(rng, number)
        sources.append(source)
        features = mon.call("vector-features", cls.vector_features)
        mon.equal([f for f in features if f in numeric], numeric, "default-features", source)
        mon.equal(sorted(features), sorted(numeric + fixed), "default-features", source)
        expected.append(features)
        for _ in range(rng.randint(1, 4)):
            obj = cls(*values(), name=rng.choice(["", "n"]))
            got = mon.call("to-vector", obj.to_vector)
            mon.check(len(got) == len(features) and all(v is getattr(obj, f) for v, f in zip(got, features)), "vector", source, got, features)
            objects.append(obj)
    mon.case((sources, [o.to_vector() for o in objects]))
    rng.shuffle(objects)
    data = Dataset(list(objects), name="auto")
    shared = [f for f in type(objects[0]).vector_features() if all(f in e for e in expected)]
    mon.equal(list(data.common_attributes), shared, "common-attributes")
    mon.check([list(r) for r in data.matrix] == [[getattr(o, f) for f in shared] for o in objects], "matrix", "default features", data.matrix)
    for feature in shared:
        mon.check(list(data.attribute_values(feature)) == [getattr(o, feature) for o in objects], "column", feature)
    mon.ev("features", len(shared))
    title = rng.choice(["Depth", "DEPTH", "depth"])

    class Titled(DessiaObject):
        _vector_features = [title, "width"]

        def __init__(self, depth: float, width: float, name: str = ""):
            self.depth, self.width = depth, width
            DessiaObject.__init__(self, name=name)
    titled = [Titled(float(i), i + .5) for i in range(rng.randint(1, 3))]
    mon.equal([list(r) for r in mon.call("matrix", lambda: Dataset(titled).matrix)], [[float(i), i + .5] for i in range(len(titled))], "titled-matrix")
