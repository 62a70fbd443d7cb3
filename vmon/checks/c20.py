""" C20: Pareto fronts, clusters and samples partition correctly. """
import io
import itertools
import math
import sys
import types

import numpy
import openpyxl
from sklearn import cluster as sk_cluster

from dessia_common.core import DessiaObject
from dessia_common.datatools.cluster import ClusteredDataset
from dessia_common.datatools.dataset import Dataset
from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue

from vmon.core import scenario


class Design(DessiaObject):
    _vector_features = ["a", "b", "c"]

    def __init__(self, a: float, b: float, c: float, name: str = ""):
        self.a, self.b, self.c = a, b, c
        super().__init__(name=name)

    @property
    def total(self):
        return self.a + self.b + self.c

    def row(self):
        return [self.a, self.b, self.c]


class Wide(Design):
    """ Costs computed by to_vector, not attributes. """

    def to_vector(self):
        return [self.a, self.b, self.c, self.a * self.b]

    @classmethod
    def vector_features(cls):
        return ["a", "b", "c", "product"]

    def row(self):
        return [self.a, self.b, self.c, self.a * self.b]


def ids(objects):
    return [id(o) for o in objects]


def make_designs(rng, low=1, high=24, cls=Design):
    count = rng.randint(low, high)
    style = rng.choice(["grid", "real", "close", "mixed", "equal", "wide"])

    def number():
        if style == "grid":
            return float(rng.randint(0, 3))
        if style == "close":
            return 1e6 + rng.randint(0, 4) * 1e-6
        if style == "equal":
            return rng.choice([0., 1.])
        if style == "wide":
            return rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 9)
        if style == "mixed":
            return rng.choice([0, 1, -2, 2.5, 3])
        return rng.uniform(-5, 5)
    designs = [cls(number(), number(), number(), name=f"d{i}") for i in range(count)]
    for _ in range(rng.choice([0, 0, 1, 2])):    # equal costs, other objects
        twin = rng.choice(designs)
        designs.insert(rng.randrange(len(designs) + 1), cls(twin.a, twin.b, twin.c, name="twin"))
    return designs


def cost_of(design, name):
    return design.a * design.b if name == "product" else getattr(design, name)


def fronts(costs):
    """ Naive Pareto selection: dominated points out, the first of points of equal costs kept. """
    kept = []
    for i, cost in enumerate(costs):
        dominated = any(all(o <= c for o, c in zip(other, cost)) and any(o < c for o, c in zip(other, cost)) for other in costs)
        kept.append(not dominated and not any(list(costs[j]) == list(cost) for j in range(i)))
    return kept


def pick_costs(rng, cls):
    names = ["a", "b", "c", "total"] + (["product"] if cls is Wide else [])
    return rng.sample(names, rng.randint(1, 3))


@scenario("C20", 500, 25000, rule="Pareto selection against the naive definition of dominance")
def pareto(rng, mon):
    cls = rng.choice([Design, Design, Wide])
    designs = make_designs(rng, cls=cls)
    names = pick_costs(rng, cls)
    costs = [[cost_of(d, n) for n in names] for d in designs]
    mon.case((names, costs))
    expected = fronts(costs)
    given = [list(c) for c in costs]
    got = mon.call("pareto-indexes", Dataset.pareto_indexes, costs)
    mon.check(list(got) == expected and all(v is True or v is False for v in got), "pareto-indexes", "Pareto points", costs, got, expected)
    mon.check(costs == given, "costs-untouched", "costs altered")
    mon.ev("pareto-kept", sum(expected)), mon.ev("pareto-dominated", len(expected) - sum(expected))
    labels = [rng.choice([-1, 0, 1]) for _ in designs]
    clustered = rng.random() < .25
    data = ClusteredDataset(list(designs), list(labels), name="x") if clustered else Dataset(list(designs), name="x")
    if rng.random() < .5:
        _ = data.matrix
    points = mon.call("pareto-points", data.pareto_points, names)
    mon.check(ids(points.dessia_objects) == [id(d) for d, ok in zip(designs, expected) if ok], "pareto-points", "Pareto points", names, costs)
    if clustered:
        mon.check(list(points.labels) == [x for x, ok in zip(labels, expected) if ok], "pareto-labels", "labels of Pareto points")
    mon.check([list(r) for r in points.matrix] == [d.row() for d, ok in zip(designs, expected) if ok], "pareto-matrix", "matrix of Pareto points")

    # borders of the Pareto domain: through the best point of each pair of costs, from the lowest to the highest abscissa
    kept = [c for c, ok in zip(costs, expected) if ok]
    if len(names) > 1 and all(len({c[k] for c in kept}) > 1 for k in range(len(names))):
        given = costs if rng.random() < .5 or len(costs) == len(names) else [list(column) for column in zip(*costs)]
        borders = mon.call("pareto-frontiers", Dataset.pareto_frontiers, len(designs), given)
        pairs = [(x, y) for x in range(len(names)) for y in range(len(names)) if x != y]
        mon.equal(len(borders), len(pairs), "frontier-count")
        for (x, y), border in zip(pairs, borders):
            (x0, y0), (x1, y1) = [[float(v) for v in point] for point in border]
            mon.close((x0, x1), (min(c[x] for c in costs), max(c[x] for c in costs)), "frontier-span")
            best = min(c[y] for c in kept)
            error = min(abs(y0 + (y1 - y0) * (c[x] - x0) / (x1 - x0) - best) for c in kept if c[y] == best)
            mon.check(error <= 1e-6 * max(1, abs(best), abs(y0), abs(y1)), "frontier-best", f"{x} {y}", border, kept)
        if len(costs) > len(names) + 1:
            mon.refuses("frontier-lengths", Dataset.pareto_frontiers, len(designs) + 1, costs, errors=(ValueError,))
        mon.ev("frontiers", len(pairs))

    # successive sheets
    nb_sheets = rng.choice([1, 1, 2, 3, 5, len(designs) + 2])
    sheets, rest = mon.call("pareto-sheets", data.pareto_sheets, names, nb_sheets)
    mon.check(len(sheets) == nb_sheets, "sheet-count", "number of sheets", len(sheets), nb_sheets)
    left = list(range(len(designs)))
    expected_labels, order = [], []
    for number, sheet in enumerate(sheets):
        front = fronts([costs[i] for i in left])
        picked = [i for i, ok in zip(left, front) if ok]
        left = [i for i, ok in zip(left, front) if not ok]
        mon.check(isinstance(sheet, Dataset) and ids(sheet.dessia_objects) == [id(designs[i]) for i in picked], "pareto-sheet",
                  f"sheet {number}", names, costs)
        order += picked
        expected_labels += [number] * len(picked)
        mon.ev("sheets")
    mon.check(ids(rest.dessia_objects) == [id(designs[i]) for i in left], "pareto-rest", "points of no sheet", names, costs)
    mon.check(ids(data.dessia_objects) == ids(designs), "data-untouched", "dataset changed by the sheets")
    sheets_data = mon.call("from-pareto-sheets", ClusteredDataset.from_pareto_sheets, data, names, nb_sheets)
    mon.check(ids(sheets_data.dessia_objects) == [id(designs[i]) for i in order + left] and
              list(sheets_data.labels) == expected_labels + [nb_sheets] * len(left), "pareto-clusters", "labelled sheets",
              sheets_data.labels, expected_labels)


def expected_clusters(designs, labels):
    tags = sorted(set(labels) - {-1}) + ([-1] if -1 in labels else [])
    return [(tag, [d for d, lab in zip(designs, labels) if lab == tag]) for tag in tags]


NORMS = [({}, lambda d: math.hypot(*d)), ({"method": "minkowski", "p": 1}, lambda d: sum(map(abs, d))),
         ({"method": "euclidean"}, lambda d: math.hypot(*d)), ({"method": "cityblock"}, lambda d: sum(map(abs, d))),
         ({"method": "chebyshev"}, lambda d: max(map(abs, d)))]


def clusters_agree(rng, mon, data, designs, labels, name):
    """ Sub-lists, means, distances and real centroids are those of the members. """
    mon.check(data.n_clusters == len(set(labels) - {-1}), "cluster-count", "number of clusters", data.n_clusters, labels)
    split = mon.call("clustered-sublists", data.clustered_sublists)
    expected = expected_clusters(designs, labels)
    mon.check(len(split) == len(expected), "sublist-count", "number of sub-lists", len(split), labels)
    mon.check(list(split.labels) == [tag for tag, _ in expected], "sublist-labels", "labels of the sub-lists", split.labels, labels)
    for sub, (tag, members) in zip(split.dessia_objects, expected):
        mon.check(isinstance(sub, Dataset) and ids(sub.dessia_objects) == ids(members), "sublist-members", f"members of {tag}", labels)
        mon.check(sub.name == f"{name}_{'outliers' if tag == -1 else tag}", "sublist-names", "name of a sub-list", sub.name, tag)
    mon.check(ids(data.dessia_objects) == ids(designs) and list(data.labels) == labels, "clusters-untouched", "clusters changed")
    source = rng.choice([data, split])
    rows = [[d.row() for d in members] for _, members in expected]
    centers = [[math.fsum(col) / len(members) for col in zip(*members)] for members in rows]
    got = mon.call("mean-clusters", source.mean_clusters)
    mon.check(len(got) == len(centers) and all(len(g) == len(c) and all(math.isclose(u, v, rel_tol=1e-9, abs_tol=1e-9) for u, v in zip(g, c))
                                               for g, c in zip(got, centers)), "cluster-means", "means of the clusters", got, centers)
    args, norm = rng.choice(NORMS)
    distances = [[norm([u - v for u, v in zip(row, center)]) for row in members] for members, center in zip(rows, centers)]
    got = mon.call("cluster-distances", source.cluster_distances, **args)
    size = max(abs(v) for members in rows for row in members for v in row) + 1
    mon.check([len(g) for g in got] == [len(d) for d in distances] and
              all(abs(u - v) <= 1e-8 * size for g, d in zip(got, distances) for u, v in zip(g, d)), "cluster-distances",
              f"distances to the means {args}", got, distances)
    real = mon.call("real-centroids", source.cluster_real_centroids, **args)
    mon.check(len(real) == len(expected), "real-centroids", "number of real centroids", len(real))
    for centroid, (tag, members), gaps in zip(real, expected, distances):
        index = ids(members).index(id(centroid)) if id(centroid) in ids(members) else None
        mon.check(index is not None and gaps[index] <= min(gaps) + 1e-8 * size, "real-centroids", f"real centroid of {tag}", gaps, index)
    mon.check(ids(data.dessia_objects) == ids(designs) and list(data.labels) == labels, "clusters-untouched", "clusters changed")
    mon.ev("clusters", len(expected))
    mon.ev("members", len(designs))


@scenario("C20", 350, 15000, rule="any labels (outliers, gaps, more than ten): sub-lists and summaries of clusters")
def labelled(rng, mon):
    cls = rng.choice([Design, Wide])
    designs = make_designs(rng, 1, 30, cls)
    pool = rng.choice([[0, 1], [0, 1, 2, 3], [-1, 0, 1], [-1, 0, 2, 5], list(range(15)), list(range(-1, 14)), [7], [-1], [0, 1, 10, 2]])
    labels = [rng.choice(pool) for _ in designs]
    mon.case((labels, [d.row() for d in designs]))
    data = ClusteredDataset(list(designs), list(labels), name="k")
    if rng.random() < .3:
        _ = data.matrix
    clusters_agree(rng, mon, data, designs, labels, "k")
    if rng.random() < .3:
        key = rng.choice(["a", "b", 0, 2])
        data.sort(key, rng.random() < .5)
        mon.check(sorted(zip(ids(data.dessia_objects), data.labels)) == sorted(zip(ids(designs), labels)), "sorted-labels", "labels after a sort")
        clusters_agree(rng, mon, data, list(data.dessia_objects), list(data.labels), "k")
    default = ClusteredDataset(list(designs))
    mon.check(list(default.labels) == [0] * len(designs), "default-labels", "default labels", default.labels)


def scaled(rows):
    array = numpy.array(rows, dtype=float)
    deviation = array.std(axis=0)
    deviation[deviation < 1e-300] = 1
    return (array - array.mean(axis=0)) / deviation


def partition(labels):
    groups = {}
    for i, label in enumerate(labels):
        groups.setdefault(label, []).append(i)
    return sorted(groups.values())


@scenario("C20", 160, 4000, rule="clustering methods: labels those of the algorithm with the given settings on the dataset's matrix")
def algorithms(rng, mon):
    centers = [[rng.uniform(-50, 50) for _ in range(3)] for _ in range(rng.randint(2, 5))]
    designs = []
    for i in range(rng.randint(6, 40)):
        center = rng.choice(centers)
        designs.append(Design(*[c + rng.gauss(0, rng.choice([.3, 3])) for c in center], name=f"d{i}"))
    rows = [d.row() for d in designs]
    scaling = rng.random() < .4
    fed = scaled(rows).tolist() if scaling else rows
    kind = rng.choice(["agglomerative", "dbscan", "kmeans", "threshold"])
    mon.case((kind, scaling, rows))
    mon.ev("algorithm:" + kind + (":scaled" if scaling else ""))
    from_list = rng.random() < .3
    data = list(designs) if from_list else Dataset(list(designs), name="base")
    name = rng.choice(["", "res"])
    prefix = "list_" if from_list else "from_"
    if kind in ("agglomerative", "threshold"):
        build = getattr(ClusteredDataset, prefix + "agglomerative_clustering")
        linkage = rng.choice(["ward", "complete", "average", "single"])
        metric = "euclidean" if linkage == "ward" else rng.choice(["euclidean", "manhattan"])
        if kind == "agglomerative":
            settings = {"n_clusters": rng.randint(1, 6), "metric": metric, "linkage": linkage}
        else:
            settings = {"n_clusters": None, "metric": metric, "linkage": linkage, "distance_threshold": rng.choice([.5, 5., 40.])}
        expected = sk_cluster.AgglomerativeClustering(**settings).fit(fed).labels_.tolist()
    elif kind == "dbscan":
        build = getattr(ClusteredDataset, prefix + "dbscan")
        settings = {"eps": rng.choice([.3, 1., 4., 12.]), "min_samples": rng.choice([1, 2, 5])}
        direct = dict(settings)
        if rng.random() < .5:
            settings["metric"] = "minkowski"
            settings["mink_power"] = rng.choice([1, 3])
            direct.update(metric="minkowski", p=settings["mink_power"])
        expected = sk_cluster.DBSCAN(**direct).fit(fed).labels_.tolist()
    else:
        build = getattr(ClusteredDataset, prefix + "kmeans")
        settings = {"n_clusters": rng.randint(1, 4), "n_init": 3}
        expected = None
    result = mon.call(kind, build, data, scaling=scaling, name=name, **settings)
    mon.check(type(result) is ClusteredDataset and ids(result.dessia_objects) == ids(designs) and result.name == name, "cluster-elements",
              "elements of the clustered dataset")
    labels = list(result.labels)
    mon.check(len(labels) == len(designs) and all(isinstance(v, int) for v in labels), "cluster-labels", "labels", labels)
    if expected is not None:
        mon.check(partition(labels) == partition(expected) and [v == -1 for v in labels] == [v == -1 for v in expected],
                  "cluster-partition", f"{kind} {settings}", labels, expected)
    else:
        wanted = settings["n_clusters"]
        mon.check(set(labels) == set(range(wanted)), "kmeans-labels", "labels", labels, wanted)
        # a k-means partition is stable: no element much nearer to the mean of another cluster
        groups = [[fed[i] for i, v in enumerate(labels) if v == k] for k in range(wanted)]
        means = [[math.fsum(c) / len(g) for c in zip(*g)] for g in groups]
        for row, label in zip(fed, labels):
            gaps = [math.dist(row, m) for m in means]
            mon.check(gaps[label] <= min(gaps) * 1.05 + 1e-2 * (1 if scaling else 50), "kmeans-stable", "element nearer to another cluster", gaps, label)
    if not from_list:
        mon.check(ids(data.dessia_objects) == ids(designs) and type(data) is Dataset, "data-untouched", "dataset changed by clustering")
        mon.check([list(r) for r in data.matrix] == rows, "matrix-untouched", "matrix changed by clustering")
    clusters_agree(rng, mon, result, designs, labels, name)


# ---- sampling: pyDOE2 is not installed here, a stand-in answers its two functions ------------------------------------
def fullfact(levels):
    rows = list(itertools.product(*[range(n) for n in reversed(levels)]))
    return numpy.array([list(reversed(r)) for r in rows], dtype=float).reshape(len(rows), len(levels))


class FakeLhs:
    def __init__(self):
        self.calls, self.rng = [], None

    def __call__(self, count, samples=None, criterion=None, **kwargs):
        self.calls.append((count, samples, criterion))
        columns = []
        for _ in range(count):
            column = [(i + (.5 if criterion in ("center", "c") else self.rng.random())) / samples for i in range(samples)]
            self.rng.shuffle(column)
            columns.append(column)
        self.last = [list(r) for r in zip(*columns)] if columns else [[] for _ in range(samples)]
        return numpy.array(self.last).reshape(samples, count)


LHS = FakeLhs()


def sampler_class():
    if "pyDOE2" not in sys.modules:
        module = types.ModuleType("pyDOE2")
        module.fullfact, module.lhs = fullfact, LHS
        sys.modules["pyDOE2"] = module
    from dessia_common.datatools.sampling import ClassSampler
    return ClassSampler


@scenario("C20", 150, 6000, rule="designs of experiments: the grid exactly once each, bounds and constants kept")
def sampling(rng, mon):
    sampler = sampler_class()
    names = ["a", "b", "c"]
    rng.shuffle(names)
    cut = rng.randint(0, 3)
    varying, constant = names[:cut], names[cut:]
    bounds = {}
    for name in varying:
        low = rng.choice([0, -1, 2.5, 100, -1e3])
        bounds[name] = (low, low + rng.choice([0, 1, .5, 10, 1e3]), rng.choice([1, 2, 2, 3, 4, 5]))
    fixed = {name: rng.choice([0, 1.5, 42, -3]) for name in constant}
    mon.case((bounds, fixed, rng.random()))
    build = mon.call("sampler", sampler, Design, [BoundedAttributeValue(n, *bounds[n]) for n in varying],
                     [FixedAttributeValue(n, v) for n, v in fixed.items()])
    samples = rng.randint(1, 20)
    method = rng.choice(["fullfact", "lhs", "montecarlo", "other"])
    mon.ev("sampling:" + method)
    if method == "other":
        mon.refuses("unknown-method", build.make_doe, samples, "truc", errors=(NotImplementedError,))
        return
    real = "pyDOE2" in sys.modules and sys.modules["pyDOE2"].__dict__.get("lhs") is not LHS
    LHS.rng = rng
    criterion = rng.choice(["center", "maximin"])
    result = mon.call(method, build.make_doe, samples, method, criterion, "doe")
    mon.check(isinstance(result, Dataset) and result.name == "doe" and all(type(o) is Design for o in result.dessia_objects),
              "sampled-class", "class of samples", result)
    for obj in result.dessia_objects:
        for name, value in fixed.items():
            mon.check(getattr(obj, name) == value, "sampled-constants", "constant attribute", name, getattr(obj, name), value)
        for name, (low, high, _) in bounds.items():
            gap = 1e-9 * (abs(low) + abs(high) + 1)
            mon.check(low - gap <= getattr(obj, name) <= high + gap, "sampled-bounds", "sample out of bounds", name, getattr(obj, name), (low, high))
    if method == "fullfact":
        grids = [[low + (high - low) * i / (count - 1) if count > 1 else low for i in range(count)]
                 for low, high, count in (bounds[n] for n in varying)]
        expected = sorted(tuple(round(v, 6) for v in combination) for combination in itertools.product(*grids))
        got = sorted(tuple(round(getattr(o, n), 6) for n in varying) for o in result.dessia_objects)
        mon.check(got == expected, "full-factorial", "grid", got, expected)
        mon.ev("grid-points", len(expected))
        return
    mon.check(len(result) == samples, "sample-count", "number of samples", len(result), samples)
    if method == "lhs" and varying and not real:
        mon.check(LHS.calls[-1] == (len(varying), samples, criterion), "lhs-settings", "settings", LHS.calls[-1])
        expected = [[bounds[n][0] + v * (bounds[n][1] - bounds[n][0]) for n, v in zip(varying, row)] for row in LHS.last]
        got = [[getattr(o, n) for n in varying] for o in result.dessia_objects]
        mon.check(all(math.isclose(u, v, rel_tol=1e-9, abs_tol=1e-9) for g, e in zip(got, expected) for u, v in zip(g, e)), "lhs-values",
                  "sampled values", got, expected)


def number_in(cell):
    try:
        return float(cell)
    except (TypeError, ValueError):
        return None


@scenario("C20", 60, 1500, rule="workbooks and plots of clusters: each cluster with its elements; empty clustered datasets have (empty) ones")
def outputs(rng, mon):
    designs = make_designs(rng, 1, 14)
    if rng.random() < .12:
        designs = []
    labels = [rng.choice([-1, 0, 1, 2, 5]) for _ in designs]
    mon.case((labels, [d.row() for d in designs]))
    data = ClusteredDataset(list(designs), list(labels), name="k")
    if not designs:
        for what, method in (("means", data.mean_clusters), ("distances", data.cluster_distances), ("centroids", data.cluster_real_centroids)):
            got = mon.call("empty-" + what, method)
            mon.check(len(got) == 0, "empty-clusters", what, got)
        mon.check(len(mon.call("empty-sublists", data.clustered_sublists)) == 0, "empty-clusters", "sub-lists of nothing")
        mon.ev("empty")
    split = data.clustered_sublists()
    source = rng.choice([data, split])
    mon.check(mon.call("plot", source.plot_data) is not None, "cluster-plot", "plot")
    stream = io.BytesIO()
    mon.call("to-xlsx-stream", source.to_xlsx_stream, stream)
    mon.check(ids(data.dessia_objects) == ids(designs) and list(data.labels) == labels, "clusters-untouched", "clusters changed by an output")
    expected = expected_clusters(designs, labels)
    mon.check([ids(s.dessia_objects) for s in split.dessia_objects] == [ids(m) for _, m in expected], "clusters-untouched",
              "sub-lists changed by an output")
    stream.seek(0)
    book = openpyxl.load_workbook(stream)
    if not designs:
        return
    mon.check("Design" in book.sheetnames and "Dataset" in book.sheetnames, "workbook-sheets", "sheets", book.sheetnames)
    lines = list(book["Design"].iter_rows(min_row=3, values_only=True))
    columns = {title: i for i, title in enumerate(lines[0])}
    rows = {line[columns["Path"]]: line for line in lines[1:]}
    seen = 0
    for i, (tag, members) in enumerate(expected):
        for j, design in enumerate(members):
            line = rows.get(f"dessia_objects.{i}.dessia_objects.{j}")
            if line is None:     # an equal element was already described
                mon.check(any(d == design for d in designs if d is not design), "workbook-elements", "element without row", i, j, list(rows))
                continue
            seen += 1
            got = [number_in(line[columns[c]]) for c in "abc"]
            mon.check(all(g is not None and math.isclose(g, v, rel_tol=1e-9, abs_tol=1e-6) for g, v in zip(got, design.row())),
                      "workbook-values", "values of an element", got, design.row())
    mon.check(seen == len(rows), "workbook-elements", "rows", seen, list(rows))
    mon.ev("workbook-rows", seen)
