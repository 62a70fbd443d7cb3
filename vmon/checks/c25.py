""" C25: tree generation enumerates each valid solution once. """
import itertools
import warnings

from dessia_common.core import DessiaObject
from dessia_common.generation import DecisionTreeGenerator, RegularDecisionTreeGenerator

from vmon.core import scenario

LIMIT = 5000    # far above the number of nodes of any generated tree


class Solution(DessiaObject):
    """ Model built from the vector of a node. """

    def __init__(self, vector: list, name: str = ""):
        self.vector = tuple(vector)
        DessiaObject.__init__(self, name=name)


class TooLong(Exception):
    """ The exploration asks for more nodes than the tree has. """


class Recorder:
    """ Records every node a generator explores. """

    def watch(self, bad_vectors, bad_models):
        self.bad_vectors, self.bad_models = bad_vectors, bad_models
        self.asked, self.built, self.sized = [], [], []

    def is_vector_valid(self, vector):
        self.asked.append(tuple(vector))
        if len(self.asked) > LIMIT:
            raise TooLong
        return tuple(vector) not in self.bad_vectors

    def model_from_vector(self, vector):
        self.built.append(tuple(vector))
        if len(self.built) > LIMIT:
            raise TooLong
        return Solution(vector)

    def is_model_valid(self, model):
        return model.vector not in self.bad_models


class Regular(Recorder, RegularDecisionTreeGenerator):
    def __init__(self, number_possibilities, bad_vectors, bad_models, name: str = ""):
        self.watch(bad_vectors, bad_models)
        RegularDecisionTreeGenerator.__init__(self, number_possibilities, name=name)


class Free(Recorder, DecisionTreeGenerator):
    def __init__(self, tree_shape, bad_vectors, bad_models, name: str = ""):
        self.watch(bad_vectors, bad_models)
        self.shape = tree_shape
        DecisionTreeGenerator.__init__(self, name=name)

    def number_possibilities_from_model(self, model):
        self.sized.append(model.vector)
        return self.shape[model.vector]


def generate(m, generator, rng, **options):
    """ Run the generator, possibly keeping solutions, possibly stopping on the way. """
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        solutions = m.call("generate", lambda: list(itertools.islice(generator.generate(**options), LIMIT)))
    m.check(len(solutions) < LIMIT, "generate-ends", "the generation ends")
    m.ev("solutions", len(solutions))
    m.ev("explored nodes", len(generator.asked))
    return [s.vector for s in solutions]


def draw_bad(rng, nodes):
    rate = rng.choice([0, 0.05, .2, .5, 1.])
    bad = [set(), set()]
    for node in nodes:
        if rng.random() < rate:
            bad[rng.random() < .5].add(node)
    if nodes and rng.random() < .4:      # the last nodes of the exploration
        bad[rng.random() < .5].add(nodes[-1])
    if nodes and rng.random() < .2:
        bad[rng.random() < .5].add(nodes[0])
    return bad


def prefixes(vector):
    return [vector[:i] for i in range(len(vector))]


@scenario("C25", 6000, 60000)
def regular_trees(rng, m):
    """ Regular trees of any shape, any invalid nodes, sorted and unique variants. """
    shape = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
    nodes = sorted(v for depth in range(1, len(shape) + 1) for v in itertools.product(*map(range, shape[:depth])))
    bad_vectors, bad_models = draw_bad(rng, nodes)
    sorted_nodes, unique_nodes = rng.random() < .5, rng.random() < .5
    m.case([shape, sorted(bad_vectors), sorted(bad_models), sorted_nodes, unique_nodes])
    generator = Regular(list(shape), bad_vectors, bad_models)
    got = generate(m, generator, rng, sorted_nodes=sorted_nodes, unique_nodes=unique_nodes,
                   **({"verbose": True} if rng.random() < .1 else {}))
    bad = bad_vectors | bad_models

    def allowed(vector):
        return (not sorted_nodes or list(vector) == sorted(vector)) and (not unique_nodes or len(set(vector)) == len(vector))

    expected = [v for v in itertools.product(*map(range, shape))
                if allowed(v) and v not in bad and not any(p in bad for p in prefixes(v))]
    m.equal(got, expected, "regular-solutions", f"valid leaves of {shape}, each once, in order")
    explored(m, generator, bad)
    m.ev(f"sorted={sorted_nodes} unique={unique_nodes}")


def explored(m, generator, bad):
    m.equal(len(generator.asked), len(set(generator.asked)), "explored-once", "each node is explored once")
    m.check(generator.asked == sorted(generator.asked), "explored-order", "in tree order", generator.asked)
    for node in generator.asked:
        m.check(not any(p in bad for p in prefixes(node)), "below-invalid", "nothing is explored below an invalid node", node)
    for node in generator.built:
        m.check(node == () or node not in generator.bad_vectors, "invalid-vector", "no model is built from an invalid vector", node)
    for node in generator.sized:
        m.check(node == () or node not in bad, "invalid-sized", "the possibilities below an invalid node are not asked", node)


def make_tree(rng):
    shape, nodes = {}, []
    depth_limit, width = rng.randint(0, 4), rng.randint(1, 3)

    def grow(node):
        nodes.append(node)
        count = rng.randint(0, width) if len(node) < depth_limit else 0
        shape[node] = count
        for index in range(count):
            if len(nodes) < 120:
                grow(node + (index,))
            else:
                shape[node] = index
                break
    grow(())
    return shape, nodes


@scenario("C25", 6000, 60000)
def free_trees(rng, m):
    """ Trees whose number of branches depends on the node. """
    shape, nodes = make_tree(rng)
    bad_vectors, bad_models = draw_bad(rng, nodes)
    m.case([shape, sorted(bad_vectors), sorted(bad_models)])
    generator = Free(shape, bad_vectors, bad_models)
    got = generate(m, generator, rng, **({"verbose": True} if rng.random() < .1 else {}))
    bad = bad_vectors | bad_models
    expected = [v for v in nodes if shape[v] == 0 and v not in bad and not any(p in bad for p in prefixes(v))]
    m.equal(got, expected, "tree-solutions", "valid leaves, each once, in order")
    explored(m, generator, bad)
    m.check(set(generator.asked) <= set(nodes), "explored-nodes", "only nodes of the tree are explored")
