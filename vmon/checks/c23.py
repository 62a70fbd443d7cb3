""" C23: optimization and numeric helpers respect bounds and units. """
import copy
import json
import math
import pickle
import random
import warnings

import numpy as np

from dessia_common import measures
from dessia_common.core import DessiaObject, Parameter, ParameterSet
from dessia_common.optimization import BoundedAttributeValue, FixedAttributeValue, InstantiatingModelOptimizer
from dessia_common.utils.algebra import number2factor, number3factor
from dessia_common.utils.interpolation import interpolate_from_istep, istep_from_value_on_list

from vmon.core import scenario


class Model(DessiaObject):
    """ What is optimized. """

    def __init__(self, a: float = 0., b: float = 0., c: float = 0., d: float = 0., e: float = 0., name: str = ""):
        self.a, self.b, self.c, self.d, self.e = a, b, c, d, e
        DessiaObject.__init__(self, name=name)


NAMES = "abcde"


class Recorder(InstantiatingModelOptimizer):
    """ Optimizer that records every model it is asked to instantiate and every value it computes. """

    def __init__(self, fixed_parameters, optimization_bounds, cost, name: str = ""):
        self.cost = cost
        self.requests = []
        self.values = []
        InstantiatingModelOptimizer.__init__(self, fixed_parameters, optimization_bounds, name=name)

    def instantiate_model(self, attributes_values):
        self.requests.append({k: float(v) for k, v in attributes_values.items()})
        return Model(**attributes_values)

    def objective_from_model(self, model, clearance: float = 0.003):
        value = self.cost(model)
        self.values.append(value)
        return value


class PhasedRecorder(Recorder):
    """ Also records where the stages of a combined optimization begin and what they return. """

    def optimize_cma(self):
        result = Recorder.optimize_cma(self)
        self.cma_model, self.cma_value, self.cma_requests = result[0], result[1], len(self.requests)
        return result


def make_problem(rng, low):
    """ Bounds, fixed values, and a cost whose optimum may be inside, on a bound or anywhere. """
    names = rng.sample(NAMES, rng.randint(low, 4))
    bounds, scales = [], {}
    for name in names:
        start = rng.choice([0., -1., 10., -1000., 0.05, 1e-3, 5.]) * rng.choice([1, 1, 1.7])
        length = rng.choice([1., 0.1, 7., 1e-3, 2000., 1.])
        if rng.random() < .08:
            length = 0.
        bounds.append(BoundedAttributeValue(name, start, start + length))
        scales[name] = (start, length or 1.)
    fixed = [FixedAttributeValue(name, rng.choice([0., 3.5, -2., 4])) for name in NAMES if name not in names
             and rng.random() < .6]
    targets = {name: rng.choice([-1., 0., 0.3, 0.5, 1., 1.5]) for name in names}
    kind = rng.choice(["quadratic", "linear", "abs", "waves", "constant"])

    def cost(model):
        relative = {n: (getattr(model, n) - scales[n][0]) / scales[n][1] for n in names}
        if kind == "quadratic":
            return 1 + sum((relative[n] - targets[n])**2 for n in names)
        if kind == "linear":
            return sum(relative[n] * (targets[n] - .4) for n in names)
        if kind == "abs":
            return 1 + sum(abs(relative[n] - targets[n]) for n in names)
        if kind == "waves":
            return 2 + sum(math.sin(9 * relative[n] + targets[n]) + (relative[n] - targets[n])**2 for n in names)
        return 1.
    return bounds, fixed, cost, (kind, targets, [(b.attribute_name, b.min_value, b.max_value) for b in bounds],
                                 [(f.attribute_name, f.value) for f in fixed])


def check_points(m, optimizer, bounds, fixed):
    expected = sorted([b.attribute_name for b in bounds] + [f.attribute_name for f in fixed])
    for request in optimizer.requests:
        m.equal(sorted(request), expected, "evaluated-attributes", "bounded and fixed attributes only")
        for bound in bounds:
            tolerance = 1e-9 * (abs(bound.min_value) + abs(bound.max_value) + 1e-3)
            m.check(bound.min_value - tolerance <= request[bound.attribute_name] <= bound.max_value + tolerance,
                    "evaluated-in-bounds", "an evaluated point is out of its bounds", request, bound.to_dict())
        for parameter in fixed:
            m.check(request[parameter.attribute_name] == parameter.value, "fixed-value", "fixed values are kept", request)
    m.ev("evaluated points", len(optimizer.requests))


def check_result(m, optimizer, result, bounds, fixed, cost):
    model, value = result
    for bound in bounds:
        tolerance = 1e-9 * (abs(bound.min_value) + abs(bound.max_value) + 1e-3)
        m.check(bound.min_value - tolerance <= getattr(model, bound.attribute_name) <= bound.max_value + tolerance,
                "result-in-bounds", "the returned point is out of its bounds", model.to_dict(), bound.to_dict())
    for parameter in fixed:
        m.check(getattr(model, parameter.attribute_name) == parameter.value, "result-fixed-value", "", model.to_dict())
    m.close(value, cost(model), "result-objective", "objective of the returned point", rel=1e-7, abs_=1e-7)
    m.check(np.ndim(value) == 0, "result-objective", "a number")


@scenario("C23", 150, 2500)
def gradient(rng, m):
    """ Gradient optimizations from random or given points. """
    bounds, fixed, cost, text = make_problem(rng, 1)
    method = rng.choice(["L-BFGS-B", "L-BFGS-B", "Nelder-Mead", "Powell"])
    m.case([method, text])
    np.random.seed(rng.randrange(2**31))
    optimizer = Recorder(fixed, bounds, cost)
    start = None if rng.random() < .5 else [rng.choice([0., 1., 0.25, 0.6]) for _ in bounds]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        result = m.call("optimize-gradient", optimizer.optimize_gradient, method=method,
                        **({} if start is None else {"x0": start}))
    check_points(m, optimizer, bounds, fixed)
    check_result(m, optimizer, result, bounds, fixed, cost)
    if start is not None:
        first = optimizer.requests[0]
        for bound, x in zip(bounds, start):
            m.close(first[bound.attribute_name], bound.min_value + x * (bound.max_value - bound.min_value), "given-start",
                    "the optimization starts from the given dimensionless point", rel=1e-7)
    if method == "L-BFGS-B":
        m.check(result[1] <= optimizer.values[0] + 1e-9, "never-worse", "an optimization does not end worse than it began",
                result[1], optimizer.values[0])


@scenario("C23", 100, 1500)
def cma_then_gradient(rng, m):
    """ CMA optimizations, and CMA followed by gradient. """
    bounds, fixed, cost, text = make_problem(rng, 2)
    m.case(text)
    np.random.seed(rng.randrange(2**31))
    optimizer = Recorder(fixed, bounds, cost)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        result = m.call("optimize-cma", optimizer.optimize_cma)
        check_points(m, optimizer, bounds, fixed)
        check_result(m, optimizer, result, bounds, fixed, cost)
        phased = PhasedRecorder(fixed, bounds, cost)
        result = m.call("optimize-both", phased.optimize_cma_then_gradient)
    check_points(m, phased, bounds, fixed)
    check_result(m, phased, result, bounds, fixed, cost)
    m.check(result[1] <= phased.cma_value + 1e-12, "polish-improves", "the combined result is never worse than CMA's",
            result[1], phased.cma_value)
    first = phased.requests[phased.cma_requests]
    for bound in bounds:
        m.close(first[bound.attribute_name], getattr(phased.cma_model, bound.attribute_name), "polish-start",
                "the gradient polishes the point CMA found", rel=1e-6, abs_=1e-6 * (bound.max_value - bound.min_value) + 1e-9)


@scenario("C23", 900, 15000)
def conversions(rng, m):
    """ Bounded attributes and parameters: values to dimensionless and back. """
    low = rng.choice([0., -1., 1e-6, -1e5, 12.5, rng.uniform(-10, 10)])
    length = rng.choice([1., 1e-3, 1e4, rng.uniform(0.1, 9), 1e-7, 3e-9])
    if length < 1e-6:
        low = rng.choice([0., 1e-6, -1e-7])
    high = low + length
    m.case([low, high])
    bound = BoundedAttributeValue("a", low, high, number=3)
    parameter = Parameter(low, high)
    scale = abs(low) + abs(high)
    for _ in range(5):
        x = rng.choice([0., 1., rng.random(), rng.random()])
        value = m.call("to-value", bound.dimensionless_to_value, x)
        m.close(value, low + x * length, "to-value", "", rel=1e-9, abs_=1e-9 * scale)
        m.check(low - 1e-9 * scale <= value <= high + 1e-9 * scale, "converted-in-bounds", "", value)
        m.close(bound.dimensionless_value(value), x, "round-trip", "dimensionless", rel=1e-6, abs_=1e-6 + 1e-12 * scale / length)
        m.close(parameter.original_value(x), value, "parameter-original", "", rel=1e-9, abs_=1e-9 * scale)
        m.close(parameter.normalize(value), x, "parameter-normalize", "", rel=1e-6, abs_=1e-6 + 1e-12 * scale / length)
    for _ in range(5):
        drawn = m.call("random-value", parameter.random_value)
        m.check(low - 1e-9 * scale <= drawn <= high + 1e-9 * scale, "random-in-bounds", "", drawn, low, high)
    optimizer = Recorder([FixedAttributeValue("b", 7.)], [bound, BoundedAttributeValue("c", 0, 10)], None)
    vector = m.call("vector", optimizer.dimensionless_vector_to_vector, [0.5, 0.25])
    m.close(vector[0], low + length / 2, "vector", "", rel=1e-9, abs_=1e-9 * scale)
    m.close(vector[1], 2.5, "vector", "")
    m.equal(optimizer.vector_to_attributes_values([1., 2.]), {"b": 7., "a": 1., "c": 2.}, "vector-attributes", "")
    values = {k: [rng.choice([0, 1, -5, 2.5]) for _ in range(rng.randint(1, 6))] for k in "xyz"[:rng.randint(1, 3)]}
    parameters = m.call("parameter-set", lambda: ParameterSet(values).parameters)
    m.equal([(p.name, p.lower_bound, p.upper_bound) for p in parameters],
            [(k, min(v), max(v)) for k, v in values.items()], "parameter-set", "")
    means = ParameterSet(values).means
    for key, series in values.items():
        m.close(means[key], math.fsum(series) / len(series), "parameter-means", "")
    m.equal(set(means), set(values), "parameter-means", "")


@scenario("C23", 1500, 20000)
def periodic_values(rng, m):
    """ Equality of values of a parameter, periodic or not. """
    period = rng.choice([None, 360, 2 * math.pi, 1., 24])
    parameter = Parameter(0, period or 10., periodicity=period)
    tol = rng.choice([1e-2, 1e-3, .1])
    base = rng.choice([0., period or 3., (period or 3) / 2, rng.uniform(-50, 50)])
    gap = rng.choice([0., 0.5 * tol, -0.5 * tol, 2 * tol, -2 * tol, 3.3 * tol, (period or 7.) / 2.1])
    turns = rng.choice([0, 0, 1, -1, 3, -7])
    m.case([period, tol, base, gap, turns])
    other = base + gap + (turns * period if period else 0)
    expected = abs(gap) <= tol
    if period and period / 2.1 <= 3 * tol:
        return
    for one, two in ((base, other), (other, base)):
        m.equal(m.call("values-equal", parameter.are_values_equal, one, two, tol=tol), expected, "periodic-equality",
                f"period {period}, {one} and {two} within {tol}")
    m.check(parameter.are_values_equal(base, base), "reflexive", "")
    bounds = parameter.optimizer_bounds()
    if period is None:
        m.check(bounds is None, "optimizer-bounds", "")
    else:
        m.close(bounds[0], -.5 * period, "optimizer-bounds", "")
        m.close(bounds[1], 1.5 * period, "optimizer-bounds", "")


MEASURES = [measures.Distance, measures.Angle, measures.Torque, measures.Stress, measures.Time, measures.Speed,
            measures.RotationSpeed, measures.Acceleration, measures.Mass, measures.Force, measures.Work, measures.Power]
UNITS = {"Distance": "m", "Angle": "rad", "Torque": "Nm", "Stress": "Pa", "Time": "s", "Speed": "m/s",
         "RotationSpeed": "rad/s", "Acceleration": "m/s²", "Mass": "kg", "Force": "N", "Work": "N*m", "Power": "N*m/s"}


class Measured(DessiaObject):
    """ Object holding measures. """

    def __init__(self, length: measures.Distance, masses=None, name: str = ""):
        self.length = length
        self.masses = masses
        DessiaObject.__init__(self, name=name)


@scenario("C23", 900, 15000)
def measure_values(rng, m):
    """ Measures are floats with a unit, kept by dicts, JSON, copies and objects. """
    class_ = rng.choice(MEASURES)
    number = rng.choice([0., -1.5, 1e-12, 123456789.123456789, 1e300, -2.5e-7, rng.uniform(-10, 10), 3, rng.gauss(0, 1e5)])
    m.case([class_.__name__, number])
    measure = m.call("measure", class_, number)
    m.check(isinstance(measure, float) and float(measure) == number, "measure-value", "", measure)
    m.equal(class_.si_unit, UNITS[class_.__name__], "measure-unit", "")
    dict_ = m.call("measure-dict", measure.to_dict)
    back = m.call("measure-back", class_.dict_to_object, json.loads(json.dumps(dict_)))
    m.check(type(back) is class_ and float(back) == number, "measure-round-trip", "", back, measure)
    other = m.call("measure-back", measures.Measure.dict_to_object, dict_)
    m.check(type(other) is class_ and float(other) == number, "measure-round-trip", "", other, measure)
    for copied in (copy.copy(measure), copy.deepcopy(measure), pickle.loads(pickle.dumps(measure))):
        m.check(type(copied) is class_ and copied == measure, "measure-copy", "")
    text = str(measure)
    m.check(text.startswith(class_.__name__) and text.endswith(UNITS[class_.__name__]), "measure-text", "", text)
    shown = float(text[len(class_.__name__):len(text) - len(UNITS[class_.__name__])])
    m.close(shown, round(float(number), 6), "measure-text", text)
    m.check(eval(repr(measure), {class_.__name__: class_}) == measure, "measure-repr", "", repr(measure))
    m.check(measure + 1 == number + 1 and measure == number and hash(measure) == hash(float(number)), "measure-float", "")
    obj = Measured(measure, [class_(1.), class_(number)])
    rebuilt = m.call("measure-object", lambda: DessiaObject.dict_to_object(json.loads(json.dumps(obj.to_dict()))))
    m.check(type(rebuilt.length) is class_ and rebuilt.length == measure, "measure-object", "", rebuilt.length)
    m.check([type(x) for x in rebuilt.masses] == [class_, class_] and rebuilt.masses == obj.masses, "measure-object", "")
    m.check(obj._data_eq(rebuilt), "measure-object-eq", "")


def make_series(rng):
    kind = rng.choice(["up", "down", "any", "steps", "flat"])
    n = rng.choice([2, 3, 4, 7, 15])
    if kind == "flat":
        return [rng.choice([1., 2.])] * n
    series = [rng.choice([rng.uniform(-10, 10), float(rng.randint(-3, 3))]) for _ in range(n)]
    if kind == "up":
        return sorted(series)
    if kind == "down":
        return sorted(series, reverse=True)
    if kind == "steps":
        return [float(rng.randint(0, 2)) for _ in range(n)]
    return series


@scenario("C23", 1500, 20000)
def interpolation(rng, m):
    """ Positions of values in series, and values at positions. """
    series = make_series(rng)
    m.case(series)
    low, high = min(series), max(series)
    for _ in range(6):
        value = rng.choice([rng.choice(series), rng.uniform(low, high), (series[0] + series[1]) / 2])
        step = m.call("position", istep_from_value_on_list, series, value)
        m.check(0 <= step <= len(series) - 1, "position-range", "", step)
        first = next(i for i, (a, b) in enumerate(zip(series, series[1:])) if min(a, b) <= value <= max(a, b))
        m.check(first <= step <= first + 1, "position-segment", "first segment holding the value", series, value, step)
        back = m.call("interpolate", interpolate_from_istep, series, step)
        m.close(back, value, "position-value", f"value at the position of {value}", rel=1e-9, abs_=1e-9)
        position = rng.choice([rng.uniform(0, len(series) - 1), float(rng.randrange(len(series))), rng.randrange(len(series))])
        got = m.call("interpolate", interpolate_from_istep, series, position)
        below = min(int(math.floor(position)), len(series) - 2)
        fraction = position - below
        m.close(got, series[below] + fraction * (series[below + 1] - series[below]), "interpolated", f"at {position}")
        if position == int(position):
            m.check(got is series[int(position)], "exact-position", "")
    for position in (-0.1, len(series) - 1 + 0.1, -3, len(series)):
        m.refuses("no-extrapolation", interpolate_from_istep, series, position, errors=(ValueError,))
    for value in (low - rng.uniform(0.1, 5), high + rng.uniform(0.1, 5)):
        m.refuses("value-out-of-range", istep_from_value_on_list, series, value, errors=(ValueError,))
        step = m.call("extrapolate", istep_from_value_on_list, series, value, extrapolate=True)
        near_left, near_right = abs(series[0] - value), abs(series[-1] - value)
        if near_left != near_right:
            m.equal(step, 0 if near_left < near_right else len(series) - 1, "extrapolated", "closest end")
    points = [np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) for _ in range(4)]
    position = rng.uniform(0, 3)
    got = m.call("interpolate", interpolate_from_istep, points, position)
    below = min(int(position), 2)
    expected = points[below] * (1 - position + below) + points[below + 1] * (position - below)
    m.check(bool(np.allclose(got, expected)), "interpolated-vectors", "", got, expected)


@scenario("C23", 200, 2500)
def factors(rng, m):
    """ Ways to write a number as a product. """
    number = rng.choice([0, 1, 2, 12, 16, 36, 97, 360, rng.randint(1, 400), rng.randint(1, 2000)])
    m.case(number)
    divisors = [d for d in range(1, number + 1) if number % d == 0]
    two = m.call("two-factors", number2factor, number)
    m.equal(sorted(two), [(d, number // d) for d in divisors], "two-factors", f"of {number}")
    three = m.call("three-factors", number3factor, number)
    expected = [(a, b, number // (a * b)) for a in divisors for b in divisors if number % (a * b) == 0]
    m.equal(sorted(three), sorted(expected), "three-factors", f"of {number}")
    reduced = m.call("three-factors", number3factor, number, complete=False)
    m.equal(sorted(tuple(sorted(g)) for g in reduced), sorted({tuple(sorted(g)) for g in expected}), "reduced-factors",
            f"of {number}: each combination once whatever the order")
    m.ev("products", len(two) + len(three) + len(reduced))
