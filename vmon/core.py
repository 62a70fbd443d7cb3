"""
Monitor core: scenario registry, monitor object, violations.

A *scenario* drives the real dessia_common code with one generated workload (a case) and feeds what it observes to a
monitor.  The monitor counts every observation (event) and raises Violation when an oracle disagrees with what the code
did.  A case is fully determined by (VERIF_SEED, property, scenario, index), which is what a replay file records.
"""
import hashlib
import random
import traceback
from collections import Counter


class Violation(Exception):
    """ Raised by a monitor when an oracle disagrees with the observed execution. """

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class CaseTimeout(BaseException):
    """ A single case exceeded its (very generous) time limit. """


class Scenario:
    def __init__(self, prop, name, func, quick, thorough, rule, probe=None):
        self.prop, self.name, self.func = prop, name, func
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.probe = probe  # id of the known finding this scenario reproduces, if any


REGISTRY = {}

# Cheap cases: how many times more of them the quick tier runs (every quick check stays below a minute or so on 8 cores).
SCALE = {"C01": 5, "C03": 4, "C04": 6, "C05": 5, "C06": 2, "C07": 6, "C08": 3, "C09": 2, "C14": 3, "C15": 2, "C16": 10,
         "C17": 10, "C18": 25, "C19": 25, "C20": 25, "C21": 5, "C23": 5, "C24": 2, "C25": 8}


def scenario(prop, quick, thorough=None, rule="", name=None, probe=None):
    """ Register a scenario. `quick`/`thorough` are the number of cases of each tier. """
    def deco(func):
        runs = quick if probe else quick * SCALE.get(prop, 1)
        deep = runs if probe else max(thorough if thorough is not None else quick * 20, 3 * runs)
        sc = Scenario(prop, name or func.__name__, func, runs, deep,
                      rule or (func.__doc__ or "").strip(), probe)
        REGISTRY.setdefault(prop, {})[sc.name] = sc
        return func
    return deco


def probe(prop, finding):
    """ Register the deterministic reproduction of a finding of the known-findings file. """
    return lambda func: scenario(prop, 1, 1, rule=f"reproduction of known finding {finding}", probe=finding,
                                 name="probe_" + func.__name__)(func)


def short(value, limit=400):
    try:
        text = repr(value)
    except Exception as exc:  # a repr of the code under test may fail
        text = f"<{type(value).__name__}: repr failed {exc!r}>"
    return text if len(text) <= limit else text[:limit] + "..."


class Monitor:
    """ What a scenario reports to. """

    def __init__(self):
        self.events = Counter()
        self.signature = None
        self.sample = None
        self.trace = []

    # --- observation -------------------------------------------------------------------------------------------
    def ev(self, name, count=1):
        self.events[name] += count

    def case(self, description):
        """ Describe the case; a non-trivial case has a description, distinct cases have distinct ones. """
        text = description if isinstance(description, str) else short(description, 2000)
        self.sample = text[:600]
        self.signature = hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:16]

    def log(self, *items):
        if len(self.trace) < 200:
            self.trace.append(" ".join(i if isinstance(i, str) else short(i) for i in items))

    # --- verdicts ----------------------------------------------------------------------------------------------
    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, condition, kind, message="", *values):
        self.events["checked:" + kind] += 1
        if not condition:
            raise Violation(kind, message + "".join(f" | {short(v)}" for v in values))

    def same(self, got, expected, kind, message=""):
        """ Strict structural identity of plain values (types included, floats bit-equal, nan==nan). """
        self.events["checked:" + kind] += 1
        where = strict_difference(got, expected)
        if where is not None:
            raise Violation(kind, f"{message} | {where} | got {short(got)} | expected {short(expected)}")

    def equal(self, got, expected, kind, message=""):
        self.events["checked:" + kind] += 1
        if not got == expected:
            raise Violation(kind, f"{message} | got {short(got)} | expected {short(expected)}")

    def close(self, got, expected, kind, message="", rel=1e-9, abs_=1e-9):
        self.events["checked:" + kind] += 1
        import math
        ok = got == expected or (got != got and expected != expected)
        if not ok:
            try:
                ok = math.isclose(got, expected, rel_tol=rel, abs_tol=abs_)
            except TypeError:
                ok = False
        if not ok:
            raise Violation(kind, f"{message} | got {short(got)} | expected {short(expected)}")

    def call(self, kind, func, *args, **kwargs):
        """ Call something of the code under test that has to succeed. """
        self.events["called:" + kind] += 1
        try:
            return func(*args, **kwargs)
        except (Violation, CaseTimeout):
            raise
        except RecursionError as exc:
            raise Violation(kind + "-raises", f"RecursionError {exc}") from exc
        except Exception as exc:
            tb = traceback.format_exc(limit=-6)
            raise Violation(kind + "-raises", f"{type(exc).__name__}: {exc}\n{tb}") from exc

    def refuses(self, kind, func, *args, errors=(Exception,), **kwargs):
        """ Call something that must raise one of `errors`. """
        self.events["checked:" + kind] += 1
        try:
            result = func(*args, **kwargs)
        except (Violation, CaseTimeout):
            raise
        except errors:
            return
        except Exception as exc:
            raise Violation(kind, f"wrong error {type(exc).__name__}: {exc}") from exc
        raise Violation(kind, f"accepted, returned {short(result)}")


def strict_difference(a, b, path="#"):
    """ First difference between two plain values, None if none. Type-strict, nan equals nan, -0.0 equals 0.0. """
    if isinstance(a, float) and isinstance(b, float) and type(a) is type(b):
        if a == b or (a != a and b != b):
            return None
        return f"{path}: {a!r} != {b!r}"
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} != {type(b).__name__}"
    if isinstance(a, dict):
        if list(map(repr, sorted(a, key=repr))) != list(map(repr, sorted(b, key=repr))):
            return f"{path}: keys {short(list(a), 150)} != {short(list(b), 150)}"
        for key in a:
            sub = strict_difference(a[key], b[key], f"{path}/{key}")
            if sub:
                return sub
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            sub = strict_difference(x, y, f"{path}/{i}")
            if sub:
                return sub
        return None
    return None if a == b else f"{path}: {short(a, 100)} != {short(b, 100)}"


def case_rng(seed, prop, name, index):
    return random.Random(f"{seed}|{prop}|{name}|{index}")
