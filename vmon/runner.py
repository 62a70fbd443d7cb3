"""
Entry point of every check:  /opt/venv/bin/python /verif/vmon/runner.py C01   (VERIF_SEED, VERIF_TIER in environment)

The parent starts worker processes; each worker imports dessia_common from /repo's working tree, runs its share of the
cases under the monitors and reports as JSON.  The parent merges the reports, writes the evidence file and decides.
"""
import argparse
import faulthandler
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
BUDGET = {"quick": 170, "thorough": 640}          # seconds of case generation per worker, hard stop
CASE_LIMIT = 60                                     # seconds for one case, normal ones take milliseconds
MEMORY_LIMIT = 5 << 30                              # bytes of address space of one worker
WORKERS = {"quick": 4, "thorough": 7}


def worker_env(scratch):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONSTARTUP")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MPLBACKEND="agg", BROWSER="true", LANG="C.UTF-8",
               TMPDIR=scratch, MPLCONFIGDIR=os.path.join(scratch, "mpl"), PYTHONPATH=f"{REPO}:{VERIF}")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


# ------------------------------------------------------------------------------------------------------------ worker
def load(prop):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    from vmon import core
    for path in sorted(glob.glob(os.path.join(VERIF, "vmon", "checks", f"{prop.lower()}*.py"))):
        importlib.import_module("vmon.checks." + os.path.basename(path)[:-3])
    return core


def run_case(core, sc, seed, index):
    """ Run one case; returns (monitor, violation-dict or None). """
    import warnings
    monitor = core.Monitor()
    rng = core.case_rng(seed, sc.prop, sc.name, index)
    import random as global_random
    import numpy
    global_random.seed(f"{seed}|{sc.prop}|{sc.name}|{index}|global")
    numpy.random.seed(rng.getrandbits(31))

    def on_alarm(signum, frame):
        raise core.CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT)
    violation = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sc.func(rng, monitor)
    except core.Violation as exc:
        violation = {"kind": exc.kind, "message": exc.message[:3000]}
    except core.CaseTimeout:
        violation = {"kind": "hang", "message": f"case did not finish in {CASE_LIMIT} s"}
    except Exception as exc:
        # An exception that escaped the scenario: the code under test refused something the scenario relies on.
        violation = {"kind": "unexpected-" + type(exc).__name__, "message": traceback.format_exc(limit=-8)[:3000]}
    finally:
        signal.alarm(0)
    if violation:
        violation.update(scenario=sc.name, index=index, trace=monitor.trace[-60:], sample=monitor.sample)
    return monitor, violation


def worker(args):
    faulthandler.enable()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))  # a runaway becomes a MemoryError of its case
    out = open(args.out, "w")
    sink = os.open(os.devnull, os.O_WRONLY)
    os.dup2(sink, 1)
    start = time.time()
    core = load(args.property)
    seed, tier = args.seed, args.tier
    budget = BUDGET[tier]
    result = {"scenarios": {}, "violations": [], "probes": {}, "samples": [], "import_s": time.time() - start}
    progress = open(args.out + ".progress", "w")
    scenarios = list(core.REGISTRY[args.property].values())
    if args.only:
        scenarios = [s for s in scenarios if s.name == args.only]
    # round-robin over scenarios so that a budget stop never starves one of them
    todo = []
    for sc in scenarios:
        total = sc.quick if tier == "quick" else sc.thorough
        if args.index is not None:
            todo.append((sc, [args.index]))
        else:
            todo.append((sc, list(range(args.shard, total, args.shards))))
        result["scenarios"][sc.name] = {"evaluations": 0, "signatures": [], "events": {}, "rule": sc.rule,
                                        "planned": len(todo[-1][1]), "wall_s": 0.0}
    violations_seen = {}
    stop = False
    chunk = 25
    while any(rest for _, rest in todo) and not stop:
        for sc, rest in todo:
            for index in rest[:chunk]:
                if time.time() - start > budget:
                    stop = True
                    break
                progress.seek(0)
                progress.write(f"{sc.name} {index}\n")
                progress.truncate()
                progress.flush()
                t0 = time.time()
                monitor, violation = run_case(core, sc, seed, index)
                info = result["scenarios"][sc.name]
                info["wall_s"] += time.time() - t0
                info["evaluations"] += 1
                for key, val in monitor.events.items():
                    info["events"][key] = info["events"].get(key, 0) + val
                if monitor.signature:
                    info["signatures"].append(monitor.signature)
                    if info["evaluations"] <= 2 and monitor.sample:
                        result["samples"].append({"scenario": sc.name, "index": index, "case": monitor.sample})
                if sc.probe:
                    result["probes"][sc.probe] = violation
                elif violation:
                    vkey = (sc.name, violation["kind"])
                    violations_seen[vkey] = violations_seen.get(vkey, 0) + 1
                    if violations_seen[vkey] == 1:
                        result["violations"].append(violation)
            del rest[:chunk]
            if stop or len(violations_seen) > 40 or sum(violations_seen.values()) > 300:
                stop = True
                break
    result["counts"] = {f"{k[0]}/{k[1]}": v for k, v in violations_seen.items()}
    result["stopped_early"] = stop
    json.dump(result, out)
    out.close()


# ------------------------------------------------------------------------------------------------------------ parent
def parent(args):
    start = time.time()
    prop, seed, tier = args.property, args.seed, args.tier
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known_ids = {f["id"]: f for f in known["known"] if f["property"] == prop}
    scratch = tempfile.mkdtemp(prefix="vmon_")
    shards = 1 if args.index is not None else int(os.environ.get("VMON_WORKERS", WORKERS[tier]))
    merged = {"scenarios": {}, "violations": [], "probes": {}, "samples": [], "counts": {}, "stopped_early": False}
    errors = []
    try:
        procs = []
        for shard in range(shards):
            wdir = os.path.join(scratch, f"w{shard}")
            os.makedirs(os.path.join(wdir, "cwd"))
            out = os.path.join(wdir, "out.json")
            cmd = [sys.executable, os.path.abspath(__file__), prop, "--worker", "--shard", str(shard), "--shards",
                   str(shards), "--out", out, "--seed", str(seed), "--tier", tier]
            if args.only:
                cmd += ["--only", args.only]
            if args.index is not None:
                cmd += ["--index", str(args.index)]
            err = open(os.path.join(wdir, "stderr"), "w")
            procs.append((subprocess.Popen(cmd, env=worker_env(wdir), cwd=os.path.join(wdir, "cwd"),
                                           stdout=subprocess.DEVNULL, stderr=err), out, wdir))
        deadline = start + BUDGET[tier] + CASE_LIMIT + 30
        for proc, out, wdir in procs:
            try:
                proc.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
            try:
                result = json.load(open(out))
            except Exception:
                last = ""
                if os.path.exists(out + ".progress"):
                    last = open(out + ".progress").read().strip()
                stderr = open(os.path.join(wdir, "stderr")).read()[-3000:]
                if last and len(last.split()) == 2:
                    # the code under test killed or blocked the interpreter inside a case
                    name, index = last.split()
                    merged["violations"].append({"kind": "crash", "scenario": name, "index": int(index),
                                                 "message": f"worker ended with {proc.returncode}: {stderr}",
                                                 "trace": [], "sample": None})
                else:
                    errors.append(stderr)
                continue
            for name, info in result["scenarios"].items():
                tgt = merged["scenarios"].setdefault(name, {"evaluations": 0, "planned": 0, "signatures": set(),
                                                            "events": {}, "rule": info["rule"], "wall_s": 0.0})
                tgt["evaluations"] += info["evaluations"]
                tgt["planned"] += info["planned"]
                tgt["wall_s"] += info["wall_s"]
                tgt["signatures"].update(info["signatures"])
                for key, val in info["events"].items():
                    tgt["events"][key] = tgt["events"].get(key, 0) + val
            merged["violations"] += result["violations"]
            merged["probes"].update(result["probes"])
            merged["samples"] += result["samples"]
            merged["stopped_early"] |= result["stopped_early"]
            for key, val in result["counts"].items():
                merged["counts"][key] = merged["counts"].get(key, 0) + val
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # --- known findings: a listed finding is reported as such; a listed probe failing another way is a violation
    known_lines = []
    for finding, violation in sorted(merged["probes"].items()):
        if violation is None:
            continue
        if finding in known_ids and violation["kind"] == known_ids[finding]["kind"]:
            known_lines.append(f"KNOWN-FINDING: property={prop} {known_ids[finding]['what']}")
        else:
            merged["violations"].append(violation)

    evaluations = sum(i["evaluations"] for i in merged["scenarios"].values())
    distinct = len({(n, s) for n, i in merged["scenarios"].items() for s in i["signatures"]})
    unreached = [n for n, i in merged["scenarios"].items() if i["evaluations"] == 0]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": "one evaluation = one generated workload driven through the real code under the monitors; "
                    "distinct and non-trivial = distinct case description, scenarios only describe cases that exercise "
                    "the property. Scenarios: " + "; ".join(f"{n}: {i['rule']}" for n, i in
                                                             sorted(merged["scenarios"].items())),
            "samples": merged["samples"][:12],
            "scenarios": {n: {"evaluations": i["evaluations"], "planned": i["planned"],
                              "distinct": len(i["signatures"]), "wall_s": round(i["wall_s"], 2),
                              "monitor_events": dict(sorted(i["events"].items()))}
                          for n, i in sorted(merged["scenarios"].items())},
            "monitor_checks": sum(v for i in merged["scenarios"].values() for k, v in i["events"].items()
                                  if k.startswith("checked:")),
            "known_findings_reproduced": known_lines, "scenarios_not_reached": unreached,
            "stopped_by_budget": merged["stopped_early"],
        },
        "assumptions": ["Python 3.12, dessia_common imported from /repo's working tree, PYTHONHASHSEED=0",
                        "the reference models in /verif/vmon are right"],
        "wall_s": round(time.time() - start, 2), "violations": len(merged["violations"]),
    }
    if not args.no_evidence:
        with open(os.path.join(evidence_dir, f"{prop}.json"), "w") as file:
            json.dump(evidence, file, indent=1)
    for line in known_lines:
        print(line)
    if merged["violations"]:
        replay_dir = os.path.join(evidence_dir, "replay")
        os.makedirs(replay_dir, exist_ok=True)
        seen = set()
        for violation in merged["violations"]:
            key = (violation["scenario"], violation["kind"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(replay_dir, f"{prop}_{violation['scenario']}_{violation['kind']}_{violation['index']}"
                                .replace("/", "_")[:150] + ".json")
            with open(path, "w") as file:
                json.dump({"property": prop, "seed": seed, "tier": tier, **violation,
                           "replay_cmd": f"VERIF_SEED={seed} {sys.executable} {os.path.abspath(__file__)} {prop} "
                                         f"--only {violation['scenario']} --index {violation['index']}"},
                          file, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  scenario {violation['scenario']} case {violation['index']} kind {violation['kind']} "
                  f"x{merged['counts'].get(violation['scenario'] + '/' + violation['kind'], 1)}")
            print("  " + violation["message"][:1500].replace("\n", "\n  "))
            if args.verbose:
                for line in violation["trace"]:
                    print("    trace:", line)
        return 1
    if errors:
        print("ERROR of the check (no worker result):\n" + errors[0])
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={evaluations} distinct={distinct} "
          f"checks={evidence['coverage']['monitor_checks']} wall={evidence['wall_s']}s"
          + (f" NOT-REACHED={unreached}" if unreached else "")
          + (" stopped-by-budget" if merged["stopped_early"] else ""))
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--worker", action="store_true")
    parser.add_argument("--shard", type=int, default=0)
    parser.add_argument("--shards", type=int, default=1)
    parser.add_argument("--out")
    parser.add_argument("--only")
    parser.add_argument("--index", type=int)
    parser.add_argument("--verbose", "-v", action="store_true")
    parser.add_argument("--no-evidence", action="store_true")
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    args = parser.parse_args()
    if args.worker:
        worker(args)
        return 0
    if args.only or args.index is not None:
        args.no_evidence = True
    return parent(args)


if __name__ == "__main__":
    sys.exit(main())
