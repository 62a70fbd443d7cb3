"""Source of /verif/DESIGN.md (run by hand; the output is committed)."""
import ast, glob, json, os, collections
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
read = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in read("properties.jsonl").splitlines()]
notes = json.loads(read("tools/notes.json"))
findings = json.loads(read("known_findings.json"))
results = json.loads(read("tools/seed_results.json")) if os.path.exists(os.path.join(V, "tools/seed_results.json")) else {}


def scenarios(pid):
    """ (name, quick, thorough, rule) read from the decorators. """
    out = []
    for node in ast.parse(read(f"vmon/checks/{pid.lower()}.py")).body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "scenario":
                    args = [ast.literal_eval(a) for a in d.args]
                    keys = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    quick, thorough = (args[1:] + [keys.get("quick"), keys.get("thorough")])[:2] if len(args) > 1 else (keys.get("quick"), keys.get("thorough"))
                    out.append((node.name, quick, thorough, keys.get("rule") or " ".join((ast.get_docstring(node) or "").split())))
    return out


out = [read("tools/design_head.md")]
out.append("\n## Properties\n")
for p in props:
    pid = p["id"]
    n = notes[pid]
    out.append(f"\n### {pid} {p['title']}\n")
    out.append(f"*Decided by* {n['technique'].split(': ', 1)[1]}.  \n*Oracle:* {n['oracle']}  \n*Why beyond the tests:* {n['reach']}.  \n*Bounds:* {n['bounds']}.\n")
    out.append("Scenarios (base number of cases quick / thorough, the quick tier multiplies it by a constant of `vmon/core.py`):\n")
    for name, quick, thorough, rule in scenarios(pid):
        out.append(f"- `{name}` ({quick} / {thorough}): {rule}")
    out.append("")
out.append(read("tools/design_tail.md"))
out.append("\n## Findings\n")
out.append("Genuine defects left as known findings (each probed on every run, printed as KNOWN-FINDING):\n")
out += [f"- {k['id']}: {k['what']}" for k in findings["known"]]
count = collections.Counter(f.split()[1].split("=")[1] for f in findings["fixed"])
out.append(f"\nGenuine defects repaired by `fix:` commits: {len(findings['fixed'])} (listed one by one, with their commit, in known_findings.json). Per property: "
           + ", ".join(f"{k} {v}" for k, v in sorted(count.items())) + ".\n")
out.append("\n## Planted bugs and the checks that catch them\n")
out.append("Each was written from the property's text and the code, confirmed to build, to pass the stable tests and to fail its demonstration. "
           "The last column is the outcome of the property's quick check (seed 1) with the bug applied and the scenario that reports it.\n")
out.append("| planted bug | property | what it breaks | quick check |\n|---|---|---|---|")
for path in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    sid = os.path.basename(os.path.dirname(path))
    meta = json.load(open(path))
    clean = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append(f"| {sid} | {meta['property']} | {clean(meta['what_it_breaks'])} | {results.get(sid, '?')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len("\n".join(out).splitlines()), "lines")
