#!/usr/bin/env python3
"""Decides one property: builds /repo's current tree to LLVM IR, executes the property's
harness entries symbolically and reports.   check.py PROPERTY   (tier: VERIF_TIER)

exit 0  no (unlisted) violation on everything explored
exit 1  VIOLATION line; the counterexample was replayed against the real code
exit 2  the check could not decide (build failure, engine and real code disagree, vacuous run)
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, COMMON_ASSUMPTIONS  # noqa: E402


def known(pid):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if not line.startswith("finding: property=%s " % pid):
                continue
            # finding: property=ID | entry | violation key | what fails
            f = [x.strip() for x in line.split("|")]
            out[(f[1], f[2])] = f[3]
    return out


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2].lstrip("-")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = PROPS[pid]
    build = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
    if spec.get("features"):
        build += "/" + spec["features"]
    os.makedirs(build, exist_ok=True)
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, pid + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)

    eng = subprocess.Popen(
        "cargo build --release --offline", shell=True, cwd=os.path.join(ROOT, "engine"),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ir = subprocess.run(["bash", os.path.join(HERE, "build_ir.sh"), build] + ([spec["features"]] if spec.get("features") else []), capture_output=True, text=True)
    eo, _ = eng.communicate()
    if eng.returncode:
        die("engine build failed\n" + eo[-3000:])
    if ir.returncode:
        die("harness build failed\n" + (ir.stdout + ir.stderr)[-3000:])
    t_build = time.time() - t0

    entries = list(spec["quick"])
    if tier == "thorough":
        entries += spec.get("thorough", [])
    # entries of other properties, in which only a panic or an endless run counts
    op = [e for e in spec.get("panics", []) if e not in entries]
    entries += op
    budget = spec.get("time", {}).get(tier, 240 if tier == "quick" else 3000)
    out = os.path.join(build, "out-%s.json" % pid)
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(ROOT, "engine/target/release/symex"), "--ll", build + "/a.ll", "--entry", ",".join(entries),
           "--replay", build + "/replay", "--workers", str(os.cpu_count() or 4), "--time", str(budget),
           "--z3-timeout", "10000" if tier == "quick" else "60000", "--stop-on", "400", "--out", out]
    if op:
        cmd += ["--only-panics", ",".join(op)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        die("engine failed\n" + (r.stdout + r.stderr)[-3000:])
    d = json.load(open(out))

    kn = known(pid)
    viols, listed, unconfirmed, mism, vacuous, incomplete, errs = [], [], [], [], [], [], {}
    tot = dict(paths=0, ok=0, steps=0, forks=0, sym=0, q=0, sat=0, unsat=0, unk=0, solver=0.0, replayed=0, certified=0, conc=0)
    per, samples, funcs, nfun = {}, [], set(), 0
    for e in entries:
        x = d["entries"][e]
        p = x["paths"]
        tot["paths"] += sum(p.values())
        tot["ok"] += p.get("ok", 0)
        for a, b in [("steps", "steps"), ("forks", "forks"), ("sym", "symbolic_branches"), ("q", "queries"), ("sat", "sat"), ("unsat", "unsat"),
                     ("unk", "unknown"), ("solver", "solver_s"), ("replayed", "replayed"), ("certified", "certified_infeasible"), ("conc", "concretizations")]:
            tot[a] += x[b]
        nfun = max(nfun, x["functions"])
        funcs.update(x["vcard4_functions"])
        for v in x["violations"]:
            k = kn.get((e, v["key"]))
            ex = [c for c in v["examples"] if c["confirmed"]]
            if not ex:
                unconfirmed.append((e, v))
            elif k is not None:
                listed.append((e, v, k))
            else:
                viols.append((e, v, ex))
        if x["mismatches"]:
            mism.append((e, x["mismatch_examples"][:2]))
        for k, n in x["engine_errors"].items():
            errs[e + ": " + k[:200]] = n
        if not x["complete"]:
            incomplete.append(e)
        elif not x["violations"] and not x["engine_errors"] and p.get("unknown", 0) == 0:
            for rid in [] if e in op and x["reach"] else spec.get("reach", {}).get(e, [1]):
                if not x["reach"].get(str(rid)):
                    vacuous.append("%s:%d" % (e, rid))
        samples += x["samples"][:2]
        per[e] = dict(complete=x["complete"], paths=p, labels=len(x["labels"]), symbolic_bytes_max=x["symbolic_bytes_max"], queries=x["queries"],
                      unknown=x["unknown"], solver_s=x["solver_s"], solver_max_s=x["solver_max_s"], wall_s=x["wall_s"], max_path_instructions=x["max_path_steps"],
                      engine_errors=x["engine_errors"])

    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    lines = []
    for n, (e, v, ex) in enumerate(viols):
        path = os.path.join(rep_dir, "%s-%d.json" % (pid, n))
        json.dump(dict(property=pid, entry=e, kind=v["kind"], label=v["label"], paths=v["count"], examples=ex,
                       replay=["%sbash tools/replay.sh '%s;%s;%s'" % ("VERIF_FEATURES=%s " % spec["features"] if spec.get("features") else "", e, ",".join(map(str, c["choices"])), c["bytes"]) for c in ex]), open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("%s: %s on template [%s], %d path(s); e.g. %s" % (e, v["kind"], v["label"], v["count"], json.dumps([o[1][:300] for o in ex[0]["obs"] if o[0] != 1])))
    exhaustive = not incomplete and not errs and tot["unk"] == 0
    cov = dict(
        states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=tot["replayed"], samples=samples[:10],
        exhaustive=exhaustive, explanation=spec["bounds"], instructions_executed_symbolically=tot["steps"], symbolic_branches=tot["sym"],
        queries=tot["q"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unk"], solver_s=round(tot["solver"], 2),
        branches_decided_by_cached_certificates=tot["certified"], concretizations=tot["conc"], functions_encoded=nfun,
        vcard4_functions_encoded=sorted(funcs), ir_functions=d["ir_functions"], ir_instructions=d["ir_instructions"],
        entries=per, incomplete_entries=incomplete, engine_errors=errs, build_s=round(t_build, 1),
        known_findings=[dict(entry=e, key=v["key"], what=k) for e, v, k in listed])
    json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                   assumptions=COMMON_ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viols)), open(ev_path, "w"), indent=1)
    for e, v, k in listed:
        print("KNOWN-FINDING: property=%s %s [%s %s]" % (pid, k, e, v["key"]))
    print("%s %s: %d entries, %d paths, %d queries (%.1f s solver), %d replays, %s, %.0f s" % (
        pid, tier, len(entries), tot["paths"], tot["q"], tot["solver"], tot["replayed"],
        "complete within bounds" if exhaustive else "INCOMPLETE: %s %s unknown=%d" % (incomplete, list(errs.items())[:3], tot["unk"]), time.time() - t0))
    if viols:
        for line in lines:
            print(line)
        sys.exit(1)
    if unconfirmed:
        die("counterexample does not reproduce natively: %s" % [(e, v["key"], v["examples"][0]["native"]) for e, v in unconfirmed][:3])
    if mism:
        die("engine and native run disagree: %s" % mism[:3])
    if vacuous:
        die("vacuous: reachability witnesses missed: %s" % vacuous)


main()
