#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's crate by symbolic execution of its compiled
code (see DESIGN.md).  Exit 0: holds within the stated bounds; 1: violated (a
VIOLATION line names the replay file); 2: no answer."""
import glob, json, os, shutil, subprocess, sys, time
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vlib"))
import build, props, findings

T0 = time.time()


def wsym(harness, out, secs, seed, jobs=None, maxv=100):
    cmd = [build.WSYM, "run", "--wasm", build.WASM, "--harness", harness, "--out", out, "--time", str(secs),
           "--warm", "100", "--warm-secs", "8", "--seed", str(seed), "--workers", "8", "--max-viol", str(maxv)]
    if jobs:
        cmd += ["--jobs", jobs]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 120)
    return p.returncode, p.stdout


def collect(out):
    m = json.load(open(f"{out}/main.json"))
    jobs = defaultdict(lambda: dict(paths=0, covers=set(), cost=0.0, viol=0, part=False))
    tot = defaultdict(float)
    viols, samples, funcs, inc, soft = [], [], set(), set(), set()
    rs = glob.glob(f"{out}/r*.json")
    if len(rs) != m["results"]:
        inc.add("a worker process wrote no result")
    for f in rs:
        r = json.load(open(f))
        for k in ("paths", "infeasible", "steps", "forks", "symops", "claims", "refuted", "merges", "nviol",
                  "inloop_sat", "inloop_unsat", "queries", "z3_time", "z3_unknown", "wall"):
            tot[k] += r[k]
        j = jobs[r["job"]]
        j["paths"] += r["paths"]
        j["cost"] += r["wall"]
        j["viol"] += r["nviol"]
        j["covers"] |= set(r["covers"])
        for v in r["violations"]:
            v["job"] = r["job"]
            viols.append(v)
        samples += [(r["job"], a, b) for a, b in r["samples"]]
        funcs |= {m["names"][i] for i in r["funcs"]}
        if r["incomplete"]:
            j["part"] = True
            (soft if r["incomplete"].startswith("time budget") else inc).add(f"job {r['job']}: {r['incomplete']}")
        if r["refuted"]:
            inc.add(f"job {r['job']}: z3 did not confirm {r['refuted']} pruning decisions")
        if r["z3_unknown"]:
            inc.add(f"job {r['job']}: z3 answered unknown")
    if len(jobs) != m["jobs"]:
        inc.add(f"{m['jobs'] - len(jobs)} jobs were not explored")
    if m["failed"]:
        inc.add(f"worker failures {m['failed'][:5]}")
    return m, jobs, tot, viols, samples, funcs, inc, soft


def replay(harness, job, model, rel=False, timeout=20):
    """runs the real code, compiled natively, on the values of a model"""
    b = build.REPLAY_REL if rel else build.REPLAY
    try:
        p = subprocess.run([b, harness, str(job), model], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "violation", "does not terminate within %d s" % timeout, ""
    o = p.stdout.decode("utf8", "replace")
    if p.returncode == 0 and "REPLAY-OK" in o:
        return "ok", "", o
    if p.returncode == 10:
        return "violation", [l for l in o.splitlines() if l.startswith("REPLAY-VIOLATION")][0][17:], o
    if p.returncode in (3, 4, 5):
        return "bad", o[-300:], o
    e = p.stderr.decode("utf8", "replace")
    return "violation", f"crashed (status {p.returncode}): {e.strip()[-400:]}", o


def validate(harness, samples, cap):
    """the executor, run concretely, and the native code must agree on what they observe"""
    if len(samples) > cap:
        step = len(samples) / cap
        samples = [samples[int(i * step)] for i in range(cap)]
    inp = f"{build.B}/out/val.txt"
    open(inp, "w").write("".join(f"{j} {m}\n" for j, m, _ in samples))
    p = subprocess.run([build.WSYM, "concrete", "--wasm", build.WASM, "--harness", harness, "--inputs", inp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    parts = p.stdout.decode("utf8", "replace").split("== ")[1:]
    if len(parts) != len(samples):
        return 0, [f"concrete runs ended early: {p.stdout[-300:]}"]
    bad, seen = [], []

    def one(x):
        (j, m, note), part = x
        k, why, o = replay(harness, j, m)
        a = [l for l in o.splitlines() if l.startswith("DIGEST")]
        b = [l for l in part.splitlines() if l.startswith("DIGEST")]
        seen.extend(a)
        if k != "ok" or "-- done" not in part or a != b:
            return f"job {j} model {m}: native {k} {why} {a}, executor {b} {part.strip().splitlines()[-1]}"

    with ThreadPoolExecutor(8) as ex:
        bad = [r for r in ex.map(one, zip(samples, parts)) if r]
    if samples and not seen:
        bad.append("no sampled path observes anything")
    return len(samples), bad


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    try:
        build.build_all()
    except build.BuildError as e:
        print(e)
        return 2
    harnesses = list(P["quick"])
    if tier == "thorough":
        harnesses += P.get("thorough", [])
    budget = (640 if tier == "quick" else 6 * 3600)
    known = findings.load(pid)
    tot, allf, inc, soft, cand = defaultdict(float), set(), [], [], []
    per, samples_out, validated, valbad = {}, [], 0, []
    z3v = None
    for h in harnesses:
        left = budget - (time.time() - T0)
        if left < 10:
            soft.append(f"{h}: no time left")
            continue
        out = f"{build.B}/out/{pid}/{h}"
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        rc, txt = wsym(h, out, int(left), seed)
        if not os.path.exists(f"{out}/main.json"):
            print(f"executor failed ({rc}): {txt[-800:]}")
            return 2
        m, jobs, t, viols, samples, funcs, i, so = collect(out)
        z3v = m["z3"]
        for k, v in t.items():
            tot[k] += v
        allf |= funcs
        inc += [f"{h}: {x}" for x in sorted(i)]
        soft += [f"{h}: {x}" for x in sorted(so)]
        for j, d in sorted(jobs.items()):
            if "1" not in d["covers"] and not d["viol"] and not d["part"]:
                inc.append(f"{h}: job {j}: no path reaches the assertion")
        cand += [(h, v) for v in viols]
        per[h] = dict(jobs=len(jobs), paths=int(t["paths"]), forks=int(t["forks"]), instructions=int(t["steps"]),
                      pruned_by_assumption=int(t["infeasible"]), core_s=round(t["wall"], 1), wall_s=m["wall"],
                      paths_per_job={str(j): d["paths"] for j, d in sorted(jobs.items())})
        print(f"{h}: {len(jobs)} jobs, {int(t['paths'])} paths, {int(t['forks'])} forks, {int(t['queries'])} z3 queries "
              f"({t['z3_time']:.1f} s), {int(t['nviol'])} violating paths, {m['wall']:.1f} s wall", flush=True)
        if samples:
            step = max(1, len(samples) // 4)
            samples_out += [dict(harness=h, job=j, input=n) for j, _, n in samples[::step][:4]]
        if not viols:
            n, bad = validate(h, sorted(set(samples)), 160 if tier == "quick" else 1000)
            validated += n
            valbad += [f"{h}: {b}" for b in bad]
        shutil.rmtree(out)

    # every candidate is replayed on the real code
    reported, ghosts, knownhit, seen = [], [], set(), set()
    rel_built = False
    for h, v in cand:
        key = (h, v["job"], v["msg"])
        if key in seen and len(reported) >= 1:
            continue
        seen.add(key)
        k, why, o = replay(h, v["job"], v["model"])
        prof = "debug"
        if k != "violation":
            if not rel_built:
                build.build_native(release=True)
                rel_built = True
            k, why, o = replay(h, v["job"], v["model"], rel=True)
            prof = "release"
        if k != "violation":
            ghosts.append(f"{h} job {v['job']} model {v['model']}: {v['msg'][:200]} [{v['stack'][:300]}]; natively: {k} {why}")
            continue
        f = findings.match(known, h, v, why)
        if f is not None:
            knownhit.add(f["id"])
            continue
        reported.append(dict(property=pid, harness=h, job=v["job"], model=v["model"], input=v["note"], message=v["msg"],
                             native=why, profile=prof, stack=v["stack"],
                             reproduce=f"python3 /verif/vlib/build.py && {build.REPLAY} {h} {v['job']} {v['model']}"))
        if len(reported) >= 12:
            break
    for f in known:
        k, why, o = replay(f["harness"], f["job"], f["model"])
        if k == "violation" and findings.match([f], f["harness"], dict(job=f["job"], model=f["model"], msg=why, note=f.get("input", "")), why):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        elif k == "violation":
            reported.append(dict(property=pid, harness=f["harness"], job=f["job"], model=f["model"], input=f.get("input", ""), message=why, native=why, profile="debug"))
    wall = time.time() - T0
    ev = dict(
        property=pid, tier=tier, seed=seed, level=P["level"], wall_s=round(wall, 1), violations=len(reported),
        coverage=dict(
            states=int(tot["paths"]), transitions=int(tot["forks"]), traces_validated_against_impl=validated,
            samples=samples_out[:12], exhaustive=not (inc or soft),
            explanation="states: feasible path classes explored to their end; transitions: forks on symbolic conditions; "
                        "each path class stands for all values of the symbolic bytes that satisfy its path condition",
            bounds=P["bounds"], harnesses=per,
            functions_encoded=len(allf),
            functions_encoded_in_crate=sorted(f for f in allf if "asciidoc_parser" in f),
            wasm_instructions=int(tot["steps"]), symbolic_operations=int(tot["symops"]),
            solver=z3v, solver_queries=int(tot["queries"]), solver_seconds=round(tot["z3_time"], 2),
            in_loop_queries=dict(sat=int(tot["inloop_sat"]), unsat=int(tot["inloop_unsat"])),
            pruning_claims_proved_by_solver=int(tot["claims"]), expression_identities_proved_by_solver=int(tot["merges"]),
            claims_refuted=int(tot["refuted"]), solver_unknown=int(tot["z3_unknown"]),
            incomplete=inc[:20], not_exhausted=soft[:20], known_findings=sorted(knownhit)),
        assumptions=props.ASSUMPTIONS + P.get("assumptions", []))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1, ensure_ascii=False)
    if reported:
        os.makedirs(f"{V}/evidence/replay", exist_ok=True)
        for n, r in enumerate(reported):
            path = f"{V}/evidence/replay/{pid}-{n}.json"
            json.dump(r, open(path, "w"), indent=1, ensure_ascii=False)
            print(f"  {r['message'][:200]!r} on {r['input'][:300]!r}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for x in ghosts[:5]:
        print("NOT REPRODUCED:", x)
    for x in valbad[:5]:
        print("EXECUTOR AND NATIVE CODE DISAGREE:", x)
    for x in inc[:10]:
        print("INCOMPLETE:", x)
    for x in soft[:10]:
        print("NOT EXHAUSTED (time):", x)
    if ghosts or valbad or inc:
        return 2
    print(f"{pid} holds {'on everything explored before the time ran out' if soft else 'within its bounds'}: {int(tot['paths'])} path classes, {int(tot['queries'])} solver queries, "
          f"{validated} traces validated, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
