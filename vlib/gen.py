"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every value of the free bytes within the stated templates is covered: the crate's own code, compiled from /repo's working tree to "
        "WebAssembly, is executed symbolically and z3 confirms every pruned branch and every reported model; each model is replayed on the native "
        "build before it is reported. Trusted: rustc's wasm lowering (sampled paths are compared with the native build), the listed std stubs, z3.")
with open(f"{V}/properties.jsonl", "w") as f:
    for pid, p in sorted(props.PROPS.items()) + sorted((n["id"], n) for n in props.NA):
        f.write(json.dumps(dict(
            id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p.get("observe", []), hook_needed=None)), ensure_ascii=False) + "\n")
json.dump(dict(
    version=1, setup_cmd="python3 vlib/build.py",
    checks=[dict(property=pid, quick_cmd=f"python3 check.py {pid} quick", thorough_cmd=f"python3 check.py {pid} thorough",
                 evidence_file=f"evidence/{pid}.json",
                 technique="symbolic execution of the compiled crate (rustc WebAssembly) with z3, bounded input templates",
                 level=p["level"], level_note=NOTE + " Bounds: " + p["bounds"] + "." + (" " + p["note"] if p["note"] else "")) for pid, p in sorted(props.PROPS.items())],
    not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in props.NA],
    notes="No hooks: the checks use the crate's public API only."), open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
