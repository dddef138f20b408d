"""known-findings.txt: one finding per line.

  fixed: property=<id> <commit> <what failed>          (suppresses nothing)
  known: {"property":…, "id":…, "harness":…, "job":…, "model":…, "input":…, "msg":…, "what":…}

A `known:` entry matches a violation only when its message equals `msg` and its
input equals `input` (or matches `input_re` completely)."""
import json, os, re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")


def load(pid):
    r = []
    if os.path.exists(FILE):
        for l in open(FILE):
            if l.startswith("known: "):
                d = json.loads(l[7:])
                if d["property"] == pid:
                    r.append(d)
    return r


def match(known, harness, v, why):
    for f in known:
        if f["harness"] != harness:
            continue
        if f.get("msg") and not (v["msg"].startswith(f["msg"]) or why.startswith(f["msg"])):
            continue
        if f.get("input_re"):
            if not re.fullmatch(f["input_re"], v["note"], re.S):
                continue
        elif v["note"] != f["input"]:
            continue
        return f
    return None
