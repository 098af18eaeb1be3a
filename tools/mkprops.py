#!/usr/bin/env python3
"""Render properties.jsonl and MANIFEST.json from the META blocks of checks/*.py and tools/na.py."""
import glob
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "lib"))


def load(p):
    spec = importlib.util.spec_from_file_location("m_" + os.path.basename(p)[:-3], p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.dirname(p))
    spec.loader.exec_module(m)
    return m


def mech(s):
    out = []
    for x in s:
        n, _, w = x.partition(" @ ")
        out.append({"name": n, "where": w})
    return out


def prop(i, m):
    assert len(m["title"]) <= 80, (i, len(m["title"]))
    return {"id": i, "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m.get("over", ["inputs"]), "text": m["forall"]},
            "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": mech(m["mechanism"])}}


def main():
    props, checks, na = [], [], []
    for p in sorted(glob.glob(os.path.join(ROOT, "checks", "[A-Z][0-9]*.py"))):
        i = os.path.basename(p)[:-3]
        mod = load(p)
        m = mod.META
        props.append(prop(i, m))
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                       "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": m["technique"], "level": getattr(mod, "LEVEL", "proof"), "level_note": m["note"]})
    for i, m in load(os.path.join(HERE, "na.py")).NA.items():
        props.append(prop(i, m))
        na.append({"property": i, "reason": m["reason"]})
    props.sort(key=lambda x: x["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in props:
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "make -s -C tools", "checks": checks, "not_applicable": na,
           "notes": "every check is `python3 run.py <id>`; it translates /repo's current tree with clang 18 and analyses the result "
                    "without running it. No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in props:
        jsonschema.validate(x, sch)
    ids = [x["id"] for x in props]
    assert len(set(ids)) == len(ids)
    print(len(props), "properties,", len(checks), "claimed,", len(na), "not applicable")


main()


def design():
    out = [open(os.path.join(HERE, "design_head.md")).read(), "## 5. Properties\n\n"]
    for p in sorted(glob.glob(os.path.join(ROOT, "checks", "[A-Z][0-9]*.py"))):
        i = os.path.basename(p)[:-3]
        m = load(p).META
        ev = os.path.join(ROOT, "evidence", i + ".json")
        out.append(f"### {i} {m['title']}\n\n{m['statement']}\n\n* Decided by: {m['technique']}.\n* Anchored in: "
                   + "; ".join(m["mechanism"]) + f".\n* Range: {m['forall']}.\n* Beyond tests: {m['why']}.\n* Assumptions: {m['note']}\n"
                   + (f"* {m['how']}\n" if "how" in m else "") + "\n")
    tail = open(os.path.join(HERE, "design_tail.md")).read()
    na = load(os.path.join(HERE, "na.py"))
    tail = tail.replace("@NA@", "\n".join(f"* **{i} {m['title']}.** {m['reason']}" for i, m in na.NA.items()) or "None.")
    tail = tail.replace("@FIXED@\n", "".join(f"* {x}\n" for x in getattr(na, "FIXED", []))).replace(
        "@NOTED@\n", "".join(f"* {x}\n" for x in getattr(na, "NOTED", [])))
    rows = []
    for p in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(p))
        n = os.path.basename(os.path.dirname(p))
        rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {na.MISSED.get(n, 'caught') if hasattr(na, 'MISSED') else 'caught'} |")
    tail = tail.replace("@SEEDS@", "| bug | property | what it breaks | needs | result |\n|---|---|---|---|---|\n" + "\n".join(rows))
    out.append(tail)
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))


design()
