#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and checks.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, quick=14, thorough=600, platforms=None, note="", rule="", assumptions=None, na=None, technique=None, shares=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, state=state, quick=quick, thorough=thorough, platforms=platforms or ["epoll"], note=note, rule=rule, assumptions=assumptions or [], na=na, technique=technique, shares=shares))
exec(open(os.path.join(HERE, "tools", "props.py")).read())
COMMON = ["The library's own C and assembly sources run unmodified, compiled from the working tree with AddressSanitizer; system calls, heap, stack mappings and POSIX threads are the simulator's.",
          "User-supplied callbacks and resources behave as their documentation demands; single-threaded use unless the property is about threads."]
def lines():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            for fn in p["files"]:
                assert os.path.exists(os.path.join("/repo", fn)), fn
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na, meta = [], [], {}
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]}); continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier=thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"] or "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences against a reference model",
            "level": "exploration", "level_note": (p["note"] + " " if p["note"] else "") + "Seeded search, not exhaustive: it shows the absence of violations in the runs explored. Trusts the simulated kernel, heap and threads and the reference model in the harness."})
        m = {"quick_s": p["quick"], "thorough_s": p["thorough"], "platforms": p["platforms"], "assumptions": COMMON + p["assumptions"], "rule": p["rule"]}
        if p["shares"]: m["shares"] = p["shares"]
        meta[p["id"]] = m
    json.dump(meta, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "hooks": {"guard": "none", "enable": "not used: the seams are the library's link-time symbols (objcopy --redefine-syms on its object files), so no hook was added to /repo", "source_commits": []},
        "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Replay any violation with: python3 check.py --replay FILE"}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
lines()
