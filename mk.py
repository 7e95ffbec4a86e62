#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(dict(
            id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)),
            ensure_ascii=False) + "\n")
man = dict(
    version=1, setup_cmd="python3 setup.py",
    checks=[dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % pid,
                 evidence_file="evidence/%s.json" % pid,
                 technique="runtime monitoring: " + p["note"][0].lower() + p["note"][1:].rstrip("."), level="exploration",
                 level_note="Held on the executions of this run (counts and samples in the evidence file), not a proof. Oracle: an independent reference model in /verif/harness; "
                            "the build has debug assertions and overflow checks on; panics, aborts and runaway CPU/memory count as violations. "
                            "Inputs rphtml (the parser dependency) itself mishandles are listed as known findings.")
            for pid, p in PROPS.items()],
    not_applicable=[],
    notes="No hooks in /repo are needed: everything is observed through the public API (and weak references to the nodes it hands out).")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
