#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
TECH = {
 "W01": "explicit-state model checking: every write history up to the depth bound on every sink against a byte-buffer model",
 "W02": "exhaustive allocation-fault injection over all write histories up to the depth bound",
 "W03": "explicit-state model checking: every SliceWriter operation history up to the depth bound against a cursor model",
 "S01": "exhaustive fault injection: every write call and every byte budget of every catalogued serialization refused in turn",
 "S02": "explicit-state model checking: every history of serializations, refusals and direct writes up to the depth bound against concatenation",
 "S03": "exhaustive fault injection: a custom error raised at and after every node of every catalogued value and document",
 "X02": "bounded exhaustive enumeration of writer/reader type pairs and values on the real code against a direct projection",
 "X03": "bounded exhaustive enumeration of values and documents, all public entry points compared on each",
 "J15": "explicit-state model checking: every cursor operation history up to the depth bound against a reference cursor",
 "M12": "explicit-state model checking: every cursor operation history up to the depth bound against a reference cursor",
 "M08": "explicit-state model checking: all message streams and operation histories up to the bound against a reference decoder",
 "J16": "explicit-state model checking: every sequence of typed decodes up to the bound from one deserializer against a reference decoder",
 "X04": "bounded exhaustive enumeration on the real code with every allocator request counted",
 "X07": "bounded exhaustive enumeration executed on a 32-bit target (wasm32) and on the 64-bit host, outcomes compared state by state",
 "X01": "bounded exhaustive enumeration executed in all build configurations, outcomes compared state by state",
}
NOTE = "Every execution of the listed bounded spaces runs on the real code and is compared with an independent reference model; nothing is sampled. Trusts the reference model and the stated bounds."
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
        technique=TECH.get(i, "bounded model checking by exhaustive enumeration of inputs/programs on the real code against a reference model"),
        level="fault_enumeration" if i in ("S01", "S03", "W02") else "model_checking", level_note=NOTE))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the harness uses only public interfaces. Checks build the harness crate in /verif/harness against /repo's working tree into /verif/target (git-ignored)."), open(H + "/MANIFEST.json", "w"), indent=1)
