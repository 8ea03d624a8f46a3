"""Write MANIFEST.json from the rule modules that exist."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOT_APPLICABLE = {
    "C40": "a numeric statement about repr/float rounding over all doubles: which double a "
           "decimal string denotes is decided inside the C runtime, not in this source, and "
           "no sound static argument in reach bounds it (C16 and C15 decide that the encode "
           "and decode expressions are the mirrored ones)",
    "C41": "quantifies over real time and scheduler latency; nothing in the source bounds "
           "when the I/O loop runs a callback (C07 and C11 decide which delays are asked for)",
    "C42": "quantifies over heap growth across unbounded histories; the structural part "
           "(every registration has a removal on every exit) is decided by C07, C09, C10, C30",
}
PATHS = "path-sensitive dataflow over the syntax tree with value numbering"
SCENARIOS = ("abstract interpretation of the paths that scenarios over finite domains take, "
             "compared with a reference result")
STATES = ("abstract interpretation of objects: enumeration of reachable abstract states or of "
          "bounded histories, compared with a reference model")


def technique(i, m):
    """The deciding methods, by what the rule module uses."""
    if hasattr(m, "TECHNIQUE"):
        return m.TECHNIQUE
    with open(m.__file__) as f:
        src = f.read()
    found = [PATHS] if "ctx.paths(" in src else []
    if "walk(ctx" in src or "unroll" in src:
        found.append(SCENARIOS)
    if re.search(r"World\(|Machine\(|waits\.PARTS|(clients|strategies)\.\w*(follow|reports|histories|requests|matches|ids|"
                 r"completions)", src):
        found.append(STATES)
    return "; ".join(found or [PATHS])


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(HERE, "katcheck", "rules", i.lower() + ".py")
        if i in NOT_APPLICABLE:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
        elif os.path.exists(f):
            m = importlib.import_module("katcheck.rules." + i.lower())
            checks.append({
                "property": i,
                "quick_cmd": "python3-vt check.py %s" % i,
                "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                "technique": "static analysis: " + technique(i, m),
                "level": "other",
                "level_note": " ".join((m.__doc__ or "").split())[:900],
            })
        else:
            na.append({"property": i, "reason": "no check built yet in this framework"})
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Every check parses /repo/katcp afresh and never imports or runs it. "
                    "Known and fixed defects: known_findings.txt. Design: DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
