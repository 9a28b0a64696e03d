#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VF = "value-flow normal forms against a declarative reference"
CLAIMED = {
    "F03": VF, "F04": VF, "S01": VF, "R06": VF, "T01": VF, "T02": VF, "G01": VF, "I01": VF, "L01": VF, "L02": VF,
    "D01": VF, "F02": VF, "Q01": VF, "Q02": VF, "V01": VF, "V02": VF, "A01": VF, "R04": VF, "F01": VF, "R01": VF,
    "R02": VF, "R03": VF, "R05": VF, "W01": VF,
    "Q03": "interprocedural side-effect analysis of every query",
    "C01": "override and signature comparison of the class hierarchy, with value-flow normal forms of overrides",
    "W02": "wiring consistency of the registered callbacks, components and exchanged payloads in the value-flow model",
}
NA = {
    "N01": "the balance is a numeric fact of each routed path over unbounded topologies with rounded intermediate values; "
           "no static argument in reach bounds the rounding or the path sets (T01 decides the splitting formulas instead)",
    "N02": "the running time depends on the number of equal-cost paths networkx enumerates; no static bound exists",
    "N03": "a statement about a probability distribution of random.choice results, not about a construct of the source",
}
PENDING = "no check of sufficient precision is registered yet"


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    na = []
    for i in ids:
        if i in CLAIMED:
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s --tier quick" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "technique": CLAIMED[i],
                "level": "other",
                "level_note": "decided from the source for all inputs, modulo the library contracts in ntm/contracts.py; "
                              "constructs the analysis cannot normalise are listed as not decided in the evidence",
            })
        else:
            na.append({"property": i, "reason": NA.get(i, PENDING)})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
