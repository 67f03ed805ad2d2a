"""writes MANIFEST.json (run by hand after changing properties)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": "Exhaustive model checking of the design on small instances, and conformance of the real code: every "
               "recorded event of generated sessions is checked against the specification's clauses for this property. "
               "Nothing is claimed for inputs that were not generated.",
    "C15": "True optima and best selections are enumerated by TLC for instances of up to 5 customers; larger ones only "
           "bound the value by the starting solutions.",
    "C16": "Reduced costs of all feasible routes are enumerated by TLC for instances of up to 5 customers at the point "
           "where the real column generation stops.",
    "C21": "The clock is replaced by one that advances by a second at each reading, so that the limit is made to pass at "
           "each chosen reading of the clock.",
    "C22": "Every candidate route of every generated session is checked, through guarded hooks in the master problem.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append(dict(
        property=p, quick_cmd="./check " + p, thorough_cmd="./check " + p, evidence_file="evidence/%s.json" % p,
        technique="TLA+ specification: TLC on the design model, sessions generated from the specification replayed "
                  "into the real code, recorded traces validated by TLC",
        level="model_checking", level_note=NOTE.get(p, NOTE["default"]) if p == "default" or p not in NOTE
        else NOTE["default"] + " " + NOTE[p]))
m = dict(version=1, setup_cmd="./setup", hooks=dict(
    guard="VRPY_TRACE", enable="the checks set VRPY_TRACE=1 in the environment of the processes that import /repo",
    source_commits=["8c1117e"]), checks=checks, not_applicable=[],
    notes="Known findings and repaired defects: known_findings.txt. Design: DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
