"""Source of /verif/MANIFEST.json (python3 tools/mkmanifest.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q1 = "TLA+ Q1 machine + schedule semantics; TLC checks the compiled programs of generated schedules (trace validation)"
REP = "TLA+ model; TLC-generated behaviours replayed on the real objects"
NOTE = ("Bounded: seeded generated inputs, judged by TLC over every step of every compiled program. Trusts the machine "
        "semantics in spec/Q1.tla, the independent waveform formulas in harness/shapes.py and the generator's own bookkeeping.")
LEVEL = {}
TECH = {
    "P01": ("TLA+ timing model checked exhaustively by TLC on small schedules; resolved times of the real compiler validated by TLC",
            "Exhaustive for the abstract solver on small instances and all two-operation schedules; random nested schedules beyond."),
}
NA = {
    "P23": "the Zurich Instruments backend cannot be imported here: it refuses Python above 3.9 and needs zhinst-toolkit and zhinst-qcodes, "
           "which are not installed, so no specification can be bound to the code (its tests are skipped in the baseline too); see DESIGN.md",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    mod = os.path.join(HERE, "harness", "checks", p.lower() + ".py")
    if os.path.exists(mod):
        src = open(mod).read()
        import re
        t = re.search(r'^TECHNIQUE = \(?\s*((?:"[^"\n]*"\s*)+)', src, re.M)
        n = re.search(r'^NOTE = \(?\s*((?:"[^"\n]*"\s*)+)', src, re.M)
        g = lambda m: "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else None
        tech, note = TECH.get(p, (g(t) or Q1, g(n) or NOTE))
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "technique": tech, "level": LEVEL.get(p, "model_checking"), "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet; see DESIGN.md")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specification in spec/ (TLA+, TLC); generators and drivers in harness/. Every check imports /repo's working tree."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
