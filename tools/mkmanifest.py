"""Writes MANIFEST.json from properties.jsonl and the checks there are (run by hand)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import CHECKS  # noqa: E402

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
NOTES = {
    "C01": "Every answered and every missing word of generated problems is judged by TLC from the query text (spec/Language.tla); sampled problems, and expressions enumerated by TLC with all their matches (spec/GenLanguage.tla); exact oracle. Thorough: spec/MCScan.tla.",
    "C02": "As C01, with frontiers of positions graded by edits; sampled and enumerated, exact oracle.",
    "C03": "Two-sided: definite matches must come, others only within the relaxations; sampled inputs.",
    "C04": "TLC enumerates all matching phrases of each problem with the machines of spec/Automaton.tla and compares as sets; sampled problems and enumerated expressions; spec/MCSearch.tla model checks the search itself.",
    "C05": "As C04 with several expressions, sampled and enumerated. Thorough: spec/MCScan.tla (two chained readers).",
    "C06": "Order view of spec/Evaluator.tla over long recorded streams; which results come is not judged here; spec/MCSearch.tla model checks the order of the search.",
    "C07": "Limited evaluations against the recorded unlimited one of the same problem.",
    "C08": "Interrupted evaluations against the recorded uninterrupted one; promptness by counting timeouts, not by time.",
    "C09": "Grammar, macros, pragmas and error lines are specified (Grammar.tla, Script.tla) and every recorded reading, Display included, is compared; sampled texts.",
    "C10": "All characters assigned in Unicode 13 one by one, and sampled texts, against spec/CharTable.tla.",
    "C11": "Loader.tla decides from the bytes of sampled and boundary-sized files, plain, compressed and damaged.",
    "C12": "Sampled sequences of operations on real bit sets through a cfg hook, every state compared with spec/BitSets.tla.",
    "C13": "Recorded histories of real clients of a running server, against spec/Web.tla, which spec/MCWeb.tla model checks; sampled histories.",
    "C14": "Sampled command lines of the built tool , judged from the file and the query alone by spec/CliTrace.tla.",
    "C15": "Ordinary, extreme and garbage texts and lists; each recorded life must be one the specification allows; sampled inputs.",
    "C16": "Progress asked for at every point of recorded evaluations, judged by spec/ProgressTrace.tla.",
}
EXTRA_T = {}
try:
    from notes import NOTES as N2, TECH as EXTRA_T  # noqa: F401
    NOTES.update(N2)
except ImportError:
    pass

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 tools/check.py {p['id']} quick",
        "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
        "technique": EXTRA_T.get(p["id"], T),
        "level": "model_checking",
        "level_note": NOTES[p["id"]],
    } for p in props if p["id"] in CHECKS],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "not claimed yet: its check is under construction")}
                       for p in props if p["id"] not in CHECKS],
}
if os.path.exists(os.path.join(HERE, "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(HERE, "hooks.json")))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
