"""Regenerate MANIFEST.json: /opt/venv/bin/python -m mc.manifest"""
import json
import os

from mc.registry import REG

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SENT = "explicit-state model (pushdown automaton over words + scanner automaton) of the language; bounded-exhaustive traces replayed on the real parser"
TECH = {
    "C01": SENT,
    "C02": "scanner automaton model, all states x all character classes, all code points; replayed on the real lexer",
    "C03": "exhaustive bounded exploration of texts and edits on the real parser, outcome monitored",
    "C04": SENT + ", trees compared with the reference tree",
    "C05": SENT + ", expression trees compared with the reference tree",
    "C06": SENT + ", every condition and scope compared with the reference tree",
    "C07": "exhaustive exploration of escape words (all code points, all pairs) against a reference decoder",
    "C08": "exhaustive exploration of flag words against the reference flag rules",
    "C09": "exhaustive exploration of repetition forms and bounds against the reference rules",
    "C10": "exhaustive exploration of parser configurations x queries against the reference tree",
    "C11": "exhaustive exploration of normalization forms x characters x pairs against the reference tree",
    "C12": "exhaustive exploration of gaps x whitespace x layouts, pairwise equality of outcomes",
    "C13": SENT + ", every node's range compared with the reference range; layouts, line breaks and astral characters enumerated",
    "C14": SENT + ", every located fragment cut out, parsed again and compared",
    "C15": "exhaustive exploration of node access and construction calls over all small trees against a reference",
    "C16": "exhaustive exploration of visitor kinds x handlers on all small trees, every visit sequence compared with a reference walk",
    "C17": "exhaustive pairwise comparison of printed forms over all trees of a bounded query space: equal print if and only if equal reference tree",
    "C18": SENT + ", error positions compared with the first non-viable word of the automaton",
    "C19": "exhaustive exploration of call histories up to a depth on the real parser, each step compared with a fresh process",
    "C20": "stateless schedule exploration of the real code under a controlled scheduler with a preemption bound",
    "C21": "exhaustive exploration of queries x settings against reference validator",
    "C22": "exhaustive exploration of layers x qualifiers x positions x settings against a reference validator",
    "C23": "exhaustive exploration of patterns x flags x layers against a reference rule",
    "C24": "exhaustive exploration of issue vectors x positions x modes, collecting and raising compared with a reference",
    "C25": "exhaustive exploration of validation histories up to a depth and of every node's offered parent",
    "C26": SENT + ", low-level trees and walks monitored",
    "C27": "product automaton equivalence of shipped grammar, packaged automaton and model; bounded sentence equivalence",
    "C28": "exhaustive exploration of histories of inspecting and mutating operations on parsed trees",
    "C29": "exhaustive bounded query space run with logging off and on, outcomes compared, every log record rendered",
    "C30": "exhaustive exploration of predicate calls over all node kinds against a reference",
}
NOTE = (
    "Holds for every item of the stated bounded spaces on the real code (listed per space in the evidence file); "
    "trusts the reference model in mc/model.py, which is bound to the code by replaying every enumerated trace."
)
EXTRA = {
    "C20": "Every schedule with the stated number of preemptions at the stated points of the package's own code is run; "
    "preemptions inside the ANTLR runtime or C code are not controlled. Outcomes are compared with the sequential ones.",
    "C27": "Lexer equivalence is decided without a length bound by product construction; sentence equivalence is bounded. "
    "Trusts the small reader for the grammar notation used in the shipped files.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in REG:
            na.append({"property": i, "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": i,
                "quick_cmd": f"{PY} -m mc.run {i} --tier quick",
                "thorough_cmd": f"{PY} -m mc.run {i} --tier thorough",
                "technique": "model checking: " + TECH[i],
                "level": REG[i][2],
                "level_note": EXTRA.get(i, NOTE),
            }
        )
    m = {
        "version": 1,
        "setup_cmd": f"{PY} -m mc.setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "Known findings and fixed defects: known_findings.txt. No hooks are needed in /repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
