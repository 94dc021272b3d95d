#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
MODEL = "explicit-state exploration of the real decoder against an executable reference model, compared in every state"
tech = {i: MODEL for i in ids}
tech["C22"] = "exhaustive exploration of a bounded set of points, pairs and triples on the real code against a reference model and metric laws"
tech["C24"] = "exhaustive exploration of all call histories up to a depth on the real code, compared with isolated calls"
tech["C25"] = "stateless model checking: controlled scheduler over the instrumented real code, all schedules up to a preemption bound, plus happens-before race monitor over all pairs of calls"
tech["C26"] = "exhaustive exploration of line sequences and configurations on the real program against a model and against isolated runs"
tech["C28"] = "explicit-state exploration of encoded aircraft states through the whole real decoding chain, compared with the state which was encoded"
tech["C27"] = "explicit-state exploration of the real code from all entry points, with panics, crashes and hangs as error states"
TRUST = " Trusted: the reference model's transcription of the standard (Annex 10 / DO-260 / Doc 9871) and the Go toolchain."
note = {}
for i in ids:
    note[i] = ("Exhaustive over the bounds printed in the evidence file: every state is decoded by the real code and compared with the model; "
               "nothing is claimed outside of the bounds." + TRUST)
note["C25"] = ("All schedules of two goroutines within the bounds in the evidence file, on the real code instrumented at statement level in an overlay "
               "(interleavings inside one statement and weak-memory effects are covered by the race monitor only). Trusted: the instrumenter, the race detector.")
note["C24"] = "All histories within the bounds in the evidence file; calls outside of the alphabet and longer histories are not covered."
note["C26"] = "All line sequences within the bounds in the evidence file, on the built program. The content texts are compared with those of the library, which C23 decides."
note["C27"] = "All inputs within the bounds in the evidence file; a call that runs for more than 120 s counts as a hang."
m = {"version": 1, "setup_cmd": "./check.sh setup",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": tech[i], "level": "model_checking", "level_note": note[i]}
                for i in ids if i in set(open(os.path.join(here, "claimed")).read().split())],
     "not_applicable": [], "notes": "No hooks in /repo: instrumentation for C25 is generated from the working tree at check time and injected with go build -overlay."}
for l in open(os.path.join(here, "not_applicable")):
    p, r = l.rstrip("\n").split(" ", 1)
    m["not_applicable"].append({"property": p, "reason": r})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]))
