"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import api
try:
    import cli
    CLI = cli.PLANS
except ImportError:
    CLI = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in api.PLANS:
        tech = ("TLA+ specification of the library, model-checked with TLC at toy sizes; TLC-generated behaviours replayed into the real "
                "library and every recorded call checked against the specification by TLC at real sizes")
        note = ("Complete exploration of the toy-size model; on the implementation, bounded: the histories listed in the evidence. "
                "Trusts TLC, the JDK's cryptographic primitives (java/Prim.java) and, outside the real-Argon2id runs, an Argon2id stand-in.")
    elif i in CLI:
        tech = ("TLA+ specification of the command (prompts, files, output, faults), model-checked with TLC; TLC-generated scenarios run on "
                "the real binary in pseudo-terminals and every observed run checked against the specification by TLC")
        note = ("Complete exploration of the bounded models; on the implementation, bounded: the runs listed in the evidence. "
                "Trusts TLC, the JDK's primitives, the pseudo-terminal driver and an Argon2id stand-in.")
    else:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the exported API and the command only. Fixed defects are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
