#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
TV = "TLA+ specification, TLC trace validation of executions of the real library"
TR = "TLA+ specification model-checked by TLC; every entry of its table replayed through the real library"
GEN = "TLA+ concealment machine model-checked by TLC; its behaviours replayed into the real library and the recorded traces validated by TLC"
C = [
 ("C01", "tables.py C01", TR, "exhaustive over 4096 data words x 2048 error patterns; trusts TLC, the C replay loop and the compilers"),
 ("C02", "tables.py C02", TR, "exhaustive over 2^15 words of both arrangements; trusts TLC and the C replay loop"),
 ("C03", "channel.py", "TLA+ transmitter/receiver specification; frames generated by TLC replayed into the real library, receptions validated by TLC", "seeded sampling of payloads and error patterns; the block codes and the scrambler are exhaustive in C01, C02, C04"),
 ("C04", "tables.py C04", TR, "exhaustive over seeds, contents sampled"),
 ("C05", "tables.py C05", TR, "exhaustive over pitch values and unit vectors"),
]
import importlib.util
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")
if os.path.exists(extra):
    ns = {"TV": TV, "TR": TR, "GEN": GEN}
    exec(open(extra).read(), ns)
    C += ns["C"]
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
have = {c[0] for c in C}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 checks/" + cmd, "thorough_cmd": "VERIF_TIER=thorough python3 checks/" + cmd,
                 "technique": t, "level": "model_checking", "level_note": n} for p, cmd, t, n in sorted(C)],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check still under construction")} for i in ids if i not in have],
     "notes": "TLA+ (TLC). Run from /verif. VERIF_SEED selects the inputs. See DESIGN.md."}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
