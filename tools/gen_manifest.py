#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mbv import checks
NOTE = ("Every recorded call of the real code, in the configurations listed in the evidence, is checked by TLC against "
        "spec/CryptoPure.tla, which defines the whole function; %sAssurance is bounded by the sessions run (their rules are "
        "in DESIGN.md). Trusted: TLC, the recorder (harness/), and the Java accelerators for TLA+ operators, which are "
        "compared with their TLA+ definitions at setup.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
LEAK = ("Instruction and address traces come from valgrind (lackey) on the optimised build, block traces on the unoptimised one; a difference seen in the optimised build only counts if the unoptimised one shows it, too; "
        "spec/Leakage.tla relates all recorded calls with the same view. Assurance is bounded by the secrets tried (random, extreme, "
        "and crafted to make intermediate values extreme). Timing of single instructions is not observed.")
out = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
       "notes": "TLA+ with TLC. No hooks: everything is decided through the public interface. Known and fixed defects: known_findings.jsonl."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        mods = checks.CHECKS[i][1]
        mods = [m for m in mods if checks.models.exists(m)]
        out["checks"].append({
            "property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification of what an observer may learn (2-safety); TLC checks instruction and address traces of the real "
                         "code against it; self-composed exhaustive model Noninterference" if i == "C23" else "TLA+ specification; TLC validates recorded traces of the real code" +
                         ("; exhaustive TLC models, behaviours replayed: " + ", ".join(mods) if mods else ""),
            "level": "model_checking",
            "level_note": LEAK if i == "C23" else NOTE % ("the models %s are explored exhaustively and their behaviours replayed. " % ", ".join(mods) if mods else "")})
    else:
        out["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
