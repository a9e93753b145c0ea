#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "M": "TLA+ contract of the master (MasterMon) and model (MasterMC) checked with TLC; transition tours of the model replayed on the code; traces recorded from the code validated by TLC against the contract",
    "S": "TLA+ contract of the slave (SlaveMon) and model (SlaveMC) checked with TLC; transition tours of the model replayed on the code; traces recorded from the code validated by TLC against the contract",
    "X": "TLA+ contracts of master, slave and system checked with TLC on models and on traces recorded from the code",
}
EXTRA = {
    "M06": "; liveness (every accepted request concludes) model-checked under fairness (MasterLive)",
    "X01": "; model of both sides and the line between them (SystemMC) and its transition tours replayed on the code",
    "X02": "; model of both sides and the line between them (SystemMC) and its transition tours replayed on the code",
    "M17": "; pairs of runs (after re-initialisation / fresh) compared by TLC (TwinTrace)",
    "S10": "; pairs of runs (after re-initialisation / fresh) compared by TLC (TwinTrace)",
    "X03": "; model of both sides (SystemMC) and its transition tours; pairs of runs (both sides interleaved / one side alone) compared by TLC (TwinTrace)",
    "X04": "; the code's guaranteed detection computed by TLC for the CRC in the specification (CrcMC)",
    "X05": "; runs under the address and undefined behaviour sanitizers, a crash or hang being an event the contract forbids",
}
NOTE = ("The specification is model-checked exhaustively for small constants; the code is bound to it by replaying every transition of those models "
        "and by validating recorded runs of the real library (six build configurations; enumerations of frame contents, quantities, lengths, function codes and ranges; adaptive random schedules) against the contract. "
        "Trusted: TLC, the harness (drivers and callbacks in harness/shim.c), gcc. Calls are treated as atomic.")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: the library is driven through its public interface and driver interface only", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=TECH[p["id"][0]] + EXTRA.get(p["id"], ""),
                      level="model_checking", level_note=NOTE) for p in props],
         not_applicable=[], notes="See DESIGN.md. known_findings.txt lists the defects found and repaired.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
