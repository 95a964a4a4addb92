#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
TECH = {
    "C01": "explicit-state enumeration of query histories on the real library (small-capacity cache), differential against first-query results",
    "C02": "explicit-state enumeration of cache operation words against a replacement-order-agnostic cache model",
    "C07": "exhaustive enumeration of layer stacks against a transport model",
    "C15": "exhaustive enumeration of C call histories, differential against first-call results",
    "C16": "exhaustive enumeration of construction programs against a composition model",
    "C22": "exhaustive enumeration of build configurations, differential execution",
    "C23": "exhaustive enumeration of export programs and write-fault points, file read back and compared",
    "C24": "exhaustive enumeration of a bounded input grammar on the real program, output compared with the library",
    "C29": "exhaustive enumeration of complete input axes, every step that sticks out bisected on the real code",
    "C30": "exhaustive enumeration of pairs of equivalent queries, differential on the real code",
    "C33": "exhaustive enumeration of deviations from valid calls under address and bounds checking, later queries compared with earlier ones",
    "C34": "exhaustive enumeration of include orders and programs, compiled, linked and run",
    "C36": "exhaustive comparison of all pairs of objects from finite alphabets against equality of the fields they were made from",
    "C35": "exhaustive read-back of a generated table through the rebuilt library, direct calculation replaced by marker functions",
    "C26": "exhaustive enumeration of operation words against a list model",
}
DEFAULT = "exhaustive enumeration of a bounded input and configuration grid on the real code against a reference model"
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=CATIMA_MC_STORAGE"], stdout=subprocess.PIPE).stdout.decode().split()
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "CATIMA_MC_STORAGE", "enable": "-DCATIMA_MC_STORAGE=<n> on the compiler command line (capacity of the result cache)", "source_commits": hook},
    "checks": [{
        "property": k,
        "quick_cmd": "python3 run.py %s --tier quick" % k,
        "thorough_cmd": "python3 run.py %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": TECH.get(k, DEFAULT),
        "level": "model_checking",
        "level_note": "Exhaustive within: " + v["bounds"]["quick"] + ".",
    } for k, v in sorted(CHECKS.items())],
    "not_applicable": [],
    "notes": "Every check builds the library variants it needs from the working tree of /repo. Decisions are deterministic; VERIF_SEED is recorded only.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
