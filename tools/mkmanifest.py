#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every checks/cNN.py, the rest not (yet) claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE = "model_checking", "fault_enumeration"
TABLE = {
    "C01": (MC, "exhaustive enumeration of instruction x mode x register x value space on the real code against an instruction-set model"),
    "C02": (MC, "exhaustive enumeration of operand shapes on the real code against an instruction-set model"),
    "C03": (MC, "exhaustive enumeration of all 16-bit offsets and indexed forms on the real code against an instruction-set model"),
    "C04": (MC, "exhaustive enumeration of addresses x direct pages, and of SETDP/SECTION histories, against a reference model"),
    "C05": (MC, "exhaustive enumeration of all branch and PCR targets on the real code against an instruction-set model"),
    "C06": (MC, "bounded-exhaustive enumeration of expression trees on the real code against a reference evaluator"),
    "C07": (MC, "exhaustive enumeration of literals of every notation on the real code against a reference model"),
    "C08": (MC, "bounded-exhaustive enumeration of argument lists and preceding sizes against a reference model"),
    "C09": (MC, "bounded-exhaustive enumeration of conditional structures on the real code against a reference model"),
    "C10": (MC, "bounded-exhaustive enumeration of macro bodies, arguments and call histories against a reference model"),
    "C11": (MC, "bounded-exhaustive enumeration of placement directive histories on the real code against a reference model"),
    "C12": (MC, "bounded-exhaustive enumeration of memory images, decoded from all five formats by independent decoders"),
    "C13": (MC, "bounded-exhaustive enumeration of local label histories on the real code against a reference model"),
    "C14": (MC, "bounded-exhaustive enumeration of programs, listing compared line by line with a reference model"),
    "C15": (MC, "bounded-exhaustive enumeration of symbols and macros, each exported and read back by the real code"),
    "C16": (MC, "bounded-exhaustive enumeration of mutually dependent references, against a reference model and by a second assembly"),
    "C17": (MC, "bounded-exhaustive enumeration of error kinds x positions on the real code against a reference model"),
    "C18": (MC, "bounded-exhaustive enumeration of token sequences and option sets on the real code under address, undefined behaviour and memory sanitizers"),
    "C19": (FE, "exhaustive enumeration of single input and output faults (every write position of every output) on the real code"),
    "C20": (MC, "exhaustive enumeration of ways of splitting programs over files, on the real code, against a reference model"),
    "C21": (MC, "exhaustive enumeration of option subsets and orders on the real code, each run compared with the plain one"),
    "C22": (MC, "bounded-exhaustive enumeration of layout variations of programs on the real code against a reference model"),
    "C23": (MC, "bounded-exhaustive enumeration of definition and use histories on the real code against a reference model"),
    "C24": (MC, "bounded-exhaustive enumeration of END forms and positions x --exec x formats against a reference model"),
}
NOTES = {}
import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
try:
    from notes import NOTES
except ImportError:
    pass
GENERIC = ("Everything within the bounds printed in the evidence file is enumerated on the real code, compiled from "
           "/repo's working tree; nothing is sampled.  Trusts the reference model (lib/refasm.py, lib/isa.py, lib/formats.py), "
           "itself compared with the code by every execution.")
checks, na = [], []
for pid in sorted(TABLE):
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        lv, tech = TABLE[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                       "technique": tech, "level": lv, "level_note": NOTES.get(pid, GENERIC)})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: checks compile the working tree's sources with main renamed and drive it through a fork server."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
