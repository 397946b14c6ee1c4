#!/usr/bin/env python3
"""Rewrites the 'fixed' list of known_findings.json from /repo's fix: commits."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "registers defined by a later EQU": "C16", "source could redefine a symbol from --define": "C23",
    "numeric register in bit operations": "C02",
    "notice when only the increment": "C16",
    "compare the whole value": "C02",  # commit subject -> property
 "PCR operand with target address 0": "C05", "zero offset from W": "C03", "time taken constraining relative": "C18",
 "operands with no integer value": "C02", "TFR & EXG accepted": "C02", "increment or decrement silently": "C02",
 "arithmetic on two strings": "C06", "operators applied to unsuitable": "C06", "modulo by zero": "C06",
 "% and / following": "C06", "adjacent unary and binary": "C06", "relational operators bound": "C06",
 "crash creating symbols file": "C18", "internal .exec symbol": "C15", "out of range value reported after": "C16",
 "non-integer END": "C24", "value of --setdp": "C04", "negative or invalid value in --define": "C23",
 "output was written even though --exec": "C17", "failure to open or write output": "C19",
 "output was written even though data overlapped": "C17", "data beyond 16-bit addresses": "C12",
 "data bytes missing from listing": "C14", "section following one with a forward": "C11",
 "data in section only selected": "C11", "symbol first defined after the first": "C16",
 "EXPORT of an undefined": "C15", "some operators in exported macros": "C15", "special characters in exported": "C15",
 "floating point symbols lost": "C15", "auto increment/decrement lost": "C15", "EXPORT silently ignored": "C15",
 "failure to read INCLUDEBIN": "C19", "unfinished macro left": "C18", "macro definition selected": "C10",
 "local labels skipped": "C13", "recursive macro took": "C18", "enormous counts": "C18",
 "conversion of out of range floating": "C06",
 "values that can't be pasted": "C10", "sections selected by CODE": "C22",
 "no diagnostic if only": "C17", "symbol only found undefined": "C15", "--max-passes rejected": "C21", "EXPORT of name pasted": "C10", "most negative integer": "C15", "source silently ended at a line": "C18", "expressions of very many": "C18", "lines longer than 16384": "C14",
 "floating point values (any division)": "C06", "crash when assembling at an address": "C18", "abnormal end when memory": "C18",
}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in MAP.items() if s.startswith(k)]
    assert len(p) == 1, (s, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s))
f = os.path.join(V, "known_findings.json")
d = json.load(open(f)) if os.path.exists(f) else {"findings": []}
d["fixed"] = fixed
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
print(len(fixed))
