#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ("path-sensitive abstract interpretation of the source (AST), unknown inputs as terms with domain facts; "
      "obligations checked on every path against ")
NOTE = ("All paths of the analysed functions for each abstract input; abstract inputs are enumerated up to a size bound "
        "(no widening), their texts, offsets and numbers stay unknown. ANTLR's runtime prediction, re, unicodedata and "
        "logging are modelled, not analysed. Constructs outside the model end as UNDECIDED in the evidence, never as a "
        "verdict.")
T = {
 "P01": ("an exception-flow oracle over an environment that fails at every library call", ""),
 "P02": ("scripted error reports delivered through the installed listeners", ""),
 "P03": ("scripted error reports delivered through the installed listeners", ""),
 "P04": ("the recorded reports (sequence and freshness of the error list)", ""),
 "P05": ("symbolic token offsets (linear forms)", ""),
 "P06": ("the expected tree of each abstract parse tree", ""),
 "P07": ("parent/child link invariants after every constructor and parse", ""),
 "P08": ("symbolic token offsets (linear forms)", ""),
 "P09": ("the written words, kept as unknowns", ""),
 "P10": ("the documented bounds, with unknown integers", ""),
 "P11": ("the decoding rules, with unknown characters and hex digits", ""),
 "P12": ("term-level order of normalisation and decoding", ""),
 "P13": ("the flag table, with unknown flag characters", ""),
 "P14": ("the scope table", ""),
 "P15": ("the accessor contracts, with symbolic indices and names", ""),
 "P16": ("the visiting order and hook protocol", ""),
 "P17": ("required pieces of the abstract printed string and its independence of set order", ""),
 "P18": ("a second abstract run with debug logging enabled (relational comparison)", ""),
 "P19": ("an effect and sharing (escape) analysis over the abstract heap, and relational comparison of call sequences", ""),
 "P20": ("the layer rules, with unknown identifier and list members", ""),
 "P21": ("the qualifier rules, with unknown identifier, qualifier and list members", ""),
 "P22": ("the tag rules, with unknown characters", ""),
 "P23": ("a mode table over scripted validators", ""),
 "P24": ("symbolic locations and slices of the unknown query text", ""),
 "P25": ("relational comparison of the two forms of validate with parse plus validate", ""),
 "P26": ("a typestate-like stack discipline: preorder handler calls and tracked parent", ""),
}
G = {}
try:
    from mkgrammar import G
except ImportError:
    pass
checks = []
for pid in sorted(list(T) + list(G)):
    if pid in T:
        tech, note = AI + T[pid][0], NOTE + T[pid][1]
    else:
        tech, note = G[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 -m sa.run {pid} quick",
                   "thorough_cmd": f"python3 -m sa.run {pid} thorough", "technique": tech, "level": "other",
                   "level_note": note})
NA = {
 "P32": "Running time quantifies over ANTLR's adaptive prediction at run time (full-context lookahead, DFA caching); no "
        "static bound on it is in reach, and measuring it would be a runtime test.",
 "P33": "Depends on the Unicode canonical-equivalence data inside unicodedata and on escapes decoding to combining "
        "characters; the analysis treats normalize as an uninterpreted function, so equality of two different spellings "
        "is outside its theory (P12 decides that the function is applied last and in the right form).",
 "P34": "Depth is bounded by the interpreter's recursion limit and the stack of the ANTLR runtime, a runtime quantity no "
        "static argument over this source bounds; it is in fact false for very deep queries, which fail cleanly (P01, P25).",
}
na = [{"property": k, "reason": v} for k, v in NA.items()]
have = {c["property"] for c in checks} | set(NA)
with open(os.path.join(HERE, "properties.jsonl")) as f:
    for l in f:
        i = json.loads(l)["id"]
        if i not in have:
            na.append({"property": i, "reason": "no check built yet"})
doc = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
       "notes": "Nothing of /repo is imported or run by a check: every run parses /repo's current source."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
