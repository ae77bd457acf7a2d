"""Driver: collects obligations of one property, decides the verdict, writes
the evidence and the replay file."""
import ast
import json
import os
import re
import sys
import time

from . import witness
from .engine import AnchorError, Interp, Outcome, PyExc, explore
from .trees import Cmp
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["fcsql", "fcsql.parser", "fcsql.validation", "fcsql.FCSParser", "fcsql.FCSLexer",
           "fcsql.FCSParserVisitor", "fcsql.FCSParserListener", "antlr4.Token", "antlr4.tree.Tree"]


class Check:
    def __init__(self, prop, tier="quick", seed=1, repo=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.repo = repo or os.environ.get("FCSQL_REPO", "/repo")
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.budget = 780 if self.thorough else 240
        self.bad = []          # violations
        self.seen = set()
        self.open = []         # undecided obligations
        self.nopen = 0
        self.n = 0             # obligations
        self.nok = 0
        self.cases = {}        # family -> abstract inputs analysed
        self.paths = 0
        self.samples = []
        self.rules = []
        self.notes = []
        self.extra = {}
        self.truncated = False
        self.size = 0          # of the inputs being analysed (only if exceptionally large)
        self._ip = None

    # ---------------------------------------------------------------- program
    @property
    def ip(self):
        if self._ip is None:
            self._ip = Interp(self.repo)
            self._ip.load_all(MODULES)
        return self._ip

    def thresholds(self, lo=3, hi=4100):
        """sizes just beyond every integer constant of the hand-written modules: a limit in the code is at most there"""
        d = os.path.join(self.repo, "src", "fcsql")
        out = set()
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and not re.match(r"FCS(Lexer|Parser)", f):
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    for n in ast.walk(ast.parse(h.read())):
                        v = fold(n)
                        if v is not None and lo <= v <= hi:
                            out.add(v)
        out = sorted(out)
        if len(out) > 10:
            out = out[:5] + out[-5:]
        self.extra["integer_constants_used_as_size_bounds"] = out
        for n in out:
            for k in ((0, 1, 2) if n <= 300 else (0, 2)):
                self.size = n + k
                yield n + k
        self.size = 0

    def marks(self):
        """characters in the string constants of the hand-written modules that no token of the language begins with"""
        d = os.path.join(self.repo, "src", "fcsql")
        out = set()
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and not re.match(r"FCS(Lexer|Parser)", f):
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    t = ast.parse(h.read())
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 12:
                        out |= {c for c in n.value if not (c.isascii() and c.isalnum()) and not c.isspace()}
        out -= set("\"'[](){}|&!=:/*+?,-\\")
        return sorted(out)[-12:]

    def rule(self, text):
        self.rules.append(text)

    # ------------------------------------------------------------- obligations
    def ok(self, n=1):
        self.n += n
        self.nok += n

    def undecided(self, what, family=""):
        self.n += 1
        self.nopen += 1
        if len(self.open) < 60:
            self.open.append(f"{family}: {what}" if family else what)

    def violation(self, what, where="?", detail=None, family=""):
        self.n += 1
        key = (family, re.sub(r"\d+", "#", what), where)
        if key in self.seen:
            return
        self.seen.add(key)
        self.bad.append({"family": family, "what": what, "where": where, **(detail or {})})

    def over(self):
        t = time.time() - self.t0
        if t > self.budget or self.bad and t > self.budget / 4:
            self.truncated = True
        return self.truncated

    def sweep(self, family, label, harness, env=None, aspects=None, max_paths=6000):
        """analyse one abstract input: harness(ip) returns a Cmp (or None: nothing to decide); where an assertion
        fails, or changes something, also as run by python -O, which skips assertions"""
        self.ip.asserted = False
        self.sweep_one(family, label, harness, env, aspects, max_paths)
        if self.ip.asserted and not (env or {}).get("optimize"):
            self.sweep_one(family + " (python -O)", label, harness, dict(env or {}, optimize=True), aspects, max_paths)

    def sweep_one(self, family, label, harness, env, aspects, max_paths):
        if self.over() or len(self.bad) > 25:
            return
        self.cases[family] = self.cases.get(family, 0) + 1
        if len(self.samples) < 6 or self.cases[family] == 1 and len(self.samples) < 14:
            self.samples.append(f"{family}: {label}")
        ip = self.ip
        ip.max_steps = 400000 + 6000 * max(0, self.size - 60)
        stuck, t0 = 0, time.time()
        try:
            for o in explore(ip, harness, env, max_paths):
                self.paths += 1
                self.path(family, label, o, aspects)
                stuck += o.kind == "undecided"
                if self.over():
                    return
                if stuck >= 4 and (stuck > 40 or time.time() - t0 > self.budget / 60):
                    self.undecided(f"{label}: given up after {stuck} undecided paths", family)
                    return
        except AnchorError as e:
            self.undecided(f"{label}: {e}", family)

    def path(self, family, label, o, aspects):
        if o.kind == "undecided":
            self.undecided(f"{label}: {o.value}", family)
            return
        miss = getattr(o.value, "missing", None) if o.kind == "raise" else None
        if miss and aspects is None and not o.tainted:
            w = witness.satisfiable(o.facts)
            if w is not None:
                self.violation(miss[0], miss[1] or last_site(o) or "?",
                               {"aspect": "attribute", "abstract_input": label, "path": o.path()[-40:],
                                "witness": {"inputs": witness.showasg(w)}}, family)
                return
        if o.kind == "raise":
            self.undecided(f"{label}: {exc_text(o.value)} raised outside the obligation at {o.value.site}", family)
            return
        c = o.value
        if c is None:
            return
        if o.tainted and c.bad:
            self.undecided(f"{label}: {o.tainted}", family)
            return
        bad = [b for b in c.bad if aspects is None or b[0] in aspects]
        opn = [b for b in c.open if aspects is None or b[0] in aspects]
        self.n += c.n
        self.nok += max(0, c.n - len(bad) - len(opn))
        for b in opn:
            self.undecided(f"{label}: {b[1]}", family)
        feasible = None
        for b in bad:
            wit = b[2] if len(b) > 2 else None
            if wit is None:
                if feasible is None:
                    w = witness.satisfiable(o.facts)
                    feasible = False if w is None else witness.showasg(w)
                if feasible is False:
                    self.undecided(f"{label}: {b[1]} (no input found for this path)", family)
                    continue
                wit = {"inputs": feasible}
            site = b[3] if len(b) > 3 and b[3] else None
            self.violation(f"{b[1]}", site or last_site(o) or "?",
                           {"aspect": b[0], "abstract_input": label, "path": o.path()[-40:], "witness": wit}, family)

    # ---------------------------------------------------------------- verdict
    def known(self):
        p = os.path.join(HERE, "known-findings.txt")
        out = []
        if os.path.exists(p):
            with open(p, encoding="utf-8") as f:
                for l in f:
                    m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
                    if m and m.group(1) == self.prop:
                        out.append((m.group(2), m.group(3)))
        return out

    def finish(self, explanation):
        ev = os.environ.get("SA_EVID") or os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        known, left = [], []
        for b in self.bad:
            for pat, text in self.known():
                if pat in json.dumps(b):
                    known.append(text)
                    break
            else:
                left.append(b)
        for t in sorted(set(known)):
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        ip = self._ip
        cov = {
            "explanation": explanation,
            "rule": " ".join(self.rules),
            "abstract_inputs": self.cases,
            "abstract_inputs_total": sum(self.cases.values()),
            "paths_analysed": self.paths,
            "obligations": self.n,
            "discharged": self.nok,
            "undecided": self.nopen,
            "undecided_examples": self.open[:20],
            "samples": self.samples or ["(none)"],
            "functions_analysed": sorted(q for q in (ip.covered if ip else ()) if q.startswith("fcsql")),
            "files_read": sorted(p for p in (ip.prog.files if ip else ()) if p.startswith(self.repo)) +
            sorted(self.extra.get("files", [])),
            "analysis_steps": ip.total_steps if ip else 0,
            "truncated_by_time": self.truncated,
        }
        cov.update({k: v for k, v in self.extra.items() if k != "files"})
        if ip and ip.load_notes:
            cov["module_level_not_modelled"] = ip.load_notes[:20]
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
               "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 3), "violations": len(left)}
        with open(os.path.join(ev, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(doc, f, indent=1, ensure_ascii=True, default=repr)
            f.write("\n")
        print(f"{self.prop}: {sum(self.cases.values())} abstract inputs, {self.paths} paths, {self.n} obligations, "
              f"{self.nok} discharged, {self.nopen} undecided, {len(left)} violations, {doc['wall_s']} s")
        for o in self.open[:8]:
            print("UNDECIDED", o[:300])
        rp = os.path.join(ev, f"{self.prop}.replay.json")
        if left:
            with open(rp, "w", encoding="utf-8") as f:
                json.dump({"property": self.prop, "violations": left}, f, indent=1, default=repr)
            for b in left[:10]:
                print(f"  {b['where']}: {b['what'][:300]}")
                if b.get("witness"):
                    print(f"    for {json.dumps(b['witness'], default=repr)[:300]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        if not self.nok:
            print(f"{self.prop}: nothing could be decided about this source")
            return 2
        return 0


def fold(n):
    """value of a constant integer expression"""
    if isinstance(n, ast.Constant):
        return n.value if type(n.value) is int else None
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None or abs(a) > 10 ** 6 or abs(b) > 10 ** 3:
            return None
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
        if isinstance(n.op, ast.LShift) and 0 <= b < 20:
            return a << b
        if isinstance(n.op, ast.Pow) and 0 <= b < 12:
            return a ** b
    return None


def exc_text(e):
    i = e.inst
    return f"{getattr(i.cls, 'name', '?')}{show(i.attrs.get('args'))}"


def last_site(o):
    for ev in reversed(o.events):
        if "/src/fcsql/" in ev[4]:
            return ev[4]
    for d in reversed(o.decisions):
        if "/src/fcsql/" in d[3]:
            return d[3]
    return None

