"""Path facts: what a path has assumed about the unknown terms."""
from .values import *


class Infeasible(Exception):
    """the path's assumptions contradict each other"""


INF = float("inf")


class Facts:
    def __init__(self):
        self.dom = {}      # str/char Term -> ("in"|"out", frozenset of constants)
        self.atoms = {}    # bool Term -> bool
        self.iv = {}       # linear form key -> [lo, hi, excluded set]
        self.bounds = {}   # int Term -> (lo, hi) assumed by the harness / type
        self.one_line = None   # whether a text that is not spelled out is one line (chosen when first asked)
        self.alpha = {}    # str Term -> (frozenset of the characters it may contain, may be empty)
        self.pool = {}     # leaf Term -> sample values (for witnesses)
        self.log = []      # human readable

    # ---- string/char domains
    def single(self, t):
        d = self.dom.get(t)
        if d and d[0] == "in" and len(d[1]) == 1:
            return next(iter(d[1]))
        return None

    def restrict(self, t, vals):
        vals = frozenset(vals)
        d = self.dom.get(t)
        if d is None:
            n = vals
        elif d[0] == "in":
            n = d[1] & vals
        else:
            n = vals - d[1]
        if not n:
            raise Infeasible
        self.dom[t] = ("in", n)
        if len(n) == 1 and (d is None or d[0] == "out" or len(d[1]) > 1):
            self.became(t, next(iter(n)))

    def became(self, t, c):
        """t turned out to be the constant c"""
        if t.ty not in CHAR:
            self.assume_range(lin(Term("len", t, ty="nat")), len(c), len(c))
        for k, v in list(self.atoms.items()):
            if k.op == "eq" and t in k.args:
                for o in k.args:
                    if isinstance(o, Term) and o != t:
                        if v:
                            self.restrict(o, [c])
                        else:
                            self.exclude(o, [c])

    def exclude(self, t, vals):
        vals = frozenset(vals)
        d = self.dom.get(t)
        if d is None:
            self.dom[t] = ("out", vals)
        elif d[0] == "in":
            n = d[1] - vals
            if not n:
                raise Infeasible
            self.dom[t] = ("in", n)
            if len(n) == 1 and len(d[1]) > 1:
                self.became(t, next(iter(n)))
        else:
            self.dom[t] = ("out", d[1] | vals)

    def can_be(self, t, c):
        """True: is c on this path; False: never; None: unknown"""
        d = self.dom.get(t)
        al = self.alpha.get(t)
        if al is not None and ((not c and not al[1]) or not al[0].issuperset(c)):
            return False
        if t.ty in CHAR and len(c) != 1:
            return False
        if t.ty == "hexchar" and c not in "0123456789abcdefABCDEF":
            return False
        if t.ty == "digits" and not (c and c.isascii() and c.isdigit()):
            return False
        if d is None:
            return None
        if d[0] == "in":
            if c not in d[1]:
                return False
            return True if len(d[1]) == 1 else None
        return False if c in d[1] else None

    def lacks(self, t, chars):
        """t certainly contains none of chars"""
        if isinstance(t, str):
            return not any(c in t for c in chars)
        al = self.alpha.get(t)
        if al is not None:
            return al[0].isdisjoint(chars)
        d = self.dom.get(t)
        if d is not None and d[0] == "in":
            return not any(c in v for v in d[1] for c in chars)
        if d is not None and t.ty in CHAR:
            return all(c in d[1] for c in chars)
        if t.ty in ("hexchar", "digits"):
            return not any(c in "0123456789abcdefABCDEF" for c in chars)
        return all(self.atoms.get(Term("contains", t, c, ty="bool")) is False for c in chars)

    def within(self, t, chars):
        """t certainly contains nothing but chars"""
        al = self.alpha.get(t)
        if al is not None:
            return set(al[0]) <= set(chars)
        d = self.dom.get(t)
        return d is not None and d[0] == "in" and all(c in chars for v in d[1] for c in v)

    def nonempty(self, t):
        if isinstance(t, str):
            return bool(t)
        if t.ty in ("char", "hexchar", "digits"):
            return True
        al = self.alpha.get(t)
        return al is not None and not al[1] or self.can_be(t, "") is False

    def ascii(self, t):
        if isinstance(t, str):
            return t.isascii()
        al = self.alpha.get(t)
        if al is not None:
            return all(c.isascii() for c in al[0])
        if t.ty in ("hexchar", "digits"):
            return True
        d = self.dom.get(t)
        if d is not None and d[0] == "in" and all(v.isascii() for v in d[1]):
            return True
        if self.atoms.get(Term("m:isascii", t, ty="bool")) is True:
            return True
        if t.ty not in CHAR:
            return False
        if self.term_bounds(Term("ord", t, ty="nat"))[1] < 128:
            return True
        if t.op == "chr" and isinstance(t.args[0], (Term, Lin)):
            x = t.args[0] if isinstance(t.args[0], Lin) else Lin(0, {t.args[0]: 1})
            if x.t and self.range(x)[1] < 128:
                return True
        for a, r in self.atoms.items():
            if a.op in ("cmpLt", "cmpGtE", "cmpLtE", "cmpGt") and len(a.args) == 2:
                x, y = a.args
                op = a.op
                if y == t and isinstance(x, str):
                    x, y, op = y, x, {"cmpLt": "cmpGt", "cmpGt": "cmpLt", "cmpLtE": "cmpGtE", "cmpGtE": "cmpLtE"}[op]
                if x == t and isinstance(y, str) and y:
                    if op in ("cmpLt", "cmpGtE") and r is (op == "cmpLt") and y <= "\x80":
                        return True
                    if op in ("cmpLtE", "cmpGt") and r is (op == "cmpLtE") and y < "\x80":
                        return True
        return False

    # ---- linear integer forms
    @staticmethod
    def key(l):
        """Lin -> (hashable form without constant and with normalised sign, sign)"""
        items = sorted(l.t.items(), key=lambda kv: repr(kv[0]))
        s = 1 if items[0][1] > 0 else -1
        return frozenset((k, s * v) for k, v in items), s

    def term_bounds(self, t):
        lo, hi = -INF, INF
        if t in self.bounds:
            lo, hi = self.bounds[t]
        elif t.ty == "nat":
            lo = 0
        elif t.op in ("bitand", "mod") and isinstance(t.args[1], int) and t.args[1] > 0:
            lo, hi = 0, t.args[1] - (t.op == "mod")
        r = self.iv.get(frozenset([(t, 1)]))
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def range(self, l):
        """bounds of the linear form (Lin) on this path"""
        k, s = self.key(l)
        lo = hi = 0
        for t, v in k:
            a, b = self.term_bounds(t)
            if v < 0:
                a, b = b, a
            lo, hi = lo + v * a, hi + v * b
        r = self.iv.get(k)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if s < 0:
            lo, hi = -hi, -lo
        return lo + l.c, hi + l.c

    def excluded(self, l):
        k, s = self.key(l)
        r = self.iv.get(k)
        return set() if not r else {s * x + l.c for x in r[2]}

    def assume_range(self, l, lo, hi):
        """assume lo <= l <= hi"""
        k, s = self.key(l)
        lo, hi = lo - l.c, hi - l.c
        if s < 0:
            lo, hi = -hi, -lo
        r = self.iv.setdefault(k, [-INF, INF, set()])
        r[0], r[1] = max(r[0], lo), min(r[1], hi)
        while r[0] in r[2]:
            r[0] += 1
        while r[1] in r[2]:
            r[1] -= 1
        a, b = self.range(l)
        if a > b:
            raise Infeasible

    def assume_ne(self, l, c):
        k, s = self.key(l)
        r = self.iv.setdefault(k, [-INF, INF, set()])
        r[2].add(s * (c - l.c))
        lo, hi = self.range(l)
        ex = self.excluded(l)
        while lo in ex and lo <= hi:
            lo += 1
        while hi in ex and lo <= hi:
            hi -= 1
        if lo > hi:
            raise Infeasible
