"""Concrete witnesses: find an assignment of the unknown inputs that satisfies
everything a path has assumed and under which two abstract values differ.
Only the abstract expressions are evaluated, never code of the repository."""
import itertools
import random
import re
import unicodedata

from .facts import INF
from .values import *


class NoEval(Exception):
    pass


def leaves(v, out=None):
    out = set() if out is None else out
    if isinstance(v, Term):
        if is_leaf(v):
            out.add(v)
        else:
            for a in v.args:
                leaves(a, out)
    elif isinstance(v, SStr):
        for p in v.parts:
            leaves(p, out)
    elif isinstance(v, Lin):
        for t in v.t:
            leaves(t, out)
    elif isinstance(v, (Tup, tuple, list)):
        for x in (v.items if isinstance(v, Tup) else v):
            leaves(x, out)
    return out


def _int_ok(s, b):
    try:
        int(s, b)
        return True
    except ValueError:
        return False


EV = {
    "int_ok": _int_ok,
    "normalize": lambda f, s: unicodedata.normalize(f, s),
    "is_normalized": lambda f, s: unicodedata.is_normalized(f, s),
    "len": len, "float": float, "round": round,
    "int": lambda s, b=10: int(s, b) if isinstance(s, str) else int(s),
    "hexval": lambda c: int(c, 16),
    "chr": lambda i: chr(i),
    "ord": lambda c: ord(c),
    "str": lambda v: str(v),
    "repr": lambda v: repr(v),
    "format": lambda v, s: format(v, s),
    "contains": lambda s, x: x in s,
    "eq": lambda a, b: a == b,
    "affix": lambda s, p, st: s.startswith(p) if st else s.endswith(p),
    "charat": lambda s, i: s[i],
    "re.escape": re.escape,
    "encode": lambda s, e, r: s.encode(e, r), "bdecode": lambda b, e, r: b.decode(e, r),
    "bslice": lambda b, i, j, k: b[i:j:k],
    "not": lambda b: not b,
    "mul": lambda a, b: a * b,
    "strmul": lambda a, b: a * b,
    "mod": lambda a, b: a % b,
    "bitand": lambda a, b: a & b,
    "FloorDiv": lambda a, b: a // b,
    "RShift": lambda a, b: a >> b,
    "hex": hex,
    "bitBitOr": lambda a, b: a | b,
    "bitBitXor": lambda a, b: a ^ b,
    "min": min, "max": max,
    "bitBitAnd": lambda a, b: a & b,
    "cmpLt": lambda a, b: a < b, "cmpLtE": lambda a, b: a <= b, "cmpGt": lambda a, b: a > b, "cmpGtE": lambda a, b: a >= b,
    "pow": lambda a, b: a ** b, "div": lambda a, b: a / b, "fmt": lambda v, spec: spec % v,
    "rxclass": lambda c, item, asc: re.fullmatch(item, c, re.ASCII if asc else 0) is not None,
}
DERIVED = ("slice", "rx:match", "rx:search", "rx:fullmatch", "rx:sub")


def is_leaf(t):
    return not t.args or not (t.op in EV or t.op in DERIVED or t.op.startswith(("m:", "ucd:")))


def opaque(t):
    """a result that depends on unknown inputs in a way the evaluator does not know"""
    return any(isinstance(a, (Term, SStr, Lin)) or isinstance(a, Tup) and opaque(a) for a in
               (t.items if isinstance(t, Tup) else t.args))


def ev(v, asg):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, Term):
        if v in asg:
            return asg[v]
        if is_leaf(v):
            raise NoEval(v)
        a = [ev(x, asg) for x in v.args]
        try:
            if v.op == "slice":
                return a[0][slice(*a[1:])]
            if v.op.startswith("m:"):
                b = []
                kw = {}
                for x, raw in zip(a[1:], v.args[1:]):
                    b.append(dict(x) if v.op == "m:translate" else x)
                return getattr(a[0], v.op[2:])(*b, **kw)
            if v.op.startswith("ucd:"):
                return getattr(unicodedata, v.op[4:])(*a)
            if v.op in ("rx:match", "rx:search", "rx:fullmatch"):
                return getattr(re, v.op[3:])(a[0], a[2], a[1]) is not None
            if v.op == "rx:sub":
                return re.sub(a[0], a[2], a[3], flags=a[1])
            return EV[v.op](*a)
        except NoEval:
            raise
        except Exception as e:
            raise NoEval(f"{v.op}: {e}")
    if isinstance(v, SStr):
        return "".join(ev(p, asg) for p in v.parts)
    if isinstance(v, Lin):
        return v.c + sum(k * ev(t, asg) for t, k in v.t.items())
    if isinstance(v, Tup):
        return tuple(ev(x, asg) for x in v.items)
    if isinstance(v, Inst):
        if "__str" in v.attrs:
            return ev(v.attrs["__str"], asg)
        return ("inst", id(v))
    raise NoEval(v)


CHARS = ["a", "Z", "\u00e9", "\u0301", "\u0142", "\u212b", "\ufb01", " ", "'", '"', ".", "*", "0", "\n", "\t", "\\",
         "\u1e9b\u0323"[0], "\u0323", "i", "C", "/", "-", "x", "\U0001d15e", "_", "d", "I", "l", "c",
         "\u200b", "\x01", "\x85", "\u2028", "\ue000", "\xdf", "\u0130", "\u0660", "\U0010ffff", "\uff38", "\u3000", "{", "}"]
STRS = ["", "a", "Ab", "x-1", "text", "pos", "\u00e9", "e\u0301", "a b", "\\", '"', "a.b", "NOUN", "\ufb01"]


def pool(facts, t, more=None):
    p = facts.pool.get(t)
    if p is None:
        d = facts.dom.get(t)
        if d and d[0] == "in":
            p = sorted(d[1])
        elif t.ty == "char":
            p = CHARS
        elif t.ty == "hexchar":
            p = list("019afAF")
        elif t.ty == "digits":
            p = ["0", "1", "2", "03", "7", "12", "1234567", "2147483648", "9007199254740993", "12345678901234567890123"]
        elif t.ty == "str":
            p = STRS
        elif t.ty in ("nat", "int"):
            lo, hi = facts.term_bounds(t)
            p = [x for x in ([0, 1, 2, 3, 5, 9, 14, 1234567, 9007199254740993] if t.ty == "nat" else [0, 1, -1, 2, 5, -7]) if lo <= x <= hi]
            if not p:
                p = [int(lo if lo > -INF else hi)]
        elif t.ty == "bool":
            p = [facts.atoms[t]] if t in facts.atoms else [True, False]
        else:
            raise NoEval(t)
    if more:
        if t.ty in ("nat", "int"):
            lo, hi = facts.term_bounds(t)
            more = [x for x in more if lo <= x <= hi]
        p = list(p) + [x for x in dict.fromkeys(more) if x not in p][:90]
    d = facts.dom.get(t)
    if d:
        if d[0] == "in":
            q = [x for x in p if x in d[1]]
            p = q or sorted(d[1])
        else:
            p = [x for x in p if x not in d[1]]
    al = facts.alpha.get(t)
    if al is not None:
        p = [x for x in p if (x or al[1]) and al[0].issuperset(x)]
    if not p:
        raise NoEval(t)
    return p


def constraints(facts):
    """list of (leaf set, check)"""
    out = []
    for t, d in facts.dom.items():
        if not is_leaf(t):
            out.append((leaves(t), lambda asg, t=t, d=d: (ev(t, asg) in d[1]) == (d[0] == "in")))
    for t, b in facts.atoms.items():
        if not (is_leaf(t) and t.ty == "bool"):
            out.append((leaves(t), lambda asg, t=t, b=b: bool(ev(t, asg)) == b))
    for k, (lo, hi, exc) in facts.iv.items():
        l = Lin(0, dict(k))
        out.append((leaves(l), lambda asg, l=l, lo=lo, hi=hi, exc=exc: lo <= ev(l, asg) <= hi and ev(l, asg) not in exc))
    return out


def consts(v, out):
    if isinstance(v, str):
        out.add(v)
    elif isinstance(v, Term):
        if not is_leaf(v):
            for a in v.args:
                consts(a, out)
    elif isinstance(v, SStr):
        for p in v.parts:
            consts(p, out)
    elif isinstance(v, Tup):
        for x in v.items:
            consts(x, out)
    return out


VARIANTS = [lambda v: v, lambda v: v + "x", lambda v: "x" + v, lambda v: v + " ", lambda v: " " + v, str.upper, str.lower,
            str.swapcase, lambda v: v + v, lambda v: v + "\n", lambda v: "\ufeff" + v]


def opened(t):
    """the text is cut or replaced somewhere before it is compared"""
    return isinstance(t, Term) and (t.op in ("slice", "rx:sub") or t.op.startswith("m:")
                                    or any(opened(a) for a in t.args if not is_leaf(t)))


def hints(facts):
    """leaf -> sample values the path's own assumptions suggest"""
    out = {}

    def text(t, vals):
        vals = [v for v in vals if isinstance(v, str)]
        extra = sorted(c for c in consts(t, set()) if c and len(c) <= 12)[:4]
        extra = list(dict.fromkeys(extra + [c[0] for c in extra] + [c[-1] for c in extra] + (["1"] if opened(t) else [])))
        for l in leaves(t):
            if l.ty == "str":
                h = out.setdefault(l, [])
                h += [f(v) for f in VARIANTS[:3] for v in vals]
                h += [y for x in extra for v in vals for y in (v + x, x + v, v[:1] + x + v[1:])]
                h += [f(v) for f in VARIANTS[3:] for v in vals]
    for t, d in facts.dom.items():
        if not is_leaf(t) and len(d[1]) <= 40:
            text(t, sorted(x for x in d[1] if isinstance(x, str)))
    for t in facts.atoms:
        if not is_leaf(t):
            text(t, sorted(consts(t, set()))[:8])
    for k, (lo, hi, exc) in facts.iv.items():
        if len(k) != 1:
            continue
        (t, m), = k
        nums = {x + d for x in (lo, hi, *exc) if abs(x) != INF for d in (-1, 0, 1)}
        if t.op == "len" and not is_leaf(t):
            for l in leaves(t):
                if l.ty == "str":
                    out.setdefault(l, []).extend("a" * int(n) for n in sorted(nums) if 0 <= n <= 400)
                elif l.ty == "digits":
                    out.setdefault(l, []).extend("1" * int(n) for n in sorted(nums) if 0 < n <= 400)
            continue
        for l in leaves(t):
            if l.ty in ("nat", "int"):
                out.setdefault(l, []).extend(int(n) for n in sorted(nums))
            elif l.ty == "digits":
                out.setdefault(l, []).extend(str(int(n)) for n in sorted(nums) if n >= 0)
    return out


def joint(facts, rng):
    """assignments of several leaves at once: hex digits that spell a number inside an assumed range"""
    out = []
    for k, (lo, hi, exc) in facts.iv.items():
        if len(k) < 2 or not all(t.op == "hexval" and isinstance(t.args[0], Term) and t.args[0].ty == "hexchar" and c > 0
                                 for t, c in k):
            continue
        pos = sorted(k, key=lambda kc: -kc[1])
        top = sum(15 * c for _, c in k)
        lo, hi = int(max(lo, 0)), int(min(hi, top))
        if lo > hi:
            continue
        nums = [lo, hi, (lo + hi) // 2, lo + 1, hi - 1] + [int(x) + d for x in sorted(exc)[:6] for d in (0, 1, -1)]
        nums += [rng.randint(lo, hi) for _ in range(8)]
        for n in nums:
            if not lo <= n <= hi:
                continue
            a = {}
            for t, c in pos:
                d = min(n // c, 15)
                n -= d * c
                a[t.args[0]] = "0123456789abcdef"[d]
            if n == 0:
                out.append(a)
    return out


OPAQUE = None


def find(facts, test, values, tries=4000, seed=1):
    """assignment consistent with facts for which test(asg) holds, or None"""
    rng = random.Random(seed)
    cons = constraints(facts)
    ls = leaves(list(values))
    for s, _ in cons:
        ls |= s
    for t in facts.dom:
        if is_leaf(t):
            ls.add(t)
    ls = sorted(ls, key=repr)
    if any(has_unk(t) or opaque(t) for t in ls):
        if OPAQUE is not None:
            OPAQUE.update(t.op for t in ls if opaque(t))
        return None
    try:
        more = hints(facts)
        pools = [pool(facts, t, more.get(t)) for t in ls]
    except NoEval:
        return None
    total = 1
    for p in pools:
        total *= len(p)
        if total > tries:
            break
    if total <= tries:
        combos = itertools.product(*pools)
    else:
        combos = ([rng.choice(p) for p in pools] for _ in range(tries))
    js = joint(facts, rng)
    if js:
        idx = {t: i for i, t in enumerate(ls)}
        js = [{t: v for t, v in a.items() if t in idx} for a in js]
        picks = []
        for a in js:
            for _ in range(6):
                c = [rng.choice(p) for p in pools]
                for t, v in a.items():
                    c[idx[t]] = v
                picks.append(c)
        combos = itertools.chain(picks, combos)
    for c in combos:
        asg = dict(zip(ls, c))
        try:
            if all(f(asg) for _, f in cons) and test(asg):
                return asg
        except NoEval:
            continue
        except RecursionError:
            return None
    return None


def differ(facts, a, b):
    """assignment under which the values a and b differ, or None"""
    return find(facts, lambda asg: ev(a, asg) != ev(b, asg), [a, b])


def satisfiable(facts):
    return find(facts, lambda asg: True, [])


def showasg(asg):
    return {repr(k): v for k, v in sorted(asg.items(), key=lambda kv: repr(kv[0]))}
