"""Abstract semantics of Python's builtin operations, types and functions."""
import ast
import builtins
import codecs
import re
import string as _string
import types

from .facts import INF, Infeasible
from .values import *

STRTY = ("str", "char", "hexchar", "digits")
INTTY = ("int", "nat")
HEX = "0123456789abcdefABCDEF"


def isconst(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes))


def isstr(v):
    return isinstance(v, (str, SStr)) or (isinstance(v, Term) and v.ty in STRTY)


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, Lin) or (
        isinstance(v, Term) and v.ty in INTTY) or isinstance(v, bool)


def unwrap(ip, v):
    """payload of str/int-mixin instances"""
    v = ip.R(v)
    if isinstance(v, Inst):
        if "__str" in v.attrs:
            return v.attrs["__str"]
        if "__int" in v.attrs:
            return v.attrs["__int"]
    return v


def symbolic(v):
    if isinstance(v, (Term, SStr, Lin)):
        return True
    if isinstance(v, Tup):
        return any(symbolic(x) for x in v.items)
    if isinstance(v, Inst) and getattr(v.cls, "dataclass", None):
        return any(symbolic(x) for x in v.attrs.values())
    return False


def need(v):
    """an operation needs to know v"""
    if isinstance(v, Term) and v.op == "unk":
        from .values import Undecided
        raise Undecided(f"operation on unmodelled value {v!r}")


# ------------------------------------------------------------------ truth etc.
def truth(ip, v):
    v = ip.R(v)
    if v is True or v is False or v is None:
        return bool(v)
    if isinstance(v, (int, float, str, bytes)):
        return bool(v)
    if isinstance(v, Inst):
        f = ip.class_lookup(v.cls, "__bool__")
        if f is not None:
            return truth(ip, ip.call(f, [v]))
        f = ip.class_lookup(v.cls, "__len__")
        if f is not None:
            return truth(ip, ip.call(f, [v]))
        if v.cls.is_enum and ("__str" in v.attrs or "__int" in v.attrs):
            return truth(ip, unwrap(ip, v))
        if "__truth" in v.attrs:
            return truth(ip, v.attrs["__truth"])
        return True
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, ListV):
        return bool(v.items)
    if isinstance(v, (DictV, SetV)):
        return bool(v.d)
    if isinstance(v, SStr):
        if any(ip.facts.nonempty(e) for e in v.parts):
            return True
        return any(truth(ip, p) for p in v.parts)
    if isinstance(v, Lin):
        return not truth(ip, int_eq(ip, v, 0))
    if isinstance(v, Term):
        if v.ty in ("char", "hexchar", "digits"):
            return True
        if v.ty == "str":
            return not truth(ip, eq(ip, v, ""))
        if v.ty in INTTY:
            return not truth(ip, int_eq(ip, v, 0))
        if v.ty == "bool":
            return atom(ip, v)
        if v.op == "unk":
            ip.taint(f"branch on {v!r}")
            return atom(ip, v)
        raise Undecided(f"truth value of {v!r}")
    return True


def atom(ip, t):
    if t in ip.facts.atoms:
        return ip.facts.atoms[t]
    if t.op == "not":
        return not truth(ip, t.args[0])
    if has_unk(t):
        ip.taint(f"branch on {t!r}")
    r = ip.choose(2, repr(t)) == 0
    ip.facts.atoms[t] = r
    return r


def is_(ip, a, b):
    a, b = ip.R(a), ip.R(b)
    for x, y in ((a, b), (b, a)):
        if x is None or x is True or x is False:
            if y is x:
                return True
            if isinstance(y, Term):
                if y.op == "unk" or (y.ty is None):
                    return Term("is", y, x, ty="bool")
                if y.ty == "bool" and x is not None:
                    return truth(ip, y) == x
            return False
    if isinstance(a, (Inst, ListV, DictV, SetV, FuncV, ClassV, ModV, BuiltinC, ExtC)) or isinstance(
            b, (Inst, ListV, DictV, SetV, FuncV, ClassV, ModV, BuiltinC, ExtC)):
        if isinstance(a, Term) and a.op == "unk" or isinstance(b, Term) and b.op == "unk":
            return Term("is", a, b, ty="bool")
        return a is b
    if isinstance(a, Term) and a is b:
        return True
    if isstr(a) and isstr(b) or isint(a) and isint(b):
        if not truth(ip, eq(ip, a, b)):
            return False
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            if a is b or (len(a) <= 1 and a < "\u0100" if isinstance(a, str) else -5 <= a <= 256):
                return True
        elif a == b or SStr in (type(a), type(b)):
            raise Undecided("identity of equal immutable values")
        # equal values of two origins may or may not be one object
        return truth(ip, Term(f"{a!r} and {b!r} are one object", ty="bool"))
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return False
    return a is b


def int_eq(ip, a, b):
    d = ip.R(ladd(a, b, -1))
    if isinstance(d, int):
        return d == 0
    d = lin(d)
    lo, hi = ip.facts.range(d)
    if lo > 0 or hi < 0 or 0 in ip.facts.excluded(d):
        return False
    if lo == hi == 0:
        return True
    r = ip.choose(2, f"{a!r} == {b!r}") == 0
    if r:
        ip.facts.assume_range(d, 0, 0)
    else:
        ip.facts.assume_ne(d, 0)
    return r


def int_lt(ip, a, b):
    """a < b"""
    d = ip.R(ladd(a, b, -1))
    if isinstance(d, int):
        return d < 0
    d = lin(d)
    lo, hi = ip.facts.range(d)
    if hi < 0:
        return True
    if lo >= 0:
        return False
    r = ip.choose(2, f"{a!r} < {b!r}") == 0
    if r:
        ip.facts.assume_range(d, -INF, -1)
    else:
        ip.facts.assume_range(d, 0, INF)
    return r


def term_eq_const(ip, t, c):
    r = ip.facts.can_be(t, c)
    if r is not None:
        return r
    if has_unk(t):
        ip.taint(f"comparison of {t!r}")
    r = ip.choose(2, f"{t!r} == {c!r}") == 0
    if r:
        ip.facts.restrict(t, [c])
    else:
        ip.facts.exclude(t, [c])
    return r


def terms_eq(ip, a, b):
    """two string terms"""
    if a is b:
        return True
    k = Term("eq", *sorted((a, b), key=repr), ty="bool")
    da, db = ip.facts.dom.get(a), ip.facts.dom.get(b)
    if da and db and da[0] == "in" and db[0] == "in" and not (da[1] & db[1]):
        return False
    if da and da[0] == "in" and len(da[1]) <= 40:
        # split on the finite domain
        for c in sorted(da[1]):
            if term_eq_const(ip, a, c):
                return term_eq_const(ip, b, c)
    r = atom(ip, k)
    if r:
        for x, y in ((a, b), (b, a)):
            d = ip.facts.dom.get(x)
            if d:
                (ip.facts.restrict if d[0] == "in" else ip.facts.exclude)(y, d[1])
    return r


def str_eq(ip, a, b):
    a, b = ip.R(a), ip.R(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(a, Term) and isinstance(b, str):
        return term_eq_const(ip, a, b)
    if isinstance(a, Term) and isinstance(b, Term):
        return terms_eq(ip, a, b)
    ea, eb = selems(a), selems(b)
    # strip common ends
    while ea and eb and known_len(ea[0]) and known_len(eb[0]):
        if not truth(ip, elem_eq(ip, ea[0], eb[0])):
            return False
        ea, eb = ea[1:], eb[1:]
    while ea and eb and known_len(ea[-1]) and known_len(eb[-1]):
        if not truth(ip, elem_eq(ip, ea[-1], eb[-1])):
            return False
        ea, eb = ea[:-1], eb[:-1]
    while ea and eb and ea[0] is eb[0]:
        ea, eb = ea[1:], eb[1:]
    while ea and eb and ea[-1] is eb[-1]:
        ea, eb = ea[:-1], eb[:-1]
    if not ea and not eb:
        return True
    if not ea or not eb:
        rest = ea or eb
        if any(known_len(e) or e.ty == "digits" for e in rest):
            return False
        return all(term_eq_const(ip, e, "") for e in rest)
    if all(known_len(e) for e in ea) and all(known_len(e) for e in eb):
        return False  # different lengths
    if len(ea) == 1 and isinstance(ea[0], Term) and all(isinstance(e, str) for e in eb):
        return term_eq_const(ip, ea[0], "".join(eb))
    if len(eb) == 1 and isinstance(eb[0], Term) and all(isinstance(e, str) for e in ea):
        return term_eq_const(ip, eb[0], "".join(ea))
    return atom(ip, Term("eq", *sorted((sstr(ea), sstr(eb)), key=repr), ty="bool"))


def elem_eq(ip, a, b):
    a, b = ip.R(a), ip.R(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Term) and isinstance(b, Term):
        return terms_eq(ip, a, b)
    if isinstance(a, str):
        a, b = b, a
    return term_eq_const(ip, a, b)


def eq(ip, a, b):
    a, b = ip.R(a), ip.R(b)
    if a is b and not isinstance(a, float):
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Inst):
            f = ip.class_lookup(x.cls, "__eq__")
            if f is not None:
                r = ip.call(f, [x, y])
                if not (isinstance(r, Inst) and r.label == "NotImplemented"):
                    return r
    a, b = unwrap(ip, a), unwrap(ip, b)
    if isconst(a) and isconst(b):
        return a == b
    if isinstance(a, Term) and a.op == "unk" or isinstance(b, Term) and b.op == "unk":
        if a is b:
            return True
        return Term("eq", a, b, ty="bool")
    if a is None or b is None:
        o = b if a is None else a
        if isinstance(o, Term) and o.ty is None:
            return Term("is", o, None, ty="bool")
        return False
    if isstr(a) and isstr(b):
        return str_eq(ip, a, b)
    if isint(a) and isint(b):
        return int_eq(ip, a, b)
    if isinstance(a, Term) and a.ty == "bool" or isinstance(b, Term) and b.ty == "bool":
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return truth(ip, a) == b
        if isinstance(b, Term) and b.ty == "bool" and isinstance(a, Term) and a.ty == "bool":
            return truth(ip, a) == truth(ip, b)
        return False
    if isinstance(a, Tup) and isinstance(b, Tup) or (
            isinstance(a, ListV) and isinstance(b, ListV) and a.kind == b.kind):
        return len(a.items) == len(b.items) and all(truth(ip, eq(ip, x, y)) for x, y in zip(a.items, b.items))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return set_le(ip, a, b) and set_le(ip, b, a)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if len(a.d) != len(b.d):
            return False
        for k, v in a.d.values():
            j = dict_find(ip, b, k)
            if j is None or not truth(ip, eq(ip, v, b.d[j][1])):
                return False
        return True
    if isinstance(a, Inst) and isinstance(b, Inst):
        dc = getattr(a.cls, "dataclass", None)
        if dc and dc["eq"] and a.cls is b.cls:
            return all(truth(ip, eq(ip, a.attrs.get(f[0]), b.attrs.get(f[0]))) for f in dc["fields"])
        return a is b
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return a.self_ is b.self_ and a.func is b.func
    if isinstance(a, Term) and a.ty is None or isinstance(b, Term) and b.ty is None:
        return Term("eq", a, b, ty="bool")
    if isinstance(a, Inst) and isinstance(a.cls, ExtC) or isinstance(b, Inst) and isinstance(b.cls, ExtC):
        if not (a is b) and isinstance(a, Inst) and isinstance(b, Inst):
            raise Undecided("equality of external objects")
    return False


def set_le(ip, a, b):
    return all(set_has(ip, b, x) for x in list(a.d.values()))


def compare(ip, op, a, b):
    n = op.__class__.__name__
    if n == "Eq":
        return eq(ip, a, b)
    if n == "NotEq":
        x = ip.R(a)
        if isinstance(x, Inst):
            f = ip.class_lookup(x.cls, "__ne__")
            if f is not None:
                return ip.call(f, [a, b])
        return not truth(ip, eq(ip, a, b))
    if n == "Is":
        return is_(ip, a, b)
    if n == "IsNot":
        return not truth(ip, is_(ip, a, b))
    if n == "In":
        return contains(ip, b, a)
    if n == "NotIn":
        return not contains(ip, b, a)
    a, b = unwrap(ip, a), unwrap(ip, b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[n]
        rv = {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[n]
        for x, y, m in ((a, b, nm), (b, a, rv)):
            if isinstance(x, Inst):
                f = ip.class_lookup(x.cls, m)
                if f is not None:
                    return ip.call(f, [x, y])
                dc = getattr(x.cls, "dataclass", None)
                if dc and dc.get("order"):
                    raise Undecided("ordered dataclass")
        if any(isinstance(x, Inst) and isinstance(x.cls, ExtC) for x in (a, b)):
            raise Undecided("ordering of external objects")
        ip.raise_("TypeError", f"unorderable types {ip.typename(a)} and {ip.typename(b)}")
    if isint(a) and isint(b) or (isconst(a) and isconst(b) and isinstance(a, (int, float)) and isinstance(b, (int, float))):
        if isconst(a) and isconst(b):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[n]
        if n == "Lt":
            return int_lt(ip, a, b)
        if n == "GtE":
            return not int_lt(ip, a, b)
        if n == "Gt":
            return int_lt(ip, b, a)
        return not int_lt(ip, b, a)
    if isinstance(a, (SetV,)) and isinstance(b, SetV):
        le, ge = set_le(ip, a, b), set_le(ip, b, a)
        return {"LtE": le, "GtE": ge, "Lt": le and not ge, "Gt": ge and not le}[n]
    if isstr(a) and isstr(b):
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[n]
        if isinstance(a, Term) and a.ty in CHAR and isinstance(b, str) or isinstance(b, Term) and b.ty in CHAR and isinstance(a, str):
            return Term("cmp" + n, a, b, ty="bool")
        return Term("cmp" + n, a, b, ty="bool")
    if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, ListV) and isinstance(b, ListV):
        for x, y in zip(a.items, b.items):
            if not truth(ip, eq(ip, x, y)):
                return compare(ip, getattr(ast, {"LtE": "Lt", "GtE": "Gt"}.get(n, n))(), x, y)
        la, lb = len(a.items), len(b.items)
        return {"Lt": la < lb, "LtE": la <= lb, "Gt": la > lb, "GtE": la >= lb}[n]
    need(a)
    need(b)
    if isinstance(a, Term) and a.ty is None or isinstance(b, Term) and b.ty is None:
        raise Undecided("ordering of unknown values")
    ip.raise_("TypeError", f"'<' not supported between instances of {ip.typename(a)} and {ip.typename(b)}")


def contains(ip, c, x):
    """x in c -> bool"""
    c, x = unwrap(ip, c), ip.R(x)
    if isinstance(c, (Tup, ListV)):
        return any(truth(ip, eq(ip, i, x)) for i in list(c.items))
    if isinstance(c, DictV):
        return dict_find(ip, c, x) is not None
    if isinstance(c, SetV):
        return set_has(ip, c, x)
    if isinstance(c, IterV):
        return any(truth(ip, eq(ip, i, x)) for i in c.it)
    if isstr(c):
        x = unwrap(ip, x)
        if not isstr(x):
            need(x)
            if isinstance(x, Term) and x.ty is None:
                raise Undecided("'in <string>' with unknown")
            ip.raise_("TypeError", "'in <string>' requires string as left operand")
        return str_contains(ip, c, x)
    if isinstance(c, Inst):
        f = ip.class_lookup(c.cls, "__contains__")
        if f is not None:
            return truth(ip, ip.call(f, [c, x]))
        if ip.class_lookup(c.cls, "__iter__") is not None:
            return any(truth(ip, eq(ip, i, x)) for i in iterate(ip, c))
        dk = c.attrs.get("__view")
        if dk is not None:
            return any(truth(ip, eq(ip, i, x)) for i in iterate(ip, c))
    if isinstance(c, ClassV) and c.is_enum:
        x2 = ip.R(x)
        return any(truth(ip, eq(ip, m, x2)) or truth(ip, eq(ip, m.attrs["_value_"], x2)) for m in c.members)
    if isinstance(c, Term) and c.op == "range":
        return truth(ip, not int_lt(ip, x, c.args[0])) and int_lt(ip, x, c.args[1])
    need(c)
    if c is None or isint(c):
        ip.raise_("TypeError", f"argument of type {ip.typename(c)!r} is not iterable")
    if isinstance(c, Inst) and isinstance(c.cls, ClassV) and not ip.has_ext_base(c.cls):
        ip.raise_("TypeError", f"argument of type {ip.typename(c)!r} is not iterable")
    raise Undecided(f"membership in {c!r}")


def str_contains(ip, s, x):
    s, x = ip.R(s), ip.R(x)
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(x, str) and x == "":
        return True
    if s is x:
        return True
    es = selems(s)
    xe = selems(x)
    if isinstance(x, str) and any(all(ip.facts.lacks(e, c) for e in es) for c in x):
        return False
    if len(xe) == 1 and known_len(xe[0]):
        # single character
        und = []
        for e in es:
            if known_len(e):
                if isinstance(e, str) and isinstance(xe[0], str):
                    if e == xe[0]:
                        return True
                else:
                    und.append(e)
            else:
                und.append(e)
        for e in und:
            if known_len(e):
                if truth(ip, elem_eq(ip, e, xe[0])):
                    return True
            else:
                d = ip.facts.dom.get(e)
                if isinstance(xe[0], str) and ip.facts.lacks(e, xe[0]):
                    continue
                if d and d[0] == "in" and isinstance(xe[0], str):
                    yes = [v for v in d[1] if xe[0] in v]
                    if len(yes) == len(d[1]):
                        return True
                    if not yes:
                        continue
                if atom(ip, Term("contains", e, xe[0], ty="bool")):
                    return True
        return False
    if all(known_len(e) for e in xe) and all(known_len(e) for e in es):
        n = len(xe)
        for i in range(len(es) - n + 1):
            if all(truth(ip, elem_eq(ip, a, b)) for a, b in zip(es[i:i + n], xe)):
                return True
        return False
    if isinstance(s, str) and isinstance(x, Term):
        # unknown string in a constant
        d = ip.facts.dom.get(x)
        if d and d[0] == "in":
            yes = [v for v in d[1] if v in s]
            if len(yes) == len(d[1]):
                return True
            if not yes:
                return False
    return atom(ip, Term("contains", s, x, ty="bool"))


# ------------------------------------------------------------------ containers
def key(ip, v):
    v = ip.R(v)
    u = unwrap(ip, v)
    if isinstance(u, (ListV, DictV)) or isinstance(u, SetV) and not u.frozen:
        ip.raise_("TypeError", f"unhashable type: {ip.typename(u)!r}")
    if isinstance(u, bool):
        return ("int", int(u))
    if isinstance(u, SetV):
        return ("fs", frozenset(u.d))
    if isinstance(u, Tup):
        return ("tup",) + tuple(key(ip, x) for x in u.items)
    if isinstance(u, Inst):
        dc = getattr(u.cls, "dataclass", None)
        if dc and dc["eq"]:
            if not dc["frozen"]:
                ip.raise_("TypeError", f"unhashable type: {u.cls.name!r}")
            return ("dc", id(u.cls)) + tuple(key(ip, u.attrs.get(f[0])) for f in dc["fields"])
        if ip.class_lookup(u.cls, "__eq__") is not None:
            if ip.class_lookup(u.cls, "__hash__") is None:
                ip.raise_("TypeError", f"unhashable type: {u.cls.name!r}")
            raise Undecided("hashing of objects with own __eq__")
    return akey(u)


def dict_find(ip, d, k):
    kk = key(ip, k)
    if kk in d.d:
        return kk
    sk = symbolic(k)
    for j, (ok, _) in list(d.d.items()):
        if (sk or symbolic(ok)) and truth(ip, eq(ip, k, ok)):
            return j
    return None


def dict_set(ip, d, k, v):
    j = dict_find(ip, d, k)
    ip.touch(d)
    if j is None:
        d.d[key(ip, k)] = (k, v)
    else:
        d.d[j] = (d.d[j][0], v)


def set_has(ip, s, x):
    if key(ip, x) in s.d:
        return True
    sx = symbolic(x)
    return any((sx or symbolic(o)) and truth(ip, eq(ip, x, o)) for o in list(s.d.values()))


def set_add(ip, s, x):
    if not set_has(ip, s, x):
        ip.touch(s)
        s.d[key(ip, x)] = x


SPELL = 6


def spell(ip, es):
    """the elements of a string as characters: a part of bounded length is split, one case per length"""
    out = []
    for e in es:
        if known_len(e):
            out.append(e)
            continue
        if not isinstance(e, Term) or e.ty != "str" or e in ip.facts.dom and ip.facts.dom[e][0] == "in":
            return None
        n = Term("len", e, ty="nat")
        lo, hi = ip.facts.term_bounds(n)
        if e.op == "normalize" and e.args[0] == "NFC":
            inner = selems(e.args[1])
            if inner and all(known_len(x) for x in inner):
                lo, hi = max(lo, 1), min(hi, 3 * len(inner))   # no character has a longer composed form
        if hi > SPELL:
            return None
        lo = max(int(lo), 0)
        k = lo + (ip.choose(int(hi) - lo + 1, f"length of {e!r}") if hi > lo else 0)
        if hi > lo or ip.facts.term_bounds(n) != (k, k):
            ip.facts.assume_range(lin(n), k, k)
        out.extend(Term("charat", e, i, ty="char") for i in range(k))
    return out


def iterate(ip, v):
    v = unwrap(ip, v)
    if isinstance(v, Tup):
        return iter(v.items)
    if isinstance(v, ListV):
        return list_iter(ip, v)
    if isinstance(v, DictV):
        return iter([k for k, _ in v.d.values()])
    if isinstance(v, SetV):
        items = list(v.d.values())
        if len(items) > 1 and ip.env.get("setorder"):
            if ip.choose(2, "iteration order of a set"):
                items.reverse()
        return iter(items)
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, SStr) or isinstance(v, Term) and v.ty in STRTY:
        es = spell(ip, selems(v))
        if es is not None:
            return iter([ip.R(e) for e in es])
        d = ip.facts.dom.get(v) if isinstance(v, Term) else None
        if d and d[0] == "in" and len(d[1]) <= 400:
            for c in sorted(d[1]):
                if term_eq_const(ip, v, c):
                    return iter(c)
        raise Undecided(f"iteration over a string of unknown length {v!r}")
    if isinstance(v, IterV):
        return v.it
    if isinstance(v, Inst):
        f = ip.class_lookup(v.cls, "__iter__")
        if f is not None:
            r = ip.call(f, [v])
            if r is v:
                return inst_next(ip, v)
            return iterate(ip, r)
        if "__view" in v.attrs:
            return iter(v.attrs["__view"]())
        g = ip.class_lookup(v.cls, "__getitem__")
        if g is not None:
            raise Undecided("old-style iteration")
        if isinstance(v.cls, ExtC):
            if ip.loading:
                return iter([ip.unk("external iterable")])
            raise Undecided(f"iteration over {v!r}")
    if isinstance(v, ClassV) and v.is_enum:
        return iter(v.members)
    if isinstance(v, Term):
        if v.op == "range":
            raise Undecided("iteration over a range of unknown length")
        if ip.loading:
            return iter([ip.unk("external iterable")])
        if v.ty is None:
            raise Undecided(f"iteration over {v!r}")
    if isinstance(v, ExtC):
        raise Undecided("iteration over external")
    ip.raise_("TypeError", f"{ip.typename(v)!r} object is not iterable")


def inst_next(ip, v):
    f = ip.class_lookup(v.cls, "__next__")
    from .engine import PyExc
    while True:
        try:
            x = ip.call(f, [v])
        except PyExc as e:
            if e.inst.cls is BuiltinC(StopIteration):
                return
            raise
        yield x


def list_iter(ip, v):
    i = 0
    n0 = len(v.items)
    while i < len(v.items):
        if v.kind == "deque" and len(v.items) != n0:
            ip.raise_("RuntimeError", "deque mutated during iteration")
        yield v.items[i]
        i += 1


def index_const(ip, i, what="index"):
    i = unwrap(ip, i)
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, int):
        return i
    if isinstance(i, (Lin, Term)) and (isinstance(i, Lin) or i.ty in INTTY):
        return None
    need(i)
    if isinstance(i, Term) and i.ty is None:
        raise Undecided("index by unknown")
    ip.raise_("TypeError", f"{what} must be integers or slices, not {ip.typename(i)}")


def sym_index(ip, i, n):
    """fork the unknown integer index i over 0..n-1 and negative positions; None: out of range"""
    for k in range(-n, n):
        if truth(ip, int_eq(ip, i, k)):
            return k
    return None


def getitem(ip, o, i):
    o = unwrap(ip, o)
    if isinstance(i, tuple) and i and i[0] == "slice":
        return getslice(ip, o, i)
    if isinstance(o, (ListV, Tup)):
        k = index_const(ip, i, "list indices" if isinstance(o, ListV) else "tuple indices")
        n = len(o.items)
        if k is None:
            k = sym_index(ip, i, n)
            if k is None:
                ip.raise_("IndexError", "index out of range")
        if not -n <= k < n:
            ip.raise_("IndexError", "index out of range")
        return o.items[k]
    if isinstance(o, DictV):
        j = dict_find(ip, o, i)
        if j is None:
            if o.default_factory is not None:
                v = ip.call(o.default_factory, [])
                dict_set(ip, o, i, v)
                ip.event("mutate", o, "setitem")
                return v
            ip.raise_("KeyError", i)
        return o.d[j][1]
    if isinstance(o, Term) and o.op == "range":
        raise Undecided("range index")
    if isstr(o):
        k = index_const(ip, i, "string indices")
        es = selems(o)
        if all(known_len(e) for e in es):
            n = len(es)
            if k is None:
                k = sym_index(ip, i, n)
                if k is None:
                    ip.raise_("IndexError", "string index out of range")
            if not -n <= k < n:
                ip.raise_("IndexError", "string index out of range")
            return ip.R(es[k])
        if k is not None:
            if k >= 0 and all(known_len(e) for e in es[:k + 1]) and len(es) > k:
                return ip.R(es[k])
            if k < 0 and len(es) >= -k and all(known_len(e) for e in es[k:]):
                return ip.R(es[k])
        d = ip.facts.dom.get(o) if isinstance(o, Term) else None
        if d and d[0] == "in" and len(d[1]) <= 400:
            for c in sorted(d[1]):
                if term_eq_const(ip, o, c):
                    return getitem(ip, c, i)
        # length: out of range or not
        n = str_len(ip, o)
        if k is not None:
            bad = truth(ip, not int_lt(ip, k, n)) if k >= 0 else int_lt(ip, n, -k)
        else:
            bad = not int_lt(ip, i, n)
        if bad:
            ip.raise_("IndexError", "string index out of range")
        return Term("charat", o, i, ty="char")
    if isinstance(o, Inst):
        f = ip.class_lookup(o.cls, "__getitem__")
        if f is not None:
            return ip.call(f, [o, i])
        if isinstance(o.cls, ExtC):
            return ip.X.ext_getitem(ip, o, i)
    if isinstance(o, ExtC):
        return o
    if isinstance(o, BuiltinC):
        return o
    if isinstance(o, ClassV):
        if o.is_enum:
            for m in o.members:
                if truth(ip, eq(ip, m.attrs["name"], i)):
                    return m
            k = unwrap(ip, i)
            if isinstance(k, str) and k in o.enum_alias:
                return o.enum_alias[k]
            ip.raise_("KeyError", i)
        f = ip.class_lookup(o, "__class_getitem__")
        if f is not None:
            return ip.call(f.f if isinstance(f, ClassM) else f, [o, i])
        return o
    if isinstance(o, SetV):
        ip.raise_("TypeError", "'set' object is not subscriptable")
    need(o)
    if isinstance(o, Term) and o.ty is None:
        raise Undecided(f"subscript of {o!r}")
    ip.raise_("TypeError", f"{ip.typename(o)!r} object is not subscriptable")


def clamp(k, n, dflt):
    if k is None:
        return dflt
    if k < 0:
        k += n
    return max(0, min(n, k))


def boundary(ip, es, k):
    """index of the element of es that starts at offset k, if that is certain"""
    if k is None:
        return None
    pos = 0
    for i in range(len(es) + 1):
        d = ip.R(ladd(pos, k, -1))
        if d == 0 and isinstance(d, int):
            return i
        if i < len(es):
            pos = ladd(pos, 1 if known_len(es[i]) else Term("len", es[i], ty="nat"))
    return None


def beyond(ip, k, n):
    """k >= n >= 0 on this path"""
    d = ip.R(ladd(k, n, -1))
    if isinstance(d, int):
        return d >= 0
    l = lin(d)
    return l is not None and ip.facts.range(l)[0] >= 0


def getslice(ip, o, sl):
    _, a, b, c = sl
    a, b, c = ip.R(a), ip.R(b), ip.R(c)
    known = all(x is None or isinstance(x, int) for x in (a, b, c))
    if isinstance(o, (ListV, Tup)):
        if isinstance(o, ListV) and o.kind == "deque":
            ip.raise_("TypeError", "sequence index must be integer, not 'slice'")
        if not known:
            raise Undecided("slice with unknown bounds")
        r = list(o.items)[slice(a, b, c)]
        return ip.new(ListV(r)) if isinstance(o, ListV) else Tup(r)
    if isinstance(o, str) and known:
        return o[slice(a, b, c)]
    if isstr(o):
        es = selems(o)
        if known and all(known_len(e) for e in es):
            return sstr(es[slice(a, b, c)])
        if c is not None and c != 1:
            return Term("slice", o, a, b, c, ty="str")
        if known:
            # leading / trailing known parts
            lo = None
            i0, i1 = 0, len(es)
            ok = True
            if a is not None and a != 0:
                if a > 0 and len(es) >= a and all(known_len(e) for e in es[:a]):
                    i0 = a
                elif a < 0 and len(es) >= -a and all(known_len(e) for e in es[a:]):
                    i0 = len(es) + a
                else:
                    ok = False
            if b is not None:
                if b < 0 and len(es) >= -b and all(known_len(e) for e in es[b:]):
                    i1 = len(es) + b
                elif b >= 0 and len(es) >= b and all(known_len(e) for e in es[:b]):
                    i1 = b
                else:
                    ok = False
            if ok:
                if i0 <= i1:
                    return sstr(es[i0:i1])
                return ""
            k = 0
            while k < len(es) and known_len(es[k]):
                k += 1
            if k and (a is None or a >= 0) and b is not None and b > k:
                # the known front, then a slice of the rest
                i = a or 0
                rest = getslice(ip, sstr(es[k:]), (None, max(i - k, 0), b - k, None))
                return sstr(es[min(i, k):k] + selems(rest))
        if a == 0:
            a = None
        if a is None and b is None:
            return o
        tot = str_len(ip, o)
        if b is not None and beyond(ip, b, tot):
            b = None
        if a is not None and beyond(ip, a, tot):
            return ""
        if a is None and b is None:
            return o
        i0, i1 = boundary(ip, es, a), boundary(ip, es, b)
        if (a is None or i0 is not None) and (b is None or i1 is not None):
            i0 = 0 if a is None else i0
            i1 = len(es) if b is None else i1
            return sstr(es[i0:i1]) if i0 <= i1 else ""
        return Term("slice", o, a, b, ty="str")
    if isinstance(o, Inst):
        f = ip.class_lookup(o.cls, "__getitem__")
        if f is not None:
            raise Undecided("slice of an object")
    if o is None:
        ip.raise_("TypeError", "'NoneType' object is not subscriptable")
    if isinstance(o, bytes) and known:
        return o[slice(a, b, c)]
    if isinstance(o, Term) and o.ty == "bytes" or isinstance(o, bytes):
        return bslice(ip, o, a, b, c) if isinstance(o, Term) else Term("bslice", o, a, b, c, ty="bytes")
    raise Undecided(f"slice of {o!r}")


def setitem(ip, o, i, v):
    o = ip.R(o)
    if isinstance(o, DictV):
        dict_set(ip, o, i, v)
        ip.event("mutate", o, "setitem", (i, v))
        return
    if isinstance(o, ListV):
        if isinstance(i, tuple) and i and i[0] == "slice":
            _, a, b, c = i
            if not all(x is None or isinstance(x, int) for x in (a, b, c)):
                raise Undecided("slice assignment")
            ip.touch(o)
            o.items[slice(a, b, c)] = list(iterate(ip, v))
            ip.event("mutate", o, "setslice")
            return
        k = index_const(ip, i, "list indices")
        n = len(o.items)
        if k is None:
            k = sym_index(ip, i, n)
        if k is None or not -n <= k < n:
            ip.raise_("IndexError", "list assignment index out of range")
        ip.touch(o)
        o.items[k] = v
        ip.event("mutate", o, "setitem")
        return
    if isinstance(o, Inst):
        f = ip.class_lookup(o.cls, "__setitem__")
        if f is not None:
            ip.call(f, [o, i, v])
            return
        if isinstance(o.cls, ExtC):
            raise Undecided("item assignment to external object")
    need(o)
    if isinstance(o, Term) and o.ty is None:
        raise Undecided("item assignment to unknown")
    ip.raise_("TypeError", f"{ip.typename(o)!r} object does not support item assignment")


def delitem(ip, o, i):
    if isinstance(o, ListV):
        if isinstance(i, tuple) and i and i[0] == "slice":
            _, a, b, c = i
            if not all(x is None or isinstance(x, int) for x in (a, b, c)):
                raise Undecided("slice deletion")
            ip.touch(o)
            del o.items[slice(a, b, c)]
        else:
            k = index_const(ip, i)
            if k is None:
                raise Undecided("del with unknown index")
            if not -len(o.items) <= k < len(o.items):
                ip.raise_("IndexError", "list assignment index out of range")
            ip.touch(o)
            del o.items[k]
        ip.event("mutate", o, "del")
        return
    if isinstance(o, DictV):
        j = dict_find(ip, o, i)
        if j is None:
            ip.raise_("KeyError", i)
        ip.touch(o)
        del o.d[j]
        ip.event("mutate", o, "del")
        return
    raise Undecided("del item")


# ------------------------------------------------------------------ operators
def binop(ip, op, a, b, inplace=False):
    n = op.__class__.__name__
    a0, b0 = ip.R(a), ip.R(b)
    a, b = unwrap(ip, a), unwrap(ip, b)
    if isconst(a) and isconst(b) and a is not None and b is not None:
        try:
            return HOSTOPS[n](a, b)
        except Exception as e:  # noqa: BLE001 - mirrored into the analysed program
            ip.raise_(type(e).__name__, *e.args)
    dunder = {"Add": "add", "Sub": "sub", "Mult": "mul", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
              "Mod": "mod", "LShift": "lshift", "RShift": "rshift", "FloorDiv": "floordiv", "Div": "truediv",
              "MatMult": "matmul", "Pow": "pow"}[n]
    if isinstance(a0, Inst) and isinstance(a0.cls, ClassV):
        for nm in ((f"__i{dunder}__",) if inplace else ()) + (f"__{dunder}__",):
            f = ip.class_lookup(a0.cls, nm)
            if f is not None:
                return ip.call(f, [a0, b0])
    if isinstance(b0, Inst) and isinstance(b0.cls, ClassV):
        f = ip.class_lookup(b0.cls, f"__r{dunder}__")
        if f is not None:
            return ip.call(f, [b0, a0])
    need(a)
    need(b)
    if n == "Add":
        if isstr(a) and isstr(b):
            return sstr([a, b])
        if isint(a) and isint(b):
            return ladd(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, ListV):
            if inplace:
                items = list(iterate(ip, b))
                ip.touch(a)
                a.items.extend(items)
                ip.event("mutate", a, "extend", items)
                return a
            if isinstance(b, ListV):
                return ip.new(ListV(a.items + b.items, a.kind))
    elif n == "Sub":
        if isint(a) and isint(b):
            return ladd(a, b, -1)
        if isinstance(a, SetV) and isinstance(b, SetV):
            return setop(ip, a, b, "difference", inplace)
    elif n == "Mult":
        if isinstance(a, int) and (isinstance(b, Lin) or isinstance(b, Term)) and isint(b):
            a, b = b, a
        if isint(a) and isinstance(b, int):
            return lmul(a, int(b))
        if isint(a) and isint(b):
            return Term("mul", a, b, ty="int")
        if isinstance(a, int):
            a, b = b, a
        if isstr(a) and isint(b):
            if isinstance(b, int):
                return sstr([a] * max(0, b))
            return Term("strmul", a, b, ty="str")
        if isinstance(a, (ListV, Tup)) and isinstance(b, int):
            r = list(a.items) * b
            return ip.new(ListV(r)) if isinstance(a, ListV) else Tup(r)
        if isinstance(a, (ListV, Tup)) and isint(b):
            raise Undecided("list of unknown length")
    elif n == "LShift":
        if isint(a) and isinstance(b, int) and b >= 0:
            return lmul(a, 1 << b)
    elif n in ("BitOr", "Add", "BitXor"):
        if isint(a) and isint(b):
            for x, y in ((a, b), (b, a)):
                lx = lin(x)
                ly = lin(y)
                lo, hi = (y, y) if isinstance(y, int) else ip.facts.range(ly)
                if lo >= 0 and hi < INF:
                    m = 1
                    while m <= hi:
                        m *= 2
                    if lx.c % m == 0 and all(v % m == 0 for v in lx.t.values()):
                        xl, _ = ip.facts.range(lx) if lx.t else (lx.c, lx.c)
                        if xl >= 0:
                            return ladd(x, y)
            return Term("bit" + n, a, b, ty="int")
        if isinstance(a, SetV) and isinstance(b, SetV):
            return setop(ip, a, b, "union" if n == "BitOr" else "symmetric_difference", inplace)
        if isinstance(a, DictV) and isinstance(b, DictV) and n == "BitOr":
            d = a if inplace else ip.new(DictV())
            if not inplace:
                d.d.update(a.d)
            else:
                ip.touch(d)
                ip.event("mutate", d, "update")
            for k, v in b.d.values():
                dict_set(ip, d, k, v)
            return d
        if isinstance(a, (ClassV, BuiltinC, ExtC)) or isinstance(b, (ClassV, BuiltinC, ExtC)):
            items = []
            for x in (a, b):
                if isinstance(x, Inst) and isinstance(x.cls, ExtC) and x.cls.dotted == "union":
                    items += x.attrs["items"]
                else:
                    items.append(BuiltinC(type(None)) if x is None else x)
            return ip.new(Inst(ExtC("union"), {"items": items}))
    elif n == "BitAnd":
        if isinstance(a, SetV) and isinstance(b, SetV):
            return setop(ip, a, b, "intersection", inplace)
        if isint(a) and isint(b):
            if isinstance(b, int) and b & (b + 1) == 0 and b > 0:
                # mask of low bits
                lx = lin(a)
                m = b + 1
                c = lx.c % m
                t = {k: v for k, v in lx.t.items() if v % m}
                r = Lin(c, t)
                if t:
                    lo, hi = ip.facts.range(r)
                    if lo >= 0 and hi <= b:
                        return unlin(r)
                else:
                    return c
            return Term("bitand", a, b, ty="int")
    elif n == "Mod":
        if isstr(a):
            return percent(ip, a, b)
        if isint(a) and isint(b):
            if isinstance(b, int) and b == 0:
                ip.raise_("ZeroDivisionError")
            return Term("mod", a, b, ty="int")
    elif n in ("FloorDiv", "RShift"):
        if isint(a) and isint(b):
            return Term(n, a, b, ty="int")
    elif n == "Div":
        if isint(a) and isint(b):
            return Term("div", a, b, ty="float")
    elif n == "Pow":
        if isint(a) and isint(b):
            return Term("pow", a, b, ty="int")
    for x in (a, b):
        if isinstance(x, Term) and x.ty is None:
            raise Undecided(f"operator on {x!r}")
        if isinstance(x, Term) and x.ty in ("float",):
            return Term("arith", n, a, b, ty="float")
        if isinstance(x, Inst) and isinstance(x.cls, ExtC):
            raise Undecided(f"operator on {x!r}")
    if isint(a) and isint(b):
        raise Undecided(f"integer operator {n}")
    ip.raise_("TypeError", f"unsupported operand type(s) for {n}: {ip.typename(a)} and {ip.typename(b)}")


HOSTOPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b,
    "Mult": lambda a, b: a * b if not (isinstance(a, (str, bytes)) and isinstance(b, int) and b > 10000) else None,
    "Div": lambda a, b: a / b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
    "Pow": lambda a, b: a ** b if not (isinstance(b, int) and b > 1000) else None,
    "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b, "BitOr": lambda a, b: a | b,
    "BitAnd": lambda a, b: a & b, "BitXor": lambda a, b: a ^ b, "MatMult": lambda a, b: a @ b,
}


def setop(ip, a, b, what, inplace=False):
    bi = b if isinstance(b, SetV) else None
    if bi is None:
        bi = SetV()
        for x in iterate(ip, b):
            set_add(ip, bi, x)
    av, bv = list(a.d.values()), list(bi.d.values())
    if what == "union":
        r = av + [x for x in bv if not set_has(ip, a, x)]
    elif what == "difference":
        r = [x for x in av if not set_has(ip, bi, x)]
    elif what == "intersection":
        r = [x for x in av if set_has(ip, bi, x)]
    else:
        r = [x for x in av if not set_has(ip, bi, x)] + [x for x in bv if not set_has(ip, a, x)]
    if inplace and not a.frozen:
        ip.touch(a)
        a.d = {key(ip, x): x for x in r}
        ip.event("mutate", a, what, r)
        return a
    s = ip.new(SetV(a.frozen))
    for x in r:
        s.d[key(ip, x)] = x
    return s


def percent(ip, s, args):
    if not isinstance(s, str):
        return Term("percent", s, args, ty="str")
    vals = list(args.items) if isinstance(args, Tup) else None
    out, i, k = [], 0, 0
    cur = ""
    while i < len(s):
        if s[i] != "%":
            cur += s[i]
            i += 1
            continue
        i += 1
        if i < len(s) and s[i] == "%":
            cur += "%"
            i += 1
            continue
        name = None
        if i < len(s) and s[i] == "(":
            j = s.index(")", i)
            name = s[i + 1:j]
            i = j + 1
        spec = ""
        while i < len(s) and s[i] not in "diouxXeEfFgGcrsa":
            spec += s[i]
            i += 1
        if i >= len(s):
            ip.raise_("ValueError", "incomplete format")
        conv = s[i]
        i += 1
        out.append(cur)
        cur = ""
        if name is not None:
            v = getitem(ip, args, name)
        elif vals is None:
            if k:
                ip.raise_("TypeError", "not enough arguments for format string")
            v = args
            k += 1
        else:
            if k >= len(vals):
                ip.raise_("TypeError", "not enough arguments for format string")
            v = vals[k]
            k += 1
        if conv == "s":
            p = str_(ip, v)
        elif conv in "ra":
            p = repr_(ip, v)
        elif conv in "diu" and not spec:
            p = str_(ip, v)
        elif isconst(v):
            p = ("%" + spec + conv) % v
            spec = ""
        else:
            p = Term("fmt", v, "%" + spec + conv, ty="str")
            spec = ""
        if spec:
            p = ("%" + spec + "s") % p if isinstance(p, str) else Term("fmt", p, "%" + spec + conv, ty="str")
        out.append(p)
    out.append(cur)
    if vals is not None and k < len(vals) or vals is None and k == 0 and not isinstance(args, DictV):
        ip.raise_("TypeError", "not all arguments converted during string formatting")
    return sstr(out)


# ------------------------------------------------------------------ str / repr
def str_(ip, v):
    v = ip.R(v)
    if isinstance(v, str):
        return v
    if isconst(v):
        return str(v)
    if isstr(v):
        return v
    if isinstance(v, Inst):
        for b in ip.mro(v.cls):
            if isinstance(b, ClassV):
                if "__str__" in b.ns.vars:
                    r = ip.call(b.ns.vars["__str__"], [v])
                    if not isstr(unwrap(ip, r)):
                        need(r)
                        ip.raise_("TypeError", "__str__ returned non-string")
                    return r
                if b.dataclass and b.dataclass["repr"] or "__repr__" in b.ns.vars:
                    return repr_(ip, v)
        if ip.is_exc(v.cls):
            a = v.attrs.get("args", Tup(()))
            if isinstance(a, Tup):
                if len(a.items) == 0:
                    return ""
                if len(a.items) == 1:
                    if v.cls is BuiltinC(KeyError):
                        return repr_(ip, a.items[0])
                    return str_(ip, a.items[0])
                return repr_(ip, a)
            return Term("excstr", v, ty="str")
        if v.cls.is_enum:
            if any(isinstance(b, ExtC) and b.dotted in ("enum.StrEnum", "enum.IntEnum", "enum.ReprEnum")
                   for b in ip.mro(v.cls)):
                return str_(ip, v.attrs["_value_"])
            return f"{v.cls.name}.{v.attrs['name']}"
        if "__str" in v.attrs:
            return v.attrs["__str"]
    if isint(v) or isinstance(v, Term) and v.ty in ("float", "bool"):
        return Term("str", v, ty="str")
    if isinstance(v, Term) and v.op == "unk":
        return Term("unk", "str of", v, ty="str")
    return repr_(ip, v)


def repr_(ip, v):
    v = ip.R(v)
    if isconst(v):
        return repr(v)
    if isstr(v):
        return Term("repr", v, ty="str")
    if isinstance(v, Inst):
        for b in ip.mro(v.cls):
            if isinstance(b, ClassV):
                if "__repr__" in b.ns.vars:
                    return ip.call(b.ns.vars["__repr__"], [v])
                if b.dataclass and b.dataclass["repr"]:
                    parts = [v.cls.qual.split(v.cls.mod.name + ".", 1)[-1] + "("]
                    for i, f in enumerate(b.dataclass["fields"]):
                        parts += [", " if i else "", f[0] + "=", repr_(ip, v.attrs.get(f[0]))]
                    return sstr(parts + [")"])
        if v.cls.is_enum:
            return sstr([f"<{v.cls.name}.{v.attrs['name']}: ", repr_(ip, v.attrs["_value_"]), ">"])
        if ip.is_exc(v.cls):
            a = v.attrs.get("args")
            items = a.items if isinstance(a, Tup) else ()
            parts = [v.cls.name + "("]
            for i, x in enumerate(items):
                parts += [", " if i else "", repr_(ip, x)]
            return sstr(parts + [")"])
        if "__str" in v.attrs:
            return repr_(ip, v.attrs["__str"])
        return Term("objrepr", v, ty="str")
    if isinstance(v, ListV):
        parts = ["["]
        for i, x in enumerate(v.items):
            parts += [", " if i else "", repr_(ip, x)]
        parts.append("]")
        if v.kind == "deque":
            parts = ["deque("] + parts + [")"]
        return sstr(parts)
    if isinstance(v, Tup):
        parts = ["("]
        for i, x in enumerate(v.items):
            parts += [", " if i else "", repr_(ip, x)]
        return sstr(parts + [",)" if len(v.items) == 1 else ")"])
    if isinstance(v, DictV):
        parts = ["{"]
        for i, (k, x) in enumerate(v.d.values()):
            parts += [", " if i else "", repr_(ip, k), ": ", repr_(ip, x)]
        return sstr(parts + ["}"])
    if isinstance(v, SetV):
        if not v.d:
            return "set()"
        parts = ["{"]
        for i, x in enumerate(iterate(ip, v)):
            parts += [", " if i else "", repr_(ip, x)]
        return sstr(parts + ["}"])
    if isint(v) or isinstance(v, Term) and v.ty in ("float", "bool"):
        return Term("str", v, ty="str")
    if isinstance(v, (ClassV, BuiltinC, ExtC)):
        return f"<class '{v.name}'>"
    return Term("objrepr", v, ty="str")


def format_(ip, v, spec=""):
    v = ip.R(v)
    if isinstance(v, Inst) and isinstance(v.cls, ClassV):
        f = ip.class_lookup(v.cls, "__format__")
        if f is not None:
            return ip.call(f, [v, spec])
    if spec == "":
        return str_(ip, v)
    if isinstance(v, Inst):
        v = str_(ip, v)
    if isconst(v) and isinstance(spec, str):
        try:
            return format(v, spec)
        except Exception as e:  # noqa: BLE001
            ip.raise_(type(e).__name__, *e.args)
    if v is None or isinstance(v, (ListV, DictV, SetV, Tup)):
        ip.raise_("TypeError", "unsupported format string passed to __format__")
    need(v)
    return Term("format", v, spec, ty="str")


def str_len(ip, s):
    es = selems(s)
    if all(known_len(e) for e in es):
        return len(es)
    r = 0
    for e in es:
        n = 1 if known_len(e) else Term("len", e, ty="nat")
        if isinstance(n, Term) and isinstance(e, Term) and e.op == "normalize" and n not in ip.facts.bounds and \
                at_least_one(ip, str_len(ip, e.args[1])):
            ip.facts.bounds[n] = (1, INF)      # normalisation leaves no text without characters
        r = ladd(r, n)
    return r


def at_least_one(ip, n):
    return n > 0 if isinstance(n, int) else ip.facts.range(lin(n))[0] > 0


def length(ip, v):
    v = unwrap(ip, v)
    if isinstance(v, (ListV, Tup)):
        return len(v.items)
    if isinstance(v, (DictV, SetV)):
        return len(v.d)
    if isstr(v):
        n = str_len(ip, v)
        if isinstance(v, Term):
            d = ip.facts.dom.get(v)
            if d and d[0] == "in":
                ls = {len(x) for x in d[1]}
                if len(ls) == 1:
                    return ls.pop()
                for c in sorted(d[1]):
                    if term_eq_const(ip, v, c):
                        return len(c)
        return n
    if isinstance(v, (bytes,)):
        return len(v)
    if isinstance(v, Term) and v.op == "encode" and v.args[1] in ASCII_COMPATIBLE and all_ascii(ip, v.args[0]):
        return length(ip, v.args[0])
    if isinstance(v, Term) and v.ty == "bytes":
        return Term("len", v, ty="nat")
    if isinstance(v, Inst):
        f = ip.class_lookup(v.cls, "__len__")
        if f is not None:
            return ip.call(f, [v])
        if "__view" in v.attrs:
            return len(v.attrs["__view"]())
        if isinstance(v.cls, ExtC):
            raise Undecided(f"len of {v!r}")
    if isinstance(v, ClassV) and v.is_enum:
        return len(v.members)
    if isinstance(v, Term) and v.op == "range":
        raise Undecided("len of range")
    need(v)
    if isinstance(v, Term) and v.ty is None:
        raise Undecided(f"len of {v!r}")
    ip.raise_("TypeError", f"object of type {ip.typename(v)!r} has no len()")


def callable_(ip, v):
    v = ip.R(v)
    if isinstance(v, (FuncV, BoundM, BuiltinF, ClassV, BuiltinC, ExtC, PartialV)):
        return True
    if isinstance(v, Inst):
        return ip.class_lookup(v.cls, "__call__") is not None
    need(v)
    return False


# ------------------------------------------------------------------ str methods
STR_RET = {
    "upper": "str", "lower": "str", "casefold": "str", "capitalize": "str", "title": "str", "swapcase": "str",
    "strip": "str", "lstrip": "str", "rstrip": "str", "replace": "str", "translate": "str", "expandtabs": "str",
    "center": "str", "ljust": "str", "rjust": "str", "zfill": "str", "removeprefix": "str", "removesuffix": "str",
    "isspace": "bool", "isalpha": "bool", "isdigit": "bool", "isalnum": "bool", "isupper": "bool",
    "islower": "bool", "isnumeric": "bool", "isdecimal": "bool", "isidentifier": "bool", "istitle": "bool",
    "isascii": "bool", "isprintable": "bool", "count": "nat", "startswith": "bool", "endswith": "bool",
    "find": "int", "rfind": "int", "index": "int", "rindex": "int",
}
STR_OTHER = ("join", "format", "split", "rsplit", "splitlines", "partition", "rpartition", "encode", "__contains__",
             "__len__", "__eq__", "__ne__", "__getitem__", "__add__", "__str__", "__iter__", "__hash__",
             "__lt__", "__gt__", "__le__", "__ge__", "__mod__", "__mul__", "__format__", "__repr__", "format_map")


def tohost(ip, v):
    """constant abstract value -> host value (raises KeyError if not constant)"""
    v = unwrap(ip, v)
    if isconst(v):
        return v
    if isinstance(v, Tup):
        return tuple(tohost(ip, x) for x in v.items)
    if isinstance(v, DictV):
        return {tohost(ip, k): tohost(ip, x) for k, x in v.d.values()}
    if isinstance(v, ListV) and v.kind == "list":
        return [tohost(ip, x) for x in v.items]
    raise KeyError


def fromhost(ip, v):
    if isconst(v):
        return v
    if isinstance(v, tuple):
        return Tup([fromhost(ip, x) for x in v])
    if isinstance(v, list):
        return ip.new(ListV([fromhost(ip, x) for x in v]))
    if isinstance(v, dict):
        d = ip.new(DictV())
        for k, x in v.items():
            dict_set(ip, d, fromhost(ip, k), fromhost(ip, x))
        return d
    raise Undecided("host value")


def freeze(v):
    if isinstance(v, DictV):
        return Tup([Tup(kv) for kv in v.d.values()])
    if isinstance(v, ListV):
        return Tup(v.items)
    return v


def str_method(ip, s, name, args, kw):
    s = ip.R(s)
    args = [unwrap(ip, a) for a in args]
    if name in ("__contains__", "__eq__", "__ne__", "__getitem__", "__add__", "__len__", "__str__", "__iter__",
                "__hash__", "__lt__", "__gt__", "__le__", "__ge__", "__mod__", "__mul__", "__format__", "__repr__"):
        if name == "__contains__":
            return contains(ip, s, args[0])
        if name == "__eq__":
            return eq(ip, s, args[0])
        if name == "__ne__":
            return not truth(ip, eq(ip, s, args[0]))
        if name == "__getitem__":
            return getitem(ip, s, args[0])
        if name == "__add__":
            return binop(ip, ast.Add(), s, args[0])
        if name == "__len__":
            return length(ip, s)
        if name == "__str__":
            return s
        if name == "__format__":
            return format_(ip, s, args[0])
        if name == "__repr__":
            return repr_(ip, s)
        if name == "__mod__":
            return percent(ip, s, args[0])
        raise Undecided(f"str.{name}")
    if name == "join":
        items = [unwrap(ip, x) for x in iterate(ip, args[0])]
        out = []
        for i, x in enumerate(items):
            if not isstr(x):
                need(x)
                if isinstance(x, Term) and x.ty is None:
                    raise Undecided("join of unknown")
                ip.raise_("TypeError", f"sequence item {i}: expected str instance, {ip.typename(x)} found")
            if i:
                out.append(s)
            out.append(x)
        return sstr(out)
    if name == "format":
        return str_format(ip, s, args, kw)
    for a in args:
        need(a)
    if isinstance(s, str):
        try:
            ha = [tohost(ip, a) for a in args]
            hk = {k: tohost(ip, v) for k, v in kw.items()}
        except KeyError:
            pass
        else:
            try:
                r = getattr(s, name)(*ha, **hk)
            except Exception as e:  # noqa: BLE001
                ip.raise_(type(e).__name__, *e.args)
            return fromhost(ip, r)
    if name == "encode":
        return encode(ip, s, args, kw)
    if name in ("startswith", "endswith") and len(args) == 1:
        if isinstance(args[0], Tup):
            return any(truth(ip, str_method(ip, s, name, [p], {})) for p in args[0].items)
        return affix(ip, s, args[0], name == "startswith")
    es = selems(s)
    allk = all(known_len(e) for e in es)
    r = alpha_method(ip, s, es, name, args)
    if r is not None:
        return r
    if name in ("isspace", "isdigit", "isalpha", "isalnum", "isnumeric", "isdecimal", "isascii", "isprintable") \
            and isinstance(s, SStr):
        for e in es:
            if isinstance(e, str) and not getattr(e, name)():
                return False
    if name == "isspace" and isinstance(s, Term):
        d = ip.facts.dom.get(s)
        if d and d[0] == "in":
            yes = [c for c in d[1] if c.isspace()]
            if len(yes) == len(d[1]):
                return True
            if not yes:
                return False
        if s.ty in ("hexchar", "digits"):
            return False
    if isinstance(s, Term) and s in ip.facts.dom and ip.facts.dom[s][0] == "in" and len(ip.facts.dom[s][1]) <= 400 \
            and name not in ("split", "partition"):
        for c in sorted(ip.facts.dom[s][1]):
            if term_eq_const(ip, s, c):
                return str_method(ip, c, name, args, kw)
    if name == "translate" and len(args) == 1 and isinstance(args[0], DictV):
        return translate(ip, es, args[0])
    if name == "replace" and len(args) == 2 and allk and isinstance(args[0], str) and len(args[0]) == 1:
        out = []
        for e in es:
            if truth(ip, elem_eq(ip, e, args[0])):
                out.append(args[1])
            else:
                out.append(e)
        return sstr(out)
    if name in ("find", "index") and len(args) == 1 and allk and isstr(args[0]):
        xe = selems(args[0])
        if all(known_len(e) for e in xe):
            for i in range(len(es) - len(xe) + 1):
                if all(truth(ip, elem_eq(ip, a, b)) for a, b in zip(es[i:i + len(xe)], xe)):
                    return i
            if name == "find":
                return -1
            ip.raise_("ValueError", "substring not found")
    if args and isinstance(args[0], str) and len(args[0]) == 1 and not kw:
        r = at_separator(ip, s, es, name, *args)
        if r is not None:
            return r
    if name in ("removeprefix", "removesuffix") and isstr(args[0]):
        pre = name == "removeprefix"
        if truth(ip, affix(ip, s, args[0], pre)):
            n = length(ip, args[0])
            if n == 0:
                return s
            return getslice(ip, s, ("slice", n, None, None) if pre else ("slice", None, ip.R(lmul(n, -1)), None))
        return s
    if name in ("strip", "lstrip", "rstrip") and allk:
        cs = args[0] if args and args[0] is not None else None
        if cs is None or isinstance(cs, str):
            def strippable(e):
                if isinstance(e, str):
                    return e.isspace() if cs is None else e in cs
                if cs is None:
                    return truth(ip, Term("m:isspace", e, ty="bool"))
                return any(truth(ip, elem_eq(ip, e, c)) for c in cs)
            if name != "rstrip":
                while es and strippable(ip.R(es[0])):
                    es = es[1:]
            if name != "lstrip":
                while es and strippable(ip.R(es[-1])):
                    es = es[:-1]
            return sstr(es)
    if name in ("upper", "lower", "casefold") and allk:
        out = []
        for e in es:
            e = ip.R(e)
            out.append(getattr(e, name)() if isinstance(e, str) else Term("m:" + name, e, ty="str" if e.ty != "hexchar" else "hexchar"))
        return sstr(out)
    if name in STR_RET:
        ty = STR_RET[name]
        fa = [freeze(a) for a in args] + [Tup((k, freeze(v))) for k, v in sorted(kw.items())]
        if name in ("index", "rindex"):
            raise Undecided(f"str.{name} on an unknown string")
        t = Term("m:" + name, s, *fa, ty=ty)
        if name in ("find", "rfind"):
            if len(args) == 1 and isinstance(args[0], str):
                if not truth(ip, str_contains(ip, s, args[0])):
                    return -1
                ip.facts.bounds.setdefault(t, (0, INF))
            ip.facts.bounds.setdefault(t, (-1, INF))
        return t
    raise Undecided(f"str.{name} on {s!r}")


def at_separator(ip, s, es, name, sep, limit=None):
    """methods that look for one character, where each part of the string is either one character or certainly
    without that character"""
    if name not in ("split", "rsplit", "partition", "rpartition", "find", "index", "rfind", "rindex", "count") \
            or not all(known_len(e) or ip.facts.lacks(e, sep) for e in es) \
            or limit is not None and (name not in ("split", "rsplit") or not isinstance(limit, int)):
        return None
    at = lambda e: not ip.facts.lacks(e, sep) and truth(ip, elem_eq(ip, e, sep))  # noqa: E731
    if name == "count":
        return sum(1 for e in es if at(e))
    back = name.startswith("r")
    order = range(len(es) - 1, -1, -1) if back else range(len(es))
    if name in ("split", "rsplit"):
        cuts = []
        for i in order:
            if limit is not None and 0 <= limit <= len(cuts):
                break
            if at(es[i]):
                cuts.append(i)
        cuts.sort()
        return ip.new(ListV([sstr(es[a + 1:b]) for a, b in zip([-1] + cuts, cuts + [len(es)])]))
    for i in order:
        if at(es[i]):
            if name.endswith("partition"):
                return Tup((sstr(es[:i]), sep, sstr(es[i + 1:])))
            return length(ip, sstr(es[:i]))
    if name.endswith("partition"):
        return Tup(("", "", s)) if back else Tup((s, "", ""))
    if name in ("find", "rfind"):
        return -1
    ip.raise_("ValueError", "substring not found")


WSP = "".join(chr(c) for c in range(0x3001) if chr(c).isspace())


def alpha_method(ip, s, es, name, args):
    """results that follow from the alphabets of the parts alone"""
    lacks, F = ip.facts.lacks, ip.facts
    a0 = args[0] if args else None
    if name == "isspace":
        if any(F.nonempty(e) and lacks(e, WSP) for e in es):
            return False
    elif name == "isascii":
        if all(F.ascii(e) for e in es):
            return True
        if any(isinstance(e, str) and not e.isascii() for e in es):
            return False
        for e in es:
            if not F.ascii(e) and not truth(ip, Term("m:isascii", e, ty="bool")):
                return False
        return True
    elif name in ("strip", "lstrip", "rstrip"):
        cs = WSP if a0 is None else a0
        if isinstance(cs, str) and es:
            rest = list(es)
            gone = lambda e: e in cs if isinstance(e, str) else F.within(e, cs)  # noqa: E731
            while rest and name != "rstrip" and gone(rest[0]):
                rest.pop(0)
            while rest and name != "lstrip" and gone(rest[-1]):
                rest.pop()
            if len(rest) < len(es):
                return str_method(ip, sstr(rest), name, args, {}) if rest else ""
            ok = all(F.nonempty(e) and lacks(e, cs) for e in (
                [es[0]] if name == "lstrip" else [es[-1]] if name == "rstrip" else [es[0], es[-1]]))
            if ok:
                return s
    elif name == "replace" and isinstance(a0, str) and a0:
        if any(all(lacks(e, c) for e in es) for c in a0):
            return s
    elif name in ("find", "rfind") and isinstance(a0, str) and a0 and len(args) == 1:
        if any(all(lacks(e, c) for e in es) for c in a0):
            return -1
    elif name == "count" and isinstance(a0, str) and a0 and len(args) == 1:
        if any(all(lacks(e, c) for e in es) for c in a0):
            return 0
    elif name in ("split", "rsplit") and isinstance(a0, str) and a0:
        if any(all(lacks(e, c) for e in es) for c in a0):
            return ip.new(ListV([s]))
    elif name in ("split", "rsplit") and a0 is None:
        if es and all(lacks(e, WSP) for e in es) and any(F.nonempty(e) for e in es):
            return ip.new(ListV([s]))
    elif name == "splitlines":
        if es and all(lacks(e, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") for e in es) and any(F.nonempty(e) for e in es):
            return ip.new(ListV([s]))
    elif name == "expandtabs":
        if all(lacks(e, "\t") for e in es):
            return s
    elif name in ("partition", "rpartition") and isinstance(a0, str) and a0:
        if any(all(lacks(e, c) for e in es) for c in a0):
            return Tup((s, "", "")) if name == "partition" else Tup(("", "", s))
    return None


def translate(ip, es, d):
    out = []
    for e in es:
        e = ip.R(e)
        if isinstance(e, str):
            j = d.d.get(("int", ord(e)))
            if j is None:
                out.append(e)
            elif j[1] is not None:
                out.append(chr(j[1]) if isinstance(j[1], int) else j[1])
        elif e.ty in CHAR:
            done = False
            for k, v in d.d.values():
                if not isinstance(k, int):
                    raise Undecided("translate table")
                if term_eq_const(ip, e, chr(k)):
                    if v is not None:
                        out.append(chr(v) if isinstance(v, int) else v)
                    done = True
                    break
            if not done:
                out.append(e)
        elif all(isinstance(k, int) and ip.facts.lacks(e, chr(k)) for k, _ in d.d.values()):
            out.append(e)
        else:
            out.append(Term("m:translate", e, freeze(d), ty="str"))
    return sstr(out)


def affix(ip, s, p, start):
    s, p = ip.R(s), unwrap(ip, p)
    if not isstr(p):
        need(p)
        ip.raise_("TypeError", "startswith first arg must be str or a tuple of str")
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p) if start else s.endswith(p)
    if p == "":
        return True
    es, pe = selems(s), selems(p)
    if not start:
        es, pe = es[::-1], pe[::-1]
    for i, x in enumerate(pe):
        if i >= len(es):
            return False if known_len(x) else Term("affix", s, p, start, ty="bool")
        e = es[i]
        if known_len(e) and known_len(x):
            if not truth(ip, elem_eq(ip, e, x)):
                return False
            continue
        if e is x:
            continue
        if isinstance(e, Term) and isinstance(x, str) and ip.facts.nonempty(e) and ip.facts.lacks(e, x):
            return False
        if isinstance(s, Term):
            d = ip.facts.dom.get(s)
            if d and d[0] == "in" and isinstance(p, str):
                f = str.startswith if start else str.endswith
                yes = [c for c in d[1] if f(c, p)]
                if len(yes) == len(d[1]):
                    return True
                if not yes:
                    return False
        return Term("m:startswith" if start else "m:endswith", s, p, ty="bool")
    return True


def str_format(ip, s, args, kw):
    held = {}
    if not isinstance(s, str):
        t = []
        for e in selems(s):
            e = ip.R(e)
            if isinstance(e, str):
                t.append(e)
                continue
            for c in "{}":
                if not ip.facts.lacks(e, c) and truth(ip, str_contains(ip, e, c)):
                    return Term("m:format", s, *[freeze(a) for a in args], ty="str")
            t.append(chr(0xF0000 + len(held)))
            held[t[-1]] = e
        s = "".join(t)
    out, auto = [], 0
    try:
        fields = list(_string.Formatter().parse(s))
    except ValueError as e:
        ip.raise_("ValueError", *e.args)
    for lit, field, spec, conv in fields:
        if any(c in (field or "") + (spec or "") for c in held):
            raise Undecided("format with unknown fields")
        out.extend(held.get(c, c) for c in lit)
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field) if hasattr(_string, "_string") else (field, ())
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int) or str(first).isdigit():
            first = int(first)
            if first >= len(args):
                ip.raise_("IndexError", "Replacement index out of range")
            v = args[first]
        else:
            if first not in kw:
                ip.raise_("KeyError", first)
            v = kw[first]
        for isattr, nm in rest:
            v = ip.getattr(v, nm) if isattr else getitem(ip, v, nm)
        if conv == "r":
            v = repr_(ip, v)
        elif conv == "s":
            v = str_(ip, v)
        if spec and "{" in spec:
            raise Undecided("nested format spec")
        out.append(format_(ip, v, spec or ""))
    return sstr(out)


# ------------------------------------------------------------------ methods
def method(ip, o, name):
    o = ip.R(o)
    if isstr(o):
        if name in STR_RET or name in STR_OTHER:
            return BuiltinF(f"str.{name}", lambda a, k: str_method(ip, o, name, a, k))
        if name == "maketrans":
            return builtin_attr(ip, str, "maketrans")
        return None
    tab = None
    if isinstance(o, ListV):
        tab = LIST_M if o.kind == "list" else DEQUE_M
    elif isinstance(o, DictV):
        tab = DICT_M
    elif isinstance(o, SetV):
        tab = SET_M
    elif isinstance(o, Tup):
        tab = TUP_M
    elif isinstance(o, IterV):
        tab = ITER_M
    if tab is not None:
        f = tab.get(name)
        if f is None:
            return None
        return BuiltinF(f"{type(o).__name__}.{name}", lambda a, k: f(ip, o, *a, **k))
    if isint(o):
        if name in ("real", "numerator"):
            return o
        if name == "bit_length" and isinstance(o, int):
            return BuiltinF("int.bit_length", lambda a, k: o.bit_length())
        if name == "__eq__":
            return BuiltinF("int.__eq__", lambda a, k: eq(ip, o, a[0]))
        if name == "to_bytes":
            raise Undecided("int.to_bytes")
    if isinstance(o, bytes) and callable(getattr(o, name, None)):
        def hostm(a, k):
            try:
                ha, hk = [tohost(ip, x) for x in a], {x: tohost(ip, y) for x, y in k.items()}
            except KeyError:
                raise Undecided(f"bytes.{name} of unknown values")
            try:
                r = getattr(o, name)(*ha, **hk)
            except UnicodeDecodeError as e:
                ip.raise_("UnicodeDecodeError", str(e))
            except Exception as e:  # noqa: BLE001
                ip.raise_(type(e).__name__, *e.args)
            return fromhost(ip, r)
        return BuiltinF("bytes." + name, hostm)
    if isinstance(o, Term) and o.ty == "bytes":
        if name == "decode":
            return BuiltinF("bytes.decode", lambda a, k: decode(ip, o, a, k))
        if hasattr(bytes, name):
            raise Undecided(f"bytes.{name} on an unknown value")
    return None


def codec_args(ip, args, kw):
    enc = unwrap(ip, args[0]) if args else unwrap(ip, kw["encoding"]) if "encoding" in kw else "utf-8"
    err = unwrap(ip, args[1]) if len(args) > 1 else unwrap(ip, kw["errors"]) if "errors" in kw else "strict"
    if not isinstance(enc, str) or not isinstance(err, str):
        raise Undecided("unknown codec")
    try:
        return codecs.lookup(enc).name, err
    except LookupError as e:
        ip.raise_("LookupError", str(e))


def all_ascii(ip, s):
    """decides (one path each) whether the text s is pure ASCII"""
    return truth(ip, str_method(ip, s, "isascii", [], {}))


def encode(ip, s, args, kw):
    enc, err = codec_args(ip, args, kw)
    if enc in ("ascii", "iso8859-1") and not all_ascii(ip, s):
        if enc == "ascii" and err == "strict":
            ip.raise_("UnicodeEncodeError", "ordinal not in range(128)")
        if enc == "ascii" and err in ("ignore", "replace") and all(known_len(e) for e in selems(s)):
            kept = []
            for e in selems(s):
                if all_ascii(ip, e):
                    kept.append(e)
                elif err == "replace":
                    kept.append("?")
            return Term("encode", sstr(kept), enc, "strict", ty="bytes")
        raise Undecided(f"str.encode({enc}, {err}) of a text that may not be ASCII")
    return Term("encode", s, enc, err, ty="bytes")


ASCII_COMPATIBLE = ("utf-8", "ascii", "iso8859-1", "cp1252", "utf-8-sig")


def decode(ip, b, args, kw):
    enc, err = codec_args(ip, args, kw)
    if b.op == "encode" and b.args[1] in ("utf-8", "ascii", "iso8859-1", "utf-16", "utf-32"):
        s = b.args[0]
        if enc == b.args[1]:
            return s
        if b.args[1] not in ASCII_COMPATIBLE:
            raise Undecided("decoding with another codec")
        if enc in ("unicode-escape", "raw-unicode-escape") or enc in ASCII_COMPATIBLE:
            if not all_ascii(ip, s):
                return Term("bdecode", b, enc, err, ty="str")
            if enc in ASCII_COMPATIBLE:
                return s
            out = []
            for e in selems(s):
                if isinstance(e, str) and out and isinstance(out[-1], str):
                    out[-1] += e
                else:
                    out.append(e)
            for i, e in enumerate(out):
                if isinstance(e, str):
                    if i + 1 < len(out) and re.search(r"\\([xuUN][^\\]*|[0-7]{0,2})?\Z", e):
                        return Term("bdecode", b, enc, err, ty="str")
                    try:
                        out[i] = e.encode().decode(enc, err)
                    except UnicodeDecodeError as x:
                        ip.raise_("UnicodeDecodeError", str(x))
                elif not ip.facts.lacks(e, "\\"):
                    if e.ty in CHAR and not truth(ip, elem_eq(ip, e, "\\")):
                        continue
                    return Term("bdecode", b, enc, err, ty="str")
            return sstr(out)
    return Term("bdecode", b, enc, err, ty="str")


def bslice(ip, b, a, z, c):
    """slice of an encoded text: the same slice of the text as long as the text is ASCII"""
    if b.op == "encode" and b.args[1] in ASCII_COMPATIBLE and all_ascii(ip, b.args[0]):
        return Term("encode", getslice(ip, b.args[0], ("slice", a, z, c)), *b.args[1:], ty="bytes")
    return Term("bslice", b, a, z, c, ty="bytes")


def mut(name):
    def deco(f):
        def g(ip, o, *a, **k):
            ip.touch(o)
            r = f(ip, o, *a, **k)
            ip.event("mutate", o, name, a)
            return r
        return g
    return deco


def _trim(o, left):
    if o.maxlen is not None:
        while len(o.items) > o.maxlen:
            if left:
                o.items.pop()
            else:
                o.items.pop(0)


@mut("append")
def l_append(ip, o, x):
    o.items.append(x)
    _trim(o, False)


@mut("appendleft")
def l_appendleft(ip, o, x):
    o.items.insert(0, x)
    _trim(o, True)


@mut("extend")
def l_extend(ip, o, it):
    o.items.extend(list(iterate(ip, it)))
    _trim(o, False)


@mut("extendleft")
def l_extendleft(ip, o, it):
    for x in list(iterate(ip, it)):
        o.items.insert(0, x)


@mut("insert")
def l_insert(ip, o, i, x):
    k = index_const(ip, i)
    if k is None:
        raise Undecided("insert at unknown index")
    o.items.insert(k, x)


@mut("pop")
def l_pop(ip, o, i=-1):
    if not o.items:
        ip.raise_("IndexError", "pop from an empty deque" if o.kind == "deque" else "pop from empty list")
    k = index_const(ip, i)
    if k is None:
        k = sym_index(ip, i, len(o.items))
    if k is None or not -len(o.items) <= k < len(o.items):
        ip.raise_("IndexError", "pop index out of range")
    return o.items.pop(k)


@mut("popleft")
def l_popleft(ip, o):
    if not o.items:
        ip.raise_("IndexError", "pop from an empty deque")
    return o.items.pop(0)


@mut("clear")
def l_clear(ip, o):
    o.items.clear()


@mut("reverse")
def l_reverse(ip, o):
    o.items.reverse()


@mut("rotate")
def l_rotate(ip, o, n=1):
    if not isinstance(n, int):
        raise Undecided("rotate")
    if o.items:
        n %= len(o.items)
        o.items[:] = o.items[-n:] + o.items[:-n] if n else o.items


@mut("remove")
def l_remove(ip, o, x):
    for i, y in enumerate(o.items):
        if truth(ip, eq(ip, y, x)):
            del o.items[i]
            return
    ip.raise_("ValueError", "list.remove(x): x not in list")


@mut("sort")
def l_sort(ip, o, key=None, reverse=False):
    o.items[:] = sort(ip, o.items, key, reverse)


def l_index(ip, o, x, start=0, stop=None):
    start = index_const(ip, start)
    for i, y in enumerate(o.items):
        if i >= start and (stop is None or i < stop) and truth(ip, eq(ip, y, x)):
            return i
    ip.raise_("ValueError", "value is not in list")


def l_count(ip, o, x):
    return sum(1 for y in o.items if truth(ip, eq(ip, y, x)))


def l_copy(ip, o):
    return ip.new(ListV(o.items, o.kind, o.maxlen))


def seq_common():
    return {
        "index": l_index, "count": l_count, "__len__": lambda ip, o: len(o.items),
        "__getitem__": lambda ip, o, i: getitem(ip, o, i), "__iter__": lambda ip, o: ip.new(IterV(iterate(ip, o))),
        "__contains__": lambda ip, o, x: contains(ip, o, x),
        "__eq__": lambda ip, o, x: eq(ip, o, x),
        "__reversed__": lambda ip, o: ip.new(IterV(iter(list(o.items)[::-1]))),
        "__setitem__": lambda ip, o, i, v: setitem(ip, o, i, v),
    }


LIST_M = dict(seq_common(), append=l_append, extend=l_extend, insert=l_insert, pop=l_pop, clear=l_clear,
              reverse=l_reverse, remove=l_remove, sort=l_sort, copy=l_copy, __copy__=l_copy)
DEQUE_M = dict(LIST_M, appendleft=l_appendleft, popleft=l_popleft, extendleft=l_extendleft, rotate=l_rotate)
DEQUE_M.pop("sort")
TUP_M = seq_common()


def d_get(ip, o, k, default=None):
    j = dict_find(ip, o, k)
    return default if j is None else o.d[j][1]


def d_setdefault(ip, o, k, default=None):
    j = dict_find(ip, o, k)
    if j is not None:
        return o.d[j][1]
    dict_set(ip, o, k, default)
    ip.event("mutate", o, "setdefault", (k, default))
    return default


_MISSING = object()


def d_pop(ip, o, k, default=_MISSING):
    j = dict_find(ip, o, k)
    if j is None:
        if default is _MISSING:
            ip.raise_("KeyError", k)
        return default
    ip.touch(o)
    ip.event("mutate", o, "pop", k)
    return o.d.pop(j)[1]


@mut("update")
def d_update(ip, o, other=None, **kw):
    if isinstance(other, DictV):
        for k, v in list(other.d.values()):
            dict_set(ip, o, k, v)
    elif other is not None:
        for p in iterate(ip, other):
            k, v = list(iterate(ip, p))
            dict_set(ip, o, k, v)
    for k, v in kw.items():
        dict_set(ip, o, k, v)


@mut("clear")
def d_clear(ip, o):
    o.d.clear()


def d_copy(ip, o):
    d = ip.new(DictV())
    d.d.update(o.d)
    d.default_factory = o.default_factory
    return d


def view(ip, o, f):
    return ip.new(Inst(ExtC("builtins.dict_view"), {"__view": lambda: f(o)}))


@mut("popitem")
def d_popitem(ip, o):
    if not o.d:
        ip.raise_("KeyError", "popitem(): dictionary is empty")
    k = list(o.d)[-1]
    return Tup(o.d.pop(k))


DICT_M = {
    "get": d_get, "setdefault": d_setdefault, "pop": d_pop, "update": d_update, "clear": d_clear, "copy": d_copy,
    "popitem": d_popitem,
    "keys": lambda ip, o: view(ip, o, lambda d: [k for k, _ in d.d.values()]),
    "values": lambda ip, o: view(ip, o, lambda d: [v for _, v in d.d.values()]),
    "items": lambda ip, o: view(ip, o, lambda d: [Tup(kv) for kv in d.d.values()]),
    "__len__": lambda ip, o: len(o.d), "__contains__": lambda ip, o, k: contains(ip, o, k),
    "__getitem__": lambda ip, o, k: getitem(ip, o, k), "__setitem__": lambda ip, o, k, v: setitem(ip, o, k, v),
    "__iter__": lambda ip, o: ip.new(IterV(iterate(ip, o))),
}


@mut("add")
def s_add(ip, o, x):
    set_add(ip, o, x)


@mut("update")
def s_update(ip, o, *its):
    for it in its:
        for x in list(iterate(ip, it)):
            set_add(ip, o, x)


@mut("discard")
def s_discard(ip, o, x):
    for k, y in list(o.d.items()):
        if truth(ip, eq(ip, y, x)):
            del o.d[k]
            return


@mut("remove")
def s_remove(ip, o, x):
    for k, y in list(o.d.items()):
        if truth(ip, eq(ip, y, x)):
            del o.d[k]
            return
    ip.raise_("KeyError", x)


@mut("clear")
def s_clear(ip, o):
    o.d.clear()


@mut("pop")
def s_pop(ip, o):
    if not o.d:
        ip.raise_("KeyError", "pop from an empty set")
    k = list(o.d)[ip.choose(len(o.d), "set.pop")]
    return o.d.pop(k)


def toset(ip, it):
    if isinstance(it, SetV):
        return it
    s = ip.new(SetV())
    for x in iterate(ip, it):
        set_add(ip, s, x)
    return s


def s_op(what):
    def f(ip, o, *others):
        r = o
        for x in others:
            r = setop(ip, r, toset(ip, x), what)
        if r is o:
            r = ip.new(SetV(o.frozen))
            r.d.update(o.d)
        return r
    return f


SET_M = {
    "add": s_add, "update": s_update, "discard": s_discard, "remove": s_remove, "clear": s_clear, "pop": s_pop,
    "union": s_op("union"), "intersection": s_op("intersection"), "difference": s_op("difference"),
    "symmetric_difference": s_op("symmetric_difference"), "copy": s_op("union"),
    "issubset": lambda ip, o, x: set_le(ip, o, toset(ip, x)),
    "issuperset": lambda ip, o, x: set_le(ip, toset(ip, x), o),
    "isdisjoint": lambda ip, o, x: not any(set_has(ip, o, y) for y in list(iterate(ip, x))),
    "__contains__": lambda ip, o, x: set_has(ip, o, x), "__len__": lambda ip, o: len(o.d),
    "__iter__": lambda ip, o: ip.new(IterV(iterate(ip, o))),
}
for _n, _w in (("difference_update", "difference"), ("intersection_update", "intersection")):
    def _f(ip, o, x, _w=_w):
        setop(ip, o, toset(ip, x), _w, inplace=True)
    SET_M[_n] = _f


def it_next(ip, o):
    for x in o.it:
        return x
    ip.raise_("StopIteration")


ITER_M = {"__next__": it_next, "__iter__": lambda ip, o: o, "close": lambda ip, o: None}


def sort(ip, items, key=None, reverse=False):
    ks = []
    for x in items:
        k = ip.call(key, [x]) if key is not None else x
        ks.append((k, x))
    rev = truth(ip, reverse)
    # insertion sort with the abstract order
    out = []
    for k, x in ks:
        i = len(out)
        while i > 0 and truth(ip, compare(ip, ast.Lt(), k, out[i - 1][0]) if not rev
                              else compare(ip, ast.Gt(), k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


# ------------------------------------------------------------------ builtin classes
def builtin_attr(ip, py, name):
    """attribute of a builtin class, as an unbound function"""
    if py is object:
        if name == "__init__":
            def init(a, k):
                return None
            return BuiltinF("object.__init__", init)
        if name == "__new__":
            f = BuiltinF("object.__new__", lambda a, k: ip.new(Inst(a[0], {})))
            f.static = True
            return f
        if name == "__setattr__":
            return BuiltinF("object.__setattr__", lambda a, k: ip.setattr_raw(a[0], a[1], a[2]))
        if name == "__getattribute__":
            return BuiltinF("object.__getattribute__", lambda a, k: ip.getattr_inst(a[0], a[1]))
        if name == "__eq__":
            return BuiltinF("object.__eq__", lambda a, k: ip.R(a[0]) is ip.R(a[1]))
        if name == "__ne__":
            return BuiltinF("object.__ne__", lambda a, k: not truth(ip, eq(ip, a[0], a[1])))
        if name == "__hash__":
            return BuiltinF("object.__hash__", lambda a, k: Term("hash", a[0], ty="int"))
        if name in ("__str__", "__repr__"):
            def rep(a, k):
                o = ip.R(a[0])
                return str_(ip, o) if name == "__str__" and isinstance(o, Inst) and not isinstance(
                    o.cls, ClassV) else Term("objrepr", o, ty="str")
            return BuiltinF("object." + name, rep)
        if name == "__format__":
            return BuiltinF("object.__format__", lambda a, k: format_(ip, a[0], a[1]))
        if name == "__init_subclass__":
            return BuiltinF("object.__init_subclass__", lambda a, k: None)
        return None
    if isinstance(py, type) and issubclass(py, BaseException):
        if name == "__init__" and py is BaseException:
            def einit(a, k):
                a[0].attrs["args"] = Tup(a[1:])
            return BuiltinF("BaseException.__init__", einit)
        if name == "with_traceback" and py is BaseException:
            return BuiltinF("with_traceback", lambda a, k: a[0])
        if name == "add_note" and py is BaseException:
            return BuiltinF("add_note", lambda a, k: None)
        if name == "__traceback__" and py is BaseException:
            return PropV(BuiltinF("tb", lambda a, k: None))
        if name == "__str__" and py is BaseException:
            def estr(a, k):
                t = a[0].attrs.get("args", Tup(()))
                return "" if not t.items else str_(ip, t.items[0]) if len(t.items) == 1 else repr_(ip, t)
            return BuiltinF("BaseException.__str__", estr)
        return None
    if py is str:
        if name == "__new__":
            def new(a, k):
                c = a[0]
                s = str_(ip, a[1]) if len(a) > 1 else ""
                if isinstance(c, ClassV):
                    return ip.new(Inst(c, {"__str": s}))
                return s
            f = BuiltinF("str.__new__", new)
            f.static = True
            return f
        if name == "maketrans":
            def mk(a, k):
                d = ip.new(DictV())
                if len(a) == 1:
                    for kk, v in a[0].d.values():
                        kk = unwrap(ip, kk)
                        if isinstance(kk, str):
                            if len(kk) != 1:
                                ip.raise_("ValueError", "string keys in translate table must be of length 1")
                            kk = ord(kk)
                        if not isinstance(kk, int):
                            raise Undecided("maketrans key")
                        dict_set(ip, d, kk, v)
                else:
                    if not all(isinstance(x, str) for x in a):
                        raise Undecided("maketrans")
                    for kk, v in str.maketrans(*a).items():
                        dict_set(ip, d, kk, v)
                return d
            f = BuiltinF("str.maketrans", mk)
            f.static = True
            return f
        if name == "__init__":
            return None
        if name in ("__str__", "__repr__", "__format__"):
            def sm(a, k):
                o = a[0]
                p = o.attrs.get("__str", None) if isinstance(o, Inst) else o
                return p if name == "__str__" else repr_(ip, p) if name == "__repr__" else format_(ip, p, a[1])
            return BuiltinF("str." + name, sm)
        if name in STR_RET or name in STR_OTHER:
            return BuiltinF(f"str.{name}", lambda a, k: str_method(ip, unwrap(ip, a[0]), name, a[1:], k))
        return None
    if py is dict and name == "fromkeys":
        def fk(a, k):
            d = ip.new(DictV())
            for x in iterate(ip, a[0]):
                dict_set(ip, d, x, a[1] if len(a) > 1 else None)
            return d
        f = BuiltinF("dict.fromkeys", fk)
        f.static = True
        return f
    tabs = {list: LIST_M, dict: DICT_M, set: SET_M, frozenset: SET_M, tuple: TUP_M}
    if py in tabs and name in tabs[py]:
        m = tabs[py][name]
        return BuiltinF(f"{py.__name__}.{name}", lambda a, k: m(ip, *a, **k))
    if name == "__new__" and py in (int, float, tuple):
        def bnew(a, k):
            c = a[0]
            if isinstance(c, ClassV):
                return ip.new(Inst(c, {"__int": a[1] if len(a) > 1 else 0}))
            return construct(ip, BuiltinC(py), a[1:], k)
        f = BuiltinF(f"{py.__name__}.__new__", bnew)
        f.static = True
        return f
    return None


def to_int(ip, v, base=10):
    v = unwrap(ip, v)
    if isinstance(v, Inst):
        f = ip.class_lookup(v.cls, "__int__") or ip.class_lookup(v.cls, "__index__")
        if f is not None:
            return ip.call(f, [v])
    need(v)
    if isconst(v) and v is not None:
        try:
            return int(v, base) if isinstance(v, str) else int(v)
        except Exception as e:  # noqa: BLE001
            ip.raise_(type(e).__name__, *e.args)
    if isint(v):
        return v
    if isstr(v):
        es = selems(v)
        if base == 10 and isinstance(v, Term) and v.ty == "digits":
            return Term("int", v, ty="nat")
        if base == 16 and es and all(isinstance(e, str) and e in HEX or isinstance(e, Term) and e.ty == "hexchar"
                                     for e in es):
            r = 0
            for e in es:
                if isinstance(e, str):
                    h = int(e, 16)
                else:
                    h = Term("hexval", e, ty="nat")
                    ip.facts.bounds.setdefault(h, (0, 15))
                r = ladd(lmul(r, 16), h)
            return r
        if all(isinstance(e, str) for e in es):
            return to_int(ip, "".join(es), base)
        if not truth(ip, Term("int_ok", v, base, ty="bool")):
            ip.raise_("ValueError", "invalid literal for int()")
        return Term("int", v, base, ty="int")
    if v is None or isinstance(v, (ListV, Tup, DictV, SetV, Inst)):
        ip.raise_("TypeError", f"int() argument must be a string or a number, not {ip.typename(v)!r}")
    if isinstance(v, Term) and v.ty == "bool":
        return 1 if truth(ip, v) else 0
    if isinstance(v, Term) and v.ty == "float":
        return Term("int", v, ty="int")
    raise Undecided(f"int({v!r})")


def construct(ip, c, args, kw):
    py = c.py
    if issubclass(py, BaseException):
        return ip.new(Inst(c, {"args": Tup(args), "__cause__": None, "__context__": None}))
    if py is str:
        return str_(ip, args[0]) if args else ""
    if py is int:
        if not args:
            return 0
        b = args[1] if len(args) > 1 else kw.get("base", 10)
        return to_int(ip, args[0], b)
    if py is bool:
        return truth(ip, args[0]) if args else False
    if py is float:
        v = unwrap(ip, args[0]) if args else 0.0
        if isconst(v) and v is not None:
            try:
                return float(v)
            except Exception as e:  # noqa: BLE001
                ip.raise_(type(e).__name__, *e.args)
        return Term("float", v, ty="float")
    if py is list:
        return ip.new(ListV(list(iterate(ip, args[0])) if args else []))
    if py is tuple:
        return Tup(list(iterate(ip, args[0])) if args else [])
    if py in (set, frozenset):
        s = ip.new(SetV(py is frozenset))
        if args:
            for x in iterate_any(ip, args[0]):
                set_add(ip, s, x)
        return s
    if py is dict:
        d = ip.new(DictV())
        if args:
            if isinstance(args[0], DictV):
                d.d.update(args[0].d)
            else:
                for p in iterate(ip, args[0]):
                    kv = list(iterate(ip, p))
                    dict_set(ip, d, kv[0], kv[1])
        for k, v in kw.items():
            dict_set(ip, d, k, v)
        return d
    if py is object:
        return ip.new(Inst(c, {}))
    if py is type:
        if len(args) == 1:
            return ip.type_of(args[0])
        raise Undecided("dynamic class creation")
    if py is property:
        return PropV(args[0] if args else kw.get("fget"), args[1] if len(args) > 1 else kw.get("fset"))
    if py is staticmethod:
        return StaticM(args[0])
    if py is classmethod:
        return ClassM(args[0])
    if py is range:
        a = [unwrap(ip, x) for x in args]
        if all(isinstance(x, int) for x in a):
            return Tup(range(*a)) if len(range(*a)) < 5000 else Term("range", *a)
        for x in a:
            need(x)
            if not isint(x):
                ip.raise_("TypeError", f"{ip.typename(x)!r} object cannot be interpreted as an integer")
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return Term("range", lo, hi)
    if py is enumerate:
        st = args[1] if len(args) > 1 else kw.get("start", 0)
        it = iterate(ip, args[0])
        return ip.new(IterV(Tup((ladd(st, i), x)) for i, x in enumerate(it)))
    if py is zip:
        its = [iterate(ip, a) for a in args]
        strict = kw.get("strict", False)

        def z():
            while True:
                row = []
                for j, i in enumerate(its):
                    try:
                        row.append(next(i))
                    except StopIteration:
                        if strict and (j > 0 or any(True for k in its[1:] for _ in k)):
                            ip.raise_("ValueError", "zip() arguments have different lengths")
                        return
                if not its:
                    return
                yield Tup(row)
        return ip.new(IterV(z()))
    if py is map:
        its = [iterate(ip, a) for a in args[1:]]
        return ip.new(IterV(ip.call(args[0], list(r)) for r in zip(*its)))
    if py is filter:
        f = args[0]
        return ip.new(IterV(x for x in iterate(ip, args[1])
                            if truth(ip, x if f is None else ip.call(f, [x]))))
    if py is reversed:
        v = unwrap(ip, args[0])
        if isinstance(v, Inst):
            f = ip.class_lookup(v.cls, "__reversed__")
            if f is not None:
                return ip.call(f, [v])
            if "__view" in v.attrs:
                return ip.new(IterV(iter(list(v.attrs["__view"]())[::-1])))
        if isinstance(v, (ListV, Tup)):
            return ip.new(IterV(iter(list(v.items)[::-1])))
        if isinstance(v, DictV):
            return ip.new(IterV(iter([k for k, _ in v.d.values()][::-1])))
        if isstr(v):
            return ip.new(IterV(iter(list(iterate(ip, v))[::-1])))
        if v is None or isinstance(v, (SetV, IterV)):
            ip.raise_("TypeError", f"{ip.typename(v) if v is None else 'object'} is not reversible")
        raise Undecided("reversed()")
    if py is bytes:
        raise Undecided("bytes()")
    if py is slice:
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        return tuple(["slice"] + (a + [None])[:3])
    if py is type(None):
        return None
    raise Undecided(f"constructor {py.__name__}")


def iterate_any(ip, v):
    """iteration whose order does not matter"""
    if isinstance(ip.R(v), SetV):
        return list(ip.R(v).d.values())
    return iterate(ip, v)


def make(ip):
    b = {}
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and (issubclass(o, BaseException) or o in (
                str, int, bool, float, list, tuple, set, frozenset, dict, object, type, property, staticmethod,
                classmethod, range, enumerate, zip, map, filter, reversed, bytes, slice)):
            b[n] = BuiltinC(o)

    def reg(f):
        b[f.__name__.rstrip("_")] = BuiltinF(f.__name__.rstrip("_"), f)
        return f

    @reg
    def len_(a, k):
        return length(ip, a[0])

    @reg
    def isinstance_(a, k):
        return ip.isinstance_(a[0], a[1])

    @reg
    def issubclass_(a, k):
        cs = a[1].items if isinstance(a[1], Tup) else [a[1]]
        if not isinstance(a[0], (ClassV, BuiltinC, ExtC)):
            ip.raise_("TypeError", "issubclass() arg 1 must be a class")
        return any(c in ip.mro(a[0]) for c in cs)

    @reg
    def getattr_(a, k):
        from .engine import PyExc
        nm = unwrap(ip, a[1])
        if not isinstance(nm, str):
            raise Undecided("getattr with unknown name")
        try:
            return ip.getattr(a[0], nm)
        except PyExc as e:
            if len(a) > 2 and BuiltinC(AttributeError) in ip.mro(e.inst.cls):
                return a[2]
            raise

    @reg
    def hasattr_(a, k):
        from .engine import PyExc
        nm = unwrap(ip, a[1])
        if not isinstance(nm, str):
            raise Undecided("hasattr with unknown name")
        try:
            ip.getattr(a[0], nm)
            return True
        except PyExc as e:
            if BuiltinC(AttributeError) in ip.mro(e.inst.cls):
                return False
            raise

    @reg
    def setattr_(a, k):
        nm = unwrap(ip, a[1])
        if not isinstance(nm, str):
            raise Undecided("setattr with unknown name")
        return ip.setattr(a[0], nm, a[2])

    @reg
    def delattr_(a, k):
        o = a[0]
        if isinstance(o, Inst) and a[1] in o.attrs:
            ip.touch(o)
            ip.event("setattr", o, a[1])
            del o.attrs[a[1]]
            return None
        ip.raise_("AttributeError", a[1])

    @reg
    def any_(a, k):
        return any(truth(ip, x) for x in iterate_any(ip, a[0]))

    @reg
    def all_(a, k):
        return all(truth(ip, x) for x in iterate_any(ip, a[0]))

    @reg
    def sum_(a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in iterate_any(ip, a[0]):
            r = binop(ip, ast.Add(), r, x)
        return r

    def minmax(a, k, op):
        items = list(iterate_any(ip, a[0])) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            ip.raise_("ValueError", "arg is an empty sequence")
        f = k.get("key")
        best, bk = items[0], ip.call(f, [items[0]]) if f else items[0]
        for x in items[1:]:
            kx = ip.call(f, [x]) if f else x
            if truth(ip, compare(ip, op, kx, bk)):
                best, bk = x, kx
        return best

    @reg
    def min_(a, k):
        return minmax(a, k, ast.Lt())

    @reg
    def max_(a, k):
        return minmax(a, k, ast.Gt())

    @reg
    def abs_(a, k):
        v = unwrap(ip, a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        return lmul(v, -1) if int_lt(ip, v, 0) else v

    @reg
    def sorted_(a, k):
        return ip.new(ListV(sort(ip, list(iterate_any(ip, a[0])), k.get("key"), k.get("reverse", False))))

    @reg
    def repr_b(a, k):
        return repr_(ip, a[0])
    b["repr"] = BuiltinF("repr", repr_b)

    @reg
    def chr_(a, k):
        v = unwrap(ip, a[0])
        need(v)
        if isinstance(v, int):
            try:
                return chr(v)
            except Exception as e:  # noqa: BLE001
                ip.raise_(type(e).__name__, *e.args)
        if not isint(v):
            ip.raise_("TypeError", "'str' object cannot be interpreted as an integer")
        if int_lt(ip, v, 0):
            ip.raise_("ValueError", "chr() arg not in range(0x110000)")
        if not int_lt(ip, v, 0x110000):
            if not int_lt(ip, v, 0x80000000):
                ip.raise_("OverflowError", "Python int too large to convert to C int")
            ip.raise_("ValueError", "chr() arg not in range(0x110000)")
        return Term("chr", v, ty="char")

    @reg
    def ord_(a, k):
        v = unwrap(ip, a[0])
        if isinstance(v, str):
            if len(v) != 1:
                ip.raise_("TypeError", "ord() expected a character")
            return ord(v)
        if isinstance(v, Term) and v.ty in CHAR:
            if v.op == "chr":
                return v.args[0]
            return Term("ord", v, ty="nat")
        raise Undecided("ord()")

    @reg
    def print_(a, k):
        ip.event("console", None, "print", tuple(a))
        return None

    @reg
    def callable_b(a, k):
        return callable_(ip, a[0])
    b["callable"] = BuiltinF("callable", callable_b)

    @reg
    def iter_(a, k):
        if len(a) == 2:
            def g():
                while True:
                    ip.step()
                    x = ip.call(a[0], [])
                    if truth(ip, eq(ip, x, a[1])):
                        return
                    yield x
            return ip.new(IterV(g()))
        v = ip.R(a[0])
        if isinstance(v, IterV):
            return v
        return ip.new(IterV(iterate(ip, v)))

    @reg
    def next_(a, k):
        v = ip.R(a[0])
        if isinstance(v, Inst):
            f = ip.class_lookup(v.cls, "__next__")
            if f is not None:
                return ip.call(f, [v])
        if not isinstance(v, IterV):
            ip.raise_("TypeError", "object is not an iterator")
        for x in v.it:
            return x
        if len(a) > 1:
            return a[1]
        ip.raise_("StopIteration")

    @reg
    def hash_(a, k):
        return Term("hash", key_term(ip, a[0]), ty="int")

    @reg
    def id_(a, k):
        return Term("id", a[0], ty="nat")

    @reg
    def format_b(a, k):
        return format_(ip, a[0], a[1] if len(a) > 1 else "")
    b["format"] = BuiltinF("format", format_b)

    @reg
    def hex_(a, k):
        v = unwrap(ip, a[0])
        return hex(v) if isinstance(v, int) else Term("hex", v, ty="str")

    @reg
    def round_(a, k):
        v = unwrap(ip, a[0])
        if isinstance(v, (int, float)):
            return round(v, *a[1:])
        return v if isint(v) else Term("round", v, ty="int")

    @reg
    def divmod_(a, k):
        return Tup((binop(ip, ast.FloorDiv(), a[0], a[1]), binop(ip, ast.Mod(), a[0], a[1])))

    @reg
    def vars_(a, k):
        return ip.getattr(a[0], "__dict__")

    @reg
    def globals_(a, k):
        raise Undecided("globals()")

    b["NotImplemented"] = Inst(BuiltinC(object), {}, label="NotImplemented")
    b["Ellipsis"] = None
    b["__debug__"] = True
    b["__name__"] = "builtins"
    b.pop("print_", None)
    return b


def key_term(ip, v):
    v = unwrap(ip, v)
    key(ip, v)
    return v
