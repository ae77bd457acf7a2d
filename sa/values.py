"""Abstract values of the interpreter in engine.py.

None/bool/int/float/str/bytes are their own abstraction (constant
propagation).  Everything unknown is a Term: an interned provenance expression
("attribute start of token t", "normalize(NFC, text of token t)") with a type
tag.  SStr and Lin are normal forms for string concatenations and linear
integer expressions over Terms.
"""
import re


class Undecided(Exception):
    """The analysis cannot interpret a construct: the path yields no verdict."""


class Term:
    __slots__ = ("op", "args", "ty", "_h")
    _tab = {}

    def __new__(cls, op, *args, ty=None):
        key = (op, tuple(akey(a) for a in args), ty)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.ty = op, args, ty
            t._h = hash(key)
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if not self.args:
            return f"<{self.op}>"
        return f"<{self.op} {', '.join(show(a) for a in self.args)}>"


def akey(a):
    """hashable identity of an abstract value (constants keyed with their type)"""
    if a is None or isinstance(a, (bool, int, float, str, bytes)):
        return (type(a).__name__, a)
    if isinstance(a, (Term, SStr, Lin, Tup)):
        return a
    return ("id", IdKey(a))


class IdKey:
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, x):
        return isinstance(x, IdKey) and x.o is self.o


class SStr:
    """concatenation of constant chunks (str) and string-typed Terms"""
    __slots__ = ("parts", "_h")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = hash(("SStr",) + tuple(akey(p) for p in self.parts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __repr__(self):
        return "+".join(show(p) for p in self.parts)


def sstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return SStr(out)


def sparts(s):
    if isinstance(s, SStr):
        return s.parts
    return (s,) if s != "" or isinstance(s, Term) else ()


CHAR = ("char", "hexchar")


def selems(s):
    """elements: single chars (str or char Term) and unknown-length str Terms"""
    out = []
    for p in sparts(s):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def known_len(e):
    return isinstance(e, str) or e.ty in CHAR


class Lin:
    """linear integer expression: const + sum coef*Term (normal form)"""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c, self.t, self._h = c, t, None

    def __hash__(self):
        if self._h is None:
            self._h = hash(("Lin", self.c, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and o.c == self.c and o.t == self.t

    def __repr__(self):
        s = [f"{'' if v == 1 else str(v) + '*'}{k!r}" for k, v in sorted(self.t.items(), key=lambda kv: repr(kv[0]))]
        if self.c or not s:
            s.append(str(self.c))
        return "(" + "+".join(s) + ")"


def lin(v):
    if isinstance(v, bool):
        return Lin(int(v), {})
    if isinstance(v, int):
        return Lin(v, {})
    if isinstance(v, Lin):
        return v
    if isinstance(v, Term):
        return Lin(0, {v: 1})
    return None


def unlin(l):
    if not l.t:
        return l.c
    if l.c == 0 and len(l.t) == 1:
        (k, v), = l.t.items()
        if v == 1:
            return k
    return l


def ladd(a, b, k=1):
    a, b = lin(a), lin(b)
    t = dict(a.t)
    for x, v in b.t.items():
        n = t.get(x, 0) + k * v
        if n:
            t[x] = n
        else:
            t.pop(x, None)
    return unlin(Lin(a.c + k * b.c, t))


def lmul(a, k):
    a = lin(a)
    if k == 0:
        return 0
    return unlin(Lin(a.c * k, {x: v * k for x, v in a.t.items()}))


class Tup:
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("Tup",) + tuple(akey(i) for i in self.items))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Tup) and len(o.items) == len(self.items) and all(
            akey(a) == akey(b) for a, b in zip(o.items, self.items))

    def __repr__(self):
        return "(" + ", ".join(show(i) for i in self.items) + ",)"


class Obj:
    """mutable abstract heap object; gen = run that created it (0: module level)"""
    gen = 0


class Inst(Obj):
    made = None      # where it was created

    def __init__(self, cls, attrs=None, label=None):
        self.cls, self.attrs, self.label = cls, attrs if attrs is not None else {}, label

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def __repr__(self):
        if self.label:
            return f"<{self.label}>"
        if self.cls.is_enum and "name" in self.attrs:
            return f"{self.cls.name}.{self.attrs['name']}"
        return f"<{self.cls.name} instance>"


class Rest:
    """marker in a widened list: any number of unknown elements"""
    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"*{self.term!r}"


class ListV(Obj):
    def __init__(self, items=(), kind="list", maxlen=None):
        self.items, self.kind = list(items), kind
        self.maxlen = maxlen

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = s

    def __repr__(self):
        return f"{'' if self.kind == 'list' else self.kind}[{', '.join(show(i) for i in self.items)}]"


class DictV(Obj):
    def __init__(self):
        self.d = {}
        self.default_factory = None

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.d.values()) + "}"


class SetV(Obj):
    def __init__(self, frozen=False):
        self.d = {}
        self.frozen = frozen

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return "{" + ", ".join(sorted(show(k) for k in self.d.values())) + "}"


class NS(Obj):
    """module or class namespace"""
    def __init__(self):
        self.vars = {}

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class IterV(Obj):
    """iterator: wraps a host generator of abstract values"""
    def __init__(self, gen_):
        self.it = gen_

    def snap(self):
        return None

    def restore(self, s):
        pass


class FuncV(Obj):
    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def __init__(self, node, mod, env, qual, owner=None):
        self.node, self.mod, self.env, self.qual, self.owner = node, mod, env, qual, owner
        self.defaults, self.kwdefaults = [], {}
        self.attrs = {}
        self.is_gen = False
        self.locals = None
        self.contextmanager = False

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundM:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func!r} of {show(self.self_)}>"


class BuiltinF:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassV:
    def __init__(self, name, bases, ns, mod, node):
        self.name, self.bases, self.ns, self.mod, self.node = name, bases, ns, mod, node
        self.qual = name
        self.mro = None
        self.is_enum = False
        self.dataclass = None
        self.members = []

    def __repr__(self):
        return f"<class {self.qual}>"


class BuiltinC:
    """a host builtin class (int, str, ValueError, object, ...)"""
    _tab = {}

    def __new__(cls, py):
        c = cls._tab.get(py)
        if c is None:
            c = object.__new__(cls)
            c.py, c.name, c.is_enum = py, py.__name__, False
            cls._tab[py] = c
        return c

    def __repr__(self):
        return f"<class {self.name}>"


class ExtC:
    """class of a module outside the analysed program"""
    _tab = {}

    def __new__(cls, dotted):
        c = cls._tab.get(dotted)
        if c is None:
            c = object.__new__(cls)
            c.dotted, c.name, c.is_enum = dotted, dotted.rsplit(".", 1)[-1], False
            cls._tab[dotted] = c
        return c

    def __repr__(self):
        return f"<ext {self.dotted}>"


class ModV:
    def __init__(self, name, path, tree=None):
        self.name, self.path, self.tree = name, path, tree
        self.ns = NS()
        self.done = False

    def __repr__(self):
        return f"<module {self.name}>"


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PartialV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


def show(v):
    if isinstance(v, str):
        return repr(v)
    return repr(v)


def has_unk(v, depth=0):
    if depth > 12:
        return False
    if isinstance(v, Term):
        return v.op == "unk" or any(has_unk(a, depth + 1) for a in v.args)
    if isinstance(v, SStr):
        return any(has_unk(a, depth + 1) for a in v.parts)
    if isinstance(v, Lin):
        return any(has_unk(a, depth + 1) for a in v.t)
    if isinstance(v, Tup):
        return any(has_unk(a, depth + 1) for a in v.items)
    if isinstance(v, ListV):
        return any(isinstance(a, Rest) or has_unk(a, depth + 1) for a in v.items)
    if isinstance(v, (SetV,)):
        return any(has_unk(a, depth + 1) for a in v.d.values())
    if isinstance(v, DictV):
        return any(has_unk(a, depth + 1) for kv in v.d.values() for a in kv)
    return False
