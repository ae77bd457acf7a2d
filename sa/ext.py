"""Models of the modules outside the analysed program: standard library pieces
the package (or a plausible rewrite of it) uses, and the opaque parts of the
ANTLR runtime.  Anything not modelled yields an unknown value (results that
depend on it are undecided, never violations)."""
import ast
import collections
import dataclasses
import re
import string as _string
import sys
import unicodedata

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from . import builtins_ as B
from . import shims
from .facts import INF, Infeasible
from .values import *

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50, "NOTSET": 0}
PLAIN = ("enum.", "typing.", "abc.", "collections.abc.", "contextlib.", "typing_extensions.")


def bf(name):
    def deco(f):
        return BuiltinF(name, f)
    return deco


def is_plain(dotted):
    return dotted.startswith(PLAIN)


def known_class(dotted):
    return dotted in ("collections.deque", "re.Pattern", "re.Match", "logging.Logger", "io.StringIO", "enum.auto",
                      "dataclasses.Field", "functools.lru_cache_wrapper", "functools.cached_property") or \
        dotted.startswith("antlr4.")


_MRO = {
    "enum.StrEnum": [str, "enum.ReprEnum", "enum.Enum"],
    "enum.IntEnum": [int, "enum.ReprEnum", "enum.Enum"],
    "enum.IntFlag": [int, "enum.ReprEnum", "enum.Flag", "enum.Enum"],
    "enum.Flag": ["enum.Enum"],
    "enum.ReprEnum": ["enum.Enum"],
    "antlr4.Parser.Parser": [],
}


def ext_mro(ip, c):
    out = [c]
    for x in _MRO.get(c.dotted, ()):
        out.append(ExtC(x) if isinstance(x, str) else BuiltinC(x))
    out.append(BuiltinC(object))
    return out


def frozen_error(ip):
    return BuiltinC(dataclasses.FrozenInstanceError)


def einst(ip, dotted, **attrs):
    return ip.new(Inst(ExtC(dotted), attrs))


# ------------------------------------------------------------------- constants
def ext_attr(ip, mod, name):
    v = shims.lookup(ip, mod, name)
    if v is not None:
        return v
    if mod == "logging" and name in LEVELS:
        return LEVELS[name]
    if mod == "sys":
        if name in ("stdout", "stderr"):
            return einst(ip, "sys.TextIO", name=name)
        if name == "version_info":
            return Tup((3, sys.version_info[1], 0, "final", 0))
        if name == "maxsize":
            return sys.maxsize
        if name == "maxunicode":
            return sys.maxunicode
        if name == "modules":
            return ip.unk("sys.modules")
    if mod == "typing" and name == "TYPE_CHECKING":
        return False
    if mod == "dataclasses":
        if name == "FrozenInstanceError":
            return frozen_error(ip)
        if name in ("MISSING", "KW_ONLY"):
            return ExtC("dataclasses." + name)
    if mod == "string":
        v = getattr(_string, name, None)
        if isinstance(v, str):
            return v
    if mod == "math":
        if name == "inf":
            return float("inf")
    if mod == "re":
        v = getattr(re, name, None)
        if isinstance(v, re.RegexFlag):
            return int(v)
        if name == "error":
            return BuiltinC(re.error)
    if mod == "collections":
        if name == "OrderedDict":
            return BuiltinC(dict)
    if mod == "operator":
        f = _operator(ip, name)
        if f is not None:
            return f
    if mod == "itertools" and name == "chain":
        return BuiltinF("itertools.chain", lambda a, k: _chain(ip, a))
    if mod == "types":
        if name == "NoneType":
            return BuiltinC(type(None))
    if mod == "builtins":
        return ip.builtins.get(name)
    if mod == "os" and name == "linesep":
        return "\n"
    return None


def ext_class_attr(ip, dotted, name):
    if name == "INVALID_ALT_NUMBER" and dotted.endswith(".ATN"):
        return 0
    if dotted == "itertools.chain" and name == "from_iterable":
        return chain_from_iterable(ip)
    if dotted == "datetime.datetime":
        return BuiltinF("datetime", lambda a, k: ip.unk("time"))
    return None


def chain_from_iterable(ip):
    return BuiltinF("itertools.chain.from_iterable", lambda a, k: _chain(ip, list(ip.iterate(a[0]))))


def _chain(ip, its):
    def gen():
        for it in its:
            yield from ip.iterate(it)
    return ip.new(IterV(gen()))


def _operator(ip, name):
    cmp = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}
    bin_ = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "and_": ast.BitAnd, "or_": ast.BitOr,
            "mod": ast.Mod, "floordiv": ast.FloorDiv, "xor": ast.BitXor, "concat": ast.Add, "lshift": ast.LShift,
            "rshift": ast.RShift, "iadd": ast.Add}
    if name in cmp:
        return BuiltinF("operator." + name, lambda a, k: ip.compare(cmp[name](), a[0], a[1]))
    if name in bin_:
        return BuiltinF("operator." + name, lambda a, k: ip.binop(bin_[name](), a[0], a[1], name == "iadd"))
    if name == "not_":
        return BuiltinF("operator.not_", lambda a, k: not ip.truth(a[0]))
    if name == "truth":
        return BuiltinF("operator.truth", lambda a, k: ip.truth(a[0]))
    if name == "is_":
        return BuiltinF("operator.is_", lambda a, k: ip.is_(a[0], a[1]))
    if name == "is_not":
        return BuiltinF("operator.is_not", lambda a, k: not ip.truth(ip.is_(a[0], a[1])))
    if name == "contains":
        return BuiltinF("operator.contains", lambda a, k: B.contains(ip, a[0], a[1]))
    if name == "getitem":
        return BuiltinF("operator.getitem", lambda a, k: ip.getitem(a[0], a[1]))
    if name == "attrgetter":
        def ag(a, k):
            def get(o, n):
                for p in n.split("."):
                    o = ip.getattr(o, p)
                return o
            return BuiltinF("attrgetter", lambda b, kk: get(b[0], a[0]) if len(a) == 1
                            else Tup([get(b[0], n) for n in a]))
        return BuiltinF("operator.attrgetter", ag)
    if name == "itemgetter":
        return BuiltinF("operator.itemgetter", lambda a, k: BuiltinF(
            "itemgetter", lambda b, kk: ip.getitem(b[0], a[0]) if len(a) == 1
            else Tup([ip.getitem(b[0], i) for i in a])))
    if name == "methodcaller":
        return BuiltinF("operator.methodcaller", lambda a, k: BuiltinF(
            "methodcaller", lambda b, kk: ip.call(ip.getattr(b[0], a[0]), a[1:], k)))
    return None


# ----------------------------------------------------------------------- calls
def ext_call(ip, dotted, args, kw):
    h = ip.hooks.get(dotted)
    if h is not None:
        return h(ip, ExtC(dotted), args, kw)
    mod, _, name = dotted.rpartition(".")
    f = CALLS.get(dotted)
    if f is not None:
        return f(ip, list(args), dict(kw))
    if mod in ("typing", "typing_extensions"):
        if name in ("cast",):
            return args[1]
        if name in ("TypeVar", "NewType", "ParamSpec"):
            return ExtC("typing.TypeVar")
        if name in ("final", "override", "overload", "no_type_check", "runtime_checkable"):
            return args[0]
    if dotted.startswith("antlr4."):
        return antlr_new(ip, dotted, args, kw)
    if mod == "abc" and name.startswith("abstract"):
        return args[0]
    if mod in ("time", "random", "os", "platform", "uuid", "datetime", "threading", "getpass", "locale"):
        return ip.unk(f"{dotted}()")
    if mod == "warnings":
        return None
    raise Undecided(f"call of unmodelled external {dotted}")


CALLS = {}


def reg(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


@reg("logging.getLogger")
def _getlogger(ip, a, k):
    return einst(ip, "logging.Logger", name=a[0] if a else "root")


@reg("enum.auto")
def _auto(ip, a, k):
    return einst(ip, "enum.auto")


@reg("enum.unique", "enum.verify", "functools.total_ordering", "functools.singledispatch_", "enum.member",
     "types.MappingProxyType", "sys.intern", "atexit.register")
def _ident(ip, a, k):
    return a[0]


@reg("collections.deque")
def _deque(ip, a, k):
    ml = k.get("maxlen", a[1] if len(a) > 1 else None)
    o = ip.new(ListV([], "deque", ml))
    it = k.get("iterable", a[0] if a else None)
    if it is not None:
        for x in ip.iterate(it):
            B.l_append(ip, o, x)
    return o


@reg("collections.defaultdict")
def _defaultdict(ip, a, k):
    d = ip.new(DictV())
    d.default_factory = a[0] if a else None
    if len(a) > 1:
        B.d_update(ip, d, a[1], **k)
    return d


@reg("collections.Counter")
def _counter(ip, a, k):
    d = ip.new(DictV())
    d.default_factory = BuiltinC(int)
    if a:
        for x in ip.iterate(a[0]):
            j = B.dict_find(ip, d, x)
            B.dict_set(ip, d, x, ip.binop(ast.Add(), d.d[j][1] if j is not None else 0, 1))
    return d


# ------------------------------------------------------------------ dataclasses
@reg("dataclasses.field")
def _field(ip, a, k):
    return einst(ip, "dataclasses.Field", **k)


@reg("dataclasses.dataclass")
def _dataclass(ip, a, k):
    def deco(c):
        fields = []
        for b in reversed(c.mro[1:]):
            if isinstance(b, ClassV) and b.dataclass:
                for f in b.dataclass["fields"]:
                    fields = [g for g in fields if g[0] != f[0]] + [f]
        for s in c.node.body:
            if not isinstance(s, ast.AnnAssign) or not isinstance(s.target, ast.Name):
                continue
            ann = ast.unparse(s.annotation)
            if "ClassVar" in ann:
                continue
            n = s.target.id
            default, has, factory, init = None, False, None, True
            if s.value is not None:
                v = c.ns.vars.get(n)
                if isinstance(v, Inst) and v.cls is ExtC("dataclasses.Field"):
                    if "default" in v.attrs:
                        default, has = v.attrs["default"], True
                        c.ns.vars[n] = default
                    else:
                        c.ns.vars.pop(n, None)
                    factory = v.attrs.get("default_factory")
                    init = v.attrs.get("init", True)
                else:
                    default, has = v, True
            fields = [f if f[0] != n else (n, default, has, factory, init) for f in fields]
            if not any(f[0] == n for f in fields):
                fields.append((n, default, has, factory, init))
        c.dataclass = {"fields": fields, "frozen": bool(k.get("frozen", False)), "eq": bool(k.get("eq", True)),
                       "repr": bool(k.get("repr", True)), "order": bool(k.get("order", False))}
        return c
    if a:
        return deco(a[0])
    return BuiltinF("dataclass", lambda b, kk: deco(b[0]))


@reg("dataclasses.replace")
def _replace(ip, a, k):
    o = a[0]
    dc = o.cls.dataclass
    kw = {f[0]: o.attrs.get(f[0]) for f in dc["fields"] if f[4]}
    kw.update(k)
    return ip.call(o.cls, [], kw)


@reg("dataclasses.astuple")
def _astuple(ip, a, k):
    return Tup([a[0].attrs.get(f[0]) for f in a[0].cls.dataclass["fields"]])


@reg("dataclasses.is_dataclass")
def _isdc(ip, a, k):
    c = a[0].cls if isinstance(a[0], Inst) else a[0]
    return bool(getattr(c, "dataclass", None))


# -------------------------------------------------------------------- functools
@reg("functools.partial")
def _partial(ip, a, k):
    return PartialV(a[0], a[1:], k)


@reg("functools.reduce")
def _reduce(ip, a, k):
    it = iter(ip.iterate(a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        try:
            acc = next(it)
        except StopIteration:
            ip.raise_("TypeError", "reduce() of empty iterable with no initial value")
    for x in it:
        acc = ip.call(a[0], [acc, x])
    return acc


@reg("functools.wraps", "functools.update_wrapper")
def _wraps(ip, a, k):
    orig = a[0]

    def deco(b, kk):
        f = b[0]
        if isinstance(f, FuncV) and isinstance(orig, FuncV):
            f.name = getattr(orig, "name", "f")
        return f
    return BuiltinF("wraps", deco)


@reg("functools.lru_cache", "functools.cache")
def _lru(ip, a, k):
    if a and isinstance(a[0], (FuncV, StaticM, ClassM, BuiltinF)):
        return einst(ip, "functools.lru_cache_wrapper", fn=a[0], cache={})
    return BuiltinF("lru_cache", lambda b, kk: einst(ip, "functools.lru_cache_wrapper", fn=b[0], cache={}))


@reg("functools.cached_property")
def _cprop(ip, a, k):
    return einst(ip, "functools.cached_property", fn=a[0])


# -------------------------------------------------------------------- itertools
@reg("itertools.chain")
def _chain_call(ip, a, k):
    return _chain(ip, a)


@reg("itertools.islice")
def _islice(ip, a, k):
    sl = slice(*[ip.R(x) for x in a[1:]])
    if not all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
        raise Undecided("islice bounds")
    import itertools
    return ip.new(IterV(itertools.islice(iter(ip.iterate(a[0])), sl.start, sl.stop, sl.step)))


@reg("itertools.takewhile", )
def _takewhile(ip, a, k):
    def gen():
        for x in ip.iterate(a[1]):
            if not ip.truth(ip.call(a[0], [x])):
                return
            yield x
    return ip.new(IterV(gen()))


@reg("itertools.dropwhile")
def _dropwhile(ip, a, k):
    def gen():
        drop = True
        for x in ip.iterate(a[1]):
            if drop and ip.truth(ip.call(a[0], [x])):
                continue
            drop = False
            yield x
    return ip.new(IterV(gen()))


@reg("itertools.filterfalse")
def _filterfalse(ip, a, k):
    def gen():
        for x in ip.iterate(a[1]):
            if not ip.truth(ip.call(a[0], [x]) if a[0] is not None else x):
                yield x
    return ip.new(IterV(gen()))


@reg("itertools.zip_longest")
def _zipl(ip, a, k):
    import itertools
    fill = k.get("fillvalue")
    return ip.new(IterV(Tup(t) for t in itertools.zip_longest(*[ip.iterate(x) for x in a], fillvalue=fill)))


@reg("itertools.pairwise")
def _pairwise(ip, a, k):
    xs = list(ip.iterate(a[0]))
    return ip.new(IterV(Tup(p) for p in zip(xs, xs[1:])))


@reg("itertools.count")
def _count(ip, a, k):
    def gen():
        i = a[0] if a else k.get("start", 0)
        st = a[1] if len(a) > 1 else k.get("step", 1)
        while True:
            yield i
            i = ip.binop(ast.Add(), i, st)
    return ip.new(IterV(gen()))


@reg("itertools.repeat")
def _repeat(ip, a, k):
    def gen():
        if len(a) > 1:
            for _ in range(a[1]):
                yield a[0]
        else:
            while True:
                yield a[0]
    return ip.new(IterV(gen()))


@reg("itertools.starmap")
def _starmap(ip, a, k):
    return ip.new(IterV(ip.call(a[0], list(ip.iterate(x))) for x in ip.iterate(a[1])))


@reg("itertools.product")
def _product(ip, a, k):
    import itertools
    return ip.new(IterV(Tup(t) for t in itertools.product(*[list(ip.iterate(x)) for x in a], repeat=k.get("repeat", 1))))


@reg("itertools.accumulate")
def _accumulate(ip, a, k):
    def gen():
        acc, first = None, True
        for x in ip.iterate(a[0]):
            if first:
                acc, first = x, False
            else:
                acc = ip.call(a[1], [acc, x]) if len(a) > 1 else ip.binop(ast.Add(), acc, x)
            yield acc
    return ip.new(IterV(gen()))


# -------------------------------------------------------------------- contextlib
@reg("contextlib.suppress")
def _suppress(ip, a, k):
    return einst(ip, "contextlib.suppress", excs=Tup(a))


@reg("contextlib.nullcontext")
def _nullc(ip, a, k):
    return einst(ip, "contextlib.nullcontext", value=a[0] if a else None)


@reg("contextlib.closing")
def _closing(ip, a, k):
    return einst(ip, "contextlib.closing", value=a[0])


@reg("contextlib.contextmanager")
def _ctxmgr(ip, a, k):
    a[0].contextmanager = True
    return a[0]


@reg("contextlib.ExitStack")
def _exitstack(ip, a, k):
    return einst(ip, "contextlib.ExitStack", cbs=[])


@reg("contextlib.redirect_stdout", "contextlib.redirect_stderr")
def _redir(ip, a, k):
    raise Undecided("output redirection")


@reg("threading.Lock", "threading.RLock")
def _lock(ip, a, k):
    return einst(ip, "contextlib.nullcontext", value=None)


class GenCM:
    """context manager made from a generator function; run by engine.with_items"""

    def __init__(self, ip, f, env):
        self.f, self.env = f, env
        self.inst = einst(ip, "contextlib._GeneratorContextManager", __gencm=self)


# ------------------------------------------------------------------------- misc
@reg("io.StringIO")
def _sio(ip, a, k):
    return einst(ip, "io.StringIO", buf=[a[0]] if a else [])


@reg("unicodedata.normalize")
def _normalize(ip, a, k):
    form, s = [B.unwrap(ip, x) for x in a]
    if form is None or not B.isstr(form):
        B.need(form)
        ip.raise_("TypeError", "normalize() argument 1 must be str")
    if not B.isstr(s):
        B.need(s)
        if isinstance(s, Term) and s.ty is None:
            raise Undecided("normalize of unknown")
        ip.raise_("TypeError", "normalize() argument 2 must be str")
    if isinstance(form, str) and form not in ("NFC", "NFD", "NFKC", "NFKD"):
        ip.raise_("ValueError", "invalid normalization form")
    if s == "":
        return ""
    if isinstance(s, Term) and s.op == "normalize" and s.args[0] == form:
        return s
    if all(ip.facts.ascii(ip.R(e)) for e in selems(s)):
        return s
    if ip.facts.atoms.get(Term("is_normalized", form, s, ty="bool")) is True:
        return s
    return Term("normalize", form, s, ty="str")


@reg("unicodedata.is_normalized")
def _isnorm(ip, a, k):
    form, s = [B.unwrap(ip, x) for x in a]
    if isinstance(s, Term) and s.op == "normalize" and s.args[0] == form:
        return True
    if not isinstance(form, (str, Term)):
        ip.raise_("TypeError", "is_normalized() argument 1 must be str")
    return Term("is_normalized", form, s, ty="bool")


def _ucd(name, ty):
    def f(ip, a, k):
        c = B.unwrap(ip, a[0])
        if isinstance(c, str) and len(c) == 1:
            return getattr(unicodedata, name)(c, *a[1:])
        return Term("ucd:" + name, c, *a[1:], ty=ty)
    CALLS["unicodedata." + name] = f


for _n, _t in (("category", "str"), ("name", "str"), ("combining", "nat"), ("bidirectional", "str"),
               ("east_asian_width", "str"), ("mirrored", "nat"), ("decomposition", "str")):
    _ucd(_n, _t)


@reg("copy.copy")
def _copy(ip, a, k):
    o = ip.R(a[0])
    if isinstance(o, ListV):
        return ip.new(ListV(o.items, o.kind, o.maxlen))
    if isinstance(o, DictV):
        d = ip.new(DictV())
        d.d, d.default_factory = dict(o.d), o.default_factory
        return d
    if isinstance(o, SetV):
        s = ip.new(SetV(o.frozen))
        s.d = dict(o.d)
        return s
    if isinstance(o, Inst) and not o.cls.is_enum:
        if ip.class_lookup(o.cls, "__copy__"):
            return ip.call(ip.class_lookup(o.cls, "__copy__"), [o])
        return ip.new(Inst(o.cls, dict(o.attrs)))
    return o


@reg("copy.deepcopy")
def _deepcopy(ip, a, k):
    memo = {}

    def dc(o):
        o = ip.R(o)
        if id(o) in memo:
            return memo[id(o)]
        if isinstance(o, ListV):
            n = memo[id(o)] = ip.new(ListV([], o.kind, o.maxlen))
            n.items = [dc(x) for x in o.items]
            return n
        if isinstance(o, DictV):
            n = memo[id(o)] = ip.new(DictV())
            n.default_factory = o.default_factory
            n.d = {kk: (dc(x), dc(y)) for kk, (x, y) in o.d.items()}
            return n
        if isinstance(o, SetV):
            n = ip.new(SetV(o.frozen))
            n.d = dict(o.d)
            return n
        if isinstance(o, Tup):
            return Tup([dc(x) for x in o.items])
        if isinstance(o, Inst) and not o.cls.is_enum and isinstance(o.cls, ClassV):
            if ip.class_lookup(o.cls, "__deepcopy__"):
                return ip.call(ip.class_lookup(o.cls, "__deepcopy__"), [o, ip.new(DictV())])
            n = memo[id(o)] = ip.new(Inst(o.cls, {}))
            n.attrs = {kk: dc(x) if not kk.startswith("__") else x for kk, x in o.attrs.items()}
            return n
        return o
    return dc(a[0])


@reg("textwrap.dedent", "textwrap.indent", "textwrap.shorten")
def _tw(ip, a, k):
    return Term("textwrap", *a, ty="str")


@reg("inspect.isclass")
def _isclass(ip, a, k):
    return isinstance(a[0], (ClassV, BuiltinC, ExtC))


# ------------------------------------------------------- settings of the process
# what is set when a path starts; the second value: a user who changed it before
LIB = {"sys.recursionlimit": (1000, 7321), "sys.switchinterval": (0.005, 0.25), "sys.int_max_str_digits": (4300, 9001),
       "sys.trace": (None, None), "sys.profile": (None, None), "gc.enabled": (True, False),
       "gc.threshold": (Tup((700, 10, 10)), Tup((900, 11, 12))), "gc.debug": (0, 0), "gc.frozen": (0, 0),
       "socket.defaulttimeout": (None, 2.5), "decimal.prec": (28, 9),
       "logging.disable": (0, 0), "logging handlers": (0, 0), "warnings.filters": (0, 0), "random.seed": (0, 0),
       "locale": ("C", "de_DE.UTF-8"), "threading.stack_size": (0, 1 << 20)}


def lib_initial(ip, key):
    if key.startswith("the level "):
        return 0
    if key.startswith(("the disabled ", "the propagate ")):
        return key.startswith("the propagate ")
    if key.startswith("the handlers "):
        return Tup(())
    return LIB.get(key, (None, None))[bool(ip.lib_user)]


def lib_get(ip, key):
    v = ip.lib.get(key)
    return lib_initial(ip, key) if v is None else v[0]


def lib_set(ip, key, v):
    (ip.lib_base if ip.loading else ip.lib)[key] = (v, ip.site())
    if ip.loading:
        ip.lib[key] = ip.lib_base[key]


def lib_changes(ip):
    """settings of the process that differ from those at the start of the path: (key, before, now, site)"""
    for key, (v, site) in list(ip.lib.items()):
        if key in ip.lib_base and ip.lib_base[key][1] is site:
            continue
        was = ip.lib_base[key][0] if key in ip.lib_base else lib_initial(ip, key)
        if v is was or akey(ip.R(v)) == akey(ip.R(was)):
            continue
        try:
            if ip.truth(ip.compare(ast.Eq(), v, was)):
                continue
        except Undecided:
            continue
        yield key, was, v, site


def _pair(key, get, put, old=False):
    @reg(get)
    def g(ip, a, k):
        return lib_get(ip, key)

    @reg(put)
    def s(ip, a, k):
        was = lib_get(ip, key)
        lib_set(ip, key, a[0] if len(a) == 1 else Tup(a))
        return was if old else None


_pair("sys.recursionlimit", "sys.getrecursionlimit", "sys.setrecursionlimit")
_pair("sys.switchinterval", "sys.getswitchinterval", "sys.setswitchinterval")
_pair("sys.int_max_str_digits", "sys.get_int_max_str_digits", "sys.set_int_max_str_digits")
_pair("sys.trace", "sys.gettrace", "sys.settrace")
_pair("sys.profile", "sys.getprofile", "sys.setprofile")
_pair("gc.threshold", "gc.get_threshold", "gc.set_threshold")
_pair("gc.debug", "gc.get_debug", "gc.set_debug")
_pair("socket.defaulttimeout", "socket.getdefaulttimeout", "socket.setdefaulttimeout")


@reg("gc.isenabled")
def _gcq(ip, a, k):
    return lib_get(ip, "gc.enabled")


@reg("gc.enable")
def _gce(ip, a, k):
    lib_set(ip, "gc.enabled", True)


@reg("gc.disable")
def _gcd(ip, a, k):
    lib_set(ip, "gc.enabled", False)


@reg("gc.collect")
def _gcc(ip, a, k):
    return ip.unk("gc.collect()")


def _changed(key, *names):
    """calls after which the setting is another one each time"""
    @reg(*names)
    def f(ip, a, k):
        lib_set(ip, key, ip.fresh("setting", ty="object"))


_changed("gc.frozen", "gc.freeze")
_changed("random.seed", "random.seed", "random.setstate")


@reg("gc.unfreeze")
def _gcu(ip, a, k):
    lib_set(ip, "gc.frozen", lib_initial(ip, "gc.frozen"))
_changed("logging handlers", "logging.basicConfig", "logging.config.dictConfig", "logging.config.fileConfig",
         "logging.setLoggerClass", "logging.setLogRecordFactory", "logging.captureWarnings", "logging.addLevelName",
         "logging.shutdown")
_changed("warnings.filters", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings")
_changed("the working directory", "os.chdir", "os.fchdir")
_changed("the environment", "os.putenv", "os.unsetenv")
_changed("the umask", "os.umask")
_changed("signal handlers", "signal.signal", "signal.alarm", "signal.setitimer", "faulthandler.enable",
         "faulthandler.disable")
_changed("exit handlers", "atexit.unregister")
_changed("codecs", "codecs.register", "codecs.register_error", "codecs.unregister")
_changed("audit hooks", "sys.addaudithook", "threading.settrace", "threading.setprofile")
_changed("decimal.prec", "decimal.setcontext")
_changed("resource limits", "resource.setrlimit")
_changed("pickling", "copyreg.pickle")


@reg("logging.disable")
def _ldis(ip, a, k):
    lib_set(ip, "logging.disable", a[0] if a else k.get("level", 50))


@reg("locale.setlocale")
def _setloc(ip, a, k):
    v = a[1] if len(a) > 1 else k.get("locale")
    if v is None:
        return lib_get(ip, "locale")
    lib_set(ip, "locale", v)
    return v


@reg("warnings.catch_warnings")
def _catchw(ip, a, k):
    return einst(ip, "warnings.catch_warnings", record=k.get("record", False))


@reg("sys.exc_info")
def _exci(ip, a, k):
    if not ip.exc_stack:
        return Tup((None, None, None))
    e = ip.exc_stack[-1]
    return Tup((e.cls, e, None))


@reg("traceback.format_exc")
def _tbf(ip, a, k):
    return Term("traceback", ty="str")


@reg("traceback.print_exc")
def _tbp(ip, a, k):
    ip.event("console", None, "traceback")


@reg("importlib.import_module")
def _imp(ip, a, k):
    return ip.module(a[0])


@reg("bisect.bisect_left", "bisect.bisect_right", "bisect.bisect", "heapq.heappush", "heapq.heappop")
def _bis(ip, a, k):
    raise Undecided("bisect/heapq")


# ------------------------------------------------------------------- ANTLR opaque
def antlr_new(ip, dotted, args, kw):
    if dotted == "antlr4.InputStream.InputStream":
        data = args[0] if args else kw.get("data")
        d = B.unwrap(ip, data)
        if not B.isstr(d):
            B.need(d)
            if isinstance(d, (ListV, Tup)):
                raise Undecided("InputStream of a sequence")
            ip.raise_("TypeError", f"{ip.typename(d)!r} object is not iterable")
        return einst(ip, dotted, name="<empty>", strdata=d, _size=B.length(ip, d), size=B.length(ip, d), _index=0, index=0)
    return einst(ip, dotted, __args=list(args), **{k: v for k, v in kw.items()})


_ANTLR_NOOP = {"seek", "reset", "setTokenSource", "release", "consume", "clear", "beginErrorCondition",
               "endErrorCondition", "reportMatch"}


def ext_method(ip, dotted, name):
    """BuiltinF (called with the instance first) or None"""
    key = (dotted, name)
    f = METHODS.get(key)
    if f is not None:
        return BuiltinF(f"{dotted}.{name}", lambda a, k: f(ip, *a, **k))
    if dotted.startswith("antlr4."):
        if name in _ANTLR_NOOP:
            return BuiltinF(f"{dotted}.{name}", lambda a, k: None)
        if dotted.endswith("ATNDeserializer") and name == "deserialize":
            return BuiltinF(f"{dotted}.{name}", lambda a, k: einst(
                ip, "antlr4.atn.ATN.ATN", decisionToState=ip.new(ListV([])), serialized=a[1] if len(a) > 1 else None))
    if dotted == "logging.Logger" and name in ("debug", "info", "warning", "warn", "error", "exception", "critical",
                                               "log", "addHandler", "setLevel", "removeHandler"):
        def log(a, k):
            ip.event("log", a[0], name)
            if name in ("addHandler", "removeHandler", "setLevel"):
                log_setting(ip, a[0], name, a[1] if len(a) > 1 else None)
                return
            n = 1 if name != "log" else 2
            if name in _LEVELS and (ip.env.get("debug") or _LEVELS[name] >= 30):
                # the handlers format the message; ordinary exceptions are swallowed there
                from .engine import PyExc
                for x in a[n + 1:]:
                    try:
                        ip.str(x)
                    except PyExc as e:
                        if ip.builtins["Exception"] not in ip.mro(e.inst.cls) or \
                                ip.builtins["RecursionError"] in ip.mro(e.inst.cls):
                            raise
        return BuiltinF(f"{dotted}.{name}", log)
    if dotted.startswith("enum.") and name == "__new__":
        return None
    return None


def logger_key(logger, name):
    return f"the {name} of the logger {show(logger.attrs.get('name'))}"


def log_setting(ip, logger, name, v):
    if name == "setLevel":
        lib_set(ip, logger_key(logger, "level"), v)
        return
    key = logger_key(logger, "handlers")
    hs = list(lib_get(ip, key).items)
    if name == "addHandler":
        hs.append(v)
    else:
        hs = [x for x in hs if x is not v]
    lib_set(ip, key, Tup(hs))


METHODS = {}
_LEVELS = {"debug": 10, "info": 20, "warning": 30, "warn": 30, "error": 40, "exception": 40, "critical": 50}


def meth(dotted, *names):
    def deco(f):
        for n in names:
            METHODS[(dotted, n)] = f
        return f
    return deco


@meth("logging.Logger", "isEnabledFor")
def _enabled(ip, self, level):
    level = ip.R(level)
    thr = 10 if ip.env.get("debug") else 30
    if isinstance(level, int):
        return level >= thr
    return not ip.truth(B.int_lt(ip, level, thr))


@meth("logging.Logger", "getEffectiveLevel")
def _efflevel(ip, self):
    return 10 if ip.env.get("debug") else 30


@meth("logging.Logger", "getChild")
def _child(ip, self, name):
    return einst(ip, "logging.Logger", name=name)


@meth("sys.TextIO", "write", "writelines")
def _write(ip, self, *a):
    ip.event("console", self, "write")


@meth("sys.TextIO", "flush")
def _flush(ip, self):
    return None


@meth("io.StringIO", "write")
def _siow(ip, self, s):
    s = B.unwrap(ip, s)
    if not B.isstr(s):
        B.need(s)
        ip.raise_("TypeError", "string argument expected")
    self.attrs["buf"] = self.attrs["buf"] + [s]
    return B.length(ip, s)


@meth("io.StringIO", "getvalue")
def _siog(ip, self):
    return sstr(self.attrs["buf"])


@meth("io.StringIO", "close", "flush", "__exit__")
def _sioc(ip, self, *a):
    return None


@meth("io.StringIO", "__enter__")
def _sioe(ip, self):
    return self


@meth("warnings.catch_warnings", "__enter__")
def _cwe(ip, self):
    self.attrs["saved"] = ip.lib.get("warnings.filters")
    return ip.new(ListV([])) if self.attrs["record"] is True else None


@meth("warnings.catch_warnings", "__exit__")
def _cwx(ip, self, *a):
    ip.lib.pop("warnings.filters", None)
    if self.attrs["saved"] is not None:
        ip.lib["warnings.filters"] = self.attrs["saved"]
    return None


@meth("contextlib.suppress", "__enter__")
def _se(ip, self):
    return None


@meth("contextlib.suppress", "__exit__")
def _sx(ip, self, t, v, tb):
    return v is not None and ip.exc_matches(v, self.attrs["excs"])


@meth("contextlib.nullcontext", "__enter__", "acquire")
def _ne(ip, self, *a):
    return self.attrs["value"]


@meth("contextlib.nullcontext", "__exit__", "release")
def _nx(ip, self, *a):
    return None


@meth("contextlib.closing", "__enter__")
def _ce(ip, self):
    return self.attrs["value"]


@meth("contextlib.closing", "__exit__")
def _cx(ip, self, *a):
    ip.call(ip.getattr(self.attrs["value"], "close"), [])
    return None


@meth("contextlib.ExitStack", "__enter__")
def _xe(ip, self):
    return self


@meth("contextlib.ExitStack", "callback")
def _xc(ip, self, f, *a, **k):
    self.attrs["cbs"] = self.attrs["cbs"] + [(f, a, k)]
    return f


@meth("contextlib.ExitStack", "__exit__")
def _xx(ip, self, *e):
    for f, a, k in reversed(self.attrs["cbs"]):
        ip.call(f, list(a), k)
    return None


@meth("functools.lru_cache_wrapper", "__call__")
def _lruc(ip, self, *a, **k):
    key = tuple(B.key(ip, x) for x in a) + tuple((n, B.key(ip, v)) for n, v in sorted(k.items()))
    c = self.attrs["cache"]
    if key in c:
        return c[key]
    r = ip.call(self.attrs["fn"], list(a), k)
    ip.touch(self)
    self.attrs["cache"] = dict(c)
    self.attrs["cache"][key] = r
    return r


@meth("functools.lru_cache_wrapper", "cache_clear")
def _lrucc(ip, self):
    ip.touch(self)
    self.attrs["cache"] = {}


@meth("antlr4.InputStream.InputStream", "getText")
def _isgt(ip, self, start, stop):
    s = self.attrs["strdata"]
    return B.getslice(ip, s, ("slice", start, ip.binop(ast.Add(), stop, 1), None))


@meth("antlr4.InputStream.InputStream", "__init__")
def _isinit(ip, self, *a, **k):
    self.attrs.update(antlr_new(ip, "antlr4.InputStream.InputStream", list(a), k).attrs)


@meth("antlr4.CommonTokenStream.CommonTokenStream", "__init__")
def _ctsinit(ip, self, *a, **k):
    self.attrs.update(antlr_new(ip, "antlr4.CommonTokenStream.CommonTokenStream", list(a), k).attrs)


def _prefetch(ip, self, everything):
    f = ip.env.get("prefetch")
    if f is None:
        raise Undecided("tokens are fetched before the parser runs")
    return f(self, everything)


@meth("antlr4.CommonTokenStream.CommonTokenStream", "fill", "getNumberOfOnChannelTokens", "getText")
def _ctsfill(ip, self, *a):
    return _prefetch(ip, self, True)


@meth("antlr4.CommonTokenStream.CommonTokenStream", "LT", "LA", "lazyInit", "setup", "sync", "get")
def _ctslt(ip, self, *a):
    if any(x not in (0, 1) for x in a):
        raise Undecided("tokens after the first are fetched before the parser runs")
    return _prefetch(ip, self, False)


@meth("antlr4.InputStream.InputStream", "__str__")
def _isstr(ip, self):
    return self.attrs["strdata"]


@meth("antlr4.error.ErrorStrategy.DefaultErrorStrategy", "sync")
def _sync(ip, self, rec):
    return None


def unknown_attr(ip, o, name):
    if name in o.attrs:
        return o.attrs[name]
    if o.cls is ExtC("logging.Logger") and name in ("level", "disabled", "propagate"):
        return lib_get(ip, logger_key(o, name))
    if o.cls is ExtC("re.Match") and o.attrs["es"] is not None:
        if name == "lastindex":
            return _mlast(ip, o)
        if name == "lastgroup":
            i = _mlast(ip, o)
            for n, j in o.attrs["pat"].attrs["gidx"].items():
                if j == i:
                    return n
            return None
    return ip.unk(f"attribute {name} of {o!r}")


def ext_getitem(ip, o, i):
    if o.cls is ExtC("re.Match"):
        return m_group(ip, o, i)
    raise Undecided(f"subscript of {o!r}")


# ------------------------------------------------------------------------ regex
SPECIAL = frozenset("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")


@reg("re.escape")
def _reescape(ip, a, k):
    s = B.unwrap(ip, a[0])
    if not B.isstr(s):
        B.need(s)
        ip.raise_("TypeError", "expected str")
    out = []
    for e in selems(s):
        e = ip.R(e)
        if isinstance(e, str):
            out.append(re.escape(e))
        elif known_len(e):
            if e.ty == "hexchar" or not in_set(ip, e, SPECIAL):
                out.append(e)
            else:
                out.append("\\")
                out.append(e)
        elif e.ty == "digits":
            out.append(e)
        else:
            out.append(Term("re.escape", e, ty="str"))
    return sstr(out)


def in_set(ip, e, chars):
    """is the char term one of the constants? (forks once)"""
    chars = frozenset(chars)
    d = ip.facts.dom.get(e)
    if e.ty == "hexchar":
        chars = chars & frozenset("0123456789abcdefABCDEF")
        if len(chars) == 22:
            return True
    if d is not None:
        if d[0] == "in":
            if d[1] <= chars:
                return True
            if not (d[1] & chars):
                return False
        else:
            if chars <= d[1]:
                return False
    elif not chars:
        return False
    if has_unk(e):
        ip.taint(f"test of {e!r}")
    r = ip.choose(2, f"{e!r} in {''.join(sorted(chars))!r}") == 0
    if r:
        ip.facts.restrict(e, chars)
    else:
        ip.facts.exclude(e, chars)
    return r


@reg("re.compile")
def _recompile(ip, a, k):
    p, fl = a[0], (a[1] if len(a) > 1 else k.get("flags", 0))
    if isinstance(p, Inst) and p.cls is ExtC("re.Pattern"):
        return p
    p = B.unwrap(ip, p)
    if not isinstance(p, str) or not isinstance(fl, int):
        raise Undecided("regular expression that is not constant")
    try:
        tree = sre_parse.parse(p, fl)
    except re.error as e:
        ip.raise_(BuiltinC(re.error), str(e))
    return einst(ip, "re.Pattern", pattern=p, flags=fl, tree=tree, groups=tree.state.groups - 1,
                 gidx=dict(tree.state.groupdict), refl=tree.state.flags)


def _mk(fn):
    def f(ip, a, k):
        pat = _recompile(ip, [a[0]] + ([k["flags"]] if "flags" in k else []), {})
        kw = {n: v for n, v in k.items() if n != "flags"}
        return METHODS[("re.Pattern", fn)](ip, pat, *a[1:], **kw)
    return f


for _fn in ("match", "search", "fullmatch", "findall", "finditer", "sub", "split", "subn"):
    CALLS["re." + _fn] = _mk(_fn)


class _NoRegex(Undecided):
    pass


def _elems(ip, s):
    s = B.unwrap(ip, s)
    if not B.isstr(s):
        B.need(s)
        ip.raise_("TypeError", "expected string or bytes-like object")
    es = []
    for e in selems(s):
        if isinstance(e, Term) and not known_len(e):
            d = ip.facts.dom.get(e)
            if d and d[0] == "in":
                for c in sorted(d[1]):
                    if B.term_eq_const(ip, e, c):
                        es.extend(c)
                        break
                continue
            return None, s
        es.append(e)
    return es, s


class RX:
    """backtracking matcher over abstract characters (forks where undetermined)"""

    def __init__(self, ip, pat, es):
        self.ip, self.es, self.flags = ip, es, pat.attrs["refl"]
        if self.flags & re.IGNORECASE:
            raise Undecided("case-insensitive regular expression")
        self.tree = pat.attrs["tree"]

    def cls(self, op, av, e):
        """does char e match a single-character node"""
        ip = self.ip
        e = ip.R(e)
        neg = False
        if op is sre_c.LITERAL:
            t = [(op, av)]
        elif op is sre_c.NOT_LITERAL:
            t, neg = [(sre_c.LITERAL, av)], True
        elif op is sre_c.ANY:
            if self.flags & re.DOTALL:
                return True
            t, neg = [(sre_c.LITERAL, 10)], True
        elif op is sre_c.IN:
            t = list(av)
            if t and t[0][0] is sre_c.NEGATE:
                neg, t = True, t[1:]
        else:
            raise Undecided("regex node")
        if isinstance(e, str):
            return any(self.one(x, e) for x in t) != neg
        # abstract character: finite set plus categories
        lits = set()
        cats = []
        for o, a in t:
            if o is sre_c.LITERAL:
                lits.add(chr(a))
            elif o is sre_c.RANGE and a[1] - a[0] < 400:
                lits.update(chr(c) for c in range(a[0], a[1] + 1))
            else:
                cats.append((o, a))
        d = ip.facts.dom.get(e)
        fin = None
        if d and d[0] == "in":
            fin = d[1]
        elif e.ty == "hexchar":
            fin = frozenset("0123456789abcdefABCDEF") - (d[1] if d else frozenset())
        if fin is not None:
            yes = frozenset(c for c in fin if any(self.one(x, c) for x in t))
            return in_set(ip, e, yes) != neg
        if lits and in_set(ip, e, lits):
            return not neg
        for o, a in cats:
            if ip.truth(Term("rxclass", e, self.item(o, a), bool(self.flags & re.ASCII), ty="bool")):
                return not neg
        return neg

    def item(self, o, a):
        """the source text of an item of a character set"""
        if o is sre_c.RANGE:
            return f"[\\U{a[0]:08x}-\\U{a[1]:08x}]"
        if o is sre_c.CATEGORY:
            for k, t in (("DIGIT", "d"), ("SPACE", "s"), ("WORD", "w")):
                if k in str(a):
                    return "\\" + (t.upper() if "NOT" in str(a) else t)
        return repr((o, a))

    def one(self, node, c):
        o, a = node
        if o is sre_c.LITERAL:
            return ord(c) == a
        if o is sre_c.RANGE:
            return a[0] <= ord(c) <= a[1]
        if o is sre_c.CATEGORY:
            n = str(a)
            neg = "NOT" in n
            asc = self.flags & re.ASCII
            if "DIGIT" in n:
                r = c.isdigit() and (not asc or c.isascii()) and c.isdecimal()
            elif "SPACE" in n:
                r = c.isspace() and (not asc or c.isascii())
            elif "WORD" in n:
                r = (c.isalnum() or c == "_") and (not asc or c.isascii())
            else:
                raise Undecided("regex category")
            return r != neg
        raise Undecided("regex set item")

    def m(self, nodes, i, pos, groups):
        """generator of (pos, groups)"""
        if i == len(nodes):
            yield pos, groups
            return
        op, av = nodes[i]
        es, n = self.es, len(self.es)
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN):
            if pos < n and self.cls(op, av, es[pos]):
                yield from self.m(nodes, i + 1, pos + 1, groups)
        elif op is sre_c.SUBPATTERN:
            gid, af, df, p = av
            if af or df:
                raise Undecided("regex inline flags")
            for q, g in self.m(list(p), 0, pos, groups):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, q)
                yield from self.m(nodes, i + 1, q, g)
        elif op is sre_c.BRANCH:
            for alt in av[1]:
                for q, g in self.m(list(alt), 0, pos, groups):
                    yield from self.m(nodes, i + 1, q, g)
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is sre_c.MAX_REPEAT
            yield from self.rep(nodes, i, p, lo, hi, greedy, 0, pos, groups)
        elif op is sre_c.AT:
            a = str(av)
            if "BEGINNING" in a and "LINE" not in a:
                ok = pos == 0
            elif a == "AT_END_STRING":
                ok = pos == n
            elif a == "AT_END":
                ok = pos == n or (pos == n - 1 and self.ip.truth(B.elem_eq(self.ip, es[pos], "\n")))
            else:
                raise Undecided("regex anchor")
            if ok:
                yield from self.m(nodes, i + 1, pos, groups)
        elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                ok = False
                if lo == hi and pos - lo >= 0:
                    for q, g in self.m(list(p), 0, pos - lo, groups):
                        ok = True
                        break
                elif lo != hi:
                    raise Undecided("regex lookbehind")
            else:
                ok = any(True for _ in self.m(list(p), 0, pos, groups))
            if ok == (op is sre_c.ASSERT):
                yield from self.m(nodes, i + 1, pos, groups)
        elif op is sre_c.GROUPREF:
            if av not in groups:
                return
            a, b = groups[av]
            k = b - a
            if pos + k <= n and all(self.ip.truth(B.elem_eq(self.ip, x, y)) for x, y in zip(es[a:b], es[pos:pos + k])):
                yield from self.m(nodes, i + 1, pos + k, groups)
        else:
            raise Undecided(f"regex construct {op}")

    def rep(self, nodes, i, p, lo, hi, greedy, k, pos, groups):
        self.ip.step()
        if not greedy and k >= lo:
            yield from self.m(nodes, i + 1, pos, groups)
        if k < int(hi) if hi is not sre_c.MAXREPEAT else True:
            for q, g in self.m(p, 0, pos, groups):
                if q == pos and k >= lo:
                    continue
                yield from self.rep(nodes, i, p, lo, hi, greedy, k + 1, q, g)
        if greedy and k >= lo:
            yield from self.m(nodes, i + 1, pos, groups)

    def at(self, pos, full=False):
        for q, g in self.m(list(self.tree), 0, pos, {}):
            if full and q != len(self.es):
                continue
            return q, g
        return None


def mk_match(ip, pat, es, s, pos, q, g):
    return einst(ip, "re.Match", es=es, s=s, span=(pos, q), gs=g, pat=pat, re=pat, string=s)


def rx_unknown(ip, pat, kind, s):
    t = Term("rx:" + kind, pat.attrs["pattern"], pat.attrs["flags"], s, ty="bool")
    if kind in ("match", "search", "fullmatch"):
        if ip.truth(t):
            return einst(ip, "re.Match", es=None, s=s, span=None, gs={}, pat=pat)
        return None
    raise Undecided(f"regex {kind} on a string of unknown length")


@meth("re.Pattern", "match")
def _rxmatch(ip, pat, s, pos=0, endpos=None):
    es, s = _elems(ip, s)
    if es is None:
        return rx_unknown(ip, pat, "match", s)
    pos = ip.R(pos)
    if not isinstance(pos, int) or endpos is not None:
        raise Undecided("regex position")
    r = RX(ip, pat, es).at(pos)
    return None if r is None else mk_match(ip, pat, es, s, pos, *r)


@meth("re.Pattern", "fullmatch")
def _rxfull(ip, pat, s, pos=0, endpos=None):
    es, s = _elems(ip, s)
    if es is None:
        return rx_unknown(ip, pat, "fullmatch", s)
    r = RX(ip, pat, es).at(0, True)
    return None if r is None else mk_match(ip, pat, es, s, 0, *r)


@meth("re.Pattern", "search")
def _rxsearch(ip, pat, s, pos=0, endpos=None):
    es, s = _elems(ip, s)
    if es is None:
        return rx_unknown(ip, pat, "search", s)
    pos = ip.R(pos)
    if not isinstance(pos, int) or endpos is not None:
        raise Undecided("regex position")
    rx = RX(ip, pat, es)
    for i in range(pos, len(es) + 1):
        r = rx.at(i)
        if r is not None:
            return mk_match(ip, pat, es, s, i, *r)
    return None


def _all(ip, pat, es, s):
    rx = RX(ip, pat, es)
    i = 0
    last = -1
    while i <= len(es):
        r = rx.at(i)
        if r is None:
            i += 1
            continue
        q, g = r
        yield mk_match(ip, pat, es, s, i, q, g)
        if q == i:
            i += 1
        else:
            i = q


@meth("re.Pattern", "finditer")
def _rxfi(ip, pat, s):
    es, s = _elems(ip, s)
    if es is None:
        return rx_unknown(ip, pat, "finditer", s)
    return ip.new(IterV(_all(ip, pat, es, s)))


@meth("re.Pattern", "findall")
def _rxfa(ip, pat, s):
    es, s = _elems(ip, s)
    if es is None:
        return rx_unknown(ip, pat, "findall", s)
    out = []
    for m in _all(ip, pat, es, s):
        n = pat.attrs["groups"]
        if n == 0:
            out.append(m_group(ip, m, 0))
        elif n == 1:
            out.append(m_group(ip, m, 1) or "")
        else:
            out.append(Tup([m_group(ip, m, j) or "" for j in range(1, n + 1)]))
    return ip.new(ListV(out))


def _template(ip, tpl, m):
    if not isinstance(tpl, str):
        raise Undecided("regex replacement template")
    out, i = [], 0
    while i < len(tpl):
        c = tpl[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        n = tpl[i + 1] if i + 1 < len(tpl) else ""
        if n == "g":
            j = tpl.index(">", i)
            g = tpl[i + 3:j]
            out.append(m_group(ip, m, int(g) if g.isdigit() else g) or "")
            i = j + 1
        elif n.isdigit() and n != "0":
            out.append(m_group(ip, m, int(n)) or "")
            i += 2
        elif n in "ntrfvab\\":
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a", "b": "\b", "\\": "\\"}[n])
            i += 2
        else:
            raise Undecided("regex template escape")
    return sstr(out)


@meth("re.Pattern", "sub")
def _rxsub(ip, pat, repl, s, count=0):
    es, s = _elems(ip, s)
    if es is None:
        if isinstance(repl, str):
            return Term("rx:sub", pat.attrs["pattern"], pat.attrs["flags"], repl, s, ty="str")
        return rx_unknown(ip, pat, "sub", s)
    out, last, k = [], 0, 0
    for m in _all(ip, pat, es, s):
        a, b = m.attrs["span"]
        out.extend(es[last:a])
        r = ip.R(repl)
        if isinstance(r, (str, SStr, Term)):
            out.append(_template(ip, r, m))
        else:
            v = B.unwrap(ip, ip.call(r, [m]))
            if not B.isstr(v):
                B.need(v)
                ip.raise_("TypeError", "expected str instance")
            out.append(v)
        last = b
        k += 1
        if count and k >= count:
            break
    out.extend(es[last:])
    return sstr(out)


@meth("re.Pattern", "split")
def _rxsplit(ip, pat, s, maxsplit=0):
    es, s = _elems(ip, s)
    if es is None:
        return rx_unknown(ip, pat, "split", s)
    out, last = [], 0
    for m in _all(ip, pat, es, s):
        a, b = m.attrs["span"]
        out.append(sstr(es[last:a]))
        for j in range(1, pat.attrs["groups"] + 1):
            out.append(m_group(ip, m, j))
        last = b
    out.append(sstr(es[last:]))
    return ip.new(ListV(out))


@meth("re.Pattern", "subn")
def _rxsubn(ip, pat, *a, **k):
    raise Undecided("re.subn")


def m_group(ip, m, i=0):
    i = ip.R(i)
    if m.attrs["es"] is None:
        if i == 0 and False:
            return m.attrs["s"]
        raise Undecided("group of a match on an unknown string")
    if isinstance(i, str):
        gi = m.attrs["pat"].attrs["gidx"].get(i)
        if gi is None:
            ip.raise_("IndexError", "no such group")
        i = gi
    if not isinstance(i, int):
        raise Undecided("regex group index")
    if i == 0:
        a, b = m.attrs["span"]
    else:
        if i > m.attrs["pat"].attrs["groups"]:
            ip.raise_("IndexError", "no such group")
        if i not in m.attrs["gs"]:
            return None
        a, b = m.attrs["gs"][i]
    return sstr(m.attrs["es"][a:b])


@meth("re.Match", "group")
def _mgroup(ip, m, *idx):
    if len(idx) <= 1:
        return m_group(ip, m, *(idx or (0,)))
    return Tup([m_group(ip, m, i) for i in idx])


@meth("re.Match", "__getitem__")
def _mgi(ip, m, i):
    return m_group(ip, m, i)


@meth("re.Match", "groups")
def _mgroups(ip, m, default=None):
    out = []
    for i in range(1, m.attrs["pat"].attrs["groups"] + 1):
        g = m_group(ip, m, i)
        out.append(default if g is None else g)
    return Tup(out)


@meth("re.Match", "groupdict")
def _mgd(ip, m, default=None):
    d = ip.new(DictV())
    for n in m.attrs["pat"].attrs["gidx"]:
        g = m_group(ip, m, n)
        B.dict_set(ip, d, n, default if g is None else g)
    return d


def _mspan(ip, m, i=0):
    if m.attrs["es"] is None:
        raise Undecided("span of a match on an unknown string")
    if isinstance(i, str):
        i = m.attrs["pat"].attrs["gidx"][i]
    return m.attrs["span"] if i == 0 else m.attrs["gs"].get(i, (-1, -1))


@meth("re.Match", "start")
def _mstart(ip, m, i=0):
    return _mspan(ip, m, i)[0]


@meth("re.Match", "end")
def _mend(ip, m, i=0):
    return _mspan(ip, m, i)[1]


@meth("re.Match", "span")
def _msp(ip, m, i=0):
    return Tup(_mspan(ip, m, i))


def _mlast(ip, m):
    g = m.attrs["gs"]
    best = None
    for k, (a, b) in g.items():
        if best is None or (b, -a) >= (g[best][1], -g[best][0]):
            best = k
    return best
