"""P07, P15-P17: the node classes and the visitors."""
import ast
import itertools

from . import shapes as S
from . import trees as T
from . import witness
from .c_tree import sweep as tree_sweep
from .check import exc_text
from .engine import AnchorError, PyExc, Undecided
from .values import *

M = "fcsql.parser"
KINDS = list(T.NODE_TYPES)
HANDLER = {k: f"visit_{k}" for k in KINDS}
# the values of QueryNodeType: the documentation of visit() names the handlers after them
DOCUMENTED = {k: k[10:] if k.startswith("Expression") and k != "Expression" else k for k in KINDS}


def cls(ip, name):
    return T.get(ip, M, name)


def em(ip, c, n):
    return T.enum_member(ip, M, c, n)


def leaf(ip):
    return ip.call(cls(ip, "ExpressionWildcard"), [])


def expression(ip, q=None, i="text", op="EQUALS", rx="v", flags=None):
    fl = None
    if flags is not None:
        fl = ip.new(SetV())
        for f in flags:
            ip.B.set_add(ip, fl, em(ip, "RegexFlag", f))
    return ip.call(cls(ip, "Expression"), [], {"qualifier": q, "identifier": i, "operator": em(ip, "Operator", op),
                                               "regex": rx, "regex_flags": fl})


def build(ip, kind, kids=(), mn=1, mx=1, scope="SENTENCE", **kw):
    """a node of the class with the given children"""
    kids = list(kids)
    c = cls(ip, kind)
    if kind == "Expression":
        return expression(ip, **kw)
    if kind == "ExpressionWildcard":
        return ip.call(c, [ip.new(ListV(kids))] if kids else [])
    if kind in ("ExpressionGroup", "ExpressionNot"):
        return ip.call(c, [kids[0]])
    if kind in ("ExpressionAnd", "ExpressionOr", "QueryDisjunction", "QuerySequence"):
        return ip.call(c, [ip.new(ListV(kids))])
    if kind == "QueryWithWithin":
        return ip.call(c, [kids[0], kids[1] if len(kids) > 1 else None])
    if kind in ("QuerySegment", "QueryGroup"):
        return ip.call(c, [kids[0], mn, mx])
    if kind == "SimpleWithin":
        return ip.call(c, [em(ip, "SimpleWithinScope", scope)])
    raise ValueError(kind)


ARITY = {"Expression": (0,), "ExpressionWildcard": (0,), "ExpressionGroup": (1,), "ExpressionNot": (1,),
         "ExpressionAnd": (1, 2, 4, 3), "ExpressionOr": (1, 2, 4, 3), "QueryDisjunction": (1, 2, 4, 3),
         "QuerySequence": (1, 2, 4, 3), "QueryWithWithin": (1, 2), "QuerySegment": (1,), "QueryGroup": (1,),
         "SimpleWithin": (0,)}
NARY = [k for k in KINDS if max(ARITY[k]) > 2]


def guarded(c, aspect, what, f):
    """f() must not raise"""
    try:
        return True, f()
    except PyExc as e:
        c.n += 1
        c.fail(aspect, f"{what} raises {exc_text(e)}", e.site)
        return False, None


def same_obj(c, ip, aspect, what, got, want, site=None):
    c.n += 1
    got = ip.R(got)
    if got is want or akey(got) == akey(want):
        return
    if has_unk(got):
        c.open.append((aspect, f"{what}: {show(got)}"))
    elif isinstance(got, (Inst, bool, int, str, ListV)) or got is None or isinstance(want, (Inst, bool)) or want is None:
        if isinstance(got, Term) and isinstance(want, bool) and got.ty == "bool":
            w = witness.differ(ip.facts, got, want)
            if w is None:
                c.open.append((aspect, f"{what}: {show(got)}"))
                return
        c.bad.append((aspect, f"{what} is {show(got)}, expected {show(want)}", None, site))
    else:
        c.open.append((aspect, f"{what}: {show(got)}"))


# ------------------------------------------------------------------------- P07
def p07(ck):
    ck.rule("In every tree of the structural families each node's parent is the node listing it and the root's is none; "
            "every node constructor links exactly the given children and leaves the given list as it was.")
    for i, s in enumerate(S.structural(ck.tier)):
        tree_sweep(ck, "returned trees", s, {"parent", "structure"}, {"enableSourceLocations": bool(i % 2)},
                   ["enableSourceLocations"])
    for s in S.empties():
        tree_sweep(ck, "empty values", s, {"parent", "structure"}, {"enableSourceLocations": False}, ["enableSourceLocations"])
    for k in KINDS:
        for n in ARITY[k] + ((5, 6) if k in NARY else ()):
            ck.sweep("constructors", f"{k} with {n} children", ctor_harness(k, n))
    for n in ck.thresholds():
        for k in NARY:
            ck.sweep("as many children as the constants in the code suggest", f"{k} with {n} children", ctor_harness(k, n))
    for n in range(0, 7):
        for one in (False, True):
            for how in ("children", "none", "tuple"):
                ck.sweep("constructors", f"QueryNode(children={how} of {n}, child={one})", base_harness(n, one, how))
            ck.sweep("constructors", f"ExpressionWildcard({n} children, child={one})",
                     base_harness(n, one, "children", "ExpressionWildcard"))


def check_links(ip, c, node, want, what):
    kids = T.attr(ip, node, "children")
    got = T.items(ip, kids)
    c.n += 1
    if [id(x) for x in got] != [id(x) for x in want]:
        c.fail("parent", f"{what}: children are {show(kids)}, expected exactly the {len(want)} given ones", node.made)
    for w in want:
        same_obj(c, ip, "parent", f"{what}: parent of a child", T.attr(ip, w, "parent"), node,
                 T.attr_site(ip, w, "parent"))
    same_obj(c, ip, "parent", f"{what}: parent of the new node", T.attr(ip, node, "parent"), None,
             T.attr_site(ip, node, "parent"))


def ctor_harness(k, n):
    def h(ip):
        c = T.Cmp(ip)
        kids = [(leaf(ip) if i % 2 == 0 else expression(ip, rx="v" if i % 4 == 3 else "")) for i in range(n)]
        given = ip.new(ListV(kids))
        if k in NARY:
            ok, node = guarded(c, "parent", k, lambda: ip.call(cls(ip, k), [given]))
        else:
            ok, node = guarded(c, "parent", k, lambda: build(ip, k, kids))
        if not ok:
            return c
        check_links(ip, c, node, kids, k)
        c.n += 1
        if [id(x) for x in given.items] != [id(x) for x in kids]:
            c.fail("parent", f"{k}: the caller's list of children was changed", node.made)
        if k in NARY:
            # what the caller does with its list afterwards is of no concern to the node
            ip.call(ip.getattr(given, "append"), [leaf(ip)])
            check_links(ip, c, node, kids, f"{k} after a change of the caller's list")
        if kids:
            # the same nodes taken over by another one
            again = "children that had another parent before"
            given = ip.new(ListV(kids))
            ok, node2 = guarded(c, "parent", again, lambda: ip.call(cls(ip, k), [given]) if k in NARY else
                                build(ip, k, kids))
            if ok:
                check_links(ip, c, node2, kids, f"{k} of {again}")
                c.n += 1
                if [id(x) for x in T.items(ip, T.attr(ip, node, "children"))] != [id(x) for x in kids]:
                    c.fail("parent", f"{k}: the children of the earlier node changed", node2.made)
        return c
    return h


def base_harness(n, one, how, name="QueryNode"):
    def h(ip):
        c = T.Cmp(ip)
        kids = [leaf(ip) for _ in range(n)]
        extra = expression(ip) if one else None
        given = None if how == "none" else Tup(kids) if how == "tuple" else ip.new(ListV(kids))
        pos = [em(ip, "QueryNodeType", "QUERY_SEQUENCE")] if name == "QueryNode" else []
        ok, node = guarded(c, "parent", name, lambda: ip.call(cls(ip, name), pos, {"children": given, "child": extra}))
        if not ok:
            return c
        want = ([] if how == "none" else list(kids)) + ([extra] if one else [])
        check_links(ip, c, node, want, name)
        c.n += 1
        if isinstance(given, ListV) and [id(x) for x in given.items] != [id(x) for x in kids]:
            c.fail("parent", f"{name}: the caller's list of children was changed", node.made)
        if isinstance(given, ListV):
            ip.call(ip.getattr(given, "append"), [leaf(ip)])
            check_links(ip, c, node, want, f"{name} after a change of the caller's list")
        return c
    return h


# ------------------------------------------------------------------------- P15
def p15(ck):
    ck.rule("Every accessor of every node class, for every child list up to the bound (kinds varied), every index "
            "(including symbolic, negative and out-of-range) and every kind argument, yields the child or value the "
            "statement gives, and never raises except TypeError for a missing argument of a predicate.")
    n = 5 if ck.thorough else 3
    pal = ["ExpressionWildcard", "Expression", "ExpressionNot"]
    for k in range(n + 1):
        for combo in itertools.product(pal if k <= 3 else pal[:2], repeat=k):
            if k == 3 and not ck.thorough and combo[0] > combo[2]:
                continue
            ck.sweep("child lookup", f"children {list(combo)}", lookup_harness(combo))
    ck.sweep("child lookup", "symbolic index", symindex_harness(["Expression", "ExpressionWildcard", "Expression"]))
    ck.sweep("child lookup", "symbolic index, no child", symindex_harness([]))
    for k in KINDS:
        for n in ARITY[k]:
            ck.sweep("child lookup on every class", f"{k} with {n} children", class_harness(k, n))
    for k in KINDS:
        if k in NARY:
            for how in ("replaced", "appended", "removed", "emptied", "grown from nothing"):
                ck.sweep("children changed between questions", f"{k}, {how}", changed_harness(k, how))
    ck.sweep("expression predicates", "fields assigned after construction", refield)
    for q in (None, "", "q", "?"):
        for i in ("text", "?"):
            ck.sweep("expression predicates", f"qualifier {q!r}, identifier {i!r}", expr_harness(q, i))
    fl = ["CASE_INSENSITIVE", "CASE_SENSITIVE", "LITERAL_MATCHING", "IGNORE_DIACRITICS"]
    for r in range(5):
        for fs in itertools.combinations(fl, r):
            for op in ("EQUALS", "NOT_EQUALS"):
                ck.sweep("expression predicates", f"flags {fs}, operator {op}", flag_harness(fs, op, r == 0))


def lookup_harness(combo):
    def h(ip):
        c = T.Cmp(ip)
        kids = []
        for k in combo:
            kids.append(build(ip, k, [leaf(ip)] if k == "ExpressionNot" else []))
        node = ip.call(cls(ip, "QuerySequence"), [ip.new(ListV(kids))])
        check_lookup(ip, c, node, kids, ["ExpressionWildcard", "Expression", "ExpressionNot", "QuerySegment",
                                         "QueryNode"])
        return c
    return h


def check_lookup(ip, c, node, kids, classes):
    def is_a(x, cn):
        return cls(ip, cn) in ip.mro(x.cls)
    ok, v = guarded(c, "lookup", "child_count", lambda: T.attr(ip, node, "child_count"))
    if ok:
        same_obj(c, ip, "lookup", "child_count", v, len(kids))
    for cn in [None] + classes:
        sel = kids if cn is None else [x for x in kids if is_a(x, cn)]
        for idx in range(-2, len(kids) + 3):
            want = sel[idx] if 0 <= idx < len(sel) else None
            calls = [([idx], {})] if cn is None else [([idx, cls(ip, cn)], {}), ([idx], {"clazz": cls(ip, cn)})]
            for a, kw in calls:
                what = f"get_child({idx}{', ' + cn if cn else ''}) of a node with {len(kids)} children"
                ok, v = guarded(c, "lookup", what, lambda: ip.call(ip.getattr(node, "get_child"), a, kw))
                if ok:
                    same_obj(c, ip, "lookup", what, v, want)
        for f, want in (("get_first_child", sel[0] if sel else None), ("get_last_child", sel[-1] if sel else None)):
            what = f"{f}({cn or ''}) of a node with {len(kids)} children"
            a = [] if cn is None else [cls(ip, cn)]
            ok, v = guarded(c, "lookup", what, lambda: ip.call(ip.getattr(node, f), a))
            if ok:
                same_obj(c, ip, "lookup", what, v, want)


def rearrange(ip, node, order, how):
    """client code changes the children of the root; -> the nodes in document order afterwards"""
    now = ip.R(T.attr(ip, node, "children"))
    if not isinstance(now, ListV):
        raise Undecided("the children of a node are no list")
    x = expression(ip, i="lemma")
    T.assign(ip, x, "parent", node)
    if how == "appended":
        ip.call(ip.getattr(now, "append"), [x])
        return order + [x]
    if how == "replaced":
        T.assign(ip, node, "children", ip.new(ListV([x])))
        return [node, x]
    ip.call(ip.getattr(now, "pop"), [0])
    return [order[0]] + order[2:]


CHANGES = ("appended", "replaced", "removed")


def revisit_harness(k, how):
    """a visit after the tree was changed sees the tree as it is now"""
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        node, order = sample(ip, k, 2)
        v = ip.call(m.ns.vars["Log"], [])
        for now in (False, True):
            if now:
                order = rearrange(ip, node, order, how)
            for name, w in (("the same visitor", v), ("a new visitor", ip.call(m.ns.vars["Log"], []))):
                del w.attrs["log"].items[:]
                ok, r = guarded(c, "visit", "visit", lambda: ip.call(ip.getattr(w, "visit"), [node]))
                if not ok:
                    return c
                got = [(t.items[0], id(t.items[1])) for t in w.attrs["log"].items]
                c.n += len(order)
                if got != [(HANDLER[kind_of(ip, x)], id(x)) for x in order]:
                    c.fail("visit", f"{name} after a child of {k} was {how}: handlers {[a for a, _ in got]} are called")
        return c
    return h


def reprint_harness(k, n):
    """the string of a node whose fields were changed is that of a new node with these fields"""
    def h(ip):
        c = T.Cmp(ip)
        loc = ip.call(cls(ip, "SourceLocation"), [4, 9])
        E = T.get(ip, M, "Operator").members
        if k == "Expression":
            a = expression(ip)
            b = expression(ip, q="q", i="pos", op="NOT_EQUALS", rx="w", flags=("IGNORE_DIACRITICS",))
            fields = ("qualifier", "identifier", "operator", "regex", "regex_flags")
        elif k == "SimpleWithin":
            a, b, fields = build(ip, k), build(ip, k, scope="TURN"), ("scope",)
        else:
            kids = lambda: [leaf(ip) if i % 2 else expression(ip) for i in range(n)]  # noqa: E731
            if k == "QueryWithWithin" and n == 2:
                kids = lambda: [leaf(ip), build(ip, "SimpleWithin")]  # noqa: E731
            a, fields = build(ip, k, kids()), ()
            if k in ("QuerySegment", "QueryGroup"):
                b, fields = build(ip, k, kids(), 2, 7), ("min_occurs", "max_occurs")
            elif k in NARY:
                b, fields = build(ip, k, kids() + [leaf(ip)]), ("children",)
            else:
                b = build(ip, k, kids())
        ip.str(a)
        T.assign(ip, b, "location", loc)
        for f in fields + ("location",):
            T.assign(ip, a, f, T.attr(ip, b, f))
        x, y = ip.str(a), ip.str(b)
        c.same("str", f"string of a {k} node after a change of its fields, against a new node with these fields", x, y)
        return c
    return h


def changed_harness(k, how):
    """the answers follow the children the node has now"""
    def h(ip):
        c = T.Cmp(ip)
        kids = [] if how == "grown from nothing" else [expression(ip), leaf(ip), expression(ip)]
        node = build(ip, k, kids)
        ks = ["Expression", "ExpressionWildcard", "QueryNode"]
        check_lookup(ip, c, node, kids, ks)
        now = ip.R(T.attr(ip, node, "children"))
        if how == "replaced" or not isinstance(now, ListV):
            kids = [leaf(ip), expression(ip)]
            T.assign(ip, node, "children", ip.new(ListV(list(kids))))
        elif how == "appended" or how == "grown from nothing":
            kids = kids + [leaf(ip)]
            ip.call(ip.getattr(now, "append"), [kids[-1]])
        elif how == "removed":
            kids = kids[1:]
            ip.call(ip.getattr(now, "pop"), [0])
        else:
            kids = []
            ip.call(ip.getattr(now, "clear"), [])
        check_lookup(ip, c, node, kids, ks)
        if k in ("ExpressionAnd", "ExpressionOr"):
            ok, v = guarded(c, "accessor", f"{k}.operands", lambda: T.attr(ip, node, "operands"))
            c.n += 1
            if ok and [id(x) for x in T.items(ip, v)] != [id(x) for x in kids]:
                c.fail("accessor", f"{k}.operands is {show(v)} after the children were {how}")
        return c
    return h


def refield(ip):
    c = T.Cmp(ip)
    E = T.get(ip, M, "Operator").members
    F = T.get(ip, M, "RegexFlag").members
    e = expression(ip, q="q", i="text", flags=("CASE_SENSITIVE",))
    for q, i, op, fl in (("q", "text", None, None), (None, "pos", E[1], F[:1]), ("r", "pos", E[0], F[:2]), ("", "text", E[1], []),
                         ("q", "lemma", E[0], F[3:])):
        if op is not None:
            for n, v in (("qualifier", q), ("identifier", i), ("operator", op),
                         ("regex_flags", ip.call(ip.builtins["set"], [ip.new(ListV(list(fl)))]) if fl else None)):
                T.assign(ip, e, n, v)
        what = "after the fields were assigned" if op is not None else None
        for a in ("q", "r", "x"):
            pred(ip, c, e, "has_layer_qualifier", [a], bool(q) and a == q, what and f"has_layer_qualifier({a!r}) {what}")
        pred(ip, c, e, "is_layer_qualifier_empty", [], not q, what and f"is_layer_qualifier_empty() {what}")
        for a in ("text", "pos", "lemma"):
            pred(ip, c, e, "has_layer_identifier", [a], a == i, what and f"has_layer_identifier({a!r}) {what}")
        if op is not None:
            for o in E:
                pred(ip, c, e, "has_operator", [o], o is op, f"has_operator({show(o)}) {what}")
            for m in F:
                pred(ip, c, e, "has_regex_flag", [m], m in fl, f"has_regex_flag({show(m)}) {what}")
            pred(ip, c, e, "is_regex_flags_empty", [], not fl, f"is_regex_flags_empty() {what}")
    return c


def symindex_harness(combo):
    def h(ip):
        c = T.Cmp(ip)
        kids = [build(ip, k) for k in combo]
        node = ip.call(cls(ip, "ExpressionAnd"), [ip.new(ListV(kids))])
        i = Term("index", ty="int")
        ok, v = guarded(c, "lookup", "get_child(i)", lambda: ip.call(ip.getattr(node, "get_child"), [i]))
        if ok:
            want = None
            for j, k in enumerate(kids):
                if ip.truth(ip.eq(i, j)):
                    want = k
                    break
            same_obj(c, ip, "lookup", "get_child(i)", v, want)
        ok, v = guarded(c, "lookup", "get_child(i, Expression)",
                        lambda: ip.call(ip.getattr(node, "get_child"), [i, cls(ip, "Expression")]))
        if ok:
            sel = [k for k, n in zip(kids, combo) if n == "Expression"]
            want = None
            for j, k in enumerate(sel):
                if ip.truth(ip.eq(i, j)):
                    want = k
                    break
            same_obj(c, ip, "lookup", "get_child(i, Expression)", v, want)
        return c
    return h


def class_harness(k, n):
    def h(ip):
        c = T.Cmp(ip)
        kids = [expression(ip) if i % 2 == 0 else leaf(ip) for i in range(n)]
        if k == "QueryWithWithin" and n == 2:
            kids[1] = build(ip, "SimpleWithin")
        node = build(ip, k, kids)
        check_lookup(ip, c, node, kids, ["Expression", "QueryNode", "SimpleWithin"])
        acc = []
        if k == "QueryWithWithin":
            acc = [("get_query", kids[0]), ("get_within", kids[1] if n == 2 else None)]
        elif k == "QuerySegment":
            acc = [("get_expression", kids[0])]
        elif k == "QueryGroup":
            acc = [("get_content", kids[0])]
        for f, want in acc:
            ok, v = guarded(c, "accessor", f"{k}.{f}()", lambda: ip.call(ip.getattr(node, f), []))
            if ok:
                same_obj(c, ip, "accessor", f"{k}.{f}()", v, want)
        if k in ("ExpressionAnd", "ExpressionOr"):
            ok, v = guarded(c, "accessor", f"{k}.operands", lambda: T.attr(ip, node, "operands"))
            if ok:
                c.n += 1
                if [id(x) for x in T.items(ip, v)] != [id(x) for x in kids]:
                    c.fail("accessor", f"{k}.operands is {show(v)}, expected the children in order")
        own = em(ip, "QueryNodeType", T.NODE_TYPES[k])
        for t in T.get(ip, M, "QueryNodeType").members:
            ok, v = guarded(c, "accessor", "has_node_type", lambda: ip.call(ip.getattr(node, "has_node_type"), [t]))
            if ok:
                same_obj(c, ip, "accessor", f"{k}.has_node_type({show(t)})", boolean(ip, v), t is own)
        type_error(ip, c, node, "has_node_type")
        return c
    return h


def boolean(ip, v):
    v = ip.R(v)
    if isinstance(v, Term) and v.ty == "bool":
        return ip.truth(v)
    return v


def type_error(ip, c, node, f):
    c.n += 1
    try:
        v = ip.call(ip.getattr(node, f), [None])
        c.fail("accessor", f"{f}(None) yields {show(v)} instead of a type error")
    except PyExc as e:
        if ip.exc_class("TypeError") not in ip.mro(e.inst.cls):
            c.fail("accessor", f"{f}(None) raises {exc_text(e)} instead of a type error", e.site)


def pred(ip, c, node, f, args, want, what=None):
    what = what or f"{f}({', '.join(map(show, args))})"
    ok, v = guarded(c, "predicate", what, lambda: ip.call(ip.getattr(node, f), args))
    if ok:
        same_obj(c, ip, "predicate", what, boolean(ip, v), want)


def expr_harness(q, i):
    def h(ip):
        c = T.Cmp(ip)
        qv = Term("qualifier", ty="str") if q == "?" else q
        if q == "?":
            ip.facts.alpha[qv] = (frozenset(T.LETTERS + T.DIGITS + "-"), False)
            ip.facts.pool[qv] = ["q", "x-1", "Q"]
        iv = Term("identifier", ty="str") if i == "?" else i
        e = expression(ip, q=qv, i=iv)
        empty = q in (None, "")
        pred(ip, c, e, "is_layer_qualifier_empty", [], empty)
        o = Term("other", ty="str")
        for arg in ("text", "q", "", iv, o):
            pred(ip, c, e, "has_layer_identifier", [arg], ip.truth(ip.eq(iv, arg)))
        for arg in ("q", "Q", "", o) + (() if empty else (qv,)):
            pred(ip, c, e, "has_layer_qualifier", [arg], False if empty else ip.truth(ip.eq(qv, arg)))
        type_error(ip, c, e, "has_layer_identifier")
        type_error(ip, c, e, "has_layer_qualifier")
        return c
    return h


def flag_harness(fs, op, none):
    def h(ip):
        c = T.Cmp(ip)
        for flags in ([None, ()] if none else [fs]):
            e = expression(ip, flags=flags, op=op)
            pred(ip, c, e, "is_regex_flags_empty", [], not fs)
            for m in T.get(ip, M, "RegexFlag").members:
                pred(ip, c, e, "has_regex_flag", [m], m.attrs["name"] in fs)
            for o in ("EQUALS", "NOT_EQUALS"):
                pred(ip, c, e, "has_operator", [em(ip, "Operator", o)], o == op)
            type_error(ip, c, e, "has_regex_flag")
            type_error(ip, c, e, "has_operator")
        return c
    return h


# ------------------------------------------------------------------------- P16
CLIENT = '''
from fcsql.parser import QueryVisitor, QueryVisitorAdapter

class Log(QueryVisitorAdapter):
    def __init__(self):
        super().__init__()
        self.log = []
%(all)s

class Plain(QueryVisitorAdapter):
    pass

class Bare(QueryVisitor):
    pass

class Handler:
    def __init__(self, log, name):
        self.log, self.name = log, name
    def __call__(self, node):
        self.log.append((self.name, node))
        return self.name

class Called(QueryVisitorAdapter):
    """handlers that are callable objects"""
    def __init__(self):
        super().__init__()
        self.log = []
        for kind in %(kinds)s:
            setattr(self, "visit_" + kind, Handler(self.log, kind))

class Hooks(QueryVisitorAdapter):
    def __init__(self, stop):
        super().__init__()
        self.stop, self.log = stop, []
    def defaultResult(self):
        return "D"
    def aggregateResult(self, aggregate, nextResult):
        self.log.append(("agg", aggregate, nextResult))
        return (aggregate, nextResult)
    def shouldVisitNextChild(self, node, currentResult):
        self.log.append(("next", node, currentResult))
        return len([x for x in self.log if x[0] == "next"]) <= self.stop
    def visit_Expression(self, node):
        self.log.append(("visit", node))
        return node

class Results(QueryVisitorAdapter):
    def __init__(self, start, results):
        super().__init__()
        self.start, self.results, self.log = start, list(results), []
    def defaultResult(self):
        return self.start
    def aggregateResult(self, aggregate, nextResult):
        self.log.append((aggregate, nextResult))
        return nextResult
    def visit_Expression(self, node):
        return self.results.pop(0)

class Shape(QueryVisitorAdapter):
    def defaultResult(self):
        return ()
    def aggregateResult(self, aggregate, nextResult):
        return aggregate + (nextResult,)

%(one)s

%(made)s
'''


def client(ip):
    al = "\n".join(f"    def {h}(self, node):\n        self.log.append(({h!r}, node))\n"
                   f"        return ({h!r}, self.visitChildren(node))" for h in HANDLER.values())
    one = "\n".join(
        f"class Only{k}(QueryVisitorAdapter):\n    def __init__(self):\n        super().__init__()\n        self.log = []\n"
        f"    def visit_{k}(self, node):\n        self.log.append(({k!r}, node))\n        return 'R'\n"
        f"class Bare{k}(QueryVisitor):\n    def __init__(self):\n        super().__init__()\n        self.log = []\n"
        f"    def visit_{k}(self, node):\n        self.log.append(({k!r}, node))\n        return 'R'\n"
        for k in KINDS)
    one += "\n" + "\n".join(f"from fcsql.parser import {k}\nclass My{k}({k}):\n    def __init__(self):\n        pass\n"
        f"class Doc{k}(QueryVisitor):\n    def __init__(self):\n        super().__init__()\n        self.log = []\n"
        f"    def visit_{DOCUMENTED[k]}(self, node):\n        self.log.append(('', node))\n        return 'R'\n"
        for k in KINDS)
    # classes of the same name and place with different handlers
    made = "\n".join(
        f"def make_{n}(base):\n    class Visitor(base):\n        def __init__(self):\n            super().__init__()\n"
        f"            self.log = []\n" + "".join(
            f"        def visit_{k}(self, node):\n            self.log.append(({n + '.' + k!r}, node))\n"
            f"            return ({n + '.' + k!r}, self.visitChildren(node))\n" for k in ks) +
        "    return Visitor\n" for n, ks in MADE.items())
    return ip.add_source("client", CLIENT % {"kinds": repr(sorted(KINDS)), "all": al, "one": one, "made": made})


MADE = {"every": KINDS, "none": [], "again": KINDS, "upper": [k for k in KINDS if k.startswith("Query")],
        "lower": [k for k in KINDS if k.startswith("Expression")]}


def sample(ip, k, n=None, inner=None):
    """(node of kind k, list of its nodes in document order)"""
    n = max(ARITY[k]) if n is None else n
    kids, order = [], []
    for i in range(n):
        if inner and i == n - 1:
            x, o = inner(ip)
        elif k == "QueryWithWithin" and i == 1:
            x = build(ip, "SimpleWithin")
            o = [x]
        else:
            x = expression(ip, rx="" if i == 1 else "v") if i % 2 else leaf(ip)
            o = [x]
        kids.append(x)
        order += o
    node = build(ip, k, kids)
    return node, [node] + order


def trees_for_visit():
    """label -> builder(ip) -> (root, nodes in document order)"""
    out = {}
    for k in KINDS:
        for n in ARITY[k]:
            out[f"{k}/{n}"] = lambda ip, k=k, n=n: sample(ip, k, n)
    for a in KINDS:
        if max(ARITY[a]):
            for b in KINDS:
                out[f"{a} > {b}"] = lambda ip, a=a, b=b: sample(ip, a, None, lambda ip: sample(ip, b))
    out["deep"] = lambda ip: sample(ip, "QueryWithWithin", 1, lambda ip: sample(
        ip, "QueryDisjunction", 3, lambda ip: sample(ip, "QuerySequence", 2, lambda ip: sample(
            ip, "QueryGroup", 1, lambda ip: sample(ip, "QuerySegment", 1, lambda ip: sample(
                ip, "ExpressionOr", 2, lambda ip: sample(ip, "ExpressionNot", 1, lambda ip: sample(
                    ip, "ExpressionGroup", 1, lambda ip: sample(ip, "ExpressionAnd", 3)))))))))
    return out


def sized_trees(ck):
    out, top = {}, 0
    for n in ck.thresholds():
        for k in NARY:
            out[f"{k}/{n}"] = lambda ip, k=k, n=n: sample(ip, k, n)
        if n <= 60:
            def chain(ip, d=n):
                return sample(ip, "ExpressionGroup", 1, (lambda ip: chain(ip, d - 1)) if d > 1 else None)
            out[f"ExpressionGroup nested {n} deep"] = chain
        top = n
    ck.size = top
    return out


def kind_of(ip, node):
    return node.cls.name


def p16(ck):
    ck.rule("For trees of every kind and every parent/child pair of kinds: visit and accept call exactly the handler "
            "named after the node's class and return its result; default handlers and visitors without the handler "
            "reach every child once in order through defaultResult/aggregateResult/shouldVisitNextChild; node_type of "
            "each class is its own member; the documented handler name visit_<node type> works for every kind and "
            "for nodes of classes derived from it.")
    for lab, mkr in trees_for_visit().items():
        for debug in (False, True):
            if debug and ">" in lab:
                continue
            ck.sweep("dispatch and traversal", lab + (" (debug log on)" if debug else ""), visit_harness(mkr),
                     {"debug": debug})
    for lab, mkr in sized_trees(ck).items():
        ck.sweep("as many children or levels as the constants in the code suggest", lab, visit_harness(mkr))
    for k in NARY:
        for how in CHANGES:
            ck.sweep("tree changed between visits", f"{k}, {how}", revisit_harness(k, how))
    for k in KINDS:
        ck.sweep("visitors with one handler", k, only_harness(k))
    for a, b in itertools.permutations(MADE, 2):
        for k in KINDS:
            ck.sweep("visitors of the same name", f"{k}: {a} then {b}", homonym_harness(k, a, b))
    for k in KINDS:
        ck.sweep("documented handler names, nodes of a derived class", k, derived_harness(k))
    for stop in range(0, 5):
        for n in (1, 2, 3):
            ck.sweep("result and stop hooks", f"stop after {stop} of {n} children", hooks_harness(stop, n))
    for n in (1, 2, 3):
        for rs in itertools.product((None, False, 0, "", "r"), repeat=n):
            for start in (None, 0, "s"):
                ck.sweep("results of any kind", f"children yield {rs}, beginning with {start!r}", results_harness(start, rs))
    for lab, mkr in trees_for_visit().items():
        ck.sweep("results of the default handlers", lab, shape_harness(mkr))
    ck.sweep("node types", "all classes", types_harness)


def visit_harness(mkr):
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        node, order = mkr(ip)
        for via in ("visit", "accept"):
            v = ip.call(m.ns.vars["Log"], [])
            if via == "visit":
                ok, r = guarded(c, "visit", "visit", lambda: ip.call(ip.getattr(v, "visit"), [node]))
            else:
                ok, r = guarded(c, "visit", "accept", lambda: ip.call(ip.getattr(node, "accept"), [v]))
            if not ok:
                continue
            log = v.attrs["log"].items
            got = [(t.items[0], t.items[1]) for t in log]
            want = [(HANDLER[kind_of(ip, x)], x) for x in order]
            c.n += len(want)
            if [(a, id(b)) for a, b in got] != [(a, id(b)) for a, b in want]:
                c.fail("visit", f"{via} of a {kind_of(ip, node)} tree calls {[(a, show(b)) for a, b in got]}, expected "
                                f"{[a for a, _ in want]} in document order")
            c.n += 1
            r = ip.R(r)
            if not (isinstance(r, Tup) and r.items[0] == HANDLER[kind_of(ip, node)]):
                c.fail("visit", f"{via} of a {kind_of(ip, node)} node does not return its handler's result but {show(r)}")
        for name in ("Plain", "Bare"):
            v = ip.call(m.ns.vars[name], [])
            ok, r = guarded(c, "visit", f"visit by {name}", lambda: ip.call(ip.getattr(v, "visit"), [node]))
            if ok:
                same_obj(c, ip, "visit", "result of the default handlers", r, None)
        return c
    return h


def derived_harness(k):
    """the documented handler is visit_<node type>; a node whose class a user derives from a kind is of that kind"""
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        want, order = sample(ip, k)
        node = ip.call(m.ns.vars[f"My{k}"], [])
        for n, v in want.attrs.items():
            ip.setattr_raw(node, n, v)
        c.n += 1
        if ip.R(ip.getattr(node, "node_type")) is not ip.R(ip.getattr(want, "node_type")):
            c.fail("visit", f"the node type of a node whose class is derived from {k} is "
                            f"{show(ip.getattr(node, 'node_type'))}")
        for x in (want, node):
            v = ip.call(m.ns.vars[f"Doc{k}"], [])
            for via in ("visit", "accept"):
                v.attrs["log"] = ip.new(ListV([]))
                ok, r = guarded(c, "visit", via, lambda: ip.call(ip.getattr(v, "visit"), [x]) if via == "visit" else
                                ip.call(ip.getattr(x, "accept"), [v]))
                if not ok:
                    continue
                got = [id(t.items[1]) for t in v.attrs["log"].items]
                c.n += 1
                if got != [id(x)]:
                    c.fail("visit", f"{via} of a node of class {x.cls.name} by a visitor with visit_{DOCUMENTED[k]}, the "
                                    f"documented handler of {k}, calls it {len(got)} times")
                same_obj(c, ip, "visit", f"result of visit_{DOCUMENTED[k]}", r, "R")
        return c
    return h


def only_harness(k):
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        trees = [sample(ip, a, None, (lambda ip: sample(ip, k)) if max(ARITY[a]) else None) for a in KINDS]
        for name in (f"Only{k}", f"Bare{k}"):
            for node, order in trees:
                v = ip.call(m.ns.vars[name], [])
                ok, r = guarded(c, "visit", f"visit by {name}", lambda: ip.call(ip.getattr(v, "visit"), [node]))
                if not ok:
                    continue
                want, skip = [], set()
                for x in order:
                    if id(x) in skip:
                        skip |= {id(y) for y in T.items(ip, x.attrs["children"])}
                        continue
                    if kind_of(ip, x) == k:
                        want.append(id(x))
                        skip |= {id(y) for y in T.items(ip, x.attrs["children"])}
                got = [id(t.items[1]) for t in v.attrs["log"].items]
                c.n += 1
                if got != want:
                    c.fail("visit", f"a visitor with only visit_{k} has it called {len(got)} times on a "
                                    f"{kind_of(ip, node)} tree, expected {len(want)} times in document order")
                if kind_of(ip, node) == k:
                    same_obj(c, ip, "visit", f"result of visit_{k}", r, "R")
        return c
    return h


def homonym_harness(k, *names):
    """visitor classes with the same name used one after the other: each has its own handlers called"""
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        node, order = sample(ip, k)
        for base in ("QueryVisitor", "QueryVisitorAdapter"):
            for n in names:
                v = ip.call(ip.call(m.ns.vars[f"make_{n}"], [cls(ip, base)]), [])
                ok, r = guarded(c, "visit", f"visit by {n}", lambda: ip.call(ip.getattr(v, "visit"), [node]))
                if not ok:
                    continue
                want = [(f"{n}.{kind_of(ip, x)}", id(x)) for x in order if kind_of(ip, x) in MADE[n]]
                got = [(t.items[0], id(t.items[1])) for t in v.attrs["log"].items]
                c.n += 1
                if got != want:
                    c.fail("visit", f"visiting a {k} tree by a {base} with handlers {n}, after one of the same name with "
                                    f"other handlers, calls {[x for x, _ in got]}, expected {[x for x, _ in want]}")
        return c
    return h


def hooks_harness(stop, n):
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        kids = [expression(ip) for _ in range(n)]
        for k in ("ExpressionAnd", "QuerySequence", "QueryDisjunction"):
            node = build(ip, k, kids)
            for how in ("visit", "visitChildren"):
                v = ip.call(m.ns.vars["Hooks"], [stop])
                ok, r = guarded(c, "visit", how, lambda: ip.call(ip.getattr(v, how), [node]))
                if not ok:
                    continue
                res = "D"
                log = []
                for i, x in enumerate(kids):
                    log.append(Tup(("next", node, res)))
                    if i + 1 > stop:
                        break
                    log.append(Tup(("visit", x)))
                    log.append(Tup(("agg", res, x)))
                    res = Tup((res, x))
                got = v.attrs["log"].items
                c.n += len(log)
                if [akey(x) for x in got] != [akey(x) for x in log]:
                    c.fail("visit", f"{how}: hooks are called as {[show(x)[:60] for x in got]}, expected "
                                    f"{[show(x)[:60] for x in log]}")
                same_obj(c, ip, "visit", f"{how}: aggregated result", r, res)
        return c
    return h


def results_harness(start, rs):
    """every child's result is aggregated, whatever it is"""
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        for k in ("ExpressionAnd", "QuerySequence"):
            node = build(ip, k, [expression(ip) for _ in rs])
            v = ip.call(m.ns.vars["Results"], [start, ip.new(ListV(rs))])
            ok, r = guarded(c, "visit", "visit", lambda: ip.call(ip.getattr(v, "visit"), [node]))
            if not ok:
                continue
            want = [akey(Tup(x)) for x in zip((start,) + rs, rs)]
            got = [akey(x) for x in v.attrs["log"].items]
            c.n += 1
            if got != want:
                c.fail("visit", f"children yielding {rs}: the results are combined as {show(v.attrs['log'])[:120]}")
            same_obj(c, ip, "visit", f"result for children yielding {rs}", r, rs[-1])
        return c
    return h


def shape_harness(mkr):
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        node, order = mkr(ip)

        def want(x):
            return Tup(tuple(want(k) for k in T.items(ip, T.attr(ip, x, "children"))))
        for x in order:
            k = kind_of(ip, x)
            for how in ("visit", HANDLER[k], "accept"):
                v = ip.call(m.ns.vars["Shape"], [])
                ok, r = guarded(c, "visit", how, lambda: ip.call(ip.getattr(x, "accept"), [v]) if how == "accept" else
                                ip.call(ip.getattr(v, how), [x]))
                if ok:
                    c.same("visit", f"{how}: result of the default handlers for a {k} node", r, want(x))
        return c
    return h


def types_harness(ip):
    c = T.Cmp(ip)
    seen = {}
    for k in KINDS:
        node, _ = sample(ip, k)
        t = T.attr(ip, node, "node_type")
        same_obj(c, ip, "type", f"node type of {k}", t, em(ip, "QueryNodeType", T.NODE_TYPES[k]),
                 T.attr_site(ip, node, "node_type"))
        if id(t) in seen:
            c.fail("type", f"{k} and {seen[id(t)]} have the same node type")
        seen[id(t)] = k
    return c


# ------------------------------------------------------------------------- P17
def p17(ck):
    ck.rule("The string of a node, as an abstract string over its unknown fields, contains the kind and every field in "
            "order and the children's strings in order, differs whenever an enumerated field differs, and is the same "
            "for equal nodes under both set iteration orders, with and without a parent.")
    fl = ["CASE_INSENSITIVE", "CASE_SENSITIVE", "LITERAL_MATCHING", "IGNORE_DIACRITICS"]
    subsets = [fs for r in range(5) for fs in itertools.combinations(fl, r)]
    ck.sweep("distinct content prints distinctly", "expressions", distinct_expr(subsets))
    ck.sweep("distinct content prints distinctly", "characters", distinct_chars)
    ck.sweep("distinct content prints distinctly", "bounds, scopes, kinds", distinct_nodes)
    ck.sweep("locations and enumerations", "location", str_location)
    for n in ("QueryNodeType", "Operator", "RegexFlag", "SimpleWithinScope"):
        ck.sweep("locations and enumerations", n, str_members(n))
    ck.sweep("set order", "flags inserted in every order", order_harness(fl))
    ck.sweep("set order", "flags inserted in every order, other iteration order", order_harness(fl), {"setorder": True})
    for so in (False, True):
        env = {"setorder": so}
        for q in (None, "?"):
            for fs in subsets:
                for n in (0, 1, 2):
                    if n != 1 and fs and not ck.thorough:
                        continue
                    for op in ("EQUALS", "NOT_EQUALS"):
                        for loc in (False, True):
                            ck.sweep("expressions", f"{q} {op} {fs} value of {n} characters, location {loc}, set order {so}",
                                     str_expr(q, op, fs, n, loc), env)
        for k in KINDS:
            if k == "Expression":
                continue
            for n in ARITY[k]:
                for loc in (False, True):
                    ck.sweep("other nodes", f"{k} with {n} children, location {loc}", str_node(k, n, loc), env)
    for k in KINDS:
        for n in ARITY[k]:
            ck.sweep("fields changed between printings", f"{k} with {n} children", reprint_harness(k, n))
    for n in ck.thresholds():
        for k in NARY:
            ck.sweep("as many children as the constants in the code suggest", f"{k} with {n} children", str_node(k, n, True))
        ck.sweep("as many characters as the constants in the code suggest", f"value of {n} characters",
                 str_expr("?", "EQUALS", (), n, True))


def pieces_in(ip, c, what, out, pieces, site=None):
    """pieces occur in out, in order, without overlap"""
    c.n += 1
    flat = list(selems(out))
    pos = 0
    ok = True
    for p in pieces:
        pe = list(selems(p))
        for i in range(pos, len(flat) - len(pe) + 1):
            if all(akey(a) == akey(b) for a, b in zip(flat[i:i + len(pe)], pe)):
                pos = i + len(pe)
                break
        else:
            ok = False
            break
    if ok:
        return

    def missing(asg):
        o, pos = witness.ev(out, asg), 0
        for p in pieces:
            s = witness.ev(p, asg)
            i = o.find(s, pos)
            if i < 0:
                return True
            pos = i + len(s)
        return False
    if has_unk(out):
        c.open.append(("str", f"{what}: {show(out)}"))
        return
    w = witness.find(ip.facts, missing, [out] + list(pieces))
    if w is None:
        c.open.append(("str", f"{what}: {show(out)} against {pieces}"))
    else:
        c.bad.append(("str", f"{what} is {show(out)}, which does not show {', '.join(map(show, pieces))} in this order",
                      {"printed": witness.ev(out, w), "inputs": witness.showasg(w)}, site))


def str_location(ip):
    c = T.Cmp(ip)
    a, b = Term("location start", ty="nat"), Term("location stop", ty="nat")
    o = ip.call(cls(ip, "SourceLocation"), [a, b])
    ok, out = guarded(c, "str", "str of a location", lambda: ip.str(o))
    if ok:
        pieces_in(ip, c, "the printed form of a location", out, [ip.str(a), ip.str(b)])
    return c


def str_members(n):
    def h(ip):
        c = T.Cmp(ip)
        seen = {}
        for m in ip.iterate(cls(ip, n)):
            ok, out = guarded(c, "str", f"str of a {n}", lambda: ip.str(m))
            if not ok:
                continue
            c.n += 1
            out = ip.R(out)
            if out in (None, "") or akey(out) in seen:
                c.fail("str", f"{show(m)} prints as {show(out)}" +
                       (f", like {show(seen[akey(out)])}" if akey(out) in seen else ""))
            seen[akey(out)] = m
            same_obj(c, ip, "str", f"the string of {show(m)}", out, ip.R(ip.getattr(m, "value")))
        return c
    return h


def place(ip, node, loc):
    if loc:
        a, b = Term("location start", ty="nat"), Term("location stop", ty="nat")
        ip.setattr(node, "location", ip.call(cls(ip, "SourceLocation"), [a, b]))
        return [ip.str(a), ip.str(b)]
    return []


def value_chars(ip, n):
    out = []
    for i in range(n):
        t = Term("value char", i, ty="char")
        ip.facts.dom[t] = ("out", frozenset("\n\r\t"))
        out.append(t)
    return sstr(out)


def sval(ip, member):
    return ip.str(member)


def str_expr(q, op, fs, n, loc):
    def h(ip):
        c = T.Cmp(ip)
        qv = None
        if q:
            qv = Term("qualifier", ty="str")
            ip.facts.alpha[qv] = (frozenset(T.LETTERS), False)
        iv = Term("identifier", ty="str")
        ip.facts.alpha[iv] = (frozenset(T.LETTERS), False)
        rx = value_chars(ip, n)
        e = expression(ip, q=qv, i=iv, op=op, rx=rx, flags=fs or None)
        tail = place(ip, e, loc)
        ok, out = guarded(c, "str", "str of an expression", lambda: ip.str(e))
        if not ok:
            return c
        chars = [ip.R(T.attr(ip, em(ip, "RegexFlag", f), "char")) for f in fs]
        body = [sval(ip, T.attr(ip, e, "node_type"))] + ([qv] if q else []) + [iv, sval(ip, em(ip, "Operator", op)), rx]
        pieces_in(ip, c, "the printed form of an expression", out, [p for p in body if p != ""] + tail)
        # the flags are shown between the value and the end, in any order
        for ch in chars:
            pieces_in(ip, c, f"the printed form of an expression with flag {ch!r}", out,
                      [p for p in body if p != ""] + [ch] + tail)
        e2 = expression(ip, q=qv, i=iv, op=op, rx=rx, flags=tuple(reversed(fs)) or None)
        place(ip, e2, loc)
        build(ip, "ExpressionNot", [e2])
        ok, out2 = guarded(c, "str", "str of an expression", lambda: ip.str(e2))
        if ok:
            c.same("str", "the printed form of an equal expression below a parent", out2, out)
        return c
    return h


def str_node(k, n, loc):
    def h(ip):
        c = T.Cmp(ip)
        mn, mx = Term("min", ty="nat"), Term("max", ty="nat")
        kids, strs = [], []
        for i in range(n):
            iv = Term("identifier", i, ty="str")
            ip.facts.alpha[iv] = (frozenset(T.LETTERS), False)
            e = build(ip, "SimpleWithin") if k == "QueryWithWithin" and i else expression(ip, i=iv)
            place(ip, e, loc and i == 0)
            kids.append(e)
            strs.append(ip.str(e))
        node = build(ip, k, kids, mn=mn, mx=mx)
        tail = place(ip, node, loc)
        ok, out = guarded(c, "str", f"str of a {k} node", lambda: ip.str(node))
        if not ok:
            return c
        pieces = [sval(ip, T.attr(ip, node, "node_type"))]
        if k in ("QuerySegment", "QueryGroup"):
            if not ip.truth(ip.eq(mn, 1)):
                pieces.append(ip.str(mn))
            if not ip.truth(ip.eq(mx, 1)):
                pieces.append(ip.str(mx))
        if k == "SimpleWithin":
            pieces.append(sval(ip, T.attr(ip, node, "scope")))
        pieces += strs + tail
        pieces_in(ip, c, f"the printed form of a {k} node", out, pieces)
        return c
    return h


def all_distinct(ip, c, named):
    c.n += 1
    seen = {}
    for lab, s in named:
        s = ip.R(s)
        if has_unk(s):
            c.open.append(("str", f"{lab}: {show(s)}"))
            continue
        k = akey(s)
        if k in seen:
            c.fail("str", f"{lab} prints like {seen[k]}: {show(s)}")
        seen[k] = lab


def distinct_expr(subsets):
    def h(ip):
        c = T.Cmp(ip)
        named = []
        for q in (None, "q"):
            for i in ("text", "pos", "q"):
                for op in ("EQUALS", "NOT_EQUALS"):
                    for rx in ("", "a", "A", " a", "a\n", "a\tb", "a\rb", "ab"):
                        for fs in (subsets if rx == "a" else [()]):
                            for loc in ((None, (0, 1), (1, 2)) if rx == "a" and not fs else (None,)):
                                e = expression(ip, q=q, i=i, op=op, rx=rx, flags=fs or None)
                                if loc:
                                    ip.setattr(e, "location", ip.call(cls(ip, "SourceLocation"), list(loc)))
                                named.append((f"expression {q}:{i} {op} {rx!r} {fs} at {loc}", ip.str(e)))
        all_distinct(ip, c, named)
        return c
    return h


def distinct_chars(ip):
    """single characters in the same place: the escaping of the printed form is injective"""
    c = T.Cmp(ip)
    named = []
    for ch in CHARS:
        for rx in (ch, "a" + ch, ch + "a"):
            named.append((f"expression value {rx!r}", ip.str(expression(ip, rx=rx))))
    all_distinct(ip, c, named)
    return c


CHARS = ["\n", "\r", "\t", "\f", "\v", "\b", "\0", "\x7f", "\x85", "\u2028", "\ufeff", " ", "\xa0", "\u200b", "n", "r", "t",
         "N", "\\", "'", '"', "e", "\xe9", "e\u0301", "\ufffd", "?", "/", ".", "\U0001f600", "\U0001f601",
         "\x01", "\x02", "\ue000", "\ue001", "\U0010ffff", "\uff02", "\u0130", "i\u0307", "\xdf", "ss", "\u212b", "\xc5"]


def distinct_nodes(ip):
    c = T.Cmp(ip)
    named = []
    un = T.get(ip, M, "OCCURS_UNBOUNDED")
    for k in ("QuerySegment", "QueryGroup"):
        for mn in (0, 1, 2, 3, 999999, 1000000, 1000001, 9007199254740992, 9007199254740993):
            for mx in (1, 2, 3, 12345678, 12345679, un):
                named.append((f"{k} {mn}..{mx}", ip.str(build(ip, k, [leaf(ip)], mn=mn, mx=mx))))
    for s in T.get(ip, M, "SimpleWithinScope").members:
        named.append((f"within {s}", ip.str(build(ip, "SimpleWithin", scope=s.attrs["name"]))))
    for k in KINDS:
        if k in ("QuerySegment", "QueryGroup", "SimpleWithin"):
            continue
        for n in ARITY[k]:
            kids = [leaf(ip) if i % 2 == 0 else expression(ip) for i in range(n)]
            named.append((f"{k} with {n} children", ip.str(build(ip, k, kids))))
            if n > 1:
                named.append((f"{k} with {n} children reversed but one", ip.str(build(ip, k, [
                    expression(ip) if i % 2 == 0 else leaf(ip) for i in range(n)]))))
    all_distinct(ip, c, named)
    return c


def order_harness(fl):
    def h(ip):
        c = T.Cmp(ip)
        for r in (2, 3, 4):
            for fs in itertools.combinations(fl, r):
                outs = [ip.str(expression(ip, flags=p)) for p in itertools.permutations(fs)]
                for o in outs[1:]:
                    c.same("str", f"printed flags {fs} for another insertion order", o, outs[0])
        return c
    return h
