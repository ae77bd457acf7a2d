"""Abstract parse trees of FCS-QL queries, the query tree each one stands for,
and the comparison of the two.

A query is described by a *shape* (nested tuples below).  Token texts, token
offsets and white space stay symbolic, so one shape stands for every query of
that form.  `Maker` turns a shape into (a) the ANTLR parse tree the generated
parser would hand to the tree builder, as instances of the generated context
classes, and (b) the expected query tree, straight from the statement of the
properties.

    query   ("query", MAIN, scope text | None)
    MAIN    ("simple", INNER, QUANT) ("group", MAIN, QUANT) ("seq", [..]) ("disj", [..])
    INNER   ("implicit", REGEXP) | ("segment", EXPR | None)
    EXPR    ("basic", qualified?, "=" | "!=", REGEXP) ("egroup", E) ("eor", [..]) ("eand", [..]) ("enot", E)
    QUANT   None | "*" | "+" | "?" | "n" | "n," | ",m" | "n,m" | ",n" style ranges
    REGEXP  ("re", body, flags) body: list of elements, flags: None | list of flag characters / "?"
"""
from . import witness
from .engine import AnchorError, PyExc
from .facts import Infeasible
from .values import *

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
WS = frozenset("\t\n\v\f\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")

PARSER = "fcsql.FCSParser"


class Tok:
    def __init__(self, type_, text):
        self.type, self.text = type_, text
        self.start = self.stop = None


class Nd:
    def __init__(self, rule, kids):
        self.rule, self.kids = rule, [k for k in kids if k is not None]

    def first(self):
        k = self.kids[0]
        return k if isinstance(k, Tok) else k.first()

    def last(self):
        k = self.kids[-1]
        return k if isinstance(k, Tok) else k.last()

    def tokens(self):
        for k in self.kids:
            if isinstance(k, Tok):
                yield k
            else:
                yield from k.tokens()


class X:
    """expected query node"""

    def __init__(self, cls, span, kids=(), **fields):
        self.cls, self.span, self.kids, self.fields = cls, span, list(kids), fields

    def __repr__(self):
        return f"{self.cls}({', '.join(map(repr, self.kids))})"


class Reject(Exception):
    """the shape denotes a query that has to be rejected by the tree builder"""


def linecol(text, off):
    """line and column the runtime counts for an offset (only a line feed ends a line)"""
    if not isinstance(text, str) or not isinstance(off, int):
        return None, None
    return 1 + text.count("\n", 0, off), off - (text.rfind("\n", 0, off) + 1)


class Maker:
    def __init__(self, ip, cfg):
        self.ip, self.cfg = ip, cfg
        self.n = 0
        self.rejects = []

    def num(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ token texts
    def ident(self):
        t = Term("identifier", self.num(), ty="str")
        self.ip.facts.alpha[t] = (frozenset(LETTERS + DIGITS + "-"), False)
        self.ip.facts.pool[t] = ["a", "Zx", "x-9", "text", "lemma", "pos", "within", "s", "i", "word"]
        return t

    def digits(self):
        t = Term("digits", self.num(), ty="digits")
        self.ip.facts.pool[t] = ["0", "1", "2", "007", "12", "3", "1234567", "2147483648", "9007199254740993", "12345678901234567890123"]
        return t

    def tok(self, type_, text):
        return Tok(type_, text)

    # ---------------------------------------------------------------- grammar
    def query(self, sh):
        _, main, scope = sh
        if main is None:                   # no token but the end; never accepted
            return Nd("query", [self.tok("EOF", "<EOF>")]), None
        n, x = self.main(main)
        kids = [Nd("main_query", [n])]
        if scope is not None:
            st = self.tok("SIMPLE_WITHIN_SCOPE", scope)
            wp = Nd("within_part_simple", [st])
            w = X("SimpleWithin", wp, scope=scope)
            kids += [self.tok("WITHIN", "within"), Nd("within_part", [wp])]
            kids.append(self.tok("EOF", "<EOF>"))
            q = Nd("query", kids)
            x = X("QueryWithWithin", q, [x, w])
        else:
            kids.append(self.tok("EOF", "<EOF>"))
            q = Nd("query", kids)
        return q, x

    def main(self, sh):
        k = sh[0]
        if k == "simple":
            return self.simple(sh)
        if k == "group":
            inner, ix = self.main(sh[1])
            qn, mn, mx = self.quant(sh[2])
            n = Nd("query_group", [self.tok("L_PAREN", "("), inner, self.tok("R_PAREN", ")"), qn])
            return n, X("QueryGroup", n, [ix], min_occurs=mn, max_occurs=mx)
        if k == "seq":
            parts = [self.main(s) for s in sh[1]]
            n = Nd("query_sequence", [p[0] for p in parts])
            return n, X("QuerySequence", n, [p[1] for p in parts])
        if k == "disj":
            parts = [self.main(s) for s in sh[1]]
            kids = []
            for i, p in enumerate(parts):
                if i:
                    kids.append(self.tok("OR", "|"))
                kids.append(p[0])
            n = Nd("query_disjunction", kids)
            return n, X("QueryDisjunction", n, [p[1] for p in parts])
        raise ValueError(sh)

    def simple(self, sh):
        _, inner, quant = sh
        if inner[0] == "implicit":
            rn, val, flags = self.regexp(inner[1])
            n = Nd("query_implicit", [rn])
            x = X("Expression", n, qualifier=None, identifier=self.cfg["default_identifier"],
                  operator=self.cfg["default_operator"], regex=val, regex_flags=flags)
        elif inner[1] is None:
            n = Nd("query_segment", [self.tok("L_SQUARE_BRACKET", "["), self.tok("R_SQUARE_BRACKET", "]")])
            x = X("ExpressionWildcard", n)
        else:
            en, x = self.expr(inner[1])
            n = Nd("query_segment", [self.tok("L_SQUARE_BRACKET", "["), Nd("expression", [en]),
                                     self.tok("R_SQUARE_BRACKET", "]")])
        qn, mn, mx = self.quant(quant)
        s = Nd("query_simple", [n, qn])
        return s, X("QuerySegment", s, [x], min_occurs=mn, max_occurs=mx)

    def quant(self, q):
        if q is None:
            return None, 1, 1
        if q == "*":
            return Nd("quantifier", [self.tok("Q_ZERO_OR_MORE", "*")]), 0, "unbounded"
        if q == "+":
            return Nd("quantifier", [self.tok("Q_ONE_OR_MORE", "+")]), 1, "unbounded"
        if q == "?":
            return Nd("quantifier", [self.tok("Q_ZERO_OR_ONE", "?")]), 0, 1
        kids = [self.tok("L_CURLY_BRACKET", "{")]
        vals = []
        for part in q.replace(",", " , ").split():
            if part == ",":
                kids.append(self.tok("Q_COMMA", ","))
                vals.append(",")
            else:
                t = self.digits() if not part.isdigit() else part
                kids.append(self.tok("INTEGER", t))
                vals.append(self.intval(t))
        kids.append(self.tok("R_CURLY_BRACKET", "}"))
        n = Nd("quantifier", kids)
        if "," not in vals:
            return n, vals[0], vals[0]
        i = vals.index(",")
        mn = vals[0] if i == 1 else 0
        mx = vals[i + 1] if len(vals) > i + 1 else "unbounded"
        if mx != "unbounded":
            self.rejects.append(("range", mn, mx))
        return n, mn, mx

    def intval(self, t):
        return int(t) if isinstance(t, str) else Term("int", t, ty="nat")

    def expr(self, sh):
        k = sh[0]
        if k == "basic":
            return self.basic(sh)
        if k == "egroup":
            en, ex = self.expr(sh[1])
            n = Nd("expression_group", [self.tok("L_PAREN", "("), en, self.tok("R_PAREN", ")")])
            return n, X("ExpressionGroup", n, [ex])
        if k == "enot":
            en, ex = self.expr(sh[1])
            n = Nd("expression_not", [self.tok("NOT", "!"), en])
            return n, X("ExpressionNot", n, [ex])
        if k in ("eor", "eand"):
            parts = [self.expr(s) for s in sh[1]]
            kids = []
            for i, p in enumerate(parts):
                if i:
                    kids.append(self.tok("OR", "|") if k == "eor" else self.tok("AND", "&"))
                kids.append(p[0])
            n = Nd("expression_or" if k == "eor" else "expression_and", kids)
            return n, X("ExpressionOr" if k == "eor" else "ExpressionAnd", n, [p[1] for p in parts])
        raise ValueError(sh)

    def basic(self, sh):
        _, qual, op, rx = sh
        words = {"id": "IDENTIFIER", "within": "WITHIN", "scope": "SIMPLE_WITHIN_SCOPE", "flags": "REGEXP_FLAGS"}

        def word(kind):
            if kind is True or kind == "id":
                return self.tok("IDENTIFIER", self.ident())
            if isinstance(kind, tuple):
                return self.tok(words[kind[0]], kind[1])
            raise ValueError(kind)
        ident = "id"
        if isinstance(qual, tuple) and qual and qual[0] == "words":
            _, qual, ident = qual
        kids = []
        qv = None
        if qual:
            t = word(qual)
            qv = t.text
            kids += [Nd("qualifier", [t]), self.tok("COLON", ":")]
        t = word(ident)
        kids.append(Nd("identifier", [t]))
        a = Nd("attribute", kids)
        ot = self.tok("OPERATOR_EQ", "=") if op == "=" else self.tok("OPERATOR_NE", "!=")
        rn, val, flags = self.regexp(rx)
        n = Nd("expression_basic", [a, ot, rn])
        return n, X("Expression", n, qualifier=qv, identifier=t.text,
                    operator=("Operator", "EQUALS" if op == "=" else "NOT_EQUALS"), regex=val, regex_flags=flags)

    # ----------------------------------------------------------------- values
    def regexp(self, rx):
        _, body, flags = rx[:3]
        quote = rx[3] if len(rx) > 3 else '"'
        text, val = [], []
        for e in body:
            t, v = self.unit(e, quote)
            text += t
            val += v
        kids = [Nd("regexp_pattern", [self.tok("REGEXP", sstr([quote] + text + [quote]))])]
        fl = []
        if flags is not None:
            ft = []
            for f in flags:
                if f == "?":
                    f = Term("flag", self.num(), ty="char")
                    self.ip.facts.dom.setdefault(f, ("in", frozenset("iIcCld")))
                ft.append(f)
            fl = ft
            kids += [self.tok("FWD_SLASH", "/"), Nd("regexp_flag", [self.tok("REGEXP_FLAGS", sstr(ft))])]
        v = sstr(val)
        form = self.cfg["unicode_normalization_form"]
        if form is not None:
            from . import ext
            v = ext.CALLS["unicodedata.normalize"](self.ip, [form, v], {})
        return Nd("regexp", kids), v, ("flags", fl)

    def unit(self, e, quote):
        """one element of a quoted value -> (source elements, decoded elements)"""
        F = self.ip.facts
        if e == "c":        # any character that is no escape and no closing quote
            t = Term("plain", self.num(), ty="char")
            F.dom.setdefault(t, ("out", frozenset(["\\", quote])))
            return [t], [t]
        if e == "s":        # any run of plain characters
            t = Term("run", self.num(), ty="str")
            F.pool[t] = ["", "a", "Ab 1", "x\u0301", "\u00e9\u0301z", "\u212b", "a.b*", " ", "\t", "1"]
            F.atoms.setdefault(Term("contains", t, "\\", ty="bool"), False)
            return [t], [t]
        if isinstance(e, str) and e.startswith("="):
            return list(e[1:]), list(e[1:])
        if e[0] == "esc":
            c = e[1]
            m = {"n": "\n", "t": "\t", "\\": "\\", "'": "'", '"': '"'}
            if c in m:
                return ["\\", c], [m[c]]
            if c in ".^$*+?(){}[]|":
                return ["\\", c], ["\\", c]
            k = {"x": 2, "u": 4, "U": 8}.get(c)
            if k is None:
                raise ValueError(e)
            hs, cp = [], 0
            for i in range(k):
                spec = e[2][i] if len(e) > 2 else "?"
                if spec == "?":
                    h = Term("hex digit", self.num(), ty="hexchar")
                    hv = Term("hexval", h, ty="nat")
                    F.bounds[hv] = (0, 15)
                else:
                    h, hv = spec, int(spec, 16)
                hs.append(h)
                cp = ladd(lmul(cp, 16), hv)
            self.rejects.append(("codepoint", cp, None))
            v = chr(cp) if isinstance(cp, int) and cp < 0x110000 else (
                "\ufffd" if isinstance(cp, int) else Term("chr", cp, ty="char"))
            return ["\\", c] + hs, [v]
        raise ValueError(e)

    # -------------------------------------------------------------- realising
    def layout(self, root, ws=None):
        """assign offsets; returns the query text (white space unknown, or the given strings in turn)"""
        toks = list(root.tokens())
        self.ws = []
        pos = 0
        parts = []
        ip = self.ip
        for i, t in enumerate(toks):
            if ws is None:
                w = Term("ws", i, ty="str")
                ip.facts.alpha[w] = (WS, True)
                ip.facts.pool[w] = ["", " ", "\n ", "\t"]
                pos = ladd(pos, Term("len", w, ty="nat"))
            else:
                w = ws[i % len(ws)]
                pos = ladd(pos, len(w))
            parts.append(w)
            self.ws.append(w)
            t.index = i
            t.start = pos
            if t.type == "EOF":
                t.stop = ladd(pos, -1)
                continue
            parts.append(t.text)
            pos = ladd(pos, ip.B.length(ip, t.text))
            t.stop = ladd(pos, -1)
        self.text = sstr(parts)
        return self.text

    def realise(self, root, parser_inst=None, cut=0):
        """the parse tree; the tokenizer has seen the query without its first `cut` characters"""
        ip = self.ip
        toks = ip.modules["antlr4.Token"].ns.vars
        tree = ip.modules["antlr4.tree.Tree"].ns.vars
        pcls = get(ip, PARSER, "FCSParser")
        types = pcls.ns.vars

        def mk(n, parent):
            cname = n.rule[0].upper() + n.rule[1:] + "Context"
            cls = types.get(cname)
            if not isinstance(cls, ClassV):
                raise AnchorError(f"FCSParser.{cname} not found")
            inv = -1 if parent is None else Term("invoking", self.num(), ty="nat")
            c = ip.call(cls, [parser_inst, parent, inv])
            kids = []
            for k in n.kids:
                if isinstance(k, Tok):
                    ty = -1 if k.type == "EOF" else types.get(k.type)
                    if not isinstance(ty, int):
                        raise AnchorError(f"FCSParser.{k.type} not found")
                    t = ip.call(toks["CommonToken"], [Tup((None, None)), ty, 0, k.start - cut if cut else k.start,
                                                       k.stop - cut if cut else k.stop])
                    line, col = linecol(self.text[cut:] if cut else self.text, k.start - cut if cut else k.start)
                    if line is None:
                        line, col = Term("line", k.index, ty="nat"), Term("col", k.index, ty="nat")
                    t.attrs.update(line=line, column=col, tokenIndex=k.index)
                    t.attrs["_text"] = k.text
                    if getattr(k, "inst", None) is None:
                        k.inst = t
                    tn = ip.call(tree["TerminalNodeImpl"], [k.inst])
                    tn.attrs["parentCtx"] = c
                    kids.append(tn)
                else:
                    kids.append(mk(k, c))
            c.attrs["children"] = ip.new(ListV(kids))
            c.attrs["start"] = n.first().inst
            c.attrs["stop"] = n.last().inst
            n.inst = c
            return c
        return mk(root, None)


def ntok(sh):
    class F:
        pass
    from .facts import Facts
    f = F()
    f.facts = Facts()
    mk = Maker(f, {"default_identifier": "", "default_operator": "", "unicode_normalization_form": None})
    return len(list(mk.query(sh)[0].tokens()))


def get(ip, mod, name):
    m = ip.modules.get(mod)
    v = m.ns.vars.get(name) if m else None
    if v is None:
        raise AnchorError(f"{mod}.{name} not found")
    return v


def cget(ip, cls, name):
    v = ip.class_lookup(cls, name)
    if v is None:
        raise AnchorError(f"{cls.qual}.{name} not found")
    return v


def enum_member(ip, mod, cls, name):
    c = get(ip, mod, cls)
    for m in c.members:
        if m.attrs["name"] == name:
            return m
    if name in getattr(c, "enum_alias", {}):
        return c.enum_alias[name]
    raise AnchorError(f"{mod}.{cls}.{name} not found")


class Cmp:
    """collects mismatches between actual and expected"""

    def __init__(self, ip):
        self.ip = ip
        self.bad = []      # (aspect, text, actual, expected) definite
        self.open = []     # undecided comparisons
        self.n = 0

    def fail(self, aspect, text, site=None):
        self.bad.append((aspect, text, None, site))

    def same(self, aspect, what, a, b, site=None):
        """abstract values a (actual) and b (expected)"""
        self.n += 1
        ip = self.ip
        a, b = ip.R(a), ip.R(b)
        if isinstance(a, Inst) and "__str" in a.attrs and not isinstance(b, Inst):
            a = a.attrs["__str"]
        if akey(a) == akey(b) and type(a) == type(b):
            return True
        a, b = settled(ip, a), settled(ip, b)
        if akey(a) == akey(b) and type(a) == type(b):
            return True
        ka, kb = kindof(a), kindof(b)
        if has_unk(a) or has_unk(b) or ip.tainted:
            self.open.append((aspect, f"{what}: {show(a)} vs {show(b)}"))
            return False
        if ka != kb:
            self.bad.append((aspect, f"{what} is {show(a)}, expected {show(b)}", None, site))
            return False
        if ka in ("const", "obj"):
            self.bad.append((aspect, f"{what} is {show(a)}, expected {show(b)}", None, site))
            return False
        w = witness.differ(ip.facts, a, b)
        if w is not None:
            self.bad.append((aspect, f"{what} is {show(a)}, expected {show(b)}",
                             {"actual": repr(witness.ev(a, w)), "expected": repr(witness.ev(b, w)),
                              "inputs": witness.showasg(w)}, site))
        else:
            self.open.append((aspect, f"{what}: {show(a)} vs {show(b)}"))
        return False


def settled(ip, v):
    """v with normalisations dropped that the path knows to change nothing"""
    if isinstance(v, Term) and v.op == "normalize":
        from . import ext
        f, x = v.args[0], settled(ip, v.args[1])
        return x if f is None or not isinstance(f, str) else ext.CALLS["unicodedata.normalize"](ip, [f, x], {})
    if isinstance(v, SStr):
        return sstr([settled(ip, p) for p in v.parts])
    return v


def kindof(v):
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, (str, SStr)) or isinstance(v, Term) and v.ty in ("str", "char", "hexchar", "digits"):
        return "str"
    if isinstance(v, (int, Lin)) or isinstance(v, Term) and v.ty in ("int", "nat"):
        return "int"
    if isinstance(v, Term):
        return "term:" + str(v.ty)
    if isinstance(v, Tup):
        return "tuple"
    return "obj"


FIELDS = {"Expression": ("qualifier", "identifier", "operator", "regex", "regex_flags"),
          "QuerySegment": ("min_occurs", "max_occurs"), "QueryGroup": ("min_occurs", "max_occurs"),
          "SimpleWithin": ("scope",)}
ASPECT = {"qualifier": "field", "identifier": "field", "operator": "field", "regex": "value", "regex_flags": "flags",
          "min_occurs": "bounds", "max_occurs": "bounds", "scope": "scope"}
FLAGS = {"i": "CASE_INSENSITIVE", "c": "CASE_INSENSITIVE", "I": "CASE_SENSITIVE", "C": "CASE_SENSITIVE",
         "l": "LITERAL_MATCHING", "d": "IGNORE_DIACRITICS"}
SCOPES = {"sentence": "SENTENCE", "s": "SENTENCE", "utterance": "UTTERANCE", "u": "UTTERANCE",
          "paragraph": "PARAGRAPH", "p": "PARAGRAPH", "turn": "TURN", "t": "TURN", "text": "TEXT",
          "session": "SESSION"}
NODE_TYPES = {
    "Expression": "EXPRESSION", "ExpressionWildcard": "EXPRESSION_WILDCARD", "ExpressionGroup": "EXPRESSION_GROUP",
    "ExpressionOr": "EXPRESSION_OR", "ExpressionAnd": "EXPRESSION_AND", "ExpressionNot": "EXPRESSION_NOT",
    "QuerySegment": "QUERY_SEGMENT", "QueryGroup": "QUERY_GROUP", "QuerySequence": "QUERY_SEQUENCE",
    "QueryDisjunction": "QUERY_DISJUNCTION", "QueryWithWithin": "QUERY_WITH_WITHIN", "SimpleWithin": "SIMPLE_WITHIN",
}


def attr(ip, o, name):
    """documented attribute of an object as a client reads it"""
    try:
        return ip.getattr(o, name)
    except PyExc as e:
        o = ip.R(o)
        if isinstance(o, Inst) and isinstance(o.cls, ClassV) and ip.exc_class("AttributeError") in ip.mro(e.inst.cls):
            e.missing = (f"a {o.cls.name} object has no attribute {name}", getattr(o, "made", None))
        raise


def items(ip, v):
    v = ip.R(v)
    if v is None:
        return []
    if isinstance(v, (ListV, Tup)):
        return list(v.items)
    if isinstance(v, SetV):
        return list(v.d.values())
    return list(ip.iterate(v))


def expected_flags(ip, fl):
    """set of member names for the flag characters (forking on unknown ones)"""
    out = set()
    for f in fl:
        f = ip.R(f)
        if isinstance(f, Term):
            for c in "iIcCld":
                if ip.truth(ip.eq(f, c)):
                    f = c
                    break
        out.add(FLAGS[f])
    return out


def bad_flags(s):
    return {"CASE_SENSITIVE", "CASE_INSENSITIVE"} <= s or ("LITERAL_MATCHING" in s and len(s) > 1)


def attr_site(ip, o, name):
    """where the attribute was last assigned on this path"""
    for ev in reversed(ip.events):
        if ev[0] == "setattr" and ev[1] is o and ev[2] == name:
            return ev[4]
    return getattr(o, "made", None)


def check_node(ip, cmp, o, x, cfg, path="root", parent=None):
    mod = "fcsql.parser"
    cls = get(ip, mod, x.cls)
    if not isinstance(o, Inst):
        if isinstance(o, Term):
            cmp.open.append(("structure", f"{path}: {show(o)}"))
        else:
            cmp.fail("structure", f"{path}: {show(o)} instead of a {x.cls} node", getattr(o, "made", None))
        return
    if o.cls is not cls:
        if cls in ip.mro(o.cls):
            pass
        else:
            cmp.fail("structure", f"{path}: a {o.cls.name} node instead of a {x.cls} node", getattr(o, "made", None))
            return
    cmp.n += 1
    gone = object()

    def read(name, aspect):
        try:
            return attr(ip, o, name)
        except PyExc as e:
            if getattr(e, "missing", None) is None:
                raise
            cmp.fail(aspect, f"{path}: {e.missing[0]}", e.missing[1])
            return gone
    nt = read("node_type", "structure")
    want = enum_member(ip, mod, "QueryNodeType", NODE_TYPES[x.cls])
    if nt is not want and nt is not gone:
        cmp.fail("structure", f"{path}: node type of the {x.cls} node is {show(nt)}, expected {show(want)}", attr_site(ip, o, "node_type"))
    p = read("parent", "parent")
    cmp.n += 1
    if p is not parent and p is not gone:
        cmp.fail("parent", f"{path}: parent of the {x.cls} node is {show(p)}, expected "
                           f"{'none' if parent is None else 'the node that lists it as a child'}",
                 attr_site(ip, o, "parent"))
    kids = read("children", "structure")
    if kids is gone:
        return
    kids = items(ip, kids)
    if len(kids) != len(x.kids):
        cmp.fail("structure", f"{path}: the {x.cls} node has {len(kids)} children, expected {len(x.kids)}", o.made)
    ids = [id(k) for k in kids]
    if len(set(ids)) != len(ids):
        cmp.fail("structure", f"{path}: the {x.cls} node lists a child twice", o.made)
    # location
    loc = read("location", "location")
    cmp.n += 1
    if loc is gone:
        pass
    elif not cfg["enableSourceLocations"]:
        if loc is not None:
            cmp.fail("location", f"{path}: the {x.cls} node has the location {show(loc)} although locations are disabled", attr_site(ip, o, "location"))
    elif loc is None:
        cmp.fail("location", f"{path}: the {x.cls} node has no location although locations are enabled", o.made)
    elif not isinstance(loc, Inst):
        cmp.open.append(("location", f"{path}: {show(loc)}"))
    else:
        cmp.same("location", f"{path}: start of the location of the {x.cls} node",
                 attr(ip, loc, "start"), x.span.first().start, loc.made)
        stop = attr(ip, loc, "stop")
        want = ladd(x.span.last().stop, 1)
        if x.cls == "QueryWithWithin":
            alt = ladd(list(x.span.tokens())[-2].stop, 1)
            if akey(ip.R(stop)) == akey(ip.R(alt)):
                stop = want
        cmp.same("location", f"{path}: end of the location of the {x.cls} node", stop, want, loc.made)
    for f in FIELDS.get(x.cls, ()):
        e = x.fields[f]
        asp = ASPECT[f]
        a = read(f, asp)
        if a is gone:
            continue
        what = f"{path}: {f} of the {x.cls} node"
        site = attr_site(ip, o, f)
        if f == "regex_flags":
            names = expected_flags(ip, e[1])
            if not names:
                if a is not None and (not isinstance(a, SetV) or a.d):
                    cmp.fail(asp, f"{what} is {show(a)}, expected none", site)
                continue
            if not isinstance(a, SetV):
                (cmp.open if isinstance(a, Term) else cmp.bad).append(
                    (asp, f"{what} is {show(a)}, expected {sorted(names)}", None, site))
                continue
            got = {m.attrs["name"] if isinstance(m, Inst) and "name" in m.attrs else show(m) for m in a.d.values()}
            cls_ = get(ip, mod, "RegexFlag")
            if got != names or any(not isinstance(m, Inst) or m.cls is not cls_ for m in a.d.values()):
                cmp.fail(asp, f"{what} is {sorted(got)}, expected {sorted(names)}", site)
            cmp.n += 1
        elif f == "operator":
            if isinstance(e, tuple):
                e = enum_member(ip, mod, e[0], e[1])
            cmp.n += 1
            if a is not e and akey(a) != akey(e):
                cmp.fail(asp, f"{what} is {show(a)}, expected {show(e)}", site)
        elif f == "scope":
            e = enum_member(ip, mod, "SimpleWithinScope", SCOPES[e])
            cmp.n += 1
            if a is not e:
                cmp.fail(asp, f"{what} is {show(a)}, expected {show(e)}", site)
        elif f in ("min_occurs", "max_occurs") and e == "unbounded":
            cmp.same(asp, what, a, get(ip, mod, "OCCURS_UNBOUNDED"), site)
        else:
            cmp.same(asp, what, a, e, site)
    for i, (k, kx) in enumerate(zip(kids, x.kids)):
        check_node(ip, cmp, k, kx, cfg, f"{path}.{i}", o)


def default_cfg(ip, **kw):
    cfg = {"default_identifier": "text", "default_operator": ("Operator", "EQUALS"),
           "unicode_normalization_form": "NFC", "enableSourceLocations": True}
    cfg.update(kw)
    return cfg


def new_parser(ip, cfg, explicit=None):
    """QueryParser configured as cfg; only the keys in explicit are passed"""
    kw = {}
    for k in (cfg if explicit is None else explicit):
        v = cfg[k]
        if isinstance(v, tuple):
            v = enum_member(ip, "fcsql.parser", *v)
        kw[k] = v
    return ip.call(get(ip, "fcsql.parser", "QueryParser"), [], kw)


def assign(ip, o, name, v):
    """client code assigns a public attribute"""
    ip.setattr(o, name, v)


def hook_query(ip, fn):
    """fn(ip, parser_instance) replaces the generated start rule"""
    ip.hooks[f"{PARSER}.FCSParser.query"] = lambda ip_, f, a, k: fn(ip_, a[0])


def parse_shape(ip, shape, cfg, explicit=None, parser=None, root=None):
    """returns (outcome kind, value, expected, maker, parser instance, query text)"""
    mk = Maker(ip, cfg)
    nd, x = (mk.query if shape[0] == "query" else None)(shape)
    q = mk.layout(nd)
    hook_query(ip, lambda ip_, pi: mk.realise(nd, pi))
    p = parser or new_parser(ip, cfg, explicit)
    try:
        r = ip.call(ip.getattr(p, "parse"), [q])
        return "return", r, x, mk, p, q
    except PyExc as e:
        return "raise", e, x, mk, p, q
