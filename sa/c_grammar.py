"""P27-P31: grammar, tables and generated code."""
import functools
import itertools
import os
import sys

from . import c_over
from . import c_tree
from . import genparser
from . import grammar as g
from . import reference
from . import shapes as S
from . import trees as T
from .check import exc_text
from .engine import AnchorError, PyExc
from .env import RULES
from .values import *

sys.setrecursionlimit(100000)
M = "fcsql.FCSParser"
L = "fcsql.FCSLexer"


class Src:
    """everything grammar-like in the analysed tree, and the frozen reference"""

    def __init__(self, ck):
        self.ck = ck
        ip = self.ip = ck.ip
        self.dir = os.path.join(ck.repo, "src", "fcsql")
        rl = g.G4(reference.LEXER)
        self.ref_lexer = g.net_of_g4(rl)
        self.ref_types = {k: v for k, v in self.ref_lexer.toktype.items() if v}
        self.ref_lits = {k: "'" + v + "'" for k, v in g.literals_of(rl).items()}
        tt = dict(self.ref_types)
        tt.update({v: tt[k] for k, v in self.ref_lits.items()})
        self.ref_parser = g.net_of_g4(g.G4(reference.PARSER), tt)
        self.names = {v: k for k, v in self.ref_types.items()}
        self.files = []

    def text(self, name):
        p = os.path.join(self.dir, name)
        if not os.path.isfile(p):
            return None
        self.files.append(p)
        with open(p, encoding="utf-8") as f:
            return f.read()

    def const(self, v, what):
        """a Python value of an abstract constant"""
        ip = self.ip
        v = ip.R(v)
        if isinstance(v, ListV):
            return [self.const(x, what) for x in v.items]
        if isinstance(v, Tup):
            return [self.const(x, what) for x in v.items]
        if v is None or isinstance(v, (int, str)):
            return v
        raise AnchorError(f"{what} is not a constant of the source")

    def cls(self, mod, name):
        c = T.get(self.ip, mod, name)
        if not isinstance(c, ClassV):
            raise AnchorError(f"{mod}.{name} is not a class of the source")
        return c

    def attr(self, c, name):
        return self.const(T.cget(self.ip, c, name), f"{c.name}.{name}")

    def atn(self, c):
        a = T.cget(self.ip, c, "atn")
        s = a.attrs.get("serialized") if isinstance(a, Inst) else None
        if s is None:
            raise AnchorError(f"{c.name}.atn is not made from a serialised table")
        data = self.const(s, f"{c.name}.atn")
        if any(not isinstance(x, int) for x in data):
            raise AnchorError(f"{c.name}.atn is not a list of numbers")
        return data

    def py_lexer(self):
        c = self.cls(L, "FCSLexer")
        return g.net_of_atn(self.atn(c), self.attr(c, "ruleNames"))

    def py_parser(self):
        c = self.cls(M, "FCSParser")
        return g.net_of_atn(self.atn(c), self.attr(c, "ruleNames"))

    def g4_lexer(self):
        t = self.text("FCSLexer.g4")
        if t is None:
            raise AnchorError("FCSLexer.g4 not found")
        gr = g.G4(t)
        return gr, g.net_of_g4(gr)

    def g4_parser(self):
        lg, ln = self.g4_lexer()
        tt = {k: v for k, v in ln.toktype.items() if v}
        tt.update({"'" + v + "'": tt[k] for k, v in g.literals_of(lg).items()})
        t = self.text("FCSParser.g4")
        if t is None:
            raise AnchorError("FCSParser.g4 not found")
        gr = g.G4(t)
        return gr, g.net_of_g4(gr, tt)


def where(src, mod):
    m = src.ip.modules.get(mod)
    return os.path.relpath(m.path, src.ck.repo) if m and m.path else mod


def part(ck, family, label, fn):
    """one group of obligations; fn returns the list of violations (text, where, detail) and a count"""
    if ck.over():
        return None
    ck.cases[family] = ck.cases.get(family, 0) + 1
    if len(ck.samples) < 14:
        ck.samples.append(f"{family}: {label}")
    try:
        bad, n = fn()
    except AnchorError as e:
        ck.undecided(f"{label}: {e}", family)
        return None
    except Undecided as e:
        ck.undecided(f"{label}: {e}", family)
        return None
    except g.BadATN as e:
        bad, n = [(f"{label}: the serialised table cannot be loaded: {e}", label, {})], 1
    for text, wh, d in bad:
        ck.violation(text, wh, d, family)
    ck.ok(max(0, n - len(bad)))
    return not bad


def showlabels(src, w):
    out = []
    for l in w:
        out.append(l[1] if l[0] == "r" else ("EOF" if l[1] == g.EOF else src.names.get(l[1], str(l[1]))))
    return " ".join(out) or "(nothing)"


# ------------------------------------------------------------------------- P27
def lexer_pair(src, la, na, lb, nb, wh):
    def fn():
        a, b = na(), nb()
        diffs, n = g.compare_lexers(a, b)
        bad = []
        for w, x, y in diffs:
            def nm(t):
                return "no token" if t is None else (src.names.get(t[0], str(t[0])) +
                                                    (" (skipped)" if t[1] else "") + (f" {t[2]}" if t[2] else ""))
            bad.append((f"{la} reads {w!r} as {nm(x)}, {lb} as {nm(y)}", wh, {"witness": {"text": w}}))
        return bad, n
    return fn


def once(f):
    box = []

    def h():
        if not box:
            try:
                box.append((f(), None))
            except (AnchorError, Undecided, g.BadATN) as e:
                box.append((None, e))
        v, e = box[0]
        if e is not None:
            raise e
        return v
    return h


def tables(src, c, mod, kind):
    """token constants, names and literals of a generated class"""
    def fn():
        bad, n = [], 0
        wh = where(src, mod)
        for k, v in src.ref_types.items():
            n += 1
            x = src.ip.class_lookup(c, k)
            if x is None:
                bad.append((f"{c.name}.{k} is missing", wh, {}))
                continue
            x = src.ip.R(x)
            if isinstance(x, int) and x != v:
                bad.append((f"{c.name}.{k} is {x}, the token's type is {v}", wh, {"witness": {"token": k}}))
        sym = src.attr(c, "symbolicNames")
        lit = src.attr(c, "literalNames")
        for k, v in src.ref_types.items():
            n += 2
            if v >= len(sym) or sym[v] != k:
                bad.append((f"{c.name}.symbolicNames[{v}] is {sym[v] if v < len(sym) else None!r}, expected {k!r}", wh, {}))
            want = src.ref_lits.get(k)
            got = lit[v] if v < len(lit) else None
            if want is not None and got != want or want is None and got not in (None, "<INVALID>"):
                bad.append((f"{c.name}.literalNames[{v}] is {got!r}, expected {want!r}", wh, {}))
        return bad, n
    return fn


def shipped(src, name, kind):
    def fn():
        t = src.text(name)
        if t is None:
            raise AnchorError(f"{name} not found")
        wh = f"src/fcsql/{name}"
        bad, n = [], 0
        if name.endswith(".tokens"):
            got = g.read_tokens(t)
            want = dict(src.ref_types)
            want.update({v: src.ref_types[k] for k, v in src.ref_lits.items()})
            for k in sorted(set(got) | set(want)):
                n += 1
                if got.get(k) != want.get(k):
                    bad.append((f"{name} gives {k} the number {got.get(k)}, it is {want.get(k)}", wh, {}))
            return bad, n
        d = g.read_interp(t)
        c = src.cls(L if kind == "lexer" else M, "FCSLexer" if kind == "lexer" else "FCSParser")
        net = g.net_of_atn(d.get("atn", []), d.get("rule names", []))
        for i, s in enumerate(d.get("token symbolic names", [])):
            n += 1
            if s is not None and src.ref_types.get(s) != i:
                bad.append((f"{name} lists {s} as number {i}", wh, {}))
        for i, s in enumerate(d.get("token literal names", [])):
            n += 1
            if s is not None and src.ref_lits.get(src.names.get(i)) != s:
                bad.append((f"{name} lists {s} as number {i}", wh, {}))
        if kind == "lexer":
            diffs, k = g.compare_lexers(net, src.ref_lexer)
            n += k
            for w, x, y in diffs:
                bad.append((f"{name} reads {w!r} as {x}, the grammar as {y}", wh, {"witness": {"text": w}}))
        else:
            b2, k = rules_equal(src, name, net, "the grammar", src.ref_parser, wh)
            bad += b2
            n += k
        return bad, n
    return fn


def constructor(src, c, mod, sim):
    """the instance's automaton is the class's"""
    def fn():
        ip = src.ip
        res = []

        def h(ip_):
            arg = ip.new(Inst(ExtC("antlr4.InputStream.InputStream" if mod == L else
                                   "antlr4.CommonTokenStream.CommonTokenStream"),
                              {"strdata": Term("query", ty="str"), "_size": 1, "name": "<empty>"}))
            o = ip.instantiate(c, [arg], {})
            it = o.attrs.get("_interp")
            args = it.attrs.get("__args") if isinstance(it, Inst) else None
            if not isinstance(it, Inst) or not isinstance(it.cls, ExtC) or not it.cls.dotted.endswith("." + sim) \
                    or not args or len(args) < 2:
                raise Undecided("the prediction engine is not understood")
            if args[1] is not T.cget(ip, c, "atn"):
                res.append((f"{c.name} does not run on its own table", where(src, mod), {}))
            if args[0] is not o:
                res.append((f"{c.name}'s prediction engine does not belong to it", where(src, mod), {}))
            if src.ip.R(o.attrs.get("_input")) is not arg:
                res.append((f"{c.name} does not read the stream it is given", where(src, mod), {}))
            return None
        from .engine import explore
        n = 0
        for o in explore(ip, h, {}, 50):
            n += 1
            if o.kind != "return":
                raise Undecided(f"{o.value}")
        return res, n
    return fn


def p27(ck):
    """Grammar analysis: the tokenizer's serialised automaton is read from the source and compared, as the longest-match
    automaton ANTLR runs, with the automata of the shipped lexer grammar, the shipped tables and a frozen FCS-QL 2.0
    lexical grammar, over all inputs (product construction)."""
    ck.rule("For every string, the longest match of the tokenizer's table has the length, type and skip action of the "
            "lexer grammar's; token numbers, names and literals agree in FCSLexer, FCSParser, .tokens and .interp.")
    src = Src(ck)
    py = once(src.py_lexer)
    g4 = once(lambda: src.g4_lexer()[1])
    wl = where(src, L) + ":serializedATN"
    ref = lambda: src.ref_lexer
    part(ck, "tables against FCS-QL", "FCSLexer.py", lexer_pair(src, "FCSLexer.py", py, "FCS-QL", ref, wl))
    part(ck, "grammar against FCS-QL", "FCSLexer.g4",
         lexer_pair(src, "FCSLexer.g4", g4, "FCS-QL", ref, "src/fcsql/FCSLexer.g4"))
    part(ck, "tables against grammar", "FCSLexer.py", lexer_pair(src, "FCSLexer.py", py, "FCSLexer.g4", g4, wl))
    for mod, name in ((L, "FCSLexer"), (M, "FCSParser")):
        part(ck, "token numbers", name, lambda mod=mod, name=name: tables(src, src.cls(mod, name), mod, name)())
    for f in ("FCSLexer.tokens", "FCSParser.tokens"):
        part(ck, "token numbers", f, shipped(src, f, "lexer"))
    part(ck, "shipped table", "FCSLexer.interp", shipped(src, "FCSLexer.interp", "lexer"))
    part(ck, "instances", "FCSLexer", lambda: constructor(src, src.cls(L, "FCSLexer"), L, "LexerATNSimulator")())
    c_over.check(ck, src, L, "FCSLexer")
    c_over.check_streams(ck, L)
    ck.extra["files"] = src.files


# ------------------------------------------------------------------------- P28
def rules_equal(src, la, a, lb, b, wh, only=None):
    bad, n = [], 0
    if sorted(a.rules) != sorted(b.rules):
        raise AnchorError(f"{la} has other rules than {lb}")
    for r in a.rules:
        if only and r not in only:
            continue
        n += 1
        d = g.compare_rule(a, r, b, r)
        if d:
            w, who = d
            bad.append((f"rule {r}: {showlabels(src, w)} is accepted by {la if who == 'first' else lb}, "
                        f"not by {lb if who == 'first' else la}", wh, {"witness": {"rule": r, "sequence": showlabels(src, w)}}))
    for note in a.notes:
        bad.append((f"{la}: {note}", wh, {}))
    return bad, n


def code_walk(ck, src, py, only=None, family="generated code"):
    def tb():
        net = py()
        if sorted(net.rules) != sorted(RULES):
            raise AnchorError("the rules of the parser are not the 23 known ones")
        return genparser.Tables(net, src.names)
    tb = once(tb)
    for r in RULES:
        if only and r not in only:
            continue
        try:
            t = tb()
        except (AnchorError, Undecided, g.BadATN) as e:
            ck.undecided(f"{r}: {e}", family)
            continue
        seen = set()
        genparser.install(ck.ip, r)
        try:
            ck.sweep(family, r, genparser.walk(t, r, seen))
        finally:
            genparser.uninstall(ck.ip)


def p28(ck):
    """Grammar analysis and abstract interpretation of the generated code: per rule, the language of the prediction
    table, of the shipped grammar, of the shipped .interp table and of a frozen FCS-QL 2.0 grammar are compared as
    automata; each generated rule method is walked jointly with its automaton over every token and every prediction."""
    ck.rule("Per rule: equal languages over tokens and rules; the method matches, calls, decides, ends and reports errors "
            "exactly as the automaton allows; parsing starts at rule query on the whole input.")
    src = Src(ck)
    py = once(src.py_parser)
    g4 = once(lambda: src.g4_parser()[1])
    wp = where(src, M) + ":serializedATN"
    part(ck, "tables against FCS-QL", "FCSParser.py",
         lambda: rules_equal(src, "FCSParser.py", py(), "FCS-QL", src.ref_parser, wp))
    part(ck, "grammar against FCS-QL", "FCSParser.g4",
         lambda: rules_equal(src, "FCSParser.g4", g4(), "FCS-QL", src.ref_parser, "src/fcsql/FCSParser.g4"))
    part(ck, "tables against grammar", "FCSParser.py",
         lambda: rules_equal(src, "FCSParser.py", py(), "FCSParser.g4", g4(), wp))
    part(ck, "shipped table", "FCSParser.interp", shipped(src, "FCSParser.interp", "parser"))
    part(ck, "rule order", "FCSParser.py", lambda: rule_names(src))
    code_walk(ck, src, py)
    part(ck, "instances", "FCSParser", lambda: constructor(src, src.cls(M, "FCSParser"), M, "ParserATNSimulator")())
    c_over.check(ck, src, M, "FCSParser")
    c_over.check_streams(ck, M)
    ck.extra["files"] = src.files
    from . import c_parse as P
    for s in P.SHAPES + [P.LLONLY]:
        for how in ("method", "parse"):
            ck.sweep("the whole query from the start rule", f"{how}: {s}", P.accept_harness(s, [], how))
        ck.sweep("the whole query from the start rule", f"antlr_parse: {s}", P.antlr_harness(s, []))


def rule_names(src):
    c = src.cls(M, "FCSParser")
    got = src.attr(c, "ruleNames")
    bad = []
    for i, r in enumerate(src.ref_parser.rules):
        x = src.ip.class_lookup(c, "RULE_" + r)
        x = src.ip.R(x) if x is not None else None
        j = got.index(r) if r in got else None
        if x is not None and x != j:
            bad.append((f"FCSParser.RULE_{r} is {x}, the rule's index is {j}", where(src, M), {}))
    return bad, len(src.ref_parser.rules)


# ------------------------------------------------------------------------- P29
PREC_RULES = ("main_query query_disjunction query_sequence query_group query_simple query_segment expression "
              "expression_or expression_and expression_group expression_not").split()


def joined(f, n, sep, least):
    """lists of items of f, separated by sep, n symbols in all, at least `least` items"""
    w = len(sep)

    @functools.lru_cache(None)
    def go(n):
        out = [((t,), (s,)) for t, s in f(n)]
        for k in range(1, n - w):
            rest = go(n - k - w)
            for t, s in f(k):
                out += [((t,) + ts, (s,) + ss) for ts, ss in rest]
        return out
    return [(sep.join(t), s) for t, s in go(n) if len(t) >= least]


def expressions():
    """expression strings over a & | ! ( ) of n symbols, with the tree their precedence gives them"""
    @functools.lru_cache(None)
    def prim(n):
        if n == 1:
            return [("a", "a")]
        return [("(" + t + ")", ("group", s)) for t, s in orx(n - 2)] if n >= 3 else []

    @functools.lru_cache(None)
    def notx(n):
        return prim(n) + ([("!" + t, ("not", s)) for t, s in notx(n - 1)] if n > 1 else [])

    @functools.lru_cache(None)
    def andx(n):
        return notx(n) + [(t, ("and",) + s) for t, s in joined(notx, n, "&", 2)]

    @functools.lru_cache(None)
    def orx(n):
        return andx(n) + [(t, ("or",) + s) for t, s in joined(andx, n, "|", 2)]
    return orx


def queries():
    """query strings over a | ( ) + of n symbols, with their tree"""
    @functools.lru_cache(None)
    def item(n):
        out = [("a", "a")] if n == 1 else [("a+", ("q", "a"))] if n == 2 else []
        for extra, mk in ((0, lambda s: ("group", s)), (1, lambda s: ("q", ("group", s)))):
            if n - 2 - extra >= 1:
                out += [("(" + t + ")" + "+" * extra, mk(s)) for t, s in inner(n - 2 - extra)]
        return out

    @functools.lru_cache(None)
    def seq(n):
        return joined(item, n, "", 2)

    @functools.lru_cache(None)
    def operand(n):
        return item(n) + [(t, ("sequence",) + s) for t, s in seq(n)]

    @functools.lru_cache(None)
    def inner(n):
        return operand(n) + [(t, ("disjunction",) + s) for t, s in joined(operand, n, "|", 2)]
    return inner


TREE_NAMES = {"expression_or": "or", "expression_and": "and", "expression_not": "not", "expression_group": "group",
              "query_group": "group", "query_sequence": "sequence", "query_disjunction": "disjunction"}


def simplify(t, up=None):
    """nested names of a derivation; a sequence of one item stands for the item where the grammar knows no other form"""
    if isinstance(t, int):
        return None
    r, kids = t
    q = any(isinstance(k, tuple) and k[0] == "quantifier" for k in kids)
    sub = tuple(x for x in (simplify(k, r) for k in kids) if x is not None)
    if r in ("quantifier", "within_part"):
        return None
    if r in TREE_NAMES:
        alone = r == "query_sequence" and len(sub) == 1 and (
            up == "query_group" or up == "query_disjunction" and isinstance(sub[0], tuple))
        x = sub[0] if alone else (TREE_NAMES[r],) + sub
    elif r in ("query_implicit", "expression_basic"):
        x = "a"
    else:
        x = sub[0] if len(sub) == 1 else (r,) + sub
    return ("q", x) if q else x


def showtree(t):
    if not isinstance(t, tuple):
        return str(t)
    return f"{t[0]}({', '.join(map(showtree, t[1:]))})"


def precedence(src, py, family, gen, wrap, lo, hi):
    sym = {"a": [23] if family == "queries" else [21, 15, 23], "&": [6], "|": [5], "!": [7], "(": [1], ")": [2],
           "+": [11]}

    def fn():
        net = py()
        D, R = g.Derive(net), g.Derive(src.ref_parser)
        bad, known, n, nb = [], [], 0, 0
        wh = where(src, M) + ":serializedATN"
        for k in range(lo, hi + 1):
            for text, want in gen(k):
                if src.ck.over():
                    return bad, n
                n += 1
                toks = wrap(sum((sym[c] for c in text), []))
                t = D.parse("query", toks)
                got = simplify(t) if t else "no parse"
                if got == want:
                    continue
                nb += 1
                r = R.parse("query", toks)
                if r and t == r:
                    known.append((text, got, want))
                elif len(bad) < 5:
                    bad.append((f"{text} is parsed as {showtree(got)}, it means {showtree(want)}", wh,
                                {"witness": {family: text}}))
        if known:
            text, got, want = known[0]
            bad.append((f"{len(known)} of {n} {family} of at most {hi} symbols are not parsed by precedence, as the "
                        f"grammar's ambiguous alternatives have it; the first: {text} is parsed as {showtree(got)}, it "
                        f"means {showtree(want)}", wh, {"key": "grammar-precedence",
                                                        "examples": [f"{a}: {showtree(b)}, not {showtree(c)}"
                                                                     for a, b, c in known[:12]]}))
        return bad, n
    return fn


def p29(ck):
    """Grammar analysis: over all operator combinations up to a number of symbols the derivation the prediction table
    selects (at every decision the lowest viable alternative) is compared with the tree the precedence rules give; the
    rule methods are walked jointly with their automata (they follow that selection), and the tree builder is analysed
    over the same constructs."""
    ck.rule("For every combination of operators up to the bound the selected derivation nests as precedence and "
            "parentheses say; each rule method follows the selection; the tree has the nesting of the derivation.")
    src = Src(ck)
    py = once(src.py_parser)
    code_walk(ck, src, py, PREC_RULES, "rule methods")
    big = ck.thorough
    part(ck, "queries", "segments, groups, | and quantifiers",
         precedence(src, py, "queries", queries(), lambda t: t + [g.EOF], 1, 11 if big else 8))
    part(ck, "queries", "followed by a within clause",
         precedence(src, py, "queries", queries(), lambda t: t + [18, 19, g.EOF], 1, 8 if big else 6))
    part(ck, "expressions", "conditions, groups, !, & and |",
         precedence(src, py, "expressions", expressions(), lambda t: [3] + t + [4, g.EOF], 1, 12 if big else 10))
    for i, s in enumerate(S.structural("thorough" if big else "quick")):
        if not big and i % 3:
            continue
        c_tree.sweep(ck, "tree of nested operators", s, {"structure"}, c_tree.NOLOC, [])
    ck.extra["files"] = src.files


# ------------------------------------------------------------------------- P30
ALNUM = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
KEYWORDS = {"within": "WITHIN", **{w: "SIMPLE_WITHIN_SCOPE" for w in S.SCOPE_WORDS}}


def words(src, py):
    """joint exploration of the tokenizer's automaton and the words formed like an identifier"""
    def fn():
        net = py()
        A = g.LexDFA(net)
        cuts = {ord(c) for c in ALNUM | {"-"}} | {ord(c) + 1 for c in ALNUM | {"-"}}
        R = [chr(c) for c in g.reps(A, extra=cuts) if not 0xd800 <= c < 0xe000]
        inside = [c for c in R if c in ALNUM or c == "-"]
        outside = [c for c in R if c not in ALNUM and c != "-"]
        prefixes = {w[:i] for w in KEYWORDS for i in range(len(w) + 1)}
        wh = where(src, L) + ":serializedATN"
        bad, n, said = [], 0, set()

        def kind(p, flags):
            return KEYWORDS.get(p) or ("REGEXP_FLAGS" if flags else "IDENTIFIER")
        start = (A.start(), "", True, "start")
        seen, todo = {start}, [("", start)]
        while todo:
            w, (st, p, flags, end) = todo.pop(0)
            if end == "word":
                n += 1
                r = A.accept(st)
                want = kind(p, flags)
                got = None if r is None else ("skipped white space" if r in net.skip else
                                              src.names.get(net.toktype[r], str(net.toktype[r])))
                if got != want and (got, want) not in said:
                    said.add((got, want))
                    bad.append((f"the word {w!r} is {got or 'no token'}, it must be {want}", wh, {"witness": {"word": w}}))
                for c in outside:
                    n += 1
                    if A.step(st, ord(c)) and ("more", want) not in said:
                        said.add(("more", want))
                        bad.append((f"the word {w!r} does not end before {c!r}", wh, {"witness": {"text": w + c}}))
            if len(seen) > 20000:
                raise AnchorError("too many states")
            for c in inside:
                if end == "start" and not c.isalpha():
                    continue
                q = p + c if p is not None and p + c in prefixes else None
                nx = (A.step(st, ord(c)), q, flags and c in "iIcCld", "hyphen" if c == "-" else "word")
                if nx not in seen:
                    seen.add(nx)
                    todo.append((w + c, nx))
        return bad, n
    return fn


def kinds(src, net, rule, want, wh):
    """the rule is exactly one token of one of these kinds"""
    def fn():
        n = net()
        bad = []
        S0 = g.closure(n, {n.start[rule]})
        got = {l: g.closure(n, T_) for l, T_ in g.moves(n, S0).items()}
        names = set()
        for l in got:
            if l[0] == "r":
                raise AnchorError(f"rule {rule} has sub-rules")
            names.add(src.names.get(l[1], str(l[1])))
        stop = n.stop[rule]
        for k in want:
            if k not in names:
                bad.append((f"rule {rule} does not accept a word of kind {k}", wh, {"witness": {"token": k}}))
        for k in sorted(names - set(want)):
            bad.append((f"rule {rule} accepts a token of kind {k}", wh, {"witness": {"token": k}}))
        for l, T_ in got.items():
            if stop not in T_ or g.moves(n, T_):
                bad.append((f"rule {rule} is not a single word", wh, {}))
        return bad, len(want) + len(got)
    return fn


WORD_RULES = {"identifier": ("IDENTIFIER", "WITHIN", "SIMPLE_WITHIN_SCOPE", "REGEXP_FLAGS"),
              "qualifier": ("IDENTIFIER", "WITHIN", "SIMPLE_WITHIN_SCOPE", "REGEXP_FLAGS"),
              "regexp_flag": ("REGEXP_FLAGS",), "within_part_simple": ("SIMPLE_WITHIN_SCOPE",)}


def p30(ck):
    """Automaton analysis: the tokenizer's automaton is explored jointly with the set of all words formed like an
    identifier; the prediction tables and the generated methods of the rules that take words are decided per token
    kind, and the tree builder is analysed with words of every kind in every position."""
    ck.rule("Every identifier-shaped word is one token, of kind WITHIN, scope, flags or identifier as it is the keyword, a "
            "scope word, a run of flag letters or neither; identifier and qualifier take all four kinds, a scope and "
            "flags exactly their own; the tree carries the word.")
    src = Src(ck)
    py = once(src.py_parser)
    g4l = once(lambda: src.g4_lexer()[1])
    part(ck, "words", "FCSLexer.py", words(src, once(src.py_lexer)))
    part(ck, "words", "FCSLexer.g4", words(src, g4l))
    for r, want in WORD_RULES.items():
        part(ck, "kinds a rule takes", f"{r} in FCSParser.py", kinds(src, py, r, want, where(src, M) + ":serializedATN"))
        part(ck, "kinds a rule takes", f"{r} in FCSParser.g4",
             kinds(src, once(lambda: src.g4_parser()[1]), r, want, "src/fcsql/FCSParser.g4"))
    used = ("attribute", "expression_basic", "regexp", "within_part", "query")
    part(ck, "where words occur", "FCSParser.py",
         lambda: rules_equal(src, "FCSParser.py", py(), "FCS-QL", src.ref_parser, where(src, M) + ":serializedATN",
                             used))
    code_walk(ck, src, py, tuple(WORD_RULES) + used, "rule methods")
    ws = ["id", ("within", "within")] + [("scope", w) for w in S.SCOPE_WORDS] + [
        ("flags", w) for w in ("i", "I", "c", "C", "l", "d", "ld", "iC", "dill")]
    asp = {"field", "value", "structure"}
    sweep = c_tree.sweep
    for i, a in enumerate(ws):
        for b in (ws if ck.thorough else [ws[i], ws[(i * 5 + 3) % len(ws)], "id"]):
            for op in ("=", "!=") if ck.thorough else (("=", "!=")[i % 2],):
                sweep(ck, "qualified layer", ("query", ("simple", ("segment", ("basic", ("words", a, b), op, S.RF)), None),
                                              "s"), asp, c_tree.NOLOC, [])
        sweep(ck, "layer", ("query", ("simple", ("segment", ("eand", [("basic", ("words", False, a), "=", S.R),
                                                                         ("enot", ("basic", ("words", False, a), "!=", S.R))])),
                                         None), None), asp, c_tree.NOLOC, [])
    for n in list(range(2, 9)) + list(ck.thresholds()):
        for f in ("dilc" * n)[:n], "I" * n:
            a, b = ("flags", f), ("id", ("x-" + "Ab0-" * n)[:n] + "z")
            for w in (("words", a, b), ("words", b, a), ("words", None, a), ("words", None, b)):
                sweep(ck, "words of any length", ("query", ("simple", ("segment", ("basic", w, "=", S.RF)), None), None), asp,
                      c_tree.NOLOC, [])
    for w in S.SCOPE_WORDS:
        sweep(ck, "scope", ("query", ("simple", ("segment", ("basic", ("words", ("scope", w), ("flags", "d")), "=", S.RF)),
                                      None), w), asp | {"scope", "flags"}, c_tree.NOLOC, [])
    ck.extra["files"] = src.files


# ------------------------------------------------------------------------- P31
LISTENERS = '''
from antlr4 import ParseTreeListener, ParseTreeVisitor
from antlr4.tree.Tree import ParseTreeWalker
from fcsql.FCSParserListener import FCSParserListener
from fcsql.FCSParserVisitor import FCSParserVisitor

class AllEnters:
    def __init__(self):
        self.log = []
%(listen)s

class AllVisits:
    def __init__(self):
        self.log = []
    def visitChildren(self, node):
        self.log.append(("visitChildren", node))
        return ("result of", "visitChildren", node)
%(visit)s

class NoListener:
    pass

class NoVisits:
    def __init__(self):
        self.log = []
    def visitChildren(self, node):
        self.log.append(("visitChildren", node))
        return ("result of", "visitChildren", node)

class Defaults(FCSParserVisitor):
    def __init__(self):
        self.log = []
    def visitChildren(self, node):
        self.log.append(("visitChildren", node))
        return ("result of", "visitChildren", node)

class Terminals(FCSParserVisitor):
    def __init__(self):
        self.log = []
    def visitTerminal(self, node):
        self.log.append(node)
        return node
    def aggregateResult(self, aggregate, nextResult):
        return (aggregate, nextResult)

class Every(FCSParserListener):
    def __init__(self):
        self.log = []
    def enterEveryRule(self, ctx):
        self.log.append(("enter", ctx))
    def exitEveryRule(self, ctx):
        self.log.append(("exit", ctx))
    def visitTerminal(self, node):
        self.log.append(("token", node))

class Own(FCSParserListener):
    def __init__(self):
        self.log = []
%(listen)s
'''


def cap(r):
    return r[0].upper() + r[1:]


def listeners(ip):
    listen = "\n".join(f"    def {w}{cap(r)}(self, ctx):\n        self.log.append(({w + cap(r)!r}, ctx))"
                       for r in RULES for w in ("enter", "exit"))
    visit = "\n".join(f"    def visit{cap(r)}(self, ctx):\n        self.log.append(({'visit' + cap(r)!r}, ctx))\n"
                      f"        return ('result of', {'visit' + cap(r)!r}, ctx)" for r in RULES)
    return ip.add_source("listening_client", LISTENERS % {"listen": listen, "visit": visit})


def rule_words(net, r, limit, maxlen):
    """the shortest words of a rule over tokens and rules"""
    out, todo = [], [((), g.closure(net, [net.start[r]]))]
    while todo and len(out) < limit:
        w, S0 = todo.pop(0)
        if net.stop[r] in S0:
            out.append(w)
        if len(w) < maxlen:
            for l, T_ in sorted(g.moves(net, S0).items(), key=repr):
                todo.append((w + (l,), g.closure(net, T_)))
        if len(todo) > 20000:
            break
    return out


class Ctx:
    """one parse tree node of rule r whose children are word w"""

    def __init__(self, ip, src, r, w):
        self.ip, self.src = ip, src
        self.parser = ip.new(Inst(src.cls(M, "FCSParser"), {}, label="parser"))
        self.parent = self.make("query", None)
        self.inv = Term("invoking state", ty="nat")
        self.ctx = self.make(r, self.parent, self.inv)
        self.kids = []
        for i, l in enumerate(w):
            if l[0] == "r":
                k = self.make(l[1], self.ctx, i)
            else:
                t = ip.call(T.get(ip, "antlr4.Token", "CommonToken"),
                            [Tup((None, None)), l[1], 0, i, i])
                t.attrs["_text"] = Term("text of token", i, ty="str")
                k = ip.call(T.get(ip, "antlr4.tree.Tree", "TerminalNodeImpl"), [t])
                k.attrs["parentCtx"] = self.ctx
            self.kids.append((l, k))
        self.ctx.attrs["children"] = ip.new(ListV([k for _, k in self.kids])) if w else None

    def make(self, r, parent, inv=-1):
        p = self.src.cls(M, "FCSParser")
        c = self.ip.class_lookup(p, cap(r) + "Context")
        if not isinstance(c, ClassV):
            raise AnchorError(f"FCSParser.{cap(r)}Context not found")
        return self.ip.call(c, [self.parser, parent, inv])


def seen_as(ip, c, what, log, want, site):
    """a recorded list of (name, node) is exactly `want`"""
    c.n += 1
    got = [tuple(ip.R(y) for y in ip.R(x).items) for x in ip.R(log).items]
    if len(got) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, want)):
        return
    sh = lambda l: ", ".join(f"{x[0]}({getattr(getattr(x[1], 'cls', None), 'name', show(x[1]))})" for x in l) or "nothing"
    c.fail("dispatch", f"{what} calls {sh(got)}, expected {sh(want)}", site)


def func_site(ip, cls, name):
    f = ip.class_lookup(cls, name)
    return getattr(f, "site", None) or f"src/fcsql/FCSParser.py:{cls.name}.{name}"


def tryget(ip, c, what, f, site):
    try:
        return True, f()
    except PyExc as e:
        c.n += 1
        c.fail("access", f"{what} raises {exc_text(e)}", e.site if "/repo" in str(e.site) else site)
        return False, None


def node_harness(src, r, w, reps):
    def h(ip):
        m = listeners(ip)
        c = T.Cmp(ip)
        x = Ctx(ip, src, r, w)
        ctx = x.ctx
        nm = ctx.cls.name
        kids = ip.R(ctx.attrs.get("children"))
        before = list(kids.items) if kids is not None else None

        def new(n):
            return ip.call(m.ns.vars[n], [])

        def meth(o, n, *a):
            return ip.call(ip.getattr(o, n), list(a))
        # constructor
        c.n += 3
        for at, want in (("parentCtx", x.parent), ("parser", x.parser), ("invokingState", x.inv)):
            got = ip.R(ctx.attrs.get(at))
            if got is not want:
                c.fail("links", f"{nm}.{at} is {show(got)}, it was given {show(want)}", func_site(ip, ctx.cls, "__init__"))
        ok, v = tryget(ip, c, f"{nm}.getRuleIndex()", lambda: meth(ctx, "getRuleIndex"), nm)
        if ok:
            c.same("dispatch", f"{nm}.getRuleIndex()", v, list(src.ref_parser.rules).index(r),
                   func_site(ip, ctx.cls, "getRuleIndex"))
        # listeners
        for when in ("enter", "exit"):
            si = func_site(ip, ctx.cls, when + "Rule")
            for client in ("AllEnters", "Own"):
                o = new(client)
                ok, _ = tryget(ip, c, f"{nm}.{when}Rule", lambda: meth(ctx, when + "Rule", o), si)
                if ok:
                    seen_as(ip, c, f"{nm}.{when}Rule", o.attrs["log"], [(when + cap(r), ctx)], si)
            o = new("NoListener")
            tryget(ip, c, f"{nm}.{when}Rule with a listener without callbacks", lambda: meth(ctx, when + "Rule", o), si)
            o = ip.call(T.get(ip, "fcsql.FCSParserListener", "FCSParserListener"), [])
            ne, keep = len(ip.events), dict(ctx.attrs)
            name = when + cap(r)
            ok, v = tryget(ip, c, f"FCSParserListener.{name}", lambda: meth(o, name, ctx), si)
            c.n += 1
            if ok and (ip.R(v) is not None or o.attrs or ctx.attrs != keep or len(ip.events) != ne or
                       kids is not None and kids.items != before):
                c.fail("default", f"FCSParserListener.{name} does something by default", func_site(ip, o.cls, name))
        # visitors
        si = func_site(ip, ctx.cls, "accept")
        for client, name in (("AllVisits", "visit" + cap(r)), ("NoVisits", "visitChildren"), ("Defaults", "visitChildren")):
            o = new(client)
            ok, v = tryget(ip, c, f"{nm}.accept", lambda: meth(ctx, "accept", o), si)
            if not ok:
                continue
            seen_as(ip, c, f"{nm}.accept with {client}", o.attrs["log"], [(name, ctx)], si)
            c.n += 1
            v = ip.R(v)
            got = [ip.R(y) for y in v.items] if isinstance(v, Tup) else [v]
            if not (len(got) == 3 and got[1] == name and got[2] is ctx):
                c.fail("dispatch", f"{nm}.accept returns {show(v)} instead of the result of {name}", si)
        # accessors
        for l in sorted(reps, key=repr):
            name = l[1] if l[0] == "r" else ("EOF" if l[1] == g.EOF else src.names[l[1]])
            si = func_site(ip, ctx.cls, name)
            mine = [k for a, k in x.kids if a == l]
            if not isinstance(ip.class_lookup(ctx.cls, name), FuncV):
                c.n += 1
                c.fail("access", f"{nm} has no accessor {name}", nm)
                continue
            ok, v = tryget(ip, c, f"{nm}.{name}()", lambda: meth(ctx, name), si)
            if not ok:
                continue
            v = ip.R(v)
            c.n += 1
            if not reps[l]:
                if v is not (mine[0] if mine else None):
                    c.fail("access", f"{nm}.{name}() is {shown(v)} over {showlabels(src, w)}, expected "
                                     f"{shown(mine[0]) if mine else None}", si)
                continue
            got = [ip.R(y) for y in v.items] if isinstance(v, ListV) else v
            if not isinstance(got, list) or len(got) != len(mine) or any(a is not b for a, b in zip(got, mine)):
                c.fail("access", f"{nm}.{name}() is {shown(got)} over {showlabels(src, w)}, expected {shown(mine)}", si)
            for i in range(len(mine) + 1):
                ok, v = tryget(ip, c, f"{nm}.{name}({i})", lambda: meth(ctx, name, i), si)
                c.n += 1
                if ok and ip.R(v) is not (mine[i] if i < len(mine) else None):
                    c.fail("access", f"{nm}.{name}({i}) is {shown(ip.R(v))} over {showlabels(src, w)}, expected "
                                     f"{shown(mine[i]) if i < len(mine) else None}", si)
        c.n += 1
        if (list(kids.items) if kids is not None else None) != before:
            c.fail("access", f"{nm}: an accessor or callback changes the children", nm)
        return c
    return h


def shown(v):
    if isinstance(v, list):
        return "[" + ", ".join(shown(x) for x in v) + "]"
    if isinstance(v, Inst):
        return v.cls.name
    return show(v)


def tree_walk(shape):
    """a whole tree walked by a listener and by the default visitor"""
    def h(ip):
        m = listeners(ip)
        c = T.Cmp(ip)
        mk = T.Maker(ip, T.default_cfg(ip))
        nd, _ = mk.query(shape)
        mk.layout(nd)
        root = mk.realise(nd, ip.new(Inst(T.get(ip, M, "FCSParser"), {}, label="parser")))
        ev, own = [], []

        def go(n):
            if isinstance(n, T.Tok):
                ev.append(("token", n))
                return
            ev.append(("enter", n.inst))
            own.append(("enter" + cap(n.rule), n.inst))
            for k in n.kids:
                go(k)
            ev.append(("exit", n.inst))
            own.append(("exit" + cap(n.rule), n.inst))
        go(nd)
        for client, want in (("Every", ev), ("Own", own)):
            o = ip.call(m.ns.vars[client], [])
            w = ip.call(m.ns.vars["ParseTreeWalker"], [])
            ok, _ = tryget(ip, c, f"walking the tree with {client}",
                           lambda: ip.call(ip.getattr(w, "walk"), [o, root]), "src/fcsql/FCSParser.py")
            if not ok:
                continue
            got = [tuple(ip.R(y) for y in ip.R(x).items) for x in ip.R(o.attrs["log"]).items]
            got = [("token", ip.getattr(b, "symbol")) if a == "token" else (a, b) for a, b in got]
            want = [(a, b.inst if isinstance(b, T.Tok) else b) for a, b in want]
            c.n += len(want)
            for i in range(max(len(got), len(want))):
                a = got[i] if i < len(got) else ("nothing", None)
                b = want[i] if i < len(want) else ("nothing", None)
                if a[0] != b[0] or a[1] is not b[1]:
                    c.fail("dispatch", f"walking the tree calls {a[0]}({shown(a[1])}) where {b[0]}({shown(b[1])}) is due",
                           "src/fcsql/FCSParser.py")
                    break
        o = ip.call(m.ns.vars["Terminals"], [])
        ok, v = tryget(ip, c, "visiting the tree by default", lambda: ip.call(ip.getattr(o, "visit"), [root]),
                       "src/fcsql/FCSParserVisitor.py")
        if ok:
            got = [ip.getattr(ip.R(x), "symbol") for x in ip.R(o.attrs["log"]).items]
            want = [t.inst for t in nd.tokens()]
            c.n += 1
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                c.fail("default", f"the default visitor reaches {len(got)} tokens of {len(want)}, or in another order",
                       "src/fcsql/FCSParserVisitor.py")
            c.n += 1

            def exp(n):
                r = None
                for k in n.kids:
                    r = (r, k.inst if isinstance(k, T.Tok) else exp(k))
                return r

            def eq(a, b):
                a = ip.R(a)
                if isinstance(b, tuple):
                    return isinstance(a, Tup) and len(a.items) == 2 and eq(a.items[0], b[0]) and eq(a.items[1], b[1])
                if isinstance(b, Inst):
                    return isinstance(a, Inst) and ip.getattr(a, "symbol") is b
                return a is b
            if not eq(v, exp(nd)):
                c.fail("default", "the default callbacks do not return what visiting the children returns",
                       "src/fcsql/FCSParserVisitor.py")
        return c
    return h


def p31(ck):
    """Abstract interpretation of every context class, of the listener and visitor base classes and (from the runtime's
    source) of the contexts they derive from, over children sequences enumerated from the grammar, with recording
    listeners and visitors; and a joint walk of the rule methods for the announced rule indices."""
    ck.rule("Per rule: accept, enterRule and exitRule call the one callback of the rule with the node and pass its result "
            "on; base callbacks do nothing or return visitChildren(node); each accessor returns the children of its kind, "
            "in order, by index where the grammar allows several; enterRule/exitRule of the parser carry the rule's index.")
    src = Src(ck)
    py = once(src.py_parser)
    code_walk(ck, src, py, None, "announced rules")
    part(ck, "rule numbers", "FCSParser", lambda: rule_names(src))
    ref = src.ref_parser
    for r in RULES:
        reps = g.repeats(ref, r)
        ws = rule_words(ref, r, 120 if ck.thorough else 30, 7 if ck.thorough else 5)
        for w in [()] + [x for x in ws if x]:
            ck.sweep("nodes", f"{r}: {showlabels(src, w)}", node_harness(src, r, w, reps))
        for l in sorted(reps, key=repr):        # what error recovery can leave behind
            ck.sweep("nodes of broken input", f"{r}: {showlabels(src, (l,))}", node_harness(src, r, (l,), reps))
        if ck.thorough:
            for l, k in itertools.product(sorted(reps, key=repr), repeat=2):
                ws2 = (l, k) if reps[l] or l != k else (l,)
                ck.sweep("nodes of broken input", f"{r}: {showlabels(src, ws2)}", node_harness(src, r, ws2, reps))
    for i, s in enumerate(S.structural("quick")):
        if ck.thorough or i % 4 == 0:
            ck.sweep("whole trees", repr(s), tree_walk(s))
    for q in S.QUANTS[:8]:
        ck.sweep("whole trees", q, tree_walk(("query", ("group", ("seq", [("simple", ("implicit", S.RF), q)]), q), "s")))
