"""P01-P05: failures and diagnostics of parsing, with the environment of env.py."""
import ast
import itertools

from . import shapes as S
from . import trees as T
from .c_tree import is_parser_exc, origin
from .check import exc_text
from .engine import AnchorError, PyExc
from .env import FAULTS, FORMS, World, raise_ext
from .trees import ntok
from .values import *

SHAPES = [("query", S.SI, None),
          ("query", ("seq", [S.SI, ("simple", ("segment", ("eand", [S.BASICQ, S.BASIC])), "+")]), "s"),
          ("query", ("group", ("disj", [S.SW, S.SI]), "n"), None)]
# every kind of token occurs in one of these
RICH = [("query", ("seq", [("simple", ("segment", ("eor", [("egroup", ("eand", [S.BASICQ, ("enot", S.BASIC)])), S.BASIC])), "n,m"),
                           ("simple", ("implicit", S.RF), "*")]), "s"),
        ("query", ("group", ("disj", [("simple", ("segment", None), "+"), ("simple", ("implicit", S.R), "?")]), "n,"), "text")]
LLONLY = ("query", ("simple", ("segment", ("eand", [("enot", S.BASIC), S.BASICQ])), None), None)


def scripts(nt, depth):
    """sequences of error reports; a token index per parser error"""
    evs = [("L",), ("P", 0), ("P", nt - 1)] + ([("P", nt // 2)] if nt > 2 else [])
    for n in range(depth + 1):
        for s in itertools.product(evs, repeat=n):
            yield list(s)


def forms():
    """one report about each token in each form the runtime uses; pairs with a second report of another form"""
    ps = [k for k in FORMS if k != "unrecognised"]
    for s in RICH:
        n = ntok(s)
        for i in range(n):
            for f in ps:
                yield s, [("P", i, f)]
        yield s, [("R",)]
        for a, b in itertools.product(ps, repeat=2):
            yield s, [("P", 2, a), ("P", n - 1, b)]
        for a in ps:
            yield s, [("R",), ("P", n - 1, a)]
            yield s, [("P", 1, a), ("R",)]


def call_parse(ip, w, how="method", parser=None, kw=None):
    """-> (kind, value, parser object or None)"""
    p = None
    try:
        if how == "method":
            p = parser or T.new_parser(ip, w.cfg, kw or [])
            return "return", ip.call(ip.getattr(p, "parse"), [w.query]), p
        return "return", ip.call(T.get(ip, "fcsql", how), [w.query]), None
    except PyExc as e:
        return "raise", e, p


def console(ip, c):
    for ev in ip.events:
        if ev[0] == "console":
            c.fail("console", f"text is written to the console: {show(ev[3])[:80]}", ev[4])
            return


def p01(ck):
    ck.rule("Every path of parse for every environment (no error, reported errors, any exception raised by the "
            "tokenizer, the parser, an accept of any parse tree node or the normalisation, rejection by the builder) "
            "returns a query tree or leaves with the parser exception; can_parse returns True/False on the same paths "
            "and never raises.")
    rng = [(n, mx) for n in ("n,m", ",n", "n") for mx in (None,)]
    base = [(s, []) for s in SHAPES]
    for s in SHAPES:
        k = ntok(s)
        for sc in scripts(k, (3 if s is SHAPES[0] else 2) if ck.thorough else 2 if s is SHAPES[0] else 1):
            base.append((s, sc))
    for f in FAULTS:
        for pre in ([], [("L",)], [("P", 0)]):
            base.append((SHAPES[0], pre + [("raise", f)]))
            if ck.thorough:
                base.append((SHAPES[1], pre + [("raise", f)]))
    for s in list(S.quants()):
        base.append((s, []))
    for q, body in itertools.islice(S.values("quick"), 0, None, 5 if not ck.thorough else 1):
        base.append((("query", ("simple", ("implicit", ("re", body, None, q)), None), None), []))
    for n in (1, 2):
        base.append((("query", ("simple", ("implicit", ("re", ["c"], ["?"] * n)), None), None), []))
    for how in ("method", "parse", "can_parse"):
        for s, sc in base:
            ck.sweep(f"{how}: environment", f"{s} with {sc}", fault_harness(s, sc, how))
        for s, ws in concrete():
            for sc in ([], [("P", 1)], [("L", "end")]):
                ck.sweep(f"{how}: concrete texts", f"{s}, white space {ws!r}, {sc}", fault_harness(s, sc, how, ws=ws))
    # exceptions inside the tree construction
    names = ("Query", "Main_query", "Query_sequence", "Query_simple", "Query_segment", "Expression", "Expression_basic",
             "Attribute", "Regexp", "Quantifier", "Within_part_simple", "Within_part", "Expression_and", "Identifier")
    sh = SHAPES[1]
    for f in FAULTS:
        for meth in ("accept",):
            for n in (names if ck.thorough else names[:8]):
                for how in ("method", "can_parse"):
                    ck.sweep(f"{how}: failure in {meth} of a parse tree node", f"{f} in {n}Context.{meth}",
                             fault_harness(sh, [], how, (f"{T.PARSER}.FCSParser.{n}Context.{meth}", f)))
        for n in ("unicodedata.normalize", "antlr4.InputStream.InputStream", "antlr4.CommonTokenStream.CommonTokenStream",
                  "antlr4.Token.CommonToken.text"):
            for how in ("method", "parse", "can_parse"):
                ck.sweep(f"{how}: failure in a library call", f"{f} in {n}", fault_harness(sh, [], how, (n, f)))
        for n in ("fcsql.FCSLexer.FCSLexer", "fcsql.FCSParser.FCSParser"):
            for how in ("method", "can_parse"):
                ck.sweep(f"{how}: failure constructing the tokenizer or parser", f"{f} in {n}()",
                         fault_harness(sh, [], how, (f"{n}.__init__", f)))


def concrete():
    """queries known to the last character"""
    for s in S.TEXTS:
        for ws in S.TEXTWS:
            yield s, ws
    for t in S.passages('"', "#"):
        yield ("query", ("seq", [("simple", ("implicit", S.lit(t)), None), ("simple", ("segment", None), None)]), None), [" "]


def fault_harness(shape, script, how, fault=None, ws=None):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, script, ws=ws)
        try:
            if fault:
                armed = [False]

                def boom(ip_, *a):
                    raise_ext(ip, fault[1])
                ip.hooks[fault[0]] = boom
            k, v, p = call_parse(ip, w, how)
            c.n += 1
            if how == "can_parse":
                if k == "raise":
                    c.fail("raise", f"can_parse raises {exc_text(v)}", v.site)
                    return c
                v = ip.R(v)
                if not isinstance(v, bool):
                    (c.open if has_unk(v) or isinstance(v, Term) else c.bad).append(
                        ("answer", f"can_parse answers {show(v)}", None, None))
                    return c
                k2, v2, _ = call_parse(ip, w, "parse")
                if v is not (k2 == "return"):
                    c.fail("answer", f"can_parse answers {v} although parsing "
                                     f"{'succeeds' if k2 == 'return' else 'fails with ' + exc_text(v2)}")
                return c
            if k == "raise":
                if not is_parser_exc(ip, v):
                    c.fail("raise", f"{exc_text(v)} escapes from parsing", v.site)
            else:
                node = T.get(ip, "fcsql.parser", "QueryNode")
                v = ip.R(v)
                if isinstance(v, Inst) and node in ip.mro(v.cls):
                    pass
                elif isinstance(v, Term):
                    c.open.append(("answer", f"parsing returns {show(v)}"))
                else:
                    c.fail("answer", f"parsing returns {show(v)}, not a query tree")
            return c
        finally:
            if fault:
                ip.hooks.pop(fault[0], None)
    return h


def p02(ck):
    ck.rule("For every sequence of up to n error reports of the abstract tokenizer and parser, delivered through the "
            "listeners the code installed, parse leaves with the parser exception if the sequence is not empty and "
            "returns the tree otherwise; the start rule is the one that ends in EOF and gets the whole query; nothing is "
            "written to the console.")
    for s in SHAPES:
        for sc in scripts(ntok(s), 3 if ck.thorough else 2):
            for how in ("method", "parse", "can_parse"):
                for debug in (False, True):
                    if how != "method" and debug:
                        continue
                    ck.sweep(f"{how}: reported errors{' (debug log on)' if debug else ''}", f"{s} with {sc}",
                             accept_harness(s, sc, how), {"debug": debug})
    for s, sc in forms():
        for how in ("method", "parse") if len(sc) > 1 else ("method", "parse", "can_parse"):
            ck.sweep(f"{how}: reports as the runtime words them", f"{s} with {sc}", accept_harness(s, sc, how))
    for s in S.TEXTS:
        for ch, ws in S.junk(ntok(s), ck.marks()):
            for how in ("method", "parse", "can_parse"):
                ck.sweep(f"{how}: characters that begin no token", f"{ch!r} in {s}, white space {ws!r}",
                         accept_harness(s, [], how, ws, ch))
    for how in ("method", "parse", "can_parse"):
        for sc, ws, ch in S.blank(ck.marks()):
            ck.sweep(f"{how}: no token at all", f"{sc}, white space {ws!r}", accept_harness(S.BLANK, sc, how, ws, ch))
        for s, ws in concrete():
            for sc in ([], [("P", 1)], [("L", "end")]):
                ck.sweep(f"{how}: concrete texts", f"{s}, white space {ws!r}, {sc}", accept_harness(s, sc, how, ws))
        ck.sweep(f"{how}: a query that needs full LL prediction", repr(LLONLY), accept_harness(LLONLY, [], how))
    for s in itertools.islice(S.structural("quick"), 0, None, 6):
        ck.sweep("method: no error", repr(s), accept_harness(s, [], "method"))


def accept_harness(shape, script0, how, ws=None, junk=""):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, script0, ws=ws, junk=junk)
        script = w.script
        k, v, p = call_parse(ip, w, how)
        c.n += 1
        if how == "can_parse" and k == "return":
            if script and ip.R(v) is True:
                c.fail("accept", f"can_parse answers True although errors were reported: {script}")
            if not script and ip.R(v) is False:
                c.fail("reject", "can_parse answers False although no error was reported")
        elif k == "return" and script:
            c.fail("accept", f"a tree is returned although errors were reported: {script}", getattr(v, "made", None))
        elif k == "raise" and not script:
            c.fail("reject", f"rejected with {exc_text(v)} although no error was reported", origin(v))
        elif k == "raise" and script and not is_parser_exc(ip, v):
            c.fail("raise", f"{exc_text(v)} instead of the parser exception", v.site)
        console(ip, c)
        start_ok(ip, c, w)
        return c
    return h


def start_ok(ip, c, w):
    c.n += 1
    if not w.starts:
        c.open.append(("start", "the generated start rule is not called"))
    for r in w.starts:
        if r != "query":
            c.fail("start", f"parsing starts at rule {r}, which does not require the end of the input")
    for s in w.inputs:
        if s is None:
            c.open.append(("start", "the input of the tokenizer is not known"))
        else:
            c.same("start", "the text given to the tokenizer", s, w.query)


def p03(ck):
    ck.rule("For every sequence of up to n error reports antlr_parse leaves with the package's SyntaxError if the "
            "sequence is not empty, and otherwise returns exactly the parse tree of rule query for the whole input.")
    for s in SHAPES:
        for sc in scripts(ntok(s), 3 if ck.thorough else 2):
            for debug in ((False, True) if ck.thorough else (False,)):
                ck.sweep("antlr_parse: reported errors", f"{s} with {sc}", antlr_harness(s, sc), {"debug": debug})
    for s, sc in forms():
        ck.sweep("antlr_parse: reports as the runtime words them", f"{s} with {sc}", antlr_harness(s, sc))
    for s in S.TEXTS:
        for ch, ws in S.junk(ntok(s), ck.marks()):
            ck.sweep("antlr_parse: characters that begin no token", f"{ch!r} in {s}, white space {ws!r}",
                     antlr_harness(s, [], ws, ch))
    for sc, ws, ch in S.blank(ck.marks()):
        ck.sweep("antlr_parse: no token at all", f"{sc}, white space {ws!r}", antlr_harness(S.BLANK, sc, ws, ch))
    ck.sweep("antlr_parse: a query that needs full LL prediction", repr(LLONLY), antlr_harness(LLONLY, []))
    for s in itertools.islice(S.structural("quick"), 0, None, 10):
        ck.sweep("antlr_parse: no error", repr(s), antlr_harness(s, []))


def antlr_harness(shape, script0, ws=None, junk=""):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, script0, ws=ws, junk=junk)
        script = w.script
        c.n += 1
        try:
            v = ip.call(T.get(ip, "fcsql", "antlr_parse"), [w.query])
        except PyExc as e:
            if not script:
                c.fail("raise", f"raises {exc_text(e)} although no error was reported", e.site)
            elif T.get(ip, "fcsql", "SyntaxError") not in ip.mro(e.inst.cls):
                c.fail("raise", f"raises {exc_text(e)} instead of the package's SyntaxError", e.site)
            start_ok(ip, c, w)
            return c
        if script:
            c.fail("accept", f"a tree is returned although errors were reported: {script}")
        elif v is not w.tree:
            if isinstance(v, Inst) or not isinstance(v, Term):
                c.fail("tree", f"returns {show(v)} instead of the tree of rule query")
            else:
                c.open.append(("tree", f"returns {show(v)}"))
        start_ok(ip, c, w)
        return c
    return h


def p04(ck):
    ck.rule("After a parse, parser.errors is, entry by entry, the sequence of reports of that parse (message and type), "
            "empty after success; the exception text contains the first message; the list object obtained after an "
            "earlier parse still has the same entries after every later parse with the same or another parser object.")
    for s in SHAPES:
        for sc in scripts(ntok(s), 3 if ck.thorough else 2):
            for debug in (False, True):
                ck.sweep("one parse", f"{s} with {sc}, debug {debug}", errors_harness([(s, sc)]), {"debug": debug})
    for s, sc in forms():
        ck.sweep("reports as the runtime words them", f"{s} with {sc}", errors_harness([(s, sc)]))
    seqs = [[], [("L",)], [("P", 0)], [("L",), ("P", 1)], [("raise", "ValueError")], [("L",), ("raise", "KeyError")]]
    bad = ("query", ("simple", ("implicit", S.R), "2,1"), None)
    for a, b in itertools.product(seqs, repeat=2):
        ck.sweep("two parses", f"{a} then {b}", errors_harness([(SHAPES[0], a), (SHAPES[0], b)]))
        ck.sweep("two parser objects", f"{a} then {b}", errors_harness([(SHAPES[0], a), (SHAPES[0], b)], True))
        if ck.thorough:
            for d in seqs:
                ck.sweep("three parses", f"{a}, {b}, {d}",
                         errors_harness([(SHAPES[0], a), (SHAPES[2], b), (SHAPES[0], d)]))
    for a in seqs:
        ck.sweep("parse then rejection by the builder", f"{a}", errors_harness([(SHAPES[0], a), (bad, [])]))
        ck.sweep("rejection by the builder then parse", f"{a}", errors_harness([(bad, []), (SHAPES[0], a)]))
    for ws in S.TEXTWS:
        for s in S.TEXTS:
            k = ntok(s)
            for sc in ([("L", 0)], [("L", 3), ("L", 4)], [("L", 5), ("P", 2)], [("P", k - 1)], [("P", 1), ("P", 1)], [("P", 0), ("L", "end")]):
                ck.sweep("reports about a concrete text", f"{s}, white space {ws!r}, {sc}",
                         errors_harness([(s, sc), (s, [])], ws=ws))
    for s in S.TEXTS:
        for ch, ws in S.junk(ntok(s), ck.marks()):
            ck.sweep("characters that begin no token", f"{ch!r} in {s}, white space {ws!r}",
                     errors_harness([(s, []), (s, [("P", 3)])], ws=ws, junk=ch))
    for n in ck.thresholds():
        for a in ([("L",)] * n, [("P", 0)] * n, [("L",), ("P", 1)] * (n // 2 + 1)):
            ck.sweep("as many reports as the constants in the code suggest", f"{n} reports",
                     errors_harness([(SHAPES[0], a), (SHAPES[0], [])]))


def within(part, text):
    a, b = list(selems(part)), list(selems(text))
    return any(b[i:i + len(a)] == a for i in range(len(b) - len(a) + 1))


def errors_harness(seq, fresh=False, ws=None, junk=""):
    def h(ip):
        c = T.Cmp(ip)
        p = None
        kept = []
        for shape, script in seq:
            w = World(ip, shape, script, ws=ws, junk=junk)
            script = w.script
            if p is None or fresh:
                p = T.new_parser(ip, w.cfg, [])
            k, v, _ = call_parse(ip, w, parser=p)
            errs = ip.getattr(p, "errors")
            if not isinstance(errs, ListV):
                c.open.append(("errors", f"parser.errors is {show(errs)}"))
                return c
            got = list(errs.items)
            c.n += 1
            rep = w.reported
            if len(got) != len(rep):
                c.fail("errors", f"parser.errors has {len(got)} entries after a parse with {len(rep)} reported errors",
                       T.attr_site(ip, p, "errors"))
            for g, r in zip(got, rep):
                if not isinstance(g, Inst):
                    c.open.append(("errors", f"entry {show(g)}"))
                    continue
                c.same("errors", "message of an entry of parser.errors", T.attr(ip, g, "message"), r[1], g.made)
                ty = T.attr(ip, g, "type")
                c.n += 1
                if ip.R(ty) != "syntax-error":
                    c.fail("errors", f"type of an entry of parser.errors is {show(ty)}", g.made)
            only = [e for e in script if e[0] != "raise"]
            if k == "raise" and only and not any(e[0] == "raise" for e in script):
                msg = ip.str(v.inst)
                c.n += 1
                if not within(rep[0][1], msg):
                    if has_unk(msg):
                        c.open.append(("text", f"exception text {show(msg)}"))
                    else:
                        c.fail("text", f"the exception text {show(msg)} does not quote the first message", v.site)
            if k == "return" and got:
                c.fail("errors", "parser.errors is not empty after a successful parse")
            for lst, snap, i in kept:
                c.n += 1
                if [id(x) for x in lst.items] != [id(x) for x in snap]:
                    c.fail("errors", "a list of errors obtained after an earlier parse was changed by a later one")
            kept.append((errs, got, k))
        return c
    return h


def p05(ck):
    ck.rule("Position and fragment of every entry, as linear offset expressions over the unknown token lengths and "
            "white space: token reports carry the token's half-open range and the query prefix through the token, "
            "tokenizer reports the absolute start offset; fromToken yields none exactly for unknown offsets.")
    for s in SHAPES + [("query", ("seq", [S.SI, S.SW]), "text")]:
        k = ntok(s)
        for i in range(k):
            for pre in ([], [("L",)], [("P", 0)]):
                for debug in (False, True):
                    ck.sweep("parser report", f"{s}, token {i} after {pre}, debug {debug}",
                             pos_harness(s, pre + [("P", i)]), {"debug": debug})
        for sc in ([("L",)], [("R",)], [("L",), ("L",)], [("P", k - 1), ("L",), ("P", 0)]):
            for debug in (False, True):
                ck.sweep("tokenizer report", f"{s} with {sc}, debug {debug}", pos_harness(s, sc), {"debug": debug})
    for s, sc in forms():
        ck.sweep("reports as the runtime words them", f"{s} with {sc}", pos_harness(s, sc))
    for j, ws in enumerate(S.TEXTWS):
        for i, s in enumerate(S.TEXTS):
            k = ntok(s)
            for sc in [[("P", n)] for n in range(k)] + [[("L", off)] for off in list(range(9)) + ["end"]] + \
                    [[("L", "end"), ("P", k - 1)], [("P", 1), ("L", 5)]]:
                ck.sweep("reports about a concrete text", f"{s}, white space {ws!r}, {sc}", pos_harness(s, sc, ws))
    for s in S.TEXTS:
        for ch, ws in S.junk(ntok(s), ck.marks()):
            for sc in ([], [("P", 2)], [("P", ntok(s) - 1)]):
                ck.sweep("characters that begin no token", f"{ch!r} in {s}, white space {ws!r}, {sc}",
                         pos_harness(s, sc, ws, ch))
    for sc, ws, ch in S.blank(ck.marks()):
        ck.sweep("no token at all", f"{sc}, white space {ws!r}", pos_harness(S.BLANK, sc, ws, ch))
    for off in (0, 1, 17):
        ck.sweep("tokenizer report at a known offset", f"{off}", pos_harness(SHAPES[0], [("L", off)]))
    for a in (None, -1, 0, 3, "?"):
        for b in (None, -1, 0, 2, 7, "?"):
            ck.sweep("SourceLocation.fromToken", f"start {a} stop {b}", tok_harness(a, b))


def pos_harness(shape, script, ws=None, junk=""):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, script, ws=ws, junk=junk)
        p = T.new_parser(ip, w.cfg, [])
        call_parse(ip, w, parser=p)
        errs = ip.getattr(p, "errors")
        if not isinstance(errs, ListV) or len(errs.items) != len(w.reported):
            c.open.append(("position", "the entries of parser.errors do not match the reports (see P04)"))
            return c
        loc_cls = T.get(ip, "fcsql.parser", "SourceLocation")
        for g, r in zip(errs.items, w.reported):
            pos = T.attr(ip, g, "position")
            frag = T.attr(ip, g, "fragment")
            if r[0] == "L":
                if isinstance(pos, Inst) and loc_cls in ip.mro(pos.cls):
                    pos = T.attr(ip, pos, "start")
                c.same("position", "position of a tokenizer report", pos, r[3], g.made)
                continue
            tok = r[2]
            c.n += 1
            if not (isinstance(pos, Inst) and loc_cls in ip.mro(pos.cls)):
                c.fail("position", f"position of a report about a token is {show(pos)}, not a location", g.made)
                continue
            c.same("position", "start of the location of a report", T.attr(ip, pos, "start"), tok.start, pos.made)
            c.same("position", "end of the location of a report", T.attr(ip, pos, "stop"), ladd(tok.stop, 1), pos.made)
            full = w.query if tok.type == "EOF" else prefix(w, tok)
            c.same("fragment", "fragment of a report", frag, full, g.made)
        return c
    return h


def prefix(w, tok):
    parts = []
    ps = list(sparts(w.query))
    out = []
    for i, t in enumerate(w.toks):
        out.append(w.mk.ws[i])
        if t.type != "EOF":
            out.append(t.text)
        if t is tok:
            break
    return sstr(out)


def tok_harness(a, b):
    def h(ip):
        c = T.Cmp(ip)
        ct = T.get(ip, "antlr4.Token", "CommonToken")
        sa = Term("token start", ty="nat") if a == "?" else a
        sb = Term("token stop", ty="nat") if b == "?" else b
        t = ip.call(ct, [Tup((None, None)), 1, 0, -1, -1])
        t.attrs.update(start=sa, stop=sb, line=1, column=0, tokenIndex=0)
        f = T.cget(ip, T.get(ip, "fcsql.parser", "SourceLocation"), "fromToken")
        c.n += 1
        try:
            r = ip.call(ip.getattr(T.get(ip, "fcsql.parser", "SourceLocation"), "fromToken"), [t])
        except PyExc as e:
            c.fail("position", f"fromToken raises {exc_text(e)} for start {a}, stop {b}", e.site)
            return c
        unknown = a is None or a == -1 or b is None
        if unknown:
            if r is not None:
                c.fail("position", f"fromToken yields {show(r)} for start {a}, stop {b}", getattr(r, "made", None))
        elif b == -1 and a != 0:
            pass        # the empty token at offset 0 is the only one that ends at -1
        elif r is None:
            c.fail("position", f"fromToken yields none for start {a}, stop {b}")
        else:
            c.same("position", "start", T.attr(ip, r, "start"), sa, r.made)
            c.same("position", "stop", T.attr(ip, r, "stop"), ladd(sb, 1), r.made)
        return c
    return h
