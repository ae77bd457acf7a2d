"""The environment of QueryParser.parse and antlr_parse: an abstract tokenizer
and parser that report a chosen sequence of errors through whatever listeners
the analysed code has installed, and then return an abstract (recovered) tree."""
from . import trees as T
from .engine import AnchorError, PyExc
from .facts import INF
from .values import *

RULES = ("query main_query query_disjunction query_sequence query_group query_simple quantifier query_implicit "
         "query_segment within_part within_part_simple expression expression_or expression_and expression_group "
         "expression_not expression_basic attribute qualifier identifier regexp regexp_pattern regexp_flag").split()


# what the runtime's default error strategy and the tokenizer write in front of the offending text, and the
# exception that comes with the report
FORMS = {"mismatched": ("mismatched input ", "InputMismatchException"), "extraneous": ("extraneous input ", None),
         "missing": ("missing ", None), "no alternative": ("no viable alternative at input ", "NoViableAltException"),
         "unrecognised": ("token recognition error at: '", None)}


class World:
    """one abstract run: script = list of ("L"[, offset]) / ("R",) lexer errors, ("P", token index[, form]) parser errors,
    ("raise", class) failure inside the generated parser; a report with a form ("R" always) has a message that begins
    the way the runtime writes it, the others have any message"""

    def __init__(self, ip, shape, script, cfg=None, ws=None, junk=""):
        self.ip = ip
        self.cfg = cfg or T.default_cfg(ip)
        self.mk = T.Maker(ip, self.cfg)
        self.nd, self.x = self.mk.query(shape)
        self.query = self.mk.layout(self.nd, ws)
        self.toks = list(self.nd.tokens())
        if junk:                  # characters between the tokens that no token begins with
            script = [("L", i) for i in junk_at(self.mk, self.toks, junk)] + list(script)
        self.script = script
        self.early = 0            # lexical errors reported before the parser runs
        ip.env["prefetch"] = self.prefetch
        self.reported = []        # (kind, msg, token, start, line, column)
        self.starts = []          # start rules called
        self.inputs = []
        self.tree = None
        T.hook_query(ip, self.on_query)
        for r in RULES:
            if r != "query":
                ip.hooks[f"{T.PARSER}.FCSParser.{r}"] = lambda ip_, f, a, k, r=r: self.on_other(r)

    def on_other(self, r):
        self.starts.append(r)
        return self.ip.new(Inst(ExtC("antlr4.ParserRuleContext.ParserRuleContext"), {}, label=f"tree of rule {r}"))

    def on_query(self, ip, p):
        self.starts.append("query")
        src = input_of(ip, p)
        self.inputs.append(src)
        cut, lo, hi = 0, None, None
        if isinstance(src, str) and isinstance(self.query, str) and src and src != self.query and src in self.query:
            cut = lo = self.query.index(src)       # the tokenizer is given a part of the query, and counts in it
            hi = cut + len(src)
        self.tree = self.mk.realise(self.nd, p, cut)
        if not ip.truth(p.attrs.get("buildParseTrees", True)):
            self.tree.attrs["children"] = None
        eh = ip.R(p.attrs.get("_errHandler"))
        strategy = getattr(getattr(eh, "cls", None), "dotted", "")
        if strategy and strategy.rsplit(".", 1)[-1] not in ("DefaultErrorStrategy", "BailErrorStrategy"):
            raise Undecided(f"error strategy {strategy}")
        if isinstance(eh, Inst) and isinstance(eh.cls, ClassV):
            raise Undecided("the parser has an error strategy of its own")
        bail = strategy.endswith("BailErrorStrategy")
        script = self.script
        mode = self.prediction_mode(p)
        if mode == "SLL" and self.nd is not None and not_sll(self.nd):
            k = next(i for i, t in enumerate(self.toks) if t.type == "AND")
            script = [("P", k)] + list(script)
        for i, ev in enumerate(script):
            if ev[0] == "raise":
                raise_ext(ip, ev[1])
            if lo is not None and ev[0] == "L" and isinstance(ev[1] if len(ev) > 1 else None, int) and not lo <= ev[1] < hi:
                continue
            if ev[0] in ("L", "R"):
                lx = lexer_of(ip, p)
                if lx is None:
                    raise Undecided("no tokenizer behind the parser")
                if not self.early:
                    self.report_lexical(lx, ev, cut)
                else:
                    self.early -= 1
            elif bail:
                raise_ext(ip, "antlr4.error.Errors.ParseCancellationException")
            else:
                msg, form = self.message(ev)
                tok = self.toks[ev[1]]
                ti = tok.inst
                if isinstance(ti.attrs["line"], Term) and self.one_line(ti.attrs["line"]):
                    ti.attrs.update(line=1, column=ti.attrs["start"])
                self.reported.append(("P", msg, tok, None, ti.attrs["line"], ti.attrs["column"]))
                e = None
                en = FORMS[form][1] if form else "InputMismatchException" if i % 2 else None
                if en:
                    exc = T.get(ip, "antlr4.error.Errors", en)
                    e = ip.new(Inst(exc, {"args": Tup(()), "__cause__": None, "__context__": None, "message": None,
                                          "recognizer": p, "input": ip.getattr(p, "_input"), "ctx": self.tree,
                                          "offendingToken": ti, "offendingState": 7}))
                    if en == "NoViableAltException":
                        e.attrs.update(startToken=ti, deadEndConfigs=None)
                try:
                    ip.call(ip.getattr(p, "notifyErrorListeners"), [msg, ti, e])
                except PyExc as x:
                    self.swallow(x)
        return self.tree

    def one_line(self, line):
        """the places of a text that is not spelled out: all of it on one line, or what is reported after the first"""
        F = self.ip.facts
        if F.one_line is None:
            F.one_line = self.ip.choose(2, "the query has one line") == 1
        if not F.one_line:
            F.bounds[line] = (2, INF)
        return F.one_line

    def message(self, ev):
        n = len(self.reported)
        msg = Term("message", n, ty="str")
        self.ip.facts.pool[msg] = [f"mismatched input {n}", f"{{oops}} % {n}", "token recognition error at: '#'"]
        form = "unrecognised" if ev[0] == "R" else ev[2] if ev[0] == "P" and len(ev) > 2 else None
        if form:
            rest = Term("rest of message", n, ty="str")
            self.ip.facts.pool[rest] = ["'}' expecting <EOF>", "#'", "x"]
            msg = sstr([FORMS[form][0], rest])
        return msg, form

    def report_lexical(self, lx, ev, cut=0):
        ip = self.ip
        msg, _ = self.message(ev)
        n = len(self.reported)
        line, col = Term("line of error", n, ty="nat"), Term("column of error", n, ty="nat")
        start = ev[1] if len(ev) > 1 else Term("offset of error", n, ty="nat")
        if start == "end":
            start = len(self.query) - 1
        if isinstance(self.query, str) and isinstance(start, int):
            line, col = T.linecol(self.query[cut:], start - cut)
        seen = start if not cut else start - cut
        if isinstance(line, Term) and self.one_line(line):
            line, col = 1, seen
        exc = T.get(ip, "antlr4.error.Errors", "LexerNoViableAltException")
        stream = ip.getattr(lx, "_input")
        lx.attrs["_tokenStartCharIndex"] = seen
        lx.attrs["_tokenStartLine"], lx.attrs["_tokenStartColumn"] = line, col
        e = ip.new(Inst(exc, {"args": Tup(()), "__cause__": None, "__context__": None, "startIndex": seen,
                              "message": "", "deadEndConfigs": None, "recognizer": lx, "input": stream,
                              "ctx": None, "offendingToken": None, "offendingState": -1}))
        self.reported.append(("L", msg, None, start, line, col))
        self.deliver(lx, [lx, None, line, col, msg, e])

    def prefetch(self, stream, everything):
        """the token stream is read before the parser runs: the tokenizer reports now, to the listeners it has now"""
        ip = self.ip
        lx = lexer_of(ip, Inst(None, {"_input": stream}))
        src = ip.R(ip.getattr(lx, "_input").attrs.get("strdata")) if lx is not None else None
        if src is not self.query and not (isinstance(src, str) and src == self.query):
            raise Undecided("tokens of another text are fetched before the parser runs")
        evs = [ev for ev in self.script if ev[0] in ("L", "R")]
        for ev in evs[self.early:]:
            if not everything:
                at = ev[1] if len(ev) > 1 else None
                if ev is not self.script[self.early] or at == "end":
                    break
                if at >= self.toks[0].start if isinstance(at, int) else \
                        ip.choose(2, "an unrecognised character before the first token") == 1:
                    break
            self.early += 1
            self.report_lexical(lx, ev)
        return ip.unk("tokens fetched before the parser runs")

    def prediction_mode(self, p):
        it = self.ip.R(p.attrs.get("_interp"))
        m = self.ip.R(it.attrs.get("predictionMode")) if isinstance(it, Inst) else None
        if m is None:
            return "LL"
        name = getattr(m, "dotted", None) or show(m)
        for k in ("LL_EXACT_AMBIG_DETECTION", "SLL", "LL"):
            if name.endswith(k):
                return k
        if m in (0, 1, 2):
            return ("SLL", "LL", "LL_EXACT_AMBIG_DETECTION")[m]
        raise Undecided(f"prediction mode {name}")

    def deliver(self, rec, args):
        ip = self.ip
        try:
            d = ip.call(ip.getattr(rec, "getErrorListenerDispatch"), [])
            ip.call(ip.getattr(d, "syntaxError"), args)
        except PyExc as x:
            self.swallow(x)

    def swallow(self, x):
        """the generated rule methods catch RecognitionException, nothing else"""
        rec = T.get(self.ip, "antlr4.error.Errors", "RecognitionException")
        if rec in self.ip.mro(x.inst.cls):
            return
        raise x


def junk_at(mk, toks, junk):
    for w, t in zip(mk.ws, toks):
        for i, ch in enumerate(w):
            if ch in junk:
                yield t.start - len(w) + i


def not_sll(nd):
    """[!a = "b" & c = "d"] and the like: SLL prediction takes the alternative expression_or and then misses an operand
    (the follow of a negation is merged over all callers), full LL prediction does not"""
    if isinstance(nd, T.Tok):
        return False
    if nd.rule == "expression":
        k = nd.kids[0]
        if isinstance(k, T.Nd) and k.rule == "expression_and" and isinstance(k.kids[0], T.Nd) and \
                k.kids[0].rule == "expression_not" and k.kids[0].kids[1].rule == "expression_basic":
            return True
    return any(not_sll(k) for k in nd.kids)


def input_of(ip, p):
    try:
        lx = lexer_of(ip, p)
        return ip.R(ip.getattr(lx, "_input").attrs.get("strdata"))
    except (PyExc, AttributeError):
        return None


def lexer_of(ip, p):
    st = p.attrs.get("_input")
    if isinstance(st, Inst):
        a = st.attrs.get("__args")
        if a and isinstance(a[0], Inst):
            return a[0]
        for k in ("lexer", "tokenSource"):
            if isinstance(st.attrs.get(k), Inst):
                return st.attrs[k]
    return None


def raise_ext(ip, name):
    """an exception of class `name` whose message is unknown; `name()` has no arguments, `name(7)` a number and no text"""
    msg = Term("failure text", ty="str")
    args = Tup((msg,))
    if name.endswith(")"):
        name, _, rest = name[:-1].partition("(")
        args = Tup((int(rest), Tup(()), msg)) if rest else Tup(())
    if name.startswith("antlr4."):
        mod, cls = name.rsplit(".", 1)
        c = T.get(ip, mod, cls)
        inst = ip.new(Inst(c, {"args": args, "__cause__": None, "__context__": None, "message": msg,
                               "recognizer": None, "input": None, "ctx": None, "offendingToken": None,
                               "offendingState": -1}))
        raise PyExc(inst, "the generated parser")
    if name.startswith("fcsql"):
        mod, cls = name.rsplit(".", 1)
        c = T.get(ip, mod, cls)
    else:
        c = ip.builtins[name]
    inst = ip.new(Inst(c, {"args": args, "__cause__": None, "__context__": None}))
    raise PyExc(inst, "the generated parser")


FAULTS = ["ValueError", "RecursionError", "IndexError", "KeyError", "AttributeError", "TypeError", "RuntimeError",
          "AssertionError", "UnicodeDecodeError", "OverflowError", "MemoryError", "StopIteration", "OSError",
          "NotImplementedError", "Exception", "LookupError", "ArithmeticError",
          "antlr4.error.Errors.RecognitionException", "antlr4.error.Errors.ParseCancellationException",
          "antlr4.error.Errors.NoViableAltException", "antlr4.error.Errors.LexerNoViableAltException",
          "antlr4.error.Errors.IllegalStateException", "antlr4.error.Errors.CancellationException",
          "fcsql.SyntaxError", "fcsql.validation.SpecificationValidationError",
          # as raised by assert, by next() and by C code
          "AssertionError()", "MemoryError()", "StopIteration()", "RecursionError()", "Exception()", "OSError(5)", "KeyError(7)",
          "antlr4.error.Errors.RecognitionException()", "antlr4.error.Errors.ParseCancellationException()"]
