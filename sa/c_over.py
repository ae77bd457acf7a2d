"""Methods that the generated classes, or classes of the package derived from them, define in place of the ANTLR
runtime's: each is interpreted with the runtime's method replaced by a recording stand-in, for every kind of token,
message and context it may be given.  The tokens and trees described by the tables reach the user unchanged only if the
method hands its arguments to the runtime's, unchanged, exactly once and hands back what that returned."""
from . import shapes as S
from . import trees as T
from .check import exc_text
from .engine import AnchorError, PyExc
from .env import FORMS, RULES
from .facts import Infeasible
from .values import *

L, M = "fcsql.FCSLexer", "fcsql.FCSParser"
WORDCH = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-")
FIXED = {"L_PAREN": "(", "R_PAREN": ")", "L_SQUARE_BRACKET": "[", "R_SQUARE_BRACKET": "]", "OR": "|", "AND": "&", "NOT": "!",
         "FWD_SLASH": "/", "L_CURLY_BRACKET": "{", "R_CURLY_BRACKET": "}", "Q_ONE_OR_MORE": "+", "Q_ZERO_OR_MORE": "*",
         "Q_ZERO_OR_ONE": "?", "Q_COMMA": ",", "OPERATOR_EQ": "=", "OPERATOR_NE": "!=", "COLON": ":", "WITHIN": "within"}
NOT_WORDS = ["within", "i", "I", "c", "C", "l", "d"] + list(S.SCOPE_WORDS)
LEXEMES = {"IDENTIFIER": ["word", "x-1", "Within", "WITHIN", "withi", "withins", "Sentence", "S", "texts", "contains", "and", "OR",
                          "not", "true", "None", "sessio", None],
           "INTEGER": ["0", "007", "12", "99999999999999999999", None],
           "REGEXP": ['"a"', "''", '"within"', '"\\u00e9\\n"', '"#"', '"12"', None],
           "REGEXP_FLAGS": ["i", "CId", "dd", "licd"],
           "SIMPLE_WITHIN_SCOPE": list(S.SCOPE_WORDS), "EOF": ["<EOF>"]}
LEXEMES.update({k: [v] for k, v in FIXED.items()})
TOKEN_RESULT = {"nextToken", "emit", "emitEOF", "match", "matchWildcard", "consume", "getCurrentToken"}


def derived(ip, base):
    """the class and the classes of the package derived from it"""
    out = [base]
    for name, m in list(ip.modules.items()):
        if name.startswith("fcsql") and getattr(m, "ns", None):
            for v in m.ns.vars.values():
                if isinstance(v, ClassV) and v not in out and base in ip.mro(v):
                    out.append(v)
    return out


def own_methods(ip, c):
    """[(name, function, runtime's function)] for the runtime methods replaced in c or in a base before the runtime"""
    mro = [b for b in ip.mro(c) if isinstance(b, ClassV)]
    own = [b for b in mro if not b.qual.startswith("antlr4.")]
    run = [b for b in mro if b.qual.startswith("antlr4.")]
    out, seen = [], set()
    for b in own:
        for k, v in b.ns.vars.items():
            if k in seen or k in ("__init__", "__slots__", "__doc__", "__module__", "__qualname__"):
                continue
            seen.add(k)
            for r in run:
                if k in r.ns.vars:
                    out.append((k, v, r.ns.vars[k], b))
                    break
    return out


def lexeme(ip, ty, text, n):
    if text is not None:
        return text
    t = Term("text of token", n, ty="str")
    if ty == "IDENTIFIER":
        ip.facts.alpha[t] = (WORDCH, False)
        ip.facts.exclude(t, NOT_WORDS)
        ip.facts.pool[t] = ["word", "Within", "x-1", "A", "Text"]
    elif ty == "INTEGER":
        t = Term("digits of token", n, ty="digits")
    else:
        q = Term("inside of token", n, ty="str")
        ip.facts.pool[q] = ["a", "", "within", "\\u0041", " ", "\u00e9"]
        return sstr(['"', q, '"'])
    return t


def make_token(ip, types, ty, text, n=0):
    ct = T.get(ip, "antlr4.Token", "CommonToken")
    num = -1 if ty == "EOF" else ip.R(types.get(ty))
    a = Term("start of token", n, ty="nat")
    tx = lexeme(ip, ty, text, n)
    t = ip.call(ct, [Tup((None, None)), num, 0, a, ladd(a, ladd(ip.B.length(ip, tx), -1))])
    t.attrs.update(line=Term("line of token", n, ty="nat"), column=Term("column of token", n, ty="nat"), tokenIndex=n)
    t.attrs["_text"] = tx
    return t


def arguments(ip, name, f, types, ty, text, form):
    """values for the parameters of the runtime's method, or None"""
    out = []
    for i, p in enumerate([a.arg for a in f.node.args.args][1:]):
        if p in ("token", "offendingToken", "t"):
            out.append(make_token(ip, types, ty, text, i))
        elif p == "ttype":
            out.append(-1 if ty == "EOF" else ip.R(types.get(ty)))
        elif p == "msg":
            rest = Term("rest of message", ty="str")
            ip.facts.pool[rest] = ["'}' expecting <EOF>", "'a'", "x"]
            out.append(sstr([FORMS[form][0], rest]) if form else rest)
        elif p in ("e", "re"):
            cls = {"unrecognised": "LexerNoViableAltException", "mismatched": "InputMismatchException",
                   "no alternative": "NoViableAltException"}.get(form)
            if p == "re" or name == "notifyListeners":
                cls = "LexerNoViableAltException"
            e = None
            if cls:
                tok = None if cls.startswith("Lexer") else next((x for x in out if isinstance(x, Inst)), None)
                e = ip.new(Inst(T.get(ip, "antlr4.error.Errors", cls), {
                    "args": Tup(()), "__cause__": None, "__context__": None, "message": None, "recognizer": None, "input": None,
                    "ctx": None, "offendingToken": tok, "offendingState": 3, "startIndex": Term("offset of failure", ty="nat"),
                    "deadEndConfigs": None, "startToken": tok}))
            out.append(e)
        elif p in ("localctx", "parent", "_localctx"):
            cname = RULES[(len(text or "") + len(form or "")) % len(RULES)]
            cls = T.get(ip, M, "FCSParser").ns.vars.get(cname[0].upper() + cname[1:] + "Context")
            if not isinstance(cls, ClassV):
                return None
            out.append(ip.call(cls, [None, None, -1]))
        elif p in ("state", "ruleIndex", "altNum", "m"):
            t = Term(p, ty="nat")
            if p == "ruleIndex":
                ip.facts.bounds[t] = (0, len(RULES) - 1)
            out.append(t)
        else:
            return None
    return out


def same(a, b):
    if a is b or isinstance(a, (Term, SStr, Lin, Tup)) and a == b:
        return True
    return type(a) is type(b) and isinstance(a, (int, str, bool, type(None))) and a == b


def changed(snap):
    for o, s in snap:
        for k, v in s.items():
            if k not in o.attrs or not same(o.attrs[k], v):
                yield o, k, v, o.attrs.get(k)


def harness(c, mod, name, f, base, ty, text, form, prior=None):
    def h(ip):
        cmp = T.Cmp(ip)
        types = c_types(ip, c)
        lexer = mod == L
        inp = ip.new(Inst(ExtC("antlr4.InputStream.InputStream" if lexer else "antlr4.CommonTokenStream.CommonTokenStream"),
                          {"strdata": Term("query", ty="str"), "_size": 1, "name": "<empty>", "_index": 0, "index": 0}))
        root = T.get(ip, mod, "FCSLexer" if lexer else "FCSParser")
        plain = set(ip.instantiate(root, [inp], {}).attrs)
        o = ip.instantiate(c, [inp], {})
        if lexer:
            o.attrs["_type"] = -1 if ty == "EOF" else ip.R(types.get(ty))
            o.attrs["_text"] = lexeme(ip, ty, text, 9)
            o.attrs["_tokenStartCharIndex"] = Term("start of token", 9, ty="nat")
        args = arguments(ip, name, base, types, ty, text, form)
        if args is None:
            raise Undecided(f"{c.name}.{name}: parameters of the runtime's method are not understood")
        snap = [(x, dict(x.attrs)) for x in args if isinstance(x, Inst)]
        snap.append((o, {k: v for k, v in o.attrs.items() if k in plain}))
        if not lexer and name != "getCurrentToken":
            cur = []

            def current(ip_, fn, a, k):
                if not cur:
                    i = ip.choose(3, "the current token")
                    cur.append(make_token(ip, types, (ty, "EOF", "COLON" if ty != "COLON" else "OR")[i], "x", 7))
                return cur[0]
            ip.hooks["antlr4.Parser.Parser.getCurrentToken"] = current
        calls = []
        if prior:
            before = make_token(ip, types, prior, LEXEMES[prior][0], 4)
            ip.hooks[base.qual] = lambda ip_, fn, a, k: before
            try:
                ip.call(ip.getattr(o, name), args)
            except PyExc:
                return None
            finally:
                ip.hooks.pop(base.qual, None)
        result = make_token(ip, types, ty, text, 5) if name in TOKEN_RESULT else None

        def stand_in(ip_, fn, a, k):
            if not a or a[0] is not o:
                raise Undecided(f"{name} of another object")
            calls.append((list(a[1:]), dict(k), list(changed(snap))))
            if len(calls) > 1:
                return make_token(ip, types, "EOF", "<EOF>", 6) if name in TOKEN_RESULT else None
            if result is not None:
                snap.append((result, dict(result.attrs)))
            return result
        ip.hooks[base.qual] = stand_in
        what = f"{c.name}.{name}, which replaces the runtime's,"
        tok = f"for a {ty} token" if not form else f"for a '{form}' report at a {ty} token"
        try:
            r = ip.call(ip.getattr(o, name), args)
        except PyExc as e:
            cmp.fail("override", f"{what} raises {exc_text(e)} {tok}", e.site)
            return cmp
        finally:
            ip.hooks.pop(base.qual, None)
            ip.hooks.pop("antlr4.Parser.Parser.getCurrentToken", None)
        cmp.calls = len(calls)
        cmp.n += 3
        site = f.site if hasattr(f, "site") else None
        if not calls:
            cmp.fail("override", f"{what} does not do the runtime's work {tok}", site)
            cmp.never = True
            return cmp
        if len(calls) > 1:
            cmp.fail("override", f"{what} does the runtime's work {len(calls)} times {tok}", site)
            return cmp
        a, k, ch = calls[0]
        names = [x.arg for x in base.node.args.args][1:]
        got = dict(zip(names, a), **k)
        for n, v in zip(names, args):
            if n in got and not same(got[n], v):
                if isinstance(got[n], (SStr, Term, str)) and isinstance(v, (SStr, Term, str)):
                    cmp.same("override", f"{what} changes {n} {tok}: it", got[n], v, site)
                else:
                    cmp.fail("override", f"{what} hands on {show(got[n])} as {n} instead of {show(v)} {tok}", site)
        for ob, at, v, w in ch + [x for x in changed(snap) if x[0] is not o]:
            who = "the token" if ob is not o and "tokenIndex" in ob.attrs else "the " + ("lexer" if lexer else "parser") if ob is o \
                else "its argument"
            cmp.fail("override", f"{what} changes {at} of {who} from {show(v)} to {show(w)} {tok}", site)
        if not same(r, result) and (name in TOKEN_RESULT or r is not None):
            cmp.fail("override", f"{what} returns {show(r)} instead of the runtime's result {tok}", site)
        return cmp
    return h


def c_types(ip, c):
    for b in ip.mro(c):
        if isinstance(b, ClassV) and "IDENTIFIER" in b.ns.vars:
            return b.ns.vars
    raise AnchorError("token types not found")


def check(ck, src, mod, name, family="runtime methods"):
    ip = ck.ip
    try:
        base = src.cls(mod, name)
    except AnchorError as e:
        ck.undecided(f"{name}: {e}", family)
        return
    n = 0
    for c in derived(ip, base):
        n += len(c.ns.vars)
        if c is not base:
            for k in c.ns.vars:
                if k in RULES and mod == M:
                    ck.undecided(f"{c.name}.{k} replaces a generated rule method", family)
        for k, f, b, owner in own_methods(ip, c):
            if c is not base and owner is base:
                continue
            if not isinstance(f, FuncV) or not isinstance(b, FuncV):
                ck.undecided(f"{c.name}.{k} replaces a runtime attribute", family)
                continue
            params = [x.arg for x in b.node.args.args]
            forms = [None] + list(FORMS) if "msg" in params else [None]
            n0, b0 = len(ck.bad), ck.paths
            probe = []
            for ty in LEXEMES:
                for tx in LEXEMES[ty][:1] if len(forms) > 1 else LEXEMES[ty]:
                    for fm in forms:
                        probe.append((ty, tx, fm))
            # a method that never calls the runtime's is an implementation of its own
            if not delegates(ip, c, mod, k, f, b, probe):
                ck.undecided(f"{c.name}.{k} replaces a runtime method and never calls it", family)
                continue
            if len(params) == 1 and k in TOKEN_RESULT:
                for ty in LEXEMES:
                    for pre in LEXEMES:
                        ck.sweep(family, f"{c.name}.{k} for {ty} after {pre}", harness(c, mod, k, f, b, ty, LEXEMES[ty][0], None, pre))
            for ty, tx, fm in probe:
                ck.sweep(family, f"{c.name}.{k} for {ty} {tx!r} {fm or ''}", harness(c, mod, k, f, b, ty, tx, fm))
    ck.cases[family] = ck.cases.get(family, 0) + 1
    ck.ok(n)


def delegates(ip, c, mod, k, f, b, probe):
    from .engine import explore
    for ty, tx, fm in probe:
        for o in explore(ip, harness(c, mod, k, f, b, ty, tx, fm), {}, 50):
            if o.kind == "return" and getattr(o.value, "calls", 0):
                return True
            if o.kind == "undecided":
                return True     # reported by the sweep
    return False


# methods of the streams the tokenizer and the parser read from: parameters and result
STREAMS = {
    L: ("antlr4.InputStream.InputStream", {
        "LA": (["offset"], "code"), "LT": (["offset"], "code"), "consume": ([], None), "seek": (["index"], None),
        "mark": ([], "nat"), "release": (["marker"], None), "getText": (["start", "stop"], "str"), "reset": ([], None),
        "_loadString": ([], None)}),
    M: ("antlr4.CommonTokenStream.CommonTokenStream", {
        "LT": (["k"], "token"), "LB": (["k"], "token"), "LA": (["k"], "type"), "consume": ([], None), "seek": (["index"], None),
        "get": (["index"], "token"), "sync": (["index"], "bool"), "fetch": (["n"], "nat"), "fill": ([], None),
        "adjustSeekIndex": (["index"], "nat"), "mark": ([], "nat"), "release": (["marker"], None), "reset": ([], None),
        "lazyInit": ([], None), "setup": ([], None), "getText": (["start", "stop"], "str"),
        "nextTokenOnChannel": (["index", "channel"], "nat"), "previousTokenOnChannel": (["index", "channel"], "nat")}),
}


def stream_harness(c, dotted, name, params, kind, ty, text):
    def h(ip):
        from . import ext
        cmp = T.Cmp(ip)
        types = T.get(ip, M, "FCSParser").ns.vars
        if dotted.endswith("InputStream"):
            q = Term("query", ty="str")
            o = ip.instantiate(c, [q], {})
        else:
            o = ip.instantiate(c, [ip.new(Inst(T.get(ip, L, "FCSLexer"), {}))], {})
        args = [Term(n, ty="int" if n in ("offset", "k") else "nat") for n in params]
        result = None
        if kind == "code":
            result = Term("code point", ty="int")
            ip.facts.bounds[result] = (-1, 0x10FFFF)
        elif kind == "token":
            result = make_token(ip, types, ty, text, 5)
        elif kind == "type":
            result = -1 if ty == "EOF" else ip.R(types.get(ty))
        elif kind:
            result = Term("result", ty=kind)
        snap = [(o, dict(o.attrs))]
        if isinstance(result, Inst):
            snap.append((result, dict(result.attrs)))
        calls = []

        def stand_in(ip_, self, *a, **k):
            calls.append((list(a), dict(k), list(changed(snap))))
            return result
        key = (dotted, name)
        old = ext.METHODS.get(key)
        ext.METHODS[key] = stand_in
        what = f"{c.name}.{name}, which replaces the runtime's,"
        tok = f"for a {ty} token" if kind in ("token", "type") else ""
        try:
            r = ip.call(ip.getattr(o, name), args)
        except PyExc as e:
            cmp.fail("override", f"{what} raises {exc_text(e)} {tok}", e.site)
            return cmp
        finally:
            if old is None:
                del ext.METHODS[key]
            else:
                ext.METHODS[key] = old
        cmp.calls = len(calls)
        cmp.n += 2
        if len(calls) != 1:
            cmp.fail("override", f"{what} does the runtime's work {len(calls)} times {tok}")
            return cmp
        a, k, ch = calls[0]
        got = dict(zip(params, a), **k)
        for n, v in zip(params, args):
            if not same(got.get(n), v):
                cmp.fail("override", f"{what} hands on {show(got.get(n))} as {n} {tok}")
        for ob, at, v, w in ch + list(changed(snap)):
            cmp.fail("override", f"{what} changes {at} of the {'stream' if ob is o else 'token'} from {show(v)} to {show(w)} {tok}")
        if kind and not same(r, result):
            if isinstance(result, Term) and isinstance(r, (Term, int, str, SStr, Lin)) and not isinstance(r, bool):
                cmp.same("override", f"{what} returns another result {tok}: it", r, result)
            else:
                cmp.fail("override", f"{what} returns {show(r)} instead of {show(result)} {tok}")
        return cmp
    return h


def check_streams(ck, mod, family="runtime methods of the streams"):
    ip = ck.ip
    dotted, methods = STREAMS[mod]
    ext, n = ExtC(dotted), 0
    for name, m in list(ip.modules.items()):
        if not name.startswith("fcsql") or not getattr(m, "ns", None):
            continue
        for c in list(m.ns.vars.values()):
            if not isinstance(c, ClassV) or ext not in ip.mro(c) or c.qual.split(".")[0] != "fcsql":
                continue
            for b in ip.mro(c):
                if not isinstance(b, ClassV):
                    continue
                for k, f in b.ns.vars.items():
                    n += 1
                    if k.startswith("__"):
                        continue
                    if k in methods and isinstance(f, FuncV):
                        params, kind = methods[k]
                        for ty in LEXEMES if kind in ("token", "type") else ["IDENTIFIER"]:
                            for tx in LEXEMES[ty] if kind == "token" else LEXEMES[ty][:1]:
                                ck.sweep(family, f"{c.name}.{k} for {ty} {tx!r}",
                                         stream_harness(c, dotted, k, params, kind, ty, tx))
                    elif k in ("size", "index", "strdata", "data", "tokens", "_size", "_index", "channel", "tokenSource"):
                        ck.undecided(f"{c.name}.{k} replaces a runtime attribute", family)
    ck.cases[family] = ck.cases.get(family, 0) + 1
    ck.ok(n + 1)
