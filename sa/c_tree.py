"""P06-P14: the tree builder, analysed as a whole through QueryParser.parse."""
import ast
import itertools

from . import shapes as S
from . import trees as T
from .check import exc_text
from .engine import PyExc, Undecided
from .values import *


def is_parser_exc(ip, e):
    return T.get(ip, "fcsql.parser", "QueryParserException") in ip.mro(e.inst.cls)


def tree_harness(shape, cfgkw, explicit, want_reject=True, parse=None):
    def h(ip):
        cfg = T.default_cfg(ip, **cfgkw)
        k, v, x, mk, p, q = (parse or T.parse_shape)(ip, shape, cfg, explicit)
        c = T.Cmp(ip)
        must = None
        c.n += 1
        for r in mk.rejects:
            if r[0] == "range":
                if ip.truth(ip.compare(ast.Lt(), r[2], r[1])):
                    must = ("bounds", "the minimum of the range exceeds its maximum")
                    break
            elif r[0] == "codepoint":
                if ip.truth(ip.compare(ast.Gt(), r[1], 0x10FFFF)):
                    must = ("value", "the escape denotes no code point")
                    break
        if must is None:
            for fl in flag_lists(x):
                s = T.expected_flags(ip, fl)
                if T.bad_flags(s):
                    must = ("flags", f"contradictory flags {sorted(s)}")
                    break
        if must is not None:
            if k == "return":
                c.fail(must[0], f"accepted although {must[1]}", getattr(v, "made", None))
            elif not is_parser_exc(ip, v):
                c.fail(must[0], f"{exc_text(v)} instead of the parser exception although {must[1]}", v.site)
            return c
        if k == "raise":
            cause = v.inst.attrs.get("__cause__")
            t = exc_text(v)
            if isinstance(cause, Inst):
                t += f" caused by {getattr(cause.cls, 'name', '?')}{show(cause.attrs.get('args'))}"
            c.fail("reject", f"rejected with {t}", origin(v))
            return c
        T.check_node(ip, c, v, x, cfg)
        return c
    return h


def origin(e):
    c = e.inst.attrs.get("__cause__") or e.inst.attrs.get("__context__")
    return getattr(c, "made", None) or e.site


def flag_lists(x):
    if x.cls == "Expression":
        yield x.fields["regex_flags"][1]
    for k in x.kids:
        yield from flag_lists(k)


def text_of(shape):
    return repr(shape).replace("'", "")


def sweep(ck, family, shape, aspects, cfg=None, explicit=(), env=None, max_paths=4000, parse=None):
    label = text_of(shape)
    if cfg:
        label += f" with {cfg}"
    ck.sweep(family, label, tree_harness(shape, cfg or {}, explicit, parse=parse), env, set(aspects) | {"reject"},
             max_paths)


LOC = {"enableSourceLocations": True}
NOLOC = {"enableSourceLocations": False}


def p06(ck):
    ck.rule("For every abstract parse tree of the family the tree returned by QueryParser.parse has the node classes, "
            "node types, child counts and child order of the construct it denotes (whole-path analysis of the builder; "
            "token texts, offsets and white space unknown).")
    for s in S.structural(ck.tier):
        sweep(ck, "construct x operand kind x operand count x nesting", s, {"structure"}, NOLOC, list(NOLOC))
    for s in itertools.islice(S.structural("quick"), 0, None, 9):
        sweep(ck, "with source locations", s, {"structure"}, LOC, list(LOC))
    for s in S.empties():
        sweep(ck, "empty values", s, {"structure", "value", "field"}, NOLOC, list(NOLOC))
    for n in ck.thresholds():
        for s in S.sized(n):
            sweep(ck, "as many operands or levels as the constants in the code suggest", s, {"structure", "parent"}, NOLOC,
                  list(NOLOC))


def p08(ck):
    ck.rule("Along every path the location of each node is the linear offset expression of its construct's first and "
            "last token when locations are enabled and none otherwise, and all other aspects of the tree are the same "
            "in both settings; fcsql.parse passes the setting on and enables it by default.")
    allasp = {"structure", "parent", "location", "field", "value", "flags", "bounds", "scope"}
    for s in S.structural(ck.tier):
        sweep(ck, "locations enabled", s, allasp, LOC, list(LOC))
    for s in itertools.islice(S.structural("quick"), 0, None, 1 if ck.thorough else 4):
        sweep(ck, "locations disabled", s, allasp, NOLOC, list(NOLOC))
        sweep(ck, "locations disabled by default", s, allasp, NOLOC, [])
    for s in itertools.islice(S.structural("quick"), 0, None, 5 if ck.thorough else 11):
        for cfg in (LOC, NOLOC):
            late_sweep(ck, s, allasp, cfg)
    for n in ck.thresholds():
        for s in itertools.islice(S.sized(n), 0, None, 2):
            sweep(ck, "as many operands or levels as the constants in the code suggest", s, allasp, LOC, list(LOC))
    for q in ("n", ",n", "n,m", "*"):
        for s in (("query", ("simple", ("implicit", S.RF), q), "s"),
                  ("query", ("group", ("seq", [("simple", ("segment", S.BASICQ), q)]), q), None)):
            sweep(ck, "locations with quantifier and flags", s, {"location"}, LOC, list(LOC))
    for q, body in (('"', [("esc", "n"), "c"]), ("'", ["c", ("esc", "U", "0001F600")]), ('"', [("esc", "\\")]),
                    ('"', ["s"]), ('"', [])):
        for sc in (None, "t"):
            sweep(ck, "locations with escapes", ("query", ("simple", ("implicit", ("re", body, ["d"], q)), "+"), sc),
                  {"location"}, LOC, list(LOC))
    for s, ws in itertools.product(S.TEXTS, S.TEXTWS):
        sweep(ck, f"concrete text, white space {ws!r}", s, allasp, LOC, [],
              parse=lambda ip, sh, c, ex, ws=ws: parse_fn(ip, sh, c, {}, ws))
    for s in S.TEXTS:
        for ch, ws in S.junk(T.ntok(s), ck.marks()):
            ck.sweep("characters that begin no token", f"{ch!r} in {s}, white space {ws!r}", junk_harness(s, ws, ch), None,
                     {"location"})
    some = [s for i, s in enumerate(S.structural("quick")) if i % 13 == 0]
    for s in some:
        for kw in ({}, {"enableSourceLocations": True}, {"enableSourceLocations": False}):
            cfg = {"enableSourceLocations": kw.get("enableSourceLocations", True)}
            sweep(ck, f"fcsql.parse({kw or 'default'})", s, {"location", "structure"}, cfg, [],
                  parse=lambda ip, sh, c, ex, kw=kw: parse_fn(ip, sh, c, kw))


def late(first):
    """a parser constructed with other settings (and used with them, if a first query is given), then configured"""
    def parse(ip, shape, cfg, explicit):
        other = dict(T.default_cfg(ip), default_operator=("Operator", "NOT_EQUALS"), default_identifier="other",
                     unicode_normalization_form="NFKD" if cfg["unicode_normalization_form"] != "NFKD" else None,
                     enableSourceLocations=not cfg["enableSourceLocations"])
        p = T.new_parser(ip, other)
        if first is not None:
            if T.parse_shape(ip, first, other, parser=p)[0] != "return":
                raise Undecided("the first of two queries is rejected")
        for k in explicit:
            v = cfg[k]
            ip.setattr(p, k, T.enum_member(ip, "fcsql.parser", *v) if isinstance(v, tuple) else v)
        return T.parse_shape(ip, shape, cfg, explicit, p)
    return parse


CONFIG = ["default_identifier", "default_operator", "unicode_normalization_form", "enableSourceLocations"]
FIRST = (None, ("query", ("seq", [("simple", ("implicit", S.RF), "?"), S.SB]), "s"))


def late_sweep(ck, shape, aspects, cfg):
    for f in FIRST:
        sweep(ck, "settings assigned after construction" + (" and use" if f else ""), shape, aspects, cfg, CONFIG, parse=late(f))


def junk_harness(shape, ws, junk):
    """if the query is accepted nevertheless, locations count in the raw query"""
    def h(ip):
        from .env import World
        c = T.Cmp(ip)
        w = World(ip, shape, [], T.default_cfg(ip, enableSourceLocations=True), ws, junk)
        c.n += 1
        try:
            r = ip.call(T.get(ip, "fcsql", "parse"), [w.query])
        except PyExc:
            return c
        T.check_node(ip, c, r, w.x, w.cfg)
        return c
    return h


def parse_fn(ip, shape, cfg, kw, ws=None):
    """through the module-level function fcsql.parse"""
    mk = T.Maker(ip, cfg)
    nd, x = mk.query(shape)
    q = mk.layout(nd, ws)
    T.hook_query(ip, lambda ip_, pi: mk.realise(nd, pi))
    try:
        r = ip.call(T.get(ip, "fcsql", "parse"), [q], dict(kw))
        return "return", r, x, mk, None, q
    except PyExc as e:
        return "raise", e, x, mk, None, q


def p09(ck):
    ck.rule("qualifier, identifier and operator of every expression are exactly the texts of the tokens of their own "
            "rule (or the configured default identifier and operator for a bare string), with the words of all token "
            "kinds admitted for them.")
    asp = {"field", "value", "structure"}
    words = [True, ("within", "within"), ("flags", "i"), ("flags", "Cdd")] + [("scope", w) for w in S.SCOPE_WORDS]
    for op in ("=", "!="):
        for qual in [False, True] + words[1:]:
            for ident in ["id"] + words[1:]:
                if not ck.thorough and qual not in (False, True) and ident != "id" and qual[0] == ident[0]:
                    continue
                sh = ("query", ("simple", ("segment", ("basic", ("words", qual, ident), op, S.R)), None), None)
                sweep(ck, "attribute words", sh, asp, NOLOC, [])
        for ctx in range(5):
            for b in (("basic", False, op, S.R), ("basic", True, op, S.R), ("basic", True, op, S.RF),
                      ("basic", False, op, S.RF)):
                e = [b, ("enot", b), ("egroup", b), ("eand", [b, S.BASICQ, b]), ("eor", [S.BASIC, b, S.BASICQ])][ctx]
                sweep(ck, "attribute in context", ("query", ("seq", [S.SI, ("simple", ("segment", e), "?")]), None), asp,
                      NOLOC, [])
    cfgs = [({}, []),
            ({"default_operator": ("Operator", "NOT_EQUALS")}, ["default_operator"]),
            ({"default_identifier": None}, ["default_identifier"]),
            ({"default_identifier": None, "default_operator": ("Operator", "NOT_EQUALS")},
             ["default_identifier", "default_operator"]),
            ({"default_operator": ("Operator", "EQUALS")}, ["default_operator"])]
    for kw, ex in cfgs:
        for m in (S.SI, ("seq", [S.SI, S.SB, S.SI]), ("group", ("disj", [S.SI, ("seq", [S.SI, S.SB])]), "*"),
                  ("simple", ("implicit", S.RF), "n,"), ("seq", [S.SB, S.SW])):
            for sc in (None, "s"):
                def h(ip, kw=kw, ex=ex, m=m, sc=sc):
                    k2 = dict(kw)
                    if "default_identifier" in k2:
                        k2["default_identifier"] = Term("configured identifier", ty="str")
                    return tree_harness(("query", m, sc), dict(k2, **NOLOC), ex)(ip)
                ck.sweep("bare strings and configured defaults", f"{text_of(m)} within {sc} with {kw}", h, None,
                         asp | {"reject"})
    for op in ("EQUALS", "NOT_EQUALS"):
        for di in ("text", "id", None):
            for m in (S.SI, ("seq", [S.SI, S.SB, S.SI]), ("simple", ("implicit", S.RF), "n,")):
                late_sweep(ck, ("query", m, None), asp, dict(NOLOC, default_operator=("Operator", op), default_identifier=di))


def p10(ck):
    ck.rule("min_occurs/max_occurs of every segment and group equal the bounds of its quantifier as integer "
            "expressions over the (unknown) digit strings; a path ends in the parser exception exactly if it assumes "
            "minimum > maximum.")
    for s in S.quants():
        sweep(ck, "quantifier form x segment/group", s, {"bounds"}, NOLOC, [])
    deep = [("query", ("group", ("seq", [("simple", ("implicit", S.R), a),
                                         ("group", ("seq", [("simple", ("segment", None), b)]), c)]), d), None)
            for a in (None, "*", "n") for b in ("+", None) for c in ("n,", "?") for d in (None, ",n")]
    for s in deep:
        sweep(ck, "nested quantifiers", s, {"bounds"}, NOLOC, [])
    if ck.thorough:
        for a, b in itertools.product([None] + S.QUANTS, repeat=2):
            sweep(ck, "pairs of quantifiers", ("query", ("seq", [("simple", ("implicit", S.R), a),
                                                                  ("group", ("seq", [S.SI]), b)]), None),
                  {"bounds"}, NOLOC, [])


def p11(ck):
    ck.rule("The value of an expression equals the concatenation of the decoded elements of the quoted string, for "
            "unknown plain characters, every escape, every position, both quotes; a path ends in the parser exception "
            "exactly if the code point expression exceeds 0x10FFFF.")
    for form in (None, "NFC"):
        for i, (q, body) in enumerate(S.values(ck.tier)):
            if form == "NFC" and not ck.thorough and i % 3:
                continue
            if form == "NFC" and i % 2:
                sh = ("query", ("simple", ("segment", ("basic", False, "!=", ("re", body, None, q))), None), None)
            else:
                sh = ("query", ("simple", ("implicit", ("re", body, ["l"] if i % 5 == 1 else None, q)), None), None)
            sweep(ck, "quoted value", sh, {"value"}, dict(NOLOC, unicode_normalization_form=form),
                  ["unicode_normalization_form"], max_paths=3000)
    for q in "\"'":
        for t in S.passages(q, ck.marks()):
            for body in (["=" + t], ["c", "=" + t, "c"], ["=" + t, ("esc", "n")]):
                for form in (None, "NFC"):
                    sweep(ck, "passages kept verbatim", ("query", ("simple", ("implicit", ("re", body, None, q)), None), None),
                          {"value"}, dict(NOLOC, unicode_normalization_form=form), ["unicode_normalization_form"])
    for n in ck.thresholds():
        for body in (["c"] * n, ["=" + "a" * n, ("esc", "n")], [("esc", ".")] * n, [("esc", "x", "41")] * n + ["c"]):
            sweep(ck, "as many elements as the constants in the code suggest", ("query", ("simple", ("implicit", (
                "re", body, None, '"')), None), None), {"value"}, dict(NOLOC, unicode_normalization_form=None),
                ["unicode_normalization_form"])


def p12(ck):
    ck.rule("Every expression value is normalize(form, decoded value) for the configured form (NFC if not configured, "
            "the decoded value itself for none), compared as abstract expressions; layer names are unchanged.")
    bodies = [('"', []), ('"', ["=e", ("esc", "u", "0301")]), ('"', ["=\ufb01", "c"]), ('"', ["=abc"]), ('"', ["=e\u0301"]),
              ("'", ["=\u212b"]), ('"', ["=\u1e9b\u0323"]), ('"', [("esc", "U", "0001D15E")]),
              ("'", [("esc", "u", "212B"), "c"]), ('"', ["c"]), ("'", ["c", "c"]), ('"', ["s"]),
              ('"', ["c", ("esc", "u", "0301")]), ('"', [("esc", "x"), "c"]), ('"', [("esc", "."), "c", ("esc", "n")]),
              ('"', ["s", "=x", "s"]), ("'", [("esc", "u")])]
    for form, ex in ((None, 1), ("NFC", 0), ("NFC", 1), ("NFD", 1), ("NFKC", 1), ("NFKD", 1)):
        for q, b in bodies:
            for fl in (None, ["i"], ["l"]):
                for ctx in range(3):
                    rx = ("re", b, fl, q)
                    if ctx == 0:
                        m = ("simple", ("implicit", rx), None)
                    elif ctx == 1:
                        m = ("simple", ("segment", ("basic", True, "!=", rx)), None)
                    else:
                        m = ("seq", [S.SI, ("group", ("seq", [("simple", ("segment", ("eand", [
                            ("basic", False, "=", rx), S.BASIC])), None)]), "*")])
                    sweep(ck, f"normalisation {form}{'' if ex else ' by default'}", ("query", m, None),
                          {"value", "field"}, dict(NOLOC, unicode_normalization_form=form),
                          ["unicode_normalization_form"] if ex else [])

    for form in (None, "NFC", "NFD"):
        for b in (["=e\u0301", "c"], [("esc", "u", "212B")], ["c", "c"]):
            for m in (("simple", ("implicit", ("re", b, ["i"])), None),
                      ("simple", ("segment", ("basic", True, "!=", ("re", b, None, "'"))), None)):
                late_sweep(ck, ("query", m, None), {"value", "field"}, dict(NOLOC, unicode_normalization_form=form))
    for n in ck.thresholds():
        for b in (["=" + "a" * n + "e", ("esc", "u", "0301")], ["=" + "e\u0301" * n], ["c"] * n):
            sweep(ck, "as many characters as the constants in the code suggest", ("query", ("simple", ("implicit", (
                "re", b, None, '"')), None), None), {"value"}, NOLOC, [])


def p13(ck):
    ck.rule("For every string of flag letters up to the bound (letters unknown, one path per distinguishable choice) "
            "the expression carries exactly the set the letters denote, and the path ends in the parser exception "
            "exactly for a contradictory set.")
    n = 5 if ck.thorough else 3
    for k in range(0, n + 1):
        for ctx in range(2):
            if ctx and k > 2:
                continue
            rx = ("re", ["c"], ["?"] * k if k else None)
            m = ("simple", ("implicit", rx), None) if ctx == 0 else (
                "simple", ("segment", ("enot", ("basic", True, "=", rx))), "?")
            sweep(ck, f"{k} flag letters", ("query", m, None), {"flags"}, NOLOC, [], max_paths=20000)
    for a, b in itertools.product("iIcCld", repeat=2):
        sweep(ck, "flags of one expression do not reach another", ("query", ("seq", [
            ("simple", ("implicit", ("re", ["c"], [a])), None), ("simple", ("segment", ("eor", [
                ("basic", False, "=", ("re", ["c"], [b])), S.BASIC])), None), S.SI]), None), {"flags"}, NOLOC, [])
    for w in ("iiiiii", "dddd", "llll", "icdicdicd", "CICId", "dCdCdC", "llllil", "cccccI", "dl", "ddddddl", "Iddddc"):
        sweep(ck, "longer flag strings", ("query", ("simple", ("implicit", ("re", ["c"], list(w))), None), None),
              {"flags"}, NOLOC, [])
    for k in (2, 3):
        for w in itertools.product("iIcCld", repeat=k):
            sweep(ck, f"all flag strings of length {k}", ("query", ("simple", ("implicit", ("re", ["c"], list(w))), None),
                                                           None), {"flags"}, NOLOC, [])
    for n in ck.thresholds():
        for w in ("i" * n + "d", "d" * n + "l", "I" * n + "c", "l" * n):
            sweep(ck, "as many flags as the constants in the code suggest", ("query", ("simple", ("implicit", (
                "re", ["c"], list(w))), None), None), {"flags"}, NOLOC, [])
    if ck.thorough:
        for w in itertools.product("iIcCld", repeat=4):
            sweep(ck, "all flag strings of length 4", ("query", ("simple", ("implicit", ("re", ["c"], list(w))), None),
                                                       None), {"flags"}, NOLOC, [])


def p14(ck):
    ck.rule("The scope of the within node is the member named by the scope word, and the root is a query-with-within "
            "with the whole main query and the within node as its two children exactly if there is a within clause.")
    ms = [x for _, x in S.mains(2 if ck.thorough else 1)]
    for w in S.SCOPE_WORDS:
        for m in (ms if ck.thorough else ms[:6]):
            sweep(ck, "scope word", ("query", m, w), {"scope", "structure", "parent"}, NOLOC, [])
    for i, m in enumerate(ms):
        sweep(ck, "no within clause", ("query", m, None), {"structure", "scope", "parent"}, NOLOC, [])
        sweep(ck, "within clause", ("query", m, S.SCOPE_WORDS[i % 10]), {"structure", "scope", "parent"}, LOC,
              list(LOC))
