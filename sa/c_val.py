"""P20-P26: validation."""
import itertools

from . import shapes as S
from . import witness as W
from . import trees as T
from .c_nodes import (ARITY, CHANGES, rearrange, KINDS, NARY, build, cls, em, expression, guarded, kind_of, leaf, place, same_obj, sample, sized_trees,
                      trees_for_visit)
from .c_parse import call_parse, ntok
from .check import exc_text
from .engine import AnchorError, PyExc
from .env import World
from .values import *

V = "fcsql.validation"
LAYERS = ("text", "lemma", "pos", "orth", "norm", "phonetic")
TAGS = "ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X".split()
SPECIAL = "()[]{}?*+-|^$\\.&~#\t\n\r\v\f"
WORD = frozenset(T.LETTERS + T.DIGITS + "-")


def vget(ip, n):
    return T.get(ip, V, n)


def strs(ip, v):
    """python list -> abstract list"""
    if isinstance(v, list):
        return ip.new(ListV([strs(ip, x) for x in v]))
    if isinstance(v, tuple):
        return Tup([strs(ip, x) for x in v])
    return v


def ident(ip, n="identifier"):
    t = Term(n, ty="str")
    ip.facts.alpha[t] = (WORD, False)
    ip.facts.pool[t] = ["text", "word", "x-a", "X-a", "pos", "a", "x", "Text", "words", "xa", "9"]
    return t


def issues(ip, c, v, aspect):
    """(errors, warnings) of the validator object or None"""
    out = []
    for n in ("errors", "warnings"):
        l = ip.R(T.attr(ip, v, n))
        if not isinstance(l, ListV):
            if isinstance(l, (Inst, Tup)) or not isinstance(l, Term):
                c.fail(aspect, f"validator.{n} is {show(l)}, not a list", T.attr_site(ip, v, n))
            else:
                c.open.append((aspect, f"validator.{n} is {show(l)}"))
            return None
        out.append(list(l.items))
    return out


def msgs(ip, l):
    return [ip.R(T.attr(ip, x, "message")) if isinstance(x, Inst) else x for x in l]


def is_spec(ip, e):
    return vget(ip, "SpecificationValidationError") in ip.mro(e.inst.cls)


def run_validate(ip, v, node, how="validate", **kw):
    try:
        return "return", ip.call(ip.getattr(v, how), [node], kw)
    except PyExc as e:
        return "raise", e


def count(ip, c, aspect, v, node, nerr, nwarn, what):
    """validate in collecting mode: exactly nerr errors and nwarn warnings"""
    k, r = run_validate(ip, v, node)
    c.n += 2
    if k == "raise":
        c.fail(aspect, f"{what}: validation raises {exc_text(r)}", r.site)
        return
    got = issues(ip, c, v, aspect)
    if got is None:
        return
    for name, l, n in (("error", got[0], nerr), ("warning", got[1], nwarn)):
        if len(l) != n:
            c.fail(aspect, f"{what}: {len(l)} {name}{'s' if len(l) != 1 else ''} recorded, expected {n}"
                           f"{' (' + show(msgs(ip, l)[0])[:80] + ')' if l else ''}",
                   getattr(l[-1], "made", None) if l else None)


def collecting(ip, **kw):
    kw = {k: strs(ip, x) for k, x in kw.items()}
    kw.setdefault("raise_at_first_violation", False)
    return ip.call(vget(ip, "FCSQLValidator"), [], kw)


def member(ip, x, l):
    return any(ip.truth(ip.eq(x, y)) for y in l)


def starts(ip, x, p):
    return ip.truth(ip.call(ip.getattr(x, "startswith"), [p]))


# ------------------------------------------------------------------------- P20
def layer_verdict(ip, iv, allowed):
    """(errors, warnings) by the statement"""
    if allowed:
        return (0, 0) if member(ip, iv, allowed) else (1, 0)
    if member(ip, iv, LAYERS):
        return 0, 0
    if ip.truth(ip.eq(iv, "word")) or starts(ip, iv, "x-"):
        return 0, 1
    return 1, 0


def p20(ck):
    ck.rule("For an expression with unknown layer identifier (any word) and each form of the custom list (absent, empty, "
            "constant and unknown members), the numbers of errors and warnings recorded on every path are those of the "
            "statement under that path's assumptions; raising mode raises exactly when there is an error.")
    lists = [None, [], ["text"], ["word"], ["x-a", "lemma"], ["?"], ["?", "?"], ["text", "?"], ["pos", "norm", "?", "orth"]]
    words = ["?"] + list(LAYERS) + ["word", "x-", "x-a", "X-a", "x", "xa", "Text", "TEXT", "words", "ax-", "x-word", "-x",
                                    "tex", "texts", "wor", "lemmas", "custom", "phon", "ortho", "norma", "postag",
                                    "-", "x--", "x-x-", "x-xpos", "y-text", "text-x-"] + ["x-" + a for a in LAYERS] + [
                                    a + "-x" for a in LAYERS[:2]]
    for al in lists:
        for w in words:
            for q in (None, "q"):
                for n in (1, 2):
                    if n == 2 and w not in ("?", "word", "custom"):
                        continue
                    ck.sweep(f"custom list {'absent' if al is None else 'of ' + str(len(al))}",
                             f"identifier {w}, qualifier {q}, list {al}, {n} expressions", layer_harness(w, q, al, n))
    for w in ("?", "text", "word", "x-a", "foo"):
        for al in (None, ["?"], ["text", "?"]):
            for wae in (False, True):
                ck.sweep("raising mode", f"identifier {w}, list {al}, warnings as errors {wae}",
                         layer_raise(w, al, wae))
    for al in (None, ["text"], ["text", "foo"], ["?"], ["word", "x-a"]):
        for ws in MIXES:
            ck.sweep("several expressions", f"identifiers {ws}, list {al}", layer_mix(ws, al))
    ck.sweep("below every construct", "all kinds of parents", layer_deep)
    ck.sweep("two validators", "different lists", layer_two)
    for w in ("?", "text", "word", "x-a", "foo"):
        for al in lists[:6]:
            for old in (None, ["foo", "text"], []):
                ck.sweep("list assigned after construction", f"identifier {w}, list {al} instead of {old}", layer_late(w, old, al))
    ck.sweep("documented tables", "KNOWN_LAYER_IDENTIFIERS", layer_tables)


def unknown_list(ip, al):
    if al is None:
        return None
    out = []
    for i, a in enumerate(al):
        out.append(ident(ip, f"listed {i}") if a == "?" else a)
    return out


def layer_harness(w, q, al, n):
    def h(ip):
        c = T.Cmp(ip)
        iv = ident(ip) if w == "?" else w
        allowed = unknown_list(ip, al)
        v = collecting(ip, allowed_layer_identifiers=allowed)
        es = [expression(ip, q=q, i=iv, rx="NOUN") for _ in range(n)]
        node = es[0] if n == 1 else ip.call(cls(ip, "ExpressionAnd"), [ip.new(ListV(es))])
        a, b = layer_verdict(ip, iv, allowed)
        count(ip, c, "layer", v, node, a * n, b * n, f"layer {show(iv)} with list {show(al)}")
        return c
    return h


def layer_late(w, old, al):
    """the list is replaced between validations"""
    def h(ip):
        c = T.Cmp(ip)
        iv = ident(ip) if w == "?" else w
        allowed = unknown_list(ip, al)
        e = expression(ip, i=iv, rx="NOUN")
        v = collecting(ip, allowed_layer_identifiers=old)
        for used in (False, True):
            if used:
                T.assign(ip, v, "allowed_layer_identifiers", strs(ip, old))
                a, b = layer_verdict(ip, iv, old)
                count(ip, c, "layer", v, e, a, b, f"layer {show(iv)} with list {show(old)} once more")
            T.assign(ip, v, "allowed_layer_identifiers", strs(ip, allowed))
            a, b = layer_verdict(ip, iv, allowed)
            count(ip, c, "layer", v, e, a, b, f"layer {show(iv)} with list {show(al)} assigned in place of {show(old)}")
        return c
    return h


MIXES = [("foo", "word", "text"), ("word", "foo", "x-a"), ("word", "word", "foo"), ("text", "foo", "foo"), ("x-a", "bar", "x-a"),
         ("foo", "text", "foo"), ("?", "foo", "?"), ("word", "?", "foo"), ("text", "word", "foo", "x-a", "pos", "bar")]


def layer_mix(ws, al):
    """different expressions of one query, and the same again with the same validator"""
    def h(ip):
        c = T.Cmp(ip)
        unk = ident(ip)
        ivs = [unk if w == "?" else w for w in ws]
        allowed = unknown_list(ip, al)
        v = collecting(ip, allowed_layer_identifiers=allowed)
        vs = [layer_verdict(ip, i, allowed) for i in ivs]
        es = [expression(ip, i=i, rx="NOUN") for i in ivs]
        for n, e in enumerate(es):
            ip.setattr(e, "location", ip.call(cls(ip, "SourceLocation"), [10 * n, 10 * n + 8]))
        for k in ("ExpressionOr", "ExpressionAnd"):
            node = ip.call(cls(ip, k), [ip.new(ListV(es))])
            count(ip, c, "layer", v, node, sum(a for a, _ in vs), sum(b for _, b in vs),
                  f"layers {show(ivs)} in one query with list {show(allowed)}")
        return c
    return h


def layer_raise(w, al, wae):
    def h(ip):
        c = T.Cmp(ip)
        iv = ident(ip) if w == "?" else w
        allowed = unknown_list(ip, al)
        v = collecting(ip, allowed_layer_identifiers=allowed, raise_at_first_violation=True, warnings_as_errors=wae)
        k, r = run_validate(ip, v, expression(ip, i=iv, rx="NOUN"))
        a, b = layer_verdict(ip, iv, allowed)
        want = bool(a or wae and b)
        c.n += 1
        if (k == "raise") is not want:
            c.fail("layer", f"layer {show(iv)} with list {show(al)}, warnings as errors {wae}: "
                            f"{'raises ' + exc_text(r) if k == 'raise' else 'does not raise'}", r.site if k == "raise" else None)
        elif want and not is_spec(ip, r):
            c.fail("layer", f"layer {show(iv)}: {exc_text(r)} raised instead of the validation error", r.site)
        return c
    return h


def chain(ip, inner):
    """inner below one node of every kind that has children; -> root"""
    x = inner
    for k in ("ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr", "QuerySegment", "QuerySequence",
              "QueryGroup", "QueryDisjunction", "QueryWithWithin"):
        x = build(ip, k, [x] if k != "QueryWithWithin" else [x, build(ip, "SimpleWithin")])
    return x


def layer_deep(ip):
    c = T.Cmp(ip)
    iv = ident(ip)
    a, b = layer_verdict(ip, iv, None)
    count(ip, c, "layer", collecting(ip), chain(ip, expression(ip, i=iv, rx="NOUN")), a, b,
          f"layer {show(iv)} deep in a tree")
    for k in NARY:
        for pos in range(3):
            es = [expression(ip) for _ in range(3)]
            es[pos] = expression(ip, i=iv, rx="NOUN")
            count(ip, c, "layer", collecting(ip), build(ip, k, es), a, b, f"layer {show(iv)} as operand {pos} of {k}")
    return c


def layer_two(ip):
    c = T.Cmp(ip)
    v1 = collecting(ip, allowed_layer_identifiers=["foo"])
    v2 = collecting(ip, allowed_layer_identifiers=["bar"])
    v3 = collecting(ip)
    for v, i, a in ((v1, "foo", 0), (v1, "bar", 1), (v2, "bar", 0), (v2, "foo", 1), (v3, "foo", 1), (v3, "text", 0),
                    (v1, "foo", 0), (v1, "text", 1)):
        count(ip, c, "layer", v, expression(ip, i=i), a, 0, f"layer {i} with one of several validators")
    return c


def layer_tables(ip):
    c = T.Cmp(ip)
    v = collecting(ip)
    for a in LAYERS:
        for rx in ("NOUN", "", "a.b"):
            count(ip, c, "layer", v, expression(ip, i=a, rx=rx if a != "pos" else "NOUN"), 0, 0, f"FCS layer {a}")
    return c


# ------------------------------------------------------------------------- P21
def p21(ck):
    ck.rule("For an expression with unknown layer and qualifier and each form of the qualifier list, the number of "
            "qualifier errors on every path is that of the statement under that path's assumptions.")
    lists = [None, [("pos", None)], [("pos", [])], [("pos", ["?"])], [("pos", ["?", "?"])], [("?", ["a", "?"])],
             [("?", None)], [("text", ["a"]), ("pos", ["b"])], [("text", None), ("pos", ["b", "?"]), ("lemma", [])],
             [("?", ["?"]), ("pos", ["b"])], [("a", ["q"]), ("b", ["q", "r"]), ("c", None), ("d", ["?"])]]
    for al in lists:
        for w in ("?", "pos", "text", "lemma", "b", "c", "d", "Pos"):
            for q in (None, "?", "b", "q", "pos", "B"):
                ck.sweep("qualifier list " + ("absent" if al is None else "given"),
                         f"list {al}, layer {w}, qualifier {q}", qual_harness(al, w, q))
    for al in (lists[1], lists[7], lists[8], lists[10]):
        for es in itertools.product(((None, "pos"), ("b", "pos"), ("z", "pos"), ("z", "text"), ("q", "b"), ("z", "foo")), repeat=2):
            ck.sweep("several expressions", f"list {al}, {es}", qual_mix(al, es))
        for es in ((("z", "pos"), (None, "foo"), ("z", "pos")), (("z", "text"), ("z", "text"), ("b", "pos"), ("z", "pos"))):
            ck.sweep("several expressions", f"list {al}, {es}", qual_mix(al, es))
    some = [None, [("pos", ["a"])], [("pos", None)], [("text", ["a", "c"]), ("pos", ["b"])]]
    for old, al in itertools.permutations(some, 2):
        ck.sweep("list assigned after construction", f"list {al} in place of {old}", qual_late(old, al))
    for al in lists[1:]:
        for w in ("?", "pos"):
            ck.sweep("raising mode", f"list {al}, layer {w}", qual_harness(al, w, "?", True))


def qual_mix(al, pairs):
    """several expressions of one query; layers are not restricted by a list of their own"""
    def h(ip):
        c = T.Cmp(ip)
        ql = [(a, None if b is None else [ident(ip, f"listed {n}") if x == "?" else x for n, x in enumerate(b)])
              for a, b in al]
        v = collecting(ip, allowed_layer_qualifiers=ql)
        ne = nw = 0
        for q, i in pairs:
            e, w = layer_verdict(ip, i, None)
            ne, nw = ne + e, nw + w
            if q is not None:
                ls = next((b for a, b in ql if a == i), None)
                ne += not (ls and member(ip, q, ls))
        es = [expression(ip, q=q, i=i, rx="NOUN") for q, i in pairs]
        for n, e in enumerate(es):
            ip.setattr(e, "location", ip.call(cls(ip, "SourceLocation"), [10 * n, 10 * n + 8]))
        for k in ("ExpressionOr", "ExpressionAnd"):
            count(ip, c, "qualifier", v, ip.call(cls(ip, k), [ip.new(ListV(es))]), ne, nw,
                  f"qualified layers {pairs} in one query with list {show(al)}")
        return c
    return h


def qual_late(old, al):
    """the list is replaced between validations"""
    def h(ip):
        c = T.Cmp(ip)
        v = collecting(ip, allowed_layer_qualifiers=old)
        for l in (al, old, al):
            T.assign(ip, v, "allowed_layer_qualifiers", strs(ip, l))
            for i, q in (("pos", "a"), ("pos", "b"), ("text", "a"), ("lemma", None)):
                ls = next((b for a, b in l or [] if a == i), None)
                want = int(l is not None and q is not None and not (ls and q in ls))
                count(ip, c, "qualifier", v, expression(ip, q=q, i=i, rx="NOUN"), want, 0,
                      f"qualifier {q} of layer {i} with list {l} assigned after construction")
        return c
    return h


def qual_harness(al, w, q, raising=False):
    def h(ip):
        c = T.Cmp(ip)
        iv = ident(ip) if w == "?" else w
        qv = ident(ip, "qualifier") if q == "?" else q
        ql, n = None, [0]

        def unk(x):
            if x == "?":
                n[0] += 1
                return ident(ip, f"listed {n[0]}")
            return x
        if al is not None:
            ql = [(unk(a), None if b is None else [unk(x) for x in b]) for a, b in al]
            names = [a for a, _ in ql]
            for i, a in enumerate(names):        # a list with the same layer twice is ambiguous
                for b in names[:i]:
                    if ip.truth(ip.eq(a, b)):
                        return None
        v = collecting(ip, allowed_layer_identifiers=[iv], allowed_layer_qualifiers=ql, raise_at_first_violation=raising)
        e = expression(ip, q=qv, i=iv, rx="NOUN")
        want = 0
        if ql is not None and qv is not None:
            want = 1
            for a, b in ql:
                if ip.truth(ip.eq(a, iv)):
                    if b and member(ip, qv, b):
                        want = 0
                    break
        what = f"qualifier {show(qv)} of layer {show(iv)} with list {show(al)}"
        if not raising:
            count(ip, c, "qualifier", v, e, want, 0, what)
            return c
        k, r = run_validate(ip, v, e)
        c.n += 1
        if (k == "raise") is not bool(want):
            c.fail("qualifier", f"{what}: {'raises ' + exc_text(r) if k == 'raise' else 'does not raise'} in raising mode",
                   r.site if k == "raise" else None)
        elif want and not is_spec(ip, r):
            c.fail("qualifier", f"{what}: {exc_text(r)} raised instead of the validation error", r.site)
        return c
    return h


# ------------------------------------------------------------------------- P22
def p22(ck):
    ck.rule("For pos (and every other) expressions whose value is any string up to the length bound over the full "
            "alphabet, or a tag or near-tag, with every flag set and with or without qualifier, the number of warnings "
            "on every path is that of the statement; is_likely_a_regex answers true exactly if some character of the "
            "value other than a blank is special in regular expressions.")
    n = 4 if ck.thorough else 3
    for k in range(n + 1):
        ck.sweep("regex-likeness", f"any string of {k} characters", regexy_harness(k))
        if k <= 3:
            ck.sweep("pos values", f"any string of {k} characters", pos_harness(k, None, None, "pos"))
    near = TAGS + [t.lower() for t in TAGS] + [t[:-1] for t in TAGS] + [t + "S" for t in TAGS] + [t + " " for t in TAGS] + [
        "", " ", "NN", "noun phrase", "N.*", "NOUN|VERB", "(NOUN)", "[A-Z]", "NO-UN", "A#", "A&B", "A~", "^A", "A$", "A\\",
        "A\tB", "A\nB", "N_N", "N%", "N,N", "N/N", "N:N", "N;N", "N<N", "N=N", "N>N", "N@N", "N!N", "N\"N", "N'N", "N`N",
        "\u00c4DJ", "\u540d", "NOUNVERB", "AD J", "XX", "x", "X."]
    for t in near:
        for q in (None, "?"):
            ck.sweep("pos tags and near misses", f"{t!r}, qualifier {q}", pos_harness(t, q, None, "pos"))
        ck.sweep("regex-likeness", repr(t), regexy_harness(t))
    fl = ["CASE_INSENSITIVE", "CASE_SENSITIVE", "LITERAL_MATCHING", "IGNORE_DIACRITICS"]
    for r in range(0, 3):
        for fs in itertools.combinations(fl, r):
            for t in ("NN", "NOUN", "N.*", 1):
                for q in (None, "?"):
                    ck.sweep("flags and qualifiers", f"{t!r} flags {fs} qualifier {q}", pos_harness(t, q, fs, "pos"))
    for t in ("NN", "NOUN", 1):
        for i in ("text", "lemma", "orth", "norm", "phonetic", "?"):
            for q in (None, "?"):
                ck.sweep("other layers", f"{t!r} in layer {i} qualifier {q}", pos_harness(t, q, None, i))
    for t in ("NN", "NOUN", "N.*"):
        for wae in (False, True):
            ck.sweep("with custom lists", f"{t!r}, custom lists, {wae}",
                     pos_harness(t, None, None, "pos", {"allowed_layer_identifiers": ["pos"],
                                                        "allowed_layer_qualifiers": [("pos", ["q"])],
                                                        "warnings_as_errors": wae}))


    for rs in (True, False):
        for wae in (False, True):
            for n in range(2):
                ck.sweep("after other issues", f"raising {rs}, warnings as errors {wae}, own layer unknown {n}",
                         pos_after(rs, wae, n))


def pos_after(rs, wae, own):
    """several pos expressions after expressions with other issues, and as the second issue of one expression"""
    def h(ip):
        c = T.Cmp(ip)
        kw = {"raise_at_first_violation": rs, "warnings_as_errors": wae}
        if own:
            kw["allowed_layer_identifiers"] = ["text"]
        v = collecting(ip, **kw)
        es = [expression(ip, i="text" if rs else "foo", rx="a"), expression(ip, i="pos", rx="odd"),
              expression(ip, i="text" if rs else "foo", rx="a"), expression(ip, i="pos", rx="NN"), expression(ip, i="pos", rx="N.*")]
        nw, ne = 2, (3 if own else 0) + (0 if rs else 2)
        node = build(ip, "ExpressionAnd", es)
        if not rs:
            count(ip, c, "pos", v, node, ne, nw, f"two odd pos values among other issues, warnings as errors {wae}")
            return c
        k, r = run_validate(ip, v, node)
        c.n += 1
        if (k == "raise") is not bool(ne or wae):
            c.fail("pos", "odd pos values in raising mode: " + (f"raises {exc_text(r)}" if k == "raise" else "does not raise"),
                   r.site if k == "raise" else None)
        return c
    return h


def chars(ip, k):
    out = []
    for i in range(k):
        t = Term("value char", i, ty="char")
        ip.facts.pool[t] = list(dict.fromkeys(list("aAN.\\ -#_%") + ["\u00e4", "\uff38"] + W.CHARS))
        out.append(t)
    return sstr(out)


def regexy(ip, rx):
    for e in selems(rx):
        if isinstance(e, str):
            if e in SPECIAL:
                return True
        elif any(ip.truth(ip.eq(e, s)) for s in SPECIAL):
            return True
    return False


def regexy_harness(k):
    def h(ip):
        c = T.Cmp(ip)
        rx = chars(ip, k) if isinstance(k, int) else k
        want = regexy(ip, rx)
        ok, v = guarded(c, "regex", "is_likely_a_regex", lambda: ip.call(vget(ip, "is_likely_a_regex"), [rx]))
        if ok:
            c.n += 1
            v = ip.truth(v)
            if v is not want:
                c.fail("regex", f"is_likely_a_regex({show(rx)}) is {v}, expected {want}")
        return c
    return h


def pos_harness(k, q, fs, i, kw=None):
    def h(ip):
        c = T.Cmp(ip)
        rx = chars(ip, k) if isinstance(k, int) else k
        iv = ident(ip) if i == "?" else i
        qv = ident(ip, "qualifier") if q == "?" else q
        a, b = layer_verdict(ip, iv, (kw or {}).get("allowed_layer_identifiers"))
        if not qv and not fs and ip.truth(ip.eq(iv, "pos")) and not regexy(ip, rx) and not member(ip, rx, TAGS):
            b += 1
        v = collecting(ip, **(kw or {}))
        count(ip, c, "pos", v, expression(ip, q=qv, i=iv, rx=rx, flags=fs), a, b,
              f"value {show(rx)} of layer {show(iv)}, qualifier {show(qv)}, flags {fs}")
        return c
    return h


# ------------------------------------------------------------------------- P23
SCRIPTED = '''
from fcsql.validation import Validator, FCSQLValidator

class Scripted(Validator):
    SPECIFICATION_VERSION = "9.9"
    def act(self, node, script):
        for ch in script:
            if ch == "e":
                self.validation_error(node, "error in " + script)
            elif ch == "w":
                self.validation_warning(node, "warning in " + script)
            elif ch == "D":
                raise RecursionError("too deep")
    def visit_Expression(self, node):
        self.act(node, node.regex)
        r = super().visit_Expression(node)
        self.act(node, node.identifier)
        return r

class ByValue(Scripted):
    def visit_Expression(self, node):
        self.act(node, node.regex)

class Everywhere(Validator):
    def __init__(self, kind, level, **kw):
        super().__init__(**kw)
        self.kind, self.level, self.seen = kind, level, []
    def here(self, node):
        self.seen.append(node)
        if self.level == "error":
            self.validation_error(node, "bad " + self.kind)
        else:
            self.validation_warning(node, "odd " + self.kind)
'''


def scripted(ip):
    src = SCRIPTED + "".join(f"    def visit_{k}(self, node):\n        if self.kind == {k!r}:\n            self.here(node)\n"
                             f"        return super().visit_{k}(node)\n" for k in KINDS)
    return ip.add_source("scripted_client", src)


def p23(ck):
    ck.rule("For every sequence of scripted errors and warnings over one to three nodes (before and after a node's "
            "children), both values of both modes and up to three validations on one object, raising, recorded lists "
            "(order, identity, freshness), verdict and is_valid are those of the statement.")
    acts = ["", "e", "w", "we", "ew", "ww", "ee"]
    trees = [[(a, b)] for a in acts for b in ("", "e", "w")]
    small = ["", "e", "w", "we"] if not ck.thorough else acts
    trees += [[(a, ""), (b, "")] for a in small for b in small]
    trees += [[(a, b), ("", c2), (d, "")] for a in ("", "w") for b in ("", "e", "w") for c2 in ("", "w") for d in ("", "e")]
    for rs in (True, False, None):
        for wae in (True, False, None):
            for t in trees:
                ck.sweep("one validation", f"{t} raise {rs} warnings as errors {wae}", mode_harness([t], rs, wae))
                if len(t) > 1:
                    ck.sweep("one validation, nodes with locations", f"{t} raise {rs} warnings as errors {wae}",
                             mode_harness([t], rs, wae, True))
            seqs = [[("e", "")], [("w", "")], [("", "")], [("we", ""), ("e", "w")]]
            for a, b in itertools.product(seqs, repeat=2):
                ck.sweep("two validations", f"{a} then {b} raise {rs} warnings as errors {wae}",
                         mode_harness([a, b], rs, wae))
                if ck.thorough or a != b:
                    ck.sweep("three validations", f"{a}, {b}, {a} raise {rs} warnings as errors {wae}",
                             mode_harness([a, b, a], rs, wae))
            for a, b in itertools.product(seqs, repeat=2):
                ck.sweep("validations of both kinds on one validator", f"is_valid of {a}, then {b}; raise {rs} warnings as errors {wae}",
                         turns_harness(a, b, rs, wae))
            for q in (("foo", "pos", "word"), ("pos", "foo"), ("pos", "word", "pos"), ("foo", "foo", "pos")):
                ck.sweep("shipped validator", f"layers {q} in one query; raise {rs} warnings as errors {wae}",
                         shipped_mix(q, rs, wae))
    modes = list(itertools.product((True, False), repeat=2))
    for first, then in itertools.permutations(modes, 2):
        ck.sweep("mode assigned after construction", f"(raise, warnings as errors) {first}, then {then}",
                 late_mode([[("we", "w")], [("w", ""), ("", "e")], [("", "")]], first, then))
    ck.sweep("new validator", "lists before any validation", new_harness)
    for n in ck.thresholds():
        for a in ("e" * n, "w" * n, "we" * (n // 2 + 1)):
            ck.sweep("as many issues as the constants in the code suggest", f"{n} issues",
                     mode_harness([[(a, "")], [("", "")]], False, None))
    for rs in (True, False, None):
        for wae in (True, False, None):
            for a, b in itertools.product(("text", "word", "foo"), repeat=2):
                ck.sweep("shipped validator", f"layers {a}, {b}; raise {rs} warnings as errors {wae}",
                         shipped_harness((a, b), rs, wae))
                for d in ("text", "word", "foo"):
                    ck.sweep("shipped validator", f"layers {a}, {b}, {d} in one query; raise {rs} warnings as errors {wae}",
                             shipped_mix((a, b, d), rs, wae))


def script_tree(ip, spec, placed=False):
    es = [expression(ip, rx=a, i=b or "-") for a, b in spec]
    for n, e in enumerate(es if placed else ()):
        ip.setattr(e, "location", ip.call(cls(ip, "SourceLocation"), [10 * n, 10 * n + 8]))
    if len(es) == 1:
        return build(ip, "ExpressionGroup", es)
    if len(es) == 2:
        return build(ip, "QuerySequence", [build(ip, "QuerySegment", [e]) for e in es])
    return build(ip, "ExpressionOr", [es[0], build(ip, "ExpressionAnd", es[1:])])


def expected(spec, rs, wae):
    """(raised message | None, errors, warnings)"""
    errs, warns = [], []
    for a, b in spec:
        for s in (a, b):
            for ch in s:
                if ch == "e":
                    if rs:
                        return "error in " + s, errs, warns
                    errs.append("error in " + s)
                elif ch == "w":
                    if rs and wae:
                        return "warning in " + s, errs, warns
                    warns.append("warning in " + s)
    return None, errs, warns


def mode_kw(rs, wae):
    kw = {}
    if rs is not None:
        kw["raise_at_first_violation"] = rs
    if wae is not None:
        kw["warnings_as_errors"] = wae
    return kw


def check_mode(ip, c, v, node, exp, rs, wae, what, kept):
    raised, errs, warns = exp
    k, r = run_validate(ip, v, node)
    c.n += 1
    if (k == "raise") != (raised is not None):
        c.fail("mode", f"{what}: " + (f"raises {exc_text(r)}" if k == "raise" else "does not raise"),
               r.site if k == "raise" else None)
        return False
    if k == "raise":
        if not is_spec(ip, r):
            c.fail("mode", f"{what}: raises {exc_text(r)} instead of the validation error", r.site)
        elif raised is not True:
            c.same("mode", f"{what}: message of the raised error", ip.str(r.inst), raised, r.site)
    else:
        got = issues(ip, c, v, "mode")
        if got is None:
            return False
        for name, l, w in (("errors", got[0], errs), ("warnings", got[1], warns)):
            m = [ip.R(x) for x in msgs(ip, l)]
            c.n += 1
            if isinstance(w, int):
                if len(m) != w:
                    c.fail("mode", f"{what}: {len(m)} {name}, expected {w}")
            elif m != w:
                (c.open if any(has_unk(x) for x in m) else c.bad).append(
                    ("mode", f"{what}: {name} are {m}, expected {w}", None,
                     getattr(l[-1], "made", None) if l else T.attr_site(ip, v, name)))
        c.n += 1
        ne = errs if isinstance(errs, int) else len(errs)
        nw = warns if isinstance(warns, int) else len(warns)
        want = not ne and not (wae and nw)
        rb = ip.R(r)
        if isinstance(rb, Term) and rb.ty == "bool":
            rb = ip.truth(rb)
        if not isinstance(rb, bool):
            (c.open if has_unk(rb) else c.bad).append(("mode", f"{what}: the verdict is {show(rb)}", None, None))
        elif rb is not want:
            c.fail("mode", f"{what}: the verdict is {show(rb)}, expected {want}")
    for n in ("errors", "warnings"):
        l = ip.R(T.attr(ip, v, n))
        if isinstance(l, ListV):
            for lst, snap, what2 in kept:
                c.n += 1
                if [id(x) for x in lst.items] != snap:
                    c.fail("mode", f"{what}: the list of {what2} of an earlier validation was changed")
            kept.append((l, [id(x) for x in l.items], n))
    return True


def mode_harness(specs, rs, wae, placed=False):
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)
        kw = mode_kw(rs, wae)
        r_, w_ = rs is not False, bool(wae)
        v = ip.call(m.ns.vars["Scripted"], [], kw)
        v2 = ip.call(m.ns.vars["Scripted"], [], kw)
        kept = []
        for n, spec in enumerate(specs):
            exp = expected(spec, r_, w_)
            what = f"validation {n + 1} with raise {rs} and warnings as errors {wae}"
            if not check_mode(ip, c, v, script_tree(ip, spec, placed), exp, r_, w_, what, kept):
                return c
            node = script_tree(ip, spec, placed)
            ok, b = guarded(c, "mode", "is_valid", lambda: ip.call(ip.getattr(v2, "is_valid"), [node]))
            if ok:
                want = exp[0] is None and not exp[1] and not (w_ and exp[2])
                bb = ip.R(b)
                c.n += 1
                if isinstance(bb, Term) and bb.ty == "bool":
                    bb = ip.truth(bb)
                if bb is not want:
                    (c.open if has_unk(bb) else c.bad).append(
                        ("mode", f"{what}: is_valid answers {show(bb)}, expected {want}", None, None))
        return c
    return h


def turns_harness(a, b, rs, wae):
    """is_valid answers first, validate is called on the same validator later, and is_valid again"""
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)
        r_, w_ = rs is not False, bool(wae)
        for n in ("Scripted", "shipped"):
            v = ip.call(m.ns.vars[n] if n == "Scripted" else vget(ip, "FCSQLValidator"), [], mode_kw(rs, wae))
            kept = []
            for i, spec in enumerate((a, b, a)):
                if n == "Scripted":
                    node, exp = script_tree(ip, spec), expected(spec, r_, w_)
                else:
                    acts = "".join(x + y for x, y in spec) or "t"
                    node = build(ip, "ExpressionAnd", [expression(ip, i={"e": "foo", "w": "word", "t": "text"}[ch]) for ch in acts])
                    e, w = acts.count("e"), acts.count("w")
                    exp = (True if r_ and (e or w_ and w) else None, e, w)
                what = f"validation {i + 1} of {n} with raise {rs} and warnings as errors {wae}"
                if i != 1:
                    ok, x = guarded(c, "mode", "is_valid", lambda: ip.call(ip.getattr(v, "is_valid"), [node]))
                    if not ok:
                        return c
                    want = exp[0] is None and not exp[1] and not (w_ and exp[2])
                    x = ip.R(x)
                    if isinstance(x, Term) and x.ty == "bool":
                        x = ip.truth(x)
                    c.n += 1
                    if x is not want:
                        (c.open if has_unk(x) else c.bad).append(
                            ("mode", f"{what}: is_valid answers {show(x)}, expected {want}", None, None))
                elif not check_mode(ip, c, v, node, exp, r_, w_, what + ", after is_valid", kept):
                    return c
        return c
    return h


def late_mode(specs, first, then):
    """the mode is changed between validations (or before the first one)"""
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)
        for used in (False, True):
            v = ip.call(m.ns.vars["Scripted"], [], mode_kw(*first))
            kept = []
            for n, (rs, wae) in enumerate(([first] if used else []) + [then, first]):
                if n or not used:
                    T.assign(ip, v, "raise_at_first_violation", rs)
                    T.assign(ip, v, "warnings_as_errors", wae)
                for spec in specs:
                    what = f"raise {rs} and warnings as errors {wae} assigned after construction"
                    if not check_mode(ip, c, v, script_tree(ip, spec), expected(spec, rs, wae), rs, wae, what, kept):
                        return c
        return c
    return h


def new_harness(ip):
    c = T.Cmp(ip)
    m = scripted(ip)
    for how, v in (("FCSQLValidator", ip.call(vget(ip, "FCSQLValidator"), [])), ("subclass", ip.call(m.ns.vars["Scripted"], []))):
        got = issues(ip, c, v, "mode")
        c.n += 1
        if got is not None and (got[0] or got[1]):
            c.fail("mode", f"a new validator ({how}) already lists issues")
    return c


def shipped_harness(layers, rs, wae):
    def h(ip):
        c = T.Cmp(ip)
        v = ip.call(vget(ip, "FCSQLValidator"), [], mode_kw(rs, wae))
        kept = []
        for a in layers:
            e = {"text": 0, "word": 0, "foo": 1}[a]
            w = 1 if a == "word" else 0
            raised = True if rs is not False and (e or wae and w) else None
            if not check_mode(ip, c, v, expression(ip, i=a), (raised, e, w), rs is not False, bool(wae),
                              f"layer {a} with raise {rs} and warnings as errors {wae}", kept):
                return c
        return c
    return h


def shipped_mix(layers, rs, wae):
    def h(ip):
        c = T.Cmp(ip)
        v = ip.call(vget(ip, "FCSQLValidator"), [], mode_kw(rs, wae))
        es = [expression(ip, i=a, **({"rx": "odd"} if a == "pos" else {})) for a in layers]
        for n, e in enumerate(es):
            ip.setattr(e, "location", ip.call(cls(ip, "SourceLocation"), [10 * n, 10 * n + 8]))
        node = ip.call(cls(ip, "QuerySequence"), [ip.new(ListV([build(ip, "QuerySegment", [e]) for e in es]))])
        e, w = layers.count("foo"), layers.count("word") + layers.count("pos")
        raised = True if rs is not False and (e or wae and w) else None
        check_mode(ip, c, v, node, (raised, e, w), rs is not False, bool(wae),
                   f"layers {layers} in one query with raise {rs} and warnings as errors {wae}", [])
        return c
    return h


# ------------------------------------------------------------------------- P24
def p24(ck):
    ck.rule("Every issue recorded or raised for a node of any kind has the node's location (the node itself when raised), "
            "its type, and as fragment the abstract slice of the current query text from the location's start to its "
            "stop; none without location or query. Trees and locations come from the abstract parser with unknown "
            "offsets and from constructed nodes.")
    for k in KINDS:
        for level in ("error", "warning"):
            for rs in (True, False):
                for loc in (True, False):
                    for q in (None, "ctor", "arg", "both", "twice", "later", "emptied", "empty"):
                        ck.sweep("constructed nodes", f"{level} at {k}, raise {rs}, location {loc}, query {q}",
                                 frag_harness(k, level, rs, loc, q))
    for i, span in enumerate(SPANS):
        for k in KINDS[i % 2::2] if not ck.thorough else KINDS:
            for rs in (True, False):
                ck.sweep("locations at the edges of the text", f"{k} at {span}, raise {rs}",
                         frag_harness(k, "error" if i % 2 else "warning", rs, True, "arg" if i % 3 else "ctor", span))
    for i, span in enumerate(SPANS):
        for j, t in enumerate(("\n \r\n\t\x0c\u2028 ", "e\u0301\ufb01\U0001d15e\u00e9\ud800\ufeff\u0130", "{0}%s\\x'\"&amp;")):
            t = (t * len(QTEXT))[:len(QTEXT) - 1] + t[0]
            for rs in (True, False):
                for k in ("Expression", KINDS[(i + j) % len(KINDS)]):
                    ck.sweep("other texts", f"{k} at {span} of {t!r}, raise {rs}",
                             frag_harness(k, "warning" if i % 2 else "error", rs, True, "ctor" if i % 3 else "arg", span, t))
    shapes = [("query", ("simple", ("segment", ("basic", True, "=", S.R)), None), None),
              ("query", ("seq", [S.SI, ("simple", ("segment", ("eand", [S.BASICQ, S.BASIC])), "+")]), "s"),
              ("query", ("group", ("disj", [S.SW, S.SI]), "n"), None),
              ("query", ("simple", ("segment", ("egroup", ("enot", ("eor", [S.BASIC, S.BASICQ])))), "n,m"), "text")]
    for s in shapes:
        for k in KINDS:
            for level in ("error", "warning"):
                ck.sweep("parsed trees", f"{level} at {k} of {s}", parsed_harness(s, k, level))
        for rs in (True, False):
            ck.sweep("parsed trees, shipped validator", f"{s}, raise {rs}", shipped_frag(s, rs))
    for i, ws in enumerate(S.TEXTWS):
        for s in S.TEXTS:
            for k in KINDS:
                ck.sweep("concrete texts", f"{k} of {s}, white space {ws!r}", parsed_harness(s, k, ("error", "warning")[i % 2], ws))
            ck.sweep("concrete texts, shipped validator", f"{s}, white space {ws!r}", shipped_frag(s, i % 2 == 0, ws))
        for s in S.TEXTS + [("query", ("simple", ("segment", ("basic", ("words", True, ("id", "foo")), "=", S.lit("a\nb"))), "+"), "s")]:
            ck.sweep("one-call validation", f"{s}, white space {ws!r}", one_call_frag(s, ws))


def check_issue(ip, c, x, node, level, what, frag):
    c.n += 1
    if not isinstance(x, Inst):
        c.open.append(("issue", f"{what}: entry {show(x)}"))
        return
    ty = ip.R(T.attr(ip, x, "type"))
    if ty != f"validation-{level}":
        (c.open if has_unk(ty) else c.bad).append(
            ("issue", f"{what}: type of the recorded {level} is {show(ty)}", None, x.made))
    same_loc(ip, c, what, T.attr(ip, x, "position"), T.attr(ip, node, "location"), x.made)
    check_frag(ip, c, what, T.attr(ip, x, "fragment"), frag, x.made)


def same_loc(ip, c, what, got, want, site):
    got, want = ip.R(got), ip.R(want)
    c.n += 1
    if got is want:
        return
    if isinstance(got, Inst) and isinstance(want, Inst) and got.cls is want.cls:
        for n in ("start", "stop"):
            c.same("issue", f"{what}: {n} of the position", T.attr(ip, got, n), T.attr(ip, want, n), site)
        return
    (c.open if has_unk(got) else c.bad).append(
        ("issue", f"{what}: position is {show(got)}, expected {show(want)}", None, site))


def check_frag(ip, c, what, got, want, site):
    got = ip.R(got)
    if want == "" and got is None:
        c.n += 1   # an empty query has no text to quote
        return
    if want is None or got is None:
        c.n += 1
        if (want is None) != (got is None):
            (c.open if has_unk(got) else c.bad).append(
                ("issue", f"{what}: fragment is {show(got)}, expected {show(want)}", None, site))
        return
    c.same("issue", f"{what}: fragment", got, want, site)


QTEXT = '[ lemma = "caf\u00e9" ] "two words" /* x */'


# slices that begin or end in white space, punctuation or beyond the end, are empty, or lie before or behind the e acute
SPANS = [(1, 8), (0, 2), (1, 2), (5, 5), (0, 0), (len(QTEXT), len(QTEXT)), (14, 17), (15, 17), (17, 28), (10, 16), (20, 200),
         (60, 70), (0, len(QTEXT)), (len(QTEXT) - 1, len(QTEXT)), (27, 36), (0, 1), (22, 23)]


def frag_harness(k, level, rs, loc, q, span=None, text=None):
    def h(ip):
        c = T.Cmp(ip)
        qtext = QTEXT if text is None else text
        m = scripted(ip)
        node, order = sample(ip, k)
        root = build(ip, "QueryGroup", [node])
        if loc:
            a, b = span or ((2, 7) if k != "Expression" else (0, 3))
            ip.setattr(node, "location", ip.call(cls(ip, "SourceLocation"), [a, b]))
            ip.setattr(root, "location", ip.call(cls(ip, "SourceLocation"), list(span or (0, 12))))
        kw = {"raise_at_first_violation": rs, "warnings_as_errors": rs}
        ctor = {"ctor": qtext, "both": "another query text", "twice": None, "later": qtext, "emptied": qtext,
                "empty": ""}.get(q)
        if ctor is not None:
            kw["query"] = ctor
        v = ip.call(m.ns.vars["Everywhere"], [k, level], kw)
        runs = {"arg": [qtext], "both": [qtext], "twice": [qtext, "the second query text"],
                "later": ["first override here", None], "emptied": ["", qtext, None, ""], "empty": [None, qtext]}.get(q, [None])
        cur = ctor
        for given in runs:
            if given is not None:
                cur = given
            for how in ("validate", "is_valid"):
                del v.attrs["seen"].items[:]
                r, x = run_validate(ip, v, root, how, **({"query": given} if given is not None else {}))
                seen = v.attrs["seen"].items
                what = f"{level} at a {k} node (raise {rs}, query {q})"
                c.n += 1
                if r == "raise":
                    if how == "is_valid" or not rs or not is_spec(ip, x):
                        c.fail("issue", f"{what}: {how} raises {exc_text(x)}", x.site)
                        return c
                    n = seen[-1]
                    frag = None
                    if cur is not None and loc and n is not root and T.attr(ip, n, "location") is not None:
                        l = T.attr(ip, n, "location")
                        frag = cur[ip.R(T.attr(ip, l, "start")):ip.R(T.attr(ip, l, "stop"))]
                    if n is root and cur is not None and loc:
                        frag = cur[slice(*(span or (0, 12)))]
                    same_obj(c, ip, "issue", f"{what}: node of the raised error", T.attr(ip, x.inst, "node"), n, x.site)
                    check_frag(ip, c, what, T.attr(ip, x.inst, "query_fragment"), frag, x.site)
                    continue
                if rs:
                    continue
                got = issues(ip, c, v, "issue")
                if got is None:
                    return c
                l = got[0 if level == "error" else 1]
                c.n += 1
                if len(l) != len(seen):
                    c.fail("issue", f"{what}: {len(l)} issues recorded for {len(seen)} reported")
                    continue
                for x, n in zip(l, seen):
                    lc = T.attr(ip, n, "location")
                    frag = None
                    if cur is not None and lc is not None:
                        frag = cur[ip.R(T.attr(ip, lc, "start")):ip.R(T.attr(ip, lc, "stop"))]
                    check_issue(ip, c, x, n, level, what, frag)
        return c
    return h


def text_between(w, nd):
    """query text from the first to the last token of the parse tree node"""
    first, last = nd.first(), nd.last()
    out, on = [], False
    for i, t in enumerate(w.toks):
        if t is first:
            on = True
        elif on:
            out.append(w.mk.ws[i])
        if on and t.type != "EOF":
            out.append(t.text)
        if t is last:
            break
    return sstr(out)


def flat_x(x):
    yield x
    for k in x.kids:
        yield from flat_x(k)


def flat_n(ip, n):
    yield n
    for k in T.items(ip, T.attr(ip, n, "children")):
        yield from flat_n(ip, k)


def parsed_harness(shape, k, level, ws=None):
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)
        w = World(ip, shape, [], ws=ws)
        kind, tree, p = call_parse(ip, w, kw=["enableSourceLocations"])
        if kind == "raise":
            return None          # P01, P10
        xs, ns = list(flat_x(w.x)), list(flat_n(ip, tree))
        if [x.cls for x in xs] != [kind_of(ip, n) for n in ns]:
            c.open.append(("issue", "the parsed tree is not the expected one (see P06)"))
            return c
        v = ip.call(m.ns.vars["Everywhere"], [k, level], {"raise_at_first_violation": False, "query": w.query})
        r, e = run_validate(ip, v, tree)
        c.n += 1
        if r == "raise":
            c.fail("issue", f"{exc_text(e)} raised in collecting mode", e.site)
            return c
        got = issues(ip, c, v, "issue")
        if got is None:
            return c
        l = got[0 if level == "error" else 1]
        sel = [(x, n) for x, n in zip(xs, ns) if x.cls == k]
        c.n += 1
        if len(l) != len(sel):
            c.fail("issue", f"{len(l)} issues for {len(sel)} {k} nodes")
            return c
        for i, (x, n) in zip(l, sel):
            frag = text_between(w, x.span) if k != "QueryWithWithin" else None
            if frag is None:
                same_loc(ip, c, k, T.attr(ip, i, "position"), T.attr(ip, n, "location"), i.made)
            else:
                check_issue(ip, c, i, n, level, f"{level} at a {k} node of a parsed tree", frag)
        return c
    return h


def shipped_frag(shape, rs, ws=None):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, [], ws=ws)
        kind, tree, p = call_parse(ip, w, kw=["enableSourceLocations"])
        if kind == "raise":
            return None
        xs, ns = list(flat_x(w.x)), list(flat_n(ip, tree))
        if [x.cls for x in xs] != [kind_of(ip, n) for n in ns]:
            c.open.append(("issue", "the parsed tree is not the expected one (see P06)"))
            return c
        v = collecting(ip, query=w.query, allowed_layer_identifiers=["only-this-layer"], raise_at_first_violation=rs)
        sel = [(x, n) for x, n in zip(xs, ns) if x.cls == "Expression"]
        for x, _ in sel:
            if x.fields["identifier"] != "text" and ip.truth(ip.eq(x.fields["identifier"], "only-this-layer")):
                return None
        r, e = run_validate(ip, v, tree)
        c.n += 1
        if rs:
            if r != "raise" or not is_spec(ip, e):
                if sel:
                    c.fail("issue", "no validation error raised in raising mode")
                return c
            x, n = sel[0]
            same_obj(c, ip, "issue", "node of the raised error", T.attr(ip, e.inst, "node"), n, e.site)
            check_frag(ip, c, "raised error", T.attr(ip, e.inst, "query_fragment"), text_between(w, x.span), e.site)
            return c
        if r == "raise":
            c.fail("issue", f"{exc_text(e)} raised in collecting mode", e.site)
            return c
        got = issues(ip, c, v, "issue")
        if got is None:
            return c
        if len(got[0]) != len(sel):
            c.fail("issue", f"{len(got[0])} errors for {len(sel)} expressions of an unknown layer")
            return c
        for i, (x, n) in zip(got[0], sel):
            check_issue(ip, c, i, n, "error", "unknown layer", text_between(w, x.span))
        return c
    return h


def one_call_frag(shape, ws):
    """the issues that fcsql.validate lists for a concrete text"""
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, [], ws=ws)
        k, r = call_validate(ip, w.query, return_errors=True, warnings_as_errors=True)
        if k == "raise" or not isinstance(ip.R(r), ListV):
            c.open.append(("issue", "the one-call validation gives no list (see P25)"))
            return c
        spans = [text_between(w, x.span) for x in flat_x(w.x) if x.cls == "Expression"]
        at = [(x.span.first().start, ladd(x.span.last().stop, 1)) for x in flat_x(w.x) if x.cls == "Expression"]
        for g in ip.R(r).items:
            c.n += 1
            loc, frag = ip.R(T.attr(ip, g, "position")), ip.R(T.attr(ip, g, "fragment"))
            if not isinstance(loc, Inst):
                c.fail("issue", f"an issue of the one-call validation has position {show(loc)}", g.made)
                continue
            a, b = (ip.R(T.attr(ip, loc, n)) for n in ("start", "stop"))
            if (a, b) not in at:
                c.fail("issue", f"an issue of the one-call validation lies at {show(a)}:{show(b)}, where no expression is", g.made)
            else:
                check_frag(ip, c, "issue of the one-call validation", frag, spans[at.index((a, b))], g.made)
        return c
    return h


# ------------------------------------------------------------------------- P25
def p25(ck):
    ck.rule("On the same abstract environment (reported errors, failures inside parsing, builder rejections, trees with "
            "unknown layers, validators that find issues or run out of stack) the boolean and the list form of validate "
            "agree, the list holds the validator's errors (plus warnings if they count), nothing is raised, and an "
            "unknown version gives ValueError on every path where the version equals no registered key.")
    sh = [("query", S.SI, None), ("query", ("simple", ("segment", ("basic", False, "=", S.R)), None), None),
          ("query", ("seq", [S.SI, ("simple", ("segment", ("eand", [("basic", ("words", None, ("id", "word")), "=", S.R),
                                                                    ("basic", ("words", None, ("id", "foo")), "=", S.R)])), "+")]), "s"),
          ("query", ("simple", ("segment", ("basic", ("words", None, ("id", "word")), "=", S.R)), None), None),
          ("query", ("simple", ("segment", ("basic", ("words", None, ("id", "pos")), "=", ("re", ["=NN"], None))), None), None),
          ("query", ("simple", ("segment", ("basic", ("words", True, ("id", "x-y")), "!=", ("re", ["c"], ["?"]))), None), "turn")]
    bad = [("query", ("simple", ("implicit", S.R), "2,1"), None), ("query", ("simple", ("implicit", S.R), "n,m"), None),
           ("query", ("simple", ("implicit", ("re", ["c"], ["i", "I"])), None), None),
           ("query", ("simple", ("implicit", ("re", ["c"], ["l", "d"])), None), None),
           ("query", ("simple", ("implicit", ("re", [("esc", "U")], None)), None), None)]
    for wae in (False, True, None):
        for s in sh:
            for sc in ([[], [("L",)], [("P", 0)], [("L",), ("P", 0)]] if s is not sh[1] or ck.thorough else [[], [("P", 0)]]):
                ck.sweep("agreement", f"{s} with {sc}, warnings as errors {wae}", one_call(s, sc, wae))
        for s in bad:
            ck.sweep("rejection by the builder", f"{s}, warnings as errors {wae}", one_call(s, [], wae))
        for f in ("RecursionError", "ValueError", "KeyError", "antlr4.error.Errors.ParseCancellationException"):
            for pre in ([], [("L",)]):
                ck.sweep("failure while parsing", f"{f} after {pre}, warnings as errors {wae}",
                         one_call(sh[0], pre + [("raise", f)], wae))
        for acts in ("", "e", "w", "ew", "wwe", "D", "eD", "wD"):
            ck.sweep("registered validator", f"{acts!r}, warnings as errors {wae}", registered(acts, wae))
    for s in S.TEXTS:
        for ch, ws in S.junk(ntok(s), ck.marks()):
            ck.sweep("characters that begin no token", f"{ch!r} in {s}, white space {ws!r}", one_call(s, [], False, ws, ch))
        for ws in S.TEXTWS:
            for wae in (False, True):
                ck.sweep("concrete texts", f"{s}, white space {ws!r}, warnings as errors {wae}", one_call(s, [], wae, ws))
    for sc, ws, ch in S.blank(ck.marks()):
        for wae in (False, True):
            ck.sweep("no token at all", f"{sc}, white space {ws!r}, warnings as errors {wae}", one_call(S.BLANK, sc, wae, ws, ch))
    ck.sweep("versions", "unknown version", version_harness)
    for i, f in enumerate(NEAR):
        ck.sweep("versions", f"near a registered version ({i})", near_harness(f))
    ck.sweep("versions", "registry", registry_harness)


def call_validate(ip, q, **kw):
    kw = {k: x for k, x in kw.items() if x is not None}
    try:
        return "return", ip.call(T.get(ip, "fcsql", "validate"), [q], kw)
    except PyExc as e:
        return "raise", e


def both(ip, c, q, **kw):
    """(bool answer, list) of the two forms, or None"""
    out = []
    for re_ in (None, False, True):
        k, r = call_validate(ip, q, return_errors=re_, **kw)
        c.n += 1
        if k == "raise":
            c.fail("one-call", f"validate(return_errors={re_}) raises {exc_text(r)}", r.site)
            return None
        r = ip.R(r)
        if re_:
            if not isinstance(r, ListV):
                (c.open if isinstance(r, Term) else c.bad).append(
                    ("one-call", f"validate(return_errors=True) returns {show(r)}", None, None))
                return None
        else:
            if isinstance(r, Term) and r.ty == "bool":
                r = ip.truth(r)
            if not isinstance(r, bool):
                (c.open if isinstance(r, Term) else c.bad).append(
                    ("one-call", f"validate(return_errors=False) returns {show(r)}", None, None))
                return None
        out.append(r)
    c.n += 1
    if out[0] is not out[1]:
        c.fail("one-call", f"validate answers {out[0]} by default but {out[1]} for return_errors=False")
    c.n += 1
    if out[0] is not (not out[2].items):
        c.fail("one-call", f"validate answers {out[0]} but lists {len(out[2].items)} errors: "
                           f"{[show(m)[:60] for m in msgs(ip, out[2].items)]}")
    return out[0], out[2]


def one_call(shape, script, wae, ws=None, junk=""):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, script, ws=ws, junk=junk)
        got = both(ip, c, w.query, warnings_as_errors=wae)
        if got is None:
            return c
        k_ = 0 if any(ev[0] == "raise" for ev in w.script[:1]) else sum(ev[0] != "raise" for ev in w.script)
        last = w.reported[-k_:] if k_ else []
        k, tree, p = call_parse(ip, w, "parse")
        c.n += 1
        if k == "raise":
            if not got[1].items:
                c.fail("one-call", f"no errors although parsing fails with {exc_text(tree)}")
            for x in got[1].items:
                c.n += 1
                if not isinstance(x, Inst) or T.get(ip, "fcsql.parser", "ErrorDetail") not in ip.mro(x.cls):
                    c.fail("one-call", f"an entry of the list is {show(x)}, not an ErrorDetail")
                    return c
                m = ip.R(T.attr(ip, x, "message"))
                c.n += 1
                if isinstance(m, (Inst, bool, int)) or m is None:
                    c.fail("one-call", f"the message of an entry of the list is {show(m)}, not a text", x.made)
            rest = [akey(ip.R(T.attr(ip, x, "message"))) for x in got[1].items]
            for r in last:
                c.n += 1
                if akey(ip.R(r[1])) in rest:
                    rest.remove(akey(ip.R(r[1])))
                else:
                    c.fail("one-call", f"the diagnostic {show(r[1])} of the parse is not listed")
            return c
        v = collecting(ip, query=w.query, warnings_as_errors=bool(wae))
        r, e = run_validate(ip, v, tree)
        if r == "raise":
            c.open.append(("one-call", f"the validator raises {exc_text(e)} in collecting mode (see P23)"))
            return c
        iss = issues(ip, c, v, "one-call")
        if iss is None:
            return c
        same_issues(ip, c, got[1].items, iss[0], iss[1] if wae else [])
        return c
    return h


def same_issues(ip, c, got, errs, warns):
    want = errs + warns
    c.n += 1
    if len(got) != len(want):
        c.fail("one-call", f"the list has {len(got)} entries {[show(m)[:50] for m in msgs(ip, got)]}, the validator finds "
                           f"{len(want)}")
        return
    # errors first or in another order: compare as multisets of (type, message)
    rest = list(got)
    for wnt in want:
        for g in rest:
            if all(akey(ip.R(T.attr(ip, g, f))) == akey(ip.R(T.attr(ip, wnt, f))) for f in ("type", "message", "fragment")):
                rest.remove(g)
                same_loc(ip, c, "an entry of the list", T.attr(ip, g, "position"), T.attr(ip, wnt, "position"), g.made)
                break
        else:
            c.n += 1
            if has_unk(T.attr(ip, wnt, "message")):
                c.open.append(("one-call", f"message {show(T.attr(ip, wnt, 'message'))}"))
            else:
                c.fail("one-call", f"the validator's issue {show(T.attr(ip, wnt, 'message'))} is not among the entries "
                                   f"{[show(m)[:60] for m in msgs(ip, got)]}")


def registered(acts, wae):
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)
        cv = m.ns.vars["ByValue"]
        tab = vget(ip, "VALIDATORS")
        ip.B.setitem(ip, tab, "9.9", cv)
        w = World(ip, ("query", ("simple", ("implicit", ("re", ["=" + ch for ch in acts], None)), None), None), [],
                  T.default_cfg(ip, unicode_normalization_form="NFC"))
        got = both(ip, c, w.query, warnings_as_errors=wae, version="9.9")
        if got is None:
            return c
        c.n += 1
        if "D" in acts:
            if not got[1].items:
                c.fail("one-call", "no errors although the validator runs out of stack")
            return c
        ne, nw = acts.count("e"), acts.count("w") if wae else 0
        if len(got[1].items) != ne + nw:
            c.fail("one-call", f"the validator registered for the version reports {acts!r} but the list has "
                               f"{len(got[1].items)} entries, expected {ne + nw}")
        return c
    return h


# versions that are not registered though they look much like one that is
NEAR = [lambda k: k + "-x", lambda k: k + ".0", lambda k: " " + k, lambda k: k + " ", lambda k: "v" + k, lambda k: k[:-1],
        lambda k: k + "0", lambda k: k.split(".")[0], lambda k: k.replace(".", ","), lambda k: k + "\n", lambda k: "0" + k,
        lambda k: k + "+1", lambda k: k + "rc1", lambda k: k.replace(".", "_"), lambda k: "FCS-QL " + k, lambda k: "",
        lambda k: "1.0", lambda k: "2.1", lambda k: "2.3", lambda k: "3", lambda k: "latest", lambda k: "default", lambda k: k + k,
        lambda k: k + "/1.0", lambda k: "=" + k, lambda k: k.replace(".", ""), lambda k: ".".join(k.split(".")[::-1]) + ".1",
        lambda k: "\uff12.2", lambda k: "99999.0", lambda k: "None", lambda k: "2.2a", lambda k: "2.2.2", lambda k: "2.02"]


def near_harness(near):
    def h(ip):
        tab = vget(ip, "VALIDATORS")
        keys = [ip.R(k) for k, _ in tab.d.values()] if isinstance(tab, DictV) else None
        if not keys or not isinstance(keys[-1], str):
            raise AnchorError("VALIDATORS is not a dict")
        return version_harness(ip, near(keys[-1]))
    return h


def version_harness(ip, ver=None):
    c = T.Cmp(ip)
    w = World(ip, ("query", S.SI, None), [])
    if ver is None:
        ver = Term("version", ty="str")
        ip.facts.pool[ver] = ["2.2", "1.0", "", "2", "2.20", "2.1", "3.0"]
    tab = vget(ip, "VALIDATORS")
    keys = [ip.R(k) for k, _ in tab.d.values()] if isinstance(tab, DictV) else None
    if keys is None:
        raise AnchorError("VALIDATORS is not a dict")
    known = member(ip, ver, keys)
    for re_ in (False, True):
        k, r = call_validate(ip, w.query, version=ver, return_errors=re_)
        c.n += 1
        if known:
            if k == "raise":
                c.fail("version", f"validate raises {exc_text(r)} for the registered version {show(ver)}", r.site)
        elif k != "raise":
            c.fail("version", f"validate returns {show(r)} for the unknown version {show(ver)}")
        elif ip.exc_class("ValueError") not in ip.mro(r.inst.cls):
            c.fail("version", f"validate raises {exc_text(r)} instead of ValueError for an unknown version", r.site)
    return c


def registry_harness(ip):
    c = T.Cmp(ip)
    tab, d = vget(ip, "VALIDATORS"), ip.R(vget(ip, "DEFAULT_VALIDATOR_SPECIFICATION_VERSION"))
    if not isinstance(tab, DictV):
        raise AnchorError("VALIDATORS is not a dict")
    c.n += 1
    keys = []
    for k, v in tab.d.values():
        k = ip.R(k)
        keys.append(k)
        if isinstance(v, ClassV) and ip.class_lookup(v, "SPECIFICATION_VERSION") is not None:
            same_obj(c, ip, "version", f"SPECIFICATION_VERSION of the validator registered as {k}",
                     T.cget(ip, v, "SPECIFICATION_VERSION"), k)
    if d not in keys:
        c.fail("version", f"the default version {show(d)} is not registered: {keys}")
    w = World(ip, ("query", ("simple", ("segment", ("basic", ("words", None, ("id", "foo")), "=", S.R)), None), None), [])
    a = both(ip, c, w.query)
    b = both(ip, c, w.query, version=d)
    if a and b:
        c.n += 1
        if a[0] is not b[0] or len(a[1].items) != len(b[1].items):
            c.fail("version", "validate without version differs from validate with the default version")
        same_obj(c, ip, "version", "validate of an expression with an unknown layer", a[0], False)
    return c


# ------------------------------------------------------------------------- P26
def tracker(ip):
    def meth(k):
        return (f"    def visit_{k}(self, node):\n"
                f"        self.log.append(({k!r}, node, self.parent_node))\n"
                f"        if self.limit is not None and len(self.log) > self.limit:\n"
                f"            self.validation_error(node, 'abort')\n"
                f"        r = super().visit_{k}(node)\n"
                f"        self.after.append((node, self.parent_node))\n"
                f"        return r\n")
    init = ("    def __init__(self, limit=None, **kw):\n        super().__init__(**kw)\n"
            "        self.limit, self.log, self.after = limit, [], []\n")
    src = "from fcsql.validation import Validator, FCSQLValidator\n"
    src += "class All(Validator):\n" + init + "".join(map(meth, KINDS))
    src += "class AllF(FCSQLValidator):\n" + init + "".join(map(meth, KINDS))
    for k in KINDS:
        src += f"class One{k}(Validator):\n" + init + meth(k)
        src += f"class No{k}(Validator):\n" + init + "".join(meth(x) for x in KINDS if x != k)
        src += f"class OneF{k}(FCSQLValidator):\n" + init + meth(k)
    src += "class Nothing(Validator):\n" + init
    src += "class Query(Validator):\n" + init + "".join(meth(x) for x in KINDS if x.startswith("Query"))
    src += "class Expr(Validator):\n" + init + "".join(meth(x) for x in KINDS if x.startswith("Expr"))
    return ip.add_source("tracking_client", src)


def p26(ck):
    ck.rule("For validators overriding all, none, one, all but one handlers (calling the inherited one, on both base "
            "classes) and trees with every parent/child pair of kinds, the handlers run once per node in preorder with "
            "parent_node equal to the node's parent before and after visiting its children, also after a validation "
            "aborted at any node; with overridden result hooks the inherited handlers return the aggregated result.")
    for lab, mkr in trees_for_visit().items():
        ck.sweep("all handlers overridden", lab, track_harness(mkr, ["All", "AllF"]))
        ck.sweep("after an aborted validation", lab, abort_harness(mkr, ck.thorough))
    for k in KINDS:
        for lab, mkr in trees_for_visit().items():
            if k in lab or lab == "deep":
                ck.sweep("some handlers overridden", f"{k} on {lab}",
                         track_harness(mkr, [f"One{k}", f"No{k}", f"OneF{k}"]))
    for lab, mkr in trees_for_visit().items():
        ck.sweep("some handlers overridden", f"groups of handlers on {lab}",
                 track_harness(mkr, ["Nothing", "Query", "Expr"]))
    for lab, mkr in sized_trees(ck).items():
        ck.sweep("as many children or levels as the constants in the code suggest", lab, track_harness(mkr, ["All", "AllF"]))
    for lab, mkr in trees_for_visit().items():
        ck.sweep("results of inherited handlers", lab, result_harness(mkr))
    for k in NARY:
        for how in CHANGES:
            ck.sweep("tree changed between validations", f"{k}, {how}", change_harness(k, how))
    ck.sweep("no validation running", "parent_node of a new validator", fresh_harness)


RESULT_CLIENT = '''
from fcsql.validation import Validator, FCSQLValidator

class Count(Validator):
    def defaultResult(self):
        return 1
    def aggregateResult(self, a, b):
        return a + b

class CountF(FCSQLValidator):
    def defaultResult(self):
        return 1
    def aggregateResult(self, a, b):
        return a + b
'''


def result_harness(mkr):
    """an inherited handler returns what visiting the children gives"""
    def h(ip):
        c = T.Cmp(ip)
        m = ip.add_source("result_client", RESULT_CLIENT)
        node, order = mkr(ip)
        for x in order:
            for name in ("Count", "CountF"):
                v = ip.call(m.ns.vars[name], [], {"raise_at_first_violation": False})
                ok, r = guarded(c, "track", "visit", lambda: ip.call(ip.getattr(v, "visit"), [x]))
                if ok:
                    w = 1 + sum(1 for y in order if y is not x and below(ip, y, x))
                    same_obj(c, ip, "track", f"result of visiting a {kind_of(ip, x)} node with a counting subclass of "
                                             f"{'Validator' if name == 'Count' else 'FCSQLValidator'}", r, w)
        return c
    return h


def below(ip, y, x):
    while y is not None:
        if y is x:
            return True
        y = T.attr(ip, y, "parent")
    return False


def overridden(name):
    if name in ("All", "AllF"):
        return set(KINDS)
    if name == "Nothing":
        return set()
    if name in ("Query", "Expr"):
        return {k for k in KINDS if k.startswith(name)}
    if name.startswith("OneF"):
        return {name[4:]}
    if name.startswith("One"):
        return {name[3:]}
    return set(KINDS) - {name[2:]}


def check_log(ip, c, v, name, order, what):
    kinds = overridden(name)
    want = [x for x in order if kind_of(ip, x) in kinds]
    log = v.attrs["log"].items
    c.n += 1
    if [id(t.items[1]) for t in log] != [id(x) for x in want] or [t.items[0] for t in log] != [kind_of(ip, x) for x in want]:
        c.fail("track", f"{what}: handlers run for {[t.items[0] for t in log]}, expected {[kind_of(ip, x) for x in want]}")
        return
    for t in log:
        node = t.items[1]
        same_obj(c, ip, "track", f"{what}: parent_node in the handler of a {kind_of(ip, node)} node", t.items[2],
                 T.attr(ip, node, "parent"))
    for t in v.attrs["after"].items:
        node = t.items[0]
        same_obj(c, ip, "track", f"{what}: parent_node after the children of a {kind_of(ip, node)} node", t.items[1],
                 T.attr(ip, node, "parent"))


def track_harness(mkr, names):
    def h(ip):
        c = T.Cmp(ip)
        m = tracker(ip)
        node, order = mkr(ip)
        for name in names:
            v = ip.call(m.ns.vars[name], [], {"raise_at_first_violation": False})
            for n in range(2):
                del v.attrs["log"].items[:], v.attrs["after"].items[:]
                k, r = run_validate(ip, v, node, "validate" if n == 0 else "is_valid")
                c.n += 1
                if k == "raise":
                    c.fail("track", f"validation raises {exc_text(r)} in collecting mode", r.site)
                    return c
                check_log(ip, c, v, name, order, f"validator overriding {name}, validation {n + 1}")
        return c
    return h


def change_harness(k, how):
    """the tree is changed between two validations by one validator"""
    def h(ip):
        c = T.Cmp(ip)
        m = tracker(ip)
        for name in ("All", "AllF", "Expr"):
            node, order = sample(ip, k, 2)
            v = ip.call(m.ns.vars[name], [], {"raise_at_first_violation": False})
            for now in (False, True):
                if now:
                    order = rearrange(ip, node, order, how)
                del v.attrs["log"].items[:], v.attrs["after"].items[:]
                run_validate(ip, v, node)
                check_log(ip, c, v, name, order, f"validator overriding {name}" + (f" after a child was {how}" if now else ""))
        return c
    return h


def abort_harness(mkr, thorough):
    def h(ip):
        c = T.Cmp(ip)
        m = tracker(ip)
        node, order = mkr(ip)
        other, oorder = sample(ip, "QuerySequence", 2)
        lims = range(len(order)) if len(order) < 8 or thorough else (0, 3, len(order) - 1)
        for name in ("All", "AllF"):
            for lim in lims:
                v = ip.call(m.ns.vars[name], [], {"limit": lim, "raise_at_first_violation": True})
                k, r = run_validate(ip, v, node)
                c.n += 1
                if k != "raise":
                    if len(v.attrs["log"].items) > lim:
                        c.fail("track", "an error in raising mode did not end the validation")
                    continue
                v.attrs["limit"] = None
                ip.setattr(v, "raise_at_first_violation", False)
                for nd, od in ((other, oorder), (node, order)):
                    del v.attrs["log"].items[:], v.attrs["after"].items[:]
                    k, r = run_validate(ip, v, nd)
                    if k == "raise":
                        c.fail("track", f"validation after an aborted one raises {exc_text(r)}", r.site)
                        break
                    check_log(ip, c, v, name, od, f"validation after one aborted at node {lim + 1}")
        return c
    return h


def fresh_harness(ip):
    c = T.Cmp(ip)
    m = tracker(ip)
    for name in ("All", "Nothing"):
        v = ip.call(m.ns.vars[name], [])
        same_obj(c, ip, "track", "parent_node of a new validator", T.attr(ip, v, "parent_node"), None)
    return c
