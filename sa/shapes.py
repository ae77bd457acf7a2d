"""Small-scope families of query shapes (see trees.py for the notation)."""
import itertools

R = ("re", ["c"], None)
RF = ("re", ["c"], ["i"])
BASIC = ("basic", False, "=", R)
BASICQ = ("basic", True, "!=", R)
SW = ("simple", ("segment", None), None)
SB = ("simple", ("segment", BASIC), None)
SI = ("simple", ("implicit", R), None)


def exprs(depth):
    """expressions of nesting depth <= depth, each as (kind, shape)"""
    cur = [("basic", BASIC)]
    allx = list(cur)
    reps = {"basic": BASIC}
    for d in range(depth):
        new = []
        for k, x in cur:
            new.append(("egroup", ("egroup", x)))
            new.append(("enot", ("enot", x)))
            if k != "eor":
                for ops in variants(x, BASIC):
                    new.append(("eor", ("eor", ops)))
            for ops in variants(x, BASIC):
                if k == "eand" or k == "eor" and ops[0] is x:
                    continue
                new.append(("eand", ("eand", ops)))
        allx += new
        for k, x in new:
            reps.setdefault(k, x)
        cur = new
    for a, b in itertools.product(reps.items(), repeat=2):
        if a[0] != "eor" and b[0] != "eor":
            allx.append(("eor", ("eor", [a[1], b[1]])))
        if a[0] not in ("eor", "eand") and b[0] != "eand":
            allx.append(("eand", ("eand", [a[1], b[1]])))
    return dedup(allx)


def variants(x, leaf):
    """operand lists of length 2..3 with x at each position"""
    out = []
    for n in (2, 3):
        for i in range(n):
            out.append([x if j == i else leaf for j in range(n)])
    return out


def dedup(l):
    seen, out = set(), []
    for k, x in l:
        r = repr(x)
        if r not in seen:
            seen.add(r)
            out.append((k, x))
    return out


def mains(depth, quants=(None,)):
    """queries of nesting depth <= depth (main part)"""
    simple = [("simple", SW), ("simple", SI), ("simple", SB), ("simple", ("simple", ("implicit", R), "*"))]
    seqs = [("seq", ("seq", [x])) for _, x in simple[:2]] + [
        ("seq", ("seq", list(p))) for p in itertools.product([SW, SI], repeat=2)] + [("seq", ("seq", [SI, SB, SW])),
                                                                                   ("seq", ("seq", [SI, SB, SW, SI]))]
    disj = [("disj", ("disj", list(p))) for p in itertools.product([SW, SI], repeat=2)] + [
        ("disj", ("disj", [SI, SB, SW]))]
    cur = seqs + disj
    allx = list(simple) + cur
    grp_rep = None
    for d in range(depth):
        new = []
        for k, x in cur:
            for q in quants:
                g = ("group", x, q)
                new.append(("group", g))
                grp_rep = grp_rep or g
            if k == "seq" and len(x[1]) > 1:
                for ops in variants(x, SI):
                    new.append(("disj", ("disj", ops)))
            if k == "group":
                for ops in variants(x, SI):
                    new.append(("seq", ("seq", ops)))
                    new.append(("disj", ("disj", ops)))
        allx += new
        cur = new
    seq2 = ("seq", [SI, SW])
    for a, b in itertools.product([SI, grp_rep, seq2], repeat=2):
        if a and b:
            allx.append(("disj", ("disj", [a, b])))
            if a[0] != "seq" and b[0] != "seq":
                allx.append(("seq", ("seq", [a, b])))
    return dedup(allx)


def chains(n):
    """every nesting of n kinds, one inside the other"""
    for ks in itertools.product(("egroup", "enot", "eor", "eand"), repeat=n):
        if any(a == b and a in ("eor", "eand") for a, b in zip(ks, ks[1:])):
            continue
        x = BASIC
        for k in reversed(ks):
            x = (k, x) if k in ("egroup", "enot") else (k, [BASICQ, x])
        yield ("query", ("simple", ("segment", x), None), None)
    for ks in itertools.product(("seq", "disj", None), repeat=n):
        x = SI
        for i, k in enumerate(reversed(ks)):
            x = ("group", (k, [SW, x]) if k == "disj" or k and i % 2 else (k, [x, SW]) if k else x
                 if x[0] != "simple" and x[0] != "group" else ("seq", [x]), None)
        yield ("query", x, None)


def structural(tier):
    d_e, d_m = (2, 2) if tier != "thorough" else (3, 3)
    out = []
    for _, e in exprs(d_e):
        out.append(("query", ("simple", ("segment", e), None), None))
    for _, m in mains(d_m, (None, "+") if tier == "thorough" else (None,)):
        out.append(("query", m, None))
    out += list(chains(3)) if tier != "thorough" else list(chains(3)) + list(chains(4))
    es = [x for _, x in exprs(1)]
    ms = [x for _, x in mains(1)]
    for i, m in enumerate(ms):
        out.append(("query", m, ("sentence", "s", "u", "text", "p", "t")[i % 6]))
    for e in es:
        out.append(("query", ("seq", [SI, ("group", ("disj", [("simple", ("segment", e), "?"), SW]), "*")]), "turn"))
    return out


def empties():
    """the empty value in every place a value can be in"""
    r, f = ("re", [], None), ("re", [], ["i"], "'")
    b, g = ("basic", False, "=", r), ("basic", True, "!=", f)
    for e in (b, g, ("enot", b), ("egroup", g), ("eand", [b, g]), ("eor", [BASIC, b, g]), ("egroup", ("enot", b)),
              ("eor", [("egroup", b), ("enot", g)]), ("eand", [g, ("egroup", ("eor", [b, b]))])):
        for q in (None, "?"):
            yield ("query", ("simple", ("segment", e), q), None)
    i, j = ("simple", ("implicit", r), None), ("simple", ("implicit", f), "+")
    s = ("simple", ("segment", b), None)
    for m in (i, j, ("seq", [i, s]), ("seq", [s, SI, j]), ("disj", [i, s, j]), ("group", ("seq", [i]), "*"),
              ("group", ("disj", [s, ("seq", [j, i])]), None)):
        for w in (None, "s"):
            yield ("query", m, w)


def sized(n, deep=60):
    """queries with n operands or of nesting depth n"""
    q = lambda m, w=None: ("query", m, w)
    yield q(("seq", [SI] * n))
    yield q(("disj", [SI] * n), "s")
    yield q(("simple", ("segment", ("eor", [BASIC] * n)), None))
    yield q(("simple", ("segment", ("eand", [BASIC] * n)), None))
    if n <= deep:
        e, g, x = BASIC, SI, BASIC
        for _ in range(n):
            e, g = ("egroup", e), ("group", ("seq", [g]), None)
            x = ("enot", x)
        yield q(("simple", ("segment", e), None))
        yield q(("simple", ("segment", x), None))
        yield q(g)


QUANTS = ["*", "+", "?", "n", "n,", ",n", "n,m", "0", "1", "0,", "1,", ",0", ",1", "0,0", "1,1", "0,1", "2,2",
          "0,n", "n,0", "1,n", "n,1", "2,1", "1,0", "3,n", "00", "01,1", "10,9", "32768,2147483648", "9007199254740993",
          "12345678901234567890123,12345678901234567890124", "1000000,"]


def quants():
    for q in [None] + QUANTS:
        yield ("query", ("simple", ("implicit", R), q), None)
        yield ("query", ("simple", ("segment", None), q), None)
        yield ("query", ("group", ("seq", [SI]), q), None)
    for a, b in (("n", None), (None, "n,"), ("*", "?"), ("n,m", "+"), (",n", "n")):
        yield ("query", ("seq", [("simple", ("implicit", R), a), ("simple", ("segment", BASIC), b)]), "s")
        yield ("query", ("group", ("seq", [("simple", ("implicit", R), a)]), b), None)


ESCS = ["n", "t", "\\", "'", '"'] + list(".^$*+?(){}[]|") + ["x", "u", "U"]


def passages(q, marks):
    """texts within a value that programs are tempted to rewrite, and those of the code's own constants"""
    ts = ["\r\n", "\r", "\n", "a\r\nb\r\n", "  ", "\t", "\u2028", "\x00", "\x85", "\u00a0", "\ufeff", "\u00ad", "\u200b", "%s", "%%", "{}",
          "{0}", "{{", "$1", "&amp;", "&#65;", "%20", "<EOF>", "/i", ".*", "..", "--", "//", "''" if q == '"' else '""', "\ud800", "ABC", "\u0130",
          "\u00df", "\u017f", "0", "None", "\x1b[0m", "\u201c", "\u2019", "\uff07"]
    return ts + [m + m for m in marks if m != q]


def values(tier):
    """bodies of quoted strings"""
    for q in "\"'":
        other = "'" if q == '"' else '"'
        yield q, []
        yield q, ["c"]
        yield q, ["c", "c"]
        yield q, ["c", "c", "c"]
        yield q, ["s"]
        yield q, ["=" + other]
        yield q, ["=" + other, "c", "=" + other]
        yield q, ["c", "=" + other]
        for e in ESCS:
            yield q, [("esc", e)]
            yield q, ["c", ("esc", e)]
            yield q, [("esc", e), "c"]
            yield q, ["c", ("esc", e), "c"]
        for a in ESCS:
            for b in ESCS:
                if tier == "thorough" or q == '"' and (a == b or a in "xuUn\\.\"" and b in "xuUt\\.'"):
                    yield q, [("esc", a), ("esc", b)]
        for tail in ("=x", "=u0041", "=n", "=0", "=U"):
            yield q, [("esc", "\\"), tail]
        yield q, [("esc", "x"), "=4"]
        yield q, [("esc", "u"), "=41"]
        yield q, ["c", ("esc", "x"), "c", ("esc", "n"), "c"]
        if tier == "thorough":
            for t in itertools.product(["n", "\\", ".", "x", q], repeat=3):
                yield q, [("esc", x) for x in t]
            for t in itertools.product(["c", ("esc", "u"), ("esc", "|"), ("esc", "\\")], repeat=4):
                yield q, list(t)
    for h in ("00", "41", "7F", "80", "aB", "ff", "FF", "5c", "22", "27"):
        yield '"', ["c", ("esc", "x", h), "c"]
    for h in ("0000", "0041", "00e9", "20AC", "ffff", "FFFD", "0301", "005C"):
        yield '"', [("esc", "u", h), "c"]
    for h in ("00000041", "0001F600", "0010FFFF", "00110000", "7FFFFFFF", "80000000", "FFFFFFFF", "0010ffff",
              "000000e9", "01000000"):
        yield '"', [("esc", "U", h)]
        yield "'", ["c", ("esc", "U", h), "c"]


SCOPE_WORDS = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]


def lit(b):
    return ("re", ["=" + b], None)


# queries whose text is known to the last character, with every kind of line separator between and inside the tokens
TEXTS = [("query", ("seq", [("simple", ("implicit", lit("a\nb\u2028c")), None), ("simple", ("implicit", lit("\r\n\x0c\u00e9\U0001d15e")), "+")]),
          "s"),
         ("query", ("simple", ("segment", ("eand", [("basic", ("words", None, ("id", "word")), "=", lit("\x85\n\n")),
                                                    ("basic", ("words", ("id", "x-y"), ("id", "lemma")), "!=", lit("\x1c\x0b"))])), None), None)]
TEXTWS = [[" "], ["\n"], ["\r\n", ""], ["\n\n  ", "\x0c", "\t"], ["\u2028", "\n", " "], ["", "\r", "\x85"]]


BLANK = ("query", None, None)


def blank(marks=()):
    """-> (script, white space, junk) of queries without any token"""
    for ws in (None, [""], [" "], ["\n"], ["\t\r\n "], ["\u2028"]):
        yield [("P", 0)], ws, ""
    yield [("L",), ("P", 0)], None, ""
    for ch in sorted(set(JUNK) | set(marks)):
        for ws in ([ch], [" " + ch], [ch + "\n"], [ch + ch]):
            yield [("P", 0)], ws, ch


# characters that begin no token: at the start, between tokens and at the end of a query
JUNK = "\x1c\ufeff\x00\u200b#;\uff02\u00e9\x1a"


def junk(k, marks=()):
    """-> (junk character, white space strings before the k tokens of a concrete text)"""
    for c in dict.fromkeys(JUNK + "".join(marks)):
        yield c, [c] + [" "] * (k - 1)
        yield c, ["", c + " "] + [" "] * (k - 2)
        yield c, [" "] * (k - 1) + [c]
        yield c, ["\n"] + [c + " " + c] * (k - 1)
