"""Grammar analyses: ANTLR grammar files, serialised ATNs and token tables are
read as data and turned into automata.

A `Net` is an ordered transition network: per rule a start and a stop state,
per state an ordered list of (label, target).  Labels: None (epsilon),
("t", frozenset of token types) for parsers, ("c", intervals) for lexers,
("r", rule name), ("a", action).
"""
import re

from .engine import AnchorError

MAXCP = 0x10FFFF
EOF = -1


class Net:
    def __init__(self, kind):
        self.kind = kind             # "lexer" | "parser"
        self.edges = {}              # state -> [(label, target)]
        self.rules = []              # names in order
        self.start, self.stop = {}, {}
        self.toktype = {}            # lexer rule -> token type (0: fragment)
        self.decisions = []          # decision number -> state
        self.rule_of = {}
        self.nongreedy = set()
        self.tokens = []             # names of the rules that are tokens, in priority order
        self.skip = set()            # rules with exactly a skip action
        self.actions = {}            # lexer rule -> list of actions other than skip
        self.types = {}              # state -> ATN state type
        self.notes = []

    def add(self, s, label, t):
        self.edges.setdefault(s, []).append((label, t))
        self.edges.setdefault(t, [])


# ------------------------------------------------------------------ .g4 files
TOKEN = re.compile(r"""
    (?P<ws>\s+) | (?P<com>/\*.*?\*/ | //[^\n]*) | (?P<str>'(?:\\.|[^'\\\n])*') | (?P<set>\[(?:\\.|[^\]\\])*\])
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*) | (?P<op>->|\.\.|::|[:;|()?*+~.,{}=#@<>])
""", re.X | re.S)


def tokenize(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise AnchorError(f"grammar file: cannot read {text[i:i + 20]!r}")
        if m.lastgroup not in ("ws", "com"):
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


ESC = {"n": 10, "t": 9, "r": 13, "b": 8, "f": 12}


def chars_of(s):
    """code points of a literal's inner text"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out.append((ord(c), False))
            i += 1
            continue
        e = s[i + 1]
        if e == "u":
            if s[i + 2] == "{":
                j = s.index("}", i)
                out.append((int(s[i + 3:j], 16), True))
                i = j + 1
            else:
                out.append((int(s[i + 2:i + 6], 16), True))
                i += 6
        elif e in "pP":
            raise AnchorError("grammar file: Unicode property class")
        else:
            out.append((ESC.get(e, ord(e)), True))
            i += 2
    return out


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def complement(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def charset(s):
    cs, iv, i = chars_of(s), [], 0
    while i < len(cs):
        if i + 2 < len(cs) and cs[i + 1] == (ord("-"), False):
            iv.append((cs[i][0], cs[i + 2][0]))
            i += 3
        else:
            iv.append((cs[i][0], cs[i][0]))
            i += 1
    return norm(iv)


class G4:
    """an ANTLR 4 grammar file (the part of the notation FCS-QL grammars use)"""

    def __init__(self, text):
        self.toks = tokenize(text)
        self.i = 0
        self.rules = {}             # name -> (fragment?, expr, commands)
        self.kind = None
        self.options = {}
        self.parse()

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ("end", "")

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise AnchorError(f"grammar file: expected {v!r}, found {t[1]!r}")

    def parse(self):
        k = self.next()[1]
        if k in ("lexer", "parser"):
            self.kind = k
            self.expect("grammar")
        elif k == "grammar":
            self.kind = "combined"
        else:
            raise AnchorError("grammar file: no grammar declaration")
        self.name = self.next()[1]
        self.expect(";")
        while self.peek()[0] != "end":
            t = self.next()
            if t[1] == "options":
                self.expect("{")
                while self.peek()[1] != "}":
                    n = self.next()[1]
                    self.expect("=")
                    self.options[n] = self.next()[1]
                    self.expect(";")
                self.next()
                continue
            frag = t[1] == "fragment"
            if frag:
                t = self.next()
            if t[0] != "id":
                raise AnchorError(f"grammar file: unexpected {t[1]!r}")
            self.expect(":")
            e, cmds = self.alts(top=True)
            self.expect(";")
            if t[1] in self.rules:
                raise AnchorError(f"grammar file: rule {t[1]} defined twice")
            self.rules[t[1]] = (frag, e, cmds)

    def alts(self, top=False):
        out, cmds = [], []
        while True:
            seq = []
            while self.peek()[1] not in ("|", ")", ";") or self.peek()[0] in ("str", "set"):
                if self.peek()[1] == "->":
                    self.next()
                    cmds.append(self.next()[1])
                    while self.peek()[1] == ",":
                        self.next()
                        cmds.append(self.next()[1])
                    continue
                if self.peek()[1] == "#":
                    self.i += 2
                    continue
                if self.peek()[0] == "end":
                    raise AnchorError("grammar file: unexpected end")
                seq.append(self.element())
            out.append(("seq", seq))
            if self.peek()[1] == "|" and self.peek()[0] == "op":
                self.next()
                continue
            break
        e = out[0] if len(out) == 1 else ("alt", out)
        return (e, cmds)

    def element(self):
        e = self.atom()
        while self.peek()[0] == "op" and self.peek()[1] in ("?", "*", "+"):
            op = self.next()[1]
            greedy = True
            if self.peek() == ("op", "?"):
                self.next()
                greedy = False
            e = ({"?": "opt", "*": "star", "+": "plus"}[op], e, greedy)
        return e

    def atom(self):
        k, v = self.next()
        if k == "op" and v == "~":
            x = self.sets(self.atom())
            return ("chars", complement(x)) if self.kind == "lexer" else ("nottok", x)
        if k == "op" and v == "(":
            e, cmds = self.alts()
            if cmds:
                raise AnchorError("grammar file: command in a block")
            self.expect(")")
            return e
        if k == "op" and v == ".":
            return ("chars", ((0, MAXCP),)) if self.kind == "lexer" else ("anytok",)
        if k == "set":
            if self.kind != "lexer":
                raise AnchorError("grammar file: character set in a parser rule")
            return ("chars", charset(v[1:-1]))
        if k == "str":
            cs = [c for c, _ in chars_of(v[1:-1])]
            if self.peek() == ("op", ".."):
                self.next()
                hi = [c for c, _ in chars_of(self.next()[1][1:-1])]
                return ("chars", ((cs[0], hi[0]),))
            if self.kind == "lexer":
                return ("seq", [("chars", ((c, c),)) for c in cs]) if len(cs) != 1 else ("chars", ((cs[0], cs[0]),))
            return ("lit", v)
        if k == "id":
            if self.peek() == ("op", "=") and self.kind != "lexer":
                self.next()
                return self.atom()
            return ("ref", v)
        raise AnchorError(f"grammar file: unexpected {v!r}")

    def sets(self, e):
        """the character (or token) set denoted by the operand of ~"""
        if e[0] == "chars":
            return e[1]
        if e[0] == "seq" and len(e[1]) == 1:
            return self.sets(e[1][0])
        if e[0] == "alt":
            out = []
            for x in e[1]:
                out += list(self.sets(x))
            return norm(out) if self.kind == "lexer" else tuple(out)
        if e[0] in ("ref", "lit") and self.kind != "lexer":
            return (e,)
        raise AnchorError("grammar file: ~ of something that is not a set")


def net_of_g4(g, toktypes=None):
    """ordered network of a grammar file; toktypes: name and 'literal' -> type (parser grammars)"""
    net = Net(g.kind)
    net.rules = list(g.rules)
    n = [0]

    def new():
        n[0] += 1
        net.edges.setdefault(n[0], [])
        return n[0]

    def ty(e):
        if e[1] == "EOF":
            return EOF
        if e[1] not in toktypes:
            raise AnchorError(f"grammar file: unknown token {e[1]}")
        return toktypes[e[1]]

    def build(e, a, b):
        k = e[0]
        if k == "seq":
            cur = a
            for i, x in enumerate(e[1]):
                nx = b if i == len(e[1]) - 1 else new()
                build(x, cur, nx)
                cur = nx
            if not e[1]:
                net.add(a, None, b)
        elif k == "alt":
            for x in e[1]:
                s = new()
                net.add(a, None, s)
                build(x, s, b)
        elif k == "opt":
            s = new()
            order = [(None, s), (None, b)]
            for l, t in (order if e[2] else order[::-1]):
                net.add(a, l, t)
            build(e[1], s, b)
        elif k in ("star", "plus"):
            entry, s, back = new(), new(), new()
            build(e[1], s, back)
            net.add(a, None, s if k == "plus" else entry)
            order = [(None, s), (None, b)]
            for l, t in (order if e[2] else order[::-1]):
                net.add(entry, l, t)
            net.add(back, None, entry)
            if not e[2]:
                net.nongreedy.add(entry)
        elif k == "chars":
            net.add(a, ("c", norm(e[1])), b)
        elif k == "ref" or k == "lit":
            if k == "ref" and e[1] in g.rules:
                net.add(a, ("r", e[1]), b)
            elif g.kind == "lexer":
                raise AnchorError(f"grammar file: unknown rule {e[1]}")
            else:
                net.add(a, ("t", frozenset([ty(e)])), b)
        elif k in ("nottok", "anytok"):
            allt = set(toktypes.values())
            net.add(a, ("t", frozenset(allt - ({ty(x) for x in e[1]} if k == "nottok" else set()))), b)
        else:
            raise AnchorError(f"grammar file: {k}")

    typ = 0
    for name, (frag, e, cmds) in g.rules.items():
        a, b = new(), new()
        net.start[name], net.stop[name] = a, b
        build(e, a, b)
        if g.kind == "lexer":
            if frag:
                net.toktype[name] = 0
            else:
                typ += 1
                net.toktype[name] = typ
                net.tokens.append(name)
                if cmds == ["skip"]:
                    net.skip.add(name)
                elif cmds:
                    net.actions[name] = cmds
    return net


def literals_of(g):
    """rule name -> literal text for lexer rules that are one literal"""
    out = {}
    for name, (frag, e, cmds) in g.rules.items():
        if frag:
            continue
        while e[0] == "seq" and len(e[1]) == 1:
            e = e[1][0]
        cs = e[1] if e[0] == "seq" else [e]
        if all(x[0] == "chars" and len(x[1]) == 1 and x[1][0][0] == x[1][0][1] for x in cs):
            out[name] = "".join(chr(x[1][0][0]) for x in cs)
    return out


# ------------------------------------------------------------------------- ATN
BASIC, RULE_START, BLOCK_START, PLUS_BLOCK_START, STAR_BLOCK_START, TOKEN_START, RULE_STOP, BLOCK_END, \
    STAR_LOOP_BACK, STAR_LOOP_ENTRY, PLUS_LOOP_BACK, LOOP_END = range(1, 13)


class BadATN(Exception):
    """the serialised table cannot be deserialised: loading the module would fail"""


def net_of_atn(data, rule_names):
    """deserialise version 4 data exactly as antlr4.atn.ATNDeserializer does"""
    it = iter(data)

    def rd():
        try:
            v = next(it)
        except StopIteration:
            raise BadATN("table ends early")
        if not isinstance(v, int) or isinstance(v, bool):
            raise BadATN(f"entry {v!r} is not a number")
        return v
    if rd() != 4:
        raise BadATN("version is not 4")
    gt = rd()
    net = Net("lexer" if gt == 0 else "parser")
    net.maxtype = rd()
    ns = rd()
    types, rule = {}, {}
    for i in range(ns):
        t = rd()
        if t == 0:
            continue
        if not 0 <= t <= 12:
            raise BadATN(f"state type {t}")
        types[i] = t
        rule[i] = rd()
        if t == LOOP_END or t in (BLOCK_START, PLUS_BLOCK_START, STAR_BLOCK_START):
            rd()
        net.edges[i] = []
    net.types = types
    for _ in range(rd()):
        net.nongreedy.add(rd())
    nprec = rd()
    for _ in range(nprec):
        rd()
    if nprec:
        raise AnchorError("precedence rules in the ATN are not modelled")
    nr = rd()
    if nr != len(rule_names):
        raise AnchorError(f"{nr} rules in the ATN, {len(rule_names)} rule names")
    net.rules = list(rule_names)
    for name in rule_names:
        net.start[name] = rd()
        if net.kind == "lexer":
            net.toktype[name] = rd()
    for s, t in types.items():
        if t == RULE_STOP:
            net.stop[rule_names[rule[s]]] = s
        net.rule_of[s] = rule_names[rule[s]] if 0 <= rule[s] < len(rule_names) else None
    nm = rd()
    modes = [rd() for _ in range(nm)]
    sets = []
    for _ in range(rd()):
        k, eof = rd(), rd()
        iv = [(rd(), rd()) for _ in range(k)]
        sets.append((norm(iv), bool(eof)))

    def label(iv, eof):
        if net.kind == "lexer":
            return ("c", norm(iv))
        s = {v for a, b in iv for v in range(a, b + 1)}
        if eof:
            s.add(EOF)
        return ("t", frozenset(s))
    for _ in range(rd()):
        src, trg, tt, a1, a2, a3 = (rd() for _ in range(6))
        if src not in net.edges or trg not in net.edges:
            raise BadATN("edge between states that do not exist")
        if tt == 1:
            net.add(src, None, trg)
        elif tt == 2:
            net.add(src, label([(a1, a2)] if not a3 else [(-1, a2)], False) if net.kind == "lexer" or not a3
                    else ("t", frozenset(range(-1, a2 + 1))), trg)
        elif tt == 3:
            if a1 not in types or types[a1] != RULE_START:
                raise BadATN("rule transition to a state that starts no rule")
            net.add(src, ("r", rule_names[rule[a1]]), trg)
            if not 0 <= a2 < len(rule_names) or rule_names[a2] != rule_names[rule[a1]]:
                net.notes.append(f"rule transition at state {src}: rule index {a2} does not match its target")
        elif tt == 5:
            net.add(src, label([], True) if a3 else label([(a1, a1)], False), trg)
            if a3 and net.kind == "lexer":
                raise AnchorError("end of input inside a lexer rule")
        elif tt == 6:
            net.add(src, ("a", (a1, a2)), trg)
        elif tt == 7:
            net.add(src, label(*sets[a1]), trg)
        elif tt == 8:
            if net.kind == "lexer":
                net.add(src, ("c", complement(sets[a1][0])), trg)
            else:
                s = label(*sets[a1])[1]
                net.add(src, ("t", frozenset(range(1, net.maxtype + 1)) - s), trg)
        elif tt == 9:
            net.add(src, ("c", ((0, MAXCP),)) if net.kind == "lexer" else
                    ("t", frozenset(range(1, net.maxtype + 1))), trg)
        else:
            raise AnchorError(f"ATN transition type {tt} is not modelled")
    for _ in range(rd()):
        net.decisions.append(rd())
    for d in net.decisions:
        if d not in net.edges:
            raise BadATN("decision at a state that does not exist")
    if net.kind == "lexer":
        acts = [(rd(), rd(), rd()) for _ in range(rd())]
        if len(modes) != 1:
            raise AnchorError("lexer modes are not modelled")
        # tokens start state: epsilon edges to the rules in order
        for l, t in net.edges[modes[0]]:
            if l is None and types[t] == RULE_START:
                net.tokens.append(net.rule_of[t])
        for s, es in net.edges.items():
            for l, t in es:
                if l and l[0] == "a":
                    idx = l[1][1]
                    if not 0 <= idx < len(acts):
                        raise BadATN(f"lexer action {idx} does not exist")
                    nm_ = net.rule_of[s]
                    if acts[idx][0] == 6:
                        net.skip.add(nm_)
                    else:
                        net.actions.setdefault(nm_, []).append(acts[idx])
    try:
        next(it)
        net.notes.append("trailing data after the ATN")
    except StopIteration:
        pass
    for r in rule_names:
        if r not in net.stop or types.get(net.start[r]) != RULE_START:
            raise BadATN(f"rule {r} has no start or stop state")
    verify(net, types)
    return net


def verify(net, types):
    """ATNDeserializer.verifyATN: what it rejects makes the import fail"""
    dec = set(net.decisions)
    for s, es in net.edges.items():
        eps = all(l is None or l[0] == "a" for l, _ in es)
        if not eps and len(es) > 1:
            raise BadATN(f"state {s} mixes transitions")
        if types[s] in (BLOCK_START, PLUS_BLOCK_START, STAR_BLOCK_START, STAR_LOOP_ENTRY, PLUS_LOOP_BACK, TOKEN_START):
            if len(es) > 1 and s not in dec:
                raise BadATN(f"decision state {s} without decision")
        elif len(es) > 1 and types[s] != RULE_STOP:
            raise BadATN(f"state {s} has several transitions")


# ------------------------------------------------------------- parser automata
def closure(net, states):
    seen, todo = set(states), list(states)
    while todo:
        s = todo.pop()
        for l, t in net.edges[s]:
            if (l is None or l[0] == "a") and t not in seen:
                seen.add(t)
                todo.append(t)
    return frozenset(seen)


def moves(net, S):
    """label -> set of targets from a closed state set; token sets are split"""
    out = {}
    for s in S:
        for l, t in net.edges[s]:
            if l is None or l[0] == "a":
                continue
            if l[0] == "t":
                for x in l[1]:
                    out.setdefault(("t", x), set()).add(t)
            else:
                out.setdefault(l, set()).add(t)
    return out


def compare_rule(a, ra, b, rb):
    """None, or (word of labels, which accepts it): shortest difference of two rules' languages"""
    A, B = closure(a, [a.start[ra]]), closure(b, [b.start[rb]])
    seen, todo = {(A, B)}, [((), A, B)]
    while todo:
        w, A, B = todo.pop(0)
        fa, fb = a.stop[ra] in A, b.stop[rb] in B
        if fa != fb:
            return w, ("first" if fa else "second")
        ma, mb = moves(a, A), moves(b, B)
        for l in sorted(set(ma) | set(mb), key=repr):
            A2 = closure(a, ma.get(l, ()))
            B2 = closure(b, mb.get(l, ()))
            if (A2, B2) not in seen:
                seen.add((A2, B2))
                todo.append((w + (l,), A2, B2))
    return None


def productive(net):
    """rule -> shortest token sentence (None if there is none)"""
    best = {r: None for r in net.rules}
    changed = True
    while changed:
        changed = False
        for r in net.rules:
            w = shortest(net, net.start[r], net.stop[r], best)
            if w is not None and (best[r] is None or len(w) < len(best[r])):
                best[r] = w
                changed = True
    return best


def shortest(net, src, dst, best):
    import heapq
    dist, q, n = {src: ()}, [(0, 0, src, ())], 0
    done = set()
    while q:
        d, _, s, w = heapq.heappop(q)
        if s in done:
            continue
        done.add(s)
        if s == dst:
            return w
        for l, t in net.edges[s]:
            if l is None or l[0] == "a":
                x = ()
            elif l[0] == "t":
                if not l[1]:
                    continue
                x = (min(l[1]),)
            else:
                x = best.get(l[1])
                if x is None:
                    continue
            if t not in done:
                n += 1
                heapq.heappush(q, (len(w) + len(x), n, t, w + x))
    return None


def first_sets(net):
    """(FIRST per rule, nullable rules)"""
    first, null = {r: set() for r in net.rules}, set()
    changed = True
    while changed:
        changed = False
        for r in net.rules:
            f, n = first_from(net, [net.start[r]], net.stop[r], first, null)
            if not f <= first[r] or (n and r not in null):
                first[r] |= f
                if n:
                    null.add(r)
                changed = True
    return first, null


def first_from(net, states, stop, first, null):
    out, seen, todo = set(), set(states), list(states)
    while todo:
        s = todo.pop()
        for l, t in net.edges[s]:
            if l is None or l[0] == "a":
                go = True
            elif l[0] == "t":
                out |= l[1]
                go = False
            else:
                out |= first[l[1]]
                go = l[1] in null
            if go and t not in seen:
                seen.add(t)
                todo.append(t)
    return out, stop in seen


def follow_sets(net, start_rule):
    first, null = first_sets(net)
    fol = {r: set() for r in net.rules}
    fol[start_rule].add(EOF)
    changed = True
    while changed:
        changed = False
        for s, es in net.edges.items():
            for l, t in es:
                if l and l[0] == "r":
                    owner = next((r for r in net.rules if t in reach(net, r)), None)
                    f, n = first_from(net, [t], net.stop[owner], first, null) if owner else (set(), False)
                    add = f | (fol[owner] if n else set())
                    if not add <= fol[l[1]]:
                        fol[l[1]] |= add
                        changed = True
    return fol


_reach = {}


def reach(net, r):
    k = (id(net), r)
    if k not in _reach or _reach[k][0] is not net:
        seen, todo = {net.start[r]}, [net.start[r]]
        while todo:
            for _, t in net.edges[todo.pop()]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        _reach[k] = (net, seen)
    return _reach[k][1]


def repeats(net, r):
    """label -> True if some word of the rule contains it twice"""
    out = {}
    # 2-counting product
    start = (closure(net, [net.start[r]]))
    labels = set()
    seen, todo = {start}, [start]
    while todo:
        S = todo.pop()
        for l, T in moves(net, S).items():
            labels.add(l)
            T = closure(net, T)
            if T not in seen:
                seen.add(T)
                todo.append(T)
    for l in labels:
        st = (start, 0)
        seen, todo = {st}, [st]
        out[l] = False
        while todo:
            S, k = todo.pop()
            for m, T in moves(net, S).items():
                k2 = k + (m == l)
                if k2 == 2:
                    out[l] = True
                    break
                T = closure(net, T)
                if (T, k2) not in seen:
                    seen.add((T, k2))
                    todo.append((T, k2))
            if out[l]:
                break
    return out


# ------------------------------------------------- ordered derivation (ALL(*))
class Derive:
    """the parse ANTLR chooses: at every decision the lowest-numbered alternative
    with which the whole input can be parsed"""

    def __init__(self, net):
        self.net = net
        self.stops = set(net.stop.values())

    def parse(self, rule, toks):
        """tree (rule, [children]) with tokens as ints, or None"""
        self.toks = tuple(toks)
        self.memo = {}
        start = self.net.start[rule]
        n = len(self.toks)
        if n not in self.ends(start, 0):
            return None
        kids, _ = self.first(start, 0, frozenset([n]))
        return (rule, kids)

    def ends(self, s, pos):
        """positions at which a path from state s at pos can reach the end of the rule"""
        k = (s, pos)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.memo[k] = frozenset()          # a cycle without progress adds nothing
        if s in self.stops:
            out = {pos}
        else:
            out = set()
            for l, t in self.net.edges[s]:
                if l is None or l[0] == "a":
                    out |= self.ends(t, pos)
                elif l[0] == "t":
                    if pos < len(self.toks) and self.toks[pos] in l[1]:
                        out |= self.ends(t, pos + 1)
                else:
                    for j in self.ends(self.net.start[l[1]], pos):
                        out |= self.ends(t, j)
        self.memo[k] = frozenset(out)
        return self.memo[k]

    def first(self, s, pos, E):
        """children and end of the first derivation from s that ends in E"""
        kids = []
        seen = set()
        while s not in self.stops:
            if (s, pos) in seen:
                raise AnchorError("cycle without progress in a rule")
            seen.add((s, pos))
            for l, t in self.net.edges[s]:
                if l is None or l[0] == "a":
                    if self.ends(t, pos) & E:
                        s = t
                        break
                elif l[0] == "t":
                    if pos < len(self.toks) and self.toks[pos] in l[1] and self.ends(t, pos + 1) & E:
                        kids.append(self.toks[pos])
                        s, pos = t, pos + 1
                        break
                else:
                    E2 = frozenset(j for j in self.ends(self.net.start[l[1]], pos) if self.ends(t, j) & E)
                    if E2:
                        sub, j = self.first(self.net.start[l[1]], pos, E2)
                        kids.append((l[1], sub))
                        s, pos = t, j
                        break
            else:
                raise AnchorError("derivation search lost its way")
        return kids, pos


# --------------------------------------------------------------------- lexing
class LexDFA:
    """the automaton LexerATNSimulator runs: ordered configurations, longest
    match, first rule wins; with its treatment of non-greedy loops"""

    def __init__(self, net, classes=None):
        self.net = net
        cuts = {0, MAXCP + 1}
        for es in net.edges.values():
            for l, _ in es:
                if l and l[0] == "c":
                    for a, b in l[1]:
                        cuts.add(a)
                        cuts.add(b + 1)
        self.cuts = cuts
        self.cache = {}

    def start(self):
        out = []
        for i, r in enumerate(self.net.tokens):
            self.close(self.net.start[r], i, (), False, False, out)
        return tuple(out)

    def close(self, s, alt, stack, ng, reached, out):
        """antlr4.atn.LexerATNSimulator.closure"""
        net = self.net
        if s in self.stops():
            if not stack:
                c = (s, alt, stack, ng)
                if c not in out:
                    out.append(c)
                return True
            return self.close(stack[-1], alt, stack[:-1], ng, reached, out)
        es = net.edges[s]
        if any(l and l[0] in "ct" for l, _ in es):
            if not reached or not ng:
                c = (s, alt, stack, ng)
                if c not in out:
                    out.append(c)
        for l, t in es:
            if l is None or l[0] == "a":
                if len(stack) > 60:
                    raise AnchorError("recursive lexer rule")
                k = (t, alt, stack, "eps")
                if k in self.busy:
                    continue
                self.busy.add(k)
                try:
                    reached = self.close(t, alt, stack, ng or t in net.nongreedy, reached, out)
                finally:
                    self.busy.discard(k)
            elif l[0] == "r":
                reached = self.close(net.start[l[1]], alt, stack + (t,), ng, reached, out)
        return reached

    busy = set()

    def stops(self):
        if not hasattr(self, "_stops"):
            self._stops = set(self.net.stop.values())
        return self._stops

    def step(self, cfgs, cp):
        k = (cfgs, cp)
        r = self.cache.get(k)
        if r is not None:
            return r
        out, skip = [], None
        for s, alt, stack, ng in cfgs:
            reached = alt == skip
            if reached and ng:
                continue
            for l, t in self.net.edges[s]:
                if l and l[0] == "c" and any(a <= cp <= b for a, b in l[1]):
                    if self.close(t, alt, stack, ng or t in self.net.nongreedy, reached, out):
                        skip = alt
                        break
        r = tuple(out)
        self.cache[k] = r
        return r

    def accept(self, cfgs):
        st = self.stops()
        for s, alt, stack, ng in cfgs:
            if s in st:
                return self.net.tokens[alt]
        return None


def reps(*dfas, extra=()):
    """one representative per class of characters no automaton distinguishes"""
    cuts = sorted(set().union(*[d.cuts for d in dfas], extra, {0}))
    return [c for c in cuts if c <= MAXCP]


def compare_lexers(a, b, limit=20000):
    """list of (word, token of a, token of b) of shortest words on which they differ"""
    A, B = LexDFA(a), LexDFA(b)
    R = reps(A, B)

    def tok(net, d, S):
        r = d.accept(S)
        if r is None:
            return None
        return (net.toktype[r], r in net.skip, tuple(map(str, net.actions.get(r, ()))))
    s = (A.start(), B.start())
    seen, todo, n = {s}, [("", s)], 0
    diffs = []
    labels_seen = set()
    while todo:
        w, (x, y) = todo.pop(0)
        n += 1
        if n > limit:
            raise AnchorError("lexer comparison limit reached")
        ta, tb = tok(a, A, x), tok(b, B, y)
        if ta != tb:
            if (ta, tb) not in labels_seen:
                labels_seen.add((ta, tb))
                diffs.append((w, ta, tb))
            if len(diffs) > 6:
                return diffs, n
        for c in R:
            p = (A.step(x, c), B.step(y, c))
            if p not in seen and (p[0] or p[1]):
                seen.add(p)
                todo.append((w + chr(c), p))
    return diffs, n


# ---------------------------------------------------------------- shipped tables
def read_tokens(text):
    out = {}
    for l in text.splitlines():
        l = l.strip()
        if l:
            k, _, v = l.rpartition("=")
            out[k] = int(v)
    return out


def read_interp(text):
    sec, out = None, {}
    for l in text.splitlines():
        if l.endswith(":") and not l.startswith("'") and l[:-1] in (
                "token literal names", "token symbolic names", "rule names", "channel names", "mode names", "atn"):
            sec = l[:-1]
            out[sec] = []
        elif sec == "atn":
            if l.strip():
                out[sec] = [int(x) for x in l.strip().strip("[]").split(",")]
        elif sec and l != "":
            out[sec].append(None if l == "null" else l)
    return out
