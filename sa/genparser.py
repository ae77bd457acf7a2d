"""Joint walk of a generated rule method and the rule's automaton.

The method is interpreted abstractly, path by path; every token looked at is
chosen from all token types.  Alongside runs the set of automaton states the
rule can be in.  At every step the code must do what the automaton allows:
match a token it expects, call a rule it expects, decide alternatives of the
decision it is at, leave the rule only where it may end, and treat as an error
exactly what the automaton does not accept."""
import copy

from . import grammar as g
from . import trees as T
from .engine import PyExc
from .env import RULES, raise_ext
from .ext import METHODS
from .values import *

P = "fcsql.FCSParser.FCSParser"
PR = "antlr4.Parser.Parser"


class Cut(Exception):
    pass


class Mismatch(Exception):
    def __init__(self, text, site):
        self.text, self.site = text, site
        super().__init__(text)


class Tables:
    """the networks and derived sets of one parser automaton"""

    def __init__(self, net, names):
        self.net, self.names = net, names
        self.first, self.null = g.first_sets(net)
        self.follow = g.follow_sets(net, "query")
        self.types = sorted(t for t in names if t > 0) + [g.EOF]

    def tn(self, t):
        return "EOF" if t == g.EOF else self.names.get(t, str(t))


class Sim:
    def __init__(self, ip, tb, rule, seen):
        self.ip, self.tb, self.rule, self.seen = ip, tb, rule, seen
        self.net = tb.net
        self.stop = self.net.stop[rule]
        self.A = g.closure(self.net, [self.net.start[rule]])
        self.la = None
        self.error = None           # why the input is wrong from here on
        self.entered, self.exited = [], 0
        self.reported = self.recovered = 0
        self.word = []
        self.localctx = None
        self.p = None
        self.state0 = Term("invoking state", ty="int")
        self.ctx0 = None

    # ---------------------------------------------------------------- helpers
    def bad(self, text):
        raise Mismatch(f"rule {self.rule}, after {' '.join(self.word) or 'its start'}: {text}", self.ip.site())

    def viable(self, A=None):
        A = self.A if A is None else A
        f, end = g.first_from(self.net, A, self.stop, self.tb.first, self.tb.null)
        return (f | self.tb.follow[self.rule]) if end else f

    def inner(self):
        f, _ = g.first_from(self.net, self.A, self.stop, self.tb.first, self.tb.null)
        return f

    def mark(self):
        """prune a path that arrives where another path has been"""
        ip = self.ip
        if ip.pos < len(ip.prefix):
            return
        loc = []
        for f in ip.frames:
            env = f[3] if len(f) > 3 else None
            if env is not None:
                loc.append((f[1], f[2], tuple(sorted((k, v) for k, v in env.vars.items()
                                                     if isinstance(v, (int, str)) or v is None))))
        at = {k: v for k, v in self.p.attrs.items() if isinstance(v, int)}
        key = (tuple(loc), self.A, self.la, self.error, tuple(sorted(at.items())))
        if key in self.seen:
            raise Cut()
        self.seen.add(key)

    def look(self):
        if self.la is None:
            ts = self.tb.types
            self.la = ts[self.ip.choose(len(ts), "next token")]
            self.mark()
        return self.la

    def state(self):
        return self.ip.R(self.ip.getattr(self.p, "state"))

    def fail(self, why):
        """the code treats the next token as an error"""
        v = self.viable()
        if self.la is None:
            if v:
                self.bad(f"{why}, although {self.names(v)} may follow")
        elif self.la in v:
            self.bad(f"{self.tb.tn(self.la)} {why}, although the grammar accepts it here")
        self.error = why

    def names(self, ts):
        return ", ".join(sorted(self.tb.tn(t) for t in ts))

    def throw(self, cls="InputMismatchException"):
        raise_ext(self.ip, "antlr4.error.Errors." + cls)

    def step(self, label, text):
        t = g.moves(self.net, self.A).get(label)
        if not t:
            return False
        self.A = g.closure(self.net, t)
        self.word.append(text)
        self.la = None
        return True

    # ------------------------------------------------------------------ events
    def match(self, t):
        if not isinstance(t, int):
            raise Undecided("match of an unknown token type")
        if self.error:
            self.throw()
        term = {l[1] for l in g.moves(self.net, self.A) if l[0] == "t"}
        if self.la is not None:
            if self.la != t:
                self.fail(f"is rejected ({self.tb.tn(t)} is demanded)")
                self.throw()
            if t not in term:
                self.bad(f"the code accepts {self.tb.tn(t)}, the grammar does not")
        else:
            if t not in term:
                self.bad(f"the code accepts {self.tb.tn(t)}, the grammar does not")
            other = self.viable() - {t}
            if other:
                self.bad(f"the code demands {self.tb.tn(t)}, the grammar also accepts {self.names(other)}")
        if t in self.ruledriven():
            self.bad(f"{self.tb.tn(t)} is consumed directly, although a rule may start with it")
        self.step(("t", t), self.tb.tn(t))
        self.mark()

    def ruledriven(self):
        out = set()
        for l in g.moves(self.net, self.A):
            if l[0] == "r":
                out |= self.tb.first[l[1]]
        return out

    def consume(self):
        if self.error:
            return
        la = self.look()
        if ("t", la) not in g.moves(self.net, self.A):
            self.bad(f"the code accepts {self.tb.tn(la)}, the grammar does not")
        self.step(("t", la), self.tb.tn(la))
        self.mark()

    def sync(self):
        if self.error:
            return
        n = self.state()
        if not isinstance(n, int) or n not in self.net.edges:
            self.bad(f"synchronises in state {n}, which does not exist")
        f, end = g.first_from(self.net, [n], self.net.stop.get(self.net.rule_of.get(n), self.stop), self.tb.first,
                              self.tb.null)
        if end:
            return
        v = self.viable()
        lost = (v if self.la is None else v & {self.la}) - f
        if lost:
            self.bad(f"synchronising in state {n} rejects {self.names(lost)}, which the grammar accepts here")
        if self.la is not None and self.la not in f:
            self.fail("is rejected by sync")
            self.throw()

    def predict(self, d, ctx):
        if self.error:
            self.throw("NoViableAltException")
        if not isinstance(d, int) or not 0 <= d < len(self.net.decisions):
            self.bad(f"decision {d} does not exist")
        if ctx is not self.localctx:
            self.bad(f"decision {d} is predicted in a context that is not that of the rule")
        s = self.net.decisions[d]
        before = self.upto(s)
        if before is None:
            self.bad(f"decision {d} (state {s}) is not where the rule is")
        if before:
            self.bad(f"decision {d} (state {s}) leaves out {before}")
        alts = [g.closure(self.net, [t]) for _, t in self.net.edges[s]]
        ok = [i for i, A in enumerate(alts) if (self.la in self.viable(A) if self.la is not None else self.viable(A))]
        c = self.ip.choose(len(ok) + 1, f"alternative of decision {d}")
        if c == len(ok):
            if self.la is not None and self.la in self.viable():
                raise Cut()
            self.error = "no viable alternative"
            self.throw("NoViableAltException")
        self.A = alts[ok[c]]
        self.word.append(f"<{d}:{ok[c] + 1}>")
        self.predicted = True
        self.mark()
        return ok[c] + 1

    def upto(self, s):
        """what the current states allow without passing s: None if s is not among them"""
        seen, todo = set(), [x for x in self.core()]
        hit = False
        other = []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == s:
                hit = True
                continue
            if x == self.stop:
                other.append("the end of the rule")
            for l, t in self.net.edges[x]:
                if l is None or l[0] == "a":
                    todo.append(t)
                else:
                    other.append(self.tb.tn(min(l[1])) if l[0] == "t" else l[1])
        return ", ".join(sorted(set(other))) if hit else None

    def core(self):
        """states of A that no other state of A leads to by epsilon"""
        tgt = set()
        for s in self.A:
            for l, t in self.net.edges[s]:
                if (l is None or l[0] == "a") and t in self.A and t != s:
                    tgt.add(t)
        return (self.A - tgt) or self.A

    def call(self, r):
        if self.error:
            self.throw()
        mv = g.moves(self.net, self.A)
        if self.la is not None and self.la not in self.tb.first[r]:
            self.fail(f"is rejected (by rule {r})")
            self.throw()
        if ("r", r) not in mv:
            self.bad(f"the code calls rule {r}, which the grammar does not allow here")
        need = self.viable() if self.la is None else {self.la}
        lost = need - self.tb.first[r]
        if lost:
            self.bad(f"the code calls rule {r}, the grammar also accepts {self.names(lost)}")
        for l in mv:
            if l == ("r", r):
                continue
            f = {l[1]} if l[0] == "t" else self.tb.first[l[1]]
            x = f & need
            if x:
                self.bad(f"on {self.names(x)} the code calls rule {r} without predicting, "
                         f"although {l[1] if l[0] == 'r' else 'a token'} may follow as well")
        n = self.state()
        es = self.net.edges.get(n) if isinstance(n, int) else None
        if not es or es[0][0] != ("r", r):
            self.bad(f"rule {r} is called in state {n}, which does not call it: predictions inside are wrong")
        if n not in self.A:
            self.bad(f"rule {r} is called in state {n}, where the rule is not: predictions inside are wrong")
        self.A = g.closure(self.net, [es[0][1]])
        self.la = None
        self.word.append(r)
        self.mark()
        c = T.cget(self.ip, T.get(self.ip, "fcsql.FCSParser", "FCSParser"), r[0].upper() + r[1:] + "Context")
        return self.ip.new(Inst(c, {"invokingState": n}))

    def finish(self, ret):
        ip = self.ip
        if len(self.entered) != 1:
            self.bad(f"enterRule is called {len(self.entered)} times")
        if self.exited != 1:
            self.bad(f"exitRule is called {self.exited} times")
        if ret is not self.localctx:
            self.bad("the method does not return its parse-tree node")
        if self.error:
            if not self.reported:
                self.bad(f"a wrong token ({self.error}) is not reported")
            return
        if self.reported or self.recovered:
            self.bad("an error is reported for correct input")
        if self.stop not in self.A:
            self.bad(f"the code ends the rule, the grammar demands {self.names(self.inner())}")
        more = self.inner()
        if self.la is not None:
            if self.la in more and self.la not in self.tb.follow[self.rule]:
                self.bad(f"the code ends the rule before {self.tb.tn(self.la)}, which belongs to it")
            if self.la in more and not self.only_exit():
                self.bad(f"the code ends the rule before {self.tb.tn(self.la)} without predicting")
        elif more:
            self.bad(f"the code ends the rule, although {self.names(more)} may follow")

    def only_exit(self):
        return not self.inner()


def sim(ip):
    s = ip.env.get("sim")
    if s is None:
        raise Undecided("generated parser code outside the walk")
    return s


# ------------------------------------------------------------ runtime stand-ins
def _la(ip, self, i=1):
    s = sim(ip)
    if i != 1:
        raise Undecided("lookahead beyond the next token")
    return s.look()


def _lt(ip, self, i=1):
    s = sim(ip)
    if i == -1:
        return ip.new(Inst(ExtC("sa.Token"), {}))
    if i != 1:
        raise Undecided("lookahead beyond the next token")
    return ip.new(Inst(ExtC("sa.Token"), {"type": s.look()}))


def _recover_inline(ip, self, rec=None):
    s = sim(ip)
    if not s.error:
        s.look()
        s.fail("is rejected")
    s.throw()


def _report_error(ip, self, rec=None, e=None):
    s = sim(ip)
    if not s.error:
        s.fail("is rejected")
    s.reported += 1


def _recover(ip, self, rec=None, e=None):
    sim(ip).recovered += 1


METHODS[("sa.Stream", "LA")] = _la
METHODS[("sa.Stream", "LT")] = _lt
METHODS[("sa.Stream", "consume")] = lambda ip, self: sim(ip).consume()
METHODS[("sa.Stream", "index")] = lambda ip, self: ip.fresh("token index", ty="nat")
METHODS[("sa.Handler", "sync")] = lambda ip, self, rec=None: sim(ip).sync()
METHODS[("sa.Handler", "reportMatch")] = lambda ip, self, rec=None: None
METHODS[("sa.Handler", "reset")] = lambda ip, self, rec=None: None
METHODS[("sa.Handler", "inErrorRecoveryMode")] = lambda ip, self, rec=None: False
METHODS[("sa.Handler", "recoverInline")] = _recover_inline
METHODS[("sa.Handler", "reportError")] = _report_error
METHODS[("sa.Handler", "recover")] = _recover
METHODS[("sa.Interp", "adaptivePredict")] = lambda ip, self, inp, d, ctx=None: sim(ip).predict(ip.R(d), ctx)


def install(ip, rule):
    hk = ip.hooks

    def match(ip_, f, a, k):
        sim(ip_).match(ip_.R(a[1] if len(a) > 1 else k.get("ttype")))
        return ip_.new(Inst(ExtC("sa.TerminalNode"), {}))

    def enter(ip_, f, a, k):
        s = sim(ip_)
        a = a[1:] + [k[x] for x in ("localctx", "state", "ruleIndex") if x in k]
        s.entered.append(a)
        s.localctx = a[0]
        ip_.setattr(s.p, "state", a[1])
        ip_.setattr(s.p, "_ctx", a[0])

    def exit_(ip_, f, a, k):
        s = sim(ip_)
        s.exited += 1
        ip_.setattr(s.p, "_ctx", s.ctx0)
        ip_.setattr(s.p, "state", s.state0)

    def outer(ip_, f, a, k):
        s = sim(ip_)
        if len(a) > 1 and a[1] is not s.localctx:
            ip_.setattr(s.p, "_ctx", a[1])

    hk[PR + ".match"] = match
    hk[PR + ".enterRule"] = enter
    hk[PR + ".exitRule"] = exit_
    hk[PR + ".enterOuterAlt"] = outer
    hk[PR + ".consume"] = lambda ip_, f, a, k: sim(ip_).consume()
    hk[PR + ".getCurrentToken"] = lambda ip_, f, a, k: ip_.new(Inst(ExtC("sa.Token"), {}))
    for r in RULES:
        hk[f"{P}.{r}"] = lambda ip_, f, a, k, r=r: sim(ip_).call(r)


def uninstall(ip):
    for k in list(ip.hooks):
        if k.startswith(P + ".") or k.startswith(PR + "."):
            del ip.hooks[k]


def walk(tb, rule, seen):
    """harness: one path through the method of `rule`"""
    def harness(ip):
        cmp = T.Cmp(ip)
        cmp.n = 1
        s = Sim(ip, tb, rule, seen)
        ip.env["sim"] = s
        cls = T.get(ip, "fcsql.FCSParser", "FCSParser")
        ctxc = T.cget(ip, cls, rule[0].upper() + rule[1:] + "Context")
        s.ctx0 = ip.new(Inst(ExtC("antlr4.ParserRuleContext.ParserRuleContext"), {}))
        s.p = ip.new(Inst(cls, {
            "_errHandler": ip.new(Inst(ExtC("sa.Handler"), {})), "_input": ip.new(Inst(ExtC("sa.Stream"), {})),
            "_interp": ip.new(Inst(ExtC("sa.Interp"), {})), "_ctx": s.ctx0, "_stateNumber": s.state0,
            "_listeners": ip.new(ListV([])), "_parseListeners": None, "buildParseTrees": True, "_tracer": None,
            "_syntaxErrors": 0, "matchedEOF": False, "_predicates": None}))
        m = ip.class_find(cls, rule)
        if m is None:
            raise Undecided(f"no method for rule {rule}")
        try:
            try:
                f = copy.copy(m[1])         # the walked method itself; inner calls of the rule are stepped over
                f.qual = m[1].qual + " (walked)"
                ret = ip.call(f, [s.p])
                ip.covered.add(m[1].qual)
            except PyExc as e:
                s.bad(f"{e.inst.cls.name if hasattr(e.inst.cls, 'name') else e.inst.cls} escapes the method")
            s.finish(ret)
            lc = s.localctx
            if not (isinstance(lc, Inst) and isinstance(lc.cls, ClassV)):
                raise Undecided("the parse-tree node is not understood")
            if lc.cls is not ctxc and ctxc not in ip.mro(lc.cls):
                s.bad(f"builds a {lc.cls.name} node")
            if lc.attrs.get("parentCtx") is not s.ctx0:
                s.bad("the node's parent is not the calling rule's node")
            if lc.attrs.get("invokingState") is not s.state0:
                s.bad("the node's invoking state is not the caller's: predictions inside are wrong")
            idx = ip.R(ip.call(ip.getattr(lc, "getRuleIndex"), []))
            if isinstance(idx, int) and idx != tb.net.rules.index(rule):
                s.bad(f"the node's rule index is {idx}")
            given = ip.R(s.entered[0][2]) if len(s.entered[0]) > 2 else None
            if isinstance(given, int) and given != tb.net.rules.index(rule):
                s.bad(f"entering is announced with rule index {given}")
        except Cut:
            return None
        except Mismatch as e:
            cmp.bad.append(("code", e.text, {"tokens_and_rules_so_far": s.word,
                                             "next_token": None if s.la is None else tb.tn(s.la)}, e.site))
        return cmp
    return harness
