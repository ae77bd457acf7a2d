"""Path- and context-sensitive abstract interpreter for the Python subset used
by the analysed package (and realistic rewrites of it).

The program is only ever parsed (ast); nothing of it is imported or executed.
Values are abstract (values.py).  Where an operation depends on something
unknown the interpreter asks `choose`, and Explorer enumerates all choice
sequences, so a harness gets the complete (disjunctive) set of abstract
outcomes of a function for an abstract input.
"""
import ast
import glob
import os
import sys

from .facts import Facts, Infeasible, INF
from .values import *

sys.setrecursionlimit(200000)

MAX_STEPS = 400000
MAX_DEPTH = 400


class AnchorError(Exception):
    """a public construct the analysis is anchored at does not exist any more"""


class PyExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, inst, site=None):
        self.inst, self.site = inst, site


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    __slots__ = ("vars", "parent", "mod", "fn", "glob", "nonl", "locals", "cls", "yields", "first", "made")

    def __init__(self, mod, parent=None, fn=None):
        self.vars, self.parent, self.mod, self.fn = {}, parent, mod, fn
        self.glob, self.nonl, self.locals, self.cls = (), (), (), None
        self.yields = None
        self.first = self.made = None


def assigned_names(node):
    """(locals, globals, nonlocals, is_generator) of a function body"""
    loc, glo, non, gen = set(), set(), set(), [False]

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    loc.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    loc -= glo | non
    return loc, glo, non, gen[0]


class Program:
    """modules of the analysed tree, parsed lazily"""

    BYSRC_ANTLR = {
        "antlr4", "antlr4.tree", "antlr4.error", "antlr4.tree.Tree", "antlr4.ParserRuleContext",
        "antlr4.RuleContext", "antlr4.Token", "antlr4.error.ErrorListener", "antlr4.error.Errors",
        "antlr4.Recognizer", "antlr4.Lexer", "antlr4.Parser",
    }

    def __init__(self, repo):
        self.repo = repo
        self.roots = [os.path.join(repo, "src")]
        c = sorted(glob.glob("/opt/venv/lib/python3*/site-packages/antlr4")) + sorted(
            glob.glob(sys.prefix + "/lib/python3*/site-packages/antlr4"))
        self.antlr = os.path.dirname(c[0]) if c else None
        self.files = {}

    def find(self, name):
        rel = name.replace(".", "/")
        if name == "antlr4" or name.startswith("antlr4."):
            if name not in self.BYSRC_ANTLR or self.antlr is None:
                return None
            roots = [self.antlr]
        else:
            roots = self.roots
        for r in roots:
            for p in (os.path.join(r, rel, "__init__.py"), os.path.join(r, rel + ".py")):
                if os.path.isfile(p):
                    return p
        return None

    def load(self, name):
        p = self.find(name)
        if p is None:
            return None
        with open(p, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, p)
        self.files[p] = len(src)
        return p, tree


class Interp:
    def __init__(self, repo="/repo"):
        self.max_steps = MAX_STEPS
        self.prog = Program(repo)
        self.repo = repo
        self.modules = {}
        self.gen = 0
        self.hooks = {}          # qualified function name -> harness model
        self.journal = {}
        self.stores = 0
        self.asserted = False
        self.covered = set()     # functions of /repo entered by any path
        self.paths = 0
        self.load_notes = []     # module-level statements the analysis does not model
        self.total_steps = 0
        self._names = {}
        from . import builtins_ as B
        from . import ext as X
        self.B, self.X = B, X
        self.builtins = B.make(self)
        self.reset_run([], {})
        self.loading = 1
        self.lib_base = {}

    # ------------------------------------------------------------------ runs
    def reset_run(self, prefix, env):
        for o, s, _ in self.journal.values():
            o.restore(s)
        self.journal = {}
        self.prefix, self.decisions, self.pos = prefix, [], 0
        self.facts = Facts()
        self.events = []
        self.steps = 0
        self.depth = 0
        self.frames = []
        self.exc_stack = []
        self.env = env
        self.tainted = None
        self.uid = 0
        self.watch = {}
        self.lib = dict(getattr(self, "lib_base", ()))      # settings of the process: key -> (value, site)
        self.lib_user = False

    def pristine(self):
        """back to the state after import, for the objects that existed then (a new process, objects of this path kept)"""
        for o, s, _ in self.journal.values():
            o.restore(s)
        self.journal = {}
        self.lib = dict(self.lib_base)

    def fresh(self, op, ty=None):
        self.uid += 1
        return Term(op, self.uid, ty=ty)

    def unk(self, why):
        """a value the analysis does not model: results depending on it are undecided"""
        self.uid += 1
        return Term("unk", why, self.uid)

    def taint(self, why):
        if self.tainted is None:
            self.tainted = why

    def site(self):
        if not self.frames:
            return "?"
        f = self.frames[-1]
        return f"{f[0]}:{f[2]} in {f[1]}"

    def choose(self, n, what):
        if n <= 1:
            return 0
        if self.loading:
            raise Undecided(f"module initialisation depends on an unknown value ({what})")
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.decisions.append((c, n, what, self.site()))
        return c

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("analysis step limit reached (loop without bound?)")

    def touch(self, o):
        """about to modify the heap object o"""
        self.stores += 1
        if o.gen == 0 and not self.loading:
            if id(o) not in self.journal:
                self.journal[id(o)] = (o, o.snap(), self.site())

    def new(self, o):
        o.gen = 0 if self.loading else 1
        return o

    def event(self, kind, obj, what, val=None):
        if not self.loading:
            self.events.append((kind, obj, what, val, self.site()))

    # ---------------------------------------------------------------- raising
    def exc_class(self, name):
        return self.builtins[name]

    def raise_(self, cls, *args):
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        inst = self.new(Inst(cls, {"args": Tup(args), "__cause__": None, "__context__": None}))
        raise PyExc(inst, self.site())

    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        r = self.prog.load(name)
        if r is None:
            m = ModV(name, None)
            m.ext = True
            self.modules[name] = m
            self.link(name, m)
            return m
        path, tree = r
        m = ModV(name, path, tree)
        m.ext = False
        m.pkg = path.endswith("__init__.py")
        self.modules[name] = m
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
        env = Env(m)
        env.vars = m.ns.vars
        m.ns.vars["__name__"] = name
        m.ns.vars["__file__"] = path
        m.ns.vars["__doc__"] = ast.get_docstring(tree)
        saved, self.loading = self.loading, 1
        self.frames.append([path, "<module>", 0])
        try:
            self.top_block(tree.body, env)
        finally:
            self.frames.pop()
            self.loading = saved
        m.done = True
        self.link(name, m)
        return m

    def add_source(self, name, src):
        """client code written by the analysis (visitor and validator subclasses)"""
        m = self.modules.get(name)
        if m is not None:
            return m
        m = ModV(name, f"<{name}>", ast.parse(src))
        m.ext = m.pkg = False
        self.modules[name] = m
        env = Env(m)
        env.vars = m.ns.vars
        m.ns.vars["__name__"] = name
        saved, self.loading = self.loading, 1
        self.frames.append([m.path, "<module>", 0])
        try:
            self.block(m.tree.body, env)
        finally:
            self.frames.pop()
            self.loading = saved
        m.done = True
        return m

    def top_block(self, body, env):
        """module or class body: a statement that is not modelled makes the
        names it binds unknown, instead of the whole module"""
        for st in body:
            try:
                self.stmt(st, env)
            except Undecided as e:
                why = f"{e} at {self.site()}"
                self.load_notes.append(why)
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    names = {st.name}
                else:
                    names = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                for n in names:
                    env.vars[n] = self.unk(why)

    def link(self, name, m):
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            p = self.modules.get(parent)
            if p is None:
                p = self.module(parent)
            p.ns.vars.setdefault(leaf, m)

    def load_all(self, names):
        self.loading = 1
        for n in names:
            if self.module(n).ext:
                raise AnchorError(f"module {n} not found")
        self.loading = 0

    def modattr(self, m, name):
        if name in m.ns.vars:
            return m.ns.vars[name]
        if m.ext:
            v = self.X.ext_attr(self, m.name, name)
            if v is None:
                v = ExtC(f"{m.name}.{name}")
            m.ns.vars[name] = v
            return v
        sub = f"{m.name}.{name}"
        if self.prog.find(sub) or (m.name.split(".")[0] == "antlr4" and not m.done is None and self.ext_sub(sub)):
            return self.module(sub)
        ga = m.ns.vars.get("__getattr__")
        if ga:
            return self.call(ga, [name])
        self.raise_("AttributeError", f"module {m.name!r} has no attribute {name!r}")

    def ext_sub(self, sub):
        if self.prog.antlr is None:
            return True
        p = os.path.join(self.prog.antlr, sub.replace(".", "/"))
        return os.path.exists(p + ".py") or os.path.isdir(p)

    def do_import(self, st, env):
        if isinstance(st, ast.Import):
            for a in st.names:
                m = self.module(a.name)
                parts = a.name.split(".")
                for i in range(1, len(parts)):
                    self.module(".".join(parts[:i]))
                self.setname(a.asname or parts[0], m if a.asname else self.module(parts[0]), env)
            return
        base = st.module or ""
        if st.level:
            pk = env.mod.name if getattr(env.mod, "pkg", False) else env.mod.name.rsplit(".", 1)[0]
            for _ in range(st.level - 1):
                pk = pk.rsplit(".", 1)[0]
            base = pk + ("." + base if base else "")
        if base == "__future__":
            return
        m = self.module(base)
        for a in st.names:
            if a.name == "*":
                if m.ext:
                    continue
                allv = m.ns.vars.get("__all__")
                names = [x for x in allv.items] if isinstance(allv, ListV) else [
                    n for n in m.ns.vars if not n.startswith("_")]
                for n in names:
                    self.setname(n, m.ns.vars[n], env)
                continue
            try:
                v = self.modattr(m, a.name)
            except PyExc:
                self.raise_("ImportError", f"cannot import name {a.name!r} from {base!r}")
            self.setname(a.asname or a.name, v, env)

    # ------------------------------------------------------------------ names
    def setname(self, name, v, env):
        if env.fn is not None and name in env.glob:
            self.touch(env.mod.ns)
            self.event("global", env.mod, name, v)
            env.mod.ns.vars[name] = v
            return
        if name in env.nonl:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        if env.vars is env.mod.ns.vars:
            self.touch(env.mod.ns)
            if not self.loading:
                self.event("global", env.mod, name, v)
        env.vars[name] = v

    def getname(self, name, env):
        e = env
        if name in env.glob:
            e = None
        first = True
        while e is not None:
            if name in e.vars and (first or e.cls is None):
                return e.vars[name]
            if name in e.locals and e.cls is None:
                self.raise_("UnboundLocalError",
                            f"cannot access local variable {name!r} where it is not associated with a value")
            e = e.parent
            first = False
        g = env.mod.ns.vars
        if name in g:
            return g[name]
        if name == "__class__":
            c = self.owner_of(env)
            if c:
                return c
        b = self.builtins.get(name)
        if name == "__debug__" and not self.loading:
            self.asserted = True
            return not self.env.get("optimize")
        if b is not None or name in self.builtins:
            return b
        import builtins
        if hasattr(builtins, name):
            raise Undecided(f"builtin {name} is not modelled")
        self.raise_("NameError", f"name {name!r} is not defined")

    def owner_of(self, env):
        e = env
        while e is not None:
            if e.fn is not None and e.fn.owner is not None:
                return e.fn.owner
            e = e.parent
        return None

    # ------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("analysis step limit reached (loop without bound?)")
        self.frames[-1][2] = st.lineno
        m = getattr(self, "s_" + st.__class__.__name__, None)
        if m is None:
            raise Undecided(f"statement {st.__class__.__name__} is not modelled")
        m(st, env)

    def s_Expr(self, st, env):
        v = st.value
        if isinstance(v, ast.Constant):
            return
        self.ev(v, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, env)
            self.setname(t.id, self.binop(st.op, cur, self.ev(st.value, env), inplace=True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(st.op, cur, self.ev(st.value, env), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(st.op, cur, self.ev(st.value, env), inplace=True))
        else:
            raise Undecided("augmented assignment target")

    def s_TypeAlias(self, st, env):
        self.setname(st.name.id, ExtC("typing.TypeAliasType"), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                mid = items[k:len(items) - after]
                self.assign(t.elts[k].value, self.new(ListV(mid)), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                self.raise_("ValueError", "too many values to unpack" if len(items) > len(t.elts)
                            else "not enough values to unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Undecided("assignment target")

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst) and t.attr in o.attrs:
                    self.touch(o)
                    self.event("setattr", o, t.attr)
                    del o.attrs[t.attr]
                else:
                    self.raise_("AttributeError", t.attr)
            else:
                raise Undecided("del target")

    def s_Return(self, st, env):
        raise _Return(self.ev(st.value, env) if st.value else None)

    def s_Break(self, st, env):
        raise _Break

    def s_Continue(self, st, env):
        raise _Continue

    def s_Global(self, st, env):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, st, env):
        saved = self.loading
        try:
            self.do_import(st, env)
        finally:
            self.loading = saved

    s_ImportFrom = s_Import

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Assert(self, st, env):
        if self.env.get("optimize") and not self.loading:
            return
        n = self.stores
        ok = self.truth(self.ev(st.test, env))
        if not ok or self.stores != n:
            self.asserted = True        # python -O behaves differently
        if not ok:
            self.raise_("AssertionError", *([self.ev(st.msg, env)] if st.msg else []))

    def s_While(self, st, env):
        n = 0
        while True:
            n += 1
            self.steps += 1
            if n > self.max_steps // 130 or self.steps > self.max_steps:
                raise Undecided("loop without bound")
            if not self.truth(self.ev(st.test, env)):
                self.block(st.orelse, env)
                return
            try:
                self.block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def s_For(self, st, env):
        n = 0
        for x in self.iterate(self.ev(st.iter, env)):
            n += 1
            if n > 5000:
                raise Undecided("loop without bound")
            self.assign(st.target, x, env)
            try:
                self.block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(st.orelse, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            if not self.exc_stack:
                self.raise_("RuntimeError", "No active exception to reraise")
            raise PyExc(self.exc_stack[-1], self.site())
        e = self.ev(st.exc, env)
        if isinstance(e, (ClassV, BuiltinC, ExtC)):
            e = self.call(e, [])
        if not isinstance(e, Inst):
            if isinstance(e, Term):
                raise Undecided("raising an unknown value")
            self.raise_("TypeError", "exceptions must derive from BaseException")
        if st.cause is not None:
            e.attrs["__cause__"] = self.ev(st.cause, env)
        raise PyExc(e, self.site())

    def exc_matches(self, inst, pat):
        if isinstance(pat, Tup):
            return any(self.exc_matches(inst, p) for p in pat.items)
        if not isinstance(pat, (ClassV, BuiltinC, ExtC)):
            raise Undecided("exception pattern")
        mro = self.mro(inst.cls)
        if pat in mro:
            return True
        if inst.attrs.get("__opaque__") and inst.cls in self.mro(pat):
            # an exception of unknown class below inst.cls
            nots = inst.attrs.setdefault("__not__", [])
            if any(n in self.mro(pat) for n in nots):
                return False
            if self.choose(2, f"{inst!r} is a {pat.name}") == 1:
                inst.cls = pat
                return True
            nots.append(pat)
        return False

    def s_Try(self, st, env):
        frames, depth, excs = len(self.frames), self.depth, len(self.exc_stack)

        def unwind():
            del self.frames[frames:]
            del self.exc_stack[excs:]
            self.depth = depth

        try:
            try:
                self.block(st.body, env)
            except PyExc as ex:
                unwind()
                for h in st.handlers:
                    self.frames[-1][2] = h.lineno
                    if h.type is None or self.exc_matches(ex.inst, self.ev(h.type, env)):
                        self.exc_stack.append(ex.inst)
                        if h.name:
                            self.setname(h.name, ex.inst, env)
                        try:
                            self.block(h.body, env)
                        except PyExc as e2:
                            if e2.inst is not ex.inst:
                                e2.inst.attrs["__context__"] = ex.inst
                            raise
                        finally:
                            if h.name:
                                env.vars.pop(h.name, None)
                            del self.exc_stack[excs:]
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except (PyExc, _Return, _Break, _Continue) as ex:
            unwind()
            self.block(st.finalbody, env)
            raise
        else:
            self.block(st.finalbody, env)

    s_TryStar = None

    def s_With(self, st, env):
        self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        if isinstance(cm, Inst) and "__gencm" in cm.attrs:
            return self.with_gen(cm.attrs["__gencm"], it, items, body, env)
        enter = self.getattr(cm, "__enter__", special=True)
        exit_ = self.getattr(cm, "__exit__", special=True)
        v = self.call(enter, [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        frames, depth, excs = len(self.frames), self.depth, len(self.exc_stack)
        try:
            self.with_items(items[1:], body, env)
        except PyExc as ex:
            del self.frames[frames:]
            del self.exc_stack[excs:]
            self.depth = depth
            self.exc_stack.append(ex.inst)
            r = self.call(exit_, [ex.inst.cls, ex.inst, None])
            del self.exc_stack[excs:]
            if not self.truth(r):
                raise
        except (_Return, _Break, _Continue):
            self.call(exit_, [None, None, None])
            raise
        else:
            self.call(exit_, [None, None, None])

    def with_gen(self, g, it, items, body, env):
        """with over a contextlib.contextmanager function: the body runs inside the yield"""
        out = []
        lvl = len(self.frames)

        def at_yield(v):
            if out:
                self.raise_("RuntimeError", "generator didn't stop")
            out.append(None)
            saved = self.frames[lvl:]
            del self.frames[lvl:]
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                self.with_items(items[1:], body, env)
            except (_Return, _Break, _Continue) as sig:
                out[0] = sig
            finally:
                del self.frames[lvl:]
                self.frames.extend(saved)
            return None
        genv = g.env
        genv.yields = at_yield
        f = g.f
        self.frames.append([f.mod.path, f.qual, f.node.lineno, env])
        if f.mod.path and f.mod.path.startswith(self.repo):
            self.covered.add(f.qual)
        try:
            self.block(f.node.body, genv)
        except _Return:
            pass
        finally:
            del self.frames[lvl:]
        if not out:
            self.raise_("RuntimeError", "generator didn't yield")
        if out[0] is not None:
            raise out[0]

    def s_FunctionDef(self, st, env):
        f = self.mkfunc(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env)
        self.setname(st.name, v, env)

    def mkfunc(self, node, env):
        name = getattr(node, "name", "<lambda>")
        if env.cls is not None:
            qual = f"{env.cls}.{name}"
            parent = env.parent if env.parent is not None else None
        elif env.fn is not None:
            qual = f"{env.fn.qual}.<locals>.{name}"
            parent = env
        else:
            qual = f"{env.mod.name}.{name}"
            parent = None
        f = FuncV(node, env.mod, parent, qual)
        f.name = name
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        key = id(node)
        if key not in self._names:
            self._names[key] = (node, assigned_names(node))
        f.scope = self._names[key][1]
        f.is_gen = f.scope[3]
        if env.fn is not None:
            f.owner = self.owner_of(env)
        elif env.cls is not None and env.made is not None:
            env.made.append(f)
        return f

    def decorate(self, d, v, env):
        return self.call(self.ev(d, env), [v])

    def s_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            v = self.ev(b, env)
            if isinstance(v, ExtC) and (v.dotted.startswith("typing.") or v.dotted in ("abc.ABC",)):
                continue
            bases.append(v)
        for b in bases:
            if not isinstance(b, (ClassV, BuiltinC, ExtC)):
                raise Undecided(f"base class of {st.name} is not modelled")
        ns = self.new(NS())
        qual = f"{env.cls}.{st.name}" if env.cls else (
            f"{env.fn.qual}.<locals>.{st.name}" if env.fn is not None else f"{env.mod.name}.{st.name}")
        c = ClassV(st.name, bases or [BuiltinC(object)], ns, env.mod, st)
        c.qual = qual
        c.mro = self.linear(c)
        c.is_enum = any(b.is_enum or (isinstance(b, ExtC) and b.dotted.startswith("enum.")) for b in c.mro[1:])
        cenv = Env(env.mod, env if env.fn is not None or env.cls is not None else None)
        if env.cls is not None and env.fn is None:
            cenv.parent = env.parent
        cenv.cls = qual
        cenv.vars = ns.vars
        cenv.made = []
        ns.vars["__doc__"] = ast.get_docstring(st)
        self.top_block(st.body, cenv)
        # what ``super()`` and ``__class__`` mean is fixed by the text: the functions written in the class body
        for f in cenv.made:
            f.owner = c
        for n, v in ns.vars.items():
            if isinstance(v, Inst) and "__set_name__" in getattr(v.cls, "ns", NS()).vars:
                raise Undecided("descriptor with __set_name__")
        if c.is_enum:
            self.make_enum(c)
        v = c
        for b in c.mro[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.ns.vars:
                kw = {k.arg: self.ev(k.value, env) for k in st.keywords if k.arg != "metaclass"}
                f = b.ns.vars["__init_subclass__"]
                self.call(f.f if isinstance(f, ClassM) else f, [c], kw)
                break
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env)
        self.setname(st.name, v, env)

    def make_enum(self, c):
        ns = c.ns.vars
        src = []
        for s in c.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        src.append(t.id)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        src.extend(e.id for e in t.elts if isinstance(e, ast.Name))
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                src.append(s.target.id)
        ignore = {"_ignore_", "__slots__"}
        c.members = []
        c.enum_alias = {}
        strbase = self.is_str_class(c)
        intbase = any(isinstance(b, BuiltinC) and b.py is int for b in c.mro) or any(
            isinstance(b, ExtC) and b.dotted in ("enum.IntEnum", "enum.IntFlag", "enum.Flag") for b in c.mro)
        for name in src:
            if name in ignore or name.startswith("_") or name not in ns:
                continue
            v = ns[name]
            if isinstance(v, (FuncV, StaticM, ClassM, PropV, ClassV)):
                continue
            if isinstance(v, Inst) and isinstance(v.cls, ExtC) and v.cls.dotted == "enum.auto":
                if any(isinstance(b, ExtC) and b.dotted == "enum.StrEnum" for b in c.mro):
                    v = name.lower()
                else:
                    v = len(c.members) + 1
            args = list(v.items) if isinstance(v, Tup) else [v]
            nw = None
            for b in c.mro:
                if isinstance(b, ClassV) and "__new__" in b.ns.vars:
                    nw = b.ns.vars["__new__"]
                    break
            if nw is not None:
                nw = nw.f if isinstance(nw, StaticM) else nw
                inst = self.call(nw, [c] + args)
                if "_value_" not in inst.attrs:
                    inst.attrs["_value_"] = v
            else:
                inst = self.new(Inst(c, {"_value_": v}))
                if strbase:
                    inst.attrs["__str"] = args[0]
                    if isinstance(v, Tup) and len(args) == 1:
                        inst.attrs["_value_"] = args[0]
                elif intbase:
                    inst.attrs["__int"] = args[0]
            inst.attrs["name"] = inst.attrs["_name_"] = name
            init = None
            for b in c.mro:
                if isinstance(b, ClassV) and "__init__" in b.ns.vars:
                    init = b.ns.vars["__init__"]
                    break
            if init is not None:
                self.call(init, [inst] + args)
            dup = None
            for m in c.members:
                if akey(m.attrs["_value_"]) == akey(inst.attrs["_value_"]):
                    dup = m
            if dup is not None:
                ns[name] = dup
                c.enum_alias[name] = dup
            else:
                c.members.append(inst)
                ns[name] = inst

    def is_str_class(self, c):
        return any((isinstance(b, BuiltinC) and b.py is str) or (isinstance(b, ExtC) and b.dotted == "enum.StrEnum")
                   for b in self.mro(c))

    # ------------------------------------------------------------------ match
    def s_Match(self, st, env):
        v = self.ev(st.subject, env)
        for c in st.cases:
            self.frames[-1][2] = c.pattern.lineno
            if self.pmatch(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pmatch(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.pmatch(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pmatch(p.pattern, v, env):
                return False
            if p.name:
                self.setname(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, ListV) or isinstance(v, Tup):
                items = list(v.items)
            elif isinstance(v, Term) and v.op == "unk":
                raise Undecided("match on unknown value")
            else:
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                k = star[0]
                after = len(p.patterns) - k - 1
                if len(items) < len(p.patterns) - 1:
                    return False
                if p.patterns[k].name:
                    self.setname(p.patterns[k].name, self.new(ListV(items[k:len(items) - after])), env)
                return all(self.pmatch(q, x, env) for q, x in zip(p.patterns[:k], items[:k])) and all(
                    self.pmatch(q, x, env) for q, x in zip(p.patterns[k + 1:], items[len(items) - after:]))
            return len(items) == len(p.patterns) and all(
                self.pmatch(q, x, env) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, env)
            if not self.truth(self.isinstance_(v, cls)):
                return False
            names = []
            if p.patterns:
                if isinstance(cls, BuiltinC) and cls.py in (str, int, bool, float, list, tuple, dict, set):
                    if not self.pmatch(p.patterns[0], v, env):
                        return False
                else:
                    ma = self.class_lookup(cls, "__match_args__")
                    if ma is None and isinstance(cls, ClassV) and cls.dataclass:
                        names = [f[0] for f in cls.dataclass["fields"]]
                    elif isinstance(ma, Tup):
                        names = list(ma.items)
                    else:
                        raise Undecided("class pattern")
            for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                try:
                    x = self.getattr(v, n)
                except PyExc as e:
                    if e.inst.cls is self.exc_class("AttributeError"):
                        return False
                    raise
                if not self.pmatch(q, x, env):
                    return False
            return True
        raise Undecided("match pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + n.__class__.__name__, None)
        if m is None:
            raise Undecided(f"expression {n.__class__.__name__} is not modelled")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.getname(n.id, env)

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while getattr(e, "cls", None) == "<comp>":
            e = e.parent
        self.setname(n.target.id, v, e)
        return v

    def e_Tuple(self, n, env):
        return Tup(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.new(ListV(self.elts(n.elts, env)))

    def e_Set(self, n, env):
        s = self.new(SetV())
        for x in self.elts(n.elts, env):
            self.set_add(s, x)
        return s

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = self.new(DictV())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, DictV):
                    raise Undecided("** of unknown")
                for kk, vv in o.d.values():
                    self.dict_set(d, kk, vv)
            else:
                kv = self.ev(k, env)
                self.dict_set(d, kv, self.ev(v, env))
        return d

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        v = self.R(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if lin(v) is not None:
                return lmul(v, -1)
        if isinstance(n.op, ast.UAdd) and (isinstance(v, (int, float)) or lin(v) is not None):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Undecided("unary operator")

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        return self.binop(n.op, a, self.ev(n.right, env))

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            r = self.compare(op, a, b)
            if i == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return False
            a = b
        return r

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def e_Starred(self, n, env):
        raise Undecided("starred expression")

    def e_Slice(self, n, env):
        return ("slice", self.ev(n.lower, env) if n.lower else None, self.ev(n.upper, env) if n.upper else None,
                self.ev(n.step, env) if n.step else None)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev(n.slice, env))

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        return sstr(parts)

    def e_FormattedValue(self, v, env):
        x = self.ev(v.value, env)
        if v.conversion == ord("r"):
            x = self.repr(x)
        elif v.conversion == ord("s"):
            x = self.str(x)
        elif v.conversion == ord("a"):
            x = self.repr(x)
        spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec else ""
        return self.B.format_(self, x, spec)

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value else None
        e = env
        while e.yields is None:
            e = e.parent
            if e is None:
                raise Undecided("yield outside function")
        return e.yields(v)

    def e_YieldFrom(self, n, env):
        e = env
        while e.yields is None:
            e = e.parent
        for x in self.iterate(self.ev(n.value, env)):
            e.yields(x)
        return None

    def comp(self, n, env, emit):
        def rec(i, e):
            if i == len(n.generators):
                emit(e)
                return
            g = n.generators[i]
            if g.is_async:
                raise Undecided("async comprehension")
            for x in self.iterate(self.ev(g.iter, env if i == 0 else e)):
                self.step()
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    rec(i + 1, e)

        e = Env(env.mod, env if (env.fn is not None or env.cls is not None) else None, env.fn)
        e.glob = env.glob
        e.cls = "<comp>"
        if env.cls is not None and env.cls != "<comp>":
            # the first iterable is evaluated in class scope, the rest is not
            e.parent = env.parent
        rec(0, e)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n, env, lambda e: out.append(self.ev(n.elt, e)))
        return self.new(ListV(out))

    def e_SetComp(self, n, env):
        s = self.new(SetV())
        self.comp(n, env, lambda e: self.set_add(s, self.ev(n.elt, e)))
        return s

    def e_DictComp(self, n, env):
        d = self.new(DictV())

        def put(e):
            k = self.ev(n.key, e)
            self.dict_set(d, k, self.ev(n.value, e))
        self.comp(n, env, put)
        return d

    def e_GeneratorExp(self, n, env):
        # lazily: host generator over the comprehension
        it = self.iterate(self.ev(n.generators[0].iter, env))

        def gen():
            e = Env(env.mod, env if (env.fn is not None or env.cls is not None) else None, env.fn)
            e.glob = env.glob
            e.cls = "<comp>"
            if env.cls is not None and env.cls != "<comp>":
                e.parent = env.parent

            def rec(i):
                if i == len(n.generators):
                    yield self.ev(n.elt, e)
                    return
                g = n.generators[i]
                for x in (it if i == 0 else self.iterate(self.ev(g.iter, e))):
                    self.step()
                    self.assign(g.target, x, e)
                    if all(self.truth(self.ev(c, e)) for c in g.ifs):
                        yield from rec(i + 1)
            yield from rec(0)
        return self.new(IterV(gen()))

    def e_Await(self, n, env):
        raise Undecided("await")

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, env):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in env.vars:
            return self.mksuper([self.ev(a, env) for a in n.args], env)
        fv = self.ev(f, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, DictV):
                    raise Undecided("** of unknown")
                for kk, vv in v.d.values():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        self.frames[-1][2] = n.lineno
        return self.call(fv, args, kw)

    def mksuper(self, args, env):
        if args:
            return SuperV(args[0], args[1])
        c = self.owner_of(env)
        e = env
        while e is not None and e.first is None:
            e = e.parent
        if c is None or e is None:
            self.raise_("RuntimeError", "super(): no arguments")
        return SuperV(c, e.first)

    def call(self, f, args, kw=None):
        kw = kw or {}
        self.step()
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, BuiltinF):
            return f.fn(args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, BuiltinC):
            return self.B.construct(self, f, args, kw)
        if isinstance(f, ExtC):
            return self.X.ext_call(self, f.dotted, args, kw)
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Inst):
            c = self.class_find(f.cls, "__call__")
            if c is not None:
                return self.call(c[1], [f] + list(args), kw)
        if isinstance(f, Term):
            if f.op == "unk":
                raise Undecided("call of an unknown value")
            self.raise_("TypeError", f"{f!r} is not callable") if f.ty in ("str", "char", "int", "nat") else None
            raise Undecided("call of an unknown value")
        self.raise_("TypeError", f"{self.typename(f)!r} object is not callable")

    def call_func(self, f, args, kw):
        h = self.hooks.get(f.qual)
        if h is not None:
            return h(self, f, args, kw)
        if self.depth > MAX_DEPTH:
            raise Undecided(f"recursion without bound at {f.qual}")
        env = Env(f.mod, f.env, f)
        env.locals, env.glob, env.nonl = f.scope[0], f.scope[1], f.scope[2]
        self.bind(f, args, kw, env)
        node = f.node
        if isinstance(node, ast.Lambda):
            self.frames.append([f.mod.path, f.qual, node.lineno, env])
            self.depth += 1
            try:
                return self.ev(node.body, env)
            finally:
                self.depth -= 1
                self.frames.pop()
        if f.is_gen:
            if f.contextmanager:
                return self.X.GenCM(self, f, env).inst
            return self.eager_gen(f, env)
        if f.mod.path and f.mod.path.startswith(self.repo):
            self.covered.add(f.qual)
        self.frames.append([f.mod.path, f.qual, node.lineno, env])
        nfr = len(self.frames)
        self.depth += 1
        try:
            self.block(node.body, env)
            return None
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
            del self.frames[nfr - 1:]

    def eager_gen(self, f, env):
        """generator functions are run to completion at the call; the interleaving
        of their effects with the consumer is not modelled"""
        out = []

        def y(v):
            out.append(v)
            if len(out) > 2000:
                raise Undecided("generator without bound")
            return None
        env.yields = y
        self.frames.append([f.mod.path, f.qual, f.node.lineno, env])
        nfr = len(self.frames)
        self.depth += 1
        if f.mod.path and f.mod.path.startswith(self.repo):
            self.covered.add(f.qual)
        pend = None
        try:
            self.block(f.node.body, env)
        except _Return:
            pass
        except PyExc as e:
            pend = e
        finally:
            self.depth -= 1
            del self.frames[nfr - 1:]

        def gen():
            yield from out
            if pend is not None:
                raise pend
        return self.new(IterV(gen()))

    def bind(self, f, args, kw, env):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = env.vars
        kw = dict(kw)
        n = len(pos)
        for i, v in enumerate(args):
            if i < n:
                vars_[pos[i]] = v
            elif a.vararg is None:
                self.raise_("TypeError", f"{f.qual}() takes {n} positional arguments but {len(args)} were given")
        if a.vararg is not None:
            vars_[a.vararg.arg] = Tup(args[n:])
        ponly = {x.arg for x in a.posonlyargs}
        for i in range(len(args), n):
            nm = pos[i]
            if nm in kw and nm not in ponly:
                vars_[nm] = kw.pop(nm)
            else:
                j = i - (n - len(f.defaults))
                if j < 0:
                    self.raise_("TypeError", f"{f.qual}() missing a required argument: {nm!r}")
                vars_[nm] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars_[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_("TypeError", f"{f.qual}() missing keyword-only argument {x.arg!r}")
        if a.kwarg is not None:
            d = self.new(DictV())
            for k, v in kw.items():
                self.dict_set(d, k, v)
            vars_[a.kwarg.arg] = d
        elif kw:
            k = next(iter(kw))
            self.raise_("TypeError", f"{f.qual}() got an unexpected keyword argument {k!r}"
                        if k not in pos else f"{f.qual}() got multiple values for argument {k!r}")
        if args and pos:
            env.first = args[0]
        elif pos and pos[0] in vars_:
            env.first = vars_[pos[0]]

    # ---------------------------------------------------------------- classes
    def mro(self, c):
        if isinstance(c, ClassV):
            return c.mro
        if isinstance(c, BuiltinC):
            return [BuiltinC(x) for x in c.py.__mro__]
        if isinstance(c, ExtC):
            return self.X.ext_mro(self, c)
        raise Undecided("mro")

    def linear(self, c):
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                self.raise_("TypeError", "Cannot create a consistent method resolution order")
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]

    def class_lookup(self, c, name):
        for b in self.mro(c):
            if isinstance(b, ClassV):
                if name in b.ns.vars:
                    return b.ns.vars[name]
        return None

    def class_find(self, c, name):
        """(defining class, value) or None; may be an ext/builtin class with a model"""
        for b in self.mro(c):
            if isinstance(b, ClassV):
                if name in b.ns.vars:
                    return b, b.ns.vars[name]
            elif isinstance(b, ExtC):
                m = self.X.ext_method(self, b.dotted, name)
                if m is not None:
                    return b, m
            else:
                m = self.B.builtin_attr(self, b.py, name)
                if m is not None:
                    return b, m
        return None

    def has_ext_base(self, c):
        return any(isinstance(b, ExtC) and not self.X.is_plain(b.dotted) for b in self.mro(c))

    def instantiate(self, c, args, kw):
        if c.is_enum:
            if len(args) == 1:
                return self.enum_by_value(c, args[0])
            raise Undecided("functional enum API")
        h = self.hooks.get(c.qual)
        if h is not None:
            return h(self, c, args, kw)
        found = self.class_find(c, "__new__")
        if found and isinstance(found[0], ClassV):
            f = found[1].f if isinstance(found[1], StaticM) else found[1]
            inst = self.call(f, [c] + list(args), kw)
            if not isinstance(inst, Inst) or c not in self.mro(inst.cls):
                return inst
        else:
            inst = self.new(Inst(c, {}))
            if self.frames:
                inst.made = self.site()
            if self.is_exc(c):
                inst.attrs.update({"args": Tup(args), "__cause__": None, "__context__": None})
            elif self.is_str_class(c) and args:
                inst.attrs["__str"] = self.str(args[0])
        found = self.class_find(c, "__init__")
        if c.dataclass is not None and (found is None or not isinstance(found[0], ClassV)
                                        or c.mro.index(found[0]) > 0):
            self.dc_init(c, inst, args, kw)
        elif any(isinstance(b, ClassV) and b.dataclass for b in c.mro) and (
                found is None or not isinstance(found[0], ClassV)):
            b = next(b for b in c.mro if isinstance(b, ClassV) and b.dataclass)
            self.dc_init(b, inst, args, kw)
        elif found is not None:
            self.call(found[1], [inst] + list(args), kw)
        elif (args or kw) and not self.is_exc(c) and not self.is_str_class(c) and not self.has_ext_base(c):
            self.raise_("TypeError", f"{c.name}() takes no arguments")
        return inst

    def dc_init(self, c, inst, args, kw):
        kw = dict(kw)
        fields = c.dataclass["fields"]
        vals = list(args)
        if len(vals) > len([f for f in fields if f[4]]):
            self.raise_("TypeError", f"{c.name}() takes too many positional arguments")
        for name, default, has, factory, init in fields:
            if init and vals:
                v = vals.pop(0)
                if name in kw:
                    self.raise_("TypeError", f"multiple values for {name!r}")
            elif init and name in kw:
                v = kw.pop(name)
            elif factory is not None:
                v = self.call(factory, [])
            elif has:
                v = default
            else:
                self.raise_("TypeError", f"{c.name}() missing a required argument: {name!r}")
            inst.attrs[name] = v
        if kw:
            self.raise_("TypeError", f"{c.name}() got an unexpected keyword argument {next(iter(kw))!r}")
        p = self.class_lookup(c, "__post_init__")
        if p is not None:
            self.call(p, [inst])

    def enum_by_value(self, c, v):
        v = self.R(v)
        if isinstance(v, Inst) and v in c.members:
            return v
        for m in c.members:
            if self.truth(self.eq(m.attrs["_value_"], v)):
                return m
        miss = self.class_lookup(c, "_missing_")
        if miss is not None:
            r = self.call(miss.f if isinstance(miss, ClassM) else miss, [c, v])
            if r is not None:
                return r
        self.raise_("ValueError", sstr([self.repr(v), f" is not a valid {c.name}"]))

    def is_exc(self, c):
        return any(isinstance(b, BuiltinC) and issubclass(b.py, BaseException) for b in self.mro(c))

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name, special=False, default=None):
        o = self.R(o)
        if isinstance(o, Inst):
            return self.getattr_inst(o, name)
        if isinstance(o, ClassV):
            return self.getattr_class(o, name)
        if isinstance(o, ModV):
            return self.modattr(o, name)
        if isinstance(o, SuperV):
            return self.getattr_super(o, name)
        if isinstance(o, ExtC):
            r = self.X.ext_class_attr(self, o.dotted, name)
            if r is not None:
                return r
            if name in ("__name__", "__qualname__"):
                return o.name
            return ExtC(f"{o.dotted}.{name}")
        if isinstance(o, BuiltinC):
            if name in ("__name__", "__qualname__"):
                return o.name
            m = self.B.builtin_attr(self, o.py, name)
            if m is not None:
                return m
            raise Undecided(f"attribute {name} of {o.name}")
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qual.split(o.mod.name + ".", 1)[-1]
            if name == "__doc__":
                return None
            if name == "__module__":
                return o.mod.name
            if name == "__wrapped__":
                self.raise_("AttributeError", name)
            self.raise_("AttributeError", f"'function' object has no attribute {name!r}")
        if isinstance(o, BoundM):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, PropV):
            if name == "setter":
                return BuiltinF("setter", lambda a, k: PropV(o.fget, a[0]))
            if name in ("getter", "deleter"):
                return BuiltinF(name, lambda a, k: o)
            if name == "fget":
                return o.fget
        if isinstance(o, BuiltinF):
            if name in ("__name__", "__qualname__"):
                return o.name.split(".")[-1]
            if name == "from_iterable" and o.name == "itertools.chain":
                return self.X.chain_from_iterable(self)
            raise Undecided(f"attribute {name} of builtin {o.name}")
        if isinstance(o, (StaticM, ClassM)):
            if name in ("__func__", "__wrapped__"):
                return o.f
            return self.getattr(o.f, name)
        if isinstance(o, PartialV):
            if name == "func":
                return o.f
        if o is None:
            if name == "__class__":
                return BuiltinC(type(None))
            if name == "__doc__":
                return None
            self.raise_("AttributeError", f"'NoneType' object has no attribute {name!r}")
        m = self.B.method(self, o, name)
        if m is not None:
            return m
        if isinstance(o, Term):
            if o.op == "unk":
                return self.unk(f"attribute {name} of unknown")
            if o.ty is None:
                raise Undecided(f"attribute {name} of {o!r}")
        if name == "__class__":
            return self.type_of(o)
        self.raise_("AttributeError", f"{self.typename(o)!r} object has no attribute {name!r}")

    def getattr_inst(self, o, name):
        c = o.cls
        if name == "__class__":
            return c
        if name == "__dict__":
            d = self.new(DictV())
            for k, v in o.attrs.items():
                if not k.startswith("__"):
                    self.dict_set(d, k, v)
            return d
        found = None
        for b in self.mro(c):
            if isinstance(b, ClassV):
                if name in b.ns.vars:
                    found = (b, b.ns.vars[name])
                    break
            elif isinstance(b, ExtC):
                m = self.X.ext_method(self, b.dotted, name)
                if m is not None:
                    found = (b, m)
                    break
            else:
                m = self.B.builtin_attr(self, b.py, name)
                if m is not None:
                    found = (b, m)
                    break
        if found and isinstance(found[1], PropV):
            if found[1].fget is None:
                self.raise_("AttributeError", name)
            return self.call(found[1].fget, [o])
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Term) and v.op == "lazy":
                v = o.attrs[name] = self.env["lazy"](v)
            return v
        if c.is_enum:
            if name == "value":
                return o.attrs["_value_"]
        if found:
            v = found[1]
            if isinstance(v, (FuncV, BuiltinF)):
                if isinstance(v, BuiltinF) and getattr(v, "static", False):
                    return v
                return BoundM(v, o)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return BoundM(v.f, c)
            if isinstance(v, PartialV):
                return v
            if isinstance(v, Inst) and isinstance(v.cls, ClassV) and self.class_lookup(v.cls, "__get__") is not None:
                return self.call(self.class_lookup(v.cls, "__get__"), [v, o, c])
            if isinstance(v, Inst) and isinstance(v.cls, ExtC) and v.cls.dotted == "functools.cached_property":
                r = self.call(v.attrs["fn"], [o])
                self.touch(o)
                o.attrs[name] = r
                self.event("setattr", o, name, r)
                return r
            if isinstance(v, Inst) and isinstance(v.cls, ExtC) and v.cls.dotted == "functools.lru_cache_wrapper":
                return BoundM(v, o)
            return v
        if self.is_str_class(c) and "__str" in o.attrs:
            m = self.B.method(self, o.attrs["__str"], name)
            if m is not None:
                return m
        ga = self.class_lookup(c, "__getattr__")
        if ga is not None:
            return self.call(ga, [o, name])
        if self.has_ext_base(c) and not name.startswith("__"):
            return self.X.unknown_attr(self, o, name)
        self.raise_("AttributeError", f"{c.name!r} object has no attribute {name!r}")

    def getattr_class(self, c, name):
        if c.is_enum and name == "__members__":
            d = self.new(DictV())
            for m in c.members:
                self.dict_set(d, m.attrs["name"], m)
            for n, m in c.enum_alias.items():
                self.dict_set(d, n, m)
            return d
        found = self.class_find(c, name)
        if found:
            v = found[1]
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return BoundM(v.f, c)
            return v
        if name in ("__name__",):
            return c.name
        if name == "__qualname__":
            return c.qual.split(c.mod.name + ".", 1)[-1]
        if name == "__module__":
            return c.mod.name
        if name == "__mro__":
            return Tup(c.mro)
        if name == "__bases__":
            return Tup(c.bases)
        if name == "__class__":
            return BuiltinC(type)
        if name == "__subclasses__":
            raise Undecided("__subclasses__")
        if name == "__dict__":
            d = self.new(DictV())
            for k, v in c.ns.vars.items():
                self.dict_set(d, k, v)
            return d
        if name == "__annotations__":
            raise Undecided("__annotations__")
        if self.has_ext_base(c) and not name.startswith("__"):
            return self.unk(f"attribute {name} of {c.name}")
        self.raise_("AttributeError", f"type object {c.name!r} has no attribute {name!r}")

    def getattr_super(self, s, name):
        o = s.self_
        cls = o.cls if isinstance(o, Inst) else o
        mro = self.mro(cls)
        if s.cls not in mro:
            self.raise_("TypeError", "super(type, obj): obj must be an instance or subtype of type")
        for b in mro[mro.index(s.cls) + 1:]:
            v = None
            if isinstance(b, ClassV):
                if name in b.ns.vars:
                    v = b.ns.vars[name]
                elif name == "__init__" and b.dataclass:
                    bb = b
                    v = BuiltinF("dc_init", lambda a, k: self.dc_init(bb, a[0], a[1:], k))
            elif isinstance(b, ExtC):
                v = self.X.ext_method(self, b.dotted, name)
                if v is None and name in ("__init__",):
                    v = BuiltinF("ext.__init__", lambda a, k: None)
            else:
                v = self.B.builtin_attr(self, b.py, name)
            if v is None:
                continue
            if isinstance(v, (FuncV, BuiltinF)):
                if name == "__new__" or getattr(v, "static", False):
                    return v
                return BoundM(v, o)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return BoundM(v.f, cls)
            if isinstance(v, PropV):
                return self.call(v.fget, [o])
            return v
        if any(isinstance(b, ExtC) and not self.X.is_plain(b.dotted) for b in mro) and not name.startswith("__"):
            return self.unk(f"super().{name}")
        self.raise_("AttributeError", f"'super' object has no attribute {name!r}")

    def setattr(self, o, name, v):
        o = self.R(o)
        if isinstance(o, Inst):
            c = o.cls
            if isinstance(c, ExtC) and c.dotted == "logging.Logger" and name in ("level", "disabled", "propagate"):
                return self.X.lib_set(self, self.X.logger_key(o, name), v)
            sa = None
            for b in self.mro(c):
                if isinstance(b, ClassV) and "__setattr__" in b.ns.vars:
                    sa = b.ns.vars["__setattr__"]
                    break
                if isinstance(b, ClassV) and b.dataclass and b.dataclass["frozen"]:
                    self.raise_(self.X.frozen_error(self), f"cannot assign to field {name!r}")
            if sa is not None and not sa.mod.name.startswith("antlr4"):
                return self.call(sa, [o, name, v])
            return self.setattr_raw(o, name, v)
        if isinstance(o, ClassV):
            self.touch(o.ns)
            self.event("classattr", o, name, v)
            o.ns.vars[name] = v
            return
        if isinstance(o, ModV):
            self.touch(o.ns)
            self.event("global", o, name, v)
            o.ns.vars[name] = v
            return
        if isinstance(o, FuncV):
            self.touch(o)
            self.event("funcattr", o, name, v)
            o.attrs[name] = v
            return
        if isinstance(o, BoundM):
            self.raise_("AttributeError", f"'method' object has no attribute {name!r}")
        if isinstance(o, (Term,)) and o.ty is None:
            raise Undecided("attribute assignment to unknown")
        if isinstance(o, ExtC):
            self.event("global", o, name, v)
            self.X.lib_set(self, f"{o.dotted}.{name}", v)
            return
        self.raise_("AttributeError", f"{self.typename(o)!r} object has no attribute {name!r}")

    def setattr_raw(self, o, name, v):
        found = self.class_lookup(o.cls, name)
        if isinstance(found, PropV):
            if found.fset is None:
                self.raise_("AttributeError", f"property {name!r} has no setter")
            self.call(found.fset, [o, v])
            return
        self.touch(o)
        old = o.attrs.get(name, "<unset>")
        o.attrs[name] = v
        self.event("setattr", o, name, (old, v))

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        v = self.R(v)
        if isinstance(v, Inst):
            return v.cls
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return BuiltinC(type(v))
        if isinstance(v, SStr):
            return BuiltinC(str)
        if isinstance(v, Lin):
            return BuiltinC(int)
        if isinstance(v, Tup):
            return BuiltinC(tuple)
        if isinstance(v, ListV):
            if v.kind == "list":
                return BuiltinC(list)
            return ExtC("collections.deque")
        if isinstance(v, DictV):
            return BuiltinC(dict)
        if isinstance(v, SetV):
            return BuiltinC(frozenset if v.frozen else set)
        if isinstance(v, (ClassV, BuiltinC, ExtC)):
            return BuiltinC(type)
        if isinstance(v, Term):
            t = {"str": str, "char": str, "hexchar": str, "digits": str, "int": int, "nat": int, "bool": bool,
                 "float": float}.get(v.ty)
            if t is not None:
                return BuiltinC(t)
            raise Undecided(f"type of {v!r}")
        if isinstance(v, (FuncV, BuiltinF)):
            return BuiltinC(type(lambda: 0))
        if isinstance(v, BoundM):
            import types
            return BuiltinC(types.MethodType)
        raise Undecided(f"type of {v!r}")

    def typename(self, v):
        try:
            return self.type_of(v).name
        except Undecided:
            return type(v).__name__

    def isinstance_(self, v, c):
        v = self.R(v)
        if isinstance(c, Tup):
            return any(self.truth(self.isinstance_(v, x)) for x in c.items)
        if isinstance(c, Inst) and isinstance(c.cls, ExtC) and c.cls.dotted == "union":
            return any(self.truth(self.isinstance_(v, x)) for x in c.attrs["items"])
        if c is None:
            return v is None
        if isinstance(v, Term) and v.op == "unk":
            raise Undecided("isinstance of an unknown value")
        if isinstance(c, ExtC) and c.dotted.split(".")[0] in ("typing", "collections") and c.dotted != "collections.deque":
            base = c.dotted.split(".")[-1]
            m = {"List": list, "Dict": dict, "Set": set, "Tuple": tuple, "str": str}
            if base in m:
                c = BuiltinC(m[base])
            elif base in ("Sequence", "Iterable", "Collection", "Sized", "Mapping", "Callable", "Container"):
                if base == "Mapping":
                    return isinstance(v, DictV)
                if base == "Callable":
                    return self.B.callable_(self, v)
                if isinstance(v, (ListV, Tup, str, SStr)) or (isinstance(v, Term) and v.ty in ("str", "char", "hexchar", "digits")):
                    return True
                if isinstance(v, (SetV, DictV, IterV)):
                    return base != "Sequence"
                if v is None or isinstance(v, (int, float, Lin)):
                    return False
                raise Undecided("isinstance of an abstract base class")
            else:
                raise Undecided(f"isinstance of {c!r}")
        if not isinstance(c, (ClassV, BuiltinC, ExtC)):
            if isinstance(c, Term):
                raise Undecided("isinstance of unknown class")
            self.raise_("TypeError", "isinstance() arg 2 must be a type")
        t = self.type_of(v)
        if c in self.mro(t):
            return True
        if isinstance(v, Inst) and v.attrs.get("__opaque__"):
            return self.exc_matches(v, c)
        if isinstance(t, ExtC) and not self.X.known_class(t.dotted) and isinstance(c, ExtC):
            raise Undecided(f"isinstance({t!r}, {c!r})")
        return False

    # -------------------------------------------------------------- delegates
    def R(self, v):
        """resolve a term that the path facts determine"""
        if isinstance(v, Term):
            if v in self.facts.dom:
                c = self.facts.single(v)
                if c is not None:
                    return c
            elif v.ty in ("int", "nat"):
                lo, hi = self.facts.term_bounds(v)
                if lo == hi:
                    return int(lo)
            elif v.ty == "bool" and v in self.facts.atoms:
                return self.facts.atoms[v]
        elif isinstance(v, SStr):
            if any(isinstance(p, Term) and self.facts.single(p) is not None for p in v.parts):
                return sstr([self.R(p) if isinstance(p, Term) else p for p in v.parts])
        elif isinstance(v, Lin):
            if any(self.facts.term_bounds(t)[0] == self.facts.term_bounds(t)[1] for t in v.t):
                c, rest = v.c, {}
                for t, k in v.t.items():
                    lo, hi = self.facts.term_bounds(t)
                    if lo == hi:
                        c += k * int(lo)
                    else:
                        rest[t] = k
                return unlin(Lin(c, rest))
        return v

    def truth(self, v):
        return self.B.truth(self, v)

    def eq(self, a, b):
        return self.B.eq(self, a, b)

    def is_(self, a, b):
        return self.B.is_(self, a, b)

    def compare(self, op, a, b):
        return self.B.compare(self, op, a, b)

    def binop(self, op, a, b, inplace=False):
        return self.B.binop(self, op, a, b, inplace)

    def iterate(self, v):
        return self.B.iterate(self, v)

    def getitem(self, o, i):
        return self.B.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.B.setitem(self, o, i, v)

    def delitem(self, o, i):
        return self.B.delitem(self, o, i)

    def str(self, v):
        return self.B.str_(self, v)

    def repr(self, v):
        return self.B.repr_(self, v)

    def set_add(self, s, x):
        return self.B.set_add(self, s, x)

    def dict_set(self, d, k, v):
        return self.B.dict_set(self, d, k, v)


class Outcome:
    """one abstract path of a harness"""

    def __init__(self, kind, value, ip):
        self.kind, self.value = kind, value
        self.facts, self.events = ip.facts, ip.events
        self.decisions = list(ip.decisions)
        self.tainted = ip.tainted
        self.steps = ip.steps

    def path(self):
        return [f"{w} -> {c if n > 2 else c == 0}   [{s}]" for c, n, w, s in self.decisions]


def explore(ip, harness, env=None, max_paths=20000):
    """yield the Outcome of every feasible path of harness(ip)"""
    todo = [[]]
    n = 0
    while todo:
        prefix = todo.pop()
        ip.reset_run(prefix, dict(env or {}))
        n += 1
        ip.paths += 1
        if n > max_paths:
            yield Outcome("undecided", "path limit reached", ip)
            return
        try:
            try:
                r = harness(ip)
                out = ("return", r)
            except PyExc as e:
                out = ("raise", e)
            except Undecided as e:
                out = ("undecided", f"{e} at {ip.site()}")
            except RecursionError:
                out = ("undecided", f"analysis recursion at {ip.site()}")
            except (Infeasible, AnchorError):
                raise
            except Exception as e:      # a shortcoming of the analysis, never a verdict
                if os.environ.get("SA_DEBUG"):
                    raise
                out = ("undecided", f"analysis error {type(e).__name__}: {e} at {ip.site()}")
        except Infeasible:
            out = None
        ip.total_steps += ip.steps
        d = [c for c, _, _, _ in ip.decisions]
        for i in range(len(prefix), len(d)):
            for alt in range(1, ip.decisions[i][1]):
                todo.append(d[:i] + [alt])
        if out is not None:
            o = Outcome(out[0], out[1], ip)
            yield o
    ip.reset_run([], {})
