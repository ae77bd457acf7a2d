"""P18, P19: debug logging and state."""
import itertools

from . import shapes as S
from . import trees as T
from . import witness
from .c_nodes import KINDS, MADE, build, client, cls, em, expression, leaf, sample, trees_for_visit
from .c_parse import forms, SHAPES, call_parse, ntok, scripts
from .c_val import collecting, run_validate, scripted, script_tree, vget
from .check import exc_text
from .engine import AnchorError, PyExc
from .env import FAULTS, World
from .values import *


# ----------------------------------------------------- structural comparison
def frozen(o):
    return isinstance(o.cls, ClassV) and bool(o.cls.dataclass and o.cls.dataclass["frozen"])


def is_const(o):
    """objects every run may share: enumeration members, loggers"""
    return isinstance(o, Inst) and (isinstance(o.cls, ExtC) or getattr(o.cls, "is_enum", False))


def differ(ip, a, b, path, seen, strict=False):
    """first difference between two abstract values of the same path: (text, a, b) or None"""
    a, b = ip.R(a), ip.R(b)
    if a is b:
        return None
    if isinstance(a, Inst) and isinstance(b, Inst):
        if is_const(a) or is_const(b):
            return None if a is b or a.cls is b.cls and isinstance(a.cls, ExtC) else (path, a, b)
        if (id(a), id(b)) in seen:
            return None
        seen.add((id(a), id(b)))
        if a.cls is not b.cls:
            return path, a, b
        ka = {k for k in a.attrs if not k.startswith("_")}
        kb = {k for k in b.attrs if not k.startswith("_")}
        if ka != kb:
            return f"{path}: attributes", sorted(ka), sorted(kb)
        for k in sorted(ka):
            if k in ("__traceback__",):
                continue
            d = differ(ip, a.attrs[k], b.attrs[k], f"{path}.{k}", seen)
            if d:
                return d
        return None
    if isinstance(a, (ListV, Tup)) and type(a) is type(b):
        if len(a.items) != len(b.items):
            return path, a, b
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            d = differ(ip, x, y, f"{path}[{i}]", seen)
            if d:
                return d
        return None
    if isinstance(a, SetV) and isinstance(b, SetV):
        return None if {akey(x) for x in a.d.values()} == {akey(x) for x in b.d.values()} else (path, a, b)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if len(a.d) != len(b.d):
            return path, a, b
        for (k, x), (k2, y) in zip(a.d.values(), b.d.values()):
            d = differ(ip, x, y, f"{path}[{show(k)}]", seen)
            if d or akey(k) != akey(k2):
                return d or (path, a, b)
        return None
    if isinstance(a, Obj) or isinstance(b, Obj):
        return path, a, b
    return None if akey(a) == akey(b) and type(a) is type(b) else (path, a, b)


def same_deep(ip, c, aspect, what, a, b, site=None):
    c.n += 1
    d = differ(ip, a, b, "", set())
    if d is None:
        return
    path, x, y = d
    if has_unk(x) or has_unk(y):
        c.open.append((aspect, f"{what}{path}: {show(x)} vs {show(y)}"))
        return
    if isinstance(x, (Term, SStr, Lin, str, int)) and isinstance(y, (Term, SStr, Lin, str, int)) and not (
            isinstance(x, bool) or isinstance(y, bool)):
        c.same(aspect, f"{what}{path}", x, y, site)
        return
    c.bad.append((aspect, f"{what}{path}: {show(x)[:100]} against {show(y)[:100]}", None,
                  site or getattr(x, "made", None) or getattr(y, "made", None)))


def same_outcome(ip, c, aspect, what, a, b):
    """outcomes ("return" | "raise", value)"""
    c.n += 1
    if a[0] != b[0]:
        e = a[1] if a[0] == "raise" else b[1]
        c.fail(aspect, f"{what}: one of two runs raises {exc_text(e)}, the other returns", e.site)
        return
    if a[0] == "raise":
        x, y = a[1].inst, b[1].inst
        if x.cls is not y.cls:
            c.fail(aspect, f"{what}: {exc_text(a[1])} against {exc_text(b[1])}", b[1].site)
            return
        same_deep(ip, c, aspect, f"{what}: exception", x.attrs.get("args"), y.attrs.get("args"), b[1].site)
        if x.cls is vget(ip, "SpecificationValidationError"):
            same_deep(ip, c, aspect, f"{what}: exception", x, y, b[1].site)
        return
    same_deep(ip, c, aspect, what, a[1], b[1])


KNOWN = ("query", ("seq", [S.SI, ("simple", ("segment", ("eand", [
    ("basic", ("words", True, ("id", "foo")), "!=", S.R), ("basic", ("words", None, ("id", "word")), "=", S.R)])), "+")]), "s")


# ------------------------------------------------------------------------ P18
def p18(ck):
    ck.rule("For the same abstract input the run with debug logging off and the run with it on (log arguments formatted "
            "as the handlers do) reach the same outcome on every path: same tree, exception, error list, verdict, "
            "visit log.")
    fam = [(s, []) for s in itertools.islice(S.structural(ck.tier), 0, None, 1 if ck.thorough else 4)]
    fam += [(s, []) for s in S.quants()]
    for q, body in itertools.islice(S.values(ck.tier), 0, None, 1 if ck.thorough else 7):
        fam.append((("query", ("simple", ("implicit", ("re", body, None, q)), None), None), []))
    for fl in (["?"], ["?", "?"], ["l", "i"]):
        fam.append((("query", ("simple", ("implicit", ("re", ["c"], fl)), "+"), "s"), []))
    for w in S.SCOPE_WORDS + ["", "x", "Sentence"]:
        fam.append((("query", ("seq", [S.SI, S.SW]), w), []))
    for s in SHAPES:
        for sc in scripts(ntok(s), 2):
            fam.append((s, sc))
    fam += [x for x in forms() if len(x[1]) == 1]
    for f in FAULTS:
        fam.append((SHAPES[0], [("raise", f)]))
        fam.append((SHAPES[0], [("L",), ("raise", f)]))
    for i, (s, sc) in enumerate(fam):
        ck.sweep("parser.parse", f"{s} with {sc}", debug_parse(s, sc, "method", bool(i % 2)))
    for i, (s, sc) in enumerate(fam):
        if sc or i % 5 == 0:
            for how in ("parse", "can_parse", "antlr_parse"):
                ck.sweep(how, f"{s} with {sc}", debug_parse(s, sc, how, False))
    for lab, mkr in trees_for_visit().items():
        ck.sweep("visit", lab, debug_visit(mkr))
        ck.sweep("validate", lab, debug_validate(mkr))
    acts = ["", "e", "w", "we", "ew"]
    for rs in (True, False):
        for wae in (True, False):
            for a, b in itertools.product(acts, repeat=2):
                ck.sweep("validate", f"{a}, {b}, raise {rs}, warnings as errors {wae}", debug_script(a, b, rs, wae))
    for s in (SHAPES[0], KNOWN, SHAPES[2]):
        for sc in ([], [("L",)], [("P", 0)], [("raise", "ValueError")]):
            ck.sweep("one-call validate", f"{s} with {sc}", debug_onecall(s, sc))


def twice(ip, f):
    """outcomes of f() with debug logging off and on"""
    out = []
    for dbg in (False, True):
        ip.env["debug"] = dbg
        try:
            out.append(f())
        finally:
            ip.env["debug"] = False
    return out


def outcome(f):
    try:
        return "return", f()
    except PyExc as e:
        return "raise", e


def debug_parse(shape, script, how, loc):
    def h(ip):
        c = T.Cmp(ip)

        def run():
            w = World(ip, shape, script)
            if how == "antlr_parse":
                k, v = outcome(lambda: ip.call(T.get(ip, "fcsql", how), [w.query]))
                if k == "return":
                    v = v is w.tree
                return (k, v), None
            cfg = dict(w.cfg, enableSourceLocations=loc)
            p = T.new_parser(ip, cfg, ["enableSourceLocations"]) if how == "method" else None
            k, v, _ = call_parse(ip, w, how, p)
            return (k, v), ip.getattr(p, "errors") if p else None
        (a, ea), (b, eb) = twice(ip, run)
        same_outcome(ip, c, "debug", f"{how} with debug logging off and on", a, b)
        if ea is not None:
            same_deep(ip, c, "debug", "parser.errors with debug logging off and on", ea, eb)
        return c
    return h


def debug_visit(mkr):
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)
        node, order = mkr(ip)
        for name, args in (("Log", []), ("Called", []), ("Plain", []), ("Bare", []), ("Hooks", [2])):
            def run():
                v = ip.call(m.ns.vars[name], args)
                o = outcome(lambda: ip.call(ip.getattr(v, "visit"), [node]))
                return o, v.attrs.get("log")
            (a, la), (b, lb) = twice(ip, run)
            same_outcome(ip, c, "debug", f"visit by {name} with debug logging off and on", a, b)
            if la is not None:
                same_deep(ip, c, "debug", f"calls of handlers of {name} with debug logging off and on", la, lb)
        return c
    return h


def debug_validate(mkr):
    def h(ip):
        c = T.Cmp(ip)
        node, order = mkr(ip)
        for rs in (True, False):
            def run():
                v = collecting(ip, raise_at_first_violation=rs, allowed_layer_identifiers=["lemma"])
                o = run_validate(ip, v, node)
                return o, ip.getattr(v, "errors"), ip.getattr(v, "warnings")
            a, b = twice(ip, run)
            same_outcome(ip, c, "debug", "validation with debug logging off and on", a[0], b[0])
            same_deep(ip, c, "debug", "validator.errors with debug logging off and on", a[1], b[1])
            same_deep(ip, c, "debug", "validator.warnings with debug logging off and on", a[2], b[2])
        return c
    return h


def debug_script(x, y, rs, wae):
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)
        node = script_tree(ip, [(x, ""), (y, "")])

        def run():
            v = ip.call(m.ns.vars["Scripted"], [], {"raise_at_first_violation": rs, "warnings_as_errors": wae})
            o = run_validate(ip, v, node)
            return o, ip.getattr(v, "errors"), ip.getattr(v, "warnings")
        a, b = twice(ip, run)
        same_outcome(ip, c, "debug", "validation with debug logging off and on", a[0], b[0])
        same_deep(ip, c, "debug", "validator.errors with debug logging off and on", a[1], b[1])
        same_deep(ip, c, "debug", "validator.warnings with debug logging off and on", a[2], b[2])
        return c
    return h


def debug_onecall(shape, script):
    def h(ip):
        c = T.Cmp(ip)
        for kw in ({}, {"return_errors": True}, {"return_errors": True, "warnings_as_errors": True}):
            def run():
                w = World(ip, shape, script)
                return outcome(lambda: ip.call(T.get(ip, "fcsql", "validate"), [w.query], kw))
            a, b = twice(ip, run)
            same_outcome(ip, c, "debug", "validate with debug logging off and on", a, b)
        return c
    return h


# ------------------------------------------------------------------------ P19
def p19(ck):
    ck.rule("Effects: no API call changes an object that existed before it (module and class tables, default arguments, "
            "function attributes), except lookup caches that start empty; no mutable object is reachable from two "
            "results, parsers or validators; parser and validator configuration, argument lists and the tree given to "
            "validation, visit, printing and accessors are structurally the same afterwards; the outcome of a call "
            "after any other call (same or other object, also a failed one) equals its outcome alone.")
    sts = S.structural(ck.tier)
    fam = [(s, []) for s in itertools.islice(sts, 0, None, 1 if ck.thorough else 5)]
    fam += [(s, []) for s in itertools.islice(S.quants(), 0, None, 2)]
    for q, body in itertools.islice(S.values(ck.tier), 0, None, 1 if ck.thorough else 9):
        fam.append((("query", ("simple", ("implicit", ("re", body, None, q)), None), None), []))
    for fl in (["?"], ["i", "d"], ["l", "i"]):
        fam.append((("query", ("simple", ("implicit", ("re", ["c"], fl)), "+"), "s"), []))
    for s in SHAPES:
        for sc in scripts(ntok(s), 1):
            fam.append((s, sc))
    for f in ("ValueError", "RecursionError"):
        fam.append((SHAPES[1], [("L",), ("raise", f)]))
    for i, (s, sc) in enumerate(fam):
        ck.sweep("effects of parsing", f"{s} with {sc}", parse_effects(s, sc, i))
    pairs = PAIRS if not ck.thorough else PAIRS + [(s, []) for s in itertools.islice(sts, 0, None, 23)]
    for a, b in itertools.product(pairs, repeat=2):
        for fresh in (False, True):
            ck.sweep("parse after parse", f"{a} then {b}, {'two parsers' if fresh else 'one parser'}",
                     seq_parse(a, b, fresh))
    for a, b in itertools.product(PAIRS[:6], repeat=2):
        for how in ("parse", "can_parse", "antlr_parse", "validate"):
            if how == "validate":       # constant layers: the validator branches on them
                a, b = (((KNOWN, x[1]) if x[0] is SHAPES[1] else x) for x in (a, b))
            ck.sweep("call after call", f"{how}: {a} then {b}", seq_func(a, b, how))
    for a, b in itertools.product(CONFIGS, repeat=2):
        ck.sweep("differently configured parsers", f"{a} then {b}", seq_config(a, b))
    for lab, mkr in trees_for_visit().items():
        ck.sweep("effects of validating, visiting, printing and querying", lab, tree_effects(mkr))
    for lay in ("text", "word", "foo", "pos", "x-a"):
        for q in (None, "q", "z"):
            ck.sweep("effects of validating, visiting, printing and querying", f"expression {q}:{lay}",
                     tree_effects(lambda ip, lay=lay, q=q: _pair(expression(ip, q=q, i=lay))))
    acts = [[("", "")], [("e", "")], [("w", "e")], [("we", ""), ("e", "")]]
    for a, b in itertools.product(acts, repeat=2):
        for rs in (True, False):
            for fresh in (True, False):
                ck.sweep("validation after validation", f"{a} then {b}, raise {rs}, "
                                                        f"{'two validators' if fresh else 'one validator'}",
                         seq_validate(a, b, rs, fresh))
    for a, b in itertools.product(VCONFIGS, repeat=2):
        ck.sweep("differently configured validators", f"{a} then {b}", seq_vconfig(a, b))
    for a, b in itertools.permutations(MADE, 2):
        for k in KINDS:
            ck.sweep("visit after visit", f"{k}: {a} then {b}", seq_visit(k, a, b))
    ck.sweep("sharing", "parsers, validators, visitors and trees", sharing)


PAIRS = [(SHAPES[0], []), (SHAPES[1], []), (SHAPES[2], []), (SHAPES[0], [("L",)]), (SHAPES[1], [("P", 0), ("L",)]),
         (("query", ("simple", ("implicit", S.R), "2,1"), None), []), (SHAPES[0], [("raise", "KeyError")]),
         (("query", ("simple", ("implicit", ("re", ["c"], ["i"])), "*"), None), []),
         (("query", ("simple", ("implicit", ("re", ["c"], ["d", "C"])), "n"), "u"), []),
         (("query", ("simple", ("implicit", ("re", ["c"], ["l", "d"])), "n"), "u"), [])]
CONFIGS = [{}, {"default_identifier": "word"}, {"default_operator": ("Operator", "NOT_EQUALS")},
           {"unicode_normalization_form": None}, {"unicode_normalization_form": "NFKD"}, {"enableSourceLocations": True},
           {"enableSourceLocations": False}]
VCONFIGS = [{}, {"allowed_layer_identifiers": ["foo"]}, {"allowed_layer_identifiers": ["bar", "pos"]},
            {"allowed_layer_qualifiers": [("pos", ["q"])]}, {"allowed_layer_qualifiers": [("pos", None)]},
            {"allowed_layer_identifiers": ["text", "foo"]},
            {"allowed_layer_identifiers": ["phonetic", "norm", "orth", "pos", "lemma", "text"]},
            {"allowed_layer_identifiers": []}, {"allowed_layer_identifiers": ["word", "x-a", "word"],
                                                "allowed_layer_qualifiers": [("text", ["q"]), ("foo", ["q", "z"])]},
            {"warnings_as_errors": True}, {"raise_at_first_violation": True}, {"query": "some query text"}]


def _pair(n):
    return n, [n]


def owner(ip, o):
    """how a module-level object is called"""
    for m in ip.modules.values():
        if m.ns is o:
            return f"module {m.name}"
        for k, v in m.ns.vars.items():
            if v is o:
                return f"{m.name}.{k}"
            if isinstance(v, ClassV):
                if v.ns is o:
                    return f"class {m.name}.{k}"
                for k2, v2 in v.ns.vars.items():
                    if v2 is o:
                        return f"{m.name}.{k}.{k2}"
                    f = getattr(v2, "f", v2)
                    if isinstance(f, FuncV) and any(x is o for x in list(f.defaults) + list(f.kwdefaults.values())):
                        return f"a default argument of {f.qual}"
            if isinstance(v, FuncV) and any(x is o for x in list(v.defaults) + list(v.kwdefaults.values())):
                return f"a default argument of {v.qual}"
    if isinstance(o, FuncV):
        return f"function {o.qual}"
    return repr(o)[:60]


def is_default(ip, o):
    return owner(ip, o).startswith("a default argument")


def check_effects(ip, c, what):
    """objects that existed before the run and were changed by it"""
    for o, snap, site in list(ip.journal.values()):
        if isinstance(o, NS) and not any(m.ns is o for m in ip.modules.values() if getattr(m, "path", None)) and not any(
                isinstance(v, ClassV) and v.ns is o for m in ip.modules.values() for v in m.ns.vars.values()):
            pass
        now = o.snap()
        if same_snap(snap, now):
            continue
        if isinstance(o, Inst) and isinstance(o.cls, ExtC) and not (
                o.cls.dotted == "logging.Logger" and {"disabled", "propagate", "level"} & set(now)):
            continue        # functools caches, loggers
        if isinstance(o, DictV) and not snap and not is_default(ip, o):
            continue        # a lookup table filled on demand
        if isinstance(o, NS):
            ch = [k for k in now if k not in snap or snap[k] is not now[k]]
            if all(k.startswith("_") and (k not in snap or snap[k] is None) for k in ch):
                continue    # initialised on demand
            what2 = f"{owner(ip, o)}: {', '.join(sorted(ch))}"
        elif isinstance(o, (FuncV, Inst)):
            ch = [k for k in now if k not in snap or snap[k] is not now[k]]
            if all(k.startswith("_") and (k not in snap or snap[k] is None) for k in ch):
                continue
            what2 = f"{owner(ip, o)}.{', '.join(sorted(ch))}"
        else:
            what2 = owner(ip, o)
        c.fail("state", f"{what} changes {what2}, which outlives the call", site)
    for key, was, now, site in ip.X.lib_changes(ip):
        c.fail("state", f"{what} changes a setting of the whole process, {key}, from {show(was)} to {show(now)[:60]}",
               site)
    c.n += 1


def id_terms(v, out, depth=0):
    """objects whose id() occurs in the value"""
    if isinstance(v, Term):
        if v.op == "id":
            out.append(v.args[0])
        elif depth < 6:
            for x in v.args:
                id_terms(x, out, depth + 1)
    elif isinstance(v, Tup):
        for x in v.items:
            id_terms(x, out, depth + 1)


def held_ids(ip, roots):
    """(addresses kept by the roots and the changed objects of the package: id -> (object, holder); objects they keep)"""
    todo = list(roots) + [o for o, _, _ in ip.journal.values()]
    seen, found = {}, {}
    while todo:
        o = todo.pop()
        if isinstance(o, PyExc):
            o = o.inst
        if isinstance(o, Tup):
            todo += o.items
            continue
        if not isinstance(o, Obj) or id(o) in seen or isinstance(o, IterV):
            continue
        seen[id(o)] = o
        ids, parts = [], []
        if isinstance(o, SetV):
            parts = list(o.d.values())
        elif isinstance(o, DictV):
            parts = [x for kv in o.d.values() for x in kv]
        elif isinstance(o, ListV):
            parts = list(o.items)
        elif isinstance(o, (Inst, FuncV)):
            parts = list(o.attrs.values())
        elif isinstance(o, NS):
            parts = list(o.vars.values())
        for x in parts:
            id_terms(x, ids)
        todo += parts
        for x in ids:
            if isinstance(x, Obj) and x.gen:
                found[id(x)] = (x, o)
    return found, seen


def stale_ids(ip, c, what, before, roots):
    """addresses of objects of an earlier call (`before`), kept by what does not keep the objects alive"""
    c.n += 1
    found, seen = held_ids(ip, roots)
    for i, (x, o) in found.items():
        if i in before and i not in seen:
            c.fail("state", f"after {what}, {owner(ip, o)} still holds the address of {show(x)[:60]} of an earlier call "
                            f"but not the object: a later object at that address is taken for it",
                   getattr(o, "made", None))
            return


def same_snap(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y or akey(x) == akey(y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(a[k] is b[k] or veq(a[k], b[k]) for k in a)
    return True


def veq(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(veq(p, q) for p, q in zip(x, y))
    return akey(x) == akey(y)


def reach(o, skip, limit=20000):
    """mutable objects reachable from o: id -> (object, path)"""
    out = {}
    todo = [(o, "result")]
    while todo and len(out) < limit:
        o, p = todo.pop()
        if isinstance(o, PyExc):
            o = o.inst
        if isinstance(o, Tup):
            todo += [(x, f"{p}[{i}]") for i, x in enumerate(o.items)]
            continue
        if isinstance(o, BoundM):
            continue
        if not isinstance(o, Obj) or isinstance(o, (FuncV, NS, IterV)) or id(o) in out or id(o) in skip:
            continue
        if isinstance(o, Inst):
            if is_const(o):
                continue
            if not frozen(o):
                out[id(o)] = (o, p)
            todo += [(x, f"{p}.{k}") for k, x in o.attrs.items()]
        elif isinstance(o, ListV):
            out[id(o)] = (o, p)
            todo += [(x, f"{p}[{i}]") for i, x in enumerate(o.items)]
        elif isinstance(o, SetV):
            if not o.frozen:
                out[id(o)] = (o, p)
        elif isinstance(o, DictV):
            out[id(o)] = (o, p)
            todo += [(x, f"{p}[{show(k)[:20]}]") for k, x in o.d.values()]
    return out


def no_sharing(ip, c, what, named, skip=()):
    """no mutable object reachable from two of the values; none that existed before the run"""
    seen = {}
    sk = {id(x) for x in skip}
    for lab, v in named:
        for i, (o, p) in reach(v, sk).items():
            c.n += 1
            if o.gen == 0:
                c.fail("state", f"{what}: {lab} ({p}) holds the mutable object {owner(ip, o)} of the package",
                       getattr(o, "made", None))
            elif i in seen:
                c.fail("state", f"{what}: {lab} ({p}) and {seen[i][0]} ({seen[i][1]}) share a mutable object "
                                f"{show(o)[:60]}", getattr(o, "made", None))
            else:
                seen[i] = (lab, p)


def config(ip, o):
    """snapshot of the public attributes of a parser or validator other than its results"""
    return {k: v for k, v in o.attrs.items() if not k.startswith("_") and k not in ("errors", "warnings", "stack")}


def snapshot(ip, v, memo=None):
    """deep copy of an abstract value (same classes, fresh containers)"""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Inst) and not is_const(v):
        n = memo[id(v)] = Inst(v.cls, {}, v.label)
        n.attrs = {k: snapshot(ip, x, memo) for k, x in v.attrs.items()}
        return n
    if isinstance(v, ListV):
        n = memo[id(v)] = ListV([], v.kind)
        n.items = [snapshot(ip, x, memo) for x in v.items]
        return n
    if isinstance(v, Tup):
        return Tup([snapshot(ip, x, memo) for x in v.items])
    if isinstance(v, (SetV, DictV)):
        n = memo[id(v)] = SetV(v.frozen) if isinstance(v, SetV) else DictV()
        n.d = dict(v.d) if isinstance(v, SetV) else {k: (a, snapshot(ip, b, memo)) for k, (a, b) in v.d.items()}
        return n
    return v


def parse_effects(shape, script, i):
    def h(ip):
        c = T.Cmp(ip)
        w = World(ip, shape, script)
        cfg = dict(w.cfg, enableSourceLocations=bool(i % 2))
        ip.lib_user = bool(i // 2 % 2)
        p = T.new_parser(ip, cfg, ["enableSourceLocations"])
        before = config(ip, p)
        k, v, _ = call_parse(ip, w, "method", p)
        after = config(ip, p)
        for n in before:
            c.n += 1
            if n not in after or before[n] is not after[n] and akey(ip.R(before[n])) != akey(ip.R(after[n])):
                c.fail("state", f"parsing changes the parser's {n} from {show(before[n])} to {show(after.get(n))}",
                       T.attr_site(ip, p, n))
        check_effects(ip, c, "parsing")
        w2 = World(ip, shape, script)
        p2 = T.new_parser(ip, cfg, ["enableSourceLocations"])
        k2, v2, _ = call_parse(ip, w2, "method", p2)
        same_outcome(ip, c, "state", "the same query parsed twice", (k, v), (k2, v2))
        if k == "return":
            no_sharing(ip, c, "two parses", [("the first tree", v), ("the second tree", v2)])
        no_sharing(ip, c, "two parsers", [("the first parser", p), ("the second parser", p2)])
        k3, v3, _ = call_parse(ip, World(ip, shape, script), "method", p)
        same_outcome(ip, c, "state", "the same query parsed again by the same parser", (k, v), (k3, v3))
        if k == "return" and k3 == "return":
            no_sharing(ip, c, "two parses by one parser", [("the first tree", v), ("the second tree", v3)])
        return c
    return h


def fresh_ids(ip):
    """the abstract tokens of a World are numbered from 1, so that two Worlds of one shape denote the same query"""


def seq_parse(a, b, fresh):
    def h(ip):
        c = T.Cmp(ip)

        def run(x, p):
            w = World(ip, *x)
            p = p or T.new_parser(ip, w.cfg, [])
            k, v, _ = call_parse(ip, w, "method", p)
            e = ip.getattr(p, "errors")
            return p, (k, v), e, snapshot(ip, e)
        p0, want, we, _ = run(b, None)
        check_effects(ip, c, "parsing")
        ip.pristine()
        p, first, fe, fs = run(a, None)
        fv = snapshot(ip, first[1]) if first[0] == "return" else None
        ids = held_ids(ip, [p])[0]
        p2, got, ge, _ = run(b, None if fresh else p)
        stale_ids(ip, c, "another parse", ids, [p2])
        what = "a query parsed after another one"
        same_outcome(ip, c, "state", what, want, got)
        same_deep(ip, c, "state", f"parser.errors of {what}", we, ge)
        if fv is not None:
            same_deep(ip, c, "state", "the tree of an earlier parse", fv, first[1])
        same_deep(ip, c, "state", "the error list of an earlier parse", fs, fe)
        _, again, ae, _ = run(a, None if fresh else p)
        same_outcome(ip, c, "state", "a query parsed again after another one", first, again)
        same_deep(ip, c, "state", "parser.errors of a query parsed again after another one", fe if fresh else fs, ae)
        check_effects(ip, c, "parsing")
        return c
    return h


def seq_func(a, b, how):
    def h(ip):
        c = T.Cmp(ip)

        def run(x):
            w = World(ip, *x)
            kw = {"return_errors": True, "warnings_as_errors": True} if how == "validate" else {}
            k, v = outcome(lambda: ip.call(T.get(ip, "fcsql", how), [w.query], kw))
            if how == "antlr_parse" and k == "return":
                v = v is w.tree
            return k, v
        want = run(b)
        check_effects(ip, c, how)
        ip.pristine()
        first = run(a)
        fv = snapshot(ip, first[1]) if first[0] == "return" else None
        ids = held_ids(ip, [])[0]
        got = run(b)
        stale_ids(ip, c, "another call", ids, [])
        same_outcome(ip, c, "state", f"{how} after another call", want, got)
        if fv is not None:
            same_deep(ip, c, "state", f"the result of an earlier {how}", fv, first[1])
        same_outcome(ip, c, "state", f"{how} again after another call", first, run(a))
        if first[0] == got[0] == "return" and how != "antlr_parse":
            no_sharing(ip, c, f"two calls of {how}", [("the first result", first[1]), ("the second result", got[1])])
        check_effects(ip, c, how)
        return c
    return h


def seq_config(a, b):
    def h(ip):
        c = T.Cmp(ip)
        shape = ("query", ("seq", [S.SI, ("simple", ("segment", S.BASICQ), "+")]), None)

        def run(cf):
            w = World(ip, shape, [])
            cfg = T.default_cfg(ip, **cf)
            p = T.new_parser(ip, cfg, list(cf))
            return p, call_parse(ip, w, "method", p)[:2]
        _, want = run(b)
        check_effects(ip, c, "parsing")
        ip.pristine()
        p1 = T.new_parser(ip, T.default_cfg(ip, **b), list(b))
        p2, _ = run(a)
        p3, got = run(b)
        same_outcome(ip, c, "state", "parsing after a differently configured parser was used", want, got)
        w = World(ip, shape, [])
        again = call_parse(ip, w, "method", p1)[:2]
        same_outcome(ip, c, "state", "parsing by the first of several parsers", want, again)
        no_sharing(ip, c, "several parsers", [("the first parser", p1), ("the second", p2), ("the third", p3)])
        check_effects(ip, c, "parsing")
        return c
    return h


def tree_effects(mkr):
    def h(ip):
        c = T.Cmp(ip)
        m, cm, sm = None, client(ip), scripted(ip)
        node, order = mkr(ip)
        for x in order:
            if x.cls.name != "SimpleWithin":
                ip.setattr(x, "location", ip.call(cls(ip, "SourceLocation"), [0, 3]))
        before = snapshot(ip, node)

        def intact(what, site=None):
            same_deep(ip, c, "state", f"the tree after {what}", node, before)

        def quiet(f):
            try:
                return f()
            except PyExc as e:
                return e
        for rs in (True, False):
            ids = ip.new(ListV(["pos", "lemma", "pos"]))
            inner = ip.new(ListV(["z", "q", "z"]))
            quals = ip.new(ListV([Tup(("text", None)), Tup(("pos", inner)), Tup(("lemma", None))]))
            given = [list(x.items) for x in (ids, inner, quals)]
            for kw in ({}, {"allowed_layer_identifiers": ids, "allowed_layer_qualifiers": quals}):
                v = ip.call(vget(ip, "FCSQLValidator"), [], dict(kw, raise_at_first_violation=rs, query="some query"))
                cfg = snapshot(ip, ip.new(Inst(v.cls, config(ip, v))))
                for how in ("validate", "is_valid"):
                    run_validate(ip, v, node, how)
                    intact(how)
                    same_deep(ip, c, "state", f"the validator's configuration after {how}",
                              Inst(v.cls, config(ip, v)), cfg)
                c.n += 1
                if [x.items for x in (ids, inner)] != given[:2] or list(map(id, quals.items)) != list(map(id, given[2])):
                    c.fail("state", f"validating changes the given lists: {show(ids)}, {show(quals)}")
            for lev in ("error", "warning"):
                for k in KINDS:
                    v = ip.call(sm.ns.vars["Everywhere"], [k, lev], {"raise_at_first_violation": rs, "query": "abcdef"})
                    run_validate(ip, v, node)
            intact("reporting issues")
        for name, args in (("Log", []), ("Plain", []), ("Hooks", [1])):
            v = ip.call(cm.ns.vars[name], args)
            quiet(lambda: ip.call(ip.getattr(v, "visit"), [node]))
            quiet(lambda: ip.call(ip.getattr(node, "accept"), [v]))
            intact("visiting")
        s1, r1 = quiet(lambda: ip.str(node)), quiet(lambda: ip.B.repr_(ip, node) if hasattr(ip.B, "repr_") else None)
        intact("printing")
        s2 = quiet(lambda: ip.str(node))
        if not isinstance(s1, PyExc) and not isinstance(s2, PyExc):
            same_deep(ip, c, "state", "printing twice", s1, s2)
        for x in order:
            for f, a in ACCESS:
                if ip.class_lookup(x.cls, f) is None:
                    continue
                args = []
                for y in a:
                    args.append(cls(ip, y[1:]) if isinstance(y, str) and y.startswith("@") else
                                em(ip, *y) if isinstance(y, tuple) else y)
                quiet(lambda: ip.call(ip.getattr(x, f), args))
            for f in ("child_count", "operands"):
                if ip.class_lookup(x.cls, f) is not None:
                    quiet(lambda: ip.getattr(x, f))
        intact("querying")
        check_effects(ip, c, "validating, visiting, printing or querying a tree")
        return c
    return h


ACCESS = [("get_child", [0]), ("get_child", [5]), ("get_child", [0, "@Expression"]), ("get_first_child", []),
          ("get_first_child", ["@Expression"]), ("get_last_child", []), ("get_last_child", ["@ExpressionWildcard"]),
          ("has_node_type", [("QueryNodeType", "EXPRESSION")]), ("get_query", []), ("get_within", []),
          ("get_expression", []), ("get_content", []), ("has_layer_identifier", ["text"]),
          ("has_layer_qualifier", ["q"]), ("is_layer_qualifier_empty", []), ("has_operator", [("Operator", "EQUALS")]),
          ("is_regex_flags_empty", []), ("has_regex_flag", [("RegexFlag", "CASE_INSENSITIVE")])]


def seq_validate(a, b, rs, fresh):
    def h(ip):
        c = T.Cmp(ip)
        m = scripted(ip)

        def run(spec, v):
            v = v or ip.call(m.ns.vars["Scripted"], [], {"raise_at_first_violation": rs})
            node = script_tree(ip, spec)
            o = run_validate(ip, v, node)
            e, w = ip.getattr(v, "errors"), ip.getattr(v, "warnings")
            return v, o, Tup((e, w)), node
        v0, want, l0, _ = run(b, None)
        check_effects(ip, c, "validating")
        ip.pristine()
        v1, first, l1, _ = run(a, None)
        s1 = snapshot(ip, l1)
        ids = held_ids(ip, [v1])[0]
        v2, got, l2, _ = run(b, None if fresh else v1)
        stale_ids(ip, c, "another validation", ids, [v2])
        same_outcome(ip, c, "state", "validation after another one", want, got)
        same_deep(ip, c, "state", "errors and warnings of a validation after another one", l0, l2)
        same_deep(ip, c, "state", "errors and warnings of an earlier validation", s1, l1)
        if fresh:
            no_sharing(ip, c, "two validators", [("the first validator", v1), ("the second", v2)])
        _, again, l3, _ = run(a, None if fresh else v1)
        same_outcome(ip, c, "state", "validation again after another one", first, again)
        same_deep(ip, c, "state", "errors and warnings of a validation again after another one", s1, l3)
        check_effects(ip, c, "validating")
        return c
    return h


def seq_visit(k, a, b):
    def h(ip):
        c = T.Cmp(ip)
        m = client(ip)

        def run(n, base):
            node, _ = sample(ip, k)
            v = ip.call(ip.call(m.ns.vars[f"make_{n}"], [cls(ip, base)]), [])
            o = outcome(lambda: ip.call(ip.getattr(v, "visit"), [node]))
            return o, v.attrs["log"]
        for base in ("QueryVisitor", "QueryVisitorAdapter"):
            want, l0 = run(b, base)
            check_effects(ip, c, "visiting")
            ip.pristine()
            run(a, base)
            ids = held_ids(ip, [])[0]
            got, l2 = run(b, base)
            stale_ids(ip, c, "another visit", ids, [])
            same_outcome(ip, c, "state", "visit after a visit by another visitor", want, got)
            same_deep(ip, c, "state", "calls of handlers after a visit by another visitor", l0, l2)
        check_effects(ip, c, "visiting")
        return c
    return h


def seq_vconfig(a, b):
    def h(ip):
        c = T.Cmp(ip)

        def tree():
            es = [expression(ip, q=q, i=i) for i in ("text", "foo", "pos", "word") for q in (None, "q", "z")]
            for e in es:
                ip.setattr(e, "location", ip.call(cls(ip, "SourceLocation"), [1, 4]))
            return ip.call(cls(ip, "ExpressionOr"), [ip.new(ListV(es))])
        node = tree()

        def run(cf, v=None):
            v = v or collecting(ip, **cf)
            o = run_validate(ip, v, node)
            return v, o, snapshot(ip, Tup((ip.getattr(v, "errors"), ip.getattr(v, "warnings"))))
        _, want, l1 = run(b)
        check_effects(ip, c, "validating")
        ip.pristine()
        node = tree()
        v1 = collecting(ip, **b)
        v2, _, _ = run(a)
        v3, got, l3 = run(b)
        same_outcome(ip, c, "state", "validation after a differently configured validator was used", want, got)
        same_deep(ip, c, "state", "errors and warnings after a differently configured validator was used", l1, l3)
        _, again, l4 = run(b, v1)
        same_outcome(ip, c, "state", "validation by the first of several validators", want, again)
        same_deep(ip, c, "state", "errors and warnings by the first of several validators", l1, l4)
        skip = [o for o, _ in reach(node, set()).values()]
        no_sharing(ip, c, "several validators", [("the first", v1), ("the second", v2), ("the third", v3)], skip)
        check_effects(ip, c, "validating")
        return c
    return h


def sharing(ip):
    c = T.Cmp(ip)
    cm = client(ip)
    named = []
    for i in range(2):
        named += [(f"parser {i}", T.new_parser(ip, T.default_cfg(ip), [])), (f"validator {i}", collecting(ip)),
                  (f"visitor {i}", ip.call(cm.ns.vars["Log"], []))]
        for k in KINDS:
            named.append((f"{k} node {i}", sample(ip, k)[0]))
        named.append((f"plain node {i}", ip.call(cls(ip, "QueryNode"), [em(ip, "QueryNodeType", "QUERY_SEQUENCE")])))
        named.append((f"plain wildcard {i}", leaf(ip)))
    no_sharing(ip, c, "separate objects", named)
    return c
