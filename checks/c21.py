"""C21: options a caller sets take effect"""
import ast
import json
import os
from sa.check import Check, VERIF
from sa.project import Project
from sa.faint import Faint, absence_tests

INTERFACE = os.path.join(VERIF, "data", "c21_interface.json")


def stub(f):
    """interface declarations: nothing but a docstring, pass, raise or a constant result"""
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or all(isinstance(s, (ast.Pass, ast.Raise)) for s in b) or \
        len(b) == 1 and isinstance(b[0], ast.Return) and (b[0].value is None or isinstance(b[0].value, ast.Constant))


def public(f):
    return f.outer is None and (not f.name.startswith("_") or f.name in ("__init__", "__call__")) and \
        not any(x.startswith("_") and not x.startswith("__") for x in f.qual.split(".")[:-1])


def defaults(g):
    a = g.node.args
    pos = a.posonlyargs + a.args
    return {x.arg for x in pos[len(pos) - len(a.defaults):]} | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


class Interface:
    """parameters that exist so that a family of routines shares one signature (committed list)"""
    def __init__(self):
        with open(INTERFACE) as h:
            d = json.load(h)
        self.exact = {(e["rule"], e["where"], e["what"]): e["why"] for e in d["entries"]}
        self.known = set(d["functions"])
        self.byname = {}
        for (r, w, p), why in self.exact.items():
            self.byname.setdefault((r, w.split(":")[-1].split(".")[-1], p), why)

    def why(self, rule, where, what):
        r = self.exact.get((rule, where, what))
        if r is None and where not in self.known:
            # a function that did not exist when the list was made: an implementation moved or split
            r = self.byname.get((rule, where.split(":")[-1].split(".")[-1], what))
        return r


def callee_defaults(A, g):
    return defaults(g) - A.dead.get(id(g.node), set())


ALT = {"rng": "seed", "seed": "rng"}     # two spellings of one option


def forwards(A, f, live):
    """(call, callee, option) of project calls in f whose callee has an option the caller has too; with whether it is passed"""
    dflt = defaults(f)
    for call in f.own_nodes():
        if not isinstance(call, ast.Call):
            continue
        ts = A.targets(f, call)
        if not ts:
            # callbacks handed to optimisers and numerical derivatives take their options through args=
            yield from callbacks(A, f, call, live, None)
            continue
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            continue
        for g, drop in ts:
            a = g.node.args
            pos = [x.arg for x in a.posonlyargs + a.args][1 if drop else 0:]
            given = set(pos[:len(call.args)]) | {k.arg for k in call.keywords}
            for q in sorted(callee_defaults(A, g) & live & dflt):
                yield call, g, q, q in given or q in ALT and ALT[q] in given
            if "args" in pos:
                yield from callbacks(A, f, call, live, given)


def callbacks(A, f, call, live, given):
    has = any(k.arg == "args" for k in call.keywords) or bool(given and "args" in given) or any(k.arg is None for k in call.keywords)
    ext = None
    if given is None:
        ext = A.P.resolve_expr(f.module, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        if not (ext and ext[0] == "ext" and ext[1].startswith("scipy.optimize")):
            return
    for x in call.args + [k.value for k in call.keywords]:
        if isinstance(x, (ast.Attribute, ast.Name)):
            ts = A.targets(f, ast.Call(func=x, args=[], keywords=[]))
            for g, drop in ts or ():
                if g.name == "__init__":
                    continue
                for q in sorted(callee_defaults(A, g) & live & defaults(f)):
                    yield call, g, q, has


# ------------------------------------------------------------------ user dictionaries and defaults
def sources(f):
    """name -> what its value can be: 'user' (from a parameter), 'default' (a literal mapping)"""
    src = {p: {"user"} for p in f.params}
    for _ in range(3):
        for n in f.own_nodes():
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                s = expr_sources(n.value, src)
                if s:
                    src.setdefault(n.targets[0].id, set()).update(s)
    return src


def literal_map(e):
    if isinstance(e, ast.Dict):
        return bool(e.keys) and all(k is not None for k in e.keys)
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and bool(e.keywords) and not e.args and all(k.arg for k in e.keywords)


def expr_sources(e, src):
    if isinstance(e, ast.Name):
        return set(src.get(e.id, ()))
    if literal_map(e):
        return {"default"}
    if isinstance(e, ast.IfExp):
        return expr_sources(e.body, src) | expr_sources(e.orelse, src)
    if isinstance(e, ast.BoolOp):
        return set().union(*(expr_sources(v, src) for v in e.values))
    if isinstance(e, ast.Call):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "dict" and len(e.args) == 1:
            return expr_sources(e.args[0], src)
        if isinstance(fn, ast.Attribute) and fn.attr == "copy" and not e.args:
            return expr_sources(fn.value, src)
    return set()


def merges(f):
    """(node, description, sources in order of precedence, later wins)"""
    src = sources(f)
    for n in f.own_nodes():
        if isinstance(n, ast.Dict) and any(k is None for k in n.keys) and len(n.keys) > 1:
            parts = [expr_sources(v, src) if k is None else
                     {"user"} if any(isinstance(x, ast.Name) and "user" in src.get(x.id, ()) for x in ast.walk(v)) else {"default"}
                     for k, v in zip(n.keys, n.values)]
            yield n, parts
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            a, b = expr_sources(n.left, src), expr_sources(n.right, src)
            if a and b:
                yield n, [a, b]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict" and n.args and n.keywords:
            parts = [expr_sources(n.args[0], src)]
            for k in n.keywords:
                parts.append(expr_sources(k.value, src) if k.arg is None else {"set"})
            yield n, parts
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and len(n.args) == 1:
            a, b = expr_sources(n.func.value, src), expr_sources(n.args[0], src)
            if a and b:
                yield n, [a, b]


def run():
    P = Project()
    A = Faint(P, True)
    A.solve()
    A.solve_given()
    chk = Check("C21", floor=2400, explanation="backward faint-variable dataflow over every function with summaries across the resolved call graph: "
                "an option whose value reaches no result, no stored attribute that is ever read, no effect and no decision guarding one is dropped",
                rules={"option": "the value of every parameter of a public function reaches an effect",
                       "given": "a parameter tested for None still reaches an effect when it is given",
                       "forward": "an option a function shares by name with a routine it calls is passed on (directly, or through args= of an optimiser or numerical derivative)",
                       "defaults": "where a mapping of defaults is merged with the caller's mapping, the caller's entries win",
                       "keywords": "collected keyword arguments (**kwargs) are used"})
    I = Interface()
    why, nfun, skipped = {}, 0, 0

    def ob(rule, where, what, ok, detail):
        if not ok:
            r = I.why(rule, where, what)
            if r:
                why[r] = why.get(r, 0) + 1
                return
        chk.ob(rule, where, what, "ok" if ok else "violated", "" if ok else detail)

    for f in A.fns:
        if f.outer is not None:
            continue
        nfun += 1
        dead = A.dead.get(id(f.node), set())
        given = A.given.get(id(f.node), set())
        a = f.node.args
        own = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg != f.selfname]
        if f.is_method and not f.static and own and (a.posonlyargs + a.args)[0].arg == own[0]:
            own = own[1:]
        loc = "%s:%d" % (f.module.relpath, f.node.lineno)
        if public(f):
            if stub(f):
                skipped += 1
            else:
                tested = absence_tests(f)
                for p in own:
                    ob("option", f.where, p, p not in dead, "parameter '%s' (%s) reaches no result, attribute, effect or decision: whatever the caller passes is ignored" % (p, loc))
                    if p not in dead and (p in tested or p in given):
                        ob("given", f.where, p, p not in given, "parameter '%s' (%s) is only tested for None: a value the caller passes is replaced or dropped" % (p, loc))
                if a.kwarg and not f.name.startswith("__"):
                    nm = a.kwarg.arg
                    used = any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))
                    ob("keywords", f.where, nm, used, "'**%s' (%s) is accepted and never looked at: misspelt or unsupported options are silently ignored" % (nm, loc))
        live = set(own) - dead
        agg = {}
        for call, g, q, ok in forwards(A, f, live):
            agg.setdefault((g.qual, q), []).append((ok, call))
        for (g, q), xs in sorted(agg.items()):
            bad = [c for ok, c in xs if not ok]
            ob("forward", f.where, "%s(%s)%s" % (g, q, " in one of its calls" if bad and len(bad) < len(xs) else ""), not bad,
               "'%s' is an option of %s and of %s, which it calls without it: %s (%s:%d)" % (
                   q, f.qual, g, ast.unparse(bad[0])[:120] if bad else "", f.module.relpath, bad[0].lineno if bad else 0))
        for k, (n, parts) in enumerate(merges(f)):
            if not any("user" in s for s in parts) or not any("default" in s for s in parts):
                continue
            bad = any("user" in parts[i] and "default" in parts[j] and "user" not in parts[j] for i in range(len(parts)) for j in range(i + 1, len(parts)))
            ob("defaults", f.where, "merge %s" % ast.unparse(n)[:80], not bad, "the defaults overwrite what the caller passed: %s (%s:%d)" % (ast.unparse(n)[:120], f.module.relpath, n.lineno))
    chk.extra = dict(functions=nfun, declarations_skipped=skipped, calls=A.calls, interface=why)
    return chk.finish()
