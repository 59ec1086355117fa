"""C14: evaluating an objective, derivative or prediction leaves the model unchanged"""
import ast
import os
import re
from sa.check import Check, VERIF
from sa.project import Project
from sa.faint import Faint
from sa.state import State
from sa.effects import Analyzer
from checks.c11 import OUT_PARAM

SELF = os.path.join(VERIF, "data", "selftest", "evalstate")
EV = re.compile(r"^_*(neg_?|full_?|profile_?|reduced_?|restricted_?|approx_?|penalized_?)?(log_?like(lihood)?|loss|objective|obj_?fun\w*|func|gradient|grad|hess(ian)?|"
                r"jac(obian)?|deviance|score|information|fisher\w*|predict\w*|fit_?func\w*|fitfunc|vcov|dsigma\w*|d2sigma\w*|dloglike\w*|d2loglike\w*|aic|bic|"
                r"residuals?|implied|average_information|vinv\w*|\w+_apply|derivative|compute_effects|__call__)(_\w+)?$")
PARAMS = {"theta", "params", "eta", "beta", "rho", "tau", "free", "par", "x", "lambda_", "lam", "log_lambda", "theta_chol", "xi"}
NOT = re.compile(r"^_*(fit|post|update|set|make|sim|sample|add|init|optimi|fill|store|assign|register|build|prepare|process|unpack|estimate|rotate|em_|solve|run|step|draw)")


def evaluation(f):
    ps = [p for p in f.params if p != f.selfname]
    if f.selfname is None or f.name == "__init__" or {"classmethod", "staticmethod", "abstractmethod"} & set(f.decs):
        return False
    returns = any(isinstance(n, ast.Return) and n.value is not None for n in f.own_nodes())
    if not returns:
        return False
    if EV.match(f.name):
        return bool(ps) or f.name != "__call__"
    return bool(PARAMS & set(ps)) and not NOT.match(f.name)


def outside_refs(P, S):
    """method names used through anything but a call on the own object"""
    out = set()
    for f in S.fns:
        called = {id(n.func) for n in f.own_nodes() if isinstance(n, ast.Call)}
        for n in f.own_nodes():
            if isinstance(n, ast.Attribute) and n.attr.startswith("_"):
                own = isinstance(n.value, ast.Name) and n.value.id == f.selfname
                if not (own and id(n) in called):
                    sup = isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "super"
                    if not sup:
                        out.add(n.attr)
    return out


# ---------------------------------------------------------------------- what a class offers
FIT = re.compile(r"^_*(fit|post_?fit|optimize|store|finali[sz]e|set_results)\w*$")


def methods_of(P, S, K):
    names = {m for c in P.mro(K) for m in c.methods}
    ms = {m: S.method(K, m) for m in sorted(names)}
    return {m: f for m, f in ms.items() if f is not None and f.selfname}


def direct(f, via, S):
    """the function that contains the write"""
    return via[-1] if via else f.qual


# ---------------------------------------------------------------------- memo of the last argument
def own_attrs(e, me):
    return {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me}


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def tests(f, S, K):
    """(if statement, test expression, parameters compared) whose test compares stored state with a parameter"""
    out = []
    for n in f.own_nodes():
        if isinstance(n, ast.If):
            ps = names(n.test) & set(f.params) - {f.selfname}
            if not ps:
                continue
            at = own_attrs(n.test, f.selfname)
            for c in ast.walk(n.test):     # self._stale(x)
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == f.selfname:
                    g = S.method(K, c.func.attr)
                    if g is not None and g.selfname:
                        at |= {x for b in g.node.body for x in own_attrs(b, g.selfname)}
            if at:
                out.append((n, at, ps))
    return out


def fresh(v, p):
    """True: a copy of the parameter, False: the parameter itself, None: not known"""
    if isinstance(v, ast.Name):
        return False if v.id == p else None
    if isinstance(v, ast.Call):
        name = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
        if name in ("copy", "array", "tuple", "deepcopy", "tobytes", "float", "hash", "tolist", "list", "astype", "str", "bytes", "copy_array"):
            if name == "array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in v.keywords):
                return False if v.args and fresh(v.args[0], p) is False else None
            return True
        if name in ("asarray", "atleast_1d", "asanyarray", "ascontiguousarray", "ravel", "view") and isinstance(v.func, ast.Attribute):
            a = v.args[0] if v.args else v.func.value
            return False if fresh(a, p) is False else None
    return None


def exact_test(t):
    """False when the comparison lets different arguments through as the same one"""
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if name in ("allclose", "isclose", "assert_allclose", "array_equiv"):
                return False
            if name == "any" and any(isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.Eq) for a in n.args for c in ast.walk(a)):
                return False
        if isinstance(n, ast.Compare):
            for s in [n.left] + n.comparators:
                b = s
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(s, ast.Subscript) and (isinstance(b, ast.Attribute) or isinstance(b, ast.Name)):
                    i = s.slice
                    if isinstance(i, (ast.Constant, ast.UnaryOp)):
                        return False
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                return False
    return True


def memo(f, attr, S, K):
    """(verdict, reason): True when attr is kept for the last argument only and looked up by it"""
    ts = tests(f, S, K)
    ws = [n for n in f.own_nodes() if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == f.selfname]
    if not ts or not ws:
        return False, ""
    for n, at, ps in ts:
        inside = {id(x) for b in n.body + n.orelse for x in ast.walk(b)}
        leaves = n.body and isinstance(n.body[-1], ast.Return)
        if not all(id(w) in inside or leaves and w.lineno > n.lineno for w in ws):
            continue
        verdict = None
        for s in f.own_nodes():
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    pairs = list(zip(t.elts, s.value.elts)) if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) else [(t, s.value)]
                    for x, v in pairs:
                        if isinstance(x, ast.Attribute) and x.attr in at and isinstance(x.value, ast.Name) and x.value.id == f.selfname:
                            for p in ps & names(v):
                                r = fresh(v, p)
                                if r is False:
                                    return False, "the key self.%s is the caller's own array, not a copy" % x.attr
                                verdict = True if verdict in (None, True) and r else verdict
        if verdict is None:
            continue
        if not exact_test(n.test):
            return False, "the test at which the kept value is used accepts other arguments than the stored one"
        return True, "kept for the argument it was computed at"
    return False, ""


def lazily(f, attr):
    """the attribute is computed once, from nothing the caller passes"""
    ws = []
    for n in f.own_nodes():
        if isinstance(n, ast.If):
            at = own_attrs(n.test, f.selfname)
            if attr in at or any(isinstance(x, ast.Constant) and x.value == attr for x in ast.walk(n.test)):
                ws += [x for b in n.body + n.orelse for x in ast.walk(b)]
    inside = {id(x) for x in ws}
    tainted = set(f.params) - {f.selfname}
    for _ in range(4):
        for n in f.own_nodes():
            if isinstance(n, (ast.Assign, ast.AugAssign)) and names(n.value) & tainted:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    tainted |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    some = False
    for n in f.own_nodes():
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                    some = True
                    if id(n) not in inside or names(n.value) & tainted:
                        return False
    return some


def counter(S, K, ms, attr):
    """the attribute only counts: it is read by nothing but its own increments and reports of fitting"""
    some = False
    for m, f in ms.items():
        inc = set()
        for n in f.own_nodes():
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                if not isinstance(n.value, ast.Constant):
                    return False
                inc.add(id(n.target))
                some = True
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and id(n) not in inc and m != "__init__" and not FIT.match(m):
                return False
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) and evaluation(f):
                return False
    return some


# ---------------------------------------------------------------------- perturbed and put back
def invariant(v, stored):
    if any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for n in ast.walk(v)):
        return False
    return not names(v) & stored and not (isinstance(v, ast.Constant) and (v.value == 0 or v.value is None or isinstance(v.value, (str, bool))))


def base(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def perturbations(f):
    """(array, line, index, restored) for every array an element of which is set in a loop, used as a whole, and has to be put back"""
    for L in f.own_nodes():
        if not isinstance(L, (ast.For, ast.While)):
            continue
        stored = {n.id for n in ast.walk(L) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        sub = {id(n.value) for n in ast.walk(L) if isinstance(n, ast.Subscript)}
        whole_reset = set()
        for n in ast.walk(L):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and (isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None or
                                                         isinstance(t.slice, ast.Constant) and t.slice.value is Ellipsis):
                        whole_reset.add(ast.dump(t.value))
            if isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Name, ast.Attribute)) and isinstance(n.op, ast.Mult):
                whole_reset.add(ast.dump(n.target).replace("Store()", "Load()"))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "fill":
                whole_reset.add(ast.dump(n.func.value))
        blocks = [b for n in ast.walk(L) for b in (getattr(n, "body", None), getattr(n, "orelse", None)) if isinstance(b, list)]
        for blk in blocks:
            for i, s in enumerate(blk):
                aug = isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub))
                if not (isinstance(s, ast.Assign) or aug) or not invariant(s.value, stored):
                    continue
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if not isinstance(t, ast.Subscript) or not (names(t.slice) & stored):
                        continue
                    x = t.value
                    if base(x) is None or isinstance(x, ast.Name) and x.id in stored or base(x) in stored:
                        continue
                    kx = ast.dump(x)
                    k = ast.dump(t.slice)
                    # an earlier statement of the block undoes nothing: this one may be the undoing of an earlier perturbation
                    if aug and any(isinstance(r, ast.AugAssign) and ast.dump(r.target) == ast.dump(t) for r in blk[:i]):
                        continue
                    later = blk[i + 1:]
                    used = [j for j, r in enumerate(later) for n in ast.walk(r) if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(getattr(n, "ctx", None), ast.Load)
                            and id(n) not in sub and ast.dump(n) == kx]
                    if not used or kx in whole_reset:
                        continue
                    back = False
                    for r in later[min(used):]:
                        for q in ast.walk(r):
                            if isinstance(q, ast.Assign) and any(isinstance(z, ast.Subscript) and ast.dump(z.value) == kx and ast.dump(z.slice) == k for z in
                                                                 [e for z in q.targets for e in (z.elts if isinstance(z, ast.Tuple) else [z])]):
                                if not invariant(q.value, stored) or isinstance(q.value, ast.Constant) and q.value.value == 0 or aug:
                                    back = True
                            if isinstance(q, ast.AugAssign) and ast.dump(q.target) == ast.dump(t):
                                back = True
                    # the whole array is handed to a procedure which may put it back
                    if not back:
                        for r in later[min(used):]:
                            if isinstance(r, ast.Expr) and isinstance(r.value, ast.Call) and any(ast.dump(a) == kx for a in r.value.args) and len(r.value.args) <= 3 and \
                                    names(t.slice) & {n for a in r.value.args for n in names(a)}:
                                back = None
                    yield ast.unparse(x), s.lineno, ast.unparse(t.slice), back


# ---------------------------------------------------------------------- the check
def analyse(P, ob, extra=None):
    A = Faint(P)
    S = State(P, A)
    E = Analyzer(P)
    out = outside_refs(P, S)
    nev = ncls = 0
    done = set()
    for K in P.all_classes():
        ms = methods_of(P, S, K)
        ev = {m: f for m, f in ms.items() if evaluation(f)}
        if not ev:
            continue
        ncls += 1
        entries = {m: f for m, f in ms.items() if m != "__init__" and (not m.startswith("_") or m == "__call__" or m in out and m in ev)}
        kept = {}
        for m, f in ms.items():
            if FIT.match(m) and m not in ev:
                for a, (ln, how, via) in S.summary(K, f).may.items():
                    if how == "assigned" and not any(v.split(".")[-1] in ev for v in via):
                        kept.setdefault(a, []).append(m)
        mut = {}
        for m, f in ev.items():
            for o, w in E.summary(E.fns[id(f.node)], K).mut.items():
                if o[0] == ("S",) and o[1]:
                    mut.setdefault(o[1], []).append((m, w))
        for m, f in ev.items():
            nev += 1
            s = S.summary(K, f)
            where = f.where
            written = [a for a in s.may if a[0] != "@"]
            bad = []
            for a in sorted(written):
                ln, how, via = s.may[a]
                rd = [(r, S.summary(K, g).ue[a]) for r, g in sorted(entries.items()) if a in S.summary(K, g).ue]
                if rd:
                    # the function with the write decides whether it keeps a value for the argument it was computed at
                    q = [g for g in ms.values() if g.qual == direct(f, via, S)] or [f]
                    okm, why = memo(q[0], a, S, K)
                    if okm or lazily(q[0], a) or counter(S, K, ms, a):
                        ob("memo", q[0].where, "self." + a, "ok", why or "computed once from data the caller does not pass")
                    elif why:
                        bad.append(("memo", q[0].where, "self." + a, why))
                    else:
                        bad.append(("leak", q[0].where, "self." + a,
                                    "%s (%s) leaves it for the argument of the last call; %s reads it before writing it" %
                                    (m if q[0] is f else "%s, called from %s" % (q[0].qual, m), how, ", ".join("%s (line %d)" % (r, x[0]) for r, x in rd[:4]))))
                if a in kept and how == "assigned":
                    q = [g for g in ms.values() if g.qual == direct(f, via, S)] or [f]
                    if not lazily(q[0], a):
                        bad.append(("results", q[0].where, "self." + a, "replaces what %s left there" % ", ".join(kept[a][:3])))
            for rule, w, what, why in bad:
                if (rule, w, what) not in done:
                    done.add((rule, w, what))
                    ob(rule, w, what, "violated", why)
            if (where, K.qual) not in done:
                done.add((where, K.qual))
                if not any(b[0] == "leak" for b in bad):
                    ob("leak", where, "on %s: %d attributes written" % (K.name, len(written)), "ok", "")
            # results that share memory with scratch space
            for o in E.summary(E.fns[id(f.node)], K).ret:
                if o[0] == ("S",) and o[1]:
                    hit = [(g, w) for p, gs in mut.items() if p[:len(o[1])] == o[1] for g, w in gs]
                    if (where, "alias", o[1]) in done:
                        continue
                    if any(OUT_PARAM.search(x) for x in f.params):
                        hit = []          # numpy's convention for an output argument: the result is the buffer
                    done.add((where, "alias", o[1]))
                    p = "self." + ".".join(o[1]).replace(".[]", "[...]")
                    ob("alias", where, p, "violated" if hit else "ok",
                       "the returned array is overwritten in place by %s (line %s)" % (hit[0][0], getattr(hit[0][1][0], "lineno", "?")) if hit else "no evaluation modifies it in place")
    seen = {}
    for f in S.fns:
        for x, ln, idx, back in perturbations(f):
            k = (f.where, x, idx)
            n = seen[k] = seen.get(k, 0) + (back is False)
            ob("restore", f.where, "%s[%s]" % (x, idx), "ok" if back else "undecided" if back is None else "violated",
               "set for one step of the loop (line %d) and still set in the next" % ln if back is False else "put back before the next step")
    if extra is not None:
        extra.update(classes_with_evaluations=ncls, evaluation_methods=nev, functions=len(S.fns), summaries=len(S.memo))
    return S


def run():
    c = Check("C14", level="other", floor=500,
              explanation="Flow analysis of object state. Every class in the context of its hierarchy: per method the attributes (typed paths through component objects) read before "
                          "written, certainly written, possibly written, interprocedurally. An objective, derivative or prediction may leave nothing behind that a later call reads, "
                          "unless it is a memo looked up by an equal copy of the argument; it may not replace what fitting stored; its result may not share memory with an "
                          "array the evaluations overwrite; a workspace element set for one step of a loop is put back before the next.",
              rules={"leak": "no attribute possibly written by an evaluation is read before written by any entry point of the class",
                     "memo": "a kept value is looked up by exact comparison with a copy of the argument it was computed at",
                     "results": "an evaluation assigns no attribute that fitting assigns",
                     "alias": "the array an evaluation returns is not one that evaluations modify in place",
                     "restore": "an element set in a loop of an array used as a whole is put back before the next step",
                     "selftest": "the rules report the known-bad and pass the known-good examples"})

    def safely(P, ob, extra):
        try:
            analyse(P, ob, extra)
        except RecursionError as ex:
            c.ob("leak", "project", "analysis", "undecided", ex)
    safely(Project(), c.ob, c.extra)
    hits = {}
    T = Project(root=SELF)

    def note(rule, where, what, status, detail=""):
        if status == "violated":
            hits.setdefault(where.split(":")[1].split(".")[0], set()).add(rule)
    safely(T, note, None)
    for K in T.all_classes():
        n = K.name.lower()
        if n.startswith("bad"):
            c.ob("selftest", K.qual, "reported", "ok" if hits.get(K.name) else "undecided", ",".join(hits.get(K.name, ())))
        elif n.startswith("good"):
            c.ob("selftest", K.qual, "not reported", "undecided" if hits.get(K.name) else "ok", ",".join(hits.get(K.name, ())))
    return c.finish()
