"""C20: finite-difference helpers are consistent stencils of the derivative they are named after.

Every helper is abstractly interpreted on a polynomial with symbolic
coefficients, a symbolic extra argument and a symbolic step; the value it
returns is expanded in the step.  The constant term has to be the formal
derivative, negative powers have to vanish (consistency), and central and
complex-step formulas have no first-order term."""
import itertools
import re
from fractions import Fraction
import sympy as sp
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa.interp import dense_arr, from_flat, concrete_dims, FuncVal
from .c07 import safe

ND = "pystatsm.utilities.numerical_derivs"
STEP, ARG, IM = "step", "arg", "1j"
KINDS = [(r"^fo_fc_", "grad"), (r"^so_fc_|^approx_hess$", "hess"), (r"^so_gc_", "hessg"), (r"^grad_approx$", "grad"), (r"^jac_approx2$", "jacT"),
         (r"^jac_", "jac"), (r"^hess_", "hessv"), (r"^finite_diff$|^fd_derivative$", "scalar")]
CENTRAL = re.compile(r"_cd$|_cs$|approx|^finite_diff$|^fd_derivative$")
XS = {2: [Fraction(3, 2), Fraction(-2, 3)], 3: [Fraction(3, 2), Fraction(-2, 3), Fraction(0)], 1: [Fraction(5, 4)]}


def coef(*k):
    return sym("c" + "_".join(map(str, k)), dom="real")


def poly(xs, tag, deg):
    """generic polynomial of total degree <= deg in the given terms"""
    out = [coef(tag)]
    for d in range(1, deg + 1):
        for ix in itertools.combinations_with_replacement(range(len(xs)), d):
            out.append(tm.mul(coef(tag, *ix), *[xs[i] for i in ix]))
    return tm.add(*out)


def elems(v):
    t = as_tensor(v)
    d = dense_arr(t)
    n = concrete_dims(t)
    return [tm.asnum(d[ix]) for ix in itertools.product(*[range(k) for k in n])]


def sy(t):
    """term -> sympy expression (rational functions only)"""
    op = t.op
    if op == "num":
        return sp.Rational(t.args[0].numerator, t.args[0].denominator)
    if op == "sym" and not t.args[1]:
        return sp.Symbol(t.args[0])
    if op == "add":
        return sp.Add(*[sy(a) for a in t.args])
    if op == "mul":
        return sp.Mul(*[sy(a) for a in t.args])
    if op == "pow":
        return sp.Pow(sy(t.args[0]), sy(t.args[1]))
    if op == "fn" and t.args[0] == "abs":
        a = sy(t.args[1])
        c, r = a.as_coeff_Mul()
        if r in (sp.Symbol(STEP), sp.Integer(1)):
            return abs(c) * r
    if op == "ite":
        c = t.args[0]
        if c.op == "rel":
            a, b = sy(c.args[1]), sy(c.args[2])
            if (a - b).is_number:
                q = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": sp.Eq(a, b), "!=": sp.Ne(a, b)}.get(c.args[0])
                if q in (True, False, sp.true, sp.false):
                    return sy(t.args[1] if bool(q) else t.args[2])
    if op == "fn" and t.args[0] == "exp" and t.args[1].op == "fn" and t.args[1].args[0] == "gammaln":
        k = sy(t.args[1].args[1])
        if k.is_Integer and k > 0:
            return sp.factorial(k - 1)
    raise ValueError("not a polynomial: %s" % tm.show(t, 4))


def imag(t):
    """imaginary part of a term polynomial in the imaginary unit"""
    out, e, k, f = ZERO, tm.asnum(t), 0, 1
    for k in range(1, 8):
        e = tm.diff(e, IM)
        f *= k
        if k % 2:
            c = tm.subst(e, {}, {sym(IM): ZERO})
            out = tm.add(out, tm.mul(num(Fraction((-1) ** (k // 2), f)), c))
    return out


class Run:
    def __init__(self, chk, P):
        self.chk, self.P = chk, P

    def interp(self):
        I = Interp(self.P)
        I.imag = imag
        I.maxsteps = 4000000
        # every multi-index once, in some order
        I.overrides["pystatsm.utilities.indexing_utils.ndindex"] = PyFunc(
            lambda *a, **k: list(itertools.product(*[range(int(nval(num(v)) if not isinstance(v, T) else nval(v))) for v in (a[0] if isinstance(a[0], (tuple, list)) else a)])), "ndindex")
        return I

    def helper(self, mod, name, kind, n, deg, extra=None, scalar=True, tag=""):
        where = "%s.py:%s" % (mod.replace(".", "/"), name)
        m = self.P.modules.get(mod)
        I = self.interp()
        f = I.lookup(name, I.modenv(m))
        if not isinstance(f, FuncVal):
            return
        params = [a.arg for a in f.node.args.args]
        step, arg = sym(STEP, dom="pos"), sym(ARG, dom="real")
        xs = [num(v) for v in XS[n]]
        X = from_flat((n,), xs)
        hasargs = "args" in params or f.node.args.vararg is not None
        k = 2

        def term(ts, which):
            return tm.mul(arg, poly(ts, which, deg)) if hasargs else poly(ts, which, deg)

        vs = [sym("x%d" % i, dom="real") for i in range(n)]

        def at(t):
            return tm.subst(t, {}, {vs[i]: xs[i] for i in range(n)})

        def d(t, *ix):
            for i in ix:
                t = tm.diff(t, "x%d" % i)
            return at(t)

        def check_args(a):
            ok = (len(a) == 1 and tm.asnum(as_tensor(a[0]).elem) is arg) if hasargs else not a
            return tm.ONE if ok else sym("wrong_args", dom="real")

        if kind in ("grad", "hess"):
            F = PyFunc(lambda x, *a, **kw: Tensor((), tm.mul(check_args(a), term(elems(x), "f"))), "f")
            full = term(vs, "f")
            want = [d(full, i) for i in range(n)] if kind == "grad" else [d(full, i, j) for i in range(n) for j in range(n)]
        elif kind == "hessg":
            full = term(vs, "f")
            gs = [tm.diff(full, "x%d" % i) for i in range(n)]
            F = PyFunc(lambda x, *a, **kw: from_flat((n,), [tm.mul(check_args(a), tm.subst(g, {}, {vs[i]: e for i, e in enumerate(elems(x))})) for g in gs]), "g")
            want = [d(full, i, j) for i in range(n) for j in range(n)]
        elif kind in ("jac", "jacT", "hessv"):
            F = PyFunc(lambda x, *a, **kw: from_flat((k,), [tm.mul(check_args(a), term(elems(x), "f%d" % q)) for q in range(k)]), "F")
            fs = [term(vs, "f%d" % q) for q in range(k)]
            if kind == "jac":
                want = [d(fs[q], i) for q in range(k) for i in range(n)]
            elif kind == "jacT":
                want = [d(fs[q], i) for i in range(n) for q in range(k)]
            else:
                want = [d(fs[q], i, j) for q in range(k) for i in range(n) for j in range(n)]
        else:
            order = (extra or {}).get("order", 1)
            F = PyFunc(lambda x, *a, **kw: from_flat((n,), [poly([e], "s", deg) for e in elems(x)]), "f")
            want = []
            for i in range(n):
                t = poly([vs[i]], "s", deg)
                want.append(d(t, *([i] * order)))
        kw = dict(extra or {})
        dropped = None
        if "mask" in kw:
            import random
            shp = (k,) if kind == "jac" else (k, n, n)
            rows = [bool((q * 7 + 1) % 3) for q in range(len(want) if kind != "jac" else k)]
            kw["mask"] = from_flat(shp, [tm.TRUE if b else tm.FALSE for b in rows])
            keep = rows if kind != "jac" else [b for b in rows for _ in range(n)]
            want = [w if b else ZERO for w, b in zip(want, keep)]
        steps = [p for p in params if p in ("eps", "epsilon", "delta", "d", "a_eps", "r_eps", "h", "step")]
        for p in steps:
            kw[p] = step
        if f.node.args.vararg is not None and "args" not in params:
            pos = [F, X, Tensor((), arg)]
        else:
            pos = [F, X]
            if hasargs:
                kw["args"] = (Tensor((), arg),)
        kws = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        for p in ("eps",):
            if p in [a.arg for a in f.node.args.kwonlyargs]:
                kw[p] = step
                steps.append(p)
        kw = {p: v for p, v in kw.items() if p in kws}
        if name == "finite_diff":
            steps = []
        got = safe(I.call, f, pos, kw, None)
        what = "%s n=%d degree %d%s" % (kind, n, deg, tag)
        self.decide(where, name, what, got, want, bool(CENTRAL.search(name)) and not kw.get("order", 0) > 1, bool(steps))

    def decide(self, where, name, what, got, want, central, stepped):
        chk = self.chk
        if got is None or isinstance(got, Top):
            st = "violated" if isinstance(got, Top) and got.definite else "undecided"
            chk.ob("consistent", where, what, st, got.why if isinstance(got, Top) else "no value")
            return
        try:
            g = elems(got)
        except Exception as e:
            chk.ob("consistent", where, what, "undecided", "result is not a concrete array: %s" % e)
            return
        if len(g) != len(want):
            chk.ob("consistent", where, what, "violated", "%d entries, the derivative has %d" % (len(g), len(want)))
            return
        h = sp.Symbol(STEP)
        bad = first = None
        for i, (a, b) in enumerate(zip(g, want)):
            try:
                e = sp.expand(sy(a) - sy(b))
            except Exception as x:
                chk.ob("consistent", where, what, "undecided", "entry %d: %s" % (i, x))
                return
            if e.has(sp.Symbol(IM)):
                chk.ob("consistent", where, what, "violated", "entry %d is not real" % i)
                return
            if not stepped:
                if any(abs(c) > sp.Rational(1, 10 ** 8) for c in coeffs(e)):
                    bad = bad or "entry %d of the result differs from the derivative by %s" % (i, str(sp.N(e, 6))[:200])
                continue
            low = [(p, c) for p, c in laurent(e, h).items() if p <= 0 and any(abs(q) > sp.Rational(1, 10 ** 8) for q in coeffs(c))]
            if low:
                bad = bad or "entry %d: result minus derivative tends to %s as the step shrinks" % (i, str(sp.factor_terms(sum(c * h ** p for p, c in low)))[:200])
            c1 = laurent(e, h).get(1, 0)
            if c1 != 0 and any(abs(q) > sp.Rational(1, 10 ** 8) for q in coeffs(c1)):
                first = first or "entry %d has the first order error term %s" % (i, str(c1 * h)[:160])
        chk.ob("consistent", where, what, "violated" if bad else "proved", bad or "%d entries" % len(want))
        if central and stepped:
            chk.ob("order", where, what, "violated" if first else "proved", first or "no first-order error term")

    def weights(self, mod, name, points, x0, n):
        """derivative weights reproduce polynomials exactly"""
        where = "%s.py:%s" % (mod.replace(".", "/"), name)
        I = self.interp()
        f = I.lookup(name, I.modenv(self.P.modules[mod]))
        if not isinstance(f, FuncVal):
            return
        pts = from_flat((len(points),), [num(Fraction(p)) for p in points])
        a = f.node.args
        names = [q.arg for q in a.args]
        kw = {"x0": num(Fraction(x0))} if "x0" in names else {}
        kw["n" if "n" in names else "order"] = n
        got = safe(I.call, f, [pts], kw, None)
        what = "weights %s order %d at %s" % (list(map(str, points)), n, x0)
        if got is None or isinstance(got, Top):
            self.chk.ob("weights", where, what, "undecided", getattr(got, "why", ""))
            return
        try:
            c = [sy(t) for t in elems(got)]
        except Exception as e:
            self.chk.ob("weights", where, what, "undecided", str(e)[:200])
            return
        bad = None
        for p in range(len(points)):
            s = sum(ci * sp.Rational(Fraction(q) - Fraction(x0)) ** p for ci, q in zip(c, points))
            w = sp.factorial(n) if p == n else 0
            if abs(s - w) > sp.Rational(1, 10 ** 8):
                bad = "the weights give %s for the derivative of order %d of (x - x0)^%d, not %s" % (sp.N(s, 8), n, p, w)
                break
        self.chk.ob("weights", where, what, "violated" if bad else "proved", bad or "%d moments" % len(points))


def coeffs(e):
    e = sp.expand(e)
    if e == 0:
        return []
    return [t.as_coeff_Mul()[0] for t in sp.Add.make_args(e)]


def laurent(e, h):
    out = {}
    for t in sp.Add.make_args(sp.expand(e)):
        c, p = t.as_independent(h)
        q = 0 if p == 1 else (p.exp if p.is_Pow else 1)
        out[int(q)] = out.get(int(q), 0) + c
    return out


def run():
    P = Project()
    chk = Check("C20", floor=40, explanation="every finite-difference helper is abstractly interpreted on polynomials with symbolic coefficients, with a symbolic step and a "
                "symbolic extra argument; the result is expanded in the step and compared with the formal derivative",
                rules={"consistent": "result minus exact derivative has no term of order <= 0 in the step, with the caller's step and extra arguments used at every evaluation",
                       "order": "central and complex-step formulas have no first-order error term", "weights": "stencil weights satisfy the moment conditions"})
    r = Run(chk, P)
    work = []
    top = chk.thorough
    for mn, m in P.modules.items():
        if ".tests" in mn:
            continue
        for node in m.tree.body:
            if not hasattr(node, "args") or not hasattr(node, "name"):
                continue
            nm = node.name
            if mn != ND and not re.match(r"^(approx_hess|approx_grad|(fo|so)_[fg]c_[a-z]d|num_(grad|hess))$", nm):
                continue
            kind = next((k for q, k in KINDS if re.match(q, nm)), None)
            names = [a.arg for a in node.args.args]
            if kind:
                lim = {"nr": 3} if "nr" in names else {}
                if kind == "scalar":
                    for o in (1, 2, 3) if top else (1, 2):
                        work.append((mn, nm, kind, 2, 4, dict(order=o, **({"m": 2} if "m" in names else {})), " order %d" % o))
                    continue
                for n in ((2, 3) if kind != "hessv" or top else (2,)):
                    work.append((mn, nm, kind, n, 4 if top else 3, lim, ""))
                if kind in ("hess", "hessg", "hessv") and not top:
                    work.append((mn, nm, kind, 1, 5, lim, ""))
                if "mask" in names:
                    work.append((mn, nm, kind, 2, 2, dict(mask=True, **lim), " masked"))
            elif mn == ND and re.match(r"^fd_coef", nm):
                for pts, x0, o in (([-1, 0, 1], 0, 1), ([-1, 0, 1], 0, 2), ([0, 1, 2, 3], 0, 1), (["-1/2", "1/3", 1, 2, "7/2"], "1/4", 2), ([-2, -1, 0, 1, 2], 0, 3)):
                    if nm == "fd_coefficients" and x0 != 0:
                        continue
                    work.append(("W", mn, nm, pts, x0, o))
    chk.extra["helpers"] = sorted({"%s.%s" % (w[0], w[1]) if w[0] != "W" else "%s.%s" % (w[1], w[2]) for w in work})

    def one(ws):
        for w in ws:
            try:
                if w[0] == "W":
                    r.weights(*w[1:])
                else:
                    r.helper(w[0], w[1], w[2], w[3], w[4], w[5], tag=w[6])
            except Exception as e:
                import sys
                if len(sys.argv) > 3:
                    raise
                chk.ob("consistent", "%s" % (w[1],), "analysis", "undecided", "%s: %s" % (type(e).__name__, str(e)[:200]))
    chk.suites([(lambda c: (lambda: one(c)))(work[i::8]) for i in range(8)], lambda g: g())
    return chk.finish()
