"""C26 latent-variable correlations: cell probabilities, likelihoods and their derivatives."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa import npmodel
from sa.interp import dense_arr, toterm, from_flat, concrete_dims, FuncVal, PyFunc, Obj
from fractions import Fraction
from .c07 import safe
from .c04 import Suite, params, full, dterm, entry, cls, ALL

LV = "pystatsm.pylvcorr."
FU = "pystatsm.utilities.func_utils"
COR = ("range", -0.75, 0.75)
SYS = {}


def scalar(x):
    if isinstance(x, Top):
        return x
    t = as_tensor(x)
    if t.rank:
        if concrete_dims(t) and all(d == 1 for d in concrete_dims(t)):
            return toterm(getitem(t, tuple(num(0) for _ in t.dims)))
        return Top("bivariate normal of an array")
    return tm.asnum(t.elem)


def bvn(h, k, r):
    a = [scalar(x) for x in (h, k, r)]
    bad = [x for x in a if isinstance(x, Top)]
    return bad[0] if bad else tm.fn("bvncdf", *a)


def interp(P, kernels=True):
    I = Interp(P)
    if kernels:
        for mod in (LV + "statfuncs", FU):
            m = P.modules.get(mod)
            if m and "binorm_cdf_jit" in m.functions:
                I.overrides[mod + ".binorm_cdf_jit"] = PyFunc(bvn, "bvncdf")
    return I


def generate_indices(shape, ascending=True, first_indices_change_fastest=True, strict=False):
    """meaning of the compiled helper: monotone index tuples in lexicographic or reversed-lexicographic order"""
    import itertools
    b = lambda v: bool(v) if not isinstance(v, T) else v is not ZERO and v is not FALSE
    ns = [int(num(x).args[0]) for x in shape]
    cmp_ = (lambda x, y: (x < y if b(strict) else x <= y)) if b(ascending) else (lambda x, y: (x > y if b(strict) else x >= y))
    out = [t for t in itertools.product(*[range(n) for n in ns]) if all(cmp_(x, y) for x, y in zip(t, t[1:]))]
    if not b(first_indices_change_fastest):
        out.sort(key=lambda t: tuple(reversed(t)))
    return [tuple(num(x) for x in t) for t in out]


def crosstab(I, a, kw):
    """counts over the sorted distinct codes of two arrays"""
    v = [npmodel_ints(x) for x in a[:2]]
    u = [sorted(set(x)) for x in v]
    cnt = [[sum(1 for x, y in zip(*v) if (x, y) == (p, q)) for q in u[1]] for p in u[0]]
    r = from_flat((len(u[0]), len(u[1])), [num(c) for row in cnt for c in row])
    return (tuple(from_flat((len(w),), [num(x) for x in w]) for w in u), r)


def npmodel_ints(x):
    return [int(toterm(e).args[0]) for e in dense_arr(as_tensor(x)).reshape(-1)]


def corrcoef(I, a, kw):
    c = sym("cor", dom=COR)
    return from_flat((2, 2), [ONE, c, c, ONE])


def install():
    npmodel.TABLE["scipy.stats.contingency.crosstab"] = crosstab
    npmodel.TABLE["numpy.corrcoef"] = corrcoef
    npmodel.TABLE["pystatsm.utilities.ordered_indices.generate_indices"] = lambda I, a, kw: generate_indices(*a, **kw)


# one layout: category codes of the variables, one row per observation
DATA = {
    "2 variables, 3x2": [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (0, 0), (1, 1), (2, 1), (2, 1), (1, 0)],
    "2 variables, 2x4": [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (1, 3), (0, 0), (1, 3), (1, 3), (0, 1), (1, 2)],
    "3 variables": [(0, 0, 1), (1, 0, 0), (2, 1, 2), (2, 1, 1), (1, 1, 0), (0, 1, 2), (0, 0, 0), (2, 0, 2), (1, 1, 2), (2, 1, 0), (1, 0, 1), (0, 1, 1), (0, 0, 2)],
}


class Layout:
    def __init__(self, name):
        self.name, self.rows = name, DATA[name]
        self.p = len(self.rows[0])
        self.n = len(self.rows)
        self.ncat = [max(r[k] for r in self.rows) + 1 for k in range(self.p)]

    def counts(self, i, j):
        return [[sum(1 for r in self.rows if r[i] == a and r[j] == b) for b in range(self.ncat[j])] for a in range(self.ncat[i])]

    def thresholds(self, i):
        """inner thresholds implied by the margins, in ascending order"""
        out = []
        for c in range(self.ncat[i] - 1):
            out.append(tm.fn("ndtri", num(Fraction(sum(1 for r in self.rows if r[i] <= c), self.n))))
        return out

    def array(self):
        return from_flat((self.n, self.p), [num(x) for r in self.rows for x in r])

    def frame(self):
        return Obj(None, {"values": self.array(), "columns": from_list(["v%d" % k for k in range(self.p)])})


def from_list(xs):
    o = Obj(None, {"tolist": PyFunc(lambda *a: list(xs), "tolist")})
    return o


def cells(ti, tj, r):
    """matrix of rectangle probabilities for inner thresholds ti, tj"""
    lo, hi = num(-10 ** 6), num(10 ** 6)
    a, b = [lo] + list(ti) + [hi], [lo] + list(tj) + [hi]
    F = lambda x, y: tm.fn("bvncdf", x, y, r)
    return [[tm.add(F(a[i + 1], b[j + 1]), tm.neg(F(a[i], b[j + 1])), tm.neg(F(a[i + 1], b[j])), F(a[i], b[j]))
             for j in range(len(b) - 1)] for i in range(len(a) - 1)]


def negloglike(counts, pr):
    return tm.neg(tm.add(*[tm.mul(num(c), tm.fn("log", p)) for cr, prr in zip(counts, pr) for c, p in zip(cr, prr) if c]))


def lvar(s="r"):
    DOM[s] = COR
    return sym(s)


def tensor(t):
    return Tensor((), t)


class Ck(Suite):
    def eq(self, rule, wh, what, got, want, **kw):
        """got: value with concrete dims; want: nested list of terms or a term"""
        if self.bad(rule, wh, what, got):
            return
        t = as_tensor(got)
        flat = []

        def rec(w):
            if isinstance(w, (list, tuple)):
                for x in w:
                    rec(x)
            else:
                flat.append(w)
        rec(want)
        ns = concrete_dims(t)
        if ns is None:
            return self.chk.ob(rule, wh, what, "undecided", "symbolic shape")
        k = 1
        for x in ns:
            k *= x
        if k != len(flat):
            return self.chk.ob(rule, wh, what, "violated", "shape %s, expected %d entries" % (tuple(ns), len(flat)))
        es = dense_arr(t).reshape(-1)
        self.fold(rule, wh, what, [("entry %d" % q, tensor(es[q]), tensor(w)) for q, w in enumerate(flat)], prove=False, trials=6, **kw)


def D(t, *names):
    try:
        for s in names:
            t = tm.diff(t, s, ())
    except NotDifferentiable as e:
        return Top(str(e))
    return t


def one(v):
    """scalar term of a value with a single entry"""
    if isinstance(v, Top) or v is None:
        return v
    t = as_tensor(v)
    ns = concrete_dims(t)
    if ns is None:
        return Top("symbolic shape")
    if any(n != 1 for n in ns):
        return Top("shape %s where one number is expected" % (tuple(ns),), True)
    return tensor(toterm(dense_arr(t).reshape(-1)[0])) if ns else tensor(tm.asnum(t.elem))


# ------------------------------------------------------------------ kernels
def kernels(S, mod):
    P = S.P
    m = P.modules.get(mod)
    if m is None:
        return
    wh = lambda f: "%s:%s" % (m.relpath, f)
    h, k = params(["h", "k"], {"h": ("range", -2.2, 2.2), "k": ("range", -2.2, 2.2)}), None
    h, k, r = sym("h"), sym("k"), lvar()
    F = tm.fn("bvncdf", h, k, r)
    pdf = D(F, "r")
    phi = D(tm.fn("ndtr", h), "h")
    cases = [("norm_cdf_jit", (h,), tm.fn("ndtr", h)), ("norm_cdf", (h,), tm.fn("ndtr", h)), ("norm_pdf", (h,), phi), ("norm_pdf_jit", (h,), phi),
             ("binorm_pdf_jit", (h, k, r), pdf), ("binorm_dl_jit", (h, k, r), pdf), ("binorm_dl", (h, k, r), pdf), ("binorm_pdf_old", (h, k, r), pdf),
             ("dbinorm_pdf", (h, k, r), D(F, "r", "r")), ("dbinorm_cdf_du", (h, k, r), D(F, "h")), ("dbinorm_du", (h, k, r), D(F, "h")),
             ("d2binorm_cdf_du2", (h, k, r), D(F, "h", "h")), ("d2binorm_cdf_duv", (h, k, r), D(F, "h", "k")), ("d2binorm_cdf_dur", (h, k, r), D(F, "h", "r")),
             ("binorm_cdf_jit", (h, k, r), F), ("binorm_cdf_old", (h, k, r), F)]
    for name, args, want in cases:
        if name not in m.functions:
            continue
        I = interp(P, False)
        v = safe(I.call, FuncVal(m.functions[name], m), list(args), {}, None)
        S.eq("kernel", wh(name), name, v, want)
    if "polychor_loglike" in m.functions:
        ta, tb = ["a0", "a1"], ["b0"]
        params(ta, {"a0": ("range", -0.9, -0.2), "a1": ("range", 0.1, 0.8)})
        params(tb, {"b0": ("range", -0.5, 0.5)})
        lo, hi = num(-10 ** 6), num(10 ** 6)
        ea, eb = [lo, sym("a0"), sym("a1"), hi], [lo, sym("b0"), hi]
        tab_ = [[3, 1, 2], [4, 0, 5]]       # columns follow the first set of thresholds
        X = from_flat((2, 3), [num(x) for q in tab_ for x in q])
        v = safe(interp(P).call, FuncVal(m.functions["polychor_loglike"], m), [X, from_flat((4,), ea), from_flat((3,), eb), r], {}, None)
        S.eq("objective", wh("polychor_loglike"), "polychor_loglike", v, tm.neg(negloglike(tab_, cells(eb[1:-1], ea[1:-1], r))))
    # array wrappers and rectangles
    hv, kv = params(["h0", "h1"], {s: ("range", -2, 2) for s in ("h0", "h1")}), params(["k0", "k1"], {s: ("range", -2, 2) for s in ("k0", "k1")})
    H, K = [sym("h0"), sym("h1")], [sym("k0"), sym("k1")]
    G = lambda a, b: tm.fn("bvncdf", a, b, r)
    for name, d in (("binorm_cdf", 0), ("binorm_pdf", 1)):
        if name in m.functions:
            for lab, rr in (("scalar r", r), ("array r", from_flat((1,), [r]))):
                v = safe(interp(P).call, FuncVal(m.functions[name], m), [hv, kv, rr], {}, None)
                S.eq("kernel", wh(name), "%s, %s" % (name, lab), v, [D(G(a, b), *["r"] * d) for a, b in zip(H, K)])
    rect = lambda a, b, c, e: tm.add(G(a, b), tm.neg(G(c, b)), tm.neg(G(a, e)), G(c, e))
    lo, up = ["a0", "a1", "b0", "b1"], ["c0", "c1", "d0", "d1"]
    params(lo, {s: ("range", -2, -0.3) for s in lo})
    params(up, {s: ("range", 0, 2) for s in up})
    vv = lambda q: from_flat((2,), [sym(q + "0"), sym(q + "1")])
    for d, names in enumerate((("binorm_cdf_region", "binorm_cdf2"), ("binorm_pdf_region", "binorm_pdf2"), ("dbinorm_pdf_region", "dbinorm_pdf2"))):
        for name in names:
            if name not in m.functions:
                continue
            v = safe(interp(P).call, FuncVal(m.functions[name], m), [(vv("a"), vv("b")), (vv("c"), vv("d")), r], {}, None)
            want = [D(rect(sym("c" + q), sym("d" + q), sym("a" + q), sym("b" + q)), *["r"] * d) for q in "01"]
            S.eq("kernel", wh(name), name, v, want)


# ------------------------------------------------------------------ estimators
def built(S, mod, name, lab, args):
    c = cls(S.P, LV + mod, name)
    if c is None:
        return None
    I = interp(S.P)
    o = safe(I.call, ClassVal(c), args, {}, None)
    if S.bad("construct", where(S.P, c, "__init__"), "%s: constructor" % lab, o):
        return None
    S.chk.ob("construct", where(S.P, c, "__init__"), "%s: constructor" % lab, "ok", "")
    return I, o, c


def has(S, c, k):
    return S.P.find_method(c, k) is not None


def oneparam(S, I, o, c, lab, extra, counts, ti, tj, names, atanh=()):
    """probabilities, objective, gradient and Hessian in the correlation alone"""
    r = lvar()
    pr = cells(ti, tj, r)
    f = negloglike(counts, pr)
    w = lambda k: where(S.P, c, k)
    go = lambda k, v: safe(lambda: I.call(I.getattr(o, k), [v] + list(extra), {}, None))
    flat = lambda m: [x for row in m for x in row]
    for k, d in names.get("cells", ()):
        if has(S, c, k):
            S.eq("cell probabilities", w(k), "%s: %s" % (lab, k), go(k, r), [D(x, *["r"] * d) for x in flat(pr)])
    for k, d in names.get("obj", ()):
        if has(S, c, k):
            S.eq("objective" if not d else "gradient" if d == 1 else "hessian", w(k), "%s: %s" % (lab, k), one(go(k, r)), D(f, *["r"] * d))
    DOM["z"] = ("range", -0.8, 0.8)
    z = sym("z")
    fz = negloglike(counts, cells(ti, tj, tm.fn("tanh", z)))
    for k, d in names.get("tanh", ()):
        if has(S, c, k):
            S.eq("objective" if not d else "gradient" if d == 1 else "hessian", w(k), "%s: %s" % (lab, k), one(go(k, z)), D(fz, *["z"] * d))


def lv_old(S):
    P = S.P
    for name in ("2 variables, 3x2", "2 variables, 2x4", "3 variables"):
        L = Layout(name)
        for cn in ("Polychoric", "PolychoricCorr"):
            b = built(S, "lvcorr", cn, "%s %s" % (cn, name), [L.frame()])
            if b is None:
                continue
            I, o, c = b
            for i in range(L.p):
                for j in range(i):
                    for a, e in ((i, j),) if cn == "Polychoric" else ((i, j), (j, i)):
                        # Polychoric keeps one table per unordered pair, in the order of its own index list
                        lab = "%s %s, pair (%d, %d)" % (cn, name, a, e)
                        oneparam(S, I, o, c, lab, [num(a), num(e)], L.counts(a, e), L.thresholds(a), L.thresholds(e),
                                 dict(cells=[("prob", 0), ("dprob", 1), ("d2prob", 2), ("gfunc", 2)],
                                      obj=[("loglike", 0), ("gradient", 1), ("hessian", 2)],
                                      tanh=[("loglike_tanh", 0), ("gradient_tanh", 1), ("hessian_tanh", 2)]))


def lv_single(S):
    P = S.P
    for name in ("2 variables, 3x2", "2 variables, 2x4"):
        L = Layout(name)
        tab = L.counts(0, 1)
        npmodel.TABLE["pandas.crosstab"] = lambda I, a, kw: Obj(None, {"values": from_flat((L.ncat[0], L.ncat[1]), [num(x) for q in tab for x in q])})
        b = built(S, "lvcorr", "_Polychor", "_Polychor " + name, [from_flat((L.n,), [num(q[0]) for q in L.rows]), from_flat((L.n,), [num(q[1]) for q in L.rows])])
        if b is None:
            continue
        I, o, c = b
        oneparam(S, I, o, c, "_Polychor " + name, [], tab, L.thresholds(0), L.thresholds(1),
                 dict(cells=[("prob", 0), ("dprob", 1), ("gfunc", 2)], obj=[("loglike", 0), ("gradient", 1), ("hessian", 2)]))


def polychor(S, mod):
    P = S.P
    for name in DATA if S.chk.thorough else ("2 variables, 3x2", "3 variables"):
        L = Layout(name)
        b = built(S, mod, "Polychor", "%s.Polychor %s" % (mod, name), [L.frame()])
        if b is None:
            continue
        I, o, c = b
        w = lambda k: where(P, c, k)
        go = lambda k, *a, **kw: safe(lambda: I.call(I.getattr(o, k), list(a), kw, None))
        pairs = [(i, j) for i in range(L.p) for j in range(i)]
        for i, j in pairs if S.chk.thorough else pairs[-2:]:
            lab = "%s.Polychor %s, pair (%d, %d)" % (mod, name, i, j)
            ex = [num(i), num(j)]
            cnt = L.counts(i, j)
            oneparam(S, I, o, c, lab, ex, cnt, L.thresholds(i), L.thresholds(j),
                     dict(obj=[("qloglike", 0), ("qgradient", 1), ("qhessian", 2)],
                          tanh=[("qloglike_transformed", 0), ("qgradient_transformed", 1), ("qhessian_transformed", 2)]))
            r = lvar()
            base = cells(L.thresholds(i), L.thresholds(j), r)
            if has(S, c, "dprob_dr"):
                v = go("dprob_dr", r, *ex, order=num(2))
                if not S.bad("cell probabilities", w("dprob_dr"), lab, v):
                    for d in range(3):
                        S.eq("cell probabilities", w("dprob_dr"), "%s: order %d" % (lab, d), v[d] if len(v) > d else None,
                             [D(x, *["r"] * d) for q in base for x in q])
            S.eq("cell probabilities", w("predicted_probs"), lab + ": at the margins", go("predicted_probs", *ex, r=r), base)
            wp = P.modules[LV + mod].classes.get("_PairWorkspace")
            if wp is not None:
                f = negloglike(cnt, base)
                q = safe(I.call, ClassVal(wp), [o, num(i), num(j), r], {}, None)
                if not S.bad("construct", where(P, wp, "__init__"), lab, q):
                    for k, d in (("loglike", 0), ("score", 1), ("hessian", 2)):
                        v = safe(lambda: I.call(I.getattr(q, k), [], {}, None)) if has(S, wp, k) else None
                        S.eq(("objective", "gradient", "hessian")[d], where(P, wp, k), "%s: workspace %s" % (lab, k), one(v), D(f, *["r"] * d))
            # thresholds and correlation together
            m1, m2 = L.ncat[i] - 1, L.ncat[j] - 1
            nm = ["s%d" % k for k in range(m1)] + ["t%d" % k for k in range(m2)] + ["r"]
            dom = {s: ("range", -1.0 + 1.1 * int(s[1:]), -0.4 + 1.1 * int(s[1:])) for s in nm[:-1]}
            dom["r"] = COR
            th = params(nm, dom)
            P_ = cells([sym(s) for s in nm[:m1]], [sym(s) for s in nm[m1:-1]], sym("r"))
            f = negloglike(cnt, P_)
            flat = [x for q in P_ for x in q]
            S.eq("cell probabilities", w("predicted_probs"), lab + ": at given parameters", go("predicted_probs", *ex, params=th), flat)
            S.eq("objective", w("loglike"), lab + ": loglike", one(go("loglike", th, *ex)), f)
            S.eq("gradient", w("gradient"), lab + ": gradient", go("gradient", th, *ex), [D(f, s) for s in nm])
            v = go("dprob_dparams", th, *ex, order=num(2))
            if not S.bad("cell probabilities", w("dprob_dparams"), lab, v):
                S.eq("cell probabilities", w("dprob_dparams"), lab + ": probabilities", v[0], flat)
                S.eq("cell probabilities", w("dprob_dparams"), lab + ": first derivatives", v[1], [D(x, s) for x in flat for s in nm])
                S.eq("cell probabilities", w("dprob_dparams"), lab + ": second derivatives", v[2], [D(x, s, t) for x in flat for s in nm for t in nm])
            S.eq("hessian", w("hessian"), lab + ": hessian", go("hessian", th, *ex), [D(f, s, t) for s in nm for t in nm])
            # on the optimiser's scale
            DOM["z"] = ("range", -0.8, 0.8)
            optimised(S, I, o, c, lab + ", correlation alone", "_fit_qml", ex, ["z"], negloglike(cnt, cells(L.thresholds(i), L.thresholds(j), tm.fn("tanh", sym("z"))))) if has(S, c, "_fit_qml") else None
            tn = ["w%d" % k for k in range(len(nm))]
            tp = params(tn, {s: ("range", -0.6, 0.2) for s in tn})
            tv = safe(lambda: I.call(I.getattr(I.getattr(o, "trns")[idx(I, o, i, j)], "rvs"), [tp], {}, None))
            if not S.bad("objective", w("loglike_transformed"), lab + ": reverse transform", tv):
                es = dense_arr(as_tensor(tv)).reshape(-1)
                es = [toterm(e) for e in es]
                ft = negloglike(cnt, cells(es[:m1], es[m1:-1], es[-1]))
                S.eq("objective", w("loglike_transformed"), lab + ": loglike_transformed", one(go("loglike_transformed", tp, *ex)), ft)
                S.eq("gradient", w("gradient_transformed"), lab + ": gradient_transformed", go("gradient_transformed", tp, *ex), [D(ft, s) for s in tn])
                if has(S, c, "_fit_fml"):
                    optimised(S, I, o, c, lab + ", all parameters", "_fit_fml", ex, tn, ft)
                S.eq("hessian", w("hessian_transformed"), lab + ": hessian_transformed", go("hessian_transformed", tp, *ex), [D(ft, s, t) for s in tn for t in tn])


class Recorder:
    """stand-in for scipy's optimiser: evaluates what it is handed at symbols and returns an arbitrary point"""

    def __init__(self, names):
        self.names, self.calls = names, []

    def __call__(self, I, a, kw):
        x = params(self.names, {s: ("range", -0.6, 0.2) for s in self.names})
        a = list(a) + [None] * 3
        f, x0 = a[0], a[1]
        call_ = lambda g: None if g is None else safe(lambda: I.call(g, [x], {}, None))
        k = len(self.calls)
        # the point found: new symbols
        pt = ["opt%d_%s" % (k, s) for s in self.names]
        self.calls.append(dict(f=call_(f), g=call_(kw.get("jac")), h=call_(kw.get("hess")), x0=x0, pt=pt))
        m = len(pt)
        at = {"x": params(pt, {s: ("range", -0.6, 0.2) for s in pt}), "success": True, "nit": num(1), "nfev": num(1),
              "execution_time": num(0), "optimality": num(0), "grad": from_flat((m,), [ZERO] * m), "fun": num(0)}
        return Obj(None, at)


def optimised(S, I, o, c, lab, meth, args, names, f):
    """meth hands the optimiser an objective, gradient and Hessian that belong together and to this pair"""
    w = where(S.P, c, meth)
    rec = Recorder(names)
    old = npmodel.TABLE.get("scipy.optimize.minimize")
    npmodel.TABLE["scipy.optimize.minimize"] = rec
    try:
        v = safe(lambda: I.call(I.getattr(o, meth), list(args), {}, None))
    finally:
        if old is None:
            npmodel.TABLE.pop("scipy.optimize.minimize")
        else:
            npmodel.TABLE["scipy.optimize.minimize"] = old
    if S.bad("fit", w, lab, v):
        return None
    if not rec.calls:
        S.chk.ob("fit", w, lab, "undecided", "no optimiser call")
        return None
    k = rec.calls[0]
    S.eq("fit", w, lab + ": objective handed over", one(k["f"]), f)
    if k["g"] is not None:
        S.eq("fit", w, lab + ": gradient handed over", k["g"], [D(f, s) for s in names])
    if k["h"] is not None:
        S.eq("fit", w, lab + ": Hessian handed over", k["h"], [D(f, s, t) for s in names for t in names])
    return v, k


def influence(L, i, j, ti, tj, r):
    """cell-wise influence of the two-step estimator: I_rr^-1 (score_r - I_rt influence_t), t the thresholds of both margins"""
    nm = ["q%d" % k for k in range(len(ti))], ["v%d" % k for k in range(len(tj))]
    for g in nm:
        for s in g:
            DOM[s] = "real"
    sy = [[sym(s) for s in g] for g in nm]
    val = dict(zip(nm[0] + nm[1], list(ti) + list(tj)))

    def fill(t):
        for s, v in val.items():
            t = at(t, s, v)
        return t
    pr = cells(sy[0], sy[1], r)
    rn = r.args[0]
    P_ = [[fill(p) for p in row] for row in pr]
    Dr = [[fill(D(p, rn)) for p in row] for row in pr]
    info = tm.add(*[tm.mul(tm.power(d, TWO), tm.power(p, MONE)) for dr, ps in zip(Dr, P_) for d, p in zip(dr, ps)])
    out = []
    for a in range(L.ncat[i]):
        row = []
        for b in range(L.ncat[j]):
            s = tm.mul(Dr[a][b], tm.power(P_[a][b], MONE))
            for which, (names, cat, ts) in enumerate(zip(nm, (a, b), (ti, tj))):
                for c_, n_ in enumerate(names):
                    cross = tm.add(*[tm.mul(Dr[x][y], tm.power(P_[x][y], MONE), fill(D(pr[x][y], n_))) for x in range(L.ncat[i]) for y in range(L.ncat[j])])
                    t = ts[c_]
                    phi = tm.mul(tm.fn("exp", tm.mul(num(Fraction(-1, 2)), tm.power(t, TWO))), tm.power(tm.mul(TWO, PI), num(Fraction(-1, 2))))
                    g = tm.mul(tm.sub(ONE if cat <= c_ else ZERO, tm.fn("ndtr", t)), tm.power(phi, MONE))
                    s = tm.sub(s, tm.mul(cross, g))
            row.append(tm.mul(s, tm.power(info, MONE)))
        out.append(row)
    return out


def acov(S, mod):
    """asymptotic covariance of the correlations, and where a fit stores its results"""
    P = S.P
    for name in ("2 variables, 3x2", "3 variables") if S.chk.thorough else ("3 variables",):
        L = Layout(name)
        b = built(S, mod, "Polychor", "%s.Polychor %s results" % (mod, name), [L.frame()])
        if b is None:
            continue
        I, o, c = b
        lab = "%s.Polychor %s" % (mod, name)
        pairs = [(i, j) for j in range(L.p) for i in range(j + 1, L.p)]
        rs = {q: lvar("r_%d%d" % q) for q in pairs}
        for q in rs:
            DOM["r_%d%d" % q] = ("range", -0.6, 0.6)
        pos = {q: idx(I, o, *q) for q in pairs}
        prm = I.getattr(o, "params")
        if isinstance(prm, Top):
            S.bad("covariance", where(P, c, "get_acov"), lab, prm)
            continue
        for q in pairs:
            prm[pos[q]] = from_flat((L.ncat[q[0]] + L.ncat[q[1]] - 1,), L.thresholds(q[0]) + L.thresholds(q[1]) + [rs[q]])
        G = {q: influence(L, q[0], q[1], L.thresholds(q[0]), L.thresholds(q[1]), rs[q]) for q in pairs}
        rows = {q: [G[q][x[q[0]]][x[q[1]]] for x in L.rows] for q in pairs}
        n = num(L.n)
        tot = {q: tm.add(*rows[q]) for q in pairs}
        for meth in ("get_acov", "get_acov_loop"):
            if not has(S, c, meth):
                continue
            v = safe(lambda: I.call(I.getattr(o, meth), [], {}, None))
            w = where(P, c, meth)
            if S.bad("covariance", w, lab, v):
                continue
            for a in pairs:
                for e in pairs:
                    cross = tm.mul(tm.add(*[tm.mul(x, y) for x, y in zip(rows[a], rows[e])]), tm.power(n, MONE))
                    got = entry(v, pos[a], pos[e])
                    if isinstance(got, Top):
                        S.bad("covariance", w, lab, got)
                        continue
                    # at a maximum the influences sum to zero, so how their mean is removed does not matter
                    alts = [tm.sub(cross, cor) for cor in (tm.mul(tot[a], tot[e]), tm.mul(tot[a], tot[e], tm.power(n, num(-2))), ZERO)]
                    if mod == "polychoric2":
                        alts = [tm.mul(x, tm.power(n, MONE)) for x in alts]
                    st = [equal(tm.asnum(as_tensor(got).elem), x, trials=3, prove=False) for x in alts]
                    good = [x for x in st if x.status in ("agrees", "proved")]
                    bad = [x for x in st if x.status == "violated"]
                    S.chk.ob("covariance", w, "%s: %s with %s" % (lab, a, e), good[0].status if good else "violated" if len(bad) == len(st) else "undecided",
                             (good or bad or st)[0].detail)
        # results of a fit
        w = where(P, c, "fit")
        kf = P.find_method(c, "fit")
        if kf is None:
            continue
        got = {}

        def newton(self_, i1, i2, *a, **k):
            q = (int(num(i1).args[0]), int(num(i2).args[0]))
            return (rs[q], {"success": True, "iters": num(1), "final_g": num(0), "loglike": num(0)})

        def qml(self_, i1, i2, *a, **k):
            q = (int(num(i1).args[0]), int(num(i2).args[0]))
            return (Obj(None, {}), rs[q])
        q0 = "%s%s.Polychor." % (LV, mod)
        I.overrides[q0 + "_fit_qml_newton"] = PyFunc(newton)
        I.overrides[q0 + "_fit_qml"] = PyFunc(qml)
        V = from_flat((len(pairs),) * 2, [sym("acov", i, j) for i in range(len(pairs)) for j in range(len(pairs))])
        DOM["acov"] = ("symmetric",)
        I.overrides[q0 + "get_acov"] = PyFunc(lambda self_: V)
        v = safe(lambda: I.call(I.getattr(o, "fit"), [], {}, None))
        if isinstance(v, Top):
            S.bad("fit", w, lab, v)
            continue
        at_ = lambda k: o.attrs.get(k)
        for k in ("rhos", "rho_hat"):
            if at_(k) is not None:
                for q in pairs:
                    S.eq("fit", w, "%s: %s of pair %s" % (lab, k, q), safe(lambda: entry(at_(k), pos[q])), rs[q])
        if at_("rho_se") is not None:
            for q in pairs:
                S.eq("fit", w, "%s: standard error of pair %s" % (lab, q), safe(lambda: entry(at_("rho_se"), pos[q])), tm.power(sym("acov", pos[q], pos[q]), HALF))
        if at_("R_hat") is not None:
            S.eq("fit", w, lab + ": correlation matrix", at_("R_hat"),
                 [[ONE if i == j else rs[(max(i, j), min(i, j))] for j in range(L.p)] for i in range(L.p)])


def fitted_old(S):
    """fit() of the classes of lvcorr: every pair is optimised on its own table and stored in both triangles"""
    P = S.P
    for name in ("2 variables, 3x2", "3 variables"):
        L = Layout(name)
        for cn in ("Polychoric", "PolychoricCorr"):
            b = built(S, "lvcorr", cn, "%s %s fit" % (cn, name), [L.frame()])
            if b is None:
                continue
            I, o, c = b
            lab = "%s %s" % (cn, name)
            w = where(P, c, "fit")
            rec = Recorder(["z"])
            old = npmodel.TABLE.get("scipy.optimize.minimize")
            npmodel.TABLE["scipy.optimize.minimize"] = rec
            try:
                v = safe(lambda: I.call(I.getattr(o, "fit"), [], {}, None))
            finally:
                npmodel.TABLE.pop("scipy.optimize.minimize", None)
                if old is not None:
                    npmodel.TABLE["scipy.optimize.minimize"] = old
            if isinstance(v, Top):
                S.bad("fit", w, lab, v)
                continue
            pairs = [(i, j) for i in range(L.p) for j in range(i)]
            if len(rec.calls) != len(pairs):
                S.chk.ob("fit", w, lab, "undecided", "%d optimiser calls" % len(rec.calls))
                continue
            R, E = I.getattr(o, "R"), I.getattr(o, "R_se")
            z = sym("z")
            obj = {q: negloglike(L.counts(*q), cells(L.thresholds(q[0]), L.thresholds(q[1]), tm.fn("tanh", z))) for q in pairs}
            # which pair a call belongs to is read off the objective it was handed
            own = {}
            for k, rc in enumerate(rec.calls):
                fv = one(rc["f"])
                if isinstance(fv, Top) or fv is None:
                    S.bad("fit", w, lab, fv)
                    continue
                hit = [q for q in pairs if equal(fv.elem, obj[q], trials=3, prove=False).status in ("agrees", "proved")]
                if len(hit) != 1 or hit[0] in own:
                    S.chk.ob("fit", w, "%s: objective of call %d" % (lab, k), "violated", "matches the pairs %s" % (hit,))
                    continue
                own[hit[0]] = k
            for q in pairs:
                if q not in own:
                    continue
                k = rec.calls[own[q]]
                f = obj[q]
                lq = "%s pair %s" % (lab, q)
                if k["g"] is not None:
                    S.eq("fit", w, lq + ": gradient handed over", k["g"], [D(f, "z")])
                if k["h"] is not None:
                    S.eq("fit", w, lq + ": Hessian handed over", k["h"], [D(f, "z", "z")])
                x = sym(k["pt"][0])
                r = tm.fn("tanh", x)
                rr = lvar("rr")
                f2 = D(negloglike(L.counts(*q), cells(L.thresholds(q[0]), L.thresholds(q[1]), rr)), "rr", "rr")
                se = tm.power(at(f2, "rr", r), num(Fraction(-1, 2)))
                for a, e in (q, q[::-1]):
                    S.eq("fit", w, "%s: correlation stored at (%d, %d)" % (lq, a, e), entry(R, a, e), r)
                    S.eq("fit", w, "%s: standard error stored at (%d, %d)" % (lq, a, e), entry(E, a, e), se)
            for i in range(L.p):
                S.eq("fit", w, "%s: unit diagonal %d" % (lab, i), entry(R, i, i), ONE)


def at(t, name, value):
    """t with the scalar symbol `name` replaced by a term"""
    memo = {}

    def go(u):
        if u in memo:
            return memo[u]
        if u.op == "sym" and u.args[0] == name:
            r = value
        elif name not in tm.symnames(u):
            r = u
        elif u.op == "fn":
            r = tm.fn(u.args[0], *[go(x) for x in u.args[1:]])
        elif u.op == "add":
            r = tm.add(*[go(x) for x in kids(u)])
        elif u.op == "mul":
            r = tm.mul(*[go(x) for x in kids(u)])
        elif u.op == "pow":
            r = tm.power(go(u.args[0]), go(u.args[1]))
        else:
            raise TypeError("replacement inside " + u.op)
        memo[u] = r
        return r
    return go(t)


def kids(u):
    return tm.children(u)


def idx(I, o, i, j):
    v = getitem(as_tensor(I.getattr(o, "II_ind")), (num(i), num(j)))
    return int(toterm(v).args[0])


def polyserial(S):
    P = S.P
    c = cls(P, LV + "lvcorr", "Polyserial")
    if c is None:
        return
    nm = ["x0", "x1", "x2", "x3", "t1", "t2"]
    params(nm, {s: ("range", -1.5, 1.5) if s[0] == "x" else ("range", -0.8, -0.2) if s == "t1" else ("range", 0.1, 0.9) for s in nm})
    lo, hi = num(-10 ** 13), num(10 ** 13)
    t1, t2 = sym("t1"), sym("t2")
    low, upp = [lo, t1, t2, t1], [t1, t2, hi, t2]
    xs = [sym("x%d" % k) for k in range(4)]
    r = lvar()
    I = interp(P)
    o = Obj(c, {"x": from_flat((4,), xs), "tau1": from_flat((4,), low), "tau2": from_flat((4,), upp)})
    den = tm.power(tm.sub(ONE, tm.power(r, TWO)), num(Fraction(-1, 2)))

    def Fz(t, x):
        if t is lo:
            return ZERO
        if t is hi:
            return ONE
        return tm.fn("ndtr", tm.mul(tm.sub(t, tm.mul(r, x)), den))
    pr = [tm.sub(Fz(u, x), Fz(l, x)) for l, u, x in zip(low, upp, xs)]
    f = tm.neg(tm.add(*[tm.fn("log", q) for q in pr]))
    w = lambda k: where(P, c, k)
    go = lambda k: safe(lambda: I.call(I.getattr(o, k), [r], {}, None))
    S.eq("cell probabilities", w("prob"), "Polyserial: prob", go("prob"), pr)
    S.eq("objective", w("loglike"), "Polyserial: loglike", one(go("loglike")), f)
    S.eq("gradient", w("gradient"), "Polyserial: gradient", one(go("gradient")), D(f, "r"))


def run():
    chk = Check("C26", floor=230, explanation=(
        "The latent-correlation estimators of pylvcorr (_Polychor, Polyserial, Polychoric, PolychoricCorr and the two Polychor "
        "classes with their per-pair workspace) are built by their own constructors from fixed tables of category codes and "
        "interpreted abstractly at symbolic correlations and thresholds. The bivariate normal distribution function is a term "
        "with its own differentiation rules; the compiled kernels that compute it (rational normal cdf, Gauss-Legendre rule) are "
        "compared with that term once, and everything above them is interpreted from source. Cell probabilities are compared "
        "with the rectangle formula written from the category codes, objectives with the multinomial log-likelihood, and every "
        "derivative with the formal derivative of that objective; a non-zero residual is a violation."),
        rules={"kernel": "normal and bivariate normal kernels equal the distribution functions and their derivatives",
               "construct": "the estimator's constructor can be followed on the fixed table",
               "cell probabilities": "every cell is the rectangle probability of its own thresholds, and its derivatives",
               "objective": "the criterion is minus the multinomial log-likelihood of the table",
               "fit": "the optimiser receives objective, gradient and Hessian of the same pair, and its answer is stored for that pair",
               "covariance": "cross products of the two-step influence functions, every pair with every pair",
               "gradient": "every entry equals the formal derivative of that criterion",
               "hessian": "every entry equals the second formal derivative of that criterion"})
    P = Project()
    install()
    S = Ck(chk, P)
    fs = []

    def suite(name, f):
        f.__name__ = name
        fs.append(f)
    suite("kernels_statfuncs", lambda: kernels(S, LV + "statfuncs"))
    suite("kernels_func_utils", lambda: kernels(S, FU))
    suite("lvcorr", lambda: lv_old(S))
    suite("lvcorr_fit", lambda: fitted_old(S))
    suite("single", lambda: lv_single(S))
    suite("polyserial", lambda: polyserial(S))
    for mod in ("polychoric", "polychoric2"):
        suite(mod, lambda mod=mod: polychor(S, mod))
        suite(mod + "_results", lambda mod=mod: acov(S, mod))
    chk.suites(fs, lambda f: f())
    return chk.finish()
