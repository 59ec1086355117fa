"""C04 model gradients, scores and Hessians are the derivatives of the model's own objective."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa import npmodel
from sa.interp import dense_arr, from_flat, concrete_dims, FuncVal, PyFunc, Obj, SliceVal
import time
from fractions import Fraction
from .c07 import safe

ALL = SliceVal(None, None, None)
PG, PG2 = "pystatsm.pyglm.", "pystatsm.pyglm2."


def params(names, doms=None):
    for k, s in enumerate(names):
        DOM[s] = (doms or {}).get(s, "real")
    return from_flat((len(names),), [sym(s) for s in names])


def full(v):
    """sum of every entry; scalar term"""
    if isinstance(v, Top) or v is None:
        return v
    t = as_tensor(v)
    while t.rank:
        t = as_tensor(reduce_sum(t, 0))
    return t


def dterm(t, *names):
    if isinstance(t, Top) or t is None:
        return t
    t = as_tensor(t)
    e = tm.asnum(t.elem)
    try:
        for s in names:
            e = tm.diff(e, s, ())
    except NotDifferentiable as ex:
        return Top("not differentiable: %s" % ex)
    return Tensor(t.dims, e, t.mask)


def entry(t, *ix):
    if isinstance(t, Top):
        return t
    r = safe(getitem, as_tensor(t), tuple(ix))
    return r if isinstance(r, Top) else as_tensor(r)


class Suite:
    def __init__(self, chk, P):
        self.chk, self.P = chk, P

    def bad(self, rule, wh, what, v):
        if v is None:
            self.chk.ob(rule, wh, what, "undecided", "no value")
            return True
        if isinstance(v, Top):
            self.chk.ob(rule, wh, what, "violated" if v.definite else "undecided", v.why)
            return True
        return False

    def shape(self, rule, wh, what, t, want):
        ns = concrete_dims(as_tensor(t))
        if ns is None:
            return True
        if tuple(ns) != tuple(want):
            self.chk.ob(rule, wh, what, "violated", "shape %s, expected %s" % (tuple(ns), tuple(want)))
            return False
        return True

    def fold(self, rule, wh, what, pairs, **kw):
        """one obligation over several entries: (name, lhs, rhs)"""
        from .c17 import Cap
        worst, count = None, 0
        order = ["violated", "undecided", "agrees", "proved"]
        for nm, a, b in pairs:
            c = Cap()
            c.seed, c.thorough = self.chk.seed, self.chk.thorough
            compare(c, rule, wh, what, a, b, **kw)
            st, d = c.r
            count += 1
            if worst is None or order.index(st) < order.index(worst[0]):
                worst = (st, "%s: %s" % (nm, d))
            if st == "violated":
                break
        self.entries = getattr(self, "entries", 0) + count
        if worst:
            self.chk.ob(rule, wh, what, worst[0], worst[1] if worst[0] in order[:2] else "%d entries %s" % (count, worst[0]))

    def check(self, label, names, obj, grad=None, hess=None, score=None, obj_i=None, prove=False):
        """obj/grad/...: (where, thunk) pairs evaluated at the parameter symbols `names`"""
        p = len(names)
        kw = dict(prove=prove)
        fv = safe(obj[1])
        if self.bad("objective", obj[0], label, fv):
            return
        f = full(fv)
        fi = gi = None
        if obj_i:
            fi = safe(obj_i[1])
            if not self.bad("per-observation", obj_i[0], label, fi):
                self.fold("per-observation", obj_i[0], label + ": sums to the objective", [("", full(fi), f)], **kw)
        if grad:
            g = safe(grad[1])
            if not self.bad("gradient", grad[0], label, g) and self.shape("gradient", grad[0], label, g, (p,)):
                self.fold("gradient", grad[0], label, [("d/d" + s, entry(g, j), dterm(f, s)) for j, s in enumerate(names)], **kw)
        if score:
            gi = safe(score[1])
            if not self.bad("scores", score[0], label, gi):
                t = as_tensor(gi)
                if t.rank != 2:
                    self.chk.ob("scores", score[0], label, "violated", "rank %d" % t.rank)
                    gi = None
                else:
                    self.fold("scores", score[0], label + ": sum over observations",
                              [("d/d" + s, full(entry(t, ALL, j)), dterm(f, s)) for j, s in enumerate(names)], **kw)
        if isinstance(fi, Tensor) and isinstance(gi, Tensor):
            self.fold("scores", score[0], label + ": each observation",
                      [("d/d" + s, entry(gi, ALL, j), dterm(as_tensor(fi), s)) for j, s in enumerate(names)], **kw)
        if hess:
            H = safe(hess[1])
            if not self.bad("hessian", hess[0], label, H) and self.shape("hessian", hess[0], label, H, (p, p)):
                self.fold("hessian", hess[0], label, [("d2/d%s d%s" % (a, b), entry(H, i, j), dterm(f, a, b))
                                                      for i, a in enumerate(names) for j, b in enumerate(names)], **kw)


def cls(P, mod, name):
    m = P.modules.get(mod)
    return m.classes.get(name) if m else None


def make(P, mod, name, *args, **kw):
    """(interp, object) built by the class's own constructor"""
    c = cls(P, mod, name)
    if c is None:
        return None, None, None
    I = Interp(P)
    o = safe(I.call, ClassVal(c), list(args), kw, None)
    return I, o, c


def link(P, I, mod, name):
    m = P.modules[mod]
    return safe(I.call, ClassVal(m.classes[name]), [], {}, None)


def meth(S, I, o, c, name, *args, **kw):
    return (where(S.P, c, name), lambda: I.call(I.getattr(o, name), list(args), kw, None))


# ------------------------------------------------------------------ beta regression
def betareg(S):
    P = S.P
    n = dim("n", 2)
    X, Z, y = matr("X", n, num(2), RNG), matr("Z", n, num(2), RNG), vec("y", "unit", n)
    pos = ("range", 0.1, 0.4)
    for ml, sl in (("LogitLink", "LogLink"), ("ProbitLink", "LogLink"), ("LogitLink", "IdentityLink"), ("CloglogLink", "ReciprocalLink"), ("LogitLink", "PowerLink")):
        # links other than the logarithm need a positive predictor of the precision
        dom = RNG if sl == "LogLink" else pos
        Z = matr("Z" if dom is RNG else "Zp", n, num(2), dom)
        c = cls(P, PG + "betareg", "BetaReg")
        if c is None:
            return
        I = Interp(P)
        L = P.modules[PG + "links"]
        lk = [safe(I.call, ClassVal(L.classes[k]), [num(Fraction(1, 2))] if k == "PowerLink" else [], {}, None) for k in (ml, sl)]
        o = safe(I.call, ClassVal(c), [], dict(X=X, Z=Z, y=y, m_link=lk[0], s_link=lk[1]), None)
        if S.bad("objective", where(P, c, "__init__"), "BetaReg " + ml, o):
            continue
        nm = ["b0", "b1", "a0", "a1"]
        th = params(nm, {k: RNG if k[0] == "b" else dom for k in nm})
        for lab, extra in (("own data", ()), ("data passed", (matr("X2", n, num(2), RNG), matr("Z2" if dom is RNG else "Z2p", n, num(2), dom)))):
            M = lambda k: meth(S, I, o, c, k, th, *extra)
            S.check("%s, %s" % (ml if dom is RNG else ml + "/" + sl, lab), nm, M("loglike"), M("gradient"), M("hessian"), obj_i=M("loglike_elementwise"), prove=False)



RNG = ("range", -1, 1)


def data(*specs):
    """(name, dom) -> vector, (name, p) -> n x p matrix, rows symbolic"""
    n = dim("n", 2)
    return [vec(a, b, n) if not isinstance(b, int) else matr(a, n, num(b), RNG) for a, b in specs]


def patsy(Y, X):
    """stand-in value for the design matrices patsy would build"""
    npmodel.TABLE["patsy.dmatrices"] = lambda I, a, kw: (Y, X)


def nb2(S):
    P = S.P
    c = cls(P, PG + "nb2", "NegativeBinomial")
    if c is None:
        return
    X, y, X2 = data(("X", 2), ("y", "count"), ("X2", 2))
    patsy(y, X)
    I = Interp(P)
    o = safe(I.call, ClassVal(c), ["y ~ x", None], {}, None)
    if S.bad("objective", where(P, c, "__init__"), "NegativeBinomial", o):
        return
    nm = ["b0", "b1", "t"]
    th = params(nm, {k: RNG for k in nm})
    for lab, ex in (("own data", ()), ("data passed", (X2,))):
        M = lambda k: meth(S, I, o, c, k, th, *ex)
        S.check("NegativeBinomial, " + lab, nm, M("loglike"), M("gradient"), M("hessian"), prove=False)


def zip_old(S):
    P = S.P
    c = cls(P, PG + "zimodels", "ZIP")
    if c is None:
        return
    X, Z, y = data(("X", 2), ("Z", 2), ("y", "count"))
    I = Interp(P)
    o = safe(I.call, ClassVal(c), [X, y], dict(Z=Z), None)
    if S.bad("objective", where(P, c, "__init__"), "ZIP", o):
        return
    nm = ["b0", "b1", "a0", "a1"]
    th = params(nm, {k: RNG for k in nm})
    for lab, ex in (("own data", ()), ("data passed", tuple(data(("X2", 2), ("Z2", 2))))):
        M = lambda k: meth(S, I, o, c, k, th, *ex)
        S.check("ZIP, " + lab, nm, M("loglike"), M("gradient"), M("hessian"), prove=False)


FAM1 = [("Gaussian", "real"), ("Gamma", "pos"), ("InverseGaussian", "pos"), ("Poisson", "count"), ("Binomial", "bin"),
        ("NegativeBinomial", "count")]
# a link of every family that is not its default one; the last column says whether it needs a positive predictor
LINKS1 = {"Gaussian": [("LogLink", False)], "Gamma": [("LogLink", False)], "InverseGaussian": [("LogLink", False)], "Poisson": [("IdentityLink", True), ("PowerLink", True)],
          "Binomial": [("ProbitLink", False), ("CloglogLink", False)], "NegativeBinomial": [("ReciprocalLink", True)]}
POSR = ("range", 0.1, 0.4)


def famlinks():
    for fam, yd in FAM1:
        yield fam, yd, None, False
        for ln, p in LINKS1.get(fam, ()):
            yield fam, yd, ln, p


def family(I, S, F, lmod, fam, ln):
    kw = {}
    if ln is not None:
        L = S.P.modules.get(lmod)
        if L is None or ln not in L.classes:
            return None
        kw["link"] = safe(I.call, ClassVal(L.classes[ln]), [num(Fraction(1, 2))] if ln == "PowerLink" else [], {}, None)
    return safe(I.call, ClassVal(F.classes[fam]), [], kw, None)


def design(names, p):
    """design matrices of two columns, with positive entries when the predictor has to be positive"""
    n = dim("n", 2)
    return [matr(k + ("p" if p else ""), n, num(2), POSR if p else RNG) for k in names]


def glm_old(S):
    P = S.P
    c = cls(P, PG + "glm", "GLM")
    F = P.modules.get(PG + "families")
    if c is None or F is None:
        return
    for fam, yd, ln, pl in famlinks():
        if fam not in F.classes:
            continue
        for sc in ("NR", "M"):
            if fam == "NegativeBinomial" and ln is not None and sc == "M":
                continue          # same listed finding as with the default link
            (y,), (X, X2) = data(("y", yd)), design(("X", "X2"), pl)
            I = Interp(P)
            fo = family(I, S, F, PG + "links", fam, ln)
            o = safe(I.call, ClassVal(c), [], dict(X=X, Y=y, fam=fo, scale_estimator=sc), None)
            lb = "GLM %s %s" % (fam if ln is None else fam + "/" + ln, sc)
            if S.bad("objective", where(P, c, "__init__"), lb, o):
                continue
            nr = safe(I.getattr, o, "scale_handling") == "NR"
            if sc == "NR" and not nr:
                continue
            I.overrides[c.qual + "._est_scale"] = PyFunc(lambda *a, **kw: Tensor((), sym("scale", dom="pos")), "est")
            nm = ["b0", "b1"] + (["t"] if nr else [])
            th = params(nm, {k: POSR if pl and k[0] == "b" else RNG for k in nm})
            for lab, ex in (("own data", ()), ("data passed", (X2, y))):
                M = lambda k: meth(S, I, o, c, k, th, *ex)
                S.check(lb + ", " + lab, nm, M("loglike"), M("gradient"), M("hessian"), prove=False)
                if not nr:
                    break



def build(S, mod, name, lab, *args, **kw):
    """(interp, object, class) through the class's constructor, or None"""
    c = cls(S.P, mod, name)
    if c is None:
        return None
    I = Interp(S.P)
    args = [f(I) if callable(f) else f for f in args]
    kw = {k: (f(I) if callable(f) and not isinstance(f, (ClassVal, FuncVal)) else f) for k, f in kw.items()}
    o = safe(I.call, ClassVal(c), list(args), kw, None)
    if S.bad("objective", where(S.P, c, "__init__"), lab, o):
        return None
    return I, o, c


def clsval(S, mod, name):
    m = S.P.modules.get(mod)
    return ClassVal(m.classes[name]) if m and name in m.classes else None


def glm_new(S, mods=((PG2 + "glm", PG2 + "families"), (PG + "linear_model", PG + "families"))):
    for mod, fmod in mods:
        F = S.P.modules.get(fmod)
        if F is None:
            continue
        for fam, yd, ln, pl in famlinks():
            if fam not in F.classes:
                continue
            for sc in ("NR", "fixed"):
                (y, w), (X, X2) = data(("y", yd), ("w", "pos")), design(("X", "X2"), pl)
                lb = "%s GLM %s %s" % (mod.split(".")[1], fam if ln is None else fam + "/" + ln, sc)
                fo = lambda I: family(I, S, F, fmod.replace("families", "links"), fam, ln)
                b = build(S, mod, "GLM", lb, X=X, y=y, weights=w, family=fo, scale_estimator=sc)
                if b is None:
                    continue
                I, o, c = b
                se = safe(I.getattr, o, "scale_estimator")
                if sc == "NR" and se != "NR":
                    continue
                nm = ["b0", "b1"] + (["t"] if sc == "NR" else [])
                th = params(nm, {k: POSR if pl and k[0] == "b" else RNG for k in nm})
                y2, w2 = data(("y2", yd), ("w2", "pos"))
                for lab, kw in (("own data", {}), ("data passed", dict(data=(X2, y2, w2)))):
                    M = lambda k: meth(S, I, o, c, k, th, **kw)
                    S.check("%s, %s" % (lb, lab), nm, M("loglike"), M("gradient"), M("hessian"), score=M("gradient_i"))


def linear(S):
    for mod, name in ((PG2 + "ols", "OLS"), (PG + "linear_model", "LinearModel")):
        X, y = data(("X", 2), ("y", "real"))
        b = build(S, mod, name, name, X=X, y=y)
        if b is None:
            continue
        I, o, c = b
        nm = ["b0", "b1", "t"]
        th = params(nm, {k: RNG for k in nm})
        for reml in (True, False):
            M = lambda k: meth(S, I, o, c, k, th, reml=reml)
            S.check("%s reml=%s" % (name, reml), nm, M("loglike"), M("gradient"), M("hessian"))


def mvols(S):
    for q in ((2, 3) if not S.quick else (2,)):
        n = dim("n", 2)
        X, Y, w = matr("X", n, num(2), RNG), matr("Y", n, num(q), RNG), vec("w", "pos", n)
        b = build(S, PG2 + "mvols", "MVOLS", "MVOLS", X=X, y=Y, weights=w)
        if b is None:
            continue
        I, o, c = b
        nm = ["b%d" % k for k in range(2 * q)] + ["l%d" % k for k in range(q * (q + 1) // 2)]
        th = params(nm, {k: RNG for k in nm})
        M = lambda k: meth(S, I, o, c, k, th)
        S.check("MVOLS %d responses" % q, nm, M("loglike"), M("gradient"), M("hessian"), score=M("gradient_i"))


def zip_new(S):
    for ln, zl in (("LogLink", "LogitLink"), ("LogLink", "ProbitLink"), ("IdentityLink", "CloglogLink"), ("ReciprocalLink", "LogitLink")):
        pl = ln != "LogLink"
        (Z, y, w), (X,) = data(("Z", 2), ("y", "count"), ("w", "pos")), design(("X",), pl)
        n = "ZeroInflatedPoisson"
        b = build(S, PG2 + "zinf", n, n, X=X, Z=Z, y=y, weights=w, link=clsval(S, PG2 + "links", ln), zero_link=clsval(S, PG2 + "links", zl))
        if b is None:
            continue
        I, o, c = b
        nm = ["b0", "b1", "a0", "a1"]
        th = params(nm, {k: POSR if pl and k[0] == "b" else RNG for k in nm})
        M = lambda k: meth(S, I, o, c, k, th)
        S.check("%s %s/%s" % (n, ln, zl), nm, M("loglike"), M("gradient"), M("hessian"), score=M("gradient_i"), obj_i=M("loglike_i"))


def zinb_new(S):
    X, Z, y, w = data(("X", 2), ("Z", 2), ("y", "count"), ("w", "pos"))
    n = "ZeroInflatedNBinom"
    for zl in ("LogitLink", "ProbitLink", "CloglogLink"):
        b = build(S, PG2 + "zinf", n, n, X=X, Z=Z, y=y, weights=w, zero_link=clsval(S, PG2 + "links", zl))
        if b is None:
            continue
        I, o, c = b
        nm = ["b0", "b1", "a0", "a1", "t"]
        th = params(nm, {k: RNG for k in nm})
        M = lambda k: meth(S, I, o, c, k, th)
        S.check("%s %s" % (n, zl), nm, M("loglike"), M("gradient"), M("hessian"), score=M("gradient_i"), obj_i=M("loglike_i"))


def ordinal(S):
    """three categories, one observation of each and a repeated one"""
    ys = [1, 0, 2, 1]
    X = from_flat((4, 1), [sym("X", num(i), num(0), dom=RNG) for i in range(4)])
    DOM["X"] = RNG
    y = from_flat((4,), [num(v) for v in ys])
    w = from_flat((4,), [sym("w", num(i), dom="pos") for i in range(4)])
    nm = ["c0", "c1", "b0"]
    thr = {"c0": ("range", -1, 0), "c1": ("range", 0.5, 2), "b0": RNG}
    for ln in ("LogitLink", "ProbitLink"):
        b = build(S, PG2 + "clm", "CLM", "CLM", formula=None, data=None, X=X, y=y, weights=w, link=clsval(S, PG2 + "links", ln))
        if b is not None:
            I, o, c = b
            th = params(nm, thr)
            M = lambda k: meth(S, I, o, c, k, th)
            S.check("CLM %s" % ln, nm, M("loglike"), M("gradient"), M("hessian"), score=M("gradient_i"))
            tu = params(nm, dict(thr, c1=("range", -1, 0.5)))
            U = lambda k: meth(S, I, o, c, k, tu)
            S.check("CLM unconstrained %s" % ln, nm, U("loglike_unconstrained"), U("gradient_unconstrained"),
                    U("hessian_unconstrained"), score=U("gradient_unconstrained_i"))
        params(nm, thr)
        patsy(y, X)
        b = build(S, PG + "clm", "CLM", "CLM", "y ~ x", None, link=clsval(S, PG + "links", ln))
        if b is not None:
            I, o, c = b
            th = params(nm, thr)
            M = lambda k: meth(S, I, o, c, k, th)
            S.check("pyglm CLM %s" % ln, nm, M("loglike"), M("gradient"), M("hessian"))


def robust(S):
    X, y = data(("X", 2), ("y", "real"))
    patsy(y, X)
    m = S.P.modules.get("pystatsm.pyrobust.m_estimators")
    b = build(S, "pystatsm.pyrobust.rls", "RobustLM", "RobustLM", "y ~ x", None)
    if b is None or m is None:
        return
    I, o, c = b
    nm = ["b0", "b1", "t"]
    th = params(nm, {k: RNG for k in nm})
    for lab, kw in (("own constant", {}), ("constant passed", dict(a=sym("aconst", dom="pos")))):
        M = lambda k: meth(S, I, o, c, k, th, **kw)
        S.check("RobustLM Huber, " + lab, nm, M("rho"), M("grad"), M("hessian"))


def elnet(S):
    F = S.P.modules.get(PG + "families")
    for fam, yd in (("Gaussian", "real"), ("Poisson", "pos"), ("Binomial", "unit")):
        X, y, w = data(("X", 2), ("y", yd), ("w", "pos"))
        al, lam = scal("alpha", "unit"), scal("lam", "pos")
        fo = lambda I: safe(I.call, ClassVal(F.classes[fam]), [], {}, None)
        b = build(S, "pystatsm.pyglmnet.glmen2", "ElasticNetGLM", fam, X, y, fo, wobs=w, alpha=al)
        if b is None:
            continue
        I, o, c = b
        nm = ["b0", "b1", "b2"]
        th = params(nm, {k: RNG for k in nm})
        X2, y2, w2 = data(("X2", 2), ("y2", yd), ("w2", "pos"))
        for lab, kw in (("own data", {}), ("data passed", dict(X=X2, y=y2, wobs=w2))):
            M = lambda k: meth(S, I, o, c, k, th, lam, **kw)
            S.check("ElasticNetGLM %s objective, %s" % (fam, lab), nm, M("obj_func"), M("obj_grad"), M("obj_hess"))
        P_ = lambda k: meth(S, I, o, c, k, th, lam)
        S.check("ElasticNetGLM %s deviance" % fam, nm, meth(S, I, o, c, "_dev_beta", th), P_("dev_grad"), P_("dev_hess"))


def symstack(nm, m, p):
    """m symmetric p x p matrices of independent symbols"""
    DOM[nm] = RNG
    out = []
    for k in range(m):
        for i in range(p):
            for j in range(p):
                a, b = min(i, j), max(i, j)
                out.append(sym(nm, num(k), num(a), num(b), dom=RNG))
    return from_flat((m, p, p), out)


def chain(S, rule, wh, what, names, got, parts, **kw):
    S.fold(rule, wh, what, [(nm, g, w) for nm, g, w in zip(names, got, parts)], prove=False, **kw)


def esum(xs):
    out = None
    for x in xs:
        if isinstance(x, Top) or x is None:
            return x
        out = x if out is None else elementwise(num_elem(tm.add), out, x)
    return out


def eprod(*xs):
    out = None
    for x in xs:
        if isinstance(x, Top) or x is None:
            return x
        out = x if out is None else elementwise(num_elem(tm.mul), out, x)
    return out


class Smooth:
    """an additive model with symbolic design, penalties and coefficients, built by its own constructor with
    the smooth-term parsing replaced by symbolic design and penalty matrices"""

    def __init__(self, S, mod, name, p=3, ns=2):
        self.S, self.P, self.mod, self.name, self.p, self.ns = S, S.P, mod, name, p, ns
        self.c = cls(S.P, mod, name)
        self.I = Interp(S.P)

    def setup(self, yd, tag=""):
        n = dim("n", 2)
        SS = "pystatsm.pygam.smooth_setup."
        I, p, ns = self.I, self.p, self.ns
        X = matr("X" + tag, n, num(p), RNG)
        y = matr("y", n, num(1), yd)
        pen = symstack("S" + tag, ns, p)
        ranks = [sym("r%s_%d" % (tag, k), dom="pos") for k in range(ns)]
        lds = [sym("ld%s_%d" % (tag, k), dom="real") for k in range(ns)]
        patsy(y, getitem(X, (ALL, SliceVal(None, num(1), None))))
        ov = I.overrides
        ov[SS + "parse_smooths"] = PyFunc(lambda *a, **kw: {}, "smooths")
        ov[SS + "get_parametric_formula"] = PyFunc(lambda *a, **kw: "y ~ 1", "formula")
        ov[SS + "get_smooth_terms"] = PyFunc(lambda *a, **kw: ({}, ns, p, []), "terms")
        ov[SS + "get_smooth_matrices"] = PyFunc(lambda *a, **kw: ([X], pen, list(ranks), list(lds)), "matrices")
        return X, y, pen


def rows(t, *ix):
    return safe(getitem, as_tensor(t), tuple(ix)) if not isinstance(t, Top) else t


def gam(S):
    mod = "pystatsm.pygam.gam"
    F = S.P.modules.get(PG + "families")
    if F is None:
        return
    for fam, yd in (("Gaussian", "real"), ("Gamma", "pos"), ("InverseGaussian", "pos")):
        M = Smooth(S, mod, "GAM")
        if M.c is None:
            return
        I, p, ns = M.I, M.p, M.ns
        M.setup(yd)
        fo = safe(I.call, ClassVal(F.classes[fam]), [], {}, None)
        o = safe(I.call, ClassVal(M.c), ["y ~ s(x)", None], dict(family=fo), None)
        lb = "GAM " + fam
        if S.bad("objective", where(S.P, M.c, "__init__"), lb, o):
            continue
        bn = ["b%d" % k for k in range(p)]
        tn = ["rho%d" % k for k in range(ns)]
        beta = params(bn, {k: RNG for k in bn})
        th = params(tn + ["tau"], {k: RNG for k in tn + ["tau"]})
        lam = safe(npmodel.TABLE["numpy.exp"], I, [rows(th, SliceVal(None, num(-1), None))], {})
        w = lambda k: where(S.P, M.c, k)
        call = lambda k, *a: safe(lambda: I.call(I.getattr(o, k), list(a), {}, None))
        pen = call("get_penalty_mat", lam)
        # the penalised deviance at given coefficients
        X, y, f = I.getattr(o, "X"), I.getattr(o, "y"), I.getattr(o, "f")
        eta = safe(npmodel.TABLE["numpy.dot"], I, [X, beta], {})
        mu = safe(I.call, I.getattr(f, "inv_link"), [eta], {}, None)
        dev = full(safe(I.call, I.getattr(f, "deviance"), [y], dict(mu=mu), None))
        half = num(0.5)
        pq = esum([eprod(entry(pen, i, j), sym(bn[i]), sym(bn[j])) for i in range(p) for j in range(p)])
        obj = esum([eprod(half, dev), eprod(half, pq)]) if not isinstance(dev, Top) and not isinstance(pq, Top) else Top("deviance")
        S.check(lb + " penalised deviance", bn, (w("pirls"), lambda: obj), (w("grad_dev_beta"), lambda: call("grad_dev_beta", beta, pen)),
                (w("hess_dev_beta"), lambda: call("hess_dev_beta", beta, pen)[1]))
        additive(S, I, o, M, lb, bn, tn, beta, lam, call, w, lambda b: call("grad_dev_beta", beta, pen))
        # the criterion in the smoothing parameters, coefficients following their implicit derivative
        I.overrides[M.c.qual + ".pirls"] = PyFunc(lambda *a, **kw: (beta, eta, mu, esum([dev, pq]), True, 1), "pirls")
        criterion(S, I, o, M, lb, bn, tn + ["tau"], th, lam, call, w, obj)


def additive(S, I, o, M, lb, bn, tn, beta, lam, call, w, score):
    """implicit derivatives of the penalised fit with respect to the log smoothing parameters"""
    p, ns = M.p, M.ns
    g = score(beta)
    b1 = call("grad_beta_rho", beta, lam)
    if S.bad("implicit", w("grad_beta_rho"), lb, b1) or isinstance(g, Top):
        return
    ent = lambda *ix: entry(b1, *ix)
    S.fold("implicit", w("grad_beta_rho"), lb,
           [("score %d along rho%d" % (k, i), esum([dterm(entry(g, k), tn[i])] + [eprod(dterm(entry(g, k), bn[l]), ent(l, i)) for l in range(p)]), num(0))
            for k in range(p) for i in range(ns)], prove=False)
    if not S.P.find_method(M.c, "hess_beta_rho"):
        return
    b2 = call("hess_beta_rho", beta, lam)
    if S.bad("implicit", w("hess_beta_rho"), lb, b2):
        return
    S.fold("implicit", w("hess_beta_rho"), lb,
           [("b%d rho%d rho%d" % (k, i, j), entry(b2, i, j, k),
             esum([dterm(ent(k, i), tn[j])] + [eprod(dterm(ent(k, i), bn[l]), ent(l, j)) for l in range(p)]))
            for k in range(p) for i in range(ns) for j in range(i, ns)], prove=False)


    if "dhess_beta_rho" in M.c.methods:
        b3 = call("dhess_beta_rho", beta, lam)
        if not S.bad("implicit", w("dhess_beta_rho"), lb, b3):
            S.fold("implicit", w("dhess_beta_rho"), lb,
                   [("b%d rho%d rho%d rho%d" % (k, i, j, m), entry(b3, i, j, m, k),
                     esum([dterm(entry(b2, i, j, k), tn[m])] + [eprod(dterm(entry(b2, i, j, k), bn[l]), ent(l, m)) for l in range(p)]))
                    for k in range(p) for i in range(ns) for j in range(i, ns) for m in range(j, ns)], prove=False)


def gauls(S):
    mod = "pystatsm.pygam.gauls"
    c = cls(S.P, mod, "GauLS")
    if c is None:
        return
    for wt in (False, True):
        M = Smooth(S, mod, "GauLS", p=4, ns=2)
        I = M.I
        lb = "GauLS%s" % (" weighted" if wt else "")
        n = dim("n", 2)
        spec = {}
        SS = "pystatsm.pygam.smooth_setup."
        cur = []
        for k in ("m", "s"):
            X = matr("X" + k, n, num(2), RNG)
            spec[k] = ([X], symstack("S" + k, 1, 2), [sym("r" + k, dom="pos")], [sym("ld" + k, dom="real")])
        Y = matr("y", n, num(1), "real")
        patsy(Y, getitem(spec["m"][0][0], (ALL, SliceVal(None, num(1), None))))

        def parse(formula, *a, **kw):
            cur[:] = [formula.split()[0]]
            return {}
        ov = I.overrides
        ov[SS + "parse_smooths"] = PyFunc(parse, "smooths")
        ov[SS + "get_parametric_formula"] = PyFunc(lambda *a, **kw: "y ~ 1", "formula")
        ov[SS + "get_smooth_terms"] = PyFunc(lambda *a, **kw: ({}, 1, 2, []), "terms")
        ov[SS + "get_smooth_matrices"] = PyFunc(lambda *a, **kw: tuple(list(x) if isinstance(x, list) else x for x in spec[cur[0]]), "matrices")
        kw = dict(weights=vec("w", "pos", n), weights_normalize=False) if wt else {}
        o = safe(I.call, ClassVal(c), ["m ~ s(x)", "s ~ s(x)", None], kw, None)
        if S.bad("objective", where(S.P, c, "__init__"), lb, o):
            continue
        p, ns = M.p, M.ns
        bn = ["b%d" % k for k in range(p)]
        tn = ["rho%d" % k for k in range(ns)]
        beta = params(bn, {k: RNG for k in bn})
        rho = params(tn, {k: RNG for k in tn})
        lam = safe(npmodel.TABLE["numpy.exp"], I, [rho], {})
        w = lambda k: where(S.P, c, k)
        call = lambda k, *a: safe(lambda: I.call(I.getattr(o, k), list(a), {}, None))
        L = lambda k, *a: (w(k), lambda: call(k, *a))
        pen = call("get_penalty_mat", lam)
        S.check(lb, bn, L("loglike", beta), L("grad_ll_beta", beta), L("hess_ll_beta", beta))
        S.check(lb + " penalised", bn, L("penalized_loglike", beta, pen), L("grad_pll_beta", beta, pen), L("hess_pll_beta", beta, pen))
        additive(S, I, o, M, lb, bn, tn, beta, lam, call, w, lambda b: call("grad_pll_beta", beta, pen))
        b1, b2, H = call("grad_beta_rho", beta, lam), call("hess_beta_rho", beta, lam), call("hess_ll_beta", beta)
        along = lambda e, i: esum([dterm(e, tn[i])] + [eprod(dterm(e, bn[l]), entry(b1, l, i)) for l in range(p)])
        d1 = call("dhess", beta, lam)
        if not S.bad("implicit", w("dhess"), lb, d1):
            S.fold("implicit", w("dhess"), lb, [("H[%d,%d] along rho%d" % (a, b, i), entry(d1, i, a, b), along(entry(H, a, b), i))
                                                for i in range(ns) for a in range(p) for b in range(p)], prove=False)
        d2 = call("d2hess", beta, lam)
        if not S.bad("implicit", w("d2hess"), lb, d2):
            S.fold("implicit", w("d2hess"), lb, [("H[%d,%d] along rho%d rho%d" % (a, b, i, j), entry(d2, i, j, a, b), along(entry(d1, i, a, b), j))
                                                 for i in range(ns) for j in range(ns) for a in range(p) for b in range(a, p)], prove=False)
        I.overrides[c.qual + ".beta_rho"] = PyFunc(lambda *a, **kw: beta, "beta_rho")
        obj = full(call("penalized_loglike", beta, pen))
        criterion(S, I, o, M, lb, bn, tn, rho, lam, call, w, obj)


def criterion(S, I, o, M, lb, bn, tn, th, lam, call, w, obj):
    p, ns = M.p, M.ns
    b1 = call("grad_beta_rho", params(bn), lam)
    L = call("reml", th)
    g = call("gradient", th)
    H = call("hessian", th)
    if S.bad("objective", w("reml"), lb + " criterion", L) or isinstance(b1, Top):
        return
    phi = fn("exp", sym("tau")) if "tau" in tn else ONE
    # at a penalised fit the fit part is stationary in the coefficients, so only the rest follows them
    rest = lambda l: esum([dterm(L, bn[l]), eprod(num(-1), tm.div(ONE, phi), dterm(obj, bn[l]))])
    step = lambda i, l: entry(b1, l, i) if i < ns else num(0)
    if not S.bad("gradient", w("gradient"), lb + " criterion", g):
        S.fold("gradient", w("gradient"), lb + " criterion",
               [("d/d" + tn[i], entry(g, i), esum([dterm(as_tensor(L), tn[i])] + ([eprod(rest(l), step(i, l)) for l in range(p)] if i < ns else [])))
                for i in range(len(tn))], prove=False)
    # likewise the derivative in the scale contains the fit part once more, with the opposite sign
    grest = lambda i, l: dterm(entry(g, i), bn[l]) if i < ns else esum([dterm(entry(g, i), bn[l]), eprod(tm.div(ONE, phi), dterm(obj, bn[l]))])
    if not S.bad("hessian", w("hessian"), lb + " criterion", H):
        S.fold("hessian", w("hessian"), lb + " criterion",
               [("d2/d%s d%s" % (tn[i], tn[j]), entry(H, i, j),
                 esum([dterm(entry(g, i), tn[j])] + ([eprod(grest(i, l), step(j, l)) for l in range(p)] if j < ns else [])))
                for i in range(len(tn)) for j in range(len(tn))], prove=False)


def gaussian_gam(S):
    """REML criterion of the Gaussian additive model: the coefficients solve the penalised equations in closed form"""
    mod = "pystatsm.pygam.gaussian_additive_model"
    F = S.P.modules.get(PG + "families")
    M = Smooth(S, mod, "GaussianAdditiveModel", p=3, ns=2)
    if M.c is None or F is None:
        return
    I, p, ns = M.I, M.p, M.ns
    n = 3
    pen = symstack("S", ns, p)
    ranks = [sym("r_%d" % k, dom="pos") for k in range(ns)]
    attrs = dict(X=matr("X", num(n), num(p), RNG), y=vec("y", "real", num(n)), S=pen, ranks=list(ranks),
                 ldS=[sym("ld_%d" % k, dom="real") for k in range(ns)], ns=num(ns), n_obs=num(n), nx=num(p),
                 mp=esum([num(p)] + [eprod(num(-1), r) for r in ranks]),
                 f=safe(I.call, ClassVal(F.classes["Gaussian"]), [], {}, None))
    o = Obj(M.c, dict(attrs))
    tn = ["rho%d" % k for k in range(ns)] + ["tau"]
    th = params(tn, {k: RNG for k in tn})
    w = lambda k: where(S.P, M.c, k)
    call = lambda k, *a: safe(lambda: I.call(I.getattr(o, k), list(a), {}, None))
    S.check("GaussianAdditiveModel criterion", tn, (w("reml"), lambda: call("reml", th)), (w("gradient"), lambda: call("gradient", th)),
            (w("hessian"), lambda: call("hessian", th)))
    # implicit derivative and penalised deviance at free coefficients
    bn = ["b%d" % k for k in range(p)]
    beta = params(bn, {k: RNG for k in bn})
    lam = safe(npmodel.TABLE["numpy.exp"], I, [rows(th, SliceVal(None, num(-1), None))], {})
    P0 = call("get_penalty_mat", lam)
    X, y = attrs["X"], attrs["y"]
    eta = safe(npmodel.TABLE["numpy.dot"], I, [X, beta], {})
    mu = safe(I.call, I.getattr(attrs["f"], "inv_link"), [eta], {}, None)
    dev = full(safe(I.call, I.getattr(attrs["f"], "deviance"), [y], dict(mu=mu), None))
    pq = esum([eprod(entry(P0, i, j), sym(bn[i]), sym(bn[j])) for i in range(p) for j in range(p)])
    if isinstance(dev, Top) or isinstance(pq, Top):
        return
    obj = esum([dev, pq])
    S.check("GaussianAdditiveModel penalised deviance", bn, (w("solve_pls"), lambda: obj), None,
            (w("hess_dev_beta"), lambda: call("hess_dev_beta", beta, P0)))
    additive(S, I, o, M, "GaussianAdditiveModel", bn, tn[:ns], beta, lam, call, w, lambda b: Tensor((num(p),), from_flat((p,), [
        as_tensor(dterm(obj, k)).elem for k in bn]).elem))


def run():
    chk = Check("C04", floor=130, explanation=(
        "Every likelihood-type model is abstractly interpreted from its syntax tree: its real constructor runs over a "
        "symbolic data set (a few rows and columns of symbols; formula parsing and spline bases are replaced by opaque "
        "design matrices), then objective, gradient, score and Hessian methods are evaluated at symbolic parameters. The "
        "value of each entry is compared with the formal derivative of the extracted objective, by normal form or by an "
        "identity test of the residual term. For the additive models the implicit derivatives of the coefficients are "
        "checked against the total derivative of the stationarity condition and the smoothness criterion against its "
        "total derivative."),
        rules={"objective": "the objective has a value the analysis can follow",
               "per-observation": "sum_i obj_i == obj, sum_i score_i == grad",
               "gradient": "d obj / d params == grad", "scores": "d obj_i / d params == score_i",
               "hessian": "d grad / d params == hess (or d2 obj)",
               "implicit": "derivatives of fitted coefficients solve the differentiated stationarity condition"})
    P = Project()
    S = Suite(chk, P)
    S.quick = not chk.thorough
    import sys
    fs = (betareg, nb2, zip_old, glm_old, glm_new, linear, mvols, zip_new, zinb_new, ordinal, robust, elnet, gam, gauls, gaussian_gam)
    chk.suites(fs, lambda f: f(S))
    return chk.finish()
