"""C03 likelihood, canonical map, deviance and dispersion derivatives of exponential families."""
from sa.harness import *
from sa.families import *
from sa.check import Check
from sa import terms as tm

A = (AX[0],)


def total(v):
    """sum over observations of an elementwise value"""
    if isinstance(v, Top):
        return v
    t = as_tensor(v)
    while t.rank:
        t = reduce_sum(t, 0)
        t = as_tensor(t)
    return t


def m1(f, *vs):
    for v in vs:
        if v is None:
            return None
        if isinstance(v, Top):
            return v
    return elementwise(f, *[as_tensor(v) for v in vs])


def repl(v, **kw):
    """substitute symbols by numbers or symbol terms"""
    if isinstance(v, Top) or v is None:
        return v
    t = as_tensor(v)
    return Tensor(t.dims, tm.subst(tm.asnum(t.elem), {}, {k: (lambda idx, w=w: w) for k, w in kw.items()}), t.mask)


def run():
    chk = Check("C03", floor=150, explanation=(
        "Every response family is abstractly interpreted with symbolic response, mean, weights, dispersion and shape and "
        "with an uninterpreted link; every offered quantity is compared with the formal derivative (or inverse, or "
        "contrast) of the offered log-likelihood's abstract value."),
        rules={
            "score": "d loglike_i/d mu == -weight (y-mu) / (dispersion * variance function)",
            "link-derivative": "gw, hw, get_ghw: first and second derivative of loglike_i with respect to link(mu)",
            "working-weights": "get_a/get_g/get_w/get_ehw/da_dmu/d2a_dmu2/dw_deta/d2w_deta2 against hw and each other",
            "deviance": "d deviance/d mu == 2 phi d loglike/d mu, zero at mu == y",
            "residuals": "deviance residuals square to the deviance, Pearson residuals to the Pearson statistic",
            "dispersion": "dtau, d2tau: derivatives of loglike in the log dispersion, at the same scale",
            "scale": "llscale is full_loglike at mu == y; dllscale, d2llscale its derivatives",
            "total": "loglike/full_loglike sum the per-observation values",
            "weights-argument": "weights passed to a call replace the family's own everywhere in its value",
            "canonical": "mean_func(canonical(mu)) == mu, cumulant' == mean, d canonical/d mu == 1/V, d2canonical"})
    P = Project()
    for c in family_classes(P):
        family(chk, P, c)
    return chk.finish()


def family(chk, P, c):
    F = Fam(P, c)
    I, o, n, y, mu, w = F.I, F.o, F.n, F.y, F.mu, F.w
    nm = c.name
    W = lambda k: where(P, c, k)
    L = F.L
    if isinstance(L, Top):
        chk.ob("score", W("_loglike"), nm, "undecided", L.why)
        return
    # families whose likelihood has no dispersion are used with dispersion one
    fix = {} if F.nuis == "phi" else ({"phi": num(1)} if F.nuis in ("disp", None) else {})
    phi = num(1) if F.nuis != "phi" else F.phi
    fixv = lambda v: repl(v, **fix) if fix else v
    g1 = tm.ofn(GN, (1,), mu.elem)
    D1 = lambda v: d_elem(v, "mu", A)
    DE = lambda v: m1(lambda a: tm.div(a, g1), D1(v))          # derivative with respect to eta = link(mu)
    dL = D1(L)
    V = F.get("var_func")

    def cmp(rule, name, what, a, b, overs=None, **kw):
        a, b = fixv(a), fixv(b)
        if F.shape_default(name):
            a, b = repl(a, phi=num(1)), repl(b, phi=num(1))
        if a is None or b is None:
            return
        for ov in (overs or F.overs()):
            compare(chk, rule, W(name), "%s %s (y %s)" % (nm, what, ov["y"]), a, b, over=ov, **kw)

    cmp("score", "_loglike", "score is weighted residual over variance",
        m1(lambda a, v, yy, mm, ww: tm.add(tm.mul(a, v, phi), tm.mul(ww, tm.sub(yy, mm))), dL, V, y, mu, w), num(0), absfloor="1e-3")
    # sums
    cmp("total", "loglike", "sums the observations", F.get("loglike"), total(L))
    cmp("total", "full_loglike", "sums the observations", F.get("full_loglike"), total(F.get("_full_loglike")))
    FL = F.get("_full_loglike")
    if FL is not None and not isinstance(FL, Top):
        cmp("total", "_full_loglike", "differs from loglike by a constant in the mean", D1(FL), dL)
        for s in ("phi", "disp"):
            pass
    # derivatives in the linear predictor
    gw, hw, ghw = F.get("gw"), F.get("hw"), F.get("get_ghw")
    cmp("link-derivative", "gw", "first derivative", gw, DE(L))
    cmp("link-derivative", "hw", "second derivative", hw, DE(DE(L)))
    if isinstance(ghw, tuple):
        cmp("link-derivative", "get_ghw", "first derivative", ghw[0], DE(L))
        cmp("link-derivative", "get_ghw", "second derivative", ghw[1], DE(DE(L)))
    # working weights: derivatives of one another, and of the second derivative of the likelihood
    base_hw = DE(DE(L))
    unit_hw = repl(base_hw, phi=num(1), w=num(1))
    a = F.get("get_a")
    if a is not None:
        cmp("working-weights", "get_a", "hw * variance * dlink^2",
            repl(a, w=num(1), phi=num(1)), m1(lambda h, v: tm.mul(h, v, g1, g1), unit_hw, V))
        da, d2a = F.get("da_dmu"), F.get("d2a_dmu2")
        cmp("working-weights", "da_dmu", "derivative of get_a", da, D1(a))
        cmp("working-weights", "d2a_dmu2", "second derivative of get_a", d2a, D1(D1(a)))
        cmp("working-weights", "get_g", "dlink over get_a", F.get("get_g"), m1(lambda x: tm.div(g1, x), a))
    gwt = F.get("get_w")
    if gwt is not None:
        cmp("working-weights", "get_w", "second derivative at unit weight", repl(gwt, w=num(1), phi=num(1)), unit_hw)
        dref = DE(unit_hw)
        cmp("working-weights", "dw_deta", "derivative of the weight", repl(F.get("dw_deta"), w=num(1), phi=num(1)), dref)
        cmp("working-weights", "d2w_deta2", "second derivative of the weight",
            repl(F.get("d2w_deta2"), w=num(1), phi=num(1)), DE(dref))
    e = F.get("get_ehw")
    if e is not None:
        cmp("working-weights", "get_ehw", "expected second derivative", e, m1(
            lambda ww, v: tm.div(ww, tm.mul(phi, v, g1, g1)), w, V))
    # deviance
    dev = F.get("deviance")
    if dev is not None and not isinstance(dev, Top):
        cmp("deviance", "deviance", "slope", D1(dev), m1(lambda x: tm.mul(num(2), phi, x), dL))
        at = subst_vec(dev, "mu", y)
        inner = {"count": "pos", "bin": "unit"}.get(F.ydoms[0], F.ydoms[0])
        cmp("deviance", "deviance", "zero at the saturated mean", at, num(0), overs=[dict(F.over, y=inner)], absfloor="1e-3")
        for r in ("deviance_resid", "signed_resid"):
            v = F.get(r)
            if v is not None:
                cmp("residuals", r, "squares to the deviance", m1(lambda x: tm.mul(x, x), v), dev)
    elif isinstance(dev, Top):
        chk.ob("deviance", W("deviance"), nm, "violated" if dev.definite else "undecided", dev.why)
    pr, pc = F.get("pearson_resid"), F.get("pearson_chi2")
    wt = w
    ref = m1(lambda ww, v, yy, mm: tm.div(tm.mul(ww, tm.power(tm.sub(yy, mm), num(2))), v), w, V, y, mu)
    if pr is not None:
        uses_w = "weights" in params_of(P, c, "pearson_resid")[0] or (not isinstance(pr, Top) and "w" in tm.symnames(as_tensor(pr).elem))
        cmp("residuals", "pearson_resid", "squares to the Pearson term", m1(lambda x: tm.mul(x, x), pr),
            ref if uses_w else repl(ref, w=num(1)))
    if pc is not None:
        cmp("residuals", "pearson_chi2", "sum of squared Pearson residuals", pc, total(ref))
    # a weights argument is the one used: the value does not depend on the object's own weights
    F2 = Fam(P, c, own="w_own")
    for m in sorted(set(k for q in P.mro(c) for k in q.methods)):
        ps = params_of(P, c, m)[0]
        if "weights" in ps and m != "__init__" and not is_stub(P, c, m):
            v = F2.get(m, tau=sym("tau", dom="real"))
            for x in (v if isinstance(v, (tuple, list)) else [v]):
                if isinstance(x, Top):
                    chk.ob("weights-argument", W(m), nm, "violated" if x.definite else "undecided", x.why)
                elif isnumeric(x):
                    dep = "w_own" in tm.symnames(tm.asnum(as_tensor(x).elem))
                    chk.ob("weights-argument", W(m), nm, "violated" if dep else "ok",
                           "weights passed to the call are replaced by the family's own" if dep else "")
    # dispersion derivatives on the log scale
    tau = sym("tau", dom="real")
    DOM["tau"] = "real"
    nu = {"disp": "disp", "shape": "phi", "phi": "phi"}.get(F.nuis)
    if nu and P.find_method(c, "dtau"):
        Lt = repl(L, **{nu: tm.fn("exp", tau)})
        d1 = d_elem(Lt, "tau", ())
        d2 = d_elem(d1, "tau", ())
        for name, ref in (("dtau", d1), ("d2tau", d2)):
            for red in (True, False):
                if red is False and "reduce" not in (params_of(P, c, name) or ([],))[0]:
                    continue
                v = F.get(name, tau=tau, reduce=red)
                if v is None:
                    continue
                rv = ref
                if not isinstance(v, Top) and as_tensor(v).rank == 0:
                    rv = total(ref)
                cmp("dispersion", name, "derivative in log dispersion%s" % ("" if red else " per observation"), v, rv)
    # saturated log-likelihood in the dispersion
    ls = F.get("llscale")
    if ls is not None and not isinstance(ls, Top):
        p1 = F.phi
        if FL is not None and not isinstance(FL, Top):
            sat = total(repl(subst_vec(FL, "mu", y), w=num(1)))
            cmp("scale", "llscale", "saturated log-likelihood", ls, sat)
        D = lambda v: d_elem(v, "phi", ())
        cmp("scale", "dllscale", "derivative", F.get("dllscale"), D(ls))
        cmp("scale", "d2llscale", "second derivative", F.get("d2llscale"), D(D(ls)))
    # canonical map
    if P.find_method(c, "canonical_parameter"):
        kw = {k: v for k, v in dict(scale=F.disp, dispersion=F.disp).items()}
        T = fcall(I, o, "canonical_parameter", mu=mu, **kw)
        if F.nuis == "shape":
            T = repl(T, phi=F.disp)
            V = repl(V, phi=F.disp)
        if isinstance(T, Top) or T is None:
            chk.ob("canonical", W("canonical_parameter"), nm, "undecided", getattr(T, "why", ""))
            return
        back = fcall(I, o, "mean_func", T=T, **kw)
        cmp("canonical", "mean_func", "inverts the canonical parameter", back, mu, overs=F.overs()[:1])
        Tv = Tensor((n,), sym("T", AX[0]))
        DOM["T"] = "real"
        b = fcall(I, o, "cumulant", T=Tv, **kw)
        if b is not None:
            db = d_elem(b, "T", A)
            cmp("canonical", "cumulant", "derivative is the mean", subst_vec(db, "T", T), mu, overs=F.overs()[:1])
        cmp("canonical", "canonical_parameter", "derivative is 1/V", D1(T), m1(lambda v: tm.power(v, num(-1)), V), overs=F.overs()[:1])
        d2 = fcall(I, o, "d2canonical", mu=mu, **kw)
        cmp("canonical", "d2canonical", "second derivative", d2, D1(D1(T)), overs=F.overs()[:1])


def subst_vec(v, name, new):
    """replace the vector symbol name[i] by new's element at i"""
    if isinstance(v, Top) or v is None:
        return v
    if isinstance(new, Top):
        return new
    t, nw = as_tensor(v), as_tensor(new)
    f = lambda idx: tm.subst(nw.elem, {AX[0]: idx[0]}) if idx else nw.elem
    return Tensor(t.dims, tm.subst(tm.asnum(t.elem), {}, {name: f}), t.mask)
