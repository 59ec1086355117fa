"""C23 mixed models: sparse evaluation of likelihoods, derivatives and predictions equals the dense marginal model."""
from sa.check import Check
from .mixed import *

FRM = "pystatsm.pylmm."


def model(P, mod, name, formula, frame, args=()):
    I = Interp(P)
    factors(I)
    m = P.modules.get(mod)
    c = m.classes.get(name) if m else None
    if c is None:
        return I, None, Top("class %s not found" % name)
    o = safe(I.call, ClassVal(c), [formula, Obj(None, {}, frame)] + list(args), {}, None)
    return I, c, o


class Instance:
    """grouping labels, covariates and parameters of one layout"""

    def __init__(self, n, groups, seed=0):
        self.n = n
        self.x = [sym("x%d" % i, dom=("range", "-1", "1")) for i in range(n)]
        self.y = [sym("y%d" % i, dom=("range", "-2", "2")) for i in range(n)]
        self.labels = groups
        self.one = [ONE] * n

    def frame(self, ys=("y",)):
        col = lambda es: from_flat((len(es),), list(es))
        d = {"x": col(self.x), "y": col(self.y)}
        for k in ys[1:]:
            d[k] = col([sym("%s_%d" % (k, i), dom=("range", "-2", "2")) for i in range(self.n)])
        for g, lab in self.labels.items():
            d[g] = ivec(lab)
        return Frame(d)

    def cov(self, form):
        ts = [t.strip() for t in form.split("+")]
        return ([] if "0" in ts else [self.one]) + ([self.x] if "x" in ts else [])


LAYOUTS = {
    "crossed slope": ("y~1+x+(1+x|g)+(1|h)", dict(g=[0, 0, 1, 1, 0, 1, 1], h=[0, 1, 2, 0, 1, 2, 0]), [("1+x", "g"), ("1", "h")]),
    "one factor": ("y~1+x+(1|g)", dict(g=[0, 2, 1, 1, 0, 2]), [("1", "g")]),
    "factor order": ("y~1+x+(1|h)+(1+x|g)", dict(g=[1, 0, 1, 0, 0, 1, 1], h=[2, 1, 0, 2, 0, 1, 1]), [("1", "h"), ("1+x", "g")]),
    "no intercept": ("y~1+x+(0+x|g)", dict(g=[0, 1, 1, 0, 2, 2]), [("0+x", "g")]),
}


def univariate(chk, P, mod, name, lays, part):
    for lay in lays:
        formula, groups, terms = LAYOUTS[lay]
        inst = Instance(len(groups["g"]), groups)
        I, c, o = model(P, mod, name, formula, inst.frame())
        if c is None:
            return
        lab = "%s, %s" % (name, lay)
        if isinstance(o, Top):
            chk.ob("likelihood", where(P, c, "__init__"), lab, "undecided", o.why)
            continue
        n = inst.n
        theta, blocks = [], []
        for k, (f, g) in enumerate(terms):
            v, S = vech_syms("t%d" % k, len(inst.cov(f)))
            theta += v
            blocks.append((groups[g], inst.cov(f), S))
        s2 = sym("s2", dom=("range", "0.9", "1.7"))
        theta.append(s2)
        X = from_flat((n, 2), [e for i in range(n) for e in (ONE, inst.x[i])])
        y = from_flat((n, 1), inst.y)
        M = Marginal(I, X, y, blocks, [s2] * n)
        th = lambda: from_flat((len(theta),), theta)
        cmp = lambda rule, m, what, a, b: compare(chk, rule, where(P, c, m), "%s: %s" % (lab, what), a, b, prove=False, trials=4)
        scalar = lambda v: (vec_entries(v, 1) or [None if not isinstance(v, Top) else v])[0]

        def run(m, *a, **kw):
            return safe(lambda: I.call(I.getattr(o, m), list(a), kw, None))
        has = lambda m: P.find_method(c, m) is not None
        if part == "effects":
            effects(chk, P, c, I, M, lab, run, th, cmp, has, inst)
            satterthwaite(chk, P, c, I, M, o, lab, run, th, [t.args[0] for t in theta], cmp)
            cholesky_scale(chk, P, c, I, o, lab, run, theta, terms, inst, cmp, has)
            continue
        for reml in ((True,) if part == "reml" else (False,)):
            tag = "reml" if reml else "ml"
            crit = M.crit(reml)
            names = [t.args[0] for t in theta]
            ps = params_of(P, c, "loglike")
            variants = [("", {})]
            if "sparsity_threshold" in ps:
                variants = [(" dense factor", dict(sparsity_threshold=num(0))), (" sparse factor", dict(sparsity_threshold=num(2)))]
            elif "use_sparse" in ps:
                variants = [(" dense factor", dict(use_sparse=False)), (" sparse factor", {})]
            for vt, kw in variants:
                sparsity(I, P, mod, 0 if "sparse" in vt else 1)
                cmp("likelihood", "loglike", tag + vt, scalar(run("loglike", th(), reml=reml, **kw)), crit)
            grad = [diffs(crit, [nm]) for nm in names]
            for gm in ("gradient", "_gradient_dense", "_gradient_old"):
                if not has(gm):
                    continue
                for sp_ in ((0, 1) if gm == "gradient" else (1,)):
                    sparsity(I, P, mod, 0 if sp_ == 0 else 1)
                    kws = [("", {})]
                    if sp_ == 0 and "assume_sparse_inverse" in params_of(P, c, gm):
                        kws = [("", {}), (" dense inverse", dict(assume_sparse_inverse=False))]
                    for kt, kw in kws:
                        g = run(gm, th(), reml, **kw)
                        ge = vec_entries(g, len(theta))
                        for k, nm in enumerate(names):
                            cmp("gradient", gm, "%s%s%s d/d%s" % (tag, " sparse products" if sp_ == 0 else "", kt, nm),
                                g if ge is None and isinstance(g, Top) else None if ge is None else ge[k], grad[k])
            sparsity(I, P, mod, 1)
            if has("hessian"):
                H = run("hessian", th(), reml)
                he = vec_entries(H, len(theta) ** 2)
                for a in range(len(names)):
                    for b in range(len(names)):
                        cmp("hessian", "hessian", "%s d2/d%s d%s" % (tag, names[a], names[b]),
                            H if isinstance(H, Top) else None if he is None else he[a * len(names) + b], diffs(grad[a], [names[b]]))


def sparsity(I, P, mod, v):
    """the density measure that selects between sparse and dense products"""
    if P.modules.get(mod) is not None and "sparsity" in P.modules[mod].functions:
        I.overrides[mod + ".sparsity"] = PyFunc(lambda *a: num(v), "sparsity")


def params_of(P, c, m):
    f = P.find_method(c, m)
    if not f:
        return []
    a = f[1].args
    return [x.arg for x in a.args + a.kwonlyargs]


def effects(chk, P, c, I, M, lab, run, th, cmp, has, inst):
    """fixed and random effects at given variance parameters"""
    if has("_compute_effects"):
        r = run("_compute_effects", th())
        if isinstance(r, tuple) and len(r) == 3:
            for nm, got, want in (("beta", r[0], M.beta), ("covariance of beta", r[1], M.Ci), ("u", r[2], M.u)):
                ge, we = vec_entries(got), vec_entries(want)
                for k, e in enumerate(we):
                    cmp("effects", "_compute_effects", "%s[%d]" % (nm, k), got if isinstance(got, Top) else None if ge is None or len(ge) != len(we) else ge[k], e)
        else:
            chk.ob("effects", where(P, c, "_compute_effects"), lab, "undecided", getattr(r, "why", "no triple"))
    if has("vinvcrossprod"):
        for what, A, B, want in (("X'V^-1 X", M.X, M.X, M.C), ("X'V^-1 y", M.X, M.y, M.w),
                                 ("X'V^-1 Z", M.X, Sparse(M.Z.dims, M.Z.elem, fmt="csc"), contract(M.XV, M.Z))):
            r = run("vinvcrossprod", A, B, th())
            ge, we = vec_entries(r), vec_entries(want)
            for k, e in enumerate(we):
                cmp("effects", "vinvcrossprod", "%s[%d]" % (what, k), r if isinstance(r, Top) else None if ge is None or len(ge) != len(we) else ge[k], e)


def cholesky_scale(chk, P, c, I, o, lab, run, theta, terms, inst, cmp, has):
    """the same criterion on the Cholesky scale: transforms, gradient and Hessian by the chain rule"""
    if not has("gradient_chol"):
        return
    cs = []
    for k, (f, g) in enumerate(terms):
        p = len(inst.cov(f))
        for j in range(p):
            for i in range(j, p):
                cs.append(sym("c%d_%d%d" % (k, i, j), dom=("range", "0.8", "1.5") if i == j else ("range", "-0.5", "0.5")))
    for k in range(len(theta) - len(cs)):
        cs.append(sym("c_r%d" % k, dom=("range", "-0.4", "0.4")))
    m = len(cs)
    names = [e.args[0] for e in cs]
    cv = lambda: from_flat((m,), cs)
    tr = transforms(P, c, I, o)
    if tr is None:
        return
    fwd, rvs, wh = tr
    t = rvs(cv())
    te = vec_entries(t, m)
    if te is None:
        chk.ob("transform", wh, lab, "undecided", getattr(t, "why", "no value"))
        return
    b = fwd(from_flat((m,), te))
    be = vec_entries(b, m)
    for k in range(m):
        compare(chk, "transform", wh, "%s: transform of the inverse [%d]" % (lab, k), b if isinstance(b, Top) else None if be is None else be[k], cs[k], prove=False, trials=4)
    f = fwd(from_flat((m,), theta))
    fe = vec_entries(f, m)
    if fe is not None:
        r = rvs(from_flat((m,), fe))
        re_ = vec_entries(r, m)
        for k in range(m):
            compare(chk, "transform", wh, "%s: inverse of the transform [%d]" % (lab, k), r if isinstance(r, Top) else None if re_ is None else re_[k], theta[k], prove=False, trials=4)
    # an arbitrary quadratic criterion in place of the likelihood: the chain rule must hold for it
    w = [sym("w%d" % k, dom=("range", "-1", "1")) for k in range(m)]
    Q = {(i, j): sym("q%d_%d" % (max(i, j), min(i, j)), dom=("range", "-1", "1")) for i in range(m) for j in range(m)}
    half = num(0.5)

    def value(es):
        return tm.add(ZERO, *[tm.mul(w[i], es[i]) for i in range(m)], *[tm.mul(half, Q[i, j], es[i], es[j]) for i in range(m) for j in range(m)])

    def gradient(es):
        return [tm.add(w[i], *[tm.mul(Q[i, j], es[j]) for j in range(m)]) for i in range(m)]
    crit = value(te)
    saved = dict(o.attrs)
    seen = []

    def gfun(t, reml=True, *a, **k):
        seen.append(reml)
        es = vec_entries(t, m)
        return from_flat((m,), gradient(es)) if es else Top("argument of the gradient")
    o.attrs["gradient"] = PyFunc(gfun)
    o.attrs["hessian"] = PyFunc(lambda t, reml=True, *a, **k: from_flat((m, m), [Q[i, j] for i in range(m) for j in range(m)]))
    o.attrs["loglike"] = PyFunc(lambda t, *a, **k: (lambda es: Tensor((), value(es)) if es else Top("argument"))(vec_entries(t, m)))
    try:
        l = run("loglike_c", cv()) if has("loglike_c") else None
        if l is not None:
            cmp("chain", "loglike_c", "value", l if isinstance(l, Top) else (vec_entries(l, 1) or [None])[0], crit)
        for reml in (True, False):
            g = run("gradient_chol", cv(), reml)
            ge = vec_entries(g, m)
            for k in range(m):
                cmp("chain", "gradient_chol", "d/d%s%s" % (names[k], "" if reml else " (ml)"), g if isinstance(g, Top) else None if ge is None else ge[k], diffs(crit, [names[k]]))
        if has("hessian_chol"):
            H = run("hessian_chol", cv(), True)
            he = vec_entries(H, m * m)
            if not isinstance(H, Top) or H.definite:
                for a in range(m):
                    for b_ in range(m):
                        cmp("chain", "hessian_chol", "d2/d%s d%s" % (names[a], names[b_]), H if isinstance(H, Top) else None if he is None else he[a * m + b_],
                            diffs(crit, [names[a], names[b_]]))
            else:
                chk.ob("chain", where(P, c, "hessian_chol"), lab, "undecided", H.why)
    finally:
        o.attrs.clear()
        o.attrs.update(saved)


def transforms(P, c, I, o):
    if P.find_method(c, "transform_theta") and P.find_method(c, "inverse_transform_theta"):
        f = lambda nm: (lambda t: safe(lambda: I.call(I.getattr(o, nm), [t], {}, None)))
        return f("transform_theta"), f("inverse_transform_theta"), where(P, c, "transform_theta")
    fs = c.module.functions
    if "transform_theta" in fs and "inverse_transform_theta" in fs:
        def f(nm):
            return lambda t: safe(lambda: I.call(I.module_attr(c.module, nm) if hasattr(I, "module_attr") else it_.FuncVal(fs[nm], c.module),
                                                 [t, o.attrs.get("dims"), o.attrs.get("indices")], {}, None))
        return f("transform_theta"), f("inverse_transform_theta"), "%s:%s" % (c.module.relpath, "transform_theta")
    return None


def multivariate(chk, P, which):
    """several responses: Kronecker design with one residual variance per response"""
    mod, name = FRM + "mlmm", "MLMM"
    cases = [("one response", ("y",)), ("two responses", ("y", "z"))]
    for lay, ys in cases[which:which + 1]:
        groups = dict(g=[0, 0, 1, 1, 0, 1], h=[0, 1, 2, 0, 1, 2]) if len(ys) == 1 else dict(g=[0, 1, 1, 0])
        terms = [("1+x", "g"), ("1", "h")] if len(ys) == 1 else [("1", "g")]
        formula = "%s~1+x%s" % (",".join(ys) if len(ys) == 1 else "(%s)" % ",".join(ys), "".join("+(%s|%s)" % t for t in terms))
        n0 = len(groups["g"])
        inst = Instance(n0, groups)
        fr = inst.frame(ys)
        I, c, o = model(P, mod, name, formula, fr)
        if c is None:
            return
        lab = "%s, %s" % (name, lay)
        if isinstance(o, Top):
            chk.ob("likelihood", where(P, c, "__init__"), lab, "undecided", o.why)
            continue
        m = len(ys)
        n = n0 * m
        theta, blocks = [], []
        for k, (f, g) in enumerate(terms):
            C = inst.cov(f)
            cols = [[C[a][i // m] if i % m == b else ZERO for i in range(n)] for a in range(len(C)) for b in range(m)]
            v, S = vech_syms("t%d" % k, len(cols))
            theta += v
            blocks.append(([groups[g][i // m] for i in range(n)], cols, S))
        rs = [sym("s2_%d" % k, dom=("range", "0.9", "1.7")) for k in range(m)]
        theta += rs
        yy = [dense_arr(fr.cols[k]) for k in ys]
        y = from_flat((n, 1), [tm.asnum(yy[i % m][i // m]) for i in range(n)])
        X = from_flat((n, 2 * m), [e if i % m == b else ZERO for i in range(n) for e in (ONE, inst.x[i // m]) for b in range(m)])
        M = Marginal(I, X, y, blocks, [rs[i % m] for i in range(n)])
        th = lambda: from_flat((len(theta),), theta)
        cmp = lambda rule, mm, what, a, b: compare(chk, rule, where(P, c, mm), "%s: %s" % (lab, what), a, b, prove=False, trials=4)

        def run(mm, *a, **kw):
            return safe(lambda: I.call(I.getattr(o, mm), list(a), kw, None))
        has = lambda mm: P.find_method(c, mm) is not None
        names = [t.args[0] for t in theta]
        for reml in (True, False):
            tag = "reml" if reml else "ml"
            crit = M.crit(reml)
            for vt, us in ((" dense factor", False), (" sparse factor", True)):
                I.count_nnz = 0 if us else None
                v = run("loglike", th(), use_sparse=us, reml=reml)
                I.count_nnz = None
                cmp("likelihood", "loglike", tag + vt, v if isinstance(v, Top) else (vec_entries(v, 1) or [None])[0], crit)
            g = run("gradient", th(), reml)
            ge = vec_entries(g, len(theta))
            for k, nm in enumerate(names):
                cmp("gradient", "gradient", "%s d/d%s" % (tag, nm), g if isinstance(g, Top) else None if ge is None else ge[k], diffs(crit, [nm]))
        effects(chk, P, c, I, M, lab, run, th, cmp, has, inst)

        class Shape:
            def cov(self, f):
                return inst.cov(f) * m
        cholesky_scale(chk, P, c, I, o, lab, run, theta, terms, Shape(), cmp, has)


def relabel(lab):
    """group codes in order of appearance"""
    u = list(dict.fromkeys(lab))
    return [u.index(k) for k in lab]


LAYOUTS2 = {
    "crossed slope": LAYOUTS["crossed slope"],
    "factor order": LAYOUTS["factor order"],
    "one factor": LAYOUTS["one factor"],
    "absent covariate": ("y~1+x+(1+x|g)+(1|h)", dict(g=[0, 0, 1, 1, 2, 2], h=[0, 1, 1, 0, 0, 1]), [("1+x", "g"), ("1", "h")]),
    "known relationship": ("y~1+x+(1+x|g)+(1|h)", dict(g=[0, 2, 1, 1, 2], h=[0, 1, 1, 0, 0]), [("1+x", "g"), ("1", "h")]),
}
REL = [[2, 1, 0], [1, 3, 1], [0, 1, 2]]        # a full inverse, rational eigenvalues


def equations(chk, P, lay, part):
    """mixed model equations with compiled kernels"""
    mod = FRM + "re_mod"
    install_frames()
    formula, groups, terms = LAYOUTS2[lay]
    inst = Instance(len(groups["g"]), groups)
    if lay == "absent covariate":      # a covariate that is zero for every observation of one group
        inst.x = [ZERO if g == 1 else e for g, e in zip(groups["g"], inst.x)]
    n = inst.n
    I = Interp(P)
    factors(I)
    kernels(I)
    m = P.modules.get(mod)
    if m is None or "LMM2" not in m.classes or "MMEBlocked" not in m.classes:
        chk.note("pylmm/re_mod.py: LMM2 or MMEBlocked not found") if hasattr(chk, "note") else None
        return
    cl, ce = m.classes["LMM2"], m.classes["MMEBlocked"]
    X = from_flat((n, 2), [e for i in range(n) for e in (ONE, inst.x[i])])
    y = from_flat((n, 1), inst.y)
    fr = Obj(None, {}, inst.frame())
    A = None
    if lay == "known relationship":
        A = from_flat((3, 3), [num(v) for r in REL for v in r])
        A = Sparse(A.dims, A.elem, fmt="csc")
        # the relationship matrix refers to levels in order of appearance
        r = safe(lambda: I.call(ClassVal(m.classes["RandomEffects"]), [[(f, g) for f, g in terms], fr, [A, None]], {}, None))
        e = r if isinstance(r, Top) else safe(lambda: I.call(ClassVal(ce), [X, y, r], {}, None))
        o = Obj(cl, dict(mme=e)) if isinstance(e, Obj) else None
    else:
        o = safe(lambda: I.call(ClassVal(cl), [formula, fr], {}, None))
        e = o if isinstance(o, Top) else o.attrs.get("mme")
    if not isinstance(e, Obj):
        if isinstance(e, Top) and e.definite:
            chk.ob("likelihood", where(P, ce, "__init__"), lay, "violated", e.why)
        else:
            chk.ob("likelihood", where(P, ce, "__init__"), lay, "undecided", getattr(e, "why", "no object"))
        return
    theta, blocks = [], []
    for k, (f, g) in enumerate(terms):
        v, S = vech_syms("t%d" % k, len(inst.cov(f)))
        theta += v
        blocks.append((relabel(groups[g]), inst.cov(f), S) + ((REL,) if A is not None and k == 0 else ()))
    s2 = sym("s2", dom=("range", "0.9", "1.7"))
    theta.append(s2)
    names = [t.args[0] for t in theta]
    M = Marginal(I, X, y, blocks, [s2] * n)
    th = lambda: from_flat((len(theta),), theta)
    lab = "%s" % lay

    def cmp(c, meth, rule, what, a, b):
        compare(chk, rule, where(P, c, meth), "%s: %s" % (lab, what), a, b, prove=False, trials=4)

    def run(obj, meth, *a, **kw):
        return safe(lambda: I.call(I.getattr(obj, meth), list(a), kw, None))
    has = lambda c, meth: P.find_method(c, meth) is not None
    rm = e.attrs.get("re_mod")
    if part in ("reml", "ml"):
        reml = part == "reml"
        crit = M.crit(reml)
        for sp_ in (0, 1):
            sparsity(I, P, mod, sp_)
            v = run(e, "_loglike", th(), reml)
            cmp(ce, "_loglike", "likelihood", "%s %s factor" % (part, "dense" if sp_ else "sparse"), v if isinstance(v, Top) else (vec_entries(v, 1) or [None])[0], crit)
        grad = [diffs(crit, [nm]) for nm in names]
        for gm in ("_gradient", "_gradient_v2"):
            if not has(ce, gm):
                continue
            g = run(e, gm, th(), reml)
            ge = vec_entries(g, len(theta))
            for k, nm in enumerate(names):
                cmp(ce, gm, "gradient", "%s d/d%s" % (part, nm), g if ge is None and isinstance(g, Top) else None if ge is None else ge[k], grad[k])
        return
    # effects and products
    col = lambda t, j=0: from_flat((n,), [tm.asnum(elem_at(t, (i, j))) for i in range(n)])
    vs = [sym("v%d" % i, dom=("range", "-1", "1")) for i in range(n)]
    v1 = from_flat((n,), vs)
    vc = from_flat((n, 1), vs)
    Viv = contract(M.Vi, vc)

    def block(c, meth, rule, what, got, want):
        ge, we = vec_entries(got), vec_entries(want)
        for k, w in enumerate(we):
            cmp(c, meth, rule, "%s[%d]" % (what, k), got if isinstance(got, Top) else None if ge is None or len(ge) != len(we) else ge[k], w)
    if has(ce, "vinv_apply"):
        block(ce, "vinv_apply", "effects", "V^-1 v", run(e, "vinv_apply", v1, th()), Viv)
    if has(ce, "p_apply"):
        for reml in (True, False):
            want = Viv
            if reml:
                q = contract(contract(transpose(M.XV), M.Ci), contract(M.XV, vc))
                want = from_flat((n, 1), [tm.sub(tm.asnum(elem_at(Viv, (i, 0))), tm.asnum(elem_at(q, (i, 0)))) for i in range(n)])
            block(ce, "p_apply", "effects", "P v%s" % ("" if reml else " (ml)"), run(e, "p_apply", v1, th(), M.Ci, reml), want)
    if o is not None and has(cl, "compute_effects"):
        r = run(o, "compute_effects", th())
        if isinstance(r, tuple) and len(r) == 3:
            for nm, got, want in (("beta", r[0], M.beta), ("covariance of beta", r[1], M.Ci), ("u", r[2], M.u)):
                block(cl, "compute_effects", "effects", nm, got, want)
        else:
            chk.ob("effects", where(P, cl, "compute_effects"), lab, "undecided", getattr(r, "why", "no triple"))
    if o is not None and has(cl, "vinvcrossprod"):
        for what, a, b, want in (("X'V^-1 X", M.X, M.X, M.C), ("X'V^-1 y", M.X, M.y, M.w)):
            block(cl, "vinvcrossprod", "effects", what, run(o, "vinvcrossprod", a, b, th()), want)
    if o is not None:
        summaries(P, cl, I, M, o, terms, names, block, cmp, run, has, th, s2)
        satterthwaite(chk, P, cl, I, M, o, lab, lambda mm, *a, **k: run(o, mm, *a, **k), th, names, lambda rule, mm, what, a, b: cmp(cl, mm, rule, what, a, b))
    if isinstance(rm, Obj) and rm.cls is not None:
        cr = rm.cls
        for inv in (False, True):
            G = run(rm, "update_gcov", th(), inv)
            want = M.G if not inv else TB["numpy.linalg.inv"](I, [M.G], {})
            block(cr, "update_gcov", "covariance", "G%s" % ("^-1" if inv else ""), G, want)
        for what, meth, want in (("log det G", "lndet_gmat", TB["numpy.linalg.slogdet"](I, [M.G], {})[1]),
                                 ("log det R", "lndet_rmat", tm.mul(num(n), tm.fn("log", s2)))):
            v = run(rm, meth, th())
            cmp(cr, meth, "covariance", what, v if isinstance(v, Top) else (vec_entries(v, 1) or [None])[0], tm.asnum(as_tensor(want).elem))
        ds = rm.attrs.get("G_derivs")
        if isinstance(ds, list) and len(ds) == len(theta):
            off = 0
            for k in range(len(terms)):
                st, sz = M.starts[k]
                blk = getitem(M.G, (SliceVal(num(st), num(st + sz), None), SliceVal(num(st), num(st + sz), None)))
                npar = len(inst.cov(terms[k][0])) * (len(inst.cov(terms[k][0])) + 1) // 2
                for j in range(npar):
                    want = from_flat((sz * sz,), [tm.diff(x, names[off + j], ()) for x in vec_entries(blk)])
                    block(cr, "_create_terms", "covariance", "dG/d%s" % names[off + j], ds[off + j], want)
                off += npar
    if o is not None:
        reparam(chk, P, cl, ce, I, o, e, rm, lab, theta, run, cmp, has)


def summaries(P, cl, I, M, o, terms, names, block, cmp, run, has, th, s2):
    """quantities reported from the effects"""
    n, sq = M.n, lambda t: from_flat(t.dims, [tm.fn("sqrt", tm.asnum(e)) for e in vec_entries(t)])
    if has(cl, "_dC_dtheta"):
        J = run(o, "_dC_dtheta", th(), M.Ci)
        ok = isinstance(J, list) and len(J) == len(names)
        for k, nm in enumerate(names):
            want = from_flat((len(vec_entries(M.Ci)),), [tm.diff(x, nm, ()) for x in vec_entries(M.Ci)])
            block(cl, "_dC_dtheta", "effects", "d covariance of beta/d%s" % nm, J[k] if ok else J if isinstance(J, Top) else None, want)
    attrs = dict(o.attrs)
    o.attrs.update(XtVinvX_inv=M.Ci, beta=from_flat((2,), vec_entries(M.beta)), u=from_flat((M.m,), vec_entries(M.u)), theta=th())
    try:
        if has(cl, "random_effects_se"):
            ZG = contract(M.Z, M.G)
            XVZG = contract(M.XV, ZG)
            VZG = contract(M.Vi, ZG)
            a, b, c, d = (dense_arr(t) for t in (M.G, contract(transpose(ZG), VZG), contract(transpose(XVZG), contract(M.Ci, XVZG)), M.G))
            want = from_flat((M.m,), [tm.fn("sqrt", tm.add(tm.sub(tm.asnum(a[i, i]), tm.asnum(b[i, i])), tm.asnum(c[i, i]))) for i in range(M.m)])
            block(cl, "random_effects_se", "effects", "standard error of u - uhat", run(o, "random_effects_se"), want)
        if has(cl, "predict"):
            xb, zu = vec_entries(contract(M.X, M.beta)), vec_entries(contract(M.Z, M.u))
            block(cl, "predict", "effects", "prediction", run(o, "predict"), from_flat((n,), [tm.add(a, b) for a, b in zip(xb, zu)]))
        if has(cl, "variance_decomposition"):
            r = run(o, "variance_decomposition")
            xb = vec_entries(contract(M.X, M.beta))
            mean = tm.div(tm.add(*xb), num(n))
            vfe = tm.div(tm.add(*[tm.power(tm.sub(e, mean), num(2)) for e in xb]), num(n))
            vre = []
            for st, sz in M.starts:
                sl = SliceVal(num(st), num(st + sz), None)
                Zk = getitem(M.Z, (ALL, sl))
                q = dense_arr(contract(contract(Zk, getitem(M.G, (sl, sl))), transpose(Zk)))
                vre.append(tm.div(tm.add(*[tm.asnum(q[i, i]) for i in range(n)]), num(n)))
            get = lambda d, k: d.get(k) if isinstance(d, dict) else d if isinstance(d, Top) else None
            one = lambda v: v if isinstance(v, Top) else (vec_entries(v, 1) or [None])[0]
            cmp(cl, "variance_decomposition", "effects", "variance of the fixed part", one(get(r, "v_fe")), vfe)
            cmp(cl, "variance_decomposition", "effects", "residual variance", one(get(r, "v_resid")), s2)
            for k, e in enumerate(vre):
                cmp(cl, "variance_decomposition", "effects", "mean variance of term %d" % k, one(get(get(r, "v_re"), k)), e)
            if has(cl, "r_squared"):
                q = run(o, "r_squared")
                tot = tm.add(vfe, s2, *vre)
                cmp(cl, "r_squared", "effects", "marginal share", one(get(q, "marginal")), tm.div(vfe, tot))
                cmp(cl, "r_squared", "effects", "conditional share", one(get(q, "conditional")), tm.div(tm.add(vfe, *vre), tot))
    finally:
        o.attrs.clear()
        o.attrs.update(attrs)


def satterthwaite(chk, P, c, I, M, o, lab, run, th, names, cmp):
    """denominator degrees of freedom of one contrast: 2 (L C L')^2 / (d' V d), d the derivative of L C L', V the covariance of theta"""
    if P.find_method(c, "approx_degfree") is None:
        return
    m = len(names)
    h = {(i, j): sym("h%d_%d" % (max(i, j), min(i, j)), dom=("range", "3", "4") if i == j else ("range", "-0.3", "0.3")) for i in range(m) for j in range(m)}
    H = from_flat((m, m), [h[i, j] for i in range(m) for j in range(m)])
    saved, keep = dict(o.attrs), dict(I.overrides)
    o.attrs.pop("Hinv_theta", None)
    o.attrs.update(theta=th(), beta=from_flat((2,), vec_entries(M.beta)))
    for mod in P.modules.values():
        if "so_gc_cd" in mod.functions:
            I.overrides[mod.name + ".so_gc_cd"] = PyFunc(lambda *a, **k: H, "so_gc_cd")
    dist = Obj(None, {k: PyFunc(lambda *a, **q: ZERO, k) for k in ("sf", "cdf", "ppf", "isf")})
    kept = TB.get("scipy.stats.f")
    TB["scipy.stats.f"] = lambda I, a, kw: dist
    try:
        L = from_flat((1, 2), [num(0), num(1)])
        r = run("approx_degfree", [L])
        get = lambda k: r[0].get(k) if isinstance(r, list) and len(r) == 1 and isinstance(r[0], dict) else r if isinstance(r, Top) else None
        v = tm.asnum(elem_at(M.Ci, (1, 1)))
        d = from_flat((m, 1), [tm.diff(v, nm, ()) for nm in names])
        q = tm.asnum(elem_at(contract(contract(transpose(d), TB["numpy.linalg.inv"](I, [H], {})), d), (0, 0)))
        b = tm.asnum(elem_at(M.beta, (1, 0)))
        one = lambda t: t if isinstance(t, Top) or t is None else (vec_entries(t, 1) or [None])[0]
        cmp("effects", "approx_degfree", "F of a contrast", one(get("F")), tm.div(tm.mul(b, b), v))
        cmp("effects", "approx_degfree", "denominator degrees of freedom", one(get("df2")), tm.div(tm.mul(v, v), q))
    finally:
        if kept is None:
            del TB["scipy.stats.f"]
        else:
            TB["scipy.stats.f"] = kept
        o.attrs.clear()
        o.attrs.update(saved)
        I.overrides.clear()
        I.overrides.update(keep)


def reparam(chk, P, cl, ce, I, o, e, rm, lab, theta, run, cmp, has):
    """the optimiser's scale: value and chain rule for any transform and any criterion"""
    m = len(theta)
    es = [sym("e%d" % k, dom=("range", "-1", "1")) for k in range(m)]
    names = [x.args[0] for x in es]
    a = {(i, j): sym("a%d_%d" % (i, j), dom=("range", "-1", "1")) for i in range(m) for j in range(m)}
    rvs = lambda v: [tm.add(*[tm.mul(a[i, j], v[j]) for j in range(m)], tm.mul(v[i], v[(i + 1) % m])) for i in range(m)]
    w = [sym("w%d" % k, dom=("range", "-1", "1")) for k in range(m)]
    value = lambda t: tm.add(*[tm.mul(w[i], t[i], t[i]) for i in range(m)])

    class R:
        def getattr(self, I_, o_, attr):
            if attr == "rvs":
                return PyFunc(lambda v: from_flat((m,), rvs(vec_entries(v, m))))
            if attr == "jac_rvs":
                def jac(v):
                    if [x.args for x in vec_entries(v, m)] != [x.args for x in es]:
                        return Top("derivative at another point")
                    return from_flat((m, m), [tm.diff(r, nm, ()) for r in rvs(es) for nm in names])
                return PyFunc(jac)
            return Top("transform attribute " + attr)
    if not isinstance(rm, Obj):
        return
    saved, saved_e = dict(rm.attrs), dict(e.attrs)
    seen = []

    def val(t, reml=True, *a_, **k):
        seen.append(reml)
        return Tensor((), value(vec_entries(t, m)))

    def gr(t, reml=True, *a_, **k):
        seen.append(reml)
        t = vec_entries(t, m)
        return from_flat((m,), [tm.mul(num(2), w[i], t[i]) for i in range(m)])
    rm.attrs["reparam"] = Obj(None, {}, R())
    for k in ("_gradient", "_gradient_v2"):
        e.attrs[k] = PyFunc(gr)
    e.attrs["_loglike"] = PyFunc(val)
    try:
        crit = value(rvs(es))
        for reml in (True, False):
            for meth in ("loglike_reparam", "gradient_reparam", "gradient_v2_reparam"):
                if not has(cl, meth):
                    continue
                seen.clear()
                v = run(o, meth, from_flat((m,), es), reml)
                if meth == "loglike_reparam":
                    cmp(cl, meth, "chain", "value", v if isinstance(v, Top) else (vec_entries(v, 1) or [None])[0], crit)
                else:
                    ge = vec_entries(v, m)
                    for k in range(m):
                        cmp(cl, meth, "chain", "d/d%s" % names[k], v if isinstance(v, Top) else None if ge is None else ge[k], diffs(crit, [names[k]]))
                if not isinstance(v, Top):
                    chk.ob("chain", where(P, cl, meth), "%s: reml=%s reaches the criterion" % (lab, reml), "ok" if seen and all(x is reml for x in seen) else "violated",
                           "criterion evaluated with %s" % seen)
    finally:
        rm.attrs.clear()
        rm.attrs.update(saved)
        e.attrs.clear()
        e.attrs.update(saved_e)


def run():
    chk = Check("C23", floor=800, explanation=(
        "The mixed-model classes of pylmm (LMM, MLMM, and the mixed model equations behind LMM2) are built by their own "
        "constructors over symbolic responses, covariates and covariance parameters on fixed grouping layouts (nested, crossed, "
        "terms in either order, a covariate absent from a group, levels with a known relationship, several responses). Sparse "
        "matrices keep their stored positions, factorisations carry a non-trivial fill-reducing permutation and compiled kernels "
        "have a dense meaning plus a storage rule, so a value that depends on the ordering, on stale storage or on entries that "
        "do not fit is seen. Each likelihood, gradient, Hessian, effect and product is compared with the dense marginal model "
        "V = ZGZ'+R written out from the group labels; a non-zero residual is a violation."),
        rules={
            "likelihood": "log|V| + y'Py (+ log|X'V^-1 X| when restricted), through the dense and the sparse factor",
            "gradient": "every entry equals the formal derivative of the dense criterion, through every product path",
            "hessian": "every entry equals the second formal derivative of the dense criterion",
            "effects": "fixed effects, their covariance, predicted random effects, V^-1 v, P v and cross products equal their dense definitions",
            "covariance": "the assembled random-effect covariance, its inverse, log-determinant and derivatives equal the block definition",
            "transform": "the Cholesky-scale maps invert each other",
            "chain": "criterion, gradient and Hessian on the optimiser's scale follow from the chain rule for an arbitrary criterion"})
    P = Project()
    install()
    fs = []

    def suite(name, f):
        f.__name__ = name
        fs.append(f)
    for lay in (list(LAYOUTS) if chk.thorough else ["crossed slope", "factor order", "one factor"]):
        for part in ("reml", "ml", "effects"):
            suite("lmm_%s_%s" % (lay.replace(" ", "_"), part), lambda lay=lay, part=part: univariate(chk, P, FRM + "lmm", "LMM", [lay], part))
    for lay in LAYOUTS2:
        for part in ("reml", "ml", "effects"):
            suite("lmm2_%s_%s" % (lay.replace(" ", "_"), part), lambda lay=lay, part=part: equations(chk, P, lay, part))
    suite("mlmm_one", lambda: multivariate(chk, P, 0))
    suite("mlmm_two", lambda: multivariate(chk, P, 1))
    chk.suites(fs, lambda f: f())
    return chk.finish()
