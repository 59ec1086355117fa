"""C09 covariance-structure discrepancies agree with their gradients and Hessians."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa import npmodel
from sa.interp import dense_arr, toterm, from_flat, concrete_dims, FuncVal, PyFunc, Obj, SliceVal
import time, sys
from .c07 import safe
from .c04 import Suite, params, full, dterm, entry, cls, esum, eprod, ALL, RNG


def samplecov(p, nm="S"):
    """positive definite symmetric matrix of symbols: distinct diagonal entries well above the off-diagonal ones"""
    e = [[None] * p for _ in range(p)]
    for i in range(p):
        for j in range(i + 1):
            s = "%s%d%d" % (nm, i, j)
            DOM[s] = ("range", 2 + i, 2.6 + i) if i == j else ("range", -0.6, 0.6)
            e[i][j] = e[j][i] = sym(s)
    return from_flat((p, p), [x for r in e for x in r])


def obj(S_, mod, name, lab, *args, **kw):
    S = S_
    c = cls(S.P, mod, name)
    if c is None:
        return None
    I = Interp(S.P)
    I.overrides["pystatsm.utilities.data_utils._check_type"] = PyFunc(lambda x, *a: (x, ["v"], ["i"], False), "check_type")
    o = safe(I.call, ClassVal(c), list(args), kw, None)
    if S.bad("objective", where(S.P, c, "__init__"), lab, o):
        return None
    w = lambda k: where(S.P, c, k)
    L = lambda k, *a, **q: (w(k), lambda: I.call(I.getattr(o, k), list(a), q, None))
    return I, o, c, w, L


def theta(nl, ns, nr, lo="range", psi=("range", 0.7, 1.4)):
    nm = ["l%d" % k for k in range(nl)] + ["f%d" % k for k in range(ns)] + ["r%d" % k for k in range(nr)]
    dom = {s: (RNG if s[0] == "l" else ("range", -0.5, 0.5) if s[0] == "f" else psi) for s in nm}
    return nm, params(nm, dom)


def psis(p, logs=False):
    nm = ["u%d" % k for k in range(p)]
    return nm, params(nm, {s: (("range", -0.5, 0.3) if logs else ("range", 0.6, 1.3)) for s in nm})


def tril(p):
    return [(i, j) for j in range(p) for i in range(j, p)]


def dsigma(S, wh, lab, names, sigma, ds, p, half=True):
    """ds is d vech(sigma)/d params in column order (p(p+1)/2 x t), or (t, p, p)"""
    if S.bad("dsigma", wh, lab, ds) or isinstance(sigma, Top):
        return
    if half:
        pairs = [("d S[%d,%d]/d%s" % (i, j, s), entry(ds, k, a), dterm(entry(sigma, i, j), s))
                 for k, (i, j) in enumerate(tril(p)) for a, s in enumerate(names)]
    else:
        pairs = [("d S[%d,%d]/d%s" % (i, j, s), entry(ds, a, i, j), dterm(entry(sigma, i, j), s))
                 for i in range(p) for j in range(p) for a, s in enumerate(names)]
    S.fold("dsigma", wh, lab, pairs, prove=False)


def d2sigma(S, wh, lab, names, sigma, d2, p):
    if S.bad("d2sigma", wh, lab, d2) or isinstance(sigma, Top):
        return
    S.fold("d2sigma", wh, lab, [("d2 S[%d,%d]/d%s d%s" % (i, j, s, t), entry(d2, k, a, b), dterm(entry(sigma, i, j), s, t))
                                for k, (i, j) in enumerate(tril(p)) for a, s in enumerate(names) for b, t in enumerate(names)], prove=False)


def concentrated(S, lab, p, L, f, g, h, fe=None, ge=None, he=None):
    nm, ps = psis(p)
    S.check(lab + " unique variances", nm, L(f, ps), L(g, ps), L(h, ps) if h else None)
    if fe:
        nm, rh = psis(p, True)
        S.check(lab + " log unique variances", nm, L(fe, rh), L(ge, rh), L(he, rh))


def shapes(S):
    return ((3, 1), (3, 2)) if S.quick else ((3, 1), (3, 2), (4, 2))


def pyfa_efa(S):
    for p, m in shapes(S):
        lb = "pyfa efa p=%d m=%d" % (p, m)
        r = obj(S, "pystatsm.pyfa.efa", "FactorAnalysis", lb, S=samplecov(p), n_obs=100, n_factors=m)
        if r is None:
            continue
        I, o, c, w, L = r
        concentrated(S, lb, p, L, "loglike", "gradient", "hessian", "loglike_exp", "gradient_exp", "hessian_exp")
        nm, th = theta(p * m, m * (m - 1) // 2, p)
        S.check(lb + " full", nm, L("loglike_params", th), L("gradient_params", th), L("hessian_params", th))
        sg = safe(L("implied_cov_params", th)[1])
        dsigma(S, w("dsigma_params"), lb, nm, sg, safe(L("dsigma_params", th)[1]), p)
        constraints(S, w("constraint_derivs"), lb, nm, safe(L("canonical_constraint", th)[1]), safe(L("constraint_derivs", th)[1]))


def constraints(S, wh, lab, names, C, J):
    if isinstance(C, Top) or C is None or S.bad("constraints", wh, lab, J):
        return
    k = concrete_dims(as_tensor(C))
    if k is None or k[0] == 0:
        return
    S.fold("constraints", wh, lab, [("d C%d/d%s" % (i, s), entry(J, i, a), dterm(entry(C, i), s)) for i in range(k[0]) for a, s in enumerate(names)],
           prove=False)


def pyfa_fa(S):
    for p, m in shapes(S):
        lb = "pyfa factor_analysis p=%d m=%d" % (p, m)
        r = obj(S, "pystatsm.pyfa.factor_analysis", "FactorAnalysis", lb, S=samplecov(p), n_obs=100, n_factors=m)
        if r is None:
            continue
        I, o, c, w, L = r
        nm, th = theta(p * m, 0, p, psi=("range", -0.4, 0.3))
        S.check(lb, nm, L("loglike", th), L("gradient", th), L("hessian", th))
        dsigma(S, w("dsigma"), lb, nm, safe(L("implied_cov", th)[1]), safe(L("dsigma", th)[1]), p)
        constraints(S, w("constraint_derivs"), lb, nm, safe(L("canonical_constraint", th)[1]), safe(L("constraint_derivs", th)[1]))
        concentrated(S, lb, p, L, "loglike_canonical", "gradient_canonical", "hessian_canonical")
        na, ta = theta(p * m, m * (m - 1) // 2, p)
        A = lambda v: from_flat(v[0], v[1])
        q = safe(L("_make_augmented_params", from_flat((p, m), [num(0)] * (p * m)), npmodel.TABLE["numpy.eye"](I, [m], {}),
                   npmodel.TABLE["numpy.eye"](I, [p], {}))[1])
        if isinstance(q, Top) and S.bad("objective", w("_make_augmented_params"), lb, q):
            continue
        S.check(lb + " augmented", na, L("loglike_augmented", ta), L("gradient_augmented", ta), L("hessian_augmented", ta))
        dsigma(S, w("dsigma_augmented"), lb, na, safe(L("implied_cov_augmented", ta)[1]), safe(L("dsigma_augmented", ta)[1]), p)


def pyfa2(S):
    for p, m in shapes(S):
        lb = "pyfa2 p=%d m=%d" % (p, m)
        r = obj(S, "pystatsm.pyfa2.likelihood", "MLEstimator", lb, samplecov(p), m)
        if r is None:
            continue
        I, o, c, w, L = r
        concentrated(S, lb, p, L, "loglike_psi", "grad_psi", "hess_psi", "loglike_exp", "grad_exp", "hess_exp")
        nm, th = theta(p * m, m * (m - 1) // 2, p)
        S.check(lb + " full", nm, L("F", th), L("grad", th), L("hessian", th))
        dsigma(S, w("dsigma"), lb, nm, safe(L("sigma", th)[1]), safe(L("dsigma", th)[1]), p, half=False)
        # the score's dependence on the sample covariance
        J = safe(L("score_jacobian", th)[1])
        g = safe(L("grad", th)[1])
        if not S.bad("score_jacobian", w("score_jacobian"), lb, J) and not isinstance(g, Top):
            S.fold("score_jacobian", w("score_jacobian"), lb, [("d g%d/d S%d%d" % (a, i, j), entry(J, a, k), dterm(entry(g, a), "S%d%d" % (i, j)))
                                                               for k, (i, j) in enumerate(tril(p)) for a in range(len(nm))], prove=False)


# ------------------------------------------------------------------ structural equation models
SEMFREE = dict(L=[(1, 0), (2, 0), (0, 2)], B=[(1, 0), (0, 1), (2, 1)], F=[(0, 0), (1, 0), (2, 2)], P=[(0, 0), (2, 1)], a=[(0, 0)], b=[(0, 0), (0, 2)])
SYM = (False, False, True, True, False, False)


def sem_model(S, mod, idx, flat, block, lb, groups, eq=False):
    """a SEM over three observed and three latent variables whose derivative tables come from the model's own code"""
    P = S.P
    c = cls(P, mod, "SEM")
    m = P.modules.get(idx)
    if c is None or m is None:
        return None
    I = Interp(P)
    k = 3
    dims = dict(L=(k, k), B=(k, k), F=(k, k), P=(k, k), a=(1, k), b=(1, k))
    arrs, vals, names, cnt = [], [], [], 0
    tm_ = []
    for q, (nm, rc) in enumerate(SEMFREE.items()):
        r_, c_ = dims[nm]
        free = [[0] * c_ for _ in range(r_)]
        base = [[num(1) if (i == j and nm in "LFP" and r_ == c_) else num(0) for j in range(c_)] for i in range(r_)]
        if nm == "F":
            base[2][1] = base[1][2] = num(0.25)
        cells = [(i, j) for j in range(c_) for i in range(j if SYM[q] else 0, r_)]
        for i, j in cells:
            if (i, j) in rc:
                cnt += 1
                free[i][j] = cnt
                if SYM[q]:
                    free[j][i] = cnt
                names.append("%s%d%d" % (nm, i, j))
            tm_.append(base[i][j])
        arrs.append((free, SYM[q], dims[nm]))
    # the index tables are computed by the package's own indexer classes
    fas = []
    for free, sy, d in arrs:
        t = from_flat(d, [num(x) for r in free for x in r])
        if sy:
            t = npmodel.TABLE["numpy.tril"](I, [t], {})
        fas.append(safe(I.call, ClassVal(m.classes[flat]), [t, sy], {}, None))
    ix = safe(I.call, ClassVal(m.classes[block]), [fas], {}, None)
    bad = [x for x in fas + [ix] if isinstance(x, Top)]
    if bad:
        S.bad("objective", where(P, c, "__init__"), lb, bad[0])
        return None
    n = len(names)
    o = Obj(c)
    I.objs.append(o) if not any(x is o for x in I.objs) else None
    ia = lambda v: from_flat((len(v),), [num(x) for x in v])
    md = Obj(None)
    I.objs.append(md)
    G = groups
    # group g's free parameters carry labels: the second loading equals the first, and from the second group on
    # the parameters of F are the group's own
    lab = [(0 if q == 1 and eq else q, g if names[q][0] == "F" else 0) for g in range(G) for q in range(n)]
    uniq = sorted(set(lab), key=lab.index)
    first = [lab.index(u) for u in uniq]
    locs = [uniq.index(x) for x in lab]
    md.attrs.update(sample_cov={g: samplecov(k, "S%d_" % g) for g in range(G)},
                    sample_mean={g: params(["m%d_%d" % (g, i) for i in range(k)], {"m%d_%d" % (g, i): RNG for i in range(k)}) for g in range(G)},
                    const={g: sym("const%d" % g) for g in range(G)})
    from sa import densemodel
    N = G * n
    pos = {g: [first[locs[g * n + q]] for q in range(n)] for g in range(G)}
    sp = lambda r, c_, cells: densemodel.sparse(from_flat((r, c_), [num(int((i, j) in cells)) for i in range(r) for j in range(c_)]), True, "csc")
    J = {g: sp(N, n, {(pos[g][q], q) for q in range(n)}) for g in range(G)}
    w = [sym("w%d" % g, dom="pos") for g in range(G)]
    pm = m if "equality_constraint_mat" in m.functions else P.modules.get(idx.rsplit(".", 1)[0] + ".param_table", m)
    Jt = safe(lambda: I.call(FuncVal(pm.functions["equality_constraint_mat"], pm), [ia(first), num(N)], {}, None))
    if S.bad("objective", where(P, c, "reduce_parameters"), lb, Jt):
        return None
    o.attrs.update(model_data=md, n_groups=G, indexer=ix, indexers={g: ix for g in range(G)}, p=k, q=k, p2=6, q2=6, nf=n, nf2=n * (n + 1) // 2,
                   nt=n, n=sym("N", dom="pos"), n_obs=sym("N", dom="pos"), gweights=from_flat((G,), w),
                   _unique_locs=ia(locs), _first_locs=ia(first), free_to_group_free={g: ia(pos[g]) for g in range(G)},
                   dfree_dgroup=J, dfree_dtheta=Jt, _check_complex=False,
                   n_total_free=N, free_df=Top("labels"), n_par=len(tm_))
    for nm in ("parameter_templates", "p_templates"):
        o.attrs[nm] = {g: from_flat((len(tm_),), tm_) for g in range(G)}
    r = safe(lambda: I.call(I.getattr(o, "make_derivative_matrices"), [], {}, None))
    if isinstance(r, Top):
        S.bad("objective", where(P, c, "make_derivative_matrices"), lb, r)
        return None
    dom = {}
    own = names
    names = ["%s%s" % (names[q], "g%d" % g if names[q][0] == "F" and g else "") for q, g in uniq]
    for s in names:
        dom[s] = ("range", 0.8, 1.3) if s[0] in "FP" and s[1] == s[2] else ("range", -0.4, 0.4)
    th = params(names, dom)
    return I, o, c, names, own, th, k


SEMS = [("pystatsm.pysem2.sem", "pystatsm.pysem2.indexers", "FlattenedArray", "BlockFlattenedArrays", "fit_func"),
        ("pystatsm.pysem.sem2", "pystatsm.pysem.model_mats", "FlattenedIndicatorIndices", "BlockFlattenedIndicatorIndices", "func")]


def sem_one(S, mod, idx, fl, bl, fn_, G, eq, second, stats):
    lb = "%s groups=%d%s" % (mod.split(".")[1], G, " equal loadings" if eq else "")
    r = sem_model(S, mod, idx, fl, bl, lb, G, eq)
    if r is None:
        return
    I, o, c, names, own, th, k = r
    w = lambda q: where(S.P, c, q)
    L = lambda q, *a, **kw: (w(q), lambda: I.call(I.getattr(o, q), list(a), kw, None))
    S.check(lb, names, L(fn_, th), L("gradient", th), L("hessian", th) if second else None)
    S.check(lb + " alternative gradient", names, L(fn_, th), L("gradient", th, method=1))
    if not stats:
        return
    st = safe(L("implied_sample_stats", th)[1])
    d1, d2 = safe(L("dsigma_mu", th)[1]), safe(L("d2sigma_mu", th)[1])
    if S.bad("dsigma", w("implied_sample_stats"), lb, st):
        return
    lab = ["S%d%d" % ij for ij in tril(k)] + ["mu%d" % i for i in range(k)]
    for g in range(G):
        own_g = [s + ("g%d" % g if s[0] == "F" and g else "") for s in own]
        if not S.bad("dsigma", w("dsigma_mu"), lb, d1):
            S.fold("dsigma", w("dsigma_mu"), "%s group %d" % (lb, g), [("d %s/d%s" % (lab[q], s), entry(d1, g, q, a), dterm(entry(st, g, q), s))
                                                                     for q in range(len(lab)) for a, s in enumerate(own_g)], prove=False)
        if not S.bad("d2sigma", w("d2sigma_mu"), lb, d2) and (g == 0 or not S.quick):
            S.fold("d2sigma", w("d2sigma_mu"), "%s group %d" % (lb, g),
                   [("d2 %s/d%s d%s" % (lab[q], s, t), entry(d2, g, q, a, b), dterm(entry(st, g, q), s, t))
                    for q in range(len(lab)) for a, s in enumerate(own_g) for b, t in enumerate(own_g) if b <= a or not S.quick], prove=False)


def sem_new(S):
    sem_one(S, *SEMS[0], 1, False, True, True)


def sem_new_groups(S):
    sem_one(S, *SEMS[0], 2, True, not S.quick, False)
    if not S.quick:
        sem_one(S, *SEMS[0], 2, False, True, True)


def sem_old(S):
    sem_one(S, *SEMS[1], 1, False, True, True)


def sem_old_groups(S):
    sem_one(S, *SEMS[1], 2, True, not S.quick, False)
    if not S.quick:
        sem_one(S, *SEMS[1], 2, False, True, True)


def sem_cov(S):
    """pysem/sem.SEM: minus twice the likelihood of a covariance structure with free loadings, paths and covariances"""
    P = S.P
    c = cls(P, "pystatsm.pysem.sem", "SEM")
    if c is None:
        return
    p, q = 3, 2
    I = Interp(P)
    o = Obj(c)
    I.objs.append(o)
    free = dict(LA=[(1, 0), (2, 1), (2, 0)], BE=[(1, 0), (0, 1)], PH=[(0, 0), (1, 0), (1, 1)], PS=[(0, 0), (1, 1), (2, 1), (2, 2)])
    dims = dict(LA=(p, q), BE=(q, q), PH=(q, q), PS=(p, p))
    names, idx, tmpl, sl, pos = [], [], [], {}, 0
    for k, rc in free.items():
        r_, c_ = dims[k]
        st = pos
        for j in range(c_):
            for i in range(j if k[0] == "P" else 0, r_):
                f = (i, j) in rc
                idx.append(f)
                tmpl.append(num(0) if f else num(int(i == j and k != "BE")))
                names.extend(["%s%d%d" % (k, i, j)] if f else [])
                pos += 1
        sl[k] = SliceVal(num(st), num(pos), None)
    lin = P.modules["pystatsm.utilities.special_mats"]
    F = lambda nm, *a: safe(lambda: I.call(I.getattr(I.call(I.lookup(nm, I.modenv(lin)), [num(x) for x in a], {}, None), "toarray"), [], {}, None))
    eye = lambda n: from_flat((n, n), [num(int(i == j)) for i in range(n) for j in range(n)])
    N, D, Lm = F("nmat", p), F("dmat", p), F("lmat", p)
    dot = lambda *a: npmodel.TABLE["numpy.linalg.multi_dot"](I, [list(a)], {})
    lb = "pysem covariance model"
    Sm = samplecov(p)
    a = safe(lambda: dict(Lp=Lm, Np=N, Ip=eye(p), Dk=F("dmat", q), Kq=F("kmat", q, q), Kp=F("kmat", p, q), Kkp=F("kmat", q, p), Dp=D,
                          DPsi=dot(Lm, D), LpNp=dot(Lm, N)))
    w = lambda k: where(P, c, k)
    if isinstance(a, Top) or any(isinstance(v, Top) for v in a.values()):
        S.bad("objective", w("__init__"), lb, a if isinstance(a, Top) else next(v for v in a.values() if isinstance(v, Top)))
        return
    o.attrs.update(a)
    zero = from_flat((p, p), [num(0)] * (p * p))
    bools = from_flat((len(idx),), [num(int(x)) for x in idx])
    bools = npmodel.TABLE["numpy.not_equal"](I, [bools, num(0)], {}) if "numpy.not_equal" in npmodel.TABLE else bools
    o.attrs.update(theta_indices=bools, params_template=from_flat((len(tmpl),), tmpl), slices=sl, mat_shapes={k: dims[k] for k in dims},
                   n_mvars=p, n_lvars=q, n_params=len(tmpl), I_nlvars=eye(q), E=zero, Ip2=eye(p * p), S=Sm, n_obs=sym("n", dom="pos"), p=p)
    o.attrs["theta"] = Top("start values")
    dom = {}
    for s in names:
        dom[s] = ("range", 0.8, 1.3) if s[:2] in ("PH", "PS") and s[2] == s[3] else ("range", -0.4, 0.4)
    th = params(names, dom)
    L = lambda k, *x: (w(k), lambda: I.call(I.getattr(o, k), list(x), {}, None))
    S.check(lb, names, L("loglike", th), L("gradient", th), L("hessian", th))
    sg, G = safe(L("implied_cov", th)[1]), safe(L("dsigma", th)[1])
    if not S.bad("dsigma", w("dsigma"), lb, G) and not S.bad("dsigma", w("implied_cov"), lb, sg):
        at = [k for k, f in enumerate(idx) if f]
        S.fold("dsigma", w("dsigma"), lb, [("d S[%d,%d]/d%s" % (i, j, s), entry(G, k, at[a]), dterm(entry(sg, i, j), s))
                                          for k, (i, j) in enumerate(tril(p)) for a, s in enumerate(names)], prove=False)


def cov_kernels(S):
    """the likelihood objective over an arbitrary twice differentiable covariance, and the compiled covariance kernels"""
    P = S.P
    p = 3
    c = cls(P, "pystatsm.pysem.fitfunctions", "LikelihoodObjective")
    if c is not None:
        I = Interp(P)
        names = ["x", "y"]
        th = params(names, {"x": RNG, "y": RNG})
        x, y = sym("x"), sym("y")
        e = [[None] * p for _ in range(p)]
        for i, j in tril(p):
            cf = [sym("%s%d%d" % (k, i, j)) for k in "abcd"]
            DOM["a%d%d" % (i, j)] = ("range", 3 + i, 3.5 + i) if i == j else ("range", -0.3, 0.3)
            for k in "bcd":
                DOM["%s%d%d" % (k, i, j)] = ("range", -0.4, 0.4)
            e[i][j] = e[j][i] = tm.add(cf[0], tm.mul(cf[1], x), tm.mul(cf[2], y, x), tm.mul(cf[3], y, y))
        mk = lambda n, t: from_flat((n, n), [v for r in t for v in r])
        Sg = mk(p, e)
        vs = [e[i][j] for i, j in tril(p)]
        d1 = from_flat((6, 2), [toterm(dterm(v, s)) for v in vs for s in names])
        d2 = from_flat((6, 2, 2), [toterm(dterm(v, s, t)) for v in vs for s in names for t in names])
        data = Obj(None)
        data.attrs.update(sample_cov=samplecov(p))
        w = lambda k: where(P, c, k)
        o = safe(I.call, ClassVal(c), [data], {}, None)
        if not S.bad("objective", w("function"), "likelihood objective", o):
            L = lambda k, *a: (w(k), lambda: I.call(I.getattr(o, k), list(a), {}, None))
            S.check("likelihood objective", names, L("function", Sg), L("gradient", Sg, d1), L("hessian", Sg, d1, d2))
    m = P.modules.get("pystatsm.pysem.cov_derivatives")
    if m is None or "CovarianceDerivatives" not in m.classes:
        return
    q = 2
    I = Interp(P)
    c = m.classes["CovarianceDerivatives"]
    sizes = [p * q, q * q, 3, 6]
    ptf = [1, 2, 5, 7, 8, 10, 11, 12, 13, 16, 17, 18]      # L10 L20 L21 | B10 B01 | F00 F10 F11 | P00 P11 P21 P22
    names = "L10 L20 L21 B10 B01 F00 F10 F11 P00 P11 P21 P22".split()
    ia = lambda v: from_flat((len(v),), [num(k) for k in v])
    o = safe(I.call, ClassVal(c), [num(p), num(q), num(len(ptf)), num(len(ptf)), ia(ptf), ia(list(range(len(ptf))))], {}, None)
    lb = "covariance kernels"
    w = lambda k: where(P, c, k)
    if S.bad("objective", w("__init__"), lb, o):
        return
    bad = [k for k in ("cov_first_deriv_kws", "cov_second_deriv_kws") if isinstance(I.getattr(o, k), Top)]
    if bad:
        S.bad("objective", w("make_derivative_matriecs"), lb, I.getattr(o, bad[0]))
        return
    dom = {s: ("range", 0.8, 1.3) if s in ("F00", "F11", "P00", "P11", "P22") else ("range", -0.4, 0.4) for s in names}
    th = params(names, dom)
    v = {s: sym(s) for s in names}
    get = lambda k, i, j, dflt=0: v.get("%s%d%d" % (k, i, j), v.get("%s%d%d" % (k, j, i), num(dflt)) if k in "FP" else num(dflt))
    mk = lambda k, r, c_, d: from_flat((r, c_), [get(k, i, j, int(d and i == j)) for i in range(r) for j in range(c_)])
    Lm, Bm, Fm, Pm = mk("L", p, q, 1), mk("B", q, q, 0), mk("F", q, q, 0), mk("P", p, p, 0)
    eyeq = from_flat((q, q), [num(int(i == j)) for i in range(q) for j in range(q)])
    import ast
    binop = lambda I, op, a, b: I.binop(ast.Add() if op == "+" else ast.Sub(), a, b, None, None)
    mm = lambda *a: npmodel.TABLE["numpy.linalg.multi_dot"](I, [list(a)], {})
    T_ = lambda t: npmodel.TABLE["numpy.transpose"](I, [t], {})
    try:
        IB = npmodel.TABLE["numpy.linalg.inv"](I, [binop(I, "-", eyeq, Bm)], {})
        LB = mm(Lm, IB)
        Sg = binop(I, "+", mm(LB, Fm, T_(LB)), Pm)
        V = npmodel.TABLE["numpy.linalg.inv"](I, [Sg], {})
        Sm = samplecov(p)
        VRV = mm(V, binop(I, "-", Sm, Sg), V)
    except Exception as ex:
        S.bad("objective", w("__init__"), lb, Top(repr(ex)))
        return
    nf = len(names)
    fn = lambda k: FuncVal(m.functions[k], m)
    z = lambda *d: npmodel.TABLE["numpy.zeros"](I, [tuple(num(x) for x in d)], {})
    wf = lambda k: "%s:%s" % (w("x").split(":")[0], k)
    if "_dsigma" in m.functions:
        d1 = safe(lambda: I.call(fn("_dsigma"), [z(6, nf), Lm, IB, Fm], I.getattr(o, "cov_first_deriv_kws"), None))
        dsigma(S, wf("_dsigma"), lb, names, Sg, d1, p)
    if "_d2sigma" in m.functions:
        d2 = safe(lambda: I.call(fn("_d2sigma"), [z(6, nf, nf), Lm, IB, Fm], I.getattr(o, "cov_second_deriv_kws"), None))
        d2sigma(S, wf("_d2sigma"), lb, names, Sg, d2, p)
    flat = lambda t: npmodel.TABLE["numpy.ravel"](I, [t], {})
    obj_ = tm.add(toterm(npmodel.TABLE["numpy.linalg.slogdet"](I, [Sg], {})[1]), toterm(npmodel.TABLE["numpy.trace"](I, [mm(V, Sm)], {})))
    if "_dloglike" in m.functions:
        g = safe(lambda: I.call(fn("_dloglike"), [z(nf), Lm, IB, Fm, flat(VRV)], I.getattr(o, "f_first_deriv_kws"), None))
        if not S.bad("gradient", wf("_dloglike"), lb, g):
            S.fold("gradient", wf("_dloglike"), lb, [("d obj/d%s" % s, entry(g, a), dterm(obj_, s)) for a, s in enumerate(names)], prove=False)
    if "_d2loglike" in m.functions:
        k1, k2 = I.getattr(o, "f_first_deriv_kws"), I.getattr(o, "cov_second_deriv_kws")
        H = z(nf, nf)
        kw = dict(H=H, L=Lm, B=IB, F=Fm, Sinv=V, S=Sm, vecVRV=flat(VRV), vecV=flat(V), dA=k1["dA"], r=k1["r"], c=k1["c"],
                  first_deriv_type=k1["deriv_type"], second_deriv_type=k2["deriv_type"], n=num(nf), vech_inds=k1["vech_inds"])
        hold = Obj(None)
        hold.attrs["H"] = H
        I.objs.append(hold)
        r = safe(lambda: I.call(fn("_d2loglike"), [], kw, None))
        H = r if isinstance(r, Tensor) else hold.attrs["H"]
        if not S.bad("hessian", wf("_d2loglike"), lb, r if isinstance(r, Top) else H):
            S.fold("hessian", wf("_d2loglike"), lb, [("d2 obj/d%s d%s" % (s, t), entry(H, a, b), dterm(obj_, s, t))
                                                   for a, s in enumerate(names) for b, t in enumerate(names)], prove=False)


RULES = {"objective": "the objective has a value the analysis can follow", "gradient": "d obj / d params == grad",
         "hessian": "d2 obj / d params2 == hess", "dsigma": "d vech(Sigma) / d params == reported derivative",
         "d2sigma": "d2 vech(Sigma) / d params2 == reported derivative",
         "constraints": "d constraint / d params == reported Jacobian",
         "score_jacobian": "d grad / d vech(S) == reported Jacobian"}


def run():
    chk = Check("C09", floor=38, explanation=(
        "Every covariance-structure discrepancy (exploratory factor analysis in pyfa and pyfa2, the structural equation models "
        "of pysem and pysem2, the covariance-structure kernels) is abstractly interpreted from its syntax tree for small "
        "dimensions and symbolic sample statistics: the package's own constructors and index tables run over symbols, then "
        "objective, gradient, Hessian, implied moments and their first and second derivatives are evaluated at symbolic "
        "parameters and each entry is compared with the formal derivative of the extracted objective or moment; a residual "
        "that is non-zero is a violation. Matrix inverses, log determinants and eigenvalues stay opaque matrix terms with "
        "their own differentiation rules. Models cover non-recursive paths, fixed non-zero cells, equality labels and groups."),
        rules=RULES)
    P = Project()
    S = Suite(chk, P)
    S.quick = not chk.thorough
    fs = (sem_new, sem_old, sem_new_groups, sem_old_groups, pyfa_efa, pyfa_fa, pyfa2, sem_cov, cov_kernels)
    chk.suites(fs, lambda f: f(S))
    return chk.finish()
