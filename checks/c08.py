"""C08 parameter transforms: inverse pairs, Jacobians and Hessians."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa import interp as it_
from sa.interp import dense_arr, from_flat, concrete_dims
from .c07 import safe

SIZES = (2, 3)
# argument spaces of the forward map, tried until one gives valid points
SPACES = ["hv", "lhv", "ordered", "positive", "unit"]


def space(kind, n, tag):
    """vector of symbols of one of the argument spaces, for matrix size n"""
    if kind == "hv":
        es = []
        for j in range(n):
            for i in range(j, n):
                nm = "%s_%d_%d" % (tag, i, j)
                DOM[nm] = ("range", "1.1", "2.3") if i == j else ("range", "-0.45", "0.45")
                es.append(sym(nm))
        return es
    m = n * (n - 1) // 2
    if kind == "lhv":
        es = []
        for k in range(m):
            nm = "%s_l%d" % (tag, k)
            DOM[nm] = ("range", "-0.45", "0.45")
            es.append(sym(nm))
        return es
    es = []
    for k in range(n + 1):
        nm = "%s_%s%d" % (tag, kind[0], k)
        DOM[nm] = {"positive": "pos", "unit": ("range", "-0.8", "0.8"), "ordered": ("range", str(-2 + k), str(-1.2 + k))}[kind]
        es.append(sym(nm))
    return es


def entry(v, ix):
    if v is None or isinstance(v, Top):
        return v
    t = as_tensor(v)
    if t.rank != len(ix):
        return Top("rank %d result where %d indices are expected" % (t.rank, len(ix)))
    return safe(getitem, t, tuple(num(i) for i in ix)) if ix else t


def flat(v):
    """entry terms of a vector value, or None"""
    if v is None or isinstance(v, Top):
        return None
    t = as_tensor(v)
    ns = concrete_dims(t)
    if ns is None or len(ns) != 1:
        return None
    return [tm.asnum(x) for x in dense_arr(t)]


def dd(e, names):
    for n in names:
        try:
            e = tm.diff(e, n, ())
        except NotDifferentiable as x:
            return Top("not differentiable: %s" % x)
    return e


def try_space(chk, P, c, mk, kind, n, extra):
    """(obligation list, number decided) for one argument space"""
    rec = Recorder(chk.seed, chk.thorough)
    for dirn, inv in (("fwd", "rvs"), ("rvs", "fwd")):
        if not P.find_method(c, "_" + dirn) or is_stub(P, c, "_" + dirn):
            continue
        I = Interp(P)
        o = safe(mk, I)
        if isinstance(o, Top):
            rec.ob("inverse", where(P, c, "_" + dirn), c.name, "undecided", o.why)
            return rec
        xs = space(kind, n, "x" if dirn == "fwd" else "y")
        names = [x.args[0] for x in xs]
        x = from_flat((len(xs),), xs)
        y = safe(call, I, o, "_" + dirn, x, *extra)
        ys = flat(y)
        lab = "%s %s n=%d" % (c.name, kind, n)
        w = where(P, c, "_" + dirn)
        if ys is None or len(ys) != len(xs):
            rec.ob("inverse", w, lab, "undecided", getattr(y, "why", "result has another length"))
            return rec
        back = flat(safe(call, I, o, "_" + inv, from_flat((len(ys),), ys), *extra))
        if back is None:
            rec.ob("inverse", where(P, c, "_" + inv), lab, "undecided", "no value")
        else:
            for k in range(len(xs)):
                rec.cmp("inverse", where(P, c, "_" + inv), "%s after %s [%d]" % (lab, dirn, k), back[k], xs[k])
        for pre, order in (("_jac_", 1), ("_hess_", 2)):
            nm = pre + dirn
            if not P.find_method(c, nm) or is_stub(P, c, nm):
                continue
            J = safe(call, I, o, nm, x, *extra)
            rule = "jacobian" if order == 1 else "hessian"
            for i in range(len(xs)):
                for j in range(len(xs)):
                    if order == 1:
                        rec.cmp(rule, where(P, c, nm), "%s [%d,%d]" % (lab, i, j), entry(J, (i, j)), dd(ys[i], [names[j]]))
                    else:
                        for k in range(len(xs)):
                            rec.cmp(rule, where(P, c, nm), "%s [%d,%d,%d]" % (lab, i, j, k), entry(J, (i, j, k)),
                                    dd(ys[i], [names[j], names[k]]))
    return rec


class Recorder:
    def __init__(self, seed, thorough):
        self.items, self.seed, self.thorough, self.extra = [], seed, thorough, {}

    def ob(self, *a):
        self.items.append(a)

    def cmp(self, rule, wh, what, a, b):
        compare(self, rule, wh, what, a, b, prove=False)

    def decided(self):
        return sum(1 for i in self.items if i[3] in ("proved", "agrees"))

    def bad(self):
        return sum(1 for i in self.items if i[3] == "violated")


def run():
    chk = Check("C08", floor=300, explanation=(
        "Every class with paired _fwd/_rvs maps is abstractly interpreted on vectors of symbols at matrix sizes 2 and 3; the "
        "composition of the two maps is compared with the identity and the offered Jacobians and Hessians with formal "
        "derivatives of the abstract value of the map, entry by entry.  Scalar arguments, gaps of combined transforms and "
        "chains of composed transforms and the variance-correlation maps of the mixed models are covered by separate instances."),
        rules={"inverse": "_rvs(_fwd(x)) == x and _fwd(_rvs(y)) == y", "jacobian": "_jac_d(x)[i,j] == d _d(x)[i] / d x[j]",
               "hessian": "_hess_d(x)[i,j,k] == second derivative", "pack": "unpack(pack(parameters)) == parameters"})
    P = Project()
    classes = [c for c in P.all_classes() if P.find_method(c, "_fwd") and P.find_method(c, "_rvs")
               and not is_stub(P, c, "_fwd")]
    for c in classes:
        ini = P.find_method(c, "__init__")
        ps = [x.arg for x in ini[1].args.args][1:] if ini else []
        if ps and ps[0] == "transforms" or ps[:1] == ["transform"]:
            continue
        fn_ = P.find_method(c, "_fwd")[1]
        nargs = len(fn_.args.args) - (0 if "staticmethod" in decorators(fn_) else 1)
        for n in SIZES:
            best = None
            for kind in SPACES:
                xs = space(kind, n, "x")
                ex = [len(xs)] if nargs == 2 else []
                mk = lambda I, c=c, n=n: I.instantiate(c, [n] if ps else [], {})
                r = try_space(chk, P, c, mk, kind, n, ex)
                if best is None or (r.decided(), -r.bad()) > (best.decided(), -best.bad()):
                    best = r
                if r.items and all(i[3] in ("proved", "agrees") for i in r.items):
                    best = r
                    break
            for i in best.items:
                chk.ob(*i)
        if nargs == 2:        # only the first q entries are transformed: the tail must be left alone by the maps
            prefix_case(chk, P, c)
    scalars(chk, P, classes)
    wrappers(chk, P, classes)
    packers(chk, P)
    correlations(chk, P)
    variance_correlations(chk, P)
    return chk.finish()


def prefix_case(chk, P, c):
    xs = space("ordered", 2, "x")
    t = sym("tail", dom="real")
    for dirn, inv in (("_fwd", "_rvs"), ("_rvs", "_fwd")):
        I = Interp(P)
        o = safe(I.instantiate, c, [], {})
        x = from_flat((4,), xs + [t])
        y = flat(safe(call, I, o, dirn, x, 3))
        if y is None or len(y) != 4:
            continue
        compare(chk, "inverse", where(P, c, dirn), c.name + " tail entry", y[3], t)
        b = flat(safe(call, I, o, inv, from_flat((4,), y), 3))
        for k in range(4):
            if b is not None:
                compare(chk, "inverse", where(P, c, inv), c.name + " with tail after %s [%d]" % (dirn, k), b[k], (xs + [t])[k])


def scalars(chk, P, classes):
    """transforms that accept a scalar"""
    for c in classes:
        ini = P.find_method(c, "__init__")
        if ini and len(ini[1].args.args) > 1:
            continue
        done = False
        for domn in ("pos", ("range", "-0.85", "0.85")):
            for dirn, inv in (("_fwd", "_rvs"), ("_rvs", "_fwd")):
                I = Interp(P)
                o = safe(I.instantiate, c, [], {})
                x = sym("sx%s" % (domn if isinstance(domn, str) else "u"), dom=domn)
                y = safe(call, I, o, dirn, x)
                if y is None or isinstance(y, Top) or as_tensor(y).rank:
                    continue
                yt = tm.asnum(as_tensor(y).elem)
                lab = "%s scalar %s" % (c.name, dirn)
                rs = Recorder(chk.seed, chk.thorough)
                rs.cmp("inverse", where(P, c, inv), lab, safe(call, I, o, inv, yt), x)
                for nm, names in (("_jac" + dirn, 1), ("_hess" + dirn, 2)):
                    if P.find_method(c, nm) and not is_stub(P, c, nm):
                        rs.cmp("jacobian" if names == 1 else "hessian", where(P, c, nm), lab, safe(call, I, o, nm, x),
                               dd(yt, [x.args[0]] * names))
                for i in rs.items:
                    if i[3] != "undecided":
                        chk.ob(*i)


def find(classes, name, prefer):
    cs = [c for c in classes if c.name == name]
    cs = [c for c in cs if c.module.name.endswith(prefer)] or cs
    return cs[0] if cs else None


def wrappers(chk, P, classes):
    """classes built from other transforms: masks, chains, and index-range combinations"""
    for c in classes:
        ini = P.find_method(c, "__init__")
        ps = [x.arg for x in ini[1].args.args][1:] if ini else []
        mod = c.module
        loc = {k.name: k for k in classes if k.module is mod}

        def inst(I, name, *a):
            return I.instantiate(loc[name], list(a), {})
        cases = []
        if ps[:1] == ["transform"]:
            for inner, n in (("CorrCholesky", 3), ("UnconstrainedCholeskyCorr", 3)):
                if inner in loc:
                    cases.append((inner, "hv", n, lambda I, inner=inner, n=n: I.instantiate(c, [inst(I, inner, n)], {})))
        elif ps == ["transforms"]:
            cases.append(("log then identity then log1", "positive", 2, lambda I: compose(I, loc, c, ["LogTransform", "IdentityTransform"])))
            cases.append(("three maps", "positive", 2, lambda I: compose(I, loc, c, ["LogTransform", "OrderedTransform", "IdentityTransform"])))
            cases.append(("four maps", "lhv", 3, lambda I: compose(I, loc, c, ["CorrCholesky", "UnconstrainedCholeskyCorr", "TanhTransform", "IdentityTransform"], 3)))
            cases.append(("one map", "unit", 2, lambda I: compose(I, loc, c, ["TanhTransform"])))
        elif ps[:1] == ["transforms"]:
            for lab, tr, ix in (("slices with a gap", ["LogTransform", "LogTransform"], [SliceVal(1, 2, None), SliceVal(2, 3, None)]),
                                ("counts", ["LogTransform", "IdentityTransform"], [2, 1]),
                                ("pairs", ["LogTransform", "TanhTransform"], [(0, 2), (2, 3)]),
                                ("tail", ["LogTransform"], [(0, 1)])):
                cases.append((lab, "positive" if "Tanh" not in "".join(tr) else "unitpos", 2,
                              lambda I, tr=tr, ix=ix: I.instantiate(c, [[inst(I, t) for t in tr], ix], {})))
        for lab, kind, n, mk in cases:
            k = "positive" if kind == "unitpos" else kind
            DOMS = None
            r = try_space(chk, P, c, mk, k, n, []) if kind != "unitpos" else unitpos(chk, P, c, mk)
            for i in r.items:
                chk.ob(i[0], i[1], lab + " " + i[2], i[3], i[4] if len(i) > 4 else "")


def unitpos(chk, P, c, mk):
    import checks.c08 as me
    old = me.space

    def sp(kind, n, tag):
        es = []
        for k in range(3):
            nm = "%s_up%d" % (tag, k)
            DOM[nm] = ("range", "0.1", "0.8")
            es.append(sym(nm))
        return es
    me.space = sp
    try:
        return me.try_space(chk, P, c, mk, "unitpos", 2, [])
    finally:
        me.space = old


def compose(I, loc, c, names, n=None):
    out = []
    for nm in names:
        k = loc[nm]
        ini = I.p.find_method(k, "__init__")
        out.append(I.instantiate(k, [n] if ini and len(ini[1].args.args) > 1 else [], {}))
    return I.instantiate(c, [out], {})


def packers(chk, P):
    """classes with pack/unpack between structured parameters and a vector"""
    for c in P.all_classes():
        if not (P.find_method(c, "pack") and P.find_method(c, "unpack")):
            continue
        args = [x.arg for x in P.find_method(c, "pack")[1].args.args][1:]
        if len(args) == 3:
            layout3(chk, P, c)
            continue
        for q in (2, 3):
            I = Interp(P)
            o = safe(I.instantiate, c, [2, q], {})
            if isinstance(o, Top):
                chk.ob("pack", where(P, c, "pack"), c.name, "undecided", o.why)
                continue
            B = [[sym("B_%d_%d" % (i, j), dom="real") for j in range(q)] for i in range(2)]
            L = [[sym("L_%d_%d" % (i, j), dom="pos" if i == j else "real") if j <= i else ZERO for j in range(q)] for i in range(q)]
            Bt, Lt = from_flat((2, q), sum(B, [])), from_flat((q, q), sum(L, []))
            th = safe(call, I, o, "pack", Bt, Lt)
            if th is None or isinstance(th, Top):
                chk.ob("pack", where(P, c, "pack"), c.name, "undecided", getattr(th, "why", ""))
                continue
            u = safe(call, I, o, "unpack", th)
            if not isinstance(u, tuple) or len(u) != 2:
                chk.ob("pack", where(P, c, "unpack"), c.name, "undecided", getattr(u, "why", "not a pair"))
                continue
            for i in range(2):
                for j in range(q):
                    compare(chk, "pack", where(P, c, "unpack"), "%s B[%d,%d] q=%d" % (c.name, i, j, q), entry(u[0], (i, j)), B[i][j])
            for i in range(q):
                for j in range(q):
                    compare(chk, "pack", where(P, c, "unpack"), "%s L[%d,%d] q=%d" % (c.name, i, j, q), entry(u[1], (i, j)), L[i][j])
            # from the vector side
            m = concrete_dims(as_tensor(th))[0]
            ts = [sym("th_%d" % k, dom="real") for k in range(m)]
            w = safe(call, I, o, "unpack", from_flat((m,), ts))
            if isinstance(w, tuple) and len(w) == 2 and not any(isinstance(x, Top) for x in w):
                b = flat(safe(call, I, o, "pack", w[0], w[1]))
                for k in range(m):
                    compare(chk, "pack", where(P, c, "pack"), "%s theta[%d] q=%d" % (c.name, k, q), None if b is None else b[k], ts[k])


def layout3(chk, P, c):
    """loadings (p,m), a factor correlation matrix with unit diagonal and residual variances"""
    for p, m in ((3, 2), (4, 3)):
        I = Interp(P)
        o = safe(I.instantiate, c, [p, m], {})
        lab = "%s p=%d m=%d" % (c.name, p, m)
        if isinstance(o, Top):
            chk.ob("pack", where(P, c, "pack"), lab, "undecided", o.why)
            continue
        L = [[sym("L_%d_%d" % (i, j), dom="real") for j in range(m)] for i in range(p)]
        F = [[ONE if i == j else sym("F_%d_%d" % (max(i, j), min(i, j)), dom=("range", "-0.4", "0.4")) for j in range(m)]
             for i in range(m)]
        psi = [sym("psi_%d" % i, dom="pos") for i in range(p)]
        parts = (from_flat((p, m), sum(L, [])), from_flat((m, m), sum(F, [])), from_flat((p,), psi))
        th = safe(call, I, o, "pack", *parts)
        u = safe(call, I, o, "unpack", th) if isinstance(th, Tensor) else th
        if not isinstance(u, tuple) or len(u) != 3:
            chk.ob("pack", where(P, c, "unpack"), lab, "undecided", getattr(u, "why", "not a triple"))
            continue
        for nm, got, want in zip(("L", "Phi", "Psi"), u, (L, F, psi)):
            for i, row in enumerate(want):
                for j, e in enumerate(row if isinstance(row, list) else [row]):
                    ix = (i, j) if isinstance(row, list) else (i,)
                    compare(chk, "pack", where(P, c, "unpack"), "%s %s%s" % (lab, nm, list(ix)), entry(got, ix), e)
        k = concrete_dims(as_tensor(th))[0]
        ts = [sym("th_%d" % q, dom=("range", "-0.4", "0.4")) for q in range(k)]
        w = safe(call, I, o, "unpack", from_flat((k,), ts))
        b = flat(safe(call, I, o, "pack", *w)) if isinstance(w, tuple) else None
        for q in range(k):
            compare(chk, "pack", where(P, c, "pack"), "%s theta[%d]" % (lab, q), None if b is None else b[q], ts[q])


def correlations(chk, P):
    """index-driven variance-correlation maps (fwd/rvs/jacobian with off-diagonal index arrays)"""
    for c in P.all_classes():
        if not (P.find_method(c, "fwd") and P.find_method(c, "rvs") and P.find_method(c, "jacobian")):
            continue
        I = Interp(P)
        ix = lambda v: from_flat((len(v),), [num(k) for k in v])
        # two unstructured terms of size two and three laid out column-wise, then a residual variance
        lay = {"off_ix": [1, 4, 5, 7], "off_da": [0, 3, 3, 6], "off_db": [2, 6, 8, 8], "diag_ix": [0, 2, 3, 6, 8]}
        o = Obj(c, {k: ix(v) for k, v in lay.items()})
        m = 10
        xs, ys = [], []
        for k in range(m):
            off = k in lay["off_ix"]
            xs.append(sym("vx%d" % k, dom=("range", "-0.5", "0.5") if off else ("range", "1.1", "2.1")))
            ys.append(sym("vy%d" % k, dom=("range", "-1.5", "1.5") if off else ("range", "1.1", "2.1")))
        y = flat(safe(call, I, o, "fwd", from_flat((m,), xs)))
        x = flat(safe(call, I, o, "rvs", from_flat((m,), ys)))
        if y is None or x is None:
            chk.ob("inverse", where(P, c, "fwd"), c.name, "undecided", "no value")
            continue
        b = flat(safe(call, I, o, "rvs", from_flat((m,), y)))
        f = flat(safe(call, I, o, "fwd", from_flat((m,), x)))
        J = safe(call, I, o, "jacobian", from_flat((m,), ys))
        for k in range(m):
            compare(chk, "inverse", where(P, c, "rvs"), "%s rvs(fwd(x))[%d]" % (c.name, k), None if b is None else b[k], xs[k], prove=False)
            compare(chk, "inverse", where(P, c, "fwd"), "%s fwd(rvs(y))[%d]" % (c.name, k), None if f is None else f[k], ys[k], prove=False)
            for j in range(m):
                compare(chk, "jacobian", where(P, c, "jacobian"), "%s [%d,%d]" % (c.name, k, j), entry(J, (k, j)),
                        dd(x[k], [ys[j].args[0]]), prove=False)


def column_pairs(p):
    """column-wise lower-triangular positions of a p x p matrix"""
    return [(i, j) for j in range(p) for i in range(j, p)]


def varcorr(theta, sizes):
    """variances as they are, correlations by the inverse hyperbolic tangent, the rest untouched"""
    out, off = list(theta), 0
    for p in sizes:
        pos = {ij: off + k for k, ij in enumerate(column_pairs(p))}
        for (i, j), k in pos.items():
            if i != j:
                r = tm.div(theta[k], tm.fn("sqrt", tm.mul(theta[pos[i, i]], theta[pos[j, j]])))
                out[k] = tm.fn("arctanh", r)
        off += len(pos)
    return out


def varcorr_inv(tau, sizes):
    out, off = list(tau), 0
    for p in sizes:
        pos = {ij: off + k for k, ij in enumerate(column_pairs(p))}
        for (i, j), k in pos.items():
            if i != j:
                out[k] = tm.mul(tm.fn("tanh", tau[k]), tm.fn("sqrt", tm.mul(tau[pos[i, i]], tau[pos[j, j]])))
        off += len(pos)
    return out


def variance_correlations(chk, P):
    """variance-correlation maps that lay their own indices out"""
    for c in P.all_classes():
        names = [("transform", "inverse_transform"), ("fwd", "rvs")]
        pair = next((q for q in names if P.find_method(c, q[0]) and P.find_method(c, q[1]) and P.find_method(c, "jacobian")), None)
        ini = P.find_method(c, "__init__")
        if pair is None or not ini:
            continue
        ps = [a.arg for a in ini[1].args.args][1:]
        for sizes in ((1, 3), (2, 1), (4,)):
            I = Interp(P)
            ix = lambda v: from_flat((len(v),), [num(k) for k in v])
            offs, off = [], 0
            for p in sizes:
                offs.append((off, off + len(column_pairs(p))))
                off = offs[-1][1]
            m = off + 1
            if len(ps) == 2 and "dims" in ps[0]:
                dims = {"t%d" % k: dict(n_vars=num(p), n_groups=num(3)) for k, p in enumerate(sizes)}
                th = {"t%d" % k: ix(range(*o)) for k, o in enumerate(offs)}
                th["resid"] = ix([m - 1])
                o = safe(I.instantiate, c, [dims, {"theta": th}], {})
            elif len(ps) == 1:
                terms, U = [], P.classes.get("UnstructuredCovariance") if hasattr(P, "classes") else None
                U = U or next((k for k in P.all_classes() if k.name == "UnstructuredCovariance"), None)
                if U is None:
                    continue
                for p in sizes:
                    terms.append(Obj(None, dict(cov_structure=Obj(None, dict(unstructured_cov=safe(I.instantiate, U, [num(p)], {}))))))
                rm = Obj(None, dict(n_gterms=num(len(sizes)), gterms=terms,
                                    theta_sl=[it_.SliceVal(num(a), num(b), None) for a, b in offs + [(m - 1, m)]]))
                o = safe(I.instantiate, c, [rm], {})
            else:
                continue
            lab = "%s blocks %s" % (c.name, list(sizes))
            if isinstance(o, Top):
                chk.ob("inverse", where(P, c, "__init__"), lab, "undecided", o.why)
                continue
            diag = {a + column_pairs(p).index((i, i)) for p, (a, b) in zip(sizes, offs) for i in range(p)} | {m - 1}
            ths = [sym("vt%d" % k, dom=("range", "1.1", "2.1") if k in diag else ("range", "-0.35", "0.35")) for k in range(m)]
            tas = [sym("va%d" % k, dom=("range", "1.1", "2.1") if k in diag else ("range", "-0.9", "0.9")) for k in range(m)]
            fwd = safe(call, I, o, pair[0], from_flat((m,), ths))
            rvs = safe(call, I, o, pair[1], from_flat((m,), tas))
            f, r = flat(fwd), flat(rvs)
            wf, wr = varcorr(ths, sizes), varcorr_inv(tas, sizes)
            for k in range(m):
                compare(chk, "inverse", where(P, c, pair[0]), "%s: %s[%d] is the variance or transformed correlation" % (lab, pair[0], k), fwd if isinstance(fwd, Top) else None if f is None else f[k], wf[k], prove=False)
                compare(chk, "inverse", where(P, c, pair[1]), "%s: %s[%d] undoes it" % (lab, pair[1], k), rvs if isinstance(rvs, Top) else None if r is None else r[k], wr[k], prove=False)
            # derivative of the inverse map: (tau, theta) for the dims layout, (theta, tau) for the other
            byrow = pair[0] == "transform"
            J = safe(call, I, o, "jacobian", from_flat((m,), wr if byrow else tas))
            for a in range(m):
                for b in range(m):
                    got = entry(J, (b, a) if byrow else (a, b))
                    compare(chk, "jacobian", where(P, c, "jacobian"), "%s: d theta[%d]/d tau[%d]" % (lab, a, b), got, dd(wr[a], [tas[b].args[0]]), prove=False)
