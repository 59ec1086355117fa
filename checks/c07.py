"""C07 rotation criteria, their gradients and constraint derivatives."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm

A2 = (AX[0], AX[1])
METHODS = ["varimax", "quartimax", "equamax", "parsimax"]


def mat_sym(name, p, m):
    DOM[name] = "real"
    return Tensor((p, m), sym(name, AX[0], AX[1]))


def gradm(v, name, p, m):
    """matrix of partial derivatives of a scalar value in name[i, j]"""
    if v is None or isinstance(v, Top):
        return v
    try:
        return Tensor((p, m), tm.diff(tm.asnum(as_tensor(v).elem), name, A2))
    except NotDifferentiable as e:
        return Top("not differentiable: %s" % e)


def safe(f, *a, **k):
    try:
        return f(*a, **k)
    except Raised as e:
        return Top("raises " + e.what)
    except Exception as e:          # an unmodelled construct leaves the obligation undecided
        return Top("%s: %s" % (type(e).__name__, e))


def pick(v, *ix):
    if v is None or isinstance(v, Top):
        return v
    return safe(getitem, as_tensor(v), tuple(num(i) for i in ix))


def run():
    chk = Check("C07", floor=40, explanation=(
        "Every class with Q and dQ of a loading matrix, and every value-and-gradient function, is abstractly interpreted on a "
        "symbolic loading matrix of symbolic size; dQ, d2Q, vgQ and the constraint derivatives are compared with formal "
        "derivatives of the abstract value of Q (second derivatives and constraint Jacobians at concrete small sizes)."),
        rules={"gradient": "dQ(L)[i,j] == d Q(L)/d L[i,j]", "value-and-gradient": "vgQ(L) == (Q(L), dQ(L))",
               "hessian": "d2Q(L) == d vec dQ / d vec L", "chain": "rotation gradient is the derivative in the rotation matrix",
               "constraint": "constraint Jacobians are the derivatives of the constraints"})
    P = Project()
    crits = [c for c in P.all_classes() if P.find_method(c, "Q") and P.find_method(c, "dQ")]
    for c in crits:
        criterion(chk, P, c)
    # value-and-gradient functions over (L, gamma)
    for mod in sorted(P.modules.values(), key=lambda q: q.name):
        for st in mod.tree.body:
            if isinstance(st, ast.FunctionDef) and st.name.startswith("vgq"):
                a = [x.arg for x in st.args.args]
                if a[:1] != ["L"]:
                    continue
                I = Interp(P)
                p, m = dim("p", 3), dim("m", 2)
                L = mat_sym("L", p, m)
                v = safe(I.call, I.lookup(st.name, I.modenv(mod)), [L] + [scal("gamma")] * (len(a) - 1), {}, None)
                wh = "%s:%s" % (mod.relpath, st.name)
                if isinstance(v, tuple) and len(v) == 2:
                    compare(chk, "gradient", wh, st.name, v[1], gradm(v[0], "L", p, m))
                else:
                    chk.ob("gradient", wh, st.name, "undecided", getattr(v, "why", "not a pair"))
    rotations(chk, P, crits)
    return chk.finish()


def build(P, I, c, p, m, tag, rt="ortho", W=True):
    """instance of a criterion for loadings of size p x m"""
    ini = P.find_method(c, "__init__")
    ps = [x.arg for x in ini[1].args.args][1:]
    kw = {}
    for q in ps:
        if q in ("A", "L"):
            kw[q] = mat_sym("A", p, m)
        elif q in ("H", "W"):
            if q == "H" or W:
                kw[q] = mat_sym(q, p, m)
        elif q in ("method", "rotation_method"):
            kw[q] = tag
        elif q == "rotation_type":
            kw[q] = rt
        elif q == "p":
            kw[q] = p
        elif q in ("m", "k"):
            kw[q] = m
    return safe(I.instantiate, c, [], kw)


def criterion(chk, P, c):
    ini = P.find_method(c, "__init__")
    if not ini:
        return
    ps = [x.arg for x in ini[1].args.args][1:]
    tags = METHODS if {"method", "rotation_method"} & set(ps) else ["W", "no W"]
    for tag in tags:
        I = Interp(P)
        p, m = dim("p", 3), dim("m", 2)
        L = mat_sym("L", p, m)
        o = build(P, I, c, p, m, tag, W=tag != "no W")
        if isinstance(o, Top):
            chk.ob("gradient", where(P, c, "Q"), "%s %s" % (c.name, tag), "undecided", o.why)
            continue
        variants = [tag]
        if all(k in o.attrs for k in ("k1", "k2", "k3", "k4")) and tag == tags[0]:
            variants.append("any constants")
        for vt in variants:
            if vt == "any constants":
                for k in ("k1", "k2", "k3", "k4"):
                    o.attrs[k] = sym(k, dom="real")
            nm = "%s %s" % (c.name, vt)
            q, d = safe(call, I, o, "Q", L), safe(call, I, o, "dQ", L)
            if q is None or isinstance(q, Top):
                chk.ob("gradient", where(P, c, "Q"), nm, "undecided", getattr(q, "why", "stub"))
                continue
            compare(chk, "gradient", where(P, c, "dQ"), nm, d, gradm(q, "L", p, m))
            if P.find_method(c, "vgQ"):
                v = safe(call, I, o, "vgQ", L)
                if isinstance(v, tuple) and len(v) == 2:
                    compare(chk, "value-and-gradient", where(P, c, "vgQ"), nm + " value", v[0], q)
                    compare(chk, "value-and-gradient", where(P, c, "vgQ"), nm + " gradient", v[1], gradm(q, "L", p, m))
                else:
                    chk.ob("value-and-gradient", where(P, c, "vgQ"), nm, "undecided", getattr(v, "why", "not a pair"))
        # second derivatives at a concrete size
        pc, mc = num(3), num(2)
        I = Interp(P)
        o = build(P, I, c, pc, mc, tag, W=tag != "no W")
        Lc = mat_sym("L", pc, mc)
        if isinstance(o, Top):
            continue
        if "k1" in o.attrs and tag == tags[0]:
            for k in ("k1", "k2", "k3", "k4"):
                o.attrs[k] = sym(k, dom="real")
        q = safe(call, I, o, "Q", Lc)
        if q is None or isinstance(q, Top):
            continue
        ql = tm.asnum(as_tensor(q).elem)
        at = lambda t, i, j: tm.diff(t, "L", (num(i), num(j)))
        for name in ("d2Q", "d2Q_apply"):
            if not P.find_method(c, name) or is_stub(P, c, name):
                continue
            if name == "d2Q":
                v = safe(call, I, o, name, Lc)
            else:
                y = Tensor((num(6),), sym("Yv", AX[0]))
                DOM["Yv"] = "real"
                v = safe(call, I, o, name, Lc, y)
            for a in range(6):
                i, j = a % 3, a // 3
                g = at(ql, i, j)
                if name == "d2Q":
                    for b in range(6):
                        compare(chk, "hessian", where(P, c, name), "%s %s [%d,%d]" % (c.name, tag, a, b), pick(v, a, b), at(g, b % 3, b // 3))
                else:
                    ref = tm.add(*[tm.mul(at(g, b % 3, b // 3), sym("Yv", num(b))) for b in range(6)])
                    compare(chk, "hessian", where(P, c, name), "%s %s [%d]" % (c.name, tag, a), pick(v, a), ref)
        # methods of rotation-method objects: derivative in the rotation matrix, constraint Jacobians
        for rt in ("ortho", "oblique"):
            if not (P.find_method(c, "df") and P.find_method(c, "f")):
                continue
            I = Interp(P)
            o = build(P, I, c, pc, mc, tag, rt, W=tag != "no W")
            if isinstance(o, Top):
                continue
            T = mat_sym("T", mc, mc)
            f, df = safe(call, I, o, "f", T), safe(call, I, o, "df", T)
            fl = None if f is None or isinstance(f, Top) else tm.asnum(as_tensor(f).elem)
            for i in range(2):
                for j in range(2):
                    what = "%s %s %s T[%d,%d]" % (c.name, tag, rt, i, j)
                    compare(chk, "chain", where(P, c, "df"), what, pick(df, i, j), f if fl is None else tm.diff(fl, "T", (num(i), num(j))))
            for cons, der, need in (("ortho_constraints", "dC_dL_Ortho", "ortho"), ("oblique_constraints", "dC_dL_Obl", "oblique")):
                if rt != need or not P.find_method(c, der) or tag != tags[0]:
                    continue
                Phi = mat_sym("Phi", mc, mc)
                DOM["Phi"] = ("symmetric",)
                C, J = safe(call, I, o, cons, Lc, Phi), safe(call, I, o, der, Lc, Phi)
                for u in range(2):
                    for v_ in range(2):
                        if need == "oblique" and u == v_:
                            continue
                        cv = pick(C, u, v_)
                        if isinstance(cv, Top):
                            chk.ob("constraint", where(P, c, der), "%s [%d,%d]" % (c.name, u, v_), "undecided", cv.why)
                            continue
                        ce = tm.asnum(as_tensor(cv).elem)
                        for i in range(3):
                            for r in range(2):
                                jv = pick(J, u, v_, i, r) if need == "oblique" else pick(J, u + 2 * v_, i + 3 * r)
                                compare(chk, "constraint", where(P, c, der), "%s C[%d,%d] L[%d,%d]" % (c.name, u, v_, i, r),
                                        jv, tm.diff(ce, "L", (num(i), num(r))), prove=False)


def rotations(chk, P, crits):
    """rotation classes offering grad/constraint/d_constraint for any criterion"""
    for c in P.all_classes():
        if not (P.find_method(c, "rotated_loadings") and P.find_method(c, "constraint") and P.find_method(c, "d_constraint")):
            continue
        p, m = num(3), num(2)
        for cc in crits:
            ini = P.find_method(cc, "__init__")
            if not P.find_method(cc, "d2Q_apply"):
                continue
            I = Interp(P)
            o = safe(I.instantiate, c, [m], {})
            q = build(P, I, cc, p, m, "varimax")
            if isinstance(o, Top) or isinstance(q, Top):
                chk.ob("constraint", where(P, c, "constraint"), cc.name, "undecided", (o if isinstance(o, Top) else q).why)
                continue
            A, T, L = mat_sym("A", p, m), mat_sym("T", m, m), mat_sym("L", p, m)
            R = safe(call, I, o, "rotated_loadings", A, T)
            if not isinstance(R, Top):
                val = safe(call, I, q, "Q", R)
                dq = safe(call, I, q, "dQ", R)
                g = safe(call, I, o, "grad", A, T, dq)
                for i in range(2):
                    for j in range(2):
                        compare(chk, "chain", where(P, c, "grad"), "%s T[%d,%d]" % (cc.name, i, j), pick(g, i, j),
                                val if isinstance(val, Top) else tm.diff(tm.asnum(as_tensor(val).elem), "T", (num(i), num(j))), prove=False)
            # the factor correlation is a symmetric matrix parameterised by its lower triangle
            ph = sym("ph", dom=("range", "-0.6", "0.6"))
            DOM["ph"] = ("range", "-0.6", "0.6")
            Phi = safe(stack_values, [safe(stack_values, [num(1), ph]), safe(stack_values, [ph, num(1)])])
            C = safe(call, I, o, "constraint", L, Phi, q)
            D = safe(call, I, o, "d_constraint", L, Phi, q)
            if isinstance(C, Top) or not isinstance(D, tuple):
                chk.ob("constraint", where(P, c, "d_constraint"), cc.name, "undecided", getattr(C, "why", "") or getattr(D, "why", "no pair"))
                continue
            try:
                nc = int(tm.nval(tm.asnum(num(as_tensor(C).dims[0]))))
            except Exception:
                chk.ob("constraint", where(P, c, "d_constraint"), cc.name, "undecided", "constraint length not constant")
                continue
            for k in range(nc):
                ck = pick(C, k)
                if isinstance(ck, Top):
                    chk.ob("constraint", where(P, c, "d_constraint"), "%s %d" % (cc.name, k), "undecided", ck.why)
                    continue
                ce = tm.asnum(as_tensor(ck).elem)
                for a in range(6):
                    compare(chk, "constraint", where(P, c, "d_constraint"), "%s %d L %d" % (cc.name, k, a), pick(D[0], k, a),
                            tm.diff(ce, "L", (num(a % 3), num(a // 3))), prove=False)
                compare(chk, "constraint", where(P, c, "d_constraint"), "%s %d Phi" % (cc.name, k), pick(D[1], k, 0), tm.diff(ce, "ph", ()), prove=False)
