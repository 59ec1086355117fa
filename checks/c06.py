"""C06 robust losses: psi, phi, weights, chi and expectations come from rho."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa.decide import Point, equal
from mpmath import mp

A = (AX[0],)


def m1(f, *vs):
    for v in vs:
        if v is None or isinstance(v, Top):
            return v
    return elementwise(f, *[as_tensor(v) for v in vs])


def run():
    chk = Check("C06", floor=14, explanation=(
        "Every class offering rho and psi of one residual argument is abstractly interpreted on a symbolic residual vector "
        "and a symbolic tuning constant; psi, phi, weights, chi and the normal expectations are compared with what rho's "
        "abstract value implies, branch by branch."),
        rules={"influence": "psi == rho_norm * d rho/dx", "influence-derivative": "phi == d psi/dx", "weight": "x * weights == psi",
               "chi": "chi(x, deriv=k) == d^k rho/dx^k", "expectation": "E_f integrates f against the normal density",
               "tuning": "a tuning constant given to the constructor is the one used by every method"})
    P = Project()
    losses = set()
    for c in P.all_classes():
        if not (P.find_method(c, "rho") and P.find_method(c, "psi")):
            continue
        a = [x.arg for x in P.find_method(c, "rho")[1].args.args]
        if len(a) < 2 or a[1] != "x":
            continue
        loss(chk, P, c)
        losses.add(c.qual)
    # models built on a loss hand their tuning constant on
    for c in P.all_classes():
        m = P.find_method(c, "__init__")
        if not m or c.qual in losses or "c" not in [q.arg for q in m[1].args.args] or "/pyrobust/" not in c.module.relpath:
            continue
        I = Interp(P)
        k = scal("c")
        names = [q.arg for q in m[1].args.args][1:]
        try:
            o = I.instantiate(c, [], {nm: (k if nm == "c" else Top("data")) for nm in names})
        except Raised as e:
            chk.ob("tuning", where(P, c, "__init__"), c.name, "undecided", e.what)
            continue
        found = [v for v in o.attrs.values() if isinstance(v, Obj) and v.cls is not None and v.cls.qual in losses]
        for f in found:
            x = vec("x", "real", dim("n", 3))
            v = call(I, f, "psi", x)
            if isinstance(v, Top):
                chk.ob("tuning", where(P, c, "__init__"), c.name, "undecided", v.why)
            else:
                chk.ob("tuning", where(P, c, "__init__"), c.name, "ok" if "c" in tm.symnames(tm.asnum(as_tensor(v).elem)) else "violated",
                       "the loss does not depend on the constant given to the constructor")
        if not found:
            chk.ob("tuning", where(P, c, "__init__"), c.name, "undecided", "no loss attribute")
    return chk.finish()


def loss(chk, P, c):
    n = dim("n", 3)
    x = vec("x", "real", n)
    DOM["x"] = "real"
    k = scal("c")
    I = Interp(P)
    o = I.instantiate(c, [], {})
    con = "c" in ([q.arg for q in P.find_method(c, "__init__")[1].args.args] if P.find_method(c, "__init__") else [])
    W = lambda m: where(P, c, m)
    over = {"x": "real", "c": ("range", "0.5", "2.5")}
    has = lambda m: P.find_method(c, m) and not is_stub(P, c, m)
    g = lambda m, *a, **kw: call(I, o, m, *a, **kw) if has(m) else None
    rho, psi, phi, wt = g("rho", x, c=k), g("psi", x, c=k), g("phi", x, c=k), g("weights", x, c=k)
    nrm = g("rho_norm", c=k) if has("rho_norm") else num(1)
    D = lambda v: d_elem(v, "x", A)

    def cmp(rule, m, what, a, b, **kw):
        if a is None or b is None:
            return
        compare(chk, rule, W(m), "%s %s" % (c.name, what), a, b, over=over, **kw)
    if rho is None or isinstance(rho, Top):
        chk.ob("influence", W("rho"), c.name, "undecided", getattr(rho, "why", ""))
        return
    cmp("influence", "psi", "psi is the scaled slope of rho", psi, m1(lambda r, q: tm.mul(q, r), D(rho), nrm))
    cmp("influence-derivative", "phi", "phi is the slope of psi", phi, D(psi))
    cmp("weight", "weights", "weight is psi over its argument", m1(tm.mul, wt, x), psi)
    if P.find_method(c, "chi"):
        d = rho
        for r in range(3):
            if r and not has("rho_norm"):
                break
            try:
                v = call(I, o, "chi", x, num(r), k)
            except Raised as e:
                v = Top(e.what)
            cmp("chi", "chi", "derivative %d" % r, v, d)
            d = D(d)
    # expectations under the normal density: integrand rule, or quadrature of the extracted term
    z = sym("quad.x", dom="real")
    dens = tm.mul(tm.fn("exp", tm.mul(num(-1), tm.div(tm.power(z, num(2)), num(2)))),
                  tm.power(tm.mul(num(2), tm.PI), tm.div(num(-1), num(2))))
    for m, f, pw in (("E_rho", rho, 1), ("E_psi", psi, 1), ("E_phi", phi, 1), ("E_psi2", psi, 2)):
        if not has(m) or f is None or isinstance(f, Top):
            continue
        v = g(m, c=k)
        at = tm.subst(tm.asnum(as_tensor(f).elem), {}, {"x": lambda idx: z})
        integrand = tm.mul(tm.power(at, num(pw)), dens)
        if isinstance(v, Top):
            chk.ob("expectation", W(m), c.name, "violated" if v.definite else "undecided", v.why)
            continue
        if "quad.x" in tm.symnames(tm.asnum(as_tensor(v).elem)):
            cmp("expectation", m, "integrand", v, integrand)
            continue
        bad = None
        for cv in ("0.7", "1.345", "2.1"):
            cc = mp.mpf(cv)

            def f1(t):
                E = tm.Evaluator(lambda nm, ix: cc if nm == "c" else t)
                return E.ev(integrand, {})
            ref = mp.quad(f1, [-12, -cc, 0, cc, 12])
            got = tm.Evaluator(lambda nm, ix: cc).ev(tm.asnum(as_tensor(v).elem), {})
            if abs(ref - got) > mp.mpf(10) ** -9 * max(1, abs(ref)):
                bad = "c=%s: %s against %s" % (cv, mp.nstr(got, 10), mp.nstr(ref, 10))
        chk.ob("expectation", W(m), c.name + " closed form", "violated" if bad else "agrees", bad or "equals the quadrature of the extracted integrand")
    if con:
        I2 = Interp(P)
        o2 = I2.instantiate(c, [], {"c": k})
        for m, ref in (("rho", rho), ("psi", psi), ("phi", phi), ("weights", wt), ("rho_norm", nrm if has("rho_norm") else None)):
            if has(m):
                v = call(I2, o2, m, x) if m != "rho_norm" else call(I2, o2, m)
                cmp("tuning", m, "constructor's constant", v, ref)
