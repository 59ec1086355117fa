"""C01 link functions: inverse and derivative chains."""
from sa.harness import *
from sa.check import Check

FWD = ["link", "dlink", "d2link", "d3link", "d4link", "d5link"]
INV = ["inv_link", "dinv_link", "d2inv_link", "d3inv_link", "d4inv_link"]


def run():
    chk = Check("C01", floor=100, explanation=(
        "Every class of the package that defines link/inv_link is abstractly interpreted from its syntax tree on a "
        "symbolic vector argument with symbolic constructor parameters; each offered derivative is compared with the "
        "formal derivative of the base map, and inv_link(link(mu)) with mu, by normal form (proved) or, failing that, "
        "by an identity test of the residual term (agrees)."),
        rules={"inverse": "inv_link(link(mu)) == mu", "forward-derivative": "d^k link / d mu^k == d{k}link",
               "inverse-derivative": "d^k inv_link / d eta^k == d{k}inv_link"})
    P = Project()
    nd = dim("n", 2)
    eta = Tensor((nd,), sym("eta", AX[0], dom="real"))
    mu = Tensor((nd,), sym("mu", AX[0], dom="unit"))
    classes = [c for c in P.all_classes() if P.find_method(c, "inv_link") and
               (P.find_method(c, "link") or P.find_method(c, "dinv_link"))]
    for c in classes:
        if is_stub(P, c, "inv_link"):
            continue
        base_kw, syms = init_args(P, c)
        variants = [("", base_kw)]
        tried = set()
        while variants:
            tag, kw = variants.pop(0)
            I = Interp(P)
            try:
                o = I.instantiate(c, [], dict(kw))
            except Raised as e:
                chk.ob("construct", "%s:%s" % (c.module.relpath, c.name), tag, "undecided", e.what)
                continue
            vals = {}
            for chain, x in ((FWD, mu), (INV, eta)):
                for m in chain:
                    if P.find_method(c, m) and not is_stub(P, c, m):
                        vals[m] = call(I, o, m, x)
            # special constants the code compares a constructor parameter with become extra configurations
            for v in vals.values():
                if isinstance(v, Tensor):
                    for nm, s in syms:
                        for k in special_constants(v.elem, s):
                            if (nm, k) not in tried:
                                tried.add((nm, k))
                                variants.append((tag + " %s=%s" % (nm, k), {**kw, nm: num(k)}))
            for over in ({"mu": "unit"}, {"mu": "pos"}):
                for chain, x, s, rule in ((FWD, mu, "mu", "forward-derivative"), (INV, eta, "eta", "inverse-derivative")):
                    if s == "eta" and over["mu"] == "pos":
                        continue
                    b = vals.get(chain[0])
                    if b is None:
                        continue
                    d = b
                    for m in chain[1:]:
                        d = d_elem(d, s, (AX[0],))
                        if m in vals:
                            wh = where(P, c, m)
                            what = "%s%s%s" % (c.name, tag, " (mean>0)" if over["mu"] == "pos" else "")
                            sub_ob(chk, rule, wh, what, d, vals[m], over, optional=over["mu"] == "pos")
                if vals.get("link") is not None and vals.get("inv_link") is not None:
                    lk = vals["link"]
                    rt = lk if isinstance(lk, Top) else call(I, o, "inv_link", lk)
                    sub_ob(chk, "inverse", where(P, c, "inv_link"), "%s%s%s" % (c.name, tag, " (mean>0)" if over["mu"] == "pos" else ""),
                           rt, mu, over, optional=over["mu"] == "pos")
    return chk.finish()


def sub_ob(chk, rule, wh, what, a, b, over, optional):
    n = len(chk.obs)
    compare(chk, rule, wh, what, a, b, over=over)
    # the positive-mean repetition only adds points: drop it when the link is not defined there
    if optional and len(chk.obs) > n and chk.obs[-1]["status"] in ("undecided", "proved"):
        chk.obs.pop()


def special_constants(t, s):
    out = set()
    from sa.normal import gates, atoms_of
    at = []
    for g in gates(t):
        atoms_of(g, at)
    for c in at:
        if c.args[0] == "==":
            a, b = c.args[1], c.args[2]
            for x, y in ((a, b), (b, a)):
                if x.op == "sym" and x.args[0] == s and y.op == "num":
                    out.add(y.args[0])
    return sorted(out)
