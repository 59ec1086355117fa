"""C02 variance functions and their derivatives."""
from sa.harness import *
from sa.families import *
from sa.check import Check

NAMES = ["var_func", "dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4"]


def run():
    chk = Check("C02", floor=40, explanation=(
        "Every class offering a variance function together with derivatives is abstractly interpreted on a symbolic mean "
        "vector and symbolic shape parameter; each offered derivative, alone or bundled by var_derivs, is compared with the "
        "formal derivative of var_func's abstract value by normal form or, failing that, an identity test of the residual."),
        rules={"variance-derivative": "d{k}var_dmu{k}(mu) == d^k var_func / d mu^k",
               "bundled-derivative": "var_derivs(mu, order)[k] == d^k var_func / d mu^k"})
    P = Project()
    for c in P.all_classes():
        if not P.find_method(c, "var_func") or is_stub(P, c, "var_func"):
            continue
        F = Fam(P, c)
        d = F.get("var_func")
        derivs = [d]
        for k in range(1, 5):
            d = d_elem(d, "mu", (AX[0],))
            derivs.append(d)
            v = F.get(NAMES[k])
            if v is not None:
                compare(chk, "variance-derivative", where(P, c, NAMES[k]), c.name, v, d, over=F.over)
        for order in range(5):
            v = F.get("var_derivs", order=num(order))
            if v is None:
                continue
            wh = where(P, c, "var_derivs")
            vs = v if isinstance(v, (tuple, list)) else [v]
            if isinstance(v, Top):
                chk.ob("bundled-derivative", wh, "%s order %d" % (c.name, order), "violated" if v.definite else "undecided", v.why)
                continue
            if len(vs) != order + 1:
                chk.ob("bundled-derivative", wh, "%s order %d length" % (c.name, order), "violated",
                       "%d values returned for order %d" % (len(vs), order))
            for k, x in enumerate(vs[:order + 1]):
                compare(chk, "bundled-derivative", wh, "%s order %d element %d" % (c.name, order, k), x, derivs[k], over=F.over)
    return chk.finish()
