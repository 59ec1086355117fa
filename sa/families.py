"""Abstract evaluation of exponential-family objects with an unspecified (opaque) link."""
from .harness import *
from . import terms as tm
from mpmath import mp

GN = "G_link"


def _gnum(orders, x):
    """an arbitrary smooth increasing function standing in for the link"""
    k = orders[0]
    a, b = mp.mpf("1.37"), mp.mpf("0.71")
    base = [2 * x + mp.mpf("0.3") * x * x, 2 + mp.mpf("0.6") * x, mp.mpf("0.6")]
    r = base[k] if k < 3 else mp.mpf(0)
    return r + b * a ** k * mp.sin(a * x + k * mp.pi / 2)


tm.OPAQUE[GN] = _gnum
HN = "H_invlink"


def _hnum(orders, x):
    k = orders[0]
    a, b = mp.mpf("1.13"), mp.mpf("0.43")
    base = [mp.mpf("1.6") + mp.mpf("0.9") * x, mp.mpf("0.9")]
    r = base[k] if k < 2 else mp.mpf(0)
    return r + b * a ** k * mp.sin(a * x + k * mp.pi / 2)


tm.OPAQUE[HN] = _hnum


class OpaqueLink:
    """link/inv_link and derivatives as uninterpreted functions; inverse-function rule applied when
    an inverse derivative is taken at link(mu) and vice versa"""
    FWD = {"link": 0, "dlink": 1, "d2link": 2, "d3link": 3, "d4link": 4, "d5link": 5}
    INV = {"inv_link": 0, "dinv_link": 1, "d2inv_link": 2, "d3inv_link": 3, "d4inv_link": 4}

    def __init__(self, g=GN, h=HN):
        self.g, self.h = g, h

    def rule(self, mine, other, k, e):
        if e.op == "ofn" and e.args[0] == other and e.args[1] == (0,):
            x = e.args[2]
            d = [tm.ofn(other, (j,), x) for j in range(6)]
            if k == 0:
                return x
            # derivatives of the inverse function
            v = tm.power(d[1], num(-1))
            if k == 1:
                return v
            if k == 2:
                return tm.mul(num(-1), d[2], tm.power(d[1], num(-3)))
            if k == 3:
                return tm.mul(tm.sub(tm.mul(num(3), tm.power(d[2], num(2))), tm.mul(d[1], d[3])), tm.power(d[1], num(-5)))
        return tm.ofn(mine, (k,), e)

    def getattr(self, I, o, attr):
        if attr in self.FWD:
            mine, other, k = self.g, self.h, self.FWD[attr]
        elif attr in self.INV:
            mine, other, k = self.h, self.g, self.INV[attr]
        else:
            return MISSING

        def f(x, *a, **kw):
            if isinstance(x, Top):
                return x
            t = as_tensor(x)
            return ret(Tensor(t.dims, self.rule(mine, other, k, t.elem), t.mask))
        return PyFunc(f)


def opaque_link(P, module, g=GN, h=HN):
    """an object that passes isinstance(_, Link) of the Link class that module sees"""
    r = P.lookup(module, "Link")
    return Obj(r[1] if r and r[0] == "class" else None, opaque=OpaqueLink(g, h))


def family_classes(P):
    """concrete response families: a likelihood and a variance function"""
    out = []
    for c in P.all_classes():
        if P.find_method(c, "_loglike") and P.find_method(c, "var_func") and not is_stub(P, c, "_loglike"):
            out.append(c)
    return out


class Fam:
    """one family instance with symbolic data; DOMS gives the domain variants of the response"""
    YDOM = {"Gaussian": ["real"], "InverseGaussian": ["pos"], "Gamma": ["pos"], "NegativeBinomial": ["count", "pos"],
            "Poisson": ["count", "pos"], "Binomial": ["bin", "unit"]}
    MDOM = {"Gaussian": "real", "Binomial": "unit"}

    def __init__(self, P, c, own='w'):
        self.P, self.c = P, c
        self.I = Interp(P)
        ini = P.find_method(c, "__init__")
        self.n = dim("n", 2)
        self.y, self.mu, self.w = (vec(k, "real", self.n) for k in ("y", "mu", "w"))
        DOM["w"] = "pos"
        self.phi, self.disp = scal("phi"), scal("disp")
        mod = [m for k in P.mro(c) for m in [P.find_method(k, "__init__")] if m]
        lk = None
        for m, _ in mod:
            r = P.lookup(m.module, "Link")
            if r and r[0] == "class":
                lk = opaque_link(P, m.module)
                break
        kw = {}
        pr = params_of(P, c, "__init__")[0] if ini else []
        if "link" in pr:
            kw["link"] = lk
        if "weights" in pr:
            kw["weights"] = vec(own, "pos", self.n)
        self.o = self.I.instantiate(c, [], kw)
        self.avail = dict(y=self.y, mu=self.mu, weights=self.w, phi=self.phi, scale=self.phi, dispersion=self.disp)
        L = self.get("_loglike")
        self.L = L
        fs = tm.symnames(L.elem) if isinstance(L, Tensor) else set()
        # the nuisance parameter the likelihood really uses
        self.nuis = "disp" if "disp" in fs else ("phi" if "phi" in fs else None)
        m = P.find_method(c, "var_func")
        if self.nuis == "phi":
            V = self.get("var_func")
            if isinstance(V, Tensor) and "phi" in tm.symnames(V.elem):
                self.nuis = "shape"      # the argument called scale is the family's shape parameter
        base = c.name
        self.ydoms = self.YDOM.get(base, ["pos"])
        self.over = {"mu": self.MDOM.get(base, "pos")}

    def get(self, name, **over):
        if self.shape_default(name):
            over = {**over, "phi": num(1), "scale": num(1)}
        return fcall(self.I, self.o, name, **{**self.avail, **over})

    def shape_default(self, name):
        """the method has no argument for the family's shape parameter: it speaks of its default value"""
        return getattr(self, "nuis", None) == "shape" and "scale" not in (params_of(self.P, self.c, name) or ([],))[0]

    def overs(self):
        return [dict(self.over, y=d) for d in self.ydoms]


def params_of(P, cls, name):
    m = P.find_method(cls, name)
    if not m:
        return None
    a = m[1].args
    return [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs], a.kwarg is not None


def fcall(I, o, name, **avail):
    """call method with the available keyword values its signature accepts"""
    pr = params_of(I.p, o.cls, name)
    if pr is None or is_stub(I.p, o.cls, name):
        return None
    kw = {k: v for k, v in avail.items() if k in pr[0]}
    return call(I, o, name, **kw)
