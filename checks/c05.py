"""C05 closed-form distributions: density, log-density, distribution function, quantile and derivatives."""
import itertools
import re
from sa.harness import *
from sa.check import Check
from sa import terms as tm

ALIAS = {"mu": "m", "sigma": "s", "nu": "v", "tau": "t"}
PARDOM = {"m": "real", "s": "pos", "v": "real", "t": "pos"}
ARG = ("x", "y")
DER = re.compile(r"^_?d(\d?)(?:logpdf|loglike)$")
PARTIAL = re.compile(r"^_?d(\d?)L((?:_d[a-z]+\d?)+)$")


def pars(node, skip=0):
    a = node.args
    return [x.arg for x in a.args][skip:] + [x.arg for x in a.kwonlyargs]


def canon(n):
    return ALIAS.get(n, n)


class Dist:
    """one module's functions over one set of symbols"""

    def __init__(self, P, mod, I, logscale):
        self.P, self.mod, self.I = P, mod, I
        self.n = dim("n", 2)
        self.y = Tensor((self.n,), sym("y", AX[0]))
        self.q = Tensor((self.n,), sym("q", AX[0]))
        DOM["y"], DOM["q"] = "real", "unit"
        self.vals = {}
        for k in "msvt":
            d = PARDOM[k] if not logscale else "real"
            self.vals[k] = sym(k, dom=d)
            DOM[k] = d

    def argfor(self, n, names):
        if n in ARG:
            return self.y
        if n in ("q", "p"):
            return self.q
        return self.vals.get(canon(n))

    def call(self, name, **fix):
        f = self.I.lookup(name, self.I.modenv(self.mod))
        node = f.node
        ps = pars(node)
        kw = {}
        for p in ps:
            if p in fix:
                kw[p] = fix[p]
            else:
                v = self.argfor(p, ps)
                if v is not None:
                    kw[p] = v
        try:
            return self.I.call(f, [], kw, None)
        except Raised as e:
            return Top("raises: " + e.what)
        except RecursionError:
            return Top("recursion")


def functions(mod):
    return {st.name: st for st in mod.tree.body if isinstance(st, ast.FunctionDef)}


def multisets(k, r):
    return list(itertools.combinations_with_replacement(range(k), r))


def derivative(v, names):
    for n in names:
        v = d_elem(v, n, ())
    return v


def column(v, c):
    if isinstance(v, Top):
        return v
    t = as_tensor(v)
    try:
        return getitem(t, (Ellipsis, num(c)))
    except Exception as e:
        return Top("column %d: %s" % (c, e))


def ncols(v):
    t = as_tensor(v)
    if not t.rank:
        return None
    return tm.nval(tm.asnum(num(t.dims[-1]))) if tm.isnum(num(t.dims[-1])) else None


def run():
    chk = Check("C05", floor=120, explanation=(
        "Every function of the closed-form distribution modules is abstractly interpreted on a symbolic argument vector and "
        "symbolic parameters.  Each entry of each derivative array is compared with the formal partial derivative of the "
        "log-density's own abstract value; density, distribution function, quantile and moments are compared with each other."),
        rules={"log-density": "pdf == exp(logpdf)", "distribution": "d cdf / dx == pdf", "quantile": "cdf(quantile(q)) == q",
               "partial-derivative": "k-th order array entry == partial derivative of the log-density",
               "array-shape": "one column per multiset of parameters", "moments": "mean/variance/skew/kurtosis agree with each other"})
    P = Project()
    I = Interp(P)
    for mod in sorted(P.modules.values(), key=lambda m: m.name):
        fns = functions(mod)
        base = next((b for b in ("logpdf", "_logpdf") if b in fns), None)
        lower = [f for f in fns if re.match(r"^_logpdf\d$", f)]
        if base is None or "y" not in pars(fns[base]) and "x" not in pars(fns[base]):
            continue
        distribution(chk, P, mod, fns, base)
    return chk.finish()


def uses_log_parameters(D, name):
    """the scale parameter enters exponentiated: admissible on the whole line"""
    v = D.call(name, derivs=num(0))
    if isinstance(v, Top):
        return None
    hit = []

    def walk(t, seen):
        if not isinstance(t, tm.T) or t in seen:
            return
        seen.add(t)
        if t.op == "fn" and t.args[0] == "exp" and t.args[1].op == "sym" and t.args[1].args[0] == "s":
            hit.append(1)
        for c in tm.children(t):
            walk(c, seen)
    walk(tm.asnum(as_tensor(v).elem), set())
    return bool(hit)


def distribution(chk, P, mod, fns, base):
    I = Interp(P)
    D = Dist(P, mod, I, False)
    lg = uses_log_parameters(D, base)
    if lg:
        D = Dist(P, mod, I, True)
    fw = lambda f: "%s:%s" % (mod.relpath, f)
    short = mod.name.split(".")[-1]
    L = D.call(base, derivs=num(0))
    if isinstance(L, Top):
        chk.ob("log-density", fw(base), short, "undecided", L.why)
        return
    order = [canon(p) for p in pars(fns[base]) if canon(p) in D.vals]
    A = (AX[0],)
    cmp = lambda rule, f, what, a, b, **k: compare(chk, rule, fw(f), "%s %s" % (short, what), a, b, **k)

    def array(rule_f, what, v, r, names):
        ms = multisets(len(names), r)
        if isinstance(v, Top) or v is None:
            chk.ob("partial-derivative", fw(rule_f), short + " " + what, "violated" if getattr(v, "definite", False) else "undecided", getattr(v, "why", ""))
            return
        c = ncols(v)
        if c is not None and int(c) != len(ms):
            chk.ob("array-shape", fw(rule_f), short + " " + what, "violated", "%s columns, %d partial derivatives of order %d" % (c, len(ms), r))
            return
        chk.ob("array-shape", fw(rule_f), short + " " + what, "ok")
        for j, mset in enumerate(ms):
            nm = [names[i] for i in mset]
            prove = r <= 2
            cmp("partial-derivative", rule_f, "%s %s" % (what, "".join(nm)), column(v, j), derivative(L, nm), prove=prove, tol=tm.mp.mpf(10) ** -9)

    # derivative functions
    for f, node in fns.items():
        m = DER.match(f)
        if m:
            array(f, "order %s" % (m.group(1) or 1), D.call(f), int(m.group(1) or 1), [canon(p) for p in pars(node) if canon(p) in D.vals])
        m = PARTIAL.match(f)
        if m:
            names = []
            for s, k in re.findall(r"_d([a-z]+)(\d?)", m.group(2)):
                names += [canon(s)] * int(k or 1)
            if all(n in D.vals for n in names) and len(names) == int(m.group(1) or 1):
                cmp("partial-derivative", f, "".join(names), D.call(f), derivative(L, names))
    if "derivs" in pars(fns[base]):
        for r in range(1, 5):
            v = D.call(base, derivs=num(r))
            if not isinstance(v, (tuple, list)):
                chk.ob("partial-derivative", fw(base), "%s derivs=%d" % (short, r), "undecided", getattr(v, "why", "not a tuple"))
                continue
            if len(v) != r + 1:
                chk.ob("array-shape", fw(base), "%s derivs=%d" % (short, r), "violated", "%d values returned" % len(v))
                continue
            cmp("partial-derivative", base, "derivs=%d log-density" % r, v[0], L)
            for k in range(1, r + 1):
                array(base, "derivs=%d order %d" % (r, k), v[k], k, order)
    # gradients and Hessians over a parameter vector
    th = None
    for f, node in fns.items():
        ps = pars(node)
        if "theta" in ps and f in ("_grad", "_hess", "_grad_elementwise", "_hess_elementwise", "grad", "hess"):
            tho = [D.vals[k] for k in "msvt"]
            v = D.call(f, theta=tuple(tho))
            elem = f.endswith("elementwise")
            for i, a in enumerate("msvt"):
                d1 = d_elem(L, a, ())
                if "grad" in f:
                    cmp("partial-derivative", f, a, column(v, i), d1 if elem else total(d1))
                else:
                    for j, b in enumerate("msvt"):
                        d2 = d_elem(d1, b, ())
                        x = column(column(v, i), j) if elem else (v if isinstance(v, Top) else getitem(as_tensor(v), (num(i), num(j))))
                        cmp("partial-derivative", f, a + b, x, d2 if elem else total(d2))
    used = tm.symnames(tm.asnum(as_tensor(L).elem))
    # classes that wrap the module's functions
    for c in mod.classes.values():
        for mname in sorted(c.methods):
            mm = re.match(r"^d?(\d?)loglike$", mname)
            if not mm:
                continue
            wh = "%s:%s.%s" % (mod.relpath, c.name, mname)
            ps = pars(c.methods[mname])
            if ps and ps[0] == "self":
                ps = ps[1:]
            try:
                f = I.getattr(ClassVal(c), mname)
                v = I.call(f, [], {p: D.argfor(p, ps) for p in ps if D.argfor(p, ps) is not None}, None)
            except Raised as e:
                v = Top("raises " + e.what, definite="TypeError" in e.what)
            r = int(mm.group(1) or 1) if mname[0] == "d" else 0
            if isinstance(v, Top):
                chk.ob("partial-derivative", wh, short, "violated" if v.definite else "undecided", v.why)
            elif r == 0:
                compare(chk, "partial-derivative", wh, short + " log-density", v, L)
            else:
                names = [canon(p) for p in ps if canon(p) in D.vals and canon(p) in used]
                ms = multisets(len(names), r)
                if len(ms) == (int(ncols(v)) if ncols(v) is not None else None):
                    nm = [names[i] for i in ms[-1]]
                    compare(chk, "partial-derivative", wh, short + " " + "".join(nm), column(v, len(ms) - 1), derivative(L, nm), prove=False)
                else:
                    chk.ob("array-shape", wh, short, "violated", "%s columns for %d partial derivatives" % (ncols(v), len(ms)))
    # density, distribution function and quantile
    pick = lambda *ns: next((n for n in ns if n in fns), None)
    pdf, cdf, qf = pick("pdf", "_pdf"), pick("cdf", "_cdf"), pick("inverse_cdf", "ppf", "_ppf", "_qtf", "qtf")
    if pdf:
        cmp("log-density", pdf, "pdf", m1(lambda t: tm.fn("exp", t), L), D.call(pdf))
    if cdf:
        C = D.call(cdf)
        cmp("distribution", cdf, "cdf", d_elem(C, "y", A), m1(lambda t: tm.fn("exp", t), L))
        if qf:
            Q = D.call(qf)
            C2 = Q if isinstance(Q, Top) else D.call(cdf, **{ARG[1] if "y" in pars(fns[cdf]) else "x": Q})
            cmp("quantile", qf, "round trip", C2, D.q)
    med = pick("median", "_median")
    if med and qf:
        half = num("1/2") if False else tm.power(num(2), num(-1))
        q2 = D.call(qf, p=half, q=half)
        cmp("quantile", med, "median", D.call(med), q2)
    # moments
    mo = pick("moments")
    mean, var = pick("mean", "_mean"), pick("variance", "_variance")
    if mo:
        M = D.call(mo)
        if isinstance(M, tuple) and len(M) == 4:
            e1, e2, e3, e4 = M
            if mean:
                cmp("moments", mean, "mean", D.call(mean), e1)
            v_ = m1(lambda a, b: tm.sub(b, tm.power(a, num(2))), e1, e2)
            if var:
                cmp("moments", var, "variance", D.call(var), v_)
            mu3 = m1(lambda a, b, c: tm.add(c, tm.mul(num(-3), a, b), tm.mul(num(2), tm.power(a, num(3)))), e1, e2, e3)
            mu4 = m1(lambda a, b, c, d: tm.add(d, tm.mul(num(-4), a, c), tm.mul(num(6), a, a, b), tm.mul(num(-3), tm.power(a, num(4)))), e1, e2, e3, e4)
            h = tm.div(num(3), num(2))
            sk = m1(lambda v, c: tm.mul(c, tm.power(v, tm.neg(h))), v_, mu3)
            ku = m1(lambda v, c: tm.mul(c, tm.power(v, num(-2))), v_, mu4)
            for nme, ref in (("skew", sk), ("skewness", sk), ("kurt", ku), ("kurtosis", ku),
                             ("excess_kurtosis", m1(lambda k: tm.sub(k, num(3)), ku))):
                if nme in fns:
                    cmp("moments", nme, nme, D.call(nme), ref, prove=False)


def m1(f, *vs):
    for v in vs:
        if v is None or isinstance(v, Top):
            return v
    return elementwise(f, *[as_tensor(v) for v in vs])


def total(v):
    if isinstance(v, Top):
        return v
    t = as_tensor(v)
    while t.rank:
        t = as_tensor(reduce_sum(t, 0))
    return t
