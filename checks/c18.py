"""C18: information criteria, likelihood ratios and pseudo R-squared follow their definitions"""
import ast
import re
import itertools
import sympy as sp
from sa import vn
from sa.check import Check
from sa.project import Project
from sa.scopes import functions
from checks.c19 import numval, zero, atoms

IC = {"aic": "aic", "aicc": "aicc", "bic": "bic", "caic": "caic"}
WORDS = re.compile(r"^(self\.)?(aic|aicc|bic|caic|_get_information|_get_pseudo_rsquared)$|r2_|R2|pseudo|rsq|LLR|lr_stat|ll_?ratio|rmsea|cfi|tli|nfi|ifi|rni|gfi|srmr", re.I)


def relevant(f):
    for n in ast.walk(f.node):
        s = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.arg if isinstance(n, ast.keyword) else \
            n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40 else None
        if s and WORDS.search(s):
            return True
    return False


def norm(lab):
    return re.sub(r"[^a-z0-9]", "", lab.split("/")[0].lower())


def deepzero(e):
    return zero(e)


class Fun:
    def __init__(self, P, chk, f):
        self.P, self.chk, self.f = P, chk, f

    def ob(self, rule, what, status, detail=""):
        self.chk.ob(rule, self.f.where, what, status, detail)

    def say(self, rule, what, e, detail=""):
        z = zero(e)
        self.ob(rule, what, "ok" if z else "violated", "" if z else "differs by %s %s" % (str(sp.expand(e))[:160], detail))

    # ---- information criteria of one namespace
    def criteria(self, ns, d):
        g = {}
        for k, v in d.items():
            n = norm(k)
            if n in IC and numval(v) and n not in g:
                g[n] = v
        if "aic" not in g and "bic" not in g:
            return
        # opaque subterms stay whole
        A, B, C, K = (g.get(x) for x in ("aic", "bic", "aicc", "caic"))
        n_, k_, dev = None, None, None
        if A is not None and B is not None:
            D = sp.expand(B - A)
            cand = []
            for L in atoms(D, "LOG"):
                k = D.coeff(L, 1)
                if not k.has(L):
                    cand.append((L, k))
            if not cand:
                self.ob("bic", ns + " bic - aic", "violated", "no log sample size term: BIC - AIC = %s" % str(D)[:150])
                return
            for L, k in cand:
                if zero(D - k * L + 2 * k):
                    n_, k_ = L.args[0], k
                    break
            if k_ is None:
                L, k = cand[0]
                self.ob("bic", ns + " bic - aic", "violated", "BIC - AIC = %s is not k*log(n) - 2k" % str(D)[:150])
                return
            self.ob("bic", ns + " bic - aic = k log n - 2k", "ok", "k = %s, n = %s" % (str(k_)[:40], str(n_)[:40]))
            dev = sp.expand(A - 2 * k_)
        if K is not None and B is not None:
            kk = sp.expand(K - B)
            if k_ is not None:
                self.say("caic", ns + " caic - bic = k", kk - k_)
        if C is not None and A is not None and k_ is not None:
            self.say("aicc", ns + " aicc - aic = 2k(k+1)/(n-k-1)", sp.together(C - A - 2 * k_ * (k_ + 1) / (n_ - k_ - 1)))
        if dev is not None:
            self.deviance(ns, d, dev, k_)

    def deviance(self, ns, d, dev, k_):
        """what is left after the penalty is twice the log-likelihood reported beside it"""
        if ns == "locals":
            return
        for k, v in d.items():
            n = norm(k)
            if n in ("llf", "loglikelihood", "loglike", "llfull", "llmodel", "llval", "loglik") and numval(v) and v != 0:
                ok = zero(dev + 2 * v) or zero(dev - 2 * v)
                self.ob("deviance", "%s criterion against %s" % (ns, k), "ok" if ok else "violated",
                        "" if ok else "%s is not twice %s = %s" % (str(dev)[:100], k, str(v)[:100]))

    def alone(self, ns, d):
        """an AIC without a BIC beside it: twice the reported log-likelihood and twice a parameter count"""
        g = {norm(k): v for k, v in d.items() if numval(v)}
        if "aic" not in g or "bic" in g:
            return
        A = g["aic"]
        for n in ("loglike", "llmodel", "llf", "loglikelihood"):
            if n in g and g[n].free_symbols:
                core = g[n].as_coeff_Mul()[1]
                D = sp.Dummy("ll")
                e = sp.expand(A.xreplace({core: D}), deep=False)
                c = e.coeff(D, 1)
                k = sp.expand((e - c * D) / 2)
                want = 2 / abs(g[n].as_coeff_Mul()[0])
                ok = abs(c) == abs(2 * g[n].as_coeff_Mul()[0]) and not k.has(D)
                self.ob("deviance", "%s aic against %s" % (ns, n), "ok" if ok else "violated", "" if ok else "coefficient %s" % c)
                for q in ("edf", "nparams", "k"):
                    if q in g and ok:
                        z = sp.expand(k - g[q])
                        ok2 = z.is_number and z.is_integer and z >= 0
                        self.ob("penalty", "%s aic counts %s" % (ns, q), "ok" if ok2 else "violated", "" if ok2 else "half the penalty is %s" % str(k)[:100])
                return

    # ---- likelihood ratio and pseudo R-squared
    def lrs(self, ns, d):
        for k, v in d.items():
            if not numval(v) or norm(k) not in LLR:
                continue
            e = sp.expand(v, deep=False)
            terms = sp.Add.make_args(e)
            if len(terms) != 2 or v.atoms(sp.Function) & set(atoms(v, "SF_")):
                continue
            cs = [t.as_coeff_Mul()[0] for t in terms]
            ok = sum(cs) == 0 and abs(cs[0]) == 2
            self.ob("ratio", "%s %s is twice a log-likelihood difference" % (ns, k), "ok" if ok else "violated", "" if ok else str(e)[:200])
            if ok:
                X = next(t.as_coeff_Mul()[1] for t in terms if t.as_coeff_Mul()[0] > 0)
                Y = next(t.as_coeff_Mul()[1] for t in terms if t.as_coeff_Mul()[0] < 0)
                self.pseudo(ns, d, X, Y)
                return
            L = [t.as_coeff_Mul()[1] for t in terms]
            self.pseudo(ns, d, *(L if cs[0] > 0 else L[::-1]))
            return

    def pseudo(self, ns, d, X, Y):
        g = {}
        for k, v in d.items():
            if numval(v):
                for name, labs in R2.items():
                    if re.sub(r"[^a-z0-9]", "", k.lower()) in labs:
                        g[name] = (k, v)
        ic = {norm(k): v for k, v in d.items() if norm(k) in IC and numval(v)}
        if not g:
            return
        DX, DY = sp.Dummy("X"), sp.Dummy("Y")
        T = {X: DX, Y: DY}
        vals = {k: v.xreplace(T) for k, (_, v) in g.items()}
        icv = {k: v.xreplace(T) for k, v in ic.items()}
        best = None
        for orient in (1, -1):
            # orient 1: leaves are negative log-likelihoods, X the null model; -1: log-likelihoods, X the full model
            L1, L0 = (-DY, -DX) if orient == 1 else (DX, DY)
            num = {DX: sp.Rational(807, 10), DY: sp.Rational(503, 10)} if orient == 1 else {DX: -sp.Rational(503, 10), DY: -sp.Rational(807, 10)}
            ns_, ks = self.counts(vals, icv, L1, L0)
            for n, k in itertools.product(ns_ or [None], ks or [None]):
                res = {}
                for name, v in vals.items():
                    e = formula(name, L1, L0, n, k)
                    if e is None:
                        continue
                    res[name] = same(v, e, num, n, k)
                if "aic" in icv and k is not None:
                    res["aic"] = same(icv["aic"], -2 * L1 + 2 * k, num, n, k)
                good = sum(1 for r in res.values() if r)
                if best is None or good > best[0]:
                    best = (good, res, orient, n, k)
        if best is None or best[0] == 0:
            self.ob("pseudo", ns, "undecided", "no reading of the likelihoods fits")
            return
        good, res, orient, n, k = best
        for name, r in sorted(res.items()):
            lab = g[name][0] if name in g else name
            self.ob("pseudo", "%s %s is the %s" % (ns, lab, TITLE[name]), "ok" if r else "violated" if r is False else "undecided",
                    "" if r else "value %s with log-likelihoods %s (n = %s, k = %s)" % (str(vals.get(name, icv.get(name)))[:150], "negated" if orient == 1 else "as stored", n, k))

    def counts(self, vals, icv, L1, L0):
        ns_, ks = [], []

        def leaf(e, out):
            e = sp.simplify(e)
            if e is not None and isinstance(e, (sp.Symbol, sp.Function)) and not e.has(sp.nan) and e not in out and not isinstance(e, sp.Dummy):
                out.append(e)
        for v in vals.values():
            for E_ in atoms(v, "EXP"):
                r = E_.args[0]
                if atoms(r, "LOG"):
                    continue
                for c in (2 * (L0 - L1), 2 * L0, (L0 - L1), L0):
                    leaf(c / r, ns_)
        if "an" in vals and not vals["an"].atoms(sp.Function) - set(ns_):
            leaf(2 * (L1 - L0) * (1 / vals["an"] - 1), ns_)
        if "mb" in vals:
            r = sp.expand(-L0 * (1 - vals["mb"]) + L1)
            for f in (1, -1, sp.Rational(1, 2), -sp.Rational(1, 2)):
                leaf(f * r, ks)
        if "aic" in icv and "bic" in icv:
            D = sp.expand(icv["bic"] - icv["aic"])
            for L in atoms(D, "LOG"):
                leaf(D.coeff(L, 1), ks)
                leaf(L.args[0], ns_)
        return ns_[:3], ks[:3]


LLR = ("llr", "lrstat", "llratio", "lr", "lrchi2")
R2 = {"cs": ("pseudor2cs", "r2cs", "r2coxsnell"), "nk": ("pseudor2n", "r2nk", "r2nagelkerke"), "mc": ("pseudor2mcf", "r2mc", "r2mcfadden"),
      "mb": ("pseudor2mcfa", "r2mb", "r2mcfaddenadj"), "an": ("pseudor2mfa", "r2an"), "es": ("r2es",), "ea": ("r2ea",), "vz": ("r2vz",)}
TITLE = {"cs": "Cox-Snell R-squared", "nk": "Nagelkerke R-squared", "mc": "McFadden R-squared", "mb": "adjusted McFadden R-squared (more parameters lower it)",
         "an": "Aldrich-Nelson R-squared", "es": "Estrella R-squared", "ea": "adjusted Estrella R-squared (more parameters lower it)",
         "vz": "Veall-Zimmermann R-squared", "aic": "minus twice the log-likelihood plus two per parameter"}


def formula(name, L1, L0, n, k):
    lr = 2 * (L1 - L0)
    if name in ("cs", "nk", "an", "es", "ea", "vz") and n is None or name in ("mb", "ea") and k is None:
        return None
    ex, lg = vn.EXP, vn.LOG
    if name == "cs":
        return 1 - ex(2 * (L0 - L1) / n)
    if name == "nk":
        return (1 - ex(2 * (L0 - L1) / n)) / (1 - ex(2 * L0 / n))
    if name == "mc":
        return 1 - L1 / L0
    if name == "mb":
        return 1 - (L1 - k) / L0
    if name == "an":
        return lr / (lr + n)
    if name == "es":
        return 1 - ex(-2 * L0 / n * lg(L1 / L0))
    if name == "ea":
        return 1 - ex(-2 * L0 / n * lg((L1 - k) / L0))
    if name == "vz":
        return (lr / (lr + n)) * (-2 * L0 + n) / (-2 * L0)
    return None


def same(v, e, num, n, k):
    """identity of two terms: equal after expansion or at two high-precision points"""
    D = sp.expand(v - e)
    if D == 0:
        return True
    others = [x for x in D.atoms(sp.Symbol, sp.Function) if x not in num and not (isinstance(x, sp.Function) and x.func.__name__ in ("EXP", "LOG"))]
    tops = [x for x in others if not any(x != y and y.has(x) for y in others)]
    for i in range(2):
        rep = {}
        for j, x in enumerate(sorted(tops, key=sp.default_sort_key)):
            rep[x] = sp.Rational(1139 + 70 * i, 10) if x == n else sp.Rational(37 + 4 * i, 10) if x == k else sp.Rational(31 + 7 * j + i, 10)
        rep.update({a: b + i for a, b in num.items()})
        t = D.xreplace(rep)
        t = t.replace(lambda u: isinstance(u, sp.Function) and u.func.__name__ == "EXP", lambda u: sp.exp(u.args[0]))
        t = t.replace(lambda u: isinstance(u, sp.Function) and u.func.__name__ == "LOG", lambda u: sp.log(u.args[0]))
        try:
            t = sp.N(t, 40)
            if t.free_symbols or t.has(sp.zoo, sp.nan):
                return None
            if abs(complex(t)) > 1e-25:
                return False
        except Exception:
            return None
    return True


# ---- discrepancy-based fit indices
def indices(u, d):
    """d: labels of all tables of one function"""
    g = {re.sub(r"[^a-z0-9/]", "", k.lower()): (k, v) for k, v in d.items() if numval(v)}

    def get(*names):
        return next((g[n][1] for n in names if n in g), None)
    cf, df = get("full/chi2", "chi2f", "chi2"), get("full/df", "dff")
    c0, d0 = get("null/chi2", "chi2n"), get("null/df", "dfn")
    r = get("rmsea")
    if r is not None and cf is not None and r.free_symbols and not str(r).endswith("nan"):
        sq = sp.expand(r ** 2) if not isinstance(r, sp.Pow) else r.base ** (2 * r.exp)
        M = [a for a in sq.atoms(sp.Function) if a.func == vn.MAX and any(x == 0 for x in a.args)]
        if len(M) != 1:
            u.ob("fit-index", "RMSEA truncates chi2 - df at zero", "violated" if not sq.atoms(vn.MAX) else "undecided", "RMSEA is %s" % str(r)[:200])
        else:
            arg = next(x for x in M[0].args if x != 0)
            dd = sp.expand(cf - arg)
            coef = sp.simplify(sq / M[0])
            m = sp.simplify(1 / (coef * dd))
            ok = isinstance(m, sp.Symbol) or (m + 1).is_Symbol or sp.expand(m + 1).func == vn.ITEM
            bad = dd.has(*cf.atoms(sp.Function)) if cf.atoms(sp.Function) and len(cf.args) > 6 else False
            u.ob("fit-index", "RMSEA = sqrt(max(chi2 - df, 0) / (df * n))", "ok" if ok else "violated",
                 "" if ok else "chi2 - df is %s and the divisor %s" % (str(arg)[:100], str(sp.simplify(1 / coef))[:120]))
            p = get("chi2pval", "chi2pvalue", "full/pval")
            if p is not None and ok:
                S = [a for a in atoms(p, "SF_chi2")]
                if len(S) == 1:
                    okp = zero(S[0].args[1] - dd)
                    u.ob("fit-index", "chi2 p-value uses the degrees of freedom of the model", "ok" if okp else "violated",
                         "" if okp else "p-value uses %s, RMSEA %s" % (str(S[0].args[1])[:80], str(dd)[:80]))
            if df is not None:
                u.ob("fit-index", "RMSEA uses the degrees of freedom of the model", "ok" if zero(dd - df) else "violated", "" if zero(dd - df) else str(dd)[:100])
    if None in (cf, df, c0, d0):
        return
    F = {"tli": lambda a, b, c, e: (c / e - a / b) / (c / e - 1), "nfi": lambda a, b, c, e: (c - a) / c, "ifi": lambda a, b, c, e: (c - a) / (c - b),
         "rho1": lambda a, b, c, e: (c / e - a / b) / (c / e), "rni": lambda a, b, c, e: ((c - e) - (a - b)) / (c - e), "cfi": lambda a, b, c, e: 1 - (a - b) / (c - e)}
    F.update(rho2=F["tli"], nfi1=F["nfi"], nfi2=F["ifi"])
    pts, seed = [], 0
    while len(pts) < 2 and seed < 4000:
        seed += 1
        E = Congruence(seed)
        try:
            a, b, c, e = (E(x) for x in (cf, df, c0, d0))
        except ValueError:
            break
        # an ordinary fit: the model misfits, and less than the null model does
        if a > b > 1 and e > b and c - e > a - b:
            pts.append((E, a, b, c, e))
    for k, (lab, v) in g.items():
        if k in F and v.free_symbols:
            what = "%s follows its definition in chi2 and df of the two models" % lab
            if len(pts) < 2:
                u.ob("fit-index", what, "undecided", "no admissible point for the chi-squares and degrees of freedom")
                continue
            try:
                r = all(abs(E(v) - F[k](a, b, c, e)) < 1e-9 * (1 + abs(E(v))) for E, a, b, c, e in pts)
            except ValueError as ex:
                u.ob("fit-index", what, "undecided", str(ex)[:100])
                continue
            u.ob("fit-index", what, "ok" if r else "violated", "" if r else "%s [%s]" % (str(v)[:200], [(E(v), F[k](a, b, c, e)) for E, a, b, c, e in pts]))


class Congruence:
    """values for terms: leaves get fixed arbitrary values, uninterpreted
    functions equal values at equal arguments, so that equal terms in different
    written forms agree"""
    def __init__(self, seed):
        self.seed, self.memo = seed, {}

    def pick(self, key, lo, hi):
        import hashlib
        h = int(hashlib.sha256(("%d|%s" % (self.seed, key)).encode()).hexdigest()[:12], 16) / float(16 ** 12)
        return lo + (hi - lo) * h

    def __call__(self, e):
        if e not in self.memo:
            self.memo[e] = self.ev(e)
        return self.memo[e]

    def ev(self, e):
        import math
        if e.is_Number or e.is_NumberSymbol:
            return float(e)
        if e.is_Symbol:
            n = str(e)
            if NPARS.search(n):
                return float(round(self.pick(n, 2, 30)))
            return float(round(self.pick(n, 5, 60)))
        if e.is_Add:
            return math.fsum(self(x) for x in e.args)
        if e.is_Mul:
            r = 1.0
            for x in e.args:
                r *= self(x)
            return r
        if e.is_Pow:
            b, x = self(e.base), self(e.exp)
            if b == 0 or (b < 0 and x != int(x)):
                raise ValueError("power")
            return b ** x
        n, a = type(e).__name__, [self(x) for x in e.args]
        n = e.func.__name__
        if n == "MAX":
            return max(a)
        if n == "LOG" and a[0] > 0:
            return math.log(a[0])
        if n == "EXP" and a[0] < 500:
            return math.exp(a[0])
        if n == "ABS":
            return abs(a[0])
        if n == "op:FloorDiv" and len(a) == 2 and a[1]:
            return float(a[0] // a[1])
        return self.pick(n + "|" + ",".join("%.9g" % x for x in a), 1, 40)


NPARS = re.compile(r"param")


def run():
    P = Project()
    chk = Check("C18", floor=140, explanation="gated value numbering of every function that reports a fit statistic: the reported values are compared, as terms in the "
                "maximised log-likelihood, parameter count and sample size, with the definition the label names",
                rules={"bic": "BIC - AIC is k log n - 2k", "caic": "CAIC - BIC is k", "aicc": "AICc - AIC is 2k(k+1)/(n-k-1)",
                       "deviance": "the penalised quantity is twice the reported log-likelihood", "penalty": "the penalty counts the reported number of parameters",
                       "ratio": "a likelihood ratio statistic is twice a log-likelihood difference",
                       "pseudo": "pseudo R-squared and AIC are their definitions under one reading of the two log-likelihoods",
                       "fit-index": "RMSEA and incremental indices are their definitions in the chi-squares and degrees of freedom"})
    fs = [f for f in functions(P) if f.outer is None and relevant(f)]
    chk.extra["functions"] = len(fs)

    def one(fs_):
        for f in fs_:
            try:
                u = Fun(P, chk, f)
                v = vn.FuncVN(P, f)
                r, st = v.run()
                tables, raw, names = [], [], {}
                for kind, d in vn.namespaces(v, st):
                    known = d.get("#known", ())
                    d = {k: x for k, x in d.items() if not k.startswith("#")}
                    if kind == "table":
                        raw.append((known, {k: x for k, x in d.items() if numval(x) or isinstance(x, vn.Gate)}))
                    elif kind == "locals":
                        names = d
                    keys = [k for k in d if norm(k) in IC or norm(k) in LLR]
                    if not keys:
                        continue
                    cs = vn.conds([d[k] for k in keys])[:5]
                    for bits in itertools.product((True, False), repeat=len(cs)):
                        e = dict(d)
                        for c, b in zip(cs, bits):
                            e = {k: vn.restrict(x, c, b) for k, x in e.items()}
                        u.criteria(kind, e)
                        u.alone(kind, e)
                        u.lrs(kind, e)
                # tables built under the same path conditions belong together
                cs = []
                for known, _ in raw:
                    cs += [c for c, _ in known if c not in cs]
                cs = cs[:5]
                for bits in itertools.product((True, False), repeat=len(cs)):
                    val, one_ = dict(zip(cs, bits)), dict(names)
                    for c, b in val.items():
                        one_ = {k: vn.restrict(x, c, b) for k, x in one_.items()}
                    for known, d in raw:
                        if all(val.get(c, b) == b for c, b in known):
                            one_.update(d)
                    tables.append(one_)
                for tables in [t for t in tables if any(re.match(r"^(rmsea|cfi|tli|nfi)", k, re.I) for k in t)]:
                    for _, d in vn.splits({k: x for k, x in tables.items() if re.match(r"(?i)^(rmsea|cfi|tli|nfi\d?|ifi|rni|rho\d|chi2.*|df.*|full.*|null.*)$", k)}, 4):
                        indices(u, {k: x for k, x in d.items() if numval(x)})
            except Exception as e:
                if chk.quiet is False and len(__import__("sys").argv) > 3:
                    raise
                chk.ob("analysed", f.where, "value numbering", "undecided", repr(e)[:200])
    chk.suites([(lambda c: (lambda: one(c)))(fs[i::8]) for i in range(8)], lambda g: g())
    seen, obs = set(), []
    for o in chk.obs:
        k = (o["key"], o["status"])
        if k not in seen:
            seen.add(k)
            obs.append(o)
    chk.obs = obs
    return chk.finish()
