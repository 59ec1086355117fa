"""C19: two-sided p-values and symmetric confidence limits at the level asked for"""
import ast
import re
import itertools
import sympy as sp
from sa import vn
from sa.check import Check
from sa.project import Project
from sa.scopes import functions

WORDS = re.compile(r"^(p|t|z|se|SE)$|p[-_ ]?val|P Value|^p_|_p$|P>|lower|upper|CI|^(lo|hi)$|sf|ppf|cdf|isf|ndtri?|stdtr|quantile|percentile|get_param_table|conf_?int", re.I)
PLAB = re.compile(r"^(p|p[-_ .]?val(ue)?s?|P>\|[tzF]\||p_boot|.*[_ ]p[-_ ]?val(ue)?s?|LLRp|.*rpval|fpval|.*_p|p_\{.*\}|P Value)$")
PAIRS = [("lower", "upper"), ("Lower", "Upper"), ("LOWER", "UPPER"), ("loewr", "uppwer"), ("low", "high"), ("lo", "hi"), ("-", "+"), ("_l", "_u"),
         ("left", "right"), ("lb", "ub"), ("lcl", "ucl"), ("min", "max"), ("lwr", "upr"), ("[0.025", "0.975]")]
LEVELPAR = re.compile(r"^(alpha|sig(nif|level)?|ci|conf\w*|level|ci_level|coverage|cover|width|interval\w*|percent)$", re.I)
EST = ("parameter", "params", "param", "estimate", "est", "coef", "beta", "{parameter_label}", "coefs", "Estimate")
QUANT = re.compile(r"(^|\.|:)(ppf|quantile|percentile|nanquantile|nanpercentile|isf)$")


def relevant(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and WORDS.search(n.attr):
            return True
        if isinstance(n, ast.Name) and WORDS.search(n.id):
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40 and WORDS.search(n.value):
            return True
        if isinstance(n, ast.keyword) and n.arg and WORDS.search(n.arg):
            return True
    return False


def atoms(e, pre):
    return sorted([a for a in e.atoms(sp.Function) if a.func.__name__.startswith(pre)], key=sp.default_sort_key)


def zero(e):
    if e == 0:
        return True
    e = sp.expand(e)
    if e == 0:
        return True
    try:
        return sp.simplify(e) == 0
    except Exception:
        return False


def numval(v):
    return isinstance(v, sp.Basic)


def flat(v, lab=""):
    """numeric leaves of a returned value"""
    if isinstance(v, vn.V) and v.kind in ("tuple", "list", "stack"):
        for i, x in enumerate(v.args[0]):
            yield from flat(x, "%s[%d]" % (lab, i))
    elif numval(v) or isinstance(v, vn.Gate):
        yield lab, v


NPAR = re.compile(r"(^|[._])(edf|n_?params?|n_feats|n_[xz]?vars?|n_fe|rank|p)$|shape\[1\]$|^(call:)?(len|LEN)\(.*(params|theta|beta)[^()]*\)$|\[1\]$")


def unwrap(a, b):
    """peel the same transformation off both limits"""
    while isinstance(a, sp.Function) and isinstance(b, sp.Function) and a.func == b.func and len(a.args) == len(b.args):
        if a.func.__name__.startswith(("PPF_", "SF_")):
            break
        diff = [i for i, (x, y) in enumerate(zip(a.args, b.args)) if x != y]
        if len(diff) != 1:
            break
        if QUANT.search(a.func.__name__):
            break
        a, b = a.args[diff[0]], b.args[diff[0]]
    return a, b


class Fun:
    def __init__(self, P, chk, f):
        self.P, self.chk, self.f = P, chk, f
        self.defaults, self.known = {}, {}

    def ob(self, rule, what, status, detail=""):
        self.chk.ob(rule, self.f.where, what, status, detail)

    # ---- p values
    def pvalue(self, ns, label, v, group):
        plab = label.split('/')[-1]
        cands = [a for a in atoms(v, "SF_")]
        if not cands:
            return
        isp = bool(PLAB.match(plab)) if label else False
        for a in cands:
            d = a.func.__name__[3:]
            x = a.args[0]
            two = vn.is_sym_dist(d)
            if d in ("gamma", "beta"):
                continue
            if two and x.func != vn.ABS and not isp:
                continue
            if d == "norm" and not isp and x.func != vn.ABS:
                continue
            T = {b: sp.Dummy(b.func.__name__) for b in cands}
            e = sp.expand(v.xreplace(T), deep=False)
            c = e.coeff(T[a], 1)
            rest = sp.expand(e - c * T[a], deep=False)
            if rest.has(T[a]):
                self.ob("tail", "%s %s" % (ns, label), "undecided", "not linear in the tail probability: %s" % str(e)[:150])
                continue
            if rest.free_symbols & set(T.values()) or (rest != 0 and not rest.is_number):
                self.ob("tail", "%s %s" % (ns, label), "undecided", "%s" % str(e)[:150])
                continue
            cc = c
            for s in c.free_symbols:
                if str(s) in self.defaults and isinstance(self.defaults[str(s)], (int, float)):
                    cc = cc.subs(s, sp.nsimplify(self.defaults[str(s)]))
            want = 2 if two else 1
            good = cc == want and rest == 0
            if two and x.func != vn.ABS:
                # a statistic that is a square root or a modulus is non-negative already
                good = good and (isinstance(x, sp.Pow) and x.exp == sp.Rational(1, 2))
            what = "%s %s: %s tail of %s" % (ns, label, "two-sided" if two else "upper", d)
            if good:
                self.ob("tail", what, "ok", "%s*SF_%s(%s)" % (cc, d, str(x)[:80]))
            elif not cc.is_number:
                self.ob("tail", what, "undecided", "coefficient %s" % cc)
            else:
                self.ob("tail", what, "violated", "reported value is %s, expected %d*SF_%s(%s)" % (str(v)[:160], want, d, "|statistic|" if two else "statistic"))
            if isp and two:
                self.statistic(ns, label, x, group)
                if d == "t" and len(a.args) > 1:
                    self.residual(ns, label, a.args[1])
            if isp and not two:
                self.fstat(ns, label, a, group)

    def residual(self, ns, label, df):
        """a t reference distribution has the residual degrees of freedom:
        rows minus parameters, so never a parameter count by itself and never
        a sum with one"""
        at = [b for b in df.atoms(sp.Symbol, sp.core.function.AppliedUndef) if not (isinstance(b, sp.Symbol) and not str(b))]
        if not at:
            return
        npar = [b for b in at if NPAR.search(str(b))]
        what = "%s %s: residual degrees of freedom" % (ns, label)
        if len(npar) == len(at):
            bad = any(sp.diff(df, b).is_positive for b in npar)
            self.ob("residual", what, "violated" if bad else "undecided", "the t distribution has %s degrees of freedom, a number of parameters" % str(df)[:100])
        else:
            bad = any(sp.diff(df, b).is_positive for b in npar)
            self.ob("residual", what, "violated" if bad else "ok", "degrees of freedom %s grow with the number of parameters" % str(df)[:100] if bad else "")

    def partner(self, label, group, first):
        if "/" in label:
            return None
        names = []
        for pre in ("p", "P", "pval", "p_val", "p-val", "p_value", "P Value", "p value"):
            if label == pre or label.startswith(pre + "_") or label.startswith(pre + "-"):
                suf = label[len(pre):]
                names += [q + suf for q in first]
        if label in ("p", "p_value", "pval", "p-value", "P>|t|", "P>|z|", "P Value", "p_values", "pvalues"):
            names += [q + s for q in first for s in ("", "-value", " value", "_value", "_values", "values", " Value")]
        for n in names:
            if n in group and n != label:
                return n
        return None

    def statistic(self, ns, label, x, group):
        t = self.partner(label, group, ("t", "z", "T", "Z"))
        if t is None or not numval(group[t]):
            return
        tv = group[t]
        arg = x.args[0] if x.func == vn.ABS else x
        ok = zero(arg - tv) or zero(arg + tv)
        self.ob("statistic", "%s %s is the tail of %s" % (ns, label, t), "ok" if ok else "violated",
                "" if ok else "tail taken at %s but %s is %s" % (str(arg)[:120], t, str(tv)[:120]))
        suf = t[1:] if t[0] in "tzTZ" else ""
        se = next((k for k in ("SE" + suf, "SE", "se", "std_err", "std. err", "StdErr") if k in group and numval(group[k])), None)
        es = next((k for k in EST if k in group and numval(group[k])), None)
        if se and es:
            ok = zero(tv * group[se] - group[es])
            self.ob("ratio", "%s %s = %s / %s" % (ns, t, es, se), "ok" if ok else "violated",
                    "" if ok else "%s is %s, estimate %s, standard error %s" % (t, str(tv)[:100], str(group[es])[:100], str(group[se])[:100]))

    def fstat(self, ns, label, a, group):
        d = a.func.__name__[3:]
        m = re.match(r"^(.*?)[ _/-]?(p|pval|p_?value|rpval)$", label)
        stem = m.group(1) if m else ""
        if stem in ("", "p"):
            want = {"f": ("F", "F Value", "F_value", "fvalue", "f", "F-statistic"), "chi2": ("Chi2", "chi2", "statistic", "stat", "lr_stat", "wald_stat", "score_stat", "Wald", "test_stat")}.get(d, ())
        elif "/" in label:
            want = tuple(label.split("/")[0] + "/" + q for q in ("Chi2", "chi2", "F", "f", "stat"))
        else:
            want = (stem, stem + "_stat", stem + "value", stem + "_ratio", stem + "r_ratio")
        for k in want:
            if k in group and numval(group[k]) and k != label:
                ok = zero(a.args[0] - group[k])
                self.ob("statistic", "%s %s is the tail of %s" % (ns, label, k), "ok" if ok else "violated",
                        "" if ok else "tail taken at %s but %s is %s" % (str(a.args[0])[:120], k, str(group[k])[:120]))
                break
        dfs = {"f": [("df1", "dfn", "DF1", "dfm"), ("df2", "dfd", "DF2", "dfr", "nu")], "chi2": [("df", "degfree", "dof")]}.get(d, [])
        if "/" in label:
            dfs = [tuple(label.split("/")[0] + "/" + q for q in names) for names in dfs]
        elif stem not in ("", "p"):
            dfs = []
        for i, names in enumerate(dfs):
            for k in names:
                if k in group and numval(group[k]) and len(a.args) > i + 1:
                    ok = zero(a.args[i + 1] - group[k])
                    self.ob("degfree", "%s %s uses %s" % (ns, label, k), "ok" if ok else "violated",
                            "" if ok else "degrees of freedom %s but %s is %s" % (str(a.args[i + 1])[:100], k, str(group[k])[:100]))
                    break

    # ---- confidence limits
    def pair(self, ns, ll, lu, lo, up, group, ordered=True):
        lo, up = unwrap(lo, up)
        what = "%s %s/%s" % (ns, ll, lu)
        if isinstance(lo, sp.Function) and lo.func == getattr(up, "func", None) and QUANT.search(lo.func.__name__) and len(lo.args) == len(up.args):
            return self.quantiles(what, lo, up, ordered)
        A0 = atoms(lo, "PPF_") + [a for a in atoms(up, "PPF_") if a not in atoms(lo, "PPF_")]
        if not A0:
            return
        T = {a: sp.Dummy(a.func.__name__) for a in A0}
        B = {d: a for a, d in T.items()}
        lo, up = lo.xreplace(T), up.xreplace(T)
        A = list(B)
        dif, mid = sp.expand(up - lo), sp.expand((up + lo) / 2)
        PS = [a for a in A if dif.has(a)]
        if any(mid.has(a) for a in A):
            self.ob("symmetric", what, "violated", "the limits are not centred: half their sum is %s" % str(mid)[:200])
            return
        if len(PS) != 1:
            self.ob("symmetric", what, "undecided", "quantiles %s" % PS)
            return
        a = PS[0]
        se = sp.expand(dif / 2).coeff(a, 1)
        if dif.has(a) and sp.expand(dif / 2 - se * a) != 0:
            self.ob("symmetric", what, "undecided", "not linear in the quantile")
            return
        self.ob("symmetric", what, "ok", "centre %s" % str(mid)[:80])
        c, _ = se.as_coeff_Mul()
        a = B[a]
        q = a.args[0]
        # the quantile level
        lev = self.level(q, ll)
        if lev is None:
            self.ob("level", what, "undecided", "level of %s" % q)
        else:
            expect, at, val = lev
            sign = 1
            good = None
            if zero(sp.nsimplify(q) - expect):
                good = True
            elif vn.is_sym_dist(a.func.__name__[4:]) and zero(sp.nsimplify(q) - (1 - expect)):
                good, sign = True, -1
            else:
                good = False
            if not good:
                self.ob("level", what, "violated", "quantile at %s, expected %s (or 1 - that) for %s" % (q, expect, at))
            else:
                c = c * sign
                if ordered and c < 0:
                    self.ob("order", what, "violated", "the limit labelled lower lies above the one labelled upper")
                elif ordered:
                    self.ob("order", what, "ok")
                if abs(c) != 1:
                    self.ob("level", what, "violated", "the half width is %s times quantile x standard error" % abs(c))
                else:
                    self.ob("level", what, "ok", "quantile at %s" % q)
        sev = next((group[k] for k in ("SE", "se", "eta_se", "lp_se", "SE_boot") if k in group and numval(group[k])), None)
        est = next((group[k] for k in EST + ("eta", "lp") if k in group and numval(group[k])), None)
        if ns.startswith("locals"):
            pass
        elif sev is not None and est is not None and zero(mid - est):
            ok = zero(se - sev) or zero(se + sev)
            self.ob("width", what, "ok" if ok else "violated", "" if ok else "half width / quantile is %s but the standard error is %s" % (str(se)[:120], str(sev)[:120]))
        elif est is not None and sev is not None and (zero(se - sev) or zero(se + sev)):
            self.ob("centre", what, "violated", "centre %s but the estimate is %s" % (str(mid)[:120], str(est)[:120]))

    def level(self, q, lab):
        """expected quantile level from the one level parameter it depends on"""
        fs = sorted(q.free_symbols, key=str)
        if not fs:
            m = re.search(r"(9\d(\.\d+)?|8\d|5\d)", lab or "")
            lv = sp.nsimplify(m.group(1), rational=True) / 100 if m else None
            if lv is None:
                return None
            return (1 + lv) / 2, "label " + lab, lv
        if len(fs) != 1:
            return None
        s = fs[0]
        n = str(s)
        d = self.defaults.get(n)
        big = self.known.get("%s>1" % n, self.known.get("1<%s" % n))
        if big is None:
            big = None if self.known.get("1>%s" % n, self.known.get("%s<1" % n)) is None else not self.known.get("1>%s" % n, self.known.get("%s<1" % n))
        if big is True:
            return 1 - (100 - s) / 200, n + " (percent)", d
        if big is False and isinstance(d, (int, float)) and d > 1:
            return (1 + s) / 2, n + " (coverage)", d
        if not isinstance(d, (int, float)) or isinstance(d, bool):
            d = 0.05 if n in ("alpha", "sig", "signif") else 95 if n in ("confint", "ci") else 0.95 if n in ("level", "conf_level", "ci_level") else None
        if d is None:
            return None
        if d > 1:
            return 1 - (100 - s) / 200, n + " (percent)", d
        if d >= 0.5:
            return (1 + s) / 2, n + " (coverage)", d
        return 1 - s / 2, n + " (significance)", d

    def quantiles(self, what, lo, up, ordered):
        diff = [i for i, (x, y) in enumerate(zip(lo.args, up.args)) if x != y]
        if len(diff) != 1:
            self.ob("quantiles", what, "undecided", "limits differ in %d arguments" % len(diff))
            return
        a, b = lo.args[diff[0]], up.args[diff[0]]
        tot = sp.expand(a + b)
        if not tot.is_number:
            self.ob("quantiles", what, "undecided" if a.atoms(sp.Function) or b.atoms(sp.Function) else "violated", "levels %s and %s do not sum to one" % (a, b))
            return
        ok = tot in (1, 100)
        self.ob("quantiles", what, "ok" if ok else "violated", "levels %s and %s" % (a, b))
        lev = self.level(b / (100 if tot == 100 else 1), "")
        if ok and lev and ordered:
            e = lev[0]
            bb = b / (100 if tot == 100 else 1)
            if zero(bb - e):
                self.ob("level", what, "ok", "upper level %s" % b)
            elif zero((1 - bb) - e):
                self.ob("order", what, "violated", "the lower limit is the upper quantile")
            else:
                self.ob("level", what, "violated", "quantiles at %s and %s, expected %s for the upper" % (a, b, e))

    # ---- one namespace
    def namespace(self, ns, group, tails=True, known=()):
        for k in list(group):
            # row/column labels: the statistic name comes first in some tables
            if "/" in k and PLAB.match(k.split("/")[0]) and not PLAB.match(k.split("/")[1]):
                a, b = k.split("/", 1)
                for q in list(group):
                    if q.endswith("/" + b):
                        group[b + "/" + q[:-len(b) - 1]] = group.pop(q)
        group = {k: v for k, v in group.items() if numval(v) or isinstance(v, vn.Gate)}
        keep = {k: v for k, v in group.items() if any(True for _, x in vn.leaves(v) if numval(x) and (atoms(x, "SF_") or atoms(x, "PPF_") or QUANT.search(getattr(x.func, "__name__", "")) or True))}
        hot = [k for k, v in keep.items() if any(numval(x) and (atoms(x, "SF_") or atoms(x, "PPF_") or any(QUANT.search(g.func.__name__) for g in x.atoms(sp.Function))) for _, x in vn.leaves(v))]
        if not hot:
            return
        sub = {k: v for k, v in keep.items() if k in hot or k in EST or re.search(r"(^|/)(t|z|SE|se|F|f$|Chi2|chi2|stat|df|T|Z|eta|lp|LLR|nu)", k)}
        cs = vn.conds([sub[h] for h in hot])[:5]
        for bits in itertools.product((True, False), repeat=len(cs)):
            d = dict(sub)
            self.known = dict(known)
            self.known.update(zip(cs, bits))
            for c, b in zip(cs, bits):
                d = {k: vn.restrict(v, c, b) for k, v in d.items()}
            tag = ns
            if tails:
                for k in sub:
                    if numval(d[k]) and k in hot:
                        self.pvalue(tag, k, d[k], d)
            done = set()
            for k in hot:
                if not numval(d[k]):
                    continue
                for lo, up in PAIRS:
                    if lo in k:
                        for u in {k.replace(lo, up), re.sub(r"%s$" % re.escape(lo), up, k)}:
                            if u != k and u in d and numval(d[u]) and (k, u) not in done:
                                done.add((k, u))
                                self.pair(tag, k, u, d[k], d[u], d)

    def positional(self, ns, items):
        """returned or plotted values without labels: neighbours built from one quantile"""
        cs = vn.conds([v for _, v in items])[:5]
        for bits in itertools.product((True, False), repeat=len(cs)):
            vals = []
            self.known = dict(zip(cs, bits))
            for k, v in items:
                for c, b in zip(cs, bits):
                    v = vn.restrict(v, c, b)
                vals.append((k, v))
            vals = [(k, v) for k, v in vals if numval(v)]
            for k, v in vals:
                self.pvalue(ns, k, v, {})
            q = [(k, v) for k, v in vals if atoms(v, "PPF_") and len(v.args)]
            q = [(k, v) for k, v in q if sp.expand(v - v.subs(atoms(v, "PPF_")[0], 0)) != v or True]
            if len(q) == 2:
                a, b = unwrap(q[0][1], q[1][1])
                if isinstance(a, sp.Add) and isinstance(b, sp.Add) and not QUANT.search(a.func.__name__):
                    self.pair(ns, q[0][0], q[1][0], q[0][1], q[1][1], {}, ordered=True)

    def critical(self, quants):
        """quantiles at a level that depends on one level parameter of the function, wherever they go"""
        for d, q in sorted(set(quants), key=str):
            fs = sorted(q.free_symbols, key=str)
            if q.atoms(sp.Function) or len(fs) != 1 or str(fs[0]) not in self.f.params or not LEVELPAR.search(str(fs[0])) or not vn.is_sym_dist(d) or d.startswith("?"):
                continue
            lev = self.level(q, "")
            if lev is None:
                continue
            e = lev[0]
            alts = [e]
            if any(z != q and z.free_symbols == q.free_symbols and not zero(z + q - 1) for _, z in quants):
                alts = [1 - (100 - fs[0]) / 200, (1 + fs[0]) / 2]      # per cent or proportion, told apart by a test
            ok = any(zero(sp.nsimplify(q) - e) or zero(sp.nsimplify(1 - q) - e) for e in alts)
            self.ob("critical", "%s quantile at %s" % (d, fs[0]), "ok" if ok else "violated", "quantile at %s%s" % (q, "" if ok else ", expected %s (or 1 - that) for %s" % (e, lev[1])))

    def run(self):
        f = self.f
        v = vn.FuncVN(self.P, f)
        del vn.QUANTS[:]
        r, st = v.run()
        quants = list(vn.QUANTS)
        self.defaults = {k: d for k, d in v.defaults.items()}
        self.critical(quants)
        i = 0
        for kind, d in vn.namespaces(v, st):
            if kind == "locals":
                continue
            if kind == "table":
                i += 1
            self.namespace(kind, d, known=d.get("#known", ()))
        loc = {k: x for k, x in st.env.items() if k not in f.params}
        self.namespace("locals", loc, tails=False)
        items = list(flat(r, "return"))
        for _, x in vn.leaves(r):
            if isinstance(x, vn.V):
                items += [z for z in flat(x, "return") if z not in items]
        self.positional("returned", items)
        for name, args in v.calls:
            self.positional("argument of " + name, [("arg%d" % j, a) for j, a in enumerate(args)])


def run():
    P = Project()
    chk = Check("C19", floor=180, explanation="gated value numbering of every function that builds a p-value or confidence limit: tail probabilities, quantiles "
                "and standard errors are tracked symbolically from the reference distribution to the table, attribute, return value or plot that reports them",
                rules={"tail": "a reported tail probability is 2*sf(|statistic|) for a symmetric reference distribution and sf(statistic) for chi2 and F",
                       "statistic": "the tail is taken at the statistic reported beside it", "ratio": "the statistic is estimate / standard error",
                       "residual": "a t tail uses residual degrees of freedom: not a parameter count, and falling with the number of parameters",
                       "degfree": "the tail uses the degrees of freedom reported beside it",
                       "symmetric": "the two limits are centred on one value", "level": "the quantile is the two-sided one for the requested level",
                       "critical": "a critical value taken at a level parameter is the two-sided one", "order": "the lower limit is the lower one", "width": "the half width is quantile x the reported standard error",
                       "centre": "the limits are centred on the reported estimate", "quantiles": "quantile limits use levels that sum to one"})
    fs = [f for f in functions(P) if f.outer is None and relevant(f)]
    chk.extra["functions"] = len(fs)
    chunks = [fs[i::8] for i in range(8)]

    def one(fs_):
        for f in fs_:
            try:
                Fun(P, chk, f).run()
            except Exception as e:
                chk.ob("analysed", f.where, "value numbering", "undecided", repr(e)[:200])
    chk.suites([(lambda c: (lambda: one(c)))(c) for c in chunks], lambda g: g())
    seen, obs = set(), []
    for o in chk.obs:
        k = (o["key"], o["status"])
        if k not in seen:
            seen.add(k)
            obs.append(o)
    chk.obs = obs
    return chk.finish()
