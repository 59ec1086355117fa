"""Decision of one algebraic obligation  lhs == rhs  on symbolic terms."""
import hashlib
from . import terms as tm
from .terms import *
from .normal import prove_zero
from mpmath import mp

TOL = mp.mpf(10) ** -7


def _u(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return mp.mpf(int.from_bytes(h[:16], "big") + 1) / (mp.mpf(2) ** 128 + 2)


def sample(dom, u, trial):
    scale = [1, 1, mp.mpf("0.4"), 2, mp.mpf("3.5"), 1][trial % 6]
    if isinstance(dom, tuple):
        k = dom[0]
        if k == "dim":
            return mp.mpf(dom[1])
        if k == "range":
            return mp.mpf(dom[1]) + (mp.mpf(dom[2]) - mp.mpf(dom[1])) * u
        if k == "ints":
            return mp.mpf(dom[1] + int(u * (dom[2] - dom[1] + 1)))
    if dom == "real":
        return (2 * u - 1) * mp.mpf("1.7") * scale
    if dom == "pos":
        return mp.exp((2 * u - 1) * mp.mpf("1.3") * (scale if scale < 3 else 2))
    if dom == "unit":
        return mp.mpf("0.04") + u * mp.mpf("0.92")
    if dom == "count":
        return mp.mpf(int(u * 5) if trial % 2 else int(u * 2.2))
    if dom == "bin":
        return mp.mpf(1 if u > 0.5 else 0)
    raise KeyError(dom)


class Point:
    def __init__(self, seed, trial, overrides=None):
        self.seed, self.trial = seed, trial
        self.vals = {}
        self.over = overrides or {}

    def __call__(self, name, idx):
        key = (name, idx)
        v = self.vals.get(key)
        if v is None:
            d = DOM.get(name, "real")
            d = self.over.get(name, d)
            if isinstance(d, tuple) and d[0] == "ordered":      # increasing sequence
                v = self("%s__start" % name, ()) if not idx or idx[0] == 0 else \
                    self(name, (idx[0] - 1,)) + mp.exp((2 * _u(self.seed, self.trial, name, idx) - 1))
            elif isinstance(d, tuple) and d[0] == "symmetric":
                i, j = sorted(idx)
                v = (2 * _u(self.seed, self.trial, name, i, j) - 1) * mp.mpf("0.4") + (mp.mpf("2.2") if i == j else 0)
            elif isinstance(d, tuple) and d[0] == "stochastic":
                # positive entries of a simplex along the last index, dim d[1]
                w = [mp.mpf("0.2") + _u(self.seed, self.trial, name, idx[:-1], k) for k in range(d[1])]
                v = w[idx[-1]] / mp.fsum(w)
            else:
                v = sample(d, _u(self.seed, self.trial, name, idx), self.trial)
            self.vals[key] = v
        return v


class Result:
    def __init__(self, status, detail="", **kw):
        self.status, self.detail = status, detail
        self.__dict__.update(kw)


def freevals(ts):
    fs = set()
    for t in ts:
        fs |= free(t)
    return sorted(fs, key=lambda v: v.args[0])


def equal(lhs, rhs, seed=1, trials=12, dims=None, tol=TOL, assume=None, prove=True, absfloor=None, over=None):
    """dims: {idx var: dim term} for the free index variables; assume: condition that must hold"""
    lhs, rhs = tm.asnum(num(lhs)), tm.asnum(num(rhs))
    if lhs is rhs:
        return Result("proved", "identical normal form")
    if prove and prove_zero(tm.sub(lhs, rhs)):
        return Result("proved", "residual normalises to zero")
    fv = freevals([lhs, rhs])
    dims = dims or {}
    good = 0
    bad = ""
    log = {}
    t = 0
    npts = 0
    while t < trials * 5 and good < trials:
        P = Point(seed, t, over)
        t += 1
        E = Evaluator(P, log)
        ok = False
        try:
            spaces = []
            for v in fv:
                d = dims.get(v)
                n = 3 if d is None else int(E.ev(d, {}))
                spaces.append(range(n))
            import itertools
            for combo in itertools.product(*spaces):
                env = {v: k for v, k in zip(fv, combo)}
                if assume is not None and not E.cond(assume, env):
                    continue
                try:
                    a = E.ev(lhs, env)
                    b = E.ev(rhs, env)
                except (BadPoint, ZeroDivisionError, OverflowError, ValueError) as e:
                    bad = str(e)
                    continue
                ok = True
                npts += 1
                sc = max(abs(a), abs(b), mp.mpf(absfloor or "1e-6"))
                if abs(a - b) > tol * sc:
                    syms = {("%s%s" % (k[0], list(k[1]) if k[1] else "")): mp.nstr(v, 8)
                            for k, v in sorted(P.vals.items(), key=str)[:12]}
                    return Result("violated", "lhs=%s rhs=%s at %s %s" % (
                        mp.nstr(a, 10), mp.nstr(b, 10), syms, {v.args[0]: k for v, k in env.items()}),
                        point=syms, a=a, b=b)
        except (BadPoint, ZeroDivisionError, OverflowError, ValueError) as e:
            bad = str(e)
        except KeyError as e:
            return Result("undecided", "no interpretation for %s" % e)
        if ok:
            good += 1
    onesided = sum(1 for s in log.values() if len(s) == 1)
    if good < 3:
        return Result("undecided", "only %d valid points (%s)" % (good, bad))
    return Result("agrees", "residual vanishes at %d high-precision points" % npts, onesided=onesided)
