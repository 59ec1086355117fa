"""Normal forms: decide that a residual term is identically zero by exact rational arithmetic.

A term becomes a polynomial (dict: monomial -> Fraction) over kernels with rational exponents; kernels are
symbols, function applications on normalised arguments, and irreducible-looking sums raised to negative or
fractional powers.  The zero test clears those sum kernels by multiplying out.  Gated terms are handled by a case
split on the gate conditions, which are treated as free booleans.
"""
from fractions import Fraction
from . import terms as tm
from .terms import *

LIMIT = 6000


class Blowup(Exception):
    pass


class Norm:
    def __init__(self, limit=LIMIT):
        self.memo = {}
        self.limit = limit
        self.sumk = {}      # kernel term -> polynomial, for sum kernels
        self.work = 0

    # polynomials: dict mono->coeff ; mono: frozenset of (kernel, exponent)
    def padd(self, a, b):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            v = d.get(k, 0) + e
            if v == 0:
                d.pop(k, None)
            else:
                d[k] = v
        return frozenset(d.items())

    def pmul(self, a, b):
        if len(a) * len(b) > self.limit * 8:
            raise Blowup()
        self.work += len(a) * len(b)
        if self.work > 3000000:
            raise Blowup()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        if len(r) > self.limit:
            raise Blowup()
        return r

    def ppow(self, a, n):
        r = {frozenset(): Fraction(1)}
        base = a
        while n:
            if n & 1:
                r = self.pmul(r, base)
            n >>= 1
            if n:
                base = self.pmul(base, base)
        return r

    def const(self, c):
        c = Fraction(c)
        return {frozenset(): c} if c else {}

    def kernel(self, t, e=1):
        return {frozenset([(t, Fraction(e))]): Fraction(1)}

    def rebuild(self, p):
        ts = []
        for m, c in p.items():
            fs = []
            for k, e in m:
                fs.append(tm.power(k, num(e)))
            ts.append((tm.mul(num(c), *fs)))
        return tm.add(*ts) if ts else ZERO

    def canon(self, t):
        return self.rebuild(self.N(t))

    def N(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._N(t)
            self.memo[t] = r
        return r

    def powp(self, p, e):
        """polynomial ** rational"""
        if not p:
            if e > 0:
                return {}
            raise Blowup()
        if e == 0:
            return self.const(1)
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                return {frozenset((k, x * e) for k, x in m): c ** int(e)}
            if c > 0:
                out = frozenset((k, x * e) for k, x in m)
                return self.pmul({out: Fraction(1)}, self.cpow(c, e))
            return self.kernel(self.rebuild(p), e)
        if e.denominator == 1 and 0 < e <= 6:
            return self.ppow(p, int(e))
        # extract numeric content and common monomial
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {k: min(x, d[k]) for k, x in common.items() if k in d and (x > 0) == (d[k] > 0)
                          and (x > 0 or True)}
        common = {k: (x if x > 0 else max(x, max(dict(m).get(k, 0) for m in p))) for k, x in common.items()}
        # content
        from math import gcd
        num_, den = 0, 1
        for c in p.values():
            num_ = gcd(num_, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        cont = Fraction(num_, den)
        sign = 1
        lead = min(p, key=lambda m: sorted((k.id, x) for k, x in m))
        if p[lead] < 0 and e.denominator == 1:
            sign = -1
        cm = frozenset((k, -x) for k, x in common.items() if x != 0)
        q = {self.mmul(m, cm): c / (cont * sign) for m, c in p.items()}
        kt = self.rebuild(q)
        self.sumk[kt] = q
        out = self.kernel(kt, e)
        out = self.pmul(out, self.cpow(cont, e))
        if sign < 0 and int(e) % 2:
            out = {m: -c for m, c in out.items()}
        if cm:
            out = self.pmul(out, {frozenset((k, -x * e) for k, x in cm): Fraction(1)})
        return out

    def cpow(self, c, e):
        """positive rational ** rational, by prime kernels"""
        if e.denominator == 1:
            return self.const(c ** int(e))
        if c == 1:
            return self.const(1)
        d = {}

        def fac(n, s):
            f = 2
            while f * f <= n and f < 2000:
                while n % f == 0:
                    d[f] = d.get(f, 0) + s
                    n //= f
                f += 1
            if n > 1:
                d[n] = d.get(n, 0) + s
        fac(c.numerator, 1)
        fac(c.denominator, -1)
        out = self.const(1)
        for pnum, k in d.items():
            x = k * e
            w = x.numerator // x.denominator
            fr = x - w
            out = self.pmul(out, self.const(Fraction(pnum) ** w))
            if fr:
                out = self.pmul(out, self.kernel(num(pnum), fr))
        return out

    def expp(self, p):
        out = self.const(1)
        for m, c in p.items():
            k = self.rebuild({m: Fraction(1)})
            # exp(c * log(u)) = u ** c
            if len(m) == 1:
                (kk, e), = m
                if e == 1 and kk.op == "fn" and kk.args[0] == "log":
                    out = self.pmul(out, self.powp(self.N(kk.args[1]), c))
                    continue
            out = self.pmul(out, self.kernel(mk("fn", "exp", k), c))
        return out

    def logp(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0:
                out = {}
                d = {}
                n_, dd = c.numerator, c.denominator
                for s, n in ((1, n_), (-1, dd)):
                    f = 2
                    while f * f <= n and f < 2000:
                        while n % f == 0:
                            d[f] = d.get(f, 0) + s
                            n //= f
                        f += 1
                    if n > 1:
                        d[n] = d.get(n, 0) + s
                for q, k in d.items():
                    out = self.padd(out, {frozenset([(mk("fn", "log", num(q)), Fraction(1))]): Fraction(k)})
                for k, e in m:
                    if k.op == "fn" and k.args[0] == "exp":
                        a = self.N(k.args[1])
                    elif k in self.sumk:
                        a = self.logp(self.sumk[k]) if len(self.sumk[k]) == 1 else self.kernel(mk("fn", "log", k))
                    else:
                        a = self.kernel(mk("fn", "log", k))
                    out = self.padd(out, {mm: cc * e for mm, cc in a.items()})
                return out
        q = self.powp(p, Fraction(-1)) if len(p) > 1 else p
        if len(p) > 1:
            # log(p) = -log(p**-1) with content split when the sign is preserved
            (m, c), = q.items()
            if c > 0 and len(q) == 1:
                out = self.logp({m: c})
                return {mm: -cc for mm, cc in out.items()}
        return self.kernel(mk("fn", "log", self.rebuild(p)))

    def _N(self, t):
        op = t.op
        if op == "num":
            return self.const(t.args[0])
        if op in ("const", "idx"):
            return self.kernel(t)
        if op == "sym":
            return self.kernel(t)
        if op == "add":
            r = {}
            for a in t.args:
                r = self.padd(r, self.N(a))
            return r
        if op == "mul":
            r = self.const(1)
            for a in t.args:
                r = self.pmul(r, self.N(a))
            return r
        if op == "pow":
            b, e = t.args
            if e.op == "num":
                return self.powp(self.N(b), e.args[0])
            pe = self.N(e)
            lb = self.logp(self.N(b))
            return self.expp(self.pmul(pe, lb))
        if op == "fn":
            f = t.args[0]
            if f == "exp":
                return self.expp(self.N(t.args[1]))
            if f == "log":
                return self.logp(self.N(t.args[1]))
            if f in ("sinh", "cosh"):
                p = self.N(t.args[1])
                if all(len(m) == 1 and next(iter(m))[0].op == "fn" and next(iter(m))[0].args[0] == "log" for m in p):
                    pass
                a = self.expp(p)
                b = self.expp({m: -c for m, c in p.items()})
                s = -1 if f == "sinh" else 1
                return self.padd({m: c / 2 for m, c in a.items()}, {m: s * c / 2 for m, c in b.items()})
            if f == "tanh":
                s, c = fn("sinh", t.args[1]), fn("cosh", t.args[1])
                return self.N(tm.div(s, c))
            if f == "arcsinh":
                x = t.args[1]
                return self.logp(self.N(tm.add(x, tm.power(tm.add(tm.mul(x, x), ONE), HALF))))
            args = [self.canon(a) for a in t.args[1:]]
            if f in ("erf", "erfinv", "sign", "sin", "arctan"):
                p = self.N(args[0])
                if p:
                    lead = min(p, key=lambda m: sorted((k.id, x) for k, x in m))
                    if p[lead] < 0:
                        q = self.rebuild({m: -c for m, c in p.items()})
                        return {m: -c for m, c in self.N(fn(f, q)).items()} if q is not args[0] else self.kernel(t)
            if f in ("abs", "cos"):
                p = self.N(args[0])
                if p:
                    lead = min(p, key=lambda m: sorted((k.id, x) for k, x in m))
                    if p[lead] < 0:
                        args[0] = self.rebuild({m: -c for m, c in p.items()})
            if f == "abs":
                # |x| = x sign(x)
                s = fn("sign", args[0])
                return self.pmul(self.N(args[0]), self.N(s)) if s.op == "fn" else self.N(tm.mul(args[0], s))
            if f == "polygamma":
                return self.kernel(mk("fn", "polygamma", *args))
            u = fn(f, *args)
            if u.op == "fn":
                return self.kernel(u)
            return self.N(u)
        if op == "ofn":
            return self.kernel(ofn(t.args[0], t.args[1], *[self.canon(a) for a in t.args[2:]]))
        if op == "ite":
            return self.kernel(mk("ite", t.args[0], self.canon(t.args[1]), self.canon(t.args[2])))
        if op == "sum":
            v, dim, body = t.args
            p = self.N(body)
            out = {}
            for m, c in p.items():
                ins = [(k, e) for k, e in m if v in free(k)]
                outs = [(k, e) for k, e in m if v not in free(k)]
                inner = self.rebuild({frozenset(ins): Fraction(1)})
                s = tm.ssum(v, dim, inner)
                out = self.padd(out, {frozenset(self.mmul(frozenset(outs), frozenset([(s, Fraction(1))]))): c})
            return out
        if op == "tab":
            return self.kernel(t)
        if op in ("mat", "prod", "maxr"):
            return self.kernel(t)
        if op in COND:
            return self.kernel(tm.ite_num(t))
        raise Blowup()

    def reduce_kernels(self, p):
        """sign(x)^2 = 1 ; gates ite(c,1,0)^k = itself"""
        out = {}
        for m, c in p.items():
            d = {}
            for k, e in m:
                if k.op == "fn" and k.args[0] == "sign" and e.denominator == 1:
                    e = Fraction(int(e) % 2)
                if k.op == "ite" and k.args[1] is ONE and k.args[2] is ZERO and e > 0:
                    e = Fraction(1)
                if e:
                    d[k] = e
            mm = frozenset(d.items())
            v = out.get(mm, 0) + c
            if v == 0:
                out.pop(mm, None)
            else:
                out[mm] = v
        return out

    def iszero(self, p):
        for _ in range(25):
            p = self.reduce_kernels(p)
            if not p:
                return True
            # pick a sum kernel and clear it
            ks = {}
            for m in p:
                for k, e in m:
                    if k in self.sumk:
                        ks.setdefault(k, []).append(e)
            # prime-root kernels: 2^(3/2) -> 2 * 2^(1/2)
            chosen = None
            for k in sorted(ks, key=lambda u: -u.id):
                es = [dict(m).get(k, Fraction(0)) for m in p]
                if len(set(es)) > 1 or any(e.denominator == 1 and e > 0 for e in es):
                    chosen = k
                    break
            if chosen is None:
                return False
            k = chosen
            q = self.sumk[k]
            classes = {}
            for m, c in p.items():
                e = dict(m).get(k, Fraction(0))
                fr = e - (e.numerator // e.denominator)
                classes.setdefault(fr, []).append((m, e, c))
            out = {}
            for fr, items in classes.items():
                lo = min(e for _, e, _ in items)
                if len(classes) == 1:
                    base = lo
                else:
                    base = min(min(e for _, e, _ in it) for it in classes.values())
                    # shift every class by the same integer
                for m, e, c in items:
                    n = e - (base if len(classes) == 1 else (base.numerator // base.denominator) + fr)
                    rest = frozenset((kk, x) for kk, x in m if kk is not k)
                    term = self.pmul({rest: c}, self.ppow(q, int(n)))
                    if len(classes) > 1 and fr:
                        fk = mk("fn", "rootof", k, num(fr))
                        term = self.pmul(term, self.kernel(fk))
                    out = self.padd(out, term)
            p = out
        return False


def gates(t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "ite" and u.args[0] not in acc:
            acc.append(u.args[0])
        if u.op in ("sum", "prod", "maxr", "mat"):
            continue
        stack.extend(children(u))
    return acc


def atoms_of(c, acc):
    if c.op in ("and", "or"):
        for a in c.args:
            atoms_of(a, acc)
    elif c.op == "not":
        atoms_of(c.args[0], acc)
    elif c.op == "rel" and c not in acc:
        acc.append(c)
    return acc


def set_conds(t, asg):
    """replace condition atoms outside binders by constants"""
    memo = {}

    def cond(c):
        if c in asg:
            return TRUE if asg[c] else FALSE
        if c.op == "not":
            return not_(cond(c.args[0]))
        if c.op == "and":
            return and_(*[cond(a) for a in c.args])
        if c.op == "or":
            return or_(*[cond(a) for a in c.args])
        return c

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        op = u.op
        if op in ("num", "const", "idx", "true", "false", "sym"):
            r = u
        elif op == "ite":
            c = cond(u.args[0])
            r = go(u.args[1]) if c is TRUE else go(u.args[2]) if c is FALSE else ite(c, go(u.args[1]), go(u.args[2]))
        elif op == "add":
            r = tm.add(*[go(a) for a in u.args])
        elif op == "mul":
            r = tm.mul(*[go(a) for a in u.args])
        elif op == "pow":
            r = tm.power(go(u.args[0]), go(u.args[1]))
        elif op == "fn":
            r = fn(u.args[0], *[go(a) for a in u.args[1:]]) if u.args[0] != "polygamma" else \
                mk("fn", "polygamma", *[go(a) for a in u.args[1:]])
        elif op == "ofn":
            r = ofn(u.args[0], u.args[1], *[go(a) for a in u.args[2:]])
        elif op in COND:
            r = tm.ite_num(cond(u)) if cond(u) not in (TRUE, FALSE) else (ONE if cond(u) is TRUE else ZERO)
        else:
            r = u
        memo[u] = r
        return r
    return go(t)


def measure_zero(c):
    """equality of a continuous symbol expression with something: skipped as a measure-zero case"""
    return c.op == "rel" and c.args[0] == "==" and any(
        s.op == "sym" and DOM.get(s.args[0], "real") in ("real", "pos", "unit")
        for s in _syms(c))


def _syms(t, seen=None):
    out, stack, seen = [], [t], set()
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "sym":
            out.append(u)
        stack.extend(children(u))
    return out


def prove_zero(t, limit=LIMIT):
    """True if t is identically zero by normal form (on every gate assignment), else False"""
    try:
        atoms = []
        for g in gates(t):
            atoms_of(g, atoms)
        mz = {c: False for c in atoms if measure_zero(c)}
        if mz:
            t = set_conds(t, mz)
            atoms = []
            for g in gates(t):
                atoms_of(g, atoms)
        if len(atoms) > 6:
            return False
        for bits in range(1 << len(atoms)):
            asg = {c: bool(bits >> k & 1) for k, c in enumerate(atoms)}
            u = set_conds(t, asg) if atoms else t
            if u is ZERO:
                continue
            N = Norm(limit)
            if not N.iszero(N.N(u)):
                return False
        return True
    except (Blowup, RecursionError, KeyError, OverflowError, ValueError, ZeroDivisionError):
        return False
