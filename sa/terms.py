"""Symbolic term domain.

Terms are hash-consed DAG nodes.  They are the abstract values computed by sa.interp from
the source text; nothing here executes repository code.  Operations:
  diff(t, name, idx)   formal partial derivative with respect to the symbol name[idx]
  Evaluator            evaluates a *term* at a point (used by the zero test on residual terms)
"""
import sys
from fractions import Fraction
import mpmath
from mpmath import mp

sys.setrecursionlimit(200000)
mp.dps = 40

_table = {}


class T:
    __slots__ = ("op", "args", "id", "_free", "_hash", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table)
        t._free = None
        t._hash = hash(key)
        _table[key] = t
    return t


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("const", "nan" if x != x else ("inf" if x > 0 else "-inf"))
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


ZERO, ONE, TWO, HALF, MONE = num(0), num(1), num(2), num(Fraction(1, 2)), num(-1)
TRUE, FALSE = mk("true"), mk("false")
PI = mk("const", "pi")
E = mk("const", "e")
EULER = mk("const", "eulergamma")
NAN = mk("const", "nan")
INF = mk("const", "inf")


def isnum(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


DOM = {}          # symbol name -> domain tag


def sym(name, *idx, dom=None):
    if dom is not None:
        DOM[name] = dom
    return mk("sym", name, tuple(num(i) for i in idx))


def idxvar(name):
    return mk("idx", name)


_fresh = [0]


def fresh(prefix="i"):
    _fresh[0] += 1
    return mk("idx", "%s%d" % (prefix, _fresh[0]))


def free(t):
    """free index variables of t"""
    if t._free is not None:
        return t._free
    # iterative post-order to survive deep DAGs
    stack = [(t, False)]
    while stack:
        u, done = stack.pop()
        if u._free is not None:
            continue
        kids = children(u)
        if not done:
            stack.append((u, True))
            for k in kids:
                if k._free is None:
                    stack.append((k, False))
        else:
            if u.op == "idx":
                f = frozenset([u])
            else:
                f = frozenset()
                for k in kids:
                    if k._free:
                        f = f | k._free
                if u.op in ("sum", "prod", "maxr"):
                    f = f - {u.args[0]}
                    f = f | free(u.args[1])
                elif u.op == "mat":
                    f = (free(u.args[1]) | free(u.args[2]) | free(u.args[5]) |
                         (u.args[6]._free - {u.args[3], u.args[4]}))
            u._free = f
    return t._free


def symnames(t):
    """names of the symbols occurring in t"""
    seen, out, st = set(), set(), [t]
    while st:
        u = st.pop()
        if id(u) in seen:
            continue
        seen.add(id(u))
        if u.op == "sym":
            out.add(u.args[0])
        st.extend(children(u))
    return out


def children(t):
    op = t.op
    if op == "sym":
        return t.args[1]
    if op in ("add", "mul"):
        return t.args
    if op in ("num", "const", "idx", "true", "false"):
        return ()
    if op == "fn":
        return t.args[1:]
    if op == "ofn":
        return t.args[2:]
    if op in ("pow", "ite", "not", "and", "or", "sum", "prod", "maxr"):
        return t.args
    if op == "rel":
        return t.args[1:]
    if op == "mat":
        return t.args[1:]
    if op == "tab":
        return t.args[0] + (t.args[1],)
    raise KeyError(op)


def tab(vals, i):
    """vals[i] for a concrete tuple of terms"""
    i = num(i)
    if i.op == "num":
        k = int(i.args[0])
        # out of range only inside a branch whose condition excludes it
        return vals[k] if 0 <= k < len(vals) else sym("outside_table", dom="real")
    if all(v is vals[0] for v in vals):
        return vals[0]
    if all(isnum(v) for v in vals) and all(nval(v) == nval(vals[0]) + k for k, v in enumerate(vals)):
        return add(i, vals[0])
    return mk("tab", tuple(vals), i)


# ---------------------------------------------------------------- arithmetic

def add(*ts):
    coeff = Fraction(0)
    acc = {}
    order = []

    def put(t, c):
        nonlocal coeff
        op = t.op
        if op == "num":
            coeff += c * t.args[0]
        elif op == "add":
            for a in t.args:
                put(a, c)
        else:
            if op == "mul" and t.args[0].op == "num":
                c = c * t.args[0].args[0]
                t = t.args[1] if len(t.args) == 2 else mk("mul", *t.args[1:])
            if t in acc:
                acc[t] += c
            else:
                acc[t] = c
                order.append(t)
    for t in ts:
        put(t, Fraction(1))
    out = []
    for t in sorted(order, key=lambda u: u.id):
        c = acc[t]
        if c == 0:
            continue
        if c == 1:
            out.append(t)
        elif t.op == "mul":
            out.append(mk("mul", num(c), *t.args))
        else:
            out.append(mk("mul", num(c), t))
    if coeff != 0:
        out.append(num(coeff))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", *out)


def neg(t):
    return mul(MONE, t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    coeff = Fraction(1)
    acc = {}

    def put(t, e):
        # t ** e with e an integer Fraction or arbitrary term exponent kept in (base, exp)
        nonlocal coeff
        op = t.op
        if op == "num":
            coeff *= t.args[0]
        elif op == "mul":
            for a in t.args:
                put(a, e)
        elif op == "pow":
            b, x = t.args
            acc[b] = add(acc[b], x) if b in acc else x
        else:
            acc[t] = add(acc[t], ONE) if t in acc else ONE
    for t in ts:
        put(t, ONE)
    if coeff == 0:
        return ZERO
    out = []
    for b in sorted(acc, key=lambda u: u.id):
        e = acc[b]
        p = power(b, e)
        if p.op == "num":
            coeff *= p.args[0]
        elif p.op == "mul":
            for a in p.args:
                if a.op == "num":
                    coeff *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(p)
    if not out:
        return num(coeff)
    if coeff == 1:
        if len(out) == 1:
            return out[0]
        return mk("mul", *out)
    if len(out) == 1 and out[0].op == "add":
        # distribute numeric coefficient over a sum: keeps like terms collectable
        return add(*[mul(num(coeff), a) for a in out[0].args])
    return mk("mul", num(coeff), *out)


def power(b, e):
    if e.op == "num":
        ev = e.args[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        if b.op == "num":
            bv = b.args[0]
            if ev.denominator == 1:
                if bv == 0:
                    if ev > 0:
                        return ZERO
                    return mk("pow", b, e)
                if abs(ev) <= 64:
                    return num(bv ** int(ev))
            elif bv == 0 and ev > 0:
                return ZERO
            elif bv == 1:
                return ONE
            else:
                r = _exact_root(bv, ev)
                if r is not None:
                    return num(r)
        if ev.denominator == 1:
            if b.op == "pow":
                return power(b.args[0], mul(b.args[1], e))
            if b.op == "mul":
                return mul(*[power(a, e) for a in b.args])
    if b.op == "num" and b.args[0] == 1:
        return ONE
    if b.op == "pow" and _positive(b.args[0]):
        return power(b.args[0], mul(b.args[1], e))
    return mk("pow", b, e)


def _exact_root(bv, ev):
    if bv < 0:
        return None
    d = ev.denominator
    if d > 8:
        return None

    def root(n):
        r = round(n ** (1.0 / d))
        for c in (r - 1, r, r + 1):
            if c >= 0 and c ** d == n:
                return c
        return None
    p, q = root(bv.numerator), root(bv.denominator)
    if p is None or q is None:
        return None
    return Fraction(p, q) ** ev.numerator


def _positive(t):
    if t.op == "num":
        return t.args[0] > 0
    if t.op == "const":
        return t.args[0] in ("pi", "e", "eulergamma")
    if t.op == "sym":
        return DOM.get(t.args[0]) in ("pos", "unit")
    if t.op == "fn":
        return t.args[0] in ("exp", "cosh", "gamma")
    if t.op == "mul":
        return all(_positive(a) for a in t.args)
    if t.op == "add":
        return all(_positive(a) for a in t.args)
    if t.op == "pow":
        return _positive(t.args[0])
    return False


def div(a, b):
    return mul(a, power(b, MONE))


def closed(t):
    """a number written without symbols (sqrt(33), 1 + pi, ...)"""
    if t.op in ("num", "const"):
        return True
    if t.op in ("add", "mul", "pow"):
        return all(closed(a) for a in t.args)
    return t.op == "fn" and t.args[0] in ("exp", "log", "sin", "cos", "abs") and all(closed(a) for a in t.args[1:])


def constval(t):
    """high-precision value of a closed term, None when it is not one or is not a real number"""
    if not closed(t):
        return None
    try:
        return Evaluator(None).ev(t, {})
    except Exception:
        return None


def near_integer(v):
    return abs(v - mp.nint(v)) < mp.mpf(10) ** -20


def fn(name, *args):
    a = args[0]
    if name == "sqrt":
        return power(a, HALF)
    if name == "expm1":
        return sub(fn("exp", a), ONE)
    if name == "log1p":
        return fn("log", add(ONE, a))
    if name == "log2":
        return div(fn("log", a), fn("log", TWO))
    if name == "log10":
        return div(fn("log", a), fn("log", num(10)))
    if name == "reciprocal":
        return power(a, MONE)
    if name == "square":
        return power(a, TWO)
    if name == "cbrt":
        return power(a, num(Fraction(1, 3)))
    if name == "tan":
        return div(fn("sin", a), fn("cos", a))
    if name == "exp":
        if a is ZERO:
            return ONE
        if a.op == "fn" and a.args[0] == "log":
            return a.args[1]
    if name == "log":
        if a is ONE:
            return ZERO
        if a.op == "fn" and a.args[0] == "exp":
            return a.args[1]
        if a is E:
            return ONE
    if a is ZERO and name in ("sin", "sinh", "arcsinh", "arctan", "tanh", "erf", "erfinv", "abs", "sign"):
        return ZERO
    if a is ZERO and name in ("cos", "cosh"):
        return ONE
    if name in ("abs", "sign") and a.op == "num":
        v = a.args[0]
        return num(abs(v)) if name == "abs" else num((v > 0) - (v < 0))
    if name == "round" and a.op == "num" and len(args) == 1:
        return num(round(a.args[0]))
    if name == "abs" and _positive(a):
        return a
    if name == "sign" and _positive(a):
        return ONE
    if name in ("floor", "ceil", "floordiv", "mod") and all(x.op == "num" for x in args):
        if name == "floor":
            return num(a.args[0].numerator // a.args[0].denominator)
        if name == "ceil":
            return num(-((-a.args[0].numerator) // a.args[0].denominator))
        if args[1].args[0] != 0:
            return num(a.args[0] // args[1].args[0] if name == "floordiv" else a.args[0] % args[1].args[0])
    if name in ("floor", "ceil", "floordiv"):
        v = constval(div(a, args[1]) if name == "floordiv" else a)
        if v is not None and not near_integer(v):
            return num(int(mp.ceil(v) if name == "ceil" else mp.floor(v)))
    if name == "mod":
        v = constval(div(a, args[1]))
        if v is not None and not near_integer(v):
            return sub(a, mul(args[1], num(int(mp.floor(v)))))
    if name == "round" and len(args) == 1:
        v = constval(add(a, HALF))
        if v is not None and not near_integer(v):
            return num(int(mp.floor(v)))
    if name == "sinh" and a.op == "fn" and a.args[0] == "arcsinh":
        return a.args[1]
    if name == "arcsinh" and a.op == "fn" and a.args[0] == "sinh":
        return a.args[1]
    if name == "erf" and a.op == "fn" and a.args[0] == "erfinv":
        return a.args[1]
    if name == "erfinv" and a.op == "fn" and a.args[0] == "erf":
        return a.args[1]
    if name == "bvncdf":             # P(X <= h, Y <= k) for standard normals with correlation r
        h, k, r = args
        for u, v in ((h, k), (k, h)):
            if u.op == "num" and abs(u.args[0]) >= 40:
                return ZERO if u.args[0] < 0 else fn("ndtr", v)
        if h.id > k.id:
            h, k = k, h
        return mk("fn", "bvncdf", h, k, r)
    # normal cdf / quantile in terms of erf
    if name == "ndtr" and a.op == "num" and abs(a.args[0]) >= 40:
        return ZERO if a.args[0] < 0 else ONE
    if name == "ndtr":
        return mul(HALF, add(ONE, fn("erf", div(a, power(TWO, HALF)))))
    if name == "ndtri":
        return mul(power(TWO, HALF), fn("erfinv", sub(mul(TWO, a), ONE)))
    if name == "log_ndtr":
        return fn("log", fn("ndtr", a))
    if name == "erfc":
        return sub(ONE, fn("erf", a))
    if name == "erfcinv":
        return fn("erfinv", sub(ONE, a))
    if name == "expit":
        return power(add(ONE, fn("exp", neg(a))), MONE)
    if name == "logit":
        return fn("log", div(a, sub(ONE, a)))
    if name == "gamma":
        return fn("exp", fn("gammaln", a))
    if name == "digamma":
        return mk("fn", "polygamma", ZERO, a)
    if name == "trigamma":
        return mk("fn", "polygamma", ONE, a)
    if name == "beta":
        return fn("exp", fn("betaln", *args))
    if name == "betaln":
        return add(fn("gammaln", args[0]), fn("gammaln", args[1]), neg(fn("gammaln", add(args[0], args[1]))))
    if name == "factorial":
        return fn("gamma", add(a, ONE))
    if name == "xlogy":
        return ite(rel("==", a, ZERO), ZERO, mul(a, fn("log", args[1])))
    if name == "xlog1py":
        return ite(rel("==", a, ZERO), ZERO, mul(a, fn("log", add(ONE, args[1]))))
    if name == "logaddexp":
        return fn("log", add(fn("exp", args[0]), fn("exp", args[1])))
    if name == "hypot":
        return power(add(mul(args[0], args[0]), mul(args[1], args[1])), HALF)
    if name == "maximum":
        return ite(rel("<", args[0], args[1]), args[1], args[0])
    if name == "minimum":
        return ite(rel("<", args[1], args[0]), args[1], args[0])
    return mk("fn", name, *args)


def ofn(name, orders, *args):
    return mk("ofn", name, tuple(orders), *args)


# ---------------------------------------------------------------- conditions

def rel(op, a, b):
    if op == ">":
        return rel("<", b, a)
    if op == ">=":
        return rel("<=", b, a)
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        r = {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y}[op]
        return TRUE if r else FALSE
    if a is b:
        return TRUE if op in ("<=", "==") else FALSE
    if op == "!=":
        return mk("not", rel("==", a, b))
    if op == "==" and a.id > b.id:
        a, b = b, a
    if op == "==" and a.op in ("true", "false"):
        a, b = b, a
    if op == "==" and b.op in ("true", "false") and a.op in COND:
        return a if b is TRUE else not_(a)
    # difference normal form for integer-index comparisons
    d = sub(a, b)
    if d.op == "num":
        return rel(op, d, ZERO)
    v = constval(d)
    if v is not None and abs(v) > mp.mpf(10) ** -20:
        return TRUE if (v < 0 if op in ("<", "<=") else False) else FALSE
    return mk("rel", op, a, b)


COND = ("rel", "and", "or", "not", "true", "false")


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        if c.op == "and":
            out.extend(x for x in c.args if x not in out)
        else:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda u: u.id))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def ite(c, a, b):
    if c.op not in COND:
        c = rel("!=", c, ZERO)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a in (TRUE, FALSE) or b in (TRUE, FALSE) or a.op in COND or b.op in COND:
        a2 = a if a.op in COND else rel("!=", a, ZERO)
        b2 = b if b.op in COND else rel("!=", b, ZERO)
        return or_(and_(c, a2), and_(not_(c), b2))
    if a is b:
        return a
    return mk("ite", c, a, b)


def asnum(t):
    """conditions used arithmetically become 0/1"""
    if t.op in COND:
        return ite_num(t)
    return t


def ite_num(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return mk("ite", c.args[0], ZERO, ONE)
    return mk("ite", c, ONE, ZERO)


def delta(i, j):
    return ite_num(rel("==", i, j))


def ssum(var, dim, body):
    """sum over var in [0, dim)"""
    body = asnum(body)
    if body is ZERO:
        return ZERO
    if dim.op == "num":
        n = int(dim.args[0])
        if n <= 130:
            return add(*[subst(body, {var: num(k)}) for k in range(n)])
    if var not in free(body):
        return mul(dim, body)
    # pull constant factors out
    if body.op == "mul":
        outs = [a for a in body.args if var not in free(a)]
        if outs:
            ins = [a for a in body.args if var in free(a)]
            return mul(*outs, ssum(var, dim, mul(*ins)))
    if body.op == "add" and len(body.args) <= 8:
        return add(*[ssum(var, dim, a) for a in body.args])
    # canonical bound variable: depends on nesting depth of body
    d = _depth(body)
    v = idxvar("s%d" % d)
    if v is not var:
        if v in free(body):
            v = var
        else:
            body = subst(body, {var: v})
    return mk("sum", v, dim, body)


_dcache = {}


def _depth(t):
    r = _dcache.get(t)
    if r is None:
        r = 0
        for k in children(t):
            r = max(r, _depth(k))
        if t.op in ("sum", "prod", "maxr"):
            r += 1
        elif t.op == "mat":
            r += 1
        _dcache[t] = r
    return r


def mat(kind, i, j, dim, body, rv, cv):
    """entry (i, j) of a matrix function (inv, chol, ...) of the dim x dim matrix (rv, cv) -> body;
    kind logdet ignores i, j."""
    d = _depth(body)
    v, w = idxvar("r%d" % d), idxvar("c%d" % d)
    if (v is not rv or w is not cv) and v not in free(body) and w not in free(body):
        body = subst(body, {rv: v, cv: w})
        rv, cv = v, w
    return mk("mat", kind, num(i), num(j), rv, cv, num(dim), body)


# ---------------------------------------------------------------- substitution

def subst(t, m, symmap=None):
    """m: idx var -> term ; symmap: sym/ofn term -> term"""
    if not m and not symmap:
        return t
    memo = {}
    keys = frozenset(m)

    def go(u):
        if symmap is None and not (free(u) & keys):
            return u
        r = memo.get(u)
        if r is not None:
            return r
        op = u.op
        if symmap is not None and u in symmap:
            r = symmap[u]
        elif op == "idx":
            r = m.get(u, u)
        elif op in ("num", "const", "true", "false"):
            r = u
        elif op == "sym":
            r = mk("sym", u.args[0], tuple(go(a) for a in u.args[1]))
            if symmap is not None:
                if r in symmap:
                    r = symmap[r]
                elif r.args[0] in symmap:          # by name: callable on the index tuple
                    r = symmap[r.args[0]](r.args[1])
        elif op == "add":
            r = add(*[go(a) for a in u.args])
        elif op == "mul":
            r = mul(*[go(a) for a in u.args])
        elif op == "pow":
            r = power(go(u.args[0]), go(u.args[1]))
        elif op == "fn":
            r = fn(u.args[0], *[go(a) for a in u.args[1:]]) if u.args[0] != "polygamma" else \
                mk("fn", "polygamma", *[go(a) for a in u.args[1:]])
        elif op == "ofn":
            r = ofn(u.args[0], u.args[1], *[go(a) for a in u.args[2:]])
        elif op == "ite":
            r = ite(*[go(a) for a in u.args])
        elif op == "tab":
            r = tab(tuple(go(a) for a in u.args[0]), go(u.args[1]))
        elif op == "rel":
            r = rel(u.args[0], go(u.args[1]), go(u.args[2]))
        elif op == "and":
            r = and_(*[go(a) for a in u.args])
        elif op == "or":
            r = or_(*[go(a) for a in u.args])
        elif op == "not":
            r = not_(go(u.args[0]))
        elif op in ("sum", "prod", "maxr"):
            v, dim, body = u.args
            inner = {k: x for k, x in m.items() if k is not v}
            clash = any(v in free(x) for x in inner.values() if isinstance(x, T))
            if clash:
                nv = fresh("b")
                body = subst(body, {v: nv})
                v = nv
            if inner or symmap:
                body = subst(body, inner, symmap)
            r = ssum(v, go(dim), body) if op == "sum" else mk(op, v, go(dim), body)
        elif op == "mat":
            kind, i, j, rv, cv, dim, body = u.args
            inner = {k: x for k, x in m.items() if k is not rv and k is not cv}
            if any(rv in free(x) or cv in free(x) for x in inner.values()):
                nr, nc = fresh("b"), fresh("b")
                body = subst(body, {rv: nr, cv: nc})
                rv, cv = nr, nc
            if inner or symmap:
                body = subst(body, inner, symmap)
            r = mat(kind, go(i), go(j), go(dim), body, rv, cv)
        else:
            raise KeyError(op)
        memo[u] = r
        return r
    return go(t)


# ---------------------------------------------------------------- differentiation

class NotDifferentiable(Exception):
    pass


def diff(t, name, idx=()):
    """d t / d name[idx]"""
    idx = tuple(num(i) for i in idx)
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            r = _diff1(u)
            memo[u] = r
        return r

    def _diff1(u):
        op = u.op
        if op in ("num", "const", "idx", "true", "false"):
            return ZERO
        if op == "sym":
            if u.args[0] != name:
                return ZERO
            if len(u.args[1]) != len(idx):
                raise NotDifferentiable("rank mismatch for %s" % name)
            r = ONE
            for a, b in zip(u.args[1], idx):
                r = mul(r, delta(a, b))
            return r
        if op == "add":
            return add(*[go(a) for a in u.args])
        if op == "mul":
            out = []
            for k, a in enumerate(u.args):
                d = go(a)
                if d is not ZERO:
                    out.append(mul(d, *[b for j, b in enumerate(u.args) if j != k]))
            return add(*out) if out else ZERO
        if op == "pow":
            b, e = u.args
            db, de = go(b), go(e)
            r = ZERO
            if db is not ZERO:
                r = add(r, mul(e, power(b, sub(e, ONE)), db))
            if de is not ZERO:
                r = add(r, mul(u, fn("log", b), de))
            return r
        if op == "ite":
            return ite(u.args[0], go(u.args[1]), go(u.args[2]))
        if op == "tab":
            return tab(tuple(go(a) for a in u.args[0]), u.args[1])
        if op == "sum":
            v, dim, body = u.args
            if any(v in free(i) for i in idx):
                nv = fresh("b")
                body = subst(body, {v: nv})
                v = nv
            return ssum(v, dim, go(body))
        if op == "fn":
            f = u.args[0]
            a = u.args[1:]
            if f == "polygamma":
                d = go(a[1])
                return mul(mk("fn", "polygamma", add(a[0], ONE), a[1]), d) if d is not ZERO else ZERO
            ds = [go(x) for x in a]
            if all(d is ZERO for d in ds):
                return ZERO
            x = a[0]
            d = ds[0]
            if f == "exp":
                return mul(u, d)
            if f == "log":
                return mul(power(x, MONE), d)
            if f == "sin":
                return mul(fn("cos", x), d)
            if f == "cos":
                return mul(MONE, fn("sin", x), d)
            if f == "sinh":
                return mul(fn("cosh", x), d)
            if f == "cosh":
                return mul(fn("sinh", x), d)
            if f == "tanh":
                return mul(sub(ONE, power(u, TWO)), d)
            if f == "arcsinh":
                return mul(power(add(ONE, power(x, TWO)), num(Fraction(-1, 2))), d)
            if f == "arccosh":
                return mul(power(sub(power(x, TWO), ONE), num(Fraction(-1, 2))), d)
            if f == "arctanh":
                return mul(power(sub(ONE, power(x, TWO)), MONE), d)
            if f == "arctan":
                return mul(power(add(ONE, power(x, TWO)), MONE), d)
            if f == "arcsin":
                return mul(power(sub(ONE, power(x, TWO)), num(Fraction(-1, 2))), d)
            if f == "arccos":
                return mul(MONE, power(sub(ONE, power(x, TWO)), num(Fraction(-1, 2))), d)
            if f == "gammaln":
                return mul(mk("fn", "polygamma", ZERO, x), d)
            if f == "erf":
                return mul(TWO, power(PI, num(Fraction(-1, 2))), fn("exp", neg(power(x, TWO))), d)
            if f == "erfinv":
                return mul(HALF, power(PI, HALF), fn("exp", power(u, TWO)), d)
            if f == "abs":
                return mul(fn("sign", x), d)
            if f in ("sign", "floor", "ceil", "round", "floordiv", "heaviside"):
                return ZERO
            if f == "owens_t":
                h, al = a
                # dT/dh = -phi(h) * (Phi(a h) - 1/2);  dT/da = exp(-h^2(1+a^2)/2) / (2 pi (1+a^2))
                ph = mul(fn("exp", mul(num(Fraction(-1, 2)), power(h, TWO))),
                         power(mul(TWO, PI), num(Fraction(-1, 2))))
                r = mul(MONE, ph, sub(fn("ndtr", mul(al, h)), HALF), ds[0])
                q = add(ONE, power(al, TWO))
                r2 = mul(fn("exp", mul(num(Fraction(-1, 2)), power(h, TWO), q)),
                         power(mul(TWO, PI, q), MONE), ds[1])
                return add(r, r2)
            if f == "bvncdf":
                h, k, r = a
                w = sub(ONE, power(r, TWO))
                phi = lambda x: mul(fn("exp", mul(num(Fraction(-1, 2)), power(x, TWO))), power(mul(TWO, PI), num(Fraction(-1, 2))))
                one = lambda x, y: mul(phi(x), fn("ndtr", mul(sub(y, mul(r, x)), power(w, num(Fraction(-1, 2))))))
                q = sub(add(power(h, TWO), power(k, TWO)), mul(TWO, r, h, k))
                pdf = mul(fn("exp", mul(num(Fraction(-1, 2)), q, power(w, MONE))), power(w, num(Fraction(-1, 2))),
                          power(mul(TWO, PI), MONE))
                return add(mul(one(h, k), ds[0]), mul(one(k, h), ds[1]), mul(pdf, ds[2]))
            raise NotDifferentiable(f)
        if op == "ofn":
            name_, orders = u.args[0], u.args[1]
            out = []
            for k, a in enumerate(u.args[2:]):
                d = go(a)
                if d is not ZERO:
                    o = list(orders)
                    o[k] += 1
                    out.append(mul(ofn(name_, o, *u.args[2:]), d))
            return add(*out) if out else ZERO
        if op == "mat":
            kind, i, j, rv, cv, dim, body = u.args
            if any(rv in free(q) or cv in free(q) for q in idx):
                nr, nc = fresh("b"), fresh("b")
                body = subst(body, {rv: nr, cv: nc})
                rv, cv = nr, nc
            db = go(body)
            if db is ZERO:
                return ZERO
            k, l = fresh("k"), fresh("l")
            dkl = subst(db, {rv: k, cv: l})
            if kind in ("inv", "pinv"):      # pinv: on matrices of full rank
                return neg(ssum(k, dim, ssum(l, dim, mul(mat("inv", i, k, dim, body, rv, cv), dkl,
                                                          mat("inv", l, j, dim, body, rv, cv)))))
            if kind == "logdet":
                return ssum(k, dim, ssum(l, dim, mul(mat("inv", l, k, dim, body, rv, cv), dkl)))
            if kind in ("eigval", "eigvec"):
                # symmetric matrix, ascending eigenvalues: dl_i = v_i' dM v_i ; dv_i = sum_{j != i} v_j (v_j' dM v_i) / (l_i - l_j)
                vec_ = lambda a, b: mat("eigvec", a, b, dim, body, rv, cv)
                val_ = lambda a: mat("eigval", a, ZERO, dim, body, rv, cv)
                if kind == "eigval":
                    return ssum(k, dim, ssum(l, dim, mul(vec_(k, i), dkl, vec_(l, i))))
                q = fresh("q")
                quad = ssum(k, dim, ssum(l, dim, mul(vec_(k, q), dkl, vec_(l, j))))
                gap = ite(rel("==", q, j), ONE, sub(val_(j), val_(q)))
                return ssum(q, dim, ite(rel("==", q, j), ZERO, mul(vec_(i, q), quad, power(gap, MONE))))
            raise NotDifferentiable("mat " + kind)
        raise NotDifferentiable(op)
    return go(t)


# ---------------------------------------------------------------- evaluation of terms

class BadPoint(Exception):
    pass


OPAQUE = {}        # opaque function name -> callable(orders, *mpf args) -> mpf

_fnmap = {
    "exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "sinh": mp.sinh, "cosh": mp.cosh,
    "tanh": mp.tanh, "arcsinh": mp.asinh, "arccosh": mp.acosh, "arctanh": mp.atanh, "arctan": mp.atan,
    "arcsin": mp.asin, "arccos": mp.acos, "gammaln": mp.loggamma, "erf": mp.erf, "erfinv": mp.erfinv,
    "abs": abs, "sign": mp.sign, "floor": mp.floor, "ceil": mp.ceil, "round": mp.nint,
    "arctan2": mp.atan2,
    "floordiv": lambda a, b: mp.floor(a / b), "mod": lambda a, b: a - b * mp.floor(a / b),
    "isnan": lambda a: mp.mpf(0),
}


def _owens(h, a):
    f = lambda x: mp.exp(-h * h * (1 + x * x) / 2) / (1 + x * x)
    return mp.quad(f, [0, a]) / (2 * mp.pi)


def _bvncdf(h, k, r):
    if abs(r) >= 1:
        raise BadPoint("correlation outside (-1, 1)")
    f = lambda t: mp.exp(-(h * h - 2 * h * k * mp.sin(t) + k * k) / (2 * mp.cos(t) ** 2))
    with mp.workdps(22):
        return mp.ncdf(h) * mp.ncdf(k) + mp.quad(f, [0, mp.asin(r)]) / (2 * mp.pi)


def _gammainc_reg(a, x):
    return mp.gammainc(a, 0, x, regularized=True)


_fnmap["owens_t"] = _owens
_fnmap["bvncdf"] = _bvncdf
_fnmap["gammainc"] = _gammainc_reg
_fnmap["gammaincc"] = lambda a, x: 1 - _gammainc_reg(a, x)
_fnmap["betainc"] = lambda a, b, x: mp.betainc(a, b, 0, x, regularized=True)
_fnmap["kv"] = mp.besselk


class Evaluator:
    """Evaluate terms at one point: symval(name, idx ints) -> mpf ; dims by name via symval too."""

    def __init__(self, symval, branchlog=None):
        self.symval = symval
        self.memo = {}
        self.mats = {}
        self.log = branchlog

    def cond(self, c, env):
        op = c.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.cond(c.args[0], env)
        if op == "and":
            return all(self.cond(a, env) for a in c.args)
        if op == "or":
            return any(self.cond(a, env) for a in c.args)
        if op == "rel":
            a, b = self.ev(c.args[1], env), self.ev(c.args[2], env)
            o = c.args[0]
            if o == "==":
                return a == b
            if isinstance(a, mp.mpc) or isinstance(b, mp.mpc):
                raise BadPoint("complex comparison")
            return a < b if o == "<" else a <= b
        return self.ev(c, env) != 0

    def ev(self, t, env):
        op = t.op
        if op == "num":
            f = t.args[0]
            return mp.mpf(f.numerator) / f.denominator if f.denominator != 1 else mp.mpf(f.numerator)
        if op == "idx":
            return mp.mpf(env[t])
        fr = free(t)
        key = (t, tuple(sorted((v.args[0], env[v]) for v in fr))) if fr else t
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._ev(t, op, env)
        if isinstance(r, mp.mpc):
            if abs(r.imag) < mp.mpf(10) ** (-25) * (1 + abs(r.real)):
                r = r.real
            else:
                raise BadPoint("complex value in %s" % (t.op,))
        if mp.isnan(r) or mp.isinf(r):
            raise BadPoint("nan/inf in %s" % show(t, 3))
        self.memo[key] = r
        return r

    def _ev(self, t, op, env):
        if op == "const":
            c = t.args[0]
            if c == "pi":
                return mp.pi + 0
            if c == "e":
                return mp.e + 0
            if c == "eulergamma":
                return mp.euler + 0
            raise BadPoint("const " + c)
        if op == "sym":
            return self.symval(t.args[0], tuple(int(self.ev(i, env)) for i in t.args[1]))
        if op == "add":
            return mp.fsum([self.ev(a, env) for a in t.args])
        if op == "mul":
            r = mp.mpf(1)
            for a in t.args:
                # short-circuit exact zeros produced by gates/deltas
                v = self.ev(a, env)
                r = r * v
                if v == 0:
                    return mp.mpf(0)
            return r
        if op == "pow":
            b, e = self.ev(t.args[0], env), self.ev(t.args[1], env)
            if b == 0 and e <= 0:
                raise BadPoint("0**neg")
            if b < 0 and e != mp.floor(e):
                raise BadPoint("neg**frac")
            if e == mp.floor(e) and abs(e) < 1000:
                return b ** int(e)
            return mp.power(b, e)
        if op == "ite":
            c = self.cond(t.args[0], env)
            if self.log is not None:
                self.log.setdefault(t.args[0], set()).add(c)
            return self.ev(t.args[1] if c else t.args[2], env)
        if op in COND:
            return mp.mpf(1 if self.cond(t, env) else 0)
        if op == "tab":
            return self.ev(t.args[0][int(self.ev(t.args[1], env))], env)
        if op == "sum":
            v, dim, body = t.args
            n = int(self.ev(dim, env))
            env = dict(env)
            tot = []
            for k in range(n):
                env[v] = k
                tot.append(self.ev(body, env))
            return mp.fsum(tot) if tot else mp.mpf(0)
        if op == "prod":
            v, dim, body = t.args
            n = int(self.ev(dim, env))
            env = dict(env)
            r = mp.mpf(1)
            for k in range(n):
                env[v] = k
                r *= self.ev(body, env)
            return r
        if op == "maxr":
            v, dim, body = t.args
            n = int(self.ev(dim, env))
            env = dict(env)
            vals = []
            for k in range(n):
                env[v] = k
                vals.append(self.ev(body, env))
            return max(vals)
        if op == "fn":
            f = t.args[0]
            if f == "polygamma":
                return mp.polygamma(int(self.ev(t.args[1], env)), self.ev(t.args[2], env))
            a = [self.ev(x, env) for x in t.args[1:]]
            if f == "log" and a[0] <= 0:
                raise BadPoint("log of nonpositive")
            if f == "gammaln":
                if a[0] <= 0 and a[0] == mp.floor(a[0]):
                    raise BadPoint("gammaln pole")
                return mp.re(mp.loggamma(a[0])) if a[0] > 0 else mp.log(abs(mp.gamma(a[0])))
            if f == "erfinv" and not (-1 < a[0] < 1):
                raise BadPoint("erfinv domain")
            if f in ("arcsin", "arccos", "arctanh") and not (-1 < a[0] < 1):
                raise BadPoint(f)
            if f == "exp" and not -10**30 < a[0] < 5000:
                raise BadPoint("exp range")
            g = _fnmap.get(f)
            if g is None:
                raise BadPoint("no evaluator for " + f)
            return g(*a)
        if op == "ofn":
            a = [self.ev(x, env) for x in t.args[2:]]
            return OPAQUE[t.args[0]](t.args[1], *a)
        if op == "mat":
            kind, i, j, rv, cv, dim, body = t.args
            n = int(self.ev(dim, env))
            bf = free(body) - {rv, cv}
            key = (kind, body, rv, cv, tuple(sorted((v.args[0], env[v]) for v in bf)))
            M = self.mats.get(key)
            if M is None:
                A = mp.matrix(n, n)
                e2 = dict(env)
                for r in range(n):
                    for c in range(n):
                        e2[rv] = r
                        e2[cv] = c
                        A[r, c] = self.ev(body, e2)
                if kind == "inv":
                    try:
                        M = A ** -1
                    except ZeroDivisionError:
                        raise BadPoint("singular")
                elif kind == "pinv":
                    U, sv, Vh = mp.svd_r(A)
                    top = max(sv) if n else 0
                    if any(mp.mpf(10) ** (-mp.dps // 2) < v / (top or 1) < mp.mpf(10) ** -9 for v in sv):
                        raise BadPoint("rank")
                    D = mp.diag([1 / v if top and v / top > mp.mpf(10) ** -9 else 0 for v in sv])
                    M = Vh.T * D * U.T
                elif kind == "logdet":
                    d = mp.det(A)
                    if d <= 0:
                        raise BadPoint("det")
                    M = mp.log(d)
                elif kind in ("eigval", "eigvec"):
                    for r in range(n):
                        for c in range(r):
                            if abs(A[r, c] - A[c, r]) > mp.mpf(10) ** (5 - mp.dps) * (1 + abs(A[r, c])):
                                raise BadPoint("not symmetric")
                    E, Q = mp.eigsy(A)
                    o = sorted(range(n), key=lambda k: E[k])
                    if any(E[o[k + 1]] - E[o[k]] < mp.mpf(10) ** -8 for k in range(n - 1)):
                        raise BadPoint("repeated eigenvalue")
                    M = mp.matrix(n, n)
                    for c in range(n):
                        piv = max(range(n), key=lambda r: abs(Q[r, o[c]]))
                        sg = -1 if Q[piv, o[c]] < 0 else 1
                        for r in range(n):
                            M[r, c] = sg * Q[r, o[c]]
                    if kind == "eigval":
                        for c in range(n):
                            M[c, 0] = E[o[c]]
                elif kind == "chol":
                    try:
                        M = mp.cholesky(A)
                    except ValueError:
                        raise BadPoint("chol")
                else:
                    raise BadPoint(kind)
                self.mats[key] = M
            if kind == "logdet":
                return M
            return M[int(self.ev(i, env)), int(self.ev(j, env))]
        raise KeyError(op)


# ---------------------------------------------------------------- printing

def show(t, depth=8):
    if depth < 0:
        return "…"
    op = t.op
    s = lambda u: show(u, depth - 1)
    if op == "num":
        return str(t.args[0])
    if op == "const":
        return t.args[0]
    if op == "idx":
        return t.args[0]
    if op == "sym":
        return t.args[0] + ("[%s]" % ",".join(s(i) for i in t.args[1]) if t.args[1] else "")
    if op == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in t.args)
    if op == "pow":
        return "%s^(%s)" % (s(t.args[0]), s(t.args[1]))
    if op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if op == "ofn":
        return "%s%s(%s)" % (t.args[0], "'" * sum(t.args[1]), ", ".join(s(a) for a in t.args[2:]))
    if op == "ite":
        return "if(%s; %s; %s)" % tuple(s(a) for a in t.args)
    if op == "rel":
        return "%s %s %s" % (s(t.args[1]), t.args[0], s(t.args[2]))
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(a) for a in t.args) + ")"
    if op == "not":
        return "!(" + s(t.args[0]) + ")"
    if op in ("sum", "prod", "maxr"):
        return "%s[%s<%s](%s)" % (op, s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if op == "tab":
        return "tab(%s)[%s]" % (", ".join(s(a) for a in t.args[0][:6]), s(t.args[1]))
    if op == "mat":
        return "%s(%s)[%s,%s]" % (t.args[0], s(t.args[6]), s(t.args[1]), s(t.args[2]))
    return op
