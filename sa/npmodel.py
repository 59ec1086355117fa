"""Transfer functions of numpy / scipy / builtins over the term domain."""
import ast
from fractions import Fraction
from .terms import *
from . import terms as tm
from .interp import (Tensor, Sparse, Top, Obj, ClassVal, FuncVal, Bound, Ext, ModVal, PyFunc, Partial, TensorMethod, SliceVal,
                     Raised, AX, as_tensor, isnumeric, ret, shift, shift_mask, stack_values, broadcast, elementwise,
                     num_elem, transpose, gate, reduce_sum, contract, matmul, concat, expand, toterm, pyint, simp, getitem,
                     setitem, concrete_dims, dense_arr, from_flat, sparse_T)

TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def canon(name):
    for pre, full in (("np.", "numpy."), ("sp.", "scipy.")):
        if name.startswith(pre):
            name = full + name[len(pre):]
    if name.startswith("scipy.") and name.count(".") == 1 and name.split(".")[1] in ("exp", "log", "sqrt", "pi"):
        name = "numpy." + name.split(".")[1]
    return name


_unary = {
    "exp": "exp", "log": "log", "log1p": "log1p", "expm1": "expm1", "sqrt": "sqrt", "sin": "sin", "cos": "cos",
    "tan": "tan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "arcsinh": "arcsinh", "arccosh": "arccosh",
    "arctanh": "arctanh", "arctan": "arctan", "arcsin": "arcsin", "arccos": "arccos", "abs": "abs",
    "absolute": "abs", "fabs": "abs", "sign": "sign", "floor": "floor", "ceil": "ceil", "square": "square",
    "reciprocal": "reciprocal", "log2": "log2", "log10": "log10", "cbrt": "cbrt", "round": "round", "rint": "round",
}
_special = {
    "gammaln": "gammaln", "loggamma": "gammaln", "digamma": "digamma", "psi": "digamma", "gamma": "gamma",
    "erf": "erf", "erfc": "erfc", "erfinv": "erfinv", "erfcinv": "erfcinv", "ndtr": "ndtr", "ndtri": "ndtri",
    "log_ndtr": "log_ndtr", "expit": "expit", "logit": "logit", "expm1": "expm1", "log1p": "log1p",
    "factorial": "factorial", "cbrt": "cbrt",
}
_special2 = {"xlogy": "xlogy", "xlog1py": "xlog1py", "beta": "beta", "betaln": "betaln", "owens_t": "owens_t",
             "gammainc": "gammainc", "gammaincc": "gammaincc", "kv": "kv"}
for k, v in _unary.items():
    TABLE["numpy." + k] = (lambda nm: lambda I, a, kw: unary_where(nm, a, kw))(v)
    TABLE["math." + k] = TABLE["numpy." + k]
TABLE["math.lgamma"] = lambda I, a, kw: elementwise(num_elem(lambda x: fn("gammaln", x)), a[0])
for k, v in _special.items():
    TABLE["scipy.special." + k] = (lambda nm: lambda I, a, kw: elementwise(num_elem(lambda x: fn(nm, x)), a[0]))(v)
for k, v in _special2.items():
    TABLE["scipy.special." + k] = (lambda nm: lambda I, a, kw: elementwise(num_elem(lambda *x: fn(nm, *x)), *a))(v)


def unary_where(nm, a, kw):
    r = elementwise(num_elem(lambda x: fn(nm, x)), a[0])
    return r


for k, f in (("add", tm.add), ("subtract", tm.sub), ("multiply", tm.mul), ("divide", tm.div), ("true_divide", tm.div),
             ("power", tm.power), ("float_power", tm.power), ("maximum", lambda x, y: fn("maximum", x, y)),
             ("minimum", lambda x, y: fn("minimum", x, y)), ("logaddexp", lambda x, y: fn("logaddexp", x, y)),
             ("fmax", lambda x, y: fn("maximum", x, y)), ("fmin", lambda x, y: fn("minimum", x, y)),
             ("arctan2", lambda x, y: fn("arctan2", x, y)), ("mod", lambda x, y: fn("mod", x, y)),
             ("floor_divide", lambda x, y: fn("floordiv", x, y)), ("hypot", lambda x, y: fn("hypot", x, y))):
    TABLE["numpy." + k] = (lambda f: lambda I, a, kw: elementwise(num_elem(f), a[0], a[1]))(f)

for k, o in (("greater", ">"), ("less", "<"), ("greater_equal", ">="), ("less_equal", "<="), ("equal", "=="),
             ("not_equal", "!=")):
    TABLE["numpy." + k] = (lambda o: lambda I, a, kw: elementwise(lambda x, y: rel(o, tm.asnum(x), tm.asnum(y)),
                                                                  a[0], a[1]))(o)


def _cond(x):
    return x if x.op in COND else rel("!=", x, ZERO)


TABLE["numpy.logical_and"] = lambda I, a, kw: elementwise(lambda x, y: and_(_cond(x), _cond(y)), a[0], a[1])
TABLE["numpy.logical_or"] = lambda I, a, kw: elementwise(lambda x, y: or_(_cond(x), _cond(y)), a[0], a[1])
TABLE["numpy.logical_not"] = lambda I, a, kw: elementwise(lambda x: not_(_cond(x)), a[0])
TABLE["numpy.invert"] = TABLE["numpy.logical_not"]


@reg("numpy.isnan", "numpy.isinf", "numpy.iscomplex")
def _isnan(I, a, kw):
    return elementwise(lambda x: FALSE, a[0])


@reg("numpy.iscomplexobj")
def _iscomplexobj(I, a, kw):
    return Top("unknown") if isinstance(a[0], Top) else FALSE


@reg("numpy.isrealobj")
def _isrealobj(I, a, kw):
    return Top("unknown") if isinstance(a[0], Top) else TRUE


@reg("numpy.isfinite", "numpy.isreal")
def _isfin(I, a, kw):
    return elementwise(lambda x: TRUE, a[0])


@reg("numpy.nan_to_num", "numpy.real", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.real_if_close")
def _ident(I, a, kw):
    return a[0]


@reg("scipy.special.polygamma")
def _poly(I, a, kw):
    return elementwise(num_elem(lambda n, x: mk("fn", "polygamma", n, x)), a[0], a[1])


@reg("scipy.special.binom", "scipy.special.comb")
def _binom(I, a, kw):
    try:
        n, k = pyint(toterm(a[0])), pyint(toterm(a[1]))
    except TypeError:
        n = k = None
    if n is not None and k is not None:
        import math
        return num(math.comb(n, k) if 0 <= k <= n else 0)
    g = lambda x: fn("gammaln", tm.add(x, ONE))
    return elementwise(num_elem(lambda n, k: fn("exp", tm.add(g(n), tm.neg(g(k)), tm.neg(g(tm.sub(n, k)))))), a[0], a[1])


# ---------------------------------------------------------------- distributions (scipy.stats)
NPDF = lambda z: tm.mul(fn("exp", tm.mul(num(Fraction(-1, 2)), tm.power(z, TWO))),
                        tm.power(tm.mul(TWO, PI), num(Fraction(-1, 2))))


def _ls(f):
    def g(I, a, kw):
        x = a[0]
        loc = kw.get("loc", a[1] if len(a) > 1 else 0)
        sc = kw.get("scale", a[2] if len(a) > 2 else 1)
        return elementwise(num_elem(f), x, loc, sc)
    return g


z_ = lambda x, m, s: tm.div(tm.sub(x, m), s)
TABLE["scipy.stats.norm.pdf"] = _ls(lambda x, m, s: tm.div(NPDF(z_(x, m, s)), s))
TABLE["scipy.stats.norm.logpdf"] = _ls(lambda x, m, s: tm.sub(
    tm.add(tm.mul(num(Fraction(-1, 2)), tm.power(z_(x, m, s), TWO)), tm.mul(num(Fraction(-1, 2)), fn("log", tm.mul(TWO, PI)))),
    fn("log", s)))
TABLE["scipy.stats.norm.cdf"] = _ls(lambda x, m, s: fn("ndtr", z_(x, m, s)))
TABLE["scipy.stats.norm.sf"] = _ls(lambda x, m, s: tm.sub(ONE, fn("ndtr", z_(x, m, s))))
TABLE["scipy.stats.norm.ppf"] = _ls(lambda x, m, s: tm.add(m, tm.mul(s, fn("ndtri", x))))
TABLE["scipy.stats.norm.isf"] = _ls(lambda x, m, s: tm.sub(m, tm.mul(s, fn("ndtri", x))))
for dist, nshape in (("t", 1), ("chi2", 1), ("f", 2), ("gamma", 1), ("beta", 2), ("poisson", 1), ("binom", 2),
                     ("nbinom", 2), ("cauchy", 0), ("logistic", 0), ("invgauss", 1), ("uniform", 0)):
    for m in ("cdf", "ppf", "sf", "isf", "pdf", "logpdf", "pmf", "logpmf"):
        def mkf(dist, m):
            def g(I, a, kw):
                a = list(a) + [v for k, v in sorted(kw.items())]
                if m == "sf":
                    return elementwise(num_elem(lambda *x: tm.sub(ONE, ofn("st.%s.cdf" % dist, [0] * len(x), *x))), *a)
                if m == "isf":
                    return elementwise(num_elem(lambda q, *x: ofn("st.%s.ppf" % dist, [0] * (1 + len(x)), tm.sub(ONE, q), *x)), *a)
                return elementwise(num_elem(lambda *x: ofn("st.%s.%s" % (dist, m), [0] * len(x), *x)), *a)
            return g
        TABLE["scipy.stats.%s.%s" % (dist, m)] = mkf(dist, m)


# ---------------------------------------------------------------- constructors
def _shape(v):
    if isinstance(v, (int, T)):
        return (num(v),)
    if isinstance(v, Tensor) and v.rank == 1 and pyint(v.dims[0]) is not None:
        return tuple(toterm(getitem(v, k)) for k in range(pyint(v.dims[0])))
    return tuple(toterm(x) for x in v)


@reg("numpy.zeros", "numpy.empty", "numpy.ndarray")
def _zeros(I, a, kw):
    s = a[0] if a else kw["shape"]
    return ret(Tensor(_shape(s), ZERO))


@reg("numpy.ones")
def _ones(I, a, kw):
    return ret(Tensor(_shape(a[0] if a else kw["shape"]), ONE))


@reg("numpy.full")
def _full(I, a, kw):
    v = as_tensor(a[1] if len(a) > 1 else kw["fill_value"])
    t = Tensor(_shape(a[0]), ZERO)
    return ret(setitem(t, (Ellipsis,), v))


def _like(c):
    def g(I, a, kw):
        t = as_tensor(a[0])
        return ret(Tensor(t.dims, c, t.mask))
    return g


TABLE["numpy.zeros_like"] = TABLE["numpy.empty_like"] = _like(ZERO)
TABLE["numpy.ones_like"] = _like(ONE)


@reg("numpy.full_like")
def _fulllike(I, a, kw):
    return elementwise(num_elem(lambda x, v: v), a[0], a[1])


@reg("numpy.eye", "numpy.identity")
def _eye(I, a, kw):
    n = num(a[0]) if not isinstance(a[0], Tensor) else toterm(a[0])
    m = num(a[1]) if len(a) > 1 and a[1] is not None else n
    return Tensor((n, m), delta(AX[0], AX[1]))


@reg("numpy.arange")
def _arange(I, a, kw):
    a = [x for x in a if isnumeric(x)]
    lo, hi, st = (ZERO, toterm(a[0]), ONE) if len(a) == 1 else \
        (toterm(a[0]), toterm(a[1]), toterm(a[2]) if len(a) > 2 else ONE)
    n = tm.sub(hi, lo)
    if st is not ONE:
        n = fn("ceil", tm.div(n, st))
    if n.op == "num" and n.args[0] < 0:
        n = ZERO
    return Tensor((n,), tm.add(lo, tm.mul(st, AX[0])))


@reg("numpy.linspace")
def _linspace(I, a, kw):
    n = pyint(a[2]) if len(a) > 2 else pyint(kw.get("num", 50))
    return elementwise(num_elem(lambda l, h, i: tm.add(l, tm.mul(tm.sub(h, l), tm.div(i, num(n - 1))))), a[0], a[1],
                       Tensor((num(n),), AX[0]))


@reg("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.copy", "numpy.float64", "numpy.asarray_chkfinite",
     "numpy.float_", "copy.copy", "copy.deepcopy")
def _array(I, a, kw):
    v = a[0]
    if isinstance(v, Tensor):
        return Tensor(v.dims, v.elem, v.mask)
    if isinstance(v, (T, int, bool)):
        return v
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, Top) for x in v):
            return [x for x in v if isinstance(x, Top)][0]
        if any(isinstance(x, (str, Obj)) for x in v):
            return list(v)
        return stack_values(list(v))
    if isinstance(v, dict):
        return dict(v)
    return Top("array of %r" % (v,))


def _asarr(I, a, kw):
    v = a[0]
    if isinstance(v, Tensor):
        return v
    return _array(I, a, kw)


TABLE["numpy.asarray"] = TABLE["numpy.asanyarray"] = TABLE["numpy.ascontiguousarray"] = _asarr


@reg("numpy.atleast_1d")
def _al1(I, a, kw):
    t = as_tensor(a[0])
    return t if t.rank >= 1 else Tensor((ONE,), t.elem)


@reg("numpy.atleast_2d")
def _al2(I, a, kw):
    t = as_tensor(a[0])
    if t.rank == 0:
        return Tensor((ONE, ONE), t.elem)
    return t if t.rank >= 2 else expand(t, 0)


@reg("numpy.broadcast_to")
def _bto(I, a, kw):
    s = _shape(a[1])
    return ret(setitem(Tensor(s, ZERO), (Ellipsis,), as_tensor(a[0])))


@reg("numpy.expand_dims")
def _exp_dims(I, a, kw):
    t = as_tensor(a[0])
    ax = pyint(a[1] if len(a) > 1 else kw["axis"])
    return expand(t, ax % (t.rank + 1))


@reg("numpy.squeeze")
def _squeeze(I, a, kw):
    t = as_tensor(a[0])
    ix = tuple(0 if d is ONE else SliceVal(None, None, None) for d in t.dims)
    return getitem(t, ix) if t.rank else ret(t)


def reshape(t, shape, order="C"):
    t = as_tensor(t)
    shape = [num(x) for x in shape]
    tot = ONE
    for d in t.dims:
        tot = tm.mul(tot, d)
    neg = [k for k, s in enumerate(shape) if s.op == "num" and s.args[0] == -1]
    if neg:
        known = ONE
        for k, s in enumerate(shape):
            if k not in neg:
                known = tm.mul(known, s)
        shape[neg[0]] = tm.div(tot, known)
    shape = tuple(shape)
    if shape == t.dims:
        return t
    old1 = [k for k, d in enumerate(t.dims) if d is not ONE]
    new1 = [k for k, d in enumerate(shape) if d is not ONE]
    if [t.dims[k] for k in old1] == [shape[k] for k in new1]:
        m = {AX[k]: AX[j] for k, j in zip(old1, new1)}
        for k, d in enumerate(t.dims):
            if d is ONE:
                m[AX[k]] = ZERO
        return ret(Tensor(shape, shift(t.elem, m), shift_mask(t.mask, m)))
    if t.mask is not None:
        raise TypeError("reshape of masked")
    # linear index
    def strides(dims):
        st = [None] * len(dims)
        acc = ONE
        ks = range(len(dims)) if order == "F" else reversed(range(len(dims)))
        for k in ks:
            st[k] = acc
            acc = tm.mul(acc, dims[k])
        return st
    lin = tm.add(*[tm.mul(AX[k], s) for k, s in enumerate(strides(shape))]) if shape else ZERO
    m = {}
    st = strides(t.dims)
    for k, d in enumerate(t.dims):
        q = lin if st[k] is ONE else fn("floordiv", lin, st[k])
        last = (k == 0 and order != "F") or (k == len(t.dims) - 1 and order == "F")
        m[AX[k]] = q if last else fn("mod", q, d)
    return ret(Tensor(shape, tm.subst(t.elem, m)))


@reg("numpy.reshape")
def _reshape(I, a, kw):
    return reshape(a[0], _shape(a[1] if len(a) > 1 else kw["newshape"]), kw.get("order", a[2] if len(a) > 2 else "C"))


@reg("numpy.ravel")
def _ravel(I, a, kw):
    return reshape(a[0], (num(-1),), kw.get("order", "C"))


@reg("numpy.concatenate", "numpy.hstack", "numpy.append")
def _concat(I, a, kw, ax=0):
    ts = a[0]
    if isinstance(ts, Tensor):
        raise TypeError("concatenate of tensor")
    for x in ts:
        if isinstance(x, Top):
            return x
    axis = kw.get("axis", a[1] if len(a) > 1 else ax)
    ts = [as_tensor(t) for t in ts]
    ts = [expand(t, 0) if t.rank == 0 else t for t in ts]
    if axis is None:
        ts = [reshape(t, (num(-1),)) for t in ts]
        axis = 0
    return concat(ts, pyint(axis))


def _hstack(I, a, kw):
    ts = [as_tensor(t) for t in a[0]]
    ts = [expand(t, 0) if t.rank == 0 else t for t in ts]
    return concat(ts, 0 if ts[0].rank == 1 else 1)


TABLE["numpy.hstack"] = _hstack
TABLE["numpy.append"] = lambda I, a, kw: concat([expand(as_tensor(x), 0) if as_tensor(x).rank == 0 else as_tensor(x) for x in a[:2]], 0)


@reg("numpy.vstack")
def _vstack(I, a, kw):
    ts = [as_tensor(t) for t in a[0]]
    ts = [expand(t, 0) if t.rank <= 1 else t for t in ts]
    return concat(ts, 0)


@reg("numpy.column_stack")
def _colstack(I, a, kw):
    ts = [as_tensor(t) for t in a[0]]
    ts = [expand(t, 1) if t.rank == 1 else t for t in ts]
    return concat(ts, 1)


@reg("numpy.stack")
def _stack(I, a, kw):
    ax = pyint(kw.get("axis", a[1] if len(a) > 1 else 0))
    for x in a[0]:
        if isinstance(x, Top):
            return x
    t = stack_values(list(a[0]))
    ax %= t.rank
    if ax:
        perm = list(range(1, ax + 1)) + [0] + list(range(ax + 1, t.rank))
        t = transpose(t, perm)
    return t


@reg("numpy.block")
def _block(I, a, kw):
    rows = a[0]
    if not isinstance(rows[0], (list, tuple)):
        return concat([as_tensor(x) for x in rows], -1)
    rs = []
    for r in rows:
        ts = [as_tensor(x) for x in r]
        ts = [Tensor((ONE, ONE), t.elem) if t.rank == 0 else (expand(t, 0) if t.rank == 1 else t) for t in ts]
        rs.append(concat(ts, -1))
    return concat(rs, -2)


@reg("numpy.tile")
def _tile(I, a, kw):
    t, n = as_tensor(a[0]), a[1]
    if t.rank == 1 and isinstance(n, (int, T)):
        return Tensor((tm.mul(t.dims[0], num(n)),), shift(t.elem, {AX[0]: fn("mod", AX[0], t.dims[0])}))
    raise TypeError("tile")


@reg("numpy.repeat")
def _repeat(I, a, kw):
    t, n = as_tensor(a[0]), a[1] if len(a) > 1 else kw["repeats"]
    if isinstance(n, (int, T)):
        if t.rank == 0:
            return Tensor((num(n),), t.elem)
        ax = kw.get("axis", a[2] if len(a) > 2 else None)
        if t.rank == 1 or ax is not None:
            k = 0 if ax is None else pyint(ax) % t.rank
            dims = list(t.dims)
            dims[k] = tm.mul(dims[k], num(n))
            return Tensor(tuple(dims), shift(t.elem, {AX[k]: fn("floordiv", AX[k], num(n))}))
    from . import interp as it_
    cs, ns = it_.concrete_dims(as_tensor(n)), it_.concrete_dims(t)
    if cs is not None and ns is not None and t.mask is None:
        import numpy as np
        ks = [pyint(tm.asnum(x)) for x in it_.dense_arr(as_tensor(n)).ravel()]
        if all(k is not None for k in ks):
            ax = kw.get("axis", a[2] if len(a) > 2 else None)
            return it_.from_arr(np.repeat(it_.dense_arr(t), ks if len(ks) > 1 else ks[0], axis=None if ax is None else pyint(ax)))
    raise TypeError("repeat")


@reg("numpy.diag")
def _diag(I, a, kw):
    t = as_tensor(a[0])
    if len(a) > 1 and pyint(a[1]) != 0:
        raise TypeError("offset diag")
    if t.rank == 1:
        return Tensor((t.dims[0], t.dims[0]), ite(rel("==", AX[0], AX[1]), tm.asnum(t.elem), ZERO))
    return Tensor((t.dims[0],), shift(t.elem, {AX[1]: AX[0]}))


TABLE["numpy.diagonal"] = _diag


@reg("numpy.trace")
def _trace(I, a, kw):
    return reduce_sum(_diag(I, a, {}))


@reg("numpy.tril", "numpy.triu")
def _tril(I, a, kw):
    raise TypeError("tril")


def _mk_tri(lower):
    def g(I, a, kw):
        t = as_tensor(a[0])
        k = num(a[1]) if len(a) > 1 else num(kw.get("k", 0))
        c = rel("<=", AX[1], tm.add(AX[0], k)) if lower else rel("<=", tm.add(AX[0], k), AX[1])
        return Tensor(t.dims, ite(c, tm.asnum(t.elem), ZERO))
    return g


TABLE["numpy.tril"] = _mk_tri(True)
TABLE["numpy.triu"] = _mk_tri(False)


def _ints(vals):
    return Tensor((num(len(vals)),), tab(tuple(num(v) for v in vals), AX[0]) if vals else ZERO)


def _tri_idx(lower):
    def g(I, a, kw):
        n = pyint(a[0])
        k = pyint(a[1]) if len(a) > 1 else pyint(kw.get("k", 0))
        if n is None:
            raise TypeError("symbolic tril_indices")
        prs = [(i, j) for i in range(n) for j in range(n) if (j <= i + k if lower else j >= i + k)]
        return (_ints([p[0] for p in prs]), _ints([p[1] for p in prs]))
    return g


TABLE["numpy.tril_indices"] = _tri_idx(True)
TABLE["numpy.triu_indices"] = _tri_idx(False)


@reg("numpy.diag_indices")
def _diag_idx(I, a, kw):
    t = Tensor((num(a[0]),), AX[0])
    return (t, t)


def _tri_from(lower):
    f = _tri_idx(lower)

    def g(I, a, kw):
        t = as_tensor(a[0])
        return f(I, [simp(t.dims[0])] + list(a[1:]), kw)
    return g


TABLE["numpy.tril_indices_from"] = _tri_from(True)
TABLE["numpy.triu_indices_from"] = _tri_from(False)
TABLE["numpy.diag_indices_from"] = lambda I, a, kw: _diag_idx(I, [as_tensor(a[0]).dims[0]], {})


@reg("numpy.ix_")
def _ix(I, a, kw):
    ts = [as_tensor(x) for x in a]
    out = []
    for k, t in enumerate(ts):
        if t.elem.op in COND:
            raise TypeError("boolean ix_")
        dims = [ONE] * len(ts)
        dims[k] = t.dims[0]
        out.append(Tensor(dims, shift(t.elem, {AX[0]: AX[k]})))
    return tuple(out)


@reg("numpy.nonzero", "numpy.where", "numpy.flatnonzero", "numpy.argwhere")
def _where(I, a, kw):
    if len(a) == 1:
        t = as_tensor(a[0])
        return (Tensor(t.dims, _cond(t.elem), t.mask),)
    return elementwise(lambda c, x, y: ite(_cond(c), tm.asnum(x), tm.asnum(y)), a[0], a[1], a[2])


TABLE["numpy.flatnonzero"] = lambda I, a, kw: _where(I, a[:1], kw)[0]


@reg("numpy.clip")
def _clip(I, a, kw):
    lo = a[1] if len(a) > 1 else kw.get("a_min")
    hi = a[2] if len(a) > 2 else kw.get("a_max")
    v = a[0]
    if lo is not None:
        v = elementwise(num_elem(lambda x, l: fn("maximum", x, l)), v, lo)
    if hi is not None:
        v = elementwise(num_elem(lambda x, h: fn("minimum", x, h)), v, hi)
    return v


@reg("numpy.select")
def _select(I, a, kw):
    d = kw.get("default", a[2] if len(a) > 2 else 0)
    out = d
    for c, v in reversed(list(zip(a[0], a[1]))):
        out = _where(I, [c, v, out], {})
    return out


@reg("numpy.piecewise")
def _piecewise(I, a, kw):
    x, conds, funcs = a[0], a[1], a[2]
    out = num(0)
    fl = list(funcs)
    if len(fl) == len(conds) + 1:
        d = fl.pop()
        out = d if isnumeric(d) else I.call(d, [x], {}, None)
    for c, f in reversed(list(zip(conds, fl))):
        v = f if isnumeric(f) else I.call(f, [x], {}, None)
        out = _where(I, [c, v, out], {})
    return out


# ---------------------------------------------------------------- reductions
def _ax(a, kw, pos=1):
    ax = kw.get("axis", a[pos] if len(a) > pos else None)
    if isinstance(ax, (tuple, list)):
        return [pyint(x) for x in ax]
    return None if ax is None else pyint(ax)


@reg("numpy.sum", "builtins.sum", "numpy.nansum", "math.fsum")
def _sum(I, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple)):
        for x in v:
            if isinstance(x, Top):
                return x
        if all(isnumeric(x) for x in v) and _ax(a, kw) is None:
            ts = [as_tensor(x) for x in v]
            if all(t.rank == 0 for t in ts):
                return simp(tm.add(*[tm.asnum(t.elem) for t in ts])) if ts else 0
        v = stack_values(list(v))
    return reduce_sum(as_tensor(v), _ax(a, kw), bool(kw.get("keepdims", False)))


def _pybuiltin_sum(I, a, kw):
    v = a[0]
    seq = I.concrete_iter(v)
    if seq is None:
        t = as_tensor(v)
        return reduce_sum(t, 0)
    out = a[1] if len(a) > 1 else 0
    for x in seq:
        if isinstance(out, int) and isinstance(x, int):
            out = out + x
        else:
            out = elementwise(num_elem(tm.add), out, x)
    return out


TABLE["builtins.sum"] = _pybuiltin_sum


def _count(t, axis):
    axes = range(t.rank) if axis is None else ([axis] if not isinstance(axis, list) else axis)
    if t.mask is not None:
        return reduce_sum(Tensor(t.dims, tm.asnum(t.mask)), axis)
    n = ONE
    for k in axes:
        n = tm.mul(n, t.dims[k % t.rank])
    return n


@reg("numpy.mean", "numpy.nanmean", "numpy.average")
def _mean(I, a, kw):
    t = as_tensor(a[0])
    ax = _ax(a, kw)
    w = kw.get("weights")
    if w is not None:
        return elementwise(num_elem(tm.div), reduce_sum(as_tensor(elementwise(num_elem(tm.mul), t, w)), ax),
                           reduce_sum(as_tensor(w), ax))
    return elementwise(num_elem(tm.div), reduce_sum(t, ax, bool(kw.get("keepdims", False))), _count(t, ax))


@reg("numpy.var", "numpy.nanvar")
def _var(I, a, kw):
    t = as_tensor(a[0])
    ax = _ax(a, kw)
    dd = num(kw.get("ddof", 0))
    mu = elementwise(num_elem(tm.div), reduce_sum(t, ax, True), _count(t, ax)) if ax is not None else \
        elementwise(num_elem(tm.div), reduce_sum(t), _count(t, None))
    c = elementwise(num_elem(tm.sub), t, mu)
    sq = elementwise(num_elem(tm.mul), c, c)
    return elementwise(num_elem(tm.div), reduce_sum(as_tensor(sq), ax, bool(kw.get("keepdims", False))),
                       elementwise(num_elem(tm.sub), _count(t, ax), dd))


@reg("numpy.std", "numpy.nanstd")
def _std(I, a, kw):
    return elementwise(num_elem(lambda x: fn("sqrt", x)), _var(I, a, kw))


@reg("numpy.prod", "math.prod", "numpy.product")
def _prod(I, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple)):
        out = ONE
        for x in v:
            out = elementwise(num_elem(tm.mul), out, x)
        return simp(out)

    def f(var, dim, body):
        if dim.op == "num":
            return tm.mul(*[tm.subst(body, {var: num(k)}) for k in range(int(dim.args[0]))])
        return mk("prod", var, dim, body)
    return reduce_sum(as_tensor(v), _ax(a, kw), bool(kw.get("keepdims", False)), f)


@reg("numpy.cumsum")
def _cumsum(I, a, kw):
    t = as_tensor(a[0])
    ax = _ax(a, kw)
    if ax is None:
        if t.rank > 1:
            t = as_tensor(reshape(t, (num(-1),)))
        ax = 0
    ax %= t.rank
    v = fresh("b")
    e = tm.subst(gate(t), {AX[ax]: v})
    return Tensor(t.dims, tm.ssum(v, t.dims[ax], ite(rel("<=", v, AX[ax]), e, ZERO)))


@reg("numpy.diff")
def _diff(I, a, kw):
    t = as_tensor(a[0])
    ax = _ax(a, kw, 2)
    ax = (t.rank - 1 if ax is None else ax % t.rank)
    dims = list(t.dims)
    dims[ax] = tm.sub(dims[ax], ONE)
    r = Tensor(tuple(dims), tm.sub(shift(t.elem, {AX[ax]: tm.add(AX[ax], ONE)}), t.elem))
    return r


def _extreme(sign):
    def g(I, a, kw):
        v = a[0]
        if isinstance(v, (list, tuple)):
            v = stack_values(list(v))
        t = as_tensor(v)

        def f(var, dim, body):
            if dim.op == "num":
                els = [tm.subst(body, {var: num(k)}) for k in range(int(dim.args[0]))]
                out = els[0]
                for e in els[1:]:
                    out = fn("maximum" if sign > 0 else "minimum", out, e)
                return out
            return mk("maxr", var, dim, body) if sign > 0 else tm.neg(mk("maxr", var, dim, tm.neg(body)))
        if t.mask is not None:
            raise TypeError("max of masked")
        return reduce_sum(t, _ax(a, kw), bool(kw.get("keepdims", False)), f)
    return g


TABLE["numpy.max"] = TABLE["numpy.amax"] = _extreme(1)
TABLE["numpy.min"] = TABLE["numpy.amin"] = _extreme(-1)


@reg("numpy.any", "numpy.all")
def _anyall(I, a, kw):
    t = as_tensor(a[0])
    ax = a[1] if len(a) > 1 else kw.get("axis")
    if t.elem is TRUE or t.elem is FALSE:
        if ax is None or t.rank <= 1:
            return t.elem is TRUE
        k = pyint(ax)
        if k is None or kw.get("keepdims"):
            return Top("any/all")
        k %= t.rank
        return Tensor(t.dims[:k] + t.dims[k + 1:], t.elem)
    return Top("any/all")


# ---------------------------------------------------------------- linear algebra
@reg("numpy.dot")
def _dot(I, a, kw):
    return contract(a[0], a[1])


@reg("numpy.matmul")
def _matmul(I, a, kw):
    return matmul(a[0], a[1])


@reg("numpy.inner", "numpy.vdot")
def _inner(I, a, kw):
    if as_tensor(a[0]).rank > 1 or as_tensor(a[1]).rank > 1:
        return Top("inner product of matrices")
    return contract(a[0], a[1])


TABLE["numpy.linalg.multi_dot"] = lambda I, a, kw: _multidot(a[0])


def _multidot(seq):
    r = seq[0]
    for x in seq[1:]:
        r = contract(r, x)
    return r


@reg("numpy.outer")
def _outer(I, a, kw):
    x, y = as_tensor(a[0]), as_tensor(a[1])
    return elementwise(num_elem(tm.mul), expand(x, 1), expand(y, 0))


@reg("numpy.kron")
def _kron(I, a, kw):
    x, y = as_tensor(a[0]), as_tensor(a[1])
    if x.rank != 2 or y.rank != 2:
        raise TypeError("kron rank")
    p, q = y.dims
    e = tm.mul(shift(x.elem, {AX[0]: fn("floordiv", AX[0], p), AX[1]: fn("floordiv", AX[1], q)}),
               shift(y.elem, {AX[0]: fn("mod", AX[0], p), AX[1]: fn("mod", AX[1], q)}))
    return Tensor((tm.mul(x.dims[0], p), tm.mul(x.dims[1], q)), e)


@reg("numpy.einsum")
def _einsum(I, a, kw):
    spec = a[0].replace(" ", "")
    ops = [as_tensor(x) for x in a[1:]]
    if "..." in spec:
        raise TypeError("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        allc = "".join(ins)
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims, var = {}, {}
    for c, t in zip(ins, ops):
        if len(c) != t.rank:
            raise TypeError("einsum rank")
        for ch, d in zip(c, t.dims):
            if ch not in dims or dims[ch] is ONE:
                dims[ch] = d
    for k, ch in enumerate(out):
        var[ch] = AX[k]
    for ch in dims:
        if ch not in var:
            var[ch] = fresh("e")
    e = ONE
    fs = []
    for c, t in zip(ins, ops):
        m = {AX[k]: (var[ch] if t.dims[k] is not ONE or dims[ch] is ONE else ZERO) for k, ch in enumerate(c)}
        fs.append(tm.subst(gate(t), m))
    e = tm.mul(*fs)
    for ch in dims:
        if ch not in out:
            e = tm.ssum(var[ch], dims[ch], e)
    r = ret(Tensor(tuple(dims[ch] for ch in out), e))
    if len(ops) == 1 and isinstance(r, Tensor) and set(ins[0]) == set(out):
        r.view = (ops[0], ins[0], out)
    return r


@reg("numpy.linalg.pinv", "scipy.linalg.pinv", "scipy.linalg.pinvh")
def _pinv(I, a, kw):
    if len(a) > 1 or kw:
        return Top("pinv options")
    t = as_tensor(a[0])
    r, c = fresh("r"), fresh("c")
    body = tm.subst(tm.asnum(t.elem), {AX[0]: r, AX[1]: c})
    return Tensor(t.dims, tm.mat("pinv", AX[0], AX[1], t.dims[0], body, r, c))


def _exact_inverse(M):
    n = len(M)
    A = [list(q) + [Fraction(int(i == j)) for j in range(n)] for i, q in enumerate(M)]
    for i in range(n):
        p = next((k for k in range(i, n) if A[k][i] != 0), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        d = A[i][i]
        A[i] = [x / d for x in A[i]]
        for k in range(n):
            if k != i and A[k][i] != 0:
                f = A[k][i]
                A[k] = [x - f * y for x, y in zip(A[k], A[i])]
    return [q[n:] for q in A]


@reg("numpy.linalg.inv", "scipy.linalg.inv")
def _inv(I, a, kw):
    t = as_tensor(a[0])
    n = concrete_dims(t)
    if n is not None and len(n) == 2 and n[0] == n[1] <= 12:
        M = dense_arr(t)
        M = [[tm.asnum(M[i, j]) for j in range(n[0])] for i in range(n[0])]
        if all(x.op == "num" for q in M for x in q):
            R = _exact_inverse([[x.args[0] for x in q] for q in M])
            if R is not None:
                return from_flat(n, [num(x) for q in R for x in q])
    r, c = fresh("r"), fresh("c")
    body = tm.subst(tm.asnum(t.elem), {AX[0]: r, AX[1]: c})
    return Tensor(t.dims, tm.mat("inv", AX[0], AX[1], t.dims[0], body, r, c))


@reg("numpy.linalg.solve", "scipy.linalg.solve")
def _solve(I, a, kw):
    return contract(_inv(I, a[:1], {}), a[1])


@reg("scipy.linalg.cho_factor")
def _cho_factor(I, a, kw):
    low = kw.get("lower", a[1] if len(a) > 1 else False)
    return (Obj(None, {"matrix": as_tensor(a[0])}, opaque="cholesky factor"), low)


@reg("scipy.linalg.cho_solve")
def _cho_solve(I, a, kw):
    c, low = a[0]
    if isinstance(c, Obj):
        return _solve(I, [c.attrs["matrix"], a[1]], {})
    if low not in (True, False):
        return Top("cho_solve lower flag")
    c = as_tensor(c)
    tri = TABLE["numpy.tril" if low else "numpy.triu"](I, [c], {})
    A = contract(tri, transpose(tri)) if low else contract(transpose(tri), tri)
    return _solve(I, [A, a[1]], {})


@reg("numpy.pad")
def _pad(I, a, kw):
    mode = kw.get("mode", a[2] if len(a) > 2 else "constant")
    cval = kw.get("constant_values", 0)
    if mode != "constant":
        return Top("pad mode")
    t = as_tensor(a[0])
    w = a[1]
    if isinstance(w, Tensor):
        return Top("pad widths")
    if not isinstance(w, (list, tuple)):
        w = [(w, w)] * t.rank
    elif not isinstance(w[0], (list, tuple)):
        w = [tuple(w) if len(w) == 2 else (w[0], w[0])] * t.rank
    elif len(w) == 1 and t.rank > 1:
        w = list(w) * t.rank
    if t.mask is not None or len(w) != t.rank:
        return Top("pad")
    dims, cond, m = [], TRUE, {}
    for k, (lo, hi) in enumerate(w):
        lo, hi = num(lo), num(hi)
        dims.append(tm.add(t.dims[k], lo, hi))
        if lo is not ZERO:
            cond = and_(cond, rel("<=", lo, AX[k]))
            m[AX[k]] = tm.sub(AX[k], lo)
        if hi is not ZERO:
            cond = and_(cond, rel("<", AX[k], tm.add(lo, t.dims[k])))
    return Tensor(tuple(dims), ite(cond, tm.subst(t.elem, m), num(cval)))


@reg("numpy.linalg.slogdet")
def _slogdet(I, a, kw):
    t = as_tensor(a[0])
    r, c = fresh("r"), fresh("c")
    body = tm.subst(tm.asnum(t.elem), {AX[0]: r, AX[1]: c})
    return (ONE, tm.mat("logdet", ZERO, ZERO, t.dims[0], body, r, c))


@reg("numpy.linalg.eigh", "scipy.linalg.eigh")
def _eigh(I, a, kw):
    if len(a) > 1 or kw:
        return Top("eigh options")
    t = as_tensor(a[0])
    r, c = fresh("r"), fresh("c")
    body = tm.subst(tm.asnum(t.elem), {AX[0]: r, AX[1]: c})
    return (Tensor(t.dims[:1], tm.mat("eigval", AX[0], ZERO, t.dims[0], body, r, c)),
            Tensor(t.dims, tm.mat("eigvec", AX[0], AX[1], t.dims[0], body, r, c)))


@reg("numpy.linalg.eigvalsh", "scipy.linalg.eigvalsh")
def _eigvalsh(I, a, kw):
    r = _eigh(I, a, kw)
    return r if isinstance(r, Top) else r[0]


@reg("numpy.linalg.det", "scipy.linalg.det")
def _det(I, a, kw):
    return fn("exp", _slogdet(I, a, kw)[1])


@reg("numpy.linalg.cholesky")
def _chol(I, a, kw):
    t = as_tensor(a[0])
    ns = concrete_dims(t)
    if ns is not None and len(ns) == 2 and ns[0] <= 4:
        A, n, L = dense_arr(t), ns[0], {}
        for i in range(n):
            for j in range(n):
                if j > i:
                    L[i, j] = ZERO
                    continue
                s = tm.sub(A[i, j], tm.add(*[tm.mul(L[i, k], L[j, k]) for k in range(j)]))
                L[i, j] = fn("sqrt", s) if i == j else tm.div(s, L[j, j])
        return from_flat((n, n), [L[i, j] for i in range(n) for j in range(n)])
    r, c = fresh("r"), fresh("c")
    body = tm.subst(tm.asnum(t.elem), {AX[0]: r, AX[1]: c})
    return Tensor(t.dims, tm.mat("chol", AX[0], AX[1], t.dims[0], body, r, c))


@reg("numpy.linalg.norm")
def _norm(I, a, kw):
    t = as_tensor(a[0])
    if len(a) > 1 or "ord" in kw:
        raise TypeError("norm ord")
    return elementwise(num_elem(lambda x: fn("sqrt", x)),
                       reduce_sum(as_tensor(elementwise(num_elem(tm.mul), t, t)), _ax(a, kw, 2),
                                  bool(kw.get("keepdims", False))))


@reg("numpy.transpose")
def _transpose(I, a, kw):
    perm = a[1] if len(a) > 1 else kw.get("axes")
    return ret(transpose(as_tensor(a[0]), None if perm is None else [pyint(x) for x in perm]))


@reg("numpy.swapaxes")
def _swap(I, a, kw):
    t = as_tensor(a[0])
    p = list(range(t.rank))
    i, j = pyint(a[1]), pyint(a[2])
    p[i], p[j] = p[j], p[i]
    return transpose(t, p)


@reg("numpy.moveaxis")
def _moveax(I, a, kw):
    t = as_tensor(a[0])
    i, j = pyint(a[1]) % t.rank, pyint(a[2]) % t.rank
    p = [k for k in range(t.rank) if k != i]
    p.insert(j, i)
    return transpose(t, p)


@reg("numpy.flip", "numpy.flipud")
def _flip(I, a, kw):
    t = as_tensor(a[0])
    ax = _ax(a, kw)
    if ax is None and t.rank > 1:
        raise TypeError("flip")
    ax = ax or 0
    return Tensor(t.dims, shift(t.elem, {AX[ax]: tm.sub(tm.sub(t.dims[ax], ONE), AX[ax])}), t.mask)


# ---------------------------------------------------------------- builtins
@reg("builtins.len")
def _len(I, a, kw):
    v = a[0]
    if isinstance(v, Tensor):
        if v.mask is not None:
            return reduce_sum(Tensor(v.dims, tm.asnum(v.mask)))
        return simp(v.dims[0])
    if isinstance(v, (list, tuple, dict, str, set, range)):
        return len(v)
    if isinstance(v, Obj) and v.cls is not None and I.p.find_method(v.cls, "__len__"):
        return I.call(I.getattr(v, "__len__"), [], {}, None)
    return Top("len")


@reg("builtins.iter")
def _iter(I, a, kw):
    s = I.concrete_iter(a[0]) if len(a) == 1 else None
    return Top("iter") if s is None else s


@reg("builtins.range")
def _range(I, a, kw):
    k = [pyint(x) for x in a]
    if any(x is None for x in k):
        return Top("symbolic range")
    return list(range(*k))


@reg("builtins.zip")
def _zip(I, a, kw):
    s = [I.concrete_iter(x) for x in a]
    if any(x is None for x in s):
        return Top("zip")
    return [tuple(x) for x in zip(*s)]


@reg("builtins.enumerate")
def _enum(I, a, kw):
    s = I.concrete_iter(a[0])
    if s is None:
        return Top("enumerate")
    st = pyint(kw.get("start", a[1] if len(a) > 1 else 0))
    return [(k + st, x) for k, x in enumerate(s)]


@reg("builtins.isinstance")
def _isinst(I, a, kw):
    v, c = a
    if isinstance(v, Top):
        return Top("isinstance")
    cs = c if isinstance(c, tuple) else (c,)
    res = False
    for k in cs:
        if isinstance(k, ClassVal):
            if isinstance(v, Obj) and v.cls is not None:
                res = res or (k.cls in I.p.mro(v.cls))
            elif isinstance(v, ClassVal):
                pass
            elif isinstance(v, Obj):
                return Top("isinstance opaque")
        elif isinstance(k, Ext):
            n = k.name
            if n in ("numpy.ndarray",):
                res = res or isinstance(v, Tensor)
            elif n in ("builtins.int", "numpy.integer", "numbers.Integral"):
                res = res or isinstance(v, int) or (isinstance(v, T) and pyint(v) is not None)
            elif n == "builtins.slice":
                res = res or isinstance(v, SliceVal)
            elif n in ("builtins.float", "numpy.floating", "numbers.Real", "numbers.Number", "numpy.float64", "builtins.complex"):
                res = res or (isinstance(v, T) or (isinstance(v, int) and n.startswith("numbers")))
            elif n == "builtins.str":
                res = res or isinstance(v, str)
            elif n == "builtins.list":
                res = res or isinstance(v, list)
            elif n == "builtins.tuple":
                res = res or isinstance(v, tuple)
            elif n == "builtins.dict":
                res = res or isinstance(v, dict)
            elif n == "builtins.type":
                res = res or isinstance(v, ClassVal)
            elif n.startswith("pandas."):
                if isinstance(v, Obj):
                    return Top("isinstance")
            else:
                if isinstance(v, Obj):
                    return Top("isinstance")
        else:
            return Top("isinstance")
    return res


@reg("builtins.type")
def _type(I, a, kw):
    v = a[0]
    if isinstance(v, Obj) and v.cls:
        return ClassVal(v.cls)
    if isinstance(v, Tensor):
        return Ext("numpy.ndarray")
    if isinstance(v, str):
        return Ext("builtins.str")
    if isinstance(v, int):
        return Ext("builtins.int")
    if isinstance(v, T):
        return Ext("builtins.float")
    if v is None:
        return Ext("builtins.NoneType")
    if isinstance(v, (list, tuple, dict)):
        return Ext("builtins." + type(v).__name__)
    return Top("type")


@reg("builtins.callable")
def _callable(I, a, kw):
    v = a[0]
    if isinstance(v, (FuncVal, Bound, PyFunc, ClassVal, Ext, Partial)):
        return True
    if isinstance(v, Obj):
        return bool(v.cls and I.p.find_method(v.cls, "__call__"))
    if isinstance(v, Top):
        return v
    return False


@reg("builtins.hasattr")
def _hasattr(I, a, kw):
    v, n = a
    if isinstance(v, Obj) and v.cls is not None and v.opaque is None:
        return n in v.attrs or bool(I.p.find_method(v.cls, n)) or bool(I.p.find_class_attr(v.cls, n))
    if isinstance(v, (Tensor, T, int)):
        return n in ("shape", "T", "ndim") if isinstance(v, Tensor) else False
    return Top("hasattr")


@reg("builtins.getattr")
def _getattr(I, a, kw):
    if isinstance(a[1], str):
        v = I.getattr(a[0], a[1], None, None)
        if isinstance(v, Top) and len(a) > 2:
            return a[2]
        return v
    return Top("getattr")


@reg("builtins.setattr")
def _setattr(I, a, kw):
    if isinstance(a[0], Obj) and isinstance(a[1], str):
        a[0].attrs[a[1]] = a[2]
    return None


@reg("builtins.float", "builtins.int", "builtins.bool", "numpy.int64", "numpy.int32", "numpy.double", "numpy.intp")
def _float(I, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        return Top("float(str)")
    if isinstance(v, (int, T)):
        return v
    return simp(toterm(v))


def _int(I, a, kw):
    v = a[0]
    if isinstance(v, int):
        return v
    t = toterm(v)
    if t.op == "num":
        return int(t.args[0])
    return t


TABLE["builtins.int"] = _int


@reg("builtins.bool")
def _bool(I, a, kw):
    c = I.truth(a[0])
    return Top("bool") if c is None else c


@reg("builtins.str", "builtins.repr")
def _str(I, a, kw):
    return str(a[0]) if isinstance(a[0], (str, int)) else "<str>"


@reg("builtins.abs")
def _abs(I, a, kw):
    if isinstance(a[0], int):
        return abs(a[0])
    return elementwise(num_elem(lambda x: fn("abs", x)), a[0])


def _pymax(sign):
    def g(I, a, kw):
        vals = I.concrete_iter(a[0]) if len(a) == 1 else list(a)
        if vals is None:
            return _extreme(sign)(I, a, {})
        if all(isinstance(v, int) for v in vals):
            return max(vals) if sign > 0 else min(vals)
        out = toterm(vals[0])
        for v in vals[1:]:
            out = fn("maximum" if sign > 0 else "minimum", out, toterm(v))
        return out
    return g


TABLE["builtins.max"], TABLE["builtins.min"] = _pymax(1), _pymax(-1)


@reg("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed")
def _list(I, a, kw):
    if not a:
        return []
    s = I.concrete_iter(a[0])
    if s is None:
        return Top("list of symbolic")
    return list(s)


TABLE["builtins.tuple"] = lambda I, a, kw: (lambda s: Top("tuple") if s is None else tuple(s))(I.concrete_iter(a[0]) if a else [])
TABLE["builtins.reversed"] = lambda I, a, kw: (lambda s: Top("reversed") if s is None else list(reversed(s)))(I.concrete_iter(a[0]))


def _plain(v):
    """python value of a fully known element (ints, strings, tuples of them)"""
    if isinstance(v, (str, int)):
        return v
    if isinstance(v, (tuple, list)):
        return tuple(_plain(x) for x in v)
    k = pyint(toterm(v))
    if k is None:
        raise TypeError("unknown sort key")
    return k


def _sorted(I, a, kw):
    s = I.concrete_iter(a[0])
    if s is None:
        return Top("sorted")
    key = kw.get("key")
    try:
        ks = [_plain(v if key is None else I.call(key, [v], {}, None)) for v in s]
        order = sorted(range(len(ks)), key=lambda q: ks[q], reverse=bool(kw.get("reverse", False)))
        return [s[q] for q in order]
    except TypeError:
        return Top("sorted")


TABLE["builtins.sorted"] = _sorted


@reg("builtins.dict")
def _dict(I, a, kw):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            s = I.concrete_iter(a[0])
            if s is None:
                return Top("dict")
            for x in s:
                d[x[0]] = x[1]
    d.update(kw)
    return d


@reg("builtins.set")
def _set(I, a, kw):
    try:
        return set(I.concrete_iter(a[0])) if a else set()
    except TypeError:
        return Top("set")


@reg("builtins.map")
def _map(I, a, kw):
    ss = [I.concrete_iter(x) for x in a[1:]]
    if any(s is None for s in ss):
        return Top("map")
    return [I.call(a[0], list(x), {}, None) for x in zip(*ss)]


@reg("builtins.print", "warnings.warn")
def _print(I, a, kw):
    return None


@reg("builtins.slice")
def _slice(I, a, kw):
    if len(a) == 1:
        return SliceVal(None, a[0], None)
    return SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)


@reg("builtins.any", "builtins.all")
def _pyany(I, a, kw):
    return Top("any")


def _pyanyall(isany):
    def g(I, a, kw):
        s = I.concrete_iter(a[0])
        if s is None:
            return Top("any")
        ts = [I.truth(x) for x in s]
        if any(t is None for t in ts):
            return Top("any")
        ts = [TRUE if t is True else FALSE if t is False else t for t in ts]
        r = or_(*ts) if isany else and_(*ts)
        return True if r is TRUE else False if r is FALSE else r
    return g


TABLE["builtins.any"], TABLE["builtins.all"] = _pyanyall(True), _pyanyall(False)


@reg("builtins.pow")
def _pow(I, a, kw):
    return elementwise(num_elem(tm.power), a[0], a[1])


@reg("functools.partial")
def _partial(I, a, kw):
    return Partial(a[0], a[1:], kw)


@reg("numpy.isscalar")
def _isscalar(I, a, kw):
    return isinstance(a[0], (T, int, str))


@reg("numpy.ndim")
def _ndim(I, a, kw):
    return as_tensor(a[0]).rank


@reg("numpy.shape")
def _npshape(I, a, kw):
    return tuple(simp(d) for d in as_tensor(a[0]).dims)


@reg("numpy.size")
def _npsize(I, a, kw):
    t = as_tensor(a[0])
    return simp(tm.mul(ONE, *t.dims)) if len(a) == 1 else simp(t.dims[pyint(a[1])])


@reg("numpy.allclose", "numpy.array_equal", "numpy.isclose")
def _allclose(I, a, kw):
    return Top("allclose")


@reg("numpy.finfo")
def _finfo(I, a, kw):
    return Obj(None, {"eps": num(Fraction(1, 2 ** 52)), "tiny": num(Fraction(1, 2 ** 1022)),
                      "max": num(Fraction(10) ** 300)})


@reg("numpy.errstate", "numpy.seterr", "warnings.catch_warnings", "warnings.simplefilter")
def _noop(I, a, kw):
    return None


@reg("numpy.vander")
def _vander(I, a, kw):
    raise TypeError("vander")


@reg("numpy.ufunc")
def _uf(I, a, kw):
    raise TypeError("ufunc")


# ---------------------------------------------------------------- dispatch
def call(I, name, args, kw, node, env):
    name = canon(name)
    for v in list(args) + list(kw.values()):
        if isinstance(v, Top):
            if name in ("builtins.isinstance", "builtins.print", "builtins.getattr", "builtins.setattr"):
                continue
            return v
    f = TABLE.get(name)
    if f is None:
        return I.top("external call " + name, node, env)
    isbool = False
    if name.startswith("numpy.") or name.startswith("scipy.special"):
        isbool = as_bool(kw.get("dtype"))
        kw = {k: v for k, v in kw.items() if k not in ("dtype", "copy", "casting", "out")}
    r = f(I, list(args), kw)
    return tobool(r) if isbool and isinstance(r, (Tensor, T)) else r


def as_bool(d):
    return d == "bool" if isinstance(d, str) else isinstance(d, Ext) and d.name in ("builtins.bool", "numpy.bool_", "numpy.bool")


def tobool(r):
    t = as_tensor(r)
    return r if t.elem.op in COND else ret(Tensor(t.dims, rel("!=", t.elem, ZERO), t.mask))


_METH = {"sum": "numpy.sum", "mean": "numpy.mean", "var": "numpy.var", "std": "numpy.std", "prod": "numpy.prod",
         "cumsum": "numpy.cumsum", "max": "numpy.max", "min": "numpy.min", "dot": "numpy.dot", "ravel": "numpy.ravel",
         "flatten": "numpy.ravel", "squeeze": "numpy.squeeze", "trace": "numpy.trace", "diagonal": "numpy.diagonal",
         "any": "numpy.any", "all": "numpy.all", "clip": "numpy.clip", "nonzero": "numpy.nonzero",
         "swapaxes": "numpy.swapaxes", "repeat": "numpy.repeat", "round": "numpy.round"}


def method(I, t, name, args, kw, node, env):
    for v in list(args) + list(kw.values()):
        if isinstance(v, Top) and not isinstance(t, (list, dict)):
            return v
    if isinstance(t, list):
        if name == "append":
            t.append(args[0])
            return None
        if name == "extend":
            s = I.concrete_iter(args[0])
            if s is None:
                return Top("extend")
            t.extend(s)
            return None
        if name == "insert" and pyint(args[0]) is not None:
            t.insert(pyint(args[0]), args[1])
            return None
        if name == "pop":
            return t.pop(*[pyint(x) for x in args]) if t else Top("pop")
        if name == "copy":
            return list(t)
        if name == "index" and args[0] in t:
            return t.index(args[0])
        return Top("list." + name)
    if isinstance(t, dict):
        if name == "items":
            return [(k, v) for k, v in t.items()]
        if name == "keys":
            return list(t.keys())
        if name == "values":
            return list(t.values())
        if name == "get":
            k = args[0]
            return t.get(k, args[1] if len(args) > 1 else None) if isinstance(k, (str, int)) or k is None else Top("get")
        if name == "copy":
            return dict(t)
        if name == "update":
            if args and isinstance(args[0], dict):
                t.update(args[0])
            t.update(kw)
            return None
        if name == "pop":
            k = args[0]
            if k in t:
                return t.pop(k)
            return args[1] if len(args) > 1 else Top("pop")
        if name == "setdefault":
            return t.setdefault(args[0], args[1] if len(args) > 1 else None)
        return Top("dict." + name)
    if isinstance(t, str):
        if name in ("lower", "upper", "strip", "title", "replace", "find", "count", "lstrip", "rstrip", "isdigit", "isnumeric") and \
                all(isinstance(a, (str, int)) for a in args) and t != "<str>":
            return getattr(t, name)(*args)
        if name in ("startswith", "endswith") and isinstance(args[0], str):
            return getattr(t, name)(args[0])
        if name == "format":
            return "<str>"
        if name == "split":
            return t.split(*[a for a in args])
        if name == "join":
            l = I.concrete_iter(args[0])
            if l is not None and all(isinstance(x, str) and "<str>" not in x for x in l):
                return t.join(l)
            return "<str>"
        return Top("str." + name)
    if isinstance(t, (tuple, set)):
        if isinstance(t, set) and name == "add":
            t.add(args[0])
            return None
        return Top("tuple." + name)
    tt = as_tensor(t)
    if isinstance(t, Sparse):
        if name == "dot":
            r = contract(t, args[0])
            return Sparse(r.dims, r.elem, arr=t.arr, fmt=t.fmt if t.fmt in ("csc", "csr") else None) if isinstance(args[0], Sparse) else r
        if name in ("eliminate_zeros", "sort_indices") and t.pat is not None:
            q = Sparse(t.dims, t.elem, t.mask, arr=t.arr, fmt=t.fmt)
            if name == "sort_indices" and t.fmt in ("csc", "csr"):
                q.pat = sorted(t.pat, key=(lambda e: (e[1], e[0])) if q.fmt == "csc" else None)
            if q.pat != t.pat:
                I.inplace(t, q)
            return None
        if name in ("copy", "astype", "tocsc", "tocsr", "tocoo", "tolil", "todok", "todia", "eliminate_zeros", "sort_indices",
                    "sum_duplicates", "sorted_indices"):
            q = Sparse(t.dims, t.elem, t.mask, arr=t.arr, fmt={"tocsc": "csc", "tocsr": "csr", "todia": "dia"}.get(name, t.fmt))
            if name == "todia":
                return q
            if t.pat is not None and name != "eliminate_zeros":
                q.pat = t.pat if q.fmt == t.fmt else sorted(t.pat, key=(lambda e: (e[1], e[0])) if q.fmt == "csc" else None)
            return q
        if name == "multiply":
            return elementwise(num_elem(tm.mul), Tensor(t.dims, t.elem), args[0])
        if name == "transpose":
            return sparse_T(t, transpose(tt))
        if name == "reshape":
            r = reshape(Tensor(t.dims, t.elem), _shape(tuple(args[0]) if isinstance(args[0], (tuple, list)) else tuple(args)),
                        kw.get("order", "C"))
            return Sparse(r.dims, r.elem, arr=t.arr)
    if name in ("copy", "astype", "toarray", "todense", "to_numpy", "tocsc", "tocsr", "view", "conj", "tolist", "item"):
        if name == "item":
            return simp(toterm(t))
        if name == "astype" and args and as_bool(args[0]):
            return tobool(t)
        if name == "tolist":
            s = I.concrete_iter(tt)
            return Top("tolist") if s is None else s
        return ret(Tensor(tt.dims, tt.elem if name != "astype" or tt.elem.op not in COND else tm.asnum(tt.elem), tt.mask))
    if name == "reshape":
        order = kw.get("order", "C")
        if len(args) == 1 and isinstance(args[0], (tuple, list)):
            args = args[0]
        r = reshape(tt, _shape(tuple(args)), order)
        if isinstance(r, Tensor) and r is not t and isinstance(t, Tensor):
            r.base = t
        return r
    if name in ("flatten", "ravel"):
        order = kw.get("order", args[0] if args else "C")
        return reshape(tt, (num(-1),), order)
    if name == "transpose":
        if len(args) == 1 and isinstance(args[0], (tuple, list)):
            args = args[0]
        return ret(transpose(tt, [pyint(x) for x in args] if args else None))
    if name == "fill" or name == "sort":
        return None
    if name in _METH:
        return call(I, _METH[name], [t] + list(args), kw, node, env)
    return I.top("array method " + name, node, env)


@reg("scipy.integrate.quad")
def _quad(I, a, kw):
    """the integrand at a fresh symbolic abscissa stands for the integral; checks compare integrands"""
    f = kw.get("func", a[0] if a else None)
    v = I.call(f, [sym("quad.x", dom="real")], {}, None)
    return (v, Top("quadrature error estimate"))
