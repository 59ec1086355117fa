"""Transfer functions for concrete-shape index arithmetic and sparse-matrix constructors.

A scipy sparse matrix is abstracted by its dense symbolic value (`Sparse`, a Tensor whose `*` is the matrix
product); index arrays of known size are tables of terms, so masks with known entries select known elements.
"""
import bisect
import fractions
import itertools
from .npmodel import *
from .npmodel import TABLE, reg, _shape, _ax, _ints, reshape, _cond, call as npcall, method as it_npmethod
from .terms import *
from . import terms as tm
from . import interp as it_
from .interp import Tensor, Sparse, AX, as_tensor, pyint, getitem, concrete_dims, elem_at, from_flat, concrete_mask

LIM = 6000


def entries(t):
    """[(index tuple, term)] of a tensor of known shape"""
    t = as_tensor(t)
    ns = concrete_dims(t, LIM)
    if ns is None:
        raise TypeError("symbolic shape")
    return ns, [(ix, elem_at(t, ix)) for ix in itertools.product(*[range(n) for n in ns])]


def ints(t):
    ns, es = entries(t)
    out = [pyint(tm.asnum(e)) for _, e in es]
    if any(v is None for v in out):
        raise TypeError("symbolic index array")
    return out


def sparse(t, arr=False, fmt=None):
    return Sparse(t.dims, t.elem, t.mask, arr=arr, fmt=fmt)


FORMATS = ["csc", "csr", "coo", "lil", "dok", "bsr", "dia"]


def _build(fmt, arr=False):
    def g(I, a, kw):
        arg = a[0] if a else kw.get("arg1")
        shape = kw.get("shape", a[1] if len(a) > 1 else None)
        if isinstance(arg, Tensor):
            return sparse(arg, arr, fmt)
        if isinstance(arg, (tuple, list)) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            data, (r, c) = arg
            rs, cs = ints(r), ints(c)
            _, ds = entries(data)
            if shape is None:
                shape = (max(rs) + 1 if rs else 0, max(cs) + 1 if cs else 0)
            nr, nc = [pyint(tm.asnum(toterm(x))) for x in shape]
            acc = {}
            if not (len(ds) == len(rs) == len(cs)):
                return Top("coordinate lists of different length", definite=True)
            for (_, d), i, j in zip(ds, rs, cs):
                if not (0 <= i < nr and 0 <= j < nc):
                    return Top("coordinate outside the matrix", definite=True)
                acc[i, j] = tm.add(acc.get((i, j), ZERO), tm.asnum(d))
            r_ = sparse(from_flat((nr, nc), [acc.get(ix, ZERO) for ix in itertools.product(range(nr), range(nc))]), arr, fmt)
            if fmt in ("csc", "csr"):
                r_.pat = sorted(acc, key=(lambda q: (q[1], q[0])) if fmt == "csc" else None)
            return r_
        if isinstance(arg, (tuple, list)) and len(arg) == 3 and fmt in ("csc", "csr"):
            data, ind, ptr = arg
            _, ds = entries(data)
            ii, pp = ints(ind), ints(ptr)
            if shape is None:
                raise TypeError("compressed constructor without a shape")
            nr, nc = [pyint(tm.asnum(toterm(x))) for x in shape]
            acc = {}
            for k in range(len(pp) - 1):
                for q in range(pp[k], pp[k + 1]):
                    ix = (ii[q], k) if fmt == "csc" else (k, ii[q])
                    acc[ix] = tm.add(acc.get(ix, ZERO), tm.asnum(ds[q][1]))
            return sparse(from_flat((nr, nc), [acc.get(ix, ZERO) for ix in itertools.product(range(nr), range(nc))]), arr, fmt)
        if isinstance(arg, (tuple, list)) and len(arg) == 2:
            if any(not isinstance(x, (int, T)) for x in arg):
                return sparse(stack_values(list(arg)), arr, fmt)
            return sparse(Tensor(_shape(arg), ZERO), arr, fmt)
        return Top("sparse constructor")
    return g


for f in FORMATS:
    for suf in ("_matrix", "_array"):
        TABLE["scipy.sparse." + f + suf] = _build(f, suf == "_array")
        TABLE["scipy.sparse.%s%s.dot" % (f, suf)] = lambda I, a, kw: it_.contract(a[0], a[1])


@reg("scipy.sparse.eye", "scipy.sparse.identity", "scipy.sparse.eye_array")
def _speye(I, a, kw):
    n = toterm(a[0])
    m = toterm(a[1]) if len(a) > 1 and a[1] is not None else n
    k = pyint(kw.get("k", a[2] if len(a) > 2 else 0))
    return sparse(Tensor((n, m), delta(tm.add(AX[0], num(k)), AX[1])), fmt=kw.get("format") or ("dia" if k == 0 else None))


@reg("scipy.sparse.kron")
def _spkron(I, a, kw):
    return sparse(npcall(I, "numpy.kron", [as_tensor(a[0]), as_tensor(a[1])], {}, None, None))


@reg("scipy.sparse.diags", "scipy.sparse.diags_array", "scipy.sparse.spdiags")
def _spdiags(I, a, kw):
    t = as_tensor(a[0])
    if t.rank == 2 and t.dims[0] is ONE:
        t = as_tensor(getitem(t, (0,)))
    if t.rank != 1:
        raise TypeError("several diagonals")
    off = a[1] if len(a) > 1 else kw.get("offsets", 0)
    if isinstance(off, (list, tuple)):
        off = off[0]
    if pyint(off) != 0:
        raise TypeError("offset diagonal")
    return sparse(Tensor((t.dims[0], t.dims[0]), ite(rel("==", AX[0], AX[1]), tm.asnum(t.elem), ZERO)), fmt=kw.get("format") or "dia")


def _spstack(axis):
    def g(I, a, kw):
        f = kw.get("format", a[1] if len(a) > 1 else None)
        ts = list(a[0])
        r = sparse(concat([as_tensor(x) for x in ts], axis), fmt=f)
        if all(isinstance(x, Sparse) and (x.pat is not None or x.fmt in ("csc", "csr")) for x in ts) and f in ("csc", "csr"):
            pat, off = [], 0
            for x in ts:
                pat += [(i, j + off) if axis else (i + off, j) for i, j in it_.pattern(x)]
                off += concrete_dims(x)[axis]
            r.pat = sorted(pat, key=(lambda e: (e[1], e[0])) if f == "csc" else None)
        return r
    return g


TABLE["scipy.sparse.vstack"] = _spstack(0)
TABLE["scipy.sparse.hstack"] = _spstack(1)


@reg("scipy.sparse.block_diag")
def _spblockdiag(I, a, kw):
    ts = list(a[0])
    r = sparse(_blockdiag(I, a, {}), fmt=kw.get("format", a[1] if len(a) > 1 else None) or "coo")
    pat, i, j = [], 0, 0
    for t in ts:
        ns = concrete_dims(as_tensor(t))
        if isinstance(t, Sparse) and (t.pat is not None or t.fmt in ("csc", "csr")):
            q = it_.pattern(t)
        elif isinstance(t, Sparse):
            return r
        else:
            q = [(x, y) for x in range(ns[0]) for y in range(ns[1])]
        pat += [(x + i, y + j) for x, y in q]
        i, j = i + ns[0], j + ns[1]
    r.pat = sorted(pat, key=lambda e: (e[1], e[0])) if r.fmt == "csc" else sorted(pat)
    return r


@reg("scipy.sparse.bmat", "scipy.sparse.block_array")
def _bmat(I, a, kw):
    rows = [list(r) for r in a[0]]
    hs = [next(as_tensor(b).dims[0] for b in r if b is not None) for r in rows]
    ws = [next(as_tensor(r[k]).dims[1] for r in rows if r[k] is not None) for k in range(len(rows[0]))]
    full = [concat([as_tensor(b) if b is not None else Tensor((h, ws[k]), ZERO) for k, b in enumerate(r)], 1) for r, h in zip(rows, hs)]
    return sparse(concat(full, 0), fmt=kw.get("format", a[1] if len(a) > 1 else None) or "coo")


@reg("scipy.linalg.block_diag")
def _blockdiag(I, a, kw):
    ts = [as_tensor(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    ts = [expand(t, 0) if t.rank == 1 else t for t in ts]
    r = c = 0
    acc = {}
    for t in ts:
        ns, es = entries(t)
        for ix, e in es:
            acc[ix[0] + r, ix[1] + c] = tm.asnum(e)
        r, c = r + ns[0], c + ns[1]
    return from_flat((r, c), [acc.get(ix, ZERO) for ix in itertools.product(range(r), range(c))])


@reg("scipy.sparse.issparse", "scipy.sparse.isspmatrix")
def _issp(I, a, kw):
    return isinstance(a[0], Sparse)


@reg("numpy.ndindex")
def _ndindex(I, a, kw):
    s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
    ns = [pyint(x) for x in s]
    if any(n is None for n in ns):
        return Top("ndindex over a symbolic shape")
    return list(itertools.product(*[range(n) for n in ns]))


@reg("numpy.indices")
def _indices(I, a, kw):
    dims = _shape(a[0])
    return tuple(Tensor(dims, AX[k]) for k in range(len(dims)))


@reg("numpy.meshgrid")
def _meshgrid(I, a, kw):
    ts = [as_tensor(x) for x in a]
    r = len(ts)
    order = list(range(r))
    if kw.get("indexing", "xy") == "xy" and r >= 2:
        order[0], order[1] = 1, 0
    dims = [None] * r
    for k, t in enumerate(ts):
        dims[order[k]] = t.dims[0]
    return [Tensor(tuple(dims), shift(t.elem, {AX[0]: AX[order[k]]})) for k, t in enumerate(ts)]


@reg("numpy.tri")
def _tri(I, a, kw):
    n = num(a[0])
    m = num(a[1]) if len(a) > 1 and a[1] is not None else num(kw.get("M") or n)
    k = num(a[2]) if len(a) > 2 else num(kw.get("k", 0))
    return Tensor((n, m), ite_num(rel("<=", AX[1], tm.add(AX[0], k))))


@reg("numpy.unravel_index")
def _unravel(I, a, kw):
    shape = [num(x) for x in _shape(a[1] if len(a) > 1 else kw["shape"])]
    order = kw.get("order", a[2] if len(a) > 2 else "C")
    t = as_tensor(a[0])
    out = [None] * len(shape)
    ks = list(range(len(shape)))
    e = tm.asnum(t.elem)
    for k in (ks if order == "F" else ks[::-1]):
        out[k] = ret(Tensor(t.dims, fn("mod", e, shape[k])))
        e = fn("floordiv", e, shape[k])
    return tuple(out)


@reg("numpy.ravel_multi_index")
def _ravel_mi(I, a, kw):
    shape = [num(x) for x in _shape(a[1] if len(a) > 1 else kw["dims"])]
    order = kw.get("order", a[3] if len(a) > 3 else "C")
    ts = list(a[0])
    acc, st = num(0), ONE
    ks = list(range(len(shape)))
    out = as_tensor(0)
    for k in (ks if order == "F" else ks[::-1]):
        out = elementwise(num_elem(lambda x, y: tm.add(x, tm.mul(y, st))), out, ts[k])
        st = tm.mul(st, shape[k])
    return out


@reg("numpy.argsort")
def _argsort(I, a, kw):
    if concrete_dims(as_tensor(a[0])) == [1]:
        return _ints([0])
    v = ints(a[0])
    return _ints(sorted(range(len(v)), key=lambda k: v[k]))


@reg("numpy.lexsort")
def _lexsort(I, a, kw):
    keys = a[0]
    if isinstance(keys, Tensor):
        keys = [getitem(keys, num(k)) for k in range(concrete_dims(keys)[0])]
    ks = [ints(k) for k in keys]
    n = len(ks[0])
    return _ints(sorted(range(n), key=lambda i: tuple(k[i] for k in reversed(ks))))


@reg("numpy.sort")
def _sort(I, a, kw):
    return _ints(sorted(ints(a[0])))


@reg("numpy.unique")
def _unique(I, a, kw):
    v = ints(a[0])
    u = sorted(set(v))
    out = [_ints(u)]
    if kw.get("return_index"):
        out.append(_ints([v.index(x) for x in u]))
    if kw.get("return_inverse"):
        out.append(_ints([u.index(x) for x in v]))
    if kw.get("return_counts"):
        out.append(_ints([v.count(x) for x in u]))
    return out[0] if len(out) == 1 else tuple(out)


@reg("itertools.product")
def _product(I, a, kw):
    ls = [I.concrete_iter(x) for x in a]
    if any(l is None for l in ls):
        return Top("product over a symbolic range")
    return list(itertools.product(*ls, repeat=pyint(kw.get("repeat", 1))))


def _itr(f):
    def g(I, a, kw):
        l = I.concrete_iter(a[0])
        if l is None:
            return Top("iteration over a symbolic range")
        return list(f(l, pyint(a[1] if len(a) > 1 else kw.get("r", len(l)))))
    return g


TABLE["itertools.combinations"] = _itr(itertools.combinations)
TABLE["itertools.combinations_with_replacement"] = _itr(itertools.combinations_with_replacement)
TABLE["itertools.permutations"] = _itr(itertools.permutations)


def _tri_idx2(lower):
    def g(I, a, kw):
        n = pyint(a[0] if a else kw["n"])
        k = pyint(a[1]) if len(a) > 1 else pyint(kw.get("k", 0))
        m = a[2] if len(a) > 2 else kw.get("m")
        m = n if m is None else pyint(m)
        if n is None or m is None or k is None:
            raise TypeError("symbolic tril_indices")
        prs = [(i, j) for i in range(n) for j in range(m) if (j <= i + k if lower else j >= i + k)]
        return (_ints([p[0] for p in prs]), _ints([p[1] for p in prs]))
    return g


TABLE["numpy.tril_indices"] = _tri_idx2(True)
TABLE["numpy.triu_indices"] = _tri_idx2(False)

_where0 = TABLE["numpy.where"]


def _where2(I, a, kw):
    if len(a) == 1:
        t = as_tensor(a[0])
        sel = concrete_mask(Tensor(t.dims, _cond(t.elem)))
        if sel is not None and t.mask is None:
            return tuple(_ints([s[k] for s in sel]) for k in range(t.rank))
    return _where0(I, a, kw)


TABLE["numpy.where"] = TABLE["numpy.nonzero"] = _where2
TABLE["numpy.flatnonzero"] = lambda I, a, kw: _where2(I, [reshape(as_tensor(a[0]), (num(-1),))] if as_tensor(a[0]).rank > 1 else a[:1], kw)[0]
_diag0 = TABLE["numpy.diag"]


@reg("numpy.diag")
def _diag2(I, a, kw):
    k = pyint(a[1] if len(a) > 1 else kw.get("k", 0))
    t = as_tensor(a[0])
    if not k:
        if t.rank == 2 and t.dims[0] is not t.dims[1] and t.dims[0].op == "num" and t.dims[1].op == "num":
            d = num(min(nval(t.dims[0]), nval(t.dims[1])))
            return Tensor((d,), shift(t.elem, {AX[1]: AX[0]}))
        return _diag0(I, a[:1], {})
    if t.rank == 1:
        n = tm.add(t.dims[0], num(abs(k)))
        i = AX[0] if k > 0 else AX[1]
        return Tensor((n, n), ite(rel("==", AX[1], tm.add(AX[0], num(k))), shift(tm.asnum(t.elem), {AX[0]: i}), ZERO))
    if t.dims[0] is not t.dims[1]:
        raise TypeError("offset diagonal of a rectangle")
    return Tensor((tm.sub(t.dims[0], num(abs(k))),), shift(t.elem, {AX[0]: tm.add(AX[0], num(max(-k, 0))), AX[1]: tm.add(AX[0], num(max(k, 0)))}))


@reg("numpy.roll")
def _roll(I, a, kw):
    t = as_tensor(a[0])
    ax = _ax(a, kw, 2)
    if ax is None and t.rank > 1:
        raise TypeError("flat roll")
    ax = (ax or 0) % t.rank
    return Tensor(t.dims, shift(t.elem, {AX[ax]: fn("mod", tm.sub(AX[ax], toterm(a[1])), t.dims[ax])}))


@reg("numpy.logical_not", "numpy.invert", "numpy.bitwise_not")
def _lnot(I, a, kw):
    return elementwise(lambda c: not_(_cond(c)), a[0])


@reg("numpy.logical_and", "numpy.bitwise_and")
def _land(I, a, kw):
    return elementwise(lambda x, y: and_(_cond(x), _cond(y)), a[0], a[1])


@reg("numpy.logical_or", "numpy.bitwise_or")
def _lor(I, a, kw):
    return elementwise(lambda x, y: or_(_cond(x), _cond(y)), a[0], a[1])


@reg("numpy.cumprod")
def _cumprod(I, a, kw):
    t = as_tensor(a[0])
    ns, es = entries(t)
    ax = kw.get("axis", a[1] if len(a) > 1 else None)
    if len(ns) != 1 and ax is None:
        raise TypeError("cumprod of a matrix")
    import numpy as np
    d = it_.dense_arr(t).copy()
    d = np.moveaxis(d, 0 if ax is None else pyint(ax), 0)
    for k in range(1, d.shape[0]):
        for ix in np.ndindex(*d.shape[1:]):
            d[(k,) + ix] = tm.mul(tm.asnum(d[(k - 1,) + ix]), tm.asnum(d[(k,) + ix]))
    return it_.from_arr(np.moveaxis(d, 0, 0 if ax is None else pyint(ax)))


@reg("builtins.divmod")
def _divmod(I, a, kw):
    x, y = pyint(toterm(a[0])), pyint(toterm(a[1]))
    if x is None or y is None or y == 0:
        raise TypeError("divmod of unknown numbers")
    return divmod(x, y)


@reg("numpy.argwhere")
def _argwhere(I, a, kw):
    t = as_tensor(a[0])
    ns, es = entries(t)
    out = []
    for ix, e in es:
        v = pyint(tm.asnum(e))
        if v is None:
            raise TypeError("symbolic mask")
        if v:
            out.extend(num(k) for k in ix)
    return from_flat((len(out) // len(ns), len(ns)), out)


@reg("numpy.intersect1d", "numpy.union1d", "numpy.setdiff1d")
def _set1d(I, a, kw):
    raise TypeError("set operation")


TABLE["numpy.intersect1d"] = lambda I, a, kw: _ints(sorted(set(ints(a[0])) & set(ints(a[1]))))
TABLE["numpy.union1d"] = lambda I, a, kw: _ints(sorted(set(ints(a[0])) | set(ints(a[1]))))
TABLE["numpy.setdiff1d"] = lambda I, a, kw: _ints(sorted(set(ints(a[0])) - set(ints(a[1]))))


@reg("builtins.dict.fromkeys")
def _fromkeys(I, a, kw):
    l = I.concrete_iter(a[0])
    if l is None or not all(isinstance(k, (str, int, tuple)) for k in l):
        return Top("keys of unknown length")
    return dict.fromkeys(l, a[1] if len(a) > 1 else None)


@reg("scipy.linalg.lapack.dtrtri")
def _dtrtri(I, a, kw):
    """inverse of a triangular matrix; only the named triangle is read"""
    t = as_tensor(a[0])
    low = pyint(kw.get("lower", a[1] if len(a) > 1 else 0))
    unit = pyint(kw.get("unitdiag", 0))
    if low is None or unit != 0:
        raise TypeError("dtrtri mode")
    keep = rel("<=", AX[1], AX[0]) if low else rel("<=", AX[0], AX[1])
    return (npcall(I, "numpy.linalg.inv", [Tensor(t.dims, ite(keep, tm.asnum(t.elem), ZERO))], {}, None, None), 0)


@reg("scipy.linalg.cholesky")
def _spchol(I, a, kw):
    low = kw.get("lower", a[1] if len(a) > 1 else False)
    L = npcall(I, "numpy.linalg.cholesky", [as_tensor(a[0])], {}, None, None)
    if low is True or pyint(low) == 1:
        return L
    if low is False or pyint(low) == 0:
        return it_.transpose(L)
    raise TypeError("unknown triangle")


@reg("scipy.linalg.khatri_rao")
def _khatri(I, a, kw):
    """column-wise Kronecker product"""
    A, B = as_tensor(a[0]), as_tensor(a[1])
    m, n, k = concrete_dims(A)[0], concrete_dims(B)[0], concrete_dims(A)[1]
    if concrete_dims(B)[1] != k:
        return Top("khatri_rao of different column numbers", definite=True)
    x, y = it_.dense_arr(A), it_.dense_arr(B)
    return from_flat((m * n, k), [tm.mul(tm.asnum(x[i, c]), tm.asnum(y[j, c])) for i in range(m) for j in range(n) for c in range(k)])


@reg("scipy.sparse.csc_array.dot", "scipy.sparse.csc_matrix.dot", "scipy.sparse.csr_array.dot", "scipy.sparse.csr_matrix.dot")
def _spdot(I, a, kw):
    return it_npmethod(I, a[0], "dot", [a[1]], kw, None, None)


@reg("numpy.searchsorted")
def _searchsorted(I, a, kw):
    xs = ints(as_tensor(a[0]))
    side = kw.get("side", a[2] if len(a) > 2 else "left")
    f = bisect.bisect_left if side == "left" else bisect.bisect_right
    v = as_tensor(a[1])
    if v.rank == 0:
        return num(f(xs, pyint(tm.asnum(v.elem))))
    return from_flat(v.dims, [num(f(xs, k)) for k in ints(v)])


@reg("pandas.factorize")
def _factorize(I, a, kw):
    xs = ints(as_tensor(a[0]))
    us = sorted(set(xs)) if kw.get("sort", False) else list(dict.fromkeys(xs))
    return (from_flat((len(xs),), [num(us.index(x)) for x in xs]), from_flat((len(us),), [num(u) for u in us]))


_EIGH0 = TABLE["numpy.linalg.eigh"]


@reg("numpy.linalg.eigh", "scipy.linalg.eigh")
def _eigh1(I, a, kw):
    t = as_tensor(a[0])
    if concrete_dims(t) == [1, 1] and t.mask is None and len(a) == 1 and not kw:
        return from_flat((1,), [tm.asnum(elem_at(t, (0, 0)))]), from_flat((1, 1), [num(1)])
    return _EIGH0(I, a, kw)


@reg("numpy.linalg.matrix_rank")
def _rank(I, a, kw):
    """rank of a matrix of known rational entries"""
    import sympy
    A = as_tensor(a[0])
    ns = concrete_dims(A)
    vs = [tm.asnum(e) for e in dense_arr(A).reshape(-1)]
    if len(a) > 1 or kw or len(ns) != 2 or any(v.op != "num" for v in vs):
        raise TypeError("rank of an unknown matrix")
    return num(sympy.Matrix(ns[0], ns[1], [sympy.nsimplify(str(v.args[0])) for v in vs]).rank())


_EIG0 = TABLE["numpy.linalg.eigvalsh"]


@reg("numpy.linalg.eigvalsh", "scipy.linalg.eigvalsh")
def _eigvalsh(I, a, kw):
    """eigenvalues of a matrix of known rational entries"""
    import sympy
    try:
        A = as_tensor(a[0])
        ns = concrete_dims(A)
        vs = [tm.asnum(e) for e in dense_arr(A).reshape(-1)]
        known = all(v.op == "num" for v in vs)
    except (TypeError, ValueError):
        known = False
    if not known:
        return _EIG0(I, a, kw)
    M = sympy.Matrix(ns[0], ns[1], [sympy.nsimplify(str(v.args[0])) for v in vs])
    ev = []
    for k, m in M.eigenvals().items():
        if not k.is_Rational:
            raise TypeError("irrational eigenvalues")
        ev += [k] * m
    return from_flat((len(ev),), [num(fractions.Fraction(int(k.p), int(k.q))) for k in sorted(ev)])


@reg("scipy.linalg.solve_triangular")
def _soltri(I, a, kw):
    """solve with the named triangle of the matrix (the other triangle is not referenced)"""
    low = kw.get("lower", a[3] if len(a) > 3 else False)
    tr = kw.get("trans", a[2] if len(a) > 2 else 0)
    tr = pyint(tr) if not isinstance(tr, str) else {"N": 0, "T": 1, "C": 2}[tr]
    if not isinstance(low, bool) or tr is None or kw.get("unit_diagonal", False) is not False:
        raise TypeError("unknown triangle")
    A = as_tensor(a[0])
    A = Tensor(A.dims, ite(rel("<=" if low else ">=", AX[1], AX[0]), tm.asnum(A.elem), ZERO))
    return TABLE["numpy.linalg.solve"](I, [it_.transpose(A) if tr else A, a[1]], {})
