"""Symbolic mixed-model instances: concrete grouping layouts, symbolic responses, covariates and parameters."""
import re
import itertools
from sa.harness import *
from sa import npmodel, terms as tm, interp as it_, densemodel
from sa.interp import (Interp, PyFunc, Obj, Tensor, Sparse, Top, ClassVal, SliceVal, as_tensor, from_flat, concrete_dims,
                       dense_arr, elem_at, getitem, contract, transpose)
from .c07 import safe

TB = npmodel.TABLE
ALL = SliceVal(None, None, None)
LO = "pystatsm.utilities.linalg_operations."


def ivec(v):
    return from_flat((len(v),), [num(k) for k in v])


def dense(t):
    t = as_tensor(t)
    return Tensor(t.dims, t.elem, t.mask)


class Frame:
    """data frame of symbolic columns"""

    def __init__(self, cols):
        self.cols = cols

    def getitem(self, base, ix):
        if isinstance(ix, str):
            v = self.cols.get(ix)
            return v if v is not None else Top("column %s" % ix)
        if isinstance(ix, (list, tuple)) and all(isinstance(k, str) for k in ix):
            es = [dense_arr(self.cols[k]) for k in ix]
            n = len(es[0])
            return from_flat((n, len(ix)), [tm.asnum(es[j][i]) for i in range(n) for j in range(len(ix))])
        return Top("frame selection")

    def getattr(self, I, o, attr):
        n = concrete_dims(next(iter(self.cols.values())))[0]
        if attr == "shape":
            return (num(n), num(len(self.cols)))
        if attr == "copy":
            return PyFunc(lambda *a, **k: o)
        if attr == "index":
            return from_flat((n,), [num(k) for k in range(n)])
        return Top("frame attribute " + attr)


class Match:
    def __init__(self, m):
        self.m = m

    def getattr(self, I, o, attr):
        f = getattr(self.m, attr, None)
        return PyFunc(lambda *a: f(*a)) if callable(f) else f


def _re(name):
    f = getattr(re, name)

    def g(I, a, kw):
        if not all(isinstance(x, str) for x in a[:2] if not isinstance(x, it_.FuncVal)):
            raise TypeError("unknown string")
        a = list(a)
        if name == "sub" and not isinstance(a[1], str):
            fv = a[1]
            a[1] = lambda m: I.call(fv, [Obj(None, {}, Match(m))], {}, None)
        r = f(*a)
        return Obj(None, {}, Match(r)) if isinstance(r, re.Match) else r
    return g


def design(frame, form):
    """matrix of a formula made of an intercept and plain columns"""
    n = concrete_dims(next(iter(frame.cols.values())))[0]
    terms = [t.strip() for t in form.split("+") if t.strip()]
    cols = [] if "0" in terms else [[ONE] * n]
    for t in terms:
        if t in ("0", "1"):
            continue
        if t not in frame.cols:
            return Top("formula term %s" % t)
        cols.append([tm.asnum(e) for e in dense_arr(frame.cols[t])])
    return from_flat((n, len(cols)), [c[i] for i in range(n) for c in cols])


def install():
    """transfer functions used while a model object is built"""
    for k in ("findall", "search", "split", "sub", "match"):
        TB["re." + k] = _re(k)

    def dmatrix(I, a, kw):
        d = kw.get("data", a[1] if len(a) > 1 else None)
        if not isinstance(a[0], str) or not isinstance(d, Obj) or not isinstance(d.opaque, Frame):
            raise TypeError("formula")
        X = design(d.opaque, a[0])
        return X
    TB["patsy.dmatrix"] = dmatrix


class Factor:
    """sparse Cholesky factorisation with a fill-reducing permutation: P A P' = L L'"""

    def __init__(self, I, A=None, N=None):
        self.lost = None
        self.I, self.N = I, N if A is None else concrete_dims(as_tensor(A))[0]
        self.perm = list(range(1, self.N)) + [0] if self.N > 1 else [0]
        self.A = None if A is None else dense(A)

    def obj(self):
        return Obj(None, {}, self)

    def low(self):
        ip = ivec(self.perm)
        Ap = getitem(getitem(self.A, (ip, ALL)), (ALL, ip))
        return TB["numpy.linalg.cholesky"](self.I, [Ap], {})

    def rows(self, b, ix):
        b = as_tensor(b)
        r = getitem(dense(b), (ivec(ix),) + (ALL,) * (b.rank - 1))
        return Sparse(r.dims, r.elem, fmt="csc") if isinstance(b, Sparse) else r

    def solve(self, M, b):
        r = TB["numpy.linalg.solve"](self.I, [M, dense(b)], {})
        return Sparse(r.dims, r.elem, fmt="csc") if isinstance(b, Sparse) else r

    def tri(self, b, kw, up):
        L = self.low()
        if kw.get("use_LDLt_decomposition", True):
            d = TB["numpy.diag"](self.I, [L], {})
            L = Tensor(L.dims, tm.div(L.elem, tm.subst(d.elem, {it_.AX[0]: it_.AX[1]})))
        return self.solve(transpose(L) if up else L, b)

    def getattr(self, I, o, attr):
        self.I = I
        if attr == "P":
            return PyFunc(lambda: ivec(self.perm))
        if attr == "cholesky_inplace":
            def setA(A, *a, **k):
                self.A, self.lost = (None, A) if isinstance(A, Top) else (dense(A), None)
                return o
            return PyFunc(setA)
        if attr == "cholesky":
            return PyFunc(lambda A, *a, **k: Factor(I, A).obj())
        if self.A is None:
            return self.lost or Top("factor without values")
        inv = [self.perm.index(k) for k in range(self.N)]
        sp = lambda t: Sparse(t.dims, t.elem, fmt="csc")
        f = {"L": lambda: sp(self.low()),
             "D": lambda: (lambda d: Tensor(d.dims, tm.power(d.elem, num(2))))(TB["numpy.diag"](I, [self.low()], {})),
             "apply_P": lambda b: self.rows(b, self.perm), "apply_Pt": lambda b: self.rows(b, inv),
             "solve_A": lambda b, **k: self.solve(self.A, b), "__call__": lambda b: self.solve(self.A, b),
             "inv": lambda: sp(TB["numpy.linalg.inv"](I, [self.A], {})),
             "slogdet": lambda: TB["numpy.linalg.slogdet"](I, [self.A], {}),
             "logdet": lambda: TB["numpy.linalg.slogdet"](I, [self.A], {})[1],
             "solve_L": lambda b, *a, **k: self.tri(b, dict(k, **({"use_LDLt_decomposition": a[0]} if a else {})), False),
             "solve_Lt": lambda b, *a, **k: self.tri(b, dict(k, **({"use_LDLt_decomposition": a[0]} if a else {})), True),
             }.get(attr)
        return PyFunc(f) if f else Top("factor attribute " + attr)

    def call(self, I, f, args, kw):
        return self.solve(self.A, args[0])


def factors(I):
    """sparse Cholesky entry points of the library"""
    ov = I.overrides

    def chol(A, *a, **kw):
        return Factor(I, plus(A, kw.get("beta", a[0] if a else 0))).obj()

    def cholAAt(A, *a, **kw):
        A = dense(A)
        return Factor(I, plus(contract(A, transpose(A)), kw.get("beta", a[0] if a else 0))).obj()

    def analyze(A, *a, **kw):
        return Factor(I, None, concrete_dims(as_tensor(A))[0]).obj()
    for nm, f in (("cholesky", chol), ("cholesky_AAt", cholAAt), ("analyze", analyze)):
        ov[LO + nm] = PyFunc(f, nm)


def plus(A, beta):
    b = it_.pyint(beta)
    if b == 0:
        return A
    A = as_tensor(A)
    return Tensor(A.dims, tm.add(tm.asnum(A.elem), tm.mul(it_.toterm(beta), delta(it_.AX[0], it_.AX[1]))))


def delta(i, j):
    return tm.ite(tm.rel("==", i, j), ONE, ZERO)


# ---------------------------------------------------------------- the dense marginal model

class Marginal:
    """V = Z G Z' + R with its own Z from the group labels and covariates"""

    def __init__(self, I, X, y, blocks, R):
        """blocks: [(labels, covariate columns, covariance entries p x p[, relationship matrix of the levels])]; R: residual variances per row"""
        self.I, self.n = I, len(R)
        n = self.n
        cols, G, off = [], {}, 0
        self.starts = []
        for labels, C, S, *rel in blocks:
            p, q = len(C), max(labels) + 1
            self.starts.append((off, q * p))
            for k in range(q):
                for a in range(p):
                    cols.append([C[a][i] if labels[i] == k else ZERO for i in range(n)])
                    for b in range(p):
                        for k2 in range(q):
                            w = num(rel[0][k][k2]) if rel else num(int(k == k2))
                            G[off + k * p + a, off + k2 * p + b] = tm.mul(w, S[a][b])
            off += q * p
        self.m = off
        self.Z = from_flat((n, off), [cols[j][i] for i in range(n) for j in range(off)])
        self.G = from_flat((off, off), [G.get((i, j), ZERO) for i in range(off) for j in range(off)])
        ZGZ = contract(contract(self.Z, self.G), transpose(self.Z))
        self.V = from_flat((n, n), [tm.add(tm.asnum(elem_at(ZGZ, (i, j))), R[i] if i == j else ZERO) for i in range(n) for j in range(n)])
        self.X, self.y = X, y
        inv = lambda A: TB["numpy.linalg.inv"](I, [A], {})
        self.Vi = inv(self.V)
        self.XV = contract(transpose(X), self.Vi)
        self.C = contract(self.XV, X)
        self.Ci = inv(self.C)
        self.w = contract(self.XV, y)
        self.beta = contract(self.Ci, self.w)
        self.r = Tensor(y.dims, tm.sub(tm.asnum(y.elem), tm.asnum(contract(X, self.beta).elem)))
        self.u = contract(contract(contract(self.G, transpose(self.Z)), self.Vi), self.r)
        sc = lambda t: tm.asnum(elem_at(t, (0, 0)))
        self.yPy = tm.sub(sc(contract(contract(transpose(y), self.Vi), y)), sc(contract(transpose(self.w), self.beta)))
        ld = lambda A: tm.asnum(as_tensor(TB["numpy.linalg.slogdet"](I, [A], {})[1]).elem)
        self.ldV, self.ldC = ld(self.V), ld(self.C)

    def crit(self, reml):
        r = tm.add(self.ldV, self.yPy)
        return tm.add(r, self.ldC) if reml else r


def diffs(e, names):
    for nm in names:
        try:
            e = tm.diff(e, nm, ())
        except NotDifferentiable as x:
            return Top("not differentiable: %s" % x)
    return e


def vech_syms(tag, p, big=("range", "0.9", "1.7"), off=("range", "-0.3", "0.3")):
    """column-wise lower-triangular symbols of a covariance matrix and the matrix itself"""
    S = [[None] * p for _ in range(p)]
    out = []
    for j in range(p):
        for i in range(j, p):
            e = sym("%s_%d%d" % (tag, i, j), dom=big if i == j else off)
            S[i][j] = S[j][i] = e
            out.append(e)
    return out, S


def vec_entries(v, m=None):
    if v is None or isinstance(v, Top):
        return None
    t = as_tensor(v)
    ns = concrete_dims(t)
    if ns is None:
        return None
    out = [tm.asnum(e) for e in dense_arr(t).reshape(-1)] if ns else [tm.asnum(t.elem)]
    return out if m is None or len(out) == m else None


# ---------------------------------------------------------------- compiled kernels

PW = "pystatsm.utilities.python_wrappers."
BYCOL = lambda e: (e[1], e[0])


def stored_at(ns, pat, vals, arr=True):
    """compressed-column matrix with the stored positions `pat` (in storage order)"""
    d = {}
    for ij, v in zip(pat, vals):
        d[ij] = v
    q = from_flat(tuple(ns), [d.get((i, j), ZERO) for i in range(ns[0]) for j in range(ns[1])])
    r = Sparse(q.dims, q.elem, arr=arr, fmt="csc")
    r.pat = list(pat)
    return r


def kernels(I):
    """dense meaning and storage pattern of the compiled sparse kernels"""
    ov = I.overrides

    def reg(nm):
        def d(f):
            out = {"cs_add_inplace": 2, "cs_matmul_inplace": 2, "sparse_dense_kron_inplace": 2, "ds_kron_inplace": 2}.get(nm)
            ov[PW + nm] = PyFunc(lambda *a, **k: wrap(f, a, k, out), nm)
            return f
        return d

    def wrap(f, a, k, out):
        bad = [x for x in a if isinstance(x, Top)]
        if bad:
            r = next((x for x in bad if x.definite), bad[0])
        else:
            try:
                r = f(*a, **k)
            except (TypeError, IndexError, KeyError, AttributeError, ValueError) as x:
                r = Top("kernel: %s" % x)
        buf = k.get("out") if out is None else a[out] if len(a) > out else None
        if isinstance(r, Top) and isinstance(buf, Tensor):
            lost(buf, r)
        return r

    def lost(buf, why):
        I.inplace(buf, why)
        return why

    flat = lambda t: [tm.asnum(e) for e in dense_arr(as_tensor(t)).reshape(-1)]
    shp = lambda t: concrete_dims(as_tensor(t))

    def put(out, vals):
        """write a vector into an output buffer"""
        n = shp(out)
        if n != [len(vals)]:
            return Top("%d values written into a buffer of %s" % (len(vals), n), definite=True)
        new = from_flat((len(vals),), vals)
        I.inplace(out, new)
        return new

    @reg("coo_to_csc")
    def _(r, c, x, shape, return_array=True):
        if return_array is not True:
            return Top("index arrays of a converted matrix")
        r, c = [int(it_.pyint(e)) for e in flat(r)], [int(it_.pyint(e)) for e in flat(c)]
        x = flat(x)
        ns = [it_.pyint(k) for k in shape]
        if len(set(zip(r, c))) != len(x) or len(r) != len(x):
            return Top("repeated or missing positions")
        if any(i >= ns[0] or j >= ns[1] for i, j in zip(r, c)):
            return Top("position outside the matrix", definite=True)
        ix = sorted(range(len(x)), key=lambda k: (c[k], k))
        return stored_at(ns, [(r[k], c[k]) for k in ix], [x[k] for k in ix])

    @reg("tile_1d")
    def _(a, reps, out=None):
        v = flat(a) * it_.pyint(reps)
        return from_flat((len(v),), v) if out is None else put(out, v)

    @reg("repeat_1d")
    def _(a, reps, out=None):
        v = [e for e in flat(a) for _ in range(it_.pyint(reps))]
        return from_flat((len(v),), v) if out is None else put(out, v)

    def kron_sd(A, B):
        (ar, ac), (br, bc) = shp(A), shp(B)
        a, b = dense_arr(as_tensor(A)), dense_arr(as_tensor(B))
        pat, vals = [], []
        for ja in range(ac):
            for jb in range(bc):
                for ia in [i for i, j in it_.pattern(A) if j == ja]:
                    for ib in range(br):
                        pat.append((ia * br + ib, ja * bc + jb))
                        vals.append(tm.mul(tm.asnum(a[ia, ja]), tm.asnum(b[ib, jb])))
        return (ar * br, ac * bc), pat, vals

    def kron_ds(A, B):
        (ar, ac), (br, bc) = shp(A), shp(B)
        a, b = dense_arr(as_tensor(A)), dense_arr(as_tensor(B))
        pat, vals = [], []
        for ja in range(ac):
            for jb in range(bc):
                for ia in range(ar):
                    for ib in [i for i, j in it_.pattern(B) if j == jb]:
                        pat.append((ia * br + ib, ja * bc + jb))
                        vals.append(tm.mul(tm.asnum(a[ia, ja]), tm.asnum(b[ib, jb])))
        return (ar * br, ac * bc), pat, vals

    for nm, f in (("sparse_dense_kron", kron_sd), ("ds_kron", kron_ds)):
        def full(A, B, out=None, f=f):
            if out is not None:
                return Top("kron into given storage")
            return stored_at(*f(A, B))
        reg(nm)(full)

        def inpl(A, B, C, f=f):
            _, pat, vals = f(A, B)
            if isinstance(C, Sparse):
                new = it_.stored(C, from_flat((len(vals),), vals))
                I.inplace(C, new)
                return new
            return put(C, vals)
        reg(nm + "_inplace")(inpl)

    def into(C, ns, val, pat):
        """an in-place result with its own pattern needs room for every stored entry"""
        room = it_.pattern(C)
        if shp(C) != list(ns):
            return Top("result of another shape", definite=True)
        if len(pat) > len(room):
            return Top("%d stored entries written into room for %d" % (len(pat), len(room)), definite=True)
        d = dense_arr(val)
        new = stored_at(ns, pat, [tm.asnum(d[ij]) for ij in pat], arr=C.arr)
        I.inplace(C, new)
        return new

    @reg("cs_add_inplace")
    def _(A, B, C, alpha=1, beta=1):
        al, be = it_.toterm(alpha), it_.toterm(beta)
        a, b = dense_arr(as_tensor(A)), dense_arr(as_tensor(B))
        ns = shp(A)
        v = from_flat(tuple(ns), [tm.add(tm.mul(al, tm.asnum(a[i, j])), tm.mul(be, tm.asnum(b[i, j]))) for i in range(ns[0]) for j in range(ns[1])])
        return into(C, ns, v, sorted(set(it_.pattern(A)) | set(it_.pattern(B)), key=BYCOL))

    @reg("cs_matmul_inplace")
    def _(A, B, C):
        pa, pb = it_.pattern(A), it_.pattern(B)
        pat = sorted({(i, j) for i, k in pa for m, j in pb if m == k}, key=BYCOL)
        r = contract(dense(A), dense(B))
        return into(C, concrete_dims(r), r, pat)

    @reg("sparse_dot")
    def _(a, b, c=0):
        x, y = dense_arr(as_tensor(a)).reshape(-1), dense_arr(as_tensor(b)).reshape(-1)
        return Tensor((), tm.add(it_.toterm(c), *[tm.mul(tm.asnum(p), tm.asnum(q)) for p, q in zip(x, y)]))

    @reg("sparse_pattern_trace")
    def _(B, C, out=0):
        if B.fmt == "csr" or C.fmt == "csr":
            return Top("kernel reads compressed columns from another layout")
        S = contract(transpose(dense(B)), dense(B))
        s, c = dense_arr(S), dense_arr(as_tensor(C))
        n = shp(C)
        return Tensor((), tm.add(it_.toterm(out), *[tm.mul(tm.asnum(c[i, j]), tm.asnum(s[i, j])) for i in range(n[0]) for j in range(n[1])]))

    @reg("block_diag_self_dot")
    def _(L, ng, nv, out=None):
        if out is not None or L.fmt == "csc":
            return Top("kernel reads compressed rows from another layout")
        ng, nv = it_.pyint(ng), it_.pyint(nv)
        l = dense_arr(as_tensor(L))
        m = shp(L)[1]
        return from_flat((nv, nv), [tm.add(ZERO, *[tm.mul(tm.asnum(l[j * nv + a, p]), tm.asnum(l[j * nv + b, p])) for j in range(ng) for p in range(m)])
                                    for a in range(nv) for b in range(nv)])


class Table:
    """data frame of a design: values and column labels"""

    def __init__(self, X, names):
        self.X, self.names = X, names

    def getattr(self, I, o, attr):
        if attr in ("values", "to_numpy"):
            return self.X if attr == "values" else PyFunc(lambda *a, **k: self.X)
        if attr == "columns":
            return list(self.names)
        if attr == "shape":
            return tuple(self.X.dims)
        return Top("design attribute " + attr)


def install_frames():
    """designs that keep their column names"""
    def names(form):
        ts = [t.strip() for t in form.split("~")[-1].split("+") if t.strip()]
        return ([] if "0" in ts else ["Intercept"]) + [t for t in ts if t not in ("0", "1")]

    def mm(I, a, kw):
        form, d = a[0], kw.get("data", a[1] if len(a) > 1 else None)
        if not isinstance(form, str) or not isinstance(d, Obj) or not isinstance(d.opaque, Frame):
            raise TypeError("formula")
        X = design(d.opaque, form.split("~")[-1])
        return X if isinstance(X, Top) else Obj(None, {}, Table(X, names(form)))
    TB["formulaic.model_matrix"] = mm
    old = TB["patsy.dmatrix"]

    def dm(I, a, kw):
        r = old(I, a, kw)
        return Obj(None, {}, Table(r, names(a[0]))) if kw.get("return_type") == "dataframe" and not isinstance(r, Top) else r
    TB["patsy.dmatrix"] = dm
