"""Abstract interpreter: maps numpy-style source to symbolic tensors (sa.terms).

No repository code is imported or executed: the syntax tree is evaluated over the term domain.
Branches on unknown conditions are joined by gated selection (ite), never enumerated; anything the
domain cannot express becomes Top and the obligations that depend on it are reported as undecided.
"""
import ast
import math
from fractions import Fraction
from .terms import *
from . import terms as tm
from .project import Project, Class, Module, decorators

AX = [mk("idx", "a%d" % k) for k in range(8)]


WHERE_KW = {"numpy.where"}


class Top:
    def __init__(self, why="", definite=False):
        self.why = why
        self.definite = definite      # the source certainly fails here (wrong arity, missing member)

    def __repr__(self):
        return "Top(%s)" % self.why


class Tensor:
    """dims: tuple of dim terms; elem: term over AX[0..rank-1]; mask: condition term or None"""
    __slots__ = ("dims", "elem", "mask", "base", "view", "vkey")

    def __init__(self, dims, elem, mask=None, base=None):
        self.view = None          # (array, input labels, output labels) of a one-operand einsum view
        self.dims = tuple(num(d) for d in dims)
        self.elem = elem
        self.mask = mask
        self.base = base          # the array this one is a numpy view of
        self.vkey = None          # the basic index that made it one ("T" for the transpose)

    @property
    def rank(self):
        return len(self.dims)

    def __repr__(self):
        return "Tensor%s %s%s" % (self.dims, show(self.elem, 6), " |mask" if self.mask else "")


def chain_of(v):
    """the arrays `v` is a view of"""
    v = v.base
    while v is not None:
        yield v
        v = v.base


def unview(src, cin, cout, new):
    """`src` after its einsum view `cin->cout` became `new`"""
    cond, first = TRUE, {}
    for k, c in enumerate(cin):
        if c in first:
            cond = and_(cond, tm.rel("==", AX[first[c]], AX[k]))
        else:
            first[c] = k
    val = tm.subst(new.elem, {AX[j]: AX[first[c]] for j, c in enumerate(cout)})
    return Tensor(src.dims, ite(cond, val, src.elem), src.mask)


class Sparse(Tensor):
    """dense value of a scipy sparse matrix (arr: array semantics of `*`)"""
    __slots__ = ("arr", "fmt", "pat")

    def __init__(self, dims, elem, mask=None, base=None, arr=False, fmt=None):
        Tensor.__init__(self, dims, elem, mask, base)
        self.arr = arr
        self.fmt = fmt
        self.pat = None           # stored positions in storage order, where known


def pattern(t):
    """stored positions of a sparse matrix of known shape in storage order"""
    if t.pat is not None:
        return t.pat
    ns = concrete_dims(t)
    if ns is None or len(ns) != 2 or t.fmt not in ("csc", "csr", "dia"):
        raise TypeError("unknown sparsity pattern")
    d = dense_arr(t)
    if t.fmt == "dia":
        if ns[0] != ns[1] or any(tm.asnum(d[i, j]) is not ZERO for i in range(ns[0]) for j in range(ns[1]) if i != j):
            raise TypeError("several diagonals")
        return [(i, i) for i in range(ns[0])]
    ij = [(i, j) for i in range(ns[0]) for j in range(ns[1]) if tm.asnum(d[i, j]) is not ZERO]
    return ij if t.fmt == "csr" else sorted(ij, key=lambda q: (q[1], q[0]))


def sparse_T(v, r):
    """transpose value `r` of the sparse matrix `v`"""
    q = Sparse(r.dims, r.elem, r.mask, arr=v.arr, fmt={"csc": "csr", "csr": "csc"}.get(v.fmt, v.fmt))
    if v.pat is not None:
        q.pat = [(j, i) for i, j in v.pat]
    return q


def values_of(t):
    """stored values of a sparse matrix in storage order"""
    pat = pattern(t)
    d = dense_arr(t)
    return from_flat((1, len(pat)) if t.fmt == "dia" else (len(pat),), [tm.asnum(d[ij]) for ij in pat])


def flip(t):
    r = transpose(t)
    return sparse_T(t, r) if isinstance(t, Sparse) else ret(r)


def stored(t, x):
    """the sparse matrix `t` with stored values `x`"""
    pat = pattern(t)
    if concrete_dims(x) != ([1, len(pat)] if t.fmt == "dia" else [len(pat)]):
        raise TypeError("stored values of another length")
    d, x = dense_arr(t).copy(), dense_arr(x).reshape(-1)
    for k, ij in enumerate(pat):
        d[ij] = tm.asnum(x[k])
    q = from_arr(d)
    new = Sparse(q.dims, q.elem, arr=t.arr, fmt=t.fmt)
    new.pat = pat
    return new


class Obj:
    count = 0

    def __init__(self, cls, attrs=None, opaque=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.opaque = opaque      # python-side handler for opaque objects

    def __repr__(self):
        return "<Obj %s>" % (self.cls.name if self.cls else self.opaque)


class ClassVal:
    def __init__(self, cls):
        self.cls = cls


class FuncVal:
    def __init__(self, node, module, closure=None, owner=None):
        self.node, self.module, self.closure, self.owner = node, module, closure, owner


class Bound:
    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ModVal:
    def __init__(self, module):
        self.module = module


class SuperVal:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class PyFunc:
    """harness-supplied callable value"""

    def __init__(self, f, name="?"):
        self.f, self.name = f, name


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class TensorMethod:
    def __init__(self, t, name):
        self.t, self.name = t, name


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Raised(Exception):
    """the abstract execution definitely raises"""

    def __init__(self, what=""):
        self.what = what


class Env:
    def __init__(self, vars, module, parent=None, owner=None, selfv=None):
        self.vars, self.module, self.parent, self.owner, self.selfv = vars, module, parent, owner, selfv
        self.globals_ = set()


MISSING = object()


# ------------------------------------------------------------------ tensor helpers

def as_tensor(v):
    if isinstance(v, Tensor):
        return v
    if isinstance(v, T):
        return Tensor((), v)
    if isinstance(v, bool):
        return Tensor((), TRUE if v else FALSE)
    if isinstance(v, (int, float, Fraction)):
        return Tensor((), num(v))
    if isinstance(v, (list, tuple)):
        return stack_values(list(v))
    raise TypeError("not numeric: %r" % (v,))


def isnumeric(v):
    return isinstance(v, (Tensor, T, int, float, Fraction)) or v is True or v is False


def ret(t):
    """rank-0 tensors collapse to terms"""
    if isinstance(t, Tensor) and t.rank == 0:
        return t.elem
    return t


def shift(elem, m):
    m = {k: num(v) for k, v in m.items() if k is not v}
    return tm.subst(elem, m) if m else elem


def shift_mask(mask, m):
    return None if mask is None else shift(mask, m)


def stack_values(vals):
    """np.array of a python list"""
    vals = [as_tensor(v) for v in vals]
    if not vals:
        return Tensor((ZERO,), ZERO)
    r = max(v.rank for v in vals)
    if any(v.mask is not None for v in vals):
        raise TypeError("masked stack")
    dims = vals[0].dims
    for v in vals:
        if v.rank != r:
            raise TypeError("ragged")
    el = []
    for v in vals:
        el.append(shift(v.elem, {AX[k]: AX[k + 1] for k in range(r)}))
    conds = any(e.op in COND for e in el)
    if conds:
        out = tm.asnum(el[-1])
        for k in range(len(el) - 2, -1, -1):
            out = ite(rel("==", AX[0], num(k)), tm.asnum(el[k]), out)
        return Tensor((num(len(vals)),) + dims, rel("!=", out, ZERO))
    return Tensor((num(len(vals)),) + dims, tab(tuple(el), AX[0]))


def broadcast(ts):
    """align tensors; returns dims, [elem...], mask"""
    r = max(t.rank for t in ts)
    dims = [ONE] * r
    for t in ts:
        off = r - t.rank
        for k, d in enumerate(t.dims):
            if d is not ONE:
                if dims[off + k] is ONE:
                    dims[off + k] = d
    elems, masks = [], []
    for t in ts:
        off = r - t.rank
        m = {}
        for k, d in enumerate(t.dims):
            if d is ONE and dims[off + k] is not ONE:
                m[AX[k]] = ZERO
            elif d is ONE:
                m[AX[k]] = ZERO
            elif off:
                m[AX[k]] = AX[off + k]
        elems.append(shift(t.elem, m))
        if t.mask is not None:
            masks.append((shift(t.mask, m), off, t))
    mask = None
    if masks:
        mask = masks[0][0]
        for mm, _, t in masks[1:]:
            if mm is not mask:
                raise TypeError("different masks combined")
        maxis = free(mask)
        for t in ts:
            if t.mask is None:
                off = r - t.rank
                for k, d in enumerate(t.dims):
                    if d is not ONE and AX[off + k] in maxis:
                        raise TypeError("masked and unmasked arrays combined")
    return tuple(dims), elems, mask


def elementwise(f, *vals):
    ts = [as_tensor(v) for v in vals]
    dims, elems, mask = broadcast(ts)
    return ret(Tensor(dims, f(*elems), mask))


def num_elem(f):
    return lambda *a: f(*[tm.asnum(x) for x in a])


def transpose(t, perm=None):
    if t.rank < 2:
        return t
    perm = perm or list(range(t.rank))[::-1]
    m = {AX[p]: AX[k] for k, p in enumerate(perm)}
    return Tensor(tuple(t.dims[p] for p in perm), shift(t.elem, m), shift_mask(t.mask, m))


def gate(t):
    e = tm.asnum(t.elem)
    return e if t.mask is None else ite(t.mask, e, ZERO)


def reduce_sum(t, axis=None, keep=False, f=None):
    if axis is None:
        axes = list(range(t.rank))
    else:
        axes = sorted((a % t.rank) for a in (axis if isinstance(axis, (list, tuple)) else [axis]))
    e = gate(t)
    if t.mask is not None and not (set(AX[a] for a in axes) >= (free(t.mask) & set(AX))):
        raise TypeError("masked axis survives reduction")
    for a in axes:
        v = fresh("b")
        e = (f or tm.ssum)(v, t.dims[a], tm.subst(e, {AX[a]: v}))
    rest = [k for k in range(t.rank) if k not in axes]
    if keep:
        return Tensor(tuple(ONE if k in axes else t.dims[k] for k in range(t.rank)), e)
    m = {AX[k]: AX[j] for j, k in enumerate(rest)}
    return ret(Tensor(tuple(t.dims[k] for k in rest), shift(e, m)))


def contract(a, b):
    """numpy dot / matmul for ranks <= 2"""
    a, b = as_tensor(a), as_tensor(b)
    if a.rank == 0 or b.rank == 0:
        return elementwise(num_elem(tm.mul), a, b)
    k = fresh("k")
    ra = a.rank - 1
    bax = 0 if b.rank == 1 else b.rank - 2
    m = {}
    j = ra
    for q in range(b.rank):
        if q == bax:
            m[AX[q]] = k
        else:
            m[AX[q]] = AX[j]
            j += 1
    # a mask over the contracted axis gates the sum, a mask over a surviving axis masks the result
    mask = None
    keep = []
    for t, ax, mm in ((a, ra, {AX[ra]: k}), (b, bax, m)):
        fr = free(t.mask) & set(AX) if t.mask is not None else set()
        if fr and AX[ax] not in fr:
            if mask is not None:
                raise TypeError("masked free axes in product")
            mask = shift_mask(t.mask, mm)
            keep.append(True)
        elif fr - {AX[ax]}:
            raise TypeError("masked free axis in product")
        else:
            keep.append(False)
    ae = tm.subst(tm.asnum(a.elem) if keep[0] else gate(a), {AX[ra]: k})
    be = tm.subst(tm.asnum(b.elem) if keep[1] else gate(b), m)
    dims = a.dims[:ra] + tuple(d for q, d in enumerate(b.dims) if q != bax)
    dim = a.dims[ra] if a.dims[ra].op == "num" or b.dims[bax].op != "num" else b.dims[bax]
    return ret(Tensor(dims, tm.ssum(k, dim, tm.mul(ae, be)), mask))


def matmul(a, b):
    """numpy matmul: stacks of matrices broadcast"""
    a, b = as_tensor(a), as_tensor(b)
    if a.rank <= 2 and b.rank <= 2:
        return contract(a, b)
    if a.mask is not None or b.mask is not None or not a.rank or not b.rank:
        raise TypeError("stacked product")
    va, vb = a.rank == 1, b.rank == 1
    a = expand(a, 0) if va else a
    b = expand(b, 1) if vb else b
    r = as_tensor(reduce_sum(elementwise(num_elem(tm.mul), expand(a, a.rank), expand(b, b.rank - 2)), -2))
    if va:
        r = getitem(r, (Ellipsis, num(0), SliceVal(None, None, None)))
    if vb:
        r = getitem(r, (Ellipsis, num(0)))
    return r


def concat(ts, axis=0):
    ts = [as_tensor(t) for t in ts]
    ts = [t for t in ts if not (t.rank and t.dims[axis % t.rank] is ZERO)] or ts[:1]
    r = ts[0].rank
    axis %= r
    off = ZERO
    parts = []
    mask = None
    for t in ts:
        if t.mask is not None:
            raise TypeError("masked concatenate")
        parts.append((off, t))
        off = tm.add(off, t.dims[axis])
    e = None
    for o, t in reversed(parts):
        el = tm.subst(tm.asnum(t.elem), {AX[axis]: tm.sub(AX[axis], o)}) if o is not ZERO else tm.asnum(t.elem)
        if e is None:
            e = el
        else:
            e = ite(rel("<", AX[axis], tm.add(o, t.dims[axis])), el, e)
    dims = list(ts[0].dims)
    for t in ts:
        for k in range(r):
            if k != axis and dims[k] is ONE and t.dims[k] is not ONE:
                dims[k] = t.dims[k]
    dims[axis] = off
    return Tensor(tuple(dims), e)


def expand(t, pos):
    """insert an axis of length one"""
    m = {AX[k]: AX[k + 1] for k in range(pos, t.rank)}
    return Tensor(t.dims[:pos] + (ONE,) + t.dims[pos:], shift(t.elem, m), shift_mask(t.mask, m))


def toterm(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, Tensor) and v.rank == 0:
        return v.elem
    if isinstance(v, Tensor) and all(d is ONE for d in v.dims):
        return shift(v.elem, {AX[k]: ZERO for k in range(v.rank)})
    raise TypeError("not scalar: %r" % (v,))


def pyint(v):
    """concrete python int or None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, T) and v.op == "num" and v.args[0].denominator == 1:
        return int(v.args[0])
    return None


def simp(v):
    """concrete integer terms become python ints (used for shapes and indices)"""
    k = pyint(v)
    return v if k is None else k


def concrete_dims(t, lim=4000):
    ns, tot = [], 1
    for d in t.dims:
        if d.op != "num" or d.args[0].denominator != 1:
            return None
        ns.append(int(d.args[0]))
        tot *= ns[-1]
    return ns if tot <= lim else None


def elem_at(t, ix):
    if not ix:
        return t.elem
    m = {AX[k]: num(v) for k, v in enumerate(ix)}
    e = t.elem
    while True:
        if e.op == "tab" and e.args[1] in m:
            e = e.args[0][int(m[e.args[1]].args[0])]
        elif e.op == "ite":
            c = tm.subst(e.args[0], m)
            if c is TRUE:
                e = e.args[1]
            elif c is FALSE:
                e = e.args[2]
            else:
                break
        else:
            break
    return tm.subst(e, m)


_flat = {}


def dense_arr(t):
    """numpy object array of the entry terms of a tensor of known shape (the array only holds terms)"""
    import numpy as np
    key = (t.elem, t.dims)
    r = _flat.get(key)
    if r is None:
        import itertools
        ns = concrete_dims(t)
        r = np.empty(ns, dtype=object)
        for ix in itertools.product(*[range(n) for n in ns]):
            r[ix] = elem_at(t, ix)
        if len(_flat) > 4000:
            _flat.clear()
        _flat[key] = r
    return r


def from_arr(a):
    import numpy as np
    a = np.asarray(a, dtype=object)
    if a.ndim == 0:
        return a.item()
    t = from_flat(a.shape, list(a.ravel()))
    return t


def np_index(ix):
    """the same index as numpy would see it, or None when some part is not known"""
    import numpy as np
    out = []
    for i in ix:
        if i is None or i is Ellipsis:
            out.append(i)
        elif isinstance(i, SliceVal):
            b = []
            for x in (i.lo, i.hi, i.step):
                if x is None:
                    b.append(None)
                else:
                    k = pyint(x)
                    if k is None:
                        return None
                    b.append(k)
            out.append(slice(*b))
        elif isinstance(i, Tensor) and i.rank > 0:
            if i.mask is not None or concrete_dims(i) is None:
                return None
            a = dense_arr(i)
            fl = [tm.asnum(x) if i.elem.op not in COND else x for x in a.ravel()]
            if (fl or i.elem.op in COND) and all(x is TRUE or x is FALSE for x in fl):
                out.append(np.array([x is TRUE for x in fl], dtype=bool).reshape(a.shape))
            elif all(pyint(x) is not None for x in fl):
                out.append(np.array([pyint(x) for x in fl], dtype=int).reshape(a.shape))
            else:
                return None
        elif isinstance(i, bool):
            return None
        else:
            try:
                k = pyint(toterm(i))
            except TypeError:
                return None
            if k is None:
                return None
            out.append(k)
    return tuple(out)


def from_flat(ns, flat):
    """tensor of known shape from its C-ordered entries"""
    flat = [num(x) for x in flat]
    for k in range(len(ns) - 1, -1, -1):
        n = ns[k]
        flat = [tab(tuple(flat[q:q + n]), AX[k]) for q in range(0, len(flat), n)] if n else [ZERO]
    return Tensor(tuple(num(n) for n in ns), flat[0] if flat else ZERO)


def concrete_mask(m):
    """index tuples selected by a boolean array all of whose entries are known, else None"""
    ns = concrete_dims(m, 1500)
    if ns is None or m.mask is not None or not ns:
        return None
    import itertools
    out = []
    for ix in itertools.product(*[range(n) for n in ns]):
        c = elem_at(m, ix)
        if c is TRUE:
            out.append(ix)
        elif c is not FALSE:
            return None
    return out


def _known_masks(t, ix):
    """replace boolean index arrays with known entries by integer index arrays"""
    out = []
    for i in ix:
        if isinstance(i, Tensor) and i.rank > 0 and i.elem.op in COND:
            sel = concrete_mask(i)
            if sel is None:
                return ix
            for k in range(i.rank):
                out.append(Tensor((num(len(sel)),), tab(tuple(num(s[k]) for s in sel), AX[0]) if sel else ZERO))
        else:
            out.append(i)
    return out


# ------------------------------------------------------------------ indexing

def norm_index(ix):
    return list(ix) if isinstance(ix, tuple) else [ix]


def slice_bounds(s, d):
    step = 1 if s.step is None else pyint(s.step)
    if step is None:
        raise TypeError("symbolic step")

    def b(x, default):
        if x is None:
            return default
        x = toterm(x)
        if x.op == "num" and x.args[0] < 0:
            return tm.add(d, x)
        if x.op == "mul" and x.args[0].op == "num" and x.args[0].args[0] < 0:
            return tm.add(d, x)      # symbolic negative offset such as -p
        return x
    if step > 0:
        lo, hi = b(s.lo, ZERO), b(s.hi, d)
        if d.op == "num" and hi.op == "num":
            hi = num(min(nval(hi), nval(d)))
        if lo.op == "num" and hi.op == "num" and nval(lo) > nval(hi):
            lo = hi
        n = tm.sub(hi, lo)
        if step != 1:
            n = fn("ceil", tm.div(n, num(step)))
    else:
        lo = b(s.lo, tm.sub(d, ONE))
        hi = MONE if s.hi is None else b(s.hi, MONE)
        n = tm.sub(lo, hi)
        if step != -1:
            n = fn("ceil", tm.div(n, num(-step)))
    return lo, n, step


def _split(ix):
    """array indices separated by a slice: numpy puts their axes first"""
    adv = [k for k, i in enumerate(ix) if not (i is None or isinstance(i, SliceVal))]
    return adv != list(range(adv[0], adv[-1] + 1)) if adv else False


def getitem(t, ix):
    ix = norm_index(ix)
    if t.mask is None and concrete_dims(t) is not None and \
            (t.elem.op == "tab" or any(isinstance(i, Tensor) and i.rank > 0 for i in ix)):
        nix = np_index(ix)
        if nix is not None:
            return from_arr(dense_arr(t)[nix])
    ix = _known_masks(t, ix)
    if len(ix) == 1 and isinstance(ix[0], Tensor) and ix[0].elem.op in COND and ix[0].rank > 0:
        m = ix[0]
        if m.rank > t.rank:
            raise TypeError("mask rank")
        cond = m.elem
        if t.mask is not None:
            cond = and_(t.mask, cond)
        return Tensor(t.dims, t.elem, cond)
    if len(ix) == 1 and isinstance(ix[0], (T, bool)) and not isinstance(ix[0], int) and \
            (isinstance(ix[0], T) and ix[0].op in COND) and t.rank == 0:
        return Tensor((), t.elem, ix[0])
    nreal = sum(1 for i in ix if i is not None and i is not Ellipsis)
    if any(i is Ellipsis for i in ix):
        k = [j for j, i in enumerate(ix) if i is Ellipsis][0]
        ix = ix[:k] + [SliceVal(None, None, None)] * (t.rank - nreal) + ix[k + 1:]
    else:
        ix = ix + [SliceVal(None, None, None)] * (t.rank - nreal)
    m = {}
    dims = []
    src = 0
    adv = None         # (axis position in output, rank)
    masks = []
    advs = []
    for i in ix:
        if isinstance(i, Tensor) and i.rank > 0 and i.elem.op not in COND:
            advs.append(i)
    advdims, advelems = None, None
    if advs:
        advdims, advelems, am = broadcast(advs)
        if am is not None:
            raise TypeError("masked integer index")
    ai = 0
    advpos = None
    if advs and _split(ix):
        advpos = 0
        dims.extend(advdims)
    for i in ix:
        if i is None:
            dims.append(ONE)
            continue
        d = t.dims[src]
        var = AX[src]
        src += 1
        if isinstance(i, SliceVal):
            lo, n, step = slice_bounds(i, d)
            o = AX[len(dims)]
            m[var] = tm.add(lo, o if step == 1 else tm.mul(num(step), o))
            dims.append(n)
        elif isinstance(i, Tensor) and i.rank > 0 and i.elem.op in COND:
            if i.rank != 1 or advs:
                raise TypeError("mask among integer indices")
            m[var] = AX[len(dims)]
            masks.append(shift(i.elem, {AX[0]: AX[len(dims)]}))
            dims.append(d)
        elif isinstance(i, Tensor) and i.rank > 0:
            if advpos is None:
                advpos = len(dims)
                dims.extend(advdims)
            sh = {AX[k]: AX[advpos + k] for k in range(len(advdims))}
            e = tm.subst(advelems[ai], sh)
            ai += 1
            if e.op == "num" and e.args[0] < 0:
                e = tm.add(d, e)
            m[var] = e
        else:
            e = toterm(i)
            if e.op == "num" and e.args[0] < 0:
                e = tm.add(d, e)
            m[var] = e
    mask = shift_mask(t.mask, m)
    for c in masks:
        mask = c if mask is None else and_(mask, c)
    return ret(Tensor(dims, shift(t.elem, m), mask))


def setitem(t, ix, v, op=None):
    """functional update t[ix] = v; returns the new tensor"""
    ix = norm_index(ix)
    v = as_tensor(v)
    if t.mask is None and v.mask is None and concrete_dims(t) is not None and concrete_dims(v) is not None:
        nix = np_index(ix)
        if nix is not None:
            d = dense_arr(t).copy()
            tc = t.elem.op in COND
            x = dense_arr(v)
            if tc != (v.elem.op in COND):
                if tc:
                    d.flat[:] = [tm.asnum(q) for q in d.ravel()]
                else:
                    x = x.copy()
                    x.flat[:] = [tm.asnum(q) for q in x.ravel()]
            d[nix] = x.item() if not x.ndim or x.size == 1 and isinstance(d[nix], T) else x
            return from_arr(d) if d.ndim else Tensor((), d.item())
    if any(isinstance(i, Tensor) and i.rank > 0 and i.elem.op in COND for i in ix):
        ix = _known_masks(t, ix)
    v = as_tensor(v)
    telem = tm.asnum(t.elem) if v.elem.op not in COND else t.elem
    # plain boolean mask
    if len(ix) == 1 and isinstance(ix[0], (Tensor, T)) and as_tensor(ix[0]).elem.op in COND:
        m = as_tensor(ix[0])
        if v.mask is not None:
            if v.mask is not m.elem and v.rank:
                raise TypeError("store under a different mask")
        elif v.rank and not all(d is ONE for d in v.dims):
            if any(AX[k + t.rank - v.rank] in free(m.elem) for k, d in enumerate(v.dims) if d is not ONE):
                raise TypeError("unmasked store into masked target")
        if v.rank < t.rank and v.rank > 0 and v.mask is None:
            pass
        dims, (te, ve), _ = broadcast([Tensor(t.dims, telem), Tensor(v.dims, v.elem)])
        return Tensor(t.dims, ite(m.elem, ve, te), t.mask)
    nreal = sum(1 for i in ix if i is not None and i is not Ellipsis)
    if any(i is Ellipsis for i in ix):
        k = [j for j, i in enumerate(ix) if i is Ellipsis][0]
        ix = ix[:k] + [SliceVal(None, None, None)] * (t.rank - nreal) + ix[k + 1:]
    else:
        ix = ix + [SliceVal(None, None, None)] * (t.rank - nreal)
    if any(i is None for i in ix):
        raise TypeError("newaxis store")
    conds = []
    vmap = []          # per value axis: (term giving the value index, dim)
    maskc = []
    advs = []
    wide = []             # masks broadcast against other indices: (target axis, value axis counted from the right)
    for k, i in enumerate(ix):
        d = t.dims[k]
        a = AX[k]
        if isinstance(i, SliceVal):
            lo, n, step = slice_bounds(i, d)
            if i.lo is None and i.hi is None and step == 1:
                vmap.append((a, n))
                continue
            if abs(step) == 1:
                if step == 1:
                    if lo is not ZERO:
                        conds.append(rel("<=", lo, a))
                    hi = tm.add(lo, n)
                    if hi is not d:
                        conds.append(rel("<", a, hi))
                    vmap.append((tm.sub(a, lo), n))
                else:
                    vmap.append((tm.sub(lo, a), n))
            else:
                off = tm.sub(a, lo)
                conds.append(rel("<=", lo, a))
                conds.append(rel("==", fn("mod", off, num(step)), ZERO))
                vmap.append((fn("floordiv", off, num(step)), n))
        elif isinstance(i, Tensor) and i.rank > 0 and i.elem.op in COND:
            live = [j for j, x in enumerate(i.dims) if x is not ONE]
            if i.rank > 1 and len(live) != 1:
                raise TypeError("mask of rank %d among indices" % i.rank)
            c = shift(i.elem, {AX[live[0] if live else 0]: a})
            conds.append(c)
            maskc.append(c)
            if i.rank > 1:
                wide.append((k, i.rank - live[0]))
                vmap.append(("adv", i))
            else:
                vmap.append((a, d))
        elif isinstance(i, Tensor) and i.rank > 0:
            advs.append((k, i))
            vmap.append(("adv", i))
        else:
            e = toterm(i)
            if e.op == "num" and e.args[0] < 0:
                e = tm.add(d, e)
            conds.append(rel("==", a, e))
    if advs or wide:
        if maskc and len(maskc) != len(wide):
            raise TypeError("mask and integer indices mixed")
        return _scatter(t, ix, v, conds, vmap, advs, wide, maskc)
    # align value axes from the right
    m = {}
    for q in range(1, v.rank + 1):
        vd = v.dims[v.rank - q]
        if q > len(vmap):
            if vd is not ONE:
                raise TypeError("store rank")
            m[AX[v.rank - q]] = ZERO
            continue
        src, n = vmap[len(vmap) - q]
        m[AX[v.rank - q]] = ZERO if vd is ONE else src
    ve = tm.subst(v.elem, m)
    if v.mask is not None:
        vm = tm.subst(v.mask, m)
        c = and_(*maskc) if maskc else None
        if c is not vm:
            raise TypeError("store under a different mask")
    c = and_(*conds)
    return Tensor(t.dims, ite(c, ve, telem), t.mask)


def _scatter(t, ix, v, conds, vmap, advs, wide=(), maskc=()):
    """integer-array store: concrete small index arrays only; a mask may take part along an axis of its own"""
    if len(wide) > 1:
        raise TypeError("several masks among indices")
    if not advs:
        raise TypeError("mask index of rank above one")
    dims, elems, mask = broadcast([i for _, i in advs])
    wb = None
    if wide:
        wb = len(dims) - wide[0][1]          # broadcast axis of the mask
        if wb < 0 or dims[wb] is not ONE:
            raise TypeError("mask against integer indices")
    if v.mask is not None:
        if wb is None:
            raise TypeError("masked value in scatter")
    if mask is not None:
        raise TypeError("masked scatter")
    ns = [pyint(d) for d in dims]
    if any(n is None for n in ns):
        raise TypeError("symbolic scatter")
    tot = 1
    for n in ns:
        tot *= n
    if tot > 400:
        raise TypeError("large scatter")
    import itertools
    pos = [k for k, x in enumerate(vmap) if x[0] == "adv"]
    split = _split(ix)
    vm2 = [("A", j) for j in range(len(dims))] if split else []
    for k, x in enumerate(vmap):
        if x[0] == "adv":
            if k == pos[0] and not split:
                vm2.extend(("A", j) for j in range(len(dims)))
        else:
            vm2.append(x)
    out = tm.asnum(t.elem) if v.elem.op not in COND else t.elem
    for combo in itertools.product(*[range(n) for n in ns]):
        sub_ = {AX[j]: num(c) for j, c in enumerate(combo)}
        cs = list(conds)
        for (k, i), e in zip(advs, elems):
            e = tm.subst(e, sub_)
            if e.op == "num" and e.args[0] < 0:
                e = tm.add(t.dims[k], e)
            cs.append(rel("==", AX[k], e))
        m = {}
        for q in range(1, v.rank + 1):
            vd = v.dims[v.rank - q]
            if q > len(vm2):
                m[AX[v.rank - q]] = ZERO
                continue
            x = vm2[len(vm2) - q]
            if vd is ONE:
                m[AX[v.rank - q]] = ZERO
            elif x[0] == "A":
                m[AX[v.rank - q]] = AX[wide[0][0]] if x[1] == wb else num(combo[x[1]])
            else:
                m[AX[v.rank - q]] = x[0]
        if v.mask is not None and tm.subst(v.mask, m) is not and_(*maskc):
            raise TypeError("store under a different mask")
        out = ite(and_(*cs), tm.subst(v.elem, m), out)
    return Tensor(t.dims, out, t.mask)


# ------------------------------------------------------------------ the interpreter

FALL, RET, BRK, CONT, MAYBE = "fall", "return", "break", "continue", "maybe"
MAXDEPTH = 40


class Interp:
    def __init__(self, project, overrides=None):
        self.p = project
        self.modcache = {}
        self.overrides = overrides or {}      # qualified name -> PyFunc
        self.depth = 0
        self.tops = []                        # (module path, line, why)
        self.touched = set()                  # (relpath, function name) analysed
        self.objs = []
        self.frames = []
        self.steps = 0
        self.maxsteps = 400000
        self.imag = None                      # imaginary part of a term, where complex steps are modelled

    # ---------------- utilities
    def top(self, why, node=None, env=None):
        if env is not None and node is not None:
            self.tops.append((env.module.relpath, getattr(node, "lineno", 0), why))
        return Top(why)

    def modenv(self, module):
        e = self.modcache.get(module.name)
        if e is None:
            e = Env({}, module)
            self.modcache[module.name] = e
        return e

    def wrap_entity(self, r, attr=None):
        if r is None:
            return MISSING
        k = r[0]
        if k == "class":
            q = r[1].qual
            if q in self.overrides:
                return self.overrides[q]
            return ClassVal(r[1])
        if k == "func":
            q = r[1].name + "." + r[2].name
            if q in self.overrides:
                return self.overrides[q]
            return self.decorate(FuncVal(r[2], r[1]), r[1])
        if k == "pkgmod":
            return ModVal(r[1])
        if k == "ext":
            return Ext(r[1])
        if k == "assign":
            return self.module_global(r[1], r[2])
        if k == "method":
            return FuncVal(r[2], r[1].module, owner=r[1])
        return MISSING

    def module_global(self, module, name):
        env = self.modenv(module)
        if name in env.vars:
            return env.vars[name]
        env.vars[name] = Top("recursive global " + name)
        vals = module.assigns.get(name) or []
        if len(vals) == 1 and vals[0] is not None:
            v = self.ev(vals[0], env)
        else:
            # tuple-unpacked or reassigned global: find the statement
            v = Top("global " + name)
            for st in module._stmts(module.tree.body):
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, (ast.Tuple, ast.List)) and \
                                any(isinstance(e, ast.Name) and e.id == name for e in t.elts):
                            vv = self.ev(st.value, env)
                            e2 = Env({}, module)
                            try:
                                self.assign(t, vv, e2)
                                v = e2.vars.get(name, v)
                            except Exception:
                                pass
        env.vars[name] = v
        return v

    def decorate(self, f, module, env=None):
        """apply decorators we can resolve inside the project; ignore external/jit ones"""
        v = f
        for d in reversed(f.node.decorator_list):
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
            if nm in ("staticmethod", "classmethod", "property", "cached_property", "abstractmethod",
                      "jit", "njit", "vectorize", "setter", "wraps", "lru_cache", "cache", "guvectorize"):
                continue
            e = env or self.modenv(module)
            dv = self.ev(d, e)
            if isinstance(dv, (FuncVal, PyFunc)):
                v = self.call(dv, [v], {}, e, d)
            elif isinstance(dv, ClassVal):
                v = self.call(dv, [v], {}, e, d)
            # unknown external decorators are assumed transparent
        return v

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        r = self.p.lookup(env.module, name)
        if r is not None:
            v = self.wrap_entity(r)
            if v is not MISSING:
                return v
        if name == "Ellipsis":
            return Ellipsis
        if name in BUILTINS:
            return Ext("builtins." + name)
        return Top("unbound name " + name)

    # ---------------- statements
    def exec_block(self, stmts, env):
        for k, st in enumerate(stmts):
            self.steps += 1
            if self.steps > self.maxsteps:
                raise RuntimeError("step budget exhausted")
            out = self.exec(st, env)
            if out[0] == FALL:
                continue
            if out[0] == MAYBE:
                cond, val = out[1], out[2]
                rest = self.exec_block(stmts[k + 1:], env)
                if rest[0] == RET:
                    return (RET, self.merge(cond, val, rest[1]))
                if rest[0] == FALL:
                    return (MAYBE, cond, val)
                if rest[0] == MAYBE:
                    return (MAYBE, or_(cond, rest[1]), self.merge(cond, val, rest[2]))
                return (RET, Top("loop control after conditional return"))
            return out
        return (FALL,)

    def exec(self, st, env):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            return (FALL,)
        return m(st, env)

    def st_Expr(self, st, env):
        v = st.value
        if isinstance(v, ast.Constant):
            return (FALL,)
        self.ev(v, env)
        return (FALL,)

    def st_Pass(self, st, env):
        return (FALL,)

    def st_Break(self, st, env):
        return (BRK,)

    def st_Continue(self, st, env):
        return (CONT,)

    def st_Global(self, st, env):
        return (FALL,)

    def st_Return(self, st, env):
        return (RET, None if st.value is None else self.ev(st.value, env))

    def st_Raise(self, st, env):
        raise Raised(ast.unparse(st)[:80])

    def st_Assert(self, st, env):
        return (FALL,)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)
        return (FALL,)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)
        return (FALL,)

    def st_AugAssign(self, st, env):
        cur = self.ev(ast.copy_location(_load(st.target), st), env)
        v = self.ev(st.value, env)
        if isinstance(cur, list) and isinstance(st.op, ast.Add) and isinstance(v, (list, tuple)):
            cur.extend(v)
            return (FALL,)
        new = self.binop(st.op, cur, v, st, env)
        if isinstance(cur, Tensor) and isinstance(st.target, (ast.Name, ast.Attribute)):
            self.inplace(cur, new)
        self.assign(st.target, new, env)
        return (FALL,)

    def inplace(self, old, new):
        """propagate an in-place update to every name bound to the same array, and drop views"""
        roots = []
        seen = set()
        for e in self.frames:
            while e is not None and id(e) not in seen:
                seen.add(id(e))
                roots.append(e.vars)
                e = e.parent
        for o in self.objs:
            roots.append(o.attrs)
        bases = set()
        b = old.base
        while b is not None:
            bases.add(id(b))
            b = b.base
        subs, o, n = {}, old, new
        while o.base is not None and o.vkey is not None and isinstance(n, Tensor):
            up = o.base
            try:
                up_new = flip(n) if o.vkey == "T" else stored(up, n) if o.vkey == "data" else \
                    ret(setitem(up, o.vkey, n))
            except (TypeError, KeyError, IndexError):
                break
            if not isinstance(up_new, Tensor):
                break
            n.base, n.vkey = up_new, o.vkey
            subs[id(up)] = up_new
            o, n = up, up_new
        for d in roots:
            for k, v in d.items():
                if v is old:
                    d[k] = new
                elif isinstance(v, Tensor):
                    if id(v) in subs:
                        d[k] = subs[id(v)]
                    elif v is new or any(v is u for u in subs.values()):
                        pass
                    elif id(v) in bases:
                        d[k] = new if isinstance(new, Top) and new.definite else Top("array modified through a view")
                    elif any(id(b) in subs or b is old for b in chain_of(v)):
                        d[k] = self.review(v, old, new, subs)

    def review(self, v, old, new, subs):
        """the view `v` after its base was updated"""
        if v is old:
            return new
        if id(v) in subs:
            return subs[id(v)]
        if v.base is None:
            return v
        b = self.review(v.base, old, new, subs)
        if isinstance(b, Tensor) and v.vkey is not None:
            try:
                r = flip(b) if v.vkey == "T" else values_of(b) if v.vkey == "data" else ret(getitem(b, v.vkey))
                if isinstance(r, Tensor) and r is not b and type(r) is type(v):
                    if r.base is not None:
                        r = Tensor(r.dims, r.elem, r.mask)
                    r.base, r.vkey = b, v.vkey
                    subs[id(v)] = r
                    return r
            except (TypeError, KeyError, IndexError, AttributeError):
                pass
        return Top("view of a modified array")

    def st_Import(self, st, env):
        tbl = {}
        env.module.add_import(st, tbl)
        for n, imp in tbl.items():
            v = self.wrap_entity(self.p._resolve_import(imp))
            env.vars[n] = Top("missing import " + n) if v is MISSING else v
        return (FALL,)

    st_ImportFrom = st_Import

    def st_FunctionDef(self, st, env):
        f = FuncVal(st, env.module, closure=env, owner=env.owner)
        env.vars[st.name] = self.decorate(f, env.module, env)
        return (FALL,)

    def st_ClassDef(self, st, env):
        env.vars[st.name] = ClassVal(Class(env.module, st))
        return (FALL,)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
        return (FALL,)

    def st_With(self, st, env):
        for it in st.items:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Top("with"), env)
        return self.exec_block(st.body, env)

    def st_Try(self, st, env):
        snap = self.snapshot(env)
        try:
            out = self.exec_block(st.body, env)
            if out[0] == FALL and st.orelse:
                out = self.exec_block(st.orelse, env)
        except Raised:
            self.restore(env, snap)
            if not st.handlers:
                raise
            out = self.exec_block(st.handlers[0].body, env)
        if st.finalbody:
            o2 = self.exec_block(st.finalbody, env)
            if o2[0] != FALL:
                return o2
        return out

    def truth(self, v):
        """-> True / False / condition term / None (unknown)"""
        if isinstance(v, Top):
            return None
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str, list, tuple, dict, set)):
            return bool(v)
        if isinstance(v, T):
            if v.op == "num":
                return v.args[0] != 0
            if v is TRUE:
                return True
            if v is FALSE:
                return False
            if v.op in COND:
                return v
            return rel("!=", v, ZERO)
        if isinstance(v, Tensor):
            if all(d is ONE for d in v.dims):
                return self.truth(toterm(v))
            return None
        return True

    def st_If(self, st, env):
        c = self.truth(self.ev(st.test, env))
        if c is TRUE:
            c = True
        if c is FALSE:
            c = False
        if c is True:
            return self.exec_block(st.body, env)
        if c is False:
            return self.exec_block(st.orelse, env)
        snap = self.snapshot(env)
        rA = rB = None
        try:
            oA = self.exec_block(st.body, env)
        except Raised as e:
            oA = None
        sA = self.snapshot(env)
        self.restore(env, snap)
        try:
            oB = self.exec_block(st.orelse, env)
        except Raised:
            if oA is None:
                raise
            oB = None
        sB = self.snapshot(env)
        if oA is None:
            return oB
        if oB is None:
            self.restore(env, sA)
            return oA
        if oA[0] == FALL and oB[0] == FALL:
            self.merge_state(c, env, sA, sB)
            return (FALL,)
        if oA[0] == RET and oB[0] == RET:
            self.merge_state(c, env, sA, sB)
            return (RET, self.merge(c, oA[1], oB[1]))
        if c is None:
            # unknown condition with asymmetric control flow
            if oA[0] in (RET, FALL, MAYBE) and oB[0] in (RET, FALL, MAYBE):
                return (RET, Top("control flow depends on an unknown condition"))
            return (BRK,)
        nc = not_(c)
        if oA[0] == RET and oB[0] == FALL:
            self.restore(env, sB)
            return (MAYBE, c, oA[1])
        if oB[0] == RET and oA[0] == FALL:
            self.restore(env, sA)
            return (MAYBE, nc, oB[1])
        if oA[0] == MAYBE and oB[0] == FALL:
            self.merge_state(c, env, sA, sB)
            return (MAYBE, and_(c, oA[1]), oA[2])
        if oB[0] == MAYBE and oA[0] == FALL:
            self.merge_state(c, env, sA, sB)
            return (MAYBE, and_(nc, oB[1]), oB[2])
        if oA[0] == MAYBE and oB[0] == RET:
            self.restore(env, sA)
            return (MAYBE, or_(nc, oA[1]), self.merge(c, oA[2], oB[1]))
        if oB[0] == MAYBE and oA[0] == RET:
            self.restore(env, sB)
            return (MAYBE, or_(c, oB[1]), self.merge(c, oA[1], oB[2]))
        if oA[0] == MAYBE and oB[0] == MAYBE:
            self.merge_state(c, env, sA, sB)
            return (MAYBE, or_(and_(c, oA[1]), and_(nc, oB[1])), self.merge(c, oA[2], oB[2]))
        # break / continue under an unknown condition: give up on precision
        self.merge_state(None, env, sA, sB)
        return (BRK,)

    # ---------------- state snapshots (environment chain + objects)
    def snapshot(self, env):
        envs = []
        e = env
        while e is not None:
            envs.append((e, {k: self._copyc(v) for k, v in e.vars.items()}))
            e = e.parent
        return envs, [(o, dict(o.attrs)) for o in self.objs]

    def _copyc(self, v):
        if isinstance(v, list):
            return ("__list__", v, list(v))
        if isinstance(v, dict):
            return ("__dict__", v, dict(v))
        return v

    def _restc(self, v):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "__list__":
            v[1][:] = v[2]
            return v[1]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "__dict__":
            v[1].clear()
            v[1].update(v[2])
            return v[1]
        return v

    def restore(self, env, snap):
        envs, objs = snap
        for e, vs in envs:
            e.vars.clear()
            e.vars.update({k: self._restc(v) for k, v in vs.items()})
        for o, a in objs:
            o.attrs.clear()
            o.attrs.update(a)

    def merge_state(self, c, env, sA, sB):
        def strip(v):
            if isinstance(v, tuple) and len(v) == 3 and v[0] in ("__list__", "__dict__"):
                return v[2] if v[0] == "__list__" else v[2]
            return v
        for (e, va), (_, vb) in zip(sA[0], sB[0]):
            out = {}
            for k in list(va) + [k for k in vb if k not in va]:
                if k in va and k in vb:
                    out[k] = self.merge(c, strip(va[k]), strip(vb[k]))
                else:
                    out[k] = strip(va.get(k, vb.get(k)))       # bound on one branch only
            e.vars.clear()
            e.vars.update(out)
        bo = {id(o): a for o, a in sB[1]}
        for o, a in sA[1]:
            b = bo.get(id(o), {})
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                if k in a and k in b:
                    out[k] = self.merge(c, a[k], b[k])
                else:
                    out[k] = a.get(k, b.get(k))
            o.attrs.clear()
            o.attrs.update(out)

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        try:
            if not isnumeric(a) and not isnumeric(b):
                if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
                    r = [self.merge(c, x, y) for x, y in zip(a, b)]
                    return tuple(r) if isinstance(a, tuple) else r
                if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
                    return {k: self.merge(c, a[k], b[k]) for k in a}
                if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b:
                    return a
                if isinstance(a, FuncVal) and isinstance(b, FuncVal) and a.node is b.node:
                    return a
                return Top("join of different values")
            if isnumeric(a) and isnumeric(b):
                if type(a) in (int, bool) and type(b) in (int, bool) and a == b:
                    return a
                ta, tb = as_tensor(a), as_tensor(b)
                if c is None:
                    if ta.dims == tb.dims and ta.elem is tb.elem and ta.mask is tb.mask:
                        return a
                    return Top("join under an unknown condition")
                if ta.mask is not tb.mask:
                    return Top("join of masks")
                dims, (x, y), _ = broadcast([Tensor(ta.dims, ta.elem), Tensor(tb.dims, tb.elem)])
                return ret(Tensor(dims, ite(c, x, y), ta.mask))
        except TypeError:
            pass
        return Top("join of different kinds")

    # ---------------- loops
    def st_For(self, st, env):
        it = self.ev(st.iter, env)
        seq = self.concrete_iter(it)
        if seq is None:
            self.havoc(st.body + [ast.copy_location(ast.Assign([st.target], ast.Constant(None)), st)], env,
                       "loop over a symbolic range", st)
            return (FALL,)
        for v in seq:
            self.assign(st.target, v, env)
            out = self.exec_block(st.body, env)
            if out[0] == BRK:
                return (FALL,)
            if out[0] in (RET,):
                return out
            if out[0] == MAYBE:
                return (RET, Top("conditional return inside loop"))
        if st.orelse:
            return self.exec_block(st.orelse, env)
        return (FALL,)

    def concrete_iter(self, it):
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, set):
            return sorted(it, key=str)
        if isinstance(it, range):
            return list(it)
        if isinstance(it, Tensor) and it.rank >= 1:
            n = pyint(it.dims[0])
            if n is not None and n <= 64 and it.mask is None:
                return [getitem(it, k) for k in range(n)]
        if isinstance(it, Obj) and it.cls is not None and self.p.find_method(it.cls, "__iter__"):
            v = self.call(self.getattr(it, "__iter__"), [], {}, None)
            return None if isinstance(v, Obj) else self.concrete_iter(v)
        return None

    def st_While(self, st, env):
        for _ in range(200):
            c = self.truth(self.ev(st.test, env))
            if c is False or c is FALSE:
                return (FALL,)
            if c is not True and c is not TRUE:
                break
            out = self.exec_block(st.body, env)
            if out[0] == BRK:
                return (FALL,)
            if out[0] == RET:
                return out
            if out[0] == MAYBE:
                return (RET, Top("conditional return inside loop"))
        self.havoc(st.body, env, "while loop", st)
        return (FALL,)

    def havoc(self, stmts, env, why, node):
        self.top(why, node, env)
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.For, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and (isinstance(x.ctx, ast.Store) or
                                                            isinstance(t, (ast.Subscript, ast.Attribute))):
                                if isinstance(t, ast.Attribute):
                                    base = env.vars.get(x.id)
                                    if isinstance(base, Obj):
                                        base.attrs[t.attr] = Top(why)
                                else:
                                    root = t
                                    while isinstance(root, ast.Subscript):
                                        root = root.value
                                    if isinstance(root, ast.Name) and x.id == root.id or isinstance(x.ctx, ast.Store):
                                        if not isinstance(env.vars.get(x.id), Obj):
                                            env.vars[x.id] = Top(why)

    # ---------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            seq = None
            if isinstance(v, (tuple, list)):
                seq = list(v)
            elif isinstance(v, Tensor):
                seq = self.concrete_iter(v)
                if seq is None and not star and v.rank:
                    seq = [getitem(v, k) for k in range(n)]
            elif isinstance(v, Obj):
                seq = self.concrete_iter(v)
            if seq is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top("unpack"), env)
                return
            if star:
                k = star[0]
                tail = n - k - 1
                mid = seq[k:len(seq) - tail]
                vals = seq[:k] + [mid] + seq[len(seq) - tail:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(seq) != n:
                for e in t.elts:
                    self.assign(e, Top("unpack arity"), env)
                return
            for e, x in zip(t.elts, seq):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            elif isinstance(o, Tensor):
                new = Top("attribute store on an array")
                if t.attr in ("indptr", "indices") and isinstance(o, Sparse) and isinstance(v, Tensor):
                    try:
                        cur = self.sparse_attr(o, t.attr, t, env)
                        if [tm.asnum(e) for e in dense_arr(cur)] == [tm.asnum(e) for e in dense_arr(v)]:
                            return            # the same positions in another integer type
                    except (TypeError, IndexError, KeyError, AttributeError):
                        pass
                if t.attr == "data" and isinstance(o, Sparse) and isinstance(v, Tensor) and v.vkey == "data" and \
                        v.base is o:
                    return                # the second half of an in-place update of the stored values
                if t.attr == "data" and isinstance(o, Sparse) and isinstance(v, Tensor):
                    try:
                        new = stored(o, v)
                    except (TypeError, IndexError):
                        pass
                self.inplace(o, new)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            ix = self.ev_index(t.slice, env)
            if isinstance(base, dict):
                try:
                    base[ix] = v
                except TypeError:
                    pass
                return
            if isinstance(base, list):
                if isinstance(ix, SliceVal):
                    b = [None if x is None else pyint(x) for x in (ix.lo, ix.hi, ix.step)]
                    known = all(x is None or y is not None for x, y in zip((ix.lo, ix.hi, ix.step), b))
                    if known and isinstance(v, (list, tuple)):
                        base[slice(*b)] = list(v)
                    else:
                        base[:] = [Top("slice store into a list")] * len(base)
                    return
                k = pyint(ix)
                if k is not None and -len(base) <= k < len(base):
                    base[k] = v
                elif k is None:
                    base[:] = [Top("store at an unknown index of a list")] * len(base)
                return
            if isinstance(base, (Tensor, T)) and not isinstance(v, Top):
                try:
                    new0 = base
                    new = ret(setitem(as_tensor(base), self._ixfix(ix), v))
                except (TypeError, KeyError, IndexError, RecursionError) as e:
                    new = self.top("store: %s" % e, t, env)
            else:
                if isinstance(base, Obj):
                    return
                new = Top("store into unknown") if not isinstance(base, Top) else base
                if isinstance(v, Top):
                    new = v
            if isinstance(base, Tensor):
                self.inplace(base, new)
                if base.view is not None:
                    src, cin, cout = base.view
                    self.inplace(src, unview(src, cin, cout, new) if isinstance(new, Tensor)
                                 else Top("store through an einsum view"))
            self.assign(t.value, new, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def _ixfix(self, ix):
        def one(i):
            if isinstance(i, Top):
                raise TypeError("unknown index (%s)" % i.why)
            if isinstance(i, (list,)):
                return stack_values(i)
            if isinstance(i, (tuple,)) :
                return i
            if isinstance(i, bool):
                return i
            return i
        if isinstance(ix, tuple):
            return tuple(one(i) for i in ix)
        return one(ix)

    def ev_index(self, node, env):
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    q = self.concrete_iter(self.ev(e.value, env))
                    if q is None:
                        return self.top("unknown starred", node, env)
                    out.extend(q)
                    continue
                v = self.ev_index(e, env)
                out.append(v)
            return tuple(out)
        if isinstance(node, ast.Slice):
            return SliceVal(*[None if x is None else self.ev(x, env) for x in (node.lower, node.upper, node.step)])
        return self.ev(node, env)

    # ---------------- expressions
    def ev(self, node, env):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            return self.top("expression " + type(node).__name__, node, env)
        try:
            return m(node, env)
        except (TypeError, KeyError, IndexError, NotDifferentiable, AttributeError, ValueError,
                ZeroDivisionError, AssertionError, OverflowError) as e:
            return self.top("%s: %s" % (type(e).__name__, e), node, env)

    def ex_Constant(self, node, env):
        v = node.value
        if isinstance(v, float):
            return num(v)
        if isinstance(v, complex) and self.imag is not None and v.real == 0:
            return tm.mul(num(v.imag), sym("1j", dom="real"))
        return v

    def ex_Name(self, node, env):
        return self.lookup(node.id, env)

    def ex_Tuple(self, node, env):
        try:
            return tuple(self._elts(node, env))
        except TypeError:
            return self.top("unknown starred", node, env)

    def ex_List(self, node, env):
        try:
            return self._elts(node, env)
        except TypeError:
            return self.top("unknown starred", node, env)

    def _elts(self, node, env):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                s = self.concrete_iter(v)
                if s is None:
                    raise TypeError("unknown starred")
                out.extend(s)
            else:
                out.append(self.ev(e, env))
        return out

    def ex_Set(self, node, env):
        try:
            return set(self._elts(node, env))
        except TypeError:
            return Top("set")

    def ex_Dict(self, node, env):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, dict):
                    d.update(x)
                else:
                    return Top("dict merge")
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def ex_JoinedStr(self, node, env):
        out = ""
        for v in node.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.ev(v.value, env)
                if isinstance(x, (str, int)):
                    out += str(x)
                else:
                    return "<str>"
        return out

    def ex_Lambda(self, node, env):
        return FuncVal(node, env.module, closure=env, owner=env.owner)

    def ex_IfExp(self, node, env):
        c = self.truth(self.ev(node.test, env))
        if c is True or c is TRUE:
            return self.ev(node.body, env)
        if c is False or c is FALSE:
            return self.ev(node.orelse, env)
        return self.merge(c, self.ev(node.body, env), self.ev(node.orelse, env))

    def ex_NamedExpr(self, node, env):
        v = self.ev(node.value, env)
        self.assign(node.target, v, env)
        return v

    def ex_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        acc = None
        for e in node.values:
            v = self.ev(e, env)
            c = self.truth(v)
            if c is TRUE:
                c = True
            if c is FALSE:
                c = False
            if c is None:
                return Top("unknown condition")
            if isinstance(c, bool):
                if c != isand:
                    return v if acc is None else (FALSE if isand else TRUE)
                last = v
                continue
            acc = c if acc is None else (and_(acc, c) if isand else or_(acc, c))
        return last if acc is None else acc

    def ex_UnaryOp(self, node, env):
        v = self.ev(node.operand, env)
        if isinstance(v, Top):
            return v
        if isinstance(node.op, ast.Not):
            c = self.truth(v)
            if c is None:
                return Top("not unknown")
            return (not c) if isinstance(c, bool) else not_(c)
        if isinstance(node.op, ast.USub):
            if isinstance(v, int):
                return -v
            return elementwise(num_elem(tm.neg), v)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return ~v

        def inv(e):
            if e.op in COND:
                return not_(e)
            raise TypeError("~ of a number")
        return elementwise(inv, v)

    def ex_BinOp(self, node, env):
        return self.binop(node.op, self.ev(node.left, env), self.ev(node.right, env), node, env)

    def binop(self, op, a, b, node, env):
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Mod):
                return "<str>"
            if isinstance(op, ast.Mult):
                return "<str>"
        if isinstance(op, ast.Add) and isinstance(a, list) and isinstance(b, list):
            return a + b
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, (list, tuple)) and pyint(b) is not None and not isinstance(b, Tensor):
            return a * pyint(b)
        if isinstance(op, ast.BitOr) and isinstance(a, dict) and isinstance(b, dict):
            return {**a, **b}
        if isinstance(a, (dict, Obj, type(None))) or isinstance(b, (dict, Obj, type(None))):
            return self.top("operator on non-numeric", node, env)
        ia = a if isinstance(a, int) else None
        ib = b if isinstance(b, int) else None
        if ia is not None and ib is not None:
            if isinstance(op, ast.Add): return ia + ib
            if isinstance(op, ast.Sub): return ia - ib
            if isinstance(op, ast.Mult): return ia * ib
            if isinstance(op, ast.FloorDiv) and ib: return ia // ib
            if isinstance(op, ast.Mod) and ib: return ia % ib
            if isinstance(op, ast.Pow) and ib >= 0: return ia ** ib
            if isinstance(op, ast.BitAnd): return ia & ib
            if isinstance(op, ast.BitOr): return ia | ib
        sa, sb = isinstance(a, Sparse), isinstance(b, Sparse)
        if isinstance(op, ast.MatMult) or (isinstance(op, ast.Mult) and (sa and not a.arr or sb and not b.arr)
                                           and as_tensor(a).rank and as_tensor(b).rank):
            r = matmul(a, b) if isinstance(op, ast.MatMult) else contract(a, b)
            return Sparse(r.dims, r.elem, r.mask, fmt=a.fmt if a.fmt in ("csc", "csr") else None) if sa and sb else r
        if sa and sb or sa and as_tensor(b).rank == 0 or sb and as_tensor(a).rank == 0:
            da = Tensor(a.dims, a.elem, a.mask) if sa else a
            db = Tensor(b.dims, b.elem, b.mask) if sb else b
            r = self.binop(op, da, db, node, env)
            arr = (a.arr if sa else True) and (b.arr if sb else True)
            fa = (a if sa else b).fmt
            return Sparse(r.dims, r.elem, r.mask, arr=arr, fmt=fa if fa in ("csc", "csr") else None) if isinstance(r, Tensor) else r
        f = {ast.Add: tm.add, ast.Sub: tm.sub, ast.Mult: tm.mul, ast.Div: tm.div, ast.Pow: tm.power,
             ast.FloorDiv: lambda x, y: fn("floordiv", x, y), ast.Mod: lambda x, y: fn("mod", x, y)}.get(type(op))
        if f is not None:
            return elementwise(num_elem(f), a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            def g(x, y):
                if x.op not in COND or y.op not in COND:
                    raise TypeError("bit op on numbers")
                if isinstance(op, ast.BitAnd):
                    return and_(x, y)
                if isinstance(op, ast.BitOr):
                    return or_(x, y)
                return or_(and_(x, not_(y)), and_(not_(x), y))
            return elementwise(g, a, b)
        return self.top("operator", node, env)

    def ex_Compare(self, node, env):
        left = self.ev(node.left, env)
        acc = None
        for op, r in zip(node.ops, node.comparators):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            left = right
            if acc is None:
                acc = v
            else:
                ca, cb = self.truth(acc), self.truth(v)
                if isinstance(acc, Top) or isinstance(v, Top) or ca is None or cb is None:
                    return Top("compare")
                ca = TRUE if ca is True else FALSE if ca is False else ca
                cb = TRUE if cb is True else FALSE if cb is False else cb
                acc = and_(ca, cb)
        return acc

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Top) or isinstance(b, Top):
                return Top("is")
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, (Ext, ClassVal)) or isinstance(b, (Ext, ClassVal)):
                if isinstance(a, Ext) and isinstance(b, Ext):
                    r = a.name == b.name
                elif isinstance(a, ClassVal) and isinstance(b, ClassVal):
                    r = a.cls is b.cls
                else:
                    r = False
            elif isinstance(a, (FuncVal, Obj, str)):
                r = a is b
            else:
                return Top("is")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(a, Top) or isinstance(b, Top):
            return Top("comparison of unknown")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple, set, dict, str)):
                if isinstance(a, T) and a.op != "num":
                    return Top("in")
                aa = simp(a) if isinstance(a, (T, int)) else a
                els = list(b) if not isinstance(b, str) else b
                if isinstance(b, str):
                    r = isinstance(a, str) and a in b
                else:
                    els = [simp(x) if isinstance(x, (T, int)) and not isinstance(x, bool) else x for x in els]
                    if any(isinstance(x, (Top,)) for x in els):
                        return Top("in")
                    r = any((x is aa) or (type(x) == type(aa) and not isinstance(x, (Tensor,)) and x == aa)
                            for x in els)
                return r if isinstance(op, ast.In) else not r
            return Top("in")
        if not (isnumeric(a) and isnumeric(b)):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                    if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
                        r = a == b
                    else:
                        r = False
                    return r if isinstance(op, ast.Eq) else not r
                if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                    if len(a) != len(b):
                        r = False
                    else:
                        rs = [self.compare(ast.Eq(), x, y) for x, y in zip(a, b)]
                        ts = [self.truth(x) for x in rs]
                        if any(t is None for t in ts):
                            return Top("eq")
                        if all(isinstance(t, bool) for t in ts):
                            r = all(ts)
                        else:
                            r = and_(*[TRUE if t is True else FALSE if t is False else t for t in ts])
                            return r if isinstance(op, ast.Eq) else not_(r)
                    return r if isinstance(op, ast.Eq) else not r
            return Top("comparison")
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[type(op)]
        o = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]

        def f(x, y):
            if o in ("==", "!=") and x.op in COND and y.op in COND:
                pass
            else:
                x, y = tm.asnum(x), tm.asnum(y)
            return rel(o, x, y)
        r = elementwise(f, a, b)
        if r is TRUE:
            return True
        if r is FALSE:
            return False
        return r

    def ex_Subscript(self, node, env):
        base = self.ev(node.value, env)
        if isinstance(base, Top):
            return base
        ix = self.ev_index(node.slice, env)
        if isinstance(ix, Top):
            return ix
        if isinstance(base, Ext):
            if base.name in ("numpy.r_", "numpy.c_"):
                its = [as_tensor(i) if not isinstance(i, SliceVal) else self._rslice(i) for i in
                       (ix if isinstance(ix, tuple) else (ix,))]
                its = [expand(i, 0) if i.rank == 0 else i for i in its]
                if base.name == "numpy.c_":
                    its = [expand(i, 1) if i.rank == 1 else i for i in its]
                    return concat(its, axis=1)
                return concat(its)
            return Top("subscript of " + base.name)
        if isinstance(base, dict):
            k = simp(ix) if isinstance(ix, T) else ix
            if isinstance(ix, (Tensor, list, SliceVal)):
                return Top("dict key")
            if k in base:
                return base[k]
            return self.top("missing key %r" % (k,), node, env)
        if isinstance(base, (list, tuple, str, range)):
            if isinstance(ix, SliceVal):
                b = [None if x is None else pyint(x) for x in (ix.lo, ix.hi, ix.step)]
                return base[slice(*b)]
            k = pyint(ix)
            if k is None or not isinstance(ix, (int, T)):
                return self.top("symbolic list index", node, env)
            return base[k]
        if isinstance(base, Obj):
            if base.opaque and hasattr(base.opaque, "getitem"):
                return base.opaque.getitem(base, ix)
            m = self.p.find_method(base.cls, "__getitem__") if base.cls else None
            if m:
                return self.call_func(FuncVal(m[1], m[0].module, owner=m[0]), [base, ix], {}, node, env, selfv=base)
            return Top("getitem on object")
        if isinstance(base, int):
            base = num(base)
        ix = self._ixfix(ix)
        r = simp(getitem(as_tensor(base), ix))
        if isinstance(base, Sparse) and isinstance(r, Tensor) and r.rank == 2 and r is not base and type(r) is Tensor:
            return Sparse(r.dims, r.elem, r.mask, arr=base.arr, fmt=base.fmt if base.fmt in ("csc", "csr") else None)
        if isinstance(r, Tensor) and isinstance(base, Tensor) and r.base is None and r is not base and \
                not isinstance(base, Sparse) and not any(isinstance(i, Tensor) and i.rank for i in norm_index(ix)):
            r.base, r.vkey = base, ix
        return r

    def _rslice(self, s):
        lo, hi = toterm(s.lo if s.lo is not None else 0), toterm(s.hi)
        return Tensor((tm.sub(hi, lo),), tm.add(AX[0], lo))

    def ex_Attribute(self, node, env):
        return self.getattr(self.ev(node.value, env), node.attr, node, env)

    def getattr(self, v, attr, node=None, env=None):
        if isinstance(v, Top):
            return v
        if isinstance(v, Ext):
            full = v.name + "." + attr
            if full in CONSTS:
                return CONSTS[full]
            return Ext(full)
        if isinstance(v, ModVal):
            w = self.wrap_entity(self.p.resolve_in(v.module, attr) if hasattr(self.p, "resolve_in")
                                 else self.p.lookup(v.module, attr))
            if w is MISSING:
                full = v.module.name + "." + attr
                if full in self.p.modules:
                    return ModVal(self.p.modules[full])
                return Top("no attribute " + full)
            return w
        if isinstance(v, Obj):
            if attr in v.attrs:
                return v.attrs[attr]
            if v.opaque is not None:
                r = v.opaque.getattr(self, v, attr)
                if r is not MISSING:
                    return r
            if v.cls is not None:
                m = self.p.find_method(v.cls, attr)
                if m:
                    return self.bind(m, v, v.cls, node, env)
                a = self.p.find_class_attr(v.cls, attr)
                if a:
                    r = self.ev(a[1], self.modenv(a[0].module))
                    return r
            if attr == "__class__" and v.cls is not None:
                return ClassVal(v.cls)
            if v.cls is not None and v.opaque is None and not self.p.may_have_attr(v.cls, attr):
                return Top("%s has no attribute %s and no class of its hierarchy assigns it" % (v.cls.name, attr), definite=True)
            return self.top("attribute %s of %r" % (attr, v), node, env)
        if isinstance(v, SuperVal):
            m = self.p.find_method(v.obj.cls, attr, after=v.owner)
            if m:
                return self.bind(m, v.obj, v.obj.cls, node, env)
            if attr == "__init__":
                return PyFunc(lambda *a, **k: None)
            return Top("super attr " + attr)
        if isinstance(v, ClassVal):
            if attr == "__name__":
                return v.cls.name
            m = self.p.find_method(v.cls, attr)
            if m:
                d = decorators(m[1])
                f = FuncVal(m[1], m[0].module, owner=m[0])
                if "classmethod" in d:
                    return Bound(f, v)
                return f
            a = self.p.find_class_attr(v.cls, attr)
            if a:
                return self.ev(a[1], self.modenv(a[0].module))
            for k in self.p.mro(v.cls):
                if attr in k.inner:
                    return ClassVal(k.inner[attr])
            return Top("class attribute " + attr)
        if isinstance(v, (Tensor, T, int, float)) and not isinstance(v, bool) or isinstance(v, bool):
            t = as_tensor(v)
            if attr == "shape":
                return tuple(simp(d) for d in t.dims)
            if attr == "A" and isinstance(v, Sparse):
                return Tensor(t.dims, t.elem, t.mask)
            if attr == "T":
                r = ret(transpose(t))
                if isinstance(v, Sparse):
                    r = sparse_T(v, r)
                if isinstance(r, Tensor) and isinstance(v, Tensor) and r is not v:
                    r.base, r.vkey = v, "T"
                return r
            if attr == "ndim":
                return t.rank
            if attr == "size":
                r = ONE
                for d in t.dims:
                    r = tm.mul(r, d)
                return simp(r)
            if attr in ("real", "values"):
                return v
            if isinstance(v, Sparse) and attr in ("row", "col", "indices", "indptr", "nnz"):
                return self.sparse_attr(v, attr, node, env)
            if isinstance(v, Sparse) and attr == "data":
                r = values_of(v)
                r.base, r.vkey = v, "data"
                return r
            if isinstance(v, Sparse) and attr in ("has_sorted_indices", "has_canonical_format"):
                return True
            if attr == "dtype":
                return Ext("builtins.bool" if t.elem.op in COND else "builtins.float")
            if attr == "flags":       # arrays are modelled as C-contiguous
                return {"C_CONTIGUOUS": True, "F_CONTIGUOUS": False, "c_contiguous": True, "f_contiguous": False}
            if attr == "imag" and self.imag is not None:
                return elementwise(self.imag, v)
            if attr in ("index", "columns", "imag"):
                return Top("array attribute " + attr)
            return TensorMethod(v, attr)
        if isinstance(v, SliceVal) and attr in ("start", "stop", "step"):
            return {"start": v.lo, "stop": v.hi, "step": v.step}[attr]
        if isinstance(v, (str, list, dict, tuple, set)):
            return TensorMethod(v, attr)
        if isinstance(v, FuncVal):
            if attr == "__name__":
                return getattr(v.node, "name", "<lambda>")
        return self.top("attribute %s" % attr, node, env)

    def sparse_attr(self, v, attr, node, env):
        """index arrays of a compressed matrix of known shape (entries that are not the literal zero are stored)"""
        ns = concrete_dims(v)
        if ns is None or len(ns) != 2 or (v.fmt not in ("csc", "csr") and attr != "nnz"):
            return self.top("sparse attribute " + attr, node, env)
        d = dense_arr(v)
        if v.pat is not None:
            ij = v.pat
        elif v.fmt == "csr":
            ij = [(i, j) for i in range(ns[0]) for j in range(ns[1]) if tm.asnum(d[i, j]) is not ZERO]
        else:
            ij = [(i, j) for j in range(ns[1]) for i in range(ns[0]) if tm.asnum(d[i, j]) is not ZERO]
        if attr == "nnz":
            k = getattr(self, "count_nnz", None)      # a check may choose the density that selects a code path
            return num(len(ij) if k is None else k)
        k = 1 if v.fmt == "csr" else 0
        if attr == "indptr":
            out = [sum(1 for e in ij if e[1 - k] < q) for q in range(ns[1 - k] + 1)]
        else:
            out = [e[{"row": 0, "col": 1, "indices": k}[attr]] for e in ij]
        return from_flat((len(out),), [num(q) for q in out])

    def bind(self, m, obj, cls, node, env):
        owner, fnode = m
        d = decorators(fnode)
        f = FuncVal(fnode, owner.module, owner=owner)
        q = owner.qual + "." + fnode.name
        if q in self.overrides:
            return Bound(self.overrides[q], obj)
        if "property" in d or "cached_property" in d:
            return self.call_func(f, [obj], {}, node, env, selfv=obj)
        if "staticmethod" in d:
            return self.decorate(f, owner.module)
        if "classmethod" in d:
            return Bound(f, ClassVal(cls))
        g = self.decorate(f, owner.module)
        return Bound(g, obj)

    # ---------------- calls
    def ex_Call(self, node, env):
        if isinstance(node.func, ast.Name) and node.func.id == "super":
            owner, sv = env.owner, None
            e = env
            while e is not None and sv is None:
                sv = e.selfv
                owner = owner or e.owner
                e = e.parent
            if node.args:
                r = self.ev(node.args[0], env)
                if isinstance(r, ClassVal):
                    owner = r.cls
            if isinstance(sv, Obj) and owner is not None:
                return SuperVal(owner, sv)
            return Top("super")
        f = self.ev(node.func, env)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                s = self.concrete_iter(v)
                if s is None:
                    return self.top("starred argument", node, env)
                args.extend(s)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in node.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update({kk: vv for kk, vv in v.items() if isinstance(kk, str)})
                elif v is not None:
                    return self.top("** of unknown", node, env)
            else:
                kw[k.arg] = v
        r = self.call(f, args, kw, env, node)
        if isinstance(f, Ext) and "where" in kw and f.name.startswith("numpy.") and f.name not in WHERE_KW:
            w = kw["where"]
            if w is not True and not isinstance(r, Top):
                if isinstance(w, Tensor) and isinstance(kw.get("out"), Tensor) and kw["out"].mask is None and as_tensor(r).mask is None:
                    r = elementwise(lambda c, x, y: ite(c, tm.asnum(x), tm.asnum(y)), __import__("sa.npmodel", fromlist=["x"]).tobool(w), r, kw["out"])
                else:
                    r = self.top("masked ufunc", node, env)
        if "out" in kw and isinstance(f, (Ext, TensorMethod)) and isinstance(kw["out"], Tensor):
            self.inplace(kw["out"], r)
        # in-place methods on list/dict handled inside; mutating numpy calls with out=
        if "out" in kw and isinstance(f, (Ext, TensorMethod)):
            for k in node.keywords:
                if k.arg == "out" and isinstance(k.value, (ast.Name, ast.Attribute, ast.Subscript)):
                    self.assign(_load_target(k.value), r, env) if not isinstance(k.value, ast.Subscript) else \
                        self.assign(k.value, r, env)
        if isinstance(f, TensorMethod) and f.name in ("fill", "sort", "itemset") and isinstance(f.t, Tensor) and \
                isinstance(node.func, ast.Attribute):
            new = elementwise(num_elem(lambda x, y: y), f.t, args[0]) if f.name == "fill" else Top(f.name)
            self.assign(_load_target(node.func.value), new, env)
        if isinstance(f, Ext) and f.name == "numpy.fill_diagonal" and isinstance(node.args[0], (ast.Name, ast.Attribute)):
            t = as_tensor(args[0])
            v = as_tensor(args[1])
            ve = v.elem if v.rank == 0 else v.elem
            self.assign(_load_target(node.args[0]), Tensor(t.dims, ite(rel("==", AX[0], AX[1]), tm.asnum(ve), tm.asnum(t.elem))), env)
        return r

    def call(self, f, args, kw, env, node=None):
        if isinstance(f, Top):
            return f
        if isinstance(f, PyFunc):
            return f.f(*args, **kw)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw}, env, node)
        if isinstance(f, Bound):
            if isinstance(f.func, FuncVal):
                return self.call_func(f.func, [f.selfv] + list(args), kw, node, env, selfv=f.selfv)
            return self.call(f.func, [f.selfv] + list(args), kw, env, node)
        if isinstance(f, FuncVal):
            sv = args[0] if (f.owner is not None and args and isinstance(args[0], Obj)) else None
            return self.call_func(f, args, kw, node, env, selfv=sv)
        if isinstance(f, ClassVal):
            return self.instantiate(f.cls, args, kw, node, env)
        if isinstance(f, Obj):
            if f.opaque is not None and hasattr(f.opaque, "call"):
                return f.opaque.call(self, f, args, kw)
            if f.cls is not None:
                m = self.p.find_method(f.cls, "__call__")
                if m:
                    return self.call(self.bind(m, f, f.cls, node, env), args, kw, env, node)
            return Top("call of object")
        if isinstance(f, TensorMethod):
            from . import npmodel, densemodel
            return npmodel.method(self, f.t, f.name, args, kw, node, env)
        if isinstance(f, Ext):
            from . import npmodel, densemodel
            return npmodel.call(self, f.name, args, kw, node, env)
        return self.top("call of %r" % (f,), node, env)

    def instantiate(self, cls, args, kw, node=None, env=None):
        o = Obj(cls)
        self.objs.append(o)
        m = self.p.find_method(cls, "__init__")
        if m:
            self.call_func(FuncVal(m[1], m[0].module, owner=m[0]), [o] + list(args), kw, node, env, selfv=o)
        elif "dataclass" in decorators(cls.node):
            names = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)]
            for n, a in zip(names, args):
                o.attrs[n] = a
            o.attrs.update(kw)
        return o

    def bind_args(self, a, args, kw, defaults_env):
        vars = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for n, v in zip(names, args):
            vars[n] = v
        if len(args) > len(names):
            if a.vararg:
                vars[a.vararg.arg] = tuple(args[len(names):])
            else:
                raise TypeError("too many arguments")
        elif a.vararg:
            vars[a.vararg.arg] = ()
        extra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwnames:
                if k in vars:
                    raise TypeError("duplicate argument " + k)
                vars[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            vars[a.kwarg.arg] = extra
        elif extra:
            raise TypeError("unexpected keyword " + ",".join(extra))
        d = a.defaults
        for n, dv in zip(names[len(names) - len(d):], d):
            if n not in vars:
                vars[n] = self.ev(dv, defaults_env)
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars and dv is not None:
                vars[x.arg] = self.ev(dv, defaults_env)
        for n in names + kwnames:
            if n not in vars:
                raise TypeError("missing argument " + n)
        return vars

    def call_func(self, f, args, kw, node=None, env=None, selfv=None):
        if self.depth > MAXDEPTH:
            return Top("recursion depth")
        denv = f.closure or self.modenv(f.module)
        try:
            vars = self.bind_args(f.node.args, args, kw, denv)
        except TypeError as e:
            nm = getattr(f.node, "name", "<lambda>")
            why = "call of %s at %s:%s fails: %s" % (nm, env.module.relpath if env else f.module.relpath,
                                                     getattr(node, "lineno", f.node.lineno), e)
            if env is not None:
                self.tops.append((env.module.relpath, getattr(node, "lineno", 0), why))
            return Top(why, definite=not isinstance(f.node, ast.Lambda))
        e = Env(vars, f.module, parent=f.closure, owner=f.owner, selfv=selfv)
        self.depth += 1
        self.frames.append(e)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, e)
            self.touched.add((f.module.relpath, (f.owner.name + "." if f.owner else "") + f.node.name))
            if is_generator(f.node):
                e.vars["<yields>"] = ys = YieldList()
                out = self.exec_block(f.node.body, e)
                if out[0] == RET and isinstance(out[1], Top):
                    return out[1]
                return list(ys.items) if out[0] in (RET, FALL) else Top("generator control flow")
            out = self.exec_block(f.node.body, e)
            if out[0] == RET:
                return out[1]
            if out[0] == MAYBE:
                return self.merge(out[1], out[2], None)
            if out[0] in (BRK, CONT):
                return Top("loop control")
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    # ---------------- comprehensions
    def _comp(self, gens, env, emit):
        def rec(k, e):
            if k == len(gens):
                emit(e)
                return
            g = gens[k]
            seq = self.concrete_iter(self.ev(g.iter, e))
            if seq is None:
                raise TypeError("comprehension over symbolic iterable")
            for v in seq:
                self.assign(g.target, v, e)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, e))
                    if t is False or t is FALSE:
                        ok = False
                        break
                    if t is not True and t is not TRUE:
                        raise TypeError("symbolic comprehension filter")
                if ok:
                    rec(k + 1, e)
        rec(0, Env({}, env.module, parent=env, owner=env.owner, selfv=env.selfv))

    def ex_ListComp(self, node, env):
        out = []
        self._comp(node.generators, env, lambda e: out.append(self.ev(node.elt, e)))
        return out

    ex_GeneratorExp = ex_ListComp

    def ex_Yield(self, node, env):
        e = env
        while e is not None and "<yields>" not in e.vars:
            e = e.parent
        if e is None:
            return Top("yield")
        v = None if node.value is None else self.ev(node.value, env)
        e.vars["<yields>"].items.append(list(v) if isinstance(v, list) else v)
        return None

    def ex_SetComp(self, node, env):
        return Top("set comprehension")

    def ex_DictComp(self, node, env):
        out = {}

        def emit(e):
            out[self.ev(node.key, e)] = self.ev(node.value, e)
        self._comp(node.generators, env, emit)
        return out


class YieldList:
    """values a generator has produced so far"""

    def __init__(self):
        self.items = []


def is_generator(node):
    st = list(node.body) if isinstance(node.body, list) else []
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            st.extend(ast.iter_child_nodes(n))
    return False


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def _load_target(t):
    return t


BUILTINS = set("len range zip enumerate isinstance float int bool str abs min max sum list tuple dict set type "
               "getattr hasattr setattr callable print map filter sorted reversed any all round pow slice "
               "Exception ValueError TypeError KeyError NotImplementedError RuntimeError divmod id iter next "
               "property staticmethod classmethod object frozenset vars repr complex np".split()) - {"np"}

CONSTS = {"numpy.pi": PI, "math.pi": PI, "scipy.pi": PI, "numpy.e": E, "math.e": E, "numpy.inf": INF, "math.inf": INF,
          "numpy.nan": NAN, "numpy.newaxis": None, "numpy.euler_gamma": EULER, "numpy.Inf": INF, "numpy.NaN": NAN}
