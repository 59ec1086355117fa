"""C17 element order of half-vectorisations, duplication/elimination/commutation operators and index helpers."""
from sa.harness import *
from sa.check import Check
from sa import terms as tm
from sa.interp import dense_arr, from_flat, concrete_dims, Sparse, FuncVal
from .c07 import safe

U = "pystatsm.utilities."
LO, SM, IX = U + "linalg_operations", U + "special_mats", U + "indexing_utils"
DE = "pystatsm.pyrobust.dispersion_estimators"


def lower(n, k=0):
    """column-major lower triangle"""
    return [(i, j) for j in range(n) for i in range(n) if i - j >= -k]


def matrix(n, m, tag="a"):
    return [[sym("%s_%d_%d" % (tag, i, j), dom="real") for j in range(m)] for i in range(n)]


def symm(n, tag="s"):
    return [[sym("%s_%d_%d" % (tag, max(i, j), min(i, j)), dom="real") for j in range(n)] for i in range(n)]


def T2(rows):
    return from_flat((len(rows), len(rows[0])), sum(rows, []))


def V1(es):
    return from_flat((len(es),), [num(e) if isinstance(e, int) else e for e in es])


def vec(rows):
    return [rows[i][j] for j in range(len(rows[0])) for i in range(len(rows))]


def surefail(v):
    """every size here is a number, so an indexing or shape error of the array model is an error of the code"""
    return any(s in v.why for s in ("boolean array indexing assignment cannot assign", "is out of bounds for axis",
                                    "could not broadcast input array", "shape mismatch:", "cannot reshape array of size"))


class X:
    """obligation recorder over one function"""

    def __init__(self, chk, P):
        self.chk, self.P, self.I = chk, P, Interp(P)
        self.I.overrides[U + "python_wrappers.sparse_kron"] = PyFunc(
            lambda I, a, kw: self.kron(a, kw), "sparse_kron") if "PyFunc" in globals() else None
        self.seen = set()

    def kron(self, a, kw):
        from sa.npmodel import call as npcall
        return npcall(self.I, "scipy.sparse.kron", list(a[:2]), {}, None, None)

    def fn(self, mod, name):
        if mod not in self.P.modules:
            return None
        f = self.I.lookup(name, self.I.modenv(self.P.modules[mod]))
        return f if isinstance(f, FuncVal) else None

    def __call__(self, mod, name, *a, **k):
        f = self.fn(mod, name)
        if f is None:
            return None
        self.seen.add((mod, name))
        return safe(self.I.call, f, list(a), k, None)

    def where(self, mod, name):
        return "%s:%s" % (mod.replace(".", "/") + ".py", name)

    def eq(self, rule, where_, what, got, want):
        """want: nested list of terms/ints"""
        if got is None:
            return
        if isinstance(got, Top):
            if got.definite or surefail(got):
                self.chk.ob(rule, where_, what, "violated", got.why)
            else:
                self.chk.ob(rule, where_, what, "undecided", got.why)
            return
        t = safe(as_tensor, got)
        if isinstance(t, Top):
            self.chk.ob(rule, where_, what, "undecided", t.why)
            return
        shape = []
        w = want
        while isinstance(w, list):
            shape.append(len(w))
            w = w[0] if w else None
        ns = concrete_dims(t)
        if ns is None:
            self.chk.ob(rule, where_, what, "undecided", "symbolic shape")
            return
        if tuple(ns) != tuple(shape):
            self.chk.ob(rule, where_, what, "violated", "shape %s, expected %s" % (tuple(ns), tuple(shape)))
            return
        d = dense_arr(t)
        flat = want
        for _ in range(len(shape) - 1):
            flat = sum(flat, [])
        flat = flat if shape else [flat]
        import itertools
        bad = None
        for ix, w in zip(itertools.product(*[range(n) for n in ns]), flat):
            e = tm.asnum(d[ix] if ns else t.elem)
            r = decide_eq(e, num(w) if isinstance(w, int) else w, self.chk)
            if r[0] != "ok":
                bad = (r[0], "entry %s: %s" % (list(ix), r[1]))
                if r[0] == "violated":
                    break
        if bad:
            self.chk.ob(rule, where_, what, bad[0], bad[1])
        else:
            self.chk.ob(rule, where_, what, "proved", "%d entries equal" % len(flat))


class Cap:
    """captures the status of one comparison"""
    seed, thorough = 1, False

    def __init__(self):
        self.extra = {}
        self.r = None

    def ob(self, rule, where_, what, status, detail=""):
        self.r = (status, detail)


def decide_eq(a, b, chk):
    if a is b:
        return "ok", ""
    c = Cap()
    compare(c, "", "", "", a, b)
    return ("ok" if c.r[0] in ("proved", "agrees", "ok") else c.r[0]), c.r[1]


def run():
    chk = Check("C17", floor=200, explanation=(
        "Vectorisation helpers, special matrices, operator classes and index helpers are abstractly interpreted at every "
        "concrete size from 1 to 7 (11 in the thorough tier) on matrices of independent symbols; results are compared entry "
        "by entry with the column-major lower-triangle order that the rest of the library relies on."),
        rules={"halfvec": "half-vectorisation lists the lower triangle column by column, and its inverse restores the matrix",
               "operator": "K vec(A) = vec(A'), L vec(S) = vech(S), D vech(S) = vec(S), D+ vec(A) = vech((A+A')/2), N vec(A) = vec(A+A')",
               "apply": "operator classes and apply_* helpers equal the product with the operator they implement",
               "index": "index helpers enumerate, invert and match the same order"})
    P = Project()
    x = X(chk, P)
    N = range(1, 12 if chk.thorough else 8)
    for n in N:
        halfvec(x, n)
        operators(x, n)
        classes(x, n)
        indices(x, n)
    rect(x)
    return chk.finish()


def halfvec(x, n):
    A, S = matrix(n, n), symm(n)
    lo, sl = lower(n), lower(n, -1)
    for mod, names in ((LO, ["vech", "_vech", "_vech_nb"]), (DE, ["vech"])):
        for nm in names:
            x.eq("halfvec", x.where(mod, nm), "n=%d" % n, x(mod, nm, T2(A)), [A[i][j] for i, j in lo])
            x.eq("halfvec", x.where(mod, nm), "symmetric n=%d" % n, x(mod, nm, T2(S)), [S[i][j] for i, j in lo])
    for nm in ("vecl", "_vecl", "lower_half_vec"):
        if n > 1:
            x.eq("halfvec", x.where(LO, nm), "n=%d" % n, x(LO, nm, T2(A)), [A[i][j] for i, j in sl])
    h = [sym("h_%d" % k, dom="real") for k in range(len(lo))]
    back = [[None] * n for _ in range(n)]
    for k, (i, j) in enumerate(lo):
        back[i][j] = back[j][i] = h[k]
    for mod, nm in ((LO, "invech"), (LO, "_invech"), (DE, "invech")):
        x.eq("halfvec", x.where(mod, nm), "n=%d" % n, x(mod, nm, V1(h)), back)
    if n > 1:
        g = [sym("g_%d" % k, dom="real") for k in range(len(sl))]
        low = [[ZERO] * n for _ in range(n)]
        full = [[ONE if i == j else None for j in range(n)] for i in range(n)]
        for k, (i, j) in enumerate(sl):
            low[i][j] = g[k]
            full[i][j] = full[j][i] = g[k]
        x.eq("halfvec", x.where(LO, "inv_lower_half_vec"), "n=%d" % n, x(LO, "inv_lower_half_vec", V1(g)), low)
        for nm in ("invecl", "_invecl"):
            x.eq("halfvec", x.where(LO, nm), "n=%d" % n, x(LO, nm, V1(g)), full)
        # stacked arguments
        g2 = [[sym("g%d_%d" % (b, k), dom="real") for k in range(len(sl))] for b in range(2)]
        f2 = [[[ONE if i == j else None for j in range(n)] for i in range(n)] for _ in range(2)]
        l2 = [[[ZERO] * n for i in range(n)] for _ in range(2)]
        for b in range(2):
            for k, (i, j) in enumerate(sl):
                f2[b][i][j] = f2[b][j][i] = l2[b][i][j] = g2[b][k]
        x.eq("halfvec", x.where(LO, "_invecl"), "stack n=%d" % n, x(LO, "_invecl", T2(g2)), f2)
        x.eq("halfvec", x.where(LO, "inv_lower_half_vec"), "stack n=%d" % n, x(LO, "inv_lower_half_vec", T2(g2)), l2)
        A2 = [matrix(n, n, "p"), matrix(n, n, "q")]
        st = from_flat((2, n, n), sum(sum(A2, []), []))
        for nm, ix in (("_vech", lo), ("_vecl", sl), ("lower_half_vec", sl)):
            x.eq("halfvec", x.where(LO, nm), "stack n=%d" % n, x(LO, nm, st), [[M[i][j] for i, j in ix] for M in A2])
        h2 = [[sym("h%d_%d" % (b, k), dom="real") for k in range(len(lo))] for b in range(2)]
        b2 = [[[None] * n for i in range(n)] for _ in range(2)]
        for b in range(2):
            for k, (i, j) in enumerate(lo):
                b2[b][i][j] = b2[b][j][i] = h2[b][k]
        x.eq("halfvec", x.where(LO, "_invech"), "stack n=%d" % n, x(LO, "_invech", T2(h2)), b2)
        x.eq("halfvec", x.where(LO, "_vec"), "stack n=%d" % n, x(LO, "_vec", st), [vec(M) for M in A2])
    lch = [[ZERO] * n for _ in range(n)]
    for k, (i, j) in enumerate((i, j) for i in range(n) for j in range(i + 1)):
        lch[i][j] = None
    for k, (i, j) in enumerate(lo):
        lch[i][j] = h[k]
    x.eq("halfvec", x.where(LO, "invech_chol"), "n=%d" % n, x(LO, "invech_chol", V1(h)), lch)
    for nm, k, ix in (("mat_size_to_hv_size", n, len(lo)), ("hv_size_to_mat_size", len(lo), n),
                      ("mat_size_to_lhv_size", n, len(sl)), ("lhv_size_to_mat_size", len(sl), n)):
        if not (n == 1 and "lhv" in nm):
            x.eq("index", x.where(LO, nm), "n=%d" % n, x(LO, nm, k), ix)
    M = matrix(n, n)
    x.eq("halfvec", x.where(LO, "_vec_tril_mask"), "n=%d" % n, x(LO, "_vec_tril_mask", n),
         [ONE if i > j else ZERO for j in range(n) for i in range(n)])
    x.eq("halfvec", x.where(LO, "_vec_ndg_mask"), "n=%d" % n, x(LO, "_vec_ndg_mask", n),
         [ONE if i != j else ZERO for j in range(n) for i in range(n)])
    if n > 1:
        x.eq("halfvec", x.where(LO, "_vec_ndg"), "n=%d" % n, x(LO, "_vec_ndg", T2(M)),
             [M[i][j] for j in range(n) for i in range(n) if i != j])
    for nm, ix in (("lhv_indices", sl), ("hv_indices", lo)):
        v = x(LO, nm, (n, n))
        if isinstance(v, (list, tuple)) and len(v) == 2 and ix:
            for q in range(2):
                x.eq("index", x.where(LO, nm), "%s n=%d" % ("row column".split()[q], n), v[q], [e[q] for e in ix])
    x.eq("halfvec", x.where(LO, "vdg"), "n=%d" % n, x(LO, "vdg", T2(M)),
         [[vec(M)[i] if i == j else ZERO for j in range(n * n)] for i in range(n * n)])


def product(M, v):
    """matrix value (known shape) times a list of terms"""
    d = dense_arr(as_tensor(M))
    out = []
    for i in range(d.shape[0]):
        s = ZERO
        for j in range(d.shape[1]):
            e = tm.asnum(d[i, j])
            if e is not ZERO:
                s = tm.add(s, tm.mul(e, v[j]))
        out.append(s)
    return from_flat((len(out),), out)


def opmat(x, mod, name, dims, *args):
    """an operator matrix of the right shape, or None with the reason recorded"""
    M = x(mod, name, *args)
    if M is None:
        return None
    w, lab = x.where(mod, name), "args %s" % (args,)
    if isinstance(M, Top):
        x.chk.ob("operator", w, lab, "violated" if M.definite or surefail(M) else "undecided", M.why)
        return None
    ns = concrete_dims(as_tensor(M))
    if ns is None or tuple(ns) != tuple(dims):
        x.chk.ob("operator", w, lab, "violated" if ns else "undecided", "shape %s, expected %s" % (ns, dims))
        return None
    return M


def operators(x, n):
    A, S = matrix(n, n), symm(n)
    lo = lower(n)
    p = len(lo)
    vA, vS, hS, hA = vec(A), vec(S), [S[i][j] for i, j in lo], [A[i][j] for i, j in lo]
    half = num_half()
    for nm in ("lmat", "elim_mat"):
        M = opmat(x, SM, nm, (p, n * n), n)
        if M is not None:
            x.eq("operator", x.where(SM, nm), "n=%d" % n, product(M, vA), hA)
    M = opmat(x, SM, "dmat", (n * n, p), n)
    if M is not None:
        x.eq("operator", x.where(SM, "dmat"), "n=%d" % n, product(M, hS), vS)
    M = opmat(x, SM, "dpmat", (p, n * n), n)
    if M is not None:
        x.eq("operator", x.where(SM, "dpmat"), "n=%d" % n, product(M, vA),
             [tm.mul(half, tm.add(A[i][j], A[j][i])) for i, j in lo])
    M = opmat(x, SM, "nmat", (n * n, n * n), n)
    if M is not None:
        x.eq("operator", x.where(SM, "nmat"), "n=%d" % n, product(M, vA),
             [tm.add(A[i][j], A[j][i]) for j in range(n) for i in range(n)])
    pats = {"pattern_mat_s": [tm.mul(half, tm.add(A[i][j], A[j][i])) for j in range(n) for i in range(n)],
            "pattern_mat_d": [A[i][j] if i == j else ZERO for j in range(n) for i in range(n)],
            "pattern_mat_c": [ZERO if i == j else tm.mul(half, tm.add(A[i][j], A[j][i])) for j in range(n) for i in range(n)]}
    for nm, want in pats.items():
        M = opmat(x, SM, nm, (n * n, n * n), n)
        if M is not None:
            x.eq("operator", x.where(SM, nm), "n=%d" % n, product(M, vA), want)
    d = [sym("d_%d" % k, dom="real") for k in range(n)]
    M = opmat(x, SM, "pattern_mat_k", (n * n, n), n)
    if M is not None:
        x.eq("operator", x.where(SM, "pattern_mat_k"), "n=%d" % n, product(M, d),
             [d[i] if i == j else ZERO for j in range(n) for i in range(n)])
    # pair lists of the index builders
    for nm, shape, src, want in (("duplication_matrix_indices", (n * n, p), hS, vS), ("elimination_matrix_indices", (p, n * n), vA, hA)):
        v = x(IX, nm, n)
        if isinstance(v, (tuple, list)) and len(v) == 2:
            pairs(x, nm, v, shape, src, want, "n=%d" % n)


def pairs(x, nm, v, shape, src, want, lab):
    from sa.densemodel import ints
    r, c = safe(ints, v[0]), safe(ints, v[1])
    w = x.where(IX, nm)
    if isinstance(r, Top) or isinstance(c, Top):
        x.chk.ob("index", w, lab, "undecided", "symbolic indices")
        return
    if len(r) != len(c) or any(not (0 <= i < shape[0]) for i in r) or any(not (0 <= j < shape[1]) for j in c):
        x.chk.ob("index", w, lab, "violated", "index lists do not fit a %s x %s operator" % shape)
        return
    out = [ZERO] * shape[0]
    for i, j in zip(r, c):
        out[i] = tm.add(out[i], src[j])
    x.eq("index", w, lab, V1(out), want)


def num_half():
    from fractions import Fraction
    return num(Fraction(1, 2))


def rect(x):
    """commutation and Kronecker operators at rectangular sizes"""
    for p, q in ((1, 3), (2, 3), (3, 2), (4, 2), (2, 2), (3, 4)):
        A = matrix(p, q)
        At = [[A[i][j] for i in range(p)] for j in range(q)]
        lab = "p=%d q=%d" % (p, q)
        for nm in ("kmat", "comm_mat"):
            M = opmat(x, SM, nm, (p * q, p * q), p, q)
            if M is not None:
                x.eq("operator", x.where(SM, nm), lab, product(M, vec(A)), vec(At))
        v = x(IX, "commutation_matrix_indices", p, q)
        if isinstance(v, tuple) and len(v) == 2:
            pairs(x, "commutation_matrix_indices", v, (p * q, p * q), vec(A), vec(At), lab)
        for nm in ("apply_kmat1", "apply_kmat2"):
            x.eq("apply", x.where(SM, nm), lab, x(SM, nm, V1(vec(A)), p, q), vec(At))
        cls(x, "CommutationMatrix", (p, q), [("apply", (V1(vec(A)),), vec(At)), ("apply_alt", (V1(vec(A)),), vec(At))], lab)
        x.eq("halfvec", x.where(LO, "vec"), lab, x(LO, "vec", T2(A)), vec(A))
        x.eq("halfvec", x.where(LO, "_vec"), lab, x(LO, "_vec", T2(A)), vec(A))
        x.eq("halfvec", x.where(LO, "invec"), lab, x(LO, "invec", V1(vec(A)), p, q), A)
        x.eq("halfvec", x.where(LO, "_invec"), lab, x(LO, "_invec", V1(vec(A)), p, q), A)
    for (n, p), (q, r) in (((2, 2), (2, 2)), ((2, 1), (1, 2)), ((1, 2), (2, 2)), ((2, 3), (2, 1))):
        A, B = matrix(n, p, "a"), matrix(q, r, "b")
        M = opmat(x, SM, "kronvec_mat", (n * p * q * r,) * 2, (n, p), (q, r))
        if M is not None:
            src = [tm.mul(a, b) for a in vec(A) for b in vec(B)]
            K = [[tm.mul(A[i // q][j // r], B[i % q][j % r]) for j in range(p * r)] for i in range(n * q)]
            x.eq("operator", x.where(SM, "kronvec_mat"), "%s" % (((n, p), (q, r)),), product(M, src), vec(K))
    for p, q in ((2, 3), (3, 2), (3, 3)):
        for i in range(2 * p):
            for j in (0, 1, 2 * q - 1, q):
                w = x.where(IX, "kronecker_indices_forward")
                v = x(IX, "kronecker_indices_forward", i, j, p, q)
                if isinstance(v, tuple) and len(v) == 2 and all(isinstance(e, tuple) for e in v):
                    for got, want, nm in zip(v[0] + v[1], (i // p, j // q, i % p, j % q), "rstu"):
                        x.eq("index", w, "%s of %s" % (nm, (i, j, p, q)), got, want)
                    b = x(IX, "kronecker_indices_reverse", i // p, j // q, i % p, j % q, p, q)
                    if isinstance(b, tuple) and len(b) == 2:
                        x.eq("index", x.where(IX, "kronecker_indices_reverse"), "row %s" % ((i, j, p, q),), b[0], i)
                        x.eq("index", x.where(IX, "kronecker_indices_reverse"), "column %s" % ((i, j, p, q),), b[1], j)
    import itertools
    for shape in ((2, 3), (3, 2, 2), (2, 2, 3)):
        for k, ix in enumerate(itertools.product(*[range(s) for s in shape])):
            F = sum(e * pr for e, pr in zip(ix, [1] + list(itertools.accumulate(shape[:-1], lambda a, b: a * b))))
            for nm, pos in (("colex", F), ("lex", k)):
                x.eq("index", x.where(IX, nm + "_index_forward"), "%s in %s" % (ix, shape),
                     x(IX, nm + "_index_forward", V1(list(ix)), V1(list(shape))), pos)
                x.eq("index", x.where(IX, nm + "_index_reverse"), "%d in %s" % (pos, shape),
                     x(IX, nm + "_index_reverse", pos, V1(list(shape))), list(ix))
    for p, n in ((2, 2), (3, 2), (3, 3), (2, 4)):
        asc = sorted((ix for ix in itertools.product(range(p), repeat=n) if list(ix) == sorted(ix)), key=lambda t: t[::-1])
        for k, ix in enumerate(asc):
            for nm in ("colex_ascending_indices_forward", "ascending_indices_forward"):
                x.eq("index", x.where(IX, nm), "%s" % (ix,), x(IX, nm, V1(list(ix))), k)
            x.eq("index", x.where(IX, "colex_ascending_indices_reverse"), "%d of %s" % (k, (p,) * n),
                 x(IX, "colex_ascending_indices_reverse", k, (p,) * n), list(ix))
            x.eq("index", x.where(IX, "ascending_indices_reversed"), "%d of %s" % (k, (p,) * n),
                 x(IX, "ascending_indices_reversed", k, n, p), list(ix))
            x.eq("index", x.where(IX, "colex_descending_indices_forward"), "%s" % (ix[::-1],),
                 x(IX, "colex_descending_indices_forward", V1(list(ix[::-1]))), k)
            x.eq("index", x.where(IX, "colex_descending_indices_reverse"), "%d of %s" % (k, (p,) * n),
                 x(IX, "colex_descending_indices_reverse", k, (p,) * n), list(ix[::-1]))
    for shape in ((2, 2), (3, 3), (2, 2, 2), (3, 3, 3)):
        ix = sorted(t for t in itertools.product(*[range(s) for s in shape]) if list(t) == sorted(t))
        es = [sym("f_%d" % k, dom="real") for k in range(len(ix))]
        pos = {t: k for k, t in enumerate(ix)}

        def build(pre, d):
            return es[pos[tuple(sorted(pre))]] if d == len(shape) else [build(pre + (k,), d + 1) for k in range(shape[d])]
        x.eq("index", x.where(IX, "fill_tensor"), "%s" % (shape,), x(IX, "fill_tensor", V1(es), shape), build((), 0))


def cls(x, name, init, calls, lab):
    c = [c for c in x.P.all_classes() if c.name == name and c.module.name == SM]
    if not c:
        return
    I = x.I
    for meth, args, want in calls:
        m = x.P.find_method(c[0], meth[0] if isinstance(meth, tuple) else meth)
        if not m:
            continue
        nm, kw = (meth[0], meth[1]) if isinstance(meth, tuple) else (meth, {})
        o = safe(I.instantiate, c[0], list(init), {})
        got = o if isinstance(o, Top) else safe(I.call, safe(I.getattr, o, nm), list(args), kw, None)
        x.eq("apply", x.where(SM, name + "." + nm), lab + ("" if not kw else " %s" % kw), got, want)


def classes(x, n):
    lo = lower(n)
    N2, p = n * n, len(lo)
    pos = {e: k for k, e in enumerate(lo)}
    ordr = [(i, j) for j in range(n) for i in range(n)]
    if n > 3:
        return
    R = matrix(N2, 2, "r")          # rows are indexed by vec positions
    C = [[R[i][k] for i in range(N2)] for k in range(2)]
    Q = matrix(N2, N2, "q")

    def sel(rows):                   # L rows
        return [rows[ordr.index(e)] for e in lo]

    def dt(rows):                    # D' rows
        out = []
        for i, j in lo:
            a, b = rows[ordr.index((i, j))], rows[ordr.index((j, i))]
            out.append(a if i == j else [tm.add(u, v) for u, v in zip(a, b)])
        return out

    def dpl(rows):
        h = num_half()
        return [[tm.mul(h, tm.add(u, v)) for u, v in zip(rows[ordr.index((i, j))], rows[ordr.index((j, i))])] for i, j in lo]

    def tr(rows):
        return [list(z) for z in zip(*rows)]

    def post(f, rows):
        return tr(f(tr(rows)))
    lab = "n=%d" % n
    cls(x, "EliminationMatrix", (n,), [("apply", (T2(R),), sel(R)), ("apply_alt", (T2(R),), sel(R)),
                                       ("apply_post", (T2(C),), post(sel, C)), ("apply_post_alt", (T2(C),), post(sel, C)),
                                       (("app", {"post": True}), (T2(Q),), post(sel, sel(Q)))], lab)
    cls(x, "DuplicationMatrix", (n,), [("apply", (T2(R),), dt(R)), ("apply_pre", (T2(R),), dt(R)),
                                       (("apply", {"pre_mult": False, "post_mult": True}), (T2(C),), post(dt, C)),
                                       (("apply", {"post_mult": True}), (T2(Q),), post(dt, dt(Q))),
                                       ("apply_post", (T2(C),), post(dt, C)),
                                       ("apply_pre_post", (T2(Q),), post(dt, dt(Q)))], lab)
    cls(x, "DpMatrix", (n,), [("apply", (T2(R),), dpl(R)),
                              (("apply", {"pre_mult": False, "post_mult": True}), (T2(C),), post(dpl, C)),
                              (("apply", {"post_mult": True}), (T2(Q),), post(dpl, dpl(Q)))], lab)
    W = x.where
    for nm, arg, want, kw in (("apply_lmat1", R, sel(R), {}), ("apply_lmat2", R, sel(R), {}),
                              ("apply_lmat_post1", C, post(sel, C), {}), ("apply_lmat_post2", C, post(sel, C), {}),
                              ("apply_lmat_pre_post1", Q, post(sel, sel(Q)), {}),
                              ("apply_dmat1", R, dt(R), {}), ("apply_dmat2_pre", R, dt(R), {}),
                              ("apply_dmat1", C, post(dt, C), {"pre_mult": False, "post_mult": True, "n": n}),
                              ("apply_dmat1", Q, post(dt, dt(Q)), {"post_mult": True}),
                              ("apply_dmat2_post", C, post(dt, C), {"transpose": False}),
                              ("apply_dmat2_pre_post", Q, post(dt, dt(Q)), {}),
                              ("apply_dmat3", Q, dt(Q), {}), ("apply_dmat3", Q, post(dt, dt(Q)), {"post_mult": True})):
        x.eq("apply", W(SM, nm), lab + ("" if not kw else " %s" % sorted(kw)), x(SM, nm, T2(arg), **kw), want)
    H = matrix(p, 2, "h")
    up = [[H[pos[(max(i, j), min(i, j))]][k] for k in range(2)] for i, j in ordr]
    x.eq("apply", W(SM, "apply_dmat2_pre"), lab + " untransposed", x(SM, "apply_dmat2_pre", T2(H), n=n, transpose=False), up)
    x.eq("apply", W(SM, "apply_dmat2_post"), lab + " transposed", x(SM, "apply_dmat2_post", T2(tr(H)), n=n, transpose=True), tr(up))


def indices(x, n):
    lo, sl = lower(n), lower(n, -1)
    W = lambda nm: x.where(IX, nm)
    for nm, low in (("tril_indices", True), ("triu_indices", False)):
        for m in (n, n + 1, max(1, n - 1)):
            for k in (-1, 0, 1):
                inside = lambda i, j: (j - i <= k) if low else (j - i >= k)
                for order in ("F", "C"):
                    ix = [(i, j) for j in range(m) for i in range(n) if inside(i, j)] if order == "F" else \
                         [(i, j) for i in range(n) for j in range(m) if inside(i, j)]
                    if not ix or (m != n and order == "F"):
                        continue      # rectangular column-major lists are not part of the half-vectorisation order
                    v = x(IX, nm, n, k=k, m=m, order=order)
                    if isinstance(v, (tuple, list)) and len(v) == 2:
                        for q in range(2):
                            x.eq("index", W(nm), "%s n=%d m=%d k=%d %s" % ("row column".split()[q], n, m, k, order), v[q], [e[q] for e in ix])
    if n > 1:
        x.eq("index", W("vecl_inds"), "n=%d" % n, x(IX, "vecl_inds", n), [ONE if i > j else ZERO for j in range(n) for i in range(n)])
        for k, base in ((0, 0), (-1, 0), (-1, 3)):
            ij = lower(n, k)
            want = [[0] * n for _ in range(n)]
            for q, (i, j) in enumerate(ij):
                want[i][j] = want[j][i] = q + base
            x.eq("index", W("inv_tril_indices"), "n=%d k=%d base=%d" % (n, k, base), x(IX, "inv_tril_indices", n, k, indexing=base), want)
    for q, (i, j) in enumerate(lo):
        x.eq("index", W("vech_inds_forwards"), "%s n=%d" % ((i, j), n), x(IX, "vech_inds_forwards", i, j, n), q)
        v = x(IX, "vech_inds_reverse", q, n)
        if isinstance(v, tuple):
            x.eq("index", W("vech_inds_reverse"), "row of %d n=%d" % (q, n), v[0], i)
            x.eq("index", W("vech_inds_reverse"), "column of %d n=%d" % (q, n), v[1], j)
    for q, (i, j) in enumerate(sl):
        x.eq("index", W("vecl_inds_forwards"), "%s n=%d" % ((i, j), n), x(IX, "vecl_inds_forwards", i, j, n), q)
        for mod in (U + "unconstrained_chol",):
            x.eq("index", x.where(mod, "vecl_inds_forwards"), "%s n=%d" % ((i, j), n), x(mod, "vecl_inds_forwards", i, j, n), q)
        v = x(IX, "vecl_inds_reverse", q, n)
        if isinstance(v, tuple):
            x.eq("index", W("vecl_inds_reverse"), "row of %d n=%d" % (q, n), v[0], i)
            x.eq("index", W("vecl_inds_reverse"), "column of %d n=%d" % (q, n), v[1], j)
    for m in (n, n + 1):
        for q in range(n * m):
            v = x(IX, "vec_inds_reverse", q, n)
            if isinstance(v, tuple):
                x.eq("index", W("vec_inds_reverse"), "row of %d n=%d" % (q, n), v[0], q % n)
                x.eq("index", W("vec_inds_reverse"), "column of %d n=%d" % (q, n), v[1], q // n)
            x.eq("index", W("vec_inds_forwards"), "%d n=%d" % (q, n), x(IX, "vec_inds_forwards", q % n, q // n, n), q)
    dg = [lo.index((k, k)) for k in range(n)]
    x.eq("index", W("vech_diag_indices"), "n=%d" % n, x(IX, "vech_diag_indices", n), dg)
    for k in range(n):
        x.eq("index", W("vech_diag_indices_forward"), "%d n=%d" % (k, n), x(IX, "vech_diag_indices_forward", k, n), dg[k])
    for k in (-1, 0, 1):
        if abs(k) < n:
            v = x(IX, "diag_indices", n, k)
            ix = [(i, i + k) for i in range(n) if 0 <= i + k < n]
            if isinstance(v, tuple):
                for q in range(2):
                    x.eq("index", W("diag_indices"), "%d n=%d k=%d" % (q, n, k), v[q], [e[q] for e in ix])
