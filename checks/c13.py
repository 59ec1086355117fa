"""C13: compiled kernels stay inside their buffers and release what they allocate"""
import ast
import os
import re
from sa.check import Check, VERIF
from sa.project import Project, REPO
from sa.cir import clang_functions, pyx_functions, norm_type
from sa.cmem import Poly, Sym, Buf, Ptr, Dense, Bounds, Alloc, extreme, nonneg, refuted

STUBS = os.path.join(VERIF, "data", "stubs")

# What a caller of the Python layer has to provide: conformable shapes and, for a result that is updated in place, the
# pattern of the result.  Sizes: X.r rows, X.c columns, X.nz stored entries.
CONTRACT = {
    "cs_add_inplace": {"A.r": "C.r", "A.c": "C.c", "B.r": "C.r", "B.c": "C.c"},
    "cs_add_inplace_complex": {"A.r": "C.r", "A.c": "C.c", "B.r": "C.r", "B.c": "C.c"},
    "cs_matmul_inplace": {"A.c": "B.r", "C.r": "A.r", "C.c": "B.c", "C.nz": "nnz(A.B)"},
    "cs_matmul_inplace_complex": {"A.c": "B.r", "C.r": "A.r", "C.c": "B.c", "C.nz": "nnz(A.B)"},
    "sparse_kron_inplace": {"C.nz": "A.nz*B.nz", "C.r": "A.r*B.r", "C.c": "A.c*B.c"},
    "ds_kron_inplace": {"C.nz": "A.r*A.c*B.nz", "C.r": "A.r*B.r", "C.c": "A.c*B.c"},
    "sparse_dense_kron_inplace": {"C.nz": "A.nz*B.r*B.c", "C.r": "A.r*B.r", "C.c": "A.c*B.c"},
    "id_sp_kron_inplace": {"C.nz": "m*B.nz", "C.r": "m*B.r", "C.c": "m*B.c"},
    "sparse_pattern_trace": {"C.r": "B.c", "C.c": "B.c"},
    "block_diag_self_dot": {"L_csr.r": "ng*nv"},
    "naive_matmul_inplace": {"B.r": "A.c", "C.r": "A.r", "C.c": "B.c"},
    "naive_matmul_inplace2": {"B.r": "A.c", "C.r": "A.r", "C.c": "B.c"},
    "coo_to_csc": {"row_inds.n": "data.n", "col_inds.n": "data.n"},
}
CONTENT = {("coo_to_csc", "row_inds"): "shape.0", ("coo_to_csc", "col_inds"): "shape.1"}


class Sparse:
    def __init__(self, name, r, c, nz, csr=False, p=None, i=None, x=None):
        self.name, self.r, self.c, self.nz, self.csr = name, r, c, nz, csr
        major, minor = (r, c) if csr else (c, r)
        z = Poly()
        self.p = p or Dense(name + ".indptr", [major + 1], ([z], [nz]), nz, major, "int")
        self.i = i or Dense(name + ".indices", [nz], ([z], [minor - 1]), elem="int")
        self.x = x or Dense(name + ".data", [nz], elem="double")


class Tup(tuple):
    pass


class PyEval:
    """straight-line evaluation of one function of the Python layer over sizes"""

    def __init__(self, fn, funcs, wrappers, on_call, contract=None, on_result=None):
        self.fn, self.funcs, self.wrappers, self.on_call, self.on_result = fn, funcs, wrappers, on_call, on_result
        self.contract = {k: self.parse(v) for k, v in (contract or {}).items()}
        self.env = {}
        self.ret = None

    @staticmethod
    def parse(t):
        p = Poly.of(1)
        for f in t.split("*"):
            p = p * (int(f) if f.isdigit() else Poly.of(f))
        return p

    def size(self, name):
        return self.contract.get(name, Poly.of(name))

    def bind(self):
        uses = {}
        body = self.fn
        for n in ast.walk(body):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                uses.setdefault(n.value.id, set()).add(n.attr)
        dims = {}
        passed = set()
        for n in ast.walk(body):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.value.value, ast.Name) \
                    and isinstance(n.targets[0], ast.Tuple) and len(n.targets[0].elts) == 2:
                dims[n.value.value.id] = 2
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.value.value, ast.Name) and isinstance(n.slice, ast.Constant):
                dims[n.value.value.id] = max(dims.get(n.value.value.id, 1), n.slice.value + 1)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and n.args and isinstance(n.args[0], ast.Name):
                dims.setdefault(n.args[0].id, 1)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.wrappers:
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and i < len(self.wrappers[n.func.id]):
                        m = re.search(r"ndim\s*=\s*(\d)", self.wrappers[n.func.id][i][1])
                        if m:
                            passed.add((a.id, int(m.group(1))))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.funcs and self.funcs[n.func.id] is not body:
                for a, q in zip(n.args, self.funcs[n.func.id].args.args):
                    if isinstance(a, ast.Name) and any(
                            isinstance(m, ast.Assign) and isinstance(m.value, ast.Attribute) and m.value.attr == "shape" and isinstance(m.value.value, ast.Name) and m.value.value.id == q.arg
                            and isinstance(m.targets[0], ast.Tuple) and len(m.targets[0].elts) == 2 for m in ast.walk(self.funcs[n.func.id])):
                        passed.add((a.id, 2))
        pd = dict(passed)
        tuples = {n.value.id for n in ast.walk(body) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and isinstance(n.targets[0], ast.Tuple)}
        for a in self.fn.args.args:
            x = a.arg
            if x in self.env:
                continue
            u = uses.get(x, set())
            sp_in_place = "data" in u and any(isinstance(n, ast.IfExp) and isinstance(n.orelse, ast.Attribute) and isinstance(n.orelse.value, ast.Name) and n.orelse.value.id == x for n in ast.walk(body))
            if u & {"indptr", "indices", "nnz"} or sp_in_place:
                self.env[x] = Sparse(x, self.size(x + ".r"), self.size(x + ".c"), self.size(x + ".nz"), csr="csr" in x.lower())
            elif x in tuples:
                self.env[x] = Tup(Poly.of("%s.%d" % (x, i)) for i in range(2))
            elif dims.get(x) == 2 or pd.get(x) == 2:
                self.env[x] = Dense(x, [self.size(x + ".r"), self.size(x + ".c")], elem="double")
            elif dims.get(x) == 1 or pd.get(x) == 1 or "astype" in u:
                hi = CONTENT.get((self.fn.name, x))
                self.env[x] = Dense(x, [self.size(x + ".n")], ([Poly()], [Poly.of(hi) - 1]) if hi else None)
            else:
                self.env[x] = self.size(x)

    def run(self, args=None):
        if args is not None:
            self.env.update(args)
        self.bind()
        ds = self.fn.args.defaults
        names = [a.arg for a in self.fn.args.args]
        self.none = {n for n, d in zip(names[len(names) - len(ds):], ds) if isinstance(d, ast.Constant) and d.value is None and (args is None or n not in args)}
        for b in self.fn.body:
            if self.stmt(b):
                break
        return self.ret

    def stmt(self, n):
        if isinstance(n, ast.Assign):
            v = self.ev(n.value)
            for t in n.targets:
                self.assign(t, v)
        elif isinstance(n, ast.AugAssign):
            self.ev(n.value)
            self.assign(n.target, None)
        elif isinstance(n, ast.Expr):
            self.ev(n.value)
        elif isinstance(n, ast.Return):
            self.ret = self.ev(n.value) if n.value is not None else None
            return True
        elif isinstance(n, ast.If):
            t = self.truth(n.test)
            if t is None:
                if n.body and isinstance(n.body[-1], (ast.Raise,)):
                    return False
                env = dict(self.env)
                r1 = any(self.stmt(b) for b in n.body)
                e1 = self.env
                self.env = dict(env)
                r2 = any(self.stmt(b) for b in n.orelse)
                if r1 and r2:
                    return True
                if r1:
                    return False
                if r2:
                    self.env = e1
                    return False
                self.env = {k: self.env[k] if self.env.get(k) is e1.get(k) or self.env.get(k) == e1.get(k) else None for k in set(e1) & set(self.env)}
                return False
            return any([self.stmt(b) for b in (n.body if t else n.orelse)][-1:]) if (n.body if t else n.orelse) else False
        elif isinstance(n, ast.Raise):
            return True
        elif isinstance(n, (ast.For, ast.While, ast.With, ast.Try)):
            for b in n.body:
                self.stmt(b)
        return False

    def truth(self, t):
        """the path on which the result is allocated here"""
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and t.left.id in self.none:
            return isinstance(t.ops[0], ast.Is)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(t.operand)
            return None if r is None else not r
        if isinstance(t, ast.Call) and ast.unparse(t.func).endswith("issparse") and t.args and isinstance(t.args[0], ast.Name):
            return isinstance(self.env.get(t.args[0].id), Sparse) if t.args[0].id not in self.none else None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and "ndarray" in ast.unparse(t):
            v = self.env.get(t.args[0].id) if isinstance(t.args[0], ast.Name) else None
            return False if isinstance(v, Sparse) else None
        return None

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.none.discard(t.id)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v) if isinstance(v, (tuple, list)) else v.shape if isinstance(v, Shape) else [None] * len(t.elts)
            if len(vs) != len(t.elts):
                vs = [None] * len(t.elts)
            for e, x in zip(t.elts, vs):
                self.assign(e, x)

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return Poly.of(n.value) if isinstance(n.value, int) and not isinstance(n.value, bool) else None
        if isinstance(n, ast.Name):
            return self.env.get(n.id)
        if isinstance(n, (ast.Tuple, ast.List)):
            return Tup(self.ev(e) for e in n.elts)
        if isinstance(n, ast.Attribute):
            o = self.ev(n.value)
            if isinstance(o, Sparse):
                return {"indptr": o.p, "indices": o.i, "data": o.x, "nnz": o.nz, "shape": Tup((o.r, o.c))}.get(n.attr)
            if isinstance(o, Dense):
                if n.attr == "shape":
                    return Tup(o.shape)
                if n.attr == "size":
                    return o.buf().length
                if n.attr == "T" and len(o.shape) == 2:
                    return Dense(o.name + ".T", o.shape[::-1])
            return None
        if isinstance(n, ast.Subscript):
            o = self.ev(n.value)
            i = n.slice
            if isinstance(o, tuple) and isinstance(i, ast.Constant) and isinstance(i.value, int) and i.value < len(o):
                return o[i.value]
            return None
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left), self.ev(n.right)
            if isinstance(a, Poly) and isinstance(b, Poly):
                if isinstance(n.op, ast.Add):
                    return a + b
                if isinstance(n.op, ast.Sub):
                    return a - b
                if isinstance(n.op, ast.Mult):
                    return a * b
            if isinstance(n.op, ast.Mult):
                d, s = (a, b) if isinstance(a, Dense) else (b, a)
                if isinstance(d, Dense) and isinstance(s, Poly) and d.content is not None:
                    c = ([x * s for x in d.content[0]], [x * s for x in d.content[1]])
                    r = Dense(d.name, d.shape, c, elem=d.elem)
                    if getattr(d, "step", None) == 1:
                        r.nz, r.major = c[1][0], d.shape[0] - 1
                    return r
            if isinstance(n.op, (ast.Mult, ast.Add)) and isinstance(a, Dense):
                return Dense(a.name, a.shape)
            return None
        if isinstance(n, ast.IfExp):
            t = self.truth(n.test)
            if t is None:
                a, b = self.ev(n.body), self.ev(n.orelse)
                return a if isinstance(a, type(b)) else a or b
            return self.ev(n.body if t else n.orelse)
        if isinstance(n, ast.Call):
            return self.call(n)
        return None

    def call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        kw = {k.arg: k.value for k in n.keywords}
        if name in self.wrappers:
            args = [self.ev(a) for a in n.args]
            ps = [p for p, t in self.wrappers[name]]
            args += [self.ev(kw[p]) if p in kw else None for p in ps[len(args):]]
            return self.on_call(self, n, name, args)
        if isinstance(f, ast.Name) and f.id in self.funcs:
            g = self.funcs[f.id]
            args = {a.arg: self.ev(x) for a, x in zip(g.args.args, n.args)}
            args.update({k: self.ev(v) for k, v in kw.items() if k})
            sub = PyEval(g, self.funcs, self.wrappers, self.on_call, on_result=self.on_result)
            sub.contract = self.contract
            return sub.run(args)
        if name in ("zeros", "empty", "ones", "full"):
            s = self.ev(n.args[0] if n.args else kw.get("shape"))
            dt = ast.unparse(kw["dtype"]) if "dtype" in kw else ""
            shape = list(s) if isinstance(s, tuple) else [s]
            if any(not isinstance(x, Poly) for x in shape):
                return None
            z = ([Poly()], [Poly()]) if name == "zeros" and "int" in dt else None
            d = Dense("result", shape, z, elem="int" if "int" in dt else "double")
            return d
        if name == "arange":
            a = [self.ev(x) for x in n.args]
            if all(isinstance(x, Poly) for x in a) and len(a) in (1, 2):
                lo, hi = (Poly(), a[0]) if len(a) == 1 else a
                d = Dense("arange", [hi - lo], ([lo], [hi - 1]), elem="int")
                d.step = 1 if lo.const() == 0 else None
                return d
            return None
        if name == "tile" and len(n.args) == 2:
            d, m = self.ev(n.args[0]), self.ev(n.args[1])
            if isinstance(d, Dense) and len(d.shape) == 1 and isinstance(m, Poly):
                return Dense(d.name, [d.shape[0] * m], d.content, elem=d.elem)
            return None
        if name == "len" and n.args:
            d = self.ev(n.args[0])
            return d.shape[0] if isinstance(d, Dense) else None
        if name in ("astype", "copy", "ascontiguousarray", "asarray", "asfortranarray", "array", "int", "abs"):
            o = self.ev(f.value) if isinstance(f, ast.Attribute) and name in ("astype", "copy") else self.ev(n.args[0]) if n.args else None
            return o
        if name in ("reshape", "ravel", "flatten"):
            o = self.ev(f.value)
            if isinstance(o, Dense) and (not n.args or ast.unparse(n.args[0]) == "-1"):
                d = Dense(o.name, [o.buf().length], o.content, elem=o.elem)
                d._buf = o.buf()
                return d
            return None
        if re.match(r"cs[cr]_(array|matrix)$", name):
            a = self.ev(n.args[0]) if n.args else None
            s = self.ev(kw["shape"]) if "shape" in kw else None
            if isinstance(a, tuple) and len(a) == 3 and isinstance(s, tuple) and len(s) == 2 and self.on_result:
                self.on_result(self, n, name.startswith("csr"), a, s)
            return None
        for a in n.args:
            self.ev(a)
        for v in kw.values():
            self.ev(v)
        if isinstance(f, ast.Attribute):
            self.ev(f.value)
        return None


class Shape(list):
    pass


def extension_sources(P_root):
    """{module: [sources]} of the compiled modules, from the build script"""
    p = os.path.join(P_root, "setup.py")
    out = {}
    tree = ast.parse(open(p).read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("Extension"):
            strs = [c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
            out[strs[0]] = [s for s in strs if s.endswith((".c", ".pyx"))]
    return out


def ctype(t):
    return norm_type(t.replace("_Complex", "complex").replace("double complex", "complexdouble").replace("complex double", "complexdouble")).replace("doublecomplex", "complexdouble")


def analyse(root, ob, extra=None):
    mods = extension_sources(root)
    cfn, pyxs, externs = {}, {}, {}
    for m, srcs in sorted(mods.items()):
        for s in srcs:
            p = os.path.join(root, s)
            if not os.path.exists(p):
                continue
            if s.endswith(".c"):
                fs = clang_functions(p, STUBS)
                if fs is None:
                    ob("bounds", s, "parsed", "undecided", "not parsed")
                for f in fs or ():
                    f.rel = s
                    cfn[f.name] = f
            else:
                fs, ext, sig = pyx_functions(p)
                if fs is None:
                    ob("bounds", s, "parsed", "undecided", "not parsed")
                for f in fs or ():
                    f.rel = s
                    pyxs[f.name] = f
                for k, v in ext.items():
                    externs[k] = (s, v)
    # ---- declarations agree with definitions
    for k, (s, (ret, ps)) in sorted(externs.items()):
        if k not in cfn:
            continue
        a = [(ctype(t)) for n, t in ps]
        b = [(ctype(t)) for n, t in cfn[k].params]
        names = [n for n, t in ps] == [n for n, t in cfn[k].params]
        ob("declared", s, k, "ok" if a == b and names else "violated" if a != b else "undecided",
           "" if a == b else "declared as (%s), defined as (%s)" % (", ".join(a), ", ".join(b)))
    # ---- allocation
    nalloc = 0
    helpers = {f.name for f in pyxs.values() if any("*" in t for n, t in f.params)} | set(cfn)
    for f in list(cfn.values()) + list(pyxs.values()):
        where = "%s:%s" % (f.rel, f.name)
        hits = {}

        def rec(rule, ln, what, ok, why, where=where, hits=hits):
            k = (rule, what)
            if k not in hits or not ok:
                hits[k] = (ok, why, ln)
        a = Alloc(f, rec, python=f.rel.endswith(".pyx"))
        a.c_helpers = helpers
        a.run()
        nalloc += a.sites
        for (rule, what), (ok, why, ln) in sorted(hits.items()):
            ob(rule, where, what, "ok" if ok else "violated", "" if ok else "line %d: %s" % (ln, why))
    # a kernel that reports failure is asked for it
    for f in pyxs.values():
        def walk(b, checked):
            for s in b:
                for e in s[1:]:
                    if isinstance(e, tuple):
                        for c in calls(e):
                            g = cfn.get(c[1])
                            if g is not None and g.ret != "void":
                                ob("failure", "%s:%s" % (f.rel, f.name), c[1], "violated" if s[0] == "expr" and e is c else "ok",
                                   "the status the kernel returns is dropped" if s[0] == "expr" and e is c else "")
                    elif isinstance(e, list):
                        walk([x for x in e if isinstance(x, tuple)], checked)
        walk(f.body, False)
    # ---- bounds
    P = os.path.join(root, "pystatsm", "utilities", "python_wrappers.py")
    tree = ast.parse(open(P).read())
    funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    wrappers = {k: f.params for k, f in pyxs.items() if f.rel.endswith("cython_wrappers.pyx")}
    reached = set()
    rel = os.path.relpath(P, root)
    seen = {}

    def note(where, ctx):
        def rec(rule, ln, what, ok, why):
            k = (rule, where, what)
            st = "ok" if ok else "undecided" if ok is None else "violated"
            rank = {"ok": 0, "undecided": 1, "violated": 2}
            if k not in seen or rank[st] > rank[seen[k][0]]:
                seen[k] = (st, "%s%s (line %d, called as %s)" % (why, "", ln, ctx))
        return rec

    for name, fn in sorted(funcs.items()):
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in wrappers for n in ast.walk(fn)):
            continue
        prod = CONTRACT.get(name, {}).get("C.nz")

        def on_call(pe, node, w, args, name=name, prod=prod):
            g = pyxs[w]
            env = {}
            for (p, t), v in zip(g.params, args):
                if isinstance(v, Dense):
                    nd = re.search(r"ndim\s*=\s*(\d)", t)
                    if nd and nd.group(1) == "1":
                        env[p] = Ptr(v.buf()) if False else v
                    else:
                        env[p] = v
                else:
                    env[p] = v
            kernel = Kernel(g, env, cfn, note, "%s(...)" % name, reached, Poly.of(prod) if prod == "nnz(A.B)" else None)
            kernel.run()
            return None

        def on_result(pe, node, csr, a, s, name=name):
            x, i, p = a
            if not all(isinstance(v, Dense) for v in a):
                return
            minor, major = (s[1], s[0]) if csr else (s[0], s[1])
            k = ("pattern", "%s:%s" % (rel, name))
            if isinstance(major, Poly):
                d = p.buf().length - major - 1
                ok = d == Poly()
                seen[k + ("length of the pointer array",)] = ("ok" if ok else "violated" if refuted(d) is not None or refuted(-d) is not None else "undecided", "%r for %r columns" % (p.buf().length, major))
            c = i.buf().content
            if c is not None and isinstance(minor, Poly):
                bad = next((r for r in (refuted(minor - 1 - h) for h in c[1]) if r is not None), None)
                ok = all(nonneg(minor - 1 - h) for h in c[1]) and all(nonneg(l) for l in c[0])
                seen[k + ("row indices",)] = ("ok" if ok else "violated" if bad is not None else "undecided", "indices up to %s in a matrix of %r rows%s" % (
                    ", ".join(map(repr, c[1])), minor, ", for instance with %s" % ", ".join("%s=%d" % z for z in bad.items()) if bad is not None else ""))
            c = p.buf().content
            if c is not None:
                n = i.buf().length
                bad = next((r for r in (refuted(n - h) for h in c[1]) if r is not None), None)
                ok = all(nonneg(n - h) for h in c[1])
                seen[k + ("pointers",)] = ("ok" if ok else "violated" if bad is not None else "undecided", "pointers up to %s, %r entries" % (", ".join(map(repr, c[1])), n))

        PyEval(fn, funcs, wrappers, on_call, CONTRACT.get(name), on_result).run()
    # helpers of the index enumeration: a tuple of any length
    for f in pyxs.values():
        if f.rel.endswith("ordered_indices.pyx") and not any("*" in t for n, t in f.params):
            b = Bounds(f, {}, {k: v for k, v in pyxs.items()}, note("%s:%s" % (f.rel, f.name), "shape of any length"))
            Lens(b).run()
            reached.add(f.name)
    for (rule, where, what), (st, why) in sorted(seen.items()):
        ob(rule, where, what, st, why)
    if extra is not None:
        extra.update(c_functions=len(cfn), cython_functions=len(pyxs), allocation_sites=nalloc, kernels_bound_through_the_python_layer=sorted(reached),
                     functions_not_called_from_the_python_layer=sorted(k for k in cfn if k not in reached))


def calls(e):
    out = []
    if isinstance(e, tuple) and e:
        if e[0] == "call":
            out.append(e)
        for x in e[1:]:
            if isinstance(x, tuple):
                out += calls(x)
            elif isinstance(x, list):
                for y in x:
                    out += calls(y)
    return out


class Lens:
    """len() of a tuple is one size symbol"""

    def __init__(self, b):
        self.b = b
        ev = b.ev

        def ev2(e, ln):
            if e[0] == "call" and e[1] == "len":
                return Poly.of("len(%s)" % (e[2][0][1] if e[2][0][0] == "var" else "x"))
            return ev(e, ln)
        b.ev = ev2

    def run(self):
        return self.b.run()


class Kernel:
    """from a Cython wrapper to the C function it calls"""

    def __init__(self, g, env, cfn, note, ctx, reached, product):
        self.g, self.cfn, self.note, self.ctx, self.reached, self.product = g, cfn, note, ctx, reached, product
        self.b = Bounds(g, env, {}, None)
        ev = self.b.ev

        def ev2(e, ln):
            if e[0] == "call" and e[1] in self.cfn:
                return self.enter(e, ln)
            if e[0] == "idx" and e[1][0] == "var" and isinstance(self.b.env.get(e[1][1]), Dense):
                return None
            return ev(e, ln)
        self.b.ev = ev2

    def run(self):
        self.b.block(self.g.body)

    def enter(self, e, ln):
        f = self.cfn[e[1]]
        args = [self.b.ev(a, ln) for a in e[2]]
        if len(args) != len(f.params):
            return None
        self.reached.add(f.name)
        env = {}
        for (p, t), v in zip(f.params, args):
            if isinstance(v, Ptr):
                v.buf.name_in_c = p
            env[p] = v
        # the buffers carry the names the kernel gives them
        names = {}
        for p, v in env.items():
            if isinstance(v, Ptr):
                names[v.buf] = v.buf.name
                v.buf.name = p
        b = Bounds(f, env, {k: v for k, v in self.cfn.items() if k != f.name}, self.note("%s:%s" % (f.rel, f.name), self.ctx))
        b.product = self.product
        b.run()
        for bf, n in names.items():
            bf.name = n
        return None


def run():
    c = Check("C13", level="other", floor=120,
              explanation="Size and bounds analysis of the compiled modules named by the build script: the C kernels (clang's syntax tree) and the Cython text in one "
                          "small form; every buffer gets its symbolic length and content range from the Python function that allocates or receives it, and every subscript is compared "
                          "with it for all sizes. Typestate of every allocation (possibly null, live, released) over all control flow.",
              rules={"bounds": "each subscript is inside its buffer for every size the callers' contract admits",
                     "pattern": "row indices and pointers a kernel stores fit the shape of the matrix built from them",
                     "null": "no use of an allocation that may have failed", "release": "every buffer is released exactly once on every exit",
                     "use": "no use after release", "declared": "Cython's declaration of a kernel is its definition",
                     "failure": "the status of a kernel that can fail is looked at", "alloc size": "allocations are in units of the element type"})
    try:
        analyse(os.path.realpath(REPO), c.ob, c.extra)
    except (RecursionError, AttributeError, KeyError, TypeError, ValueError, IndexError) as e:
        c.ob("bounds", "analysis", "completed", "undecided", "%s: %s" % (type(e).__name__, e))
    return c.finish()
