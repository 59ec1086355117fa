"""Gated value numbering of single functions.

Every expression of a function gets a value: a sympy expression over opaque leaves (parameters, attributes, results of
calls that are not resolved), a constant, a container of values, or a gate g(cond, a, b) where control flow merges.
Loops contribute one abstract pass with the loop-carried names opaque; small project functions are expanded at the
call.  Nothing is executed: library functions are symbols with a few algebraic laws (even ABS, sf = 1 - cdf, ...).
"""
import ast
import re
import itertools
import sympy as sp

from .scopes import functions
from .project import Class

NUM = (int, float)


class V:
    """non-numeric value"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def key(self):
        return ("v:" + self.kind,) + tuple(gkey(a) for a in self.args)

    def __repr__(self):
        return "%s%r" % (self.kind, self.args)


def key(v):
    if isinstance(v, V):
        return v.key()
    if isinstance(v, sp.Basic):
        return ("e", v)
    if isinstance(v, (list, tuple)):
        return ("seq",) + tuple(key(x) if not isinstance(x, Gate) else gkey(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((str(k), gkey(x)) for k, x in sorted(v.items(), key=lambda t: str(t[0])))
    if isinstance(v, (ast.AST, Class)):
        return ("id", id(v))
    return (type(v).__name__, v) if isinstance(v, (str, bool, int, float, type(None), bytes)) else ("id", id(v))


class Gate:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "{%s ? %r : %r}" % (self.c, self.a, self.b)


MISSING = V("missing")


def gkey(v):
    return ("gate", v.c, gkey(v.a), gkey(v.b)) if isinstance(v, Gate) else key(v)


def mk(c, a, b):
    a, b = restrict(a, c, True), restrict(b, c, False)
    if gkey(a) == gkey(b):
        return a
    return Gate(c, a, b)


def restrict(v, c, val):
    if isinstance(v, Gate):
        if v.c == c:
            return restrict(v.a if val else v.b, c, val)
        a, b = restrict(v.a, c, val), restrict(v.b, c, val)
        if a is v.a and b is v.b:
            return v
        return a if gkey(a) == gkey(b) else Gate(v.c, a, b)
    if isinstance(v, V) and any(isinstance(x, (Gate, V, list, tuple)) for x in v.args):
        return V(v.kind, *[restrict(x, c, val) for x in v.args])
    if isinstance(v, (list, tuple)):
        return type(v)(restrict(x, c, val) for x in v)
    return v


def conds(v, out=None):
    out = [] if out is None else out
    if isinstance(v, Gate):
        if v.c not in out:
            out.append(v.c)
        conds(v.a, out)
        conds(v.b, out)
    elif isinstance(v, V):
        for x in v.args:
            conds(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            conds(x, out)
    return out


MAXC = 8


ASSUME = []


def lift(f, *args):
    """apply f under the gates of its arguments, splitting every condition consistently"""
    cs = []
    for a in args:
        conds(a, cs)
    if len(cs) > MAXC:
        return sym("wide#%d" % abs(hash(tuple(str(a) for a in args))))

    def go(cs, args):
        if not cs:
            return f(*args)
        c = cs[0]
        ASSUME.append((c, True))
        a = go(cs[1:], [restrict(x, c, True) for x in args])
        ASSUME[-1] = (c, False)
        b = go(cs[1:], [restrict(x, c, False) for x in args])
        ASSUME.pop()
        return mk(c, a, b)
    return go(cs, args)


def leaves(v, path=()):
    if isinstance(v, Gate):
        return leaves(v.a, path + ((v.c, True),)) + leaves(v.b, path + ((v.c, False),))
    return [(path, v)]


def label(k):
    return "{%s}" % k if isinstance(k, sp.Symbol) else k


_S = {}


def sym(name):
    if name not in _S:
        _S[name] = sp.Symbol(name, real=True)
    return _S[name]


ABS, LOG, EXP, ITEM, MAX = (sp.Function(n) for n in ("ABS", "LOG", "EXP", "ITEM", "MAX"))


def SFf(dist):
    return sp.Function("SF_" + dist)


def PPFf(dist):
    return sp.Function("PPF_" + dist)


SYMMETRIC = {"norm", "t", "cauchy", "logistic", "laplace"}


def is_sym_dist(d):
    return d in SYMMETRIC or d.startswith("?")


def canon(d, x, args):
    """sf of a distribution at x"""
    F = SFf(d)
    if is_sym_dist(d):
        if x.could_extract_minus_sign():
            return 1 - F(-x, *args)
    return F(x, *args)


QUANTS = []        # (distribution, level) of every quantile taken while a function is numbered


def ppf(d, q, args):
    F = PPFf(d)
    q = sp.nsimplify(sp.expand(q), rational=True)
    QUANTS.append((d, q))
    if is_sym_dist(d):
        o = sp.expand(1 - q)
        if q.is_number and o.is_number:
            return F(q, *args) if q >= o else -F(o, *args)
        if sp.default_sort_key(o) < sp.default_sort_key(q):
            return -F(o, *args)
    return F(q, *args)


def mkabs(x):
    if x.is_number:
        return abs(x)
    if x.func == ABS:
        return x
    return ABS(-x) if x.could_extract_minus_sign() else ABS(x)


IDENT = {"numpy.asarray", "numpy.array", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze", "numpy.float64",
         "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.real", "pandas.Series", "copy.copy", "copy.deepcopy",
         "numpy.nan_to_num", "numpy.reshape", "numpy.transpose", "numpy.expand_dims", "numpy.broadcast_to", "numpy.asfortranarray"}
IDM = {"copy", "ravel", "flatten", "squeeze", "to_numpy", "astype", "item", "tolist", "reshape", "to_frame", "to_series", "round",
       "conj", "transpose", "rename", "set_index", "reset_index", "view"}
STACKC = {"numpy.vstack", "numpy.row_stack"}
STACKR = {"numpy.column_stack"}
ELEM = {"numpy.log": LOG, "numpy.exp": EXP, "math.log": LOG, "math.exp": EXP}
DISTS = {"scipy.stats." + d: d for d in ("norm", "t", "chi2", "f", "cauchy", "logistic", "laplace", "gamma", "beta")}
NPAR = {"norm": 0, "cauchy": 0, "logistic": 0, "laplace": 0, "t": 1, "chi2": 1, "f": 2, "gamma": 1, "beta": 2}
PARN = {"t": ["df"], "chi2": ["df"], "f": ["dfn", "dfd"], "gamma": ["a"], "beta": ["a", "b"]}


NOINLINE = re.compile(r"log_?like|gradient|hessian|deriv|deviance|predict|inv_?link|variance|optimi[sz]e|minimi[sz]e|^_?d\d?_?[a-z]*$|score$|information_matrix|cov$")


class State:
    def __init__(self):
        self.env, self.attr, self.heap, self.path = {}, {}, {}, ()

    def copy(self):
        s = State()
        s.env, s.attr = dict(self.env), dict(self.attr)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.path = self.path
        return s


def merge(c, a, b, path):
    s = State()
    s.path = path
    for name in ("env", "attr"):
        A, B, O = getattr(a, name), getattr(b, name), getattr(s, name)
        for k in list(A) + [k for k in B if k not in A]:
            if name == "attr":
                x, y = A.get(k), B.get(k)
                if x is None:
                    x = sym("self." + k)
                if y is None:
                    y = sym("self." + k)
            else:
                x, y = A.get(k, MISSING), B.get(k, MISSING)
            O[k] = mk(c, x, y)
    for r in list(a.heap) + [k for k in b.heap if k not in a.heap]:
        A, B = a.heap.get(r, {}), b.heap.get(r, {})
        s.heap[r] = {k: mk(c, A.get(k, MISSING), B.get(k, MISSING)) for k in list(A) + [k for k in B if k not in A]}
    return s


class Site:
    """a labelled value of a function"""

    def __init__(self, ns, label, value):
        self.ns, self.label, self.value = ns, label, value


class FuncVN:
    def __init__(self, P, fn, depth=0, outer_env=None, inline=True):
        self.P, self.fn, self.depth, self.inline = P, fn, depth, inline
        self.mod = fn.module
        self.returns = []
        self.counter = itertools.count()
        self.defaults = {}
        self.snaps = []
        so = fn.self_of()
        self.selfname, self.cls = so if so else (None, None)
        self.outer_env = outer_env or {}
        self.calls = []

    # ---- driver
    def run(self, args=None, attr=None, heap=None):
        s = State()
        a = self.fn.node.args
        pos = a.posonlyargs + a.args
        ds = dict(zip([x.arg for x in reversed(pos)], reversed(a.defaults)))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, d in ds.items():
            try:
                self.defaults[n] = ast.literal_eval(d)
            except Exception:
                pass
        if attr:
            s.attr.update(attr)
        if heap:
            s.heap.update(heap)
        s.env.update(self.outer_env)
        for p in self.fn.params:
            if p == self.selfname and self.fn.selfname == p:
                s.env[p] = V("self")
            elif args is not None and p in args:
                s.env[p] = args[p]
            elif args is not None and p in ds:
                s.env[p] = self.ev(ds[p], s)
            else:
                s.env[p] = sym(p)
        body = self.fn.node.body
        if isinstance(self.fn.node, ast.Lambda):
            v = self.ev(body, s)
            self.returns.append(((), v))
            self.snaps.append(s)
            return v, s
        end = self.block(body, s)
        if end is not None:
            self.returns.append((end.path, None))
            self.snaps.append(end)
        if not self.returns:
            return sym("noreturn"), s
        r = self.returns[-1][1]
        st = self.snaps[-1]
        for (path, v), sn in zip(reversed(self.returns[:-1]), reversed(self.snaps[:-1])):
            path = path[len(self.returns[-1][0]) if False else 0:]
            r2, st2 = v, sn
            for c, val in reversed(path):
                r2 = mk(c, r2, r) if val else mk(c, r, r2)
                st2 = merge(c, st2, st, ()) if val else merge(c, st, st2, ())
            r, st = r2, st2
        return r, st

    def block(self, body, s):
        for st in body:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    # ---- statements
    def stmt(self, n, s):
        if isinstance(n, ast.Return):
            v = None if n.value is None else self.ev(n.value, s)
            self.returns.append((s.path, v))
            self.snaps.append(s)
            return None
        if isinstance(n, ast.Raise):
            return None
        if isinstance(n, ast.Assign):
            v = self.ev(n.value, s)
            for t in n.targets:
                self.assign(t, v, s, n.value)
            return s
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, s), s, n.value)
            return s
        if isinstance(n, ast.AugAssign):
            load = self.as_load(n.target)
            v = self.binop(n.op, self.ev(load, s), self.ev(n.value, s))
            self.assign(n.target, v, s, n.value)
            return s
        if isinstance(n, ast.Expr):
            self.ev(n.value, s)
            return s
        if isinstance(n, ast.If):
            c = self.cond(n.test, s)
            return self.branch(c, n.body, n.orelse, s)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return self.loop_for(n, s)
        if isinstance(n, ast.While):
            self.havoc(n.body, s)
            c = "loop@" + ast.unparse(n.test)[:60]
            inner = s.copy()
            out = self.block([x for x in n.body], inner)
            return merge(c, out, s, s.path) if out is not None else s
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(i.context_expr, s)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s, None)
            return self.block(n.body, s)
        if isinstance(n, ast.Try):
            base = s.copy()
            out = self.block(n.body + n.orelse, s)
            for h in n.handlers:
                hs = self.block(h.body, base.copy())
                if hs is not None:
                    out = hs if out is None else merge("raised@" + (ast.unparse(h.type) if h.type else "any"), hs, out, out.path)
            if out is not None and n.finalbody:
                out = self.block(n.finalbody, out)
            return out
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.env[n.name] = V("localfunc", n)
            return s
        if isinstance(n, (ast.Break, ast.Continue)):
            return s
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
            return s
        return s

    def as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        return t2

    def branch(self, c, body, orelse, s):
        if c is True:
            return self.block(body, s)
        if c is False:
            return self.block(orelse, s)
        neg = False
        if c.startswith("!"):
            neg, c = True, c[1:]
        known = dict(s.path)
        if c in known:
            return self.block(body if known[c] != neg else orelse, s)
        if neg:
            body, orelse = orelse, body
        a, b = s.copy(), s.copy()
        a.path = s.path + ((c, True),)
        b.path = s.path + ((c, False),)
        for st, val in ((a, True), (b, False)):
            for d in (st.env, st.attr):
                for k in d:
                    d[k] = restrict(d[k], c, val)
        self.refine(c, a, b)
        a, b = self.block(body, a), self.block(orelse, b)
        if a is None:
            return b
        if b is None:
            return a
        pa, pb = a.path, b.path
        if pa[:-1] == pb[:-1] or True:
            path = s.path
        return merge(c, a, b, path)

    def refine(self, c, a, b):
        if c.endswith(" is None"):
            nm = c[:-8]
            if nm in a.env and a.env[nm] == sym(nm):
                a.env[nm] = None

    def loop_for(self, n, s):
        it = self.ev(n.iter, s)
        items = None
        if isinstance(it, V) and it.kind in ("tuple", "list") and len(it.args[0]) <= 6 and \
                not any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for y in n.body for x in ast.walk(y)):
            items = it.args[0]
        if items is not None:
            for x in items:
                self.assign(n.target, x, s, None)
                s2 = self.block(n.body, s)
                if s2 is None:
                    return s
                s = s2
            return s
        self.havoc(n.body, s)
        self.assign(n.target, None, s, None, opaque=True)
        c = "loop@" + ast.unparse(n.target) + " in " + ast.unparse(n.iter)[:60]
        out = self.block(n.body, s.copy())
        if n.orelse:
            pass
        return merge(c, out, s, s.path) if out is not None else s

    def havoc(self, body, s):
        """names the loop carries are opaque on entry of the pass (names first assigned inside are not carried)"""
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in s.env:
                    used = self.read_before_write(x.id, body)
                    if used:
                        s.env[x.id] = sym("loop:" + x.id)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) \
                        and x.value.id == self.selfname and x.attr in s.attr:
                    s.attr[x.attr] = sym("loop:self." + x.attr)

    def read_before_write(self, name, body):
        for st in body:
            if isinstance(st, ast.Assign) and not any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)
                                                      for x in ast.walk(st)):
                if any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                    return False
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st)):
                return True
        return True

    # ---- assignment
    def assign(self, t, v, s, vnode, opaque=False):
        if isinstance(t, ast.Name):
            s.env[t.id] = sym(t.id + "'") if opaque else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, None, s, None, True)
                    continue
                self.assign(e, None if opaque else self.component(v, i, len(t.elts)), s, None, opaque)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                s.attr[t.attr] = sym(t.attr + "'") if opaque else v
            else:
                b = self.ev(t.value, s)
                if t.attr == "columns" and isinstance(b, V) and b.kind == "ref":
                    self.rename_cols(b, v, s)
                elif t.attr == "columns":
                    r = self.frame(b, v, None, s)
                    if r is not None:
                        self.rebind(t.value, r, s)
                elif t.attr == "index" and isinstance(b, V) and b.kind == "ref" and isinstance(v, V) and v.kind in ("list", "tuple"):
                    h = s.heap[b.args[0]]
                    labs = [x for x in v.args[0]]
                    if "#rows" in h and isinstance(h["#rows"], V) and len(h["#rows"].args[0]) == len(labs):
                        for lab, x in zip(labs, h["#rows"].args[0]):
                            if isinstance(lab, str):
                                h[lab] = x
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, s)
            k = self.ev(t.slice, s)
            if isinstance(t.value, ast.Attribute) and t.value.attr in ("loc", "iloc", "at"):
                b = self.ev(t.value.value, s)
                if isinstance(k, V) and k.kind == "tuple" and len(k.args[0]) == 2:
                    k = k.args[0][1]
            refs = [(w, r) for w, r in leaves(b) if isinstance(r, V) and r.kind == "ref"]
            if refs and (isinstance(b, V) or len(refs) == len(leaves(b))):
                for w, r in refs:
                    h = s.heap.setdefault(r.args[0], {})
                    vv, kk_ = v, k
                    for c, val in w:
                        vv, kk_ = restrict(vv, c, val), restrict(kk_, c, val)
                    kk_ = label(kk_)
                    if isinstance(kk_, str):
                        h[kk_] = vv
                    elif isinstance(kk_, V) and kk_.kind in ("list", "tuple"):
                        for i, kk in enumerate(kk_.args[0]):
                            kk = label(kk)
                            if isinstance(kk, str):
                                h[kk] = self.component(vv, i, len(kk_.args[0]))
            elif isinstance(k, str) and not isinstance(b, (V, Gate)):
                # item store into an opaque table: remember it under its own record
                r = self.newref(s, {k: v})
                self.rebind(t.value, r, s)
            elif isinstance(b, V) and b.kind == "stack" and self.stackstore(t, b, k, v, s):
                pass
            elif isinstance(t.value, (ast.Name, ast.Attribute)):
                # weak update of an array
                if not isinstance(b, (V, Gate)) or (isinstance(b, V) and b.kind in ("stack", "list", "tuple")):
                    old = self.scalarize(b)
                    lab = "cell@" + ast.unparse(t.slice)
                    self.rebind(t.value, mk(lab, v, old), s)

    def stackstore(self, t, b, k, v, s):
        """a whole row or column of a small literal array is assigned"""
        col = False
        if isinstance(k, V) and k.kind == "tuple" and len(k.args[0]) == 2 and str(k.args[0][0]) == "slice:::"[:8] and isinstance(k.args[0][1], sp.Integer):
            k, col = k.args[0][1], True
        if not isinstance(k, sp.Integer):
            return False
        xs = list(b.args[0])
        if col != b.args[1] and any(x not in (0, 1) for x in xs if isinstance(x, sp.Basic)) or any(isinstance(x, V) for x in xs) and col != b.args[1]:
            return False
        if not -len(xs) <= k < len(xs):
            return False
        if isinstance(v, V) and v.kind in ("tuple", "list") and False:
            return False
        xs[int(k)] = v
        self.rebind(t.value, V("stack", xs, col), s)
        return True

    def rebind(self, node, v, s):
        if isinstance(node, ast.Name):
            s.env[node.id] = v
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == self.selfname:
            s.attr[node.attr] = v

    def rename_cols(self, ref, v, s):
        h = s.heap[ref.args[0]]
        cols = h.get("#cols")
        if isinstance(cols, V) and isinstance(v, V) and v.kind in ("list", "tuple"):
            labs = v.args[0]
            for i, l in enumerate(labs):
                if isinstance(l, str):
                    h[l] = self.component(cols, i, len(labs))

    def scalarize(self, v):
        return v

    def component(self, v, i, n=None):
        def f(v):
            if isinstance(v, V):
                if v.kind in ("tuple", "list"):
                    xs = v.args[0]
                    return xs[i] if -len(xs) <= i < len(xs) else sym("bad")
                if v.kind == "stack":
                    xs = v.args[0]
                    return xs[i] if -len(xs) <= i < len(xs) else sym("bad")
                if v.kind == "ref":
                    return sym("ref%s[%d]" % (v.args[0], i))
            if isinstance(v, sp.Basic):
                return self.item(v, sp.Integer(i))
            return sym("comp:%s[%d]" % (v, i))
        return lift(f, v)

    def item(self, v, k):
        """elementwise arithmetic commutes with selecting an element"""
        if isinstance(v, sp.Add):
            return sp.Add(*[self.item(a, k) for a in v.args])
        if isinstance(v, sp.Mul):
            return sp.Mul(*[self.item(a, k) for a in v.args])
        if isinstance(v, sp.Pow) and v.exp.is_number:
            return sp.Pow(self.item(v.base, k), v.exp)
        if v.is_number or v.func.__name__.startswith("PPF_"):
            return v
        return ITEM(v, k)

    def newref(self, s, d):
        r = next(self.counter)
        rid = "%d.%d" % (self.depth, r) if self.depth else "%d" % r
        rid = "%s@%s" % (rid, self.fn.name)
        s.heap[rid] = dict(d)
        s.heap[rid]["#known"] = V("known", tuple(ASSUME) + s.path)
        return V("ref", rid)

    # ---- conditions: True / False / key string (possibly negated with "!")
    def cond(self, n, s):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c = self.cond(n.operand, s)
            return (not c) if isinstance(c, bool) else (c[1:] if c.startswith("!") else "!" + c)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left, s), self.ev(n.comparators[0], s)
            op = n.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                neg = isinstance(op, (ast.IsNot, ast.NotEq))
                r = self.same(a, b)
                if r is not None:
                    return r != neg
                k = "%s is %s" % (self.show(a), self.show(b))
                return "!" + k if neg else k
            if isinstance(a, sp.Basic) and isinstance(b, sp.Basic) and a.is_number and b.is_number:
                try:
                    r = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}.get(type(op))
                    if r is not None:
                        return bool(r)
                except TypeError:
                    pass
            ops = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "!>", ast.GtE: "!<", ast.In: " in ", ast.NotIn: "! in "}.get(type(op), "?")
            k = "%s%s%s" % (self.show(a), ops.lstrip("!"), self.show(b))
            return "!" + k if ops.startswith("!") else k
        if isinstance(n, ast.Compare):
            return "chain:" + " ".join(self.show(self.ev(x, s)) for x in [n.left] + n.comparators)
        v = self.ev(n, s)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, sp.Basic) and v.is_number:
            return bool(v != 0)
        if isinstance(v, Gate):
            # conditions built from gates of constants
            a, b = v.a, v.b
            if isinstance(a, bool) and isinstance(b, bool):
                return v.c if a else "!" + v.c
        return "true:" + self.show(v)

    def same(self, a, b):
        if isinstance(a, Gate) or isinstance(b, Gate):
            return None
        lit = (str, bool, type(None))
        if isinstance(a, lit) and isinstance(b, lit):
            return a == b and type(a) == type(b)
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, V) or (isinstance(o, sp.Basic) and not isinstance(o, sp.Symbol)):
                return False if not (isinstance(o, sp.Basic) and o.is_Function) else None
            return None
        if isinstance(a, sp.Basic) and isinstance(b, sp.Basic) and a.is_number and b.is_number:
            return bool(a == b)
        return None

    def show(self, v):
        return str(v) if not isinstance(v, V) else "%s:%s" % (v.kind, ",".join(
            self.show(x) if not isinstance(x, (ast.AST,)) else getattr(x, "name", "lambda") for x in v.args))

    # ---- expressions
    def ev(self, n, s):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return sym("expr:" + ast.unparse(n)[:80])
        return m(n, s)

    def e_Constant(self, n, s):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return sp.Integer(v)
        if isinstance(v, float):
            return sp.nsimplify(v, rational=True)
        return V("const", repr(v))

    def e_Name(self, n, s):
        if n.id in s.env:
            return s.env[n.id]
        r = self.P.lookup(self.mod, n.id)
        if r:
            return self.entity(r, n.id)
        return V("builtin", n.id)

    def entity(self, r, name):
        if r[0] == "ext":
            return V("ext", r[1])
        if r[0] == "pkgmod":
            return V("mod", r[1].name)
        if r[0] == "func":
            return V("func", r[1].name, r[2])
        if r[0] == "class":
            return V("class", r[1])
        if r[0] == "assign":
            vs = r[1].assigns[r[2]]
            if len(vs) == 1 and isinstance(vs[0], ast.Constant):
                return self.e_Constant(vs[0], None)
            return sym("global:" + name)
        return sym("ent:" + name)

    def e_Attribute(self, n, s):
        if isinstance(n.value, ast.Name) and n.value.id == self.selfname and self.selfname:
            if n.attr in s.attr:
                return s.attr[n.attr]
            if self.cls is not None:
                m = self.P.find_method(self.cls, n.attr)
                if m:
                    if "property" in [getattr(d, "id", getattr(d, "attr", "")) for d in m[1].decorator_list]:
                        return self.inline_call(m[0].module, m[1], m[0], [V("self")], {}, s, "self." + n.attr)
                    return V("bound", m[0], m[1])
            return sym("self." + n.attr)
        b = self.ev(n.value, s)
        return lift(lambda b: self.getattr(b, n.attr, s), b)

    def getattr(self, b, a, s):
        if isinstance(b, V):
            if b.kind == "ext":
                full = b.args[0] + "." + a
                if full in ("numpy.nan", "numpy.inf", "numpy.NaN"):
                    return sym(a)
                if full == "numpy.pi":
                    return sp.pi
                if full in ("numpy.c_", "numpy.r_"):
                    return V("ext", full)
                return V("ext", full)
            if b.kind == "mod":
                m = self.P.modules[b.args[0]]
                r = self.P.lookup(m, a)
                if r:
                    return self.entity(r, a)
                if b.args[0] + "." + a in self.P.modules:
                    return V("mod", b.args[0] + "." + a)
                return sym("%s.%s" % (b.args[0], a))
            if b.kind == "stack":
                if a == "T":
                    return V("stack", b.args[0], not b.args[1])
                return V("meth", b, a)
            if b.kind == "ref":
                h = s.heap.get(b.args[0], {})
                if a in h and a not in ("loc", "iloc", "T", "index", "columns"):
                    return h[a]
                if a in ("T", "loc", "iloc", "at", "values"):
                    return b
                return V("meth", b, a)
            return V("meth", b, a)
        if isinstance(b, sp.Basic):
            if a in ("T", "values", "real", "x") and not isinstance(b, sp.Symbol):
                return b
            if a in ("T", "values"):
                return b
            if a in ("loc", "iloc", "at"):
                return b
            if isinstance(b, sp.Symbol):
                return V("meth", b, a)
            return V("meth", b, a)
        return V("meth", b, a)

    def e_Tuple(self, n, s):
        return V("tuple", [self.ev(e, s) for e in n.elts])

    def e_List(self, n, s):
        return V("list", [self.ev(e, s) for e in n.elts])

    def e_Dict(self, n, s):
        d = {}
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, s)
            if k is not None:
                kk = self.ev(k, s)
                if isinstance(kk, str):
                    d[kk] = vv
        return self.newref(s, d)

    def e_JoinedStr(self, n, s):
        out = ""
        for p in n.values:
            if isinstance(p, ast.Constant):
                out += str(p.value)
            else:
                v = self.ev(p.value, s)
                out += v if isinstance(v, str) else "{%s}" % (v,)
        return out

    def e_FormattedValue(self, n, s):
        return "{%s}" % (self.ev(n.value, s),)

    def num(self, v):
        """a value as an expression"""
        if isinstance(v, bool):
            return sp.Integer(int(v))
        if isinstance(v, sp.Basic):
            return v
        if v is None:
            return sym("None")
        if isinstance(v, V) and v.kind == "meth":
            o = v.args[0]
            if isinstance(o, sp.Symbol):
                return sym("%s.%s" % (o, v.args[1]))
            return sp.Function("attr:" + str(v.args[1]))(self.num(o)) if not isinstance(o, Gate) else sym("attr:%s" % (v,))
        return sym("val:" + self.show(v)) if not isinstance(v, Gate) else sym("gate:%r" % (v,))

    def e_BinOp(self, n, s):
        return self.binop(n.op, self.ev(n.left, s), self.ev(n.right, s))

    def binop(self, op, a, b):
        def f(a, b):
            if isinstance(a, str) and isinstance(op, (ast.Add, ast.Mod)):
                if isinstance(op, ast.Mod):
                    return a
                return a + (b if isinstance(b, str) else "{%s}" % (b,))
            if isinstance(b, str) and isinstance(op, ast.Add):
                return "{%s}" % (a,) + b
            if isinstance(a, V) and a.kind in ("list", "tuple") and isinstance(b, V) and b.kind in ("list", "tuple") and isinstance(op, ast.Add):
                return V(a.kind, list(a.args[0]) + list(b.args[0]))
            if isinstance(a, V) and a.kind == "stack":
                if isinstance(b, V) and b.kind == "stack" and len(b.args[0]) == len(a.args[0]):
                    return V("stack", [self.binop(op, x, y) for x, y in zip(a.args[0], b.args[0])], a.args[1])
                return V("stack", [self.binop(op, x, b) for x in a.args[0]], a.args[1])
            if isinstance(b, V) and b.kind == "stack":
                return V("stack", [self.binop(op, a, x) for x in b.args[0]], b.args[1])
            x, y = self.num(a), self.num(b)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            if isinstance(op, ast.Div):
                return x / y if y != 0 else sym("div0")
            if isinstance(op, ast.Pow):
                return x ** y
            return sp.Function("op:" + type(op).__name__)(x, y)
        return lift(f, a, b)

    def e_UnaryOp(self, n, s):
        v = self.ev(n.operand, s)

        def f(v):
            if isinstance(n.op, ast.USub):
                return -self.num(v)
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.Not) and isinstance(v, bool):
                return not v
            return sp.Function("op:" + type(n.op).__name__)(self.num(v))
        return lift(f, v)

    def e_IfExp(self, n, s):
        c = self.cond(n.test, s)
        if c is True:
            return self.ev(n.body, s)
        if c is False:
            return self.ev(n.orelse, s)
        x, y = self.ev(n.body, s), self.ev(n.orelse, s)
        if c.startswith("!"):
            c, x, y = c[1:], y, x
        known = dict(s.path)
        if c in known:
            return x if known[c] else y
        if c.endswith(" is None") and isinstance(y, sp.Symbol):
            pass
        return mk(c, x, y)

    def e_Compare(self, n, s):
        c = self.cond(n, s)
        if isinstance(c, bool):
            return c
        return mk(c[1:], False, True) if c.startswith("!") else mk(c, True, False)

    def e_BoolOp(self, n, s):
        vs = [self.ev(v, s) for v in n.values]
        return sp.Function("op:" + type(n.op).__name__)(*[lift(self.num, v) if not isinstance(v, Gate) else sym("gate:%r" % (v,)) for v in vs])

    def e_Lambda(self, n, s):
        return V("localfunc", n)

    def e_Starred(self, n, s):
        return self.ev(n.value, s)

    def e_Subscript(self, n, s):
        b = self.ev(n.value, s)
        k = self.ev(n.slice, s)
        isloc = isinstance(n.value, ast.Attribute) and n.value.attr in ("loc", "iloc", "at")

        def f(b, k):
            if isloc and isinstance(k, V) and k.kind == "tuple" and len(k.args[0]) == 2:
                k = k.args[0][1]
            if isinstance(b, V):
                if b.kind == "ref":
                    h = s.heap.get(b.args[0], {})
                    k = label(k)
                    if isinstance(k, str):
                        return h.get(k, sym("%s[%r]" % (h.get("#name", b.args[0]), k)))
                    if isinstance(k, V) and k.kind in ("list", "tuple") and all(isinstance(x, str) for x in k.args[0]):
                        return V("stack", [h.get(x, sym("%s[%r]" % (b.args[0], x))) for x in k.args[0]], True)
                    return b
                if b.kind in ("list", "tuple") and isinstance(k, sp.Integer):
                    return self.component(b, int(k))
                if b.kind == "ext" and b.args[0] in ("numpy.c_", "numpy.r_") and isinstance(k, V) and k.kind == "tuple":
                    return V("stack", list(k.args[0]), b.args[0].endswith("c_"))
                if b.kind == "stack":
                    # columns of a stack
                    if isinstance(k, V) and k.kind == "tuple" and len(k.args[0]) == 2:
                        i = k.args[0][1] if b.args[1] else k.args[0][0]
                        if isinstance(i, sp.Integer):
                            return self.component(b, int(i))
                        return b
                    if isinstance(k, sp.Integer) and not b.args[1]:
                        return self.component(b, int(k))
                    return b
                return sym("item:%s[%s]" % (self.show(b), k))
            if isinstance(b, sp.Basic):
                kk = k if isinstance(k, sp.Basic) else sym("ix:" + (self.show(k) if not isinstance(k, str) else repr(k)))
                return self.item(b, kk)
            return sym("item:%s[%s]" % (b, k))
        return lift(f, b, k)

    def e_Slice(self, n, s):
        return sym("slice:" + ":".join("" if x is None else str(self.ev(x, s)) for x in (n.lower, n.upper, n.step)))

    def e_ListComp(self, n, s):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            it = self.ev(n.generators[0].iter, s)
            if isinstance(it, V) and it.kind in ("list", "tuple") and len(it.args[0]) <= 8:
                out = []
                for x in it.args[0]:
                    st = s.copy()
                    self.assign(n.generators[0].target, x, st, None)
                    out.append(self.ev(n.elt, st))
                return V("list", out)
        return sym("comp:" + ast.unparse(n)[:100])

    e_GeneratorExp = e_ListComp

    # ---- calls
    def e_Call(self, n, s):
        fn = self.ev(n.func, s)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "insert" and len(n.args) >= 3 and all(
                isinstance(x, V) and x.kind == "meth" and isinstance(x.args[0], sp.Basic) for _, x in leaves(fn)):
            lab, val = label(self.ev(n.args[1], s)), self.ev(n.args[2], s)
            if isinstance(lab, str):
                self.rebind(n.func.value, self.newref(s, {lab: val}), s)
                return None
        args = [self.ev(a, s) for a in n.args]
        star = any(isinstance(a, ast.Starred) for a in n.args)
        kws = {k.arg: self.ev(k.value, s) for k in n.keywords if k.arg}
        names = list(kws)
        return lift(lambda f, *aa: self.call(f, list(aa[:len(args)]), dict(zip(names, aa[len(args):])), s, n, star), fn, *(args + list(kws.values())))

    def opaque(self, name, args, kws):
        if not self.depth and sum(isinstance(a, sp.Basic) and any(g.func.__name__.startswith("PPF_") for g in a.atoms(sp.Function)) for a in args) >= 2:
            self.calls.append((name, list(args)))
        xs = [self.num(a) for a in args] + [sp.Function("kw:" + k)(self.num(v)) for k, v in sorted(kws.items())]
        return sp.Function("call:" + name)(*xs) if xs else sym("call:" + name + "()")

    def call(self, f, args, kws, s, n, star=False):
        if isinstance(f, Gate):
            return sym("gatecall")
        if isinstance(f, V):
            if f.kind == "ext":
                return self.ext(f.args[0], args, kws, s, n)
            if f.kind == "builtin":
                return self.builtin(f.args[0], args, kws, s)
            if f.kind == "meth":
                return self.method(f.args[0], f.args[1], args, kws, s, n)
            if f.kind == "bound":
                k, node = f.args
                r = self.inline_call(k.module, node, k, [V("self")] + args, kws, s, "self." + node.name, star)
                return r
            if f.kind == "func":
                m = self.P.modules[f.args[0]]
                return self.inline_call(m, f.args[1], None, args, kws, s, f.args[1].name, star)
            if f.kind == "localfunc":
                return self.inline_call(self.mod, f.args[0], None, args, kws, s, getattr(f.args[0], "name", "lambda"), star, local=True)
            if f.kind == "class":
                return self.opaque("new " + f.args[0].node.name, args, kws)
        return self.opaque(self.show(f), args, kws)

    def dist_call(self, d, params, method, args, kws):
        """method of a reference distribution; params are its frozen shape/loc/scale values or None"""
        np_ = NPAR.get(d, 0)
        if params is None:
            x = args[0] if args else kws.get("x", kws.get("q"))
            shape = list(args[1:1 + np_]) + [kws[k] for k in PARN.get(d, []) if k in kws]
            loc = kws.get("loc", args[1 + np_] if len(args) > 1 + np_ else sp.Integer(0))
            scale = kws.get("scale", args[2 + np_] if len(args) > 2 + np_ else sp.Integer(1))
        else:
            x = args[0] if args else kws.get("x", kws.get("q"))
            shape, loc, scale = params
        if x is None:
            return sym("dist?")
        shape = [self.num(v) for v in shape]
        loc, scale = self.num(loc), self.num(scale)

        def one(x):
            x = self.num(x)
            if method == "sf":
                return canon(d, (x - loc) / scale, shape)
            if method == "cdf":
                return 1 - canon(d, (x - loc) / scale, shape)
            if method == "ppf":
                return loc + scale * ppf(d, x, shape)
            if method == "isf":
                return loc + scale * ppf(d, 1 - x, shape)
            return sp.Function(method + "_" + d)(x, *shape)
        return self.mapcont(one, x)

    def mapcont(self, f, x):
        if isinstance(x, V) and x.kind in ("list", "tuple"):
            return V(x.kind, [lift(lambda y: self.mapcont(f, y), y) for y in x.args[0]])
        if isinstance(x, V) and x.kind == "stack":
            return V("stack", [lift(lambda y: self.mapcont(f, y), y) for y in x.args[0]], x.args[1])
        return f(x)

    def frame(self, data, cols, index, s):
        """table built from data with literal column or index labels"""
        def labels(v):
            return [label(x) for x in v.args[0]] if isinstance(v, V) and v.kind in ("list", "tuple") else None
        cl, il = labels(cols), labels(index)
        d = {}
        if isinstance(data, V) and data.kind == "ref":
            h = dict(s.heap.get(data.args[0], {}))
            if il and len(h) == 1:
                # one column with labelled rows
                (k, v), = h.items()
                if isinstance(v, V) and v.kind in ("list", "tuple") and len(v.args[0]) == len(il):
                    for l, x in zip(il, v.args[0]):
                        if isinstance(l, str):
                            h[l] = x
            return self.newref(s, h)
        rows = None
        if isinstance(data, V) and data.kind == "stack":
            if cl is not None and data.args[1] and len(cl) == len(data.args[0]):
                d.update({l: x for l, x in zip(cl, data.args[0]) if isinstance(l, str)})
            if il is not None and not data.args[1] and len(il) == len(data.args[0]):
                d.update({l: x for l, x in zip(il, data.args[0]) if isinstance(l, str)})
                for l, x in zip(il, data.args[0]):
                    if cl is not None and isinstance(x, sp.Basic) and x.is_number:
                        d.update({"%s/%s" % (l, c): x for c in cl})
                    if isinstance(x, V) and x.kind in ("list", "tuple") and cl is not None and len(cl) == len(x.args[0]):
                        d.update({"%s/%s" % (l, c): y for c, y in zip(cl, x.args[0])})
            d["#cols"] = data
        elif isinstance(data, V) and data.kind in ("list", "tuple"):
            rows = data.args[0]
            if len(rows) == 1 and isinstance(rows[0], V) and rows[0].kind in ("list", "tuple"):
                rows = rows[0].args[0]
            if il is not None and len(il) == len(rows):
                for l, x in zip(il, rows):
                    if isinstance(l, str):
                        d[l] = x
                    if isinstance(x, V) and x.kind in ("list", "tuple") and cl is not None and len(cl) == len(x.args[0]):
                        d.update({"%s/%s" % (l, c): y for c, y in zip(cl, x.args[0])})
            elif cl is not None and len(cl) == len(rows):
                d.update({l: x for l, x in zip(cl, rows) if isinstance(l, str)})
            d["#rows"] = V("list", list(rows))
        elif cl is not None and all(isinstance(c, str) for c in cl) and isinstance(data, sp.Basic):
            for i, c in enumerate(cl):
                d[c] = self.component(data, i)
        else:
            return None
        return self.newref(s, d)

    def ext(self, name, args, kws, s, n):
        for pre, d in DISTS.items():
            if name == pre:
                np_ = NPAR.get(d, 0)
                shape = list(args[:np_]) + [kws[k] for k in PARN.get(d, []) if k in kws]
                loc = kws.get("loc", args[np_] if len(args) > np_ else sp.Integer(0))
                scale = kws.get("scale", args[np_ + 1] if len(args) > np_ + 1 else sp.Integer(1))
                return V("dist", d, [shape, loc, scale])
            if name.startswith(pre + "."):
                return self.dist_call(d, None, name[len(pre) + 1:], args, kws)
        if name in ("scipy.special.ndtri",):
            return self.mapcont(lambda x: ppf("norm", self.num(x), []), args[0])
        if name == "scipy.special.ndtr":
            return self.mapcont(lambda x: 1 - canon("norm", self.num(x), []), args[0])
        if name in ("scipy.special.stdtr", "scipy.special.stdtrit") and len(args) == 2:
            return self.dist_call("t", None, "cdf" if name.endswith("stdtr") else "ppf", [args[1], args[0]], {})
        if name in ("numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs"):
            return self.mapcont(lambda x: mkabs(self.num(x)), args[0])
        if name in ("numpy.sqrt", "math.sqrt"):
            return self.mapcont(lambda x: sp.sqrt(self.num(x)), args[0])
        if name in ("numpy.square",):
            return self.mapcont(lambda x: self.num(x) ** 2, args[0])
        if name in ELEM and len(args) == 1:
            return self.mapcont(lambda x: ELEM[name](self.num(x)), args[0])
        if name == "numpy.log1p":
            return self.mapcont(lambda x: LOG(1 + self.num(x)), args[0])
        if name == "numpy.expm1":
            return self.mapcont(lambda x: EXP(self.num(x)) - 1, args[0])
        if name in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.power") and len(args) == 2:
            op = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div, "power": ast.Pow}[name[6:]]()
            return self.binop(op, args[0], args[1])
        if name in ("numpy.negative",):
            return -self.num(args[0])
        if name in ("numpy.maximum", "numpy.fmax") and len(args) == 2:
            return MAX(*sorted([self.num(a) for a in args], key=sp.default_sort_key))
        if name in STACKC or name in STACKR or name in ("numpy.stack", "numpy.concatenate", "numpy.hstack", "numpy.array", "numpy.asarray") and args \
                and isinstance(args[0], V) and args[0].kind in ("list", "tuple"):
            x = args[0]
            if isinstance(x, V) and x.kind in ("list", "tuple"):
                xs = list(x.args[0])
                if name in STACKC:
                    return V("stack", xs, False)
                if name in STACKR:
                    return V("stack", xs, True)
                ax = kws.get("axis", args[1] if len(args) > 1 else None)
                if name in ("numpy.stack", "numpy.concatenate") and ax in (sp.Integer(1), sp.Integer(-1)):
                    return V("stack", xs, True)
                if name in ("numpy.array", "numpy.asarray"):
                    if any(isinstance(y, V) for y in xs):
                        return V("list", xs) if not all(isinstance(y, V) and y.kind in ("list", "tuple") for y in xs) else V("stack", xs, False)
                    return V("list", xs)
                if name == "numpy.stack":
                    return V("stack", xs, False)
                return self.opaque(name, xs, {})
            return self.opaque(name, args, kws)
        if name in IDENT and args:
            return args[0]
        if name in ("numpy.zeros", "numpy.empty", "numpy.ones") and args and isinstance(args[0], V) and args[0].kind in ("tuple", "list") and len(args[0].args[0]) == 2:
            a, b = args[0].args[0]
            fill = sp.Integer(1 if name.endswith("ones") else 0)
            if isinstance(a, sp.Integer) and 1 <= a <= 12:
                return V("stack", [fill] * int(a), False)
            if isinstance(b, sp.Integer) and 1 < b <= 12:
                return V("stack", [fill] * int(b), True)
        if name in ("pandas.DataFrame", "pandas.Series"):
            data = args[0] if args else kws.get("data")
            cols = kws.get("columns", args[2] if len(args) > 2 else None)
            index = kws.get("index", args[1] if len(args) > 1 else None)
            r = self.frame(data, cols, index, s) if data is not None else self.newref(s, {})
            return r if r is not None else (data if data is not None else sym("frame"))
        if name == "numpy.where" and len(args) == 3:
            return mk("where:" + self.show(args[0]), args[1], args[2])
        return self.opaque(name, args, kws)

    def builtin(self, name, args, kws, s):
        if name in ("abs",):
            return self.mapcont(lambda x: mkabs(self.num(x)), args[0])
        if name in ("float", "int") and args:
            return args[0]
        if name == "dict":
            return self.newref(s, kws)
        if name in ("list", "tuple") and args and isinstance(args[0], V) and args[0].kind in ("list", "tuple"):
            return V(name, list(args[0].args[0]))
        if name == "zip" and args and all(isinstance(a, V) and a.kind in ("list", "tuple") for a in args):
            return V("list", [V("tuple", list(t)) for t in zip(*[a.args[0] for a in args])])
        if name == "isinstance" and len(args) == 2:
            return sym("isinstance:%s:%s" % (self.show(args[0]), self.show(args[1])))
        if name in ("max",) and len(args) == 2:
            return MAX(*sorted([self.num(a) for a in args], key=sp.default_sort_key))
        return self.opaque(name, args, kws)

    def method(self, o, name, args, kws, s, n):
        if isinstance(o, V) and o.kind == "dist":
            return self.dist_call(o.args[0], o.args[1], name, args, kws)
        if isinstance(o, sp.Symbol) and name in ("sf", "cdf", "ppf", "isf") and "dist" in str(o):
            return self.dist_call("?" + str(o), [[], sp.Integer(0), sp.Integer(1)], name, args, kws)
        if isinstance(o, V) and o.kind == "ref":
            h = s.heap.setdefault(o.args[0], {})
            if name == "insert" and len(args) >= 3 and isinstance(args[1], str):
                h[args[1]] = args[2]
                return None
            if name in ("assign", "update"):
                src = dict(kws)
                if args and isinstance(args[0], V) and args[0].kind == "ref":
                    src.update(s.heap.get(args[0].args[0], {}))
                if name == "update":
                    h.update(src)
                    return None
                return self.newref(s, dict(h, **src))
            if name in ("copy", "set_index", "reset_index", "rename", "transpose", "to_frame", "astype", "round", "sort_index"):
                return o
            if name == "append" and args:
                return None
            if name in ("get",) and args and isinstance(args[0], str) and args[0] in h:
                return h[args[0]]
            return self.opaque("ref." + name, args, kws)
        if isinstance(o, V) and o.kind == "list" and name == "append" and len(args) == 1:
            o.args[0].append(args[0])
            return None
        if name in IDM and (isinstance(o, V) and o.kind in ("stack",) or isinstance(o, sp.Basic)):
            return o
        if isinstance(o, V) and o.kind == "stack" and name in ("dot",):
            return sym("stackdot")
        if isinstance(o, str) and name == "format":
            return o
        if isinstance(o, sp.Basic):
            if isinstance(o, sp.Symbol):
                return self.opaque("%s.%s" % (o, name), args, kws)
            return self.opaque("." + name, [o] + args, kws)
        if isinstance(o, V) and o.kind == "meth":
            return self.opaque("%s.%s" % (self.num(o), name), args, kws)
        return self.opaque("%s.%s" % (self.show(o), name), args, kws)

    def inline_call(self, module, node, cls, args, kws, s, name, star=False, local=False):
        isself = bool(args) and isinstance(args[0], V) and args[0].kind == "self"
        decs = [getattr(d, "id", getattr(d, "attr", "")) for d in getattr(node, "decorator_list", [])]
        if isself and "staticmethod" in decs:
            args, isself = args[1:], False
        shown = args[1:] if isself else args
        small = isinstance(node, ast.Lambda) or (sum(isinstance(x, ast.stmt) for x in ast.walk(node)) <= 25 and not any(
            isinstance(x, (ast.While, ast.For, ast.Yield, ast.YieldFrom, ast.Try)) for x in ast.walk(node)) and "njit" not in " ".join(decs) and "jit" not in decs)
        if not self.inline or not small or NOINLINE.search(name.split('.')[-1]) or self.depth >= 3 or star or (decs and set(decs) - {"staticmethod", "classmethod", "property"}):
            return self.opaque(name, shown, kws)
        from .scopes import Fn
        f = next((g for g in functions(self.P) if g.node is node), None)
        if f is None:
            f = Fn(module, node, cls, self.fn if local else None, name)
        sub = FuncVN(self.P, f, self.depth + 1, dict(s.env) if local else None)
        if isself:
            sub.cls = self.cls or cls
        sub.counter = self.counter
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        bound = dict(zip(names, args))
        bound.update(kws)
        if set(kws) - set(f.params) or len(args) > len(names):
            return self.opaque(name, shown, kws)
        # an unsupplied parameter takes its default
        nstate = len(s.heap)
        try:
            r, st = sub.run(bound, s.attr if isself else None, {k: dict(v) for k, v in s.heap.items()})
        except RecursionError:
            return self.opaque(name, shown, kws)
        if isself:
            s.attr.update(st.attr)
        for k, h in st.heap.items():
            s.heap[k] = h
        return r


def namespaces(vn, st):
    """labelled values at an exit: one namespace per table, one for the attributes, one for the local names"""
    out = []
    for r, h in st.heap.items():
        d = {k: v for k, v in h.items() if not k.startswith("#")}
        if d:
            d["#known"] = h["#known"].args[0] if isinstance(h.get("#known"), V) and h["#known"].kind == "known" else ()
            out.append(("table", d))
    if st.attr:
        out.append(("attributes", dict(st.attr)))
    loc = {k: v for k, v in st.env.items() if k not in vn.fn.params}
    if loc:
        out.append(("locals", loc))
    return out


def analyse(P, fn):
    vn = FuncVN(P, fn)
    r, st = vn.run()
    return vn, r, st


def splits(values, limit=6):
    """consistent gate-free versions of a dict of values"""
    cs = []
    for v in values.values():
        conds(v, cs)
    cs = cs[:limit] if len(cs) > limit else cs
    out, seen = [], set()
    for bits in itertools.product((True, False), repeat=len(cs)):
        d = dict(values)
        for c, b in zip(cs, bits):
            d = {k: restrict(v, c, b) for k, v in d.items()}
        kk = str(sorted((k, str(v)) for k, v in d.items()))
        if kk not in seen:
            seen.add(kk)
            out.append((dict(zip(cs, bits)), d))
    return out
