"""Per-class state flow: what a method reads of its object before writing it, must write, and may write."""
import ast
from .scopes import functions

INPLACE = {"fill", "sort", "append", "extend", "insert", "pop", "update", "clear", "remove", "setdefault", "add", "put", "resize", "itemset", "eliminate_zeros", "setdiag", "partition", "cholesky_inplace"}


REFRESH = {"fill", "clear", "cholesky_inplace"}
VIEWS = {"data", "T", "values", "flat", "real", "imag"}
STRUCT = {"shape", "size", "dtype", "ndim", "nnz", "indices", "indptr", "columns", "index", "nbytes"}


class Sum:
    def __init__(self):
        self.busy = self.raises = False
        self.defaults = {}
        self.ue, self.must, self.may = {}, set(), {}


class State:
    def __init__(self, P, faint):
        self.P, self.A = P, faint
        self.fns = functions(P)
        self.by_node = faint.by_node
        self.memo = {}
        self._types = {}
        self._busy = set()
        self.stores = {}          # attribute -> [(class node id, fn, value node or None)]
        self.by_name = {}
        self.ctors = {}           # class qual -> [(fn, call)]
        for f in self.fns:
            if f.cls is not None and f.is_method and f.outer is None:
                self.by_name.setdefault(f.name, []).append(f)
            for n in f.own_nodes():
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for e in ast.walk(t):
                            if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Store):
                                self.stores.setdefault(e.attr, []).append((f, e, n.value if e is t else None))
                elif isinstance(n, ast.Call):
                    r = P.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                    if r and r[0] == "class":
                        self.ctors.setdefault(r[1].qual, []).append((f, n))

    # ------------------------------------------------------------------ what an attribute holds
    def expr_type(self, f, v, depth=0):
        """project class of the object an expression makes, None when not known"""
        if depth > 4 or v is None:
            return None
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
            r = self.P.resolve_expr(f.module, v.func)
            return r[1] if r and r[0] == "class" else None
        if isinstance(v, ast.Name):
            st = [n.value for n in f.own_nodes() if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
            stores = sum(1 for n in f.own_nodes() if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store))
            if len(st) == 1 and stores == 1 and v.id not in f.params:
                return self.expr_type(f, st[0], depth + 1)
            if v.id in f.params and not stores and f.name == "__init__" and f.cls is not None:
                i = f.params.index(v.id) - 1
                out = set()
                for c in [f.cls] + self.P.subclasses(f.cls):
                    m = self.P.find_method(c, "__init__")
                    if m is None:
                        return None
                    g = self.by_node.get(id(m[1]))
                    if g is not f:      # handed on to super().__init__ under the same name
                        if v.id not in g.params:
                            continue
                        out.add(self.expr_type(g, ast.Name(v.id, ast.Load()), depth + 1))
                        continue
                    for h, call in self.ctors.get(c.qual, []):
                        a = next((k.value for k in call.keywords if k.arg == v.id), None)
                        if a is None and i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args):
                            a = call.args[i]
                        out.add(self.expr_type(h, a, depth + 1))
                return next(iter(out)) if len(out) == 1 else None
        return None

    def types(self, K):
        if K.qual not in self._types:
            self._types[K.qual] = {}
            fam = {id(c.node) for c in self.P.mro(K)} | {id(c.node) for c in self.P.subclasses(K)}
            out = {}
            for a, ss in self.stores.items():
                own = [(f, e, v) for f, e, v in ss if f.cls is not None and id(f.cls.node) in fam and isinstance(e.value, ast.Name) and e.value.id == f.selfname]
                if own:
                    ts = {self.expr_type(f, v) for f, e, v in own}
                    if len(ts) == 1 and None not in ts:
                        out[a] = next(iter(ts))
            self._types[K.qual] = out
        return self._types[K.qual]

    def candidates(self, name):
        """(class, function) a method call on an object of unknown class may enter"""
        out = []
        for f in self.by_name.get(name, []):
            for c in [f.cls] + self.P.subclasses(f.cls):
                if self.P.subclasses(c):
                    continue
                m = self.P.find_method(c, name)
                if m is not None and m[1] is f.node:
                    out.append((c, f))
        return out

    def method(self, K, name, after=None):
        m = self.P.find_method(K, name, after=after) if after is not None else self.P.find_method(K, name)
        return self.by_node.get(id(m[1])) if m else None

    def summary(self, K, f):
        k = (K.qual if K is not None else None, id(f.node))
        if k in self.memo:
            return self.memo[k]
        s = self.memo[k] = Sum()
        s.busy = True
        w = MWalk(self, K, f)
        out = w.block(f.node.body, set())
        s.ue, s.may, s.defaults = w.ue, w.may, w.defaults
        ends = w.exits + ([out] if out is not None else [])
        s.must = set.intersection(*ends) if ends else set()
        s.raises = not ends
        s.busy = False
        return s


class MWalk:
    """forward dataflow; the state is the set of attributes certainly written, None when unreachable"""

    def __init__(self, S, K, f):
        self.S, self.K, self.f = S, K, f
        self.me = f.selfname
        self.ue, self.may, self.exits = {}, {}, []
        self.brk = []
        self.alias, self.lazy = {}, {}
        self.default_assigns = {}
        ps = [p for p in f.params if p != self.me]
        re_ = {}
        for n in f.own_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in ps:
                re_[n.id] = re_.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.default_idiom(n):
                re_[n.targets[0].id] = re_.get(n.targets[0].id, 0) - 1
                self.default_assigns[id(n)] = n.value.body if isinstance(n.value.orelse, ast.Name) and n.value.orelse.id == n.targets[0].id else n.value.orelse
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], ast.Is) and isinstance(n.test.left, ast.Name) \
                    and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value is None and n.test.left.id in ps:
                for b in n.body:
                    if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == n.test.left.id:
                        re_[b.targets[0].id] = re_.get(b.targets[0].id, 0) - 1
                        self.default_assigns[id(b)] = b.value
        self.ps = {p for p in ps if not re_.get(p)}
        # locals that name an attribute's object (or a parameter's)
        cand = {}
        for n in f.own_nodes():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    pairs = [(t, n.value)]
                    if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                        pairs = list(zip(t.elts, n.value.elts))
                    for x, v in pairs:
                        if isinstance(x, ast.Name) and id(n) not in self.default_assigns:
                            cand.setdefault(x.id, []).append(v)
        nst = {}
        for n in f.own_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                nst[n.id] = nst.get(n.id, 0) + 1
        for _ in range(3):
            for x, vs in cand.items():
                if x in f.params or x in self.lazy:
                    continue
                ks = [self.key_t(v.value if isinstance(v, ast.Subscript) else v) for v in vs]
                sub = [isinstance(v, ast.Subscript) for v in vs]
                if len(vs) == 1 and nst.get(x) == 1 and ks[0] is not None:
                    if not sub[0]:
                        self.lazy[x] = ks[0]
                        self.alias.pop(x, None)
                    else:
                        self.alias[x] = {ks[0][0]}
                elif any(ks):
                    self.alias[x] = {k[0] for k in ks if k}

        # locals that are parts of an attribute and are written through
        self.views = {}
        for x, vs in cand.items():
            if x in self.alias and len(vs) == 1 and nst.get(x) == 1 and isinstance(vs[0], ast.Subscript) and len(self.alias[x]) == 1:
                for n in f.own_nodes():
                    if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == x for a in n.args + [k.value for k in n.keywords]) or \
                            isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == x:
                        self.views[x] = next(iter(self.alias[x]))
        # what an omitted parameter stands for
        self.defaults = {}
        for n in f.own_nodes():
            if id(n) in self.default_assigns and n.targets[0].id in self.ps:
                k = self.key(self.default_assigns[id(n)])
                if k is not None and k[0] != "@":
                    self.defaults[n.targets[0].id] = k

    @staticmethod
    def default_idiom(n):
        """p = <something> if p is None else p"""
        v = n.value
        t = n.targets[0]
        return isinstance(t, ast.Name) and isinstance(v, ast.IfExp) and isinstance(v.test, ast.Compare) and isinstance(v.test.left, ast.Name) and v.test.left.id == t.id \
            and any(isinstance(x, ast.Name) and x.id == t.id for x in (v.body, v.orelse))

    def key_t(self, n):
        """(key, class) of the object an expression names: 'attr', 'attr.attr' through objects of known class, '@param'"""
        if isinstance(n, ast.Name):
            if n.id in self.lazy:
                return self.lazy[n.id]
            if n.id in self.ps:
                return ("@" + n.id, None)
            return None
        if not isinstance(n, ast.Attribute):
            return None
        v = n.value
        if isinstance(v, ast.Name) and v.id == self.me and self.me is not None:
            if self.K is None or self.S.method(self.K, n.attr) is not None:
                return None
            return (n.attr, self.S.types(self.K).get(n.attr))
        b = self.key_t(v)
        if b is None:
            return None
        k, t = b
        if t is None:
            return b if n.attr in VIEWS else None
        if self.S.method(t, n.attr) is not None or k.count(".") >= 3:
            return None
        return (k + "." + n.attr, self.S.types(t).get(n.attr))

    def key(self, n):
        k = self.key_t(n)
        return k[0] if k is not None else None

    def meth(self, n):
        """(class, function, prefix) of a method named by an attribute expression on self or on an object of known class"""
        if not isinstance(n, ast.Attribute):
            return None
        v = n.value
        if isinstance(v, ast.Name) and v.id == self.me and self.me is not None and self.K is not None:
            g = self.S.method(self.K, n.attr)
            return (self.K, g, "") if g is not None else None
        b = self.key_t(v)
        if b is None or b[1] is None:
            return None
        g = self.S.method(b[1], n.attr)
        return (b[1], g, b[0] + ".") if g is not None else None

    def base_key(self, b):
        """key of the object a store target or receiver is part of"""
        while True:
            k = self.key(b)
            if k is not None:
                return k, b
            if not isinstance(b, (ast.Subscript, ast.Attribute)):
                return None, b
            b = b.value

    def is_attr(self, n):
        return isinstance(n, ast.Attribute) and self.key(n) is not None

    def read(self, attr, node, st, via=()):
        if st is not None and attr not in st:
            self.ue.setdefault(attr, (node.lineno if node is not None else 0, via))

    def write(self, attr, node, how, via=()):
        self.may.setdefault(attr, (getattr(node, "lineno", 0), how, via))

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def meet(self, *sts):
        sts = [s for s in sts if s is not None]
        return set.intersection(*map(set, sts)) if sts else None

    def stmt(self, n, st):
        t = type(n)
        if t is ast.Assign:
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and (n.targets[0].id in self.lazy or id(n) in self.default_assigns):
                return st
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts):
                for x, v in zip(n.targets[0].elts, n.value.elts):
                    if not (isinstance(x, ast.Name) and x.id in self.lazy):
                        st = self.ev(v, st)
                for x in n.targets[0].elts:
                    st = self.target(x, st)
                return st
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.views:
                return self.ev(n.value.slice, st)
            st = self.ev(n.value, st)
            for x in n.targets:
                st = self.target(x, st)
            return st
        if t is ast.AnnAssign:
            if n.value is None:
                return st
            return self.target(n.target, self.ev(n.value, st))
        if t is ast.AugAssign:
            st = self.ev(n.value, st)
            k, b = self.base_key(n.target)
            if k is not None and not (isinstance(n.target, ast.Name) and k[0] == "@" and not self.arrayish(n.target.id)):
                self.read(k, n, st)
                self.write(k, n, "updated")
                st = st | {k}
                return self.ev(n.target.slice, st) if isinstance(n.target, ast.Subscript) else st
            if isinstance(n.target, (ast.Name, ast.Subscript)):
                b = n.target
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    for a in self.alias.get(b.id, ()):
                        self.read(a, n, st)
                        self.write(a, n, "updated")
            return self.target(n.target, st)
        if t is ast.Expr:
            return self.ev(n.value, st)
        if t is ast.Return:
            st = self.ev(n.value, st) if n.value is not None else st
            self.exits.append(st)
            return None
        if t is ast.Raise:
            return None
        if t is ast.If:
            st = self.ev(n.test, st)
            return self.meet(self.block(n.body, set(st)), self.block(n.orelse, set(st)))
        if t in (ast.For, ast.AsyncFor):
            st = self.ev(n.iter, st)
            self.brk.append([])
            b = self.target(n.target, set(st))
            b = self.block(n.body, b)
            br = self.brk.pop()
            # a table refreshed entry by entry counts as refreshed
            return self.meet(b, *br) if b is not None else self.meet(st, *br)
        if t is ast.While:
            st = self.ev(n.test, st)
            self.brk.append([])
            self.block(n.body, set(st))
            br = self.brk.pop()
            if isinstance(n.test, ast.Constant) and n.test.value:
                return self.meet(*br) if br else None
            return self.meet(st, *br)
        if t in (ast.Break, ast.Continue):
            if self.brk and t is ast.Break:
                self.brk[-1].append(set(st))
            return None
        if t in (ast.With, ast.AsyncWith):
            for i in n.items:
                st = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            return self.block(n.body, st)
        if t is ast.Try:
            a = self.block(n.body, set(st))
            hs = [self.block(h.body, set(st)) for h in n.handlers]
            a = self.block(n.orelse, a) if a is not None else None
            r = self.meet(a, *hs)
            return self.block(n.finalbody, r if r is not None else set(st)) if n.finalbody else r
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            return self.nested(n, st)
        if t is ast.Delete:
            for x in n.targets:
                if self.is_attr(x):
                    self.write(self.key(x), n, "deleted")
            return st
        if t is ast.Assert:
            return self.ev(n.test, st)
        return st

    def nonempty(self, it):
        return isinstance(it, (ast.List, ast.Tuple)) and bool(it.elts) or isinstance(it, ast.Call) and getattr(it.func, "id", "") == "range" and \
            any(isinstance(a, ast.Constant) and isinstance(a.value, int) and a.value > 0 for a in it.args[:1])

    def nested(self, n, st):
        # a closure runs later: its reads are exposed, its writes may happen
        w = MWalk.__new__(MWalk)
        w.__dict__.update(self.__dict__)
        w.exits, w.brk = [], []
        if not isinstance(n, ast.ClassDef):
            w.block(n.body if isinstance(n.body, list) else [ast.Expr(n.body)], set(st))
        return st

    def arrayish(self, p):
        """a parameter that is subscripted somewhere: an augmented assignment to it works in place"""
        return any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p for n in self.f.own_nodes())

    def target(self, x, st):
        if isinstance(x, (ast.Tuple, ast.List)):
            for e in x.elts:
                st = self.target(e, st)
            return st
        if isinstance(x, ast.Starred):
            return self.target(x.value, st)
        if isinstance(x, ast.Attribute):
            k = self.key(x)
            if k is not None and not (x.attr in VIEWS and self.key(x.value) == k):
                self.write(k, x, "assigned")
                return st | {k}
            k, b = self.base_key(x.value)
            if k is not None:
                self.write(k, x, "attribute set on")
                return st | {k}
            return self.ev(x.value, st)
        if isinstance(x, ast.Subscript):
            st = self.ev(x.slice, st)
            k, b = self.base_key(x.value)
            if k is not None:
                whole = b is x.value and (isinstance(x.slice, ast.Slice) and x.slice.lower is None and x.slice.upper is None or
                                          isinstance(x.slice, ast.Constant) and x.slice.value is Ellipsis)
                self.write(k, x, "filled" if whole else "stored into")
                return st | {k}
            if isinstance(b, ast.Name) and b.id in self.alias:
                for a in self.alias[b.id]:
                    self.write(a, x, "stored into")
                return st | self.alias[b.id]
            return st
        return st

    def ev(self, n, st):
        if n is None or st is None:
            return st
        if isinstance(n, ast.Call):
            return self.call(n, st)
        if isinstance(n, ast.Attribute):
            m = self.meth(n)
            if m is not None:
                if "property" in m[1].decs or "cached_property" in m[1].decs:
                    return self.inline(m[1], n, st, m[0], m[2])
                return st
            if n.attr in STRUCT and self.key(n.value) is not None and self.key_t(n.value)[1] is None:
                return st
            k = self.key(n)
            if k is not None:
                self.read(k, n, st)
                return st
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) \
                and (self.key(n.left) or "").startswith("@"):
            return st
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            k = self.views.get(n.id) or self.key(n)
            if k is not None:
                self.read(k, n, st)
            return st
        if isinstance(n, ast.Lambda):
            self.ev(n.body, set(st))
            return st
        if isinstance(n, (ast.BoolOp,)):
            st = self.ev(n.values[0], st)
            for v in n.values[1:]:
                self.ev(v, set(st))
            return st
        if isinstance(n, ast.IfExp):
            st = self.ev(n.test, st)
            return self.meet(self.ev(n.body, set(st)), self.ev(n.orelse, set(st)))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                st = self.ev(g.iter, st)
            s2 = set(st)
            for g in n.generators:
                for c in g.ifs:
                    s2 = self.ev(c, s2)
            for e in ([n.elt] if not isinstance(n, ast.DictComp) else [n.key, n.value]):
                self.ev(e, s2)
            return st
        if isinstance(n, ast.NamedExpr):
            return self.ev(n.value, st)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                st = self.ev(c, st)
        return st

    def inline(self, g, node, st, K=None, prefix=""):
        s = self.S.summary(self.K if K is None else K, g)
        for a, (ln, via) in s.ue.items():
            if a[0] != "@" and prefix + a not in st:
                self.ue.setdefault(prefix + a, (node.lineno, (g.qual,) + via))
        for a, (ln, how, via) in s.may.items():
            if a[0] != "@":
                self.may.setdefault(prefix + a, (node.lineno, how, (g.qual,) + via))
        return st | {prefix + a for a in s.must if a[0] != "@"}

    def bind(self, g, call, drop):
        ps = [p for p in g.params]
        if drop and ps:
            ps = ps[1:]
        out = {}
        a = g.node.args
        npos = len(a.posonlyargs + a.args) - (1 if drop else 0)
        for i, x in enumerate(call.args):
            if isinstance(x, ast.Starred):
                return {}
            if i < npos:
                out[ps[i]] = x
        for k in call.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out

    def callees(self, n):
        """[(class or None, function, drop first, prefix or None)]; exact flag"""
        f = n.func
        if isinstance(f, ast.Attribute):
            m = self.meth(f)
            if m is not None:
                return [(m[0], m[1], not m[1].static, m[2])], True
            if isinstance(f.value, ast.Call) and getattr(f.value.func, "id", "") == "super" and self.f.cls is not None and self.K is not None:
                m = self.S.P.find_method(self.K, f.attr, after=self.f.cls)
                g = self.S.by_node.get(id(m[1])) if m else None
                return ([(self.K, g, not g.static, "")], True) if g is not None else ([], False)
        r = self.S.P.resolve_expr(self.f.module, f) if isinstance(f, (ast.Name, ast.Attribute)) and not (isinstance(f, ast.Name) and (f.id in self.f.params or f.id in self.f.stores())) else None
        if r is not None:
            if r[0] == "func":
                g = self.S.by_node.get(id(r[2]))
                return ([(None, g, False, None)], True) if g is not None else ([], False)
            if r[0] == "method":
                g = self.S.by_node.get(id(r[2]))
                if g is not None and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.me and not g.static:
                    return [(self.K, g, False, "")], True
                return ([(r[1], g, "classmethod" in g.decs, None)], True) if g is not None else ([], False)
            return [], False
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if isinstance(root, ast.Name) and self.S.P.lookup(self.f.module, root.id) is None and root.id not in self.f.module.__dict__.get("imports", {}):
                c = self.S.candidates(f.attr)
                if 0 < len(c) <= 24:
                    return [(k, g, not g.static, None) for k, g in c], False
        return [], False

    def call(self, n, st):
        f = n.func
        cs, exact = self.callees(n)
        sums = []
        for K, g, drop, prefix in cs:
            s = self.S.summary(K, g)
            if not s.busy and not s.raises:
                sums.append((s, self.bind(g, n, drop)))
        if isinstance(f, ast.Attribute) and not (cs and exact):
            if f.attr in REFRESH and self.key(f.value) is not None:
                pass
            elif self.meth(f) is None:
                st = self.ev(f.value, st)
        elif isinstance(f, ast.Name) and self.key(f) is None:
            pass
        outs = []
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        last_out = name.endswith("_inplace") and name not in REFRESH and n.args
        args = [(i, a.value if isinstance(a, ast.Starred) else a) for i, a in enumerate(n.args)] + [(k.arg, k.value) for k in n.keywords]
        for i, a in args:
            h = self.meth(a) if isinstance(a, ast.Attribute) else None
            if h is not None and "property" not in h[1].decs and "cached_property" not in h[1].decs:
                # a bound method handed over runs zero or more times
                self.inline(h[1], n, set(st), h[0], h[2])
                continue
            bk = self.base_key(a)[0]
            if bk is None and isinstance(a, ast.Name) and a.id in self.alias and len(self.alias[a.id]) == 1:
                bk = next(iter(self.alias[a.id]))
            if bk is not None and (i == "out" and not any("@out" in s.ue for s, b in sums if "@out" in s.may) or last_out and i == len(n.args) - 1):
                outs.append((bk, "written by %s" % name))
                continue
            if bk is not None and sums:
                roles = [(next((p for p, x in b.items() if x is a), None), s) for s, b in sums]
                if all(p is not None for p, s in roles):
                    wr = [("@" + p) in s.may for p, s in roles]
                    rd = [("@" + p) in s.ue for p, s in roles]
                    if all(wr) or exact and any(wr) or (any(wr) and i == "out"):
                        if any(rd):
                            self.read(bk, n, st)
                        outs.append((bk, "written by %s" % name))
                        if isinstance(a, ast.Subscript):
                            st = self.ev(a.slice, st)
                        continue
                    if exact and not any(rd):
                        continue
            st = self.ev(a, st)
        for k, how in outs:
            self.write(k, n, how)
            st = st | {k}
        if exact and cs and cs[0][3] is not None:
            s = self.S.summary(cs[0][0], cs[0][1])
            b = self.bind(cs[0][1], n, cs[0][2])
            for p, k in s.defaults.items():
                v = b.get(p)
                if v is None or isinstance(v, ast.Constant) and v.value is None:
                    k = cs[0][3] + k
                    if "@" + p in s.ue:
                        self.read(k, n, st)
                    if "@" + p in s.may:
                        self.write(k, n, "written by %s" % name, (cs[0][1].qual,))
                        st = st | {k}
        if exact and cs and cs[0][3] is not None and not cs[0][1].static:
            return self.inline(cs[0][1], n, st, cs[0][0], cs[0][3])
        if isinstance(f, ast.Attribute) and f.attr in INPLACE and not (cs and exact):
            k, b = self.base_key(f.value)
            if k is not None:
                self.write(k, n, "%s()" % f.attr)
                if b is f.value and f.attr in REFRESH:
                    return st | {k}
        return st
