"""Alias and effect analysis: which objects each function may modify in place, and what its result aliases.

Abstract value = frozenset of origins (root, path).  Roots: ("P", name) an argument of the analysed function,
("S",) its instance, ("G", module, name) a module-level object, ("C", class, name) a class-level object,
("D", function, name) the default object of a parameter.  Path: attribute names and "[]" for an element.  Values created
by the function have no origin.  Flow sensitive inside a function (strong updates, branch join, loops to a fixed point),
summaries across calls that resolve statically, unresolved calls assumed to have no effect.
"""
import ast
from .project import decorators
from .scopes import Fn, functions

MUT_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse",
               "add", "discard", "fill", "itemset", "resize", "partition", "appendleft", "popleft", "__setitem__", "__delitem__",
               "sort_indices", "sum_duplicates", "eliminate_zeros", "setdiag", "put", "intersection_update", "difference_update"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "values", "loc", "iloc", "at", "iat", "mT", "array"}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "to_numpy", "diagonal", "__getitem__"}
ELEM_METHODS = {"get", "setdefault", "__getitem__"}
VIEW_FUNCS = {"asarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "asanyarray", "ascontiguousarray",
              "asfortranarray", "transpose", "swapaxes", "moveaxis", "expand_dims", "diagonal", "asarray_chkfinite", "rollaxis", "real", "imag"}
MUT_FUNCS = {"fill_diagonal": (0,), "copyto": (0,), "put": (0,), "place": (0,), "putmask": (0,), "put_along_axis": (0,), "setattr": (0,),
             "shuffle": (0,)}
OVERWRITE_KW = {"overwrite_a": 0, "overwrite_b": 1, "overwrite_x": 0, "overwrite_ab": 0, "overwrite_c": 0, "overwrite_input": 0}
FRESH = frozenset()
MAXPATH = 3


def const(n):
    if isinstance(n, ast.UnaryOp) or not isinstance(n, ast.Constant):
        return None
    return n.value


def ext(o, label):
    root, path = o
    if root[0] == "F":
        return None
    return None if len(path) >= MAXPATH else (root, path + (label,))


def extend(v, label):
    return frozenset(x for x in (ext(o, label) for o in v) if x)


class Summary:
    def __init__(self):
        self.mut = {}       # origin -> (line node, description, chain of callee names)
        self.ret = set()
        self.ret_elems = None   # index -> origins, when a container built here is returned
        self.attr_elems = {}    # attribute -> origins of the elements of a container built here
        self.attrs = {}     # attribute -> set of origins assigned to self.<attr> (fresh = empty)
        self.reassigned = set()
        self.calls = 0
        self.sites = 0
        self.returns_value = False


class Env(dict):
    def copy(self):
        return Env(self)

    def join(self, o):
        if o is None:
            return self
        for k, v in o.items():
            self[k] = self.get(k, FRESH) | v if k in self else v
        return self


def mutable_literal(d):
    if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(d, ast.Call):
        f = d.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        return name in ("dict", "list", "set", "array", "zeros", "ones", "empty", "eye", "defaultdict", "OrderedDict", "Counter", "DataFrame",
                        "full", "arange", "bytearray", "deque")
    return False


class Analyzer:
    def __init__(self, project):
        self.P = project
        self.memo = {}
        self.active = set()
        self.fns = {}
        for f in functions(project):
            self.fns[id(f.node)] = f
        self.method_names = {}
        for c in project.all_classes():
            for m in c.methods:
                self.method_names.setdefault(m, []).append(c)

    # ------------------------------------------------------------------ summaries
    def summary(self, fn, K=None):
        key = (id(fn.node), id(K))
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return Summary()
        self.active.add(key)
        s = Walk(self, fn, K).run()
        self.active.discard(key)
        self.memo[key] = s
        return s

    def instance_attrs(self, K):
        """attributes some constructor of the hierarchy assigns on the instance"""
        key = ("inst", id(K))
        if key not in self.memo:
            out = set()
            for k in self.P.mro(K):
                for m in ("__init__", "__new__", "__post_init__"):
                    if m in k.methods:
                        for n in ast.walk(k.methods[m]):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                                out.add(n.attr)
            self.memo[key] = out
        return self.memo[key]

    def attr_elems(self, K):
        """attribute -> set of (method, origin) for the elements of containers that methods of K build"""
        self.attr_origins(K)
        return self.memo[("elems", id(K))]

    def attr_origins(self, K):
        """attribute -> set of (method, origin) that some method of K leaves in it"""
        key = ("attrs", id(K))
        if key in self.memo:
            return self.memo[key]
        out, els = {}, {}
        seen = set()
        for k in self.P.mro(K):
            for name, node in k.methods.items():
                if name in seen and name != "__init__":
                    continue
                seen.add(name)
                f = self.fns.get(id(node))
                if f is None or not f.selfname:
                    continue
                for a, os_ in self.summary(f, K).attrs.items():
                    for o in os_:
                        out.setdefault(a, set()).add((name, o))
                for a, os_ in self.summary(f, K).attr_elems.items():
                    for o in os_:
                        els.setdefault(a, set()).add((name, o))
        self.memo[key] = out
        self.memo[("elems", id(K))] = els
        return out


class Walk:
    def __init__(self, an, fn, K, env=None):
        self.an, self.P, self.fn, self.K, self.m = an, an.P, fn, K, fn.module
        self.s = Summary()
        self.env = env if env is not None else Env()
        self.selfname = fn.selfname if "classmethod" not in fn.decs else None
        self.clsname = fn.selfname if "classmethod" in fn.decs else None
        self.keyvars = set()
        self.globals = set()
        self.types = {}
        self.locals = set()
        self.depth = 0
        self.heap = {}
        self.strong = set()     # (container, key) whose last store is known

    def run(self):
        a = self.fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            if n == self.selfname:
                self.env[n] = frozenset([(("S",), ())])
            elif n != self.clsname:
                self.env[n] = frozenset([(("P", n), ())])
        for x in (a.vararg, a.kwarg):
            if x:
                self.env[x.arg] = self.box(x, {"*": frozenset([(("P", x.arg), ("[]",))])})
        self.locals = set(names) | self.fn.stores() | {x.arg for x in (a.vararg, a.kwarg) if x}
        for n in self.fn.own_nodes():
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        self.locals -= self.globals
        self.evidence = arrays(self.fn)
        if isinstance(self.fn.node, ast.Lambda):
            self.s.ret |= self.ev(self.fn.node.body)
        else:
            self.block(self.fn.node.body)
        self.flush()
        for o in list(self.s.mut):
            if o[0][0] == "F":
                del self.s.mut[o]
        for o in list(self.s.ret):
            if o[0][0] == "F":
                self.s.ret.discard(o)
                if self.s.ret_elems is None:
                    self.s.ret_elems = {}
                for i, v in self.heap.get(o[0][1], {}).items():
                    self.s.ret_elems.setdefault(i, set()).update(x for x in v if x[0][0] != "F")
        return self.s

    # ------------------------------------------------------------------ containers built in this function
    def box(self, node, items):
        h = self.heap.setdefault(id(node), {})
        for i, v in items.items():
            h[i] = h.get(i, FRESH) | v
            if i != "*":
                self.strong.add((id(node), i))
        return frozenset([(("F", id(node)), ())])

    def elem(self, v, idx=None):
        out = set()
        for o in v:
            if o[0][0] == "F":
                if not o[1]:
                    h = self.heap.get(o[0][1], {})
                    if idx is not None and (o[0][1], idx) in self.strong:
                        out |= h.get(idx, FRESH)
                        continue
                    for i, x in h.items():
                        if idx is None or i == "*" or i == idx or type(i) is not type(idx):
                            out |= x
            else:
                e = ext(o, "[]")
                if e:
                    out.add(e)
        return frozenset(out)

    def put(self, v, idx, x):
        for o in v:
            if o[0][0] == "F" and not o[1]:
                h = self.heap.setdefault(o[0][1], {})
                k = "*" if idx is None else idx
                if idx is None:
                    self.strong = {c for c in self.strong if c[0] != o[0][1]}
                elif len(v) == 1:
                    self.strong.add((o[0][1], k))
                    h[k] = x
                    continue
                h[k] = h.get(k, FRESH) | x

    # ------------------------------------------------------------------ effects
    def mutate(self, v, node, what, chain=()):
        for o in v:
            self.s.mut.setdefault(o, (node, what, chain))

    # ------------------------------------------------------------------ statements
    def block(self, body):
        """False when control cannot fall through"""
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def stmt(self, st):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value)
            for tg in st.targets:
                self.assign(tg, v, st.value)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif t is ast.AugAssign:
            self.aug(st)
        elif t is ast.Expr:
            self.ev(st.value)
        elif t is ast.Return:
            if st.value is not None:
                self.s.returns_value = self.s.returns_value or not (isinstance(st.value, ast.Constant) and st.value.value is None)
                self.s.ret |= self.ev(st.value)
            self.flush()
            return False
        elif t is ast.Raise:
            if st.exc is not None:
                self.ev(st.exc)
            return False
        elif t is ast.If:
            self.ev(st.test)
            e0 = self.env
            self.env = e0.copy()
            a = self.block(st.body)
            ea = self.env
            self.env = e0.copy()
            b = self.block(st.orelse)
            if a and b:
                self.env = ea.join(self.env)
            elif a:
                self.env = ea
            return a or b
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(st.iter)
            self.sites_iter(st.target, st.iter, it)
            self.loop(st.body)
            self.block(st.orelse)
        elif t is ast.While:
            self.ev(st.test)
            self.loop(st.body)
            self.ev(st.test)
            self.block(st.orelse)
        elif t in (ast.With, ast.AsyncWith):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            return self.block(st.body)
        elif t is ast.Try or t.__name__ == "TryStar":
            e0 = self.env.copy()
            ok = self.block(st.body)
            if ok:
                ok = self.block(st.orelse)
            e1 = self.env
            for h in st.handlers:
                self.env = e0.copy().join(e1)
                if self.block(h.body):
                    e1 = e1.join(self.env) if ok else self.env
                    ok = True
            self.env = e1
            if st.finalbody:
                self.block(st.finalbody)
            return ok
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Subscript):
                    self.mutate(self.ev(tg.value), st, "deletes an element of")
                elif isinstance(tg, ast.Name):
                    self.env[tg.id] = FRESH
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.env[st.name] = FRESH
            self.nested(st)
        elif t in (ast.Break, ast.Continue):
            return False
        elif t is ast.Assert:
            self.ev(st.test)
        elif t is ast.Match:
            self.ev(st.subject)
            e0 = self.env
            out = e0.copy()
            for c in st.cases:
                self.env = e0.copy()
                if self.block(c.body):
                    out.join(self.env)
            self.env = out
        return True

    def flush(self):
        for k, v in self.env.items():
            if isinstance(k, tuple) and k[0] == "self":
                self.s.attrs.setdefault(k[1], set()).update(o for o in v if o[0][0] != "F")
                el = {o for o in self.elem(frozenset(o for o in v if o[0][0] == "F")) if o[0][0] != "F"}
                if el:
                    self.s.attr_elems.setdefault(k[1], set()).update(el)

    def loop(self, body):
        e0 = self.env.copy()
        for _ in range(2):
            self.block(body)
            self.env = self.env.join(e0)
            e0 = self.env.copy()

    def nested(self, node):
        f = self.an.fns.get(id(node))
        if f is None or self.depth > 2:
            return
        w = Walk(self.an, f, self.K, self.env.copy())
        w.depth = self.depth + 1
        w.selfname, w.clsname = None, None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            w.env[x.arg] = FRESH
        w.locals = self.locals | f.stores() | set(f.params)
        w.evidence = arrays(f) | self.evidence
        w.selfname = self.selfname
        w.types = dict(self.types)
        w.block(node.body)
        for o, wit in w.s.mut.items():
            self.s.mut.setdefault(o, wit)

    def sites_iter(self, target, it, v):
        """bind a loop target; integer indices and dictionary keys are usable as view indices"""
        name = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else ""
        attr = it.func.attr if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) else ""

        def key(t):
            if isinstance(t, ast.Name):
                self.keyvars.add(t.id)
                self.env[t.id] = FRESH
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    key(e)
        if name == "range":
            return key(target)
        if name == "enumerate" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 and it.args:
            key(target.elts[0])
            return self.sites_iter(target.elts[1], it.args[0], self.ev(it.args[0]))
        if name == "zip" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(it.args):
            for t, a in zip(target.elts, it.args):
                self.sites_iter(t, a, self.ev(a))
            return
        if attr == "items" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
            key(target.elts[0])
            return self.assign(target.elts[1], self.elem(self.ev(it.func.value)), None)
        if attr == "keys":
            return key(target)
        if attr == "values":
            return self.assign(target, self.elem(self.ev(it.func.value)), None)
        el = self.elem(v)
        self.assign(target, el, None)
        if isinstance(target, ast.Name) and not isinstance(it, ast.Call):
            self.keyvars.add(target.id)

    def assign(self, t, v, valnode):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                return
            self.env[t.id] = v
            self.keyvars.discard(t.id)
            c = self.instance(valnode)
            if c is not None:
                self.types[t.id] = c
            else:
                self.types.pop(t.id, None)
            if isinstance(valnode, ast.Call) and isinstance(valnode.func, ast.Name) and valnode.func.id in ("slice", "int", "len"):
                self.keyvars.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = valnode.elts if isinstance(valnode, (ast.Tuple, ast.List)) and len(valnode.elts) == len(t.elts) and \
                not any(isinstance(e, ast.Starred) for e in valnode.elts) else None
            if vals is not None:
                vs = [self.ev(e) for e in vals]
                for e, x, vn in zip(t.elts, vs, vals):
                    self.assign(e, x, vn)
            else:
                star = any(isinstance(e, ast.Starred) for e in t.elts)
                for i, e in enumerate(t.elts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.elem(v, None if star else i), None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname and self.selfname is not None:
                self.env[("self", t.attr)] = v
                self.s.attrs.setdefault(t.attr, set())
                self.s.reassigned.add(t.attr)
                self.store_attr(base, t)
            else:
                self.store_attr(base, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.put(b, const(t.slice), v)
            self.mutate(b, t, "stores into")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.elem(v), None)

    def store_attr(self, base, t):
        """x.attr = v : recorded as a modification of x"""
        for o in base:
            self.s.mut.setdefault((o[0], o[1] + ("." + t.attr,)), (t, "assigns attribute %s of" % t.attr, ()))

    def aug(self, st):
        v = self.ev(st.value)
        t = st.target
        if isinstance(t, ast.Name):
            if t.id in self.env and t.id in self.evidence:
                self.mutate(self.env[t.id], st, "augmented assignment to")
            elif t.id in self.env and t.id not in self.evidence:
                self.env[t.id] = FRESH
        elif isinstance(t, ast.Attribute):
            cur = self.ev(t)
            base = self.ev(t.value)
            if t.attr in self.evidence:
                self.mutate(cur, st, "augmented assignment to")
            if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
                self.s.reassigned.add(t.attr)
            self.store_attr(base, t)
        elif isinstance(t, ast.Subscript):
            self.mutate(self.ev(t.value), st, "augmented store into")
            self.ev(t.slice)

    # ------------------------------------------------------------------ expressions
    def instance(self, n):
        if isinstance(n, ast.Call):
            r = self.P.resolve_expr(self.m, n.func) if not (isinstance(n.func, ast.Name) and n.func.id in self.locals) else None
            if r and r[0] == "class":
                return r[1]
        return None

    def is_view_index(self, s):
        """'view', 'elem' or None (copy or unknown)"""
        if isinstance(s, ast.Slice):
            return "view"
        if isinstance(s, ast.Constant):
            return "view" if s.value is None or s.value is Ellipsis else "elem"
        if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
            return "elem"
        if isinstance(s, ast.Tuple):
            ks = [self.is_view_index(e) for e in s.elts]
            return None if None in ks else "view"
        if isinstance(s, ast.Name) and s.id in self.keyvars:
            return "elem"
        if isinstance(s, ast.BinOp):
            l, r = self.is_view_index(s.left), self.is_view_index(s.right)
            return "elem" if l == "elem" and r == "elem" else None
        return None

    def ev(self, n):
        t = type(n)
        if t is ast.Name:
            if n.id in self.env:
                return self.env[n.id]
            if n.id in self.locals:
                return FRESH
            return self.global_name(n.id)
        if t is ast.Constant:
            return FRESH
        if t is ast.Attribute:
            if isinstance(n.value, ast.Name) and n.value.id == self.selfname and self.selfname is not None:
                k = ("self", n.attr)
                if k in self.env:
                    return self.env[k]
                if n.attr in VIEW_ATTRS and not (self.K and self.P.may_have_attr(self.K, n.attr)):
                    return self.env.get(n.value.id, FRESH)
                c = self.class_level(n.attr)
                v = extend(self.env.get(n.value.id, FRESH), n.attr)
                return v | c if c else v
            if isinstance(n.value, ast.Name) and n.value.id == self.clsname and self.clsname is not None:
                return self.class_level(n.attr) or FRESH
            if not (self.root(n) in self.env or self.root(n) in self.locals):
                r = self.P.resolve_expr(self.m, n.value)
                if r and r[0] == "class":
                    a = self.P.find_class_attr(r[1], n.attr)
                    if a:
                        return frozenset([(("C", a[0].qual, n.attr), ())])
                if r and r[0] == "pkgmod":
                    return self.module_obj(r[1], n.attr)
            v = self.ev(n.value)
            if n.attr in VIEW_ATTRS:
                return v
            return extend(v, n.attr)
        if t is ast.Subscript:
            b = self.ev(n.value)
            self.ev(n.slice)
            k = self.is_view_index(n.slice)
            return b if k == "view" else self.elem(b, const(n.slice)) if k == "elem" else \
                self.elem(frozenset(o for o in b if o[0][0] == "F"))
        if t is ast.Slice:
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    self.ev(x)
            return FRESH
        if t is ast.Call:
            return self.call(n)
        if t is ast.IfExp:
            self.ev(n.test)
            return self.ev(n.body) | self.ev(n.orelse)
        if t is ast.BoolOp:
            v = FRESH
            for x in n.values:
                v = v | self.ev(x)
            return v
        if t is ast.NamedExpr:
            v = self.ev(n.value)
            self.assign(n.target, v, n.value)
            return v
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e0 = self.env.copy()
            for g in n.generators:
                v = self.ev(g.iter)
                self.sites_iter(g.target, g.iter, v)
                for c in g.ifs:
                    self.ev(c)
            if t is ast.DictComp:
                self.ev(n.key)
            v = self.ev(n.value if t is ast.DictComp else n.elt)
            self.env = e0
            return self.box(n, {"*": v})
        if t is ast.Lambda:
            return FRESH
        if t in (ast.Tuple, ast.List):
            it = {}
            for i, x in enumerate(n.elts):
                if isinstance(x, ast.Starred):
                    it["*"] = it.get("*", FRESH) | self.elem(self.ev(x.value))
                else:
                    it[i] = self.ev(x)
            if "*" in it:
                it = {"*": frozenset().union(*it.values())}
            return self.box(n, it)
        if t is ast.Dict:
            it = {}
            for k, x in zip(n.keys, n.values):
                v = self.ev(x)
                if k is None:
                    it["*"] = it.get("*", FRESH) | self.elem(v)
                    continue
                self.ev(k)
                kk = k.value if isinstance(k, ast.Constant) else "*"
                it[kk] = it.get(kk, FRESH) | v
            return self.box(n, it)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def root(self, n):
        while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
            n = n.func if isinstance(n, ast.Call) else n.value
        return n.id if isinstance(n, ast.Name) else None

    def global_name(self, name):
        r = self.P.lookup(self.m, name)
        if r and r[0] == "assign":
            return self.module_obj(r[1], r[2])
        return FRESH

    def module_obj(self, m, name):
        vals = m.assigns.get(name)
        if vals:
            return frozenset([(("G", m.name, name), ())])
        return FRESH

    def class_level(self, attr):
        if self.K is None:
            return None
        if attr in self.an.instance_attrs(self.K):
            return None
        a = self.P.find_class_attr(self.K, attr)
        if a and not isinstance(a[1], ast.Constant):
            return frozenset([(("C", a[0].qual, attr), ())])
        return None

    def target(self, n):
        """(Fn, K, instance value or None, drop first) for a call that resolves statically"""
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in self.env or f.id in self.locals:
                return None
            r = self.P.lookup(self.m, f.id)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == self.selfname and self.K is not None:
                r = self.P.find_method(self.K, f.attr)
                if r:
                    fn = self.an.fns.get(id(r[1]))
                    return (fn, self.K, self.env.get(f.value.id, FRESH), not fn.static) if fn else None
                return None
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.K is not None and self.fn.cls:
                r = self.P.find_method(self.K, f.attr, after=self.fn.cls)
                fn = self.an.fns.get(id(r[1])) if r else None
                return (fn, self.K, self.env.get(self.selfname, FRESH), not fn.static) if fn else None
            if isinstance(f.value, ast.Name) and f.value.id in self.types:
                c = self.types[f.value.id]
                r = self.P.find_method(c, f.attr)
                fn = self.an.fns.get(id(r[1])) if r else None
                return (fn, c, self.env.get(f.value.id, FRESH), not fn.static) if fn else None
            if self.root(f) in self.env or self.root(f) in self.locals:
                return None
            r = self.P.resolve_expr(self.m, f)
        else:
            return None
        return self.entity(r)

    def entity(self, r):
        if r is None:
            return None
        if r[0] == "func":
            fn = self.an.fns.get(id(r[2]))
            return (fn, None, None, False) if fn else None
        if r[0] == "class":
            i = self.P.find_method(r[1], "__init__")
            fn = self.an.fns.get(id(i[1])) if i else None
            return (fn, r[1], FRESH, True) if fn else None
        if r[0] == "method":
            fn = self.an.fns.get(id(r[2]))
            if fn is None:
                return None
            if fn.static:
                return (fn, r[1], None, False)
            if "classmethod" in fn.decs:
                return (fn, r[1], None, True)
            # Class.method(obj, ...): instance is the first argument
            return (fn, r[1], "first", False)
        return None

    def call(self, n):
        f = n.func
        self.s.calls += 1
        args = []
        for a in n.args:
            args.append(self.ev(a.value if isinstance(a, ast.Starred) else a))
        kws = {k.arg: self.ev(k.value) for k in n.keywords if k.arg}
        for k in n.keywords:
            if k.arg is None:
                self.ev(k.value)
        if any(isinstance(a, ast.Lambda) for a in n.args):
            pass
        if kws.get("out"):
            self.mutate(kws["out"], n, "writes its result into")
        for k in n.keywords:
            if k.arg in OVERWRITE_KW and isinstance(k.value, ast.Constant) and k.value.value is True and OVERWRITE_KW[k.arg] < len(args):
                self.mutate(args[OVERWRITE_KW[k.arg]], n, "lets a library routine overwrite")
            if k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True and isinstance(f, ast.Attribute):
                self.mutate(self.ev(f.value), n, "inplace=True on")
        tg = self.target(n)
        if tg is not None:
            return self.apply(n, tg, args, kws)
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        recv = None
        if isinstance(f, ast.Attribute):
            lib = self.library(f)
            if lib is None:
                recv = self.ev(f.value)
            if lib is not None:
                if name in MUT_FUNCS:
                    for i in MUT_FUNCS[name]:
                        if i < len(args):
                            self.mutate(args[i], n, "%s() modifies" % name)
                if name == "at" and args:
                    self.mutate(args[0], n, "ufunc.at modifies")
                if name in VIEW_FUNCS and args:
                    return args[0]
                if name == "array" and args and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords):
                    return args[0]
                return FRESH
            if name == "shuffle" and args:
                self.mutate(args[0], n, "shuffle() modifies")
            if name in ("append", "add", "insert", "appendleft") and args:
                self.put(recv, None, args[-1])
            if name in ("extend", "update") and args:
                self.put(recv, None, self.elem(args[0]))
            if name in MUT_METHODS and self.container(recv, f.value, name) and not (name == "update" and not (args or n.keywords)) and \
                    not (name == "update" and n.args and isinstance(n.args[0], (ast.Constant, ast.BinOp))):
                self.mutate(recv, n, ".%s() modifies" % name)
            if name in VIEW_METHODS:
                return recv
            if name == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords):
                return recv
            if name in ELEM_METHODS:
                return self.elem(recv, const(n.args[0]) if n.args else None) | (args[1] if len(args) > 1 else FRESH)
            if name in ("pop", "popleft", "popitem"):
                return self.elem(recv)
            if name == "copy" and any(o[0][0] == "F" for o in recv):
                return self.box(n, {"*": self.elem(frozenset(o for o in recv if o[0][0] == "F"))})
            return FRESH
        if isinstance(f, ast.Name):
            if name == "setattr" and args:
                self.mutate(args[0], n, "setattr on")
            if name in VIEW_FUNCS and name not in self.locals and self.library(f) and args:
                return args[0]
            if name in ("iter", "reversed", "enumerate") and args:
                return args[0]
            if name in ("list", "tuple", "dict", "sorted", "set") and name not in self.locals:
                it = {"*": self.elem(args[0])} if args else {}
                it.update(kws)
                return self.box(n, it)
        elif not isinstance(f, ast.Attribute):
            self.ev(f)
        return FRESH

    def library(self, f):
        if self.root(f) in self.env or self.root(f) in self.locals:
            return None
        r = self.P.resolve_expr(self.m, f)
        return r[1] if r and r[0] == "ext" else None

    def container(self, v, node, name):
        """is the receiver plausibly a builtin or library container (not an object of the project with such a method)"""
        if name not in self.an.method_names:
            return True
        return isinstance(node, ast.Name) and node.id in containers(self.fn) or isinstance(node, ast.Attribute) and node.attr in containers(self.fn)

    def apply(self, n, tg, args, kws):
        fn, K, inst, drop = tg
        s = self.an.summary(fn, K)
        if {"lru_cache", "cache"} & set(fn.decs):
            return frozenset([(("G", fn.module.name, fn.qual + "() [cached result]"), ())])
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bind = {}
        sn = fn.selfname if "classmethod" not in fn.decs else None
        if any(isinstance(x, ast.Starred) for x in n.args):
            args = []
            npos = 0
        if inst == "first":
            if args and sn:
                inst, args = args[0], args[1:]
            drop = True
        if drop and pos:
            pos = pos[1:]
        for p, v in zip(pos, args):
            bind[p] = v
        if a.vararg and len(args) > len(pos):
            bind[a.vararg.arg] = self.box(a.vararg, {"*": frozenset().union(*args[len(pos):])})
        known = set(pos) | {x.arg for x in a.kwonlyargs}
        bind.update({k: v for k, v in kws.items() if k in known})
        if a.kwarg and set(kws) - known:
            bind[a.kwarg.arg] = self.box(a.kwarg, {"*": frozenset().union(*[v for k, v in kws.items() if k not in known])})
        inst = inst or FRESH

        def mapped(o):
            root, path = o
            if root[0] == "P":
                base = bind.get(root[1], FRESH)
            elif root[0] == "S":
                base = inst
            else:
                return frozenset([o])
            out = base
            for lab in path:
                if lab.startswith("."):
                    out = frozenset((r, p + (lab,)) for r, p in out)
                elif lab == "[]":
                    out = self.elem(out)
                else:
                    out = self.through(out, lab)
            return out
        where = fn.qual
        for o, (node, what, chain) in s.mut.items():
            if o[0][0] == "S" and inst is FRESH:
                continue
            for x in mapped(o):
                if x[1] and x[1][-1].startswith(".") and x[0] == ("S",) and len(x[1]) == 1:
                    continue          # an attribute assignment on self, handled through attrs
                self.s.mut.setdefault(x, (n, what, (where,) + chain))
        if inst and any(o == (("S",), ()) for o in inst):
            for at, os_ in s.attrs.items():
                v = set()
                for o in os_:
                    v |= mapped(o)
                if at in s.reassigned or at in s.attrs:
                    if at in s.attr_elems:
                        v |= self.box(fn.node, {"*": frozenset().union(*[mapped(o) for o in s.attr_elems[at]])})
                    self.env[("self", at)] = frozenset(v)
                    self.s.attrs.setdefault(at, set())
            self.s.reassigned |= s.reassigned
        out = set()
        for o in s.ret:
            out |= mapped(o)
        if s.ret_elems is not None:
            out |= self.box(n, {i: frozenset().union(*[mapped(o) for o in os_]) for i, os_ in s.ret_elems.items()})
        return frozenset(out)

    def through(self, v, lab):
        out = set()
        for o in v:
            if o == (("S",), ()) and ("self", lab) in self.env:
                out |= self.env[("self", lab)]
            else:
                e = ext(o, lab)
                if e:
                    out.add(e)
        return frozenset(out)


ARRAY_ATTRS = {"shape", "T", "dot", "size", "ndim", "reshape", "copy", "sum", "mean", "astype", "flatten", "iloc", "loc", "columns", "values",
               "append", "extend", "ravel", "min", "max", "std", "var", "diagonal", "conj"}


def arrays(fn):
    """names and attributes with evidence in this function that they hold an array or container"""
    if hasattr(fn, "_arr"):
        return fn._arr
    s = set()
    for n in fn.own_nodes():
        if isinstance(n, ast.Subscript):
            b = n.value
        elif isinstance(n, ast.Attribute) and n.attr in ARRAY_ATTRS:
            b = n.value
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            for b in (n.left, n.right):
                if isinstance(b, ast.Name):
                    s.add(b.id)
            continue
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (VIEW_FUNCS | {"dot", "inv", "cholesky", "zeros_like", "array"}) and n.args:
            b = n.args[0]
        else:
            continue
        if isinstance(b, ast.Name):
            s.add(b.id)
        elif isinstance(b, ast.Attribute):
            s.add(b.attr)
    fn._arr = s
    return s


def containers(fn):
    if hasattr(fn, "_cont"):
        return fn._cont
    s = set()
    a = fn.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(reversed(pos), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
        if mutable_literal(d):
            s.add(x.arg)
    for n in fn.own_nodes():
        if isinstance(n, ast.Subscript):
            b = n.value
            s.add(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "")
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if k is None and isinstance(v, ast.Name):
                    s.add(v.id)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None and isinstance(k.value, ast.Name):
                    s.add(k.value.id)
        if isinstance(n, ast.Assign) and (mutable_literal(n.value) or isinstance(n.value, ast.IfExp) and (mutable_literal(n.value.body) or mutable_literal(n.value.orelse))):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    s.add(t.id)
                if isinstance(t, ast.Attribute):
                    s.add(t.attr)
    if a.kwarg:
        s.add(a.kwarg.arg)
    fn._cont = s
    return s
