"""Generator provenance: where every random draw made on behalf of a call comes from.

For one entry point and one of its generator-like parameters p, assumed supplied (the others not), the body is walked with
an abstract environment mapping variables to sets of tags:
  p       derived from the supplied argument        fresh   an unseeded generator made on the way
  const   a generator seeded with a literal         global  numpy's / Python's process-wide state or a module-level generator
Calls that resolve inside the project are analysed with the tags of their arguments (context-sensitive, memoised), objects carry
the tags of their attributes.  Values of unknown origin carry no tag and are never reported.
"""
import ast
import re

GENPARAM = re.compile(r"^_?(rng|seed|random_state|random_seed|generator|prng|rs|rstate|np_rng|bit_generator)\d*$|_rng$|_seed$|^rng_|^seed_|_random_state$")
DRAWS = {"random", "normal", "uniform", "standard_normal", "integers", "randint", "rand", "randn", "random_sample", "choice", "permutation", "shuffle", "permuted",
         "beta", "binomial", "chisquare", "dirichlet", "exponential", "f", "gamma", "geometric", "gumbel", "hypergeometric", "laplace",
         "logistic", "lognormal", "logseries", "multinomial", "multivariate_hypergeometric", "multivariate_normal", "negative_binomial",
         "noncentral_chisquare", "noncentral_f", "pareto", "poisson", "power", "rayleigh", "standard_cauchy", "standard_exponential",
         "standard_gamma", "standard_t", "triangular", "vonmises", "wald", "weibull", "zipf", "bytes", "gauss", "normalvariate", "sample",
         "betavariate", "expovariate", "gammavariate", "choices", "randrange", "random_integers", "ranf"}
MAKERS = {"default_rng", "RandomState", "Generator", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "SeedSequence", "Random", "check_random_state", "get_rng"}
EXT_RANDOM = {"scipy.sparse.random", "scipy.sparse.rand", "scipy.sparse.random_array", "scipy.stats.bootstrap", "scipy.stats.permutation_test",
              "scipy.stats.monte_carlo_test", "scipy.optimize.differential_evolution", "scipy.optimize.basinhopping",
              "scipy.optimize.dual_annealing", "scipy.cluster.vq.kmeans2"}
GENKW = {"random_state", "rng", "seed", "rstate"}
EMPTY = frozenset()
NONE = frozenset(["none"])
FALSE = frozenset(["false"])
OFF = frozenset(["none", "false"])
BAD = {"fresh", "const", "global", "own"}


class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def key(self):
        return (id(self.cls), tuple(sorted((k, vkey(v)) for k, v in self.attrs.items())))


def vkey(v):
    return v.key() if isinstance(v, Obj) else tuple(sorted(v))


class Result:
    def __init__(self):
        self.draws = []        # (node, relpath, qual, tags, chain)
        self.ret = EMPTY
        self.attrs = {}
        self.used = set()


class RngFlow:
    def __init__(self, project, fns, params=GENPARAM):
        self.P, self.fns = project, fns
        self.memo = {}
        self.active = set()
        self.methods = {}
        self.offered = {}
        for f in fns.values():
            if f.is_method and f.outer is None and not f.static and f.cls is not None and "classmethod" not in f.decs:
                self.methods.setdefault(f.name, []).append(f)

    def run(self, fn, K, bind, selfobj, depth=0):
        """bind: parameter -> value for the parameters with known tags ({'none'} for None)"""
        key = (id(fn.node), id(K), tuple(sorted((k, vkey(v)) for k, v in bind.items())), selfobj.key() if selfobj else None)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or depth > 12:
            return Result()
        self.active.add(key)
        w = RWalk(self, fn, K, bind, selfobj, depth)
        r = w.go()
        self.active.discard(key)
        self.memo[key] = r
        return r

    def offers(self, K):
        """attribute names of the objects of a class (or of its subclasses)"""
        if id(K.node) not in self.offered:
            out = set()
            for c in list(self.P.mro(K)) + list(self.P.subclasses(K)):
                for n in ast.walk(c.node):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                for n in c.node.body:
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        out |= {x.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
            self.offered[id(K.node)] = out
        return self.offered[id(K.node)]

    def genparams(self, fn):
        a = fn.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if GENPARAM.search(x.arg)]


def defaults(fn):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    out = dict(zip([x.arg for x in reversed(pos)], reversed(a.defaults)))
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def join(a, b):
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a if isinstance(a, Obj) else b
    return a | b


class RWalk:
    def __init__(self, eng, fn, K, bind, selfobj, depth):
        self.e, self.P, self.fn, self.K, self.m, self.depth = eng, eng.P, fn, K, fn.module, depth
        self.r = Result()
        self.env = dict(bind)
        self.bind = bind
        self.selfname = fn.selfname if "classmethod" not in fn.decs else None
        self.self = selfobj if selfobj is not None else (Obj(K, {}) if self.selfname else None)
        if self.self is not None:
            self.self = Obj(self.self.cls, dict(self.self.attrs))
        self.locals = set(fn.params) | fn.stores()
        o = fn.outer
        while o is not None:
            self.locals |= set(o.params) | o.stores()
            o = o.outer
        for n in fn.own_nodes():
            if isinstance(n, ast.Global):
                self.locals -= set(n.names)
        d = defaults(fn)
        for p, dv in d.items():
            if p not in self.env:
                v = self.default(dv)
                if v:
                    self.env[p] = v

    def default(self, d):
        if isinstance(d, ast.Constant):
            return NONE if d.value is None else FALSE if d.value is False else EMPTY
        sav, self.locals = self.locals, set()
        env, self.env = self.env, {}
        v = self.ev(d)
        self.env, self.locals = env, sav
        return v

    def go(self):
        n = self.fn.node
        if isinstance(n, ast.Lambda):
            self.r.ret = self.ev(n.body)
        else:
            self.block(n.body)
        self.r.attrs = self.self.attrs if self.self is not None else {}
        return self.r

    def draw(self, node, tags, what):
        self.r.draws.append((node, self.m.relpath, self.fn.qual, frozenset(tags), (), what))

    # ------------------------------------------------------------------ conditions
    def zero(self, v):
        """a supplied seed may be 0, which is false"""
        return "p" in v and "s0" in v

    def truth(self, t):
        """True/False/None"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            x = self.truth(t.operand)
            return None if x is None else not x
        if isinstance(t, ast.BoolOp):
            vs = [self.truth(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            v = self.ev(t.left)
            if isinstance(v, Obj) or not v:
                return None
            isnone = True if v == NONE else False if "none" not in v else None
            if isnone is None:
                return None
            return isnone if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not isnone if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) else None
        if isinstance(t, (ast.Name, ast.Attribute)):
            v = self.ev(t)
            if isinstance(v, frozenset) and v:
                return False if v <= OFF else True if not v & OFF and not self.zero(v) else None
        if isinstance(t, ast.Constant):
            return bool(t.value)
        self.ev(t)
        return None

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def snap(self):
        return dict(self.env), dict(self.self.attrs) if self.self is not None else {}

    def restore(self, s):
        self.env = dict(s[0])
        if self.self is not None:
            self.self.attrs = dict(s[1])

    def merge(self, s):
        for k, v in s[0].items():
            self.env[k] = join(self.env[k], v) if k in self.env else v
        if self.self is not None:
            for k, v in s[1].items():
                self.self.attrs[k] = join(self.self.attrs[k], v) if k in self.self.attrs else v

    def stmt(self, st):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value)
            for tg in st.targets:
                self.assign(tg, v, st.value)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif t is ast.AugAssign:
            self.ev(st.value)
        elif t is ast.Expr:
            self.ev(st.value)
        elif t is ast.Return:
            if st.value is not None:
                v = self.ev(st.value)
                self.r.ret = join(self.r.ret, v)
            return False
        elif t is ast.Raise:
            return False
        elif t is ast.If:
            c = self.truth(st.test)
            if c is True:
                return self.block(st.body)
            if c is False:
                return self.block(st.orelse)
            s0 = self.snap()
            a = self.block(st.body)
            sa = self.snap()
            self.restore(s0)
            b = self.block(st.orelse)
            if a and b:
                self.merge(sa)
            elif a:
                self.restore(sa)
            return a or b
        elif t in (ast.For, ast.AsyncFor):
            v = self.ev(st.iter)
            self.assign(st.target, v if isinstance(v, frozenset) else EMPTY, None)
            s0 = self.snap()
            self.block(st.body)
            self.merge(s0)
            self.block(st.orelse)
        elif t is ast.While:
            self.ev(st.test)
            s0 = self.snap()
            self.block(st.body)
            self.merge(s0)
        elif t in (ast.With, ast.AsyncWith):
            for i in st.items:
                self.ev(i.context_expr)
            return self.block(st.body)
        elif t is ast.Try:
            s0 = self.snap()
            ok = self.block(st.body)
            s1 = self.snap()
            for h in st.handlers:
                self.restore(s0)
                if self.block(h.body):
                    s2 = self.snap()
                    self.restore(s1)
                    self.merge(s2)
                    s1 = self.snap()
                    ok = True
            self.restore(s1)
            self.block(st.orelse)
            self.block(st.finalbody)
            return ok
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = self.e.fns.get(id(st))
            if f is not None:
                w = RWalk(self.e, f, self.K, {}, self.self, self.depth + 1)
                env = dict(self.env)
                for p in f.params:
                    env.pop(p, None)
                for p, d in defaults(f).items():
                    v = self.ev(d)
                    if isinstance(v, Obj) or v:
                        env[p] = v
                w.env = env
                w.selfname, w.self = self.selfname, self.self
                r = w.go()
                self.r.draws += r.draws
                # remember for calls: result tags
                self.env[st.name] = EMPTY
        elif t in (ast.Break, ast.Continue):
            return False
        elif t is ast.Assert:
            self.ev(st.test)
        return True

    def assign(self, t, v, vn):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(vn, (ast.Tuple, ast.List)) and len(vn.elts) == len(t.elts):
                vs = [self.ev(x) for x in vn.elts]
                for a, x, y in zip(t.elts, vs, vn.elts):
                    self.assign(a, x, y)
            else:
                for a in t.elts:
                    self.assign(a, v if isinstance(v, frozenset) else EMPTY, None)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.selfname and self.self is not None:
            self.self.attrs[t.attr] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)

    # ------------------------------------------------------------------ expressions
    def root(self, n):
        while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
            n = n.func if isinstance(n, ast.Call) else n.value
        return n.id if isinstance(n, ast.Name) else None

    def resolve(self, n):
        r = self.root(n)
        if r is None or r in self.env or r in self.locals or r == self.selfname:
            return None
        if not isinstance(n, (ast.Name, ast.Attribute)):
            return None
        x = n
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        return self.P.resolve_expr(self.m, n)

    def module_value(self, m, name):
        out = EMPTY
        for v in m.assigns.get(name, ()):
            if isinstance(v, ast.Call):
                r = self.P.resolve_expr(m, v.func)
                if r and r[0] == "ext" and r[1].split(".")[-1] in MAKERS and "random" in r[1]:
                    out = out | {"global"}
        return out

    def ev(self, n):
        t = type(n)
        if t is ast.Constant:
            return NONE if n.value is None else FALSE if n.value is False else EMPTY
        if t is ast.Name:
            if n.id == self.selfname and self.self is not None:
                return self.self
            if n.id in self.env:
                return self.env[n.id]
            if n.id in self.locals:
                return EMPTY
            r = self.P.lookup(self.m, n.id)
            if r and r[0] == "assign":
                return self.module_value(r[1], r[2])
            if r and r[0] == "ext" and r[1].startswith(("numpy.random.", "random.")) and r[1].split(".")[-1] in DRAWS:
                return frozenset(["global"])
            return EMPTY
        if t is ast.Attribute:
            r = self.resolve(n)
            if r and r[0] == "ext" and (r[1].startswith("numpy.random.") or r[1].startswith("random.")) and r[1].split(".")[-1] in DRAWS:
                return frozenset(["global"])
            if r and r[0] == "ext" and r[1] == "numpy.random":
                return frozenset(["global"])
            if r and r[0] == "assign":
                return self.module_value(r[1], r[2])
            if r:
                return EMPTY
            b = self.ev(n.value)
            if isinstance(b, Obj):
                return b.attrs.get(n.attr, EMPTY)
            return b - OFF if n.attr in DRAWS or n.attr in ("bit_generator", "spawn") else EMPTY
        if t is ast.Call:
            return self.call(n)
        if t is ast.IfExp:
            c = self.truth(n.test)
            if c is True:
                return self.ev(n.body)
            if c is False:
                return self.ev(n.orelse)
            return join(self.ev(n.body), self.ev(n.orelse))
        if t is ast.BoolOp:
            out = None
            for x in n.values:
                v = self.ev(x)
                c = None if isinstance(v, Obj) or not v else (False if v <= OFF else True if not v & OFF and not self.zero(v) else None)
                if isinstance(n.op, ast.Or):
                    if c is False:
                        out = v if out is None else out
                        if x is n.values[-1]:
                            out = v
                        continue
                    if c is True:
                        return v if out is None or out == NONE else join(out, v)
                out = v if out is None or out == NONE else join(out, v)
            return out if out is not None else EMPTY
        if t is ast.BinOp:
            l, r = self.ev(n.left), self.ev(n.right)
            l = EMPTY if isinstance(l, Obj) else l
            r = EMPTY if isinstance(r, Obj) else r
            return (l | r) - OFF
        if t is ast.NamedExpr:
            v = self.ev(n.value)
            self.assign(n.target, v, n.value)
            return v
        if t is ast.Subscript:
            b = self.ev(n.value)
            self.ev(n.slice)
            return b if isinstance(b, frozenset) else EMPTY
        if t is ast.Lambda:
            f = self.e.fns.get(id(n))
            env = dict(self.env)
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.env.pop(x.arg, None)
            sav = self.locals
            self.locals = self.locals | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            self.ev(n.body)
            self.locals = sav
            self.env = env
            return EMPTY
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            env = dict(self.env)
            for g in n.generators:
                v = self.ev(g.iter)
                self.assign(g.target, v if isinstance(v, frozenset) else EMPTY, None)
                sav = self.locals
                for c in g.ifs:
                    self.ev(c)
            out = EMPTY
            for x in ([n.key, n.value] if t is ast.DictComp else [n.elt]):
                v = self.ev(x)
                out = v if isinstance(v, frozenset) else EMPTY
            self.env = env
            return out
        out = EMPTY
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                v = self.ev(c)
                if t in (ast.Tuple, ast.List) and isinstance(v, frozenset):
                    out = out | v
        return out - OFF

    def seedtags(self, n):
        """tags of an expression used as a seed: a literal is a constant seed"""
        if isinstance(n, ast.Constant) and n.value is not None:
            return frozenset(["const"])
        v = self.ev(n)
        return EMPTY if isinstance(v, Obj) else v

    def call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        ext = self.resolve(f)
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        if ext and ext[0] == "ext":
            path = ext[1]
            if name in MAKERS and ("random" in path):
                a = n.args[0] if n.args else (n.keywords[0].value if n.keywords else None)
                if a is None:
                    return frozenset(["fresh"])
                v = self.seedtags(a)
                v = v - {"s0"}
                return frozenset(["fresh"]) | (v - OFF) if "none" in v else v - OFF
            args = [self.ev(a) for a in n.args]
            kws = {k.arg: self.ev(k.value) for k in n.keywords}
            if path in ("numpy.random.seed", "random.seed"):
                return EMPTY
            if (path.startswith("numpy.random.") or path.startswith("random.")) and name in DRAWS:
                self.draw(n, {"global"}, path)
                return EMPTY
            if name in ("rvs",) and path.startswith("scipy.stats") or path in EXT_RANDOM:
                self.external_random(n, kws, dstar, path)
            return EMPTY
        target = self.target(n, ext)
        if target is not None:
            return self.enter(n, target)
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value)
            if isinstance(recv, Obj):
                v = recv.attrs.get(name, EMPTY)
                if isinstance(v, frozenset) and v - OFF:
                    self.draw(n, v - OFF, ast.unparse(f))
                    return v
                return EMPTY
            tags = recv - OFF
            if not tags and not star and not dstar and ext is None and self.drawing_method(n, name):
                self.draw(n, {"own"}, ast.unparse(f))
                return EMPTY
            if tags and (name in DRAWS):
                self.draw(n, tags, ast.unparse(f))
                return tags
            if tags and name in ("spawn", "jumped", "generate_state"):
                return tags
            if name == "rvs" and isinstance(f, ast.Attribute):
                gen = [v for k, v in kws.items() if k in GENKW]
                if not dstar and not any(isinstance(v, frozenset) and v & {"p"} for v in args):
                    self.external_random(n, kws, dstar, ast.unparse(f))
            return EMPTY
        if isinstance(f, ast.Name):
            v = self.env.get(f.id, EMPTY)
            if isinstance(v, frozenset) and v - OFF:
                self.draw(n, v - OFF, f.id)
                return v - OFF
        return EMPTY

    def drawing_method(self, n, name):
        """a method of an object of unknown class, every definition of which in the project takes a generator that the call leaves out"""
        ms = self.e.methods.get(name, ())
        r = n.func.value
        if isinstance(r, ast.Name) and len(ms) > 1:      # classes that have everything this function asks of the object
            asked = {x.attr for x in self.fn.own_nodes() if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == r.id}
            ms = [g for g in ms if asked <= self.e.offers(g.cls)]
        pkg = [g for g in ms if g.module.relpath.rsplit("/", 1)[0] == self.m.relpath.rsplit("/", 1)[0]]
        ms = pkg or ms
        if not ms or name.startswith("__"):
            return False
        for g in ms:
            a = g.node.args
            pos = [x.arg for x in a.posonlyargs + a.args][1:]
            gens = self.e.genparams(g)
            if not gens or a.vararg is not None:
                return False
            if any(p in gens for p, x in zip(pos, n.args)) or any(k.arg in gens for k in n.keywords):
                return False
        held = list(self.env.values()) + (list(self.self.attrs.values()) if self.self is not None else [])
        return any("p" in v for v in held if isinstance(v, frozenset))

    def external_random(self, n, kws, dstar, what):
        gen = [k for k in n.keywords if k.arg in GENKW]
        if dstar and not gen:
            return
        if not gen:
            self.draw(n, {"global"}, what + " without a generator")
            return
        v = self.seedtags(gen[0].value)
        v = ({"global"} if "none" in v else set()) | (v - OFF)
        if v:
            self.draw(n, v, what)

    def target(self, n, ext):
        f = n.func
        if ext:
            if ext[0] == "func":
                g = self.e.fns.get(id(ext[2]))
                return (g, None, None, False) if g else None
            if ext[0] == "class":
                i = self.P.find_method(ext[1], "__init__")
                g = self.e.fns.get(id(i[1])) if i else None
                return (g, ext[1], Obj(ext[1], {}), True) if g else None
            if ext[0] == "method":
                g = self.e.fns.get(id(ext[2]))
                if g is None:
                    return None
                if g.static:
                    return (g, ext[1], None, False)
                return (g, ext[1], None, "classmethod" in g.decs)
            return None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.K is not None and self.fn.cls is not None:
                r = self.P.find_method(self.K, f.attr, after=self.fn.cls)
                g = self.e.fns.get(id(r[1])) if r else None
                return (g, self.K, self.self, not g.static) if g else None
            o = self.ev(f.value) if isinstance(f.value, (ast.Name, ast.Attribute, ast.Call)) else None
            if isinstance(o, Obj) and o.cls is not None:
                if f.attr in o.attrs and not isinstance(o.attrs[f.attr], Obj):
                    return None
                r = self.P.find_method(o.cls, f.attr)
                g = self.e.fns.get(id(r[1])) if r else None
                return (g, o.cls, o, not g.static) if g else None
        return None

    def enter(self, n, tg):
        g, K, obj, drop = tg
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if drop and pos:
            pos = pos[1:]
        known = set(pos) | {x.arg for x in a.kwonlyargs}
        bind = {}
        star = any(isinstance(x, ast.Starred) for x in n.args)
        dstar = [k.value for k in n.keywords if k.arg is None]
        gen = {p for p in known if GENPARAM.search(p)}

        def val(p, x):
            return self.seedtags(x) if p in gen else self.ev(x)
        if not star:
            for p, x in zip(pos, n.args):
                bind[p] = val(p, x)
        else:
            for x in n.args:
                self.ev(x)
        for k in n.keywords:
            if k.arg in known:
                bind[k.arg] = val(k.arg, k.value)
            else:
                self.ev(k.value)
        dd = defaults(g)
        for p in known:
            if p not in bind:
                if star or dstar:
                    bind[p] = EMPTY
                    continue
                d = dd.get(p)
                if d is None:
                    continue
                if isinstance(d, ast.Constant):
                    bind[p] = NONE if d.value is None else FALSE if d.value is False else (frozenset(["const"]) if p in gen and d.value is not True else EMPTY)
        bind = {k: v for k, v in bind.items()}
        r = self.e.run(g, K, bind, obj, self.depth + 1)
        for node, rel, qual, tags, chain, what in r.draws:
            self.r.draws.append((node, rel, qual, tags, (g.qual,) + chain, what))
        if obj is not None and drop:
            if obj is self.self or (self.self is not None and obj.cls is self.self.cls and isinstance(n.func, ast.Attribute) and
                                    isinstance(n.func.value, (ast.Name, ast.Call)) and (getattr(n.func.value, "id", None) == self.selfname or isinstance(n.func.value, ast.Call))):
                self.self.attrs.update(r.attrs)
            else:
                obj.attrs.update(r.attrs)
            if g.name == "__init__":
                return Obj(K, dict(r.attrs))
        return r.ret
