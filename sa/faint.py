"""Interprocedural faint-parameter analysis.

A definition is faint when its value can reach no effect: not a return value,
not a store to an object, not a call that may have effects, not a decision
that guards one of those, only dead locals and parameters of callees that are
faint themselves.  A faint parameter is an option without influence.

Backward dataflow over the statement structure, to a fixpoint in loops, with
one summary (the set of faint parameters) per function, iterated over the call
graph; virtual calls need the parameter to be faint in every possible target.
"""
import ast
import builtins

from .scopes import functions

PURE_EXT = ("numpy.", "scipy.", "math.", "pandas.", "itertools.", "operator.")
IMPURE = (".random", "numpy.put", "numpy.copyto", "numpy.place", "numpy.fill_diagonal", "numpy.save", "numpy.seterr", "numpy.add.at", "pandas.set_option",
          "scipy.optimize", "scipy.integrate")
PURE_BUILTIN = {"len", "int", "float", "bool", "str", "abs", "min", "max", "sum", "range", "enumerate", "zip", "sorted", "isinstance", "issubclass", "type",
                "tuple", "list", "dict", "set", "frozenset", "any", "all", "round", "hasattr", "getattr", "repr", "hash", "slice", "callable", "complex", "divmod", "pow", "map", "filter", "reversed", "id"}
FRAME = {"locals", "vars", "eval", "exec", "globals"}


class Faint:
    def __init__(self, P, attrs=False):
        self.P = P
        self.fns = functions(P)
        self.by_node = {id(f.node): f for f in self.fns}
        self.dead = {}          # id(node) -> set of faint parameters
        self.given = {}         # id(node) -> parameters faint once the tests for their absence are decided
        self.calls = 0
        self.methods = {}
        self.unread = unread(P) if attrs else set()
        for f in self.fns:
            if f.is_method:
                self.methods.setdefault(f.name, []).append(f)

    def solve(self):
        todo = {id(f.node): f for f in self.fns}
        for _ in range(12):
            changed = set()
            for f in list(todo.values()):
                d = self.analyse(f)
                if d != self.dead.get(id(f.node), set()):
                    self.dead[id(f.node)] = d
                    changed.add(f.name)
                    if f.name == "__init__" and f.cls is not None:
                        changed.add(f.cls.name)
            if not changed:
                break
            # faintness only grows, callers of changed functions are looked at again
            todo = {id(f.node): f for f in self.fns if self.names(f) & changed}
        return self.dead

    def solve_given(self):
        """faint parameters when the caller supplies a value: `p is None` is false"""
        self.given = {}
        todo = {id(f.node): f for f in self.fns}
        for _ in range(12):
            changed = set()
            for f in list(todo.values()):
                tested = absence_tests(f)
                base = self.dead.get(id(f.node), set())
                d = set(base)
                cand = [p for p in f.params if p not in base and (p in tested or self.passes_on(f, p))]
                for p in cand:
                    w = Walk(self, f, p)
                    live = w.block(f.node.body, set())
                    if p not in live and p not in w.pinned:
                        d.add(p)
                if d != self.given.get(id(f.node), base):
                    changed.add(f.name)
                    if f.name == "__init__" and f.cls is not None:
                        changed.add(f.cls.name)
                self.given[id(f.node)] = d
            if not changed:
                break
            todo = {id(f.node): f for f in self.fns if self.names(f) & changed}
        return self.given

    def passes_on(self, f, p):
        """is p handed unchanged to a callee in which it is faint when given"""
        if not hasattr(f, "_passes"):
            f._passes = {a.id for n in ast.walk(f.node) if isinstance(n, ast.Call) for a in n.args + [k.value for k in n.keywords] if isinstance(a, ast.Name)}
        return p in f._passes and bool(self.given)

    def names(self, f):
        if not hasattr(f, "_callnames"):
            f._callnames = {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "") for n in ast.walk(f.node) if isinstance(n, ast.Call)}
            if "super" in f._callnames or "__init__" in f._callnames:
                f._callnames |= {"__init__"}
        return f._callnames

    # ---------------------------------------------------------------- one function
    def analyse(self, f):
        w = Walk(self, f)
        live = w.block(f.node.body, set())
        return {p for p in f.params if p not in live and p not in w.pinned}

    def targets(self, f, call):
        """functions a call may enter: list of (Fn, drop_first) or None when unknown"""
        fn, P = call.func, self.P
        if isinstance(fn, ast.Attribute):
            v = fn.value
            s = f.self_of() if f else None
            if isinstance(v, ast.Name) and s and v.id == s[0] and v.id not in f.stores():
                cls = s[1]
                out = []
                for c in [cls] + P.subclasses(cls):
                    m = P.find_method(c, fn.attr)
                    if m is None:
                        return None
                    g = self.by_node.get(id(m[1]))
                    if g is None or "property" in g.decs:
                        return None
                    out.append((g, not g.static))
                # an instance attribute may shadow the method
                return out
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and s:
                m = P.find_method(s[1], fn.attr, after=s[1])
                g = self.by_node.get(id(m[1])) if m else None
                return [(g, not g.static)] if g else None
        if isinstance(fn, ast.Name) and f is not None:
            g = f
            while g is not None:
                if fn.id in g.params or fn.id in g.stores():
                    inner = [h for h in self.fns if h.outer is g and h.name == fn.id]
                    if len(inner) == 1 and fn.id not in g.params and sum(1 for n in g.own_nodes() if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == fn.id) == 0:
                        return [(inner[0], False)]
                    return None
                g = g.outer
        r = P.resolve_expr(f.module, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if r is None:
            return None
        if r[0] == "func":
            g = self.by_node.get(id(r[2]))
            return [(g, False)] if g else None
        if r[0] == "class":
            m = P.find_method(r[1], "__init__")
            if m is None or any(x for x in r[1].node.decorator_list) or P.find_method(r[1], "__new__"):
                return None
            g = self.by_node.get(id(m[1]))
            return [(g, True)] if g else None
        if r[0] == "method":
            g = self.by_node.get(id(r[2]))
            if g is None:
                return None
            return [(g, "classmethod" in g.decs)]
        return None


def absence_tests(f):
    """parameters compared with None somewhere in the function"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            out.add(n.left.id)
    return out & set(f.params)


class Walk:
    def __init__(self, A, f, given=None):
        self.A, self.f = A, f
        self.given = given
        self.loops = []
        self.handlers = []
        self.pinned = set()
        a = f.node.args
        self.pinned |= {x.arg for x in (a.vararg, a.kwarg) if x}
        if f.selfname:
            self.pinned.add(f.selfname)
        if f.is_method and (a.posonlyargs + a.args) and not f.static:
            self.pinned.add((a.posonlyargs + a.args)[0].arg)
        self.globals = {x for n in f.own_nodes() if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        # names nested functions rebind cannot be tracked here
        for n in ast.walk(f.node):
            if isinstance(n, ast.Nonlocal):
                self.globals |= set(n.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in FRAME:
                self.pinned |= set(f.params)

    def fold(self, t):
        """truth of a test when the parameter under study has a value"""
        p = self.given
        if p is None:
            return None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == p \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                return False
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                return True
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.fold(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.fold(x) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        return None

    # ---- expressions
    def uses(self, e):
        """names whose value the expression needs (faint arguments of project callees excepted)"""
        if e is None:
            return set()
        out, stack = set(), [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, (ast.Load, ast.Del)):
                    out.add(n.id)
                continue
            if self.given:
                v = self.fold(n)
                if v is not None:
                    continue
                if isinstance(n, ast.IfExp):
                    v = self.fold(n.test)
                    if v is not None:
                        stack.append(n.body if v else n.orelse)
                        continue
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        out.add(x.id)
                continue
            if isinstance(n, ast.Call):
                self.A.calls += 1
                skip = self.faint_args(n)
                stack.append(n.func)
                stack += [a for i, a in enumerate(n.args) if i not in skip]
                stack += [k.value for k in n.keywords if k.arg is None or k.arg not in skip]
                continue
            stack += list(ast.iter_child_nodes(n))
        return out

    def faint_args(self, call):
        ts = self.A.targets(self.f, call)
        if not ts:
            return set()
        common = None
        for g, drop in ts:
            d = self.A.dead.get(id(g.node), set())
            dg = self.A.given.get(id(g.node), set()) if self.given else set()
            if not d and not dg:
                return set()
            a = g.node.args
            pos = [x.arg for x in a.posonlyargs + a.args][1 if drop else 0:]
            mine = lambda x: isinstance(x, ast.Name) and x.id == self.given
            s = {k.arg for k in call.keywords if k.arg in d or k.arg in dg and mine(k.value)}
            for i, x in enumerate(call.args):
                if isinstance(x, ast.Starred):
                    break
                if i < len(pos) and (pos[i] in d or pos[i] in dg and mine(x)):
                    s.add(i)
            common = s if common is None else common & s
        return common or set()

    def effect(self, e):
        """may evaluating the expression do more than produce its value?"""
        if e is None:
            return False
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return True
            if isinstance(n, ast.Call) and not self.pure(n):
                return True
        return False

    def pure(self, call):
        fn = call.func
        if any(k.arg == "out" for k in call.keywords):
            return False
        if isinstance(fn, ast.Name) and fn.id in PURE_BUILTIN and self.A.P.lookup(self.f.module, fn.id) is None:
            return True
        r = self.A.P.resolve_expr(self.f.module, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "ext":
            return r[1].startswith(PURE_EXT) and not any(x in r[1] for x in IMPURE)
        if isinstance(fn, ast.Attribute) and fn.attr in ("copy", "dot", "sum", "mean", "reshape", "astype", "get", "keys", "values", "items", "transpose", "max", "min", "tolist", "flatten", "any", "all", "format", "split", "strip", "lower", "upper"):
            return True
        return False

    # ---- statements
    def block(self, body, out):
        for st in reversed(body):
            out = self.stmt(st, out)
            for h in self.handlers:
                out = out | h
        return out

    def matters(self, body, live):
        """does the block have an effect, transfer control or define something live?"""
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Assert, ast.Yield, ast.YieldFrom, ast.Await, ast.Delete, ast.With, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                    return True
                if isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store) and (n.id in live or n.id in self.globals):
                    return True
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in live:
                    return True
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    return True
                if isinstance(n, ast.AugAssign):
                    return True
                if isinstance(n, ast.Call) and not self.pure(n):
                    return True
        return False

    def stmt(self, st, out):
        f = getattr(self, "s_" + type(st).__name__, None)
        if f:
            return f(st, out)
        return out | self.uses(st)

    def s_Pass(self, st, out):
        return out

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, st, out):
        return out | self.uses(st.value) if self.effect(st.value) else out

    def s_Return(self, st, out):
        return self.uses(st.value)

    def s_Raise(self, st, out):
        return self.uses(st.exc) | self.uses(st.cause)

    def s_Assert(self, st, out):
        return out | self.uses(st)

    def names_of(self, t):
        if isinstance(t, ast.Name):
            return [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            r = []
            for x in t.elts:
                q = self.names_of(x)
                if q is None:
                    return None
                r += q
            return r
        if isinstance(t, ast.Starred):
            return self.names_of(t.value)
        return None

    def s_Assign(self, st, out):
        targets, value = st.targets, st.value
        ns, store = [], False
        extra = set()
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    ns.append(x.id)
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    if isinstance(x, ast.Attribute) and x.attr in self.A.unread:
                        continue
                    store = True
                    extra |= self.uses(x.value) | (self.uses(x.slice) if isinstance(x, ast.Subscript) else set())
        need = store or any(n in out or n in self.globals for n in ns) or self.effect(value)
        # element-wise for parallel assignment
        if not store and len(targets) == 1 and isinstance(targets[0], (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) \
                and len(targets[0].elts) == len(value.elts) and not any(isinstance(x, ast.Starred) for x in targets[0].elts + value.elts):
            r = out - set(ns)
            for t, v in zip(targets[0].elts, value.elts):
                q = self.names_of(t) or []
                if any(n in out or n in self.globals for n in q) or self.effect(v):
                    r |= self.uses(v)
            return r
        r = out - set(ns)
        if need:
            r |= self.uses(value) | extra
        return r

    def s_AnnAssign(self, st, out):
        if st.value is None:
            return out
        return self.s_Assign(ast.Assign([st.target], st.value), out)

    def s_AugAssign(self, st, out):
        if isinstance(st.target, ast.Name) and st.target.id not in out and st.target.id not in self.globals and not self.effect(st.value) and st.target.id not in self.f.params:
            # in-place update of an object a live name may share is an effect
            return out | {st.target.id} | self.uses(st.value)
        r = out | self.uses(st.value)
        for x in ast.walk(st.target):
            if isinstance(x, ast.Name):
                r.add(x.id)
        return r

    def s_Delete(self, st, out):
        return out | self.uses(st)

    def s_If(self, st, out):
        v = self.fold(st.test) if self.given else None
        if v is not None:
            return self.block(st.body if v else st.orelse, set(out))
        a, b = self.block(st.body, set(out)), self.block(st.orelse, set(out))
        r = a | b
        if self.matters(st.body, out) or self.matters(st.orelse, out) or self.effect(st.test):
            r |= self.uses(st.test)
        return r

    def loop(self, st, out, head, targets):
        live = set(out) | self.block(st.orelse, set(out))
        for _ in range(8):
            self.loops.append((set(out), set(live)))
            body = self.block(st.body, set(live)) - set(targets)
            self.loops.pop()
            new = live | body
            if self.matters(st.body, live) or self.matters(st.orelse, out) or self.effect(head) or isinstance(st, ast.While):
                new |= self.uses(head)
            if new == live:
                break
            live = new
        return live

    def s_For(self, st, out):
        t = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        return self.loop(st, out, st.iter, t)

    s_AsyncFor = s_For

    def s_While(self, st, out):
        return self.loop(st, out, st.test, [])

    def s_Break(self, st, out):
        return set(self.loops[-1][0]) if self.loops else out

    def s_Continue(self, st, out):
        return set(self.loops[-1][1]) if self.loops else out

    def s_With(self, st, out):
        r = self.block(st.body, out)
        for i in st.items:
            r |= self.uses(i.context_expr)
        return r

    def s_Try(self, st, out):
        fin = self.block(st.finalbody, set(out))
        hs = set()
        for h in st.handlers:
            hs |= self.block(h.body, set(fin)) | self.uses(h.type)
        after = self.block(st.orelse, set(fin))
        self.handlers.append(hs | fin)
        r = self.block(st.body, after)
        self.handlers.pop()
        return r | hs

    s_TryStar = s_Try

    def s_FunctionDef(self, st, out):
        r = out - {st.name}
        for d in st.args.defaults + [d for d in st.args.kw_defaults if d] + st.decorator_list:
            r |= self.uses(d)
        if st.name in out:
            inner = set()
            own = {a.arg for a in st.args.posonlyargs + st.args.args + st.args.kwonlyargs}
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    inner.add(x.id)
            r |= inner - (own - self.nested_loads(st, own))
        return r

    s_AsyncFunctionDef = s_FunctionDef

    def nested_loads(self, st, own):
        return set()

    def s_ClassDef(self, st, out):
        r = out - {st.name}
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r.add(x.id)
        return r


def unread(P):
    """attribute names that are stored on objects but never read, by any spelling, in the package"""
    stored, read = set(), set()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                (stored if isinstance(n.ctx, ast.Store) else read).add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                read |= set(n.value.split())
    return stored - read
