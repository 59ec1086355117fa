"""Flow analysis of hash-dependent iteration order.

Abstract values (kind + where the order was lost):
  C  nothing hash dependent            S  unordered collection
  M  container whose members are known per constant key (or jointly)
  T  tuple of abstract values          D  dict whose insertion order is hash dependent
  O  ordered value whose order is      X  value that was picked, numbered or drawn by position
     hash dependent                       in such an order
Sets are harmless; what matters is where an ordered value is made from one.
Sorting with an injective key, re-collecting into a set, counting and other
symmetric reductions restore C.  Loops over an unordered value are allowed to
have effects that commute (stores keyed by the element, set updates, numeric
accumulation); appends, numbering, last-write-wins and random draws do not.
Functions are analysed per tuple of argument values, attributes by one
flow-insensitive value per class family.
"""
import ast
from .scopes import functions

SYM = {"len", "min", "max", "sum", "any", "all", "set", "frozenset", "bool", "isinstance", "hasattr", "type", "print", "callable", "id", "Counter"}
SYM_METHODS = {"sum", "mean", "any", "all", "max", "min", "count", "nunique", "std", "var", "prod", "isin", "issubset", "issuperset", "isdisjoint", "unique_sorted"}
SYM_NP = {"unique", "sort", "sum", "any", "all", "max", "min", "mean", "isin", "in1d", "union1d", "intersect1d", "setdiff1d", "prod", "size", "shape", "ndim", "amax", "amin"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
GROW = {"append", "extend", "insert", "appendleft", "extendleft"}
INTLIKE = {"range", "arange"}
PLAIN = {"shape", "size", "ndim", "dtype", "dtypes"}


class V:
    __slots__ = ("k", "o", "it", "pos", "m", "new")

    def __init__(self, k="C", o=frozenset(), it=frozenset(), pos=frozenset(), m=None, new=None):
        self.k, self.o, self.it, self.pos, self.m, self.new = k, o, it, pos, m, new

    def key(self):
        m = None
        new = (self.new[0], self.new[1].qual) if isinstance(self.new, tuple) else self.new
        if self.k == "M":
            m = tuple(sorted(((str(k), v.key()) for k, v in self.m.items()), key=repr))
        elif self.k == "T":
            m = tuple(v.key() for v in self.m)
        return (self.k, self.o, self.it, self.pos, m, new)

    def bad(self):
        return self.k in "OX" or self.k == "T" and any(v.bad() for v in self.m) or self.k == "M" and any(v.bad() for v in self.m.values())

    def origins(self):
        o = self.o if self.k in "OX" else frozenset()
        if self.k == "T":
            for v in self.m:
                o |= v.origins()
        if self.k == "M":
            for v in self.m.values():
                o |= v.origins()
        return o

    def __repr__(self):
        return "%s%s%s" % (self.k, self.m if self.k in "MT" else "", sorted(x[1] for x in self.o) if self.o else "")


C = V()
RANK = "CSMTDOX"


def join(a, b):
    if a.k == b.k == "M":
        m = dict(a.m)
        for k, v in b.m.items():
            m[k] = join(m[k], v) if k in m else v
        return V("M", a.o | b.o, a.it | b.it, a.pos | b.pos, m)
    if a.k == b.k == "T" and len(a.m) == len(b.m):
        return V("T", frozenset(), a.it | b.it, a.pos | b.pos, [join(x, y) for x, y in zip(a.m, b.m)])
    hi, lo = (a, b) if RANK.index(a.k) >= RANK.index(b.k) else (b, a)
    if hi.k == "T":
        fl = V()
        for v in hi.m:
            fl = join(fl, v)
        hi = fl
        return join(hi, lo) if lo.k != "C" else hi
    o = hi.o | (lo.o if lo.k == hi.k else frozenset())
    return V(hi.k, o, a.it | b.it, a.pos | b.pos, hi.m, hi.new if hi.new == lo.new else (hi.new or lo.new))


def txt(n):
    s = ast.unparse(n)
    return s if len(s) < 90 else s[:87] + "..."


class HashOrder:
    def __init__(self, P, faint):
        self.P, self.A = P, faint
        self.fns = functions(P)
        self.by_node = faint.by_node
        self.memo = {}
        self.attrs = {}         # (family, attr) -> V
        self.sites = {}         # origin -> description (where, what)
        self.escapes = {}       # origin -> list of sinks
        self.ties = []
        self.stack = []
        self.fam = {}
        self.changed = False

    def family(self, cls):
        if cls not in self.fam:
            seen, todo = {cls}, [cls]
            while todo:
                c = todo.pop()
                for d in list(self.P.mro(c)) + list(self.P.subclasses(c)):
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
            root = min(seen, key=lambda c: c.qual if hasattr(c, "qual") and isinstance(c.qual, str) else str(c))
            for c in seen:
                self.fam[c] = root
        return self.fam[cls]

    def attr(self, cls, name):
        return self.attrs.get((self.family(cls), name), C)

    def set_attr(self, cls, name, v):
        k = (self.family(cls), name)
        old = self.attrs.get(k)
        v = V(v.k, v.o, m=v.m, new=v.new)
        new = v if old is None else join(old, v)
        if old is None or new.key() != old.key():
            self.attrs[k] = new
            self.changed = True

    def solve(self):
        for _ in range(5):
            self.changed = False
            self.memo = {}
            self.escapes = {}
            self.ties = []
            for f in self.fns:
                if f.outer is None:
                    self.summary(f, None, top=True)
            if not self.changed:
                break

    def summary(self, f, args, top=False):
        k = (id(f.node), None if args is None else tuple(sorted((p, v.key()) for p, v in args.items())))
        if k in self.memo:
            return self.memo[k]
        if len(self.stack) > 12 or any(s is f for s in self.stack):
            return (C, {}, [])
        self.memo[k] = (C, {}, [])
        self.stack.append(f)
        w = Walk(self, f, args or {})
        try:
            w.run()
        finally:
            self.stack.pop()
        r = (w.ret, w.mut, w.grown)
        self.memo[k] = r
        if top and public(f) and w.ret.bad():
            for o in w.ret.origins():
                self.escape(o, "returned by %s" % f.where)
        return r

    def escape(self, o, sink):
        self.escapes.setdefault(o, [])
        if sink not in self.escapes[o]:
            self.escapes[o].append(sink)


def public(f):
    return f.outer is None and (not f.name.startswith("_") or f.name in ("__init__", "__call__"))


class Walk:
    def __init__(self, H, f, args):
        self.H, self.f = H, f
        self.env = {p: args.get(p, C) for p in f.params}
        self.params = set(f.params)
        self.ret = None
        self.mut = {}
        self.grown = []         # attributes appended to: (class, attr, value depends)
        self.loops = []         # active hash loops: (id, origins)
        self.n = 0
        s = f.self_of()
        self.self = s

    def run(self):
        if isinstance(self.f.node, ast.Lambda):
            self.ret = self.ev(self.f.node.body)
            return
        self.block(self.f.node.body)
        self.ret = self.ret or C
        for p in self.params:
            v = self.env.get(p)
            if v is not None and v.k in "OX" and p in self.touched:
                self.mut[p] = v

    touched = frozenset()

    def site(self, node, how):
        o = (self.f.where, "%s %s" % (how, txt(node)))
        self.H.sites[o] = getattr(node, "lineno", 0)
        return o

    # ------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value)
            for tg in st.targets:
                self.assign(tg, v, st.value)
        elif t is ast.AnnAssign and st.value is not None:
            self.assign(st.target, self.ev(st.value), st.value)
        elif t is ast.AugAssign:
            self.aug(st)
        elif t is ast.Expr:
            self.ev(st.value)
        elif t is ast.Return:
            v = self.ev(st.value) if st.value is not None else C
            if self.loops and v.it & {l for l, _ in self.loops}:
                v = V("X", self.active(v.it))
            self.ret = v if self.ret is None else join(self.ret, v)
        elif t in (ast.If,):
            self.ev(st.test)
            e0 = dict(self.env)
            self.block(st.body)
            e1, self.env = self.env, e0
            self.block(st.orelse)
            self.merge(e1)
        elif t in (ast.For, ast.AsyncFor):
            self.loop(st)
        elif t is ast.While:
            for _ in range(2):
                e0 = dict(self.env)
                self.ev(st.test)
                self.block(st.body)
                self.merge(e0)
            self.block(st.orelse)
        elif t in (ast.With, ast.AsyncWith):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr)
            self.block(st.body)
        elif t is ast.Try:
            self.block(st.body)
            for h in st.handlers:
                self.block(h.body)
            self.block(st.orelse)
            self.block(st.finalbody)
        elif t is ast.Delete:
            pass
        elif t is ast.Assert:
            self.ev(st.test)
        elif t is ast.Raise:
            pass
        elif t is ast.Match:
            self.ev(st.subject)
            for c in st.cases:
                self.block(c.body)

    def merge(self, e1):
        for k in set(self.env) | set(e1):
            a, b = self.env.get(k), e1.get(k)
            self.env[k] = join(a, b) if a is not None and b is not None else (a or b)

    def active(self, its):
        o = frozenset()
        for l, og in self.loops:
            if l in its:
                o |= og
        return o

    def lids(self):
        return {l for l, _ in self.loops}

    def loop(self, st):
        v = self.ev(st.iter)
        hashed = v.k in "SDO" or v.k == "X"
        if not hashed:
            ev = self.member(v)
            for _ in range(2):
                e0 = dict(self.env)
                self.assign(st.target, ev, None)
                self.block(st.body)
                self.merge(e0)
            self.block(st.orelse)
            return
        self.n += 1
        lid = (self.f.where, self.n, len(self.H.stack))
        og = v.o if v.k in "OX" and v.o else frozenset([self.site(st.iter, "loop over")])
        assigned = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        counters = {n.target.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        before = dict(self.env)
        self.loops.append((lid, og))
        for _ in range(2):
            el = V("C", it=frozenset([lid]))
            self.bind_element(st.target, el, v, lid)
            for c in counters:
                if c in self.env and self.env[c].k == "C":
                    x = self.env[c]
                    self.env[c] = V(x.k, x.o, x.it, x.pos | {lid}, x.m, x.new)
            self.block(st.body)
            for k, b in before.items():
                if k in self.env:
                    self.env[k] = join(self.env[k], b)
        self.loops.pop()
        for k in assigned:
            x = self.env.get(k)
            if x is None:
                continue
            if k in counters:
                self.env[k] = self.strip(x, lid)
            elif lid in x.it and x.k in "C":
                self.env[k] = V("X", og)         # whichever element came last
            else:
                self.env[k] = self.strip(x, lid)
        for k, x in list(self.env.items()):
            if k not in assigned and x is not None:
                self.env[k] = self.strip(x, lid)
        tn = [n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)]
        for k in tn:
            self.env[k] = V("X", og)
        self.block(st.orelse)

    def bind_element(self, target, el, v, lid):
        if v.m == "enum" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.assign(target.elts[0], V("C", pos=frozenset([lid])), None)
            self.assign(target.elts[1], el, None)
        elif v.k == "O" and v.m == "num" and isinstance(target, ast.Tuple):
            for t in target.elts:
                self.assign(t, V("C", it=el.it, pos=el.it), None)
        else:
            self.assign(target, el, None)

    def strip(self, v, lid):
        if lid in v.it or lid in v.pos:
            return V(v.k, v.o, v.it - {lid}, v.pos - {lid}, v.m, v.new)
        return v

    def aug(self, st):
        v = self.ev(st.value)
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.env.get(t.id, C)
            if self.loops and v.it & self.lids() and isinstance(st.op, ast.Add) and cur.new in ("list", "str"):
                self.env[t.id] = V("O", self.active(v.it), new=cur.new)
            elif isinstance(st.op, (ast.Add,)) and v.k in "OX" and cur.k in "CO":
                self.env[t.id] = join(cur, v)
            elif v.k == "S" or cur.k == "S":
                self.env[t.id] = V("S")
            elif v.k in "OX":
                self.env[t.id] = join(cur, v)
        elif isinstance(t, ast.Attribute) and v.bad():
            self.assign(t, v, None)
        else:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def assign(self, t, v, valnode):
        if isinstance(t, ast.Name):
            if valnode is not None and self.loops and t.id in self.env:
                # x = x + e : an accumulation, like an augmented assignment
                if any(isinstance(n, ast.Name) and n.id == t.id for n in ast.walk(valnode)):
                    cur = self.env[t.id]
                    if v.it & self.lids() and v.k in "C":
                        if cur.new in ("list", "str") and isinstance(valnode, ast.BinOp) and isinstance(valnode.op, ast.Add):
                            v = V("O", self.active(v.it), new=cur.new)
                        else:
                            v = V(v.k, v.o, v.it - self.lids(), v.pos, v.m, v.new)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.m if v.k == "T" and len(v.m) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts) else None
            for i, e in enumerate(t.elts):
                if vs is not None:
                    self.assign(e, vs[i], None)
                else:
                    x = v
                    if v.k == "O" or v.k == "S":
                        x = V("X", v.o or frozenset([self.site(t, "unpack into")])) if v.m not in ("pairs",) else C
                    elif v.k in "MD":
                        x = self.member(v)
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Attribute):
            s = self.self
            if s and isinstance(t.value, ast.Name) and t.value.id == s[0]:
                if self.loops and v.k == "C" and v.it & self.lids():
                    v = V("X", self.active(v.it))
                self.H.set_attr(s[1], t.attr, v)
                if v.bad() and not t.attr.startswith("_"):
                    for o in v.origins():
                        self.H.escape(o, "attribute %s set in %s" % (t.attr, self.f.where))
            else:
                self.ev(t.value)
        elif isinstance(t, ast.Subscript):
            self.store(t, v)

    def base_of(self, n):
        """the variable or attribute a subscript chain stores into; .loc/.iloc/.at are transparent"""
        while True:
            if isinstance(n, ast.Subscript):
                n = n.value
            elif isinstance(n, ast.Attribute) and n.attr in ("loc", "iloc", "at", "iat", "values"):
                n = n.value
            else:
                return n

    def store(self, t, v):
        b = self.base_of(t)
        k = self.ev(t.slice)
        if not isinstance(t.value, (ast.Name, ast.Attribute)):
            inner = self.ev(t.value)
        else:
            inner = C
        cur = self.lookup(b)
        lids = self.lids()
        new = None
        if v.k == "X":
            new = V("X", v.o)
        elif self.loops and not (inner.it & lids):
            if k.pos & lids and v.it & lids:
                new = V("O", self.active(v.it))
            elif k.it & lids:
                if v.pos & lids:
                    new = V("X", self.active(v.pos))
                elif cur.new in ("dict", "frame") and cur.k == "C":
                    new = V("D" if cur.new == "dict" else "O", self.active(k.it), new=cur.new)
            elif v.it & lids and not k.pos & lids:
                if not isinstance(t.slice, ast.Slice):
                    new = V("X", self.active(v.it))
        if new is None and cur.k in ("M",) and isinstance(t.slice, ast.Constant) and t.value is b:
            m = dict(cur.m)
            m[t.slice.value] = v
            new = V("M", cur.o, cur.it, cur.pos, m, cur.new)
            self.write(b, new, strong=True)
            return
        if new is None and cur.new == "dict" and cur.k == "C" and v.k in "SDOMX" and t.value is b:
            kk = t.slice.value if isinstance(t.slice, ast.Constant) else None
            self.write(b, V("M", m={kk: v}, new="dict"), strong=True)
            return
        if new is None and v.k == "O" and k.k == "C" and not isinstance(t.slice, ast.Constant):
            new = V("O", v.o)
        if new is None and v.k == "O" and isinstance(t.slice, ast.Constant) and cur.k == "C":
            new = V("O", v.o) if cur.new != "dict" else V("M", m={t.slice.value: v}, new="dict")
        if new is not None:
            self.write(b, new)

    def lookup(self, b):
        if isinstance(b, ast.Name):
            return self.env.get(b.id, C)
        s = self.self
        if isinstance(b, ast.Attribute) and s and isinstance(b.value, ast.Name) and b.value.id == s[0]:
            return self.H.attr(s[1], b.attr)
        return C

    def write(self, b, v, strong=False):
        if isinstance(b, ast.Name):
            if b.id in self.params:
                self.touched = self.touched | {b.id}
            self.env[b.id] = v if strong else join(self.env.get(b.id, C), v)
            return
        s = self.self
        if isinstance(b, ast.Attribute) and s and isinstance(b.value, ast.Name) and b.value.id == s[0]:
            self.H.set_attr(s[1], b.attr, v)
            if v.bad() and not b.attr.startswith("_"):
                for o in v.origins():
                    self.H.escape(o, "attribute %s changed in %s" % (b.attr, self.f.where))

    # ------------------------------------------------------------ expressions
    def member(self, v):
        """a member of container v, reached by key or by clean iteration"""
        if v.k == "M":
            r = C
            for x in v.m.values():
                r = join(r, x)
            return r
        if v.k == "T":
            r = C
            for x in v.m:
                r = join(r, x)
            return r
        return V("C", it=v.it, pos=v.pos)

    def deps(self, *vs):
        it, pos = frozenset(), frozenset()
        for v in vs:
            it |= v.it
            pos |= v.pos
        return it, pos

    def ev(self, n):
        if n is None:
            return C
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        vs = [self.ev(c) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        return self.mix(vs)

    def mix(self, vs):
        """the value of an operation on vs"""
        it, pos = self.deps(*vs)
        bad = [v for v in vs if v.k in "OX"]
        if bad:
            k = "X" if any(v.k == "X" for v in bad) else "O"
            return V(k, frozenset().union(*[v.o for v in bad]), it, pos)
        return V("C", it=it, pos=pos)

    def e_Constant(self, n):
        return V(new="str") if isinstance(n.value, str) else C

    def e_Name(self, n):
        return self.env.get(n.id, C)

    def e_Attribute(self, n):
        s = self.self
        if s and isinstance(n.value, ast.Name) and n.value.id == s[0]:
            # a property is a call
            m = self.H.P.find_method(s[1], n.attr)
            g = self.H.by_node.get(id(m[1])) if m else None
            if g is not None and ("property" in g.decs or "cached_property" in g.decs):
                return self.H.summary(g, {})[0]
            return self.H.attr(s[1], n.attr)
        v = self.ev(n.value)
        if isinstance(v.new, tuple):
            return self.H.attr(v.new[1], n.attr)
        if v.k in "OX" and n.attr in PLAIN:
            return V("C", it=v.it, pos=v.pos)
        if v.k in "OX":
            return v
        return V("C", it=v.it, pos=v.pos)

    def e_Set(self, n):
        vs = [self.ev(e) for e in n.elts]
        it, pos = self.deps(*vs)
        if all(isinstance(e, ast.Constant) and not isinstance(e.value, (str, bytes)) for e in n.elts):
            return C
        return V("S", it=it, pos=pos)

    def e_List(self, n):
        vs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                if v.k in "SD":
                    v = V("O", frozenset([self.site(e.value, "unpack")]))
                vs.append(v)
            else:
                v = self.ev(e)
                vs.append(V("T", m=[v]) if v.k in "SMDT" else v)
        it, pos = self.deps(*vs)
        if vs and all(v.k == "T" for v in vs):
            r = C
            for v in vs:
                r = join(r, v.m[0])
            return V("M", it=it, pos=pos, m={None: r}, new="list")
        r = self.mix([v for v in vs if v.k in "CSMDOX"])
        return V(r.k, r.o, r.it, r.pos, r.m, "list")

    def e_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.e_List(n)
        vs = [self.ev(e) for e in n.elts]
        it, pos = self.deps(*vs)
        return V("T", frozenset(), it, pos, vs)

    def e_Dict(self, n):
        m = {}
        it, pos = frozenset(), frozenset()
        merged = C
        for k, e in zip(n.keys, n.values):
            v = self.ev(e)
            if k is None:
                merged = join(merged, v) if v.k in "DM" else merged
                continue
            kv = self.ev(k)
            it, pos = it | v.it | kv.it, pos | v.pos | kv.pos
            if v.k != "C":
                kk = k.value if isinstance(k, ast.Constant) else None
                m[kk] = join(m[kk], v) if kk in m else v
        if merged.k == "D":
            return V("D", merged.o, it, pos, new="dict")
        if merged.k == "M":
            m = {**merged.m, **m}
        if m:
            return V("M", frozenset(), it, pos, m, "dict")
        return V("C", it=it, pos=pos, new="dict")

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        it, pos = self.deps(a, b)
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and ("S" in (a.k, b.k) or self.keysview(n.left) or self.keysview(n.right)):
            if not (a.k in "OX" or b.k in "OX"):
                return V("S", it=it, pos=pos)
        r = self.mix([a, b])
        if isinstance(n.op, ast.Add):
            new = a.new if a.new in ("list", "str") else b.new if b.new in ("list", "str") else None
            r = V(r.k, r.o, r.it, r.pos, r.m, new)
        if r.k == "O" and isinstance(n.op, ast.Mod) and a.new == "str":
            r = V("O", r.o, r.it, r.pos, new="str")
        return r

    def keysview(self, n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "keys" and not n.args

    def e_Compare(self, n):
        vs = [self.ev(n.left)] + [self.ev(c) for c in n.comparators]
        if all(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            it, pos = self.deps(*vs)
            return V("X", vs[0].o, it, pos) if vs[0].k == "X" else V("C", it=it, pos=pos)
        if any(v.k == "S" for v in vs):
            it, pos = self.deps(*vs)
            return V("C", it=it, pos=pos)
        return self.mix(vs)

    def e_IfExp(self, n):
        self.ev(n.test)
        return join(self.ev(n.body), self.ev(n.orelse))

    def e_BoolOp(self, n):
        r = None
        for x in n.values:
            v = self.ev(x)
            r = v if r is None else join(r, v)
        return r

    def e_Lambda(self, n):
        return C

    def e_JoinedStr(self, n):
        vs = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value)
                if v.k in "SD":
                    v = V("O", frozenset([self.site(x.value, "format")]))
                vs.append(v)
        r = self.mix(vs)
        return V(r.k, r.o, r.it, r.pos, new="str")

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n.value)
        return v

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else C
        if self.loops and v.it & self.lids():
            v = V("O", self.active(v.it))
            self.ret = v if self.ret is None else join(self.ret, v)
        elif self.ret is None:
            self.ret = C
        return C

    def e_Subscript(self, n):
        b, k = self.ev(n.value), self.ev(n.slice)
        it, pos = self.deps(b, k)
        if b.k == "M":
            if isinstance(n.slice, ast.Constant):
                v = b.m.get(n.slice.value, b.m.get(None, C))
            else:
                v = self.member(b)
            return V(v.k, v.o, v.it | it, v.pos | pos, v.m, v.new)
        if b.k == "T":
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(b.m) <= n.slice.value < len(b.m):
                return b.m[n.slice.value]
            return self.member(b)
        if b.k == "O":
            if self.positional(n.slice):
                return V("X", b.o, it, pos)
            if k.k in "OX":
                return V("O", b.o | k.o, it, pos)
            return V("O", b.o, it, pos)
        if b.k == "X":
            return V("X", b.o, it, pos)
        if k.k == "S":
            return V("O", frozenset([self.site(n, "select")]), it, pos)
        if k.k == "T":
            km = self.mix([x for x in k.m])
            st = [x for x in k.m if x.k == "S"]
            if st:
                return V("O", frozenset([self.site(n, "select")]), it, pos)
            if km.k in "OX":
                return V(km.k, km.o, it, pos)
        if k.k in "OX":
            return V(k.k, k.o, it, pos)
        return V("C", it=it, pos=pos)

    def positional(self, s):
        if isinstance(s, ast.UnaryOp):
            s = s.operand
        if isinstance(s, ast.Constant):
            return isinstance(s.value, int)
        if isinstance(s, ast.Slice):
            return s.lower is not None or s.upper is not None
        return False

    def comp(self, n, elts, kind):
        saved = dict(self.env)
        hashed, lids = [], []
        memb = frozenset()
        for g in n.generators:
            v = self.ev(g.iter)
            if v.k in "SDOX":
                self.n += 1
                lid = (self.f.where, self.n, len(self.H.stack))
                og = v.o if v.k in "OX" and v.o else frozenset([self.site(g.iter, "iterate over")])
                hashed.append((lid, og, v))
                self.loops.append((lid, og))
                lids.append(lid)
                self.bind_element(g.target, V("C", it=frozenset([lid])), v, lid)
            else:
                self.assign(g.target, self.member(v), None)
            for c in g.ifs:
                self.ev(c)
        vs = [self.ev(e) for e in elts]
        for _ in lids:
            self.loops.pop()
        self.env = saved
        og = frozenset().union(*[o for _, o, _ in hashed]) if hashed else frozenset()
        L = set(lids)
        it, pos = self.deps(*vs)
        dep = bool(it & L)
        it2, pos2 = it - L, pos - L
        if kind == "set":
            return V("S", it=it2, pos=pos2)
        if kind == "dict":
            kv, vv = vs
            if hashed and vv.pos & L:
                return V("X", og, it2, pos2, new="dict")
            if vv.k == "X" or kv.k == "X":
                return V("X", vv.o | kv.o, it2, pos2, new="dict")
            if hashed and kv.it & L:
                return V("D", og, it2, pos2, new="dict")
            if vv.k in "SMDO":
                return V("M", frozenset(), it2, pos2, {None: vv}, "dict")
            return V("C", it=it2, pos=pos2, new="dict")
        v = vs[0]
        if v.k == "X":
            return V("X", v.o, it2, pos2, new="list")
        if hashed and dep:
            if pos & L and it & L:
                return V("O", og, it2, pos2, m="num", new="list")
            return V("O", og, it2, pos2, new="list")
        if v.k in "SMDT":
            return V("M", frozenset(), it2, pos2, {None: v}, "list")
        if v.k == "O":
            return V("O", v.o, it2, pos2, new="list")
        return V("C", it=it2, pos=pos2, new="list")

    def e_ListComp(self, n):
        return self.comp(n, [n.elt], "list")

    def e_GeneratorExp(self, n):
        return self.comp(n, [n.elt], "list")

    def e_SetComp(self, n):
        return self.comp(n, [n.elt], "set")

    def e_DictComp(self, n):
        return self.comp(n, [n.key, n.value], "dict")

    # ------------------------------------------------------------ calls
    def ints(self, n):
        """does the expression clearly hold integers (whose hashes do not vary)"""
        return isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("range", "arange", "where", "nonzero", "argsort", "flatnonzero") \
            or isinstance(n, (ast.List, ast.Tuple)) and n.elts and all(isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) for e in n.elts)

    def rng(self, f):
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if isinstance(f, ast.Name):
            parts.append(f.id)
        base = parts[1:]
        return any(p in ("rng", "random", "random_state", "rs") or p.endswith("_rng") for p in base)

    def injective(self, key):
        """can two different names get the same key: True when provably not, False when they can"""
        P, f = self.H.P, self.f
        if isinstance(key, ast.Lambda):
            p = [a.arg for a in key.args.args]
            return self.inj_expr(key.body, p[0], {}) if p else None
        if isinstance(key, ast.Attribute) and key.attr in ("get", "index", "__getitem__"):
            return True
        if isinstance(key, ast.Attribute) and key.attr in ("lower", "upper", "casefold", "strip", "title"):
            return False
        if isinstance(key, ast.Name):
            if key.id == "str" or key.id == "repr":
                return True
            if key.id in ("len", "hash", "id", "type", "bool"):
                return False
        if isinstance(key, (ast.Name, ast.Attribute)):
            r = None
            if isinstance(key, ast.Attribute) and self.self and isinstance(key.value, ast.Name) and key.value.id in (self.self[0], self.self[1].node.name):
                m = P.find_method(self.self[1], key.attr)
                g = self.H.by_node.get(id(m[1])) if m else None
            else:
                r = P.resolve_expr(f.module, key)
                g = self.H.by_node.get(id(r[2])) if r and r[0] == "func" else None
                if g is None and isinstance(key, ast.Name):
                    inner = [h for h in self.H.fns if h.outer is not None and h.name == key.id and h.module is f.module and h.outer is f]
                    g = inner[0] if inner else None
            if g is not None:
                ps = [x for x in g.params if x != g.selfname]
                if not ps:
                    return None
                return self.inj_fn(g, ps[0])
        return None

    def inj_fn(self, g, p):
        """every return of g keeps the whole of its argument"""
        defs = {}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)
        if p in defs:
            return None
        rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return)]
        res = [self.inj_expr(r, p, defs) for r in rets]
        if not res:
            return None
        if all(r is True for r in res):
            return True
        return False if any(r is False for r in res) else None

    def inj_expr(self, e, p, defs, depth=0):
        """True: determines the argument; False: clearly forgets part of it; None: unknown"""
        if isinstance(e, ast.Name):
            if e.id == p:
                return True
            if e.id in defs and depth < 6:
                rs = [self.inj_expr(d, p, defs, depth + 1) for d in defs[e.id]]
                return True if rs and all(r is True for r in rs) else False if any(r is False for r in rs) else None
            return None
        if isinstance(e, ast.Tuple):
            rs = [self.inj_expr(x, p, defs, depth + 1) for x in e.elts]
            if any(r is True for r in rs):
                return True
            return False if rs and all(r is False for r in rs) else None
        if isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Name) and e.slice.id == p:
                return True                    # position in an order
            if isinstance(e.value, ast.Name) and e.value.id == p:
                return False                   # a part of the name
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ("get", "index", "__getitem__") and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == p:
                return True
            if isinstance(f, ast.Name) and f.id in ("str", "repr") and e.args:
                return self.inj_expr(e.args[0], p, defs, depth + 1)
            if isinstance(f, ast.Name) and f.id in ("int", "float"):
                r = self.inj_expr(e.args[0], p, defs, depth + 1) if e.args else False
                return False if r is False else None
            if isinstance(f, ast.Name) and f.id in ("len", "hash", "id", "type", "bool"):
                return False
            if isinstance(f, ast.Attribute) and f.attr in ("group", "groups", "lower", "upper", "casefold", "strip", "lstrip", "rstrip"):
                if f.attr == "group" and (not e.args or isinstance(e.args[0], ast.Constant) and e.args[0].value == 0):
                    return None
                return False
            r = self.H.P.resolve_expr(self.f.module, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "func" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == p:
                g = self.H.by_node.get(id(r[2]))
                if g is not None and g.params and depth < 6:
                    return self.inj_fn(g, g.params[0])
            if isinstance(f, ast.Attribute) and f.attr in ("split",):
                return None
            return None
        if isinstance(e, ast.BinOp) or isinstance(e, ast.UnaryOp):
            return None
        if isinstance(e, ast.IfExp):
            rs = [self.inj_expr(x, p, defs, depth + 1) for x in (e.body, e.orelse)]
            return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
        return None

    def sort(self, n, v, key):
        """ordering an unordered value: with ties, the hash order shows through"""
        if v.k in "SDO" or v.k == "X" and v.o:
            inj = True if key is None or isinstance(key, ast.Constant) and key.value is None else self.injective(key)
            self.H.ties.append((self.f.where, txt(n), inj))
            if inj is False:
                return V("O", frozenset([self.site(n, "ties in")]), v.it, v.pos, new="list")
        return V("C", it=v.it, pos=v.pos, new="list")

    def e_Call(self, n):
        f = n.func
        name = f.id if isinstance(f, ast.Name) else None
        if name == "super" or isinstance(f, ast.Name) and name in self.env and self.env[name].k != "C":
            pass
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        allv = args + list(kws.values())
        it, pos = self.deps(*allv)
        a0 = args[0] if args else C
        if self.loops and self.rng(f):
            return V("X", frozenset().union(*[o for _, o in self.loops]))
        shadow = name is not None and (name in self.f.stores() or name in self.f.params)
        if name and not shadow:
            if name in ("set", "frozenset"):
                if n.args and self.ints(n.args[0]):
                    return C
                return V("S", it=it, pos=pos)
            if name == "sorted" and args:
                key = next((k.value for k in n.keywords if k.arg == "key"), None)
                return self.sort(n, a0, key)
            if name in ("hash",):
                return V("X", frozenset([self.site(n, "value of")]))
            if name in ("min", "max") and len(args) == 1 and a0.k in "SDO":
                key = next((k.value for k in n.keywords if k.arg == "key"), None)
                if key is not None:
                    inj = self.injective(key)
                    self.H.ties.append((self.f.where, txt(n), inj))
                    if inj is False:
                        return V("X", frozenset([self.site(n, "ties in")]))
                return V("C", it=it, pos=pos)
            if name in SYM:
                return V("C", it=it, pos=pos) if a0.k != "X" else a0
            if name in ("list", "tuple", "iter", "reversed", "enumerate"):
                if a0.k in "SD":
                    r = V("O", frozenset([self.site(n, "")]), it, pos, m="enum" if name == "enumerate" else None, new="list")
                    return r
                if a0.k == "O":
                    return V("O", a0.o, it, pos, m="enum" if name == "enumerate" else a0.m, new="list")
                if name == "enumerate":
                    if a0.k in "MT":
                        return V("M", m={None: V("T", m=[C, self.member(a0)])}, it=it, pos=pos)
                    return V("C", it=it, pos=pos)
                return V(a0.k, a0.o, it, pos, a0.m, "list")
            if name == "next" and args:
                if a0.k in "SO":
                    return V("X", a0.o or frozenset([self.site(n, "")]), it, pos)
                return self.member(a0)
            if name == "zip":
                return self.zip(n, args, it, pos)
            if name == "map" and len(args) > 1:
                a = args[1]
                if a.k in "SDO":
                    return V("O", a.o if a.k == "O" and a.o else frozenset([self.site(n, "")]), it, pos)
            if name == "filter" and len(args) > 1 and args[1].k in "SDO":
                a = args[1]
                return V("O", a.o if a.k == "O" and a.o else frozenset([self.site(n, "")]), it, pos)
            if name == "dict":
                if a0.k == "O":
                    if a0.m == "num":
                        return V("X", a0.o, it, pos, new="dict")
                    return V("D", a0.o, it, pos, new="dict")
                if a0.k in "DM" and not kws:
                    return V(a0.k, a0.o, it, pos, a0.m, "dict")
                if a0.k == "X":
                    return a0
                m = {k: v for k, v in kws.items() if k and v.k != "C"}
                if m:
                    return V("M", frozenset(), it, pos, m, "dict")
                return V("C", it=it, pos=pos, new="dict")
            if name in ("str", "repr", "format") and a0.k in "SD":
                return V("O", frozenset([self.site(n, "")]), it, pos, new="str")
        if isinstance(f, ast.Attribute):
            r = self.method(n, f, args, kws, it, pos)
            if r is not None:
                return r
            if not (self.self and isinstance(f.value, ast.Name) and f.value.id == self.self[0]):
                b = self.ev(f.value)
                it, pos = it | b.it, pos | b.pos
        elif name in self.env:
            it = it | self.env[name].it
        r = self.project_call(n, args, kws, it, pos)
        if r is not None:
            return r
        return self.external(n, f, args, kws, it, pos)

    def zip(self, n, args, it, pos):
        un = [a for a in args if a.k in "SDO"]
        if any(a.k == "X" for a in args):
            return self.mix(args)
        if un:
            og = frozenset()
            names = set()
            for a, x in zip(args, n.args):
                if a.k in "SD":
                    o = (self.f.where, "iterate over %s" % txt(x))
                    self.H.sites[o] = n.lineno
                    og |= {o}
                    names.add(o)
                elif a.k == "O":
                    og |= a.o
                    names |= a.o
            rest = [a for a in args if a.k not in "SDO"]
            # pairing two walks of one collection is free of order; pairing with an ordered sequence numbers it
            paired = not rest and len(names) == 1
            return V("O", og, it, pos, m=None if paired else "num", new="list")
        if any(a.k in "SMDT" for a in args):
            return V("M", frozenset(), it, pos, {None: V("T", m=[self.member(a) for a in args])})
        return V("C", it=it, pos=pos)

    def method(self, n, f, args, kws, it, pos):
        a = f.attr
        # set.union(x, y)
        if isinstance(f.value, ast.Name) and f.value.id in ("set", "frozenset") and a in SETOPS:
            return V("S", it=it, pos=pos)
        s = self.self
        if s and isinstance(f.value, ast.Name) and f.value.id == s[0]:
            return None
        b = self.ev(f.value)
        it, pos = it | b.it, pos | b.pos
        a0 = args[0] if args else C
        if b.k == "S":
            if a in SETOPS or a == "copy":
                return V("S", it=it, pos=pos)
            if a == "pop":
                return V("X", frozenset([self.site(n, "")]), it, pos)
            if a in ("add", "remove", "discard", "update", "difference_update", "intersection_update", "clear", "symmetric_difference_update"):
                return C
            return V("C", it=it, pos=pos)
        if a in ("add", "update", "discard") and b.k == "C" and self.loops:
            return C
        if a == "join" and args and a0.k in "SD":
            return V("O", frozenset([self.site(n, "")]), it, pos, new="str")
        if a in GROW:
            tgt = self.base_of(f.value)
            v = args[-1] if args else C
            lids = self.lids()
            own = self.ev(f.value) if not isinstance(f.value, (ast.Name, ast.Attribute)) else C
            if v.k in "SD" and a in ("extend", "extendleft"):
                v = V("O", frozenset([self.site(n, "")]))
            if self.loops and not (own.it & lids) and not (b.it & lids):
                if v.it & lids or v.k == "X":
                    self.write(tgt, V("O", self.active(v.it) or v.o, new="list"))
                if isinstance(tgt, ast.Attribute):
                    self.grown.append((tgt.attr,))
            elif v.k in "OX":
                self.write(tgt, V("O" if v.k == "O" else "X", v.o, new="list"))
            elif v.k in "SMDT" and isinstance(tgt, ast.Name) and self.env.get(tgt.id, C).k == "C":
                if v.k == "S":
                    self.env[tgt.id] = V("M", m={None: v}, new="list")
            if isinstance(tgt, ast.Attribute) and s and isinstance(tgt.value, ast.Name) and tgt.value.id == s[0]:
                self.grown.append((tgt.attr,))
            return C
        if a == "sort" and isinstance(f.value, ast.Name) and b.k in "OX":
            key = next((k.value for k in n.keywords if k.arg == "key"), None)
            self.env[f.value.id] = self.sort(n, b, key)
            return C
        if b.k == "M":
            if a in ("values", "get", "pop", "setdefault"):
                if a == "get" and n.args and isinstance(n.args[0], ast.Constant):
                    return b.m.get(n.args[0].value, b.m.get(None, C))
                return self.member(b) if a != "values" else V("M", frozenset(), it, pos, {None: self.member(b)})
            if a == "items":
                return V("M", frozenset(), it, pos, {None: V("T", m=[C, self.member(b)])})
            if a == "copy":
                return b
            return V("C", it=it, pos=pos)
        if b.k == "D":
            if a in ("keys", "values", "items"):
                return V("O", b.o, it, pos)
            if a == "copy":
                return b
            if a == "popitem":
                return V("X", b.o, it, pos)
            return V("C", it=it, pos=pos)
        if b.k in "OX":
            if a in SYM_METHODS:
                return V("C", it=it, pos=pos) if b.k == "O" else b
            if a in ("sort_values", "sort_index"):
                return V("C", it=it, pos=pos)
            if a == "pop" and b.k == "O":
                return V("X", b.o, it, pos)
            if a == "index":
                return V("X", b.o, it, pos)
            if a == "copy":
                return b
            r = self.mix([b] + args + list(kws.values()))
            return V(r.k, r.o, it, pos, new=b.new)
        if a == "update" and args and a0.k == "D":
            self.write(self.base_of(f.value), V("D", a0.o, new="dict"))
            return C
        return None

    def project_call(self, n, args, kws, it, pos):
        tg = self.H.A.targets(self.f, n)
        if not tg:
            return None
        out = None
        for g, drop in tg:
            if g is None or isinstance(g.node, ast.Lambda):
                return None
            a = g.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if drop and names:
                names = names[1:]
            b = {}
            star = any(isinstance(x, ast.Starred) for x in n.args)
            for i, v in enumerate(args):
                if i < len(names) and not star:
                    b[names[i]] = v
            for k, v in kws.items():
                if k in g.params:
                    b[k] = v
            # loop dependence is handled here, the callee sees the kind
            inner = {k: V(v.k, v.o, m=v.m, new=v.new) for k, v in b.items()}
            inner = {k: v for k, v in inner.items() if v.k != "C"}
            ret, mut, grown = self.H.summary(g, inner)
            if g.name == "__init__":
                ret = V(new=("inst", g.cls))
            for p, v in mut.items():
                i = names.index(p) if p in names else None
                src = n.args[i] if i is not None and i < len(n.args) else next((k.value for k in n.keywords if k.arg == p), None)
                if src is not None and isinstance(src, (ast.Name, ast.Attribute)):
                    self.write(self.base_of(src), v)
            if self.loops and it & self.lids() and self.self:
                for (at,) in grown:
                    self.H.set_attr(self.self[1], at, V("O", self.active(it)))
                    if not at.startswith("_"):
                        for o in self.active(it):
                            self.H.escape(o, "attribute %s grown through %s" % (at, txt(n)))
            for x in grown:
                if x not in self.grown:
                    self.grown.append(x)
            r = V(ret.k, ret.o, ret.it | it, ret.pos | pos, ret.m, ret.new)
            out = r if out is None else join(out, r)
        return out

    def external(self, n, f, args, kws, it, pos):
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        lib = isinstance(root, ast.Name) and root.id in ("np", "numpy", "pd", "sp", "scipy", "jnp")
        if lib and name in SYM_NP:
            return V("C", it=it, pos=pos)
        vs = args + list(kws.values())
        fl = []
        for i, v in enumerate(vs):
            if v.k in "SD" and (lib or name in ("Index", "Series", "DataFrame")) and name not in ("isin", "issubset"):
                x = n.args[i] if i < len(n.args) else n.keywords[i - len(n.args)].value
                if v.k == "S":
                    v = V("O", frozenset([self.site(n, "")]))
                else:
                    v = V("O", v.o)
            elif v.k == "T":
                v = self.mix(v.m)
            elif v.k == "M":
                v = self.mix(list(v.m.values()))
            fl.append(v)
        r = self.mix(fl)
        r = V(r.k, r.o, r.it | it, r.pos | pos)
        new = "frame" if name == "DataFrame" and not n.args and "data" not in kws else "dict" if name in ("defaultdict", "OrderedDict") else \
            "list" if name == "deque" else None
        return V(r.k, r.o, r.it, r.pos, new=new)
