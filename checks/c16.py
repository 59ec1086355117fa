"""C16 every name, attribute and call resolves."""
import ast
import json
import os
import re
import subprocess

from sa.check import Check
from sa.project import Project, PKG, decorators
from sa import scopes as sc
from sa.faint import Faint

KNOWN_DECS = {"staticmethod", "classmethod", "property", "abstractmethod", "njit", "jit", "vectorize", "lru_cache", "cache",
              "wraps", "setter", "cached_property", "contextmanager", "override"}
TRANSPARENT = {"njit", "jit", "lru_cache", "cache", "staticmethod", "classmethod", "abstractmethod"}
TESTLIKE = re.compile(r"^(test|test_.*|.*_test|conftest)$")
REMOVED = {"A": "scipy sparse matrices and numpy arrays have no .A", "H": "scipy sparse matrices and numpy arrays have no .H"}
PY = "/opt/venv/bin/python"


def stub(node):
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
        return True
    return len(body) == 1 and (isinstance(body[0], ast.Pass) or isinstance(body[0], ast.Raise))


class Res:
    def __init__(self, chk, P):
        self.chk, self.P = chk, P
        self.pyx = sc.pyx_modules(P.root)
        self.ext = {}             # dotted external name -> [where]
        self.extkw = {}           # (dotted, npos, kws) -> [where]
        self.loose = {}           # attribute names on receivers of unknown class
        self.loose_calls = {}
        self.n = {}

    def count(self, rule, k=1):
        self.n[rule] = self.n.get(rule, 0) + k

    def bad(self, rule, where, what, detail):
        # keyed by file and construct, so that moving code between functions of a file keeps the key
        f, _, q = where.partition(":")
        self.chk.ob(rule, f, what, "violated", "%s (in %s)" % (detail, q))

    # ------------------------------------------------------------ imports
    def internal(self, dotted):
        return dotted == PKG or dotted.startswith(PKG + ".")

    def check_import(self, m, where, base, attr):
        """`from base import attr` (attr None: import base)"""
        P = self.P
        if not self.internal(base):
            self.ext.setdefault(base if attr is None else base + "." + attr, []).append((where, base))
            return
        self.count("import")
        if attr is None:
            if base not in P.modules and base not in self.pyx:
                self.bad("import", where, base, "no module %s" % base)
            return
        full = base + "." + attr
        if base in self.pyx:
            if attr not in self.pyx[base]:
                self.bad("import", where, full, "%s defines no %s" % (base, attr))
            return
        if base not in P.modules:
            self.bad("import", where, full, "no module %s" % base)
            return
        if full in P.modules or full in self.pyx:
            return
        names = sc.module_names(P, P.modules[base])
        if names is not None and attr not in names:
            self.bad("import", where, full, "%s defines no %s" % (base, attr))

    def imports(self):
        for m in self.P.modules.values():
            for n, ctx, guarded in walk_ctx(m.tree):
                where = "%s:%s" % (m.relpath, ctx)
                if guarded & {"ImportError", "ModuleNotFoundError", "Exception", "*"}:
                    continue
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self.check_import(m, where, a.name, None)
                elif isinstance(n, ast.ImportFrom):
                    base = m.resolve_rel(n.level, n.module)
                    for a in n.names:
                        self.check_import(m, where, base, None if a.name == "*" else a.name)

    # ------------------------------------------------------------ names
    def names(self):
        for m in self.P.modules.values():
            bad, n = sc.unresolved_names(self.P, m)
            self.count("name", n)
            for scope, nm in bad:
                self.bad("name", "%s:%s" % (m.relpath, scope), nm, "name '%s' is bound nowhere" % nm)

    # ------------------------------------------------------------ attributes and calls
    def attr_set(self, K):
        """attribute names instances of exactly class K can have, None when open-ended"""
        d = K.__dict__.get("_c16attrs", 0)
        if d != 0:
            return d
        out = set()
        if self.P.has_external_base(K):
            out = None
        else:
            for k in self.P.mro(K):
                if out is None:
                    break
                if "__getattr__" in k.methods or "__getattribute__" in k.methods or k.node.decorator_list and \
                        "dataclass" not in decorators(k.node):
                    out = None
                    break
                out |= set(k.attrs) | set(k.methods) | set(k.inner)
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    elif isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__"):
                        out = None
                        break
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
                        if n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            out.add(n.args[1].value)
                        else:
                            out = None
                            break
                if out is None:
                    break
                for st in k.node.body:
                    for n in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
        K._c16attrs = out
        return out

    def has(self, K, attr):
        if attr.startswith("__"):
            return True
        s = self.attr_set(K)
        return s is None or attr in s or attr in self.P.foreign_stores()

    def targets(self, f):
        """classes whose instances can run method f as self: leaves that inherit it"""
        P = self.P
        cls = f.cls
        name = f.name
        g = f
        while g.outer is not None:
            g = g.outer
        name = g.name
        fam = [cls] + P.subclasses(cls)
        leaves = [k for k in fam if not P.subclasses(k)]
        return fam, leaves, name

    def self_attr(self, f, cls, node, guarded):
        P = self.P
        attr = node.attr
        if guarded & {"AttributeError", "Exception", "*"}:
            return
        fam, leaves, mname = self.targets(f)
        self.count("attribute")
        # nowhere in the family: certain
        rel = set(fam)
        for k in fam:
            rel |= set(P.mro(k))
        if not any(self.has(k, attr) for k in rel):
            self.bad("attribute", "%s:%s" % (cls.module.relpath, f.qual), "%s.%s" % (cls.name, attr), "no class of the hierarchy of %s defines or assigns '%s'" % (cls.name, attr))
            return
        for k in leaves:
            if self.has(k, attr):
                continue
            hit = P.find_method(k, mname)
            if hit is None or hit[0] is not cls:
                continue          # overridden: only reachable through super()
            if k is not cls and not self.constructible(k):
                continue
            self.bad("attribute", "%s:%s" % (k.module.relpath, f.qual), "%s.%s" % (k.name, attr), "instances of %s have no '%s'" % (k.name, attr))

    def constructible(self, K):
        return True

    def bind_method(self, f, K, owner, target, call, where, what, bound=True):
        decs = decorators(target)
        if any(d not in TRANSPARENT for d in decs):
            return
        drop = bound and "staticmethod" not in decs
        if "classmethod" in decs:
            drop = True
        self.bind(target.args, call, where, what, drop)

    def bind(self, args, call, where, what, drop, note=""):
        star = any(isinstance(a, ast.Starred) for a in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = 0 if star else len(call.args)
        kws = [k.arg for k in call.keywords if k.arg]
        if star:
            # only the keyword names can be judged
            p = sc.bind(args, 0, kws, True, True, drop)
        else:
            p = sc.bind(args, npos, kws, star, dstar, drop)
        self.count("call")
        if p:
            self.bad("call", where, what, p + note)

    def local_types(self, f):
        """locals of f that only ever hold a fresh instance of one class"""
        P, out, dead = self.P, {}, set()
        for p in f.params:
            dead.add(p)
        for n in f.own_nodes():
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                nm = n.targets[0].id
                c = self.inst_of(f.module, n.value, f)
                if c is None or nm in out and out[nm] is not c:
                    dead.add(nm)
                else:
                    out[nm] = c
        # names stored by anything else
        simple = set()
        for n in f.own_nodes():
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                simple.add(id(n.targets[0]))
        for n in f.own_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in simple:
                dead.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                dead.update(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                dead.add(n.name)
        return {k: v for k, v in out.items() if k not in dead}

    def inst_of(self, module, v, f=None):
        if isinstance(v, ast.Call):
            if isinstance(v.func, ast.Name) and f is not None and self.shadowed(f, v.func.id):
                return None
            r = self.P.resolve_expr(module, v.func) if isinstance(v.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "class" and "__new__" not in r[1].methods:
                return r[1]
        return None

    def shadowed(self, f, name):
        g = f
        while g is not None:
            if name in g.params or name in g.stores():
                return True
            g = g.outer
        return False

    def attr_stores(self):
        """attribute name -> every store of it in the package: (class node it stands in, module, value or None)"""
        if not hasattr(self, "_astores"):
            out = {}

            def go(n, cn, m):
                if isinstance(n, ast.ClassDef):
                    cn = n
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                    out.setdefault(n.targets[0].attr, []).append((cn, m, n.value))
                    go(n.targets[0].value, cn, m)
                    go(n.value, cn, m)
                    return
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.setdefault(n.attr, []).append((cn, m, None))
                for c in ast.iter_child_nodes(n):
                    go(c, cn, m)
            for m in self.P.modules.values():
                go(m.tree, None, m)
            self._astores = out
        return self._astores

    def self_types(self, cls):
        """self attributes that only ever hold a fresh instance of one class, over the whole family of cls"""
        d = cls.__dict__.get("_c16st")
        if d is not None:
            return d
        P = self.P
        fam = set(P.mro(cls)) | set(P.subclasses(cls))
        for k in list(fam):
            fam |= set(P.mro(k))
        out, dead = {}, set()
        for k in fam:
            dead |= set(k.attrs) | set(k.methods)
        famnodes = {id(k.node) for k in fam}
        for attr, stores in self.attr_stores().items():
            cs = [self.inst_of(m, v) if v is not None and id(cn) in famnodes else None for cn, m, v in stores]
            if cs[0] is not None and all(c is cs[0] for c in cs) and attr not in dead:
                out[attr] = cs[0]
        d = out
        cls._c16st = d
        return d

    def body(self, f):
        P, m = self.P, f.module
        sv = f.self_of()
        loc = self.local_types(f)
        hasattrs = {n.args[1].value for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                    and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
        calls = set()
        for n, guarded in own_ctx(f):
            if isinstance(n, ast.Call):
                self.call(f, n, sv, loc, guarded)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                v = n.value
                if isinstance(v, ast.Name) and sv and v.id == sv[0] and not self.local_rebound(f, v.id):
                    if n.attr not in hasattrs:
                        self.self_attr(f, sv[1], n, guarded)
                    continue
                if isinstance(v, ast.Name) and v.id in loc and n.attr not in hasattrs:
                    self.count("attribute")
                    if not self.has(loc[v.id], n.attr):
                        self.bad("attribute", f.where, "%s.%s" % (loc[v.id].name, n.attr),
                                 "instances of %s have no '%s'" % (loc[v.id].name, n.attr))
                    continue
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and sv and v.value.id == sv[0]:
                    c = self.self_types(sv[1]).get(v.attr)
                    if c is not None and n.attr not in hasattrs:
                        self.count("attribute")
                        if not self.has(c, n.attr):
                            self.bad("attribute", f.where, "%s.%s" % (v.attr, n.attr),
                                     "self.%s holds a %s, which has no '%s'" % (v.attr, c.name, n.attr))
                    continue
                if self.dotted(f, n, guarded) or self.external_value(f, n.value):
                    continue
                if not guarded & {"AttributeError", "Exception", "*"} and n.attr not in hasattrs:
                    self.loose.setdefault(n.attr, set()).add(f.where)
                    if n.attr in REMOVED and isinstance(v, (ast.Call, ast.Subscript)):
                        self.bad("attribute", f.where, ast.unparse(n), REMOVED[n.attr])

    def external_value(self, f, v, seen=()):
        """a value some library made (its attributes are that library's business)"""
        while isinstance(v, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(v, ast.Call):
                r = self.P.resolve_expr(f.module, v.func) if isinstance(v.func, (ast.Name, ast.Attribute)) else None
                if r is not None:
                    return r[0] == "ext"
                v = v.func
            else:
                v = v.value
        if not isinstance(v, ast.Name):
            return False
        if v.id in f.imported_locally():
            return True
        r = self.P.lookup(f.module, v.id) if not self.shadowed(f, v.id) else None
        if r is not None and r[0] == "ext":
            return True
        vals = [n.value for n in f.own_nodes() if isinstance(n, ast.Assign) for t in n.targets
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]) if isinstance(x, ast.Name) and x.id == v.id]
        if v.id in seen:
            return False
        return any(isinstance(x, ast.Call) and self.external_value(f, x, seen + (v.id,)) for x in vals)

    def local_rebound(self, f, name):
        return name in f.stores()

    def root_name(self, n):
        while isinstance(n, ast.Attribute):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None

    def dotted(self, f, n, guarded, m=None, where=None):
        """module.attr and Class.attr chains"""
        m = m or f.module
        where = where or f.where
        root = self.root_name(n)
        if root is None or (f is not None and self.shadowed(f, root)):
            return False
        if guarded & {"AttributeError", "Exception", "*", "ImportError"}:
            return True
        r = self.P.resolve_expr(m, n.value)
        if r is None:
            return False
        if r[0] == "ext":
            self.ext.setdefault(r[1] + "." + n.attr, []).append((where, root))
        elif r[0] == "pkgmod":
            self.count("attribute")
            sub = r[1]
            names = sc.module_names(self.P, sub)
            full = sub.name + "." + n.attr
            if names is not None and n.attr not in names and full not in self.P.modules and full not in self.pyx and not n.attr.startswith("__"):
                self.bad("attribute", where, "%s.%s" % (sub.name, n.attr), "module %s has no '%s'" % (sub.name, n.attr))
        elif r[0] == "class":
            self.count("attribute")
            s = self.attr_set(r[1])
            if s is not None and n.attr not in s and not n.attr.startswith("__") and n.attr not in ("mro",) and \
                    n.attr not in self.P.foreign_stores():
                self.bad("attribute", where, "%s.%s" % (r[1].name, n.attr), "class %s has no '%s'" % (r[1].name, n.attr))
        return True

    def call(self, f, n, sv, loc, guarded):
        P, fn = self.P, n.func
        if guarded & {"TypeError", "Exception", "*"}:
            return
        what = ast.unparse(fn)
        m, where = f.module, f.where
        if isinstance(fn, ast.Name):
            # nested function of the enclosing scopes
            g = f
            while g is not None:
                hits = [x for x in g.own_nodes() if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == fn.id]
                stores = [x for x in g.own_nodes() if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == fn.id]
                if fn.id in g.params or stores:
                    return
                if hits:
                    if len(hits) == 1 and all(d in TRANSPARENT for d in decorators(hits[0])):
                        self.bind(hits[0].args, n, where, what, False)
                    return
                if any(isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == fn.id for a in x.names)
                       for x in g.own_nodes()):
                    return
                g = g.outer
            self.resolved(P.lookup(m, fn.id), n, where, what, m, fn.id)
            return
        if not isinstance(fn, ast.Attribute):
            return
        v = fn.value
        if isinstance(v, ast.Name) and sv and v.id == sv[0] and not self.local_rebound(f, v.id):
            fam, leaves, mname = self.targets(f)
            done = set()
            for k in fam:
                hit0 = P.find_method(k, mname)
                if hit0 is None or hit0[0] is not sv[1]:
                    continue
                st = self.attr_set(k)
                hit = P.find_method(k, fn.attr)
                if hit is None or id(hit[1]) in done or stub(hit[1]):
                    continue
                if st is not None and self.stored_attr(k, fn.attr):
                    continue
                done.add(id(hit[1]))
                if "property" in decorators(hit[1]):
                    continue
                self.bind_method(f, k, hit[0], hit[1], n, where, "%s -> %s" % (what, hit[0].name), True)
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None and not v.args:
            if P.has_external_base(f.cls):
                return
            hit = P.find_method(f.cls, fn.attr, after=f.cls)
            self.count("attribute")
            if hit is None:
                # the method resolution order of a subclass may put a sibling behind this class
                if any(P.find_method(k, fn.attr, after=f.cls) for k in P.subclasses(f.cls) if f.cls in P.mro(k)):
                    return
                if fn.attr.startswith("__"):
                    return
                self.bad("attribute", where, "super().%s" % fn.attr, "no base of %s defines '%s'" % (f.cls.name, fn.attr))
                return
            if stub(hit[1]):
                return
            self.bind_method(f, f.cls, hit[0], hit[1], n, where, what, True)
            return
        c = None
        if isinstance(v, ast.Name) and v.id in loc:
            c = loc[v.id]
        elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and sv and v.value.id == sv[0]:
            c = self.self_types(sv[1]).get(v.attr)
        elif isinstance(v, ast.Call):
            c = self.inst_of(m, v, f)
        if c is not None:
            hit = P.find_method(c, fn.attr)
            if hit and not stub(hit[1]) and not self.stored_attr(c, fn.attr) and "property" not in decorators(hit[1]):
                self.bind_method(f, c, hit[0], hit[1], n, where, "%s -> %s" % (what, hit[0].name), True)
            return
        root = self.root_name(fn)
        if root is None or self.shadowed(f, root):
            self.loose_call(fn.attr, n, where)
            return
        r = P.resolve_expr(m, fn)
        if r is None:
            self.loose_call(fn.attr, n, where)
        self.resolved(r, n, where, what, m, fn.attr)

    def loose_call(self, name, n, where):
        """a method call on a receiver of unknown class: judged against every definition of that name"""
        if name in self.P.outside_stores():
            return
        self.loose_calls.setdefault(name, []).append((n, where))

    def defined_names(self):
        out = set()
        for m in self.P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "namedtuple", "make_dataclass"):
                    out |= {w for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str) for w in c.value.replace(",", " ").split()}
                elif isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    out.add(n.value)       # column names, dictionary keys
        for v in self.pyx.values():
            out |= v
        return out

    def method_defs(self):
        out = {}
        for f in sc.functions(self.P):
            out.setdefault(f.name, []).append(f)
        return out

    def loose_names(self, ext):
        """attribute names and method calls on receivers of unknown class"""
        known = self.defined_names()
        for a, wheres in sorted(self.loose.items()):
            self.count("attribute-anywhere")
            if a in known or a in ext or a.startswith("__"):
                continue
            for w in sorted(wheres):
                self.bad("attribute-anywhere", w, a, "neither this package nor any library it imports has an attribute '%s'" % a)
        defs = self.method_defs()
        for name, sites in sorted(self.loose_calls.items()):
            ds = defs.get(name)
            if not ds or name in ext or any(any(d not in TRANSPARENT for d in x.decs) or not x.is_method for x in ds):
                continue
            for n, where in sites:
                self.count("call-anywhere")
                star = any(isinstance(a, ast.Starred) for a in n.args)
                dstar = any(k.arg is None for k in n.keywords)
                kws = [k.arg for k in n.keywords if k.arg]
                probs = [sc.bind(x.node.args, 0 if star else len(n.args), kws, star, star or dstar, not x.static) for x in ds]
                if all(probs):
                    self.bad("call-anywhere", where, name, "no definition of '%s' accepts this call: %s" % (name, "; ".join(sorted(set(probs)))))

    def stored_attr(self, K, attr):
        """some instance of the family may carry `attr` as data, hiding the method"""
        return attr in self.P.outside_stores()

    def resolved(self, r, n, where, what, m, name):
        P = self.P
        if r is None:
            return
        if r[0] == "func":
            mod, node = r[1], r[2]
            same = [x for x in ast.walk(mod.tree) if isinstance(x, ast.FunctionDef) and x.name == node.name and x in mod.tree.body]
            if node.name in mod.assigns or len(same) != 1:
                return
            if all(d in TRANSPARENT for d in decorators(node)):
                self.bind(node.args, n, where, what, False)
        elif r[0] == "method":
            k, node = r[1], r[2]
            decs = decorators(node)
            if any(d not in TRANSPARENT for d in decs):
                return
            self.bind(node.args, n, where, what, "classmethod" in decs)
        elif r[0] == "class":
            k = r[1]
            if P.has_external_base(k) or any("metaclass" == kw.arg for kw in k.node.keywords):
                return
            if k.node.decorator_list:
                return
            hit = P.find_method(k, "__init__")
            if P.find_method(k, "__new__"):
                return
            if hit:
                if not hit[1].decorator_list:
                    self.bind(hit[1].args, n, where, what, True)
            elif n.args or n.keywords:
                self.count("call")
                self.bad("call", where, what, "%s takes no arguments" % k.name)
        elif r[0] == "ext":
            star = any(isinstance(a, ast.Starred) for a in n.args)
            dstar = any(k.arg is None for k in n.keywords)
            key = (r[1], None if star else len(n.args), tuple(k.arg for k in n.keywords if k.arg), star or dstar)
            self.extkw.setdefault(key, []).append(where)

    def bodies(self):
        for f in sc.functions(self.P):
            self.body(f)
        for m in self.P.modules.values():
            where = "%s:<module>" % m.relpath
            for n, ctx, guarded in walk_ctx(m.tree, functions=False):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.dotted(None, n, guarded, m, where)
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and not guarded:
                    self.resolved(self.P.resolve_expr(m, n.func), n, where, ast.unparse(n.func), m, "")

    # ------------------------------------------------------------ installed third-party packages
    def external(self):
        prog = r'''
import sys, json, importlib, inspect, warnings, io, os
warnings.simplefilter("ignore")
sys.path[:] = [p for p in sys.path if p not in ("", os.getcwd())]
req = json.load(sys.stdin)
def get(d):
    parts = d.split(".")
    if parts[0] == "pystatsm": return "skip", None
    obj = None; k = 0
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:i])); k = i; break
        except ImportError as e:
            if i == 1:
                return "nomod", str(e)
        except Exception as e:
            return "skip", str(e)
    for j in range(k, len(parts)):
        if not inspect.ismodule(obj) and not inspect.isclass(obj):
            return "skip", None
        try:
            obj = getattr(obj, parts[j])
        except AttributeError:
            try:
                obj = importlib.import_module(".".join(parts[:j+1]))
            except Exception:
                return "noattr", "%s has no %r" % (".".join(parts[:j]), parts[j])
    return "ok", obj
out = {"names": {}, "calls": {}}
for d in req["names"]:
    s, o = get(d)
    out["names"][d] = [s, o if isinstance(o, str) else ""]
for key, (d, npos, kws, star) in req["calls"].items():
    s, o = get(d)
    r = "skip"
    if s == "ok" and callable(o):
        try:
            sig = inspect.signature(o)
        except Exception:
            sig = None
        if sig is not None:
            try:
                a = [None]*(npos or 0)
                if npos is None or star:
                    sig.bind_partial(*a, **{k: None for k in kws})
                else:
                    sig.bind(*a, **{k: None for k in kws})
                r = "ok"
            except TypeError as e:
                r = "bad:" + str(e)
    out["calls"][key] = r
names = set()
for m in req["mods"]:
    try: importlib.import_module(m)
    except Exception: pass
for m in list(sys.modules.values()):
    try: d = dict(vars(m))
    except Exception: continue
    names |= set(d)
    for v in d.values():
        if isinstance(v, type):
            names |= set(dir(v))
left = set(req["attrs"]) - names
# attributes only set on instances: look the word up in the sources of the imported packages
if left:
    import re
    tops = sorted({m.split(".")[0] for m in req["mods"]})
    pat = re.compile(r"\b(%s)\b" % "|".join(sorted(left)))
    for t in tops:
        mod = sys.modules.get(t)
        for base in list(getattr(mod, "__path__", [])) if mod else []:
            for d, dirs, files in os.walk(base):
                dirs[:] = [x for x in dirs if x not in ("tests", "test", "__pycache__")]
                for f in files:
                    if f.endswith(".py"):
                        try: txt = open(os.path.join(d, f), encoding="utf-8").read()
                        except Exception: continue
                        for w in pat.findall(txt): left.discard(w); names.add(w)
out["have"] = sorted(set(req["attrs"]) & names)
json.dump(out, sys.__stdout__)
'''
        if not os.path.exists(PY):
            return
        keys = {str(i): k for i, k in enumerate(self.extkw)}
        mods = set()
        for m in self.P.modules.values():
            for imp in list(m.imports.values()):
                d = imp[1]
                if not self.internal(d):
                    mods.add(d)
                    if imp[0] == "from":
                        mods.add(d + "." + imp[2])
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    mods |= {a.name for a in n.names if not self.internal(a.name)}
        attrs = sorted(set(self.loose) | set(self.loose_calls))
        req = dict(names=sorted(self.ext), calls=keys, mods=sorted(mods), attrs=attrs)
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu")
        try:
            r = subprocess.run([PY, "-I", "-c", prog], input=json.dumps(req), capture_output=True, text=True, timeout=300, env=env, cwd="/")
            ans = json.loads(r.stdout)
        except Exception as ex:
            self.chk.extra["external_catalogue"] = "unavailable: %s" % ex
            return
        self.loose_names(set(ans["have"]))
        for d, (s, why) in ans["names"].items():
            self.count("external-name")
            if s == "nomod":
                # a package that is not installed here cannot be looked into
                for where in sorted(set(w for w, _ in self.ext[d])):
                    self.chk.ob("external-name", where, d, "undecided", why)
            if s == "noattr":
                for where, base in sorted(set(self.ext[d])):
                    # report the shortest failing prefix only
                    if any(p != d and d.startswith(p + ".") and ans["names"].get(p, ["ok"])[0] == "noattr"
                           and any(w == where for w, _ in self.ext[p]) for p in self.ext):
                        continue
                    self.bad("external-name", where, d, why)
        for i, k in keys.items():
            a = ans["calls"][i]
            if a != "skip":
                self.count("external-call")
            if a.startswith("bad:"):
                for where in sorted(set(self.extkw[k])):
                    self.bad("external-call", where, k[0], a[4:])


def handlers(t):
    out = set()
    for h in t.handlers:
        if h.type is None:
            out.add("*")
        for n in ast.walk(h.type) if h.type is not None else ():
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
    return out


def own_ctx(f):
    """(node, names of exceptions an enclosing try catches) in f's own scope"""
    def go(n, g):
        yield n, g
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                yield from go(d, g)
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, ast.Try):
            for s in n.body:
                yield from go(s, g | handlers(n))
            for s in n.handlers + n.orelse + n.finalbody:
                yield from go(s, g)
            return
        if isinstance(n, ast.Lambda):
            yield from go(n.body, g)
            return
        for c in ast.iter_child_nodes(n):
            yield from go(c, g)
    for s in f.body():
        yield from go(s, frozenset())


def walk_ctx(tree, functions=True):
    def go(n, ctx, g):
        yield n, ctx or "<module>", g
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if not functions:
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    yield from go(d, ctx, g)
                return
            ctx = (ctx + "." if ctx else "") + n.name
        elif isinstance(n, ast.ClassDef):
            ctx = (ctx + "." if ctx else "") + n.name
        elif isinstance(n, ast.Lambda) and not functions:
            return
        if isinstance(n, ast.Try):
            for s in n.body:
                yield from go(s, ctx, g | handlers(n))
            for s in n.handlers + n.orelse + n.finalbody:
                yield from go(s, ctx, g | ({"*"} if s in n.handlers else set()))
            return
        for c in ast.iter_child_nodes(n):
            yield from go(c, ctx, g)
    for s in tree.body:
        yield from go(s, "", frozenset())


# ------------------------------------------------------------------ results and arguments arrive under their own names
UNSET = object()


def constants(g, call, drop):
    """parameters of g with a constant value at this call"""
    a = g.node.args
    pos = a.posonlyargs + a.args
    env = {}
    for x, d in list(zip(reversed(pos), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant):
            env[x.arg] = d.value
    names = [x.arg for x in pos][1 if drop else 0:]
    for p, v in list(zip(names, call.args)) + [(k.arg, k.value) for k in call.keywords]:
        if p is None or isinstance(v, ast.Starred):
            return {}
        env.pop(p, None)
        if isinstance(v, ast.Constant):
            env[p] = v.value
    for n in g.own_nodes():
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            env.pop(n.id, None)
    return env


def truth(t, env):
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.Name) and t.id in env:
        return bool(env[t.id])
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = truth(t.operand, env)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in env and isinstance(t.comparators[0], ast.Constant):
        a, b = env[t.left.id], t.comparators[0].value
        if isinstance(t.ops[0], (ast.Eq, ast.Is)):
            return a == b if isinstance(t.ops[0], ast.Eq) else a is b
        if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
            return a != b if isinstance(t.ops[0], ast.NotEq) else a is not b
    return None


def reach(body, env, out):
    """return statements that can run; False when the end of the block cannot be reached"""
    for st in body:
        if isinstance(st, ast.Return):
            out.append(st)
            return False
        if isinstance(st, ast.Raise):
            return False
        if isinstance(st, ast.If):
            v = truth(st.test, env)
            a = reach(st.body, env, out) if v is not False else None
            b = reach(st.orelse, env, out) if v is not True else None
            if not (a or b):
                return False
        elif isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            reach(st.body, env, out)
            reach(st.orelse, env, out)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            if not reach(st.body, env, out):
                return False
        elif isinstance(st, ast.Try):
            reach(st.body, env, out)
            for h in st.handlers:
                reach(h.body, env, out)
            reach(st.orelse, env, out)
            reach(st.finalbody, env, out)
    return True


def label(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def values(chk, P):
    """unpacking and positional passing between the package's own functions"""
    A = Faint(P)
    for f in A.fns:
        at = lambda n: "%s:%d" % (f.module.relpath, n.lineno)
        for st in f.own_nodes():
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and isinstance(st.value, ast.Call):
                t = st.targets[0].elts
                if any(isinstance(x, ast.Starred) for x in t):
                    continue
                for g, drop in A.targets(f, st.value) or ():
                    if g.name == "__init__" or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in g.own_nodes()) or set(g.decs) & {"contextmanager", "property"}:
                        continue
                    rs = []
                    reach(g.body() if not isinstance(g.node, ast.Lambda) else [], constants(g, st.value, drop), rs)
                    if any(isinstance(n, ast.FunctionDef) for n in g.own_nodes()):
                        inner = {id(x) for n in g.own_nodes() if isinstance(n, ast.FunctionDef) for x in ast.walk(n) if x is not n}
                        rs = [r for r in rs if id(r) not in inner]
                    known = [r.value for r in rs if isinstance(r.value, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in r.value.elts)]
                    if not known or len(known) < len(rs):
                        continue
                    chk.ob("unpack", f.where, "%s of %s" % ("result", g.qual), *(
                        ("ok",) if any(len(v.elts) == len(t) for v in known) else
                        ("violated", "unpacks %d values, %s returns %s (%s)" % (len(t), g.qual, "/".join(str(len(v.elts)) for v in known), at(st)))))
                    for v in known:
                        if len(v.elts) != len(t):
                            continue
                        a, b = [label(x) for x in t], [label(x) for x in v.elts]
                        sw = [(i, j) for i in range(len(a)) for j in range(i) if a[i] and a[j] and a[i] != a[j] and a[i] == b[j] and a[j] == b[i]]
                        chk.ob("transposed", f.where, "result of %s" % g.qual, *(("ok",) if not sw else (
                            "violated", "'%s' and '%s' are unpacked in the opposite order from the one %s returns them in (%s)" % (a[sw[0][0]], a[sw[0][1]], g.qual, at(st)))))
        for call in f.own_nodes():
            if not isinstance(call, ast.Call):
                continue
            for g, drop in A.targets(f, call) or ():
                ar = g.node.args
                pos = [x.arg for x in ar.posonlyargs + ar.args][1 if drop else 0:]
                args = []
                for x in call.args:
                    if isinstance(x, ast.Starred):
                        break
                    args.append(label(x))
                given = set(pos[:len(call.args)]) | {k.arg for k in call.keywords}
                opt = set(pos[len(pos) - len(ar.defaults):]) if ar.defaults else set()
                sw = [(i, j) for i in range(min(len(args), len(pos))) for j in range(i)
                      if args[i] and args[j] and args[i] != args[j] and args[i] == pos[j] and args[j] == pos[i]]
                mis = [(i, args[i]) for i in range(min(len(args), len(pos)))
                       if args[i] and args[i] != pos[i] and args[i] in opt and pos[i] in opt and args[i] not in given]
                if len(args) > 1 or mis:
                    chk.ob("transposed", f.where, "arguments of %s" % g.qual, *(("ok",) if not sw and not mis else (
                        "violated", ("'%s' and '%s' are passed in each other's position: %s (%s)" % (args[sw[0][0]], args[sw[0][1]], ast.unparse(call)[:100], at(call))) if sw else
                        "'%s' is passed in the position of '%s', although %s has an option '%s': %s (%s)" % (
                            mis[0][1], pos[mis[0][0]], g.qual, mis[0][1], ast.unparse(call)[:100], at(call)))))


def run():
    chk = Check("C16", floor=6, explanation=(
        "Whole-package name, attribute and call resolution over the parsed sources. Names come from the compiler's own scope "
        "tables; attributes from the class hierarchy (methods, class attributes, every store on an instance anywhere); calls "
        "to functions, constructors and methods of the package are bound against the signatures of every possible target; "
        "names, and where available signatures, of third-party libraries are looked up in the installed libraries. Nothing of "
        "the package is imported. Constructs inside a try that handles the failure are exempt. Test scripts are not analysed."),
        rules={"import": "an internal import names a module or member that exists (Cython sources included)",
               "name": "every global name read is bound in its module or is a builtin",
               "attribute": "self.x / super().x / instance.x / module.x / Class.x exists",
               "attribute-anywhere": "an attribute read on a value of unknown class exists somewhere in the package or its libraries",
               "call": "arguments bind to the signature of the resolved callee",
               "call-anywhere": "arguments of a method call bind to at least one definition of that method name",
               "unpack": "a result is unpacked into as many names as the callee returns values (flags with constant values decide which return applies)",
               "transposed": "values are not passed or unpacked in each other's positions between functions that name them alike",
               "external-name": "library.member exists in the installed library",
               "external-call": "keywords and argument count fit the installed library function's signature"})
    P = Project()
    for k in [k for k in P.modules if TESTLIKE.match(k.rsplit(".", 1)[-1])]:
        del P.modules[k]
    for path, e in P.errors:
        chk.ob("parse", os.path.relpath(path, P.root), "syntax", "violated", e)
    R = Res(chk, P)
    R.imports()
    R.names()
    R.bodies()
    R.external()
    values(chk, P)
    for rule, k in R.n.items():
        bad = sum(1 for o in chk.obs if o["rule"] == rule)
        if k:
            chk.ob(rule, "whole package", "sites resolved", "ok", "%d sites" % k)
        chk.extra.setdefault("sites", {})[rule] = k
    return chk.finish()
