"""Source model of /repo/pystatsm: parsed modules, imports, classes, methods.  Parsing only."""
import ast
import os
import hashlib

REPO = os.environ.get("PYSTATSM_REPO", "/repo")
PKG = "pystatsm"


MISSING = object()


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.relpath = os.path.relpath(path, REPO)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.imports = {}      # local name -> ("module", dotted) | ("from", dotted module, attr)
        self.star = []
        self.classes = {}
        self.functions = {}
        self.assigns = {}      # name -> list of value nodes (module level)
        self._index()

    def resolve_rel(self, level, modname):
        if level == 0:
            return modname or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([modname] if modname else []))

    def _stmts(self, body):
        for st in body:
            yield st
            if isinstance(st, (ast.If, ast.Try)):
                yield from self._stmts(st.body)
                yield from self._stmts(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    yield from self._stmts(h.body)
                yield from self._stmts(getattr(st, "finalbody", []))
            elif isinstance(st, ast.With):
                yield from self._stmts(st.body)

    def add_import(self, st, table):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = ("module", a.name)
                else:
                    table[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = self.resolve_rel(st.level, st.module)
            for a in st.names:
                if a.name == "*":
                    self.star.append(base)
                else:
                    table[a.asname or a.name] = ("from", base, a.name)

    def _index(self):
        for st in self._stmts(self.tree.body):
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self.add_import(st, self.imports)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self, st)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                v = None
                                if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts):
                                    v = st.value.elts[k]
                                self.assigns.setdefault(e.id, []).append(v)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.For):
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        self.assigns.setdefault(n.id, []).append(None)


class Class:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.attrs = {}
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = Class(module, st, self)

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def __repr__(self):
        return "<Class %s>" % self.qual


class Project:
    def __init__(self, root=None, include_tests=False):
        self.root = root or REPO
        self.modules = {}
        self.errors = []
        top = os.path.join(self.root, PKG)
        for d, dirs, files in os.walk(top):
            dirs.sort()
            if not include_tests:
                dirs[:] = [x for x in dirs if x not in ("tests", "test", "__pycache__")]
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        tree = ast.parse(src)
                    except SyntaxError as e:
                        self.errors.append((path, str(e)))
                        continue
                    self.modules[rel] = Module(rel, path, tree, src)
        self._mro = {}

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.modules):
            h.update(m.encode())
            h.update(self.modules[m].src.encode())
        return h.hexdigest()[:16]

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    # ---- name resolution: returns ("class", Class) ("func", Module, node) ("assign", Module, name)
    #      ("pkgmod", Module) ("ext", dotted) or None
    def lookup(self, module, name, seen=None):
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.functions:
            return ("func", module, module.functions[name])
        if name in module.assigns:
            return ("assign", module, name)
        if name in module.imports:
            return self._resolve_import(module.imports[name], seen)
        for base in module.star:
            if base in self.modules:
                r = self.lookup(self.modules[base], name, seen)
                if r:
                    return r
        return None

    def _resolve_import(self, imp, seen=None):
        if imp[0] == "module":
            d = imp[1]
            if d in self.modules:
                return ("pkgmod", self.modules[d])
            return ("ext", d)
        _, base, attr = imp
        full = base + "." + attr
        if base in self.modules:
            r = self.lookup(self.modules[base], attr, seen)
            if r:
                return r
            if full in self.modules:
                return ("pkgmod", self.modules[full])
            return ("missing", full) if base.startswith(PKG) else ("ext", full)
        if full in self.modules:
            return ("pkgmod", self.modules[full])
        return ("ext", full)

    def resolve_expr(self, module, node):
        """resolve Name / Attribute chains to project or external entities"""
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(module, node.value)
            if r is None:
                return None
            if r[0] == "ext":
                return ("ext", r[1] + "." + node.attr)
            if r[0] == "pkgmod":
                q = self.lookup(r[1], node.attr)
                if q:
                    return q
                full = r[1].name + "." + node.attr
                if full in self.modules:
                    return ("pkgmod", self.modules[full])
                return None
            if r[0] == "class":
                c = r[1]
                for k in self.mro(c):
                    if node.attr in k.methods:
                        return ("method", k, k.methods[node.attr])
                return None
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def has_external_base(self, cls):
        for k in self.mro(cls):
            for b in k.node.bases:
                r = self.resolve_expr(k.module, b)
                if not (r and r[0] == "class"):
                    if isinstance(b, ast.Name) and b.id == "object":
                        continue
                    return True
        return False

    def mro(self, cls):
        key = id(cls)
        if key in self._mro:
            return self._mro[key]
        self._mro[key] = [cls]
        seqs = [list(self.mro(b)) for b in self.bases(cls)] + [self.bases(cls)]
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[key] = out
        return out

    def find_method(self, cls, name, after=None):
        chain = self.mro(cls)
        if after is not None:
            chain = chain[chain.index(after) + 1:] if after in chain else chain
        for k in chain:
            if name in k.methods:
                return k, k.methods[name]
        return None

    def self_attrs(self, cls):
        """attribute names some method of the class or of a relative assigns on an instance; None if open-ended"""
        key = "_self_attrs"
        r = cls.__dict__.get(key, MISSING)
        if r is not MISSING:
            return r
        out = set()
        fam = set(self.mro(cls))
        for k in list(self.all_classes()):
            if cls in self.mro(k):
                fam |= set(self.mro(k))
        for k in fam:
            if self.has_external_base(k) or "__getattr__" in k.methods or "__getattribute__" in k.methods:
                out = None
                break
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
                    out = None
                    break
                if isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__", "update_attrs"):
                    out = None
                    break
                if isinstance(n, ast.ClassDef) and n is not k.node:
                    out.add(n.name)
                if isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                if isinstance(n, (ast.FunctionDef,)):
                    out.add(n.name)
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
            if out is None:
                break
        # attributes stored on instances from outside the class
        cls.__dict__[key] = out
        return out

    def outside_stores(self):
        """every attribute name stored anywhere in the package (x.attr = ..., setattr(x, 'attr', ...))"""
        if not hasattr(self, "_stores"):
            s = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        s.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and \
                            len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        s.add(n.args[1].value)
            self._stores = s
        return self._stores

    def foreign_stores(self):
        """attribute names stored through anything but the instance parameter of a method"""
        if not hasattr(self, "_fstores"):
            s = set()

            def go(n, selfs):
                if isinstance(n, ast.ClassDef):
                    for c in n.body:
                        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            a = c.args.posonlyargs + c.args.args
                            go(c, selfs | ({a[0].arg} if a and "staticmethod" not in decorators(c) else set()))
                        else:
                            go(c, selfs)
                    return
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in selfs):
                    s.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and \
                        isinstance(n.args[1], ast.Constant):
                    s.add(n.args[1].value)
                for c in ast.iter_child_nodes(n):
                    go(c, selfs)
            for m in self.modules.values():
                go(m.tree, frozenset())
            self._fstores = s
        return self._fstores

    def may_have_attr(self, cls, attr):
        if attr.startswith("__"):
            return True
        sa = self.self_attrs(cls)
        return sa is None or attr in sa or attr in self.outside_stores()

    def find_class_attr(self, cls, name):
        for k in self.mro(cls):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, cls):
        return [c for c in self.all_classes() if cls in self.mro(c) and c is not cls]


def decorators(node):
    out = []
    for d in node.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        out.append(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?"))
    return out
