"""Name scopes, function inventory and call-site resolution over the parsed project (syntax only)."""
import ast
import builtins
import os
import re
import symtable

from .project import Project, Class, PKG, MISSING, decorators

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__", "__builtins__"}


class Fn:
    """a function or method (possibly nested) of the project"""

    def __init__(self, module, node, cls, outer, qual):
        self.module, self.node, self.cls, self.outer, self.qual = module, node, cls, outer, qual
        self.name = getattr(node, "name", "<lambda>")
        self.decs = decorators(node) if not isinstance(node, ast.Lambda) else []

    @property
    def where(self):
        return "%s:%s" % (self.module.relpath, self.qual)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]

    @property
    def static(self):
        return "staticmethod" in self.decs

    @property
    def is_method(self):
        return self.cls is not None and self.outer is None

    @property
    def selfname(self):
        if self.is_method and not self.static:
            a = self.node.args
            p = a.posonlyargs + a.args
            return p[0].arg if p else None
        return None

    def self_of(self):
        """(name, class) of the instance visible in this function, through closures"""
        f = self
        while f is not None:
            s = f.selfname
            if s is not None:
                # shadowed by an inner function's own parameter?
                g = self
                while g is not f:
                    if s in g.params:
                        return None
                    g = g.outer
                return (s, f.cls) if "classmethod" not in f.decs else None
            f = f.outer
        return None

    def body(self):
        return [self.node.body] if isinstance(self.node, ast.Lambda) else self.node.body

    def own_nodes(self):
        """nodes of this function's own scope: not those of nested functions, classes or lambdas"""
        if not hasattr(self, "_own"):
            self._own = list(self._walk_own())
        return self._own

    def stores(self):
        """names the function's own scope binds other than by parameters"""
        if not hasattr(self, "_stores"):
            s = set()
            for n in self.own_nodes():
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    s |= {a.asname or a.name.split(".")[0] for a in n.names}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
            self._stores = s
        return self._stores

    def imported_locally(self):
        return {a.asname or a.name.split(".")[0] for n in self.own_nodes() if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}

    def _walk_own(self):
        stack = list(self.body())
        while stack:
            n = stack.pop()
            yield n
            for c in ast.iter_child_nodes(n):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    break
                stack.append(c)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                stack.extend(n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d])
            elif isinstance(n, ast.Lambda):
                stack.extend(n.args.defaults)


def functions(project):
    """every function of the project, nested ones included, in source order"""
    if hasattr(project, "_fns"):
        return project._fns
    out = []

    def visit(body, module, cls, outer, pre, top):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(module, n, cls, outer, pre + n.name)
                out.append(f)
                visit(n.body, module, cls, f, pre + n.name + ".", False)
            elif isinstance(n, ast.ClassDef):
                c = module.classes.get(n.name)
                if c is None or c.node is not n:
                    c = getattr(n, "_cls", None) or Class(module, n)
                    n._cls = c
                visit(n.body, module, c, None, pre + n.name + ".", False)
            else:
                for c in ast.iter_child_nodes(n):
                    visit([c], module, cls, outer, pre, top)
    for m in project.modules.values():
        visit(m.tree.body, m, None, None, "", True)
    project._fns = out
    return out


def pyx_modules(root):
    """module-level def/cpdef/class names of the Cython sources: dotted name -> set"""
    out = {}
    for d, dirs, files in os.walk(os.path.join(root, PKG)):
        for f in files:
            if f.endswith(".pyx"):
                name = os.path.relpath(os.path.join(d, f), root)[:-4].replace(os.sep, ".")
                src = open(os.path.join(d, f), encoding="utf-8").read()
                s = set(re.findall(r"^(?:def|class)\s+(\w+)", src, re.M))
                s |= set(m.group(1) for m in re.finditer(r"^cpdef\s+[^\n(]*?(\w+)\s*\(", src, re.M))
                s |= set(re.findall(r"^(\w+)\s*=", src, re.M))
                out[name] = s
    return out


def module_names(project, m):
    if not hasattr(m, "_names"):
        m._names = _module_names(project, m)
    return m._names


def _module_names(project, m):
    """names bound at module level, or None when a star import makes them open-ended"""
    m._names = None
    names = set()
    st = symtable.symtable(m.src, m.path, "exec")
    for s in st.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            names.add(s.get_name())

    def globs(t):
        for c in t.get_children():
            for s in c.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    names.add(s.get_name())
            globs(c)
    globs(st)
    for base in m.star:
        if base in project.modules:
            sub = module_names(project, project.modules[base])
            if sub is None:
                return None
            names |= sub
        else:
            return None
    return names


def unresolved_names(project, m):
    """(scope qualname, name) of every global reference that nothing binds"""
    names = module_names(project, m)
    if names is None:
        return [], 0
    out, n = [], 0
    st = symtable.symtable(m.src, m.path, "exec")

    def visit(t, pre):
        nonlocal n
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            n += 1
            nm = s.get_name()
            glob = s.is_global() or (t.get_type() == "module")
            if t.get_type() == "class" and s.is_local():
                continue
            if glob and nm not in names and nm not in BUILTINS and not nm.startswith("_["):
                out.append((pre or "<module>", nm))
        for c in t.get_children():
            visit(c, (pre + "." if pre else "") + c.get_name())
    visit(st, "")
    return out, n


def bind(args, npos, kws, star, dstar, drop_first):
    """problem text if a call with npos positional and the keyword names kws cannot bind to `args`, else None"""
    pos = [a.arg for a in args.posonlyargs + args.args]
    nd = len(args.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    if drop_first:
        if not pos:
            if args.vararg:
                return None
            return "takes no instance argument"
        req = [r for r in req if r != pos[0]]
        pos = pos[1:]
    kwonly = [a.arg for a in args.kwonlyargs]
    kwreq = [a.arg for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is None]
    if npos > len(pos) and not args.vararg:
        return "%d positional arguments, at most %d accepted" % (npos, len(pos))
    ponly = [a.arg for a in args.posonlyargs]
    for k in kws:
        if k in pos and k not in ponly:
            if pos.index(k) < npos:
                return "argument '%s' given twice" % k
        elif k not in kwonly and not args.kwarg:
            return "unexpected keyword '%s'" % k
    if not star and not dstar:
        miss = [r for i, r in enumerate(pos) if r in req and i >= npos and r not in kws]
        miss += [r for r in kwreq if r not in kws]
        if miss:
            return "missing argument '%s'" % "', '".join(miss)
    return None
