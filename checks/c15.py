"""C15: independent objects and calls share no mutable state"""
import ast
from sa.check import Check
from sa.project import Project
from sa.scopes import functions
from sa.effects import Analyzer, mutable_literal

SETTERS = {"numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.set_printoptions", "numpy.random.seed", "numpy.random.set_state", "random.seed",
           "pandas.set_option", "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "locale.setlocale",
           "scipy.special.seterr", "sys.setrecursionlimit", "os.putenv", "os.chdir", "os.umask", "matplotlib.use", "decimal.setcontext"}


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = dict(zip([x.arg for x in reversed(pos)], reversed(a.defaults)))
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def shared_default(P, f, d):
    """is the default an object that calls share and somebody could modify"""
    if mutable_literal(d):
        return True
    if isinstance(d, ast.Call):
        r = P.resolve_expr(f.module, d.func)
        return bool(r) and r[0] == "class"
    if isinstance(d, (ast.Name, ast.Attribute)):
        r = P.resolve_expr(f.module, d)
        if r and r[0] == "assign":
            return any(v is not None and mutable_literal(v) for v in r[1].assigns[r[2]])
    return False


def inside_with(f):
    """calls made as the context expression of a with statement restore what they set"""
    out = set()
    for n in f.own_nodes():
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                out.update(id(x) for x in ast.walk(i.context_expr))
            if any(isinstance(i.context_expr, ast.Call) and "catch_warnings" in ast.unparse(i.context_expr.func) for i in n.items):
                for st in n.body:
                    out.update(id(x) for x in ast.walk(st) if isinstance(x, ast.Call) and "warnings." in ast.unparse(x.func))
    return out


def run():
    P = Project()
    chk = Check("C15", floor=1500, explanation="alias and effect analysis of every function: which stores can reach an object that outlives the call "
                "and is shared (default arguments, class-level and module-level objects, cached results, process-wide settings)",
                rules={"default": "no default argument object is modified by the function or anything it hands it to",
                       "kept-default": "no default object kept in an attribute is modified by a method",
                       "class-level": "no class-level object is modified and no class attribute assigned through an instance, class or function",
                       "module-level": "no module-level object is modified or rebound by a function",
                       "process-wide": "no function changes process-wide settings without restoring them"})
    an = Analyzer(P)
    nd = 0
    for f in functions(P):
        ds = defaults(f)
        shared = {p for p, d in ds.items() if shared_default(P, f, d)}
        nd += len(shared)
        s = an.summary(f, f.cls) if f.outer is None else None
        bad = False
        if s is not None:
            for o, (node, what, chain) in s.mut.items():
                at = "%s:%d" % (f.module.relpath, node.lineno)
                via = " through " + " -> ".join(chain) if chain else ""
                if o[0][0] == "P" and o[0][1] in shared and not (o[1] and not mutable_literal(ds[o[0][1]]) and o[1][0] == "[]"):
                    bad = True
                    chk.ob("default", f.where, o[0][1], "violated", "%s the default object of '%s' (%s)%s" % (what, o[0][1], at, via))
                elif o[0][0] == "C" and not chain:
                    bad = True
                    chk.ob("class-level", f.where, "%s.%s" % o[0][1:], "violated", "%s the class-level object %s.%s (%s)" % (what, o[0][1], o[0][2], at))
                elif o[0][0] == "G" and not chain:
                    m = P.modules.get(o[0][1])
                    vals = m.assigns.get(o[0][2]) if m else None
                    if vals and all(isinstance(v, ast.Constant) for v in vals):
                        continue
                    bad = True
                    chk.ob("module-level", f.where, "%s.%s" % o[0][1:], "violated", "%s the module-level object %s.%s (%s)" % (what, o[0][1], o[0][2], at))
            if f.cls is not None and f.selfname:
                ao = an.attr_origins(f.cls)
                for o, (node, what, chain) in s.mut.items():
                    if o[0] != ("S",) or not o[1] or o[1][0].startswith("."):
                        continue
                    for meth, (root, path) in ao.get(o[1][0], ()):
                        if root[0] in "GC":
                            bad = True
                            chk.ob("module-level" if root[0] == "G" else "class-level", f.where, "%s.%s" % root[1:], "violated",
                                   "%s self.%s, which is the shared object %s.%s (%s:%d)" % (what, o[1][0], root[1], root[2], f.module.relpath, node.lineno))
                        if root[0] != "P":
                            continue
                        g = P.find_method(f.cls, meth)
                        g = an.fns.get(id(g[1])) if g else None
                        d = defaults(g).get(root[1]) if g else None
                        if d is not None and shared_default(P, g, d):
                            bad = True
                            chk.ob("kept-default", f.where, "%s from %s(%s)" % (o[1][0], meth, root[1]), "violated",
                                   "%s self.%s, which may be the default object of '%s' in %s (%s:%d)" % (
                                       what, o[1][0], root[1], meth, f.module.relpath, node.lineno))
        skip = inside_with(f)
        gl = set()
        for n in f.own_nodes():
            if isinstance(n, ast.Global):
                gl |= set(n.names)
        for n in f.own_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in gl:
                bad = True
                chk.ob("module-level", f.where, n.id, "violated", "rebinds the module global '%s' (line %d)" % (n.id, n.lineno))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                v = n.value
                tgt = None
                if isinstance(v, ast.Attribute) and v.attr == "__class__" or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type":
                    tgt = ast.unparse(v)
                elif isinstance(v, ast.Name) and "classmethod" in f.decs and v.id == f.selfname:
                    tgt = v.id
                elif isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and (v.id in f.params or v.id in f.stores())):
                    r = P.resolve_expr(f.module, v)
                    if r and r[0] in ("class", "pkgmod", "ext", "func"):
                        tgt = ast.unparse(v)
                if tgt:
                    bad = True
                    chk.ob("class-level", f.where, "%s.%s" % (tgt, n.attr), "violated", "assigns %s.%s, shared by every user (line %d)" % (tgt, n.attr, n.lineno))
            if isinstance(n, ast.Call) and id(n) not in skip:
                r = P.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                if r and r[0] == "ext" and r[1] in SETTERS:
                    bad = True
                    chk.ob("process-wide", f.where, r[1], "violated", "calls %s (line %d)" % (r[1], n.lineno))
        if not bad:
            chk.ob("default" if shared else "module-level", f.where, "all", "ok")
    for c in P.all_classes():
        n = sum(1 for v in c.attrs.values() if mutable_literal(v))
        chk.ob("class-level", c.module.relpath + ":" + c.name, "%d mutable class attributes" % n, "ok")
    chk.extra = dict(functions=len(functions(P)), shared_defaults=nd)
    return chk.finish()
