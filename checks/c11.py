"""C11: library calls leave the caller's arrays, frames and dictionaries unchanged"""
import re
import ast
from sa.check import Check
from sa.project import Project
from sa.scopes import functions
from sa.effects import Analyzer

OUT_PARAM = re.compile(r"^_?(out|output|res|result|results|buf|buffer|work|workspace|ws|dst|dest|grad|hess|acc|accumulator)\d*$|_out$|^out_|_buf$|_work$")
NAMED = re.compile(r"in_?place|^_?(update|downdate|accumulate|fill|sort|append|modify|set|assign|add|drop|insert|remove)(_|$)|_(update|downdate|fill)(_|$)|_(add|drop)_")
DOC = re.compile(r"in[- ]place|in[- ]situ|overwrit|modif(y|ies) the (input|argument)|(input|given) \w+ with", re.I)
DATA_ATTRS = {"columns", "index", "shape", "data", "indices", "indptr", "values", "dtype", "name", "flat", "T", "real", "imag"}


def announced(f, o, s):
    """reason why a modification of this argument is the routine's announced purpose, or None"""
    p = o[0][1]
    if any(d in ("jit", "njit", "vectorize", "guvectorize", "cfunc") for d in f.decs):
        return "compiled kernel"
    if OUT_PARAM.search(p):
        return "output argument"
    if NAMED.search(f.name):
        return "named for it"
    doc = ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
    if doc and DOC.search(doc):
        return "documented"
    if {"inplace", "in_place", "copy", "overwrite"} & set(f.params):
        return "controlled by a flag"
    if not s.returns_value and not s.reassigned and f.name != "__init__":
        return "procedure without result"
    return None


def threaded(P):
    """(function name, parameter position or name) -> every call in the package rebinds the argument to the result"""
    sites = {}
    for f in functions(P):
        for st in f.own_nodes():
            if not isinstance(st, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)):
                continue
            v = st.value
            for n in ast.walk(v) if v is not None else ():
                if isinstance(n, ast.Call):
                    name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                    if name:
                        tg = []
                        if isinstance(st, ast.Assign) and v is n:
                            for t in st.targets:
                                tg += [ast.unparse(x) for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
                        sites.setdefault(name, []).append((n, tg))
    return sites


def is_threaded(f, p, sites):
    cs = sites.get(f.name, ())
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if f.is_method and not f.static and pos:
        pos = pos[1:]
    if p not in pos or not cs:
        return False
    i = pos.index(p)
    n = 0
    for c, tg in cs:
        arg = c.args[i] if i < len(c.args) else next((k.value for k in c.keywords if k.arg == p), None)
        if arg is None:
            continue
        n += 1
        if ast.unparse(arg) not in tg:
            return False
    return n > 0


def public(f):
    return f.outer is None and (not f.name.startswith("_") or f.name in ("__init__", "__call__")) and \
        not any(x.startswith("_") and not x.startswith("__") for x in f.qual.split(".")[:-1])


def run():
    P = Project()
    chk = Check("C11", floor=800, explanation="alias and effect analysis of every function (flow-sensitive origins, container contents, "
                "summaries across resolved calls): which caller-owned objects a public routine may store into",
                rules={"argument": "a public function or method never stores into, or calls a mutator on, an object reachable from an argument",
                       "kept-argument": "no method modifies an object the constructor kept a reference to"})
    an = Analyzer(P)
    why = {}
    sites = threaded(P)
    nfun = ncall = 0
    for f in functions(P):
        if f.outer is not None:
            continue
        s = an.summary(f, f.cls)
        nfun += 1
        ncall += s.calls
        if public(f):
            bad = False
            for o, (node, what, chain) in s.mut.items():
                if o[0][0] != "P":
                    continue
                last = o[1][-1] if o[1] else ""
                if last.startswith(".") and last[1:] not in DATA_ATTRS:
                    continue
                r = announced(f, o, s)
                if r is None and is_threaded(f, o[0][1], sites):
                    r = "state threaded through every call"
                if r:
                    why[r] = why.get(r, 0) + 1
                    continue
                bad = True
                via = " -> ".join(chain)
                chk.ob("argument", f.where, o[0][1], "violated", "%s argument '%s'%s (%s:%d)%s" % (
                    what, o[0][1], " (%s)" % "".join(o[1]) if o[1] else "", f.module.relpath, node.lineno, " through " + via if via else ""))
            if not bad:
                chk.ob("argument", f.where, "all", "ok")
        if f.cls is not None and f.selfname:
            ao = an.attr_origins(f.cls)
            for o, (node, what, chain) in s.mut.items():
                if o[0] != ("S",) or not o[1] or o[1][0].startswith("."):
                    continue
                last = o[1][-1]
                if last.startswith(".") and last[1:] not in DATA_ATTRS:
                    continue
                at = o[1][0]
                rest = o[1][1:]
                for meth, (root, path) in ao.get(at, ()):
                    if root[0] == "P" and meth == "__init__":
                        kf = an.fns.get(id(P.find_method(f.cls, "__init__")[1]))
                        if OUT_PARAM.search(root[1]) or NAMED.search(f.name) and not public(f):
                            continue
                        chk.ob("kept-argument", f.where, "%s from %s(%s)" % (at, meth, root[1]), "violated",
                               "%s self.%s, which is the object passed to the constructor as '%s' (%s:%d)" % (
                                   what, at, root[1], f.module.relpath, node.lineno))
                if rest and rest[0] == "[]":
                    for meth, (root, path) in an.attr_elems(f.cls).get(at, ()):
                        if root[0] == "P" and meth == "__init__":
                            chk.ob("kept-argument", f.where, "%s[] from %s(%s)" % (at, meth, root[1]), "violated",
                                   "%s an element of self.%s that was passed to the constructor as '%s' (%s:%d)" % (
                                       what, at, root[1], f.module.relpath, node.lineno))
    for c in P.all_classes():
        chk.ob("kept-argument", c.module.relpath + ":" + c.name, "all", "ok")
    chk.extra = dict(functions=nfun, calls=ncall, announced=why)
    return chk.finish()
