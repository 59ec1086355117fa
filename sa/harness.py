"""Helpers shared by the algebraic checks."""
import ast
from .project import Project, decorators
from .interp import *
from .interp import Top, Raised
from . import terms as tm
from .terms import *
from .decide import equal


def dim(name, k):
    return sym(name, dom=("dim", k))


def vec(name, dom="real", n=None, k=2):
    n = n or dim("n", k)
    DOM[name] = dom
    return Tensor((n,), sym(name, AX[0]))


def matr(name, n, p, dom="real"):
    DOM[name] = dom
    return Tensor((n, p), sym(name, AX[0], AX[1]))


def symm(name, p):
    DOM[name] = ("symmetric",)
    return Tensor((p, p), sym(name, AX[0], AX[1]))


def scal(name, dom="pos"):
    return sym(name, dom=dom)


def init_args(project, cls, numeric_dom="pos", prefix=None):
    """keyword arguments for cls.__init__: symbolic for numeric parameters, defaults otherwise"""
    m = project.find_method(cls, "__init__")
    kw, syms = {}, []
    if not m:
        return kw, syms
    a = m[1].args
    names = [x.arg for x in a.args][1:]
    dfl = {}
    for n, d in zip(reversed(names), reversed(a.defaults)):
        dfl[n] = d
    for n in names + [x.arg for x in a.kwonlyargs]:
        d = dfl.get(n)
        if d is not None and not (isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and
                                  not isinstance(d.value, bool)):
            continue
        s = (prefix or cls.name) + "." + n
        kw[n] = sym(s, dom=numeric_dom)
        syms.append((n, s))
    return kw, syms


def call(I, o, name, *args, **kw):
    """method value on symbolic arguments; Top on failure; None if the method does not exist"""
    if I.p.find_method(o.cls, name) is None:
        return None
    try:
        f = I.getattr(o, name)
        v = I.call(f, list(args), kw, None)
    except Raised as e:
        if "NotImplemented" in e.what:
            return None
        return Top("raises: " + e.what)
    except RecursionError:
        return Top("recursion")
    return v


def T_(v):
    return v if isinstance(v, Top) else as_tensor(v)


def is_stub(project, cls, name):
    """method body is only a docstring / pass / raise NotImplementedError"""
    m = project.find_method(cls, name)
    if not m:
        return True
    for st in m[1].body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Raise):
            continue
        if isinstance(st, ast.Return) and (st.value is None or (isinstance(st.value, ast.Constant) and st.value.value is None)):
            continue
        return False
    return True


def where(project, cls, name):
    m = project.find_method(cls, name)
    own = m[0] if m else cls
    return "%s:%s.%s" % (own.module.relpath, own.name, name)


def compare(chk, rule, wh, what, lhs, rhs, **kw):
    """record the obligation lhs == rhs on two abstract values"""
    for v in (lhs, rhs):
        if isinstance(v, Top):
            chk.ob(rule, wh, what, "violated" if v.definite else "undecided", v.why)
            return
    if lhs is None or rhs is None:
        chk.ob(rule, wh, what, "undecided", "no value")
        return
    try:
        a, b = as_tensor(lhs), as_tensor(rhs)
        dims, (x, y), _ = broadcast([Tensor(a.dims, a.elem), Tensor(b.dims, b.elem)])
        rank = len(dims)
        from .decide import equal as eq
        r = eq(x, y, seed=chk.seed, trials=kw.pop("trials", 12) * (2 if chk.thorough else 1),
               dims={AX[k]: dims[k] for k in range(rank)}, **kw)
        chk.ob(rule, wh, what, r.status, r.detail)
        return r
    except (TypeError, NotDifferentiable) as e:
        chk.ob(rule, wh, what, "undecided", "%s: %s" % (type(e).__name__, e))


def d_elem(v, name, idx):
    """derivative of an elementwise value v[i] with respect to name[idx]"""
    if isinstance(v, Top):
        return v
    try:
        t = as_tensor(v)
        return Tensor(t.dims, tm.diff(tm.asnum(t.elem), name, idx), t.mask)
    except NotDifferentiable as e:
        return Top("not differentiable: %s" % e)
