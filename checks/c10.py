"""C10: a caller's seed or generator fully determines every random result"""
import ast
from sa.check import Check
from sa.project import Project
from sa.scopes import functions
from sa.rngflow import RngFlow, Obj, NONE, BAD, GENPARAM, defaults

WHAT = {"fresh": "a generator made without the caller's seed", "const": "a generator seeded with a constant", "global": "process-wide random state", "own": "a generator of the receiver's own, although it accepts one"}


def supplied(fn, p, gens):
    """argument values when the caller supplies p and none of the other generator arguments"""
    bind = {q: NONE for q in gens if q != p}
    bind[p] = frozenset(["p", "s0"]) if "seed" in p or "state" in p else frozenset(["p"])
    return bind


def run():
    P = Project()
    chk = Check("C10", floor=60, explanation="generator provenance: for every entry point that accepts a generator or seed, each draw it makes "
                "(through resolved calls and the objects it builds) is traced to where its generator comes from, assuming the argument is given",
                rules={"draws": "with the argument supplied, every draw comes from it", "used": "the argument is read at all",
                       "object": "methods of an object built with a generator draw from that generator"})
    fns = {id(f.node): f for f in functions(P)}
    eng = RngFlow(P, fns)
    sites = set()
    seen = set()

    def report(rule, where, p, draws):
        bad = False
        for node, rel, qual, tags, chain, what in draws:
            sites.add((rel, node.lineno, node.col_offset))
            b = tags & BAD
            if b:
                bad = True
                k = sorted(b)[0]
                key = (rule, where, p, rel, qual, what)
                if key in seen:
                    continue
                seen.add(key)
                chk.ob(rule, where, "%s: %s %s" % (p, k, what.split(" ")[0].split(".")[-1]), "violated", "with %s given%s, %s draws from %s (%s:%d)%s" % (
                    p.split(":")[0], " to the constructor," + p.split(":")[1] + " calls it" if ":" in p else "", what, WHAT[k], rel, node.lineno, " through " + " -> ".join(chain) if chain else ""))
        if not bad:
            chk.ob(rule, where, p, "ok", "%d draw sites" % len(draws))

    for f in functions(P):
        if f.outer is not None:
            continue
        gens = eng.genparams(f)
        for p in gens:
            if not any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
                body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                stub = all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Return) and s.value is None for s in body)
                chk.ob("used", f.where, p, "ok" if stub else "violated", "" if stub else "argument '%s' is accepted and never read" % p)
                continue
            K = f.cls
            selfobj = None
            if f.selfname and f.name != "__init__" and K is not None and "classmethod" not in f.decs:
                selfobj = Obj(K, unseeded(P, eng, fns, K))
            r = eng.run(f, K, supplied(f, p, gens), selfobj)
            report("draws", f.where, p, r.draws)
    nobj = 0
    for K in P.all_classes():
        i = P.find_method(K, "__init__")
        if not i:
            continue
        fi = fns.get(id(i[1]))
        if fi is None:
            continue
        gens = eng.genparams(fi)
        for p in gens:
            r = eng.run(fi, K, supplied(fi, p, gens), Obj(K, {}))
            nobj += 1
            done = set()
            for k in P.mro(K):
                for name, node in k.methods.items():
                    if name in done or name == "__init__":
                        continue
                    done.add(name)
                    g = fns.get(id(node))
                    if g is None or g.static or "classmethod" in g.decs or eng.genparams(g):
                        continue
                    q = eng.run(g, K, {}, Obj(K, dict(r.attrs)))
                    if q.draws:
                        report("object", "%s:%s" % (K.module.relpath, K.name), "%s: %s()" % (p, name), q.draws)
    chk.extra = dict(draw_sites=len(sites), seeded_classes=nobj, sites=sorted("%s:%d" % s[:2] for s in sites)[:200])
    return chk.finish()


def unseeded(P, eng, fns, K):
    i = P.find_method(K, "__init__")
    fi = fns.get(id(i[1])) if i else None
    if fi is None:
        return {}
    r = eng.run(fi, K, {q: NONE for q in eng.genparams(fi)}, Obj(K, {}))
    return dict(r.attrs)
