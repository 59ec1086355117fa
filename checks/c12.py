"""C12: results never depend on hash ordering"""
import os
from sa.check import Check, VERIF
from sa.project import Project
from sa.faint import Faint
from sa.hashorder import HashOrder

SELF = os.path.join(VERIF, "data", "selftest", "hashorder")


def analyse(P):
    H = HashOrder(P, Faint(P))
    H.solve()
    return H


def run():
    c = Check("C12", level="other", floor=22,
              explanation="Flow analysis from every place where an unordered collection (set, frozenset, set algebra, key views, containers of sets) is walked "
                          "or turned into something ordered. Interprocedural (per tuple of argument values), with one value per attribute of a class family. "
                          "An ordered value whose order came from a hash must not be returned by a public function or kept in a public attribute; sorting with a "
                          "key that determines the element, re-collecting, counting and keyed stores are order-free.",
              rules={"order": "the order in which an unordered collection is walked reaches no returned value or kept attribute",
                     "ties": "the key with which an unordered collection is sorted tells any two elements apart",
                     "selftest": "the rule reports the known-bad and passes the known-good examples"})

    def work():
        P = Project()
        H = analyse(P)
        for o, line in sorted(H.sites.items()):
            where, what = o
            if what.startswith("ties in"):
                continue
            esc = H.escapes.get(o)
            c.ob("order", where, what.strip(), "violated" if esc else "ok", "; ".join(esc[:3]) if esc else "discharged")
        bad = {o for o in H.sites if o[1].startswith("ties in") and o in H.escapes}
        for where, what, inj in sorted(set(H.ties), key=str):
            o = (where, "ties in " + what)
            esc = H.escapes.get(o)
            c.ob("ties", where, what, "violated" if inj is False and esc else "undecided" if inj is None else "ok",
                 "two different names can get the same key, their order is then the hash order: " + "; ".join(esc[:3]) if esc else
                 "key distinguishes elements" if inj else "not shown to distinguish elements")
        c.extra["functions"] = len(H.fns)
        c.extra["function_contexts"] = len(H.memo)
        c.extra["attributes_with_sets"] = sorted("%s.%s" % (k[0].qual, k[1]) for k, v in H.attrs.items() if v.k in "SMD")
        S = analyse(Project(root=SELF))
        hit = {o[0].split(":")[1].split(".")[0] for o in S.escapes}
        for f in S.fns:
            n = f.qual.split(".")[0]
            if n.lower().startswith("bad") and f.name in (n, "__init__"):
                c.ob("selftest", f.where, "reported", "ok" if n in hit or n == "bad_helper" and "_as_list" in hit else "undecided", "")
            elif n.startswith("good"):
                c.ob("selftest", f.where, "not reported", "ok" if n not in hit else "undecided", "")
        c.extra["selftest_reported"] = sorted(hit)
    try:
        work()
    except RecursionError as ex:
        c.ob("order", "project", "analysis", "undecided", ex)
    return c.finish()
