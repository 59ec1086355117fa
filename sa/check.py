"""Obligation bookkeeping, known findings, evidence and exit status shared by every check."""
import json
import os
import sys
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KF = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, level="other", explanation="", floor=1, rules=None):
        self.pid, self.level, self.explanation, self.floor = pid, level, explanation, floor
        self.t0 = time.time()
        self.obs = []             # dicts: key, rule, where, status, detail
        self.extra = {}
        self.rules = rules or {}
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quiet = "-v" not in sys.argv

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ob(self, rule, where, what, status, detail=""):
        """status: proved | agrees | ok | violated | undecided | skipped"""
        key = "%s|%s|%s" % (rule, where, what)
        self.obs.append(dict(key=key, rule=rule, where=where, what=what, status=status, detail=str(detail)[:600]))
        if not self.quiet and status not in ("proved", "ok"):
            print("  [%s] %s :: %s" % (status, key, str(detail)[:200]))

    def suites(self, fs, run, jobs=8):
        """run(f) for every f, each in a forked child; the obligations are collected in the order of fs"""
        import pickle
        sel = [a for a in sys.argv[2:] if not a.startswith("-")]
        fs = [f for f in fs if not sel or f.__name__ in sel]

        def one(f):
            t0 = time.time()
            try:
                run(f)
            except Exception as ex:
                if sel:
                    raise
                self.ob("objective", f.__name__, "model of the class", "undecided", "%s: %s" % (type(ex).__name__, ex))
            if not self.quiet:
                print(f.__name__, round(time.time() - t0, 1))
        if len(fs) < 2 or os.environ.get("VERIF_SERIAL"):
            for f in fs:
                one(f)
            return
        sys.stdout.flush()
        pending, live, out = list(enumerate(fs)), {}, {}
        jobs = max(1, min(jobs, os.cpu_count() or 1))
        while pending or live:
            while pending and len(live) < jobs:
                k, f = pending.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.obs = []
                    try:
                        one(f)
                        data = pickle.dumps((self.obs, self.extra))
                    except BaseException as ex:
                        data = pickle.dumps(([dict(key=f.__name__, rule="objective", where=f.__name__, what="suite", status="undecided",
                                                   detail=repr(ex))], {}))
                    sys.stdout.flush()
                    with os.fdopen(w, "wb") as h:
                        h.write(data)
                    os._exit(0)
                os.close(w)
                live[r] = (k, f, pid, b"")
            import select
            for r in select.select(list(live), [], [])[0]:
                k, f, pid, buf = live[r]
                d = os.read(r, 1 << 16)
                if d:
                    live[r] = (k, f, pid, buf + d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    out[k] = pickle.loads(buf)
                except Exception as ex:
                    out[k] = ([dict(key=f.__name__, rule="objective", where=f.__name__, what="suite", status="undecided", detail=repr(ex))], {})
        for k in sorted(out):
            self.obs.extend(out[k][0])
            self.extra.update(out[k][1])

    def known(self):
        try:
            with open(KF) as f:
                return [k for k in json.load(f)["findings"] if k["property"] == self.pid]
        except FileNotFoundError:
            return []

    def finish(self):
        import re
        viol = {}
        for o in self.obs:
            if o["status"] == "violated":
                viol.setdefault(o["key"], o)
        known = {k["key"]: k for k in self.known() if k.get("status", "known") == "known"}
        new = [o for k, o in viol.items() if k not in known]
        counts = Counter(o["status"] for o in self.obs)
        decided = counts["proved"] + counts["agrees"] + counts["ok"] + counts["violated"]
        for k, o in viol.items():
            if k in known:
                print("KNOWN-FINDING: property=%s %s -- %s" % (self.pid, k, known[k].get("what", "")))
        broken = decided < self.floor
        samples = [o for o in self.obs if o["status"] in ("proved", "agrees", "ok")]
        step = max(1, len(samples) // 12)
        cov = dict(
            explanation=self.explanation,
            obligations=len(self.obs),
            discharged=counts["proved"] + counts["agrees"] + counts["ok"],
            by_status=dict(counts),
            by_rule={r: dict(Counter(o["status"] for o in self.obs if o["rule"] == r))
                     for r in sorted(set(o["rule"] for o in self.obs))},
            rules=self.rules,
            analysed_places=len(set(o["where"] for o in self.obs)),
            floor=self.floor,
            known_findings=[k for k in viol if k in known],
            undecided=[dict(key=o["key"], why=o["detail"]) for o in self.obs if o["status"] == "undecided"][:200],
            samples=[dict(key=o["key"], status=o["status"], detail=o["detail"]) for o in samples[::step][:14]],
        )
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 3),
                  violations=[dict(key=o["key"], detail=o["detail"]) for o in new])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations at %d places: %s; %.1fs" % (
            self.pid, len(self.obs), cov["analysed_places"], dict(counts), ev["wall_s"]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.json")
            with open(rp, "w") as f:
                json.dump([dict(key=o["key"], detail=o["detail"]) for o in new], f, indent=1)
            for o in new[:40]:
                print("  %s :: %s" % (o["key"], o["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if broken:
            print("ANALYSIS-INCOMPLETE property=%s: only %d obligations decided, at least %d expected" % (
                self.pid, decided, self.floor))
            return 2
        return 0
