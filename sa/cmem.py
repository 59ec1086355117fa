"""Bounds and allocation analysis of the compiled kernels.

Abstract values are polynomials over size symbols (numbers of rows, columns, stored entries) and bounded symbols (loop
variables, values loaded from index arrays).  A loop introduces one symbol with its range, a load from an index array one
symbol with the range of the array's content; branches are joined, loops are not unrolled.  A subscript is inside its
buffer when eliminating the bounded symbols by their extreme values leaves a polynomial that is nonnegative for all sizes;
it is outside when the extreme values, all of which the loops reach, exceed the length for some sizes.
"""
import itertools
from .cir import assigned, variables, norm_type


class Poly:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v}

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, int):
            return Poly({(): x})
        return Poly({(x,): 1})

    def __add__(self, o):
        o = Poly.of(o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        d = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                m = tuple(sorted(k + l, key=str))
                d[m] = d.get(m, 0) + v * w
        return Poly(d)
    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def syms(self):
        return {s for k in self.d for s in k}

    def const(self):
        return self.d.get((), 0) if not self.syms() else None

    def subst(self, s, p):
        out = Poly()
        for k, v in self.d.items():
            t = Poly({tuple(x for x in k if x != s): v})
            for _ in range(k.count(s)):
                t = t * p
            out = out + t
        return out

    def split(self, s):
        """(coefficient of s, rest), None when s occurs to a higher power"""
        a, b = {}, {}
        for k, v in self.d.items():
            n = k.count(s)
            if n > 1:
                return None
            if n:
                a[tuple(x for x in k if x != s)] = v
            else:
                b[k] = v
        return Poly(a), Poly(b)

    def value(self, env):
        t = 0
        for k, v in self.d.items():
            for s in k:
                v *= env[s]
            t += v
        return t

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for k, v in sorted(self.d.items(), key=lambda x: (-len(x[0]), str(x[0]))):
            m = "*".join(str(s) for s in k)
            out.append(str(v) if not k else m if v == 1 else "-" + m if v == -1 else "%d*%s" % (v, m))
        return "+".join(out).replace("+-", "-")


class Sym:
    """a bounded symbol: alternatives for its bounds, each a list of polynomials whose extreme is a bound"""
    n = 0

    def __init__(self, name, lb, ub, exact=True):
        Sym.n += 1
        self.id = Sym.n
        self.name, self.lb, self.ub, self.exact = name, lb, ub, exact
        self.open = False            # the upper bound is a value that is reached, not one that is never exceeded

    def __repr__(self):
        return self.name

    def __str__(self):
        return "%s'%d" % (self.name, self.id)

    def __lt__(self, o):
        return str(self) < str(o)


def bounded(p):
    return sorted((s for s in p.syms() if isinstance(s, Sym)), key=lambda s: -s.id)


def shifted(p):
    """nonnegative for all sizes of at least one"""
    q = p
    for s in p.syms():
        q = q.subst(s, Poly.of(s) + 1)
    return all(v >= 0 for v in q.d.values())


def nonneg(p, depth=0):
    """shown to be nonnegative"""
    b = bounded(p)
    if not b:
        return shifted(p)
    if depth > 14:
        return False
    s = b[0]
    sp = p.split(s)
    if sp is None:
        return False
    a = sp[0]
    if nonneg(a, depth + 1):
        alts = s.lb
    elif nonneg(-a, depth + 1) and not s.open:
        alts = s.ub
    else:
        return False
    return any(alt and all(q is not None and nonneg(p.subst(s, q), depth + 1) for q in alt) for alt in alts)


def extremes(p, depth=0):
    """size polynomials one of which p reaches as its least value (for every alternative bound), None when not known"""
    b = bounded(p)
    if not b:
        return [[p]]
    if depth > 14:
        return None
    s = b[0]
    sp = p.split(s)
    if sp is None or not s.exact:
        return None
    a = sp[0]
    alts = s.lb if nonneg(a) else s.ub if nonneg(-a) else None
    if alts is None:
        return None
    out = []
    for alt in alts:
        if not alt or any(q is None for q in alt):
            continue
        reach = []
        for q in alt:
            e = extremes(p.subst(s, q), depth + 1)
            if e is None:
                return None
            reach.append(e)
        # any of the values of the alternative may be the one reached; alternatives below it all have to fail
        if len(reach) == 1:
            out += reach[0]
        else:
            out.append([x for r in reach for alt2 in r for x in alt2])
    return out or None


def refuted(p):
    """sizes for which p is negative although every bound is reached, None when there are none of at most three"""
    e = extremes(p)
    if not e:
        return None
    syms = sorted({s for alt in e for q in alt for s in q.syms()}, key=str)
    if len(syms) > 7:
        return None
    for vals in itertools.product((1, 2, 3), repeat=len(syms)):
        env = dict(zip(syms, vals))
        if all(any(q.value(env) < 0 for q in alt) for alt in e):
            return env
    return None


class Buf:
    def __init__(self, name, length, content=None, elem=None, nz=None, major=None):
        self.name, self.length, self.elem = name, length, elem
        self.content = content        # (list of lows, list of highs) or None
        self.nz, self.major = nz, major     # of a pointer array: its last value and the number of its intervals
        self.fresh = False

    def __repr__(self):
        return "%s[%r]" % (self.name, self.length)

    def absorb(self, lo, hi):
        """a value in [lo, hi] is stored; True when the content grew"""
        if self.content is None:
            return False
        if lo is None or hi is None:
            self.content = None
            return True
        l, h = self.content
        if all(not nonneg(lo - x) for x in l) or all(not nonneg(x - hi) for x in h):
            if len(l) > 5:
                self.content = None
                return True
            self.content = (l + [lo], h + [hi])
            return True
        return False


class Ptr:
    def __init__(self, buf, off=0):
        self.buf, self.off = buf, Poly.of(off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.buf is self.buf and o.off == self.off


def extreme(p, up, depth=0):
    """size polynomial bounding p from above (below), None when there is none"""
    b = bounded(p)
    if not b:
        return p
    if depth > 10:
        return None
    s = b[0]
    sp = p.split(s)
    if sp is None:
        return None
    pos = nonneg(sp[0])
    if not pos and not nonneg(-sp[0]) or s.open:
        return None
    alts = (s.ub if up else s.lb) if pos else (s.lb if up else s.ub)
    for alt in alts:
        if not alt or any(q is None for q in alt):
            continue
        es = [extreme(p.subst(s, q), up, depth + 1) for q in alt]
        if any(e is None for e in es):
            continue
        best = es[0]
        for e in es[1:]:
            if best is not None and nonneg((e - best) if up else (best - e)):
                best = e
            elif best is not None and not nonneg((best - e) if up else (e - best)):
                best = None
        if best is not None:
            return best
    return None


class Bounds:
    """one function under one binding of its parameters"""

    def __init__(self, f, env, fns, record, depth=0):
        self.f, self.env, self.fns, self.record = f, dict(env), fns, record
        self.loops = []              # (kind, trip polynomial or None, symbol, lo)
        self.rest = []               # statements still to run in the enclosing blocks of the innermost loop
        self.counters = {}
        self.totals = {}
        self.markers = {}
        self.depth = depth
        self.lens = {}
        self.conds = []
        self.ret = None
        self.product = None
        self.first = False
        self.sums = {}

    # ------------------------------------------------------------------ counters
    def find_counters(self, body, inloop=0, cond=False, out=None):
        out = {} if out is None else out
        for s in body:
            if s[0] == "set" and s[1][0] == "var":
                v = s[1][1]
                inc = s[2] == ("bin", "+", ("var", v), ("int", 1))
                zero = s[2] == ("int", 0)
                out.setdefault(v, []).append(("inc" if inc else "zero" if zero else "other", inloop, cond))
            if s[0] == "for":
                out.setdefault(s[1], []).append(("other", inloop, cond))
                self.find_counters(s[4], inloop + 1, cond, out)
            elif s[0] == "while":
                self.find_counters(s[2], inloop + 100, cond, out)
            elif s[0] == "each":
                self.find_counters(s[3], inloop + 100, cond, out)
            elif s[0] == "if":
                self.find_counters(s[2], inloop, True, out)
                self.find_counters(s[3], inloop, True, out)
        return out

    def run(self):
        cs = self.find_counters(self.f.body)
        for v, ms in cs.items():
            incs = [m for m in ms if m[0] == "inc"]
            zeros = [m for m in ms if m[0] == "zero"]
            if incs and zeros and len(incs) + len(zeros) == len(ms) and all(m[1] == 0 for m in zeros) and all(0 < m[1] < 50 for m in incs) and \
                    any(m[1] > 1 or m[2] for m in incs):
                self.counters[v] = incs
        env0 = dict(self.env)
        rec = self.record
        # a first round for the totals of the counters and the contents of the arrays, repeated until the contents are stable
        for rnd in range(5):
            self.first = rnd == 0
            self.env, self.record, self.grew = dict(env0), None, False
            self.sums = {}
            self.block(self.f.body)
            for v in self.counters:
                ts = self.sums.get(v)
                t = None
                if ts and all(x is not None for x, a in ts):
                    t = (sum((x for x, a in ts), Poly()), all(a for x, a in ts))
                if t != self.totals.get(v):
                    self.grew = True
                self.totals[v] = t
            if not self.grew:
                break
        self.env, self.record, self.sums = dict(env0), rec, {}
        self.block(self.f.body)
        return self.ret

    def total(self, conds):
        """number of times the current point is reached: (polynomial or None, reached exactly)"""
        t, exact = Poly.of(1), not conds
        for kind, trip, sym, lo in reversed(self.loops):
            if kind != "for" or trip is None:
                return None
            T, rel = trip
            if not rel:
                exact = False
            # lengths of the intervals of a pointer array add up to its last value
            ls = [s for s in t.syms() if s in self.lens and self.lens[s][1] == Poly.of(sym)]
            t2 = t * T if not ls else t
            if len(ls) == 1 and lo.const() == 0 and t.split(ls[0]) is not None:
                a, b = t.split(ls[0])
                if b.d and not (b * T).d == {}:
                    return None
                t2 = a * self.lens[ls[0]][0].nz
            elif ls:
                return None
            if sym in t2.syms():
                e = extreme(t2, True) if not any(s in self.lens for s in t2.syms()) else None
                if e is None:
                    return None
                t2, exact = e, False
            t = t2
        left = [s for s in t.syms() if s in self.lens]
        for s in left:
            # the interval is chosen by data: any interval may be chosen every time
            t = t.subst(s, Poly.of("entries of the longest column of " + self.lens[s][0].name))
        return t, exact

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for i, s in enumerate(body):
            self.rest.append(body[i + 1:])
            r = self.stmt(s)
            self.rest.pop()
            if r:
                return r
        return None

    def stmt(self, s):
        k = s[0]
        if k == "set":
            v = self.ev(s[2], s[-1])
            if s[1][0] == "var":
                x = s[1][1]
                if x in self.counters:
                    if s[2] != ("int", 0) and self.sums is not None:
                        mk = self.marker()
                        t = self.total([c for c in self.conds if c is not mk and not self.always(c[1])])
                        if mk is not None and self.product is not None:
                            t = (self.product, True)
                        elif mk is not None:
                            t = (t[0], False) if t else None
                        self.sums.setdefault(x, []).append(t if t is not None else (None, False))
                    self.counted = True
                    return None
                if v is None and isinstance(s[2], tuple) and s[2][0] == "call" and s[2][1] in ("malloc", "calloc"):
                    v = self.alloc(x, s[2], s[-1])
                self.env[x] = v
            elif s[1][0] in ("idx", "deref"):
                p = self.access(s[1], s[-1], "written")
                if p is not None and p.content is not None:
                    if isinstance(v, Poly):
                        g = p.absorb(extreme(v, False), extreme(v, True))
                    elif self.first and self.counters:
                        g = True          # the totals of the counters are not known yet
                    else:
                        g = p.absorb(None, None)
                    self.grew = getattr(self, "grew", False) or g
            return None
        if k == "for":
            return self.for_(s)
        if k == "while":
            return self.while_(s)
        if k == "each":
            self.havoc(s[3])
            for x in variables(s[1]):
                self.env[x] = None
            self.loops.append(("each", None, None, None))
            keep, self.rest = self.rest, []
            self.block(s[3])
            self.rest = keep
            self.loops.pop()
            self.havoc(s[3])
            return None
        if k == "if":
            self.ev(s[1], s[-1])
            null = self.null_test(s[1])
            e0 = dict(self.env)
            self.conds.append(s)
            self.refine(s[1], True)
            if null is True:
                r1 = "dead" if self.exits(s[2]) else None
                if r1 is None:
                    r1 = self.block(s[2])
            else:
                r1 = self.block(s[2])
            e1 = self.env
            self.env = dict(e0)
            self.refine(s[1], False)
            r2 = self.block(s[3])
            self.conds.pop()
            if r1 and r2:
                return r1
            if r1:
                return None
            if r2:
                self.env = e1
                return None
            out = {}
            for x in set(e1) | set(self.env):
                a, b = e1.get(x), self.env.get(x)
                if isinstance(a, Poly) and isinstance(b, Poly) and a != b:
                    out[x] = Poly.of(Sym(x, [[a, b]], [[a, b]]))
                else:
                    out[x] = a if a is b or a == b else None
            self.env = out
            return None
        if k == "ret":
            if s[1] is not None:
                self.ret = self.ev(s[1], s[-1])
            return "ret"
        if k == "expr":
            self.ev(s[1], s[-1])
            return None
        if k == "raise":
            return "raise"
        if k == "try":
            r = self.block(s[1])
            q = self.block(s[2])
            return q or r
        if k == "jump":
            return "jump"
        return None

    def exits(self, b):
        return bool(b) and b[-1][0] in ("ret", "raise")

    def null_test(self, c):
        """True when the condition is that some pointer is null"""
        if c[0] == "bin" and c[1] == "==" and ("null",) in c[2:]:
            return True
        if c[0] == "not":
            return self.pointer(c[1])
        if c[0] == "bin" and c[1] in ("||", "&&"):
            return self.null_test(c[2]) or self.null_test(c[3])
        return False

    def pointer(self, e):
        return e[0] == "var" and isinstance(self.env.get(e[1]), Ptr)

    def refine(self, c, truth):
        """bounds that the condition adds for the variables it compares"""
        if c[0] == "not":
            return self.refine(c[1], not truth)
        if c[0] == "bin" and c[1] == ("&&" if truth else "||"):
            self.refine(c[2], truth)
            self.refine(c[3], truth)
            return
        if c[0] != "bin" or c[1] not in ("<", "<=", ">", ">=", "==", "!="):
            return
        op = c[1]
        if not truth:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        rec, self.record = self.record, None
        a, b = self.ev(c[2], 0), self.ev(c[3], 0)
        self.record = rec
        for e, v, w, o in ((c[2], a, b, op), (c[3], b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
            if e[0] != "var" or e[1] in self.counters or not isinstance(v, Poly) or not isinstance(w, Poly) or o == "!=":
                continue
            lb, ub = [[v]], [[v]]
            if o in ("<", "<=", "=="):
                ub = [[v], [w - 1 if o == "<" else w]]
            if o in (">", ">=", "=="):
                lb = [[v], [w + 1 if o == ">" else w]]
            ex = all(s.exact for s in v.syms() if isinstance(s, Sym))
            self.env[e[1]] = Poly.of(Sym(e[1], lb, ub, exact=ex))

    def havoc(self, body):
        for x in assigned(body):
            if x not in self.counters:
                self.env[x] = None

    def induction(self, body, entry):
        """variables stepped once per iteration: name -> step"""
        out = {}
        top = {}
        for s in body:
            if s[0] == "set" and s[1][0] == "var":
                top.setdefault(s[1][1], []).append(s)
        for v, ss in top.items():
            if v in self.counters or len(ss) != 1 or sum(1 for x in self.sets(body) if x == v) != 1:
                continue
            e = ss[0][2]
            if e[0] == "bin" and e[1] in "+-" and e[2] == ("var", v) and not variables(e[3]) & assigned(body):
                out[v] = e[3] if e[1] == "+" else ("bin", "-", ("int", 0), e[3])
        return out

    def sets(self, body):
        out = []
        for s in body:
            if s[0] == "set" and s[1][0] == "var":
                out.append(s[1][1])
            if s[0] == "for":
                out.append(s[1])
            for x in s:
                if isinstance(x, list):
                    out += self.sets([y for y in x if isinstance(y, tuple) and y and y[0] in ("set", "for", "while", "if", "each", "try")])
        return out

    def for_(self, s):
        _, v, lo_e, hi_e, body, ln = s
        lo, hi = self.ev(lo_e, ln), self.ev(hi_e, ln)
        lo_p, hi_p = lo if isinstance(lo, Poly) else None, hi if isinstance(hi, Poly) else None
        ub = None if hi_p is None else hi_p - 1
        sym = Sym(v, [[lo_p]], [[ub]])
        ind = self.induction(body, self.env)
        trip = None
        if lo_p is not None and hi_p is not None:
            t = self.interval(lo_p, hi_p)
            trip = (t, True) if t is not None else (hi_p - lo_p, True)
        # the trip of a loop over data dependent bounds is bounded by the extremes
        if trip is not None and any(isinstance(x, Sym) for x in trip[0].syms()) and t is None:
            pass
        entry = dict(self.env)
        self.havoc(body)
        it = Poly.of(sym) - lo_p if lo_p is not None else None
        for x, st in ind.items():
            e = entry.get(x)
            rec, self.record = self.record, None
            stv = self.ev(st, ln)
            self.record = rec
            if it is not None and isinstance(stv, Poly):
                if isinstance(e, Poly):
                    self.env[x] = e + stv * it
                elif isinstance(e, Ptr):
                    self.env[x] = Ptr(e.buf, e.off + stv * it)
        self.env[v] = Poly.of(sym)
        self.loops.append(("for", trip, sym, lo_p))
        keep, self.rest = self.rest, []
        self.block(body)
        self.rest = keep
        self.loops.pop()
        self.havoc(body)
        for x, st in ind.items():
            e = entry.get(x)
            rec, self.record = self.record, None
            stv = self.ev(st, ln)
            self.record = rec
            if lo_p is not None and hi_p is not None and isinstance(stv, Poly):
                if isinstance(e, Poly):
                    self.env[x] = e + stv * (hi_p - lo_p)
                elif isinstance(e, Ptr):
                    self.env[x] = Ptr(e.buf, e.off + stv * (hi_p - lo_p))
        self.env[v] = hi_p
        return None

    def interval(self, lo, hi):
        """length symbol when [lo, hi) is one interval of a pointer array"""
        a, b = lo.syms(), hi.syms()
        if len(a) == 1 and len(b) == 1:
            x, y = next(iter(a)), next(iter(b))
            ox, oy = getattr(x, "origin", None), getattr(y, "origin", None)
            if ox and oy and lo == Poly.of(x) and hi == Poly.of(y) and ox[0] is oy[0] and oy[1] == ox[1] + 1 and ox[0].nz is not None:
                name = "len(%s,%s)" % (ox[0].name, ox[1])
                for s in self.lens:
                    if s == name:
                        return Poly.of(s)
                self.lens[name] = (ox[0], ox[1])
                return Poly.of(name)
        return None

    def while_(self, s):
        _, c, body, ln = s
        entry = dict(self.env)
        mono = {}
        for x in assigned(body):
            incs = [e for e in self.steps(body, x)]
            mono[x] = incs and all(e == ("bin", "+", ("var", x), ("int", 1)) for e in incs)
        ind = {x for x in self.induction(body, self.env)}
        self.havoc(body)
        for x, m in mono.items():
            e = entry.get(x)
            if m and isinstance(e, Poly):
                self.env[x] = Poly.of(Sym(x, [[e]], [[None]], exact=True))
        e1 = dict(self.env)
        self.cond_eval(c, ln)
        self.refine(c, True)
        if c[0] == "bin" and c[1] == "||":
            # the body also runs when one side has become false: the variable has then reached the bound of that side
            for d in (c[2], c[3]):
                x = d[2][1] if d[0] == "bin" and d[1] in ("<", "!=") and d[2][0] == "var" else None
                if mono.get(x) and isinstance(self.env.get(x), Poly):
                    w = self.quiet(d[3])
                    if isinstance(w, Poly):
                        sy = Sym(x, [[entry[x]]], [[w]])
                        sy.open = True
                        self.env[x] = Poly.of(sy)
        for x, m in mono.items():
            # a bound that comes from the guard alone
            p = self.env.get(x)
            if isinstance(p, Poly):
                for sy in list(p.syms()):
                    if isinstance(sy, Sym) and len(sy.ub) > 1:
                        sy.ub = [a for a in sy.ub if not (len(a) == 1 and a[0] == e1.get(x))] or sy.ub
        self.loops.append(("while", None, None, None))
        keep, self.rest = self.rest, []
        self.block(body)
        self.rest = keep
        self.loops.pop()
        self.env = dict(e1)
        return None

    def steps(self, body, x):
        out = []
        for s in body:
            if s[0] == "set" and s[1] == ("var", x):
                out.append(s[2])
            elif s[0] == "for":
                out += [("unk",)] if s[1] == x else self.steps(s[4], x)
            elif s[0] == "while":
                out += self.steps(s[2], x)
            elif s[0] == "if":
                out += self.steps(s[2], x) + self.steps(s[3], x)
        return out

    def cond_eval(self, c, ln):
        """the guard of a loop: the right side of && is evaluated only when the left holds"""
        if c[0] == "bin" and c[1] == "&&":
            self.cond_eval(c[2], ln)
            e = dict(self.env)
            self.refine(c[2], True)
            self.cond_eval(c[3], ln)
            self.env = e
        else:
            self.ev(c, ln)

    # ------------------------------------------------------------------ the marker idiom of sparse products
    def marker(self):
        """the innermost condition `w[i] < j` (or !=) whose branch sets w[i] = j, j being the variable of an enclosing loop"""
        if not self.conds:
            return None
        s = self.conds[-1]
        c = s[1]
        if c[0] == "bin" and c[1] in ("<", "!=", ">", "<="):
            a, b = (c[2], c[3]) if c[1] in ("<", "!=") else (c[3], c[2])
            for x, y in ((a, b), (b, a)) if c[1] == "!=" else ((a, b),):
                if c[1] == "<=":
                    continue
                if x[0] == "idx" and y[0] == "var" and any(l[0] == "for" and l[2] is not None and self.env.get(y[1]) == Poly.of(l[2]) for l in self.loops[:-1]):
                    if any(t[0] == "set" and t[1] == x and t[2] == y for t in s[2]):
                        return s
        return None

    def always(self, c):
        """a marker test that holds every time: the marker is never set to the value it is compared with, or equality passes"""
        if c[0] != "bin" or c[1] not in ("<", "!=", ">", "<=", ">="):
            return False
        for x, y, o in ((c[2], c[3], c[1]), (c[3], c[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c[1], c[1]))):
            if x[0] != "idx" or x[1][0] != "var" or y[0] != "var" or not any(l[0] == "for" and l[2] is not None and self.env.get(y[1]) == Poly.of(l[2]) for l in self.loops[:-1]):
                continue
            vals = self.stores(self.f.body, x[1][1])
            below = [v for v in vals if v[0] == "neg" or v[0] == "int" and v[1] < 0 or v == ("bin", "-", ("int", 0), ("int", 1))]
            if vals and len(below) == len(vals) and o in ("<", "!=", "<="):
                return True
            if vals and o == "<=" and all(v in below or v == y for v in vals):
                return True
        return False

    def stores(self, body, name):
        out = []
        for s in body:
            if s[0] == "set" and s[1][0] == "idx" and s[1][1] == ("var", name):
                out.append(s[2])
            for x in s:
                if isinstance(x, list):
                    out += self.stores([y for y in x if isinstance(y, tuple) and y and isinstance(y[0], str)], name)
        return out

    # ------------------------------------------------------------------ expressions
    def alloc(self, name, e, ln):
        args = e[2]
        n = None
        if e[1] == "calloc" and len(args) == 2:
            n, size = self.ev(args[0], ln), args[1]
            if args[0][0] == "sizeof":
                n, size = self.ev(args[1], ln), args[0]
        elif e[1] == "malloc" and len(args) == 1:
            a, size = args[0], None
            if a[0] == "bin" and a[1] == "*":
                l, r = a[2], a[3]
                if r[0] == "sizeof":
                    n, size = self.ev(l, ln), r
                elif l[0] == "sizeof":
                    n, size = self.ev(r, ln), l
        if not isinstance(n, Poly):
            return Ptr(Buf(name, None))
        el = norm_type(self.f.types.get(name, "?")).rstrip("*")
        if size is not None and size[0] == "sizeof" and size[1] != el and el != "?":
            b = {"char": 1, "short": 2, "int": 4, "float": 4, "long": 8, "double": 8, "size_t": 8, "doublecomplex": 16, "complexdouble": 16}
            if size[1] in b and el in b and b[size[1]] % b[el] == 0:
                n = n * (b[size[1]] // b[el])
            elif size[1] in b and el in b and self.record is not None:
                self.record("alloc size", ln, "%s = %s elements of %s" % (name, n, size[1]), False, "the elements of the buffer are %s" % el)
                return Ptr(Buf(name, None))
            else:
                return Ptr(Buf(name, None))
        b = Buf(name, n, content=None, elem=el)
        return Ptr(b)

    def access(self, e, ln, how):
        """check a subscript or dereference; the buffer, or None"""
        if e[0] == "idx":
            b = self.ev(e[1], ln)
            i = self.ev(e[2], ln)
        else:
            b, i = self.ev(e[1], ln), Poly()
        if not isinstance(b, Ptr):
            return None
        if b.buf.length is None or not isinstance(i, Poly):
            if self.record is not None:
                self.record("bounds", ln, "%s[%s] %s" % (b.buf.name, show(e[2]) if e[0] == "idx" else "", how), None, "no bound known for the subscript" if b.buf.length is not None else "length not known")
            return b.buf
        p = b.off + i
        if self.record is not None:
            what = "%s[%s] %s" % (b.buf.name, show(e[2]) if e[0] == "idx" else "*", how)
            hi = b.buf.length - 1 - p
            okh, okl = nonneg(hi), nonneg(p)
            if okh and okl:
                self.record("bounds", ln, what, True, "subscript %r, length %r" % (p, b.buf.length))
            else:
                r = refuted(hi) if not okh else None
                q = refuted(p) if not okl else None
                if r is not None or q is not None:
                    self.record("bounds", ln, what, False, "subscript reaches %r in a buffer of %r elements, for instance with %s" % (
                        (extreme(p, True) if r is not None else extreme(p, False)), b.buf.length, ", ".join("%s=%d" % (k, v) for k, v in (r if r is not None else q).items())))
                else:
                    self.record("bounds", ln, what, None, "subscript %r not compared with length %r" % (p, b.buf.length))
        return b.buf

    def counter_value(self, x):
        t = self.totals.get(x)
        if t is None:
            return None
        ahead = any(s[0] == "set" and s[1] == ("var", x) for r in self.rest for s in r)
        ub = t[0] - 1 if ahead else t[0]
        return Poly.of(Sym(x, [[Poly()]], [[ub]], exact=t[1]))

    def ev(self, e, ln):
        k = e[0]
        if k == "int":
            return Poly.of(e[1])
        if k == "var":
            if e[1] in self.counters:
                return self.counter_value(e[1])
            return self.env.get(e[1])
        if k == "idx":
            base = e[1]
            if base[0] == "attr":                 # X.shape[0]
                o = self.env.get(base[1][1]) if base[1][0] == "var" else None
                if base[2] == "shape" and isinstance(o, Dense) and e[2][0] == "int" and e[2][1] < len(o.shape):
                    return o.shape[e[2][1]]
                return None
            b = self.access(e, ln, "read")
            if b is not None and b.content is not None:
                i = self.ev(e[2], 0) if self.record is None else self.quiet(e[2])
                p = self.quiet(e[1])
                key = (id(b), repr(p.off + i) if isinstance(i, Poly) else None)
                s = Sym("%s[%s]" % (b.name, show(e[2])), [list(b.content[0])], [list(b.content[1])])
                if isinstance(i, Poly) and b.nz is not None:
                    s.origin = (b, p.off + i)
                    memo = self.__dict__.setdefault("loads", {})
                    return memo.setdefault((key, tuple(map(repr, b.content[1]))), Poly.of(s))
                return Poly.of(s)
            return None
        if k == "deref":
            self.access(e, ln, "read")
            return None
        if k == "addr":
            if e[1][0] == "idx":
                b = self.ev(e[1][1], ln)
                if isinstance(b, Dense):
                    return Ptr(b.buf())
                i = self.ev(e[1][2], ln)
                if isinstance(b, Ptr) and isinstance(i, Poly):
                    return Ptr(b.buf, b.off + i)
                if isinstance(b, Ptr):
                    return b
            if e[1][0] == "var":
                return Ptr(Buf(e[1][1], Poly.of(1)))
            return None
        if k == "bin":
            if e[1] in ("&&", "||"):
                self.ev(e[2], ln)
                env = dict(self.env)
                self.refine(e[2], e[1] == "&&")
                self.ev(e[3], ln)
                self.env = env
                return None
            a, b = self.ev(e[2], ln), self.ev(e[3], ln)
            if isinstance(a, Ptr) and isinstance(b, Poly) and e[1] in "+-":
                return Ptr(a.buf, a.off + (b if e[1] == "+" else -b))
            if isinstance(b, Ptr) and isinstance(a, Poly) and e[1] == "+":
                return Ptr(b.buf, b.off + a)
            if isinstance(a, Poly) and isinstance(b, Poly):
                if e[1] == "+":
                    return a + b
                if e[1] == "-":
                    return a - b
                if e[1] == "*":
                    return a * b
                if e[1] == "%":
                    return Poly.of(Sym("%s%%%s" % (a, b), [[Poly()]], [[b - 1]]))
                if e[1] == "/" and nonneg(a):
                    q = self.quotient(a, b)
                    return q if q is not None else Poly.of(Sym("%s/%s" % (a, b), [[Poly()]], [[a]], exact=False))
            return None
        if k == "cond":
            self.ev(e[1], ln)
            a, b = self.ev(e[2], ln), self.ev(e[3], ln)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return a if a == b else Poly.of(Sym("choice", [[a, b]], [[a, b]], exact=False))
            return a if a == b else None
        if k == "call":
            if e[1] in ("malloc", "calloc"):
                return None
            args = [self.ev(a, ln) for a in e[2]]
            g = self.fns.get(e[1])
            if g is not None and self.depth < 3 and len(g.params) == len(args):
                sub = Bounds(g, {p: a for (p, t), a in zip(g.params, args)}, self.fns, self.sub(g), self.depth + 1)
                return sub.run()
            return None
        if k == "not":
            self.ev(e[1], ln)
            return None
        for x in e[1:]:
            if isinstance(x, tuple):
                self.ev(x, ln)
        return None

    def quotient(self, a, b):
        """(x + i) / n for i < n, x a multiple of n"""
        bs = list(b.d.items())
        if len(bs) != 1:
            return None
        m, c = bs[0]
        q, r = {}, {}
        for k, v in a.d.items():
            kk = list(k)
            if v % c == 0 and all(kk.count(s) >= m.count(s) for s in set(m)):
                for s in m:
                    kk.remove(s)
                q[tuple(kk)] = v // c
            else:
                r[k] = v
        rest = Poly(r)
        if nonneg(rest) and nonneg(b - 1 - rest):
            return Poly(q)
        return None

    def sub(self, g):
        if self.record is None:
            return None
        rec = self.record
        return lambda rule, ln, what, ok, why: rec(rule, ln, "%s: %s" % (g.name, what), ok, why)

    def quiet(self, e):
        rec, self.record = self.record, None
        v = self.ev(e, 0)
        self.record = rec
        return v


class Dense:
    def __init__(self, name, shape, content=None, nz=None, major=None, elem=None):
        self.name, self.shape, self.content, self.nz, self.major, self.elem = name, [Poly.of(s) for s in shape], content, nz, major, elem
        self._buf = None

    def buf(self):
        if self._buf is None:
            n = Poly.of(1)
            for s in self.shape:
                n = n * s
            self._buf = Buf(self.name, n, self.content, self.elem, self.nz, self.major)
        return self._buf


def show(e):
    k = e[0]
    if k == "int":
        return str(e[1])
    if k == "var":
        return e[1]
    if k == "idx":
        return "%s[%s]" % (show(e[1]), show(e[2]))
    if k == "bin":
        return "%s%s%s" % (show(e[2]), e[1], show(e[3]))
    return "..."


# ---------------------------------------------------------------------- allocation typestate
class Alloc:
    """flow of every allocation: possibly null, live, null, released; a set of states per pointer, joined at merges"""

    def __init__(self, f, record, python=False):
        self.f, self.record, self.python = f, record, python
        self.sites = 0
        self.ptrs = set()
        self.find(f.body)

    def find(self, b):
        for s in b:
            if s[0] == "set" and s[1][0] == "var" and self.is_alloc(s[2]):
                self.ptrs.add(s[1][1])
                self.sites += 1
            for x in s:
                if isinstance(x, list):
                    if x and isinstance(x[0], list):
                        for y in x:
                            self.find(y)
                    else:
                        self.find([y for y in x if isinstance(y, tuple)])

    @staticmethod
    def is_alloc(e):
        return e[0] == "call" and e[1] in ("malloc", "calloc", "realloc", "PyMem_Malloc", "PyMem_Calloc")

    def run(self):
        if not self.ptrs:
            return
        self.loopstart = []
        self.final = []              # finally blocks in force
        st = self.block(self.f.body, {})
        if st is not None:
            self.leave(st, "the end of the function", 0)

    def leave(self, st, where, ln):
        for fb in reversed(self.final):
            keep, self.final = self.final, []
            st = self.block(fb, dict(st)) or {}
            self.final = keep
        for p, ss in sorted(st.items()):
            if ss & {"maybe", "live"}:
                self.record("release", ln, "%s at %s" % (p, where), False, "the buffer is still allocated")
            else:
                self.record("release", ln, "%s at %s" % (p, where), True, "")

    def uses(self, e, st, ln):
        if not isinstance(e, tuple) or not e:
            return
        if e[0] in ("idx", "deref"):
            b = e[1]
            while isinstance(b, tuple) and b and b[0] == "bin":
                b = b[2]
            if isinstance(b, tuple) and b and b[0] == "var" and b[1] in st:
                ss = st[b[1]]
                if "freed" in ss:
                    self.record("use", ln, "%s[%s]" % (b[1], show(e[2]) if e[0] == "idx" else ""), False, "used after it was released")
                elif ss & {"maybe", "null"}:
                    self.record("null", ln, "%s[%s]" % (b[1], show(e[2]) if e[0] == "idx" else ""), False, "the allocation may have failed: not tested before this use")
                else:
                    self.record("null", ln, "%s[%s]" % (b[1], show(e[2]) if e[0] == "idx" else ""), True, "")
        if e[0] == "call" and e[1] not in ("free", "PyMem_Free"):
            for a in e[2]:
                if isinstance(a, tuple) and a and a[0] == "var" and a[1] in st:
                    ss = st[a[1]]
                    if "freed" in ss:
                        self.record("use", ln, "%s passed to %s" % (a[1], e[1]), False, "used after it was released")
                    elif ss & {"maybe", "null"}:
                        self.record("null", ln, "%s passed to %s" % (a[1], e[1]), False, "the allocation may have failed: not tested before this use")
                    else:
                        self.record("null", ln, "%s passed to %s" % (a[1], e[1]), True, "")
        for x in e[1:]:
            if isinstance(x, tuple):
                self.uses(x, st, ln)
            elif isinstance(x, list):
                for y in x:
                    self.uses(y, st, ln)

    def may_raise(self, e):
        """a Python operation that can raise, in a Cython function"""
        if not isinstance(e, tuple) or not e:
            return False
        if e[0] == "call":
            if e[1].startswith(".") or e[1] not in ("malloc", "calloc", "free", "sizeof") and e[1] not in self.c_helpers:
                return True
        if e[0] == "idx" and isinstance(e[1], tuple) and e[1][0] == "var" and e[1][1] not in self.ptrs and "*" not in self.f.types.get(e[1][1], ""):
            return True
        if e[0] == "attr":
            return True
        return any(self.may_raise(x) for x in e[1:] if isinstance(x, tuple)) or any(self.may_raise(y) for x in e[1:] if isinstance(x, list) for y in x)

    c_helpers = set()

    def raise_(self, st, e, ln):
        if self.python and self.may_raise(e) and any(ss & {"maybe", "live"} for ss in st.values()):
            self.leave(dict(st), "an exception in line with %s" % show_any(e), ln)

    def block(self, b, st):
        for s in b:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for p in set(a) | set(b):
            out[p] = a.get(p, frozenset({"none"})) | b.get(p, frozenset({"none"}))
        return out

    def test(self, c, st, truth):
        """states when the condition has the given truth, None when it cannot"""
        if c[0] == "not":
            if c[1][0] == "var" and c[1][1] in st:
                return self.null(st, c[1][1], truth)
            return self.test(c[1], st, not truth)
        if c[0] == "var" and c[1] in st:
            return self.null(st, c[1], not truth)
        if c[0] == "bin" and c[1] in ("==", "!=") and ("null",) in c[2:]:
            x = c[2] if c[3] == ("null",) else c[3]
            if x[0] == "var" and x[1] in st:
                return self.null(st, x[1], truth == (c[1] == "=="))
        if c[0] == "bin" and c[1] in ("&&", "||"):
            if (c[1] == "&&") == truth:
                a = self.test(c[2], st, truth)
                return self.test(c[3], a, truth) if a is not None else None
            a = self.test(c[2], st, truth)
            b = self.test(c[2], st, not truth)
            b = self.test(c[3], b, truth) if b is not None else None
            return self.merge(a, b)
        return dict(st)

    def null(self, st, p, is_null):
        out = dict(st)
        ss = set()
        for s in st[p]:
            if s == "maybe":
                ss.add("null" if is_null else "live")
            elif s == "null":
                if is_null:
                    ss.add(s)
            elif s == "live":
                if not is_null:
                    ss.add(s)
            else:
                ss.add(s)
        if not ss:
            return None
        out[p] = frozenset(ss)
        return out

    def stmt(self, s, st):
        k = s[0]
        ln = s[-1]
        if k == "set":
            v = s[2]
            self.uses(v, st, ln)
            if s[1][0] == "var":
                if self.is_alloc(v):
                    if st.get(s[1][1], frozenset()) & {"live", "maybe"}:
                        self.record("release", ln, "%s overwritten" % s[1][1], False, "the buffer it held is still allocated")
                    return dict(st, **{s[1][1]: frozenset({"maybe"})})
                if s[1][1] in st and v == ("null",):
                    if st[s[1][1]] & {"live", "maybe"}:
                        self.record("release", ln, "%s overwritten" % s[1][1], False, "the buffer it held is still allocated")
                    return dict(st, **{s[1][1]: frozenset({"null"})})
            else:
                self.uses(s[1], st, ln)
            self.raise_(st, v, ln)
            return st
        if k == "expr":
            e = s[1]
            if e[0] == "call" and e[1] in ("free", "PyMem_Free") and e[2] and e[2][0][0] == "var":
                p = e[2][0][1]
                if p in st:
                    self.record("release", ln, "free(%s)" % p, "freed" not in st[p], "released twice" if "freed" in st[p] else "")
                    return dict(st, **{p: frozenset({"freed"})})
                return st
            self.uses(e, st, ln)
            self.raise_(st, e, ln)
            return st
        if k == "if":
            self.uses(s[1], st, ln)
            self.raise_(st, s[1], ln)
            a, b = self.test(s[1], st, True), self.test(s[1], st, False)
            a = self.block(s[2], a) if a is not None else None
            b = self.block(s[3], b) if b is not None else None
            return self.merge(a, b)
        if k in ("for", "while", "each"):
            if k == "for":
                self.uses(s[2], st, ln)
                self.uses(s[3], st, ln)
            body = {"for": 4, "while": 2, "each": 3}[k]
            cur = st
            for _ in range(3):
                if k == "while":
                    self.uses(s[1], cur, ln)
                self.loopstart.append([])
                out = self.block(s[body], dict(cur))
                for j in self.loopstart.pop():
                    out = self.merge(out, j)
                new = self.merge(cur, out)
                if new == cur:
                    break
                cur = new
            return cur
        if k == "ret":
            if s[1] is not None:
                self.uses(s[1], st, ln)
                self.raise_(st, s[1], ln)
                if s[1][0] == "var" and s[1][1] in st:
                    st = dict(st, **{s[1][1]: frozenset({"none"})})
            self.leave(st, "return", ln)
            return None
        if k == "raise":
            self.leave(st, "raise", ln)
            return None
        if k == "try":
            self.final.append(s[2])
            st = self.block(s[1], st)
            self.final.pop()
            return self.block(s[2], st) if st is not None else None
        if k == "jump":
            if self.loopstart:
                self.loopstart[-1].append(st)
            return None
        return st


def show_any(e):
    if e[0] == "call":
        return "%s(...)" % e[1].lstrip(".")
    return show(e)
