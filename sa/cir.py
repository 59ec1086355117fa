"""A small common form for the C kernels (from clang's syntax tree) and the Cython modules (from their text).

Statements are tuples whose first element is the kind:
  ("set", lhs, expr, line)  ("for", var, lo, hi, body, line)  ("while", cond, body, line)  ("if", cond, then, other, line)
  ("ret", expr, line)  ("expr", expr, line)  ("raise", line)  ("try", body, final, line)  ("jump", kind, line)
Expressions:
  ("int", n) ("num",) ("var", name) ("idx", base, index) ("bin", op, a, b) ("call", name, args) ("deref", e) ("addr", e)
  ("sizeof", type) ("null",) ("not", e) ("cond", c, a, b) ("unk",)
"""
import ast
import json
import os
import re
import subprocess


class CFn:
    def __init__(self, name, params, body, path, ret="void"):
        self.name, self.params, self.body, self.path, self.ret = name, params, body, path, ret
        self.types = {}          # variable -> C type


# ---------------------------------------------------------------------- from clang
def clang_functions(path, include):
    r = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-I", os.path.dirname(path), "-I", include, path],
                       capture_output=True, text=True)
    if not r.stdout:
        return None
    tree = json.loads(r.stdout)
    out = []
    for d in tree.get("inner", ()):
        if d.get("kind") == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())):
            loc = d.get("loc", {})
            if "includedFrom" in loc or "includedFrom" in loc.get("expansionLoc", {}):
                continue
            out.append(Conv(path).fn(d))
    return out


class Conv:
    def __init__(self, path):
        self.path = path
        self.line = 0

    def fn(self, d):
        ps = [(p.get("name", "_"), p["type"]["qualType"]) for p in d["inner"] if p["kind"] == "ParmVarDecl"]
        self.f = CFn(d["name"], ps, None, self.path, d["type"]["qualType"].split("(")[0].strip())
        self.f.types = dict(ps)
        body = next(c for c in d["inner"] if c["kind"] == "CompoundStmt")
        self.f.body = self.block(body)
        return self.f

    def at(self, n):
        b = n.get("range", {}).get("begin", {})
        b = b.get("expansionLoc", b)
        if "line" in b:
            self.line = b["line"]
        return self.line

    def block(self, n):
        if n.get("kind") == "CompoundStmt":
            return [s for c in n.get("inner", ()) for s in self.stmt(c)]
        return self.stmt(n)

    def strip(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ConstantExpr", "FullExpr", "ExprWithCleanups"):
            if n["kind"] in ("CStyleCastExpr", "ImplicitCastExpr") and n.get("castKind") == "NullToPointer":
                return {"kind": "NULL"}
            n = n["inner"][-1]
        return n

    def expr(self, n):
        self.at(n)
        n = self.strip(n)
        k = n["kind"]
        if k == "NULL":
            return ("null",)
        i = n.get("inner", [])
        if k == "IntegerLiteral":
            return ("int", int(n["value"]))
        if k in ("FloatingLiteral", "ImaginaryLiteral"):
            return ("num",)
        if k == "DeclRefExpr":
            return ("var", n["referencedDecl"]["name"])
        if k == "ArraySubscriptExpr":
            return ("idx", self.expr(i[0]), self.expr(i[1]))
        if k == "BinaryOperator":
            return ("bin", n["opcode"], self.expr(i[0]), self.expr(i[1]))
        if k == "UnaryOperator":
            o = n["opcode"]
            e = self.expr(i[0])
            if o == "*":
                return ("deref", e)
            if o == "&":
                return ("addr", e)
            if o == "-":
                return ("bin", "-", ("int", 0), e)
            if o == "!":
                return ("not", e)
            if o == "+":
                return e
            if o in ("++", "--"):
                return ("step", e, 1 if o == "++" else -1, bool(n.get("isPostfix")))
            return ("unk",)
        if k == "ConditionalOperator":
            return ("cond", self.expr(i[0]), self.expr(i[1]), self.expr(i[2]))
        if k == "CallExpr":
            f = self.strip(i[0])
            return ("call", f.get("referencedDecl", {}).get("name", "?"), [self.expr(a) for a in i[1:]])
        if k == "UnaryExprOrTypeTraitExpr" and n.get("name") == "sizeof":
            t = n.get("argType", {}).get("qualType")
            if t is None and i:
                t = self.strip(i[0]).get("type", {}).get("qualType")
            return ("sizeof", norm_type(t or "?"))
        if k == "CompoundAssignOperator":
            return ("aug", self.expr(i[0]), n["opcode"][:-1], self.expr(i[1]))
        return ("unk",)

    def flat(self, e, ln):
        """assignments and steps used as expressions, as statements"""
        if e[0] == "bin" and e[1] == "=":
            if e[3][0] == "bin" and e[3][1] == "=":
                return self.flat(e[3], ln) + [("set", e[2], e[3][2], ln)]
            return self.pre(e[3], ln) + [("set", e[2], self.pure(e[3]), ln)] + self.post(e[3], ln)
        if e[0] == "bin" and e[1] == ",":
            return self.flat(e[2], ln) + self.flat(e[3], ln)
        if e[0] == "aug":
            return self.pre(e[3], ln) + self.pre(e[1], ln) + [("set", self.pure(e[1]), ("bin", e[2], self.pure(e[1]), self.pure(e[3])), ln)] + self.post(e[1], ln) + self.post(e[3], ln)
        if e[0] == "step":
            return [("set", self.pure(e[1]), ("bin", "+", self.pure(e[1]), ("int", e[2])), ln)]
        return self.pre(e, ln) + [("expr", self.pure(e), ln)] + self.post(e, ln)

    def steps(self, e):
        if isinstance(e, tuple) and e and e[0] == "step":
            return [e]
        out = []
        if isinstance(e, (tuple, list)):
            for x in e:
                out += self.steps(x)
        return out

    def pre(self, e, ln):
        return [s for st in self.steps(e) if not st[3] for s in self.flat(st, ln)]

    def post(self, e, ln):
        return [s for st in self.steps(e) if st[3] for s in self.flat(st, ln)]

    def pure(self, e):
        if isinstance(e, tuple) and e and e[0] == "step":
            return self.pure(e[1])
        if isinstance(e, tuple):
            return tuple(self.pure(x) for x in e)
        if isinstance(e, list):
            return [self.pure(x) for x in e]
        return e

    def full(self, n, ln):
        e = self.expr(n)
        if e[0] == "bin" and e[1] == "=":      # a store whose target or value steps a variable
            t, v = e[2], e[3]
            if v[0] == "bin" and v[1] == "=":
                return self.flat(e, ln)
            return self.pre(t, ln) + self.pre(v, ln) + [("set", self.pure(t), self.pure(v), ln)] + self.post(v, ln) + self.post(t, ln)
        return self.flat(e, ln)

    def stmt(self, n):
        ln = self.at(n)
        k = n["kind"]
        if k == "CompoundStmt":
            return self.block(n)
        if k == "DeclStmt":
            out = []
            for v in n.get("inner", ()):
                if v["kind"] == "VarDecl":
                    self.f.types[v["name"]] = v["type"]["qualType"]
                    ln = self.at(v)
                    if v.get("inner"):
                        e = self.expr(v["inner"][-1])
                        out += self.pre(e, ln) + [("set", ("var", v["name"]), self.pure(e), ln)] + self.post(e, ln)
            return out
        if k == "ReturnStmt":
            return [("ret", self.expr(n["inner"][0]) if n.get("inner") else None, ln)]
        if k == "NullStmt":
            return []
        if k in ("BreakStmt", "ContinueStmt"):
            return [("jump", k[:-4].lower(), ln)]
        if k == "IfStmt":
            i = n["inner"]
            return [("if", self.expr(i[0]), self.block(i[1]), self.block(i[2]) if len(i) > 2 else [], ln)]
        if k == "WhileStmt":
            i = n["inner"]
            return [loop(self.expr(i[0]), self.block(i[-1]), ln)]
        if k == "DoStmt":
            i = n["inner"]
            b = self.block(i[0])
            return b + [loop(self.expr(i[1]), b, ln)]
        if k == "ForStmt":
            init, _, cond, inc, body = n["inner"]
            pre = self.stmt(init) if init.get("kind") else []
            ce = self.expr(cond) if cond.get("kind") else ("int", 1)
            ie = self.expr(inc) if inc.get("kind") else None
            b = self.block(body)
            post = self.flat(ie, ln) if ie is not None else []
            return counted(pre, ce, post, b, ln)
        if "kind" in n and n["kind"].startswith("OMP"):
            return [s for c in n.get("inner", ()) if c.get("kind", "").endswith("Stmt") for s in self.block(c)]
        return self.full(n, ln)


def loop(c, b, ln):
    return ("while", c, b, ln)


def assigned(body):
    out = set()
    for s in body:
        if s[0] == "set" and s[1][0] == "var":
            out.add(s[1][1])
        for x in s:
            if isinstance(x, list):
                out |= assigned([y for y in x if isinstance(y, tuple)])
        if s[0] == "for":
            out.add(s[1])
    return out


def variables(e):
    if isinstance(e, tuple) and e and e[0] == "var":
        return {e[1]}
    out = set()
    if isinstance(e, (tuple, list)):
        for x in e:
            out |= variables(x)
    return out


def counted(pre, c, post, body, ln):
    """a for loop in the form for v in [lo, hi) when it is one, otherwise the while loop it abbreviates"""
    general = pre + [loop(c, body + post, ln)]
    if len(post) != 1 or post[0][1][0] != "var" or c[0] != "bin":
        return general
    v = post[0][1][1]
    st = post[0][2]
    if st[0] != "bin" or st[1] not in "+-" or st[2] != ("var", v) or st[3][0] != "int" or abs(st[3][1]) != 1:
        return general
    up = (st[1] == "+") == (st[3][1] == 1)
    init = [s for s in pre if s[0] == "set" and s[1] == ("var", v)]
    if len(init) != 1 or v in assigned(body):
        return general
    rest = [s for s in pre if s is not init[0]]
    op, a, b = c[1], c[2], c[3]
    if b == ("var", v):
        a, b = b, a
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(op)
    if a != ("var", v) or variables(b) & (assigned(body) | {v}):
        return general
    one = ("int", 1)
    if up and op in ("<", "!="):
        return rest + [("for", v, init[0][2], b, body, ln)]
    if up and op == "<=":
        return rest + [("for", v, init[0][2], ("bin", "+", b, one), body, ln)]
    if not up and op == ">=":
        return rest + [("for", v, b, ("bin", "+", init[0][2], one), body, ln)]
    if not up and op in (">", "!="):
        return rest + [("for", v, ("bin", "+", b, one), ("bin", "+", init[0][2], one), body, ln)]
    return general


def norm_type(t):
    return re.sub(r"\bconst\b|\brestrict\b|\b_?Complex\b|\bcomplex\b", lambda m: "complex" if "omplex" in m.group() else "", t).replace(" ", "")


# ---------------------------------------------------------------------- from Cython text
SIG = re.compile(r"^(?P<i>\s*)(?:cdef|cpdef)\s+(?:inline\s+)?(?P<t>[\w ]+?[\s*]+)?(?P<n>\w+)\s*\((?P<a>.*)\)\s*(?:nogil|noexcept|except[^:]*)?\s*:\s*$", re.S)


def strip_param(p):
    """(name, type text, default) of a Cython parameter"""
    p = p.strip()
    d = None
    if "=" in p and not re.search(r"\[[^\]]*=[^\]]*$", p.split("=")[0] + "="):
        q = re.sub(r"\[[^\]]*\]", lambda m: m.group().replace("=", "\0"), p)
        if "=" in q:
            q, d = q.split("=", 1)
            p = q.replace("\0", "=")
    p = re.sub(r"\bnot\s+None\b|\bor\s+None\b", "", p).strip()
    m = re.match(r"^(.*?)(\w+)\s*$", p, re.S)
    return m.group(2), m.group(1).strip(), d


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        if ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def logical_lines(text):
    """(line number, line) with brackets joined and comments removed"""
    out, buf, start, depth = [], "", 0, 0
    for i, l in enumerate(text.split("\n"), 1):
        l = re.sub(r"#(?=([^\"']*[\"'][^\"']*[\"'])*[^\"']*$).*", "", l)
        if not buf:
            start = i
        buf = buf + l if not buf else buf + " " + l.strip()
        depth = sum(buf.count(c) for c in "([{") - sum(buf.count(c) for c in ")]}")
        if depth <= 0:
            if buf.strip():
                out.append((start, buf.rstrip()))
            buf = ""
    return out


def pyx(path):
    """(functions, extern declarations {name: [(param, type)]}, python tree) of a Cython module"""
    text = open(path).read()
    ext, lines, sigs = {}, [], {}
    inext = None
    for no, l in logical_lines(text):
        ind = len(l) - len(l.lstrip())
        if re.match(r"^\s*cdef\s+extern\b", l):
            inext = ind
            continue
        if inext is not None and ind > inext:
            m = re.match(r"^\s*(?P<t>[\w ]+[\s*]+)(?P<n>\w+)\s*\((?P<a>.*)\)", l, re.S)
            if m:
                ext[m.group("n")] = (m.group("t").strip(), [strip_param(a)[:2] for a in split_args(m.group("a"))])
            continue
        inext = None
        m = SIG.match(l)
        if m is None and re.match(r"^\s*def\s+\w+\s*\(", l):
            m = re.match(r"^(?P<i>\s*)def\s+(?P<n>\w+)\s*\((?P<a>.*)\)\s*:\s*$", l, re.S)
        if m is not None:
            ps = [strip_param(a) for a in split_args(m.group("a")) if a.strip()]
            sigs[m.group("n")] = [(n, t) for n, t, d in ps]
            lines.append((no, m.group("i") + "def %s(%s):" % (m.group("n"), ", ".join(n + ("=" + d if d else "") for n, t, d in ps))))
            continue
        if re.match(r"^\s*(cimport|from\s+[\w.]+\s+cimport)\b", l):
            continue
        m = re.match(r"^(\s*)cdef\s+(.*)$", l)
        if m:
            sig = sigs
            decls = split_args(m.group(2))
            t = re.match(r"^((?:unsigned\s+|long\s+|double\s+complex|[\w.]+)\s*(?:\[[^\]]*\])?\s*)(.*)$", decls[0].strip())
            if not t:
                continue
            decls[0] = t.group(2)
            for d in decls:
                d = d.strip()
                if "=" in d:
                    lines.append((no, m.group(1) + d.lstrip("* ")))
                name = re.match(r"[\s*]*(\w+)", d)
                if name:
                    sigs.setdefault("@types", []).append((no, name.group(1), t.group(1).strip() + ("*" if "*" in d.split(name.group(1))[0] else "")))
            continue
        lines.append((no, l))
    src = {}
    for no, l in lines:
        l = re.sub(r"<\s*[\w. ]+\s*\**\s*>\s*", "", l)       # casts
        l = re.sub(r"&(?=\w)", "ADDR__*", l)                    # address of: parsed as a product with a marker
        src.setdefault(no, l)
    n = max(src) if src else 0
    body = "\n".join(src.get(i, "") for i in range(1, n + 1)) + "\n"
    try:
        tree = ast.parse(body)
    except SyntaxError:
        return None
    return tree, ext, sigs


class PyConv:
    """statements of a Cython function body"""

    def __init__(self, path):
        self.path = path

    def fn(self, n, sig, types):
        f = CFn(n.name, [(a.arg, dict(sig).get(a.arg, "")) for a in n.args.args], self.block(n.body), self.path, "object")
        f.types = dict(f.params)
        end = max((getattr(x, "end_lineno", 0) or 0) for x in ast.walk(n))
        for no, v, t in types:
            if n.lineno <= no <= end:
                f.types[v] = t
        return f

    def block(self, b):
        return [s for x in b for s in self.stmt(x)]

    def expr(self, n):
        if isinstance(n, ast.Constant):
            return ("int", n.value) if isinstance(n.value, int) and not isinstance(n.value, bool) else ("int", int(n.value)) if isinstance(n.value, bool) else ("num",)
        if isinstance(n, ast.Name):
            return ("null",) if n.id == "NULL" else ("var", n.id)
        if isinstance(n, ast.Subscript):
            return ("idx", self.expr(n.value), self.expr(n.slice))
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Name) and n.left.id == "ADDR__":
                return ("addr", self.expr(n.right))
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp):
                l = self.expr(n.left)
                return ("bin", "*", l, self.expr(n.right))
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "/", ast.Mod: "%", ast.Div: "/"}.get(type(n.op))
            return ("bin", o, self.expr(n.left), self.expr(n.right)) if o else ("unk",)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "==", ast.IsNot: "!="}.get(type(n.ops[0]))
            return ("bin", o, self.expr(n.left), self.expr(n.comparators[0])) if o else ("unk",)
        if isinstance(n, ast.BoolOp):
            e = self.expr(n.values[0])
            for v in n.values[1:]:
                e = ("bin", "&&" if isinstance(n.op, ast.And) else "||", e, self.expr(v))
            return e
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return ("not", self.expr(n.operand))
            if isinstance(n.op, ast.USub):
                return ("bin", "-", ("int", 0), self.expr(n.operand))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                if n.func.id == "sizeof" and n.args:
                    return ("sizeof", norm_type(ast.unparse(n.args[0])))
                return ("call", n.func.id, [self.expr(a) for a in n.args])
            return ("call", "." + n.func.attr if isinstance(n.func, ast.Attribute) else "?", [self.expr(n.func)] + [self.expr(a) for a in n.args])
        if isinstance(n, ast.IfExp):
            return ("cond", self.expr(n.test), self.expr(n.body), self.expr(n.orelse))
        if isinstance(n, ast.Attribute):
            return ("attr", self.expr(n.value), n.attr)
        return ("unk",) + tuple(self.expr(c) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr))

    def stmt(self, n):
        ln = n.lineno
        if isinstance(n, ast.Assign):
            v = self.expr(n.value)
            return [("set", self.expr(t), v, ln) for t in n.targets]
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}.get(type(n.op))
            t = self.expr(n.target)
            return [("set", t, ("bin", o, t, self.expr(n.value)) if o else ("unk",), ln)]
        if isinstance(n, ast.For):
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "prange") and isinstance(n.target, ast.Name) and len(it.args) <= 2:
                lo = self.expr(it.args[0]) if len(it.args) == 2 else ("int", 0)
                return [("for", n.target.id, lo, self.expr(it.args[-1]), self.block(n.body), ln)]
            return [("each", self.expr(n.target), self.expr(it), self.block(n.body), ln)]
        if isinstance(n, ast.While):
            return [("while", self.expr(n.test), self.block(n.body), ln)]
        if isinstance(n, ast.If):
            return [("if", self.expr(n.test), self.block(n.body), self.block(n.orelse), ln)]
        if isinstance(n, ast.Return):
            return [("ret", self.expr(n.value) if n.value is not None else None, ln)]
        if isinstance(n, ast.Raise):
            return [("raise", ln)]
        if isinstance(n, ast.Try):
            return [("try", self.block(n.body) + self.block(n.orelse), self.block(n.finalbody), [self.block(h.body) for h in n.handlers], ln)]
        if isinstance(n, ast.Expr):
            return [("expr", self.expr(n.value), ln)]
        if isinstance(n, (ast.Break, ast.Continue)):
            return [("jump", type(n).__name__.lower(), ln)]
        if isinstance(n, ast.With):
            return self.block(n.body)
        return []


def pyx_functions(path):
    r = pyx(path)
    if r is None:
        return None, {}, None
    tree, ext, sigs = r
    types = sigs.pop("@types", [])
    fs = [PyConv(path).fn(n, sigs.get(n.name, []), types) for n in tree.body if isinstance(n, ast.FunctionDef)]
    return fs, ext, sigs
