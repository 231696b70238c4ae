"""P06: the two compared versions are never mixed up (side typing)."""
import ast
import os
import re
from lib.report import Check, REPO
from lib.cxxfront import CxxProgram

OLD, NEW = 1, 2
SAY = {OLD: "first/old", NEW: "second/new"}
PYDIRS = ("diffkemp/semdiff", "diffkemp/simpll", "diffkemp/syndiff")
# here "old" and "new" mean the two snapshots
PYFILES = ("diffkemp/diffkemp.py", "diffkemp/output.py", "diffkemp/config.py",
           "diffkemp/cli.py")
PYTOK = {"first": OLD, "second": NEW, "left": OLD, "right": NEW}
PYTOK2 = {"old": OLD, "new": NEW}


def one(s):
    return next(iter(s)) if len(s) == 1 else None


def tokens(n):
    return [t for t in re.split(r"[_\-.\s/]+", re.sub(
        r"([a-z])([A-Z])", r"\1_\2", n).lower()) if t]


class PySides:
    def __init__(self, ck, root):
        self.ck = ck
        self.n = 0
        self.trees = {}
        for base, _, files in os.walk(os.path.join(root, "diffkemp")):
            for f in files:
                rel = os.path.relpath(os.path.join(base, f), root)
                if f.endswith(".py") and (
                        rel in PYFILES or rel.startswith(PYDIRS)):
                    with open(os.path.join(base, f)) as h:
                        self.trees[rel] = ast.parse(h.read())
        self.params = {}
        for t in self.trees.values():
            for c in t.body:
                if isinstance(c, ast.FunctionDef):
                    self.params.setdefault(c.name, []).append(
                        [a.arg for a in c.args.args])
                if isinstance(c, ast.ClassDef):
                    self.klass(c)

    def klass(self, c):
        for m in c.body:
            if isinstance(m, ast.ClassDef):
                self.klass(m)
            if isinstance(m, ast.FunctionDef):
                n = c.name if m.name == "__init__" else m.name
                static = any(ast.unparse(d) == "staticmethod"
                             for d in m.decorator_list)
                self.params.setdefault(n, []).append(
                    [a.arg for a in m.args.args][0 if static else 1:])

    def name(self, n, oldnew):
        s = {PYTOK[t] for t in tokens(n) if t in PYTOK}
        if oldnew:
            s |= {PYTOK2[t] for t in tokens(n) if t in PYTOK2}
        return one(s)

    def run(self):
        for rel in sorted(self.trees):
            on = rel in PYFILES
            for fn in ast.walk(self.trees[rel]):
                if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.function(rel, fn, on)

    def function(self, rel, fn, on):
        ck = self.ck
        env = {}

        def side(e):
            if isinstance(e, ast.Name):
                s = self.name(e.id, on)
                return {s} if s else env.get(e.id, set())
            if isinstance(e, ast.Attribute):
                s = self.name(e.attr, on)
                return {s} if s else side(e.value)
            if isinstance(e, ast.Subscript):
                if isinstance(e.slice, ast.Constant) and \
                        isinstance(e.slice.value, str):
                    s = self.name(e.slice.value, on)
                    if s:
                        return {s}
                return side(e.value)
            if isinstance(e, (ast.Compare, ast.Constant, ast.Lambda)):
                return set()
            if isinstance(e, ast.IfExp):
                return side(e.body) | side(e.orelse)
            if isinstance(e, ast.Call):
                r = set()
                if isinstance(e.func, ast.Attribute):
                    r |= side(e.func.value)
                for a in e.args + [k.value for k in e.keywords]:
                    r |= side(a)
                return r
            if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp,
                              ast.DictComp, ast.BinOp, ast.BoolOp)):
                r = set()
                for c in ast.walk(e):
                    if c is not e and isinstance(c, (ast.Name, ast.Attribute)):
                        r |= side(c)
                return r if len(r) == 1 else set()
            r = set()
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    r |= side(c)
            return r

        def bind(t, v, loop=False):
            """Propagates sides to locals whose name has none."""
            if isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and \
                        len(v.elts) == len(t.elts):
                    for x, y in zip(t.elts, v.elts):
                        bind(x, y)
                elif loop and isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Name) and v.func.id == "zip" and \
                        len(v.args) == len(t.elts):
                    for x, y in zip(t.elts, v.args):
                        bind(x, y)
                elif not loop:
                    for x in t.elts:
                        if isinstance(x, ast.Name):
                            env[x.id] = env.get(x.id, set()) | side(v)
            elif isinstance(t, ast.Name) and not loop and \
                    not self.name(t.id, on):
                # (an element of a collection of one version, such as a name,
                # may stand for both)
                env[t.id] = env.get(t.id, set()) | side(v)

        for _ in range(3):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        bind(t, n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    bind(n.target, n.iter, True)
                elif isinstance(n, ast.With):
                    for w in n.items:
                        if w.optional_vars is not None:
                            bind(w.optional_vars, w.context_expr)
            for k in [k for k, s in env.items() if len(s) > 1]:
                env[k] = set()

        def chk(ln, ts, v, what):
            if ts is None:
                return
            s = side(v)
            if not s:
                return
            self.n += 1
            ck.ob("side", f"{rel}: {fn.name}: {what}", s == {ts},
                  f"{what} belongs to the {SAY[ts]} version but gets "
                  f"{ast.unparse(v)[:80]}", f"{rel}:{ln} ({fn.name})")

        def target(t, v, ln):
            if isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(v, (ast.Tuple, ast.List)) and \
                        len(v.elts) == len(t.elts):
                    for x, y in zip(t.elts, v.elts):
                        target(x, y, ln)
                return
            if isinstance(t, ast.Name) and not self.name(t.id, on):
                return
            if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
                chk(ln, one(side(t)), v, ast.unparse(t)[:60])

        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t, n.value, n.lineno)
            elif isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) \
                    else getattr(n.func, "id", "")
                for k in n.keywords:
                    if k.arg:
                        chk(n.lineno, self.name(k.arg, on), k.value,
                            f"{name}({k.arg})")
                ps = self.params.get(name)
                if ps and len(ps) == 1 and not any(
                        isinstance(a, ast.Starred) for a in n.args):
                    for p, a in zip(ps[0], n.args):
                        chk(n.lineno, self.name(p, True), a, f"{name}({p})")
                tags = {one(side(x)) for x in n.args
                        if isinstance(x, ast.Attribute) and x.attr.isupper()}
                if len(tags) == 1 and one(tags):
                    for x in n.args:
                        chk(n.lineno, one(tags), x, f"{name} of one version")
                if isinstance(n.func, ast.Attribute) and n.args and \
                        n.func.attr not in BINARY:
                    a = one(side(n.func.value))
                    for x in n.args:
                        b = one(side(x))
                        if not a or not b:
                            continue
                        self.n += 1
                        ck.ob("receiver", f"{rel}: {fn.name}: {name}", a == b,
                              f"{ast.unparse(n)[:90]} is applied to the "
                              f"{SAY[a]} version with a value of the {SAY[b]} "
                              "one", f"{rel}:{n.lineno} ({fn.name})")
            elif isinstance(n, ast.If) and isinstance(
                    n.test, (ast.Name, ast.Attribute, ast.Subscript)) or \
                    isinstance(n, ast.If) and self.has_key(n.test):
                a = self.name(n.test.left.value, on) if isinstance(
                    n.test, ast.Compare) else one(side(n.test))
                for x in ast.walk(ast.Module(n.body, [])):
                    if a and isinstance(x, (ast.Name, ast.Attribute)) and \
                            isinstance(x.ctx, ast.Load) and one(side(x)):
                        self.n += 1
                        ck.ob("guarded", f"{rel}: {fn.name}: if "
                              f"{ast.unparse(n.test)[:60]}",
                              one(side(x)) == a, f"{ast.unparse(x)[:60]} is "
                              "used where only the other version is known to "
                              "have one", f"{rel}:{x.lineno} ({fn.name})")
            elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load):
                both = [x for x in (one(side(x)) for x in n.elts) if x]
                if len(both) == 2:
                    a, b = both
                    tag = any(isinstance(x, ast.Attribute) and
                              x.attr.isupper() for x in n.elts)
                    self.n += 1
                    ck.ob("pair-order", f"{rel}: {fn.name}: "
                          f"{ast.unparse(n)[:60]}",
                          a == b if tag else a <= b, "the versions of a pair "
                          "are mixed up", f"{rel}:{n.lineno} ({fn.name})")
            elif isinstance(n, (ast.IfExp, ast.If)) and isinstance(
                    n.test, ast.Compare) and len(n.test.ops) == 1 and \
                    isinstance(n.test.ops[0], (ast.Eq, ast.Is, ast.NotEq,
                                               ast.IsNot)):
                a = [one(side(x)) for x in (n.test.left,
                                            n.test.comparators[0])
                     if isinstance(x, ast.Attribute) and x.attr.isupper()]
                if len(a) == 1 and a[0]:
                    a = a[0]
                    if isinstance(n.test.ops[0], (ast.NotEq, ast.IsNot)):
                        a = OLD + NEW - a
                    self.branches(rel, fn, n, a, side)
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and \
                            isinstance(k.value, str):
                        chk(n.lineno, self.name(k.value, on), v,
                            f"key {k.value}")

    def has_key(self, t):
        return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.ops[0], ast.In) and isinstance(t.left, ast.Constant) and \
            isinstance(t.left.value, str)

    def branches(self, rel, fn, n, a, side):
        """What is chosen for one version is of this version."""
        if isinstance(n, ast.IfExp):
            parts = ((n.body, a), (n.orelse, OLD + NEW - a))
        else:
            parts = [(x.value, a) for x in n.body
                     if isinstance(x, (ast.Assign, ast.Expr, ast.Return))] + \
                [(x.value, OLD + NEW - a) for x in n.orelse
                 if isinstance(x, (ast.Assign, ast.Expr, ast.Return))]
        for e, want in parts:
            got = one(side(e)) if e is not None else None
            if got:
                self.n += 1
                self.ck.ob("chosen", f"{rel}: {fn.name}: "
                           f"{ast.unparse(e)[:60]}", got == want,
                           f"{ast.unparse(e)[:60]} is chosen for the "
                           f"{SAY[want]} version",
                           f"{rel}:{n.lineno} ({fn.name})")


# methods which combine the two versions on purpose
BINARY = {"intersection", "union", "difference", "symmetric_difference",
          "update", "extend", "append", "isdisjoint", "issubset",
          "issuperset", "add", "remove", "discard", "insert", "startswith",
          "endswith", "replace", "join", "format", "write"}
LOGIC = {"==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "-", "%"}
# functions which by their purpose go from one version to the other
CROSS = re.compile(r"getMapped\w*$|::(find|at|count|lookup|operator\[\])$")


def cname(n):
    if n in ("L", "CL"):
        return OLD
    if n in ("R", "CR"):
        return NEW
    s = set()
    if re.search(r"First|Left|[a-z0-9]L$", n):
        s.add(OLD)
    if re.search(r"Second|Right|[a-z0-9]R$", n):
        s.add(NEW)
    return one(s)


def ckey(v):
    t = set(re.split(r"[-_ ]", v))
    return one(({OLD} if t & {"first", "left", "old"} else set())
               | ({NEW} if t & {"second", "right", "new"} else set()))


def numeric(t):
    return re.fullmatch(r"(const )?(bool|int|unsigned( int| long)?|long|size_t"
                        r"|u?int\d+_t|char)", t or "") is not None


class CxxSides:
    def __init__(self, ck, prog):
        self.ck = ck
        self.prog = prog
        self.n = 0

    def run(self):
        for fn in sorted(self.prog.funcs.values(), key=lambda f: f.q):
            if "/simpll/" in fn.file and "/tests/" not in fn.file:
                self.function(fn)

    def function(self, fn):
        ck = self.ck
        env = {}
        nodes = list(fn.body.walk())
        for _, _, x, _ in fn.inits:
            nodes += list(x.walk())

        def side(e):
            k = e.k
            if k == "DeclRefExpr":
                if e.get("dk") == "func":
                    return set()
                if e.get("dk") == "enum":
                    s = cname(e.name) if "Program" in (e.get("q") or "") \
                        else None
                    return {s} if s else set()
                s = cname(e.name)
                return {s} if s else env.get(e.get("d"), set())
            if k == "MemberExpr" and e.get("dk") != "func":
                s = cname(e.name)
                if s:
                    return {s}
                return side(e.c[0]) if e.c else set()
            if k in ("LambdaExpr", "StringLiteral", "CXXDefaultArgExpr",
                     "ArraySubscriptExpr"):
                return set()
            if k in ("BinaryOperator", "CXXOperatorCallExpr"):
                op = e.get("op") or e.get("oop")
                if op in LOGIC or op == "+":
                    return set()
                if op == "[]":
                    return side(e.c[-2]) if len(e.c) > 1 else set()
            if e.is_call():
                if re.search(r"getMapped\w*$", e.callee):
                    return set()
                if CROSS.search(e.callee) and e.base() is not None:
                    return side(e.base())
                if numeric(e.t) and e.base() is None:
                    return set()
            if "APInt" in (e.t or "") and k.startswith("CXX"):
                return set()
            if k == "ConditionalOperator":
                return side(e.c[1]) | side(e.c[2])
            r = set()
            for c in e.c:
                r |= side(c)
            return r

        def spread(d, name, t, v):
            if not cname(name) and not numeric(t):
                env[d] = env.get(d, set()) | side(v)
        for _ in range(3):
            for n in nodes:
                if n.k == "VarDecl" and n.c:
                    spread(n.get("d"), n.name, n.t, n.c[0])
                if n.k == "BinaryOperator" and n.get("op") == "=" and \
                        n.c[0].k == "DeclRefExpr":
                    spread(n.c[0].get("d"), n.c[0].name, n.c[0].t, n.c[1])
            for k in [k for k, s in env.items() if len(s) > 1]:
                env[k] = set()

        def chk(n, ts, v, what):
            if ts is None:
                return
            s = one(side(v))
            if s is None:
                return
            self.n += 1
            ck.ob("side", f"{fn.q}: {what}", s == ts,
                  f"{what} belongs to the {SAY[ts]} version but gets a value "
                  f"of the {SAY[s]} one", f"({fn.rel}:{n.l} {fn.q})")
        for n in nodes:
            if n.k == "VarDecl" and n.c:
                chk(n, cname(n.name), n.c[0], n.name)
            if n.k == "BinaryOperator" and n.get("op") == "=" or \
                    n.k == "CXXOperatorCallExpr" and n.get("oop") == "=":
                a, b = n.c[-2:]
                if a.k != "DeclRefExpr" or cname(a.name):
                    chk(n, one(side(a)) if not numeric(a.t) else None, b,
                        "assignment to " + (a.name or a.callee or a.k))
            pn = n.get("pn")
            if pn and n.k != "CXXOperatorCallExpr" and n.get("inrepo"):
                for p, a in zip(pn, n.args()):
                    chk(n, cname(p), a, f"{n.callee}({p})")
            a = None
            if n.callee == "std::make_pair" or n.callee.startswith(
                    "std::pair") and n.k.startswith("CXX"):
                a = n.args()
            elif n.k == "InitListExpr":
                a = n.c
            if a and len(a) == 2:
                s, t = one(side(a[0])), one(side(a[1]))
                if s and t and s != t and kind(a[0].t) == kind(a[1].t):
                    self.n += 1
                    ck.ob("pair-order", f"{fn.q}: {a[0].name} {a[1].name}",
                          s < t, "the versions of a pair are exchanged",
                          f"({fn.rel}:{n.l} {fn.q})")
            if n.k == "CXXMemberCallExpr" and n.base() is not None:
                a = one(side(n.base()))
                for x in n.args() if n.get("inrepo") else ():
                    b = one(side(x))
                    if not a or not b:
                        continue
                    self.n += 1
                    ck.ob("receiver", f"{fn.q}: {n.callee}", a == b,
                          f"{n.callee} is called on an object of the {SAY[a]} "
                          f"version with a value of the {SAY[b]} one",
                          f"({fn.rel}:{n.l} {fn.q})")
            if n.is_call():
                ks = {ckey(x.get("v")) for x in n.args()
                      if x.k == "StringLiteral" and
                      isinstance(x.get("v"), str)} - {None}
                tags = [one(side(x)) for x in n.args()
                        if x.k == "DeclRefExpr" and x.get("dk") == "enum"]
                if len(tags) == 1 and tags[0] and n.get("inrepo"):
                    for x in n.args():
                        chk(n, tags[0], x, "argument of " + short(n.callee))
                if len(ks) == 1:
                    for x in n.args():
                        if x.k != "StringLiteral":
                            chk(n, one(ks), x, "value of key of "
                                + short(n.callee))
        for f, _, x, _ in fn.inits:
            if f:
                chk(x, cname(f), x, "member " + f)


def short(q):
    return q.split("<")[0].split("::")[-1]


def kind(t):
    return re.sub(r"\b(const|struct|class)\b|[&*\s]", "", t or "")


def run():
    ck = Check("P06", "Side typing: values are assigned to one of the compared "
               "versions by the parameter, member, key or variable they come "
               "from, propagated through locals, calls and constructors; a "
               "slot of one version never gets a value of the other, and "
               "pairs are built in order.")
    py = PySides(ck, REPO)
    py.run()
    cx = CxxSides(ck, CxxProgram(REPO, units=None))
    cx.run()
    ck.analysed |= set(py.trees)
    ck.analysed |= {f.q for f in cx.prog.funcs.values()}
    ck.note("python_flows", py.n)
    ck.note("cxx_flows", cx.n)
    ck.floor("flows in Python", py.n, 60)
    ck.floor("flows in C++", cx.n, 350)
    return ck
