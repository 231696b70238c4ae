"""Translates resolved C++ syntax trees into Python syntax trees, so that the
same abstract interpreter evaluates both languages."""
import ast
from lib.interp import Interp, HObj, C, ITE, MISSING, NONE

IDENT_MEMBERS = {"c_str", "str", "get", "data", "getValue", "operator*",
                 "operator->", "value"}


def is_identity_ctor(n):
    """Non-repository constructor with one (explicit) argument: a conversion."""
    args = [x for x in n.c if x.k != "CXXDefaultArgExpr"]
    return not n.get("inrepo") and len(args) == 1


class Conv:
    def __init__(self, fn):
        self.fn = fn
        self.names = {}
        self.used = {}

    def var(self, n):
        d = n.get("d")
        if d in self.names:
            return self.names[d]
        nm = n.name or "anon"
        if nm in self.used and self.used[nm] != d:
            nm = f"{nm}__{d}"
        self.used[nm] = d
        self.names[d] = nm
        return nm

    def loc(self, a, n):
        a.lineno = n.l
        a.col_offset = 0
        a.cxx = n
        return a

    # -- statements
    def block(self, n):
        if n is None:
            return [ast.Pass()]
        if n.k == "CompoundStmt":
            out = []
            for c in n.c:
                out += self.stmt(c)
            return out or [ast.Pass()]
        return self.stmt(n) or [ast.Pass()]

    def stmt(self, n):
        k = n.k
        if k == "CompoundStmt":
            return self.block(n)
        if k == "DeclStmt":
            out = []
            for v in n.c:
                val = self.expr(v.c[0]) if v.c else \
                    self.loc(ast.Call(ast.Name("@undef", ast.Load()), [], []),
                             v)
                out.append(self.loc(ast.Assign(
                    [ast.Name(self.var(v), ast.Store())], val), n))
                to = alias(val) if (v.t or "").endswith("&") and v.c else None
                if to is not None:
                    out.append(self.loc(ast.Assign(
                        [ast.Name("&" + self.var(v), ast.Store())], to), n))
            return out
        if k == "ReturnStmt":
            return [self.loc(ast.Return(self.expr(n.c[0]) if n.c else None),
                             n)]
        if k == "IfStmt":
            pre = []
            for c in n.c:
                if c.i == n.get("cond"):
                    break
                pre += self.stmt(c)
            nodes = {c.i: c for c in n.c}
            cond = self.expr(nodes[n.get("cond")])
            then = self.block(nodes[n.get("then")])
            els = self.block(nodes[n.get("else")]) if n.get("else") else []
            return pre + [self.loc(ast.If(cond, then, els), n)]
        if k == "WhileStmt":
            pre = []
            nodes = {c.i: c for c in n.c}
            for c in n.c:
                if c.k == "DeclStmt":
                    pre += self.stmt(c)
            return pre + [self.loc(ast.While(
                self.expr(nodes[n.get("cond")]),
                self.block(nodes[n.get("body")]) + pre, []), n)]
        if k == "DoStmt":
            body, cond = n.c[0], n.c[1]
            if cond.k in ("CXXBoolLiteralExpr", "IntegerLiteral") and \
                    str(cond.get("v")) in ("False", "0"):
                return self.block(body)
            return [self.loc(ast.While(ast.Constant(True), self.block(body) + [
                ast.If(self.expr(cond), [ast.Pass()], [ast.Break()])], []), n)]
        if k == "CXXForRangeStmt":
            v, rng, body = n.c[0], n.c[1], n.c[2]
            return [self.loc(ast.For(ast.Name(self.var(v), ast.Store()),
                                     self.expr(rng), self.block(body), []), n)]
        if k == "ForStmt":
            nodes = {c.i: c for c in n.c}
            body = nodes[n.get("body")]
            cond = nodes.get(n.get("cond"))
            rest = [c for c in n.c if c is not body and c is not cond]
            init = rest[0] if rest and (cond is None or n.c.index(
                rest[0]) < n.c.index(cond)) else None
            inc = rest[-1] if rest and rest[-1] is not init else None
            out = self.stmt(init) if init is not None else []
            b = self.block(body)
            if inc is not None:
                b = self.before_continue(b, inc) + self.stmt(inc)
            out.append(self.loc(ast.While(
                self.expr(cond) if cond is not None else ast.Constant(True),
                b, []), n))
            return out
        if k == "BreakStmt":
            return [self.loc(ast.Break(), n)]
        if k == "ContinueStmt":
            return [self.loc(ast.Continue(), n)]
        if k == "NullStmt" or k == "Null":
            return []
        if k == "SwitchStmt":
            return self.switch(n)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.stmt(n.c[-1])
        if k == "CXXTryStmt":
            hs = []
            for c in n.c[1:]:
                hs.append(ast.ExceptHandler(
                    ast.Name(c.get("ct", "Exception"), ast.Load()), None,
                    self.block(c.c[0])))
            return [self.loc(ast.Try(self.block(n.c[0]), hs, [], []), n)]
        if k == "BinaryOperator" and n.get("op") == "=" or \
                k == "CXXOperatorCallExpr" and n.get("oop") == "=":
            a, b = (n.c[0], n.c[1]) if k == "BinaryOperator" else \
                (n.c[1], n.c[2])
            ties = [x for x in a.walk() if x.callee == "std::tie"]
            if ties and len(ties[0].c) == 3:
                ts = [self.target(x) for x in ties[0].c[1:]]
                if all(t is not None for t in ts):
                    v = f"__tie{n.l}_{n.i}"
                    return [self.loc(ast.Assign(
                        [ast.Name(v, ast.Store())], self.expr(b)), n)] + [
                        self.loc(ast.Assign([t], ast.Attribute(
                            ast.Name(v, ast.Load()), f, ast.Load())), n)
                        for t, f in zip(ts, ("first", "second"))]
            t = self.target(a)
            if t is not None:
                return [self.loc(ast.Assign([t], self.expr(b)), n)]
        if k == "CompoundAssignOperator":
            t = self.target(n.c[0])
            op = {"+=": ast.Add, "-=": ast.Sub, "*=": ast.Mult,
                  "|=": ast.BitOr, "&=": ast.BitAnd, "<<=": ast.LShift,
                  ">>=": ast.RShift, "/=": ast.Div, "%=": ast.Mod,
                  "^=": ast.BitXor}[n.get("op")]
            if t is not None:
                return [self.loc(ast.AugAssign(t, op(), self.expr(n.c[1])),
                                 n)]
        if k == "UnaryOperator" and n.get("op") in ("++", "--") or \
                k == "CXXOperatorCallExpr" and n.get("oop") in ("++", "--"):
            t = self.target(n.c[0] if k == "UnaryOperator" else n.c[1])
            if t is not None:
                return [self.loc(ast.AugAssign(
                    t, ast.Add() if (n.get("op") or n.get("oop")) == "++"
                    else ast.Sub(),
                    ast.Constant(1)), n)]
        return [self.loc(ast.Expr(self.expr(n)), n)]

    def before_continue(self, body, inc):
        """The step of a loop is also done when its body is left early."""
        out = []
        for x in body:
            if isinstance(x, ast.Continue):
                out += self.stmt(inc)
            elif not isinstance(x, (ast.While, ast.For, ast.FunctionDef)):
                for f in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(x, f, None), list):
                        setattr(x, f, self.before_continue(
                            getattr(x, f), inc))
                for h in getattr(x, "handlers", ()):
                    h.body = self.before_continue(h.body, inc)
            out.append(x)
        return out

    def step(self, t, op, postfix):
        """Value of x++ (the old one) or ++x."""
        e = ast.NamedExpr(t, ast.BinOp(
            ast.Name(t.id, ast.Load()),
            ast.Add() if op == "++" else ast.Sub(), ast.Constant(1)))
        if not postfix:
            return e
        return ast.Subscript(ast.Tuple(
            [ast.Name(t.id, ast.Load()), e], ast.Load()), ast.Constant(0),
            ast.Load())

    def target(self, n):
        e = self.expr(n)
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            e.ctx = ast.Store()
            return e
        return None

    def switch(self, n):
        cond = [c for c in n.c if c.k != "CompoundStmt"][-1]
        body = [c for c in n.c if c.k == "CompoundStmt"][-1]
        # flatten: sequence of (labels | stmt)
        seq = []

        def flat(s):
            if s.k == "CaseStmt":
                seq.append(("case", s.c[0]))
                flat(s.c[1])
            elif s.k == "DefaultStmt":
                seq.append(("default", None))
                flat(s.c[0])
            else:
                seq.append(("stmt", s))
        for s in body.c:
            flat(s)
        chains = []
        i = 0
        while i < len(seq):
            if seq[i][0] == "stmt":
                i += 1
                continue
            labels = []
            while i < len(seq) and seq[i][0] != "stmt":
                labels.append(seq[i])
                i += 1
            stmts = []
            for kind, s in seq[i:]:
                if kind != "stmt":
                    continue
                if s.k == "BreakStmt":
                    break
                stmts += self.stmt(s)
                if s.k in ("ReturnStmt", "ContinueStmt"):
                    break
                if s.k == "CompoundStmt" and s.c and s.c[-1].k == "BreakStmt":
                    stmts = stmts[:-1]
                    break
            chains.append((labels, stmts))
        subj = self.expr(cond)
        chains.sort(key=lambda c: any(l[0] == "default" for l in c[0]))
        node = []
        for labels, stmts in reversed(chains):
            tests = [ast.Compare(subj, [ast.Eq()], [self.expr(l[1])])
                     for l in labels if l[0] == "case"]
            if any(l[0] == "default" for l in labels):
                node = stmts or [ast.Pass()]
                continue
            test = tests[0] if len(tests) == 1 else ast.BoolOp(ast.Or(), tests)
            node = [self.loc(ast.If(test, stmts or [ast.Pass()], node), n)]
        return node

    # -- expressions
    def expr(self, n):
        e = self.expr0(n)
        if not hasattr(e, "cxx"):
            self.loc(e, n)
        return e

    def call(self, n, name, args):
        return self.loc(ast.Call(ast.Name(name, ast.Load()), args, []), n)

    def expr0(self, n):
        k = n.k
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("param", "var"):
                return ast.Name(self.var(n), ast.Load())
            if dk == "enum":
                return self.loc(ast.Name("@enum", ast.Load()), n)
            return self.loc(ast.Name("@g", ast.Load()), n)
        if k == "MemberExpr":
            if not n.c:
                return self.loc(ast.Name("@g", ast.Load()), n)
            return ast.Attribute(self.expr(n.c[0]), n.name, ast.Load())
        if k == "CXXThisExpr":
            return ast.Name("this", ast.Load())
        if k == "IntegerLiteral":
            return ast.Constant(int(n.get("v")))
        if k == "CharacterLiteral":
            v = n.get("v")
            return ast.Constant(chr(v) if 0 <= v < 0x110000 else v)
        if k == "CXXBoolLiteralExpr":
            return ast.Constant(bool(n.get("v")))
        if k == "StringLiteral":
            return ast.Constant(n.get("v", ""))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ast.Constant(None)
        if k == "FloatingLiteral":
            return ast.Constant(0.0)
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr",
                 "CXXReinterpretCastExpr", "CXXConstCastExpr",
                 "CXXDynamicCastExpr", "CXXDefaultArgExpr",
                 "CXXDefaultInitExpr", "CXXStdInitializerListExpr"):
            return self.expr(n.c[-1]) if n.c else ast.Constant(None)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if n.get("copy") or is_identity_ctor(n):
                if n.c:
                    return self.expr(n.c[0])
            if not n.c and "basic_string<" in n.t:
                return ast.Constant("")
            return self.call(n, "@ctor", [self.expr(c) for c in n.c])
        if k == "InitListExpr":
            return self.call(n, "@init", [self.expr(c) for c in n.c])
        if k == "ImplicitValueInitExpr":
            return ast.Constant(0)
        if k == "BinaryOperator":
            op = n.get("op")
            a, b = n.c[0], n.c[1]
            if op in ("&&", "||"):
                return ast.BoolOp(ast.And() if op == "&&" else ast.Or(),
                                  [self.expr(a), self.expr(b)])
            cmpo = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt,
                    "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}.get(op)
            if cmpo:
                return ast.Compare(self.expr(a), [cmpo()], [self.expr(b)])
            if op == "=":
                t = self.target(a)
                if isinstance(t, ast.Name):
                    return ast.NamedExpr(t, self.expr(b))
                return self.call(n, "@assign", [self.expr(a), self.expr(b)])
            if op == ",":
                return self.call(n, "@comma", [self.expr(a), self.expr(b)])
            bo = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div,
                  "%": ast.Mod, "|": ast.BitOr, "&": ast.BitAnd,
                  "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}.get(op)
            if bo:
                return ast.BinOp(self.expr(a), bo(), self.expr(b))
        if k == "UnaryOperator":
            op = n.get("op")
            if op == "!":
                return ast.UnaryOp(ast.Not(), self.expr(n.c[0]))
            if op in ("*", "&"):
                return self.expr(n.c[0])
            if op == "-":
                return ast.UnaryOp(ast.USub(), self.expr(n.c[0]))
            if op in ("++", "--"):
                t = self.target(n.c[0])
                if isinstance(t, ast.Name):
                    return self.step(t, op, n.get("postfix"))
            return self.call(n, "@un" + op, [self.expr(n.c[0])])
        if k == "ConditionalOperator":
            return ast.IfExp(self.expr(n.c[0]), self.expr(n.c[1]),
                             self.expr(n.c[2]))
        if k == "ArraySubscriptExpr":
            return ast.Subscript(self.expr(n.c[0]), self.expr(n.c[1]),
                                 ast.Load())
        if k == "CXXOperatorCallExpr":
            oop = n.get("oop")
            a = n.c[1:]
            if oop in ("*", "->") and len(a) == 1:
                return self.expr(a[0])
            if oop == "!" and len(a) == 1:
                return ast.UnaryOp(ast.Not(), self.expr(a[0]))
            if oop in ("==", "!=") and len(a) == 2:
                return ast.Compare(self.expr(a[0]), [
                    ast.Eq() if oop == "==" else ast.NotEq()],
                    [self.expr(a[1])])
            if oop == "[]" and len(a) == 2:
                return ast.Subscript(self.expr(a[0]), self.expr(a[1]),
                                     ast.Load())
            if oop == "+" and len(a) == 2:
                return ast.BinOp(self.expr(a[0]), ast.Add(), self.expr(a[1]))
            if oop == "=" and len(a) == 2:
                t = self.target(a[0])
                if isinstance(t, ast.Name):
                    return ast.NamedExpr(t, self.expr(a[1]))
            if oop in ("++", "--") and a:
                t = self.target(a[0])
                if isinstance(t, ast.Name):
                    return self.step(t, oop, len(a) == 2)
            if oop == "()":
                return self.call(n, "@callop", [self.expr(x) for x in a])
            return self.call(n, "@op" + (oop or "?"),
                             [self.expr(x) for x in a])
        if k == "CXXMemberCallExpr":
            me = n.c[0]
            if me.k == "MemberExpr" and me.c:
                base = self.expr(me.c[0])
                nm = me.name
                if nm.startswith("operator ") and len(n.c) == 1:
                    return base     # conversion operator
                if nm in IDENT_MEMBERS and len(n.c) == 1 and \
                        not n.get("inrepo"):
                    return base
                return self.loc(ast.Call(
                    self.loc(ast.Attribute(base, nm, ast.Load()), me),
                    [self.expr(c) for c in n.c[1:]], []), n)
        if k == "CallExpr":
            cal = n.callee
            if cal in ("std::move", "std::forward", "std::ref",
                       "std::addressof") and len(n.c) == 2:
                return self.expr(n.c[1])
            return self.loc(ast.Call(self.expr(n.c[0]),
                                     [self.expr(c) for c in n.c[1:]], []), n)
        if k == "CXXNewExpr":
            args = [self.expr(c) for c in n.c]
            return self.call(n, "@new", args)
        if k == "CXXDeleteExpr":
            return self.call(n, "@delete", [self.expr(c) for c in n.c])
        if k == "LambdaExpr":
            r = self.call(n, "@lambda", [])
            r.outer = self
            return r
        if k == "UnaryExprOrTypeTraitExpr":
            return self.call(n, "@sizeof", [])
        return self.call(n, "@" + k, [self.expr(c) for c in n.c])


class CFunc:
    """A C++ function in the shape the interpreter expects."""

    def __init__(self, fn, this=True, outer=None):
        self.fn = fn
        self.key = fn.key
        self.qual = fn.q
        self.name = fn.name
        self.cls = None
        self.is_abstract = False
        self.is_static = self.is_classmethod = self.is_property = False

        class M:
            pass
        self.mod = M()
        self.mod.rel = fn.rel
        self.mod.name = fn.rel
        body_root = fn.body
        cv = Conv(fn)
        if outer is not None:       # body of a lambda: variables of the parent
            cv.names, cv.used = dict(outer.names), dict(outer.used)
        params = []
        if fn.cls and not fn.d.get("static"):
            params.append("this")
        for p in fn.params:
            class PN:
                pass
            nm = p["n"] or f"arg{len(params)}"
            if cv.used.get(nm, p["d"]) != p["d"]:
                nm = f"{nm}__{p['d']}"
            cv.names[p["d"]] = nm
            cv.used[nm] = p["d"]
            params.append(nm)
        self.pnames = params
        body = []
        for field, base, e, written in fn.inits:
            if field:
                body.append(cv.loc(ast.Assign([ast.Attribute(
                    ast.Name("this", ast.Load()), field, ast.Store())],
                    cv.expr(e)), e))
            elif base:
                body.append(cv.loc(ast.Expr(cv.loc(ast.Call(
                    ast.Name("@basector", ast.Load()),
                    [cv.expr(c) for c in e.c], []), e)), e))
        body += cv.block(body_root)
        self.node = ast.FunctionDef(
            name=fn.name, args=ast.arguments(
                posonlyargs=[], args=[ast.arg(p) for p in params],
                vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                defaults=[]), body=body, decorator_list=[])
        self.node.lineno = fn.line


class CLang:
    """Name and call resolution for interpreted C++."""

    def __init__(self, prog, opaque=()):
        self.prog = prog
        self.cache = {}
        self.lams = {}
        self.opaque = set(opaque)
        self.impure = set()
        self.ncalls = 0
        self.out_all = False
        self.restoring = {}
        self.clobbers = {}

    def cfunc(self, key):
        if key not in self.cache:
            self.cache[key] = CFunc(self.prog.funcs[key])
        return self.cache[key]

    def name(self, I, n, st):
        if n.id == "@g":
            c = n.cxx
            q = c.get("q") or c.name
            return ("ext", q)
        if n.id == "@enum":
            return ("enum", n.cxx.get("q"))
        if n.id.startswith("@"):
            return ("ext", n.id)
        return None

    def call(self, I, n, st):
        c = getattr(n, "cxx", None)
        if c is None:
            return None
        fname = n.func.id if isinstance(n.func, ast.Name) else None
        if fname == "@undef":
            t = c.t
            rec = self.prog.records.get(t)
            if rec is not None:
                return self.new_record(I, st, rec)
            if "vector<" in t or "set<" in t or "list<" in t or \
                    "SmallVector" in t:
                return I.new_list(st, ())
            return ("top", "undef")
        if fname == "@init":
            args = [I.ev(a, st) for a in n.args]
            rec = self.prog.records.get(c.t)
            if rec is not None:
                o = HObj("inst", c.t)
                for f, v in zip(rec["fields"], args):
                    o.d[f["n"]] = v
                return I.alloc(st, o)
            return I.new_list(st, args)
        if fname in ("@ctor", "@basector"):
            args = [I.ev(a, st) for a in n.args]
            key = c.get("fkey")
            t = c.t
            if fname == "@basector":
                this = st.env.get("this")
            else:
                rec = self.prog.records.get(t)
                if rec is None and key not in self.prog.funcs:
                    if ("vector<" in t or "set<" in t) and not args:
                        return I.new_list(st, ())
                    if t.startswith("std::pair<") and len(args) == 2:
                        return I.alloc(st, HObj("inst", t, {
                            "first": args[0], "second": args[1]}))
                    return I.unknown("@ctor " + t, ("ext", "@ctor " + t),
                                     args, {}, st, n)
                this = self.new_record(I, st, rec) if rec else \
                    I.alloc(st, HObj("inst", t))
            if key in self.prog.funcs and key not in self.opaque and \
                    self.prog.funcs[key].q not in self.opaque:
                I.event("@ctor " + t, ("ext", key), tuple(args), (), st, n)
                I.call_func(self.cfunc(key), [this] + args, {}, st, n)
            else:
                I.event("@ctor " + t, ("ext", key or t), tuple(args), (), st,
                        n)
                if key:
                    pn = c.get("pn", [])
                    m = I.mut(st, this) if this and this[0] == "ref" else None
                    if m is not None and not m.d:
                        for p, v in zip(pn, args):
                            m.d["@arg:" + p] = v
            return this if this is not None else NONE
        if fname == "@new":
            for a in n.args:
                v = I.ev(a, st)
                if v[0] == "ref":
                    return v
            return I.fresh("new " + c.get("at", ""))
        if fname == "@lambda" and c.get("lam") in self.prog.funcs:
            key = c.get("lam")
            if key not in self.lams:
                self.lams[key] = CFunc(self.prog.funcs[key], outer=n.outer)
            cf = self.lams[key]
            names = {x.id for x in ast.walk(cf.node)
                     if isinstance(x, ast.Name)} - set(cf.pnames)
            return ("lam", key, tuple(sorted(
                (k, v) for k, v in st.env.items() if k in names)))
        if fname == "@callop":
            v = I.ev(n.args[0], st)
            if v[0] == "lam" and self.lams[v[1]] not in I.stack and \
                    len(I.stack) < I.max_depth:
                cf = self.lams[v[1]]
                args = [I.ev(a, st) for a in n.args[1:]]
                parent = cf.fn.d.get("parent")
                here = any(x.key == parent for x in I.stack[-1:])
                env = dict(st.env) if here else dict(v[2])
                r = I.run_body(cf, cf.node, args, {}, st, n, env)
                if here and not st.dead and I.last_env is not None:
                    for k in st.env:
                        if k not in cf.pnames and k in I.last_env:
                            st.env[k] = I.last_env[k]
                return r
        if fname == "@comma":
            I.ev(n.args[0], st)
            return I.ev(n.args[1], st)
        key = c.get("fkey")
        if key in self.prog.funcs and c.is_call():
            f = self.prog.funcs[key]
            over = self.prog.all_overriders(key) if c.get("virt") else []
            if f.key in self.opaque or f.q in self.opaque or over:
                args = []
                if isinstance(n.func, ast.Attribute):
                    args.append(I.ev(n.func.value, st))
                args += [I.ev(a, st) for a in n.args]
                extra = []
                if f.q in self.impure:
                    # every call may give another result
                    self.ncalls += 1
                    extra = [C(f"call {self.ncalls}")]
                r = I.unknown(f.q, ("ext", f.q), args + extra, {}, st, n)
                self.copy_out(I, st, f, None, n, args, None, r)
                for x in self.clobbers.get(f.q.split("::")[-1], ()):
                    b = st.env.get("this", ("sym", "this"))
                    for y in x.split(".")[:-1]:
                        b = ("attr", b, y)
                    st.ostore[(b, x.split(".")[-1])] = ("out", r, x)
                return r
            args = []
            if f.cls and not f.d.get("static"):
                if isinstance(n.func, ast.Attribute):
                    args.append(I.ev(n.func.value, st))
                elif n.args and c.k == "CXXOperatorCallExpr":
                    pass
            args += [I.ev(a, st) for a in n.args]
            h = I.hooks.get(f.q)
            if h is not None:
                r = h(I, st, ("ext", f.q), args, {}, n)
                if r is not None:
                    return r
            I.last_env = None
            cf = self.cfunc(key)
            r = I.call_func(cf, args, {}, st, n)
            self.copy_out(I, st, f, cf, n, args, I.last_env, r)
            return r
        if c.is_call() and c.callee:
            args = []
            base = None
            if isinstance(n.func, ast.Attribute):
                base = I.ev(n.func.value, st)
                nm = n.func.attr
                nm = {"push_back": "append", "emplace_back": "append",
                      "insert": "add", "emplace": "add"}.get(nm, nm)
                vals = [I.ev(a, st) for a in n.args]
                if base[0] == "ref" or nm in ("empty",):
                    if nm == "empty":
                        vs = I.unroll(base, st)
                        if vs is not None:
                            return C(not vs)
                        if base[0] == "c":
                            return C(not base[2])
                        return ("op", "not", base)
                    if vals:
                        r = I.builtin_method(base, nm, vals, {}, st, n)
                        if r is not None:
                            return r
                return I.unknown(c.callee, ("attr", base, n.func.attr),
                                 [base] + vals, {}, st, n)
            h = I.hooks.get(c.callee)
            vals = [I.ev(a, st) for a in n.args]
            if c.callee in QUANTIFIERS and len(vals) > 1 and \
                    vals[-1][0] == "lam" and \
                    self.lams[vals[-1][1]] not in I.stack and \
                    len(I.stack) < I.max_depth:
                # for one arbitrary element
                elem = ("op", "each", vals[0])
                sub = st.copy()
                v = I.run_body(self.lams[vals[-1][1]],
                               self.lams[vals[-1][1]].node, [elem], {}, sub,
                               n, dict(vals[-1][2]))
                q = c.callee.split("::")[-1]
                if q == "none_of":
                    v = ("op", "not", v)
                return ITE(("inloop", elem), v, C(q != "any_of"))
            if c.callee in ("std::next", "std::prev") and vals:
                return I.binop("Add" if c.callee == "std::next" else "Sub",
                               vals[0], vals[1] if len(vals) > 1 else C(1), st)
            if c.callee == "std::make_pair" and len(vals) == 2:
                return I.alloc(st, HObj("inst", "std::pair<>", {
                    "first": vals[0], "second": vals[1]}))
            if h is not None:
                r = h(I, st, ("ext", c.callee), vals, {}, n)
                if r is not None:
                    return r
            targs = c.get("targs")
            nm = c.callee
            if targs and c.callee.startswith("llvm::") and \
                    c.callee.split("::")[-1] in ("isa", "cast", "dyn_cast",
                                                 "dyn_cast_or_null",
                                                 "isa_and_nonnull",
                                                 "unique_dyn_cast"):
                nm = f"{c.callee}<{targs[0]}>"
            return I.unknown(nm, ("ext", nm), vals, {}, st, n)
        return None

    def copy_out(self, I, st, f, cf, n, args, env, result):
        """Values written through reference parameters of simple types."""
        off = len(args) - len(n.args)
        for i, p in enumerate(f.params):
            t = p.get("t", "")
            if not t.endswith("&") or t.startswith("const ") or \
                    i >= len(n.args) or st.dead:
                continue
            node = n.args[i]
            if not isinstance(node, ast.Name) or node.id.startswith("@"):
                continue
            old = args[off + i]
            if old[0] == "ref" and not (
                    cf is None and self.out_all and
                    st.heap[old[1]].kind in ("list", "set", "dict")):
                continue
            if env is not None:
                v = env.get(cf.pnames[off + i], old)
            elif cf is None and (self.out_all or t in (
                    "bool &", "int &", "unsigned int &")):
                v = ("out", result, p["n"])
                if f.q in self.restoring:
                    # nothing is changed if it fails
                    v = ITE(result, *((v, old) if self.restoring[f.q]
                                      else (old, v)))
            else:
                continue
            if v != old:
                I.assign(node, v, st)

    def new_record(self, I, st, rec):
        o = HObj("inst", rec["q"])
        r = I.alloc(st, o)
        for f in rec["fields"]:
            if "init" in f:
                class Holder:
                    pass
                h = Holder()
                h.nodes = {}
                h.rel = rec["file"]
                h.q = rec["q"]
                from lib.cxxfront import Node
                nd = Node(f["init"], None, h)
                st.heap[r[1]].d[f["n"]] = I.ev(Conv(h).expr(nd), st)
        return r


def alias(e):
    """The variables which a reference may refer to, as an expression."""
    if isinstance(e, ast.Name) and not e.id.startswith("@"):
        return ast.Constant(e.id)
    if isinstance(e, ast.IfExp):
        a, b = alias(e.body), alias(e.orelse)
        return ast.IfExp(e.test, a, b) if a is not None and b is not None \
            else None
    return None


QUANTIFIERS = {p + q for p in ("std::", "llvm::")
               for q in ("all_of", "any_of", "none_of")}


class CInterp(Interp):
    def __init__(self, prog, opaque=(), **kw):
        super().__init__(_NoProg(), lang=CLang(prog, opaque), **kw)
        self.cprog = prog

    def run_c(self, fn, args=None, st=None):
        return self.run(self.lang.cfunc(fn.key), args=None, kwargs=args or {},
                        st=st)


class _NoProg:
    modules = {}

    def resolve(self, *a):
        return None

    def find_method(self, *a):
        return None
