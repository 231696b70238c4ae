"""Control-flow graph of a Python function with exception edges.  'finally'
bodies are inlined per way of leaving, context managers written as generator
functions are inlined around the body of their 'with' statement."""
import ast
import copy
from lib.pyfront import Func, Class


class Node:
    __slots__ = ("kind", "ast", "succ", "exc", "idx", "label", "func")

    def __init__(self, kind, ast_=None, label=None, func=None):
        self.kind = kind      # entry|stmt|test|exit|raise|join|bind|...
        self.ast = ast_
        self.succ = []        # normal successors: (label, node)
        self.exc = []         # (type, node)
        self.label = label
        self.func = func

    @property
    def line(self):
        return getattr(self.ast, "lineno", 0)


class CFG:
    def __init__(self, prog, calls, escapes, func, inline=None):
        self.P, self.C, self.E, self.f = prog, calls, escapes, func
        self.nodes = []
        self.exit = self.node("exit")
        self.raised = self.node("raised")
        self.depth = 0
        entry = self.block(func.node.body, self.exit, Ctx(
            ret=self.exit, exc=lambda t: self.raised))
        self.entry = self.node("entry")
        self.entry.succ.append((None, entry))

    def node(self, kind, a=None, label=None):
        n = Node(kind, a, label, self.f)
        n.idx = len(self.nodes)
        self.nodes.append(n)
        return n

    # Each builder returns the entry node given the continuation.
    def block(self, body, nxt, ctx):
        for s in reversed(body):
            nxt = self.stmt(s, nxt, ctx)
        return nxt

    def simple(self, kind, a, nxt, ctx, exprs):
        n = self.node(kind, a)
        if nxt is not None:
            n.succ.append((None, nxt))
        self.raising(n, exprs, ctx)
        return n

    def raising(self, n, exprs, ctx):
        types = {}
        for e in exprs:
            if e is not None:
                types.update(self.E.expr(self.f, e))
        for t in types:
            n.exc.append((t, ctx.exc(t)))

    def stmt(self, s, nxt, ctx):
        if isinstance(s, ast.If):
            n = self.node("test", s.test)
            n.succ.append((True, self.block(s.body, nxt, ctx)))
            n.succ.append((False, self.block(s.orelse, nxt, ctx)))
            self.raising(n, [s.test], ctx)
            return n
        if isinstance(s, ast.While):
            n = self.node("test", s.test)
            c2 = ctx.loop(brk=nxt, cont=n)
            n.succ.append((True, self.block(s.body, n, c2)))
            if not (isinstance(s.test, ast.Constant) and s.test.value):
                n.succ.append((False, self.block(s.orelse, nxt, ctx)))
            self.raising(n, [s.test], ctx)
            return n
        if isinstance(s, ast.For):
            n = self.node("for", s)
            c2 = ctx.loop(brk=nxt, cont=n)
            b = self.node("bind", s)
            b.succ.append((None, self.block(s.body, n, c2)))
            n.succ.append((True, b))
            n.succ.append((False, self.block(s.orelse, nxt, ctx)))
            it = self.simple("iter", s, n, ctx, [s.iter])
            return it
        if isinstance(s, ast.Return):
            ret = ctx.ret_node()
            return self.simple("return", s, ret, ctx, [s.value])
        if isinstance(s, ast.Break):
            n = self.node("stmt", s)
            n.succ.append((None, ctx.brk_node()))
            return n
        if isinstance(s, ast.Continue):
            n = self.node("stmt", s)
            n.succ.append((None, ctx.cont_node()))
            return n
        if isinstance(s, ast.Raise):
            n = self.node("raise", s)
            if s.exc is None:
                for t in ctx.active or ["*"]:
                    n.exc.append((t, ctx.exc(t)))
            else:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                name = ast.unparse(e).split(".")[-1]
                if isinstance(s.exc, ast.Name) and not name[:1].isupper():
                    name = "*"
                n.exc.append((name, ctx.exc(name)))
            return n
        if isinstance(s, ast.Try):
            return self.try_(s, nxt, ctx)
        if isinstance(s, ast.With):
            return self.with_(s, nxt, ctx)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Global, ast.Pass)):
            n = self.node("stmt", s)
            n.succ.append((None, nxt))
            return n
        exprs = [v for v in ast.iter_child_nodes(s)
                 if isinstance(v, ast.expr)]
        return self.simple("stmt", s, nxt, ctx, exprs)

    def fin(self, body, nxt, ctx):
        """A copy of the finally body continuing at nxt."""
        return self.block(body, nxt, ctx)

    def try_(self, s, nxt, ctx):
        if s.finalbody:
            memo = {}

            def wrap(kind, target):
                """target: thunk of the continuation after the finally"""
                if kind not in memo:
                    j = self.node("join")
                    memo[kind] = j
                    t = target()
                    j.succ.append((None, self.fin(s.finalbody, t, ctx)
                                   if t is not None else self.exit))
                return memo[kind]
            inner = ctx.derive(
                ret=lambda: wrap("ret", ctx.ret_node),
                exc=lambda t: wrap(("exc", t), lambda: self.reraise(t, ctx)))
            if ctx.brk:
                inner.brk = lambda: wrap("brk", ctx.brk_node)
                inner.cont = lambda: wrap("cont", ctx.cont_node)
            after = self.fin(s.finalbody, nxt, ctx)
        else:
            inner, after = ctx, nxt
        if s.handlers:
            memo2 = {}

            def handle(t):
                if t in memo2:
                    return memo2[t]
                d = self.node("dispatch", s, label=t)
                memo2[t] = d
                for h in s.handlers:
                    c = self.E.caught(t, self.E.handler_names(h))
                    if c == "no":
                        continue
                    hc = inner.derive(active=[t])
                    hb = self.node("handler", h)
                    hb.succ.append((None, self.block(h.body, after, hc)))
                    d.succ.append((None, hb))
                    if c == "yes":
                        return d
                d.succ.append((None, inner.exc(t)))
                return d
            body_ctx = inner.derive(exc=handle)
        else:
            body_ctx = inner
        orelse = self.block(s.orelse, after, inner)
        return self.block(s.body, orelse, body_ctx)

    def reraise(self, t, ctx):
        n = self.node("reraise", label=t)
        n.exc.append((t, ctx.exc(t)))
        return n

    def with_(self, s, nxt, ctx):
        item = s.items[0]
        rest = s.body if len(s.items) == 1 else [ast.copy_location(
            ast.With(items=s.items[1:], body=s.body), s)]
        ce = item.context_expr
        if isinstance(ce, ast.Call) and self.depth < 3:
            for t in self.C.targets(self.f, ce):
                if isinstance(t, Func) and any(
                        "contextmanager" in ast.unparse(d)
                        for d in t.node.decorator_list):
                    body = self.inline_cm(t, ce, item, rest)
                    if body is not None:
                        self.depth += 1
                        r = self.block(body, nxt, ctx)
                        self.depth -= 1
                        return r
        body = self.block(rest, nxt, ctx)
        n = self.node("with", item)
        n.succ.append((None, body))
        self.raising(n, [ce], ctx)
        return n

    def inline_cm(self, g, call, item, body):
        """Body of the generator with 'yield' replaced by the with body."""
        from lib.pycall import bind_args, is_bound
        pre = f"__{g.name}_"
        node = copy.deepcopy(g.node)
        local = {a.arg for a in node.args.args}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)

        class Ren(ast.NodeTransformer):
            def visit_Name(self, x):
                if x.id in local:
                    return ast.copy_location(
                        ast.Name(id=pre + x.id, ctx=x.ctx), x)
                return x
        node = Ren().visit(node)
        found = [0]

        class Y(ast.NodeTransformer):
            def visit_Expr(self, x):
                if isinstance(x.value, ast.Yield):
                    found[0] += 1
                    out = []
                    if item.optional_vars is not None:
                        out.append(ast.copy_location(ast.Assign(
                            targets=[item.optional_vars],
                            value=x.value.value or ast.Constant(None)), x))
                    return out + body
                return x
        node = Y().visit(node)
        if found[0] != 1:
            return None
        pro = []
        ps = g.params()
        bound = is_bound(g, call) and g.cls is not None
        if bound and isinstance(call.func, ast.Attribute):
            pro.append((ps[0], call.func.value))
        pro += bind_args(g, call, bound)
        given = {n for n, _ in pro}
        d = g.node.args.defaults
        for name, v in zip(ps[len(ps) - len(d):], d):
            if name not in given:
                pro.append((name, v))
        out = [ast.copy_location(ast.Assign(
            targets=[ast.Name(id=pre + n, ctx=ast.Store())], value=v), call)
            for n, v in pro]
        res = out + node.body
        for x in res:
            ast.fix_missing_locations(x)
        return res

    # ---- forward dataflow ------------------------------------------------
    def solve(self, init, transfer, join, exc_transfer=None, limit=20000):
        """transfer(node, state) -> state | {label: state}; exc_transfer(node,
        state) -> state on the exception edge (default: state before)."""
        inn = {self.entry.idx: init}
        work = [self.entry]
        steps = 0
        while work:
            n = work.pop()
            steps += 1
            if steps > limit:
                raise RuntimeError("no fixed point")
            s = inn[n.idx]
            out = transfer(n, s)
            for label, m in n.succ:
                o = out.get(label) if isinstance(out, Branch) else out
                if o is None:
                    continue
                self.push(inn, work, m, o, join)
            if n.exc:
                x = exc_transfer(n, s) if exc_transfer else s
                for t, m in n.exc:
                    self.push(inn, work, m, x, join)
        return inn

    def push(self, inn, work, m, o, join):
        if m.idx in inn:
            j = join(inn[m.idx], o)
            if j == inn[m.idx]:
                return
            inn[m.idx] = j
        else:
            inn[m.idx] = o
        work.append(m)


class Branch(dict):
    pass


class Ctx:
    def __init__(self, ret=None, exc=None, brk=None, cont=None, active=None):
        self.ret, self.exc = ret, exc
        self.brk, self.cont = brk, cont
        self.active = active

    def derive(self, **kw):
        c = Ctx(self.ret, self.exc, self.brk, self.cont, self.active)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def loop(self, brk, cont):
        return self.derive(brk=lambda: brk, cont=lambda: cont)

    def ret_node(self):
        return self.ret() if callable(self.ret) else self.ret

    def brk_node(self):
        return self.brk()

    def cont_node(self):
        return self.cont()
