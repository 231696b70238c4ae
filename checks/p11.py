"""P11: kernel sources and working directory are restored on every exit."""
import ast
from lib.report import Check, REPO
from lib.pyfront import Program, AnalysisBroken, Func, Class
from lib.pycall import Calls, bind_args, is_bound
from lib.pyexc import Escapes
from lib.pycfg import CFG
from lib.interp import HObj, Interp, State, C, NONE, show, subterms


def calls_in(e):
    """Call nodes of an expression or simple statement, inner ones first."""
    out = []

    def rec(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            return
        for c in ast.iter_child_nodes(n):
            rec(c)
        if isinstance(n, ast.Call):
            out.append(n)
    if e is not None:
        rec(e)
    return out


def node_exprs(n):
    a = n.ast
    if n.kind in ("test",):
        return [a]
    if n.kind == "iter":
        return [a.iter]
    if n.kind == "with":
        return [a.context_expr]
    if n.kind == "return":
        return [a.value]
    if n.kind == "stmt":
        return [x for x in ast.iter_child_nodes(a)
                if isinstance(x, ast.expr)]
    return []


class Cwd:
    """Working directory: a typestate over the paths of each function."""

    def __init__(self, P, K, E):
        self.P, self.K, self.E = P, K, E
        self.memo = {}
        self.sites = 0
        self.cfgs = 0

    def touches(self, f, seen=None):
        seen = seen if seen is not None else set()
        if f.key in seen:
            return False
        seen.add(f.key)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for t in self.K.targets(f, n):
                    if t == ("ext", "os.chdir"):
                        return True
        return any(self.touches(g, seen) for n in ast.walk(f.node)
                   if isinstance(n, ast.Call) for g in self.K.funcs(f, n))

    def summary(self, f):
        """(kept on return, kept on exception, example path nodes)"""
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = (True, True, None)
        if not self.touches(f):
            return self.memo[f.key]
        g = CFG(self.P, self.K, self.E, f)
        self.cfgs += 1
        init = frozenset([("entry", frozenset())])

        def step(n, states, exc=False):
            """States after the node; on exception: after any prefix."""
            out = set()
            for cwd, vs in states:
                d = dict(vs)
                seen = []
                for e in node_exprs(n):
                    for c in calls_in(e):
                        ts = self.K.targets(f, c)
                        if ("ext", "os.chdir") in ts or \
                                ("ext", "os.fchdir") in ts:
                            self.sites += not exc
                            a = c.args[0] if c.args else None
                            v = self.value(a, d, cwd)
                            # a failing chdir changes nothing; going back to
                            # a remembered directory is taken not to fail
                            if not (isinstance(a, ast.Name) and a.id in d):
                                seen.append((cwd, frozenset(d.items())))
                            cwd = v
                            continue
                        if self.E.call(f, c):
                            seen.append((cwd, frozenset(d.items())))
                        for t in self.K.funcs(f, c):
                            nk, ek, _ = self.summary(t)
                            if not ek:
                                seen.append((f"left by {t.qual}",
                                             frozenset(d.items())))
                            if not nk:
                                cwd = f"left by {t.qual}"
                if n.kind == "stmt" and isinstance(n.ast, ast.Assign):
                    for t in n.ast.targets:
                        if isinstance(t, ast.Name):
                            d[t.id] = self.value(n.ast.value, d, cwd)
                if n.kind == "with" and n.ast.optional_vars is not None \
                        and isinstance(n.ast.optional_vars, ast.Name):
                    d.pop(n.ast.optional_vars.id, None)
                d = {k: v for k, v in d.items() if v is not None}
                if exc:
                    out |= set(seen) if node_exprs(n) else {(cwd, vs)}
                else:
                    out.add((cwd, frozenset(d.items())))
            return frozenset(out)
        inn = g.solve(init, step, lambda a, b: a | b,
                      lambda n, s: step(n, s, True))
        def kept(node):
            s = inn.get(node.idx, frozenset())
            bad = [c for c, _ in s if c != "entry"]
            return not bad, bad
        nk, b1 = kept(g.exit)
        ek, b2 = kept(g.raised)
        self.memo[f.key] = (nk, ek, (b1 + b2)[:1])
        return self.memo[f.key]

    def value(self, e, d, cwd):
        """Directory an expression stands for, None if none."""
        if isinstance(e, ast.Call) and ast.unparse(e.func) in (
                "os.getcwd", "getcwd"):
            return cwd
        if isinstance(e, ast.Name):
            return d.get(e.id) or ("dir " + e.id)
        if e is None:
            return None
        return "dir " + ast.unparse(e)[:40]


class Owned:
    """Objects that change the user's files until finalize() is called on
    them or on their owner: an obligation per object, carried by the
    variables that (transitively) own it."""

    def __init__(self, P, K, E):
        self.P, self.K, self.E = P, K, E
        self.res = [c for c in P.all_classes() if self.is_resource(c)]
        self.memo = {}
        self.cfgs = 0
        self.acquired = 0
        self.paths = []

    def is_resource(self, c):
        """The constructor prepares something that finalize() takes back."""
        fin = self.P.find_method(c, "finalize")
        ini = self.P.find_method(c, "__init__")
        if fin is None or ini is None or fin.is_abstract:
            return False
        body = [s for s in fin.node.body if not isinstance(s, ast.Pass) and
                not (isinstance(s, ast.Expr) and
                     isinstance(s.value, ast.Constant))]
        if not body:
            return False
        reach = self.K.reachable([ini])
        own = [f for k, f in reach.items() if f.cls is not None and
               self.P.is_subclass(c, f.cls)]
        return any(f.name == "initialize" for f in own)

    def ctor(self, f, c):
        for t in self.K.targets(f, c):
            if isinstance(t, Class):
                return t
        return None

    def delegates(self, g):
        """Does calling finalize on the object reach the resource's one?"""
        return any(f.cls in self.res and f.name == "finalize"
                   for f in self.K.reachable([g]).values())

    def owner(self, cls):
        g = self.P.find_method(cls, "finalize")
        return g is not None and self.delegates(g)

    def summary(self, f):
        """What a call of f means for the caller:
        returns: {(path below the result, parameters it depends on)}
        self: the same for the receiver; exc: receiver after an exception
        leaks: obligations that f itself loses"""
        if f.key in self.memo:
            return self.memo[f.key]
        s0 = {"returns": frozenset(), "self": frozenset(),
              "exc": frozenset(), "leaks": [], "final": self.finals(f)}
        self.memo[f.key] = s0
        if not self.relevant(f):
            return s0
        inn, g, me = self.solve(f, frozenset([frozenset()]))
        out = dict(s0, returns=set(), exc=set())
        out["self"] = set()
        for node, normal in ((g.exit, True), (g.raised, False)):
            for st in inn.get(node.idx, ()):
                for site, holders, cond in st:
                    rets = {h for h in holders if root(h) == "return"}
                    mine = {h for h in holders if root(h) == me}
                    if rets and normal:
                        for h in rets:
                            out["returns"].add((tail(h), cond))
                    elif mine:
                        for h in mine:
                            out["self" if normal else "exc"].add(
                                (tail(h), cond))
                    else:
                        out["leaks"] = sorted(set(out["leaks"]) | {
                            (site, "when it returns" if normal else
                             "when an exception is raised")})
        for k in ("returns", "self", "exc"):
            out[k] = frozenset(out[k])
        self.memo[f.key] = out
        return out

    def solve(self, f, init):
        g = CFG(self.P, self.K, self.E, f)
        self.cfgs += 1
        ps = f.params()
        me = ps[0] if f.cls is not None and ps and not f.is_static and \
            not f.is_classmethod else None
        inn = g.solve(init, lambda n, s: self.step(f, me, n, s, False),
                      lambda a, b: a | b,
                      lambda n, s: self.step(f, me, n, s, True))
        return inn, g, me

    def finals(self, f):
        """Paths below parameters on which finalize is always called."""
        out = set()
        if f.name == "finalize":
            return frozenset()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == "finalize":
                p = path(n.func.value)
                if p and root(p) in f.params():
                    ob = frozenset([("param", frozenset([p]), None)])
                    inn, g, _ = self.solve(f, frozenset([ob]))
                    if all(not any(o[0] == "param" for o in st)
                           for x in (g.exit, g.raised)
                           for st in inn.get(x.idx, ())):
                        out.add(p)
        return frozenset(out)

    def relevant(self, f):
        """Could f (transitively) construct a resource?"""
        return any(g.cls in self.res and g.name == "__init__"
                   for g in self.K.reachable([f]).values())

    def step(self, f, me, n, states, exc):
        from lib.pycfg import Branch
        out = set()
        for st in states:
            cur = set(st)
            before = set()
            cs = [c for e in node_exprs(n) for c in calls_in(e)]
            for c in cs:
                cur, pre = self.call(f, me, c, cur)
                before |= {frozenset(x) for x in pre}
            if exc:
                out |= before if cs else {frozenset(cur)}
                continue
            out.add(frozenset(self.store(f, me, n, cur)))
        if n.kind == "test" and not exc:
            b = Branch()
            for pol in (True, False):
                gone = nonnull(n.ast, not pol)
                b[pol] = frozenset(
                    st for st in out if not any(
                        h == g or h.startswith(g + ".")
                        for _, hs, _ in st for h in hs for g in gone))
            return b
        return frozenset(out)

    def held(self, e):
        """Access paths an argument expression stands for."""
        if isinstance(e, ast.Call):
            return {f"@{id(e)}"}
        if isinstance(e, ast.IfExp):
            return self.held(e.body) | self.held(e.orelse)
        p = path(e)
        return {p} if p else set()

    def call(self, f, me, c, cur):
        """State after the call; states in which it may raise."""
        raises = bool(self.E.call(f, c))
        fn = c.func
        tmp = f"@{id(c)}"
        if isinstance(fn, ast.Attribute) and fn.attr == "finalize":
            who = self.held(fn.value)
            return {o for o in cur if not under(o[1], who)}, []
        add, exc_add = set(), set()
        for t in self.K.targets(f, c):
            if isinstance(t, Class):
                if t in self.res:
                    add.add((f"{f.qual}: {t.name}()", frozenset([tmp]),
                             None))
                init = self.P.find_method(t, "__init__")
                if init is not None:
                    for p, a in bind_args(init, c, True):
                        for attr in self.fields(init, p):
                            cur = move(cur, self.held(a), tmp + "." + attr)
                continue
            if not isinstance(t, Func):
                continue
            s = self.summary(t)
            binds = dict(bind_args(t, c, is_bound(t, c)))
            recv = None
            if isinstance(fn, ast.Attribute) and t.cls is not None and \
                    not t.is_static and not t.is_classmethod:
                recv = fn.value
                if t.params():
                    binds[t.params()[0]] = recv
            for p in s["final"]:
                a = binds.get(root(p))
                if a is not None:
                    who = {h + tail(p) for h in self.held(a)}
                    cur = {o for o in cur if not under(o[1], who)}
            poly = t.cls in self.res
            for key, dest, where in (("returns", tmp, add), ("self", None,
                                                             add),
                                     ("exc", None, exc_add)):
                for tl, cond in s[key]:
                    if cond is None and poly and recv is not None and \
                            root(path(recv) or "") != "self" or \
                            cond is None and poly and recv is not None:
                        cond = frozenset([t.params()[0]])
                    live, c2 = self.cond(f, cond, binds, cur)
                    if not live:
                        continue
                    ds = [dest] if dest else self.held(recv) \
                        if recv is not None else []
                    for d in ds:
                        where.add((f"{f.qual}: {t.qual}()",
                                   frozenset([d + tl]), c2))
            # parameters stored in the result keep their owner
            if s["returns"] or self.keeps(t):
                for p, attr in self.keeps(t):
                    a = binds.get(p)
                    if a is not None:
                        cur = move(cur, self.held(a), tmp + attr)
        pre = [set(cur) | exc_add] if raises else []
        self.acquired += len(add)
        return set(cur) | add, pre

    def cond(self, f, cond, binds, cur):
        """Is a conditional obligation live here, and on what condition?"""
        if cond is None:
            return True, None
        c2 = set()
        for p in cond:
            a = binds.get(p)
            if a is None:
                continue
            hs = self.held(a)
            for h in hs:
                if any(x == h or x.startswith(h + ".") or
                       h.startswith(x + ".") for o in cur for x in o[1]):
                    return True, None
                if root(h) in f.params():
                    c2.add(root(h))
        return bool(c2), frozenset(c2) or None

    def fields(self, init, p):
        """Attributes the constructor initialises with its parameter."""
        out = []
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and p in {
                    x.id for x in ast.walk(n.value)
                    if isinstance(x, ast.Name)}:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name) and \
                            t.value.id == init.params()[0]:
                        out.append(t.attr)
            if isinstance(n, ast.Call) and ast.unparse(n.func).endswith(
                    "__init__"):
                for b in self.K.funcs(init, n):
                    bd = b.cls is not None and isinstance(
                        n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name)
                    pairs = bind_args(b, n, False) if bd else \
                        bind_args(b, n, True)
                    for q, a in pairs:
                        if isinstance(a, ast.Name) and a.id == p and \
                                b is not init:
                            out += self.fields(b, q)
        return out

    def keeps(self, t):
        """[(parameter, path in the result)] of parameters that a function
        puts into the object it returns."""
        key = ("keeps", t.key)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        out = []
        if not any(isinstance(n, ast.Return) and n.value is not None
                   for n in ast.walk(t.node)):
            return out
        ps = [p for p in t.params()]
        if t.name == "__init__" or len(ps) > 14:
            return out
        init = frozenset((f"p:{p}", frozenset([p]), None) for p in ps)
        inn, g, me = self.solve(t, frozenset([init]))
        for st in inn.get(g.exit.idx, ()):
            for site, hs, _ in st:
                if site.startswith("p:"):
                    for h in hs:
                        if root(h) == "return":
                            out.append((site[2:], tail(h)))
        self.memo[key] = sorted(set(out))
        return self.memo[key]

    def store(self, f, me, n, cur):
        a = n.ast
        if n.kind == "return" and a.value is not None:
            es = [a.value]
            if isinstance(a.value, ast.Tuple):
                es += a.value.elts
            for e in es:
                cur = move(cur, self.held(e), "return")
        if n.kind in ("stmt", "bind") and isinstance(a, ast.Assign):
            h = self.held(a.value)
            for t in a.targets:
                p = path(t)
                if p and p not in h:
                    # the old value is no longer reachable through it
                    cur = {(s, frozenset(x for x in hs if x != p and
                                         not x.startswith(p + ".")), c)
                           for s, hs, c in cur}
                    cur = move(cur, h, p)
        keep = n.kind == "return"
        return {(s, frozenset(x for x in hs if keep or
                              not x.startswith("@")), c)
                for s, hs, c in cur}


def path(e):
    """Dotted access path of an expression."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = path(e.value)
        return b + "." + e.attr if b else None
    if isinstance(e, ast.Subscript):
        b = path(e.value)
        return b + ".[]" if b else None
    if isinstance(e, ast.Call):
        return f"@{id(e)}"
    return None


def root(p):
    return p.split(".")[0]


def tail(p):
    return p[len(root(p)):]


def under(holders, who):
    return any(h == w or h.startswith(w + ".") for h in holders for w in who)


def move(cur, src, dest):
    """Obligations held below a source path are also held below dest."""
    out = set()
    for s, hs, c in cur:
        more = set()
        for h in hs:
            for w in src:
                if h == w:
                    more.add(dest)
                elif h.startswith(w + "."):
                    more.add(dest + h[len(w):])
        out.add((s, hs | more, c) if more else (s, hs, c))
    return out


def nonnull(e, pol):
    """Paths known not to be None when e evaluates to the *opposite* of
    pol ... i.e. paths that are None/false when e is pol."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return nonnull(e.operand, not pol)
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
            e.comparators[0], ast.Constant) and \
            e.comparators[0].value is None:
        p = path(e.left)
        if isinstance(e.ops[0], (ast.Is, ast.Eq)):
            return [p] if p and not pol else []
        if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
            return [p] if p and pol else []
    p = path(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
    return [p] if p and pol else []


def commands(P):
    """Functions run for a command line (set_defaults(func=...))."""
    out = set()
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == "set_defaults":
                for k in n.keywords:
                    r = P.resolve_expr(m, k.value)
                    if isinstance(r, Func):
                        out.add(r.key)
    return out


RULE = (
    "Working directory: a disjunctive typestate over the control-flow graph "
    "(with exception edges) of every function that may change it, composed "
    "by summaries; on every return and on every exception the directory must "
    "be the one at entry, unless every caller restores it. Kernel sources: "
    "every object whose constructor modifies the user's files is an "
    "obligation carried through variables, fields, parameters and results "
    "until finalize() is called on it or its owner; no function may lose it "
    "on a return or an exception. Delegation of finalize down to the object, "
    "and the edits it takes back, are derived by symbolic interpretation.")


def run():
    ck = Check("P11", RULE)
    ck.assumptions += [
        "library functions listed as safe in lib/pyexc.py do not raise; "
        "returning to a remembered directory does not fail",
        "asynchronous exceptions (KeyboardInterrupt) are only considered "
        "where some call of the statement can raise as well"]
    P = Program(REPO)
    K = Calls(P)
    E = Escapes(P, K)
    cmds = commands(P)
    if not cmds:
        raise AnalysisBroken("no command functions found")
    W = Cwd(P, K, E)
    funcs = list(P.all_funcs())
    callers = {}
    for f in funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                for g in K.funcs(f, n):
                    callers.setdefault(g.key, set()).add(f.key)
    by = {f.key: f for f in funcs}
    def restored(f, seen=()):
        """Every caller, or every caller of it, restores the directory."""
        up = [by[c] for c in callers.get(f.key, ()) if c in by]
        return bool(up) and f.key not in cmds and f.key not in seen and all(
            all(W.summary(c)[:2]) or restored(c, seen + (f.key,))
            for c in up)

    nchdir = 0
    for f in funcs:
        if not W.touches(f):
            continue
        direct = any(("ext", "os.chdir") in K.targets(f, n)
                     for n in ast.walk(f.node) if isinstance(n, ast.Call))
        ck.analysed.add(f.key)
        nk, ek, bad = W.summary(f)
        if not direct or f.key in cmds:
            continue
        nchdir += 1
        contained = restored(f)
        ck.ob("cwd-on-return", f.qual, nk or contained,
              "the working directory is still changed when the function "
              f"returns ({bad})", f.where)
        ck.ob("cwd-on-exception", f.qual, ek or contained,
              "the working directory stays changed when an exception leaves "
              f"the function ({bad})", f.where)
    # whatever the library of finders does, its users see no change
    for k in cmds:
        f = by[k]
        for g in {g.key: g for n in ast.walk(f.node)
                  if isinstance(n, ast.Call) for g in K.funcs(f, n)}.values():
            if W.touches(g):
                nk, ek, bad = W.summary(g)
                ck.ob("cwd-of-command", f"{f.qual}->{g.qual}", nk and ek,
                      f"may return in a different working directory ({bad})",
                      g.where)
    ck.floor("functions changing the working directory", nchdir, 1)
    O = Owned(P, K, E)
    ck.floor("classes that modify the user's files", len(O.res), 1)
    n = 0
    for f in funcs:
        if not O.relevant(f):
            continue
        n += 1
        ck.analysed.add(f.key)
        s = O.summary(f)
        if not s["leaks"]:
            ck.ob("finalized", f.qual, True)
        for site, when in s["leaks"]:
            ck.ob("finalized", site, False, "the sources modified here are "
                  f"not restored {when}", f.where)
        if f.key in cmds and (s["returns"] or s["self"]):
            ck.ob("finalized", f"{f.qual} (result)", False,
                  "a command returns without restoring the sources", f.where)
    ck.floor("functions through which the sources get modified", n, 6)
    ck.note("control_flow_graphs", W.cfgs + O.cfgs)
    ck.note("obligations_acquired", O.acquired)
    delegation(ck, P, O)
    inverse(ck, P, O)
    return ck


def only_none_facts(e, subj):
    """The event happens whenever subj is not None."""
    for t, p in facts_of(e):
        if t[0] in ("inloop", "noraise"):
            continue
        if t == ("op", "is", subj, NONE) or t == ("op", "==", subj, NONE):
            if p is False:
                continue
        if t == subj and p:
            continue
        return False
    return True


def facts_of(e):
    return [f if isinstance(f, tuple) and len(f) == 2 and
            isinstance(f[1], bool) else (f, True) for f in e.facts]


def delegation(ck, P, O):
    """finalize() of an owner reaches every object it owns."""
    me = ("sym", "self")
    owners = [c for c in P.all_classes() if c not in O.res and O.owner(c)
              and "finalize" in c.methods]
    for c in owners:
        f = c.methods["finalize"]
        ck.analysed.add(f.key)
        init = P.find_method(c, "__init__")
        I = Interp(P)
        I.run(f, [me], {}, State())
        called = {e.fn[1]: e for e in I.events
                  if e.fn[0] == "attr" and e.fn[2] == "finalize"}
        # attributes that may hold an owner or a resource
        for p in init.params()[1:]:
            for a in O.fields(init, p):
                if not holds(P, O, c, a):
                    continue
                t = ("attr", me, a)
                e = called.get(t)
                ck.ob("finalize-delegates", f"{c.name}.{a}",
                      e is not None and only_none_facts(e, t),
                      f"{c.name}.finalize() does not always finalize "
                      f"'{a}'", f.where)
    ck.floor("owners whose finalize delegates", len(owners), 2)


def holds(P, O, c, attr):
    """Is finalize called on this attribute anywhere, or is the attribute of
    an owner type / named as a finder or tree?"""
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                m = n.func.attr
                if isinstance(n.func.value, ast.Attribute) and \
                        n.func.value.attr == attr and any(
                            m in k.methods for k in list(O.res)) and \
                        m in ("finalize", "clone_to_dir", "initialize",
                              "find_llvm_with_symbol_def"):
                    return True
    if O.K.attr_type(c, attr):
        return any(O.owner(k) or k in O.res for k in O.K.attr_type(c, attr))
    return False


def sed_edits(t):
    """[(kind, a, b)] of a symbolic sed command."""
    out = []
    if t[0] == "list":
        parts = [x[2] if x[0] == "c" else None for x in t[1:]]
        if parts[:1] == ["sed"]:
            for p in parts[1:]:
                if not isinstance(p, str) or p.startswith("-"):
                    continue
                if p.startswith("s/"):
                    q = split_sed(p)
                    if len(q) >= 3:
                        out.append(("s", q[1], q[2]))
                elif p.startswith("/"):
                    q = split_sed(p)
                    if len(q) >= 3 and q[2][:1] in ("i", "d", "a"):
                        out.append((q[2][0], q[1], q[2][1:].strip()))
                    elif len(q) >= 3:
                        rest = "/".join(q[2:])
                        out.append((rest[0], q[1], rest[1:].strip()))
    return out


def split_sed(p):
    q, cur, i = [], "", 0
    while i < len(p):
        if p[i] == "\\" and i + 1 < len(p):
            cur += p[i + 1]
            i += 2
            continue
        if p[i] == "/":
            q.append(cur)
            cur = ""
        else:
            cur += p[i]
        i += 1
    return q + [cur]


def inverse(ck, P, O):
    """finalize() takes back every edit that initialize() makes."""
    n = 0
    for c in O.res:
        ed = {}
        for m in ("initialize", "finalize"):
            f = P.find_method(c, m)
            ck.analysed.add(f.key)
            I = Interp(P)
            st = State()
            init = P.find_method(c, "__init__")
            other = P.find_method(c, "initialize")
            I.opaque = {other.key}
            obj = I.alloc(st, HObj("inst", c))
            _, st = I.run(init, [obj], {}, st)
            I.events, I.opaque = [], set()
            I.run(f, [obj], {}, st)
            got = []
            for e in I.events:
                if e.name.split(".")[-1] in ("check_call", "run", "call"):
                    for x in expand(I.freeze(st, e.args[0])):
                        files = [y for y in x[1:] if y[0] != "c"] \
                            if x[0] == "list" else []
                        for k in sed_edits(x):
                            got.append((k, tuple(show(y) for y in files),
                                        guards(e)))
            ed[m] = got
        for k, files, g in ed["initialize"]:
            n += 1
            if k[0] == "s":
                want = ("s", k[2], k[1])
            elif k[0] in ("i", "a"):
                want = ("d", k[2], "")
            else:
                continue
            ok = any(x[0] == want and x[1] == files and x[2] <= g
                     for x in ed["finalize"])
            ck.ob("edit-taken-back", f"{c.name}: {k[0]} {k[1][:40]}", ok,
                  f"initialize edits the sources ({k}), finalize does not "
                  f"take that back on the same files: {ed['finalize']}"[:500])
    ck.floor("edits made by initialize", n, 2)


def guards(e):
    return frozenset(show(t) + str(p) for t, p in facts_of(e)
                     if t[0] not in ("inloop", "noraise"))


def expand(t):
    """A command that may be an element of a list of commands."""
    if t[0] == "ite":
        return expand(t[2]) + expand(t[3])
    if t[0] == "elem":
        out = []
        for x in t[1][1:] if t[1][0] == "list" else []:
            out += expand(x)
        return out or [t]
    return [t]
