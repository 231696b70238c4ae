"""Call resolution for the Python part: light type inference plus class
hierarchy by method name."""
import ast
from lib.pyfront import Func, Class

COMMON = {"get", "add", "append", "join", "items", "keys", "values", "update",
          "pop", "remove", "extend", "insert", "write", "read", "close",
          "format", "split", "strip", "startswith", "endswith", "sort",
          "index", "count", "replace", "copy", "clear", "decode", "encode",
          "group", "match", "search", "setdefault", "rstrip", "lstrip",
          "find", "lower", "upper", "readlines", "isdigit", "discard",
          "add_argument", "parse_args", "union", "exists", "mkdir", "open",
          "next", "send", "call", "run", "wait", "poll", "kill",
          "communicate", "flush", "seek", "tell"}


class Calls:
    def __init__(self, prog):
        self.P = prog
        self.by_name = {}
        self.nested = {}
        for f in prog.all_funcs():
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f)
        self.attr_types = {}
        self.local_cache = {}
        self.import_cache = {}
        self.target_cache = {}
        for c in prog.all_classes():
            for m in c.methods.values():
                ps = m.params()
                if not ps or m.is_static:
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and \
                                    isinstance(t.value, ast.Name) and \
                                    t.value.id == ps[0]:
                                k = self.type_of_expr(m, n.value, {}, 0)
                                if k:
                                    self.attr_types.setdefault(
                                        (c.key, t.attr), set()).update(k)

    # ---- types -------------------------------------------------------
    def enclosing(self, f, name):
        """Resolve a name inside a function: local imports first."""
        imp = self.import_cache.get(f.key)
        if imp is None:
            imp = self.import_cache[f.key] = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        m = self.P.modules.get(n.module)
                        imp.setdefault(
                            a.asname or a.name,
                            self.P.resolve(m, a.name) if m is not None
                            else ("ext", f"{n.module}.{a.name}"))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        imp.setdefault(a.asname or a.name.split(".")[0],
                                       ("mod", a.name))
        if name in imp:
            return imp[name]
        return self.P.resolve(f.mod, name)

    def local_types(self, f):
        if f.key in self.local_cache:
            return self.local_cache[f.key]
        self.local_cache[f.key] = env = {}
        ps = f.params()
        if f.cls is not None and ps and not f.is_static:
            env[ps[0]] = {f.cls}
        for a in f.node.args.args:
            if a.annotation is not None:
                r = self.P.resolve_expr(f.mod, a.annotation)
                if isinstance(r, Class):
                    env.setdefault(a.arg, set()).add(r)
        for _ in range(2):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            k = self.type_of_expr(f, n.value, env, 0)
                            if k:
                                env.setdefault(t.id, set()).update(k)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if isinstance(i.optional_vars, ast.Name):
                            k = self.type_of_expr(f, i.context_expr, env, 0)
                            if k:
                                env.setdefault(i.optional_vars.id,
                                               set()).update(k)
        return env

    def type_of_expr(self, f, e, env, depth):
        """Set of repository classes an expression may be an instance of."""
        if depth > 6:
            return set()
        if isinstance(e, ast.Name):
            return set(env.get(e.id, ()))
        if isinstance(e, ast.Call):
            r = self.resolve_name(f, e.func, env, depth)
            out = set()
            for x in r:
                if isinstance(x, Class):
                    out.add(x)
                elif isinstance(x, Func):
                    out |= self.return_type(x, depth + 1)
            return out
        if isinstance(e, ast.Attribute):
            out = set()
            for c in self.type_of_expr(f, e.value, env, depth + 1):
                out |= self.attr_type(c, e.attr)
            return out
        if isinstance(e, (ast.IfExp,)):
            return self.type_of_expr(f, e.body, env, depth + 1) | \
                self.type_of_expr(f, e.orelse, env, depth + 1)
        return set()

    def attr_type(self, c, attr):
        out = set(self.attr_types.get((c.key, attr), ()))
        for b in self.P.bases(c):
            out |= self.attr_type(b, attr)
        return out

    def return_type(self, f, depth=0):
        if depth > 4:
            return set()
        if f.name == "__enter__" or (f.is_classmethod and False):
            return {f.cls}
        out = set()
        env = {}
        ps = f.params()
        if f.cls is not None and ps and not f.is_static:
            env[ps[0]] = {f.cls}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        env.setdefault(t.id, set()).update(
                            self.type_of_expr(f, n.value, env, depth + 1))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                if isinstance(n.value, ast.Call) and \
                        isinstance(n.value.func, ast.Name) and \
                        f.is_classmethod and n.value.func.id == ps[0]:
                    out.add(f.cls)
                else:
                    out |= self.type_of_expr(f, n.value, env, depth + 1)
        return out

    # ---- calls ---------------------------------------------------------
    def resolve_name(self, f, fn, env, depth=0):
        """Targets of a called expression: Func, Class or ('ext', name)."""
        if isinstance(fn, ast.Name):
            if f.cls is not None and f.is_classmethod and \
                    f.params() and fn.id == f.params()[0]:
                return [f.cls]
            r = self.enclosing(f, fn.id)
            if r is None:
                return [("ext", fn.id)]
            if isinstance(r, tuple) and r[0] == "assign":
                return []
            return [r] if not (isinstance(r, tuple) and r[0] == "mod") else []
        if isinstance(fn, ast.Attribute):
            # super().m()
            if isinstance(fn.value, ast.Call) and \
                    isinstance(fn.value.func, ast.Name) and \
                    fn.value.func.id == "super" and f.cls is not None:
                for b in self.P.bases(f.cls):
                    m = self.P.find_method(b, fn.attr)
                    if m:
                        return [m]
                return []
            base = fn.value
            if isinstance(base, ast.Name) and base.id not in env:
                r = self.enclosing(f, base.id)
                if isinstance(r, tuple) and r[0] in ("mod", "ext"):
                    full = r[1] + "." + fn.attr
                    if r[0] == "mod" and r[1] in self.P.modules:
                        x = self.P.resolve(self.P.modules[r[1]], fn.attr)
                        return [x] if x is not None else []
                    return [("ext", full)]
                if isinstance(r, Class):
                    if fn.attr in r.inner:
                        return [r.inner[fn.attr]]
                    m = self.P.find_method(r, fn.attr)
                    return [m] if m else []
            r = self.P.resolve_expr(f.mod, fn)
            if isinstance(r, (Func, Class)):
                return [r]
            if isinstance(r, tuple) and r[0] == "ext":
                return [r]
            ts = self.type_of_expr(f, base, env, depth + 1)
            out = []
            for c in ts:
                m = self.P.find_method(c, fn.attr)
                if m:
                    out.append(m)
                for s in self.P.subclasses(c):
                    if fn.attr in s.methods:
                        out.append(s.methods[fn.attr])
            if out:
                return out
            if ts:
                return [("ext", "." + fn.attr)]
            if fn.attr not in COMMON and fn.attr in self.by_name:
                return list(self.by_name[fn.attr])
            return [("ext", "." + fn.attr)]
        return []

    def targets(self, f, call):
        """Resolved targets of a call node inside of f."""
        k = (f.key, id(call))
        if k not in self.target_cache:
            self.target_cache[k] = (call, self.resolve_name(
                f, call.func, self.local_types(f)))
        return self.target_cache[k][1]

    def funcs(self, f, call):
        """Repository functions possibly executed by the call."""
        out = []
        for t in self.targets(f, call):
            if isinstance(t, Class):
                m = self.P.find_method(t, "__init__")
                if m:
                    out.append(m)
            elif isinstance(t, Func):
                out.append(t)
        return out

    def reachable(self, roots):
        seen = {}
        todo = list(roots)
        while todo:
            f = todo.pop()
            if f.key in seen:
                continue
            seen[f.key] = f
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    todo += self.funcs(f, n)
        return seen


def bind_args(g, call, bound):
    """[(parameter name, argument expression)] of a call of g; bound: the
    first parameter is supplied by the receiver."""
    ps = g.params()
    off = 1 if bound else 0
    out = []
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            break
        if i + off < len(ps):
            out.append((ps[i + off], a))
    kw = set(ps) | {x.arg for x in g.node.args.kwonlyargs}
    for k in call.keywords:
        if k.arg in kw:
            out.append((k.arg, k.value))
    return out


def is_bound(g, call):
    if g.cls is None or g.is_static:
        return False
    if g.is_classmethod or g.name == "__init__":
        return True
    # Class.method(obj, ...) is unbound
    return not (isinstance(call.func, ast.Attribute) and
                isinstance(call.func.value, ast.Name) and
                call.func.value.id == g.cls.name.split(".")[-1])
