"""Front end for the Python part of the repository: parses every module and
resolves names (functions, classes, imports) statically."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of the analysis has vanished: the check gives no verdict."""


class Func:
    def __init__(self, mod, node, cls=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.name = node.name
        self.key = (mod.name + ":" + (cls.name + "." if cls else "")
                    + node.name)
        deco = {ast.unparse(d) for d in node.decorator_list}
        self.is_static = "staticmethod" in deco
        self.is_classmethod = "classmethod" in deco
        self.is_property = "property" in deco
        self.is_abstract = any("abstractmethod" in d for d in deco)

    @property
    def where(self):
        return f"{self.mod.rel}:{self.node.lineno} ({self.qual})"

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<Func {self.key}>"


class Class:
    def __init__(self, mod, node, outer=None):
        self.mod = mod
        self.node = node
        self.outer = outer
        self.name = (outer.name + "." if outer else "") + node.name
        self.key = mod.name + ":" + self.name
        self.methods = {}
        self.consts = {}
        self.inner = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[n.name] = Func(mod, n, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.consts[n.target.id] = n.value
            elif isinstance(n, ast.ClassDef):
                self.inner[n.name] = Class(mod, n, self)

    def __repr__(self):
        return f"<Class {self.key}>"


class Module:
    def __init__(self, prog, name, path, rel):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = rel
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src, path)
        self.funcs = {}
        self.classes = {}
        self.imports = {}   # local name -> ("mod", modname) | ("from", m, n)
        self.assigns = {}
        self._scan(self.tree.body)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(self, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = \
                            ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = ("from", n.module,
                                                        a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.assigns[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    self._scan(getattr(n, f, []) or [])
                for h in getattr(n, "handlers", []):
                    self._scan(h.body)


class Program:
    """All Python modules below ROOT/diffkemp plus bin/diffkemp."""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        for d, dirs, files in os.walk(os.path.join(root, "diffkemp")):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace("/", ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.modules[name] = Module(self, name, p, rel)
        if not self.modules:
            raise AnalysisBroken("no Python modules found below " + root)

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module vanished: " + name)
        return self.modules[name]

    def func(self, mod, qual):
        """Find a function or Class.method; AnalysisBroken if it vanished."""
        m = self.module(mod)
        if "." in qual:
            c, f = qual.rsplit(".", 1)
            k = self.cls(mod, c)
            r = self.find_method(k, f)
            if r:
                return r
        else:
            r = self.resolve(m, qual)
            if isinstance(r, Func):
                return r
        raise AnalysisBroken(f"function vanished: {mod}:{qual}")

    def cls(self, mod, name):
        m = self.module(mod)
        parts = name.split(".")
        r = self.resolve(m, parts[0])
        for p in parts[1:]:
            r = r.inner.get(p) if isinstance(r, Class) else None
        if not isinstance(r, Class):
            raise AnalysisBroken(f"class vanished: {mod}:{name}")
        return r

    def resolve(self, mod, name, depth=0):
        """Resolve a module-level name to Func | Class | ("mod", n) |
        ("assign", module, expr) | ("ext", dotted) | None."""
        if depth > 8:
            return None
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            i = mod.imports[name]
            if i[0] == "mod":
                return ("mod", i[1])
            m, n = i[1], i[2]
            if m + "." + n in self.modules:
                return ("mod", m + "." + n)
            if m in self.modules:
                return self.resolve(self.modules[m], n, depth + 1) \
                    or ("ext", m + "." + n)
            return ("ext", m + "." + n)
        if name in mod.assigns:
            return ("assign", mod, mod.assigns[name])
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.mod, b)
            if r is None and isinstance(b, ast.Name) and cls.outer:
                r = cls.outer.inner.get(b.id)
            if isinstance(r, Class):
                out.append(r)
        return out

    def resolve_expr(self, mod, e):
        """Resolve a dotted expression in module scope."""
        if isinstance(e, ast.Name):
            return self.resolve(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, Class):
                if e.attr in b.inner:
                    return b.inner[e.attr]
                return self.find_method(b, e.attr)
            if isinstance(b, tuple) and b[0] == "mod":
                full = b[1] + "." + e.attr
                if full in self.modules:
                    return ("mod", full)
                if b[1] in self.modules:
                    return self.resolve(self.modules[b[1]], e.attr)
                return ("ext", full)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def find_method(self, cls, name, seen=None):
        seen = seen or set()
        if cls.key in seen:
            return None
        seen.add(cls.key)
        if name in cls.methods:
            return cls.methods[name]
        for b in self.bases(cls):
            r = self.find_method(b, name, seen)
            if r:
                return r
        return None

    def ancestors(self, cls):
        """The class and all classes it inherits from."""
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo += self.bases(c)
        return out

    def find_const(self, cls, name):
        if name in cls.consts:
            return cls, cls.consts[name]
        for b in self.bases(cls):
            r = self.find_const(b, name)
            if r:
                return r
        return None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not cls and self.is_subclass(c, cls):
                    out.append(c)
        return out

    def is_subclass(self, c, base, depth=0):
        if c is base:
            return True
        if depth > 8:
            return False
        return any(self.is_subclass(b, base, depth + 1)
                   for b in self.bases(c))

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            stack = list(m.classes.values())
            while stack:
                c = stack.pop(0)
                yield from c.methods.values()
                stack += list(c.inner.values())

    def all_classes(self):
        for m in self.modules.values():
            stack = list(m.classes.values())
            while stack:
                c = stack.pop(0)
                yield c
                stack += list(c.inner.values())
