"""Which exceptions may leave a function: explicit raises, known library
calls, and "*" for library calls that may fail in unspecified ways."""
import ast
import builtins
from lib.pyfront import Func, Class

# library calls that do not fail on the values the program can pass
SAFE = {
    "os.path.join", "os.path.isfile", "os.path.isdir", "os.path.exists",
    "os.path.abspath", "os.path.relpath", "os.path.dirname", "os.path.islink",
    "os.path.basename", "os.path.normpath", "os.path.isabs", "os.path.splitext",
    "os.path.expanduser", "os.getcwd", "str", "len", "print", "isinstance",
    "dict", "list", "set", "tuple", "sorted", "range", "enumerate", "zip",
    "any", "all", "repr", "bool", "min", "max", "map", "filter", "reversed",
    "sum", "super", "type", "hasattr", "getattr", "id", "iter", "callable",
    "sys.stderr.write", "sys.stdout.write", "sys.stdout.flush", "re.compile",
    "os.environ.get", "os.environ.keys", "time.time",
    "timeit.default_timer", "default_timer", "shutil.which",
    "datetime.datetime.now", "abs", "frozenset",
}
SAFE_METHODS = {
    ".join", ".append", ".extend", ".add", ".get", ".items", ".keys",
    ".values", ".update", ".startswith", ".endswith", ".strip", ".lstrip",
    ".rstrip", ".split", ".splitlines", ".replace", ".format", ".lower",
    ".upper", ".decode", ".encode", ".copy", ".insert", ".sort", ".reverse",
    ".group", ".search", ".match", ".findall", ".setdefault", ".discard",
    ".clear", ".count", ".find", ".union", ".isalpha", ".isdigit", ".write",
    ".flush", ".index", ".remove", ".pop", ".close", ".read", ".readlines",
    ".cast", ".string", ".sub", ".finditer",
}
CPE = "CalledProcessError"
RAISES = {
    "subprocess.check_call": {CPE, "*"}, "subprocess.check_output": {CPE, "*"},
    "sys.exit": {"SystemExit"}, "exit": {"SystemExit"},
}
PARENT = {CPE: "SubprocessError", "SubprocessError": "Exception",
          "TimeoutExpired": "SubprocessError"}


class Escapes:
    def __init__(self, prog, calls, lenient=False):
        """lenient: unknown library calls are taken not to fail."""
        self.P = prog
        self.C = calls
        self.memo = {}
        self.lenient = lenient
        self.parents = dict(PARENT)
        for c in prog.all_classes():
            if c.node.bases and c.name not in PARENT:
                self.parents[c.name] = ast.unparse(
                    c.node.bases[0]).split(".")[-1]

    def ancestors(self, t):
        out = [t]
        while t in self.parents and len(out) < 12:
            t = self.parents[t]
            out.append(t)
        b = getattr(builtins, t, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            out += [x.__name__ for x in b.__mro__[1:]
                    if issubclass(x, BaseException)]
        return out

    def caught(self, t, names):
        """yes | no | maybe"""
        if names is None or "BaseException" in names:
            return "yes"
        if t == "*":
            return "maybe"
        return "yes" if any(a in names for a in self.ancestors(t)) else "no"

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {ast.unparse(x).split(".")[-1] for x in ts}

    def func(self, f):
        """{type: origin node description}"""
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = {}
        for _ in range(3):
            r = self.block(f, f.node.body)
            if set(r) == set(self.memo[f.key]):
                break
            self.memo[f.key] = r
        return self.memo[f.key]

    def block(self, f, body, active=None):
        out = {}
        for s in body:
            out.update({k: v for k, v in self.stmt(f, s, active).items()
                        if k not in out})
        return out

    def stmt(self, f, s, active=None):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Pass, ast.Global)):
            return {}
        if isinstance(s, ast.Try):
            body = self.block(f, s.body, active)
            out = {}
            for t, o in body.items():
                left = True
                for h in s.handlers:
                    if self.caught(t, self.handler_names(h)) == "yes":
                        left = False
                        break
                if left:
                    out[t] = o
            for h in s.handlers:
                names = self.handler_names(h)
                act = {t: o for t, o in body.items()
                       if self.caught(t, names) != "no"}
                if not act and names:
                    act = {}
                out.update(self.block(f, h.body, act))
            out.update(self.block(f, s.orelse, active))
            fin = self.block(f, s.finalbody, active)
            if any(isinstance(x, ast.Return) for b in s.finalbody
                   for x in ast.walk(b)):
                out = {}
            out.update(fin)
            return out
        if isinstance(s, ast.Raise):
            out = self.expr(f, s.exc) if s.exc is not None else {}
            if s.exc is None:
                return dict(active or {"*": f"{f.qual}: raise"})
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            n = ast.unparse(e).split(".")[-1]
            if isinstance(s.exc, ast.Name) and active is not None and any(
                    True for _ in [0]) and not n[:1].isupper():
                out.update(active)
            else:
                out[n] = f"{f.mod.rel}:{s.lineno} ({f.qual}) raise {n}"
            # a constructor called with wrong arguments
            return out
        out = {}
        for field in ("test", "iter", "value", "exc", "msg"):
            v = getattr(s, field, None)
            if isinstance(v, ast.expr):
                out.update(self.expr(f, v))
        if isinstance(s, (ast.Assign, ast.Delete)):
            for t in s.targets:
                out.update(self.expr(f, t))
        if isinstance(s, ast.With):
            for i in s.items:
                out.update(self.expr(f, i.context_expr))
        for field in ("body", "orelse"):
            b = getattr(s, field, None)
            if isinstance(b, list):
                out.update(self.block(f, b, active))
        return out

    def expr(self, f, e):
        out = {}
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Call):
                out.update({k: v for k, v in self.call(f, n).items()
                            if k not in out})
            stack += list(ast.iter_child_nodes(n))
        return out

    def call(self, f, n):
        out = {}
        where = f"{f.mod.rel}:{n.lineno} ({f.qual})"
        # a local function
        if isinstance(n.func, ast.Name):
            for x in ast.walk(f.node):
                if isinstance(x, ast.FunctionDef) and x is not f.node and \
                        x.name == n.func.id:
                    if ("local", id(x)) in self.memo:
                        return self.memo[("local", id(x))]
                    self.memo[("local", id(x))] = {}
                    r = self.block(f, x.body)
                    self.memo[("local", id(x))] = r
                    return r
        for t in self.C.targets(f, n):
            if isinstance(t, Func):
                for k, v in self.func(t).items():
                    out.setdefault(k, f"{where} -> {v}"
                                   if v.count("->") < 4 else v)
            elif isinstance(t, Class):
                m = self.P.find_method(t, "__init__")
                if m is not None:
                    for k, v in self.func(m).items():
                        out.setdefault(k, f"{where} -> {v}"
                                       if v.count("->") < 4 else v)
            elif t[0] == "ext":
                name = t[1]
                for k in self.ext(name):
                    out.setdefault(k, f"{where} {name}")
        return out

    def ext(self, name):
        if name in RAISES:
            r = RAISES[name]
            return r - {"*"} if self.lenient else r
        for k, r in RAISES.items():
            if k.split(".")[-1] == name and "." in k:
                return r - {"*"} if self.lenient else r
        if self.lenient or name in SAFE or name in SAFE_METHODS:
            return set()
        b = getattr(builtins, name, None)
        if isinstance(b, type):
            return set() if issubclass(b, BaseException) or name in SAFE \
                else {"*"}
        return {"*"}
