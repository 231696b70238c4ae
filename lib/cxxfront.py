"""Front end for the C++ part: runs cxxdump (clang) over the translation units
of the repository's current tree and gives access to the resolved syntax trees
and control flow graphs."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from lib.pyfront import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
TOOL = os.path.join(BUILD, "cxxdump")
SRC = os.path.join(VERIF, "cxx", "cxxdump.cpp")
LLVM_INC = "/usr/lib/llvm-16/include"
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"


def build_tool():
    dig = hashlib.sha256(open(SRC, "rb").read()).hexdigest()
    stamp = TOOL + ".sha"
    if os.path.exists(TOOL) and os.path.exists(stamp) and \
            open(stamp).read() == dig:
        return
    os.makedirs(BUILD, exist_ok=True)
    cmd = ["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-w",
           "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS", SRC, "-o", TOOL + f".{os.getpid()}",
           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18",
           "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build cxxdump: "
                             + r.stdout.decode()[-2000:])
    os.replace(TOOL + f".{os.getpid()}", TOOL)
    with open(stamp, "w") as f:
        f.write(dig)


class Node:
    """One node of a resolved C++ syntax tree."""
    __slots__ = ("k", "i", "l", "a", "c", "parent", "fn")

    def __init__(self, d, parent, fn):
        self.k = d["k"]
        self.i = d["i"]
        self.l = d.get("l", 0)
        self.a = d
        self.parent = parent
        self.fn = fn
        fn.nodes[self.i] = self
        self.c = [Node(x, self, fn) for x in d.get("c", [])]

    def get(self, k, dflt=None):
        return self.a.get(k, dflt)

    @property
    def name(self):
        return self.a.get("n", "")

    @property
    def callee(self):
        return self.a.get("callee", "")

    @property
    def t(self):
        return self.a.get("t", "")

    def walk(self):
        yield self
        for x in self.c:
            yield from x.walk()

    def is_call(self):
        return self.k in ("CallExpr", "CXXMemberCallExpr",
                          "CXXOperatorCallExpr")

    def base(self):
        """Object expression of a member call / member access."""
        if self.k == "CXXMemberCallExpr" and self.c and \
                self.c[0].k == "MemberExpr":
            return self.c[0].c[0] if self.c[0].c else None
        if self.k == "MemberExpr":
            return self.c[0] if self.c else None
        return None

    def args(self):
        if self.k in ("CallExpr", "CXXMemberCallExpr"):
            return self.c[1:]
        if self.k == "CXXOperatorCallExpr":
            return self.c[1:]
        if self.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.c
        return []

    @property
    def where(self):
        return f"{self.fn.rel}:{self.l} ({self.fn.q})"

    def __repr__(self):
        return f"<{self.k} {self.name or self.callee} l{self.l}>"


class Block:
    __slots__ = ("b", "e", "s", "t", "tk", "cond", "label", "noreturn",
                 "preds")

    def __init__(self, d):
        self.b = d["b"]
        self.e = d["e"]
        self.s = d["s"]
        self.t = d.get("t")
        self.tk = d.get("tk")
        self.cond = d.get("cond")
        self.label = d.get("label")
        self.noreturn = d.get("noreturn", False)
        self.preds = []


class Fn:
    def __init__(self, d, prog):
        self.d = d
        self.prog = prog
        self.q = d["q"]
        self.key = d["key"]
        self.name = d["n"]
        self.qual = self.q
        self.file = d["file"]
        self.rel = os.path.relpath(d["file"], prog.root)
        self.line = d["line"]
        self.ret = d.get("ret", "")
        self.params = d.get("params", [])
        self.cls = d.get("cls")
        self.overrides = d.get("overrides", [])
        self.virt = d.get("virt", False)
        self.nodes = {}
        self._body = None
        self.blocks = None
        self.inits = []

    @property
    def body(self):
        if self._body is None:
            self._body = Node(self.d["body"], None, self)
            self.inits = []
            for x in self.d.get("inits", []):
                # initialisers were numbered before the body
                self.inits.append((x.get("field"), x.get("base"),
                                   Node(x["e"], None, self),
                                   x.get("written", True)))
            if "cfg" in self.d:
                self.blocks = {b["b"]: Block(b)
                               for b in self.d["cfg"]["blocks"]}
                for b in self.blocks.values():
                    for s in b.s:
                        if s is not None:
                            self.blocks[s].preds.append(b.b)
        return self._body

    @property
    def entry(self):
        self.body
        return self.d["cfg"]["entry"]

    @property
    def exit(self):
        self.body
        return self.d["cfg"]["exit"]

    @property
    def where(self):
        return f"{self.rel}:{self.line} ({self.q})"

    @property
    def has_cfg(self):
        return "cfg" in self.d

    def __repr__(self):
        return f"<Fn {self.q}>"


class CxxProgram:
    def __init__(self, root, units=None):
        self.root = root
        self.funcs = {}      # key -> Fn
        self.byq = {}        # qualified name -> [Fn]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.load(units)

    def all_units(self):
        s = os.path.join(self.root, "diffkemp", "simpll")
        out = []
        for pat in ("*.cpp", "passes/*.cpp", "library/*.cpp",
                    "llvm-lib/16/*.cpp"):
            out += glob.glob(os.path.join(s, pat))
        seen, res = set(), []
        for f in sorted(out):
            r = os.path.realpath(f)
            if r not in seen and os.path.exists(r):
                seen.add(r)
                res.append(r)
        return res

    def load(self, units):
        build_tool()
        allu = self.all_units()
        if not allu:
            raise AnalysisBroken("no C++ sources found")
        if units is not None:
            sel = []
            for u in units:
                m = [x for x in allu if x.endswith("/" + u)]
                if not m:
                    raise AnalysisBroken("translation unit vanished: " + u)
                sel += m
            allu = sel
        s = os.path.join(self.root, "diffkemp", "simpll")
        hdr = hashlib.sha256(open(SRC, "rb").read())
        # the cache does not depend on where the repository lies
        real = os.path.realpath(self.root) + "/diffkemp/"
        for h in sorted(glob.glob(s + "/**/*.h", recursive=True)):
            hdr.update(os.path.relpath(h, self.root).encode())
            try:
                hdr.update(open(h, "rb").read())
            except OSError:
                pass
        cache = os.path.join(BUILD, "cache")
        os.makedirs(cache, exist_ok=True)
        with tempfile.TemporaryDirectory() as tmp:
            def one(i_u):
                i, u = i_u
                dig = hdr.copy()
                dig.update(os.path.relpath(u, self.root).encode()
                           + open(u, "rb").read())
                cfile = os.path.join(cache, dig.hexdigest() + ".json")
                if os.path.exists(cfile):
                    try:
                        return u, json.loads(open(cfile).read().replace(
                            "@ROOT@/diffkemp/", real))
                    except ValueError:
                        pass
                out = os.path.join(tmp, f"{i}.json")
                cmd = [TOOL, os.path.join(os.path.realpath(self.root),
                                          "diffkemp"), out, u, "--",
                       "-std=gnu++17", "-fno-rtti", "-w", "-isystem",
                       LLVM_INC, "-I" + s, "-I" + os.path.join(
                           s, "llvm-lib", "16"),
                       "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                       "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                       "-resource-dir", CLANG_RES]
                r = subprocess.run(cmd, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, cwd=tmp)
                if r.returncode != 0 or not os.path.exists(out):
                    raise AnalysisBroken(
                        f"clang cannot parse {u}: "
                        + r.stdout.decode(errors="replace")[-1500:])
                d = json.load(open(out))
                try:
                    old = sorted(glob.glob(cache + "/*.json"),
                                 key=os.path.getmtime)
                    for x in old[:max(0, len(old) - 400)]:
                        os.unlink(x)
                    t = cfile + f".{os.getpid()}.{i}"
                    with open(t, "w") as f:
                        f.write(open(out).read().replace(
                            real, "@ROOT@/diffkemp/"))
                    os.replace(t, cfile)
                except OSError:
                    pass
                return u, d
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, enumerate(allu)))
        for u, d in res:
            if d["errors"]:
                raise AnalysisBroken(f"{u} does not parse cleanly")
            self.units.append(os.path.relpath(u, self.root))
            for f in d["functions"]:
                if f.get("dependent") and any(
                        g["key"] == f["key"] and not g.get("dependent")
                        for g in d["functions"]):
                    continue
                if f["key"] in self.funcs and not (
                        self.funcs[f["key"]].d.get("dependent")):
                    continue
                # lambdas and instantiations may repeat: first one wins
                fn = Fn(f, self)
                self.funcs[f["key"]] = fn
            for r in d["records"]:
                self.records.setdefault(r["q"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in d["globals"]:
                if g["q"] not in self.globals or "init" in g:
                    self.globals[g["q"]] = g
        for f in self.funcs.values():
            self.byq.setdefault(f.q, []).append(f)
        # overriders
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.overrides:
                self.overriders.setdefault(o, []).append(f)

    def fn(self, q):
        """The (only) function with the given qualified name."""
        r = self.byq.get(q, [])
        if not r:
            raise AnalysisBroken("C++ function vanished: " + q)
        return r[0]

    def fns(self, q):
        r = self.byq.get(q, [])
        if not r:
            raise AnalysisBroken("C++ function vanished: " + q)
        return r

    def record(self, q):
        if q not in self.records:
            raise AnalysisBroken("C++ record vanished: " + q)
        return self.records[q]

    def targets(self, call):
        """Possible in-repo targets of a call node (virtual dispatch by
        class hierarchy)."""
        k = call.get("fkey")
        out = []
        if k in self.funcs:
            out.append(self.funcs[k])
        if call.get("virt"):
            out += self.all_overriders(k)
        return out

    def all_overriders(self, k, seen=None):
        seen = seen if seen is not None else set()
        out = []
        for f in self.overriders.get(k, []):
            if f.key not in seen:
                seen.add(f.key)
                out.append(f)
                out += self.all_overriders(f.key, seen)
        return out

    def global_node(self, q):
        g = self.globals.get(q)
        if g is None or "init" not in g:
            return None
        class Holder:
            pass
        h = Holder()
        h.nodes = {}
        h.rel = os.path.relpath(g["file"], self.root)
        h.q = q
        return Node(g["init"], None, h)


def callgraph(prog):
    """key -> set of keys (in-repo), including lambdas by containment."""
    g = {}
    for f in prog.funcs.values():
        s = g.setdefault(f.key, set())
        for n in f.body.walk():
            if n.is_call() or n.k in ("CXXConstructExpr",
                                      "CXXTemporaryObjectExpr"):
                for t in prog.targets(n):
                    s.add(t.key)
            elif n.k == "LambdaExpr" and n.get("lam") in prog.funcs:
                s.add(n.get("lam"))
            elif n.k == "DeclRefExpr" and n.get("dk") == "func":
                for t in prog.byq.get(n.get("q"), []):
                    s.add(t.key)
        for _, _, e, _ in f.inits:
            for n in e.walk():
                if n.is_call() or n.k == "CXXConstructExpr":
                    for t in prog.targets(n):
                        s.add(t.key)
    return g
