"""Shared model of how the configuration travels: command line -> Config ->
engine in the process (FFI) or engine as a binary -> C++ Config."""
from lib.pyfront import Program, AnalysisBroken
from lib.interp import (Interp, HObj, State, C, show, subterms, MISSING, ITE,
                        TRUE, FALSE, NOT, canon)
from lib.cxxfront import CxxProgram
from lib.c2py import CInterp
from lib.report import REPO


def ffi_new(I, st, fn, args, kw, n):
    if fn[0] not in ("attr", "ext") or not args or args[0][0] != "c":
        return None
    t = args[0][2]
    if not isinstance(t, str):
        return None
    if t.startswith("struct "):
        return I.alloc(st, HObj("inst", t))
    if len(args) > 1:
        return args[1]
    return None


def unfold_config(config_only=False):
    """Interpret Config.from_args on symbolic arguments and run_simpll in the
    resulting state."""
    P = Program(REPO)
    I = Interp(P, hooks={".new": ffi_new},
               opaque={"Snapshot.load_from_dir",
                       "CustomPatternConfig.create_from_file", "LlvmModule",
                       "ComparisonGraph"})
    ccls = P.cls("diffkemp.config", "Config")
    v, st = I.run(P.func("diffkemp.config", "Config.from_args"),
                  [("class", ccls), ("sym", "args")])
    return P, I, v, st


class Wiring:
    def __init__(self):
        P, I, cfg, st = unfold_config()
        self.P, self.I = P, I
        if cfg[0] != "ref":
            raise AnalysisBroken("Config.from_args does not yield a Config")
        self.cfg, self.st = cfg, st
        o = st.heap[cfg[1]]
        self.fields = {k: I.freeze(st, v) for k, v in o.d.items()}
        bp = o.d.get("builtin_patterns", MISSING)
        if bp[0] != "ref":
            raise AnalysisBroken("no built-in pattern configuration object")
        self.settings = None
        for k, v in st.heap[bp[1]].d.items():
            so = I.obj(st, v)
            if so is not None and so.kind == "dict":
                self.settings = {kk[2]: vv for kk, vv in so.d.items()}
        if self.settings is None:
            raise AnalysisBroken("no built-in pattern settings found")
        I.events.clear()
        run = P.func("diffkemp.simpll.simpll", "run_simpll")
        I.run(run, kwargs={"config": cfg}, st=st)
        self.events = I.events
        self.binary = None
        self.ffi = []
        self.preproc = []
        for e in self.events:
            last = e.name.split(".")[-1]
            if last in ("runSimpLL", "parseAndRunSimpLL",
                        "cloneAndRunSimpLL"):
                self.ffi.append(e)
            elif last == "preprocessModuleC":
                self.preproc.append(e)
            elif last in ("check_output", "check_call", "Popen", "run",
                          "call") and e.args and e.args[0][0] == "list":
                if self.mentions_simpll(e.args[0]):
                    self.binary = e
        if self.binary is None:
            raise AnalysisBroken("call of the engine binary not found")
        if len(self.ffi) < 1:
            raise AnalysisBroken("in-process call of the engine not found")
        self.cli()
        self.cpp()

    def mentions_simpll(self, t):
        return any(x[0] == "c" and isinstance(x[2], str)
                   and "diffkemp-simpll" in x[2]
                   for x in subterms(t) if len(x) == 3)

    def cli(self):
        P = self.P
        I = Interp(P)
        I.run(P.func("diffkemp.cli", "make_argument_parser"))
        self.compare_opts = []
        for e in I.events:
            if e.name == ".add_argument" and any(
                    x == C("compare") for x in subterms(e.fn)):
                names = [a[2] for a in e.args if a[0] == "c"]
                dest = e.kwargs.get("dest")
                if dest is not None and dest[0] == "c":
                    dest = dest[2]
                else:
                    longs = [x for x in names if x.startswith("--")]
                    dest = (longs or names)[0].lstrip("-").replace("-", "_")
                self.compare_opts.append((names, dest, e))
        self.global_opts = []
        for e in I.events:
            if e.name == ".add_argument" and not any(
                    x[0] == "attr" and x[2] == "add_parser"
                    for x in subterms(e.fn) if len(x) == 3):
                names = [a[2] for a in e.args if a[0] == "c"]
                longs = [x for x in names if x.startswith("--")]
                self.global_opts.append(
                    (names, (longs or names)[0].lstrip("-").replace("-", "_"),
                     e))
        if len(self.compare_opts) < 10:
            raise AnalysisBroken("options of the compare command not found")

    def cpp(self):
        X = CxxProgram(REPO, ["FFI.cpp", "Config.cpp", "SimpLL.cpp"])
        self.X = X
        opaque = {"processAndCompare", "reportOutput", "reportOutputToString",
                  "preprocessModule", "CloneModule"}
        self.cffi = {}
        for name in ("runSimpLL", "parseAndRunSimpLL"):
            I = CInterp(X, opaque=opaque)
            I.run_c(X.fn(name))
            c = [e for e in I.events if e.name == "processAndCompare"]
            if len(c) != 1:
                raise AnalysisBroken(name + " does not run the comparison")
            self.cffi[name] = (self.config_fields(c[0]), I, c[0])
        I = CInterp(X, opaque=opaque)
        I.run_c(X.fn("preprocessModuleC"))
        c = [e for e in I.events if e.name == "preprocessModule"]
        if len(c) != 1:
            raise AnalysisBroken("preprocessModuleC vanished")
        self.cpre = c[0]
        I = CInterp(X, opaque=opaque)
        I.run_c(X.fn("main"))
        c = [e for e in I.events if e.name == "processAndCompare"]
        if len(c) != 1:
            raise AnalysisBroken("main does not run the comparison")
        self.cbin = (self.config_fields(c[0]), I, c[0])
        # command line options of the binary: variable -> flag name
        self.flags = {}
        for q, g in X.globals.items():
            if "cl::opt<" in g["t"] or "cl::list<" in g["t"]:
                nd = X.global_node(q)
                if nd is None:
                    continue
                s = [c for c in nd.c if c.k == "StringLiteral"]
                nm = s[0].get("v") if s else None
                init = None
                for c in nd.walk():
                    if c.is_call() and c.callee == "llvm::cl::init":
                        init = c.c[1].get("v") if c.c[1:] else None
                self.flags[q] = (nm, init, g["t"])

    def config_fields(self, ev):
        t = ev.args[0]
        if t[0] != "obj" or not t[1].endswith("Config"):
            raise AnalysisBroken("comparison does not get a Config")
        return dict(t[2])


def evalt(t, atom):
    """Evaluate a boolean term given truth values of its atoms; `atom` maps a
    term to True/False/None (None: look inside)."""
    r = atom(t)
    if r is not None:
        return r
    k = t[0]
    if k == "c":
        return bool(t[2])
    if k == "op":
        if t[1] == "not":
            return not evalt(t[2], atom)
        if t[1] == "and":
            return all(evalt(x, atom) for x in t[2:])
        if t[1] == "or":
            return any(evalt(x, atom) for x in t[2:])
        if t[1] == "bool":
            return evalt(t[2], atom)
        if t[1] == "==" and t[3][0] == "c" and isinstance(t[3][2], bool):
            return evalt(t[2], atom) == t[3][2]
    if k == "ite":
        return evalt(t[2] if evalt(t[1], atom) else t[3], atom)
    raise KeyError(t)


def atoms_of(t):
    """Atomic conditions of a boolean/gated term."""
    if t[0] == "c":
        return set()
    if t[0] == "op" and t[1] in ("not", "and", "or", "bool"):
        return set().union(*[atoms_of(x) for x in t[2:]])
    if t[0] == "ite":
        return atoms_of(t[1]) | atoms_of(t[2]) | atoms_of(t[3])
    return {t}
