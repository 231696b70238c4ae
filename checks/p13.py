"""P13: results are reused only when they are final and of the same function."""
import itertools
import os
from lib.report import Check, REPO
from lib.pyfront import Program, AnalysisBroken
from lib.interp import HObj, Interp, State, C, NONE, TRUE, FALSE, show
from lib.terms import leaves
from checks.p17 import Build, CACHE, FD, plain

RULE = (
    "Histories of two and three comparisons are run by abstract "
    "interpretation of the comparing code (functions_diff, run_simpll, the "
    "graph and the cache of functions) with a concrete engine report for "
    "each run. For every kind of earlier result, source file, module and "
    "caller, a comparison that was not carried out must have had a final "
    "result of the very same pair of functions; the result used is the one "
    "of the last comparison of that pair, or a final one instead of one "
    "that is not; only such pairs are given to the engine as known.")

FINAL = ("equal", "not-equal")
KIND = {"equal": "EQUAL", "not-equal": "NOT_EQUAL", "unknown": "UNKNOWN",
        "assumed-equal": "ASSUMED_EQUAL"}


def fun(name, result, files=("a.c", "a.c"), calls=(), weak=(), names=None):
    """Result of one pair of functions in a report of the engine."""
    sides = []
    for s, f in enumerate(files):
        d = {"function": (names or (name, name))[s], "line": 3,
             "calls": [{"function": c, "file": "a.c", "line": 4,
                        "weak": c in weak} for c in calls], "file": f}
        if not calls:
            del d["calls"]
        sides.append(d)
    return {"result": result, "first": sides[0], "second": sides[1]}


def paths(I, st, fn, a, k, n):
    name = fn[1].split(".")[-1] if fn[0] == "ext" else None
    if name and a and all(x[0] == "c" for x in a):
        return C(getattr(os.path, name)(*[x[2] for x in a]))
    if name == "commonprefix" and a and a[0][0] in ("ref", "list", "tup"):
        xs = I.freeze(st, a[0])[1:]
        if all(x[0] == "c" for x in xs):
            return C(os.path.commonprefix([x[2] for x in xs]))
    return None


PATHS = {f"os.path.{x}": paths for x in (
    "join", "relpath", "commonprefix", "normpath", "abspath", "basename",
    "dirname", "splitext")}


class History:
    """Comparisons run one after another."""

    def __init__(self, P, B, real_pairs=False):
        self.P, self.B = P, B
        self.reports = []
        self.extra = {}
        self.runs = []          # (name compared, cached pairs at that time)
        self.used = []          # graph the pairs were taken from
        self.files = {}         # cache files
        self.I = I = Interp(P, hooks={
            **PATHS,
            "yaml.safe_load": self.load, "open": self.open,
            ".write": self.write, "os.remove": self.remove,
            "os.unlink": self.remove,
            "subprocess.check_output": self.engine,
            "check_output": self.engine,
            "ComparisonGraph.graph_to_fun_pair_list": self.pairs,
            "os.path.isfile": lambda *a: TRUE,
            "os.path.exists": lambda *a: TRUE},
            opaque={"_link_symbol_def", "LlvmModule", "get_opt_command",
                    "get_simpll_build_dir", "syntax_diff"})
        self.real_pairs = real_pairs
        if real_pairs:
            del I.hooks["ComparisonGraph.graph_to_fun_pair_list"]
        I.no_exceptions = True
        I.record = False
        B.k(I, "NONE")
        self.st = State()
        self.cfg = cfg = ("sym", "config")
        for a, v in (("semdiff_tool", NONE), ("full_diff", FALSE),
                     ("use_ffi", FALSE), ("verbosity", C(0)),
                     ("output_llvm_ir", FALSE), ("extended_stat", FALSE),
                     ("print_asm_diffs", FALSE),
                     ("custom_pattern_config", NONE)):
            self.st.ostore[(cfg, a)] = v
        pat = ("sym", "patterns")
        self.st.ostore[(cfg, "builtin_patterns")] = pat
        self.st.ostore[(pat, "settings")] = I.alloc(
            self.st, HObj("dict", d={}))
        self.graph = NONE
        self.cache = B.new(I, self.st, P.cls(CACHE, "SimpLLCache"),
                           C("/cache"))
        self.F = P.func(FD, "functions_diff")

    # stand-ins
    def ydict(self, st, v):
        I = self.I
        if isinstance(v, dict):
            return I.alloc(st, HObj("dict", d={
                C(k): self.ydict(st, x) for k, x in v.items()}))
        if isinstance(v, (list, tuple)):
            return I.new_list(st, [self.ydict(st, x) for x in v])
        return C(v)

    def engine(self, I, st, fn, a, k, n):
        known = {f: list(x) for f, x in self.files.items()}
        self.runs.append((self.now, known, I.freeze(st, a[0])))
        return ("sym", "output")

    def load(self, I, st, fn, a, k, n):
        return self.ydict(st, self.reports.pop(0))

    def open(self, I, st, fn, a, k, n):
        if a and a[0][0] == "c":
            mode = a[1][2] if len(a) > 1 and a[1][0] == "c" else "r"
            f = I.alloc(st, HObj("dict", d={C("@file"): a[0]}))
            if "w" in mode:
                self.files[a[0][2]] = []
            elif "a" in mode:
                self.files.setdefault(a[0][2], [])
            return f
        return None

    def write(self, I, st, fn, a, k, n):
        o = I.obj(st, fn[1])
        if o is not None and o.kind == "dict" and C("@file") in o.d:
            if a[0][0] != "c":
                raise AnalysisBroken("text written to a cache file: " +
                                     show(a[0])[:200])
            self.files[o.d[C("@file")][2]].append(a[0][2])
            return NONE
        return None

    def remove(self, I, st, fn, a, k, n):
        if a[0][0] == "c":
            self.files.pop(a[0][2], None)
        return NONE

    def pairs(self, I, st, fn, a, k, n):
        g = fn[1] if fn[0] == "bound" else a[0]
        self.used.append(self.vertices(st, g))
        return ("tup", I.new_list(st, []), ("sym", "bl"), ("sym", "br"))

    def vertices(self, st, g):
        """{name: verdict} of a graph."""
        fr = self.I.freeze(st, g)
        if fr[0] != "obj":
            raise AnalysisBroken("graph not understood: " + show(fr)[:200])
        vs = dict(fr[2]).get("vertices")
        if vs is None or vs[0] != "dict":
            raise AnalysisBroken("vertices not understood: " +
                                 show(vs or NONE)[:200])
        out = {}
        for kv in vs[1:]:
            if kv[0] != "kv" or kv[2][0] != "obj":
                raise AnalysisBroken("vertex not understood: " +
                                     show(kv)[:200])
            d = dict(kv[2][2])
            r = d["result"]
            out[plain(kv[1])] = {
                "result": r[2] if r[0] == "enum" else show(r)[:80],
                "cachable": plain(d["cachable"]),
                "files": plain(d["files"])}
        return out

    def module(self, name):
        m = ("sym", f"module {name}")
        self.st.ostore[(m, "llvm")] = C(name)
        return m

    def compare(self, name, mods, *reports):
        """Compare one function; reports of the engine should it be run."""
        self.now = name
        self.reports = [{"function-results": list(r)} for r in reports]
        self.reports[0].update(self.extra)
        before = len(self.runs)
        self.used = []
        kw = {"mod_first": self.module(mods[0]),
              "mod_second": self.module(mods[1]),
              "fun_first": C(name), "fun_second": C(name),
              "glob_var": NONE, "config": self.cfg,
              "prev_result_graph": self.graph, "function_cache": self.cache,
              "module_cache": NONE, "modules_to_cache": NONE}
        I = self.I
        orig = self.st
        v, self.st = I.run(self.F, [], kw, orig)
        o = I.obj(self.st, v)
        self.result = v
        if o is None:
            raise AnalysisBroken("no result of functions_diff: " +
                                 show(v)[:200])
        self.graph = o.d["graph"]
        self.verdict = o.d["kind"]
        if self.real_pairs:
            return self.runs[before:], None
        if len(self.used) != 1:
            raise AnalysisBroken(f"pairs are taken {len(self.used)} times")
        return self.runs[before:], self.used[-1]

    def known(self, files):
        out = []
        for f, texts in files.items():
            for x in "".join(texts).split("\n"):
                if x:
                    out.append((f, tuple(x.split(":"))))
        return out


MODS = ("old/a.ll", "new/a.ll")
OTHER = ("old/b.ll", "new/b.ll")


def of_same_function(ck, P, B):
    """Second comparison of a name that already has a result."""
    n = 0
    mods = [MODS, OTHER, (MODS[0], OTHER[1]), (OTHER[0], MODS[1])]
    for k1, k2 in itertools.product(KIND, repeat=2):
        for f1 in (("a.c", "a.c"), ("a.c", "z.c"), ("a.h", "a.h"),
                   ("", ""), ("a.c", "")):
            for m2 in mods:
                for f2 in {f1, ("b.c", "b.c"), (f1[0], "b.c")}:
                    if m2 == MODS and f2 != f1:
                        continue
                    n += 1
                    second(ck, P, B, k1, k2, f1, f2, m2)
    ck.floor("histories", n, 100)


def second(ck, P, B, k1, k2, f1, f2, m2):
    H = History(P, B)
    H.compare("f", MODS, [fun("f", "not-equal", calls=["g"]),
                          fun("g", k1, f1)])
    again = [fun("g", k2, f2)]
    runs, used = H.compare("g", m2, again, again)
    ck.analysed |= H.I.analysed
    same = m2 == MODS
    what = (f"g is {k1} in {f1} of {MODS}; then g, {k2} in {f2} of {m2}, "
            "is compared")
    got = used.get("g", {}).get("result")
    if not runs:
        ck.ob("reused-of-same-module", "functions_diff", same,
              f"{what}: the earlier result is used", H.F.where)
        ck.ob("reused-is-final", "functions_diff", k1 != "assumed-equal",
              f"{what}: the earlier result is used", H.F.where)
        ck.ob("reused-of-same-file", "functions_diff", f1[0] == f1[1],
              f"{what}: the earlier result is used", H.F.where)
        ck.ob("reused-result", "functions_diff", got == KIND[k1],
              f"{what}: the result used is {got}", H.F.where)
        return
    differs = any(a and b and a != b for a, b in zip(f1, f2))
    if differs:
        ck.ob("last-result-used", "functions of distinct files",
              got == KIND[k2], f"{what}: the result used is {got}",
              H.F.where)
    elif k2 not in FINAL:
        ck.ob("last-result-used", "known result", got == KIND[
            k1 if k1 in FINAL else k2] or got == KIND[k2],
            f"{what}: the result used is {got}", H.F.where)
        if k1 in FINAL and k2 == "unknown":
            ck.ob("known-result-kept", "functions_diff", got == KIND[k1],
                  f"{what}: the result used is {got}", H.F.where)
    else:
        ck.ob("last-result-used", "final result", got == KIND[k2],
              f"{what}: the result used is {got}", H.F.where)


def of_callees(ck, P, B):
    """A function compared later calls one that already has a result."""
    for k1, k2 in itertools.product(KIND, repeat=2):
        for f1, f2 in ((("a.c", "a.c"), ("b.c", "b.c")),
                       (("a.h", "a.h"), ("a.h", "a.h")),
                       (("a.c", "a.c"), ("a.c", "b.c")),
                       (("a.c", "b.c"), ("a.c", "c.c"))):
            H = History(P, B)
            H.compare("f", MODS, [fun("f", "equal", calls=["g"]),
                                  fun("g", k1, f1)])
            rep = [fun("f2", "equal", f2, calls=["g"]), fun("g", k2, f2)]
            runs, used = H.compare("f2", OTHER, rep, rep)
            got = used.get("g", {}).get("result")
            ok = got == KIND[k2] or k2 not in FINAL and f1 == f2 and \
                got == KIND[k1]
            ck.ob("callee-of-same-function", "functions_diff",
                  bool(runs) and ok, f"f calls g, {k1} in {f1}; f2 of "
                  f"another module calls g, {k2} in {f2}: the result used "
                  f"for g is {got}", H.F.where)


def weak(ck, P, B):
    """A result of a variant of a function is not one of the function."""
    for k1, k2 in itertools.product(FINAL, repeat=2):
        H = History(P, B)
        H.compare("f", MODS, [fun("f", "equal", calls=["g.void"]),
                              fun("g.void", k1)])
        runs, used = H.compare("g", MODS, [fun("g", k2)], [fun("g", k2)])
        got = used.get("g", {}).get("result")
        if k1 == "equal":
            ck.ob("variant-is-not-final", "functions_diff", bool(runs) and
                  got == KIND[k2], f"g with an unused result is {k1}, g is "
                  f"{k2}: g {'is' if runs else 'is not'} compared, the "
                  f"result used is {got}", H.F.where)


def linked(ck, P, B):
    """Results from before a missing definition was found are dropped."""
    for k1, k2 in itertools.product(FINAL, repeat=2):
        for prev in (False, True):
            for side in ("first", "second"):
                H = History(P, B)
                if prev:
                    H.compare("e", MODS, [fun("e", "equal")])
                again = []

                def link(I, st, fn, a, k, n):
                    again.append(1)
                    return C(len(again) == 1)
                H.I.opaque.discard("_link_symbol_def")
                H.I.hooks["_link_symbol_def"] = link
                r1 = [fun("f", k1, calls=["d"]),
                      fun("d", "assumed-equal" if k1 == "equal" else k1)]
                r2 = [fun("f", k2, calls=["d"]), fun("d", k2)]
                missing = [{side: "d"}]
                H.extra = {"missing-defs": missing}
                runs, used = H.compare("f", MODS, r1, r2, r2)
                got = [used.get(x, {}).get("result") for x in "fd"]
                ck.ob("linked-is-compared-again", "functions_diff",
                      len(runs) > 1 and got == [KIND[k2]] * 2,
                      f"a definition found for d changes {k1} to {k2}: the "
                      f"results used after {len(runs)} runs are {got}",
                      H.F.where)


def known_to_engine(ck, P, B):
    """Pairs the engine may skip."""
    n = 0
    files = [("a.c", "a.c"), ("a.c", "z.c"), ("a.h", "a.h"), ("", "a.c"),
             ("a.c", "")]
    for k, f in itertools.product(KIND, files):
        for ck2, cf in itertools.product(("equal", "assumed-equal"),
                                         (("b.c", "b.c"), ("b.h", "b.h"))):
            H = History(P, B)
            H.compare("e", MODS, [fun("e", "equal")])
            H.compare("f", MODS, [fun("f", "equal", calls=["g"]),
                                  fun("g", k, f, calls=["x"]),
                                  fun("x", ck2, cf)])
            # nothing else knows about g
            pairs = [p for _, p in H.known(H.files)]
            n += 1
            head = f[0] and f[0].endswith(".h")
            final = k in FINAL and all(f) and not (
                head and ck2 == "assumed-equal" and cf[0].endswith(".c"))
            ck.ob("known-is-final", "SimpLLCache" + (
                " (header)" if head else ""), final or ("g", "g") not in
                pairs, f"g, {k} in {f}, calling x, {ck2} in {cf}, is given "
                "to the engine as known", H.F.where)
            for p in pairs:
                ck.ob("known-was-compared", "SimpLLCache", p in {
                    (v, v) for v in "efgx"}, f"pair {p} is given to the "
                    "engine as known but was not compared", H.F.where)
    ck.floor("known pairs", n, 50)
    # forgotten together with the results
    for f2 in (("b.c", "b.c"), ("a.c", "b.c")):
        H = History(P, B)
        H.compare("e", MODS, [fun("e", "equal")])
        H.compare("f", MODS, [fun("f", "equal", calls=["g"]),
                              fun("g", "equal")])
        rep = [fun("f2", "equal", f2, calls=["g"]),
               fun("g", "not-equal", f2)]
        runs, used = H.compare("f2", OTHER, rep, rep)
        pairs = [p for _, p in H.known(runs[-1][1])]
        ck.ob("known-belongs-to-results", "functions_diff",
              all(p[0] in used for p in pairs),
              f"pairs {pairs} are given to the engine as known, the results "
              f"used are of {sorted(used)}", H.F.where)


def of_variables(ck, P, B):
    """Functions compared with respect to a variable."""
    f = P.func("diffkemp.diffkemp", "compare")
    ck.analysed.add(f.key)
    n = 0
    for vs in itertools.product((None, "v", "w"), repeat=3):
        calls = []

        def diff(I, st, fn, a, kw, node):
            names = [x.arg for x in P.func(FD, "functions_diff")
                     .node.args.args]
            d = dict(zip(names, a))
            d.update(kw)
            g = ("sym", f"graph{len(calls)}")
            calls.append((d, g))
            return B.result(I, st, "EQUAL", "compared", graph=g)
        cfg, snap = ("sym", "config"), ("sym", "snap")
        I = Interp(P, hooks={"functions_diff": diff,
                             "Config.from_args": lambda *a: cfg},
                   opaque={"LlvmModule", "YamlOutput", "SimpLLCache",
                           "default_output_dir", "_get_modules_to_cache",
                           "Result.report_stat",
                           "print_syntax_diff"})
        I.no_exceptions = True
        B.k(I, "NONE")
        st = State()
        funs = I.alloc(st, HObj("dict", d={}))
        for i, v in enumerate(vs):
            d = ("sym", f"desc{i}")
            st.ostore[(d, "glob_var")] = C(v)
            st.ostore[(d, "mod")] = ("sym", "module")
            I.obj(st, funs).d[C(f"f{i}")] = d
        group = ("sym", "group")
        st.ostore[(group, "functions")] = funs
        st.ostore[(cfg, "snapshot_first")] = snap
        st.ostore[(snap, "fun_groups")] = I.alloc(
            st, HObj("dict", d={NONE: group}))
        I.run(f, [("sym", "args")], {}, st)
        if len(calls) != len(vs):
            raise AnalysisBroken(f"{len(calls)} comparisons of {len(vs)} "
                                 "functions")
        n += 1
        shared = {}
        for i, ((d, g), v) in enumerate(zip(calls, vs)):
            prev = {x for x, _ in leaves(d.get("prev_result_graph", NONE))}
            cache = {x for x, _ in leaves(d.get("function_cache", NONE))}
            for j in range(i):
                other = calls[j]
                if vs[j] == v:
                    continue
                ck.ob("graph-of-same-variable", "compare",
                      other[1] not in prev, f"results of a function compared "
                      f"w.r.t. {vs[j]} are used for one compared w.r.t. "
                      f"{v}", f.where)
                ck.ob("cache-of-same-variable", "compare",
                      not (cache - {NONE}) & {x for x, _ in leaves(
                          other[0].get("function_cache", NONE))} - {NONE},
                      f"functions compared w.r.t. {vs[j]} and w.r.t. {v} "
                      "share the known pairs", f.where)
    ck.floor("variables", n, 20)


def cached_modules(ck, P):
    """A comparison does not change modules used by the next one."""
    f = P.func("diffkemp.simpll.simpll", "run_simpll")
    I = Interp(P, opaque={"LlvmModule", "get_opt_command",
                          "get_simpll_build_dir", "SimpLLModule",
                          "ComparisonGraph"})
    st = State()
    cfg = ("sym", "config")
    st.ostore[(cfg, "use_ffi")] = TRUE
    I.run(f, [], {"config": cfg}, st)
    ck.analysed |= I.analysed
    n = 0
    for e in I.events:
        if e.name.split(".")[-1] == "runSimpLL":
            n += 1
            forked = any("fork" in show(c) and p for c, p in e.facts)
            ck.ob("cached-module-unchanged", "run_simpll", forked,
                  "the engine changes modules kept for other comparisons",
                  f.where)
    if not n:
        # no engine run on a loaded module at all
        ck.ob("cached-module-unchanged", "run_simpll", not any(
            "module_cache" in show(a) for e in I.events
            if "RunSimpLL" in e.name for a in e.args),
            "kept modules are given to the engine", f.where)


def run():
    ck = Check("P13", RULE)
    ck.assumptions += [
        "histories of up to three comparisons, with one function and one "
        "callee each, stand for longer ones",
        "a function in a header that the engine was told to skip has the "
        "result it had in another module"]
    P = Program(REPO)
    B = Build(P)
    of_same_function(ck, P, B)
    of_callees(ck, P, B)
    weak(ck, P, B)
    linked(ck, P, B)
    known_to_engine(ck, P, B)
    of_variables(ck, P, B)
    cached_modules(ck, P)
    return ck
