"""P14: one symbol without source does not stop or spoil the others."""
import itertools
import os
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken, Program
from lib.pycall import Calls
from lib.pyexc import Escapes
from lib.interp import (C, HObj, Interp, NONE, State, TRUE, FALSE, show)

MAIN = "diffkemp.diffkemp"
TREE = "diffkemp.llvm_ir.source_tree"
KTREE = "diffkemp.llvm_ir.kernel_source_tree"
KERNEL = "diffkemp.llvm_ir.kernel_llvm_source_builder"
FINDER = "diffkemp.llvm_ir.llvm_source_finder"
PATTERN = "k.*"
ERRORS = ("SourceNotFoundException", "BuildException", "CalledProcessError",
          "ValueError")


# -- no failure leaves the loop over the symbols
class PerSymbol(Escapes):
    """Failures which may concern one symbol only: what is raised by
    functions without parameters concerns all of them."""

    def func(self, f):
        a = f.node.args
        n = len(a.posonlyargs + a.args + a.kwonlyargs)
        if f.qual.split(".")[-1] != "__init__" and not a.vararg and (
                n == 0 or n == 1 and a.args and a.args[0].arg == "self"):
            return {}
        return super().func(f)


def escapes(ck, P, f):
    X = PerSymbol(P, Calls(P), lenient=True)
    r = X.func(f)
    for e in ERRORS:
        ck.ob("stops", f"{f.qual}: {e}", e not in r, f"{f.qual}: one symbol "
              f"may stop the creation of the whole snapshot by {e}: "
              f"{r.get(e, '')}", f.where)


class World:
    """Abstract snapshot creation in which chosen symbols fail."""

    def __init__(self, P, hooks, cls):
        def one(k):
            def h(I, st, fn, a, kw, n):
                self.called.add(k)
                return self.answer(I, st, hooks[k], k, a, kw)
            return h
        self.called = set()
        self.names = {}
        self.mods = {}
        self.mod = P.cls("diffkemp.llvm_ir.llvm_module", "LlvmModule")
        self.exc = {q.split(".")[-1]: P.cls(m, q) for m, q in (
            (FINDER, "SourceNotFoundException"), (KERNEL, "BuildException"))}
        hs = {"print": lambda I, st, fn, a, k, n: NONE}
        for k in hooks:
            hs["." + k] = hs[k] = one(k)
            for c in cls:
                hs[f"{c}.{k}"] = hs["." + k]
        self.I = Interp(P, hooks=hs, opaque={"LlvmModule"})
        self.I.no_exceptions = True
        self.I.hooks["os.path.join"] = lambda I, st, fn, a, k, n: C(
            os.path.join(*[x[2] for x in a])) if all(
                x[0] == "c" for x in a) else None
        self.st = State()

    def answer(self, I, st, table, k, a, kw):
        if callable(table):
            v = table(I, st, a, kw)
        else:
            v = NONE
            for x in list(a) + list(kw.values()):
                if x[0] == "c" and x[2] in table:
                    v = table[x[2]]
        if isinstance(v, str) and v in self.exc:
            I.raises[-1].append((("class", self.exc[v]), st.copy()))
            st.dead = True
            return NONE
        if isinstance(v, list):
            return I.new_list(st, tuple(self.mods.get(x, x) for x in v))
        return self.mods.get(v, v)

    def modules(self, *names, cls=None):
        """Objects for modules, which the hooks refer to by symbols."""
        for n in names:
            o = self.I.alloc(self.st, HObj(
                "inst", cls or self.mod, {"llvm": C(n)}))
            self.names[o] = n
            self.mods["sym", n] = o

    def list(self, *xs):
        return self.I.new_list(self.st, tuple(C(x) for x in xs))

    def run(self, f, args):
        v, st = self.I.run(f, args, {}, self.st)
        self.st = st
        return v

    def thrown(self):
        return sorted({self.I.exc_name(v) for v, s in self.I.raises[0]})


def snapshot(W, P, kind):
    tree = ("sym", "tree")
    return W.I.construct(P.cls("diffkemp.snapshot", "Snapshot"),
                         [tree, ("sym", "snaptree"), C(kind)], {}, W.st, None)


def recorded(W, snap):
    """{(group, function): module, variable}"""
    out = {}
    I, st = W.I, W.st
    gs = I.obj(st, I.obj(st, snap).d["fun_groups"])
    if gs is None or gs.extra:
        raise AnalysisBroken("contents of the snapshot are not known")
    for g, o in gs.d.items():
        if I.obj(st, o) is None:
            raise AnalysisBroken("contents of the snapshot are not known: "
                                 + show(I.freeze(st, o))[:300])
        fs = I.obj(st, I.obj(st, o).d["functions"])
        if fs is None or fs.extra:
            raise AnalysisBroken("contents of the snapshot are not known")
        for n, d in fs.d.items():
            x = I.obj(st, d)
            key = (None if g == NONE else g[2] if g[0] == "c" else show(g),
                   n[2] if n[0] == "c" else show(n))
            out[key] = tuple(
                None if y == NONE else W.names[y] if y in W.names else
                y[2] if y[0] == "c" else show(y) for y in ((x.d.get("mod", NONE), x.d.get("glob_var", NONE))
                          if x is not None else (("sym", "?"), NONE)))
    return out


def functions(ck, P):
    """Snapshot from a list of functions."""
    f = P.func(MAIN, "generate_from_function_list")
    escapes(ck, P, f)
    names = ("a", "b", "c")
    for ways in itertools.product(("function", "other", "none"), repeat=3):
        kinds = dict(zip(names, ways))
        W = World(P, {
            "get_module_for_symbol": {
                n: "SourceNotFoundException" if k == "none" else
                ("sym", "mod_" + n)
                for n, k in kinds.items()},
            "has_function": {n: TRUE if k == "function" else FALSE
                             for n, k in kinds.items()}},
            ("SourceTree", "LlvmModule"))
        W.modules(*["mod_" + n for n in names])
        snap = snapshot(W, P, "function")
        what = ", ".join(f"{n} {k}" for n, k in kinds.items())
        W.run(f, [snap, W.list(*names)])
        if "get_module_for_symbol" not in W.called:
            raise AnalysisBroken("no source of symbols is looked for")
        ck.analysed |= W.I.analysed
        stop = W.thrown()
        ck.ob("functions", "stopped", not stop, f"the list is left by "
              f"{stop} when: {what}", f.where)
        if stop:
            continue
        got = recorded(W, snap)
        for n, k in kinds.items():
            want = ("mod_" + n if k == "function" else None, None)
            x = got.get((None, n))
            i = names.index(n)
            before = "none" in ways[:i]
            ck.ob("functions", f"{k}" + (", after one without source"
                                         if before else ""), x == want,
                  f"a symbol ({what}: {n}) is recorded as {x} instead of "
                  f"{want}", f.where)
        ck.ob("functions", "nothing else", len(got) == 3,
              f"{what}: recorded are {sorted(map(str, got))}", f.where)


def sysctls(ck, P):
    """Snapshot from a list of sysctl options."""
    f = P.func(MAIN, "generate_from_sysctl_list")
    escapes(ck, P, f)
    opts = ("table", "empty", "none")
    procs = ("found", "missing", "no")
    datas = ("used", "missing", "no")
    cases = [((o1, "table"), ("found", p), (d, "used"))
             for o1 in opts for p in procs for d in datas] + \
            [(("table", "table"), (p, "found"), ("used", d))
             for p in procs for d in datas] + \
            [(("table", o), ("found", "found"), ("used", "used"))
             for o in opts]
    cases = [(False,) + c for c in cases] + \
        [(True,) + c for c in cases if c[0] == ("table", "table")]
    for pattern, (o1, o2), pr, da in cases:
        names = ("k.a", "k.b")
        how = dict(zip(names, (o1, o2)))
        proc = dict(zip(names, pr))
        data = dict(zip(names, da))
        asked = (PATTERN,) if pattern else names
        W = World(P, {
            "get_sysctl_module": {n: "SourceNotFoundException" if
                                  not pattern and how[n] == "none" else
                                  ("sym", "t_" + n) for n in asked},
            "parse_sysctls": {n: [C(x) for x in names if x == n or pattern]
                              if pattern or how[n] == "table" else []
                              for n in asked},
            "get_proc_fun": {n: NONE if proc[n] == "no" else C("p_" + n)
                             for n in names},
            "get_module_for_symbol": {
                "p_" + n: "SourceNotFoundException" if proc[n] == "missing"
                else ("sym", "mod_p_" + n) for n in names},
            "get_data": lambda I, st, a, kw: next(
                (obj[x[2]] for x in a if x[0] == "c" and x[2] in names and
                 data[x[2]] != "no"), NONE),
            "get_modules_using_symbol": {
                "d_" + n: "SourceNotFoundException" if data[n] == "missing"
                else [("sym", "use_" + n)] for n in names},
            "get_functions_using_param": lambda I, st, a, kw: [
                C("u_" + n) for n in names for x in a if x == obj[n]],
        }, ("SourceTree", "KernelSourceTree", "LlvmSysctlModule",
            "LlvmModule"))
        param = P.cls("diffkemp.llvm_ir.llvm_module", "LlvmParam")
        obj = {n: W.I.alloc(W.st, HObj("inst", param, {
            "name": C("d_" + n), "indices": NONE})) for n in names}
        snap = snapshot(W, P, "sysctl")
        what = "; ".join(f"{n}: {how[n]}, handler {proc[n]}, data {data[n]}"
                         for n in names)
        if pattern:
            what = f"{PATTERN} means both of: {what}"
        W.modules(*[k + n for k in ("mod_p_", "use_") for n in names])
        W.modules(*["t_" + n for n in asked], cls=P.cls(
            "diffkemp.llvm_ir.llvm_sysctl_module", "LlvmSysctlModule"))
        W.run(f, [snap, W.list(*asked)])
        if "get_sysctl_module" not in W.called:
            raise AnalysisBroken("no source of sysctl options is looked for")
        ck.analysed |= W.I.analysed
        stop = W.thrown()
        part = "option" if "none" in how.values() else "handler" if \
            "missing" in pr else "data variable" if "missing" in da else "-"
        ck.ob("sysctl", f"stopped: {part}", not stop, f"the list is left by "
              f"{stop} when: {what}", f.where)
        if stop:
            continue
        got = recorded(W, snap)
        want = {}
        for n in names:
            if how[n] != "table":
                continue
            if proc[n] == "found":
                want[(n, "p_" + n)] = ("mod_p_" + n, None)
            if data[n] == "used":
                want[(n, "u_" + n)] = ("use_" + n, "d_" + n)
        for k in sorted(set(want) | set(got)):
            # a function without source may be recorded as such
            ok = got.get(k) == want.get(k) or k not in want and \
                got[k][0] is None
            ck.ob("sysctl", f"recorded: {'handler' if k[1][0] == 'p' else 'user of data'}"
                  f" ({part} missing)", ok, f"{k[1]} of {k[0]} is recorded "
                  f"as {got.get(k)} instead of {want.get(k)} when: {what}",
                  f.where)


# -- the source which is taken for a symbol
def tree(ck, P):
    f = P.func(TREE, "SourceTree.get_module_for_symbol")
    cls = P.cls(TREE, "SourceTree")
    for src, isfile in ((None, False), ("/x/a.ll", False), ("/x/a.ll", True),
                        ("a.ll", True)):
        W = World(P, {
            "find_llvm_with_symbol_def": lambda I, st, a, kw: NONE
            if src is None else C(src)}, ("KernelLlvmSourceBuilder",))
        for k, v in (("isfile", isfile), ("isabs", src != "a.ll")):
            W.I.hooks["os.path." + k] = W.I.hooks["." + k] = \
                lambda I, st, fn, a, kw, n, v=v: TRUE if v else FALSE
        t = W.I.alloc(W.st, HObj("inst", cls, {
            "source_dir": C("/x"), "source_finder": W.I.alloc(
                W.st, HObj("inst", P.cls(KERNEL, "KernelLlvmSourceBuilder"),
                           {})),
            "modules": W.I.alloc(W.st, HObj("dict"))}))
        v = W.run(f, [t, C("s"), NONE])
        ck.analysed |= W.I.analysed
        stop = W.thrown()
        found = src is not None and isfile
        ck.ob("source", f"{f.qual}: {src and 'file' or 'nothing'} "
              f"{'found' if isfile else 'missing'}",
              (not stop and v != NONE) if found else
              stop == ["SourceNotFoundException"] and W.st.dead,
              f"{f.qual}: a symbol whose source is {src} "
              f"({'existing' if isfile else 'not existing'}) gives "
              f"{stop or show(v)[:80]}", f.where)


def option(ck, P):
    """The source of a sysctl option, whatever its name looks like."""
    f = P.func(KTREE, "KernelSourceTree.get_sysctl_module")
    cls = P.cls(KTREE, "KernelSourceTree")
    param = P.cls("diffkemp.llvm_ir.llvm_module", "LlvmParam")
    for name, known, child, want in (
            ("kernel.a", True, True, True), ("kernel.a", True, False, False),
            ("kernel", True, False, True),
            ("kernel.a", False, False, False), ("x.a", True, False, False),
            ("kernel.a.b", True, True, True),
            ("kernel.a.b", True, False, False), ("net", True, False, False),
            ("net.ipv4", True, False, False), ("net.a", True, False, False),
            ("net.ipv4.a", True, False, True),
            ("net.core.a", True, False, True),
            ("net.a.b", True, False, False),
            ("net.ipv4.conf", True, False, False),
            ("net.ipv4.conf.all.a", True, False, True)):
        W = World(P, {
            "get_module_for_symbol": lambda I, st, a, kw: ("sym", "mod")
            if known else "SourceNotFoundException",
            "LlvmSysctlModule": lambda I, st, a, kw: ("sym", "table"),
            "get_child": lambda I, st, a, kw: I.alloc(st, HObj(
                "inst", param, {"name": C("child"), "indices": NONE}))
            if child else NONE}, ("SourceTree", "KernelSourceTree",
                                  "LlvmSysctlModule"))
        W.I.opaque.add("LlvmSysctlModule")
        W.I.hooks[".split"] = split
        t = W.I.alloc(W.st, HObj("inst", cls, {"source_dir": C("/x")}))
        v = W.run(f, [t, C(name)])
        ck.analysed |= W.I.analysed
        stop = W.thrown()
        ok = v == ("sym", "table") and not stop if want else \
            W.st.dead and stop == ["SourceNotFoundException"]
        ck.ob("source", f"{f.qual}: {name}", ok, f"{f.qual}: the option "
              f"{name} (its table is {'found' if known else 'not found'}"
              f"{', the inner one is ' + ('' if child else 'not ') + 'found' if '.' in name else ''}) "
              f"gives {stop or show(v)[:80]} instead of "
              f"{'the table' if want else 'SourceNotFoundException'}",
              f.where)


def split(I, st, fn, a, kw, n):
    if fn[0] == "attr" and fn[1][0] == "c" and isinstance(fn[1][2], str) \
            and all(x[0] == "c" for x in a) and not kw:
        return I.new_list(st, tuple(
            C(x) for x in fn[1][2].split(*[x[2] for x in a])))


def kernel(ck, P):
    cls = P.cls(KERNEL, "KernelLlvmSourceBuilder")
    ways = ("defines fun", "defines var", "uses", "no file", "fails")
    for name, use in (("find_llvm_with_symbol_def", False),
                      ("find_llvm_with_symbol_use", True)):
        f = P.find_method(cls, name)
        if f is None:
            raise AnalysisBroken(f"{name} of the kernel does not exist")
        for k in itertools.product(ways, repeat=2):
            kinds = dict(zip(("d/a.c", "d/b.c"), k))
            one(ck, P, cls, f, use, kinds)


def one(ck, P, cls, f, use, kinds):
    def src(a):
        for x in a:
            for s in kinds:
                if s[:-2] in show(x):
                    return s

    def build(I, st, a, kw):
        s = src(a)
        if s is None:
            raise AnalysisBroken(f"{f.qual}: what is built is not known")
        return "BuildException" if kinds[s] == "fails" else \
            C("/src/" + s[:-2] + ".ll")

    def module(I, st, a, kw):
        return ("sym", "module:" + str(src(a)))

    def has(what):
        def h(I, st, fn, a, kw, n):
            s = show(fn) + "".join(show(x) for x in a)
            for x, k in kinds.items():
                if x in s:
                    return TRUE if k == "defines " + what else FALSE
        return h
    lines = [C(f"{s} fun 12 text") for s in kinds]
    W = World(P, {"_find_srcs_with_symbol_def": lambda *a: [
                      C(s) for s in kinds],
                  "_cscope_run": lambda *a: lines,
                  "_build_source_to_llvm": build, "LlvmModule": module},
              ("KernelLlvmSourceBuilder",))
    for k, v in (("has_function", "fun"), ("has_global", "var")):
        W.I.hooks["." + k] = has(v)

    def isfile(I, st, fn, a, kw, n):
        s = src(a)
        return TRUE if s and kinds[s] not in ("no file", "fails") else FALSE
    W.I.hooks["os.path.isfile"] = isfile

    W.I.hooks[".split"] = split
    b = W.I.alloc(W.st, HObj("inst", cls, {"source_dir": C("/src")}))
    v = W.run(f, [b, C("s")])
    ck.analysed |= W.I.analysed
    stop = W.thrown()
    what = ", ".join(f"{s} {k}" for s, k in kinds.items())
    fr = W.I.freeze(W.st, v)
    got = [s for s in kinds if s[:-2] + ".ll" in show(fr)]
    if use:
        want = [s for s, k in kinds.items() if k not in ("no file", "fails")]
    else:
        want = [s for s, k in kinds.items() if k.startswith("defines")][:1]
    # finding nothing may also be told by the exception for it
    ok = got == want and not stop or not want and set(stop) <= {
        "SourceNotFoundException"} and (W.st.dead or not got)
    ck.ob("source", f"{f.qual}: {'/'.join(sorted(set(kinds.values())))}", ok,
          f"{f.qual}: {stop or got or show(fr)[:80]} is taken for the source "
          f"instead of {want} when: {what}", f.where)


def failed_build(ck, P):
    """What a failed build leaves is not taken for built by the next symbol
    of the same file."""
    cls = P.cls(KERNEL, "KernelLlvmSourceBuilder")
    f = P.find_method(cls, "_build_source_to_llvm")
    if f is None:
        raise AnalysisBroken("the build of kernel sources was not found")
    ran = False
    for src, stale, fail in itertools.product(
            ("/src/d/a.c", "d/a.c"), (False, True), (None, 1, 2)):
        ll = src[:-2] + ".ll"
        files = {ll} if stale else set()
        runs = []

        def call(I, st, fn, a, kw, n):
            runs.append(a)
            if len(runs) == 1 and fail != 1:
                files.add(ll)
            if fail == len(runs):
                I.raises[-1].append((
                    ("ext", "subprocess.CalledProcessError"), st.copy()))
                st.dead = True
            return NONE

        def isfile(I, st, fn, a, kw, n):
            return C(a[0][2] in files) if a[0][0] == "c" else None

        def remove(I, st, fn, a, kw, n):
            if a[0][0] == "c":
                files.discard(a[0][2])
            return NONE
        W = World(P, {"_kbuild_object_command": lambda *a: C("gcc"),
                      "_gcc_to_llvm": lambda *a: [C("clang")]},
                  ("KernelLlvmSourceBuilder",))
        hs = W.I.hooks
        for k in ("check_call", "check_output", "run", "call"):
            hs["subprocess." + k] = call
        hs["get_opt_command"] = lambda *a: ("sym", "opt")
        for k in ("os.path.isfile", "os.path.exists"):
            hs[k] = isfile
        for k in ("os.remove", "os.unlink"):
            hs[k] = remove
        hs["os.path.getmtime"] = lambda I, st, fn, a, kw, n: C(
            2 if a[0] == C(src) else 1)
        hs["os.path.relpath"] = lambda I, st, fn, a, kw, n: C("d/a.c")
        hs["os.path.splitext"] = lambda I, st, fn, a, kw, n: (
            "tup",) + tuple(C(x) for x in os.path.splitext(a[0][2])) if \
            a[0][0] == "c" else None
        b = W.I.alloc(W.st, HObj("inst", cls, {"source_dir": C("/src")}))
        v = W.run(f, [b, C(src)])
        ck.analysed |= W.I.analysed
        ran = ran or bool(runs)
        what = f"{src}, {'old IR, ' if stale else ''}" + (
            "succeeds" if fail is None else
            f"{('compiler', 'optimisation')[fail - 1]} fails")
        ck.ob("compiled", what, runs, f"{f.qual}: {what}: the source is not "
              "compiled", f.where)
        if not runs:
            continue
        if fail is None:
            ck.ob("build", what, v == C(ll) and ll in files and
                  not W.thrown(), f"{f.qual}: {what}: {show(v)} is built, "
                  f"raised {W.thrown()}", f.where)
            continue
        got = set()
        for x, xs in W.I.raises[0]:
            o = W.I.obj(xs, x)
            got.add(o.cls.name if o is not None and o.cls is not None
                    else W.I.exc_name(x))
        ck.ob("build", what, W.st.dead and got and
              got <= {"BuildException", "?"},   # ?: raised again
              f"{f.qual}: {what}: the failure is not reported: "
              f"{sorted(got)}", f.where)
        if fail == 2:
            ck.ob("left over", what, ll not in files, f"{f.qual}: {what}: "
                  "IR is left which is taken for built when the next symbol "
                  "of this file is looked for", f.where)
    if not ran:
        raise AnalysisBroken(f"{f.qual}: programs run are not known")


def run():
    ck = Check("P14", "The creation of snapshots is interpreted abstractly "
               "for every combination of found, missing and other symbols; "
               "its result has to hold each symbol as it would be without the "
               "others. No failure which may concern one symbol leaves the "
               "loop over the symbols.")
    P = Program(REPO)
    functions(ck, P)
    sysctls(ck, P)
    tree(ck, P)
    option(ck, P)
    kernel(ck, P)
    failed_build(ck, P)
    ck.floor("cases of symbols", len(ck.obligations), 150)
    return ck
