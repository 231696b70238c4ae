"""P05: a failed or incomplete comparison is never reported as equal."""
import ast
import itertools
import os
from lib.report import Check, REPO
from lib.pyfront import Program, AnalysisBroken
from lib.pycall import Calls
from lib.pyexc import Escapes
from lib.pycfg import CFG
from lib.interp import (HObj, Interp, State, C, NONE, TRUE, FALSE, canon,
                        show, subterms)
from lib.terms import leaves, decide, rewrite

RULE = (
    "Verdicts are followed through the whole Python side by abstract "
    "interpretation over the finite domain of verdict kinds: engine run -> "
    "graph -> pairs to report -> verdict of the function -> filter -> "
    "statistics. For every failing kind (and every exception edge of the "
    "engine run, every non-zero exit status) no leaf of the resulting gated "
    "term may be an 'equal' kind; for results of the engine, every vertex "
    "that is not equal must be kept on the way.")

RES = "diffkemp.semdiff.result"
FAIL = ("UNKNOWN", "TIMEOUT", "ERROR")
OKAY = ("NONE", "EQUAL", "ASSUMED_EQUAL")
REPORTED = ("EQUAL", "NOT_EQUAL") + FAIL


class Kinds:
    def __init__(self, P):
        self.cls = P.cls(RES, "Result.Kind")
        self.res = P.cls(RES, "Result")
        self.ent = P.cls(RES, "Result.Entity")

    def k(self, I, name):
        I.enums[self.cls.name] = self.cls
        return ("enum", self.cls.name, name)

    def result(self, I, st, kind, name="f", **attrs):
        """A Result object of an inner comparison."""
        d = {"kind": self.k(I, kind), "diff": ("sym", name + ".diff"),
             "macro_diff": NONE, "graph": ("sym", "graph"),
             "inner": I.alloc(st, HObj("dict")),
             "start_time": NONE, "stop_time": NONE}
        for s in ("first", "second"):
            d[s] = I.alloc(st, HObj("inst", self.ent, {
                "name": C(name), "filename": NONE, "line": NONE,
                "callstack": NONE, "diff_kind": C("function"),
                "covered": C(False)}))
        d.update(attrs)
        return I.alloc(st, HObj("inst", self.res, d))


def kind_names(t):
    return {lf[2] if lf[0] == "enum" else "?" + show(lf)[:80]
            for lf, _ in leaves(t)}


# ---- verdict of one function -------------------------------------------
def verdicts(ck, P, Q):
    f = P.func("diffkemp.semdiff.function_diff", "functions_diff")
    ck.analysed.add(f.key)
    n = 0
    combos = [()] + [(a,) for a in REPORTED] + \
        list(itertools.product(REPORTED, repeat=2))
    for tool in (None,) + REPORTED:
        for ks in combos:
            if tool is not None and len(ks) > 1 and "NOT_EQUAL" not in ks:
                continue
            out = verdict(P, Q, f, tool, ks)
            if out is None:
                raise AnalysisBroken("functions_diff returns no Result")
            n += 1
            want = [k for k in ks]
            where = f"pairs {list(ks)}, solver {tool}"
            for lf, facts in leaves(out):
                exc = [c for c, p in facts.items() if p and c[0] == "sym" and
                       str(c[1]).startswith("exc:")]
                name = lf[2] if lf[0] == "enum" else None
                if exc:
                    ck.ob("failure-is-not-equal", f"functions_diff: "
                          f"{str(exc[0][1]).split('#')[0]}",
                          name in FAIL, f"{where}: a failure gives "
                          f"{name or show(lf)[:200]}", f.where)
                    continue
                if name is None:
                    ck.ob("verdict-of-pairs", "functions_diff", False,
                          f"{where}: verdict is {show(lf)[:300]}", f.where)
                    continue
                bad = [k for k in want if k not in OKAY]
                if tool is not None:
                    # the solver replaces verdicts of the pairs it is run on
                    bad = [tool] if tool not in OKAY and \
                        name in OKAY and bad else []
                    if not want and name not in OKAY:
                        bad = ["-"]
                if not want:
                    ck.ob("no-difference-is-equal", "functions_diff",
                          name == "EQUAL", f"nothing to report gives {name}",
                          f.where)
                elif bad:
                    ck.ob("verdict-of-pairs", "functions_diff "
                          f"({'solver ' if tool else ''}{max(bad)})",
                          name not in OKAY, f"{where} gives {name}", f.where)
                elif tool is None:
                    ck.ob("verdict-of-pairs", "functions_diff (EQUAL)",
                          name == "EQUAL", f"{where} gives {name}", f.where)
    ck.floor("verdict combinations", n, 40)


def verdict(P, Q, f, tool, ks):
    def simpll(I, st, fn, a, k, n):
        return ("tup", ("sym", "s1"), ("sym", "s2"), ("sym", "newgraph"),
                NONE)

    def pairs(I, st, fn, a, k, n):
        ps = [I.alloc(st, HObj("list", items=(
            ("sym", f"f{i}"), ("sym", f"s{i}"), Q.k(I, x))))
            for i, x in enumerate(ks)]
        return ("tup", I.new_list(st, ps), ("sym", "bl"), ("sym", "br"))

    def solver(I, st, fn, a, k, n):
        return Q.result(I, st, tool, "solved")
    hooks = {"run_simpll": simpll, ".graph_to_fun_pair_list": pairs,
             "ComparisonGraph.graph_to_fun_pair_list": pairs}
    if tool is not None:
        hooks["functions_semdiff"] = solver
    I = Interp(P, hooks=hooks, opaque={"syntax_diff", "_link_symbol_def"})
    st = State()
    cfg = ("sym", "config")
    st.ostore[(cfg, "semdiff_tool")] = NONE if tool is None else C("llreve")
    v, st = I.run(f, [], {"config": cfg}, st)
    o = I.obj(st, v)
    if o is None or "kind" not in o.d:
        return None
    return o.d["kind"]


# ---- exceptions between the engine and the verdict -------------------------
def swallowed(ck, P, K, E):
    """No handler around the engine run or its report lets it go on."""
    root = P.func("diffkemp.simpll.simpll", "run_simpll")
    fs = [f for f in K.reachable([root]).values()
          if f.mod is root.mod]
    n = 0
    for f in fs:
        ck.analysed.add(f.key)
        if not any(isinstance(x, ast.Try) for x in ast.walk(f.node)):
            continue
        g = CFG(P, K, E, f)
        for node in g.nodes:
            for t, tgt in node.exc:
                n += 1
                if tgt is g.raised:
                    continue
                seen, todo, bad = set(), [tgt], False
                while todo:
                    x = todo.pop()
                    if x.idx in seen:
                        continue
                    seen.add(x.idx)
                    bad = bad or x is g.exit
                    todo += [y for _, y in x.succ]
                what = ast.unparse(node.ast).split("\n")[0][:60] \
                    if node.ast is not None else ""
                ck.ob("engine-failure-not-ignored", f"{f.qual}: {what}",
                      not bad, f"line {node.line}: after {t} the function "
                      "goes on and returns a result", f.where)
    ck.floor("exception edges of the engine run", n, 10)


def exit_status(ck, P):
    """Output of a child that failed must not get into the result."""
    f = P.func("diffkemp.simpll.simpll", "run_simpll")
    for status in (1 << 8, 11, 255 << 8):
        def waitpid(I, st, fn, a, k, n):
            return ("tup", ("sym", "pid"), C(status))

        def proc(I, st, fn, a, k, n):
            if k.get("check") == TRUE:
                return None
            r = ("sym", "failed-process")
            st.ostore[(r, "returncode")] = C(status >> 8 or -status)
            return r
        seen = []

        def wait_macro(fun):
            def h(I, st, fn, a, k, n):
                return C(fun(a[0][2])) if a and a[0][0] == "c" else None
            return h

        def load(I, st, fn, a, k, n):
            seen.append(I.freeze(st, a[0]) if a else None)
            return None
        macros = {f"os.{m}": wait_macro(getattr(os, m)) for m in (
            "WIFEXITED", "WEXITSTATUS", "WIFSIGNALED", "WTERMSIG",
            "waitstatus_to_exitcode")}
        I = Interp(P, hooks={
            **macros, "os.waitpid": waitpid, "subprocess.run": proc,
            "subprocess.Popen": proc, "yaml.safe_load": load,
            "yaml.load": load},
            opaque={"ComparisonGraph", "SimpLLModule", "LlvmModule"})
        I.run(f, [], {}, State())
        if not seen:
            raise AnalysisBroken("no report of the engine is read")
        for t in seen:
            names = {show(x)[:60] for x in subterms(t) if x[0] == "call"}
            bad = [x for x in subterms(t) if x[0] == "call" and
                   ("fdopen" in show(x[1]) or "os.read" in show(x[1])) or
                   x == ("sym", "failed-process")]
            ck.ob("exit-status-checked", f"run_simpll (status {status:#x})",
                  not bad, "the report of a process that failed is used: "
                  f"{sorted(names)[:4]}", f.where)
    # programs run directly must be run so that a failure raises
    n = 0
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            name = ast.unparse(x.func).split(".")[-1]
            if name in ("check_output", "check_call"):
                n += 1
    ck.note("checked_process_calls", n)


# ---- from graph to pairs ---------------------------------------------------
def subst(I, t, old, new):
    """Replace a subterm and fold what becomes decidable."""
    def step(x):
        if x == old:
            return new
        if x[0] == "op" and x[1] in ("==", "is", "in") and len(x) == 4:
            a, b = x[2], x[3]
            if a[0] == "enum" and b[0] == "enum" and x[1] != "in":
                return C(a == b)
            if x[1] == "in" and a[0] == "enum" and b[0] in ("list", "tup") \
                    and all(y[0] == "enum" for y in b[1:]):
                return C(a in b[1:])
            if x[1] == "<" and I.enum_value(a) and I.enum_value(b):
                return C(I.enum_value(a)[2] < I.enum_value(b)[2])
        return x
    return rewrite(t, step)


def always(I, t, facts):
    """Items of a frozen list that are present under the facts."""
    out = []
    t = rewrite(t, lambda x: TRUE if x[0] == "inloop" else x)

    def rec(x):
        if x[0] == "?cond":
            v = decide(x[1], facts)
            for pol, part in ((True, x[2]), (False, x[3])):
                if v is pol:
                    for y in part:
                        rec(y)
        elif x[0] == "?star":
            for y in x[2]:
                rec(y)
        else:
            out.append(x)
    for x in t[1:]:
        if isinstance(x, tuple):
            rec(x)
    return out


def from_graph(ck, P, Q):
    f = P.func("diffkemp.semdiff.caching",
               "ComparisonGraph.graph_to_fun_pair_list")
    ck.analysed.add(f.key)
    I = Interp(P, opaque={
        "diffkemp.semdiff.caching:ComparisonGraph.reachable_from",
        "ComparisonGraph.reachable_from", "_get_callstack",
        "diffkemp.semdiff.caching:_get_callstack"})
    Q.k(I, "EQUAL")
    st = State()
    v, st = I.run(f, [], {}, st)
    fr = I.freeze(st, v)
    if fr[0] not in ("tup", "list") or fr[1][0] != "list":
        raise AnalysisBroken("pairs to report are not a list")
    pairs = fr[1]
    stars = [x for x in pairs[1:] if x[0] == "?star"]
    if not stars:
        raise AnalysisBroken("pairs to report are not built in a loop")
    vert = {x[1] for x in subterms(pairs) if x[0] == "attr" and
            x[2] == "result"}
    if len(vert) != 1:
        raise AnalysisBroken(f"{len(vert)} kinds of vertices")
    res = ("attr", next(iter(vert)), "result")
    for k in REPORTED + ("ASSUMED_EQUAL",):
        for full in (TRUE, FALSE):
            t = subst(I, pairs, res, Q.k(I, k))
            t = subst(I, t, ("sym", "full_diff"), full)
            items = always(I, t, {})
            got = [x for x in items if x[0] in ("tup", "list") and
                   x[-1] == Q.k(I, k)]
            what = f"{k}{' (all)' if full == TRUE else ''}"
            if k in ("EQUAL", "ASSUMED_EQUAL"):
                if k == "EQUAL" and full == TRUE:
                    continue
                # an equal function is no difference
                extra = [x for x in items if x[0] in ("tup", "list") and
                         x[-1][0] == "enum" and x[-1][2] in FAIL]
                ck.ob("equal-is-no-difference", what, not extra,
                      "an equal function is reported as failed", f.where)
            else:
                ck.ob("difference-kept", what, bool(got),
                      f"a function with result {k} is not among the pairs "
                      f"to report with that result: {show(t)[:400]}", f.where)
    # which vertices are considered
    reach = {x for x in subterms(pairs) if x[0] == "call" and
             "reachable_from" in show(x[1])}
    ck.ob("all-reachable-considered", "graph_to_fun_pair_list",
          len(reach) >= 2, "the vertices considered are not those reachable "
          "in both versions", f.where)


def reachable(ck, P):
    """Every callee the result depends on is considered, however it is
    reached: every small call graph, from report to verdict."""
    from checks.p13 import History, fun, MODS
    from checks.p17 import Build
    B = Build(P)
    n = 0
    # calls of one function by another: none, result used, result unused,
    # used after unused, unused after used
    edges = ("", "s", "w", "ws", "sw")
    for fg, fh, gh, hg in itertools.product(edges, edges, edges, ("", "s")):
        calls = {"f": [("g", c) for c in fg] + [("h", c) for c in fh],
                 "g": [("h", c) for c in gh], "h": [("g", c) for c in hg]}
        for bad in "fgh":
            kinds = ("not-equal", "unknown") if n % 3 == 0 else \
                ("not-equal",)
            for kind in kinds:
                n += 1
                one_graph(ck, P, B, History, fun, MODS, calls, bad, kind)
    ck.floor("call graphs", n, 200)
    # variants of functions whose result is unused
    for a, b in (("g", "g.void"), ("g.void", "g")):
        H = History(P, B, real_pairs=True)
        f = fun("f", "equal")
        for s, x in (("first", a), ("second", b)):
            f[s]["calls"] = [{"function": x, "file": "a.c", "line": 4,
                              "weak": False}]
        H.compare("f", MODS, [f, fun("g", "not-equal", names=(a, b))])
        got = {x[2] if x[0] == "enum" else show(x)[:80]
               for x, _ in leaves(H.verdict)}
        ck.ob("callee-considered", "functions_diff (unused results)",
              not got & set(OKAY), f"{a} and {b} differ: f, calling them, "
              f"is {sorted(got)}", H.F.where)


def strongly(calls):
    """Functions the result of f depends on."""
    reached, todo, res = set(), ["f"], {"f"}
    while todo:
        x = todo.pop()
        if x in reached:
            continue
        reached.add(x)
        for y, c in calls[x]:
            todo.append(y)
            if c == "s":
                res.add(y)
    return res


def one_graph(ck, P, B, History, fun, MODS, calls, bad, kind):
    need = bad in strongly(calls)
    if not need:
        return
    H = History(P, B, real_pairs=True)
    rep = []
    for x in "fgh":
        r = fun(x, kind if x == bad else "equal")
        for s in ("first", "second"):
            r[s]["calls"] = [
                {"function": y, "file": "a.c", "line": 4, "weak": c == "w"}
                for y, c in calls[x]]
        rep.append(r)
    H.compare("f", MODS, rep)
    ck.analysed |= H.I.analysed
    got = {x[2] if x[0] == "enum" else show(x)[:80]
           for x, _ in leaves(H.verdict)}
    how = ", ".join(f"{x} calls {y}{'' if c == 's' else ' (unused)'}"
                    for x in calls for y, c in calls[x])
    ck.ob("callee-considered", "functions_diff" +
          (" (itself)" if bad == "f" else ""),
          not got & set(OKAY), f"{how or 'no calls'}; {bad} is {kind}: f is "
          f"{sorted(got)}", H.F.where)


# ---- verdict names -------------------------------------------------------
def names(ck, P, Q):
    f = P.func(RES, "Result.Kind.from_string")
    ck.analysed.add(f.key)
    table = {"equal": "EQUAL", "not-equal": "NOT_EQUAL",
             "assumed-equal": "ASSUMED_EQUAL", "unknown": "UNKNOWN",
             "timeout": "TIMEOUT", "error": "ERROR"}
    for s, k in table.items():
        I = Interp(P)
        v, st = I.run(f, [C(s)], {}, State())
        got = kind_names(I.freeze(st, v))
        ck.ob("verdict-name", s, got == {k},
              f"the engine's verdict '{s}' is read as {got}", f.where)
    I = Interp(P)
    v, st = I.run(f, [C("no such verdict")], {}, State())
    v = I.freeze(st, v)
    got = kind_names(v) if v[0] in ("enum", "ite") else set()
    ck.ob("verdict-name", "(other)", not got & set(OKAY),
          f"an unknown verdict is read as {got}", f.where)


# ---- compare command -------------------------------------------------------
def compare_roots(P, K):
    f = P.func("diffkemp.diffkemp", "compare")
    return f, [g for g in K.reachable([f]).values()
               if g.mod is f.mod]


def command(ck, P, Q, K):
    f, parts = compare_roots(P, K)
    drive = [g for g in parts for n in ast.walk(g.node)
             if isinstance(n, ast.Call) and any(
                 t.name == "functions_diff" for t in K.funcs(g, n))]
    if not drive:
        raise AnalysisBroken("compare runs no comparison")
    for g in parts:
        ck.analysed.add(g.key)
    for k in REPORTED:
        added = run_compare(P, Q, f, k)
        got = set()
        for kind, facts in added["compared"]:
            for lf, fc in leaves(kind):
                name = lf[2] if lf[0] == "enum" else "?"
                got.add(name)
                regex = any("regex_filter" in show(c) for c, p in
                            list(fc.items()) + list(facts))
                if k == "NOT_EQUAL" and name == "EQUAL":
                    ck.ob("filter-only-by-regex", "compare", regex,
                          "a difference becomes equal without a filter",
                          f.where)
                elif k != "EQUAL":
                    ck.ob("verdict-kept", f"compare ({k})", name == k,
                          f"verdict {k} is recorded as {name} "
                          f"({show(kind)[:200]})", f.where)
        ck.ob("verdict-recorded", f"compare ({k})", bool(added["compared"]),
              "the verdict of a compared function is not recorded", f.where)
        if k in FAIL + ("NOT_EQUAL",):
            ck.ob("verdict-shown", f"compare ({k})", added["shown"],
                  f"a function with verdict {k} is not mentioned in the "
                  "output", f.where)
    for what, kinds in added["missing"]:
        ck.ob("missing-is-not-equal", "compare", kinds and
              not kinds & set(OKAY),
              f"a function without definition gets {kinds} ({what})",
              f.where)
    ck.ob("missing-is-not-compared", "compare", added["guarded"],
          "functions without a module are compared", f.where)
    ck.ob("missing-recorded", "compare", bool(added["missing"]),
          "functions without a module get no verdict", f.where)


def possible(I, facts):
    """Facts do not require the user to ask for more output."""
    def step(x):
        if x[0] == "attr" and x[2] == "full_diff":
            return FALSE
        if x[0] == "attr" and x[2] == "regex_filter":
            return NONE
        if x[0] == "op" and x[1] == "is" and x[2] == NONE and x[3] == NONE:
            return TRUE
        return x
    return all(decide(rewrite(c, step), {}) in (p, None) for c, p in facts)


def run_compare(P, Q, f, k):
    out = {"compared": [], "missing": [], "guarded": True, "shown": False}
    made = []

    def diff(I, st, fn, a, kw, n):
        r = Q.result(I, st, k, "compared", inner=("sym", "inner"))
        made.append(r)
        mods = [v for p, v in kw.items() if p.startswith("mod_")] or a[:2]
        for m in mods:
            m = I.freeze(st, m)
            if decide(("op", "is", m, NONE), dict(st.facts)) is not False:
                out["guarded"] = False
        return r

    def add(I, st, fn, a, kw, n):
        r = a[0] if a else kw.get("result")
        o = I.obj(st, r)
        if o is None:
            out["compared"].append((("sym", "?"), st.facts))
        elif r in made:
            out["compared"].append((o.d["kind"], st.facts))
        else:
            out["missing"].append((show(I.freeze(st, o.d["kind"]))[:80],
                                   kind_names(o.d["kind"])))
        return NONE
    I = Interp(P, hooks={"functions_diff": diff, "Result.add_inner": add},
               opaque={"Config", "SimpLLCache", "LlvmModule", "YamlOutput",
                       "Config.from_args", "default_output_dir",
                       "_get_modules_to_cache", "LlvmParam",
                       "Result.report_stat", "print_syntax_diff",
                       "diffkemp.diffkemp:print_syntax_diff"})
    Q.k(I, k)
    st = State()
    I.run(f, [("sym", "args")], {}, st)
    for e in I.events:
        txt = [x for a in e.args for x in subterms(a)]
        if e.name.endswith("print_syntax_diff") or e.name == "print" and (
                ("enum", Q.cls.name, k) in txt or any(
                    x[0] == "c" and isinstance(x[2], str) and
                    x[2] == k.lower().replace("_", " ") for x in txt)):
            out["shown"] |= possible(I, e.facts)
    return out


# ---- statistics ------------------------------------------------------------
def statistics(ck, P, Q):
    f = P.func(RES, "Result.report_symbol_stat")
    ck.analysed.add(f.key)
    for k in REPORTED:
        I = Interp(P)
        Q.k(I, k)
        st = State()
        r = Q.result(I, st, k, "somefun")
        inner = I.alloc(st, HObj("dict", d={C("somefun"): r}))
        me = Q.result(I, st, k, "all", inner=inner)
        I.run(f, [me, TRUE], {}, st)
        counts = {}
        listed = False
        for e in I.events:
            if e.name != "print" or not e.args:
                continue
            s = e.args[0]
            parts = text_parts(s)
            if parts and parts[0][0] == "c" and isinstance(parts[0][2], str) \
                    and ":" in parts[0][2]:
                counts[parts[0][2].split(":")[0].strip()] = count_of(parts)
            if s == C("somefun"):
                listed = True
        if not counts:
            raise AnalysisBroken("no statistics printed")
        cat = {"EQUAL": "Equal", "NOT_EQUAL": "Not equal",
               "UNKNOWN": "Unknown", "TIMEOUT": "Errors",
               "ERROR": "Errors"}[k]
        for name in ("Equal", "Not equal", "Unknown", "Errors"):
            want = int(name == cat)
            ck.ob("counted", f"{k} under '{name}'", counts.get(name) == want,
                  f"a function with verdict {k} is counted "
                  f"{counts.get(name)} times under '{name}'", f.where)
        if k in FAIL:
            ck.ob("failure-listed", k, listed, f"functions with verdict {k} "
                  "are not listed by --show-errors", f.where)


def text_parts(t):
    if t[0] == "c" and isinstance(t[2], str):
        out = []
        w = t[2].split()
        return [C(t[2])]
    if t[0] == "op" and t[1] == "fmt":
        return list(t[2:])
    return [t]


def count_of(parts):
    txt = "".join(str(p[2]) if p[0] == "c" else "?" for p in parts)
    for w in txt.split(":", 1)[-1].split():
        if w.isdigit():
            return int(w)
    return None


# ---- external solver -------------------------------------------------------
def solver(ck, P, Q):
    f = P.func("diffkemp.semdiff.function_diff", "_run_llreve_z3")
    ck.analysed.add(f.key)
    cases = {
        "exit status": {"rc": C(1)},
        "killed by a signal": {"rc": C(-11)},
        "no answer": {"lines": ()},
        "time out": {"alive": FALSE},
        "sat": {"lines": (C(b"sat\n"),)},
        "unknown": {"lines": (C(b"unknown\n"),)},
        "garbage": {"lines": (C(b"(error)\n"),)},
    }
    for what, c in cases.items():
        def popen(I, st, fn, a, k, n):
            I.uid += 1
            r = ("sym", f"process{I.uid}")
            st.ostore[(r, "returncode")] = c.get("rc", C(0))
            st.ostore[(r, "stdout")] = I.new_list(
                st, c.get("lines", (C(b"unsat\n"),)))
            return r
        I = Interp(P, hooks={
            "subprocess.Popen": popen,
            ".is_alive": lambda I, st, fn, a, k, n: c.get("alive", TRUE)})
        Q.k(I, "EQUAL")
        v, st = I.run(f, [], {}, State())
        o = I.obj(st, v)
        if o is None:
            raise AnalysisBroken("_run_llreve_z3 returns no Result")
        got = kind_names(o.d["kind"])
        ck.ob("solver-failure-is-not-equal", what, not got & set(OKAY),
              f"solver: {what} is reported as {got}", f.where)


def run():
    ck = Check("P05", RULE)
    ck.assumptions += [
        "subprocess.check_output/check_call raise on a non-zero exit status",
        "a pair list is joined element by element; lists of length 0-2 over "
        "all kinds stand for longer ones"]
    P = Program(REPO)
    K = Calls(P)
    E = Escapes(P, K)
    Q = Kinds(P)
    verdicts(ck, P, Q)
    swallowed(ck, P, K, E)
    exit_status(ck, P)
    from_graph(ck, P, Q)
    reachable(ck, P)
    names(ck, P, Q)
    command(ck, P, Q, K)
    statistics(ck, P, Q)
    solver(ck, P, Q)
    return ck
