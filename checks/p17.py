"""P17: every difference found appears in every form of output."""
import itertools
from lib.report import Check, REPO
from lib.pyfront import Program, AnalysisBroken
from lib.interp import (HObj, Interp, State, C, NONE, TRUE, FALSE, show,
                        subterms, MISSING)
from lib.terms import leaves, decide
from checks.p05 import Kinds, RES, REPORTED, FAIL

RULE = (
    "A difference is followed from the report of the engine to each output "
    "by abstract interpretation of the code on every small configuration: "
    "report -> vertex of the graph -> pairs to report -> results of a "
    "function -> overall result -> text, YAML, statistics. In each step "
    "every difference that enters must leave, carrying its own name, text, "
    "and calls, whatever stands beside it (the same name, the same text, no "
    "text, no graph). Only a difference with an empty text whose cause is "
    "listed as another difference may be left out of the outputs.")

CACHE = "diffkemp.semdiff.caching"
FD = "diffkemp.semdiff.function_diff"


def text_of(I):
    out = []
    for e in I.events:
        if e.name.split(".")[-1] in ("write", "writelines") or \
                e.name == "print":
            for a in e.args:
                out.append(flat(a))
            if e.name == "print":
                out.append("\n")
    return "".join(out)


def flat(t):
    if t[0] == "c":
        return str(t[2])
    if t[0] == "op" and t[1] == "fmt":
        return "".join(flat(x) for x in t[2:])
    if t[0] == "op" and t[1] == "Add":
        return flat(t[2]) + flat(t[3])
    if t[0] in ("list", "tup"):
        return "".join(flat(x) for x in t[1:] if isinstance(x, tuple))
    return f"<{show(t)[:60]}>"


def const(I, st, t):
    """Python value of a term, symbols as strings."""
    t = I.freeze(st, t)
    return plain(t)


def plain(t):
    if t[0] == "c":
        return t[2]
    if t[0] in ("list", "tup"):
        return [plain(x) for x in t[1:]]
    if t[0] == "dict":
        return {plain(x[1]): plain(x[2]) for x in t[1:] if x[0] == "kv"}
    if t[0] == "obj":
        return {k: plain(v) for k, v in t[2]}
    return f"<{show(t)[:80]}>"


class Build(Kinds):
    def __init__(self, P):
        super().__init__(P)
        self.P = P
        self.stack = P.cls(RES, "Result.Callstack")
        self.graph = P.cls(CACHE, "ComparisonGraph")
        self.vertex = P.cls(CACHE, "ComparisonGraph.Vertex")
        self.syntax = P.cls(CACHE, "ComparisonGraph.SyntaxDiff")
        self.type = P.cls(CACHE, "ComparisonGraph.TypeDiff")

    def new(self, I, st, cls, *args, **kw):
        """Call a class of the repository."""
        return I.construct(cls, list(args), kw, st, None)

    def calls(self, I, st, names, side):
        xs = [I.alloc(st, HObj("dict", d={
            C("name"): C(n), C("file"): C(f"/{side}/{n}{side}.c"),
            C("line"): C(7)})) for n in names]
        return I.alloc(st, HObj("inst", self.stack,
                                {"calls": I.new_list(st, xs)}))

    def inner(self, I, st, kind, name, diff, covered, stacks=(),
              graph=NONE):
        r = self.result(I, st, kind, name, diff=diff, graph=graph)
        o = I.obj(st, r)
        for s, side in (("first", "old"), ("second", "new")):
            e = I.obj(st, o.d[s])
            e.d["covered"] = C(covered)
            e.d["body"] = NONE
            if stacks:
                e.d["callstack"] = self.calls(I, st, stacks, side)
        return r


def dict_of(I, st, pairs):
    return I.alloc(st, HObj("dict", d={C(k): v for k, v in pairs}))


def values(I, st, t):
    o = I.obj(st, t)
    if o is None or o.kind != "dict" or o.extra:
        return None
    return list(o.d.values())


# ---- joining of results ---------------------------------------------------
def joining(ck, P, B):
    f = P.func(RES, "Result.add_inner")
    ck.analysed.add(f.key)
    kinds = list(REPORTED) + ["ASSUMED_EQUAL", "NONE"]
    for names in itertools.product("mn", repeat=3):
        I = Interp(P)
        B.k(I, "NONE")
        st = State()
        me = B.result(I, st, "NONE", "all", graph=NONE)
        rs = []
        for i, n in enumerate(names):
            r = B.result(I, st, "NOT_EQUAL", n)
            rs.append(r)
            _, st = I.run(f, [me, r], {}, st)
        got = values(I, st, I.obj(st, me).d["inner"])
        ck.ob("result-kept", f"add_inner ({'same' if len(set(names)) < 3 else 'distinct'} names)",
              got is not None and [x for x in got if x in rs] == rs and
              len(got) == 3,
              f"results named {names}: {len(got or [])} of 3 are kept",
              f.where)
    for a, b in itertools.product(kinds, repeat=2):
        I = Interp(P)
        B.k(I, "NONE")
        st = State()
        me = B.result(I, st, "NONE", "all")
        for k, n in ((a, "m"), (b, "n")):
            _, st = I.run(f, [me, B.result(I, st, k, n)], {}, st)
        want = max((a, b), key=lambda k: I.enum_value(B.k(I, k))[2])
        got = {lf[2] if lf[0] == "enum" else show(lf)[:60]
               for lf, _ in leaves(I.obj(st, me).d["kind"])}
        ck.ob("kind-joined", f"{want}", got == {want},
              f"results {a} and {b} give {sorted(got)}", f.where)
    for gs in (("g", None), (None, "g"), ("g", None, None),
               (None, "g", None)):
        I = Interp(P)
        B.k(I, "NONE")
        st = State()
        me = B.result(I, st, "NONE", "all", graph=NONE)
        graph = I.alloc(st, HObj("inst", B.graph, {}))
        for i, g in enumerate(gs):
            r = B.result(I, st, "UNKNOWN", f"n{i}",
                         graph=graph if g else NONE)
            _, st = I.run(f, [me, r], {}, st)
        got = {lf for lf, _ in leaves(I.obj(st, me).d["graph"])}
        ck.ob("graph-kept", "add_inner", got == {graph},
              f"after results with graphs {gs} the graph is "
              f"{sorted(show(x) for x in got)}", f.where)


# ---- results of one function ----------------------------------------------
def of_function(ck, P, B):
    f = P.func(FD, "functions_diff")
    ck.analysed.add(f.key)
    cases = [(k, d, t) for k in REPORTED for d in ("", "text")
             for t in ("function", "type", "syntactic")]
    n = 0
    for full in (FALSE, TRUE):
        todo = [(c,) for c in cases] + [
            (a, b) for a in cases for b in cases
            if "NOT_EQUAL" in (a[0], b[0]) and a[2] != "type" != b[2]]
        for combo in todo:
            one_function(ck, P, B, f, combo, full)
            n += 1
    ck.floor("combinations of differences", n, 100)


def one_function(ck, P, B, f, combo, full):
    ents = []

    def simpll(I, st, fn, a, k, nd):
        g = ("sym", "newgraph")
        st.ostore[(g, "vertices")] = I.alloc(st, HObj("dict"))
        return ("tup", ("sym", "s1"), ("sym", "s2"), g, NONE)

    def pairs(I, st, fn, a, k, nd):
        ps, bl, br = [], [], []
        for i, (kind, d, t) in enumerate(combo):
            es = []
            for s in ("old", "new"):
                body = C(f"{d}{i}{s}") if t == "syntactic" else NONE
                es.append(I.alloc(st, HObj("inst", B.ent, {
                    "name": C("same"), "filename": C(f"file{i}{s}"),
                    "line": C(10 * i + (s == "new")), "callstack": NONE,
                    "diff_kind": C(t), "covered": C(False), "body": body})))
            ents.append(es)
            ps.append(("tup", es[0], es[1], B.k(I, kind)))
        return ("tup", I.new_list(st, ps), ("sym", "bl"), ("sym", "br"))

    def syntax(I, st, fn, a, k, nd):
        i = [e for e, es in enumerate(ents) if C(f"file{e}old") in
             list(a) + list(k.values())]
        if len(i) != 1:
            return ("sym", "other-diff")
        return C(combo[i[0]][1])
    I = Interp(P, hooks={
        "run_simpll": simpll, ".graph_to_fun_pair_list": pairs,
        "ComparisonGraph.graph_to_fun_pair_list": pairs,
        "syntax_diff": syntax}, opaque={"_link_symbol_def"})
    st = State()
    cfg = ("sym", "config")
    st.ostore[(cfg, "semdiff_tool")] = NONE
    st.ostore[(cfg, "full_diff")] = full
    v, st = I.run(f, [], {"config": cfg, "prev_result_graph": NONE,
                          "function_cache": NONE}, st)
    # the normal way through (failures give no list at all)
    v = normal(v)
    o = I.obj(st, v)
    got = no_exception(I, st, o)
    what = f"{[c for c in combo]}{' with full diff' if full == TRUE else ''}"
    if got is None:
        raise AnalysisBroken("functions_diff: inner results not understood")
    firsts = [I.obj(st, r).d["first"] for r in got]
    for i, (kind, d, t) in enumerate(combo):
        need = not (kind == "EQUAL" and (
            d == "" and t != "syntactic" or full == FALSE))
        here = [r for r, e in zip(got, firsts) if e == ents[i][0]]
        if need:
            ck.ob("difference-recorded", f"functions_diff ({t})",
                  len(here) == 1, f"{what}: difference {i} is recorded "
                  f"{len(here)} times", f.where)
        for r in here:
            ro = I.obj(st, r)
            ck.ob("entities-kept", f"functions_diff ({t})",
                  ro.d["second"] == ents[i][1],
                  f"{what}: the new version of difference {i} is "
                  f"{show(I.freeze(st, ro.d['second']))[:80]}", f.where)
            if kind == "NOT_EQUAL" or full == TRUE:
                txt = flat(I.freeze(st, ro.d["diff"]))
                if t == "syntactic":
                    a, b = (txt.find(f"{d}{i}{s}") for s in ("old", "new"))
                    ok = -1 < a < b
                else:
                    ok = txt == d
                ck.ob("text-kept", f"functions_diff ({t})", ok,
                      f"{what}: text of difference {i} is {txt!r}", f.where)


def no_exception(I, st, o):
    """Values of the inner results when nothing was raised."""
    t = o.d["inner"] if o is not None else None
    d = I.obj(st, normal(t)) if t is not None else None
    if d is None or d.kind != "dict":
        return None
    out = []

    def rec(items):
        for x in items:
            if x[0] == "?cond":
                v = decide(x[1], {c: False for c in excs(x[1])})
                if v is None:
                    return False
                if not rec(x[2] if v else x[3]):
                    return False
            elif x[0] == "kv":
                out.append(normal(x[2]))
            else:
                return False
        return True
    for v in d.d.values():
        v = normal(v)
        if v != MISSING:
            out.append(v)
    ok = rec(d.extra) and all(v[0] == "ref" for v in out)
    return out if ok else None


def excs(t):
    return {x for x in subterms(t) if x[0] == "sym" and
            str(x[1]).startswith("exc:")}


def normal(t):
    """Value of a term when nothing was raised."""
    while t[0] == "ite":
        v = decide(t[1], {c: False for c in excs(t[1])})
        if v is None:
            break
        t = t[2] if v else t[3]
    return t


# ---- text -----------------------------------------------------------------
def printed(ck, P, B):
    f = P.func("diffkemp.diffkemp", "print_syntax_diff")
    ck.analysed.add(f.key)
    kinds = [("NOT_EQUAL", d, c) for d in ("", "\n", "text of {}\n")
             for c in (True, False)]
    n = 0
    for outdir in (NONE, C("/out")):
        for shown in (TRUE, FALSE):
            for combo in [(k,) for k in kinds] + list(
                    itertools.product(kinds, repeat=2)):
                n += 1
                I = Interp(P)
                st = State()
                B.k(I, "NONE")
                names = ["zeta", "alpha"]
                rs = [(names[i], B.inner(
                    I, st, k, names[i], C(d.format(names[i])), c,
                    [f"call{names[i]}"])) for i, (k, d, c) in
                    enumerate(combo)]
                me = B.result(I, st, "NOT_EQUAL", "fun",
                              inner=dict_of(I, st, rs))
                I.run(f, [], {
                    "fun_result": me, "fun": C("fun"), "output_dir": outdir,
                    "full_diff": FALSE, "show_diff": shown,
                    "initial_indent": C(0), "fun_tag": NONE,
                    "snapshot_dir_old": C("old"),
                    "snapshot_dir_new": C("new")}, st)
                txt = text_of(I)
                for i, (k, d, c) in enumerate(combo):
                    need = not (d == "" and c)
                    where = f"differences {combo}, show {shown[2]}"
                    pos = txt.find(f"{names[i]} differs")
                    if not need:
                        continue
                    ck.ob("difference-printed", "print_syntax_diff",
                          f"{names[i]}" in txt, f"{where}: difference {i} "
                          "is not printed", f.where)
                    ck.ob("calls-printed", "print_syntax_diff",
                          all(f"call{names[i]}{s}.c" in txt
                              for s in ("old", "new")),
                          f"{where}: the calls leading to difference {i} "
                          "are not printed for both versions", f.where)
                    if shown == TRUE:
                        ck.ob("text-printed", "print_syntax_diff",
                              d.format(names[i]).strip() in txt,
                              f"{where}: text of difference {i} is not "
                              "printed", f.where)
    # semantics-preserving differences on request
    for d in ("", "text"):
        I = Interp(P)
        st = State()
        B.k(I, "NONE")
        me = B.result(I, st, "EQUAL", "fun", inner=dict_of(I, st, [
            ("first", B.inner(I, st, "EQUAL", "first", C(""), False)),
            ("gamma", B.inner(I, st, "EQUAL", "gamma", C(d), False))]))
        I.run(f, [], {"fun_result": me, "fun": C("fun"), "output_dir": NONE,
                      "full_diff": TRUE, "show_diff": TRUE,
                      "initial_indent": C(0), "fun_tag": NONE,
                      "snapshot_dir_old": C("old"),
                      "snapshot_dir_new": C("new")}, st)
        if d:
            ck.ob("difference-printed", "print_syntax_diff (full diff)",
                  "gamma" in text_of(I), "a textual difference of an equal "
                  "function is not printed", f.where)
    ck.floor("printed lists of differences", n, 100)


# ---- YAML ------------------------------------------------------------------
def yaml_output(ck, P, B):
    cls = P.cls("diffkemp.output", "YamlOutput")
    init = P.func("diffkemp.output", "YamlOutput.__init__")
    ck.analysed.add(init.key)
    one = [("NOT_EQUAL", d, c) for d in ("", "text") for c in (True, False)]
    n = 0
    for combo in [(k,) for k in one] + list(itertools.product(one, repeat=2)):
        for graphs in ("both", "first", "second", "outer", "none"):
            n += 1
            yaml_case(ck, P, B, cls, init, combo, graphs)
    ck.floor("YAML outputs", n, 50)


def yaml_case(ck, P, B, cls, init, combo, graphs):
    def end_line(I, st, fn, a, k, nd):
        return C(99)
    I = Interp(P, hooks={"get_end_line": end_line,
                         "os.path.relpath": lambda I, st, fn, a, k, nd:
                         a[0]})
    st = State()
    B.k(I, "NONE")
    funs = []
    for i, fun in enumerate(("f1", "f2")):
        rs = []
        for j, (k, d, c) in enumerate(combo):
            name = f"diff{i}{j}"
            # names of called functions are in the graph
            rs.append((name, B.inner(I, st, k, name, C(d), c,
                                     [f"call{i}{j}"])))
        names = [fun] + [f"call{i}{j}" for j in range(len(combo))]
        vs = dict_of(I, st, [(x, I.alloc(st, HObj("inst", B.vertex, {
            "names": ("tup", C(x), C(x)), "files": (
                "tup", C(f"/old/{x}.c"), C(f"/new/{x}.c")),
            "lines": ("tup", C(5), C(6)),
            "nonfun_diffs": I.new_list(st, ()),
            "result": B.k(I, "NOT_EQUAL")}))) for x in names])
        g = I.alloc(st, HObj("inst", B.graph, {"vertices": vs}))
        funs.append((fun, rs, g, names))
    alls = B.result(I, st, "NOT_EQUAL", "all", graph=NONE)
    # an equal function, a failed one, and two with the same name
    inner = [("e", B.result(I, st, "EQUAL", "e", graph=NONE)),
             ("u", B.result(I, st, "UNKNOWN", "u", graph=NONE))]
    for i, (fun, rs, g, names) in enumerate(funs):
        own = graphs == "both" or graphs == ("first", "second")[i]
        inner.append((fun, B.result(
            I, st, "NOT_EQUAL", fun, inner=dict_of(I, st, rs),
            graph=g if own else NONE)))
    I.obj(st, alls).d["inner"] = dict_of(I, st, inner)
    if graphs == "outer":
        I.obj(st, alls).d["graph"] = funs[1][2]
    elif graphs == "both":
        I.obj(st, alls).d["graph"] = funs[1][2]
    me = I.alloc(st, HObj("inst", cls, {}))
    _, st = I.run(init, [me, C("/old"), C("/new"), alls], {}, st)
    out = const(I, st, I.obj(st, me).d["output"])
    res = out.get("results") if isinstance(out, dict) else None
    if not isinstance(res, list):
        raise AnalysisBroken("YAML output has no list of results")
    what = f"differences {combo}, graphs {graphs}"
    for i, (fun, rs, g, names) in enumerate(funs):
        here = [x for x in res if isinstance(x, dict) and
                x.get("function") == fun]
        ck.ob("function-in-yaml", "YamlOutput", len(here) == 1,
              f"{what}: function {i} is there {len(here)} times", init.where)
        diffs = here[0].get("diffs", []) if here else []
        if not isinstance(diffs, list):
            raise AnalysisBroken(f"YAML differences: {str(diffs)[:100]}")
        for j, (k, d, c) in enumerate(combo):
            if d == "" and c:
                continue
            mine = [x for x in diffs if x.get("function") == f"diff{i}{j}"]
            ck.ob("difference-in-yaml", "YamlOutput", len(mine) == 1,
                  f"{what}: difference {j} is there {len(mine)} times",
                  init.where)
            for x in mine:
                for s in ("old", "new"):
                    cs = [(y.get("name"), y.get("line"),
                           str(y.get("file")).split("/")[-1])
                          for y in x.get(f"{s}-callstack", [])
                          if isinstance(y, dict)]
                    ck.ob("calls-in-yaml", f"YamlOutput ({s})",
                          cs == [(f"call{i}{j}", 7, f"call{i}{j}{s}.c")],
                          f"{what}: calls of difference {j}: {cs}",
                          init.where)
        known = graphs == "both" or graphs == ("first", "second")[i] or \
            graphs == "outer" and i == 1
        if known:
            defs = out.get("definitions", {})
            need = [fun] + [f"call{i}{j}" for j, (k, d, c) in
                            enumerate(combo) if not (d == "" and c)]
            for x in need:
                dd = defs.get(x, {})
                ok = isinstance(dd, dict) and all(
                    dd.get(s, {}).get("line") == ln and
                    str(dd[s].get("file")).endswith(f"{x}.c")
                    for s, ln in (("old", 5), ("new", 6)))
                ck.ob("definition-in-yaml", f"YamlOutput ({graphs})", ok,
                      f"{what}: definition of a function on the way to the "
                      f"difference is {dd}", init.where)


# ---- from the report of the engine -----------------------------------------
def from_report(ck, P, B):
    f = P.func(CACHE, "ComparisonGraph.Vertex.from_yaml")
    ck.analysed.add(f.key)

    def ydict(I, st, d):
        def conv(v):
            if isinstance(v, dict):
                return ydict(I, st, v)
            if isinstance(v, list):
                return I.new_list(st, [conv(x) for x in v])
            return C(v)
        return I.alloc(st, HObj("dict", d={C(k): conv(v)
                                           for k, v in d.items()}))
    syn = {"name": "MAC{}", "function": "fun", "stack-first": [],
           "stack-second": [], "body-first": "b1", "body-second": "b2"}
    typ = {"name": "struct{}", "function": "fun", "stack-first": [],
           "stack-second": [], "file-first": "a.h", "file-second": "b.h",
           "line-first": 1, "line-second": 2}
    n = 0
    for k in range(4):
        for combo in itertools.product("st", repeat=k):
            n += 1
            objs = []
            for i, c in enumerate(combo):
                o = dict(syn if c == "s" else typ)
                o["name"] = o["name"].format(i)
                objs.append(o)
            side = {"function": "fun", "file": "a.c", "line": 3,
                    "calls": [{"function": "callee", "file": "a.c",
                               "line": 4, "weak": False}]}
            rep = {"result": "not-equal", "first": side,
                   "second": dict(side)}
            if objs:
                rep["differing-objects"] = objs
            I = Interp(P)
            st = State()
            B.k(I, "NONE")
            r = ydict(I, st, rep)
            v, st = I.run(f, [("class", B.vertex), r], {}, st)
            o = I.obj(st, v)
            if o is None:
                raise AnalysisBroken("from_yaml gives no vertex")
            fr = I.freeze(st, o.d.get("nonfun_diffs", NONE))
            got = []
            for x in fr[1:]:
                if x[0] == "obj":
                    d = dict(x[2])
                    got.append((d["name"][2] if d["name"][0] == "c" else "?",
                                x[1].split(".")[-1]))
            want = [(o["name"], "SyntaxDiff" if c == "s" else "TypeDiff")
                    for o, c in zip(objs, combo)]
            ck.ob("reported-object-kept", "Vertex.from_yaml",
                  [g[0] for g in got] == [w[0] for w in want],
                  f"objects {want} become {got}", f.where)
            kind = o.d.get("result")
            ck.ob("reported-object-kept", "Vertex.from_yaml (verdict)",
                  kind == B.k(I, "NOT_EQUAL"), f"verdict becomes "
                  f"{show(kind)}", f.where)
    ck.floor("reports", n, 10)


# ---- pairs to report ---------------------------------------------------------
def to_pairs(ck, P, B):
    f = P.func(CACHE, "ComparisonGraph.graph_to_fun_pair_list")
    ck.analysed.add(f.key)
    n = 0
    shapes = [(k, nf) for k in ("EQUAL", "NOT_EQUAL", "UNKNOWN",
                                "ASSUMED_EQUAL")
              for nf in ("", "s", "t", "ss", "st")]
    for start, callee in itertools.product(shapes, repeat=2):
        if start[0] == "EQUAL" and callee[0] in ("EQUAL", "ASSUMED_EQUAL"):
            continue
        n += 1
        pairs_case(ck, P, B, f, (start, callee))
    ck.floor("graphs", n, 100)


def pairs_case(ck, P, B, f, shape):
    I = Interp(P)
    st = State()
    B.k(I, "NONE")
    verts, want = {}, []
    names = ("fun", "callee")
    for v, (kind, nf) in enumerate(shape):
        diffs = []
        for i, c in enumerate(nf):
            d = {"name": C("same" if c == "s" else f"struct{v}{i}"),
                 "parent_fun": C(names[v]),
                 "callstack": ("tup", *[I.new_list(st, [I.alloc(st, HObj(
                     "dict", d={C("function"): C(f"mac{v}{i}"),
                                C("file"): C(f"{s}.c"),
                                C("line"): C(3)}))]) for s in
                     ("old", "new")])}
            if c == "s":
                d["body"] = ("tup", C(f"old{v}{i}"), C(f"new{v}{i}"))
                diffs.append(I.alloc(st, HObj("inst", B.syntax, d)))
            else:
                d["file"] = ("tup", C("old.h"), C("new.h"))
                d["line"] = ("tup", C(100 + 10 * v + i),
                             C(200 + 10 * v + i))
                diffs.append(I.alloc(st, HObj("inst", B.type, d)))
        edge = I.alloc(st, HObj("inst", P.cls(CACHE, "ComparisonGraph.Edge"), {
            "parent_vertex": NONE, "target_name": C("callee"),
            "filename": C("a.c"), "line": C(42),
            "kind": ("enum", "ComparisonGraph.DependencyKind", "STRONG")}))
        I.enums["ComparisonGraph.DependencyKind"] = P.cls(
            CACHE, "ComparisonGraph.DependencyKind")
        verts[names[v]] = I.alloc(st, HObj("inst", B.vertex, {
            "names": ("tup", C(names[v]), C(names[v])),
            "result": B.k(I, kind), "nonfun_diffs": I.new_list(st, diffs),
            "successors": ("tup", I.new_list(st, [edge] if v == 0 else ()),
                           I.new_list(st, [edge] if v == 0 else ())),
            "files": ("tup", C("old/a.c"), C("new/a.c")),
            "lines": ("tup", C(10 + v), C(20 + v)), "stats": NONE,
            "cachable": TRUE}))
        if v == 0:
            start = verts["fun"]
        I.obj(st, edge).d["parent_vertex"] = start
    edge = ("ref", None)
    g = I.alloc(st, HObj("inst", B.graph, {
        "vertices": dict_of(I, st, list(verts.items()))}))

    def reach(I, st, fn, a, k, nd):
        o = I.obj(st, I.obj(st, verts["fun"]).d["successors"][1])
        back = I.alloc(st, HObj("dict", d={verts["callee"]: o.items[0]}))
        return ("tup", I.new_list(st, [verts["fun"], verts["callee"]]), back)
    I.hooks = {"ComparisonGraph.reachable_from": reach,
               ".reachable_from": reach}
    v, st = I.run(f, [g, C("fun"), C("fun"), FALSE], {}, st)
    fr = I.freeze(st, v)
    if fr[0] not in ("tup", "list") or fr[1][0] != "list":
        raise AnalysisBroken("pairs to report are not a list")
    got = []
    for p in fr[1][1:]:
        if p[0] not in ("tup", "list"):
            raise AnalysisBroken(f"pair not understood: {show(p)[:120]}")
        got.append(tuple(plain(x) for x in p[1:]))
    for v, (kind, nf) in enumerate(shape):
        if kind in ("EQUAL", "ASSUMED_EQUAL"):
            continue
        fun = [p for p in got if p[0].get("diff_kind") == "function" and
               p[0]["name"] == names[v] and p[1]["name"] == names[v]]
        what = f"a {kind} function with {len(nf)} other differences ({nf})"
        ck.ob("function-listed", "graph_to_fun_pair_list", len(fun) == 1,
              f"{what} is listed {len(fun)} times", f.where)
        mine = [p for p in got if p[0].get("diff_kind") != "function"]
        for i, c in enumerate(nf):
            if c == "s":
                ok = [p for p in mine if p[0]["diff_kind"] == "syntactic" and
                      p[0].get("body") == f"old{v}{i}" and
                      p[1].get("body") == f"new{v}{i}"]
            else:
                ok = [p for p in mine if p[0]["diff_kind"] == "type" and
                      p[0]["line"] == 100 + 10 * v + i and
                      p[1]["line"] == 200 + 10 * v + i]
            ck.ob("other-difference-listed", "graph_to_fun_pair_list",
                  len(ok) == 1, f"{what}: difference {i} is listed "
                  f"{len(ok)} times with its own text or place", f.where)
            for p in ok:
                for s in (0, 1):
                    cs = p[s].get("callstack")
                    cs = [x.get("name") for x in cs.get("calls", [])] \
                        if isinstance(cs, dict) else cs
                    want = (["callee"] if v else []) + [f"mac{v}{i}"]
                    ck.ob("calls-of-difference", "graph_to_fun_pair_list",
                          cs == want, f"{what}: calls leading to difference "
                          f"{i} are {cs}, not {want}", f.where)
        for p in fun:
            # a function is hidden only together with another difference
            for s in (0,):
                ck.ob("covered-by-another", "graph_to_fun_pair_list",
                      p[s].get("covered") is False or
                      p[s].get("covered") is True and bool(nf),
                      f"{what} may be hidden", f.where)
    # nothing of equal functions hides another
    return


# ---- statistics -------------------------------------------------------------
def statistics(ck, P, B):
    f = P.func(RES, "Result.report_object_stat")
    ck.analysed.add(f.key)
    cats = {"function": "In functions", "type": "In types",
            "syntactic": "In macros"}
    for graph in ("none", "own"):
        for combo in itertools.product(
                [(t, d, c) for t in cats for d in ("", "text")
                 for c in (True, False)], repeat=2):
            I = Interp(P)
            st = State()
            B.k(I, "NONE")
            rs = []
            want = {"Total differences": 0, "Empty diffs": 0,
                    **{x: 0 for x in cats.values()}}
            for i, (t, d, c) in enumerate(combo):
                r = B.inner(I, st, "NOT_EQUAL", f"d{i}", C(d), c)
                I.obj(st, I.obj(st, r).d["first"]).d["diff_kind"] = C(t)
                rs.append((f"d{i}", r))
                if not (d == "" and c):
                    want["Total differences"] += 1
                    want[cats[t]] += 1
                    want["Empty diffs"] += d == ""
            g = NONE
            if graph == "own":
                g = I.alloc(st, HObj("inst", B.graph,
                                     {"vertices": I.alloc(st, HObj("dict"))}))
            me = B.result(I, st, "NOT_EQUAL", "all", graph=g, inner=dict_of(
                I, st, [("f", B.result(I, st, "NOT_EQUAL", "f", graph=g,
                                       inner=dict_of(I, st, rs)))]))
            _, st = I.run(f, [me], {}, st)
            got = {}
            for line in text_of(I).split("\n"):
                if ":" in line:
                    k, v = line.split(":", 1)
                    got[k.strip()] = v.split()[0] if v.split() else None
            if "Total differences" not in got:
                raise AnalysisBroken("no total of differences printed")
            if not want["Total differences"]:
                want = {"Total differences": 0}
            for k, v in want.items():
                ck.ob("difference-counted", f"report_object_stat ({k})",
                      got.get(k) == str(v), f"{combo}: '{k}' is "
                      f"{got.get(k)}, not {v}", f.where)


# ---- compare command -------------------------------------------------------
def command(ck, P, B):
    f = P.func("diffkemp.diffkemp", "compare")
    made, joined = [], []

    def diff(I, st, fn, a, kw, n):
        r = B.result(I, st, "NOT_EQUAL", "compared", inner=dict_of(
            I, st, [("d", B.inner(I, st, "NOT_EQUAL", "d", C("text"),
                                  False))]))
        made.append(r)
        return r

    def add(I, st, fn, a, kw, n):
        if allowed(st.facts, ()):
            joined.append(a[-1] if a else kw.get("result"))
        return NONE
    I = Interp(P, hooks={"functions_diff": diff, "Result.add_inner": add},
               opaque={"Config", "SimpLLCache", "LlvmModule", "YamlOutput",
                       "Config.from_args", "default_output_dir",
                       "_get_modules_to_cache", "LlvmParam",
                       "Result.report_stat", "print_syntax_diff",
                       "diffkemp.diffkemp:print_syntax_diff"})
    B.k(I, "NONE")
    _, st = I.run(f, [("sym", "args")], {}, State())
    ck.analysed |= I.analysed
    ck.ob("result-joined", "compare", bool(made) and all(
        r in joined for r in made),
        "the result of a compared function is not joined", f.where)
    shown = yml = saved = stat = False
    for e in I.events:
        args = list(e.args) + [v for v in e.kwargs.values()]
        last = e.name.split(".")[-1]
        if last == "print_syntax_diff":
            txt = [x for a in args for x in subterms(a)]
            shown |= any(C("text") == x for x in txt) and allowed(
                e.facts, ("full_diff", "regex", "output_dir", "stdout"))
        if last == "YamlOutput" or last == "YamlOutput.__init__" or \
                "@new.YamlOutput" in e.name:
            yml |= any("Result" in show(a)[:60] for a in args) and allowed(
                e.facts, ("output_dir", "stdout"))
        if last == "save" and allowed(e.facts, ("output_dir", "stdout")):
            saved = True
        if last == "report_stat":
            stat |= allowed(e.facts, ("report_stat", "extended_stat"))
    ck.ob("difference-shown", "compare", shown,
          "a function that differs is not printed in all cases", f.where)
    ck.ob("yaml-written", "compare", yml and saved,
          "the YAML output is not written in all cases", f.where)
    ck.ob("statistics-printed", "compare", stat,
          "the requested statistics are not printed", f.where)


def options(t):
    """Names of the user's options a term depends on."""
    return {x[2] for x in subterms(t) if x[0] == "attr" and (
        x[1] == ("sym", "args") or x[1][0] == "call" and
        "Config" in show(x[1][1]))}


def allowed(facts, words):
    """The conditions depend on no other options than the given ones."""
    return all(any(w in o for w in words + ("snapshot_", "mod"))
               for c, p in facts for o in options(c))


def run():
    ck = Check("P17", RULE)
    ck.assumptions += [
        "lists of up to two differences (three for joining and reading) "
        "stand for longer ones: every loop treats its elements alike",
        "a difference with an empty text is hidden only if the engine "
        "attached another difference to the same function"]
    P = Program(REPO)
    B = Build(P)
    joining(ck, P, B)
    of_function(ck, P, B)
    printed(ck, P, B)
    yaml_output(ck, P, B)
    from_report(ck, P, B)
    to_pairs(ck, P, B)
    statistics(ck, P, B)
    command(ck, P, B)
    return ck
