"""P04: the report of the engine is understood as it was meant."""
import re
from lib.report import Check, REPO
from lib.pyfront import Program, AnalysisBroken
from lib.interp import C, FALSE, NONE, Interp, State, show, subterms
from lib.terms import leaves
from lib.cxxfront import CxxProgram
from lib.cxxcmp import path
from lib.cxxpass import PassExplore, passes
from lib.cxxrules import names
from checks.p13 import History
from checks.p17 import Build

RULE = (
    "The format of the report is taken from the code which writes it (keys, "
    "members, types, defaults and names of verdicts, by abstract "
    "interpretation of all YAML mappings); reports built in that format, "
    "with a distinct value in every member and every subset of the parts "
    "that may be left out, are given to the abstract interpretation of the "
    "code reading them, and every value must arrive at its place. In "
    "addition: how texts are quoted, who writes to the standard output, and "
    "how the report gets from the engine to the reader.")

MAP = re.compile(r"(^|::)IO::map(Required|Optional)$")
TEXT = re.compile(r"basic_string|StringRef|std::string|^(const )?char")
# where the reader keeps the members (attributes of its objects)
PLACE = {
    ("FunctionInfo", "name"): "names", ("FunctionInfo", "file"): "files",
    ("FunctionInfo", "line"): "lines",
    ("FunctionStats", "instCnt"): "inst_cnt",
    ("FunctionStats", "instEqualCnt"): "inst_equal_cnt",
    ("FunctionStats", "linesCnt"): "lines_cnt",
    ("CallInfo", "fun"): "target_name", ("CallInfo", "file"): "filename",
    ("CallInfo", "line"): "line", ("CallInfo", "weak"): "kind",
    ("NonFunctionDifference", "name"): "name",
    ("NonFunctionDifference", "function"): "parent_fun",
    ("NonFunctionDifference", "StackL"): "callstack",
    ("NonFunctionDifference", "StackR"): "callstack",
    ("NonFunctionDifference", "BodyL"): "body",
    ("NonFunctionDifference", "BodyR"): "body",
    ("NonFunctionDifference", "FileL"): "file",
    ("NonFunctionDifference", "FileR"): "file",
    ("NonFunctionDifference", "LineL"): "line",
    ("NonFunctionDifference", "LineR"): "line",
    ("Result", "kind"): "result",
}
ATTRS = set(PLACE.values())
VERDICTS = {"EQUAL": "EQUAL", "NOT_EQUAL": "NOT_EQUAL",
            "ASSUMED_EQUAL": "ASSUMED_EQUAL", "UNKNOWN": "UNKNOWN"}


class Entry:
    """One key of a mapping."""

    def __init__(self, fn, e):
        self.fn, self.e = fn, e
        a = e.args[1:]
        self.key = a[0][2] if a[0][0] == "c" else None
        self.required = e.name.endswith("mapRequired")
        self.value = path(a[1])
        p = [x["n"] for x in fn.params][-1]
        m = re.search(rf"\b{p}\b\)?\.?(?:->)?(\w+)", self.value)
        self.member = m.group(1) if m else self.value
        self.default = a[2] if len(a) > 2 else None
        self.facts = e.facts
        self.ctype = "?"
        node = e.node
        for n in fn.body.walk():
            if n.is_call() and MAP.search(n.callee) and any(
                    c.k == "StringLiteral" and self.key in
                    (c.get("s"), c.get("v"), c.get("str"))
                    for c in n.args()):
                node = n
        n = getattr(node, "cnode", None) or node
        if hasattr(n, "args") and callable(n.args):
            ar = n.args()
            if len(ar) > 1:
                self.ctype = ar[1].t
        self.sequence = bool(re.search(r"vector|SmallVector|CallStack|list<",
                                       self.ctype))


def record_of(t):
    """Name of the structure a mapping is of."""
    t = re.sub(r"\b(const|struct|class)\b|[&*]", "", t).strip()
    m = re.search(r"unique_ptr<(\w+)", t)
    if m:
        return m.group(1)
    if "pair<" in t and "GlobalValue" in t:
        return "MissingDef"
    return t


class Format:
    """What the engine writes."""

    def __init__(self, ck, prog):
        self.maps = {}
        self.kinds = {}
        self.fns = {}
        for f in prog.funcs.values():
            if not any(n.is_call() and (MAP.search(n.callee) or
                                        n.callee.endswith("::enumCase"))
                       for n in f.body.walk()):
                continue
            if len(f.params) != 2:
                continue
            v, ic, st = passes(prog, f, set())
            ck.analysed.update(ic.analysed)
            rec = record_of(f.params[1].get("t", ""))
            es = [Entry(f, e) for e in ic.events if MAP.search(e.name)]
            for e in es:
                if e.key is None:
                    raise AnalysisBroken(f"{f.q}: key not understood")
            if es:
                self.maps.setdefault(rec, []).extend(es)
                self.fns[rec] = f
            for e in ic.events:
                if e.name.endswith("::enumCase") and len(e.args) > 3:
                    self.kinds[path(e.args[3]).split("::")[-1]] = \
                        (e.args[2][2], f)
        if not self.maps:
            raise AnalysisBroken("no mapping of the report is found")

    def of_variant(self, rec, variant):
        out = []
        for e in self.maps.get(rec, []):
            ok = True
            for t, p in e.facts:
                ts = [m.group(1) for s in subterms(t)
                      for m in [re.search(r"dyn_cast<(?:\w+::)*(\w+)>",
                                          str(s[1]) if len(s) > 1 else "")]
                      if m]
                if ts and (ts[-1] == variant) != p:
                    ok = False
            if ok:
                out.append(e)
        return out


class Maker:
    """Reports in the format of the engine, with distinct values."""

    def __init__(self, fmt, omit=(), variant=None, kind="NOT_EQUAL",
                 weak=False):
        self.fmt, self.omit, self.variant = fmt, omit, variant
        self.kind, self.weak = kind, weak
        self.placed = []            # (record, member, side, value)
        self.n = 100
        self.fixed = {}

    def make(self, rec, side=None, where=()):
        out = {}
        for e in self.fmt.of_variant(rec, self.variant):
            if (rec, e.key) in self.omit:
                continue
            w = where + (e.key,)
            s = side
            if rec == "Result" and e.member in ("First", "Second"):
                s = 0 if e.member == "First" else 1
            if rec == "NonFunctionDifference":
                s = {"L": 0, "R": 1}.get(e.member[-1], None)
            v = self.value(rec, e, s, w)
            out[e.key] = v = self.fixed.get((rec, e.member), v)
            if not isinstance(v, (dict, list)):
                self.placed.append((rec, e.member, s, v, w))
        return out

    def value(self, rec, e, side, w):
        t = e.ctype
        self.n += 1
        if "Kind" in t:
            if self.kind not in self.fmt.kinds:
                return None
            return self.fmt.kinds[self.kind][0]
        for r in self.fmt.maps:
            if r == "MissingDef" and "GlobalValuePair" in t or \
                    re.search(rf"\b{r}\b", t) and r != rec:
                d = self.make(r, side, w)
                return [d] if e.sequence else d
        if "CallStack" in t:
            return [self.make("CallInfo", side, w)]
        if t in ("bool", "mutable bool"):
            return self.weak
        if re.search(r"\b(int|unsigned|long|size_t|uint\w+)\b", t):
            return self.n
        return f"{rec}_{e.member}_{side}_{self.n}"


def flat(fr, at=()):
    """All simple values in a frozen structure with the way to them."""
    k = fr[0]
    if k == "obj":
        for a, v in fr[2]:
            yield from flat(v, at + (a,))
    elif k in ("list", "tup", "set"):
        for i, v in enumerate(fr[1:]):
            if isinstance(v, tuple):
                yield from flat(v, at + (i,))
    elif k == "dict":
        for kv in fr[1:]:
            if kv[0] == "kv":
                yield from flat(kv[2], at + (kv[1][2] if kv[1][0] == "c"
                                             else "?",))
                yield at + ("@key",), kv[1]
            else:
                yield at, kv
    else:
        yield at, fr


def position(at):
    """Version which a place in the graph belongs to."""
    for i, x in enumerate(at[:-1]):
        if (x in ATTRS or x == "successors") and at[i + 1] in (0, 1):
            return at[i + 1]
    return None


def read(P, B, report, extra=None, links=None):
    H = History(P, B, real_pairs=False)
    H.extra = extra or {}
    if links is not None:
        def link(I, st, fn, a, k, n):
            links.append([show(I.freeze(st, x))[:120] for x in a])
            return FALSE
        H.I.hooks["_link_symbol_def"] = link
        H.I.opaque.discard("_link_symbol_def")
    H.compare("main", ("old/a.ll", "new/a.ll"), [report])
    return H, H.I.freeze(H.st, H.graph)


def written(ck, fmt):
    """What is written under a key is a member of the record."""
    for rec, es in fmt.maps.items():
        if rec == "PatternConfiguration":
            continue
        for e in es:
            ck.ob("member-written", f"{rec}: {e.key}",
                  e.e.args[2][0] != "c", f"what is written as {e.key} of "
                  f"{rec} does not come from it ({e.value})",
                  f"({e.fn.rel}: {e.fn.q})")


def members(ck, P, B, fmt):
    """Every member arrives at its place."""
    n = 0
    opts = sorted({(r, e.key) for r, es in fmt.maps.items() for e in es
                   if not e.required and (e.default is not None
                                          or e.sequence)})
    cases = [((), v, k, w) for v in ("SyntaxDifference", "TypeDifference")
             for k in VERDICTS for w in (False, True)]
    cases += [((o,), v, "NOT_EQUAL", False) for o in opts
              if o[0] not in ("OverallResult", "MissingDef")
              for v in ("SyntaxDifference", "TypeDifference")]
    cases = [c + ((),) for c in cases]
    cases += [((), v, "NOT_EQUAL", False, (("NonFunctionDifference", x),))
              for v in ("SyntaxDifference", "TypeDifference")
              for x in ("BodyL", "BodyR", "FileL", "FileR")]
    for omit, variant, kind, weak, blank in cases:
        m = Maker(fmt, omit, variant, kind, weak)
        m.fixed = {x: "" for x in blank}
        try:
            report = m.make("Result")
        except RecursionError:
            raise AnalysisBroken("format of the report is recursive")
        what = f"{variant}, {kind}" + (", weak" if weak else "") + \
            "".join(f", without {r}: {k}" for r, k in omit) + \
            "".join(f", empty {k}" for r, k in blank)
        try:
            H, fr = read(P, B, report)
        except AnalysisBroken as e:
            ck.violate("report-read", what, "the report of the engine cannot "
                       f"be read when it has: {what}; {e}")
            continue
        ck.analysed |= H.I.analysed
        vs = list(flat(fr))
        where = "(diffkemp/semdiff/caching.py)"
        bad = [(at, show(v)[:80]) for at, v in vs if v[0] not in
               ("c", "enum") and at and at[0] == "vertices" and
               "names" not in at[2:2] and
               not {"parent_vertex", "predecessors", "modules"} & set(at)
               and v != NONE]
        bad = [b for b in bad if "config" not in b[1]]
        ck.ob("only-written-read", what, not bad,
              f"the reader of the report uses a value the engine does not "
              f"write at {'.'.join(map(str, bad[0][0]))}: {bad[0][1]}"
              if bad else "", where)
        for rec, member, side, val, w in m.placed:
            if rec == "OverallResult":
                continue
            n += 1
            attr = PLACE.get((rec, member))
            if (rec, member) == ("Result", "kind"):
                got = [at for at, v in vs if at[-1:] == ("result",) and
                       v[0] == "enum" and v[2] == VERDICTS[kind]]
                seen = [show(v) for at, v in vs if at[-1:] == ("result",)]
                ck.ob("verdict", f"{kind}", bool(got) and len(seen) ==
                      len(got), f"a pair of functions which the engine "
                      f"reports as {kind} ({val}) is taken for {seen}",
                      where)
                continue
            if isinstance(val, bool):
                got = [v for at, v in vs if at[-1:] == ("kind",) and
                       v[0] == "enum"]
                if "stack" in "".join(w):
                    continue
                ck.ob("member", f"{rec}.{member}", bool(got) and all(
                    (v[2] == "WEAK") == weak for v in got),
                    f"a call marked {'weak' if weak else 'not weak'} is "
                    f"taken for {[show(v) for v in got]}", where)
                continue
            if val == "":
                continue
            at = [a for a, v in vs if v == C(val)]
            if not at:
                ck.ob("member", f"{rec}.{member}", False,
                      f"{member} of {rec}, written as "
                      f"{': '.join(w)}, is not read ({what})", where)
                continue
            if attr is None or "calls" not in w and rec == "CallInfo":
                ck.ob("member", f"{rec}.{member} in {w[-2]}", True, "", where)
                continue
            on = {s for s in (position(a) for a in at) if s is not None}
            ck.ob("member-side", f"{rec}.{member}", side is None or not on
                  or on == {side}, f"{member} of the "
                  f"{('first', 'second')[side or 0]} version is taken for "
                  "the other version's", where)
            known = [[x for x in a if x in ATTRS][-1:] for a in at
                     if any(x in ATTRS for x in a)]
            ck.ob("member", f"{rec}.{member}", not known or
                  [attr] in known,
                  f"{member} of {rec} is taken for {known} instead of "
                  f"{attr} ({what})", where)
    ck.floor("members of reports followed", n, 300)
    return n


def omitted(ck, P, B, fmt):
    """A value which is left out is read as the value it had."""
    n = 0
    for rec, es in fmt.maps.items():
        for e in es:
            if e.required or e.default is None or e.sequence or \
                    rec in ("OverallResult", "PatternConfiguration"):
                continue
            if e.default[0] != "c" or isinstance(e.default[2], str) and \
                    e.default[2]:
                continue
            d = e.default[2]
            mark = 987654
            for variant in ("SyntaxDifference", "TypeDifference"):
                m = Maker(fmt, (), variant)
                m.fixed = {(rec, e.member): mark}
                H, fr = read(P, B, m.make("Result"))
                # (names of functions differ in the two reports)
                at = {a[:1] + a[2:] for a, v in flat(fr) if v == C(mark)}
                H, fr = read(P, B, Maker(fmt, ((rec, e.key),), variant)
                             .make("Result"))
                got = [v for a, v in flat(fr) if a[:1] + a[2:] in at]
                n += len(got)
                bad = [v for v in got if v != C(d) and (
                    d or v not in (NONE, C(0), C(""), FALSE))]
                ck.ob("omitted", f"{rec}.{e.member}", not bad,
                      f"{e.member} of {rec} is left out of the report when "
                      f"it is {d!r}, but then it is taken for "
                      f"{bad and show(bad[0])}", f"({e.fn.rel}: {e.fn.q})")
    ck.floor("values left out of the report", n, 4)


def stacks(ck, P, B, fmt):
    """Call stacks of differences are read as they were written."""
    for variant in ("SyntaxDifference", "TypeDifference"):
        m = Maker(fmt, (), variant)
        m.fixed = {("FunctionInfo", "name"): "main",
                   ("NonFunctionDifference", "function"): "main",
                   ("FunctionInfo", "file"): "/src/a.c"}
        report = m.make("Result")
        H = History(P, B, real_pairs=True)
        H.compare("main", ("old/a.ll", "new/a.ll"), [report])
        ck.analysed |= H.I.analysed
        o = H.I.obj(H.st, H.result)
        inner = list(flat(H.I.freeze(H.st, o.d.get("inner", NONE))))
        got = [v for at, v in inner]
        txt = [v[2] for v in got if v[0] == "c" and isinstance(v[2], str)]
        want = [x for x in m.placed if x[0] == "CallInfo" and
                not isinstance(x[3], bool) and x[4][-2] != "calls"]
        if not want:
            raise AnalysisBroken("no call stack in the report")
        for rec, member, side, val, w in want:
            ok = C(val) in got or any(str(val) in t for t in txt)
            ck.ob("call-stack", f"{variant}: {'.'.join(w[-2:])}", ok,
                  f"{member} of a call in {w[-2]} of a {variant} does not "
                  "get into the result", "(diffkemp/semdiff/result.py)")


def missing(ck, P, B, fmt):
    """Every missing definition is searched for, in its own version."""
    es = fmt.maps.get("MissingDef", [])
    top = [e for e in fmt.maps["OverallResult"] if "GlobalValue" in e.ctype]
    ck.ob("missing-definitions", "written", len(top) == 1 and
          {e.member for e in es} == {"first", "second"},
          "missing definitions of both versions are not in the report",
          "(diffkemp/simpll/Output.cpp)")
    if len(top) != 1:
        return
    for omit in ((), (("MissingDef", "first"),), (("MissingDef", "second"),)):
        if omit and not any(("MissingDef", e.key) == omit[0] and not
                            e.required and e.default is not None for e in es):
            continue
        d = Maker(fmt, omit)
        pair = d.make("MissingDef")
        m = Maker(fmt, (), "SyntaxDifference")
        links = []
        H, fr = read(P, B, m.make("Result"), {top[0].key: [pair]}, links)
        for rec, member, side, val, w in d.placed:
            ok = any(val in x[-1] and f"snapshot_{member}" in x[0] and
                     ("old" if member == "first" else "new") in
                     " ".join(x[1:2]) for x in links)
            ck.ob("missing-definitions", f"{member}, without " +
                  (omit[0][1] if omit else "nothing"), ok,
                  f"a missing definition of the {member} version is not "
                  f"searched for in that version; searched: {links}",
                  "(diffkemp/semdiff/function_diff.py)")
        ck.ob("missing-definitions", "no others, without " +
              (omit[0][1] if omit else "nothing"),
              len(links) == len(d.placed),
              f"definitions are searched for which are not missing: {links}",
              "(diffkemp/semdiff/function_diff.py)")


def texts(ck, prog, P, fmt):
    """A text is never read as a value of another type."""
    plain = reader_of_texts(P)
    reach, todo = set(), ["OverallResult"]
    while todo:
        r = todo.pop()
        if r in reach:
            continue
        reach.add(r)
        for e in fmt.maps.get(r, []):
            for x in fmt.maps:
                if re.search(rf"\b{x}\b", e.ctype):
                    todo.append(x)
            if "GlobalValue" in e.ctype:
                todo.append("MissingDef")
            if "CallStack" in e.ctype:
                todo.append("CallInfo")
    n = 0
    for r in sorted(reach):
        for e in fmt.maps[r]:
            q = quoting(prog, e.ctype)
            if q is None:
                continue
            n += 1
            ck.ob("text", f"{r}: {e.key}", q or plain,
                  f"{e.key} of {r} is written without quotes when LLVM sees "
                  "no need for them; the reader takes some such texts (on, "
                  "off, yes, no, 0b1) for values of other types and cannot "
                  "read others (with a tabulator)",
                  f"({e.fn.rel}: {e.fn.q})")
    ck.floor("texts in the report", n, 10)


def reader_of_texts(P):
    """Does the reader take every plain scalar for a text?"""
    return False


def quoting(prog, t):
    """None: not a text, False: quoted if needed, True: always quoted."""
    u = re.sub(r"\b(const|struct|class|mutable)\b|&", "", t).strip()
    if re.fullmatch(r"(std::)?(__cxx11::)?(basic_string<char>|string)"
                    r"|(llvm::)?StringRef|std::string", u):
        return False
    fs = [f for f in prog.funcs.values() if f.name == "mustQuote" and
          re.search(rf"ScalarTraits<(\w+::)*{re.escape(u.split('::')[-1])}"
                    r"\b", f.q)]
    if not fs:
        return None
    for f in fs:
        v, ic, st = passes(prog, f, set())
        for o in PassExplore(lambda t: None).outcomes(v):
            k = path(o.leaf).split("::")[-1]
            if k not in ("Single", "Double"):
                return False
    return True


OUT = re.compile(r"^(llvm::outs|printf|puts|putchar|std::printf|std::puts|"
                 r"fwrite|vprintf|std::putchar)$")


def stdout(ck, prog):
    """Nothing but the report is written to the standard output."""
    reporters = {f.key for f in prog.funcs.values() if any(
        n.is_call() and re.search(r"yaml::operator<<|IO::mapRequired|"
                                  r"yamlize|reportOutputToString", n.callee)
        for n in f.body.walk())}
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        ck.analysed.add(f.q)
        n += 1
        for x in f.body.walk():
            bad = None
            if x.is_call() and OUT.match(x.callee):
                bad = x.callee
            elif x.k == "DeclRefExpr" and x.name in ("cout", "stdout"):
                bad = x.name
            if bad and f.key not in reporters:
                ck.violate("standard-output", f"{f.q}: {bad}",
                           f"{f.q} writes something else than the report to "
                           f"the standard output ({bad})", f"({f.rel})")
    ck.floor("functions searched for output", n, 300)
    ck.ob("standard-output", "all functions", True, "", "")


def by_main(ck, prog):
    """Main reports the result of the comparison on every path."""
    for f in prog.fns("main"):
        v, ic, st = passes(prog, f, {"processAndCompare", "reportOutput"})
        ck.analysed.update(ic.analysed)
        at = {}
        for i, e in enumerate(ic.events):
            n = e.name.split("::")[-1]
            if n in ("processAndCompare", "reportOutput"):
                at.setdefault(n, []).append((i, e))
        if set(at) != {"processAndCompare", "reportOutput"}:
            return False
        (i, a), = at["processAndCompare"][-1:]
        (j, b), = at["reportOutput"][-1:]
        vs = [[y.name for y in x.args()[k].walk() if y.k == "DeclRefExpr"]
              for x in f.body.walk() if x.is_call()
              for k in [{"processAndCompare": 1, "reportOutput": 0}.get(
                  x.callee.split("::")[-1])] if k is not None]
        more = set(b.facts) - set(a.facts)
        return i < j and not more and all(x == vs[0] for x in vs)
    return False


def handed_over(ck, prog):
    """The engine hands over its whole report."""
    run = [f for f in prog.funcs.values() if f.rel.endswith("FFI.cpp") and
           any(n.is_call() and n.callee.endswith("processAndCompare")
               for n in f.body.walk())]
    if not run:
        raise AnalysisBroken("no entry of the library runs the comparison")
    ck.ob("handed-over", "main", bool(by_main(ck, prog)), "the engine run as "
          "a program does not report the result of its comparison",
          "(diffkemp/simpll/SimpLL.cpp: main)")
    for f in run:
        v, ic, st = passes(prog, f, {"processAndCompare",
                                     "reportOutputToString"})
        ck.analysed.update(ic.analysed)
        ps = [p["n"] for p in f.params if "*" in p.get("t", "") and
              "const" not in p.get("t", "") and "void" not in p.get("t", "")]
        where = f"({f.rel}: {f.q})"
        report = [e for e in ic.events
                  if e.name.endswith("reportOutputToString")]
        done = [i for i, e in enumerate(ic.events)
                if e.name.endswith("processAndCompare")]
        res = {}
        for x in f.body.walk():
            nm = x.callee.split("::")[-1] if x.is_call() else None
            if nm in ("processAndCompare", "reportOutputToString"):
                a = x.args()[1 if nm == "processAndCompare" else 0]
                res[nm] = [y.name for y in a.walk()
                           if y.k == "DeclRefExpr"]
        ck.ob("handed-over", f"{f.q}: result", len(res) < 2 or
              res["processAndCompare"] == res["reportOutputToString"],
              f"{f.q} reports another result than the one of its comparison",
              where)
        ck.ob("handed-over", f"{f.q}: report", len(report) == 1 and
              len(done) == 1 and done[0] < ic.events.index(report[0]) and
              path(report[0].args[0]) == path(ic.events[done[0]].args[1]) and
              not report[0].facts,
              f"{f.q} does not make the report of its comparison", where)
        for e in ic.events:
            nm = e.name.split("::")[-1]
            if nm in ("strcpy", "strcat", "sprintf", "memcpy", "strncpy",
                      "memmove", "copy", "snprintf", "stpcpy", "copy_n"):
                dst = path(e.args[-1] if nm in ("copy", "copy_n")
                           else e.args[0])
                ck.ob("handed-over", f"{f.q}: {nm}", not any(
                    dst == p or dst.startswith(p + "[") and False
                    for p in ps),
                    f"{f.q} copies the report to memory of the caller, "
                    "whatever the length of the report", where)
        for x in f.body.walk():
            if x.k == "CXXNewExpr" and re.search(r"\bchar\b", x.t) and x.c:
                sz = x.c[0]
                ok = sz.k == "BinaryOperator" and "+" in (
                    sz.get("op"), sz.name) and any(
                    y.is_call() and re.search(r"::(size|length)$", y.callee)
                    or y.is_call() and y.callee.endswith("strlen")
                    for y in sz.walk()) and any(
                    y.k == "IntegerLiteral" and str(y.get("v")) != "0"
                    for y in sz.walk())
                ck.ob("handed-over", f"{f.q}: memory", ok,
                      f"{f.q} does not make room for all of the report and "
                      "its end", where)
        gets = [e for e in ic.events if e.args and any(
            "reportOutputToString" in path(a) for a in e.args) and
            not re.search(r"::(size|length|c_str|data)$", e.name)
            and not e.facts]
        ck.ob("handed-over", f"{f.q}: copied", bool(gets) or
              "reportOutputToString" in path(v),
              f"{f.q} does not hand over its report", where)


def callname(t):
    if t[0] != "call":
        return t[0]
    f = t[1]
    return str(f[2] if f[0] in ("attr", "bound") else f[-1]).split(".")[-1]


def whole(t):
    """Is the term all of the output of the engine?"""
    n = callname(t)
    if n in ("decode", "strip") and t[1][0] == "attr":
        return whole(t[1][1])
    args = t[2] if t[0] == "call" else ()
    return n == "check_output" or n in ("read", "readall") and not args \
        or n == "string" and len(args) == 1


def received(ck, P):
    """The reader reads the whole report, in each way the engine is run."""
    F = P.func("diffkemp.simpll.simpll", "run_simpll")
    got = []

    def load(I, st, fn, a, k, n):
        got.append(I.freeze(st, a[0]))
        return None
    I = Interp(P, hooks={"yaml.safe_load": load, "yaml.load": load},
               opaque={"LlvmModule", "get_opt_command", "SimpLLModule",
                       "get_simpll_build_dir", "add_suffix"})
    v, st = I.run(F, [], {}, State())
    ck.analysed |= I.analysed
    if not got:
        raise AnalysisBroken("the report is not read by run_simpll")
    n = 0
    for t in got:
        for x, _ in leaves(t):
            if show(x).startswith("missing()"):
                continue
            n += 1
            ck.ob("received", f"run_simpll: {callname(x)}", whole(x),
                  "the report read is not all of what the engine gave: "
                  f"{show(x)[:200]}", F.where)
    ck.floor("ways of getting a report", n, 3)
    n = 0
    for e in I.events:
        nm = e.name.split(".")[-1]
        if nm in ("runSimpLL", "parseAndRunSimpLL", "cloneAndRunSimpLL"):
            n += 1
            for a in e.args:
                s = show(a)
                ck.ob("received", f"{nm}: memory", not re.search(
                    r"ffi\.new\('char ?\[ ?\d+ ?\]'\)$", s),
                    f"{nm} is given memory of a limited size for a report "
                    f"of any size: {s[-60:]}", F.where)
        if nm == "write" and e.args and "pipe" in show(e.args[0]):
            ck.ob("received", "report sent through the pipe",
                  whole(e.args[1]), "what is sent to the parent is not the "
                  f"report: {show(e.args[1])[:200]}", F.where)
    ck.floor("runs of the engine in process", n, 2)


def run():
    ck = Check("P04", RULE)
    prog = CxxProgram(REPO, units=None)
    P = Program(REPO)
    B = Build(P)
    fmt = Format(ck, prog)
    written(ck, fmt)
    members(ck, P, B, fmt)
    omitted(ck, P, B, fmt)
    stacks(ck, P, B, fmt)
    missing(ck, P, B, fmt)
    texts(ck, prog, P, fmt)
    stdout(ck, prog)
    handed_over(ck, prog)
    received(ck, P)
    return ck
