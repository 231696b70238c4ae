"""P01: built-in pattern choices reach the engine unchanged."""
import itertools
import re
from lib.report import Check
from lib.wiring import Wiring, evalt, atoms_of
from lib.interp import show, C, TRUE, FALSE, subterms, Interp, MISSING

# the one documented dependency: control-flow-only switches type-casts on
IMPLIES = {"type-casts": "control-flow-only"}


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def pattern_flags(t):
    """Options of the form --<name>=<bool> in the argument list term."""
    out = {}

    def visit(items):
        for x in items:
            if x[0] == "?cond":
                # --x or nothing/ --no-x under a condition
                visit(x[2])
                visit(x[3])
            elif x[0] == "?star":
                visit(x[2])
            elif x[0] == "op" and x[1] == "fmt" and x[2][0] == "c" and \
                    x[2][2].startswith("--") and x[2][2].endswith("="):
                out.setdefault(x[2][2][2:-1], []).append(
                    x[3] if len(x) == 4 else ("top",))
    visit(t[1:])
    return out


def run():
    c = Check("P01", "Gated-term dataflow from the command line options "
              "through the Python configuration and both engine interfaces "
              "(FFI struct, binary flags) into the C++ pattern settings; "
              "every selectable pattern must arrive in the setting of the "
              "same name with the value the user selected.")
    w = Wiring()
    c.analysed |= w.I.analysed
    settings = {k: w.I.freeze(w.st, v) for k, v in w.settings.items()}
    # 1. options of the command line
    choices = {}
    for names, dest, e in w.compare_opts:
        if dest in ("enable_pattern", "disable_pattern"):
            ch = e.kwargs.get("choices")
            if ch is not None and ch[0] in ("list", "tup"):
                choices.setdefault(dest, set()).update(
                    x[2] for x in ch[1:] if x[0] == "c")
                act = e.kwargs.get("action")
                c.ob("cli-option-appends", f"compare {names[0]}",
                     act == C("append"),
                     f"option {names} does not collect every use", e.where)
            elif e.kwargs.get("const") is not None:
                c.ob("cli-all-const", f"compare {names[0]}",
                     e.kwargs["const"] == C("all") and
                     e.kwargs.get("action") == C("append_const"),
                     f"{names} does not select all patterns", e.where)
                want = "enable_pattern" if "enable" in names[0] else \
                    "disable_pattern"
                c.ob("cli-all-dest", f"compare {names[0]}", dest == want,
                     f"{names} is stored in {dest}", e.where)
    for d in ("enable_pattern", "disable_pattern"):
        c.ob("cli-has-choices", d, choices.get(d),
             "no option selects patterns into " + d)
        for p in sorted(choices.get(d, ())):
            c.ob("cli-choice-known", f"{d}:{p}", p in settings,
                 f"pattern '{p}' can be selected on the command line "
                 f"({d}) but the configuration has no such setting, so the "
                 f"selection is silently ignored", "diffkemp/cli.py")
        for p in sorted(settings):
            c.ob("setting-selectable", f"{d}:{p}",
                 p in choices.get(d, ()),
                 f"setting '{p}' cannot be selected by {d}")
    # 2. decision table of every setting
    en = lambda p: ("op", "in", C(p), ("attr", ("sym", "args"),
                                       "enable_pattern"))
    dis = lambda p: ("op", "in", C(p), ("attr", ("sym", "args"),
                                        "disable_pattern"))
    defaults = {}
    for p, t in settings.items():
        def val(p, on):
            return evalt(settings[p], lambda x: (x in on) if x[0] == "op"
                         and x[1] == "in" else None)
        try:
            defaults[p] = val(p, set())
            allowed = {en("all"), dis("all"), en(p), dis(p)}
            dep = IMPLIES.get(p)
            if dep:
                allowed |= {en(dep), dis(dep)}
            extra = atoms_of(t) - allowed
            c.ob("setting-independent", p, not extra,
                 "value depends on " + ", ".join(show(x) for x in extra))
            d0 = defaults[p]
            rows = [({en(p)}, True), ({dis(p)}, False),
                    ({en("all")}, True), ({dis("all")}, False),
                    ({dis("all"), en(p)}, True),
                    ({en("all"), dis(p)}, False)]
            bad = []
            for on, want in rows:
                got = val(p, on)
                if dep:
                    # a dependency may only raise the value
                    cf = val(dep, on)
                    want = want or cf
                if got != want:
                    bad.append((sorted(show(x) for x in on), got))
            c.ob("setting-decision-table", p, not bad,
                 f"selection yields a different value: {bad}")
            if dep:
                c.ob("setting-dependency", p,
                     val(p, {en(dep)}) and val(p, {en(dep), dis(p)}),
                     f"{dep} does not switch {p} on")
        except KeyError as e:
            c.violate("setting-decision-table", p,
                      "value is not decided by the options: "
                      + show(e.args[0]))
    # constructor parameters
    bcls = w.P.cls("diffkemp.config", "BuiltinPatterns")
    I = Interp(w.P)
    from lib.interp import State
    st = State()
    params = w.P.find_method(bcls, "__init__")
    pn = [p for p in params.params() if p != "self"]
    ref = I.construct(bcls, [], {p: ("sym", p) for p in pn}, st, None)
    sd = None
    for k, v in st.heap[ref[1]].d.items():
        o = I.obj(st, v)
        if o is not None and o.kind == "dict":
            sd = {kk[2]: vv for kk, vv in o.d.items()}
    for p, v in sorted((sd or {}).items()):
        syms = {x[1] for x in subterms(v) if x[0] == "sym"}
        ok = any(norm(s) == norm(p) for s in syms) and all(
            norm(s) in (norm(p), norm(IMPLIES.get(p, p))) for s in syms)
        c.ob("constructor-parameter", p, ok,
             f"setting '{p}' is initialised from {sorted(syms)}")
    # 3. FFI struct
    ffi_member = {}
    for e in w.ffi:
        structs = [a for a in e.args if a[0] == "obj"
                   and a[1].replace("*", "").strip() == "struct config"]
        fname = e.name.split(".")[-1]
        if not structs:
            c.violate("ffi-config-passed", fname,
                      "engine called without the configuration struct",
                      e.where)
            continue
        f = dict(structs[0][2])
        bp = f.get("BuiltinPatterns")
        if not c.ob("ffi-patterns-passed", fname,
                    bp is not None and bp[0] == "obj",
                    "pattern struct is not passed to the engine", e.where):
            continue
        c.ob("ffi-struct-complete", fname, True)
        check_struct(c, fname, dict(bp[2]), settings, w, e.where)
    for e in w.preproc:
        a = e.args[1] if len(e.args) > 1 else ("top",)
        if c.ob("preprocess-gets-struct", "preprocessModuleC",
                a[0] == "obj" and a[1].startswith("struct"),
                "cached modules are preprocessed with "
                + show(a)[:80] + " instead of the pattern struct", e.where):
            check_struct(c, "preprocessModuleC", dict(a[2]), settings, w,
                         e.where)
    c.floor("in-process engine calls", len(w.ffi), 2)
    # 4. C++ side of the FFI
    rec = [f["n"] for f in w.X.record("BuiltinPatterns")["fields"]]
    crec = [f["n"] for f in w.X.record("builtin_patterns")["fields"]]
    for name, (fields, I2, ev) in w.cffi.items():
        pats = fields.get("Patterns", ("top",))
        if not c.ob("c-ffi-patterns", name, pats[0] == "obj",
                    "engine configuration does not get the patterns",
                    ev.where):
            continue
        pd = dict(pats[2])
        for m in rec:
            t = pd.get(m, MISSING)
            src = [x[2] for x in subterms(t) if x[0] == "attr" and
                   len(x) == 3 and x[2] in crec]
            c.ob("c-ffi-member", f"{name}:{m}",
                 src == [m] and plain(t, m),
                 f"engine setting {m} is taken from {src or show(t)}",
                 ev.where)
    pats = next((a for a in w.cpre.args if a[0] == "obj" and
                 a[1] == "BuiltinPatterns"), None)
    if c.ob("c-ffi-patterns", "preprocessModuleC", pats is not None,
            "patterns not passed", w.cpre.where):
        for m, t in pats[2]:
            src = [x[2] for x in subterms(t) if x[0] == "attr"
                   and len(x) == 3 and x[2] in crec]
            c.ob("c-ffi-member", f"preprocessModuleC:{m}",
                 src == [m] and plain(t, m),
                 f"engine setting {m} is taken from {src}", w.cpre.where)
    # 5. binary
    pf = pattern_flags(w.binary.args[0])
    for p, t in sorted(settings.items()):
        vals = pf.get(p, [])
        c.ob("binary-flag-passed", p, len(vals) == 1 and vals[0] == t,
             f"--{p} is passed as {[show(v) for v in vals]}",
             w.binary.where)
    flagvar = {nm: q for q, (nm, init, t) in w.flags.items() if nm}
    fields, I3, ev = w.cbin
    pats = fields.get("Patterns", ("top",))
    pd = dict(pats[2]) if pats[0] == "obj" else {}
    for p in sorted(settings):
        if not c.ob("binary-flag-exists", p, p in flagvar,
                    f"the engine binary has no option --{p}"):
            continue
        var = flagvar[p]
        got = [m for m, t in pd.items() if t == ("ext", var)]
        c.ob("binary-flag-member", p,
             len(got) == 1 and norm(got[0]) == norm(p),
             f"option --{p} sets {got or 'nothing'}", ev.where)
        c.ob("binary-flag-bool", p, "bool" in w.flags[var][2],
             "option is not boolean")
    # 6. defaults agree with the engine's own
    for f in w.X.record("BuiltinPatterns")["fields"]:
        p = [q for q in settings if norm(q) == norm(f["n"])]
        if not c.ob("engine-setting-configurable", f["n"], len(p) == 1,
                    "engine setting cannot be configured"):
            continue
        init = f.get("init")
        c.ob("default-agrees", p[0],
             init is not None and init.get("v") == defaults.get(p[0]),
             f"engine default {init and init.get('v')} differs from "
             f"{defaults.get(p[0])}")
    c.floor("patterns", len(settings), 12)
    c.note("patterns", sorted(settings))
    return c


def plain(t, m):
    """t is the member itself, possibly converted to bool."""
    if t[0] == "attr":
        return t[2] == m
    if t[0] == "op" and t[1] == "bool":
        return plain(t[2], m)
    if t[0] == "op" and t[1] == "not" and t[2][0] == "op" and \
            t[2][1] == "==" and t[2][3] == C(0):
        return plain(t[2][2], m)
    if t[0] == "op" and t[1] == "not" and t[2][0] == "op" and \
            t[2][1] == "not":
        return plain(t[2][2], m)
    if t[0] == "ite":
        return (t[2], t[3]) in ((TRUE, FALSE), (C(1), C(0))) and \
            plain(t[1], m)
    return False


def check_struct(c, name, d, settings, w, where):
    crec = [f["n"] for f in w.X.record("builtin_patterns")["fields"]]
    for m in crec:
        p = [q for q in settings if norm(q) == norm(m)]
        if not p:
            c.violate("ffi-struct-member", f"{name}:{m}",
                      "no setting of this name", where)
            continue
        v = d.get(m, MISSING)
        while v[0] == "op" and v[1] == "bool" or v[0] == "call" and \
                v[1] == ("ext", "int"):
            v = v[2] if v[0] == "op" else v[2][0]
        s = settings[p[0]]
        c.ob("ffi-struct-member", f"{name}:{m}", v == s or
             v == ("op", "bool", s) or s == ("op", "bool", v),
             f"struct member {m} is set from "
             f"{[q for q in settings if settings[q] == v] or show(v)}", where)
