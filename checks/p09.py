"""P09: a failed attempt to explain a difference leaves no trace."""
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken
from lib.cxxfront import CxxProgram
from lib.cxxcmp import Budget, callee, is_cmp, path
from lib.cxxpass import PassExplore, exits, fact, passes, resolve
from lib.cxxrules import (find_pass, holds, names, opaque_for, show_facts)
from lib.interp import subterms
from checks.p07 import OWO, PASSKEEP, advanced
from checks.p10 import D

CORR = ("sn_mapL", "sn_mapR", "mappedValuesBySn")
FIELDS = CORR + ("ModComparator.tryInline",)
# Comparisons change the correspondence of the values.
CLOBBERS = {f: FIELDS for f in ("cmpOperationsWithOperands", "cmpOperations",
                                "cmpValues")}
SIDES = ("InstL", "InstR")


def analyse(prog, q, keep):
    fns = prog.fns(q)
    if len(fns) != 1:
        raise AnalysisBroken(f"{q} is not a single function")
    # named apart from the unknown values of the same variables after a loop
    args = {p["n"]: begin(p["n"]) for p in fns[0].params
            if p["n"] in SIDES}
    v, ic, st = passes(prog, fns[0], opaque_for(prog, q, keep), args, {},
                       CLOBBERS)
    return v, ic, st, fns[0]


def begin(x):
    return ("sym", "first " + x)


def field_of(st, f):
    *b, a = f.split(".")
    base = ("sym", "this")
    for x in b:
        base = ("attr", base, x)
    return st.ostore.get((base, a), ("attr", base, a))


def initial(f):
    t = ("sym", "this")
    for x in f.split("."):
        t = ("attr", t, x)
    return t


def resolved(ex, t, facts):
    """Possible values of a term under the facts."""
    todo = [facts]
    while todo:
        fs = todo.pop()
        x, a = resolve(ex, t, fs, set())
        if a is None:
            yield x, fs
            continue
        for pol in (False, True):
            from lib.cxxcmp import assume
            todo.append(assume(fs, a, pol))


def at_failure(ck, q, zero, v, st, fn, want):
    """Values of variables and fields whenever the function fails, i.e.
    returns false or nonzero."""
    where = f"({fn.rel}: {fn.q})"
    n = 0
    bad = {}
    for o in PassExplore(lambda t: None, 50000).outcomes(v):
        if o.zero is (not zero):
            continue
        n += 1
        facts = dict(o.facts)
        if o.zero is None:
            facts[o.leaf] = not zero
        ex = PassExplore(lambda t: None, 50000)
        for w, (t, init) in want.items():
            for x, fs in resolved(ex, t, facts):
                if x != init:
                    bad.setdefault(w, show_facts(names(fs), 6))
                    break
    for w in want:
        ck.ob("restored", f"{q}: {w}", n and w not in bad,
              f"{q} fails without restoring {w}; taken when: "
              f"{bad.get(w, '(it never fails)')}", where)
    return n


def moved_code(ck, prog):
    q = D + "findMatchingOpWithOffset"
    v, ic, st, fn = analyse(prog, q, {OWO, "isDependingOnReloc",
                                      "isDebugInfo"})
    ck.analysed.update(ic.analysed)
    want = {x: (st.env[x], begin(x)) for x in SIDES if x in st.env}
    ck.floor("positions of moved code", len(want), 2)
    want.update({f: (field_of(st, f), initial(f)) for f in FIELDS
                 if f not in CORR})
    want["Reloc.status"] = (field_of(st, "Reloc.status"),
                            initial("Reloc.status"))
    at_failure(ck, q, True, v, st, fn, want)

    def owo(t):
        return t[0] == "call" and callee(t) is not None and \
            callee(t)[0] == OWO
    p = find_pass(ic.passes, owo)
    if p is None:
        raise AnalysisBroken(f"{q} does not compare instructions in a loop")
    keys = tuple("this." + f for f in CORR)
    ends = {}
    n = 0
    for k, val, env, facts, used in exits(
            PassExplore(lambda t: None, 50000), p.term, keys):
        if k == "return" and val == ("c", "bool", True) or \
                k == "return" and val[0] == "c" and val[2]:
            continue
        n += 1
        for f in keys:
            if env.get(f, initial(f[5:])) != initial(f[5:]):
                ends.setdefault(f, show_facts(names(facts), 6))
    for f in keys:
        ck.ob("restored", f"{q}: {f} after a mismatch", n and f not in ends,
              f"{q} goes on after a mismatch without restoring {f[5:]}; "
              f"taken when: {ends.get(f, '')}", p.where)
    # the starting point of the search
    n = 0
    bad = {}
    backup = field_of(st, "Reloc.tryInlineBackup")
    for o in PassExplore(lambda t: None, 50000).outcomes(v):
        if o.zero is True:
            continue
        n += 1
        facts = dict(o.facts)
        if o.zero is None:
            facts[o.leaf] = True
        ex = PassExplore(lambda t: None, 50000)
        for what, on, arg in (
                ("left number", "sn_mapL", r"^first InstL$"),
                ("right number", "sn_mapR", r"^first InstR$"),
                ("correspondence", "mappedValuesBySn", r"sn_map[LR]\.size")):
            if not happened(ic, ex, facts, ("erase",), on, arg):
                bad[f"the {what} of the differing instructions is kept"] = 1
        for x, fs in resolved(ex, backup, facts):
            if x != initial("ModComparator.tryInline"):
                bad["the call to be inlined before the search is not "
                    "remembered"] = 1
    ck.ob("restored", f"{q}: beginning of the search", n and not bad,
          f"{q} finds moved code, and {'; '.join(sorted(bad))}", p.where)
    # a block of moved code which was not matched in the end
    q = D + "compare"
    fns = [f for f in prog.fns(q) if not f.params]
    if len(fns) != 1:
        raise AnalysisBroken(q)
    v, ic, st = passes(prog, fns[0], opaque_for(prog, q, {"cmpPHIs"}) |
                       {"llvm::FunctionComparator::compare"}, None, {},
                       CLOBBERS)
    ck.analysed.update(ic.analysed)

    def unmatched(t):
        if t[0] == "op" and t[1] in ("==", "!=") and \
                "Reloc.status" in path(t):
            return (t[1] == "==") == ("::None" not in path(t))\
                if "None" in path(t) else None
        return None
    where = f"({fns[0].rel}: {q})"
    zs = {o.zero for o in PassExplore(unmatched).outcomes(v)}
    ck.ob("restored", f"{q}: moved code not found", zs == {False},
          f"{q} can return equal although moved code was not found in the "
          "other function", where)
    t = field_of(st, "ModComparator.tryInline")
    got = {x for x, fs in resolved(PassExplore(unmatched), t, {})}
    ck.ob("restored", f"{q}: calls to be inlined", got == {
        initial("Reloc.tryInlineBackup")},
        f"{q} keeps the call to be inlined which was found while looking for "
        "moved code", where)


def field_access(ck, prog):
    q = D + "cmpFieldAccess"
    v, ic, st, fn = analyse(prog, q, {"cmpValues",
                                      "isConstantMemoryAccessToPtr"})
    ck.analysed.update(ic.analysed)
    want = {x: (st.env[x], begin(x)) for x in SIDES if x in st.env}
    ck.floor("positions of field accesses", len(want), 2)
    at_failure(ck, q, False, v, st, fn, want)


def covers(ex, e, facts):
    """The event happens in every run in which the facts hold."""
    for t, p in e.facts:
        x, a = ex.truth(t, facts, set())
        if x is None or x != p:
            return False
    return True


def unfold(facts):
    """The facts and what follows from conjunctions of them."""
    out = dict(facts)

    def add(t, p):
        if t[0] == "op" and t[1] == "not":
            return add(t[2], not p)
        if t[0] == "op" and t[1] in ("and", "or") and p == (t[1] == "and"):
            for x in t[2:]:
                add(x, p)
        out.setdefault(t, p)
    for t, p in facts.items():
        add(t, p)
    return out


def happened(ic, ex, facts, method, on, arg):
    for e in ic.events:
        if e.name.split("::")[-1] not in method or len(e.args) < 2 or \
                not re.search(on, path(e.args[0])):
            continue
        xs = {path(x) for x, fs in resolved(ex, e.args[1], facts)}
        if all(re.search(arg, x) for x in xs) and covers(ex, e, facts):
            return True
    return False


def skipped_values(ck, prog):
    """Skipped instructions which are compared as operands."""
    q = D + "cmpValues"
    fns = prog.fns(q)
    v, ic, st = passes(prog, fns[0], opaque_for(
        prog, q, PASSKEEP | {"getReplacementValue", "cmpValues"}), None, {})
    ck.analysed.update(ic.analysed)
    fn = fns[0]
    where = f"({fn.rel}: {fn.q})"
    n = 0
    bad = {}
    for o in PassExplore(lambda t: None, 50000).outcomes(v):
        fs = names(o.facts)
        failed = [f for f, p in fs if p and f.startswith(OWO + "(")]
        if not failed:
            continue
        n += 1
        ex = PassExplore(lambda t: None)
        for what, m, on, arg in (
                ("L is skipped again", ("insert",), r"skippedInst", r"\bL\b"),
                ("R is skipped again", ("insert",), r"skippedInst", r"\bR\b"),
                ("L has no number", ("erase",), r"sn_mapL", r"\bL\b"),
                ("R has no number", ("erase",), r"sn_mapR", r"\bR\b"),
                ("no correspondence", ("erase",), r"mappedValuesBySn",
                 r"sn_map[LR]\.size")):
            if not happened(ic, ex, o.facts, m, on, arg):
                bad[what] = show_facts(fs, 6)
        if o.zero is not False:
            bad["they differ"] = show_facts(fs, 6)
    ck.ob("restored", f"{q}: skipped values", n and not bad,
          f"{q} fails to match two skipped instructions and then it does not "
          f"hold that: {'; '.join(sorted(bad))}" if n else
          f"{q} does not compare skipped instructions", where)


def undo(ck, prog):
    """Going on at a pair of instructions whose comparison has failed."""
    q = D + "cmpBasicBlocks"
    fns = prog.fns(q)
    v, ic, st = passes(prog, fns[0], opaque_for(prog, q, PASSKEEP), None,
                       {D + "cmpFieldAccess": False,
                        D + "findMatchingOpWithOffset": True})

    def owo(t):
        return t[0] == "call" and callee(t) is not None and \
            callee(t)[0] == OWO
    p = find_pass(ic.passes, owo)
    if p is None:
        raise AnalysisBroken(f"{q}: instructions are not compared")
    ck.analysed.update(ic.analysed)
    calls = {t for t in subterms(p.term) if owo(t)}
    (PL, PR), = {x for x in (tuple(path(x) for x in callee(t)[3]
                                   if path(x) != "this") for t in calls)
                 if len(x) == 2}

    def irrelevant(t):
        f = fact(t)
        if "CurrentLoc" in f or "ExtendedStat" in f or "getDebugLoc" in f:
            return False
        return None
    n = 0
    bad = {}
    E, F = re.escape(PL), re.escape(PR)
    for k, val, env, facts, used in exits(
            PassExplore(irrelevant, 400000), p.term, (PL, PR)):
        if k != "next":
            continue
        fs = names(facts)
        if (f"{OWO}({PL},{PR})", True) not in fs:
            continue
        l, r = path(env.get(PL, ("sym", PL))), path(env.get(PR, ("sym", PR)))
        if advanced(l, PL) and advanced(r, PR) and holds(
                fs, [(r"^collectBinaryOperands", True)]):
            continue        # the instructions correspond to each other
        if holds(fs, [(rf"cmpFieldAccess\({E},{F}\)", False)]):
            continue
        if holds(fs, [(r"findMatchingOpWithOffset\(", True)]):
            continue        # undone by the search
        n += 1
        ex = PassExplore(irrelevant)
        for what, on, arg in (("left number", r"sn_mapL", rf"^{E}$"),
                              ("right number", r"sn_mapR", rf"^{F}$"),
                              ("correspondence", r"mappedValuesBySn",
                               r"sn_map[LR]\.size")):
            if not happened(ic, ex, unfold({**facts, **dict(p.base)}), ("erase",), on,
                            arg):
                bad[what] = show_facts(fs, 8)
    ck.ob("restored", f"{q}: failed comparison", n and not bad,
          f"{q} goes on after a failed comparison of two instructions and "
          f"keeps their {', '.join(sorted(bad))}; taken when: "
          f"{next(iter(bad.values()), '')}", p.where)
    ck.floor("ways of going on", n, 5)


def run():
    ck = Check("P09", "Every outcome of every attempt to explain a difference "
               "is enumerated; on each outcome which says that the attempt "
               "failed, positions, correspondence of values and calls to be "
               "inlined are the same terms as at the beginning.")
    prog = CxxProgram(REPO, units=None)
    moved_code(ck, prog)
    field_access(ck, prog)
    skipped_values(ck, prog)
    undo(ck, prog)
    return ck
