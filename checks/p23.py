"""P23: functions are equal only if all functions they call were compared."""
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken
from lib.cxxfront import CxxProgram
from lib.cxxcmp import Comparators, callee, is_cmp, path
from lib.cxxpass import PassExplore, exits
from lib.cxxrules import holds, names, show_facts
from lib.interp import subterms
from checks.p10 import D
from checks.p21 import efacts, events, mentions, params, short
from checks.p25 import LIMIT, analyse, cases, only_if, where

M = "ModuleComparator::"
ASM = "getInlineAsm"
EXEMPT = ("isSimpllAbstraction", "isIntrinsic", "isKernelPrintFunction",
          "isSimpllAbstractionDeclaration")


def eq(a, b):
    return rf"^==\(({a}),({b})\)$|^==\(({b}),({a})\)$"


# -- references to functions
def references(ck, prog):
    q = D + "cmpGlobalValues"
    v, ic, fn = analyse(ck, prog, q, {
        "cmpConstants", "compareFunctions", "addCall", "hasSuffix",
        "dropSuffix", "isKernelPrintFunction", "isSimpllAbstraction",
        "getInlineAsmString", "getInlineAsmConstraintString"})
    L, R = params(fn)

    def nm(x):
        return rf"{x}\.getName|{x}\.getName\.substr\[0,{x}\.getName\." \
               rf"(find_last_of|rfind)\[.*\]\]|dropSuffix\({x}\.getName\)"
    assumed = [(rf"this\.assumedEqual\.(count|contains|find)\[.*{L}.*{R}",
                True)]
    init = [(rf"^{x}\.{m}$", True)
            for x in (L, R) for m in ("hasInitializer", "isConstant")] + [
        (rf"^cmpConstants\({L}\.getInitializer,{R}\.getInitializer\)", False)]
    same = [[(rf"^==\(({nm(L)}),({nm(R)})\)$", True)],
            [(rf"^==\(({nm(R)}),({nm(L)})\)$", True)]]
    prints = [(r"Patterns\.KernelPrints", True),
              (rf"^isKernelPrintFunction\({L}|^isKernelPrintFunction\(.*"
               rf"{L}\.getName", True),
              (rf"^isKernelPrintFunction\({R}|^isKernelPrintFunction\(.*"
               rf"{R}\.getName", True)]
    ident = [(eq(L, R), True)]
    only_if(ck, "symbol", q, v, fn, True,
            [assumed, init, [same], prints, ident],
            "two symbols are equal although neither their names nor their "
            "constant contents are")
    asm = [[(eq(rf"{ASM}{a}\({L}\)", rf"{ASM}{a}\({R}\)"), True)]
           for a in ("String", "ConstraintString")]
    # the comparison of the called functions
    calls = [(s, x, events(ic, "addCall", s + "$", "^" + x + "$"))
             for s, x in (("First", L), ("Second", R))]
    alls = events(ic, "addCall")
    cmpf = events(ic, "compareFunctions", "", f"^{L}$", f"^{R}$")
    wrong = len(alls) != sum(len(e) for s, x, e in calls) or \
        len(events(ic, "compareFunctions")) != len(cmpf)
    ck.ob("call", q + ": sides", not wrong, f"{q}: a call is recorded, or "
          "functions are compared, on the wrong side", where(fn))
    mine = [rf"ComparedFuns(\.at|\.find)?\[.*this\.FnL,(second\()?this\.FnR"]
    ck.ob("call", q + ": caller", all(re.search(mine[0], path(e.args[0]))
                                      for e in alls), f"{q}: a call is "
          "recorded for another function than the compared one", where(fn))

    def oracle(t, new=True):
        c = callee(t) if t[0] == "call" else None
        if c and c[0] in EXEMPT:
            return False
        if t[0] == "op" and t[1] == "==" and new:
            a, b = path(t[2]), path(t[3])
            if "ComparedFuns" in a and "ComparedFuns" in b:
                if re.search(rf"ComparedFuns\.find\[.*{L}\W*,\W*(second\()?"
                             rf"{R}\W*\]", a + ";" + b):
                    return True
        if new and c and c[0] in ("count", "contains") and re.search(
                rf"ComparedFuns\.\w+\[.*{L}\W*,\W*(second\()?{R}\W*\]",
                path(t)):
            return False
        return None
    n = 0
    bad = {}
    for fs, facts, o in cases(v, True):
        if not holds(fs, [(rf"^is<Function>\({L}\)", True),
                          (rf"^is<Function>\({R}\)", True), same]) or \
                holds(fs, assumed) or holds(fs, init):
            continue
        n += 1
        if holds(fs, [(rf"^{x}\.getName\.(startswith|starts_with)\["
                       r"SimpllInlineAsm", True) for x in (L, R)]) and not \
                holds(fs, [asm[0][0], asm[1][0]]):
            bad["asm"] = fs

        def known(t, new):
            ex = PassExplore(lambda x: oracle(x, new), LIMIT)
            x = oracle(t, new)
            if x is None:
                x = facts.get(t)
            return ex.truth(t, facts, set())[0] if x is None else x

        def covers(e, new):
            return all(decide(t, lambda x: known(x, new)) == p
                       for t, p in e.facts)
        for s, x, ev in calls:
            # also if the two functions have been compared before
            if not any(covers(e, False) for e in ev):
                bad[s] = fs
        if not any(covers(e, True) for e in cmpf):
            bad["cmp"] = fs
    ck.floor("ways of taking references to functions for equal", n, 1)
    for k, msg in (("asm", "different assembly code is taken for equal"),
                   ("First", "the call is not recorded in the first version"),
                   ("Second",
                    "the call is not recorded in the second version"),
                   ("cmp", "functions which were not compared yet are not "
                    "compared when they are referred to")):
        ck.ob("call", f"{q}: {k}", k not in bad,
              f"{q}: {msg}; when: {show_facts(bad.get(k, []), 8)}", where(fn))
    # nothing else may leave out a function
    only = [(rf"^isSimpllAbstraction\({x}\)$|^{x}\.isIntrinsic$", True)
            for x in (L, R)]
    for kind, ev in (("recorded", alls), ("compared", cmpf)):
        for e in ev:
            fs = efacts(e)
            odd = [f for f, p in fs if p and re.match(
                r"isSimpllAbstraction\(\w+\)$|\w+\.isIntrinsic$", f)]
            ck.ob("call", f"{q}: {kind}", not odd, f"{q}: only calls of "
                  f"abstractions are {kind}: {odd[:1]}", where(fn))
    # the assumption lasts for the comparison of the initializers
    ins = events(ic, ("insert", "emplace"), r"this\.assumedEqual$")
    era = events(ic, "erase", r"this\.assumedEqual$")
    cst = events(ic, "cmpConstants")
    ix = ic.events.index
    ok = len(ins) == len(era)
    for a, b in zip(ins, era):
        ok = ok and path(a.args[1]) == path(b.args[1]) and \
            a.facts == b.facts and any(
                ix(a) < ix(c) < ix(b) and c.facts == a.facts for c in cst) \
            and not any(ix(a) < ix(e) < ix(b) and e not in cst and
                        short(e) in ("compareFunctions", "addCall")
                        for e in ic.events)
    for a in ins:
        ok = ok and holds(efacts(a), init[:-1])
    ck.ob("symbol", q + ": assumption", ok, f"{q}: symbols stay assumed to be "
          "equal after their contents were compared", where(fn))
    users = {f.q for f in prog.funcs.values() if f.q != q and f.body and any(
        n.k.startswith("Member") and n.get("name") == "assumedEqual"
        for n in f.body.walk())}
    ck.ob("symbol", "assumption", not users, "symbols are assumed to be equal "
          f"outside of {q}: {sorted(users)[:2]}", where(fn))
    md = events(ic, ("push_back", "emplace_back"), r"MissingDefs")
    miss = [(rf"^{x}\.isConstant$", True) for x in (L, R)] + [
        (rf"^{x}\.hasInitializer$", False) for x in (L, R)]
    ck.ob("symbol", q + ": missing definition", any(
        holds(efacts(e), miss) and re.search(
            rf"{L}\W*,\W*(second\()?{R}", ",".join(
                path(x) for x in e.args[1:])) for e in md),
        f"{q}: a constant which is defined elsewhere is not reported as "
        "missing", where(fn))


# -- inlined functions
def inlining(ck, prog):
    q = M + "tryToInline"
    v, ic, fn = analyse(ck, prog, q, {
        "inlineCall", "getCalledFunction", "isSimpllAbstraction",
        "isKernelSimplifiedFunction"})
    call, splits = params(fn)[0], params(fn)[-1]
    f = rf"getCalledFunction\({call}\)"
    n, bad, bad2, miss = 0, None, None, 0
    for o in PassExplore(lambda t: None, LIMIT).outcomes(v):
        fs, leaf = names(o.facts), path(o.leaf)
        n += 1
        if re.search(r"(^|::)Inlined$|InliningResult\(1\)", leaf):
            if not holds(fs, [(rf"^inlineCall\({call}\)", True)]):
                bad = bad or fs
        elif re.search(r"(^|::)MissingDef$", leaf):
            miss += 1
        elif not any(holds(fs, [x]) for x in (
                (rf"^{call}$", False), (rf"^{f}\.isDeclaration", False),
                (rf"^{f}\.isIntrinsic", True),
                (rf"^isSimpllAbstraction\({f}\)", True),
                ("^" + splits, False))):
            bad2 = bad2 or fs
    ck.ob("inline", q + ": inlined", bad is None, f"{q}: a call is reported "
          f"as inlined which was not: {bad and show_facts(bad)}", where(fn))
    ck.ob("inline", q + ": missing", bad2 is None and miss > 0,
          f"{q}: a missing definition of a function to be inlined is not "
          f"reported: {bad2 and show_facts(bad2)}", where(fn))
    q = M + "compareFunctions"
    v, ic, fn = analyse(ck, prog, q, {
        "tryToInline", "compare", "simplifyFunction", "isFunctionPairCached",
        "hasSuffix", "dropSuffix", "updateStats", "findCallInst",
        "getCalledFunction", "eraseInlinedResults", "markInlinedCall"})
    A, B = params(fn)
    md = [e for e in events(ic, ("push_back", "emplace_back"), "MissingDefs")
          if any("tryToInline" in f for f, p in efacts(e))]
    ok = False
    for e in md:
        a = ",".join(path(x) for x in e.args[1:])
        if not all(decide(t, lambda x: side in path(x) if x[0] == "op" and
                          x[1] == "==" and "MissingDef" in path(x) else None
                          ) in (p, None)
                   for side in ("tryInline.first", "tryInline.second")
                   for t, p in e.facts):
            continue
        ok = ok or (re.search(r"getCalledFunction\(findCallInst\(this\."
                              r"tryInline[^,]*first.*getCalledFunction\("
                              r"findCallInst\(this\.tryInline[^,]*second", a)
                    is not None)
    ck.ob("inline", q + ": missing", ok, f"{q}: a function whose definition "
          "is missing for inlining is not reported", where(fn))

    unused(ck, prog)
    results(ck, prog)


def impossible(e, oracle):
    """The event does not happen when the scenario is given."""
    ex = PassExplore(oracle, LIMIT)
    for t, p in e.facts:
        x = decide(t, oracle)
        if x is None:
            x, a = ex.truth(t, {}, set())
        if x is not None and x != p:
            return True
    return False


def decide(t, oracle):
    if t[0] == "op" and t[1] == "not":
        x = decide(t[2], oracle)
        return None if x is None else not x
    if t[0] == "op" and t[1] == "bool":
        return decide(t[2], oracle)
    if t[0] == "op" and t[1] in ("and", "or"):
        vals = [decide(x, oracle) for x in t[2:]]
        if (t[1] == "or") in vals:
            return t[1] == "or"
        return None if None in vals else t[1] == "and"
    return oracle(t)


def unused(ck, prog):
    """Only results on which nothing depends are removed."""
    q = M + "compareFunctions"
    cm = Comparators(prog, keep={"tryToInline", "compare", "simplifyFunction",
                                 "isFunctionPairCached", "hasSuffix",
                                 "dropSuffix", "updateStats", "findCallInst",
                                 "getCalledFunction"}, only={"compare"})
    r = cm.run(q, impure={"llvm::FunctionComparator::compare", D + "compare"})
    if r is None:
        raise AnalysisBroken(f"{q} does not exist")
    v, ic, st, fn = r
    ck.analysed.update(ic.analysed)
    cmps = [t for e in ic.events for t, p in e.facts for t in subterms(t)
            if is_cmp(t) and callee(t)[0] == "compare"]
    order = {path(t)[-12:]: t for t in cmps}
    last = order[max(order)] if order else None

    def scenario(differs=None, kind=None, called=None, still=None):
        def f(t):
            c = callee(t) if t[0] == "call" else None
            p = path(t)
            if c and c[0] == "compare" and is_cmp(t) and t == last:
                return differs
            if t[0] == "op" and t[1] == "==" and t[2] == last:
                return None if differs is None else not differs
            if t[0] == "op" and t[1] == "==":
                a, b = path(t[2]), path(t[3])
                if "UNKNOWN" in (a + b) and ".kind" in (a + b):
                    return kind
                if a.endswith("ComparedFuns[#].first") or \
                        b.endswith("ComparedFuns[#].first"):
                    return False if called else None
                if "ComparedFuns[#]" in a and ".calls.find" in a:
                    return False if called else None
                return None
            if c and c[0] in ("count", "contains") and ".calls" in p:
                if "ComparedFuns[#]" in p.split(".calls")[0]:
                    return called
                return still
            if t[0] == "inloop" and "ComparedFuns[#]" in p:
                return called
            if p.endswith(".weak"):
                return False if called else None
            return None
        return f
    gone = [e for e in ic.events if short(e) in ("erase", "clear", "extract")
            and re.search(r"this\.ComparedFuns$", path(e.args[0]))]
    for e in gone:
        for name, kw, msg in (
                ("different", dict(differs=True), "the caller differs"),
                ("compared", dict(kind=True), "the comparison of these "
                 "functions has not finished yet"),
                ("used", dict(called=True),
                 "another function calls them, too")):
            ck.ob("result", f"{q}: {name}", impossible(e, scenario(**kw)),
                  f"{q}: the result of inlined functions is forgotten "
                  f"although {msg}", where(fn))
    weak = [e for e in ic.events if e.name == "@setattr.weak"
            and path(e.args[1]) != "False"]
    for e in weak:
        for name, kw, msg in (
                ("different", dict(differs=True), "the caller differs"),
                ("called", dict(still=True),
                 "it is still called after the inlining")):
            ck.ob("result", f"{q}: weak call, {name}",
                  impossible(e, scenario(**kw)),
                  f"{q}: the result of the caller does not depend on an "
                  f"inlined function although {msg}", where(fn))
    # nobody else removes or overwrites results
    own = {str(x).split('(')[0] for x in ic.analysed}
    for f in prog.funcs.values():
        if f.q in own or f.q == q or not f.body:
            continue
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and (n.callee or "").split("::")[
                    -1] in ("erase", "clear", "extract", "insert_or_assign"):
                t = n.callee or ""
                if "Result>" in t and "pair<const llvm::Function" in t:
                    ck.ob("result", f.q, False, f"{f.q}: results of compared "
                          "functions are removed", where(f))


def results(ck, prog):
    """All results are reported."""
    q = "simplifyModulesDiff"
    v, ic, fn = analyse(ck, prog, q, {"compareFunctions",
                                      "ModuleComparator", "DebugInfo",
                                      "isSimpllAbstraction", "deleteBody",
                                      "refreshFunctions", "deleteAliasToFun"})
    res = params(fn)[-1]
    push = events(ic, ("push_back", "emplace_back"),
                  rf"{res}\.functionResults")
    el = r"ComparedFuns\[#\]\.second$"
    ok = [e for e in push if re.search(el, path(e.args[1]))]
    ck.ob("report", q, len(ok) > 0 and len(ok) == len(push),
          f"{q}: the results of the compared functions are not reported",
          where(fn))

    def oracle(t):
        c = callee(t) if t[0] == "call" else None
        p = path(t)
        if c and c[0] in EXEMPT and re.search(
                r"ComparedFuns\[#\]\.first", p):
            return False
        if re.search(r"config\.(First|Second)Fun$", p):
            return True
        return None
    for e in ok:
        odd = [(path(t), p) for t, p in e.facts if decide(t, oracle) != p
               and "inloop" not in path(t)[:7]]
        ck.ob("report", q + ": all", not odd, f"{q}: some results are not "
              f"reported: {str(odd)[:200]}", where(fn))
    md = [e for e in ic.events if e.name == "@setattr.missingDefs" and
          path(e.args[0]) == res]
    cf = events(ic, "compareFunctions")
    ix = ic.events.index
    ck.ob("report", q + ": missing definitions", any(
        not e.facts and re.search(r"\.MissingDefs$|MissingDefs",
                                  path(e.args[1])) and all(
            ix(e) > ix(c) for c in cf) for e in md),
        f"{q}: missing definitions are not reported", where(fn))
    main = [e for e in cf if re.search(r"config\.FirstFun$", path(e.args[1]))
            and re.search(r"config\.SecondFun$", path(e.args[2]))]
    ck.ob("report", q + ": main", len(main) > 0 and all(
        decide(t, oracle) == p for e in main for t, p in e.facts),
        f"{q}: the functions to be compared are not compared", where(fn))


def run():
    ck = Check("P23", "Every way of taking a reference to a function for equal "
               "is enumerated; each has to record the call on both sides and "
               "to compare the two functions, and a result which something "
               "depends on may not be removed.")
    prog = CxxProgram(REPO, units=None)
    references(ck, prog)
    inlining(ck, prog)
    return ck
