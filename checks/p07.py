"""P07: a difference which was detected is never dropped."""
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken
from lib.cxxfront import CxxProgram
from lib.cxxcmp import Budget, Comparators, Explore, callee, is_cmp, path
from lib.cxxpass import PassExplore, exits, fact, passes
from lib.cxxrules import (find_pass, holds, main_pass, names, opaque_for,
                          show_facts, with_used)
from lib.interp import subterms
from checks.p10 import B, D, KEEP, OWN

OWO = "cmpOperationsWithOperands"
OWN7 = OWN | {OWO}
HELPERS = {"matchValues", "matchPattern", "findMatchingOpWithOffset",
           "collectBinaryOperands"}
PASSKEEP = OWN7 | KEEP | HELPERS | {
    "isLogicalNot", "isReorderableBinaryOp", "isDebugInfo", "isPartOfPattern",
    "isDependingOnReloc", "getMappedValue", "checkInverseCondUsers",
    "mayStoreTo"}

# A comparison result which may be dropped: (function, comparison) -> the
# facts under which it may.
SAMESIZE = [(r"cmpIntWithConstant\(.*L.*sizeof|cmpIntWithConstant\(.*L", False),
            (r"cmpIntWithConstant\(.*R", False)]
ALLOWED = {
    # sizes of the same structure, each being the size in its version
    ("cmpAllocs", r"cmpValues\(C?L\.(op_begin|getOperand\[0\]).*"): SAMESIZE,
    ("cmpMemset", r"cmpValues\(C?L\.getOperand\[2\].*"): SAMESIZE,
    # branches on conditions known to be inverse
    ("cmpOperations", r"cmpOperations\(L,R.*"):
        [[[(r"==\(this\.inverseConditions\.find", False)],
          [(r"this\.inverseConditions\.(count|contains)", True)]],
         (r"is<BranchInst>\(L\)", True), (r"is<BranchInst>\(R\)", True)],
    # arguments which are the same macro in the C code
    (OWO, r"cmpValues\(L\.getOperand\[#\],R\.getOperand\[#\]\)"):
        [(r"cmpCallArgumentUsingCSource\(", False),
         (r"is<CallInst>\(L\)", True), (r"is<CallInst>\(R\)", True)],
    # the same macro, blocks which are compared in order, custom patterns
    ("cmpValues", r"cmpValues\(L,R\)"):
        [[[(r"==\(.*MacroConstantMap.*MacroConstantMap.*\.second\)", True)],
          [(r"==\(.*MacroConstantMap\.find\[L\]\.second\)", True)],
          [(r"==\(.*MacroConstantMap", True),
           (r"is<Constant>\(L\)", True), (r"is<Constant>\(R\)", True)],
          [(r"is<BasicBlock>\(L\)", True), (r"is<BasicBlock>\(R\)", True)],
          [(r"matchValues\(.*L,R\)", True)]]],
    ("cmpConstants", r"cmpTypes\(L\.getType,R\.getType\)"):
        [(r"==\(.*getPrimitiveSizeInBits.*getPrimitiveSizeInBits", True)],
}
# Calls of comparators made for their side effects.
DISCARDED = {("cmpFieldAccess", "cmpValues"),
             ("cmpGlobalValues", "compareFunctions"),
             ("*", "cmpTypes"), ("compareSignature", "cmpValues")}


def patterns_off(t):
    p = path(t)
    if p.startswith("this.config.Patterns."):
        return False
    if t[0] == "inloop":
        return True
    if t[0] == "op" and t[1] in ("==", "<") and \
            t[2][:2] == ("op", "loopout"):
        return t[1] == "=="
    return None


def comparators(ck, prog):
    """With patterns off, every comparator which finds two parts different
    says that the whole is different."""
    cm = Comparators(prog, keep=KEEP | HELPERS, only=OWN7)
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.q):
        b = f.q.split("::")[-1]
        if b not in OWN7 | {"compare"} or b in ("compareFunctions",) or \
                not f.q.startswith((D, B)):
            continue
        if (f.q == D + "cmpBasicBlocks"):
            continue        # see the analysis of its passes
        if f.d.get("ret") == "bool":
            continue
        r = cm.run(f.q)
        if r is None:
            continue
        v, ic, st, fn = r
        ck.analysed.add(f.q)
        where = f"({fn.rel}: {fn.q})"
        atoms = {t for t in subterms(v) if is_cmp(t)}
        for a in sorted(atoms, key=path):
            n += 1

            def oracle(t, a=a):
                if t == a:
                    return True
                return patterns_off(t)
            allow = [need for (g, rx), need in ALLOWED.items()
                     if g == b and f.q.startswith((D, B)) and
                     re.fullmatch(rx, path(a))]
            bad = None
            try:
                for o in PassExplore(oracle, 20000).outcomes(v):
                    if a not in o.used or o.zero is False:
                        continue
                    facts = with_used(o.facts, o.used, oracle)
                    if o.leaf[0] == "call" and is_cmp(o.leaf):
                        facts[o.leaf] = False
                    elif o.leaf[0] == "op":
                        facts[o.leaf] = not o.zero if o.zero is not None \
                            else False
                    fs = names(facts)
                    if any(holds(fs, need) for need in allow):
                        continue
                    bad = fs
                    break
            except Budget:
                raise AnalysisBroken(f"{f.q}: too many outcomes")
            con = f"{f.q}: {path(a)[:90]}"
            ck.ob("kept", con, bad is None,
                  "" if bad is None else
                  f"{f.q} can return equal although {path(a)[:80]} found a "
                  f"difference; taken when: {show_facts(bad)}", where)
        # results which are not used at all
        subs = {}
        for t in subterms(v):
            if is_cmp(t):
                subs.setdefault(callee(t)[0], []).append(
                    (t[2], tuple(callee(t)[3])))
        for e in ic.events:
            g = e.name.split("::")[-1]
            if g not in OWN7 or (b, g) in DISCARDED or ("*", g) in DISCARDED:
                continue
            ar = tuple(e.args)
            ok = any(ar in (x, y) for x, y in subs.get(g, ()))
            ck.ob("used", f"{f.q}: {g}"
                  f"({','.join(path(x)[:30] for x in ar[1:])})", ok,
                  f"{f.q} ignores what {g} finds", where)
    ck.floor("comparisons", n, 60)


def block_pass(ck, prog):
    """Every way in which the comparison of blocks goes on."""
    q = D + "cmpBasicBlocks"

    def owo(t):
        return t[0] == "call" and callee(t) is not None and \
            callee(t)[0] == OWO
    r = main_pass(prog, q, opaque_for(prog, q, PASSKEEP), owo)
    if r is None:
        ck.violate("blocks", q, "the instructions of two blocks are not "
                   "compared with each other")
        return
    p, ic, v, st, fn = r
    ck.analysed.update(ic.analysed)
    where = p.where
    calls = {t for t in subterms(p.term) if owo(t)}
    pos = {tuple(path(x) for x in callee(t)[3] if path(x) != "this")
           for t in calls}
    pos = {x for x in pos if len(x) == 2}
    if len(pos) != 1:
        raise AnalysisBroken(f"{q}: positions are not clear: {pos}")
    (PL, PR), = pos

    def irrelevant(t):
        f = fact(t)
        if "CurrentLoc" in f or "ExtendedStat" in f or "getDebugLoc" in f:
            return False
        return None
    kinds = {}
    total = 0
    try:
        for k, val, env, facts, used in exits(
                PassExplore(irrelevant, 400000), p.term, (PL, PR)):
            total += 1
            fs = names(facts)
            l, r_ = path(env.get(PL, ("sym", PL))), \
                path(env.get(PR, ("sym", PR)))
            why = rule(fs, k, val, l, r_, PL, PR)
            ok = not why.startswith("!")
            key = why if ok else why[1:]
            kinds.setdefault((key, ok), (fs, k))
    except Budget:
        raise AnalysisBroken(f"{q}: too many outcomes of one pass")
    for (why, ok), (fs, k) in sorted(kinds.items()):
        ck.ob("blocks", why, ok, f"{q}: {why}; taken when: "
              f"{show_facts(fs, 12)}", where)
    ck.note("block_pass_outcomes", total)
    ck.floor("ways of going on", len(kinds), 8)
    # instructions left over on one side
    for x, y in ((PL, PR), (PR, PL)):
        def left(t, x=x, y=y):
            if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4:
                s = {path(t[2]), path(t[3])}
                e = [z for z in s if re.search(r"\.end$", z)]
                if e and x in s:
                    return False
                if e and y in s:
                    return True
            return irrelevant(t)
        zs = {o.zero for o in PassExplore(left).outcomes(v)}
        ck.ob("blocks", f"instructions left only in {x}", zs == {False},
              f"{q} can return equal when only one of the blocks has "
              f"instructions left", f"({fn.rel}: {fn.q})")


def every_part(ck, prog):
    """No loop over the compared parts ends early with everything equal."""
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.q):
        b = f.q.split("::")[-1]
        if b not in OWN7 | {"compare"} or not f.q.startswith((D, B)) or \
                b == "compareFunctions" or f.d.get("ret") == "bool" or \
                f.q in (D + "cmpBasicBlocks", B + "cmpBasicBlocks"):
            continue
        v, ic, st = passes(prog, f, opaque_for(prog, f.q,
                                               OWN7 | KEEP | HELPERS))
        for p in ic.passes:
            if not any(is_cmp(t) for t in subterms(p.term)):
                continue
            n += 1
            bad = None
            ex = PassExplore(patterns_off, 50000)
            try:
                for k, val, env, facts, used in exits(ex, p.term, ()):
                    if k in ("next", "raise", "none"):
                        continue
                    if k == "return":
                        z, a = ex.truth(val, facts, set())
                        if z is True or val[0] == "op" and val[1] == "-":
                            continue
                    fs = names(facts)
                    if any(is_cmp(t) and v is True
                           for t, v in facts.items()) and k == "break":
                        continue
                    if b == "cmpPHIs" and k == "break" and holds(
                            fs, [(r"==\(.*getIncomingBlock.*"
                                  r"getIncomingBlock", True),
                                 (r"cmpValues\(.*getIncomingValue.*"
                                  r"getIncomingValue", False)]):
                        continue
                    bad = (k, fs)
                    break
            except Budget:
                raise AnalysisBroken(f"{f.q}: too many outcomes of a pass")
            cs = sorted({path(t)[:50] for t in subterms(p.term)
                         if is_cmp(t)})
            ck.ob("every-part", f"{f.q}: {'; '.join(cs)[:90]}", bad is None,
                  "" if bad is None else
                  f"{f.q} leaves the loop ({bad[0]}) before all parts were "
                  f"compared; taken when: {show_facts(bad[1])}", p.where)
    ck.floor("loops over parts", n, 15)


def advanced(x, X):
    return x in (f"Add({X},1)", f"next({X})")


def rule(fs, k, val, l, r, PL, PR):
    """Name of the rule by which the pass ends; starts with ! if none."""
    E, F = re.escape(PL), re.escape(PR)
    cmp_ = [p for f, p in fs if re.fullmatch(rf"{OWO}\({E},{F}\)", f)]
    if k == "raise":
        return "error"
    if not cmp_:
        if k == "return":
            return "instructions not compared, found different" if \
                val[0] == "c" and val[2] else \
                "!returns without comparing the instructions"
        if k == "break":
            return "end of a block" if l == PL and r == PR and any(
                p and re.match(r"==\(", f) and re.search(r"\.end\b", f)
                for f, p in fs) else "!stops without comparing all"
        if l != PL and r == PR and advanced(l, PL) and \
                holds(fs, [(rf"isDebugInfo\(\*?{E}\)", True)]):
            return "debug information skipped (left)"
        if r != PR and l == PL and advanced(r, PR) and \
                holds(fs, [(rf"isDebugInfo\(\*?{F}\)", True)]):
            return "debug information skipped (right)"
        if holds(fs, [[[(rf"isPartOfPattern\(.*{E}\)", True)],
                       [(rf"isPartOfPattern\(.*{F}\)", True)]]]):
            return "instructions of a custom pattern skipped"
        return "!goes on without comparing the instructions"
    if not cmp_[-1]:
        if k in ("return", "break"):
            return "equal instructions, conflict found" if \
                val[0] == "c" and val[2] else \
                "!gives up with an equal result"
        if advanced(l, PL) and advanced(r, PR):
            return "equal instructions"
        for x, y, X, Y, pr in ((l, r, PL, PR, "First"),
                               (r, l, PR, PL, "Second")):
            if re.search(r"Reloc\.restore$", x) and advanced(y, Y) and \
                    holds(fs, [(r"==\(.*Reloc\.status.*Matching", True),
                               (r"==\(.*Reloc\.prog.*" + pr, True)
                               if pr == "First" else
                               [[(r"==\(.*Reloc\.prog.*Second", True)],
                                [(r"==\(.*Reloc\.prog.*First", False)]],
                               (rf"==\(.*{X}.*Reloc\.end|"
                                rf"==\(.*Reloc\.end.*{X}", True)]):
                return f"relocated code matched ({pr})"
        return "!equal instructions are not both passed"
    # a difference was found
    if k in ("return", "break"):
        if val[0] == "c" and not val[2]:
            return "!a difference found ends in an equal result"
        if val[0] == "c" or path(val).startswith(OWO):
            return "difference reported"
        return "!a difference found ends in " + path(val)[:60]
    if holds(fs, [(rf"is<GetElementPtrInst>\({E}\)", True),
                  (rf"is<GetElementPtrInst>\({F}\)", True),
                  (rf"cmpFieldAccess\({E},{F}\)", False)]):
        return "equal field accesses"
    sl = holds(fs, [(rf"maySkipInstruction\(.*{E}\)", True)])
    sr = holds(fs, [(rf"maySkipInstruction\(.*{F}\)", True)])
    if (sl or sr) and (advanced(l, PL) or l == PL) and \
            (advanced(r, PR) or r == PR):
        if l != PL and not sl or r != PR and not sr:
            return "!an instruction is skipped which must not be"
        if l != PL or r != PR:
            return "skippable instruction skipped"
    if advanced(l, PL) and advanced(r, PR) and holds(
            fs, [(r"Patterns\.ReorderedBinOps", True),
                 (rf"isReorderableBinaryOp\(.*{E}\)", True),
                 (rf"isReorderableBinaryOp\(.*{F}\)", True),
                 (rf"==\({E}\.getOpcode,{F}\.getOpcode\)", True),
                 (rf"cmpValues\({E},{F}\)", False),
                 (rf"collectBinaryOperands\({E}\.getOperand\[0\]", True),
                 (rf"collectBinaryOperands\({E}\.getOperand\[1\]", True),
                 (rf"collectBinaryOperands\({F}\.getOperand\[0\]", True),
                 (rf"collectBinaryOperands\({F}\.getOperand\[1\]", True)]):
        eqs = [f for f, p in fs if p and
               re.fullmatch(r"==\(collectBinaryOperands\(.*\)!\w+,"
                            r"collectBinaryOperands\(.*\)!\w+\)", f)]
        if len(eqs) >= 2:
            return "operands reordered"
        return "!operands of reordered operations are not all compared"
    for x, y, X, Y in ((l, r, PL, PR), (r, l, PR, PL)):
        if advanced(x, X) and y == Y and holds(
                fs, [(r"Patterns\.InverseConditions", True),
                     (rf"isLogicalNot\(.*{re.escape(X)}\)", True)]) and \
                any(p and f.startswith("checkInverseCondUsers(")
                    for f, p in fs):
            return f"negation skipped ({X})"
        if re.search(r"Reloc\.begin$", x) and y == Y and holds(
                fs, [(r"==\(.*Reloc\.status.*Stored", True)]):
            return f"relocated code tried ({X})"
    if l == PL and r == PR and holds(
            fs, [(rf"matchPattern\(.*{E},.*{F}\)", True)]):
        return "custom pattern matched"
    if holds(fs, [(r"Patterns\.Relocations", True),
                  (r"==\(.*Reloc\.status.*None", True),
                  (rf"findMatchingOpWithOffset\({E},{F}", True)]):
        return "relocation started"
    return "!goes on after a difference was found"


def module(ck, prog):
    """The verdict of a pair of functions is the one of its comparison."""
    q = "ModuleComparator::compareFunctions"
    cm = Comparators(prog, keep={"tryToInline", "compare", "simplifyFunction",
                                 "isFunctionPairCached", "hasSuffix",
                                 "dropSuffix", "updateStats", "findCallInst",
                                 "getCalledFunction"},
                     only={"compare"})
    r = cm.run(q, impure={"llvm::FunctionComparator::compare",
                          D + "compare"})
    if r is None:
        ck.violate("verdict", q, f"{q} does not exist")
        return
    v, ic, st, fn = r
    ck.analysed.update(ic.analysed)
    where = f"({fn.rel}: {fn.q})"
    cmps = [e for e in ic.events if e.name.endswith("Comparator::compare")]
    stores = [(i, e) for i, e in enumerate(ic.events)
              if e.name == "@setattr.kind" and
              "ComparedFuns" in path(e.args[0])]
    if not stores:
        raise AnalysisBroken(f"{q}: no verdict is stored")
    first = None
    for t in sorted({t for e in ic.events for t, p in e.facts
                     for t in subterms(t)
                     if is_cmp(t) and callee(t)[0] == "compare"},
                    key=lambda t: min(i for i, e in enumerate(ic.events)
                                      if any(t in set(subterms(x))
                                             for x, p in e.facts))):
        first = first or t

    def left(t, p):
        """The fact that a loop over a flag has ended."""
        return not p and t[:2] == ("op", "loopout") and \
            t[2] == ("elem", ("while", t[3]))

    def chosen(t, ex):
        """The values which a value selected by conditions may have."""
        if t[0] != "ite":
            return [t]
        x, a = ex.truth(t[1], {}, set())
        return ([] if x is False else chosen(t[2], ex)) + \
            ([] if x is True else chosen(t[3], ex))

    def verdicts(oracle):
        ex = PassExplore(oracle)
        out = {"none"}
        for i, e in stores:
            vals = []
            for t, p in e.facts:
                x, a = ex.truth(t, {}, set())
                if x is None and left(t, p):
                    x = p
                vals.append(None if x is None else x == p)
            if False in vals:
                continue
            if None not in vals:
                out = set()
            out |= {path(x).split("::")[-1] for x in chosen(e.args[1], ex)}
        return out

    def oracle(cached=False, dl=False, dr=False, same=True, cfo=False,
               res1=False, res2=None, loop=False):
        def f(t):
            c = callee(t) if t[0] == "call" else None
            if c and c[0] == "isFunctionPairCached":
                return cached
            if c and c[0] == "isDeclaration":
                return dl if path(c[2]) == "L" else dr
            p = path(t)
            if p.endswith("Patterns.ControlFlowOnly"):
                return cfo
            if c and c[0] == "compare" and is_cmp(t):
                if t == first:
                    return res1
                return res2
            if t[0] == "inloop":
                return loop
            if t[0] == "op" and t[1] == "==" and "getName" in path(t[2]) \
                    and "getName" in path(t[3]):
                return same
            if c and c[0] == "hasSuffix":
                return False
            if p.startswith("this.tryInline"):
                return loop
            if t[0] == "op" and t[1] == "==" and "tryToInline" in p:
                return "Inlined" in p
            return None
        return f
    S = []
    S.append(("function excluded by the cache", dict(cached=True),
              {"UNKNOWN"}))
    for cfo in (False, True):
        s = ", control flow only" if cfo else ""
        for dl, dr in ((True, True), (True, False), (False, True)):
            d = "both" if dl and dr else "first" if dl else "second"
            S.append((f"no body ({d}), different names{s}",
                      dict(dl=dl, dr=dr, same=False, cfo=cfo),
                      {"NOT_EQUAL"}))
            S.append((f"no body ({d}), same name{s}",
                      dict(dl=dl, dr=dr, cfo=cfo), {"ASSUMED_EQUAL"}))
    S.append(("bodies differ", dict(res1=True), {"NOT_EQUAL"}))
    S.append(("bodies are equal", dict(res1=False), {"EQUAL"}))
    S.append(("bodies differ also after inlining",
              dict(res1=True, res2=True, loop=True), {"NOT_EQUAL"}))
    S.append(("bodies are equal after inlining",
              dict(res1=True, res2=False, loop=True), {"EQUAL"}))
    for name, kw, want in S:
        got = verdicts(oracle(**kw))
        ck.ob("verdict", name, got <= want,
              f"{q} gives {sorted(got)} instead of {sorted(want)} when: "
              f"{name}", where)
    # a missing body is reported
    defs = [e for e in ic.events if e.name.split("::")[-1] in
            ("push_back", "emplace_back") and
            "MissingDefs" in path(e.args[0])]
    for dl, dr in ((True, False), (False, True)):
        ex = PassExplore(oracle(dl=dl, dr=dr))
        ok = False
        for e in defs:
            vals = {ex.truth(t, {}, set())[0] == p for t, p in e.facts}
            what = path(e.args[1]) if len(e.args) == 2 else \
                "first({}),second({})".format(*map(path, e.args[1:3]))
            want = r"first\(L\)" if dl else r"second\(R\)"
            if vals == {True} and re.search(want, what):
                ok = True
        ck.ob("verdict", f"missing body reported ({'LR'[dr]})", ok,
              f"{q} assumes functions equal without reporting that the "
              f"definition of the {'first' if dl else 'second'} is missing",
              where)


def run():
    ck = Check("P07", "Exhaustive enumeration of the outcomes of every "
               "comparator, of one arbitrary pass over two blocks and of the "
               "verdict of a pair of functions: a nonzero partial result "
               "leads to a nonzero result unless the facts of one of the "
               "listed exemptions hold.")
    prog = CxxProgram(REPO, units=None)
    comparators(ck, prog)
    every_part(ck, prog)
    block_pass(ck, prog)
    module(ck, prog)
    return ck
