"""P25: skipped or moved code does not interfere with the code around it."""
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken
from lib.cxxfront import CxxProgram
from lib.cxxcmp import callee, path
from lib.cxxpass import PassExplore, exits, passes, resolve
from lib.cxxrules import READONLY, find_pass, holds, names, opaque_for, \
    show_facts
from lib.interp import subterms
from checks.p07 import OWO, PASSKEEP, advanced
from checks.p09 import field_of, happened, resolved
from checks.p10 import D

LIMIT = 400000


def analyse(ck, prog, q, keep=(), restoring=None, args=None):
    fns = prog.fns(q)
    if len(fns) != 1:
        raise AnalysisBroken(f"{q} is not a single function")
    v, ic, st = passes(prog, fns[0], opaque_for(prog, q, set(keep)), args,
                       restoring or {}, {})
    ck.analysed.update(ic.analysed)
    return v, ic, fns[0]


def where(fn):
    return f"({fn.rel}: {fn.q})"


def cases(v, zero):
    """Facts of all outcomes which can be zero (false, null) or not."""
    for o in PassExplore(lambda t: None, LIMIT).outcomes(v):
        if o.zero is (not zero):
            continue
        facts = dict(o.facts)
        if o.zero is None:
            facts[o.leaf] = not zero
        yield names(facts), facts, o


def only_if(ck, rule, q, v, fn, zero, needs, what):
    """Every outcome of the given kind satisfies one of the alternatives."""
    n = 0
    bad = None
    for fs, facts, o in cases(v, zero):
        n += 1
        if not any(holds(fs, alt) for alt in needs):
            bad = bad or show_facts(fs, 8)
    ck.ob(rule, q, bad is None, f"{q}: {what}; taken when: {bad}", where(fn))
    return n


# -- what may write to memory
def memory(ck, prog):
    q = "mayAlias"
    v, ic, fn = analyse(ck, prog, q, {"getAllocaFromPtr"})
    A, B = "PtrL", "PtrR"
    ps = [p["n"] for p in fn.params]
    if len(ps) == 2:
        A, B = ps
    a, b = rf"getAllocaFromPtr\({A}\)", rf"getAllocaFromPtr\({B}\)"
    eq = rf"==\({a},{b}\)|==\({b},{a}\)"
    only_if(ck, "alias", q, v, fn, True, [
        [(rf"^{a}$", True), (rf"^{b}$", True), (eq, False)],
        [(rf"^{a}$", True), (rf"^{b}$", True), (eq, True),
         (rf"^is<GetElementPtrInst>\({A}\)", True),
         (rf"^is<GetElementPtrInst>\({B}\)", True),
         (r"^==\(.*getPointerOperand.*getPointerOperand", True),
         (r"^==\(.*getSourceElementType.*getSourceElementType", True),
         (r"^==\(.*get[SZ]ExtValue.*get[SZ]ExtValue", False)]],
        "two pointers are taken for distinct although neither their local "
        "variables nor constant indices of the same pointer differ")
    q = "getAllocaFromPtr"
    v, ic, fn = analyse(ck, prog, q)
    p = fn.params[0]["n"]
    bad = []
    for fs, facts, o in cases(v, False):
        ok = holds(fs, [(rf"^is<AllocaInst>\({p}\)", True)]) or \
            "getAllocaFromPtr" in path(o.leaf) and re.search(
                rf"{p}\.(getPointerOperand|getOperand\[0\])",
                path(o.leaf)) and holds(fs, [
                    (rf"^is<(GetElementPtrInst|GEPOperator|CastInst|BitCast"
                     rf"\w+|AddrSpaceCast\w+)>\({p}\)", True)])
        if not ok:
            bad.append(path(o.leaf) + ": " + show_facts(fs, 6))
    ck.ob("alias", q, not bad, f"{q}: returns a variable which the pointer "
          f"does not point to: {bad[:1]}", where(fn))
    q = "mayStoreTo"
    v, ic, fn = analyse(ck, prog, q, {"mayAlias", "isDebugInfo"})
    i, p = (x["n"] for x in fn.params)
    only_if(ck, "store", q, v, fn, True, [
        [(rf"^is<StoreInst>\({i}\)", True),
         (rf"^mayAlias\({i}\.getPointerOperand,{p}\)|"
          rf"^mayAlias\({p},{i}\.getPointerOperand\)", False)],
        [(rf"^isDebugInfo\({i}\)", True)],
        [(rf"{i}\.mayWriteToMemory", False)]],
        "an instruction which may write to the memory is taken for harmless")
    q = "isDebugInfo"
    for fn in prog.fns(q):
        from lib.cxxpass import passes as ps
        v, ic, st = ps(prog, fn, opaque_for(prog, q, ()), None, {}, {})
        ck.analysed.update(ic.analysed)
        only_if(ck, "store", q, v, fn, False,
                [[(r"==\(.*getIntrinsicID.*::dbg_\w+", True)],
                 [(r"is<DbgInfoIntrinsic>", True)]],
                "an instruction which is no debug information is ignored")


# -- repeated loads
def loads(ck, prog):
    q = D + "maySkipLoad"
    v, ic, fn = analyse(ck, prog, q, {"mayStoreTo", "isDebugInfo"})
    L = fn.params[0]["n"]
    n = only_if(ck, "load", q + ": volatile loads", v, fn, False,
                [[(rf"{L}\.(isUnordered|isSimple)", True)],
                 [(rf"{L}\.isVolatile", False), (rf"{L}\.isAtomic", False)]],
                "a volatile or atomic load is skipped")
    ck.floor("ways of skipping a load", n, 1)
    # its replacement
    ins = [e for e in ic.events if e.name.split("::")[-1] in (
        "insert", "emplace", "try_emplace", "insert_or_assign")
        and "replacedInstructions" in path(e.args[0])]
    R = set()
    for e in ins:
        m = re.search(rf"first\({L}\),second\((\w+)'*\)",
                      "".join(path(x) for x in e.args[1:])) or \
            re.fullmatch(rf"{L};(\w+)'*",
                         ";".join(path(x) for x in e.args[1:]))
        R.add(m.group(1) if m else None)
    ck.ob("load", q + ": replacement", len(ins) > 0 and None not in R and
          len(R) == 1, f"{q}: a skipped load is not replaced by the one value "
          "found on all paths to it", where(fn))
    if len(R) != 1 or None in R:
        return
    R, = R
    only_if(ck, "load", q + ": found value", v, fn, False,
            [[(rf"^{R}'*$", True)], [(rf"==\({R}'*,null", False)]],
            "a load is skipped although no value to replace it was found")

    def conflict(t):
        return t[0] == "call" and callee(t) is not None and \
            callee(t)[0] == "mayStoreTo"
    p = find_pass(ic.passes, conflict)
    if p is None:
        ck.ob("load", q + ": conflicts", False, f"{q}: nothing is checked "
              "between the load and its replacement", where(fn))
        return
    E, = {path(callee(t)[3][0]) for t in subterms(p.term) if conflict(t)}
    ptr = {path(callee(t)[3][1]) for t in subterms(p.term) if conflict(t)}
    ck.ob("load", q + ": conflicting pointer", all(
        re.fullmatch(rf"{L}\.getPointerOperand|{L}\.getOperand\[0\]|"
                     rf"getLoadStorePointerOperand\({L}\)", x) for x in ptr),
        f"{q}: conflicts are looked for at {sorted(ptr)}, not at the pointer "
        "of the load", p.where)
    start = path(p.entry.get(E, ("c", "none", None))) if E in (p.entry or {}) \
        else path(p.elem)
    ck.ob("load", q + ": direction", "rbegin" in start or "reverse" in
          start.lower(), f"{q}: goes through a block from {start}, which is "
          "not its end", p.where)
    eE, eL = re.escape(E), re.escape(L)
    same = rf"^==\({eE},{eL}\)|^==\({eL},{eE}\)"
    flags = set()
    bad = {}
    n = 0
    for k, val, env, facts, used in exits(
            PassExplore(lambda t: None, LIMIT), p.term,
            tuple(sorted(set(p.start)))):
        fs = names(facts)
        n += 1
        if k == "next":
            if holds(fs, [(rf"^mayStoreTo\({eE},", False)]):
                continue
            # a part of the first block which follows the load
            fl = {f for f, pol in fs if pol and re.fullmatch(r"\w+'*", f) and
                  f in {path(x) for x in p.start.values()}}
            flags |= fl
            if not fl:
                bad["conflict"] = fs
            elif not (holds(fs, [(same, False)]) or any(
                    path(env.get(x.rstrip("'"), ("c", "n", 1))) == "False"
                    for x in fl)):
                bad["first"] = fs
        elif k == "return":
            if path(val) not in ("False", "0"):
                bad["return"] = fs
        elif k == "break":
            r = path(env.get(R, p.start.get(R, ("c", "none", None))))
            if holds(fs, [(same, True)]) and r == path(p.start.get(
                    R, ("c", "n", 0))):
                if any(f in flags and pol for f, pol in fs):
                    bad["first"] = fs
                continue
            ok = holds(fs, [(rf"^{R}'*$", False)]) and holds(fs, [
                (rf"==\(.*{eE}\.getPointerOperand.*|"
                 rf"==\(.*{eL}\.getPointerOperand.*", True)])
            if r == E:
                ok = ok and holds(fs, [
                    (rf"^is<LoadInst>\({eE}\)", True),
                    (rf"^==\(.*{eE}\.getType", True)])
            elif r == E + ".getValueOperand":
                ok = ok and holds(fs, [
                    (rf"^is<StoreInst>\({eE}\)", True),
                    (rf"^==\(.*{eE}\.getValueOperand\.getType", True),
                    [[(rf"ignoredInstructions\.(count|contains)\[{eE}\]",
                       True)],
                     [(rf"==\(.*ignoredInstructions\.find\[{eE}\]",
                       False)]]])
            else:
                ok = False
            if not ok:
                bad["candidate"] = fs
    for key, msg in (
            ("conflict", "goes on to earlier instructions although the "
             "current one may change the memory"),
            ("first", "the instructions which follow the load are not "
             "exactly those that are not looked at"),
            ("return", "succeeds in the middle of a block"),
            ("candidate", "takes a value which is not the only one loaded "
             "from, or stored to, the same pointer")):
        ck.ob("load", f"{q}: {key}", n and key not in bad, f"{q}: {msg}; "
              f"taken when: {show_facts(bad.get(key, []), 8)}", p.where)
    ck.ob("load", q + ": one flag", len(flags) <= 1,
          f"{q}: instructions are left out for several reasons: "
          f"{sorted(flags)}", p.where)
    # blocks
    outer = [x for x in ic.passes if x is not p and
             any(t == p.elem or path(p.elem) in path(t)
                 for t in subterms(x.term)
                 if t[0] == "op" and t[1] == "left-by-break")]
    if not outer:
        raise AnalysisBroken(q + ": no walk over blocks")
    o = outer[-1]

    def entered(t):
        # the walk over a block always comes to its end or stops in it
        return None
    n = 0
    bad = {}
    for k, val, env, facts, used in exits(
            PassExplore(entered, LIMIT), o.term, (R,)):
        fs = names(facts)
        n += 1
        if k == "return":
            if path(val) not in ("False", "0"):
                bad["return"] = fs
        elif k in ("next", "break"):
            stopped = holds(fs, [(r"^left-by-break", True)])
            pred = holds(fs, [(r"predecessors\(.*|pred_empty", False)])
            if not stopped and not (pred and k == "next"):
                bad["top"] = fs
    ck.ob("load", q + ": all paths", n and "top" not in bad,
          f"{q}: a path on which there is no value to replace the load is "
          "left without checking its predecessors; taken when: "
          f"{show_facts(bad.get('top', []), 6)}", o.where)
    ck.ob("load", q + ": all blocks", n and "return" not in bad,
          f"{q}: succeeds before all paths were checked; taken when: "
          f"{show_facts(bad.get('return', []), 6)}", o.where)
    push = [e for e in ic.events if e.name.split("::")[-1] in (
        "push_back", "push_front", "push", "emplace_back", "insert") and
        "redecessor" in path(e.args[-1])]
    todo = [e for e in push if "visited" not in path(e.args[0])]
    bad = []
    for e in todo:
        for f, pol in names(dict(e.facts)):
            if re.search(r"redecessors\([^)]*\)+\[#\]", f) and not (
                    re.search(r"isited.*(find|count|contains|insert)", f)):
                bad.append(f)
    ck.ob("load", q + ": predecessors", todo and not bad,
          f"{q}: not every predecessor which was not visited is checked: "
          f"{bad[:2]}", o.where)
    # the block of the load itself has to be checked when reached again
    vis = {path(e.args[0]).rstrip("'") for e in push
           if "visited" in path(e.args[0])}
    for x in vis:
        init = path(o.entry_values.get(x, ("c", "none", None)))
        ck.ob("load", q + ": loops", "getParent" not in init,
              f"{q}: the block of the load is taken for checked although "
              "only its beginning is", o.where)


# -- skipped stores and what is recorded for skipped instructions
def skipped(ck, prog):
    q = D + "maySkipStore"
    v, ic, fn = analyse(ck, prog, q, {"getAllocaOp"})
    S = fn.params[0]["n"]
    only_if(ck, "skip", q + ": volatile stores", v, fn, False,
            [[(rf"{S}\.(isUnordered|isSimple)", True)],
             [(rf"{S}\.isVolatile", False), (rf"{S}\.isAtomic", False)]],
            "a volatile or atomic store is skipped")
    al = rf"getAllocaOp\({S}\)"
    was = rf"skippedInstructions\.(find|count|contains)\[{al}\]"
    only_if(ck, "skip", q + ": local variable", v, fn, False,
            [[(rf"^{al}$", True),
              [[(rf"^==\(.*{was}.*\.end\)", False)],
               [(rf"{was}$", True)],
               [(rf"ignoredInstructions\.(count|contains)\[{al}\]$", True)],
               [(rf"^==\(.*ignoredInstructions\.find\[{al}\].*\.end\)",
                 False)]]]],
            "a store is skipped which is not to a skipped local variable")
    bad = {}
    for fs, facts, o in cases(v, False):
        ex = PassExplore(lambda t: None)
        if not happened(ic, ex, facts, ("insert", "emplace"),
                        "ignoredInstructions", rf"^{S}$"):
            bad["the store is not ignored"] = fs
        ign = holds(fs, [[[(rf"ignoredInstructions\.(count|contains)"
                            rf"\[{al}\]$", True)],
                          [(rf"^==\(.*ignoredInstructions\.find\[{al}\]"
                            r".*\.end\)", False)]]])
        if ign:
            continue
        if not happened(ic, ex, facts, ("insert", "emplace"),
                        "ignoredInstructions", rf"^{al}$"):
            bad["the variable may be compared as a whole later"] = fs
        if not happened(ic, ex, facts, ("erase",), "skippedInstructions",
                        rf"{al}"):
            bad["the variable may be compared as a whole later"] = fs
    ck.ob("skip", q + ": ignored from now on", not bad,
          f"{q} skips a store, but {'; '.join(bad)}; taken when: "
          f"{show_facts(next(iter(bad.values()), []), 6)}", where(fn))

    def check_sets(q, v, ic, fn, rule):
        n = 0
        bad = {}
        for e in ic.events:
            m = e.name.split("::")[-1]
            if m not in ("insert", "emplace", "try_emplace",
                         "insert_or_assign") or not e.args:
                continue
            at = path(e.args[0])
            x = ";".join(path(y) for y in e.args[1:])
            fs = names(dict(e.facts))
            if "skippedInstructions" in at:
                n += 1
                if not holds(fs, [(rf"^is<AllocaInst>\({re.escape(x)}\)",
                                   True)]):
                    bad[f"{x} is recorded as a skipped local variable"] = fs
            elif "replacedInstructions" in at:
                n += 1
                r = re.search(r"first\((.*?)\),second\((.*)\)", x) or \
                    re.fullmatch(r"(.*?);(.*)", x)
                if not r or not re.match(
                        re.escape(r.group(1)) +
                        r"\.(getOperand\[0\]|getPointerOperand)",
                        r.group(2)):
                    bad[f"{x} is recorded as a replacement"] = fs
        ck.ob("skip", q + ": records", not bad,
              f"{q}: {'; '.join(bad)}; taken when: "
              f"{show_facts(next(iter(bad.values()), []), 6)}", where(fn))
        return n
    n = 0
    for q in (D + "maySkipInstruction", D + "maySkipCast"):
        v, ic, fn = analyse(ck, prog, q, {
            "maySkipCast", "maySkipLoad", "maySkipStore", "isZeroGEP",
            "isCast", "allUsersAreExtraMemInsts", "isReorderableBinaryOp",
            "maySkipReorderableBinaryOp"})
        n += check_sets(q, v, ic, fn, "skip")
        if ic.passes:
            continue        # conditions after a loop are not followed
        x = fn.params[0]["n"]
        bad = None
        for fs, facts, o in cases(v, False):
            if "maySkip" in path(o.leaf) or holds(
                    fs, [(r"^maySkip(Cast|Load|Store)\(", True)]):
                continue
            ex = PassExplore(lambda t: None)
            if not happened(ic, ex, facts, ("insert", "emplace",
                                            "try_emplace"),
                            r"(skipped|ignored|replaced)Instructions",
                            rf"^{x}$|first\({x}\)"):
                bad = fs
        ck.ob("skip", q + ": recorded", bad is None,
              f"{q}: an instruction is skipped without recording it; taken "
              f"when: {show_facts(bad or [], 6)}", where(fn))
    ck.floor("records of skipped instructions", n, 4)

    q = D + "allUsersAreExtraMemInsts"
    helpers = [f for f in prog.fns(D + "hasIgnoredAllocaOp")] \
        if any(f.q == D + "hasIgnoredAllocaOp" for f in prog.funcs.values()) \
        else []
    for fn in helpers:
        v, ic, st = passes(prog, fn, opaque_for(prog, fn.q, {"getAllocaOp"}),
                           None, {}, {})
        ck.analysed.update(ic.analysed)
        x = fn.params[0]["n"]
        al2 = rf"getAllocaOp\({x}\)"
        only_if(ck, "skip", fn.q, v, fn, False,
                [[(rf"^{al2}$", True),
                  (rf"(ignored|skipped)Instructions\.(count|contains|find)"
                   rf"\[{al2}\]", True)],
                 [(rf"^{al2}$", True),
                  (rf"==\(.*(ignored|skipped)Instructions\.find\[{al2}\]",
                   False)]],
                "a memory access is taken for one of a skipped local "
                "variable")
    # operands which were skipped
    q = D + "cmpValues"
    v, ic, fn = analyse(ck, prog, q, PASSKEEP | {"getReplacementValue",
                                                 "cmpValues"})
    bad = {}
    n = 0
    for fs, facts, o in cases(v, True):
        for x in ("L", "R"):
            n += 1
            if not holds(fs, [[
                    [(rf"ignoredInstructions\.(count|contains)\[{x}\]$",
                      False)],
                    [(rf"==\(.*ignoredInstructions\.find\[{x}\].*\.end",
                      True)]]]) and not holds(
                    fs, [(rf"^{OWO}\(", False)]):
                bad[f"an ignored value ({x}) is taken for equal"] = fs
            if not holds(fs, [[
                    [(rf"skippedInstructions\.(count|contains)\[{x}\]$",
                      False)],
                    [(rf"==\(.*skippedInstructions\.find\[{x}\].*\.end",
                      True)]]]) and not holds(
                    fs, [(rf"^{OWO}\(", False)]):
                bad["a skipped local variable is taken for equal without "
                    "being compared"] = fs
    ck.ob("skip", q + ": skipped operands", n and not bad,
          f"{q}: {'; '.join(bad)}; taken when: "
          f"{show_facts(next(iter(bad.values()), []), 6)}", where(fn))
    q = D + "getReplacementValue"
    v, ic, fn = analyse(ck, prog, q, {"maySkipCast", "isZeroGEP"})
    x = fn.params[0]["n"]
    bad = {}
    for fs, facts, o in cases(v, False):
        for t, f2 in resolved(PassExplore(lambda t: None, LIMIT), o.leaf,
                              facts):
            r = path(t)
            f3 = names(f2)
            if "replacedInstructions" in r:
                continue
            ok = re.match(rf"{x}\.(getOperand\[0\]|getPointerOperand)", r) and \
                holds(f3, [[[(r"^is<Instruction>\(", False)],
                            [(r"^==\(.*sn_map\.find.*\.end", False)],
                            [(r"sn_map\.(count|contains)", True)]]]) and \
                holds(f3, [[[(rf"maySkipCast\({x}\)", True)],
                            [(rf"isZeroGEP\({x}\)", True)]]])
            if not ok:
                bad[r] = f3
    ck.ob("skip", q, not bad, f"{q}: a value is replaced by "
          f"{next(iter(bad), '')}, which was not compared yet; taken when: "
          f"{show_facts(next(iter(bad.values()), []), 8)}", where(fn))


# -- moved code
def moved(ck, prog):
    q = D + "isDependingOnReloc"
    v, ic, fn = analyse(ck, prog, q)
    x = fn.params[0]["n"]
    if not ic.passes:
        ck.ob("moved", q + ": range", False,
              f"{q} does not look at the moved code", where(fn))
        return
    p = ic.passes[0]
    whole_range(ck, q, p)
    E = element(p)
    eE = re.escape(E)
    bad = {}
    n = 0
    for k, val, env, facts, used in exits(
            PassExplore(lambda t: None, LIMIT), p.term, ()):
        if k != "next" and not (k == "return" and
                                path(val) in ("False", "0")) and k != "break":
            continue
        n += 1
        fs = names(facts)
        if holds(fs, [(r"^==\(.*ointerOperand.*ointerOperand", False)]) or \
                holds(fs, [(rf"^is<StoreInst>\({x}\)", False),
                           (rf"^is<StoreInst>\({eE}\)", False)]) or \
                k == "next" and holds(
                    fs, [(rf"\({eE}\)$|^{eE}\.", False),
                         (r"ointerOperand|mayReadOrWriteMemory|mayWrite",
                          False)]):
            if k == "next":
                continue
        bad[k] = fs
    ck.ob("moved", q + ": same pointer", n and not bad,
          f"{q}: an access to the same pointer does not prevent moving the "
          "code; taken when: "
          f"{show_facts(next(iter(bad.values()), []), 6)}", p.where)
    bad = None
    calls = True
    n = 0
    for fs, facts, o in cases(v, True):
        n += 1
        if holds(fs, [(rf"ointerOperand\({x}\)$|{x}\.get", True)]):
            continue
        if holds(fs, [(rf"{x}\.mayWriteToMemory|{x}\.mayReadOrWriteMemory|"
                       rf"{x}\.mayHaveSideEffects", False)]):
            continue
        calls = False
        if not holds(fs, [(rf"ointerOperand\({x}\)$", False)]) and \
                not holds(fs, [(rf"is<(Load|Store)Inst>\({x}\)", False)]):
            bad = fs
    ck.ob("moved", q + ": accesses", n and bad is None,
          f"{q}: a load or store is taken for independent without looking at "
          f"the moved code; taken when: {show_facts(bad or [], 6)}",
          where(fn))
    ck.ob("moved", q + ": calls", calls,
          f"{q}: a call is taken for independent of any moved code, so that "
          "code is moved over a call which may access the same memory or "
          "have other effects", where(fn))
    alias = any(e.name.split("::")[-1] in ("mayAlias", "alias", "mayStoreTo")
                for e in ic.events)
    ck.ob("moved", q + ": other pointers", alias,
          f"{q}: accesses through different pointers are taken for "
          "independent although the pointers may be the same", where(fn))

    q = D + "isRelocPossible"
    if any(f.q == q for f in prog.funcs.values()):
        v, ic, fn = analyse(ck, prog, q)
        only_if(ck, "moved", q, v, fn, False, [
            [(r"==\(.*getParent.*getParent", True)],
            [(r"==\(.*getParent.*getParent", False),
             (r"mayHaveSideEffects", False)],
            [(r"==\(.*getParent.*getParent", False),
             (r"^==\(.*Reloc\.end", True)]],
            "code is moved to another block without looking at it")
        for p in ic.passes:
            ev = any("SideEffects" in e.name for e in p.events)
            if ev:
                whole_range(ck, q, p)
                bad = [names(f) for k, val, env, f, u in exits(
                    PassExplore(lambda t: None, LIMIT), p.term, ())
                    if k != "return" and not holds(
                        names(f), [(r"mayHaveSideEffects", False)])]
                ck.ob("moved", q + ": side effects", not bad,
                      f"{q}: code with side effects is moved to another "
                      "block", p.where)
        walk = [p for p in ic.passes if any(
            "getSinglePredecessor" in e.name for e in p.events)]
        ck.ob("moved", q + ": conditions", len(walk) == 1 and any(
            "SideEffects" in e.name for p in ic.passes for e in p.events),
            f"{q}: code is moved to a block which may be entered under other "
            "conditions or more often", where(fn))

    # code which is found to be moved
    q = D + "findMatchingOpWithOffset"
    from checks.p09 import analyse as analyse9
    v, ic, st, fn = analyse9(prog, q, {OWO, "isDependingOnReloc",
                                       "isDebugInfo"})

    def owo(t):
        return t[0] == "call" and callee(t) is not None and \
            callee(t)[0] == OWO
    p = find_pass(ic.passes, owo)
    if p is None:
        raise AnalysisBroken(q)
    n = 0
    bad = {}
    for k, val, env, facts, used in exits(
            PassExplore(lambda t: None, LIMIT), p.term,
            ("this.Reloc.prog", "this.Reloc.status", "this.Reloc.begin",
             "this.Reloc.end")):
        if k != "return" or path(val) in ("False", "0"):
            continue
        n += 1
        fs = names(facts)
        if not holds(fs, [(rf"^{OWO}\(", False)]):
            bad["nothing equal was found"] = fs
        if not holds(fs, [(r"isDependingOnReloc\(", False)]):
            bad["the instruction following the moved code depends on it"] = fs
        if "Stored" not in path(env.get("this.Reloc.status", ("c", "n", 0))):
            bad["the moved code is not remembered"] = fs
        if path(env.get("this.Reloc.prog", ("c", "n", 0))) != \
                fn.params[2]["n"]:
            bad["the version of the moved code is not remembered"] = fs
        dep = [f for f, pol in fs if f.startswith("isDependingOnReloc")
               or ".isDependingOnReloc" in f]
        eqs = [f for f, pol in fs if f.startswith(OWO + "(")]
        for d in dep:
            m = re.search(r"isDependingOnReloc[(\[](.*)[)\]]$", d)
            if m and (not any(m.group(1) in e for e in eqs) or
                      "first " in m.group(1)):
                bad["the dependency of another instruction is checked"] = fs
        e = path(env.get("this.Reloc.end", ("c", "n", 0)))
        moving = [x for x in re.findall(r"[\w ']+", " ".join(
            f[len(OWO):] for f in eqs)) if not x.startswith("first ")]
        prev = {f"Sub({x},1)" for x in moving}
        ok = e in prev
        for w in ic.passes:
            for var, t in w.start.items():
                if path(t) == e and path((w.entry or {}).get(
                        var, ("c", "n", 0))) in prev:
                    ok = True
        if not ok:
            bad["the end of the moved code is not the last instruction "
                "before the equal one"] = fs
    b = field_of(st, "Reloc.begin")
    for fs, facts, o in cases(v, False):
        for t, f2 in resolved(PassExplore(lambda t: None, LIMIT), b, facts):
            sides = {"L": [(r"==\(prog_to_search,.*First", True)],
                     "R": [(r"==\(prog_to_search,.*First", False)]}
            for x, need in sides.items():
                if not holds(names(f2), [[need, [(need[0][0].replace(
                        "First", "Second"), not need[0][1])]]]):
                    continue
                if path(t) != f"first Inst{x}":
                    bad["its beginning is not the differing instruction"] = \
                        names(f2)
    ck.ob("moved", q, n and not bad,
          f"{q}: code is taken for moved although {'; '.join(bad)}"
          if n else f"{q} never finds moved code", p.where)

    # going over it
    q = D + "cmpBasicBlocks"
    v, ic, fn = analyse(ck, prog, q, PASSKEEP | {"isRelocPossible"}, {
        D + "cmpFieldAccess": False, D + "findMatchingOpWithOffset": True})
    p = find_pass(ic.passes, owo)
    if p is None:
        raise AnalysisBroken(q)
    PL, PR = next(x for x in (tuple(path(y) for y in callee(t)[3]
                                    if path(y) != "this")
                              for t in subterms(p.term) if owo(t))
                  if len(x) == 2)

    def irrelevant(t):
        s = path(t)
        if "CurrentLoc" in s or "ExtendedStat" in s or "getDebugLoc" in s:
            return False
        return None
    n = m = 0
    bad = {}
    for k, val, env, facts, used in exits(
            PassExplore(irrelevant, LIMIT), p.term,
            (PL, PR, "this.Reloc.status")):
        fs = names(facts)
        if k != "next" or not possible(fs):
            continue
        stored = holds(fs, [(r"^==\(.*Reloc\.status.*Stored", True)])
        if not stored:
            continue
        l, r = path(env.get(PL, ("sym", PL))), path(env.get(PR, ("sym", PR)))
        first = [pol for f, pol in fs if re.search(
            r"==\(.*Reloc\.prog.*First|==\(.*First.*Reloc\.prog", f)]
        second = [pol for f, pol in fs if re.search(
            r"==\(.*Reloc\.prog.*Second|==\(.*Second.*Reloc\.prog", f)]
        side = None
        if True in first or (not first and False in second):
            side = "L"
        if True in second or (not second and False in first):
            side = "R"
        if False in first and False in second:
            continue        # there are two versions
        if holds(fs, [(rf"^{OWO}\(", False)]):
            n += 1
            I = {"L": PL, "R": PR}.get(side)
            if I is None or not holds(
                    fs, [(rf"isDependingOnReloc[(\[]{re.escape(I)}[)\]]",
                          False)]):
                bad["goes over an equal instruction which the moved code "
                    "depends on"] = fs
        elif "Matching" in path(env.get("this.Reloc.status", ("c", "", 0))):
            m += 1
            I = {"L": PL, "R": PR}.get(side)
            if I is None or not holds(
                    fs, [(rf"isRelocPossible[(\[].*{re.escape(I)}.*[)\]]",
                          True)]):
                bad["moves code to another block without checking it"] = fs
            back = {"L": l, "R": r}.get(side, "")
            if "Reloc.begin" not in back:
                bad["does not match the moved code from its beginning"] = fs
    ck.floor("ways over equal instructions", n, 2)
    ck.floor("ways of matching moved code", m, 2)
    ck.ob("moved", q, n and m and not bad, f"{q} {'; '.join(bad)}; "
          f"taken when: {show_facts(next(iter(bad.values()), []), 8)}",
          p.where)


def possible(fs):
    """A value equals at most one enumerator."""
    seen = {}
    for f, pol in fs:
        m = re.fullmatch(r"==\((this\.Reloc\.\w+),([\w:]+)\)", f) or \
            re.fullmatch(r"==\(([\w:]+),(this\.Reloc\.\w+)\)", f)
        if m and pol:
            a, b = m.groups()
            if not a.startswith("this."):
                a, b = b, a
            if seen.setdefault(a, b) != b:
                return False
    return True


def element(p):
    """The variable which goes through the moved code."""
    m = {v for v, t in p.start.items() if v in (p.entry or {}) and
         "Reloc.begin" in path(p.entry[v])
         and path(t) not in ("this.Reloc.begin",)}
    if len(m) == 1:
        return path(p.start[m.pop()])
    return path(p.elem)


def whole_range(ck, q, p):
    """The loop goes through the moved code including both its ends."""
    E = element(p)
    begins = [path(t) for v, t in (p.entry or {}).items()
              if path(p.start.get(v, t)) == E]
    ok = any(b == "this.Reloc.begin" for b in begins) or \
        "Reloc.begin" in path(p.elem)
    ends = [f for f, pol in names(dict(p.base)) if not pol and
            f.startswith("==(") and E in f and "Reloc.end" in f]
    # the loop ends after the last instruction, not at it
    ok2 = any(re.search(r"Add\(this\.Reloc\.end,1\)|next\(this\.Reloc\.end|"
                        r"Reloc\.end\.getNextNode|getIterator", f)
              for f in ends) or "Reloc.end" in path(p.elem) and \
        re.search(r"Add\(this\.Reloc\.end,1\)|next\(", path(p.elem))
    if not ends:
        # a loop which is left at the last instruction by itself
        ok2 = any(k == "break" and holds(
            names(f), [(r"==\(.*Reloc\.end", True)])
            for k, v, e, f, u in exits(PassExplore(lambda t: None, LIMIT),
                                       p.term, ()))
    ck.ob("moved", q + ": range", bool(ok and ok2),
          f"{q} does not look at all of the moved code, from its first "
          f"instruction ({begins}) to the last one ({ends})", p.where)


def run():
    ck = Check("P25", "Every outcome of the functions which skip repeated "
               "loads, skip stores to local variables and move code is "
               "enumerated; each accepting one has to imply that no "
               "instruction gone over may access the same memory.")
    prog = CxxProgram(REPO, units=None)
    memory(ck, prog)
    loads(ck, prog)
    skipped(ck, prog)
    moved(ck, prog)
    return ck
