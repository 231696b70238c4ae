"""P21: a custom pattern is applied only where it matches."""
import re
from lib.report import Check, REPO
from lib.cxxfront import CxxProgram
from lib.cxxcmp import path
from lib.cxxpass import PassExplore, exits
from lib.cxxrules import holds, names, show_facts
from lib.pyfront import AnalysisBroken
from checks.p10 import D
from checks.p25 import LIMIT, analyse, cases, only_if, where

C = "CustomPatternComparator::"
I = "InstPatternComparator::"
V = "ValuePatternComparator::"
S = "CustomPatternSet::"
SIDES = (("first", "L"), ("second", "R"))
SETS = ("insert", "emplace", "try_emplace", "insert_or_assign", "@setitem")


def short(e):
    n = e.name.split("<")[0] if e.name.startswith("@") else e.name
    return re.sub(r"<.*>", "", n).split("::")[-1]


def events(ic, name, *rx):
    """Events with the given (last part of the) name, whose arguments match."""
    out = []
    for e in ic.events:
        if short(e) not in ((name,) if isinstance(name, str) else name):
            continue
        a = [path(x) for x in e.args]
        if len(a) >= len(rx) and all(re.search(r, x) for r, x in zip(rx, a)):
            out.append(e)
    return out


def efacts(e):
    """Facts of an event; a number compared with zero is a truth value."""
    out = names(dict(e.facts))
    for f, pol in list(out):
        m = re.fullmatch(r"==\((.*),0\)", f)
        if m:
            out.append((m.group(1), not pol))
    return out


def params(fn):
    return [re.escape(p["n"]) for p in fn.params]


def nexts(ck, rule, what, p, needs, msg, kinds=("next",)):
    """Every way of finishing one pass of a loop satisfies an alternative."""
    n, bad = 0, None
    outer = [v for v in every_variable(p.term) if v in p.start]
    for k, val, env, facts, used in exits(PassExplore(lambda t: None, LIMIT),
                                          p.term, outer):
        if k == "break" and "next" in kinds and "break" not in kinds:
            # leaving the loop early has to leave a trace
            if any(path(x).rstrip("'") != v for v, x in env.items()
                   if v != "@"):
                continue
        elif k not in kinds:
            continue
        n += 1
        fs = names(facts)
        if not any(holds(fs, alt) for alt in needs):
            bad = bad or show_facts(fs, 8)
    ck.ob(rule, what, bad is None, f"{what}: {msg}; when: {bad}", p.where)
    return n


def noearly(ck, rule, q, ic):
    """No loop of a comparison is left with the result 'equal'."""
    bad = None
    for p in ic.passes:
        for k, val, env, facts, used in exits(PassExplore(
                lambda t: None, LIMIT), p.term, ()):
            if k == "return" and path(val) not in ("1", "-1", "True") and \
                    not holds(names(facts), [(re.escape(path(val)) + "$",
                                              True)]):
                bad = bad or show_facts(names(facts), 8)
    ck.ob(rule, q + ": early", bad is None, f"{q}: the result is 'equal' "
          f"before everything was compared; when: {bad}",
          ic.passes[0].where if ic.passes else "")


def loops(ck, ic, what, pred, fn, rule):
    """The innermost loop which does something."""
    hit = [p for p in ic.passes if pred(p)]
    if not hit:
        ck.ob(rule, what, False, f"{what}: no loop considers every element",
              where(fn))
        return None
    return hit[0]


def mentions(rx):
    def f(p):
        return re.search(rx, path(p.term)) is not None or any(
            re.search(rx, ",".join(path(a) for a in e.args))
            for e in p.events)
    return f


# -- which patterns are matched
def choosing(ck, prog):
    q = C + "matchPattern"
    v, ic, fn = analyse(ck, prog, q, {"matchInstPattern",
                                      "matchValuePattern"})
    L, R = params(fn)
    only_if(ck, "match", q, v, fn, False,
            [[(rf"^match(Inst|Value)Pattern\({L},{R}\)", True)]],
            "a match is reported although no pattern matches the two "
            "instructions")
    q = C + "matchInstPattern"
    v, ic, fn = analyse(ck, prog, q, {"compare", "inputMappingValid",
                                      "processPatternMatch"})
    L, R = params(fn)
    el = r"this\.InstPatternComps\[#\]"
    p = loops(ck, ic, q, mentions(r"^.*compare\("), fn, "match")
    ok = [(rf"compare\({el}\.second\.first\)", False),
          (rf"compare\({el}\.second\.second\)", False),
          (rf"inputMappingValid\({el}\.first,{el}\.second", True)]
    if p is not None:
        nexts(ck, "match", q, p, [ok], "a pattern is applied although it does "
              "not match on both sides with the same inputs",
              ("return", "break"))
        nexts(ck, "match", q + ": progress", p, [
            [(rf"==\(.*first\.InstMatchMap.*{L}\)|"
              rf"==\({L},.*first\.InstMatchMap", True)],
            [(rf"==\(.*second\.InstMatchMap.*{R}\)|"
              rf"==\({R},.*second\.InstMatchMap", True)]],
            "a pattern is applied although it matches none of the two "
            "instructions (the comparison would not get any further)",
            ("return", "break"))
    only_if(ck, "match", q + ": result", v, fn, False, [ok],
            "a match is reported although no pattern matches")
    for i, (side, X) in enumerate(SIDES):
        want = (L, R)[i]
        ev = [e for e in ic.events if e.name == "@setattr.StartInst"
              and path(e.args[0]).endswith("." + side)]
        cm = events(ic, "compare", rf"{side}$")
        ck.ob("match", f"{q}: start {side}", len(ev) > 0 and len(cm) > 0 and
              all(re.fullmatch(want, path(e.args[1])) for e in ev) and
              ic.events.index(ev[0]) < ic.events.index(cm[0]),
              f"{q}: the {side} version is not matched from its own compared "
              "instruction", where(fn))
    pm = events(ic, "processPatternMatch", "this", rf"{el}\.first$",
                rf"{el}\.second$")
    cl = events(ic, "clear", r"InstMappings")
    ck.ob("match", q + ": result of the match", len(pm) > 0 and len(cl) > 0
          and ic.events.index(cl[0]) < ic.events.index(pm[0]) and
          all(holds(efacts(e), ok) for e in pm),
          f"{q}: the mapping of outputs is not made from this match only",
          where(fn))
    q = C + "addPatternSet"
    v, ic, fn = analyse(ck, prog, q, {"addInstPattern", "addValuePattern"})
    s, l, r = params(fn)
    for kind in ("Inst", "Value"):
        e = events(ic, f"add{kind}Pattern", "this",
                   rf"{s}\.{kind}Patterns\[#\]", rf"^{l}$", rf"^{r}$")
        ck.ob("match", f"{q}: {kind}", len(e) > 0 and len(e) == len(
            events(ic, f"add{kind}Pattern")),
            f"{q}: {kind} patterns are not compared with the two functions",
            where(fn))
    for kind in ("Inst", "Value"):
        q = C + f"add{kind}Pattern"
        v, ic, fn = analyse(ck, prog, q)
        pt, l, r = params(fn)
        em = events(ic, SETS, rf"{kind}PatternComps")
        a = ",".join(path(x) for e in em for x in e.args[1:])
        ck.ob("match", q, len(em) == 1 and re.search(
            rf"\(?first\(.*\({l},{pt}\.PatternL,{pt}\)\),second\(.*"
            rf"\({r},{pt}\.PatternR,{pt}\)", a) is not None,
            f"{q}: a side of the pattern is compared with the function of the "
            f"other version: {a[:120]}", where(fn))


def mapping(ck, prog):
    q = C + "inputMappingValid"
    v, ic, fn = analyse(ck, prog, q, {"cmpValuesByMapping", "getMappedValue",
                                      "cmpInputValues"})
    pat, pc = params(fn)
    arg = rf"{pat}\.ArgumentMapping\[#\]"
    f = {s: rf"==\({pc}\.{s}\.PatInputMatchMap\.find\[{arg}\.{s}\]" for s in
         ("first", "second")}
    val = {s: rf"{pc}\.{s}\.PatInputMatchMap\.find\[{arg}\.{s}\]\.second"
           for s in f}
    p = loops(ck, ic, q, mentions("cmpInputValues|cmpValuesByMapping"), fn,
              "inputs")
    if p is not None:
        nexts(ck, "inputs", q, p, [
            [(f["first"], True), (f["second"], True)],
            [(rf"^cmpValuesByMapping\(this\.DiffFunctionComp,{val['first']},"
              rf"{val['second']}\)", False)],
            [(f["second"], True), (
                rf"^cmpInputValues\({pc}\.second,getMappedValue\("
                rf"this\.DiffFunctionComp,{val['first']},True\),"
                rf"{arg}\.second\)", False)],
            [(f["first"], True), (
                rf"^cmpInputValues\({pc}\.first,getMappedValue\("
                rf"this\.DiffFunctionComp,{val['second']},False\),"
                rf"{arg}\.first\)", False)]],
            "an input of the pattern is accepted although it is not the same "
            "value in both versions")
        nexts(ck, "inputs", q + ": all inputs", p, [[("^$", True)]],
              "the remaining inputs are not looked at", ("break",))
        bad = [path(val_) for k, val_, env, fa, u in exits(PassExplore(
            lambda t: None, LIMIT), p.term, ()) if k == "return" and
            path(val_) not in ("False", "0")]
        ck.ob("inputs", q + ": early", not bad, f"{q}: accepts before all "
              f"inputs were looked at: {bad[:1]}", p.where)
    q = D + "cmpValuesByMapping"
    v, ic, fn = analyse(ck, prog, q)
    L, R = params(fn)
    only_if(ck, "inputs", q, v, fn, True,
            [[(rf"==\(this\.sn_mapL\.find\[{L}\]", False),
              (rf"==\(this\.sn_mapR\.find\[{R}\]", False),
              (rf"==\(this\.sn_mapL\[{L}\],this\.sn_mapR\[{R}\]\)", True)],
             [(rf"this\.sn_mapL\.(count|contains)\[{L}\]", True),
              (rf"this\.sn_mapR\.(count|contains)\[{R}\]", True),
              (rf"==\(this\.sn_mapL\[{L}\],this\.sn_mapR\[{R}\]\)", True)]],
            "values which do not correspond are taken for the same")
    q = D + "getMappedValue"
    v, ic, fn = analyse(ck, prog, q)
    val, left = params(fn)
    for pol, m, s in ((True, "L", "second"), (False, "R", "first")):
        bad = []
        n = 0
        for o in PassExplore(lambda t: None, LIMIT).outcomes(v):
            fs = names(o.facts)
            if not holds(fs, [(rf"^{left}$", pol)]):
                continue
            n += 1
            if holds(fs, [(rf"==\(this\.sn_map{m}\.find\[{val}\]", True)]):
                if o.zero is not True:
                    bad.append(show_facts(fs))
            elif not re.search(rf"mappedValuesBySn.*sn_map{m}\.find\[{val}\]"
                               rf".*\.{s}$", path(o.leaf)) and not re.search(
                                   rf"{s}\b", path(o.leaf)):
                bad.append(path(o.leaf))
        ck.ob("inputs", f"{q}: {m}", n > 0 and not bad, f"{q}: the value of "
              f"the other version is not the one mapped: {bad[:1]}",
              where(fn))
    q = C + "processPatternMatch"
    v, ic, fn = analyse(ck, prog, q)
    pat, pc = params(fn)
    el = rf"{pc}\.first\.InstMatchMap\[#\]"
    er = rf"{pc}\.second\.InstMatchMap\[#\]"
    for s, e in (("first", el), ("second", er)):
        ev = [x for x in events(ic, SETS, "AllInstMatches")
              if re.search(rf"{pc}\.{s}\b", path(x.args[1]))]
        ck.ob("outputs", f"{q}: matched {s}", len(ev) > 0 and all(
            re.fullmatch(e + r"\.second", path(x.args[1])) for x in ev)
            and any(not efacts(x) for x in ev),
            f"{q}: the matched instructions of the {s} version are not "
            "exactly those which are skipped", where(fn))
    ev = events(ic, SETS, "InstMappings")
    good = False
    for x in ev:
        a, b = (path(y) for y in x.args[1:3]) if len(x.args) == 3 else (
            path(x.args[1]), "")
        l2r = re.fullmatch(el + r"\.second", a) and re.fullmatch(
            rf"{pc}\.second\.InstMatchMap(\.lookup|\.find)?\[{pat}\.Output"
            rf"Mapping(\.lookup|\.find)?\[{el}\.first\](\.second)?\]"
            rf"(\.second)?", b)
        good = l2r is not None
        if not good:
            break
        good = holds(efacts(x), [
            [[(rf"==\({pat}\.OutputMapping\.find\[{el}\.first\]", False)],
             [(rf"{pat}\.OutputMapping\.(count|contains|lookup)\["
               rf"{el}\.first\]", True)]]])
    ck.ob("outputs", q + ": mapping", good, f"{q}: the outputs of the pattern "
          "are not mapped from the first version to the corresponding ones of "
          "the second", where(fn))
    q = D + "createPatternMapping"
    v, ic, fn = analyse(ck, prog, q)
    el = r"this\.CustomPatternComp\.InstMappings\[#\]"
    for m, s in (("L", "first"), ("R", "second")):
        ev = events(ic, SETS, rf"sn_map{m}")
        ck.ob("outputs", f"{q}: {m}", len(ev) > 0 and all(
            re.fullmatch(rf"{el}\.{s}", path(x.args[1])) and re.search(
                rf"sn_map[LR]('|\.|!|\w|\[|\()*.*size", path(x.args[2]))
            for x in ev if len(x.args) > 2),
            f"{q}: the mapped outputs do not get a common number", where(fn))
    ev = events(ic, SETS, "mappedValuesBySn")
    ck.ob("outputs", f"{q}: pairs", len(ev) > 0 and all(re.search(
        rf"first\({el}\.first\),second\({el}\.second\)", path(x.args[-1]))
        for x in ev), f"{q}: the pair of mapped outputs is not remembered",
        where(fn))
    q = D + "isPartOfPattern"
    v, ic, fn = analyse(ck, prog, q)
    i, = params(fn)
    only_if(ck, "outputs", q, v, fn, False, [
        [(rf"==\(this\.CustomPatternComp\.AllInstMatches\.find\[{i}\]",
          False)],
        [(rf"this\.CustomPatternComp\.AllInstMatches\.(count|contains)\["
          rf"{i}\]", True)]],
        "an instruction is skipped which no pattern matched")


def values(ck, prog):
    q = C + "matchValues"
    v, ic, fn = analyse(ck, prog, q, {"compare", "cmpValuesByMapping"})
    L, R = params(fn)
    el = r"this\.ValuePatternComps\[#\]"
    only_if(ck, "values", q, v, fn, False, [
        [(rf"compare\({el}\.second\.first\)", False),
         (rf"compare\({el}\.second\.second\)", False),
         [[(rf"is<LoadInst>\({L}\)", False)],
          [(rf"is<LoadInst>\({R}\)", False)],
          [(rf"cmpValuesByMapping\(this\.DiffFunctionComp,{L},{R}\)",
            False)]]]],
        "two values are taken for equal although no pattern matches both")
    for i, (side, X) in enumerate(SIDES):
        ev = [e for e in ic.events if e.name == "@setattr.ComparedValue"
              and path(e.args[0]).endswith("." + side)]
        cm = events(ic, "compare", rf"{side}$")
        ck.ob("values", f"{q}: {side}", len(ev) > 0 and len(cm) > 0 and all(
            re.fullmatch((L, R)[i], path(e.args[1])) for e in ev) and
            ic.events.index(ev[0]) < ic.events.index(cm[0]),
            f"{q}: the {side} side of the pattern is not compared with the "
            "value of that version", where(fn))
    q = C + "matchValuePattern"
    v, ic, fn = analyse(ck, prog, q, {"matchLoadInst"})
    L, R = params(fn)
    ml, mr = (rf"^matchLoadInst\({x},{el}\.first,{b}\)" for x, b in
              ((L, "True"), (R, "False")))
    only_if(ck, "values", q, v, fn, False, [[(ml, True)], [(mr, True)]],
            "a match is reported although no load matches its side")
    for x, m in ((L, ml), (R, mr)):
        ev = [e for e in events(ic, SETS, "AllInstMatches")
              if re.fullmatch(x, path(e.args[1]))]
        ck.ob("values", f"{q}: skipped {x}", len(ev) > 0 and all(
            holds(efacts(e), [(m, True)]) for e in ev),
            f"{q}: an instruction is skipped although it does not match",
            where(fn))
    ev = events(ic, SETS, "InstMappings")
    ck.ob("values", f"{q}: mapping", all(
        re.fullmatch(L, path(e.args[1])) and re.fullmatch(R, path(e.args[2]))
        and holds(efacts(e), [(ml, True), (mr, True)]) for e in ev),
        f"{q}: loads are mapped which do not match both", where(fn))
    q = C + "matchLoadInst"
    v, ic, fn = analyse(ck, prog, q, {"namesMatch"})
    ld, pat, left = params(fn)
    alts = []
    for pol, side in ((True, "L"), (False, "R")):
        alts.append([(rf"^{left}$", pol), (rf"^{ld}$|!=\({ld},null|"
                                           rf"is<LoadInst>\({ld}\)", True),
                     (rf"^is<GlobalVariable>\({pat}\.Value{side}\)", True),
                     (rf"^namesMatch\({ld}\.(getOperand\[0\]|getPointer"
                      rf"Operand)\.getName,{pat}\.Value{side}\.getName,"
                      rf"{left}\)", True)])
    only_if(ck, "values", q, v, fn, False, alts, "a load of another variable "
            "than the one of its side of the pattern matches")
    q = V + "compare"
    v, ic, fn = analyse(ck, prog, q, {"cmpValues", "namesMatch"})
    alts = []
    for pol, side in ((True, "L"), (False, "R")):
        pv = rf"this\.ParentPattern\.Value{side}"
        alts += [[(r"this\.IsLeftSide", pol), (
            rf"cmpValues\(this\.ComparedValue,{pv}\)", False)],
            [(r"this\.IsLeftSide", pol), (
                r"is<LoadInst>\(this\.ComparedValue\)", True),
             (rf"is<GlobalVariable>\({pv}\)", True),
             (rf"namesMatch\(this\.ComparedValue\.(getOperand\[0\]|getPointer"
              rf"Operand)\.getName,{pv}\.getName,this\.IsLeftSide\)", True)]]
    only_if(ck, "values", q, v, fn, True, alts, "a value matches which is not "
            "the one of its side of the pattern")
    q = V + "cmpValues"
    v, ic, fn = analyse(ck, prog, q, {"cmpConstants", "cmpInlineAsm"})
    m, p = params(fn)
    only_if(ck, "values", q, v, fn, True, [
        [(rf"==\({m},this\.FnL\)", True), (rf"==\({p},this\.FnR\)", True)],
        [(rf"^==\({m},{p}\)", True)],
        [(rf"^cmpConstants\({m},{p}\)", False)],
        [(rf"^cmpInlineAsm\({m},{p}\)", False)]],
        "two values which differ match")


# -- one side of an instruction pattern
def side(ck, prog):
    q = I + "compare"
    v, ic, fn = analyse(ck, prog, q, {"matchPattern", "checkInputMapping",
                                      "beginCompare"})
    only_if(ck, "side", q, v, fn, True, [[(r"^matchPattern\(", False),
                                          (r"^checkInputMapping\(", False)]],
            "a side matches although its code or its inputs do not")
    mp = events(ic, "matchPattern")
    for m in ("InstMatchMap", "PatInputMatchMap", "ModInputMatchMap"):
        ev = events(ic, "clear", rf"this\.{m}")
        ck.ob("side", f"{q}: {m}", len(ev) > 0 and len(mp) > 0 and
              ic.events.index(ev[0]) < ic.events.index(mp[0]) and
              not efacts(ev[0]), f"{q}: what an earlier attempt matched is "
              f"kept ({m})", where(fn))
    bc = events(ic, "beginCompare")
    ci = events(ic, "checkInputMapping")
    ck.ob("side", f"{q}: numbering", len(mp) > 0 and len(ci) > 0 and any(
        ic.events.index(e) < ic.events.index(mp[0]) for e in bc) and any(
        ic.events.index(mp[0]) < ic.events.index(e) < ic.events.index(ci[0])
        for e in bc), f"{q}: the numbering of values is not begun anew",
        where(fn))
    q = I + "checkInputMapping"
    v, ic, fn = analyse(ck, prog, q, {"cmpValues",
                                      "cmpOperationsWithOperands"})

    noearly(ck, "side", q, ic)

    def found(x):
        return rf"this\.PatInputMatchMap\.find\[{x}\]"
    a = r"this\.FnR\.args?(\[\])?\[#\]"
    p = loops(ck, ic, q + ": arguments", mentions(r"cmpValues\(.*FnR\.args"),
              fn, "side")
    if p is not None:
        nexts(ck, "side", q + ": arguments", p, [
            [(rf"==\({found(a)}", True)],
            [(rf"^cmpValues\({found(a)}\.second,{a}\)", False)]],
            "an argument is mapped to another value")
    p = loops(ck, ic, q + ": instructions",
              mentions("cmpOperationsWithOperands"), fn, "side")
    if p is not None:
        e = re.escape(path(p.elem)) if p.elem is not None else r"\S+"
        meta = rf"this\.ParentPattern\.MetadataMap\.find\[{e}\]"
        nexts(ck, "side", q + ": instructions", p, [
            [(rf"==\({meta}", False), (rf"{meta}\.second\.NotAnInput", True)],
            [(rf"==\({found(e)}", True)],
            [(rf"^cmpOperationsWithOperands\({found(e)}\.second,{e}\)",
              False)],
            [(rf"^cmpValues\({found(e)}\.second,{e}\)", False),
             (rf"is<Instruction>\({found(e)}\.second\)", False)]],
            "an input instruction is mapped to another instruction")
        nexts(ck, "side", q + ": end of inputs", p,
              [[(rf"{meta}\.second\.PatternStart", True)]],
              "inputs after this one are not looked at", ("break",))
    q = I + "mapInputValues"
    v, ic, fn = analyse(ck, prog, q)
    m, p_ = params(fn)
    only_if(ck, "side", q, v, fn, True, [
        [(rf"==\(this\.PatInputMatchMap\.find\[{p_}\]", True)],
        [(rf"==\(this\.PatInputMatchMap(\.find)?\[{p_}\](\.second)?,{m}\)",
          True)]],
        "an input of the pattern is two different values")
    inp = r"\(this\.IsLeftSide\?this\.ParentPattern\.InputL:" \
          r"this\.ParentPattern\.InputR\)"
    for M, a, b in (("Pat", "PatInput", "ModInput"),
                    ("Mod", "ModInput", "PatInput")):
        ev = events(ic, SETS, rf"this\.{M}InputMatchMap")
        ck.ob("side", f"{q}: {M}", len(ev) > 0 and all(
            re.match(rf"{a}", path(e.args[1])) and re.match(
                rf"{b}", path(e.args[2])) and holds(efacts(e), [
                    [[(rf"==\({inp}\.find\[PatInput", False)],
                     [(rf"{inp}\.(count|contains)\[PatInput", True)]]])
            for e in ev), f"{q}: inputs are not recorded as they were found",
            where(fn))
    q = I + "cmpInputValues"
    v, ic, fn = analyse(ck, prog, q, {"cmpOperationsWithOperands",
                                      "beginCompare", "eraseNewlyMapped"})
    m, p_ = params(fn)
    only_if(ck, "side", q, v, fn, True, [
        [(rf"^{m}$|!=\({m},null", True), (rf"^{p_}$|!=\({p_},null", True),
         [[(rf"==\(this\.PatInputMatchMap\.find\[{p_}\]", True)],
          [(rf"==\(this\.PatInputMatchMap(\.find)?\[{p_}\](\.second)?,{m}\)",
            True)]]]],
        "an input which was not found in the other version, or is another "
        "value in it, is accepted")
    q = I + "cmpGlobalValues"
    v, ic, fn = analyse(ck, prog, q, {"namesMatch"})
    m, p_ = params(fn)
    only_if(ck, "side", q, v, fn, True, [
        [(rf"^==\({m},{p_}\)", True)],
        [(rf"^{m}\.hasName", True), (rf"^{p_}\.hasName", True), (
            rf"^namesMatch\({m}\.getName,{p_}\.getName,this\.IsLeftSide\)",
            True)]], "globals of different names match")
    q = I + "cmpValues"
    v, ic, fn = analyse(ck, prog, q, {"mapInputValues", "cmpValues"})
    m, p_ = params(fn)
    only_if(ck, "side", q, v, fn, True, [
        [(rf"^cmpValues\({m},{p_}\)", False),
         (rf"^mapInputValues\({m},{p_}\)", False)]],
        "values which differ, or are inputs mapped otherwise, match")
    q = I + "cmpOperationsWithOperands"
    v, ic, fn = analyse(ck, prog, q, {"cmpOperations", "cmpValues"})
    m, p_ = params(fn)
    only_if(ck, "side", q, v, fn, True, [
        [(rf"^cmpOperations\({m},{p_}", False)]],
        "instructions with different operations match")
    p = loops(ck, ic, q, mentions(r"cmpValues\("), fn, "side")
    if p is not None:
        nexts(ck, "side", q + ": operands", p, [
            [(rf"^cmpValues\({m}\.getOperand\[(.*)\],{p_}\.getOperand\[\1\]\)",
              False)]], "instructions with different operands match")
    noearly(ck, "side", q, ic)
    ev = events(ic, SETS, r"this\.InstMatchMap")
    ck.ob("side", q + ": match", len(ev) > 0 and all(
        re.fullmatch(p_, path(e.args[1])) and re.fullmatch(
            m, path(e.args[2])) and any(
            "cmpOperations" in f for f, pol in efacts(e)) for e in ev),
        f"{q}: an instruction is recorded as matched although it is not",
        where(fn))
    q = I + "cmpGEPs"
    v, ic, fn = analyse(ck, prog, q, {"cmpTypes", "cmpValues", "cmpNumbers",
                                      "namesMatch", "cmpAPInts"})
    m, p_ = params(fn)
    sm, sp = (rf"{x}\.getSourceElementType" for x in (m, p_))
    meta = rf"this\.ParentPattern\.MetadataMap\.find\[{p_}\]"
    typ = [(rf"^cmpTypes\({sm},{sp}\)", False)]
    only_if(ck, "side", q, v, fn, True, [
        [(rf"^cmpNumbers\({m}\.get(Pointer)?AddressSpace,{p_}\.get(Pointer)?"
          r"AddressSpace\)", False),
         [[(rf"^cmpNumbers\({m}\.getNumOperands,{p_}\.getNumOperands\)",
            False)],
          [(r"^cmpAPInts\(", False)]],
         [typ, [(r"^cmpAPInts\(", False)], [
             (rf"{sm}\.isStructTy", True), (rf"{sp}\.isStructTy", True),
             [[(rf"==\({meta}", True)],
              [(rf"{meta}\.second\.DisableNameComparison", False)]],
             (rf"^namesMatch\({sm}\.getStructName,{sp}\.getStructName,"
              rf"this\.IsLeftSide\)", True)]]]],
        "address computations over different types match")
    for p in ic.passes:
        if "getOperand" in path(p.term):
            nexts(ck, "side", q + ": operands", p, [
                [(rf"^cmpValues\({m}\.getOperand\[(.*)\],{p_}\.getOperand"
                  r"\[\1\]\)", False)]],
                "address computations with different indices match")


def blocks(ck, prog):
    q = I + "cmpBasicBlocks"
    v, ic, fn = analyse(ck, prog, q, {
        "cmpOperationsWithOperands", "hasPatternEnd", "eraseNewlyMapped",
        "jumpToInst", "updateGroupDepth"})
    mb, pb = params(fn)
    p = loops(ck, ic, q, mentions("cmpOperationsWithOperands"), fn, "blocks")
    if p is None:
        return
    ev = events(p, "cmpOperationsWithOperands", "this") or \
        events(ic, "cmpOperationsWithOperands", "this")
    m, p_ = (re.escape(path(x)) for x in ev[0].args[1:3])
    mt, pt = (rf"{x}\.getTerminator" for x in (mb, pb))
    mv, pv = (path(x).rstrip("'") for x in ev[0].args[1:3])
    bad, n = {}, 0
    atend = [(rf"==\({p_},{pt}\)|==\({pt},{p_}\)", True),
             (rf"==\({m},{mt}\)|==\({mt},{m}\)", False)]
    for k, val, env, facts, used in exits(PassExplore(lambda t: None, LIMIT),
                                          p.term, (mv, pv)):
        fs = names(facts)
        n += 1
        eq = holds(fs, [(rf"^cmpOperationsWithOperands\({m},{p_}\)", False)])
        if k == "next":
            pmoved = path(env.get(pv, p.start.get(pv))) != \
                path(p.start.get(pv))
            mmoved = path(env.get(mv, p.start.get(mv))) != \
                path(p.start.get(mv))
            if pmoved and not eq:
                bad["pattern instructions are passed which did not match"] = fs
            elif not pmoved and not holds(fs, atend) and not (
                    holds(fs, [(r"^<\(0,this\.GroupDepth\)|"
                                r"^>\(this\.GroupDepth,0\)", False)]) or
                    holds(fs, [(r"this\.GroupDepth", False)])):
                bad["code in between is skipped inside a group"] = fs
            elif not pmoved and not holds(fs, atend) and not any(
                    not pol and re.match(rf"==\({m},|==\(.*,{m}\)$", f)
                    and "getTerminator" not in f for f, pol in fs):
                bad["the first instruction is skipped"] = fs
            if not (pmoved or mmoved):
                bad["no progress"] = fs
        elif k == "return" and path(val) in ("0", "False"):
            if not (holds(fs, [(rf"^hasPatternEnd\({p_}\)", True)]) or
                    holds(fs, atend)):
                bad["the pattern ends before its last instruction"] = fs
    for fs, facts, o in cases(v, True):
        if holds(fs, [(rf"==\({m},{mb}\.end\)", True)]) and not holds(
                fs, [(rf"==\({p_},{pb}\.end\)", True)]):
            bad["the pattern ends before its last instruction"] = fs
    for key in ("pattern instructions are passed which did not match",
                "code in between is skipped inside a group",
                "the first instruction is skipped", "no progress",
                "the pattern ends before its last instruction"):
        ck.ob("blocks", f"{q}: {key}", key not in bad,
              f"{q}: {key}; when: {show_facts(bad.get(key, []), 8)}", p.where)
    er = events(ic, "eraseNewlyMapped")
    ck.ob("blocks", q + ": forgotten", len(er) > 0 and any(holds(efacts(e), [
        (rf"cmpOperationsWithOperands\({m},{p_}\)", True)]) for e in er),
        f"{q}: values of instructions which did not match stay mapped",
        where(fn))
    ck.floor("exits of a pass over two blocks", n, 5)
    q = I + "eraseNewlyMapped"
    v, ic, fn = analyse(ck, prog, q)
    for m, s in (("sn_mapL", "NewlyMappedModValues"),
                 ("sn_mapR", "NewlyMappedPatValues"),
                 ("PatInputMatchMap", "NewlyMappedPatInput"),
                 ("ModInputMatchMap", "NewlyMappedModInput")):
        ev = events(ic, "erase", m + "$", rf"this\.{s}\[#\]$")
        ck.ob("blocks", f"{q}: {m}", len(ev) > 0 and len(ev) == len(
            events(ic, "erase", m + "$")), f"{q}: {m} keeps values of "
            "instructions which did not match, or loses others", where(fn))
    q = I + "hasPatternEnd"
    v, ic, fn = analyse(ck, prog, q)
    i, = params(fn)
    only_if(ck, "blocks", q, v, fn, False, [
        [(rf"MetadataMap\.find\[{i}\]\.second\.PatternEnd|"
          rf"MetadataMap\.(at|lookup)?\[{i}\]\.PatternEnd", True)]],
        "a pattern ends where no end is marked")
    q = I + "matchPattern"
    v, ic, fn = analyse(ck, prog, q, {"cmpBasicBlocks", "cmpValues",
                                      "hasPatternEnd"})
    for pol, s in ((True, "L"), (False, "R")):
        ev = [e for e in ic.events if e.name == "@setattr.PatPosition" and
              f"StartPosition{s}" in path(e.args[1])]
        both = [e for e in ic.events if e.name == "@setattr.PatPosition" and
                "IsLeftSide?" in path(e.args[1])]
        ck.ob("blocks", f"{q}: start {s}", len(ev) > 0 and all(
            holds(efacts(e), [(r"this\.IsLeftSide", pol)]) or
            re.search(r"IsLeftSide\?[^:]*StartPositionL:.*StartPositionR",
                      path(e.args[1])) for e in ev),
            f"{q}: the pattern is not matched from the beginning of its side",
            where(fn))
    noearly(ck, "blocks", q, ic)
    pb = {}
    for e in events(ic, "push_back"):
        m = re.search(r"getSuccessor\[(.*)\]$", path(e.args[1]))
        if m:
            pb.setdefault(m.group(1), []).append(e)
    ok = bool(pb) and all(len(x) % 2 == 0 for x in pb.values())
    for i in pb:
        en = {path(p.entry[i]) for p in ic.passes if p.entry and i in p.entry
              and any(e in p.events for e in pb[i])}
        ok = ok and (not en or "0" in en)
    ck.ob("blocks", f"{q}: successors", ok, f"{q}: not all successors are "
          "compared in their order", where(fn))
    only_if(ck, "blocks", q, v, fn, True, [[(r"^cmpBasicBlocks\(", False)],
                                           [(r"FnBBs", False)],
                                           [(r"^cmpBasicBlocks\(", True), (
                                               "getSingleSuccessor", True)]],
            "a side matches although its blocks do not")


def origin(ic, name):
    """Value which a variable had before the loops."""
    v = name.rstrip("'")
    got = {path(p.entry[v]) for p in ic.passes if p.entry and v in p.entry}
    got = {x for x in got if x.rstrip("'") != v}
    return got.pop() if len(got) == 1 else name


def every_variable(t):
    """Variables which an exit of a pass changes."""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and x[0] == "exit":
                out |= {v for v, _ in x[3]}
            elif x and x[0] == "ite":
                todo += [x[2], x[3]]
    return sorted(out)


# -- reading of patterns
def reading(ck, prog):
    q = S + "initializeInstPattern"
    v, ic, fn = analyse(ck, prog, q, {"initializeInstPatternSide"})
    only_if(ck, "reading", q, v, fn, False, [
        [(r"==\(.*PatternL\.arg_size,.*PatternR\.arg_size\)", True),
         (r"==\(.*OutputMapInfo\.second,.*OutputMapInfo\.second\)|"
          r"==\(.*OutputMapping\w*\.second,.*second\)", True)]],
        "a pattern with different numbers of inputs or outputs is used")
    ev = events(ic, "initializeInstPatternSide")
    ck.ob("reading", q + ": sides", {path(e.args[3]) for e in ev} ==
          {"True", "False"}, f"{q}: not both sides are read", where(fn))
    p = loops(ck, ic, q, mentions(r"isa\(.*getOperand|is<Inst|OutputMapping$"
                                  r"|\.getOperand"), fn, "reading")
    if p is not None:
        nexts(ck, "reading", q + ": outputs", p, [
            [(r"^is<Instruction>\(.*True\)!.*getOperand\[(\w+'*)\]\)", True),
             (r"^is<Instruction>\(.*False\)!.*getOperand\[(\w+'*)\]\)",
              True)]], "an output which is no instruction is accepted")
    for m in ("ArgumentMapping", "OutputMapping"):
        ev = events(ic, SETS, m + "$")
        ck.ob("reading", f"{q}: {m}", len(ev) > 0, f"{q}: {m} is not made",
              where(fn))
    ev = events(ic, SETS, "OutputMapping$")
    for e in ev:
        fs = [f for f, pol in efacts(e) if pol and f.startswith(
            "is<Instruction>")]
        a, b = path(e.args[1]), path(e.args[2])
        ck.ob("reading", q + ": both outputs", re.search(
            r"\.getOperand\[(.*)\]$", a) is not None and re.search(
            r"\.getOperand\[(.*)\]$", b) is not None and
            re.search(r"\[([^\[]*)\]$", a).group(1) ==
            re.search(r"\[([^\[]*)\]$", b).group(1) and a != b and
            "False)!" in b and "False)!" not in a,
            f"{q}: outputs are not mapped from the first side to the second "
            "one in their order", where(fn))
    q = S + "initializeInstPatternSide"
    v, ic, fn = analyse(ck, prog, q, {"getPatternMetadata"})
    left = params(fn)[2]
    ins = [e for e in ic.events if short(e) == "insert" and
           re.search(r"Input", path(e.args[0]))]
    bases = {origin(ic, path(e.args[0])) for e in ins}
    ok = all(re.search(rf"{left}\?.*Pat\.InputL:.*Pat\.InputR", b.replace(
        params(fn)[0], "Pat")) or holds(efacts(e), [
            (rf"^{left}$", b.endswith("InputL"))])
        for e in ins for b in [origin(ic, path(e.args[0]))])
    ck.ob("reading", q + ": inputs", len(ins) > 1 and ok, f"{q}: inputs of "
          f"a side are not recorded for that side: {sorted(bases)}",
          where(fn))
    ok = all(holds(efacts(e), [[
        [(r"^getPatternMetadata\(.*\)$", False)],
        [(r"^getPatternMetadata\(.*\)\.NotAnInput$", False)]]]) or any(
            not pol and "NotAnInput" in f or pol and re.match(
                r"or\(not\(.*not\(.*NotAnInput", f) for f, pol in efacts(e))
        for e in ins if not re.search(r"\.args?(\[\])?\[#\]$",
                                      path(e.args[1])))
    ck.ob("reading", q + ": excluded inputs", ok, f"{q}: an instruction "
          "marked as no input is an input", where(fn))
    # everything read belongs to the side
    pt = params(fn)[0]
    both = {}
    for e in ic.events:
        for x in [path(a) for a in e.args] + [
                origin(ic, path(a)) for a in e.args if path(a)[:1].isupper()]:
            for k in ("Pattern", "StartPosition", "Input"):
                y = re.sub(rf"\({left}\?{pt}\.{k}L:{pt}\.{k}R\)", "", x)
                for s in re.findall(rf"{pt}\.{k}([LR])\b", y):
                    if not holds(efacts(e), [(rf"^{left}$", s == "L")]):
                        both[k] = x
    for p in ic.passes:
        for a in list((p.entry or {}).values()):
            x = path(a) if isinstance(a, tuple) else ""
            for k in ("Pattern", "StartPosition", "Input"):
                y = re.sub(rf"\({left}\?{pt}\.{k}L:{pt}\.{k}R\)", "", x)
                if re.search(rf"{pt}\.{k}[LR]\b", y) and not holds(
                        names(dict(p.base)), [
                            (rf"^{left}$", f"{k}L" in y)]):
                    both[k] = x
    for k in ("Pattern", "StartPosition", "Input"):
        ck.ob("reading", f"{q}: {k}", k not in both, f"{q}: reads the other "
              f"side of the pattern: {both.get(k)}", where(fn))
    q = S + "initializeValuePattern"
    v, ic, fn = analyse(ck, prog, q)
    pat, = params(fn)
    need = []
    for s in ("L", "R"):
        op = rf"{pat}\.Pattern{s}\.getEntryBlock\.getTerminator" \
             r"\.getOperand\[0\]"
        need.append([[(rf"{op}\.getType\.isPointerTy", False)],
                     [(rf"is<GlobalVariable>\({op}\)", True)]])
        need.append([[(rf"==\({pat}\.Pattern{s}\.getEntryBlock\.getTerminator"
                       r"\.getNumOperands,0\)", False)],
                     [(rf"{pat}\.Pattern{s}\.getEntryBlock\.getTerminator"
                       r"\.getNumOperands", True)],
                     [(rf"^<\({pat}\.Pattern{s}\.getEntryBlock\.getTerminator"
                       r"\.getNumOperands,1\)", False)]])
        ev = [e for e in ic.events if e.name == f"@setattr.Value{s}"]
        ck.ob("reading", f"{q}: {s}", len(ev) > 0 and all(
            re.fullmatch(op, path(e.args[1])) for e in ev),
            f"{q}: the value of side {s} is not the one returned by it",
            where(fn))
    only_if(ck, "reading", q, v, fn, False, [need], "a pattern whose value is "
            "missing or is a pointer to no global variable is used")
    q = S + "addPatternFromModule"
    v, ic, fn = analyse(ck, prog, q, {"getPatternType",
                                      "initializeInstPattern",
                                      "initializeValuePattern"})
    for kind, enum in (("Inst", "INST"), ("Value", "VALUE")):
        ev = events(ic, SETS, rf"{kind}Patterns$")
        ok = len(ev) > 0
        for e in ev:
            fs = efacts(e)
            ok = ok and holds(fs, [
                (rf"^initialize{kind}Pattern\(", True),
                (r"getFunctionList\[#\]\.isDeclaration|"
                 r"\[#\]\.isDeclaration", False),
                (r"(startswith|starts_with)\[.*FullPrefixL", True)])
        ck.ob("reading", f"{q}: {kind}", ok, f"{q}: a {kind} pattern is used "
              "although it could not be read, or is no pattern", where(fn))
    other = r"getFunction\[.*FullPrefixR.*\]"
    ty = events(ic, "getPatternType")
    ck.ob("reading", f"{q}: other side", len(ty) > 0 and all(any(
        pol and re.search(rf"{other}$", f) for f, pol in efacts(e)) and any(
        not pol and re.search(rf"{other}\.(isDeclaration|empty)", f)
        for f, pol in efacts(e)) for e in ty),
        f"{q}: a pattern is used although its other side is missing or has "
        "no body", where(fn))
    q = S + "addPatternFromFile"
    v, ic, fn = analyse(ck, prog, q, {"addPatternFromModule"})
    ev = events(ic, "addPatternFromModule")
    ck.ob("reading", q, len(ev) > 0 and all(any(
        pol and "parseIRFile" in f for f, pol in efacts(e)) for e in ev),
        f"{q}: patterns of a file which could not be read are used",
        where(fn))
    q = S + "getPatternMetadata"
    v, ic, fn = analyse(ck, prog, q)
    kw = {"pattern-start": "PatternStart", "pattern-end": "PatternEnd",
          "group-start": "GroupStart", "group-end": "GroupEnd",
          "disable-name-comparison": "DisableNameComparison",
          "not-an-input": "NotAnInput",
          "no-value-pattern-detection": "NoValuePatternDetection"}
    n, bad, seen = 0, {}, set()
    for p in ic.passes:
        for k, val, env, facts, used in exits(PassExplore(
                lambda t: None, LIMIT), p.term, [
                    x for x in every_variable(p.term)
                    if x.split(".")[-1] in kw.values()]):
            fs = names(facts)
            n += 1
            for word, f in kw.items():
                if k not in ("next", "continue"):
                    continue
                is_ = holds(fs, [(rf"==\(.*getString,{word}\)|"
                                  rf"==\({word},.*getString", True)])
                got = [path(x) for v_, x in env.items()
                       if v_.split(".")[-1] == f and
                       path(x).rstrip("'") != v_]
                if is_:
                    seen.add(word)
                if (got == ["True"] or got == ["1"]) != is_ or (
                        got and not is_):
                    bad.setdefault(word, show_facts(fs, 6))
    for word, f in kw.items():
        ck.ob("reading", f"{q}: {word}", word in seen and word not in bad,
              f"{q}: {f} is not set by '{word}' exactly; when: "
              f"{bad.get(word)}", where(fn))
    q = "namesMatch"
    v, ic, fn = analyse(ck, prog, q, {"hasSuffix", "dropSuffix"})
    L, R, left = params(fn)
    n = {x: rf"\(?(hasSuffix\({x}(\.str)?\)\?dropSuffix\({x}(\.str)?"
         rf"(,[^)]*)?\):)?{x}(\.str)?\)?|dropSuffix\({x}(\.str)?(,[^)]*)?\)"
         for x in (L, R)}
    bad = []
    for fs, facts, o in cases(v, False):
        if not any(pol and f.startswith("==(") and re.search(L, f) and
                   re.search(R, f) for f, pol in fs):
            bad.append(show_facts(fs))
        for pol, x, y in ((True, "PrefixL", "PrefixR"),
                          (False, "PrefixR", "PrefixL")):
            if holds(fs, [(rf"^{left}$", pol)]) and any(
                    re.search(rf"::{y}\b", f) for f, _ in fs):
                bad.append(show_facts(fs))
    ck.ob("reading", q, not bad, f"{q}: different names match, or the prefix "
          f"of the other side is ignored: {bad[:1]}", where(fn))


def run():
    ck = Check("P21", "Every outcome of the functions which read custom "
               "patterns, match one side of them, combine both sides and use "
               "the result is enumerated; a pattern is applied (an "
               "instruction skipped, a value or an output taken for equal) "
               "only on outcomes where both sides match, all inputs "
               "correspond and the pattern is well formed.")
    prog = CxxProgram(REPO, units=None)
    choosing(ck, prog)
    mapping(ck, prog)
    values(ck, prog)
    side(ck, prog)
    blocks(ck, prog)
    reading(ck, prog)
    return ck
