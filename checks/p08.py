"""P08: a pattern relaxes the comparison only for its own kind of change."""
import multiprocessing
import os
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken
from lib.cxxfront import CxxProgram
from lib.cxxcmp import callee, path
from lib.cxxpass import PassExplore, exits, fact, passes
from lib.cxxrules import READONLY, holds, names, opaque_for, show_facts
from lib.interp import subterms
from checks.p10 import D, OWN, Run, attributes


PATTERNS = ("StructAlignment", "FunctionSplits", "UnusedReturnTypes",
            "KernelPrints", "DeadCode", "NumericalMacros", "Relocations",
            "TypeCasts", "ControlFlowOnly", "InverseConditions",
            "ReorderedBinOps", "GroupVars")


def P(name):
    return (rf"this\.config\.Patterns\.{name}$", True)


def union(x, y):
    """x is a union and y of at most the same size."""
    sx = rf"this\.Layout{x}\.getTypeAllocSize\[{x}\].*"
    sy = rf"this\.Layout{y}\.getTypeAllocSize\[{y}\].*"
    return [P("StructAlignment"), (rf"{x}\.isStructTy|is<StructType>\({x}\)",
                                   True),
            (rf"{x}\.get(Struct)?Name\.starts_?with\[union\]", True),
            [[(rf"^<\({sx},{sy}\)", False)], [(rf"^<\({sy},{sx}\)", True)]]]


def both(rx):
    return [(rx.replace("@", "L"), True), (rx.replace("@", "R"), True)]


WIDTH = r"@\.get(Integer|Primitive)?(BitWidth|SizeInBits)"
WL, WR = WIDTH.replace("@", "L"), WIDTH.replace("@", "R")
OP = {x: rf"(\w+\()*{x}\.getOperand\[0\]\)*" for x in "LR"}
TYPE = [
    union("L", "R"), union("R", "L"),
    [P("TypeCasts"), *both(r"@\.isIntegerTy|is<IntegerType>\(@\)"),
     [[(rf"==\({WL},1\)", False), (rf"==\({WR},1\)", False)],
      [(rf"==\(({WL},{WR}|{WR},{WL})\)", True)]]],
    [P("TypeCasts"), *both(r"@\.isArrayTy|is<ArrayType>\(@\)"),
     (r"cmpTypes\(L\.getElementType,R\.getElementType\)", False)],
]
SRC = r"@\.getSourceElementType"
ENUM = r"DW_TAG_enumeration_type"
SYMBOL = [[P("KernelPrints"), *both(r"isKernelPrintFunction\(@\)")],
          # names apart from a suffix, or of the same abstraction
          [(r"==\(L\.getName.*,R\.getName", True)],
          [*both(r"@\.getName\.starts_?with\[\w*InlineAsm"),
           (r"==\(getInlineAsmString\(", True),
           (r"==\(getInlineAsmConstraintString\(", True)]]
# What the comparison of one kind of thing may ignore: label -> alternatives,
# each being the facts which must hold.
RELAX = {
    "AllocaInst": [[P("StructAlignment"),
                    *both(r"is<StructType>\(@\.getAllocatedType\)"),
                    (r"==\(L\.getAllocatedType(\.get\w*Name).*,"
                     r"R\.getAllocatedType", True)]],
    "CallInst": [
        [P("StructAlignment"),
         (r"isAllocFunction\(getCalledFunction\([LR]\)\)", True),
         (r"==\(getCalledFunction\([LR]\)\.getName,getCalledFunction\("
          r"[LR]\)\.getName", True),
         (r"cmpAllocs\(L,R\)", False)],
        [P("StructAlignment"),
         *both(r"==\(getCalledFunction\(@\)\.getIntrinsicID,.*memset\)"),
         (r"cmpMemset\(L,R\)", False)],
        [P("ControlFlowOnly"),
         (r"==\(getCalledFunction\([LR]\)\.getName,getCalledFunction\("
          r"[LR]\)\.getName", True),
         (r"cmpCallsWithExtraArg\(L,R\)", False),
         (r"==\(.*abs\(.*getNumOperands.*getNumOperands.*1\)", True)]],
    "CmpInst": [
        [P("InverseConditions"), (r"cmpOperandTypes\(L,R\)", False),
         (r"==\(L\.getPredicate,R\.getInversePredicate\)"
          r"|==\(L\.getInversePredicate,R\.getPredicate\)", True),
         *both(r"checkInverseCondUsers\(@\)")]],
    "ICmpInst": [
        [P("TypeCasts"), *both(r"is<ICmpInst>\(@\)"),
         (r"==\(L\.getUnsignedPredicate,R\.getUnsignedPredicate\)", True)]],
    "address computation": [
        # an element selected by an enumeration
        [P("StructAlignment"), *both(rf"is<ArrayType>\({SRC}\)"),
         *both(r"==\(@\.getNumOperands,3\)"),
         (r"==\([LR]\.\w+(\.\w+)?\.get(Array)?NumElements,"
          r"[LR]\.\w+(\.\w+)?\.get(Array)?NumElements\)", False),
         (r"cmpTypes\(L\.\w+(\.\w+)?\.get(Array)?ElementType,R\.", False),
         (r"cmpValues\(L\.getOperand\[#\],R\.getOperand\[#\]\)", False),
         *both(rf"==\(getVariableTypeInfo\(@\.getOperand\[2\]\)"
               rf"\.getTag,.*{ENUM}\)")],
        # a member of the same name in the same structure
        [P("StructAlignment"), *both(rf"is<StructType>\({SRC}\)"),
         (r"==\(L\.getSourceElementType\.get\w*Name.*,"
          r"R\.getSourceElementType\.get\w*Name", True),
         (r"cmpNumbers\(L\.get(Pointer)?AddressSpace,R\.", False),
         (r"cmpNumbers\(L\.getNum(Indices|Operands),R\.", False),
         [[*both(r"@\.hasAllConstantIndices"),
           [[(r"StructFieldNames.*equals.*StructFieldNames", True)],
            [(r"==\(.*StructFieldNames.*second,.*StructFieldNames.*second",
              True)],
            [(r"cmpValues\(#[LR]\.idx_begin,#R\.idx_begin\)", False)],
            [(r"cmpValues\(L\..*#.*,R\..*#.*\)", False)],
            [(r"==\(#[LR]\.idx_begin,[LR]\.idx_end\)", True)]]],
          [*both(r"==\(@\.getNumIndices,1\)"),
           (r"cmpValues\(L\.getOperand\[1\],R\.getOperand\[1\]\)",
            False)]]]],
    "ConstantExpr": [
        [P("TypeCasts"), (r"L\.isCast", True), (r"R\.isCast", True),
         (rf"cmpConstants\({OP['L']},{OP['R']}\)", False)],
        [P("TypeCasts"), (r"L\.isCast", True),
         (rf"cmpConstants\({OP['L']},R\)", False)],
        [P("TypeCasts"), (r"R\.isCast", True),
         (rf"cmpConstants\(L,{OP['R']}\)", False)]],
    "integer": [[P("TypeCasts"),
                 (r"cmpNumbers\(L\.getZExtValue,R\.getZExtValue\)", False)]],
    "function symbol": SYMBOL, "variable": SYMBOL,
}
RELAX["FCmpInst"] = RELAX["CmpInst"]
RELAX["ICmpInst"] += RELAX["CmpInst"]


def accept(label, fs, o):
    alts = RELAX.get(label, TYPE if label.endswith(" type") else ())
    return any(holds(fs, alt) for alt in alts)


# Instructions which may be skipped: what must hold when a function says so.
SRCTY, DSTTY = r"\w+\.getOperand\[0\]\.getType", r"\w+\.getType"
INST = r"\w+"
EACH = r"each\(\w+\.(user_begin|users)\w*\)"
SKIP = {
    D + "maySkipInstruction": [
        [(r"is<AllocaInst>", True)],
        [P("GroupVars"), (r"isSafeToRemove", True),
         [[(r"==\(.*user_begin,.*user_end\)", False)],
          [(r"(use_empty|users\.empty)$", False)],
          [(r"(hasNUsesOrMore|user_begin)", True)]],
         (r"allUsersAreExtraMemInsts", True)],
        [P("ReorderedBinOps"), (r"isReorderableBinaryOp", True),
         (r"maySkipReorderableBinaryOp", True)],
        [P("TypeCasts"), (r"isCast", True)],
        [(r"isCast", True), (r"maySkipCast", True)],
        [(r"isZeroGEP", True)],
        [(r"is<StoreInst>", True), (r"maySkipStore", True)],
        [(r"is<LoadInst>", True), (r"maySkipLoad", True)]],
    D + "maySkipCast": [
        [(rf"is<StructType>\({SRCTY}\)", True),
         (rf"{SRCTY}\.get(Struct)?Name\.starts_?with\[union\]", True)],
        [(rf"^{SRCTY}\.isPointerTy|is<PointerType>\({SRCTY}", True),
         (rf"^{DSTTY}\.isPointerTy|is<PointerType>\({DSTTY}", True)],
        [(rf"^{SRCTY}\.isIntegerTy|is<IntegerType>\({SRCTY}", True),
         (rf"^{DSTTY}\.isIntegerTy|is<IntegerType>\({DSTTY}", True),
         [[(rf"^<\({DSTTY}\.\w+,{SRCTY}\.\w+\)", False)],
          [(rf"^<\({SRCTY}\.\w+,{DSTTY}\.\w+\)", True)]]]],
    D + "maySkipStore": [
        [P("GroupVars"), (r"getAllocaOp", True),
         [[(r"==\(this\.skippedInstructions\.find.*end\)", False)],
          [(r"this\.skippedInstructions\.(count|contains)", True)],
          [(r"==\(this\.ignoredInstructions\.find.*end\)", False)],
          [(r"this\.ignoredInstructions\.(count|contains)", True)]]]],
    D + "allUsersAreExtraMemInsts": [
        [[[(r"is<StoreInst>", True)], [(r"is<LoadInst>", True)]],
         (r"getAllocaOp", True),
         [[(r"this\.ignoredInstructions\.(count|contains)", True)],
          [(r"this\.skippedInstructions\.(count|contains)", True)]]]],
    D + "maySkipReorderableBinaryOp": [
        [(r"is<BinaryOperator>", True),
         (r"==\(.*getOpcode,.*getOpcode\)", True)]],
    "isCast": [[(r"is<CastInst>", True)],
               [(r"is<ConstantExpr>", True), (r"isCast", True)]],
    "isZeroGEP": [[(r"is<(GetElementPtrInst|GEPOperator)>", True)]],
    "isLogicalNot": [
        [[[(r"==\(.*getType.*,1\)", True)],
          [(r"getType\.isIntegerTy\[1\]", True)]],
         (r"==\(.*getOpcode,.*Xor\)", True),
         (r"getOperand\[1\]\.isAllOnesValue", True)]],
    "isReorderableBinaryOp": [
        [(r"is<BinaryOperator>", True),
         (r"count\[.*getOpcode\]|==\(.*getOpcode|find\[.*getOpcode|"
          r"contains\[.*getOpcode|isAssociative", True)]],
    "isAllocFunction": [[(r"==\(.*getName,\w+\)", True)]],
}
# What must hold in every pass of their loops after which they go on.
GO_ON = {
    "isZeroGEP": [(r"is<ConstantInt>", True),
                  [[(r"getZExtValue|getSExtValue", False)],
                   [(r"isZero|isNullValue|==\(.*0\)", True)]]],
    D + "maySkipCast": [(r"is<BinaryOperator>", False)],
}
def same_struct(op):
    """The sizes of the same structure, each being the size in its version."""
    info = r"getPointeeStructTypeInfo\({0}.*this\.Layout{1}\)\.{2}"

    def i(x, f):
        return info.format("C?" + x, x, f)
    return [*[(rf"cmpIntWithConstant\({i(x, 'Size')},"
               rf"C?{x}\.get(Arg)?Operand\[{op}\]\)", False)
              for x in "LR"],
            *[alt((rf"^{i(x, 'Name')}$", True),
                  (rf"{i(x, 'Name')}\.empty", False)) for x in "LR"],
            alt((rf"{i('L', 'Name')}\.compare\[", False),
                (rf"{i('R', 'Name')}\.compare\[", False),
                (rf"==\({i('L', 'Name')},", True),
                (rf"==\({i('R', 'Name')},", True))]


def alt(*xs):
    return [[x] for x in xs]


def size_arg(x, op):
    return rf"C?{x}\.(op_begin|get(Arg)?Operand\[{op}\]|arg_begin)"


def extra(x, y):
    last = rf"{x}\.getOperand\[.*{x}\.getNumOperands.*\]" \
           rf"|{x}\.getArgOperand\[.*{x}\.(arg_size|getNumArg).*\]"
    return [(rf"^<\({y}\.\w+,{x}\.\w+\)", True) if x == "CL" else
            alt((rf"^<\({x}\.\w+,{y}\.\w+\)", False),
                (rf"^<\({y}\.\w+,{x}\.\w+\)", True)),
            alt((rf"({last})\.isNullValue", True),
                (rf"({last})\.isZeroValue", True)),
            alt((r"cmpTypes\(CL\.getType,CR\.getType\)", False),
                (r"cmpTypes\(CR\.getType,CL\.getType\)", False))]


# When two special calls are equal.
SAME = {
    D + "cmpAllocs": [
        [(rf"cmpValues\({size_arg('L', 0)},{size_arg('R', 0)}\)", False)],
        same_struct(0)],
    D + "cmpMemset": [
        [(rf"cmpValues\({size_arg('L', 2)},{size_arg('R', 2)}\)", False)],
        same_struct(2)],
    D + "cmpCallsWithExtraArg": [extra("CL", "CR"), extra("CR", "CL")],
    # symbols: the same name, or kernel print functions
    D + "cmpGlobalValues": [
        [(r"^this\.assumedEqual\.(count|contains|find)\b", True)],
        [(r"==\(this\.assumedEqual\.find", False)],
        [(r"cmpConstants\(L\.getInitializer,R\.getInitializer\)"
          r"|cmpConstants\(R\.getInitializer,L\.getInitializer\)", False)],
        [alt((r"^==\(.*L\.getName.*R\.getName", True),
             (r"^==\(.*R\.getName.*L\.getName", True),
             (r"^L\.getName.*\.equals\[.*R\.getName", True),
             (r"^R\.getName.*\.equals\[.*L\.getName", True),
             (r"getName.*\.compare\[.*getName", False))],
        [(r"Patterns\.KernelPrints$", True),
         (r"isKernelPrintFunction\(.*L\.getName", True),
         (r"isKernelPrintFunction\(.*R\.getName", True)],
        [alt((r"^==\((L,R|R,L)\)$", True))]],
}
RECOGNISERS = {"isKernelPrintFunction", "hasSuffix", "isSimpllAbstraction"}
REORDERABLE = {"Xor", "Add", "And", "Or", "Mul"}
HELPERS = {q.split("::")[-1] for q in SKIP} | {"maySkipLoad", "getAllocaOp"}
# Transformations and analyses made only for a pattern.
GATES = [
    ("preprocessModule", r"ControlFlowSlicer", "ControlFlowOnly"),
    ("preprocessModule", r"SimplifyKernelFunctionCallsPass", "KernelPrints"),
    ("preprocessModule", r"DCEPass", "DeadCode"),
    ("simplifyModulesDiff", r"RemoveUnusedReturnValuesPass",
     "UnusedReturnTypes"),
    ("DebugInfo::DebugInfo", r"calculateGEPIndexAlignments",
     "StructAlignment"),
    ("DebugInfo::DebugInfo", r"calculateMacroAlignments", "NumericalMacros"),
]


def fact_set(o):
    facts = dict(o.facts)
    if o.zero is None and o.leaf[0] != "c":
        facts[o.leaf] = True
    return names(facts)


def skipping(ck, prog):
    """Every way in which an instruction is found to be insignificant."""
    n = 0

    def oracle(t):
        return True if t[0] == "inloop" else None
    for q, alts in SKIP.items():
        fns = prog.fns(q)
        if len(fns) != 1:
            raise AnalysisBroken(f"{q} is not a single function")
        fn = fns[0]
        v, ic, st = passes(prog, fn, opaque_for(
            prog, q, (HELPERS - {q.split("::")[-1]}) | OWN), None, READONLY)
        ck.analysed.update(ic.analysed)
        where = f"({fn.rel}: {fn.q})"
        bad = {}
        yes = 0
        for o in PassExplore(oracle, 50000).outcomes(v):
            if o.zero is True:
                continue
            yes += 1
            fs = fact_set(o)
            if not any(holds(fs, alt) for alt in alts):
                bad[show_facts(fs, 6)] = 1
        n += yes
        ck.ob("skip", q, not bad, f"{q} accepts an instruction of none of the "
              f"allowed kinds; taken when: {next(iter(bad), '')}", where)
        ck.ob("skip-possible", q, yes > 0, f"{q} never accepts anything",
              where)
        if q in GO_ON and len(ic.passes) == 0:
            ck.violate("every-element", q, f"{q} does not look at every "
                       "element", where)
        for p in ic.passes if q in GO_ON else ():
            rx = GO_ON[q][0][0]
            if not any(re.search(rx, fact(t)) for t in subterms(p.term)):
                continue
            n += 1
            for k, val, env, facts, used in exits(
                    PassExplore(oracle, 50000), p.term, ()):
                fs = names(facts)
                if k in ("next", "break", "none") and \
                        not holds(fs, GO_ON[q]):
                    ck.violate("every-element", q, f"{q} goes on after an "
                               f"element which is not allowed; taken when: "
                               f"{show_facts(fs, 6)}", p.where)
                    break
                if k == "return" and not holds(fs, GO_ON[q]) and \
                        PassExplore(oracle).truth(val, facts, set())[0] \
                        is not False:
                    ck.violate("every-element", q, f"{q} accepts an element "
                               f"which is not allowed; taken when: "
                               f"{show_facts(fs, 6)}", p.where)
                    break
            else:
                ck.ob("every-element", q, True)
    ck.floor("ways of skipping", n, 20)


def special_calls(ck, prog):
    for q, alts in SAME.items():
        fns = prog.fns(q)
        if len(fns) != 1:
            raise AnalysisBroken(f"{q} is not a single function")
        fn = fns[0]
        v, ic, st = passes(prog, fn, opaque_for(
            prog, q, OWN | RECOGNISERS | {"getPointeeStructTypeInfo"}), None,
            READONLY)
        ck.analysed.update(ic.analysed)
        bad = {}
        n = 0
        for o in PassExplore(lambda t: None, 50000).outcomes(v):
            if o.zero is False:
                continue
            n += 1
            facts = dict(o.facts)
            if o.zero is None:
                facts[o.leaf] = False
            fs = names(facts)
            if not any(holds(fs, alt_) for alt_ in alts):
                bad[show_facts(fs, 6)] = 1
        ck.ob("special-call", q, not bad and n, f"{q} can find things equal "
              f"which are not; taken when: {next(iter(bad), '-')}",
              f"({fn.rel}: {q})")
    q = "isReorderableBinaryOp"
    ops = {m for f in prog.fns(q) for x in f.body.walk()
           for m in [x.get("q") or ""] if "llvm::Instruction::" in m}
    ops = {m.split("::")[-1] for m in ops}
    ops = {m for m in ops if m[:1].isupper() and not m.endswith("Ops")}
    ck.ob("special-call", f"{q}: operations", ops <= REORDERABLE,
          f"{q} allows {sorted(ops - REORDERABLE)}, which are not associative "
          "and commutative", "")


def mentions(e, st, rx):
    """Whether an event is about a function, object or type of the name."""
    what = [e.name] + [path(a) for a in e.args]
    for a in e.args:
        if a[0] == "ref" and a[1] in st.heap:
            what.append(str(st.heap[a[1]].cls))
    for a in getattr(e.node, "args", ()):
        if getattr(a, "cxx", None) is not None:
            what.append(a.cxx.t or "")
    return any(re.search(rx, w) for w in what)


def gates(ck, prog):
    """Transformations which belong to a pattern run only with it."""
    done = {}
    for q, rx, pattern in GATES:
        if q not in done:
            fns = [f for f in prog.fns(q)]
            if len(fns) != 1:
                raise AnalysisBroken(f"{q} is not a single function")
            own = {f.q for f in prog.funcs.values() if f.q != q and
                   f.q != "DebugInfo::DebugInfo"}
            v, ic, st = passes(prog, fns[0], own, None, {})
            ck.analysed.add(q)
            done[q] = ic, st, fns[0]
        ic, st, fn = done[q]
        evs = [e for e in ic.events if mentions(e, st, rx)]
        # constructing a pass has no effect
        evs = [e for e in evs if not e.name.startswith("@ctor")] or evs
        bad = [e for e in evs if not holds(
            names(dict(e.facts)), [(rf"\bPatterns\.{pattern}$", True)])]
        ck.ob("gate", f"{q}: {rx}", evs and not bad,
              f"{q} runs {rx} without asking for {pattern}" if evs else
              f"{q} does not use {rx}", f"({fn.rel}: {fn.q})")
    # inlining is limited to abstractions without function splits
    q = "ModuleComparator::compareFunctions"
    fns = prog.fns(q)
    v, ic, st = passes(prog, fns[0], opaque_for(
        prog, q, OWN | {"tryToInline", "compare", "simplifyFunction",
                        "updateStats"}), None, {})
    evs = [e for e in ic.events if e.name.endswith("::tryToInline")]
    for i, e in enumerate(evs):
        ck.ob("gate", f"{q}: inlining #{i}", any(
            path(a).endswith("Patterns.FunctionSplits") for a in e.args),
            f"{q} inlines functions without asking for FunctionSplits", "")
    ck.floor("inlining", len(evs), 2)
    q = "ModuleComparator::tryToInline"
    fn = prog.fns(q)[0]
    v, ic, st = passes(prog, fn, opaque_for(
        prog, q, {"isSimpllAbstraction", "inlineCall",
                  "isKernelSimplifiedFunction", "getCalledFunction"}),
        None, {})
    flag = [p["n"] for p in fn.params if p["t"] == "bool"]
    evs = [e for e in ic.events if e.name.endswith("inlineCall")]
    ok = evs and flag and all(holds(names(dict(e.facts)), [
        [[(rf"^{flag[0]}$", True)], [(r"isSimpllAbstraction\(", True)]]])
        for e in evs)
    # the condition may be a disjunction
    if evs and flag and not ok:
        ok = True
        for e in evs:
            def oracle(t):
                if t == ("sym", flag[0]):
                    return False
                c = callee(t) if t[0] == "call" else None
                return False if c and c[0] == "isSimpllAbstraction" else None
            ex = PassExplore(oracle)
            if not any(ex.truth(t, {}, set())[0] not in (None, p)
                       for t, p in e.facts):
                ok = False
    ck.ob("gate", f"{q}: inlining", ok, f"{q} inlines functions other than "
          "abstractions although function splits are disabled",
          f"({fn.rel}: {fn.q})")


def attributes_with(on):
    ck = Check("P08", "")
    R = Run(ck, PROG, on, accept)
    attributes(R)
    return (ck.obligations, ck.violations, ck.analysed, R.relaxed,
            R.scenarios, R.outcomes)


PROG = None


def run():
    global PROG
    ck = Check("P08", "Scenario enumeration as for P10, with each pattern "
               "alone and with all of them enabled: every path on which a "
               "comparator accepts two differing things satisfies the facts "
               "which define one of the patterns; every way of skipping an "
               "instruction and every transformation made for a pattern is "
               "guarded in the same way.")
    PROG = prog = CxxProgram(REPO, units=None)
    modes = [PATTERNS] + [(x,) for x in PATTERNS]
    with multiprocessing.get_context("fork").Pool(
            min(8, os.cpu_count() or 1)) as pool:
        got = pool.map(attributes_with, modes, 1)
    relaxed = scen = outs = 0
    for o, v, a, r, s, n in got:
        ck.obligations += o
        ck.violations += v
        ck.analysed |= a
        relaxed += r
        scen += s
        outs += n
    skipping(ck, prog)
    special_calls(ck, prog)
    gates(ck, prog)
    ck.note("scenarios", scen)
    ck.note("outcomes_enumerated", outs)
    ck.note("relaxed_outcomes_justified", relaxed)
    ck.floor("relaxed outcomes", relaxed, 500)
    ck.floor("attributes with patterns", scen, 600)
    return ck
