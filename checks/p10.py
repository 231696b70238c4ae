"""P10: every attribute that affects behaviour is compared."""
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken
from lib.cxxfront import CxxProgram
from lib.cxxcmp import (Comparators, Explore, Budget, path, pair, mirrored, decide,
                        sideless, kind_oracle, callee, is_cmp)
from lib.cxxpass import PassExplore
from lib.cxxrules import names, with_used
from lib.interp import show, subterms

D = "DifferentialFunctionComparator::"
B = "llvm::FunctionComparator::"
# Comparators which get their own obligations; every other function is
# analysed together with its caller.
OWN = {"cmpNumbers", "cmpAligns", "cmpOrderings", "cmpAPInts", "cmpAPFloats",
       "cmpMem", "cmpAttrs", "cmpRangeMetadata", "cmpOperandBundlesSchema",
       "cmpConstants", "cmpGlobalValues", "cmpTypes", "cmpOperations",
       "cmpGEPs", "cmpInlineAsm", "cmpValues", "cmpBasicBlocks", "cmpPHIs",
       "compareSignature", "cmpAllocs", "cmpMemset", "cmpCallsWithExtraArg",
       "cmpCallArgumentUsingCSource", "cmpOperandTypes", "cmpFieldAccess",
       "cmpIntWithConstant", "compareFunctions", "cmpValuesByMapping"}
KEEP = {"findDifference", "maySkipInstruction", "checkInverseCondUsers",
        "isAllocFunction", "getCalledFunction",
        "isSimpllAbstractionDeclaration", "isSimpllAbstraction",
        "isKernelPrintFunction", "hasSuffix", "getInlineAsmString",
        "getInlineAsmConstraintString", "getReplacementValue",
        "matchValues", "processCallInstDifference", "getVariableTypeInfo"}

INST = [("operation", r"@\.getOpcode"),
        ("number of operands", r"@\.getNumOperands|@\.getNumArgOperands"),
        ("result type", r"@\.getType"),
        ("flags", r"@\.getRawSubclassOptionalData"),
        ("operand types", r"@\.getOperand\[#\]\.getType"),
        ("operands", r"@\.getOperand\[#\]")]
SYNC = r"@\.getSyncScopeID"
KINDS = {
    "AllocaInst": [("allocated type", r"@\.getAllocatedType"),
                   ("alignment", r"@\.getAlign(ment)?")],
    "LoadInst": [("volatility", r"@\.isVolatile"),
                 ("alignment", r"@\.getAlign(ment)?"),
                 ("atomic ordering", r"@\.getOrdering"),
                 ("synchronisation scope", SYNC),
                 ("range of the value", r"@\.getMetadata\[.*MD_range\]")],
    "StoreInst": [("volatility", r"@\.isVolatile"),
                  ("alignment", r"@\.getAlign(ment)?"),
                  ("atomic ordering", r"@\.getOrdering"),
                  ("synchronisation scope", SYNC)],
    "ICmpInst": [("predicate", r"@\.getPredicate")],
    "FCmpInst": [("predicate", r"@\.getPredicate")],
    "CallInst": [("calling convention", r"@\.getCallingConv"),
                 ("tail call kind", r"@\.getTailCallKind"),
                 ("operand bundles", r"@"),
                 ("range of the value", r"@\.getMetadata\[.*MD_range\]")],
    "InvokeInst": [("calling convention", r"@\.getCallingConv"),
                   ("operand bundles", r"@"),
                   ("range of the value", r"@\.getMetadata\[.*MD_range\]")],
    "InsertValueInst": [("number of indices", r"@\.getIndices\.size"),
                        ("indices", r"@\.getIndices\[#\]")],
    "ExtractValueInst": [("number of indices", r"@\.getIndices\.size"),
                         ("indices", r"@\.getIndices\[#\]")],
    "FenceInst": [("atomic ordering", r"@\.getOrdering"),
                  ("synchronisation scope", SYNC)],
    "AtomicCmpXchgInst": [("volatility", r"@\.isVolatile"),
                          ("weakness", r"@\.isWeak"),
                          ("success ordering", r"@\.getSuccessOrdering"),
                          ("failure ordering", r"@\.getFailureOrdering"),
                          ("synchronisation scope", SYNC)],
    "AtomicRMWInst": [("read-modify-write operation", r"@\.getOperation"),
                      ("volatility", r"@\.isVolatile"),
                      ("atomic ordering", r"@\.getOrdering"),
                      ("synchronisation scope", SYNC)],
    "ShuffleVectorInst": [("mask size", r"@\.getShuffleMask\.size"),
                          ("mask", r"@\.getShuffleMask\[#\]")],
    "BinaryOperator": [], "UnaryOperator": [], "CastInst": [],
    "ReturnInst": [], "BranchInst": [], "SwitchInst": [], "SelectInst": [],
}
T = r"(@|DL\.getIntPtrType\[@\])"
VALUE = [("type", r"@\.getType")]
CONSTS = {
    ("ConstantInt", "ConstantIntVal"): [("value", r"@(\.getValue)?")],
    ("ConstantFP", "ConstantFPVal"): [("value", r"@(\.getValueAPF)?")],
    ("ConstantDataSequential", "ConstantDataArrayVal"):
        [("data", r"@\.getRawDataValues")],
    ("ConstantArray", "ConstantArrayVal"):
        [("number of elements", r"@\.getType\.getNumElements"
                                r"|@\.getNumOperands"),
         ("elements", r"@\.getOperand\[#\]")],
    ("ConstantStruct", "ConstantStructVal"):
        [("number of elements", r"@\.getType\.getNumElements"
                                r"|@\.getNumOperands"),
         ("elements", r"@\.getOperand\[#\]")],
    ("ConstantVector", "ConstantVectorVal"):
        [("number of elements", r"@\.getType\.getNumElements"
                                r"|@\.getNumOperands"),
         ("elements", r"@\.getOperand\[#\]")],
    ("ConstantExpr", "ConstantExprVal"):
        [("operation", r"@\.getOpcode"),
         ("number of operands", r"@\.getNumOperands"),
         ("operands", r"@\.getOperand\[#\]")],
    ("BlockAddress", "BlockAddressVal"): [("function", r"@\.getFunction")],
    ("DSOLocalEquivalent", "DSOLocalEquivalentVal"):
        [("function", r"@\.getGlobalValue")],
    ("Function", None): [("referred object", r"@")],
    ("GlobalVariable", None): [("referred object", r"@")],
}
TYPES = {
    "IntegerTyID": [("width", T + r"\.get(Integer)?BitWidth")],
    "PointerTyID": [("address space", r"@\.getAddressSpace")],
    "StructTyID": [("number of members", T + r"\.getNumElements"),
                   ("packing", T + r"\.isPacked"),
                   ("member types", T + r"\.getElementType\[#\]")],
    "FunctionTyID": [("number of parameters", T + r"\.getNumParams"),
                     ("variable arguments", T + r"\.isVarArg"),
                     ("return type", T + r"\.getReturnType"),
                     ("parameter types", T + r"\.getParamType\[#\]")],
    "ArrayTyID": [("number of elements", T + r"\.getNumElements"),
                  ("element type", T + r"\.getElementType")],
    "FixedVectorTyID": [
        ("number of elements",
         T + r"\.getElementCount\.getKnownMinValue"
         r"|@\.getElementCount"),
        ("element type", T + r"\.getElementType")],
}
SIGNATURE = [("variable arguments", r"this\.Fn@\.isVarArg"),
             ("calling convention", r"this\.Fn@\.getCallingConv"),
             ("type", r"this\.Fn@\.getFunctionType"),
             ("having a section", r"this\.Fn@\.hasSection"),
             ("having a garbage collector", r"this\.Fn@\.hasGC")]
ASM = [("function type", r"@\.getFunctionType"),
       ("text", r"@\.getAsmString"),
       ("constraints", r"@\.getConstraintString"),
       ("side effects", r"@\.hasSideEffects"),
       ("stack alignment", r"@\.isAlignStack"),
       ("dialect", r"@\.getDialect")]


# Bounds of loops over all parts of something.
BOUND = re.compile(r"[\w.:@\[\]#]*\.(getNum\w+|size|arg_size|end|"
                   r"operands|op_end)")


class Run:
    """on: enabled patterns; accept(label, facts): whether a relaxed comparison
    is legitimate."""
    def __init__(self, ck, prog, on=(), accept=None):
        self.ck, self.prog, self.on, self.accept = ck, prog, on, accept
        self.relaxed = 0
        self.uses = {}
        self.explorer = Explore if accept is None else PassExplore
        self.cm = Comparators(prog, keep=KEEP, only=OWN)
        self.scenarios = self.outcomes = 0
        self.decided = {}

    def base(self, kinds, enum=None):
        ko = kind_oracle(kinds)

        def oracle(t):
            r = ko(t)
            if r is not None:
                return r
            if t[0] == "inloop":
                return True
            p = path(t)
            if p.startswith("this.config.Patterns."):
                return p.split(".")[-1] in self.on
            if t[0] == "op" and t[1] in ("==", "<") and \
                    "#" in (path(t[2]), path(t[3])):
                # the pass of the loop in question takes place, if the loop
                # goes through everything
                b = [x for x in (path(t[2]), path(t[3])) if x != "#"]
                if b and not BOUND.fullmatch(b[0]):
                    return None
                return t[1] == "<"
            if t[0] == "op" and t[1] in ("==", "<") and \
                    t[2][:2] == ("op", "loopout"):
                # a loop which was not left early reached its bound
                return t[1] == "=="
            if t[0] == "op" and t[1] == "==":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    e = path(y)
                    if enum and re.match(r".*(Val|TyID)$", e) and \
                            re.search(r"get(ValueID|TypeID)$", path(x)):
                        return e.split("::")[-1] == enum
                    if "inverseConditions" in path(x) and \
                            "inverseConditions" in e:
                        return True
                if sideless(path(t[2])) == sideless(path(t[3])) == "@":
                    return False
            c = callee(t) if t[0] == "call" else None
            if c and c[0] == "cmpCallArgumentUsingCSource":
                return True
            if c and c[0] == "isNullValue":
                return False
            return None
        return oracle

    def attribute(self, root, inline, label, attr, rx, kinds, enum=None,
                  extra=None, opens=None):
        """If the attribute differs, the comparator returns nonzero; if it
        agrees, it may return zero."""
        ck = self.ck
        con = f"{label}: {attr}"
        if self.accept is not None:
            con += " with " + ("+".join(self.on) if len(self.on) < 3
                               else "all patterns")
        r = self.cm.run(root, inline=inline)
        if r is None:
            ck.violate("compared", con, f"{root} does not exist")
            return
        v, ic, st, fn = r
        if self.accept is not None and not self.asked(root, v):
            return      # the same as with all patterns off
        ck.analysed.update(f"{p}" for p in ic.analysed)
        where = f"({fn.rel}: {fn.q})"
        base = self.base(kinds, enum)
        key = (root, tuple(sorted(kinds.items())), enum)
        if extra is not None:
            v = decide(v, lambda t: extra(t) if extra(t) is not None
                       else base(t))
        elif key not in self.decided:
            v = self.decided[key] = decide(v, base)
        else:
            v = self.decided[key]
        pat = re.compile(rx)
        hit = set()

        def oracle(t):
            if extra is not None:
                e = extra(t)
                if e is not None:
                    return e
            m = mirrored(t)
            if m is not None and pat.fullmatch(m):
                hit.add(t)
                return not (t[0] == "op" and t[1] == "==")
            return base(t)
        bad = None
        n = 0
        self.scenarios += 1
        try:
            for o in self.explorer(oracle).outcomes(v):
                n += 1
                if o.zero is not False:
                    if self.accept is not None and \
                            self.accepted(label, o, oracle):
                        self.relaxed += 1
                        continue
                    bad = o
                    break
        except Budget:
            raise AnalysisBroken(f"{root}: too many outcomes for {con}")
        self.outcomes += n
        why = "" if bad is None else (
            f"{fn.q} can return {path(bad.leaf)[:60]} (equal) for two "
            f"{label}s which differ in their {attr}; taken when: " +
            ", ".join(f"{path(a)[:70]}={p}"
                      for a, p in list(bad.facts.items())[-9:]
                      if a[0] != "eq"))
        ck.ob("compared", con, bad is None, why, where)

    def asked(self, root, v):
        """Whether the comparator asks for one of the enabled patterns."""
        if root not in self.uses:
            self.uses[root] = {m for m in (
                re.fullmatch(r"this\.config\.Patterns\.(\w+)", path(t))
                for t in subterms(v) if t[0] in ("attr", "sym")) if m}
            self.uses[root] = {m.group(1) for m in self.uses[root]}
        return bool(self.uses[root] & set(self.on))

    def accepted(self, label, o, oracle):
        facts = with_used(o.facts, o.used, oracle)
        if o.leaf[0] == "call" and is_cmp(o.leaf):
            facts[o.leaf] = False
        return self.accept(label, names(facts), o)

    def sane(self, root, inline, label, kinds, enum=None):
        """With nothing different the comparator can return zero (the
        analysed comparator is not vacuous)."""
        if self.accept is not None:
            return
        r = self.cm.run(root, inline=inline)
        if r is None:
            return
        base = self.base(kinds, enum)

        def oracle(t):
            m = mirrored(t)
            if m is not None:
                return t[0] == "op" and t[1] == "=="
            return base(t)
        ok = False
        for o in Explore(oracle).outcomes(decide(r[0], oracle)):
            if o.zero is not False:
                ok = True
                break
        self.ck.ob("equal-possible", label, ok,
                   f"{root} never finds two {label}s equal",
                   f"({r[3].rel}: {r[3].q})")

    def ordering(self, name, get):
        """Leaf comparator: zero exactly for equal operands."""
        if self.accept is not None:
            return
        q = B + name
        r = self.cm.run(q)
        if r is None:
            self.ck.violate("leaf", name, f"{q} does not exist")
            return
        v, ic, st, fn = r
        self.ck.analysed.update(ic.analysed)
        for rel in ("less", "greater", "equal"):
            def oracle(t):
                p = pair(t)
                if p is None:
                    c = callee(t) if t[0] == "call" else None
                    if c and c[0] in ("ugt", "ult", "uge", "ule", "eq",
                                      "ne") and c[2] is not None and c[3]:
                        a, b = path(c[2]), path(c[3][0])
                        f = {"ugt": "greater", "ult": "less"}.get(c[0])
                        if (a, b) == ("L", "R") and f:
                            return rel == f
                        if (a, b) == ("R", "L") and f:
                            return rel == {"less": "greater",
                                           "greater": "less"}[f]
                    return None
                a, b = p
                x, y = get("L"), get("R")
                if t[0] == "op":
                    if (a, b) == (x, y):
                        return {"<": rel == "less", ">": rel == "greater",
                                "==": rel == "equal"}.get(t[1])
                    if (a, b) == (y, x):
                        return {"<": rel == "greater", ">": rel == "less",
                                "==": rel == "equal"}.get(t[1])
                m = mirrored(t)
                if m is not None:
                    return t[0] == "op"      # everything else agrees
                return None
            zs = {o.zero for o in Explore(oracle).outcomes(v)}
            self.ck.ob("leaf", f"{name}: {rel}",
                       zs == {rel == "equal"},
                       f"{q} gives zero={sorted(map(str, zs))} when the left "
                       f"operand is {rel}", f"({fn.rel}: {fn.q})")


def run():
    ck = Check("P10", "Scenario enumeration over the value terms of the "
               "comparison functions: for every kind of instruction, "
               "constant and type and every attribute of it, no path through "
               "the comparator returns equal when the attribute differs "
               "(all patterns off).")
    prog = CxxProgram(REPO, units=None)
    R = Run(ck, prog)
    attributes(R)
    ck.note("scenarios", R.scenarios)
    ck.note("outcomes_enumerated", R.outcomes)
    ck.floor("attributes", sum(1 for o in ck.obligations), 150)
    return ck


def attributes(R):
    """All attributes of everything which is compared."""
    ops = (D + "cmpOperationsWithOperands", {D + "cmpOperations",
                                             B + "cmpOperations"})
    for kind, attrs in KINDS.items():
        kinds = {"L": kind, "R": kind}
        for a, rx in INST + attrs:
            R.attribute(*ops, kind, a, rx, kinds)
        R.sane(*ops, kind, kinds)
    G = {"L": "GetElementPtrInst", "R": "GetElementPtrInst"}
    for a, rx in (("operation", r"@\.getOpcode"),
                  ("pointer operand", r"@\.getPointerOperand"),
                  ("offset", r"@")):
        R.attribute(*ops, "GetElementPtrInst", a, rx, G)
    geps = (D + "cmpGEPs", {B + "cmpGEPs"})

    def variable(t):
        c = callee(t) if t[0] == "call" else None
        return False if c and c[0] == "accumulateConstantOffset" else None

    def constant(t):
        c = callee(t) if t[0] == "call" else None
        return True if c and c[0] == "accumulateConstantOffset" else None
    for a, rx, ex in (
            ("address space", r"@\.getAddressSpace", None),
            ("constant offset", r"APInt\(.*\)", constant),
            ("element type", r"@\.getSourceElementType", variable),
            ("number of indices", r"@\.getNumOperands", variable),
            ("indices", r"@\.getOperand\[#\]", variable)):
        if a == "constant offset":
            def ex(t):
                if is_cmp(t) and callee(t)[0] == "cmpAPInts":
                    return True
                return constant(t)
        R.attribute(*geps, "address computation", a, rx, {}, extra=ex)
    R.sane(*geps, "address computation", {})
    cons = (D + "cmpConstants", {B + "cmpConstants"})
    for (kind, enum), attrs in CONSTS.items():
        kinds = {"L": kind, "R": kind, "L.getType": "IntegerType",
                 "R.getType": "IntegerType"}
        for a, rx in VALUE + attrs:
            if kind in ("Function", "GlobalVariable") and a == "type":
                continue
            R.attribute(*cons, kind, a, rx, kinds, enum)
        R.sane(*cons, kind, kinds, enum)
        if kind in ("Function", "GlobalVariable"):
            continue

        for x in "LR":
            def null(t, x=x):
                c = callee(t) if t[0] == "call" else None
                if c and c[0] == "isNullValue":
                    return path(c[2]) == x
                return None
            R.attribute(*cons, kind, f"being zero ({x})", r"%", kinds, enum,
                        extra=null)
    R.attribute(*cons, "ConstantExpr", "predicate", r"@\.getPredicate",
                {"L": "ConstantExpr", "R": "ConstantExpr"},
                "ConstantExprVal",
                extra=lambda t: True if t[0] == "call" and
                callee(t)[0] == "isCompare" else None)
    typs = (D + "cmpTypes", {B + "cmpTypes"})
    for enum, attrs in TYPES.items():
        k = {"L": "PointerType", "R": "PointerType"} \
            if enum == "PointerTyID" else \
            {"L": enum[:-4] + "Type", "R": enum[:-4] + "Type"}

        def ptr(t):
            # pointers of a non-default address space stay pointers
            if t[0] == "call" and callee(t)[0] == "getAddressSpace":
                return True
            if t[0] == "op" and t[1] == "==" and \
                    mirrored(t) == "@.getElementCount":
                return True
            return None
        for a, rx in [("kind", T + r"\.getTypeID")] + attrs:
            R.attribute(*typs, enum[:-4] + " type", a, rx,
                        k, enum,
                        extra=None if "getElementCount" in rx else ptr)
        R.sane(*typs, enum[:-4] + " type", k, enum)
    for a, rx in ASM:
        R.attribute(B + "cmpInlineAsm", (), "inline assembly", a, rx, {})
    R.sane(B + "cmpInlineAsm", (), "inline assembly", {})
    for a, rx in SIGNATURE:
        R.attribute(B + "compareSignature", (), "function", a, rx, {})
    for a, has in (("section", "hasSection"), ("GC", "hasGC")):
        R.attribute(B + "compareSignature", (), "function", a,
                    rf"this\.Fn@\.get{a[0].upper()}{a[1:]}", {},
                    extra=lambda t, h=has: True if t[0] == "call" and
                    callee(t) and callee(t)[0] == h else None)
    R.sane(B + "compareSignature", (), "function", {})
    rng = B + "cmpRangeMetadata"
    for a, rx in (("number of bounds", r"@\.getNumOperands"),
                  ("bounds", r".*@\.getOperand\[#\].*")):
        R.attribute(rng, (), "range", a, rx, {})
    for x in "LR":
        def absent(t, x=x):
            if t == ("sym", x):
                return False
            if t[0] == "sym" and t[1] in "LR":
                return True
            return None
        R.attribute(rng, (), "range", f"absence ({x})", r"%", {},
                    extra=absent)
    bun = B + "cmpOperandBundlesSchema"
    for a, rx in (("number of bundles", r"@\.getNumOperandBundles"),
                  ("tags", r"@\.getOperandBundleAt\[#\]\.getTagName"),
                  ("inputs", r"@\.getOperandBundleAt\[#\]\.Inputs\.size")):
        R.attribute(bun, (), "operand bundle", a, rx, {})
    flt = B + "cmpAPFloats"
    for a, rx in (("value", r"@\.bitcastToAPInt"),
                  ("precision", r".*semanticsPrecision\(.*\)")):
        R.attribute(flt, (), "floating-point number", a, rx, {})
    R.attribute(B + "cmpMem", (), "string", "size", r"@\.size", {})
    R.attribute(B + "cmpMem", (), "string", "content", "@", {},
                extra=lambda t: True if t[0] == "call" and
                callee(t)[0] in ("clamp", "memcmp", "compare") else None)
    R.attribute(B + "cmpAPInts", (), "integer", "width", r"@\.getBitWidth",
                {})
    dap = (D + "cmpAPInts", {B + "cmpAPInts"})
    R.attribute(*dap, "integer", "width", r"@\.getBitWidth", {})
    phi = D + "cmpPHIs"

    for a, rx in (("number of incoming values", r"@\.getNumIncomingValues"),
                  ("incoming values", r"@\.getIncomingValue\[#\]"),
                  ("incoming blocks",
                   r"this\.sn_map@\[@\.getIncomingBlock\[#\]\]")):
        R.attribute(phi, (), "phi", a, rx, {})
    R.sane(phi, (), "phi", {})
    cmp_ = (D + "compare", {B + "compare"})
    for a, f in (("signature", "compareSignature"), ("blocks", "cmpBasicBlocks"),
                 ("order of blocks", "cmpValues"), ("phis", "cmpPHIs")):
        def differs(t, f=f):
            c = callee(t) if t[0] == "call" else None
            if c and c[0] == "empty":
                return False
            if c and c[0].startswith("SmallVector"):
                return True
            if c and c[0] == f:
                return True
            return False if c and is_cmp(t) else None
        R.attribute(*cmp_, "function body", a, "%", {}, extra=differs)
    val = B + "cmpValues"

    def sides(l, r):
        """Kinds of the two values; None: neither constant nor assembly."""
        K = {"c": "Constant", "a": "InlineAsm", "n": "Argument"}
        return {"L": K[l], "R": K[r]}

    def self_ref(x):
        def f(t):
            if t[0] == "op" and t[1] == "==":
                s = {path(t[2]), path(t[3])}
                for y in "LR":
                    if s == {y, "this.Fn" + y}:
                        return y in x
            return None
        return f
    for l, r in ("cn", "nc", "an", "na", "ca", "ac"):
        R.attribute(val, (), "value", f"kind ({l}{r})", "%", sides(l, r),
                    extra=self_ref(""))
    for x in "LR":
        R.attribute(val, (), "value", f"reference to the function ({x})",
                    "%", sides("c", "c"), extra=self_ref(x))
    R.attribute(val, (), "value", "constant value", "@", sides("c", "c"),
                extra=self_ref(""))
    R.attribute(val, (), "value", "assembly", "@", sides("a", "a"),
                extra=self_ref(""))
    R.attribute(val, (), "value", "position",
                r"this\.sn_map@\.(insert|try_emplace|find)\[.*\].*",
                sides("n", "n"), extra=self_ref(""))
    for k in "can":
        R.sane(val, (), f"value ({k})", sides(k, k))
    gv = D + "cmpGlobalValues"

    def glob(**d):
        def f(t):
            c = callee(t) if t[0] == "call" else None
            if c is None:
                return None
            key = c[0] + ("_" + path(c[2]) if c[2] is not None and
                          path(c[2]) in ("L", "R") else "")
            if key in d:
                return d[key]
            if c[0] in d:
                return d[c[0]]
            if c[0] == "count":
                return False
            return None
        return f
    F = {"L": "Function", "R": "Function"}
    V = {"L": "GlobalVariable", "R": "GlobalVariable"}
    name = r".*@\.getName.*"
    R.attribute(gv, (), "function symbol", "name", name, F,
                extra=glob(hasName=True, isKernelPrintFunction=False))
    R.attribute(gv, (), "variable", "name", name, V,
                extra=glob(hasName=True, isKernelPrintFunction=False,
                           hasInitializer=False))
    R.attribute(gv, (), "variable", "name", name, V,
                extra=glob(hasName=True, isKernelPrintFunction=False,
                           isConstant=False))
    R.attribute(gv, (), "constant variable", "initializer",
                r"@\.getInitializer", V,
                extra=glob(hasInitializer=True, isConstant=True))
    for x, y in ("LR", "RL"):
        R.attribute(gv, (), "function symbol", f"having a name ({x})", "%", F,
                    extra=glob(**{"hasName_" + x: True,
                                  "hasName_" + y: False}))
    for a in ("String", "ConstraintString"):
        R.attribute(gv, (), "assembly abstraction", a,
                    rf"getInlineAsm{a}\(@\)", F,
                    extra=glob(hasName=True, startswith=True,
                               starts_with=True))
    R.sane(gv, (), "function symbol", F)
    R.sane(gv, (), "variable", V)
    R.ordering("cmpNumbers", lambda x: x)
    R.ordering("cmpAligns", lambda x: x)
    R.ordering("cmpOrderings", lambda x: x)
    R.ordering("cmpAPInts", lambda x: x)
