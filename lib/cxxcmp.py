"""Analysis of comparison functions (0 means equal) over gated terms.

The value a comparator returns is one term.  A *scenario* fixes the truth of
some of its atoms (which kind of instruction is compared, which patterns are
on, which pair of attributes differs); everything else is left open.  All
outcomes of the term which are consistent with the scenario are enumerated,
splitting on open atoms.
"""
import sys
from lib.interp import C, State, canon, show, subterms
from lib.c2py import CInterp

sys.setrecursionlimit(20000)

CASTS = {"dyn_cast", "cast", "dyn_cast_or_null", "dyn_cast_if_present",
         "cast_or_null", "const_cast", "static_cast"}
KINDTESTS = CASTS | {"isa", "isa_and_nonnull"}
CMPNAMES = ("cmp", "compare")
ALIAS = {"getIntegerBitWidth": "getBitWidth",
         "getArrayNumElements": "getNumElements",
         "getStructNumElements": "getNumElements",
         "getStructElementType": "getElementType",
         "getArrayElementType": "getElementType",
         "getPointerAddressSpace": "getAddressSpace",
         "getFunctionParamType": "getParamType",
         "getFunctionNumParams": "getNumParams",
         "getArgOperand": "getOperand", "getAlignment": "getAlign"}
PASS = {"value", "operator*", "operator->", "get", "begin"}


def short(q):
    """Base name of a callee without template arguments and signature."""
    q = q.split("(")[0]
    q = q.split("<")[0] if not q.startswith("operator") else q
    return q.split("::")[-1].strip()


def targ(q):
    if "<" not in q or not q.endswith(">"):
        return None
    return q[q.index("<") + 1:-1].split("::")[-1].strip()


def callee(t):
    """(base name, full name, receiver or None, other args) of a call term."""
    if t[0] != "call":
        return None
    fn, args = t[1], t[2]
    if fn[0] == "ext":
        return short(fn[1]), fn[1], None, args
    if fn[0] == "attr":
        rest = args[1:] if args and args[0] == fn[1] else args
        return fn[2], fn[2], fn[1], rest
    if fn[0] == "func":
        return fn[1].name, fn[1].qual, None, args
    return None


def path(t):
    """Readable access path of a term; casts are dropped and loop counters
    become a placeholder."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if not isinstance(k, str):
        return "(" + ",".join(path(x) for x in t
                              if isinstance(x, tuple)) + ")"
    if k == "sym":
        return t[1]
    if k == "c":
        return "null" if t[2] is None else str(t[2])
    if k == "enum":
        return str(t[1])
    if k == "ext":
        return t[1]
    if k == "attr":
        return path(t[1]) + "." + t[2]
    if k == "phi":
        return "#" + (path(t[3]) if t[3] != C(0) else "")
    if k == "elem":
        return path(t[1]) + "[#]"
    if k == "idx":
        return path(t[1]) + "[" + path(t[2]) + "]"
    if k == "index":
        return path(t[1]) + "[" + path(t[2]) + "]"
    if k == "out":
        return path(t[1]) + "!" + t[2]
    if k == "call":
        c = callee(t)
        if c is None:
            return show(t)
        b, full, recv, rest = c
        if b in CASTS and recv is None and rest:
            return path(rest[0])
        if recv is not None:
            if b in PASS and not rest:
                return path(recv)
            if b in ("operator[]", "at") and len(rest) == 1:
                return f"{path(recv)}[{path(rest[0])}]"
            a = ",".join(path(x) for x in rest)
            b = ALIAS.get(b, b)
            return f"{path(recv)}.{b}" + (f"[{a}]" if rest else "")
        if b in ("operator[]",) and len(rest) == 2:
            return f"{path(rest[0])}[{path(rest[1])}]"
        if b in ("operator*", "operator->") and len(rest) == 1:
            return path(rest[0])
        if rest and path(rest[0]) == "this":
            rest = rest[1:]
        return f"{b}(" + ",".join(path(x) for x in rest) + ")"
    if k == "op":
        return f"{t[1]}(" + ",".join(path(x) for x in t[2:]) + ")"
    if k == "ite":
        return f"({path(t[1])}?{path(t[2])}:{path(t[3])})"
    return k + "(" + ",".join(path(x) for x in t[1:]
                              if isinstance(x, tuple)) + ")"


def sideless(p):
    """Path without the distinction of the compared sides."""
    import re
    p = re.sub(r"\bFn[LR]\.getParent\.getDataLayout", "DL", p)
    return re.sub(r"\b(Fn|sn_map|)[LR]\b", r"\1@", p)


def side(p):
    """Sides mentioned in a path."""
    import re
    p = re.sub(r"\bFn[LR]\.getParent\.getDataLayout", "DL", p)
    return {m.group(2) for m in re.finditer(r"\b(Fn|sn_map|)([LR])\b", p)}


def mirrored(t):
    """Attribute (path without sides) which a comparison atom compares on both
    sides, or None."""
    p = pair(t)
    if p is None:
        return None
    a, b = sideless(p[0]), sideless(p[1])
    if a != b or side(p[0]) == side(p[1]) or len(side(p[0])) != 1 or \
            len(side(p[1])) != 1:
        return None
    return a


def is_cmp(t):
    c = callee(t) if t[0] == "call" else None
    return c is not None and c[0].startswith(CMPNAMES)


def pair(t):
    """The two compared operands of a comparison atom (call of a comparator,
    or ==, <, of two terms)."""
    if t[0] == "call":
        c = callee(t)
        if c is None:
            return None
        b, full, recv, rest = c
        if b == "compare" and recv is not None and len(rest) == 1:
            return path(recv), path(rest[0])
        if not b.startswith(CMPNAMES):
            return None
        rest = [x for x in rest if path(x) != "this"]
        if len(rest) >= 2:
            return path(rest[0]), path(rest[1])
        if len(rest) == 1 and recv is not None and path(recv) != "this":
            return path(recv), path(rest[0])
        return None
    if t[0] == "op" and t[1] in ("==", "<", ">", "<=", ">=", "is") and \
            len(t) == 4:
        return path(t[2]), path(t[3])
    return None


def boolean(t):
    return t[0] == "op" and t[1] in ("not", "and", "or", "==", "!=", "<",
                                     ">", "<=", ">=", "bool")


class Outcome:
    __slots__ = ("leaf", "zero", "facts", "used")

    def __init__(self, leaf, zero, facts, used):
        self.leaf, self.zero, self.facts, self.used = leaf, zero, facts, used


class Budget(Exception):
    pass


def assume(facts, a, pol):
    facts = {**facts, a: pol}
    if a[0] == "op" and a[1] == "==":
        x, y = pair(a)
        facts[("eq", (x, y))] = facts[("eq", (y, x))] = pol
    return facts


class Explore:
    """Enumerates the outcomes of a term in one scenario.

    oracle(atom) gives True/False (the truth of the atom as a condition, i.e.
    nonzero for comparators) or None (open)."""

    def __init__(self, oracle, limit=20000):
        self.oracle = oracle
        self.limit = limit
        self.n = 0
        self.cache = {}

    def atom(self, t, facts, used):
        if t in facts:
            return facts[t]
        if is_cmp(t):
            # the same two things were compared by == before
            eq = facts.get(("eq", pair(t)))
            if eq is not None:
                return not eq
            c = callee(t)
            if c[0] == "cmpNumbers" and len(c[3]) >= 2:
                for x, y in (c[3][-2:], c[3][:-3:-1]):
                    if y == C(0) and x in facts:
                        return facts[x]
        if t not in self.cache:
            self.cache[t] = self.oracle(t)
        v = self.cache[t]
        if v is not None:
            used.add(t)
        return v

    def truth(self, t, facts, used):
        """(value, None) or (None, open atom)."""
        t, pol = canon(t, True)
        v, a = self.truth1(t, facts, used)
        return (v == pol if v is not None else None), a

    def truth1(self, t, facts, used):
        k = t[0]
        if k == "c":
            return bool(t[2]), None
        if k in ("new", "ref", "func"):
            return True, None
        if t in facts:
            return facts[t], None
        if k == "op":
            if t[1] in ("and", "or"):
                stop = t[1] == "or"
                opened = None
                for x in t[2:]:
                    v, a = self.truth(x, facts, used)
                    if v is stop:
                        return stop, None
                    if v is None:
                        # decide from left to right like the program
                        return None, a
                return not stop, None
            if t[1] == "==" and len(t) == 4:
                v = self.atom(t, facts, used)
                if v is not None:
                    return v, None
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x[0] == "ite":
                        v, a = self.truth(x[1], facts, used)
                        if v is None:
                            return None, a
                        z = x[2] if v else x[3]
                        return self.truth(("op", "==", z, y), facts, used)
                if t[2][0] == "c" and t[3][0] == "c":
                    return t[2][2] == t[3][2], None
                if boolean(t[2]) and boolean(t[3]):
                    vs = []
                    for x in t[2:]:
                        v, a = self.truth(x, facts, used)
                        if v is None:
                            return None, a
                        vs.append(v)
                    return vs[0] == vs[1], None
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if y[0] == "c" and y[2] in (0, None, False):
                        if x[0] in ("call", "op", "sym", "attr"):
                            v, a = self.truth(x, facts, used)
                            return (None if v is None else not v), a
                return None, t
            if t[1] == "bool":
                return self.truth(t[2], facts, used)
            if t[1] == "loopout" and len(t) == 5:
                # a flag of a loop: the initial value or one set in a pass
                x, a = self.truth(t[3], facts, used)
                if x is None:
                    return None, a
                # by induction over the passes: the flag has its initial
                # value before the pass
                ind = {p: x for p in subterms(t[4])
                       if p[0] == "phi" and p[3] == t[3]}
                y, b = self.truth(t[4], {**facts, **ind}, used)
                if y is None:
                    return None, b
                if x == y:
                    return x, None
            if t[1] == "-" and len(t) == 3:
                return self.truth(t[2], facts, used)
        if k == "ite":
            v, a = self.truth(t[1], facts, used)
            if v is None:
                return None, a
            return self.truth(t[2] if v else t[3], facts, used)
        v = self.atom(t, facts, used)
        return v, (None if v is not None else t)

    def outcomes(self, t, facts=None, used=None):
        facts = facts or {}
        used = used if used is not None else set()
        stack = [(t, facts, used)]
        while stack:
            t, facts, used = stack.pop()
            self.n += 1
            if self.n > self.limit:
                raise Budget()
            if t[0] == "ite":
                u = set(used)
                v, a = self.truth(t[1], facts, u)
                if v is None:
                    for pol in (False, True):
                        stack.append((t, assume(facts, a, pol), u))
                else:
                    stack.append((t[2] if v else t[3], facts, u))
                continue
            u = set(used)
            z = self.zero(t, facts, u)
            if z is None:
                v, a = self.truth(t, facts, u)
                if v is None and a is not None and a != t and a not in facts:
                    for pol in (False, True):
                        stack.append((t, assume(facts, a, pol), u))
                    continue
                z = None if v is None else not v
            yield Outcome(t, z, facts, u)

    def zero(self, t, facts, used):
        if t[0] == "c":
            return not t[2]
        if t[0] == "op" and t[1] in ("not", "and", "or", "==", "!=", "<", ">",
                                     "-", "bool"):
            v, a = self.truth(t, facts, used)
            return None if v is None else not v
        if t[0] == "call":
            v, a = self.truth(t, facts, used)
            return None if v is None else not v
        return None


# ---- kinds ---------------------------------------------------------------
PARENT = {
    "AllocaInst": "UnaryInstruction", "LoadInst": "UnaryInstruction",
    "CastInst": "UnaryInstruction", "BitCastInst": "CastInst",
    "ExtractValueInst": "UnaryInstruction", "ZExtInst": "CastInst",
    "UnaryOperator": "UnaryInstruction", "FreezeInst": "UnaryInstruction",
    "ICmpInst": "CmpInst", "FCmpInst": "CmpInst",
    "CallInst": "CallBase", "InvokeInst": "CallBase",
    "IntrinsicInst": "CallInst", "DbgInfoIntrinsic": "IntrinsicInst",
    "GetElementPtrInst": "GEPOperator", "GEPOperator": "Operator",
    "ConstantInt": "ConstantData", "ConstantFP": "ConstantData",
    "ConstantData": "Constant", "ConstantExpr": "Constant",
    "ConstantArray": "Constant", "ConstantStruct": "Constant",
    "ConstantVector": "Constant", "BlockAddress": "Constant",
    "ConstantDataSequential": "ConstantData",
    "ConstantDataArray": "ConstantDataSequential",
    "GlobalValue": "Constant", "GlobalVariable": "GlobalValue",
    "Function": "GlobalValue", "GlobalAlias": "GlobalValue",
    "ConstantPointerNull": "ConstantData", "UndefValue": "ConstantData",
    "DSOLocalEquivalent": "Constant",
}


def ancestors(k):
    out = {k}
    while k in PARENT:
        k = PARENT[k]
        out.add(k)
    return out


def kind_test(t):
    """(class, path) of a term testing the kind of a value."""
    c = callee(t) if t[0] == "call" else None
    if c is None or c[0] not in KINDTESTS or not c[3]:
        return None
    k = targ(c[1])
    return (k, path(c[3][0])) if k else None


def kind_oracle(kinds):
    """kinds: path -> kind."""
    def oracle(t):
        kt = kind_test(t)
        if kt is None or kt[1] not in kinds:
            return None
        want = kinds[kt[1]]
        if callee(t)[0] in ("cast", "const_cast", "static_cast"):
            return True
        if kt[0] in ("Value", "Instruction", "User") or \
                kt[0] in ancestors(want):
            return True
        if want in ancestors(kt[0]):
            return None
        return False
    return oracle


def loop_oracle(t):
    """A pass of the loop takes place."""
    if t[0] == "inloop":
        return True
    return None


def decide(t, oracle):
    """Term with all conditional parts which the scenario decides resolved."""
    memo = {}
    ex = Explore(oracle)

    def rec(t):
        if not isinstance(t, tuple) or not t:
            return t
        i = id(t)
        if i in memo:
            return memo[i][0]
        if t[0] == "ite":
            v, _ = ex.truth(rec(t[1]), {}, set())
            if v is not None:
                r = rec(t[2] if v else t[3])
            else:
                r = (t[0], rec(t[1]), rec(t[2]), rec(t[3]))
        else:
            n = [rec(x) if isinstance(x, tuple) else x for x in t]
            r = tuple(n) if any(x is not y for x, y in zip(n, t)) else t
        memo[i] = (r, t)
        return r
    return rec(t)


class Comparators:
    def __init__(self, prog, keep=(), only=None):
        """only: names of the comparators which stay opaque (all functions
        named like comparators if not given)."""
        self.prog = prog
        self.only = only
        self.memo = {}
        self.funcs = [f for f in prog.funcs.values()]
        self.keep = set(keep)

    def run(self, q, inline=(), opaque=(), names=("L", "R"),
            impure=()):
        """(value term, interpreter) of one comparator."""
        key = (q, tuple(sorted(inline)), tuple(sorted(opaque)),
               tuple(sorted(impure)), tuple(names))
        if key in self.memo:
            return self.memo[key]
        fns = self.prog.fns(q)
        if len(fns) != 1:
            self.memo[key] = None
            return None
        fn = fns[0]
        op = set()
        for f in self.funcs:
            b = f.q.split("::")[-1]
            if f.q == q or f.q in inline:
                continue
            if (b in self.only if self.only is not None
                    else b.startswith(CMPNAMES)) or "Logger" in f.rel or \
                    b in self.keep or f.q in opaque:
                op.add(f.q)
        ic = CInterp(self.prog, opaque=op)
        ic.virtual_inline = set(inline)
        ic.lang.impure = set(impure)
        args = {}
        ps = [p["n"] for p in fn.params]
        for p, v in zip(ps, names):
            if p:
                args[p] = ("sym", v)
        st = State()
        v, st = ic.run_c(fn, args, st)
        self.memo[key] = (ic.freeze(st, v), ic, st, fn)
        return self.memo[key]
