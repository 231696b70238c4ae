"""P02: comparison options reach the engine identically in both modes."""
import ast
from lib.report import Check
from lib.pycall import Calls, bind_args, is_bound
from lib.wiring import Wiring
from lib.interp import (show, C, TRUE, FALSE, NONE, subterms, ITE, NOT, canon,
                        MISSING, Interp)
from lib.pyfront import AnalysisBroken
from lib.terms import rewrite, simplify_under

NPOS = "npos"


def strip(t):
    """Drop bytes/str difference and representation-only operations."""
    if t[0] == "c" and isinstance(t[2], bytes):
        return C(t[2].decode())
    return t


class Norm:
    """Term normaliser: string splitting laws and option laws."""

    def __call__(self, t):
        return rewrite(t, self.step)

    def step(self, t):
        t = strip(t)
        k = t[0]
        if k == "ite":
            c, a, b = t[1], t[2], t[3]
            if c[0] == "c":
                return a if c[2] else b
            if a == b:
                return a
            # value if set, otherwise the empty value
            if c == a and b in (C(""), NONE, FALSE, C(0)):
                return a
            # a if a == b else b
            if c[0] == "op" and c[1] == "==" and {c[2], c[3]} == {a, b}:
                return b
            if a == TRUE and b == FALSE:
                return ("op", "bool", c)
            if c[0] == "op" and c[1] == "<" and c[2] == C(0) and \
                    c[3] == a and b == C(0):
                return a        # non-negative counter
            if c[0] == "op" and c[1] == "fmt" and any(
                    p[0] == "c" and p[2] for p in c[2:]):
                return a        # a non-empty string
            if c[0] == "op" and c[1] == "==":
                # equal values are interchangeable where they are equal
                lo, hi = sorted((c[2], c[3]), key=repr)
                a3 = self(subst(a, {hi: lo})) if hi[0] != "c" else a
                if a3 != a:
                    return self(("ite", c, a3, b))
            # condition known inside of the branches
            a2 = simplify_under(a, c, True)
            b2 = simplify_under(b, c, False)
            if (a2, b2) != (a, b):
                return self(("ite", c, a2, b2))
            if c[0] == "ite":
                return self(("ite", c[1], ("ite", c[2], a, b),
                             ("ite", c[3], a, b)))
            # a constructed object is always there; None has no members
            if self.object(c):
                return a
            return t
        if k == "op" and t[1] == "bool":
            return t[2]
        if k == "attr" and t[1] == NONE:
            return NONE
        if k == "op" and t[1] == "fmt" and len(t) == 3:
            return t[2]
        if k == "call":
            return self.string(t)
        if k == "op" and t[1] in ("==", "not", "fmt", "Add") or k == "call":
            for i, x in enumerate(t):
                if isinstance(x, tuple) and x and x[0] == "ite":
                    y = lambda z: t[:i] + (z,) + t[i + 1:]
                    return self(("ite", x[1], y(x[2]), y(x[3])))
        if k == "op" and t[1] == "==" and t[2][0] == "pos":
            if t[3][0] == "ext" and t[3][1].endswith(NPOS):
                return FALSE
        if k == "op" and t[1] == "==" and t[3] == t[2]:
            return TRUE
        if k == "ext" and t[1].endswith("::" + NPOS):
            return ("ext", NPOS)
        if k == "idx" and t[1][0] == "call" and \
                t[1][1] == ("ext", "os.path.splitext"):
            n = t[2][2] if t[2][0] == "c" else None
            if n in (0, 1):
                return ("stem" if n == 0 else "suffix", t[1][2][0])
        return t

    def object(self, c):
        """Objects of the repository's classes without a truth method."""
        return c[0] == "obj" or c[0] == "call" and c[1][0] == "func" and \
            c[1][1].name == "create_from_file"

    def string(self, t):
        """Laws of find/substr on concatenations with a separator; function
        and file names do not contain the separator."""
        fn, args = t[1], t[2]
        if fn[0] != "attr" or not args:
            return t
        s = args[0]
        m = fn[2]
        if s[0] == "ite":
            y = lambda z: ("call", ("attr", z, m), (z,) + args[1:], t[3])
            return self(("ite", s[1], y(s[2]), y(s[3])))
        if m in ("find", "find_first_of", "find_last_of", "rfind") and \
                len(args) >= 2 and args[1][0] == "c":
            sep = args[1][2]
            if s[0] == "op" and s[1] == "fmt":
                for i, p in enumerate(s[2:]):
                    if p == C(sep):
                        return ("pos", s, i)
            elif sep == ",":
                return ("ext", NPOS)
            return ("find", s, C(sep))
        if m == "substr" and len(args) >= 2:
            a = args[1]
            b = args[2] if len(args) > 2 else ("ext", NPOS)
            if a == C(0) and b[0] == "pos" and b[1] == s:
                return self(("op", "fmt") + s[2:2 + b[2]])
            if b[0] == "ext" and b[1].endswith(NPOS):
                if a[0] == "op" and a[1] == "Add" and a[2][0] == "pos" and \
                        a[2][1] == s and a[3] == C(1):
                    return self(("op", "fmt") + s[3 + a[2][2]:])
                if a == ("find", s, C(".")):
                    return ("suffix", s)
            if a == C(0) and b == ("find", s, C(".")):
                return ("stem", s)
        return t


def subst(t, f):
    return rewrite(t, lambda x: f.get(x, x) if isinstance(x, tuple) else x)


def flag_values(t):
    """Options passed to the binary: name -> value term; positionals."""
    pos, flags = [], {}
    pending = []

    def put(name, val):
        flags.setdefault(name, []).append(val)

    def flat(items, cond):
        """[(condition, item)]"""
        out = []
        for x in items:
            if x[0] == "?cond":
                out += flat(x[2], cond + [(x[1], True)])
                out += flat(x[3], cond + [(x[1], False)])
            elif x[0] == "?star":
                out += flat(x[2], cond + [(("sym", "loop"), True)])
            else:
                out.append((tuple(cond), x))
        return out
    seq = flat(t[1:], [])
    i = 1
    valued = VALUED
    while i < len(seq):
        cond, x = seq[i]
        i += 1
        if x[0] == "c" and isinstance(x[2], str) and x[2].startswith("--"):
            name = x[2][2:]
            if "=" in name:
                name, v = name.split("=", 1)
                put(name, (cond, C(v)))
            elif valued(name):
                n = 0
                while i < len(seq):
                    c2, v = seq[i]
                    if c2[:len(cond)] != cond or (n and c2 == cond):
                        break
                    put(name, (c2, v))
                    i += 1
                    n += 1
                    if c2 == cond:
                        break
                    if i < len(seq) and not is_alternative(c2, seq[i][0]):
                        break
            else:
                put(name, (cond, TRUE))
        elif x[0] == "op" and x[1] == "fmt" and x[2][0] == "c" and \
                x[2][2].startswith("--") and "=" in x[2][2]:
            name, rest = x[2][2][2:].split("=", 1)
            v = x[3:] if not rest else (C(rest),) + x[3:]
            put(name, (cond, v[0] if len(v) == 1 else ("op", "fmt") + v))
        else:
            pos.append((cond, x))
    return pos, flags


def is_alternative(c1, c2):
    """The two conditions exclude each other."""
    return any((t, not p) in c2 for t, p in c1)


def combine(vals, default):
    r = default
    for cond, v in vals:
        t = v
        for c, p in reversed(cond):
            t = ("ite", c, t, None) if p else ("ite", c, None, t)
        r = fill(t, r)
    return r


def fill(t, r):
    if t is None:
        return r
    if t[0] == "ite" and None in (t[2], t[3]):
        return ITE(t[1], fill(t[2], r), fill(t[3], r))
    return t


VALUED = None

# engine setting -> what the user gave (attribute of the parsed arguments or
# parameter of the engine call)
SOURCES = {
    "FirstFunName": ("fun_first",),
    "SecondFunName": ("fun_second",),
    "FirstOutFile": ("first", "suffix"),
    "SecondOutFile": ("second", "suffix"),
    "First": ("first",),
    "Second": ("second",),
    "FirstFun": ("first", "fun_first"),
    "SecondFun": ("second", "fun_second"),
    "FirstVar": ("first", "var"),
    "SecondVar": ("second", "var"),
    "CacheDir": ("cache_dir",),
    "CustomPatternConfigPath": ("custom_patterns",),
    "OutputLlvmIR": ("output_llvm_ir",),
    "PrintAsmDiffs": ("print_asm_diffs",),
    "ExtendedStat": ("extended_stat",),
    "PrintCallStacks": (),
    "@Verbosity": ("verbose",),
}
IGNORED = ("Patterns", "context_first", "context_second", "err")


def inputs(t):
    """User-level inputs mentioned by a term."""
    out = set()
    for x in subterms(t):
        if x[0] == "attr" and len(x) == 3 and x[1] == ("sym", "args"):
            out.add(x[2])
        elif x[0] == "sym" and len(x) == 2 and x[1] != "args" and \
                "#" not in str(x[1]):
            out.add(x[1])
    return out


def run():
    global VALUED
    c = Check("P02", "Every engine setting is expressed as a term over the "
              "command line options and the arguments of the comparison, "
              "once along the in-process interface and once along the engine "
              "binary's command line; both terms must be equal (after the "
              "laws of string splitting) and must be taken from the option "
              "meant for the setting.  Options accepted by a command must be "
              "read by it, and only declared options may be read.")
    w = Wiring()
    c.analysed |= w.I.analysed
    norm = Norm()
    VALUED = lambda name: any(
        nm == name and "bool" not in t for nm, i, t in w.flags.values())
    # --- binary: values of the option variables
    pos, flags = flag_values(w.binary.args[0])
    posvars = [q for q, (nm, i, t) in w.flags.items() if not nm]
    env_b = {}
    plain = [x for cond, x in pos if not cond]
    c.ob("binary-positional", "input files", len(plain) == len(posvars) and
         len(pos) == len(plain),
         f"{len(pos)} positional arguments for {len(posvars)} input files",
         w.binary.where)
    order = sorted(posvars, key=lambda q: w.X.globals[q]["l"])
    for q, v in zip(order, plain):
        env_b[("ext", q)] = v
    known = {nm for nm, i, t in w.flags.values() if nm}
    for name in sorted(flags):
        c.ob("binary-flag-known", name, name in known,
             f"--{name} is not an option of the engine binary",
             w.binary.where)
    for q, (nm, init, t) in w.flags.items():
        if not nm:
            continue
        d = FALSE if "bool" in t else C(0) if "int" in t else C("")
        env_b[("ext", q)] = combine(flags.get(nm, []), d)
    fb, Ib, evb = w.cbin
    bins = {m: norm(subst(t, env_b)) for m, t in fb.items()
            if m not in IGNORED}
    vb = verbosity(Ib, norm, env_b)
    # --- in process
    for ev in w.ffi:
        name = ev.name.split(".")[-1]
        if name not in w.cffi:
            c.violate("known-entry", name, "unknown engine entry point",
                      ev.where)
            continue
        f, I, cev = w.cffi[name]
        fn = w.X.fn(name)
        ps = [p["n"] for p in fn.params]
        struct = next((dict(a[2]) for a in ev.args if a[0] == "obj"), {})
        env = {}
        for p, a in zip(ps, ev.args):
            if a[0] == "obj":
                for k, v in a[2]:
                    env[("attr", ("sym", p), k)] = v
            else:
                env[("sym", p)] = a
        crec = w.X.record("config")
        for fld in crec["fields"]:
            c.ob("ffi-struct-filled", f"{name}:{fld['n']}",
                 fld["n"] in struct,
                 f"member {fld['n']} of the configuration structure is left "
                 f"at zero", ev.where)
        facts = dict(ev.facts)
        for m in sorted(fb):
            if m in IGNORED:
                continue
            t = f.get(m, MISSING)
            t = subst(t, env)
            for cond, pol in facts.items():
                t = simplify_under(t, cond, pol)
            t = norm(t)
            compare(c, name, m, t, bins.get(m, MISSING), cev.where)
        vf = verbosity(I, norm, env)
        c.ob("same-verbosity", name, vf == vb and vf,
             f"debug output: {showset(vf)} in process, {showset(vb)} in the "
             f"binary", cev.where)
    c.floor("engine settings", len(bins), 14)
    c.floor("binary options", len(flags), 18)
    options(c, w)
    return c


def showset(s):
    return sorted(show(x)[:60] for x in s)


def verbosity(I, norm, env):
    out = set()
    for e in I.events:
        if e.name.endswith("emplace_back") or e.name.endswith("push_back"):
            fs = frozenset((norm(subst(t, env)), p) for t, p in e.facts)
            out.add((norm(subst(e.args[-1], env)), fs))
    return frozenset(out)


CACHED = ("cached module",)


def unify_modules(t):
    """parseIRFile(X, ...) and the cached module of X are the module of X."""
    def step(x):
        if x[0] == "call" and x[1][0] == "ext" and \
                x[1][1].endswith("parseIRFile"):
            return ("module", x[2][0])
        if x[0] == "attr" and x[2] == "pointer" and x[1][0] == "idx":
            return ("module", x[1][2])
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "loadModule":
            return ("module", x[2][0])
        return x
    return rewrite(t, step)


def compare(c, name, m, t, b, where):
    t, b = unify_modules(t), unify_modules(b)
    if m.endswith("OutFile"):
        # used only when the simplified IR is written, which the caller asks
        # for with a suffix
        x = ("op", "and", ("attr", ("sym", "args"), "output_llvm_ir"),
             ("sym", "suffix"))
        t = simplify_under(t, x, True)
        b = simplify_under(b, x, True)
        n = Norm()
        t, b = n(t), n(b)
    t, b = Norm()(t), Norm()(b)
    if m in ("First", "Second") and t[0] == "attr":
        t = ("module", t)
    c.ob("same-in-both-modes", f"{name}:{m}", t == b,
         f"setting {m} is {show(t)[:300]} in process but {show(b)[:300]} in "
         f"the binary", where)
    want = SOURCES.get(m)
    if want is None:
        c.note("unlisted " + m, show(t)[:200])
        return
    for tag, x in ((name, t), ("binary", b)):
        got = inputs(x)
        c.ob("taken-from-option", f"{tag}:{m}", got == set(want),
             f"setting {m} depends on {sorted(got)} instead of "
             f"{sorted(want)}", where)


def options(c, w):
    """Options of every command are read by it and vice versa."""
    P = w.P
    I = Interp(P)
    I.run(P.func("diffkemp.cli", "make_argument_parser"))
    # parser term -> command name, options, function
    parsers = {}
    for e in I.events:
        if e.name == ".add_parser" and e.args and e.args[0][0] == "c":
            parsers[call_of(e)] = e.args[0][2]
    opts, funcs, glob = {}, {}, set()
    for e in I.events:
        base = e.fn[1] if e.fn[0] == "attr" else None
        if e.name == ".add_argument":
            names = [a[2] for a in e.args if a[0] == "c"]
            dest = e.kwargs.get("dest")
            if dest is not None and dest[0] == "c":
                d = dest[2]
            else:
                longs = [x for x in names if x.startswith("--")]
                d = (longs or names)[0].lstrip("-").replace("-", "_")
            cmd = owner(base, parsers)
            if cmd is None:
                glob.add(d)
            else:
                opts.setdefault(cmd, {})[d] = (names, e)
        elif e.name == ".set_defaults" and "func" in e.kwargs:
            cmd = owner(base, parsers)
            f = e.kwargs["func"]
            if cmd and f[0] == "func":
                funcs[cmd] = f[1]
    if len(funcs) < 5 or len(opts) < 5:
        raise AnalysisBroken(f"commands found: {sorted(funcs)}")
    for cmd in sorted(funcs):
        reads = reads_of_args(P, funcs[cmd])
        c.analysed.add(funcs[cmd].key)
        for d in sorted(opts.get(cmd, {})):
            names, e = opts[cmd][d]
            c.ob("accepted-option-read", f"{cmd}:{d}", d in reads,
                 f"option {names} of '{cmd}' is accepted but never read",
                 e.where)
        for d in sorted(reads):
            c.ob("read-option-declared", f"{cmd}:{d}",
                 d in opts.get(cmd, {}) or d in glob or d == "func",
                 f"'{cmd}' reads option {d} which it does not declare",
                 reads[d])
    c.floor("options of all commands", sum(map(len, opts.values())), 40)


def call_of(e):
    return ("call", e.fn, e.args, tuple(sorted(e.kwargs.items())))


def owner(base, parsers):
    while isinstance(base, tuple) and base:
        if base[0] == "call" and base[1][0] == "attr":
            if base[1][2] == "add_parser" and base[2] and \
                    base[2][0][0] == "c":
                return base[2][0][2]
            if base[1][2] in ("add_mutually_exclusive_group",
                              "add_argument_group"):
                base = base[1][1]
                continue
        return None
    return None


def reads_of_args(P, fn):
    """Attributes of the parsed arguments read by fn or by functions which
    get the arguments passed."""
    out = {}
    seen = set()
    calls = Calls(P)
    todo = [(fn, fn.params()[0])]
    while todo:
        f, p = todo.pop()
        if (f.key, p) in seen:
            continue
        seen.add((f.key, p))
        alias = {p}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) \
                    and n.value.id in alias:
                alias |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and \
                    isinstance(n.value, ast.Name) and n.value.id in alias:
                out.setdefault(n.attr, f"{f.mod.rel}:{n.lineno} ({f.qual})")
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and \
                        n.func.id in ("getattr", "hasattr") and \
                        len(n.args) > 1 and isinstance(n.args[0], ast.Name) \
                        and n.args[0].id in alias and \
                        isinstance(n.args[1], ast.Constant):
                    out.setdefault(n.args[1].value,
                                   f"{f.mod.rel}:{n.lineno} ({f.qual})")
                if isinstance(n.func, ast.Name) and n.func.id == "vars":
                    out.setdefault("*", "")
                for g in calls.funcs(f, n):
                    for q, a in bind_args(g, n, is_bound(g, n)):
                        if isinstance(a, ast.Name) and a.id in alias:
                            todo.append((g, q))
    return out
