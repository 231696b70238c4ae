"""P15: the compiler wrapper is transparent and records what it compiled."""
import ast
import importlib
import itertools
import os
import posixpath
import re
from lib.report import Check, REPO
from lib.pyfront import AnalysisBroken, Program
from lib.interp import C, FALSE, HObj, Interp, NONE, State, TRUE, show

WRAPPER = "diffkemp.building.cc_wrapper"
FINDER = "diffkemp.llvm_ir.wrapper_build_finder"
CWD = "/p:q/cwd"
DB = "/db/file"
VARS = {"DIFFKEMP_WRAPPER_DB_FILENAME": DB,
        "DIFFKEMP_WRAPPER_CLANG": "CLANG",
        "DIFFKEMP_WRAPPER_CLANG_APPEND": "-A1,-A2",
        "DIFFKEMP_WRAPPER_CLANG_DROP": "-D1,-D2",
        "DIFFKEMP_WRAPPER_LLVM_LINK": "LINK"}
IR = ["-S", "-emit-llvm"]


class Shape:
    """A shape of the command line with what has to come out of it."""

    def __init__(self, argv, tool, out, db, keep, missing=()):
        self.argv = argv.split()
        self.tool = tool            # CLANG, LINK, None (nothing to do)
        self.out = out              # output of the tool
        self.db = db                # entries of the database
        self.keep = keep.split()    # arguments the tool gets, in this order
        self.missing = missing      # files which do not exist

    def __str__(self):
        return " ".join(self.argv)


def shapes():
    o = CWD + "/"
    for pre, post in itertools.product(("", "-Wx "), ("", " -D2")):
        for ext in ("o", "lo", "ko"):
            for out in ("out/x", "x.y", "/abs.d/x"):
                ll = out + ".ll"
                db = ["o:" + posixpath.join(CWD, ll)]
                k = f"{pre}-c src/a.c"
                yield Shape(f"cc {pre}-c src/a.c -o {out}.{ext}{post}",
                            "CLANG", ll, db, k)
                yield Shape(f"cc -o {out}.{ext} {pre}-c src/a.c{post}",
                            "CLANG", ll, db, k)
                yield Shape(f"cc {pre}-c src/a.c -o{out}.{ext}{post}",
                            "CLANG", ll, db, k)
        for src in ("src/a.c", "a.c", "/abs/a.c", "../a.b.c"):
            ll = posixpath.basename(src)[:-2] + ".ll"
            yield Shape(f"cc {pre}-c {src}{post}", "CLANG", None,
                        [f"o:{o}{ll}"], f"{pre}-c {src}")
        yield Shape(f"cc {pre}-c a.c src/b.c{post}", "CLANG", None,
                    [f"o:{o}a.ll", f"o:{o}b.ll"], f"{pre}-c a.c src/b.c")
        for n, f in (("-o prog", "prog.llw"), ("-oprog", "prog.llw"),
                     ("-o d/lib.so", "d/lib.so.llw")):
            yield Shape(f"cc {pre}x.o d/y.o {n}{post}", "LINK", f,
                        [f"f:{o}{f}"], "x.ll d/y.ll")
            yield Shape(f"cc {n} {pre}x.o d/y.lo{post}", "LINK", f,
                        [f"f:{o}{f}"], "d/y.ll", ("x.ll",))
            yield Shape(f"cc {pre}x.c d/y.c {n}{post}", "CLANG", f,
                        [f"o:{o}{f}"], f"{pre}x.c d/y.c")
            yield Shape(f"cc {pre}x.c d/y.o {n}{post}", "CLANG", f,
                        [f"o:{o}{f}"], f"{pre}x.c")
            yield Shape(f"cc {pre}x.c d/y.c z.o {n}{post}", "CLANG", f,
                        [f"o:{o}{f}"], f"{pre}x.c d/y.c")
            yield Shape(f"cc d/y.o {pre}x.c {n}{post}", "CLANG", f,
                        [f"o:{o}{f}"], f"{pre}x.c")
    for d in ("-MMD", "-MD -MP", "-MMD -MF x/y.d", "-MD -MT x.o -MFy.d",
              "-MD -MQ x.o", "-Wp,-MD,x/y.d", "-Wp,-MMD,y.d"):
        yield Shape(f"cc {d} -c src/a.c -o x.o", "CLANG", "x.ll",
                    [f"o:{o}x.ll"], "-c src/a.c")
        yield Shape(f"cc -c src/a.c -o x.o {d}", "CLANG", "x.ll",
                    [f"o:{o}x.ll"], "-c src/a.c")
    for d in ("-E a.c", "-E a.c -o a.i", "-o a.i -E a.c", "-M a.c",
              "-MM a.c b.c", "-MM -MF a.d a.c", "-E -c a.c"):
        yield Shape(f"cc {d}", None, None, [], "")
    yield Shape("cc -c conftest.c -o conftest.o", None, None, [], "")
    yield Shape("cc conftest.c -o conftest", None, None, [], "")


def const(t):
    if t[0] != "c":
        raise AnalysisBroken(f"value of the wrapper not known: {show(t)}")
    return t[2]


class ListInterp(Interp):
    """Interpretation where elements of lists may be replaced."""

    def setitem(self, base, key, v, st, node):
        o = self.obj(st, base)
        vals = self.unroll(base, st)
        if o is not None and o.kind == "list" and vals is not None and \
                key[0] == "c" and isinstance(key[2], int) and \
                -len(vals) <= key[2] < len(vals):
            vals[key[2]] = v
            self.mut(st, base).items = tuple(vals)
            return
        super().setitem(base, key, v, st, node)

    def compare(self, op, a, b, st):
        if op in ("In", "NotIn") and a[0] == "c":
            vals = self.unroll(b, st)
            if vals is not None and all(
                    v[0] == "c" or self.obj(st, v) is not None for v in vals):
                return C((a in vals) == (op == "In"))
        return super().compare(op, a, b, st)


class World:
    """Abstract run of the wrapper for one shape and chosen statuses."""

    def __init__(self, P, run, shape, gcc, tool, nofile=False, unset=None):
        self.P, self.shape = P, shape
        self.status = {"gcc": gcc}
        self.tool_status = tool
        self.nofile = nofile
        self.unset = unset
        self.calls, self.opened, self.text = [], [], []
        I = self.I = ListInterp(P, hooks={
            "print": lambda I, st, fn, a, k, n: NONE,
            ".endswith": self.ends, ".startswith": self.ends,
            "filter": self.filter, "any": self.quant, "all": self.quant,
            "range": self.range, "os.getcwd": lambda I, st, fn, a, k, n: C(CWD),
            "os.getpid": None, "os.environ.get": self.get,
            "os.getenv": self.get, ".get": self.get2,
            "os.path.join": self.lift(posixpath.join),
            "os.path.basename": self.lift(posixpath.basename),
            "os.path.splitext": self.split(posixpath.splitext),
            "os.path.split": self.split(posixpath.split),
            "os.path.abspath": lambda I, st, fn, a, k, n: C(
                posixpath.join(CWD, const(a[0]))),
            "os.path.exists": self.exists, "os.path.isfile": self.exists,
            "open": self.open, "io.open": self.open,
            ".write": self.write, ".writelines": self.writelines,
            ".split": self.strsplit, ".rsplit": self.strsplit,
            ".rpartition": self.partition, ".partition": self.partition,
            ".rfind": self.find, ".find": self.find, ".index": None,
        })
        I.hooks = {k: v for k, v in I.hooks.items() if v}
        for k in ("WIFEXITED", "WEXITSTATUS", "WIFSIGNALED", "WTERMSIG",
                  "waitstatus_to_exitcode"):
            I.hooks["os." + k] = self.lift(getattr(os, k))
        for f in run:
            I.hooks[f.qual] = self.run
        I.no_exceptions = True

    def ends(self, I, st, fn, a, k, n):
        if fn[1][0] == "c" and a[0][0] == "tup" and all(
                x[0] == "c" for x in a[0][1:]):
            return C(getattr(fn[1][2], fn[2])(tuple(
                x[2] for x in a[0][1:])))

    def filter(self, I, st, fn, a, k, n):
        vals = I.unroll(a[1], st)
        if vals is None:
            return None
        keep = [x if a[0] == NONE else I.call(a[0], [x], {}, st, n)
                for x in vals]
        if all(I.truth(x, st) is not None for x in keep):
            return I.new_list(st, [x for x, t in zip(vals, keep)
                                   if I.truth(t, st)])

    def quant(self, I, st, fn, a, k, n):
        vals = I.unroll(a[0], st)
        if vals is not None and all(
                I.truth(x, st) is not None for x in vals):
            return C((any if fn == ("ext", "any") else all)(
                I.truth(x, st) for x in vals))

    def range(self, I, st, fn, a, k, n):
        return I.new_list(st, [C(x) for x in range(*[const(x) for x in a])])

    def lift(self, g):
        return lambda I, st, fn, a, k, n: C(g(*[const(x) for x in a]))

    def split(self, g):
        return lambda I, st, fn, a, k, n: ("tup",) + tuple(
            C(x) for x in g(*[const(x) for x in a]))

    def get(self, I, st, fn, a, k, n):
        v = VARS.get(const(a[0]))
        if a[0][2] == self.unset:
            v = None
        return C(v) if v is not None else a[1] if len(a) > 1 else NONE

    def get2(self, I, st, fn, a, k, n):
        if fn[1] == ("ext", "os.environ"):
            return self.get(I, st, fn, a, k, n)

    def exists(self, I, st, fn, a, k, n):
        f = const(a[0])
        if f == self.shape.out and len(self.calls) < 2:
            return FALSE            # not created yet
        names = self.shape.missing + ((posixpath.join(
            CWD, self.shape.db[0].split(":", 1)[1]),) if self.nofile else ())
        return C(f not in names)

    def open(self, I, st, fn, a, k, n):
        mode = a[1] if len(a) > 1 else dict(k).get("mode", C("r"))
        self.opened.append((show(a[0]), const(mode)))
        return ("sym", "OPENED:" + const(a[0]))

    def write(self, I, st, fn, a, k, n):
        if fn[1][0] == "sym" and fn[1][1].startswith("OPENED:"):
            self.text.append(const(a[0]))
            return NONE

    def writelines(self, I, st, fn, a, k, n):
        if fn[1][0] == "sym" and fn[1][1].startswith("OPENED:"):
            self.text += self.strings(st, a[0])
            return NONE

    def strsplit(self, I, st, fn, a, k, n):
        if fn[1][0] == "c" and all(x[0] == "c" for x in a) and not k:
            return I.new_list(st, [C(x) for x in getattr(
                fn[1][2], fn[2])(*[x[2] for x in a])])

    def partition(self, I, st, fn, a, k, n):
        if fn[1][0] == "c" and a[0][0] == "c":
            return ("tup",) + tuple(C(x) for x in getattr(
                fn[1][2], fn[2])(a[0][2]))

    def find(self, I, st, fn, a, k, n):
        if fn[1][0] == "c" and a[0][0] == "c":
            return C(getattr(fn[1][2], fn[2])(a[0][2]))

    def strings(self, st, t):
        v = self.I.unroll(t, st)
        if v is None:
            raise AnalysisBroken("list of the wrapper not known: "
                                 + show(self.I.freeze(st, t)))
        return [const(x) for x in v]

    def run(self, I, st, fn, a, k, n):
        """A program is run and ends by the chosen status."""
        f = fn[1]
        args = dict(zip([x.arg for x in f.node.args.args], a))
        args.update(k)
        argv = prog = None
        for x in args.values():
            if I.unroll(x, st) is not None and x[0] != "c":
                argv = self.strings(st, x)
            elif x[0] == "c":
                prog = x[2]
        if argv is None:
            raise AnalysisBroken(f"{f.qual}: arguments of the program not "
                                 "known")
        prog = prog if prog is not None else argv[0]
        self.calls.append((prog, argv))
        s = self.status.get(prog, self.tool_status)
        sub = ListInterp(self.P, hooks=dict(I.hooks))
        for g in list(sub.hooks):
            if g == f.qual:
                del sub.hooks[g]
        sub.hooks["os.fork"] = lambda I, st, fn, a, k, n: C(1)
        sub.hooks["os.waitpid"] = lambda I, st, fn, a, k, n: ("tup", C(1),
                                                               C(s))
        sub.no_exceptions = True
        st2 = st.copy()
        v = sub.call_func(f, list(a), dict(k), st2, n)
        if st2.dead:
            exc = sub.raises[-1][-1][0]
            I.raises[-1].append((exc, st.copy()))
            st.dead = True
            return NONE
        return v

    def result(self, f):
        st = State()
        argv = self.I.new_list(st, [C(x) for x in self.shape.argv])
        v = self.I.call_func(f, [argv], {}, st, None)
        if st.dead:
            return None
        return v


def runners(P):
    """Functions running a program and waiting for its end."""
    m = P.modules[WRAPPER]
    out = []
    for f in m.funcs.values():
        names = {ast.unparse(c.func) for c in ast.walk(f.node)
                 if isinstance(c, ast.Call)}
        if names & {"os.waitpid", "os.wait"}:
            out.append(f)
    if not out:
        raise AnalysisBroken("the function running programs was not found")
    return out


def main_call(P):
    """(entry, statement) of the script."""
    m = P.modules[WRAPPER]
    for s in m.tree.body:
        if isinstance(s, ast.If) and "__main__" in ast.unparse(s.test):
            for c in ast.walk(s):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) \
                        and c.func.id in m.funcs:
                    return m.funcs[c.func.id], s
    raise AnalysisBroken("the entry of the wrapper was not found")


def check(ck, P, f, run, s):
    for gcc, tool in ((256, 0), (0, 0), (0, 256), (9, 0)):
        w = World(P, run, s, gcc, tool)
        v = w.result(f)
        ck.analysed |= w.I.analysed
        what = f"{s} ({'gcc fails' if gcc else 'clang fails' if tool else 'ok'})"

        def ob(rule, ok, msg):
            ck.ob(rule, what, ok, f"{f.qual}: {what}: {msg}", f.where)
        ob("first", w.calls and w.calls[0] == ("gcc", ["gcc"] + s.argv[1:]),
           "the original command is not run first with the arguments given: "
           f"{w.calls[:1]}")
        ob("once", sum(c[0] == "gcc" for c in w.calls) == 1,
           "the original command is not run once")
        if gcc:
            ob("failure", v is not None and v[0] == "c" and v[2] not in (
                0, None, False), "failure of the original command is not "
                f"passed on: {show(v) if v is not None else 'exception'}")
            ob("after", len(w.calls) == 1 and not w.text, "something is done "
               "or recorded after the original command failed")
            continue
        ob("success", v in (C(0), C(False), NONE), "success of the original "
           f"command ends by {show(v) if v is not None else 'exception'}")
        rest = w.calls[1:]
        if s.tool is None:
            ob("nothing", not rest and not w.text, "a command which does not "
               "compile or a test of the configure script is compiled or "
               f"recorded: {rest} {w.text}")
            continue
        ob("tool", [c[0] for c in rest] == [s.tool] and
           rest[0][1][:1] == [s.tool], f"{s.tool} is not run once: {rest}")
        if len(rest) != 1:
            continue
        a = rest[0][1][1:]
        outs = [y for x, y in zip(a, a[1:]) if x == "-o"] + [
            x[2:] for x in a if x.startswith("-o") and len(x) > 2]
        ob("output", outs == ([s.out] if s.out else []),
           f"IR goes to {outs}, expected {s.out}")
        left, skip = [], False
        for x in a:
            if not skip and not x.startswith("-o"):
                left.append(x)
            skip = x == "-o"
        add = ["-A1", "-A2"] if s.tool == "CLANG" else []
        kept = [x for x in left if x in s.keep]
        ob("kept", kept == s.keep, f"{s.tool} gets {kept}, expected {s.keep}")
        ob("append", [x for x in left if x.startswith("-A")] == add,
           f"options to add for clang: {left}")
        ob("drop", not any(x.startswith("-D") for x in left),
           f"an option to drop is passed to {s.tool}: {left}")
        extra = [x for x in left if x not in s.keep and x not in add and
                 x not in ("-S", "-emit-llvm", "-g", "-c")]
        ob("extra", not extra, f"{s.tool} gets also {extra}")
        ob("IR", all(x in left for x in (IR if s.tool == "CLANG" else
                                         ["-S"])),
           f"{s.tool} is not asked for readable IR: {left}")
        lines = "".join(w.text)
        want = "" if tool else "".join(x + "\n" for x in s.db)
        ob("record", lines == want, f"recorded {lines!r}, expected {want!r}")
        ob("database", all(o == (show(C(DB)), "a") for o in w.opened),
           f"records of other files are lost or written elsewhere: {w.opened}")
        if not tool:
            w = World(P, run, s, 0, 0, nofile=True)
            w.result(f)
            want = "".join(x + "\n" for x in s.db[1:])
            ob("exists", "".join(w.text) == want, "a file which was not "
               f"created is recorded: {w.text}")


def program(ck, P, f, run, main):
    """The rest of the way from the command to its exit status."""
    m = P.modules[WRAPPER]
    # the exit status
    passed = False
    for c in ast.walk(main):
        if isinstance(c, ast.Call) and ast.unparse(c.func) in (
                "sys.exit", "exit", "os._exit", "quit") and c.args or \
                isinstance(c, ast.Raise) and isinstance(c.exc, ast.Call) and \
                ast.unparse(c.exc.func) == "SystemExit" and c.exc.args:
            a = (c.exc if isinstance(c, ast.Raise) else c).args[0]
            used = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
            if f.name in used:
                passed = True
            for s in ast.walk(main):
                if isinstance(s, ast.Assign) and f.name in {
                        x.id for x in ast.walk(s.value)
                        if isinstance(x, ast.Name)} and used & {
                            t.id for t in s.targets
                            if isinstance(t, ast.Name)}:
                    passed = True
    ck.ob("status", "exit of the script", passed, f"{WRAPPER}: the script "
          "does not end by the status of the wrapper: a failed compilation "
          "is success for the build system", f"{m.path}:{main.lineno}")
    # missing settings end the build
    s = Shape("cc -c a.c -o a.o", "CLANG", "a.ll", [f"o:{CWD}/a.ll"], "")
    for k in VARS:
        w = World(P, run, s, 0, 0, unset=k)
        v = w.result(f)
        ck.ob("settings", k, not w.text, f"{f.qual}: without {k} records "
              f"are written: {w.text}", f.where)
    # the program started is the one given
    for r in run:
        w = World(P, [], s, 0, 0)
        I = w.I
        for k in [k for k in I.hooks if k.startswith("os.path.")]:
            del I.hooks[k]
        st = State()
        got = []

        def execv(I, st, fn, a, k, n):
            got.append(tuple(I.freeze(st, x) for x in a))
            return None
        I.hooks["os.fork"] = lambda I, st, fn, a, k, n: C(0)
        for k in ("os.execv", "os.execvp", "os.execve", "os.execvpe"):
            I.hooks[k] = execv
        I.hooks["os.waitpid"] = lambda I, st, fn, a, k, n: (
            "tup", C(1), C(0))
        ps = [x.arg for x in r.node.args.args]
        if len(ps) != 2:
            raise AnalysisBroken(f"{r.qual}: parameters not understood")
        args = I.new_list(st, [C("/bin/prog"), C("-x"), C("y")])
        I.call_func(r, [C("/bin/prog"), args], {}, st, None)
        ck.ob("started", r.qual, got and any(
            x[0] == C("/bin/prog") for x in got) and all(
                "/bin/prog" in show(x[0]) and
                show(x[1]) == show(I.freeze(st, args)) for x in got),
              f"{r.qual}: other program or arguments are started: "
              f"{[[show(y) for y in x] for x in got]}", r.where)


def reader(ck, P):
    """Reading of the database."""
    c = P.cls(FINDER, "WrapperBuildFinder")
    lines = ["o:/a/x.ll\n", "f:/a/prog.llw\n", "o:/b:c/y.ll\n",
             "o:/d/f:o:z.ll\n",
             "f:/d/o:p.llw\n", "o:/e/v.llw\n"]
    want = [x[2:-1] for x in lines if x[0] == "o"]
    got = []

    def fns(I, st, fn, a, k, n):
        v = I.unroll(a[0], st)
        got.append([const(x) for x in v] if v is not None else None)
        return ("sym", "functions")

    def opened(I, st, fn, a, k, n):
        f = I.freeze(st, a[0])
        if "DBFILE" in show(f):
            return I.new_list(st, [C(x) for x in lines])
        return ("sym", "other file")

    def readlines(I, st, fn, a, k, n):
        if fn[1][0] == "ref":
            return fn[1]

    def read(I, st, fn, a, k, n):
        if fn[1][0] == "ref":
            return C("".join(lines))
    w = World(P, [], None, 0, 0)
    I = w.I
    for k in [k for k in I.hooks if k.startswith("os.path.")]:
        del I.hooks[k]
    I.hooks.update({"open": opened, ".readlines": readlines, ".read": read,
                    ".write": lambda I, st, fn, a, k, n: NONE})
    util = P.modules["diffkemp.utils"].funcs["get_functions_from_llvm"]
    I.hooks[util.qual] = fns
    st = State()
    I.construct(c, [("sym", "dir"), ("sym", "DBFILE")], {}, st, None)
    ck.analysed |= I.analysed
    where = c.methods["__init__"].where
    if not got or got[0] is None:
        raise AnalysisBroken("reading of the database not understood")
    ck.ob("read", "database", got[0] == want, f"{FINDER}: the database "
          f"{lines} is read as {got[0]}, expected {want}", where)


def definitions(ck, P):
    """Functions are found in the files which exist."""
    f = P.modules["diffkemp.utils"].funcs["get_functions_from_llvm"]
    text = {"/a.ll": "declare i32 @d(i32)\n\n"
            "define dso_local i32 @f(i32 noundef %0) #0 {\n"
            "  %2 = call i32 @d(i32 %0)\n  ret i32 %2\n}\n",
            "/b:c.ll": "@v = global i32 0\ndefine internal void @h() {\n"
            "  ret void\n}\ndefine ptr @i(ptr %0, ptr @v) {\n}\n"}
    want = {"f": "/a.ll", "h": "/b:c.ll", "i": "/b:c.ll"}
    for gone in (None, "/a.ll", "/b:c.ll"):
        for order in itertools.permutations(["/a.ll", "/b:c.ll", "/n.ll"]):
            def read(I, st, fn, a, k, n):
                if fn[1][0] == "sym" and fn[1][1].startswith("OPENED:"):
                    return C(text[fn[1][1][7:]])

            def find(I, st, fn, a, k, n):
                r = fn[1]
                if fn[0] == "ext":
                    pat, a = a[0], a[1:]
                elif r[0] == "call" and r[1] == ("ext", "re.compile"):
                    pat = r[2][0]
                else:
                    return None
                rx = re.compile(const(pat), re.M)
                return I.new_list(st, [C(x) for x in
                                       rx.findall(const(a[0]))])

            def splitlines(I, st, fn, a, k, n):
                if fn[1][0] == "c":
                    return I.new_list(st, [C(x) for x in
                                           fn[1][2].splitlines()])
            w = World(P, [], None, 0, 0)
            I = w.I
            I.hooks["os.path.exists"] = I.hooks["os.path.isfile"] = \
                lambda I, st, fn, a, k, n: C(
                    const(a[0]) in text and const(a[0]) != gone)
            I.hooks.update({".read": read, ".findall": find,
                            "re.findall": find, ".splitlines": splitlines})
            st = State()
            files = I.new_list(st, [C(x) for x in order])
            v = I.call_func(f, [files], {}, st, None)
            o = I.obj(st, v) if v is not None else None
            got = {const(k): const(x) for k, x in o.d.items()} if \
                o is not None and not st.dead else None
            ok = {k: x for k, x in want.items() if x != gone}
            ck.ob("functions", f"{order}, without {gone}", got == ok,
                  f"{f.qual}: functions of files {order} without {gone} are "
                  f"{got}, expected {ok}", f.where)


def names(ck, P):
    """Names taken from modules of the standard library exist there."""
    for q in (WRAPPER, FINDER, "diffkemp.utils", "diffkemp.diffkemp"):
        m = P.modules[q]
        mods = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for x in s.names:
                    if x.name in ("os", "sys", "shutil", "re", "errno",
                                  "subprocess", "tempfile"):
                        mods[x.asname or x.name] = x.name
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Attribute) and isinstance(
                    c.value, ast.Name) and c.value.id in mods:
                lib = mods[c.value.id]
                ck.ob("library", f"{q}: {lib}.{c.attr}", hasattr(
                    importlib.import_module(lib), c.attr),
                    f"{q}: {lib}.{c.attr} does not exist",
                    f"{m.path}:{c.lineno}")


def project(ck, P):
    """The build gives the wrapper its settings and reads its records."""
    f = P.modules["diffkemp.diffkemp"].funcs["build_c_project"]
    opaque = {"get_cc_wrapper_path", "read_symbol_list",
              "generate_from_function_list", "WrapperBuildFinder",
              "SourceTree", "Snapshot", "Snapshot.create_from_source"}
    lst = [C("-O0"), C("-w")]
    for app, drop, bf, tgt in itertools.product((0, 1), repeat=4):
        I = ListInterp(P, hooks={"print": lambda *a: NONE}, opaque=opaque)
        I.no_exceptions = True
        st = State()
        d = {k: ("sym", "args." + k) for k in (
            "source_dir", "output_dir", "no_native_cc_wrapper", "clang",
            "llvm_link", "llvm_dis", "build_program", "symbol_list")}
        d["reconfigure"] = FALSE
        d["clang_append"] = I.new_list(st, lst) if app else NONE
        d["clang_drop"] = I.new_list(st, lst[::-1]) if drop else NONE
        d["build_file"] = C("BF") if bf else NONE
        d["target"] = I.new_list(st, [C("t1"), C("t2")]) if tgt else NONE
        args = I.alloc(st, HObj("inst", d=dict(d)))
        I.call_func(f, [args], {}, st, None)
        ck.analysed |= I.analysed
        what = f"add {app}, drop {drop}, file {bf}, target {tgt}"

        def ob(rule, ok, msg):
            ck.ob("build " + rule, what, ok,
                  f"{f.qual}: ({what}) {msg}", f.where)
        runs, db, copies = [], [], []
        for i, e in enumerate(I.events):
            if e.name in ("subprocess.check_call", "subprocess.run",
                          "subprocess.call", "subprocess.check_output"):
                runs.append((i, e))
            if e.name == "WrapperBuildFinder":
                db.append((i, show(e.args[1])))
            if e.name in ("shutil.copyfile", "shutil.copy", "shutil.copy2"):
                copies.append([show(x) for x in e.args])
        runs = [(i, e, [show(x) for x in e.args[0][1:]]
                 if e.args[0][0] in ("tup", "list") else None)
                for i, e in runs]
        runs = [(i, e, a or flat(e.args[0])) for i, e, a in runs]
        builds = [r for r in runs if "'clean'" not in r[2]]
        ob("run", len(builds) == 1 and builds[0][2][:1] == [
            "args.build_program"], "the build program is not run once: "
            f"{[r[2] for r in builds]}")
        if len(builds) != 1 or len(db) != 1:
            ob("read", len(db) == 1, "records are not read once")
            continue
        i, e, a = builds[0]
        ob("order", i < db[0][0], "records are read before the build")
        for k, v in (("-C", "args.source_dir"), ("-f", "'BF'")):
            k = f"'{k}'"
            want = [v] if k == "'-C'" or bf else []
            ob(k, [y for x, y in zip(a, a[1:]) if x == k] == want,
               f"{k} of the build program: {a}")
        ob("compiler", any(x.startswith("fmt('CC=") and
                           "get_cc_wrapper_path" in x for x in a),
           f"the wrapper is not the compiler of the build: {a}")
        ob("target", [x for x in a if x in ("'t1'", "'t2'")] == (
            ["'t1'", "'t2'"] if tgt else []), f"other targets: {a}")
        env = show(dict(e.kwargs).get("env", NONE))
        for k, v in (("DB_FILENAME", db[0][1]), ("CLANG", "args.clang"),
                     ("CLANG_APPEND", "'-O0,-w'" if app else "''"),
                     ("CLANG_DROP", "'-w,-O0'" if drop else "''"),
                     ("LLVM_LINK", "args.llvm_link")):
            ob(k, f"kv('DIFFKEMP_WRAPPER_{k}', {v})" in env,
               f"the wrapper does not get {v} as {k}: {env}")
        ob("kept", any(c[0] == db[0][1] and "args.output_dir" in c[1] and
                       "diffkemp-wdb" in c[1] for c in copies),
           "the records are not kept in the snapshot")


def flat(t):
    """Texts of the elements of a frozen list."""
    return [show(x) for x in t[1:]] if len(t) > 1 else []


def run():
    ck = Check("P15", "The compiler wrapper is interpreted abstractly for "
               "every shape of the command (compilation and linking, each "
               "form and place of the output, options to add and to drop, "
               "several and missing inputs) and every end of the programs it "
               "runs; the programs, their arguments, the status and the "
               "records have to be the expected ones. The way from the "
               "status to the build system and from the records to the list "
               "of files is followed.")
    P = Program(REPO)
    f, main = main_call(P)
    rs = runners(P)
    for s in shapes():
        check(ck, P, f, rs, s)
    program(ck, P, f, rs, main)
    reader(ck, P)
    definitions(ck, P)
    names(ck, P)
    project(ck, P)
    ck.floor("shapes of commands", len(ck.obligations), 500)
    return ck
