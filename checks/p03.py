"""P03: a snapshot describes what was put into it, and is read back so."""
import ast
from lib.report import Check, REPO
from lib.pyfront import Program, AnalysisBroken
from lib.pycall import Calls
from lib.interp import (Interp, State, HObj, C, NONE, TRUE, FALSE, ITE, NOT,
                        show, subterms, MISSING)
from lib.terms import rewrite, simplify_under

OPAQUE = {"SourceTree", "KernelSourceTree", "WrapperBuildFinder",
          "KernelLlvmSourceBuilder", "LlvmModule"}
SNAP = "diffkemp.snapshot"


def thaw(I, st, t):
    """Frozen data back to the heap: what the YAML library does."""
    if t[0] in ("list", "tup"):
        return I.new_list(st, tuple(thaw_item(I, st, x) for x in t[1:]))
    if t[0] == "dict":
        o = HObj("dict")
        for x in t[1:]:
            if x[0] == "kv" and x[1][0] == "c":
                o.d[x[1]] = thaw(I, st, x[2])
            else:
                o.extra += (x,)
        return I.alloc(st, o)
    if t[0] == "ite":
        return ITE(t[1], thaw(I, st, t[2]), thaw(I, st, t[3]))
    return t


def thaw_item(I, st, x):
    if x[0] == "?star":
        return ("?star", x[1], tuple(thaw_item(I, st, y) for y in x[2]))
    if x[0] == "?cond":
        return ("?cond", x[1], tuple(thaw_item(I, st, y) for y in x[2]),
                tuple(thaw_item(I, st, y) for y in x[3]))
    return thaw(I, st, x)


def make_self(P, I, st, groups, kind):
    """A snapshot holding the given groups, each with any functions."""
    cls = P.cls(SNAP, "Snapshot")
    gcls = cls.inner["FunctionGroup"]
    fg = HObj("dict")
    for key, fsym in groups:
        g = HObj("inst", cls=gcls)
        g.d["functions"] = ("sym", fsym) if fsym else \
            I.alloc(st, HObj("dict"))
        fg.d[key] = I.alloc(st, g)
    o = HObj("inst", cls=cls)
    o.d.update(source_tree=("sym", "stree"), snapshot_tree=("sym", "ptree"),
               list_kind=C(kind), fun_groups=I.alloc(st, fg),
               created_time=NONE, llvm_version=NONE,
               store_source_dir=("sym", "store"))
    return I.alloc(st, o)


def events(I, *names):
    return [e for e in I.events
            if e.name in names or e.name.split(".")[-1] in names]


def run():
    ck = Check("P03", "The writer of the snapshot description is interpreted "
               "symbolically on snapshots of each shape (one unnamed group; "
               "one and several named groups; any functions in each); the "
               "reader is interpreted on exactly the data written. Every "
               "function must come back with its own name, module, variable, "
               "tag and group, and the remaining fields with their own "
               "values. The set of source finders that the reader rebuilds "
               "and the files it needs are matched with what the build "
               "commands write.")
    P = Program(REPO)
    ck.assumptions += [
        "yaml.dump followed by yaml.load is the identity on lists, "
        "dictionaries, strings, None and dates",
        "os.path.join(os.path.relpath(D), os.path.relpath(F, D)) names F"]
    SHAPES = [("function", [(NONE, "F")]),
              ("sysctl", [(C("s1"), "F1")]),
              ("sysctl", [(C("s1"), "F1"), (C("s2"), "F2")])]
    writer = P.func(SNAP, "Snapshot.to_yaml")
    reader = P.func(SNAP, "Snapshot._from_yaml")
    if writer is None or reader is None:
        raise AnalysisBroken("snapshot writer or reader not found")
    ck.analysed |= {writer.key, reader.key}
    for kind, groups in SHAPES:
        tag = f"{kind}/{len(groups)}"
        I = Interp(P, opaque=OPAQUE)
        st = State()
        me = make_self(P, I, st, groups, kind)
        I.run(writer, [me], {}, st)
        d = [e for e in events(I, "dump", "safe_dump")]
        if len(d) != 1:
            raise AnalysisBroken("the writer does not dump one document")
        doc = d[0].args[0]
        top = doc[1] if doc[0] == "list" and len(doc) == 2 else None
        if top is None or top[0] != "dict":
            raise AnalysisBroken("snapshot document is not understood")
        for stored in (True, False):
            t = simplify_under(doc, ("sym", "store"), stored)

            def load(J, s, fn, args, kw, n, t=t):
                return thaw(J, s, t)
            J = Interp(P, opaque=OPAQUE | {"Snapshot.add_fun"},
                       hooks={"yaml.load": load, "yaml.safe_load": load})
            s = State()
            J.run(reader, [("sym", "new"), ("sym", "text")], {}, s)
            check_read(ck, J, tag, groups, kind, top, stored)
    check_finders(ck, P)
    check_files(ck, P)
    check_add(ck, P)
    return ck


def drop_trees(t):
    """Every tree the reader may install has the snapshot directory."""
    def step(x):
        if x[0] == "ite" and x[2] == x[3]:
            return x[2]
        if x[0] == "attr" and x[2] == "source_dir":
            b = x[1]
            r = root_of(b)
            if r is not None:
                return r
        return x
    return rewrite(t, step)


SNAPDIR = ("attr", ("attr", ("sym", "new"), "snapshot_tree"), "source_dir")


def root_of(b):
    """Directory of a tree object, if it is the snapshot directory."""
    if b[0] == "ite":
        x, y = root_of(b[2]), root_of(b[3])
        return x if x == y else None
    if b == SNAPDIR[1]:
        return ("sym", "ROOT")
    if b[0] == "call" and b[1][0] == "class":
        a = b[2][0] if b[2] else dict(b[3]).get("source_dir")
        if a is not None and drop_trees(a) in (SNAPDIR, ("sym", "ROOT")):
            return ("sym", "ROOT")
    return None


def check_read(ck, J, tag, groups, kind, top, stored):
    adds = events(J, "add_fun")
    per = {}
    P = J.prog
    addf = P.func(SNAP, "Snapshot.add_fun")
    for e in adds:
        names = addf.params()[1:]
        vals = dict(zip(names, e.args))
        vals.update(e.kwargs)
        src = None
        for y in subterms(vals.get("name", NONE)):
            if y[0] == "sym" and y[1].startswith("F"):
                src = y[1]
        per.setdefault(src, []).append((e, vals))
    for key, fsym in groups:
        got = per.get(fsym, [])
        c = f"{tag}:{fsym}"
        if not ck.ob("every-function-read-back", c, len(got) >= 1,
                     "functions of this group are written but not read"):
            continue
        for e, v in got:
            nm = v["name"]
            base = nm[1] if nm[0] == "idx" and nm[2] == C(0) else None
            ck.ob("name", c, base is not None,
                  f"name restored as {show(nm)[:200]}", e.where)
            if base is None:
                continue
            desc = ("idx", base, C(1))
            for fld, attr in (("glob_var", "glob_var"), ("tag", "tag")):
                t = v.get(fld, NONE)
                ck.ob(fld, c, t == ("attr", desc, attr),
                      f"{fld} restored as {show(t)[:200]}", e.where)
            g = v.get("group", NONE)
            ck.ob("group", c, g == key,
                  f"group restored as {show(g)[:200]}, written as "
                  f"{show(key)}", e.where)
            check_module(ck, c, v.get("llvm_mod", NONE), desc, e)
            extra = [f for f, p in facts_of(e) if mentions(f, base)
                     and f[0] != "inloop"]
            ck.ob("unconditional", c, not extra,
                  "a function is only read back under a condition: "
                  + "; ".join(show(x)[:120] for x in extra), e.where)
    ck.ob("only-written-functions-read", tag,
          set(per) <= {f for _, f in groups},
          f"functions read from {sorted(map(str, per))}")
    want = {"llvm_version": None, "created_time": None, "list_kind": C(kind)}
    for x in top[1:]:
        if x[0] == "kv" and x[1][0] == "c" and x[1][2] in want:
            want[x[1][2]] = x[2]
    for fld, w in want.items():
        sets = [e for e in J.events if e.name == "@setattr." + fld]
        if not ck.ob("field-restored", f"{tag}:{fld}", len(sets) >= 1,
                     "never assigned by the reader"):
            continue
        val = sets[-1].args[1]
        ok = val == w or (w is not None and any(y == w
                                                for y in subterms(val)))
        ck.ob("field-value", f"{tag}:{fld}", ok and w is not None,
              f"restored as {show(val)[:200]}, written as "
              f"{show(w)[:120] if w else 'nothing'}", sets[-1].where)
    # the source tree
    sets = [e for e in J.events if e.name == "@setattr.source_tree"]
    if stored:
        ok = bool(sets) and any(
            y == ("attr", ("sym", "stree"), "source_dir")
            for y in subterms(sets[-1].args[1]))
        ck.ob("source-dir-restored", tag, ok, "the source directory stored "
              "in the snapshot is not the one used")
    else:
        live = [e for e in sets if not dead(e)]
        ck.ob("no-source-dir", tag, not live, "a source tree is set although "
              "no source directory was stored")


def dead(e):
    return any(t[0] == "c" and bool(t[2]) != p for t, p in facts_of(e))


def facts_of(e):
    out = []
    for f in e.facts:
        if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], bool):
            out.append(f)
        else:
            out.append((f, True))
    return out


def mentions(t, x):
    return any(y == x for y in subterms(t))


def check_module(ck, c, m, desc, e):
    """LlvmModule(path of the stored module) iff a module was there."""
    mod = ("attr", desc, "mod")
    has = simp(m, mod, True)
    no = simp(m, mod, False)
    ck.ob("no-module", c, no == NONE, "a function without a module gets "
          f"{show(no)[:160]}", e.where)
    joins = [y for y in subterms(has) if is_call(y, "os.path.join")]
    llvm = ("attr", mod, "llvm")
    good = False
    for j in joins:
        a = call_args(j)
        if len(a) != 2:
            continue
        d, f = drop_trees(a[0]), a[1]
        if is_call(f, "os.path.relpath"):
            fa = call_args(f)
            root_w = fa[1] if len(fa) > 1 else None
            if fa[0] == llvm and root_w == ("attr", ("sym", "ptree"),
                                            "source_dir"):
                dd = call_args(d)[0] if is_call(d, "os.path.relpath") or \
                    is_call(d, "os.path.abspath") else d
                if dd in (("sym", "ROOT"), ("attr", (
                        "attr", ("sym", "new"), "snapshot_tree"),
                        "source_dir")):
                    good = True
    ck.ob("module-path", c, good, "the module of a function is not read from "
          f"the file it was stored in: {show(has)[:300]}", e.where)


def simp(t, cond, pol):
    for _ in range(4):
        t2 = simplify_under(t, cond, pol)

        def step(x):
            if x[0] == "ite":
                if x[1][0] == "c":
                    return x[2] if x[1][2] else x[3]
                if is_call(x[1], "os.path.relpath"):
                    return x[2]      # a path is a non-empty string
            return x
        t2 = rewrite(t2, step)
        if t2 == t:
            return t
        t = t2
    return t


def is_call(t, name):
    return len(t) == 4 and t[0] == "call" and t[1] == ("ext", name)


def call_args(t):
    return t[2]


def returns_const(P, c, meth):
    f = P.find_method(c, meth)
    if f is None:
        return None
    v, _ = Interp(P).run(f, [("sym", "self")] +
                         [("sym", p) for p in f.params()[1:]], {}, State())
    return v


def check_finders(ck, P):
    """The finders rebuilt on loading are those that wrote the snapshot."""
    J = Interp(P, opaque=OPAQUE | {"Snapshot.add_fun"})
    doc = ("sym", "doc")
    J.hooks["yaml.load"] = lambda I, st, fn, a, k, n: I.new_list(st, (doc,))
    J.hooks["yaml.safe_load"] = J.hooks["yaml.load"]
    f = P.func(SNAP, "Snapshot._from_yaml")
    J.run(f, [("sym", "new"), ("sym", "text")], {}, State())
    kindt = ("idx", ("idx", doc, C("llvm_source_finder")), C("kind"))
    rebuilt = {}
    finder = P.cls("diffkemp.llvm_ir.llvm_source_finder", "LlvmSourceFinder")
    subs = P.subclasses(finder)
    short = {c.name: c for c in subs}
    for e in J.events:
        if e.name in short:
            lits = [t[3] if t[2] == kindt else t[2] for t, p in facts_of(e)
                    if p and t[0] == "op" and t[1] == "==" and kindt in t]
            for l in lits:
                if l[0] == "c":
                    rebuilt[l[2]] = (short[e.name], e)
    for lit, (c, e) in sorted(rebuilt.items()):
        v = returns_const(P, c, "str")
        ck.ob("finder-kind", f"{lit}", v == C(lit),
              f"a snapshot of kind '{lit}' gets finder {c.name}, which "
              f"writes itself as {show(v) if v else '?'}", e.where)
    # finders whose answer depends on the symbol must be rebuilt
    for c in subs:
        g = P.find_method(c, "find_llvm_with_symbol_def")
        if g is None or g.is_abstract:
            continue
        sym = ("sym", "symbol")
        I = Interp(P)
        v, _ = I.run(g, [("sym", "self"), sym], {}, State())
        dep = v is not None and any(y == sym for y in subterms(v))
        if not dep:
            dep = any(y == sym for e in I.events for a in e.args
                      for y in subterms(a))
        if dep:
            k = returns_const(P, c, "str")
            ok = k is not None and k[0] == "c" and k[2] in rebuilt and \
                rebuilt[k[2]][0] is c
            ck.ob("finder-rebuilt", c.name, ok, "a snapshot built with this "
                  "finder is loaded without it, so later look-ups find "
                  "nothing", g.where)
    ck.floor("finder kinds rebuilt by the reader", len(rebuilt), 2)
    # every function list entry of the finder must come with its database
    check_wdb(ck, P, rebuilt)


def check_wdb(ck, P, rebuilt):
    w = [(c, e) for c, e in rebuilt.values() if c.name ==
         "WrapperBuildFinder"]
    if not w:
        return
    c, e = w[0]
    init = P.find_method(c, "__init__")
    vals = dict(zip(init.params()[1:], e.args))
    vals.update(e.kwargs)
    dbt = vals.get("wrapper_db_filename", NONE)
    name = None
    if is_call(dbt, "os.path.join"):
        a = call_args(dbt)
        if drop_trees(a[0]) in (SNAPDIR, ("sym", "ROOT")) and \
                a[-1][0] == "c":
            name = a[-1][2]
    b = P.func("diffkemp.diffkemp", "build_c_project")
    ck.analysed.add(b.key)
    I = Interp(P, opaque=OPAQUE | {"Snapshot"})
    I.run(b, [("sym", "args")], {}, State())
    outs, src = [], None
    for x in I.events:
        if x.name == "WrapperBuildFinder":
            src = x.args[1] if len(x.args) > 1 else \
                dict(x.kwargs).get("wrapper_db_filename")
        if x.name in ("shutil.copyfile", "shutil.copy", "shutil.move",
                      "shutil.copy2") and src is not None and \
                x.args[0] == src:
            outs.append(x)
    good = [x for x in outs if x.args[1] ==
            ("call", ("ext", "os.path.join"),
             (("attr", ("sym", "args"), "output_dir"), C(name)), ())
            and not [f for f in facts_of(x)
                     if f[0][0] not in ("noraise", "inloop")
                     and relevant(f[0])]]
    ck.ob("database-stored", "build_c_project", name is not None and good,
          "the reader opens the symbol database "
          f"{name!r} in the snapshot, which the build does not store there: "
          + "; ".join(show(x.args[1]) for x in outs), b.where)


def relevant(f):
    return any(y in (("sym", "output_dir"),) for y in subterms(f))


def check_files(ck, P):
    """Files of all functions are copied before the description is made."""
    g = P.func(SNAP, "Snapshot.generate_snapshot_dir")
    ck.analysed.add(g.key)
    I = Interp(P, opaque={"Snapshot.to_yaml", "Snapshot.modules"})
    I.run(g, [("sym", "self")], {}, State())
    ev = [(i, e) for i, e in enumerate(I.events)]
    cp = [i for i, e in ev if e.name.endswith("copy_source_files")]
    ty = [i for i, e in ev if e.name.endswith("to_yaml")]
    ck.ob("copied-before-described", "generate_snapshot_dir",
          bool(cp) and bool(ty) and max(cp) < min(ty),
          "the snapshot description is created from module paths that were "
          "not moved into the snapshot yet", g.where)
    me = ("sym", "self")
    mods = None
    for i in cp:
        e = I.events[i]
        ck.ob("all-modules-copied", "generate_snapshot_dir",
              not e.facts and e.fn[0] == "attr" and
              e.fn[1] == ("attr", me, "source_tree") and
              any(is_modules(y) for y in subterms(e.args[0])) and
              e.args[1] == ("attr", me, "snapshot_tree"),
              f"copies {[show(a) for a in e.args]}", e.where)
    w = [e for i, e in ev if e.name.split(".")[-1] == "open"]
    wn = [e for e in w if len(e.args) > 1 and e.args[1][0] == "c"
          and "w" in e.args[1][2]]
    l = P.func(SNAP, "Snapshot.load_from_dir")
    K = Interp(P, opaque=OPAQUE | {"Snapshot._from_yaml", "SourceTree"})
    K.call_func(l, [("class", P.cls(SNAP, "Snapshot")), ("sym", "dir")], {},
                State(), None)
    rn = [e for e in K.events if e.name.split(".")[-1] == "open"]
    def last(e):
        t = e.args[0]
        return call_args(t)[-1] if is_call(t, "os.path.join") else t
    ck.ob("same-file", "snapshot.yaml", bool(wn) and bool(rn) and
          last(wn[0]) == last(rn[0]),
          "the description is written to and read from different files",
          g.where)
    # all modules of all functions
    m = P.func(SNAP, "Snapshot.modules")
    I = Interp(P)
    st = State()
    o = make_self(P, I, st, [(NONE, "F"), (C("s"), "G")], "function")
    v, st = I.run(m, [o], {}, st)
    fr = I.freeze(st, v)
    for s in ("F", "G"):
        elems = [y for y in subterms(fr) if y[0] == "attr" and y[2] == "mod"
                 and any(z == ("sym", s) for z in subterms(y))]
        ck.ob("modules-of-group", s, bool(elems), "modules of some function "
              "groups are not put into the snapshot", m.where)
        conds = [c for y in subterms(fr) if y[0] in ("?cond", "ite")
                 for c in subterms(y[1]) if c[0] == "attr" and
                 c[2] != "mod" and any(z == e[1] for e in elems
                                       for z in subterms(c))]
        ck.ob("modules-unfiltered", s, not conds, "whether a module is put "
              "into the snapshot depends on " +
              ", ".join(show(c) for c in conds), m.where)
    # copying is unconditional for each module, and stays inside
    c = P.func("diffkemp.llvm_ir.source_tree", "SourceTree.copy_source_files")
    I = Interp(P)
    I.run(c, [("sym", "self"), ("sym", "modules"), ("sym", "target")], {},
          State())
    mv = [e for e in I.events if e.name.endswith("move_to_other_root_dir")]
    root, new = ("attr", ("sym", "self"), "source_dir"), \
        ("attr", ("sym", "target"), "source_dir")
    ck.ob("module-moved", "copy_source_files", any(
        tuple(e.args) == (root, new) and not [
            1 for f, p in facts_of(e) if f[0] not in ("inloop", "noraise")
            and not any(y[0] == "op" and y[1] == "inloop" for y in [f])]
        for e in mv), "the module file of a function is not always moved "
        "into the snapshot", c.where)
    cont = [(c, I, root, new)]
    d = P.func("diffkemp.llvm_ir.llvm_module",
               "LlvmModule.move_to_other_root_dir")
    I = Interp(P)
    I.run(d, [("sym", "self"), ("sym", "old"), ("sym", "new")], {}, State())
    sets = [e for e in I.events if e.name == "@setattr.llvm"]
    ck.ob("module-path-updated", "move_to_other_root_dir", bool(sets) and any(
        y == ("sym", "new") for y in subterms(sets[-1].args[1])),
        "the module keeps its path outside of the snapshot", d.where)
    cont.append((d, I, ("sym", "old"), ("sym", "new")))
    n = 0
    for f, I, root, new in cont:
        ck.analysed.add(f.key)
        for e in I.events:
            short = e.name.split(".")[-1]
            if short in ("copyfile", "copy", "copy2", "move"):
                dest = e.args[1]
            elif short == "open" and len(e.args) > 1 and \
                    e.args[1][0] == "c" and "w" in str(e.args[1][2]):
                dest = e.args[0]
            else:
                continue
            rel = [y for y in subterms(dest)
                   if is_call(y, "os.path.relpath") and
                   call_args(y)[-1] == root]
            if not rel:
                continue
            n += 1
            src = call_args(rel[0])[0]
            ok = any(p_ok(t, p, src, root) for t, p in facts_of(e))
            ck.ob("stays-inside", f"{f.qual}:{short}", ok,
                  "a file that is not inside of the source directory may be "
                  f"written to {show(dest)[:160]}, outside of the snapshot",
                  e.where)
    ck.floor("files written below the snapshot root", n, 3)


def is_modules(y):
    return y[0] == "call" and y[1][0] in ("attr", "bound", "func") and \
        show(y[1]).endswith("modules")


def p_ok(t, p, src, root):
    """Does the fact establish that src lies below root?"""
    if not (mentions(t, src) and mentions(t, root)):
        return False
    for y in subterms(t):
        if y[0] == "call" and y[1][0] == "attr" and y[1][2] == "startswith":
            a = y[2][0]
            if a == root:
                return False    # also true for siblings of the directory
    return True


def check_add(ck, P):
    """What is added is what is found under that name and group."""
    add = P.func(SNAP, "Snapshot.add_fun")
    get = P.func(SNAP, "Snapshot.get_by_name")
    ck.analysed |= {add.key, get.key}
    for what, groups in (("existing group", [(C("g"), None)]),
                         ("new group", [(C("other"), None)])):
        I = Interp(P)
        st = State()
        me = make_self(P, I, st, groups, "sysctl")
        vals = {"name": C("fn"), "llvm_mod": ("sym", "m"),
                "glob_var": ("sym", "v"), "tag": ("sym", "t"),
                "group": C("g")}
        _, st = I.run(add, [me], {k: v for k, v in vals.items()
                                  if k in add.params()}, st)
        desc, st = I.run(get, [me, C("fn"), C("g")], {}, st)
        d = I.freeze(st, desc)
        for a, w in (("mod", "m"), ("glob_var", "v"), ("tag", "t")):
            objs = [y for y in subterms(d) if y[0] == "obj"]
            got = [dict(y[2]).get(a) for y in objs]
            ck.ob("added-is-found", f"{what}:{a}", ("sym", w) in got,
                  f"add_fun followed by get_by_name gives {show(d)[:200]}",
                  add.where)
