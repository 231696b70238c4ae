"""Analysis of one arbitrary pass of every loop.

Everything a loop may change is unknown at the beginning of the pass and after
the loop, so that what is shown for the pass holds for every pass.  The result
of a pass is one gated term whose leaves say how the pass ends:
("exit", kind, value, ((variable, value at the end), ...)).
"""
import ast
from lib.interp import C, ITE, canon, factset
from lib.c2py import CInterp
from lib.cxxcmp import Explore, path

CONTAINERS = ("append", "add", "insert", "push_back", "emplace_back",
              "pop_back", "pop_front", "erase", "clear", "push", "pop",
              "emplace", "resize", "merge")


class PassInterp(CInterp):
    def __init__(self, prog, opaque=(), **kw):
        super().__init__(prog, opaque, **kw)
        self.passes = []
        self.lang.out_all = True
        self.seen = {}
        self.track = False

    def changed_fields(self, n, st):
        """Fields of local objects which the loop assigns."""
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) \
                    and isinstance(x.value, ast.Name):
                o = self.obj(st, st.env.get(x.value.id) or ("none",))
                if o is not None and o.kind == "inst":
                    out.add((x.value.id, x.attr))
        return sorted(out)

    def unknown_state(self, n, st, names):
        """Forgets the values of the variables changed by the loop."""
        def fresh(v):
            self.seen[v] = self.seen.get(v, 0) + 1
            return ("sym", v + "'" * (self.seen[v] - 1))
        for v in sorted(names):
            if v in st.env:
                x = st.env[v] = fresh(v)
                if "&" + v in st.env:
                    self.through(st.env["&" + v], (), x, st)
        for v, a in self.changed_fields(n, st):
            self.mut(st, st.env[v]).d[a] = fresh(v + "." + a)
        for x in ast.walk(n):
            # containers modified by methods
            if isinstance(x, ast.Call) and \
                    isinstance(x.func, ast.Attribute) and \
                    x.func.attr in CONTAINERS and \
                    isinstance(x.func.value, ast.Name) and \
                    x.func.value.id in st.env:
                st.env[x.func.value.id] = fresh(x.func.value.id)

    def loop(self, n, st, elem, bind, test):
        if not self.track:
            return self.loop1(n, st, elem, bind, test, ())[0]
        # Variables which a pass changes only if it is the last one have the
        # value from before the loop at the beginning of every pass.
        first = st.copy(), len(self.events), len(self.passes), dict(self.seen)
        ret, kept = self.loop1(n, st, elem, bind, test, ())
        if not kept:
            return ret
        st.become(first[0].copy())
        st.dead = first[0].dead
        del self.events[first[1]:], self.passes[first[2]:]
        self.seen = first[3]
        return self.loop1(n, st, elem, bind, test, kept)[0]

    def loop1(self, n, st, elem, bind, test, kept):
        names = self.assigned(n.body) | (self.assigned([n.target])
                                         if hasattr(n, "target") else set())
        if test is not None:
            names |= self.assigned([test])
        entry = dict(st.env)
        frozen = {v: self.freeze(st, x) for v, x in entry.items()
                  if isinstance(x, tuple)} if self.track else {}
        for v in sorted(names):
            names |= targets(st.env.get("&" + v, ()))
        self.unknown_state(n, st, {v for v in names if v not in kept
                                   and not any(
            v in targets(st.env.get("&" + w, ())) for w in names)})
        done = st.copy()
        body = st.copy()
        if bind:
            bind(body)
        if test is not None:
            c = self.ev(test, body)
            if self.truth(c, body) is not True:
                body.assume(c, True)
        base = body.pc
        start = dict(body.env)
        fields = [(v, a, self.obj(body, body.env[v]).d.get(a))
                  for v, a in self.changed_fields(n, body)]
        store = dict(body.ostore)
        ne = len(self.events)
        ex = self.block(n.body, body)
        evs = self.events[ne:]
        # in the order of the program: the first one which applies
        ends = list(ex) + ([] if body.dead else [("next", None, body)])
        outs = []
        brk = []
        ret = []
        for k, val, s in ends:
            env = []
            for v in sorted(set(names) | set(start)):
                if v not in s.env:
                    continue
                x = s.env[v]
                if x is not start.get(v):
                    env.append((v, self.freeze(s, x)))
            for v, a, was in fields:
                o = self.obj(s, s.env.get(v) or ("none",))
                if o is not None and o.d.get(a, was) != was:
                    env.append((f"{v}.{a}", self.freeze(s, o.d[a])))
            if self.track:
                for (b, a), x in s.ostore.items():
                    if isinstance(a, str) and \
                            x != store.get((b, a), ("attr", b, a)):
                        env.append((path(b) + "." + a, self.freeze(s, x)))
            leaf = ("exit", "next" if k == "continue" else k,
                    self.freeze(s, val) if isinstance(val, tuple) else C(None),
                    tuple(env))
            rel = s.pc[len(base):] if s.pc[:len(base)] == base else s.pc
            outs.append((rel, leaf))
            if k == "break":
                brk.append(s)
            elif k not in ("next", "continue"):
                ret.append((k, val, s))
        term = ("exit", "none", C(None), ())
        for rel, leaf in reversed(outs):
            c = self.pc_term(rel)
            term = leaf if term[1] == "none" and term[0] == "exit" else \
                ITE(c, leaf, term)
        same = {v for v in names if v in start and v in entry and
                "&" + v not in entry and start[v] != entry[v] and
                all(s.env.get(v) == start[v] for k, val, s in ends
                    if k in ("next", "continue"))}
        self.passes.append(Pass(n, self.stack[-1] if self.stack else None,
                                base, term, evs, start, elem, entry))
        if self.track:
            self.passes[-1].entry_values = frozen
        # after the loop: any state in which the condition does not hold, or
        # one of the states in which the loop was left
        forever = False
        if test is not None:
            c = self.ev(test, done)
            forever = self.truth(c, done) is True
            if not brk and not forever:
                # known afterwards, but no condition of what follows
                a, pol = canon(c, False)
                if a[0] != "c":
                    done.facts = done.facts | factset(a, pol)
        if forever and not brk:
            st.become(done)
            st.dead = True
            return ret, same
        if self.track:
            self.after(done, store, [s for k, v, s in ends
                                     if k in ("next", "continue")], brk, elem)
        if getattr(n, "orelse", None):
            ret += self.block(n.orelse, done)
        if brk:
            # variables keep the values which they have at a break
            for s in brk:
                for v in names:
                    if v in s.env and s.env[v] != done.env.get(v):
                        done.env[v] = ITE(("op", "left-by-break", elem),
                                          s.env[v], done.env.get(v, ("sym", v)))
        st.become(done)
        st.dead = False
        return ret, same

    def after(self, done, store, ends, brk, elem):
        """Fields after a loop: changed by a pass, or as at a break."""
        def get(s, k):
            return s.ostore.get(k, ("attr",) + k)
        keys = sorted({k for s in ends + brk for k in s.ostore
                       if isinstance(k[1], str)}, key=repr)
        for k in keys:
            was = store.get(k, ("attr",) + k)
            x = was
            if any(get(s, k) != was for s in ends):
                x = ("op", "loopout", ("attr",) + k, elem)
            for s in brk:
                if get(s, k) != x:
                    x = ITE(("op", "left-by-break", elem), get(s, k), x)
            if x != was:
                done.ostore[k] = x


def targets(t):
    """Variables which a reference may refer to."""
    if not t:
        return set()
    if t[0] == "ite":
        return targets(t[2]) | targets(t[3])
    return {t[2]} if t[0] == "c" and isinstance(t[2], str) else set()


class Pass:
    def __init__(self, node, func, base, term, events, start, elem,
                 entry=None):
        self.entry = entry
        self.node, self.func, self.base = node, func, base
        self.term, self.events, self.start = term, events, start
        self.elem = elem

    @property
    def where(self):
        f = self.func
        return f"({getattr(getattr(f, 'mod', None), 'rel', '?')}:" \
               f"{getattr(self.node, 'lineno', 0)} {getattr(f, 'qual', '?')})"


def passes(prog, fn, opaque=(), args=None, restoring=(), clobbers=None):
    """(value of the function, interpreter with .passes, final state).

    With `clobbers` (function -> fields it may change), changes of fields are
    tracked through loops."""
    from lib.interp import State
    ic = PassInterp(prog, opaque=opaque)
    ic.track = clobbers is not None
    ic.lang.clobbers = clobbers or {}
    ic.virtual_inline = set()
    ic.lang.restoring = dict(restoring)
    st = State()
    v, st = ic.run_c(fn, args or {}, st)
    return ic.freeze(st, v), ic, st


def fact(t):
    """Readable name of an atom; keeps the class of kind tests."""
    from lib.cxxcmp import kind_test, path
    k = kind_test(t)
    if k is not None:
        return f"is<{k[0]}>({k[1]})"
    return path(t)


def exits(ex, term, want=()):
    """Outcomes of a pass: (kind, value, {variable: value}, facts, used) with
    the values of the wanted variables and the returned value resolved."""
    from lib.cxxcmp import assume, Budget
    for o in ex.outcomes(term):
        if o.leaf[0] != "exit":
            yield "value", o.leaf, {}, o.facts, o.used
            continue
        env = dict(o.leaf[3])
        todo = [("@", o.leaf[2])] + [(v, env[v]) for v in want if v in env]
        stack = [(todo, {}, o.facts, set(o.used))]
        while stack:
            todo, done, facts, used = stack.pop()
            ex.n += 1
            if ex.n > ex.limit:
                raise Budget()
            if not todo:
                yield o.leaf[1], done["@"], done, facts, used
                continue
            v, t = todo[0]
            t, a = resolve(ex, t, facts, used)
            if a is not None:
                for pol in (False, True):
                    stack.append(([(v, t)] + todo[1:], done,
                                  assume(facts, a, pol), set(used)))
                continue
            stack.append((todo[1:], {**done, v: t}, facts, used))


def resolve(ex, t, facts, used):
    """Term with its conditional parts decided by the facts, or the open atom
    which has to be decided first."""
    if not isinstance(t, tuple) or not t:
        return t, None
    if t[0] == "ite":
        val, a = ex.truth(t[1], facts, used)
        if val is None:
            return t, a
        return resolve(ex, t[2] if val else t[3], facts, used)
    out = []
    changed = False
    for x in t:
        y, a = resolve(ex, x, facts, used) if isinstance(x, tuple) else \
            (x, None)
        if a is not None:
            return t, a
        changed |= y is not x
        out.append(y)
    return (tuple(out) if changed else t), None


class PassExplore(Explore):
    """Conditional parts inside of atoms are resolved before the atom."""

    def __init__(self, oracle, limit=20000):
        super().__init__(oracle, limit)
        self.ites = {}

    def has_ite(self, t):
        i = id(t)
        if i not in self.ites:
            self.ites[i] = (t[0] == "ite" or any(
                self.has_ite(x) for x in t
                if isinstance(x, tuple) and x), t)
        return self.ites[i][0]

    def truth1(self, t, facts, used):
        if (t[0] in ("call", "attr", "idx", "index", "out") or
                t[:2] in (("op", "=="), ("op", "<"))) and self.has_ite(t):
            t, a = resolve(self, t, facts, used)
            if a is not None:
                return None, a
        return super().truth1(t, facts, used)
