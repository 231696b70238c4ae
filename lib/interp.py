"""A gated-term abstract interpreter.

Functions are evaluated over *terms* instead of values: unknown inputs are
symbols, unknown calls stay uninterpreted, and where control flow joins the two
states are merged into one with gated values ('ite', cond, a, b) (no path
enumeration).  Calls of repository functions are inlined, so that moving code
into a helper does not change the result.  The analysis records *events*: calls
of uninterpreted functions together with the arguments and the facts (branch
conditions) which hold whenever they are reached.
"""
import ast
from lib.pyfront import Func, Class, Program

MISSING = ("missing",)


def C(v):
    return ("c", type(v).__name__, v)


def is_const(t, v=None):
    if t[0] != "c":
        return False
    return True if v is None else (t[2] == v and t[1] == type(v).__name__)


TRUE, FALSE, NONE = C(True), C(False), C(None)


def NOT(t):
    if t[0] == "c":
        return C(not t[2])
    if t[0] == "op" and t[1] == "not":
        return t[2]
    if t[0] == "op" and t[1] in NEG:
        return ("op", NEG[t[1]], t[2], t[3])
    return ("op", "not", t)


NEG = {"!=": "==", "not in": "in", "is not": "is"}


def canon(t, pol):
    """Normalise a condition to (term, polarity)."""
    while True:
        if t[0] == "op" and t[1] == "not":
            t, pol = t[2], not pol
        elif t[0] == "op" and t[1] == "bool":
            t = t[2]
        elif t[0] == "op" and t[1] in NEG:
            t, pol = ("op", NEG[t[1]], t[2], t[3]), not pol
        else:
            return t, pol


def factset(t, pol):
    """Facts implied by t having truth value pol."""
    t, pol = canon(t, pol)
    out = {(t, pol)}
    if t[0] == "op" and ((t[1] == "and" and pol) or (t[1] == "or" and not pol)):
        for x in t[2:]:
            out |= factset(x, pol)
    return out


def ITE(c, a, b):
    if a == b:
        return a
    c, pol = canon(c, True)
    if not pol:
        a, b = b, a
    if c[0] == "c":
        return a if c[2] else b
    if a == TRUE and b == FALSE:
        return ("op", "bool", c)
    return ("ite", c, a, b)


def subterms(t):
    if not t:
        return
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 8:
        return "..."
    s = lambda x: show(x, depth + 1)
    if isinstance(k, tuple):
        return "(" + ", ".join(s(x) for x in t) + ")"
    if k == "c":
        return repr(t[2])
    if k in ("sym", "ext", "mod"):
        return str(t[1])
    if k == "attr":
        return f"{s(t[1])}.{t[2]}"
    if k == "idx":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "call":
        a = [s(x) for x in t[2]] + [f"{n}={s(x)}" for n, x in t[3]]
        return f"{s(t[1])}({', '.join(a)})"
    if k == "op":
        return f"{t[1]}({', '.join(s(x) for x in t[2:])})"
    if k == "ite":
        return f"({s(t[2])} if {s(t[1])} else {s(t[3])})"
    if k == "elem":
        return f"each({s(t[1])})"
    if k == "obj":
        return f"{t[1]}{{{', '.join(f'{n}: {s(v)}' for n, v in t[2])}}}"
    if k == "list":
        return "[" + ", ".join(s(x) for x in t[1:]) + "]"
    if k == "dict":
        return "{" + ", ".join(s(x) for x in t[1:]) + "}"
    if k in ("func", "class"):
        return str(t[1].key if hasattr(t[1], "key") else t[1])
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x)
                               for x in t[1:]) + ")"


def odefault(k):
    """Value of a location which has not been stored to."""
    base, name = k
    if isinstance(name, tuple):
        return ("idx", base, name[1])
    return ("attr", base, name)


class HObj:
    __slots__ = ("kind", "cls", "d", "items", "extra")

    def __init__(self, kind, cls=None, d=None, items=(), extra=()):
        self.kind = kind      # inst | list | dict
        self.cls = cls
        self.d = d if d is not None else {}
        self.items = items    # list: tuple of terms / ('?cond',..) / ('?star',..)
        self.extra = extra    # dict: dynamic entries

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.d), self.items, self.extra)

    def same(self, o):
        return (self.kind == o.kind and self.d == o.d and
                self.items == o.items and self.extra == o.extra)


class State:
    __slots__ = ("env", "heap", "facts", "pc", "ostore", "loops", "dead")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = frozenset()
        self.pc = ()
        self.ostore = {}
        self.loops = ()
        self.dead = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: v for k, v in self.heap.items()}
        s.facts = self.facts
        s.pc = self.pc
        s.ostore = dict(self.ostore)
        s.loops = self.loops
        return s

    def assume(self, t, pol):
        t, pol = canon(t, pol)
        if t[0] == "c":
            return
        self.facts = self.facts | factset(t, pol)
        self.pc = self.pc + ((t, pol),)

    def become(self, o):
        for a in self.__slots__:
            setattr(self, a, getattr(o, a))


class Event:
    def __init__(self, name, fn, args, kwargs, facts, loops, node, func, stack):
        self.name = name
        self.fn = fn
        self.args = args
        self.kwargs = dict(kwargs)
        self.facts = facts
        self.loops = loops
        self.node = node
        self.func = func
        self.stack = stack

    @property
    def where(self):
        f = self.func
        line = getattr(self.node, "lineno", 0)
        return f"{f.mod.rel}:{line} ({f.qual})" if f else f"line {line}"

    def __repr__(self):
        return f"<{self.name}({', '.join(show(a) for a in self.args)})>"


class TooDeep(Exception):
    pass


class Interp:
    def __init__(self, prog, hooks=None, opaque=(), hints=None, max_depth=14,
                 lang=None):
        self.prog = prog
        self.hooks = hooks or {}
        self.last_env = None
        self.opaque = set(opaque)
        self.hints = hints or (lambda t: None)
        self.recv = {}
        self.max_depth = max_depth
        self.events = []
        self.next_id = 0
        self.stack = []
        self.raises = [[]]
        self.uid = 0
        self.lang = lang
        self.const_cache = {}
        self.enums = {}
        self.analysed = set()
        self.record = True           # keep events
        self.no_exceptions = False   # follow only the way without exceptions

    # ---- heap -----------------------------------------------------------
    def alloc(self, st, obj):
        self.next_id += 1
        st.heap[self.next_id] = obj
        return ("ref", self.next_id)

    def obj(self, st, t):
        if t[0] == "ref":
            return st.heap.get(t[1])
        return None

    def mut(self, st, t):
        o = st.heap[t[1]].copy()
        st.heap[t[1]] = o
        return o

    def new_list(self, st, items):
        return self.alloc(st, HObj("list", items=tuple(items)))

    def fresh(self, tag):
        self.uid += 1
        return ("sym", f"{tag}#{self.uid}")

    def freeze(self, st, t, seen=()):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "c":
            return t
        if t[0] == "ref":
            if t in seen or len(seen) > 12:
                return ("cycle",)
            o = st.heap.get(t[1])
            if o is None:
                return ("sym", f"dangling{t[1]}")
            seen = seen + (t,)
            if o.kind == "inst":
                cls = o.cls.key if hasattr(o.cls, "key") else str(o.cls)
                return ("obj", cls, tuple(sorted(
                    (k, self.freeze(st, v, seen)) for k, v in o.d.items())))
            if o.kind == "dict":
                return ("dict",) + tuple(
                    ("kv", self.freeze(st, k, seen), self.freeze(st, v, seen))
                    for k, v in o.d.items()) + tuple(
                    self.freeze(st, x, seen) for x in o.extra)
            return ("list",) + tuple(self.freeze(st, x, seen)
                                     for x in o.items)
        if t[0] in ("func", "class", "bound"):
            if t[0] == "bound":
                return ("bound", self.freeze(st, t[1], seen), t[2])
            return t
        return tuple(self.freeze(st, x, seen) if isinstance(x, tuple) else x
                     for x in t)

    # ---- merging --------------------------------------------------------
    def merge(self, cond, a, b):
        s = State()
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            va, vb = a.env.get(k, MISSING), b.env.get(k, MISSING)
            s.env[k] = ITE(cond, va, vb)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            oa, ob = a.heap.get(k), b.heap.get(k)
            if oa is None or ob is None or oa is ob or oa.same(ob):
                s.heap[k] = oa or ob
            else:
                s.heap[k] = self.merge_obj(cond, oa, ob)
        for k in set(a.ostore) | set(b.ostore):
            va = a.ostore.get(k, odefault(k))
            vb = b.ostore.get(k, odefault(k))
            s.ostore[k] = ITE(cond, va, vb)
        s.facts = a.facts & b.facts
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        s.pc = a.pc[:n]
        s.loops = a.loops if len(a.loops) <= len(b.loops) else b.loops
        return s

    def merge_obj(self, cond, a, b):
        if a.kind != b.kind:
            return a
        o = HObj(a.kind, a.cls)
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            o.d[k] = ITE(cond, a.d.get(k, MISSING), b.d.get(k, MISSING))
        for f in ("items", "extra"):
            x, y = getattr(a, f), getattr(b, f)
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            r = x[:n]
            if x[n:] or y[n:]:
                c, pol = canon(cond, True)
                p, q = (x[n:], y[n:]) if pol else (y[n:], x[n:])
                r = r + (("?cond", c, p, q),)
            setattr(o, f, r)
        return o

    def pc_term(self, pc):
        ts = [t if p else NOT(t) for t, p in pc]
        if not ts:
            return TRUE
        return ts[0] if len(ts) == 1 else ("op", "and") + tuple(ts)

    def merge_all(self, base_pc, outs):
        """outs: list of (value, state), mutually exclusive; returns one."""
        val, st = outs[-1]
        for v, s in reversed(outs[:-1]):
            rel = s.pc[len(base_pc):] if s.pc[:len(base_pc)] == base_pc \
                else s.pc
            c = self.pc_term(rel)
            if c == TRUE:
                c = ("sym", "join")
            val = ITE(c, v, val) if v is not None else val
            st = self.merge(c, s, st)
        return val, st

    # ---- statements -----------------------------------------------------
    # exec returns list of exits (kind, value, state); the normal outcome is
    # left in `st` (st.dead set when there is none)
    def block(self, body, st):
        exits = []
        for s in body:
            if st.dead:
                break
            exits += self.stmt(s, st)
        return exits

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return []
        return m(n, st) or []

    def s_Expr(self, n, st):
        self.ev(n.value, st)

    def s_Pass(self, n, st):
        pass

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        if st.dead:
            return
        for t in n.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)

    def s_AugAssign(self, n, st):
        load = ast.copy_location(self.as_load(n.target), n)
        a = self.ev(load, st)
        b = self.ev(n.value, st)
        o = self.obj(st, a)
        if o is not None and o.kind == "list" and isinstance(n.op, ast.Add):
            self.list_extend(st, a, b)
            return
        self.assign(n.target, self.binop(type(n.op).__name__, a, b, st), st)

    def as_load(self, t):
        if isinstance(t, ast.Name):
            r = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            r = ast.Attribute(t.value, t.attr, ast.Load())
        elif isinstance(t, ast.Subscript):
            r = ast.Subscript(t.value, t.slice, ast.Load())
        else:
            return t
        if hasattr(t, "cxx"):
            r.cxx = t.cxx
        return r

    def assign(self, tgt, v, st):
        if isinstance(tgt, ast.Name):
            st.env[tgt.id] = v
            if "&" + tgt.id in st.env:
                self.through(st.env["&" + tgt.id], (), v, st)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            vals = self.unroll(v, st)
            if vals is not None and len(vals) == len(tgt.elts):
                for t, x in zip(tgt.elts, vals):
                    self.assign(t, x, st)
            else:
                for i, t in enumerate(tgt.elts):
                    if isinstance(t, ast.Starred):
                        t = t.value
                    self.assign(t, self.index(v, C(i), st), st)
        elif isinstance(tgt, ast.Attribute):
            self.setattr(self.ev(tgt.value, st), tgt.attr, v, st)
        elif isinstance(tgt, ast.Subscript):
            self.setitem(self.ev(tgt.value, st), self.ev(tgt.slice, st), v, st,
                         tgt)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, st)

    def through(self, to, cond, v, st):
        """Assignment to the variable which a reference refers to."""
        if to[0] == "ite":
            self.through(to[2], cond + ((to[1], True),), v, st)
            self.through(to[3], cond + ((to[1], False),), v, st)
        elif to[0] == "c" and to[2] in st.env:
            old = st.env[to[2]]
            for c, pol in reversed(cond):
                v = ITE(c, v, old) if pol else ITE(c, old, v)
            st.env[to[2]] = v

    def setattr(self, base, name, v, st):
        o = self.obj(st, base)
        if o is not None:
            self.mut(st, base).d[name] = v
        elif base[0] == "ite":
            self.setattr(base[2], name, ITE(base[1], v, self.attr(
                base[2], name, st)), st)
            self.setattr(base[3], name, ITE(base[1], self.attr(
                base[3], name, st), v), st)
        else:
            st.ostore[(base, name)] = v
            self.event("@setattr." + name, base, (base, v), (), st, None)

    def setitem(self, base, key, v, st, node):
        o = self.obj(st, base)
        if o is not None and o.kind == "inst" and isinstance(o.cls, Class) \
                and self.lang is None:
            f = self.prog.find_method(o.cls, "__setitem__")
            if f:
                self.call_func(f, [base, key, v], {}, st, None)
                return
        if o is not None and o.kind in ("dict", "inst"):
            m = self.mut(st, base)
            if (key[0] == "c" or self.hkey(key, st)) and o.kind == "dict":
                m.d[key] = v
            else:
                m.extra = m.extra + (("kv", key, v),)
        else:
            if base[0] in ("sym", "attr", "idx"):
                for b, k in list(st.ostore):
                    if b == base and isinstance(k, tuple) and not (
                            k[1][0] == "c" and key[0] == "c"):
                        del st.ostore[(b, k)]
                st.ostore[(base, ("[]", key))] = v
            self.event("@setitem", base, (base, key, v), (), st, node)

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        if st.dead:
            return []
        e = [("return", v, st.copy())]
        st.dead = True
        return e

    def s_Raise(self, n, st):
        v = self.ev(n.exc, st) if n.exc is not None else ("sym", "reraise")
        if st.dead:
            return []
        self.event("@raise", v, (v,), (), st, n)
        self.raises[-1].append((v, st.copy()))
        st.dead = True

    def s_Break(self, n, st):
        e = [("break", None, st.copy())]
        st.dead = True
        return e

    def s_Continue(self, n, st):
        e = [("continue", None, st.copy())]
        st.dead = True
        return e

    def s_If(self, n, st):
        c = self.boolify(self.ev(n.test, st), st)
        if st.dead:
            return []
        v = self.truth(c, st)
        if v is True:
            return self.block(n.body, st)
        if v is False:
            return self.block(n.orelse, st)
        a, b = st.copy(), st.copy()
        a.assume(c, True)
        b.assume(c, False)
        ex = self.block(n.body, a)
        ex += self.block(n.orelse, b)
        if a.dead and b.dead:
            st.dead = True
        elif a.dead:
            st.become(b)
        elif b.dead:
            st.become(a)
        else:
            st.become(self.merge(c, a, b))
        return ex

    def s_Match(self, n, st):
        return []

    def filled(self, items):
        """Condition under which a container with these items is not empty
        (None if it depends on how often a loop runs)."""
        ts = []
        for x in items:
            if x[0] == "?cond":
                p, q = self.filled(x[2]), self.filled(x[3])
                if p is None or q is None:
                    return None
                ts.append(ITE(x[1], p, q))
            elif x[0] in ("?star", "?splice"):
                return None
            else:
                return TRUE
        ts = [t for t in ts if t != FALSE]
        if TRUE in ts:
            return TRUE
        if not ts:
            return FALSE
        return ts[0] if len(ts) == 1 else ("op", "or") + tuple(ts)

    def boolify(self, c, st):
        """A container used as a condition."""
        if c[0] == "op" and c[1] == "not":
            return NOT(self.boolify(c[2], st))
        o = self.obj(st, c)
        if o is None or o.kind not in ("list", "dict"):
            return c
        if o.kind == "list":
            r = self.filled(o.items)
        else:
            if any(v != MISSING and v[0] != "ite" for v in o.d.values()):
                return TRUE
            if o.d:
                return c
            r = self.filled(o.extra)
        return c if r is None else r

    def truth(self, c, st):
        c, pol = canon(c, True)
        if c[0] == "c":
            return bool(c[2]) == pol
        if (c, True) in st.facts:
            return pol
        if (c, False) in st.facts:
            return not pol
        if c[0] == "ref":
            o = st.heap[c[1]]
            if o.kind == "inst":
                return pol
            if o.kind == "list":
                if any(x[0] not in ("?cond", "?star", "?splice")
                       for x in o.items):
                    return pol
                if not o.items:
                    return not pol
            if o.kind == "dict" and o.d and any(
                    v != MISSING and v[0] != "ite" for v in o.d.values()):
                return pol
            if o.kind == "dict" and not o.d and not o.extra:
                return not pol
        if c[0] in ("func", "class", "bound"):
            return pol
        if c[0] == "op" and c[1] in ("and", "or"):
            vs = [self.truth(x, st) for x in c[2:]]
            if c[1] == "and":
                if False in vs:
                    return not pol
                if all(v is True for v in vs):
                    return pol
            else:
                if True in vs:
                    return pol
                if all(v is False for v in vs):
                    return not pol
        if c[0] == "op" and c[1] == "bool":
            r = self.truth(c[2], st)
            return None if r is None else r == pol
        return None

    def assigned(self, body):
        names = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
        return names

    def s_For(self, n, st):
        it = self.ev(n.iter, st)
        if st.dead:
            return []
        vals = self.unroll(it, st)
        if vals is not None and len(vals) <= 40:
            out, brks = [], []
            for v in vals:
                self.assign(n.target, v, st)
                ex = self.block(n.body, st)
                conts = [] if st.dead else [(None, st.copy())]
                for k, val, s in ex:
                    if k == "continue":
                        conts.append((None, s))
                    elif k == "break":
                        brks.append((None, s))
                    else:
                        out.append((k, val, s))
                if not conts:
                    st.dead = True
                    break
                st.become(self.merge_all((), conts)[1])
                st.dead = False
            ends = [] if st.dead else [(None, st.copy())]
            if n.orelse and ends:
                out += self.block(n.orelse, st)
                ends = [] if st.dead else [(None, st.copy())]
            ends += brks
            if ends:
                st.become(self.merge_all((), ends)[1])
                st.dead = False
            else:
                st.dead = True
            return out
        def bind(s):
            parts = self.star_elem(it, s)
            self.assign(n.target, parts, s)
        return self.loop(n, st, ("elem", self.freeze(st, it)), bind, None)

    s_AsyncFor = s_For

    def star_elem(self, it, st):
        """Term for one element of an iterable which cannot be unrolled."""
        o = self.obj(st, it)
        if o is not None and o.kind == "list":
            flat = []
            for x in o.items:
                if x[0] == "?star":
                    flat += list(x[2])
                elif x[0] == "?cond":
                    flat += list(x[2]) + list(x[3])
                else:
                    flat.append(x)
            flat = [x for x in flat if x[0] not in ("?star", "?cond",
                                                    "?splice")]
            if len(set(flat)) == 1:
                return flat[0]
        return ("elem", self.freeze(st, it))

    def s_While(self, n, st):
        c0 = self.ev(n.test, st.copy())
        if self.truth(c0, st) is False:
            return []
        if self.lang is None and self.truth(c0, st) is True:
            r = self.concrete_while(n, st)
            if r is not None:
                return r
        return self.loop(n, st, ("elem", ("while", self.freeze(st, c0))),
                         None, n.test)

    def concrete_while(self, n, st):
        """Run a loop whose condition is decided in every iteration."""
        ev, uid = len(self.events), self.next_id
        s = st.copy()
        for _ in range(12):
            t = self.truth(self.ev(n.test, s), s)
            if t is True:
                ex = self.block(n.body, s)
                if s.dead:
                    if len(ex) == 1 and ex[0][0] == "continue":
                        s = ex[0][2]
                        continue
                    if len(ex) == 1 and ex[0][0] == "break":
                        st.become(ex[0][2])
                        st.dead = False
                        return []
                    if len(ex) == 1:
                        st.become(s)
                        return ex
                    break
                if ex:
                    break
            elif t is False:
                ex = self.block(n.orelse, s) if n.orelse else []
                st.become(s)
                return ex
            else:
                break
        del self.events[ev:]
        self.next_id = uid
        return None

    def loop(self, n, st, elem, bind, test):
        names = self.assigned(n.body) | (self.assigned([n.target])
                                         if hasattr(n, "target") else set())
        s0 = st.copy()
        body = st.copy()
        body.loops = st.loops + (elem,)
        for v in names:
            if v in body.env:
                body.env[v] = ("phi", elem, v, st.env[v])
        if bind:
            bind(body)
        forever = False
        if test is not None:
            c = self.ev(test, body)
            forever = self.truth(c, body) is True
            body.assume(c, True)
        body.assume(("inloop", elem), True)
        ex = self.block(n.body, body)
        ends = [] if body.dead else [(None, body)]
        out, brk = [], []
        for k, val, s in ex:
            if k == "continue":
                ends.append((None, s))
            elif k == "break":
                brk.append((None, s))
            else:
                out.append((k, val, s))
        done = s0.copy()
        if forever and not brk:
            st.dead = True
            return out
        allends = ends + brk
        if allends:
            s1 = self.merge_all((), allends)[1]
            for v in set(s1.env):
                if v in names:
                    init = s0.env.get(v, MISSING)
                    val = s1.env[v]
                    if val == ("phi", elem, v, init):
                        done.env[v] = init
                    else:
                        done.env[v] = ("op", "loopout", elem, init, val)
            for k, o in s1.heap.items():
                if k not in s0.heap:
                    done.heap[k] = o
                elif not o.same(s0.heap[k]):
                    done.heap[k] = self.loop_obj(elem, s0.heap[k], o)
            for k, v in s1.ostore.items():
                if s0.ostore.get(k) != v:
                    done.ostore[k] = ("op", "loopout", elem,
                                      s0.ostore.get(k, odefault(k)), v)
        if getattr(n, "orelse", None):
            out += self.block(n.orelse, done)
        if test is not None and not brk and not forever:
            c = self.ev(test, done.copy())
            done.assume(c, False)
        st.become(done)
        st.dead = False
        return out

    def loop_obj(self, elem, a, b):
        o = HObj(a.kind, b.cls)
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            x, y = a.d.get(k, MISSING), b.d.get(k, MISSING)
            o.d[k] = x if x == y else ("op", "loopout", elem, x, y)
        for f in ("items", "extra"):
            x, y = getattr(a, f), getattr(b, f)
            if y[:len(x)] == x:
                r = x + ((("?star", elem, y[len(x):]),) if y[len(x):] else ())
            else:
                r = (("?star", elem, y),)
            setattr(o, f, r)
        return o

    def s_With(self, n, st):
        for i in n.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.block(n.body, st)

    s_AsyncWith = s_With

    def s_Try(self, n, st):
        self.raises.append([])
        s0 = st.copy()
        ex = self.block(n.body, st)
        raised = self.raises.pop()
        if not st.dead and n.orelse:
            ex += self.block(n.orelse, st)
        if self.no_exceptions and not (st.dead and raised):
            if n.finalbody:
                ex += self.block(n.finalbody, st)
            self.raises[-1].extend(raised)
            return ex
        self.uid += 1
        tid = self.uid
        ends = [] if st.dead else [(None, st.copy())]
        for i, h in enumerate(n.handlers):
            hs = s0.copy()
            ty = self.handler_types(h)
            c = ("sym", f"exc:{'|'.join(ty)}#{tid}")
            base = s0
            # the handler may run in any intermediate state of the body
            if not st.dead:
                hs = self.merge(("sym", f"excpoint#{tid}"), st.copy(), s0)
            for v, rs in raised:
                hs = self.merge(("sym", f"raised#{tid}"), rs, hs)
            hs.facts = s0.facts
            hs.pc = s0.pc
            hs.assume(c, True)
            if h.name:
                hs.env[h.name] = ("sym", f"exc:{'|'.join(ty)}")
            ex += self.block(h.body, hs)
            if not hs.dead:
                ends.append((None, hs))
        if n.handlers:
            caught = {t for h in n.handlers for t in self.handler_types(h)}
            for v, rs in raised:
                if not ({self.exc_name(v)} & caught
                        or {"Exception", "BaseException", "*"} & caught):
                    self.raises[-1].append((v, rs))
        else:
            self.raises[-1].extend(raised)
        if ends:
            # exceptional outcomes first: they carry a distinguishing fact
            ends = ends[1:] + ends[:1] if not st.dead else ends
            st.become(self.merge_all(s0.pc, ends)[1])
            st.dead = False
        else:
            st.dead = True
        if n.finalbody:
            if st.dead:
                t = s0.copy()
                ex += self.block(n.finalbody, t)
            else:
                ex += self.block(n.finalbody, st)
        return ex

    s_TryStar = s_Try

    def exc_name(self, v):
        if v[0] == "call":
            v = v[1]
        if v[0] == "class":
            return v[1].name
        if v[0] == "ext":
            return v[1].split(".")[-1]
        if v[0] == "ref":
            return "?"
        return "?"

    def handler_types(self, h):
        if h.type is None:
            return ["*"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def s_FunctionDef(self, n, st):
        st.env[n.name] = ("localfunc", id(n), n)

    def s_ClassDef(self, n, st):
        if self.stack and self.lang is None:
            st.env[n.name] = ("class", Class(self.stack[-1].mod, n))

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                b = self.ev(t.value, st)
                o = self.obj(st, b)
                if isinstance(t, ast.Subscript) and o is not None and \
                        o.kind == "dict" and self.lang is None:
                    k = self.ev(t.slice, st)
                    if self.hkey(k, st) and k in o.d and not o.extra:
                        del self.mut(st, b).d[k]
                self.event("@del", b, (b,), (), st, n)

    def s_Assert(self, n, st):
        c = self.ev(n.test, st)
        st.assume(c, True)

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = ("mod", a.name)

    def s_ImportFrom(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name] = ("ext", f"{n.module}.{a.name}")

    # ---- expressions ----------------------------------------------------
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return ("top", type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        return C(v)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        if self.lang:
            r = self.lang.name(self, n, st)
            if r is not None:
                return r
        f = self.stack[-1] if self.stack else None
        if f is not None:
            r = self.prog.resolve(f.mod, n.id)
            t = self.resolved(r, st)
            if t is not None:
                return t
        return ("ext", n.id)

    def resolved(self, r, st):
        if isinstance(r, Func):
            return ("func", r)
        if isinstance(r, Class):
            return ("class", r)
        if isinstance(r, tuple):
            if r[0] == "mod":
                return ("mod", r[1])
            if r[0] == "ext":
                return ("ext", r[1])
            if r[0] == "assign":
                return self.module_const(r[1], r[2], st)
        return None

    def module_const(self, mod, expr, st):
        class F:
            pass
        f = F()
        f.mod, f.qual, f.key, f.cls = mod, "<module>", mod.name, None
        if len(self.stack) > 30:
            return ("top", "const")
        self.stack.append(f)
        env, st.env = st.env, {}
        v = self.ev(expr, st)
        st.env = env
        self.stack.pop()
        return v

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.attr(b, n.attr, st, n)

    def attr(self, b, name, st, node=None):
        if b[0] == "ref":
            o = st.heap.get(b[1])
            if o is not None and name in o.d and o.kind == "inst":
                return o.d[name]
            if o is not None and o.kind == "inst" and isinstance(o.cls, Class):
                r = self.class_attr(o.cls, name, b, st, node)
                if r is not None:
                    return r
            return ("attr", b, name)
        if b[0] == "class" and isinstance(b[1], Class):
            if name in b[1].inner:
                return ("class", b[1].inner[name])
            r = self.class_attr(b[1], name, b, st, node)
            if r is not None:
                return r
            return ("attr", b, name)
        if b[0] == "mod":
            if self.prog and b[1] in self.prog.modules:
                m = self.prog.modules[b[1]]
                t = self.resolved(self.prog.resolve(m, name), st)
                if t is not None:
                    return t
            full = b[1] + "." + name
            if self.prog and full in self.prog.modules:
                return ("mod", full)
            if self.prog and any(x.startswith(full + ".") for x in
                                 self.prog.modules):
                return ("mod", full)
            return ("ext", full)
        if b[0] == "ext":
            return ("ext", b[1] + "." + name)
        if b[0] == "ite":
            x = self.attr(b[2], name, st, node)
            y = self.attr(b[3], name, st, node)
            if x[0] == "bound" or y[0] == "bound":
                return ("attr", b, name)
            return ITE(b[1], x, y)
        if (b, name) in st.ostore:
            return st.ostore[(b, name)]
        h = self.hints(b)
        if h is not None:
            r = self.class_attr(h, name, b, st, node)
            if r is not None:
                return r
        return ("attr", b, name)

    def class_attr(self, cls, name, base, st, node):
        f = self.prog.find_method(cls, name)
        if f is not None:
            if f.is_property:
                return self.call_func(f, [base], {}, st, node)
            if f.is_static:
                return ("func", f)
            if f.is_classmethod:
                return ("bound", ("class", cls), f)
            if base[0] == "class":
                return ("func", f)
            return ("bound", base, f)
        if name in cls.inner:
            return ("class", cls.inner[name])
        c = self.prog.find_const(cls, name)
        if c is not None:
            if any(isinstance(b, ast.Name) and "Enum" in b.id or
                   isinstance(b, ast.Attribute) and "Enum" in b.attr
                   for b in c[0].node.bases):
                self.enums[c[0].name] = c[0]
                return ("enum", c[0].name, name)
            return self.module_const(c[0].mod, c[1], st)
        return None

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        if isinstance(n.slice, ast.Slice):
            parts = [self.ev(x, st) if x is not None else NONE
                     for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            vals = self.unroll(b, st)
            if vals is not None and all(p[0] == "c" for p in parts):
                o = self.obj(st, b)
                return self.new_list(st, vals[slice(*[p[2] for p in parts])])
            if b[0] == "c" and all(p[0] == "c" for p in parts):
                return C(b[2][slice(*[p[2] for p in parts])])
            return ("op", "slice", b) + tuple(parts)
        k = self.ev(n.slice, st)
        r = self.index(b, k, st)
        if r == MISSING:
            return ("idx", self.freeze(st, b), k)
        if isinstance(n.ctx, ast.Load):
            self.event("@getitem", b, (b, k), (), st, n)
        return r

    def index(self, b, k, st):
        o = self.obj(st, b)
        if self.is_int_enum(k) and self.enum_value(k) and (
                b[0] == "tup" or o is not None and o.kind == "list"):
            k = self.enum_value(k)
        if o is not None:
            if o.kind == "dict" and k in o.d and (
                    k[0] in ("c", "ref") or self.hkey(k, st)):
                return o.d[k]
            if o.kind == "dict" and o.extra:
                last = o.extra[-1]
                if last[0] == "kv" and last[1] == k:
                    return last[2]
                if last[0] == "?star" and last[2] and last[2][-1][0] == "kv" \
                        and last[2][-1][1] == k:
                    return last[2][-1][2]
            if o.kind == "list" and k[0] == "c" and isinstance(k[2], int):
                if all(x[0] not in ("?cond", "?star", "?splice")
                       for x in o.items) and -len(o.items) <= k[2] \
                        < len(o.items):
                    return o.items[k[2]]
                if 0 <= k[2] < len(o.items) and all(
                        x[0] not in ("?cond", "?star", "?splice")
                        for x in o.items[:k[2] + 1]):
                    return o.items[k[2]]
            if o.kind == "inst":
                if isinstance(o.cls, Class):
                    f = self.prog.find_method(o.cls, "__getitem__")
                    if f:
                        return self.call_func(f, [b, k], {}, st, None)
                elif k == C(0):
                    return b
            return ("idx", self.freeze(st, b), self.freeze(st, k))
        if b[0] == "c" and k[0] == "c":
            try:
                return C(b[2][k[2]])
            except Exception:
                pass
        if b[0] == "tup" and k[0] == "c" and isinstance(k[2], int) and \
                k[2] < len(b) - 1:
            return b[1 + k[2]] if k[2] >= 0 else b[k[2]]
        if b[0] == "ite":
            return ITE(b[1], self.index(b[2], k, st), self.index(b[3], k, st))
        if (b, ("[]", k)) in st.ostore:
            return st.ostore[(b, ("[]", k))]
        h = self.hints(b)
        if h is not None:
            f = self.prog.find_method(h, "__getitem__")
            if f:
                return self.call_func(f, [b, k], {}, st, None)
        return ("idx", b, k)

    def e_List(self, n, st):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                vals = self.unroll(v, st)
                if vals is not None:
                    items += vals
                else:
                    items.append(("?splice", v))
            else:
                items.append(self.ev(e, st))
        return self.new_list(st, items)

    e_Set = e_List

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.e_List(n, st)
        return ("tup",) + tuple(self.ev(e, st) for e in n.elts)

    def e_Dict(self, n, st):
        o = HObj("dict")
        r = self.alloc(st, o)
        for k, v in zip(n.keys, n.values):
            if k is None:
                s = self.ev(v, st)
                so = self.obj(st, s)
                o = self.mut(st, r)
                if so is not None:
                    o.d.update(so.d)
                    o.extra = o.extra + so.extra
                else:
                    o.extra = o.extra + (("?splice", s),)
                continue
            kt, vt = self.ev(k, st), self.ev(v, st)
            o = self.mut(st, r)
            if kt[0] == "c" or kt[0] == "enum":
                o.d[kt] = vt
            else:
                o.extra = o.extra + (("kv", kt, vt),)
        return r

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.ev(v.value, st))
        return self.fmt(parts)

    def fmt(self, parts):
        out = []
        for p in parts:
            if p[0] == "op" and p[1] == "fmt":
                sub = p[2:]
            elif p[0] == "call" and p[1] == ("ext", "str") and \
                    len(p[2]) == 1:
                sub = (p[2][0],)
            else:
                sub = (p,)
            for q in sub:
                if q[0] == "c":
                    q = C(str(q[2]))
                    if out and out[-1][0] == "c":
                        out[-1] = C(out[-1][2] + q[2])
                        continue
                out.append(q)
        if not out:
            return C("")
        if len(out) == 1 and out[0][0] == "c":
            return out[0]
        return ("op", "fmt") + tuple(x for x in out if x != C(""))

    def e_BoolOp(self, n, st):
        op = "and" if isinstance(n.op, ast.And) else "or"
        vals = []
        cur = st
        base = st.copy()
        conds = []
        states = []
        for i, e in enumerate(n.values):
            v = self.ev(e, cur)
            vals.append(v)
            if i == len(n.values) - 1:
                break
            t = self.truth(v, cur)
            if op == "and" and t is False or op == "or" and t is True:
                break
            if t is None:
                states.append((v, cur.copy()))
                nxt = cur.copy()
                nxt.assume(v, op == "and")
                if cur is st:
                    cur = nxt
                else:
                    cur = nxt
        # merge states backwards
        if cur is not st:
            s = cur
            for v, before in reversed(states):
                s = self.merge(v, s, before) if op == "and" else \
                    self.merge(v, before, s)
            s.pc, s.facts = base.pc, base.facts | (
                frozenset() if not states else base.facts)
            dead = st.dead
            st.become(s)
            st.dead = dead
        return self.boolop(op, vals, st)

    def boolop(self, op, vals, st):
        out = []
        for i, v in enumerate(vals):
            t = self.truth(v, st)
            last = i == len(vals) - 1
            if op == "and":
                if t is True and not last:
                    continue
                if t is False:
                    out.append(v)
                    break
            else:
                if t is False and not last:
                    continue
                if t is True:
                    out.append(v)
                    break
            if v[0] == "op" and v[1] == op:
                out += v[2:]
            else:
                out.append(v)
        if len(out) == 1:
            return out[0]
        return ("op", op) + tuple(out)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            v = self.boolify(v, st)
            t = self.truth(v, st)
            if t is not None:
                return C(not t)
            return NOT(v)
        if v[0] == "c" and isinstance(n.op, ast.USub):
            return C(-v[2])
        return ("op", type(n.op).__name__, v)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "Add":
                    return C(a[2] + b[2])
                if op == "Sub":
                    return C(a[2] - b[2])
                if op == "Mult":
                    return C(a[2] * b[2])
                if op == "Mod":
                    return C(a[2] % b[2])
            except Exception:
                pass
        oa = self.obj(st, a)
        if oa is not None and oa.kind == "inst" and isinstance(oa.cls, Class):
            f = self.prog.find_method(oa.cls, {
                "Add": "__add__", "Sub": "__sub__", "BitOr": "__or__",
                "BitAnd": "__and__"}.get(op, "?"))
            if f:
                return self.call_func(f, [a, b], {}, st, None)
        if op == "Add":
            if oa is not None and oa.kind == "list":
                r = self.new_list(st, oa.items)
                self.list_extend(st, r, b)
                return r
            if self.is_str(a) or self.is_str(b):
                return self.fmt([a, b])
            # unknown types: keep as concatenation-like operator
            return ("op", "Add", a, b)
        if op == "Mod" and a[0] == "c" and isinstance(a[2], str):
            args = list(b[1:]) if b[0] == "tup" else [b]
            pieces = a[2].split("%s")
            if len(pieces) == len(args) + 1:
                parts = [C(pieces[0])]
                for x, p in zip(args, pieces[1:]):
                    parts += [x, C(p)]
                return self.fmt(parts)
        return ("op", op, a, b)

    def is_str(self, t):
        return t[0] == "c" and isinstance(t[2], str) or \
            t[0] == "op" and t[1] == "fmt"

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            out.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return out[0] if len(out) == 1 else self.boolop("and", out, st)

    CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">",
           "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in",
           "NotIn": "not in"}

    def compare(self, op, a, b, st):
        op = self.CMP[op]
        neg = op in NEG
        base = NEG.get(op, op)
        r = None
        if base in ("==", "is", "<", "<=", ">", ">=", "in"):
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x[0] == "ite" and (
                        y[0] == "enum" or base == "in" and not sw or
                        y[0] == "ite" and self.enum_tree(y)) and \
                        self.enum_tree(x):
                    p = self.cmp1(base, x[2], y, sw, st)
                    q = self.cmp1(base, x[3], y, sw, st)
                    r = ITE(x[1], p, q)
                    return NOT(r) if neg else r
        if base in ("==", "is"):
            if a[0] == "c" and b[0] == "c":
                r = C(a[2] == b[2])
            elif a[0] == "enum" and b[0] == "enum":
                r = C(a == b)
            elif a[0] in ("c", "enum") and b[0] in ("c", "enum") and \
                    base == "==" and self.is_int_enum(a) and \
                    self.is_int_enum(b):
                r = C(self.enum_value(a) == self.enum_value(b))
            elif a == b and a[0] in ("sym", "ref", "attr"):
                r = TRUE
            elif a[0] == b[0] == "tup" and self.lang is None and \
                    self.hkey(a, st) and self.hkey(b, st):
                r = C(a == b)
            elif a[0] == b[0] == "ref" and self.lang is None and (
                    base == "is" or self.plain_inst(a, st) and
                    self.plain_inst(b, st)):
                r = FALSE       # distinct objects
            elif b == NONE and a[0] in ("ref", "func", "class", "bound",
                                        "tup", "enum") or \
                    b == NONE and a[0] == "op" and a[1] == "fmt":
                r = FALSE
            elif b[0] in ("c", "enum") and a[0] not in ("c", "enum"):
                pass
            elif a[0] in ("c", "enum"):
                a, b = b, a
        elif base == "in":
            vals = self.unroll(b, st)
            if vals is not None and a[0] in ("c", "enum"):
                if a in vals:
                    r = TRUE
                elif all(v[0] == a[0] for v in vals):
                    r = FALSE
            if b[0] == "c" and a[0] == "c" and isinstance(b[2], str):
                r = C(a[2] in b[2])
            o = self.obj(st, b)
            if o is not None and o.kind == "list" and a[0] == "c" and \
                    r is None and o.items and self.all_refs(o.items):
                r = FALSE       # a constant among containers
            if r is None and vals is not None and a[0] in ("ref", "tup") and \
                    self.lang is None and self.hkey(a, st) and all(
                        self.hkey(v, st) for v in vals):
                r = C(a in vals)
            if o is not None and o.kind == "dict" and (
                    a[0] == "c" or self.hkey(a, st)):
                if a in o.d:
                    v = o.d[a]
                    if v != MISSING and not (v[0] == "ite" and MISSING in v):
                        r = TRUE
                    else:
                        r = self.present(v)
                elif not o.extra:
                    r = FALSE
            elif o is not None and o.kind == "inst" and isinstance(o.cls,
                                                                   Class):
                f = self.prog.find_method(o.cls, "__contains__")
                if f:
                    r = self.call_func(f, [b, a], {}, st, None)
        elif a[0] in ("c", "enum") and b[0] in ("c", "enum") and \
                self.enum_value(a) and self.enum_value(b):
            a, b = self.enum_value(a), self.enum_value(b)
            try:
                r = C({"<": a[2] < b[2], "<=": a[2] <= b[2],
                       ">": a[2] > b[2], ">=": a[2] >= b[2]}[base])
            except Exception:
                pass
        if r is None:
            # canonical direction of inequalities
            if base == ">":
                r = ("op", "<", self.freeze(st, b), self.freeze(st, a))
            elif base == ">=":
                return NOT(("op", "<", self.freeze(st, a),
                            self.freeze(st, b)))
            elif base == "<=":
                return NOT(("op", "<", self.freeze(st, b),
                            self.freeze(st, a)))
            else:
                r = ("op", base, self.freeze(st, a), self.freeze(st, b))
        return NOT(r) if neg else r

    def cmp1(self, base, x, y, swap, st):
        return self.compare_base(base, y, x, st) if swap else \
            self.compare_base(base, x, y, st)

    def compare_base(self, base, a, b, st):
        op = next(k for k, v in self.CMP.items() if v == base)
        return self.compare(op, a, b, st)

    def enum_tree(self, t):
        if t[0] == "ite":
            return self.enum_tree(t[2]) and self.enum_tree(t[3])
        return t[0] == "enum"

    def enum_map(self, t, f):
        """Apply f to the leaves of a tree of choices."""
        if t[0] == "ite":
            a, b = self.enum_map(t[2], f), self.enum_map(t[3], f)
            return None if a is None or b is None else ITE(t[1], a, b)
        return f(t)

    def all_refs(self, items):
        for x in items:
            if x[0] == "?star":
                if not self.all_refs(x[2]):
                    return False
            elif x[0] == "?cond":
                if not self.all_refs(x[2]) or not self.all_refs(x[3]):
                    return False
            elif x[0] not in ("ref", "dict", "list", "tup", "obj"):
                return False
        return True

    def present(self, v):
        if v == MISSING:
            return FALSE
        if v[0] == "ite":
            return ITE(v[1], self.present(v[2]), self.present(v[3]))
        return TRUE

    def e_IfExp(self, n, st):
        c = self.boolify(self.ev(n.test, st), st)
        t = self.truth(c, st)
        if t is True:
            return self.ev(n.body, st)
        if t is False:
            return self.ev(n.orelse, st)
        a, b = st.copy(), st.copy()
        a.assume(c, True)
        b.assume(c, False)
        va = self.ev(n.body, a)
        vb = self.ev(n.orelse, b)
        pc, facts = st.pc, st.facts
        st.become(self.merge(c, a, b))
        st.pc, st.facts = pc, facts
        return ITE(c, va, vb)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Lambda(self, n, st):
        return ("lambda", id(n), n, tuple(sorted(
            (k, v) for k, v in st.env.items() if k in self.freevars(n))))

    def freevars(self, n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

    def comp(self, n, st, mk):
        env = dict(st.env)
        def rec(i, s):
            if i == len(n.generators):
                return [mk(s)]
            g = n.generators[i]
            it = self.ev(g.iter, s)
            vals = self.unroll(it, s)
            out = []
            if vals is not None and len(vals) <= 40:
                for v in vals:
                    self.assign(g.target, v, s)
                    conds = []
                    ok = True
                    for f in g.ifs:
                        c = self.ev(f, s)
                        t = self.truth(c, s)
                        if t is False:
                            ok = False
                        elif t is None:
                            conds.append(c)
                    if ok:
                        r = rec(i + 1, s)
                        for c in conds:
                            r = [("?cond", c, tuple(r), ())]
                        out += r
                return out
            elem = self.star_elem(it, s)
            self.assign(g.target, elem, s)
            conds = [self.ev(f, s) for f in g.ifs]
            facts, loops = s.facts, s.loops
            e = ("elem", self.freeze(s, it))
            s.loops = loops + (e,)
            for c in conds:
                s.facts = s.facts | factset(c, True)
            r = rec(i + 1, s)
            s.facts, s.loops = facts, loops
            for c in conds:
                r = [("?cond", self.freeze(s, c), tuple(r), ())]
            return [("?star", e, tuple(r))]
        items = rec(0, st)
        for k in list(st.env):
            if k not in env:
                del st.env[k]
        st.env.update(env)
        return items

    def e_ListComp(self, n, st):
        return self.new_list(st, self.comp(n, st, lambda s: self.ev(n.elt, s)))

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        items = self.comp(n, st, lambda s: ("kv", self.ev(n.key, s),
                                            self.ev(n.value, s)))
        o = HObj("dict")
        for x in items:
            if x[0] == "kv" and x[1][0] == "c":
                o.d[x[1]] = x[2]
            else:
                o.extra = o.extra + (x,)
        return self.alloc(st, o)

    def e_Starred(self, n, st):
        return ("?splice", self.ev(n.value, st))

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value else NONE
        self.event("@yield", v, (v,), (), st, n)
        return ("top", "yield")

    # ---- iteration ------------------------------------------------------
    def unroll(self, t, st):
        """Concrete list of element terms, or None."""
        if t[0] == "tup":
            return list(t[1:])
        if t[0] == "c" and isinstance(t[2], (tuple, list)):
            return [C(x) for x in t[2]]
        if t[0] == "class" and isinstance(t[1], Class) and any(
                ast.unparse(b).split(".")[-1] in ("Enum", "IntEnum")
                for b in t[1].node.bases):
            self.enums[t[1].name] = t[1]
            return [("enum", t[1].name, k) for k in t[1].consts]
        if t[0] == "view":
            o = self.obj(st, t[2])
            if o is None or o.kind != "dict" or o.extra:
                return None
            if any(self.present(v) != TRUE for v in o.d.values()):
                return None
            if t[1] == "items":
                return [("tup", k, v) for k, v in o.d.items()]
            if t[1] == "keys":
                return list(o.d)
            return list(o.d.values())
        o = self.obj(st, t)
        if o is not None:
            if o.kind == "list" and all(
                    x[0] not in ("?cond", "?star", "?splice")
                    for x in o.items):
                return list(o.items)
            if o.kind == "dict" and not o.extra and all(
                    self.present(v) == TRUE for v in o.d.values()):
                return list(o.d)
        if t[0] == "call" and t[1] == ("ext", "zip") and not t[3]:
            cols = [self.unroll(x, st) for x in t[2]]
            if cols and all(c is not None for c in cols):
                return [("tup",) + r for r in zip(*cols)]
        if t[0] == "call" and t[1] == ("ext", "enumerate") and len(t[2]) == 1:
            c = self.unroll(t[2][0], st)
            if c is not None:
                return [("tup", C(i), x) for i, x in enumerate(c)]
        return None

    def list_extend(self, st, ref, other):
        vals = self.unroll(other, st)
        oo = self.obj(st, other)
        m = self.mut(st, ref)
        if vals is not None:
            m.items = m.items + tuple(vals)
        elif oo is not None and oo.kind == "list":
            m.items = m.items + oo.items
        else:
            m.items = m.items + (("?splice", other),)

    # ---- calls ----------------------------------------------------------
    def e_Call(self, n, st):
        if self.lang:
            r = self.lang.call(self, n, st)
            if r is not None:
                return r
        fn = self.ev(n.func, st)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                vals = self.unroll(v, st)
                if vals is not None:
                    args += vals
                else:
                    args.append(("?splice", v))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                o = self.obj(st, v)
                if o is not None and o.kind == "dict" and not o.extra:
                    for kk, vv in o.d.items():
                        kwargs[kk[2]] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if st.dead:
            return ("top", "dead")
        return self.call(fn, args, kwargs, st, n)

    def name_of(self, fn):
        if fn[0] == "ext":
            return fn[1]
        if fn[0] == "func":
            return fn[1].qual
        if fn[0] == "bound":
            return fn[2].qual
        if fn[0] == "class":
            return fn[1].name
        if fn[0] == "attr":
            return "." + fn[2]
        if fn[0] == "mod":
            return fn[1]
        return "?"

    def call(self, fn, args, kwargs, st, n):
        name = self.name_of(fn)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, fn, args, kwargs, n)
            if r is not None:
                return r
        if fn[0] == "ite":
            # gated callee
            a, b = st.copy(), st.copy()
            a.assume(fn[1], True)
            b.assume(fn[1], False)
            va = self.call(fn[2], args, kwargs, a, n)
            vb = self.call(fn[3], args, kwargs, b, n)
            pc, facts = st.pc, st.facts
            st.become(self.merge(fn[1], a, b))
            st.pc, st.facts = pc, facts
            return ITE(fn[1], va, vb)
        if fn[0] == "func":
            return self.call_func(fn[1], args, kwargs, st, n)
        if fn[0] == "bound":
            return self.call_func(fn[2], [fn[1]] + args, kwargs, st, n)
        if fn[0] == "localfunc":
            return self.call_local(fn[2], args, kwargs, st, n)
        if fn[0] == "lambda":
            env = st.env
            st.env = dict(env)
            st.env.update(dict(fn[3]))
            for p, a in zip(fn[2].args.args, args):
                st.env[p.arg] = a
            v = self.ev(fn[2].body, st)
            st.env = env
            return v
        if fn[0] == "class":
            return self.construct(fn[1], args, kwargs, st, n)
        if fn[0] == "attr":
            r = self.builtin_method(fn[1], fn[2], args, kwargs, st, n)
            if r is not None:
                return r
            # a helper method called on the object under analysis
            c = self.recv.get(fn[1])
            f = self.prog.find_method(c, fn[2]) if c is not None else None
            if f is not None and not f.is_static and \
                    not f.is_classmethod and f.key not in self.opaque and \
                    f.qual not in self.opaque:
                return self.call_func(f, [fn[1]] + args, kwargs, st, n)
        if fn[0] == "ext":
            r = self.builtin_func(fn[1], args, kwargs, st, n)
            if r is not None:
                return r
        return self.unknown(name, fn, args, kwargs, st, n)

    def unknown(self, name, fn, args, kwargs, st, n):
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs.items()))
        self.event(name, fn, fa, fk, st, n)
        return ("call", self.freeze(st, fn), fa, fk)

    def event(self, name, fn, args, kwargs, st, n):
        if not self.record:
            return
        f = self.stack[-1] if self.stack else None
        self.events.append(Event(
            name, self.freeze(st, fn), tuple(self.freeze(st, a) for a in args),
            kwargs, st.facts, st.loops, n, f, tuple(self.stack)))

    def construct(self, cls, args, kwargs, st, n):
        if self.is_enum(cls) and len(args) == 1:
            if args[0][0] == "enum":
                return args[0]
            r = self.enum_map(args[0], lambda x: x if x[0] == "enum" else
                              self.enum_member(cls, x[2])
                              if x[0] == "c" else None)
            if r is not None:
                return r
        if self.is_exc(cls) or self.is_enum(cls) or cls.key in self.opaque \
                or cls.name in self.opaque:
            return self.unknown(cls.name, ("class", cls), args, kwargs, st, n)
        r = self.alloc(st, HObj("inst", cls))
        self.event("@new." + cls.name, ("class", cls), tuple(args),
                   tuple(kwargs.items()), st, n)
        f = self.prog.find_method(cls, "__init__")
        if f is not None:
            self.call_func(f, [r] + args, kwargs, st, n)
        return r

    def is_enum(self, cls):
        return any("Enum" in ast.unparse(b) for b in cls.node.bases)

    def enum_value(self, t):
        """Constant behind an enumeration member (None if not literal)."""
        if t[0] == "c":
            return t
        if t[0] != "enum" or t[1] not in self.enums:
            return None
        c = self.prog.find_const(self.enums[t[1]], t[2])
        if c is None or not isinstance(c[1], ast.Constant):
            return None
        return C(c[1].value)

    def enum_member(self, cls, v):
        self.enums[cls.name] = cls
        for s in cls.node.body:
            if isinstance(s, ast.Assign) and \
                    isinstance(s.value, ast.Constant) and \
                    s.value.value == v and \
                    isinstance(s.targets[0], ast.Name):
                return ("enum", cls.name, s.targets[0].id)
        return None

    def hkey(self, k, st):
        """A key of a dictionary whose equality with others is known."""
        if self.lang is not None:
            return k[0] == "c"
        return k[0] in ("c", "enum") or self.plain_inst(k, st) or \
            k[0] == "tup" and all(self.hkey(x, st) for x in k[1:])

    def plain_inst(self, t, st):
        """An object compared by identity."""
        o = self.obj(st, t)
        return o is not None and o.kind == "inst" and \
            isinstance(o.cls, Class) and \
            not self.prog.find_method(o.cls, "__eq__") and \
            not any("dataclass" in ast.unparse(d)
                    for d in o.cls.node.decorator_list)

    def is_int_enum(self, t):
        if t[0] == "c":
            return isinstance(t[2], int)
        return t[0] == "enum" and t[1] in self.enums and any(
            "IntEnum" in ast.unparse(b)
            for b in self.enums[t[1]].node.bases)

    def is_exc(self, cls):
        names = [ast.unparse(b) for b in cls.node.bases]
        return any(x.endswith("Exception") or x.endswith("Error")
                   for x in names)

    def call_func(self, f, args, kwargs, st, n):
        if f.key in self.opaque or f.qual in self.opaque or \
                len(self.stack) >= self.max_depth or \
                sum(1 for x in self.stack if x is f) >= 1 or f.is_abstract:
            return self.unknown(f.qual, ("func", f), args, kwargs, st, n)
        return self.run_body(f, f.node, args, kwargs, st, n)

    def call_local(self, node, args, kwargs, st, n):
        f = self.stack[-1]
        if len(self.stack) >= self.max_depth:
            return ("top", "depth")
        outer = dict(st.env)
        v = self.run_body(f, node, args, kwargs, st, n, outer)
        return v

    def run_body(self, f, node, args, kwargs, st, n, outer=None):
        env = self.bind(f, node, args, kwargs, st)
        saved, saved_pc = st.env, st.pc
        saved_facts, saved_loops = st.facts, st.loops
        st.env = dict(outer) if outer else {}
        st.env.update(env)
        self.stack.append(f)
        self.analysed.add(f.key)
        exits = self.block(node.body, st)
        self.stack.pop()
        outs = [(v, s) for k, v, s in exits if k == "return"]
        if not st.dead:
            outs.append((NONE, st.copy()))
        if not outs:
            st.dead = True
            st.env = saved
            return ("top", "noreturn")
        v, s = self.merge_all(saved_pc, outs)
        facts = s.facts
        st.become(s)
        st.dead = False
        self.last_env = s.env
        st.env, st.pc, st.loops = saved, saved_pc, saved_loops
        st.facts = saved_facts | facts if len(outs) == 1 else \
            saved_facts | frozenset(facts)
        return v

    def bind(self, f, node, args, kwargs, st):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
        dm = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                dm[k] = d
        for p in names + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p in dm:
                    self.stack.append(f)
                    e, st.env = st.env, {}
                    env[p] = self.ev(dm[p], st)
                    st.env = e
                    self.stack.pop()
                else:
                    env[p] = ("sym", p)
        if a.vararg:
            env[a.vararg.arg] = ("tup",) + tuple(rest)
        if a.kwarg:
            o = HObj("dict", d={C(k): v for k, v in kwargs.items()
                                if k not in env})
            env[a.kwarg.arg] = self.alloc(st, o)
        return env

    # ---- builtins -------------------------------------------------------
    def builtin_func(self, name, args, kwargs, st, n):
        if name in ("list", "set", "tuple", "sorted", "frozenset", "reversed",
                    "iter", "deque", "collections.deque"):
            if not args:
                return self.new_list(st, ())
            if name == "reversed":
                vals = self.unroll(args[0], st)
                return self.new_list(st, vals[::-1]) if vals is not None \
                    else None
            vals = self.unroll(args[0], st)
            if vals is not None:
                return self.new_list(st, vals)
            o = self.obj(st, args[0])
            if o is not None and o.kind == "list":
                return self.new_list(st, o.items)
            if o is None:
                return self.new_list(st, [("?splice", args[0])])
            return None
        if name == "dict":
            o = HObj("dict", d={C(k): v for k, v in kwargs.items()})
            if args:
                so = self.obj(st, args[0])
                if so is None or so.kind != "dict":
                    return None
                o = so.copy()
                o.d.update({C(k): v for k, v in kwargs.items()})
            return self.alloc(st, o)
        if name == "str" and len(args) == 1:
            if self.is_str(args[0]):
                return args[0]
            if args[0][0] == "c":
                return C(str(args[0][2]))
            o = self.obj(st, args[0])
            if o is not None and o.kind == "inst" and \
                    isinstance(o.cls, Class) and self.lang is None:
                f = self.prog.find_method(o.cls, "__str__")
                if f:
                    return self.call_func(f, [args[0]], {}, st, None)
            return ("op", "fmt", args[0])
        if name == "bool" and len(args) == 1:
            t = self.truth(args[0], st)
            return C(t) if t is not None else ("op", "bool", args[0])
        if name == "int" and len(args) == 1:
            v = self.enum_map(args[0], lambda x: self.enum_value(x)
                              if self.is_int_enum(x) else None)
            if v is not None:
                return v
        if name in ("max", "min") and args and not kwargs:
            vals = args if len(args) > 1 else self.unroll(args[0], st)
            pick = max if name == "max" else min

            def best(vs, done):
                if not vs:
                    return pick(done, key=lambda v: self.enum_value(v)[2])
                if vs[0][0] == "ite":
                    x = best((vs[0][2],) + vs[1:], done)
                    y = best((vs[0][3],) + vs[1:], done)
                    return None if x is None or y is None else \
                        ITE(vs[0][1], x, y)
                if not self.is_int_enum(vs[0]) or \
                        self.enum_value(vs[0]) is None:
                    return None
                return best(vs[1:], done + (vs[0],))
            if vals and len(vals) <= 6:
                r = best(tuple(vals), ())
                if r is not None:
                    return r
        if name == "len" and len(args) == 1:
            vals = self.unroll(args[0], st)
            if vals is not None:
                return C(len(vals))
            if args[0][0] == "c" and isinstance(args[0][2], str):
                return C(len(args[0][2]))
            return ("op", "len", self.freeze(st, args[0]))
        if name in ("any", "all") and len(args) == 1 and self.lang is None:
            vals = self.unroll(args[0], st)
            if vals is not None:
                ts = [self.truth(v, st) for v in vals]
                stop = name == "any"
                if stop in ts:
                    return C(stop)
                if None not in ts:
                    return C(not stop)
        if name == "isinstance" and len(args) == 2 and self.lang is None:
            o = self.obj(st, args[0])
            if o is not None and o.kind == "inst" and \
                    isinstance(o.cls, Class) and args[1][0] == "class":
                names = self.prog.ancestors(o.cls)
                if names is not None:
                    return C(args[1][1] in names)
        if name in ("isinstance", "hasattr", "callable", "id"):
            return ("call", ("ext", name),
                    tuple(self.freeze(st, a) for a in args), ())
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.attr(args[0], args[1][2], st, n)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            self.setattr(args[0], args[1][2], args[2], st)
            return NONE
        if name in ("enumerate", "zip"):
            return ("call", ("ext", name), tuple(args), ())
        if name == "map" and len(args) == 2:
            vals = self.unroll(args[1], st)
            if vals is not None:
                return self.new_list(st, [self.call(args[0], [v], {}, st, n)
                                          for v in vals])
        if name == "copy.copy" or name == "copy.deepcopy":
            o = self.obj(st, args[0]) if args else None
            if o is not None:
                return self.alloc(st, o.copy())
        if name == "super":
            f = self.stack[-1]
            b = self.prog.bases(f.cls) if f.cls is not None else []
            if b and "self" in st.env:
                return ("super", b[0], st.env["self"])
        return None

    def builtin_method(self, base, name, args, kwargs, st, n):
        if base[0] == "super":
            f = self.prog.find_method(base[1], name)
            if f is not None:
                return self.call_func(f, [base[2]] + args, kwargs, st, n)
            return NONE
        o = self.obj(st, base)
        if o is not None and o.kind == "list":
            if name in ("append", "add"):
                m = self.mut(st, base)
                m.items = m.items + (args[0],)
                return NONE
            if name in ("extend", "update"):
                for a in args:
                    self.list_extend(st, base, a)
                return NONE
            if name == "insert" and args[0] == C(0):
                m = self.mut(st, base)
                m.items = (args[1],) + m.items
                return NONE
            if name == "copy":
                return self.new_list(st, o.items)
            if self.lang is None and not any(
                    x[0] in ("?cond", "?star", "?splice") for x in o.items):
                if name in ("pop", "popleft") and o.items and (
                        not args or args[0] == C(0)):
                    m = self.mut(st, base)
                    i = 0 if args or name == "popleft" else -1
                    m.items = o.items[1:] if i == 0 else o.items[:-1]
                    return o.items[i]
                if name == "appendleft":
                    m = self.mut(st, base)
                    m.items = (args[0],) + o.items
                    return NONE
                if name in ("intersection", "difference") and len(args) == 1:
                    vals = self.unroll(args[0], st)
                    if vals is not None and all(
                            v[0] in ("ref", "c", "enum")
                            for v in tuple(vals) + o.items):
                        want = name == "intersection"
                        return self.new_list(st, [
                            x for x in o.items if (x in vals) == want])
            if name == "union":
                r = self.new_list(st, o.items)
                for a in args:
                    self.list_extend(st, r, a)
                return r
        if o is not None and o.kind == "dict":
            if name in ("items", "keys", "values") and not args:
                return ("view", name, base)
            if name == "get":
                k = args[0]
                d = args[1] if len(args) > 1 else NONE
                hk = k[0] == "c" or self.hkey(k, st)
                if hk and k in o.d:
                    v = o.d[k]
                    return self.subst_missing(v, d)
                if hk and not o.extra:
                    return d
            if name in ("setdefault", "pop") and args and \
                    self.lang is None and self.hkey(args[0], st) and \
                    not o.extra:
                k = args[0]
                v = o.d.get(k)
                if name == "setdefault":
                    if v is None:
                        v = args[1] if len(args) > 1 else NONE
                        self.mut(st, base).d[k] = v
                    return v
                if v is not None:
                    del self.mut(st, base).d[k]
                    return v
                if len(args) > 1:
                    return args[1]
            if name == "clear" and self.lang is None:
                m = self.mut(st, base)
                m.d, m.extra = {}, ()
                return NONE
            if name == "update" and args:
                so = self.obj(st, args[0])
                if so is not None and so.kind == "dict":
                    m = self.mut(st, base)
                    m.d.update(so.d)
                    m.extra = m.extra + so.extra
                    return NONE
            if name == "copy":
                return self.alloc(st, o.copy())
        if base[0] == "view":
            return None
        if base[0] == "c" and isinstance(base[2], (str, bytes)) and \
                name in ("strip", "lstrip", "rstrip", "lower", "upper",
                         "startswith", "endswith", "decode", "encode",
                         "replace", "removesuffix", "removeprefix") and \
                not kwargs and all(a[0] == "c" for a in args):
            try:
                return C(getattr(base[2], name)(*[a[2] for a in args]))
            except Exception:
                pass
        if base[0] == "op" and base[1] == "fmt" or base[0] == "c" and \
                isinstance(base[2], str):
            if name == "format":
                return self.str_format(base, args, kwargs)
            if name == "join" and len(args) == 1 and base[0] == "c":
                vals = self.unroll(args[0], st)
                if vals is not None:
                    parts = []
                    for i, v in enumerate(vals):
                        if i:
                            parts.append(base)
                        parts.append(v)
                    return self.fmt(parts)
            if base[0] == "c" and all(a[0] == "c" for a in args) and name in (
                    "upper", "lower", "replace", "strip", "lstrip", "rstrip",
                    "startswith", "endswith", "split", "title",
                    "capitalize", "splitlines"):
                r = getattr(base[2], name)(*[a[2] for a in args])
                if isinstance(r, list):
                    return self.new_list(st, [C(x) for x in r])
                return C(r)
        if name == "encode" or name == "decode":
            return base
        return None

    def subst_missing(self, v, d):
        if v == MISSING:
            return d
        if v[0] == "ite":
            return ITE(v[1], self.subst_missing(v[2], d),
                       self.subst_missing(v[3], d))
        return v

    def str_format(self, base, args, kwargs):
        if base[0] != "c":
            return None
        import string
        parts = []
        i = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(base[2]):
                parts.append(C(lit))
                if field is None:
                    continue
                if field == "":
                    parts.append(args[i])
                    i += 1
                elif field.isdigit():
                    parts.append(args[int(field)])
                elif field in kwargs:
                    parts.append(kwargs[field])
                else:
                    return None
        except Exception:
            return None
        return self.fmt(parts)

    # ---- entry ----------------------------------------------------------
    def run(self, f, args=None, kwargs=None, st=None):
        """Interpret a function; parameters not given are symbols."""
        st = st or State()
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args or []))
        env.update(kwargs or {})
        full = {}
        for p in names + [x.arg for x in a.kwonlyargs]:
            full[p] = env.get(p, ("sym", p))
        if a.vararg:
            full[a.vararg.arg] = ("sym", a.vararg.arg)
        if a.kwarg:
            full[a.kwarg.arg] = ("sym", a.kwarg.arg)
        if f.cls is not None and names and not f.is_static and \
                not f.is_classmethod and full[names[0]][0] == "sym":
            self.recv = {full[names[0]]: f.cls}
        st.env = full
        self.stack.append(f)
        self.analysed.add(f.key)
        exits = self.block(f.node.body, st)
        self.stack.pop()
        outs = [(v, s) for k, v, s in exits if k == "return"]
        if not st.dead:
            outs.append((NONE, st.copy()))
        if not outs:
            return ("top", "noreturn"), st
        v, s = self.merge_all((), outs)
        return v, s
