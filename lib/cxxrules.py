"""Rules over the outcomes of analysed C++ functions.

An outcome is described by readable facts (see lib.cxxpass.fact); a rule names
the facts which must hold as (regular expression, polarity).
"""
import re
from lib.cxxcmp import (Budget, Explore, callee, is_cmp, path)
from lib.cxxpass import exits, fact, passes
from lib.interp import subterms
from lib.pyfront import AnalysisBroken

READONLY = {"DifferentialFunctionComparator::cmpFieldAccess": False,
            "DifferentialFunctionComparator::findMatchingOpWithOffset": True}


def names(facts):
    """[(readable fact, polarity)]; conjunctions and negations unfolded."""
    out = []

    def add(t, p):
        if t[0] == "eq":
            return
        if t[0] == "op" and t[1] == "not":
            return add(t[2], not p)
        if t[0] == "op" and t[1] in ("and", "or") and \
                p == (t[1] == "and"):
            for x in t[2:]:
                add(x, p)
        if t[0] == "op" and t[1] == "bool":
            return add(t[2], p)
        out.append((fact(t), p))
    for t, p in facts.items():
        add(t, p)
    return out


def holds(fs, need):
    """Whether all needed facts are among the facts.  An element of `need` is
    (regex, polarity) or a list of alternatives, each a list of such."""
    for n in need:
        if isinstance(n, list):
            if not any(holds(fs, alt) for alt in n):
                return False
            continue
        rx, pol = n
        if not any(p == pol and re.search(rx, f) for f, p in fs):
            return False
    return True


def with_used(facts, used, oracle):
    """Facts together with the atoms which the scenario decided."""
    out = dict(facts)
    for t in used:
        if t not in out:
            v = oracle(t)
            if v is not None:
                out[t] = v
    return out


def show_facts(fs, n=8):
    return ", ".join(("" if p else "not ") + f[:70] for f, p in fs[-n:])


def find_pass(ps, pred):
    """The innermost pass whose term satisfies pred (outer passes contain the
    terms of the inner ones)."""
    hit = [p for p in ps if any(pred(t) for t in subterms(p.term))]
    return hit[0] if hit else None


def main_pass(prog, q, opaque, pred, restoring=READONLY):
    fns = prog.fns(q)
    if len(fns) != 1:
        return None
    v, ic, st = passes(prog, fns[0], opaque, None, restoring)
    p = find_pass(ic.passes, pred)
    return (p, ic, v, st, fns[0]) if p is not None else None


def opaque_for(prog, q, keep, inline=()):
    return {f.q for f in prog.funcs.values()
            if f.q != q and f.q not in inline and
            (f.q.split("::")[-1] in keep or "Logger" in f.rel)}
