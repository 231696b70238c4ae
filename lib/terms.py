"""Rewriting of gated terms."""
from lib.interp import canon, TRUE, FALSE, NOT, factset


def rewrite(t, step):
    """Bottom-up rewriting with sharing."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in memo:
            return memo[x]
        if x[0] == "c":
            r = step(x)
        else:
            y = tuple(go(z) if isinstance(z, tuple) else z for z in x)
            r = step(y) if isinstance(y[0], str) else y
        memo[x] = r
        return r
    return go(t)


def simplify_under(t, cond, pol):
    """Simplify t knowing that cond has truth value pol."""
    facts = dict(factset(cond, pol))

    def step(x):
        if x[0] == "ite":
            c, p = canon(x[1], True)
            if c in facts:
                return x[2] if facts[c] == p else x[3]
            if c[0] == "op" and c[1] == "and":
                vals = []
                for y in c[2:]:
                    yc, yp = canon(y, True)
                    vals.append(facts[yc] == yp if yc in facts else None)
                if all(v is True for v in vals):
                    return x[2] if p else x[3]
                if any(v is False for v in vals):
                    return x[3] if p else x[2]
        return x
    from lib.terms import rewrite as rw
    return rw(t, step)


def decide(c, facts):
    """Truth value of condition c under {canonical term: bool}, or None."""
    c, p = canon(c, True)
    if c[0] == "c":
        return bool(c[2]) == p
    if c in facts:
        return facts[c] == p
    if c[0] == "op" and c[1] in ("and", "or"):
        vs = [decide(x, facts) for x in c[2:]]
        stop = c[1] == "or"
        if stop in vs:
            return stop == p
        if all(v is (not stop) for v in vs):
            return (not stop) == p
    if c[0] == "ite":
        v = decide(c[1], facts)
        if v is not None:
            r = decide(c[2] if v else c[3], facts)
        else:
            a, b = decide(c[2], facts), decide(c[3], facts)
            r = a if a == b else None
        return None if r is None else r == p
    return None


def consistent(facts):
    """No compound fact is contradicted by facts about its parts."""
    for c, p in facts.items():
        if c[0] == "op" and c[1] in ("and", "or") or c[0] == "ite":
            rest = dict(facts)
            del rest[c]
            if decide(c, rest) is (not p):
                return False
    return True


def leaves(t, facts=None, path=()):
    """(leaf, facts) for every branch of nested choices which is not
    contradictory."""
    facts = facts if facts is not None else {}
    if t[0] != "ite":
        yield t, facts
        return
    v = decide(t[1], facts)
    for pol, x in ((True, t[2]), (False, t[3])):
        if v is (not pol):
            continue
        f = dict(facts)
        f.update(dict(factset(t[1], pol)))
        if not consistent(f):
            continue
        yield from leaves(x, f)
