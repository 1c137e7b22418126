"""Linear facts about unsigned quantities on a path: values as sums of named atoms, and a small prover for inequalities."""
from trace import *


def ladd(a, b, k=1):
    r = dict(a)
    for x, n in b.items():
        r[x] = r.get(x, 0) + k * n
        if r[x] == 0:
            del r[x]
    return r


CASTS = ("conv", "cast")


def lin(sim, env, v, depth=0):
    """Value as {atom: coefficient, 1: constant}."""
    if depth > 20:
        return {flat(v): 1}
    n = 0
    while v[0] in ("r", "kr") and n < 6:
        w = sim.ident(env, v)
        if w == v or w[0] not in ("c", "v", "r", "kr", "y"):
            v = ("y", w)
            break
        v = w
        n += 1
    if v[0] == "c" and isinstance(v[1], int):
        return {1: v[1]} if v[1] else {}
    if v[0] == "y":
        s = v[1]
        ph = env.get(("φ", s))
        if ph is not None and ph[0] == "c":
            return {1: ph[1]} if ph[1] else {}
        return lins(sim, env, s, depth)
    return {flat(v): 1}


MINMAX = {}


def lins(sim, env, s, depth=0):
    if isinstance(s, tuple) and s:
        if s[0] == "lin":
            return thaw(s[1])
        if s[0] == "len" and len(s) > 1:
            if isinstance(s[1], str):
                return {"len(%s)" % s[1]: 1}
            if isinstance(s[1], tuple) and s[1] and s[1][0] == "slice":
                return thaw(s[1][3])
        if s[0] in ("min", "max") and len(s) == 3:
            a, b = thaw(s[1][1]), thaw(s[2][1])
            nm = "%s(%s,%s)" % ((s[0],) + tuple(sorted((show(a), show(b)))))
            MINMAX[nm] = (s[0], a, b)
            return {nm: 1}
        if s[0] == "bin" and s[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked") and len(s) >= 4:
            a = lin(sim, env, val(s[2]), depth + 1)
            b = lin(sim, env, val(s[3]), depth + 1)
            return ladd(a, b, 1 if s[1].startswith("Add") else -1)
        if s[0] == "bin" and s[1] == "Mul":
            a = lin(sim, env, val(s[2]), depth + 1)
            b = lin(sim, env, val(s[3]), depth + 1)
            for x, y in ((a, b), (b, a)):
                if set(x) <= {1}:
                    return {k: n * x.get(1, 0) for k, n in y.items() if n * x.get(1, 0)}
        if s[0] == "fld" and s[2] in ("0", 0) and isinstance(s[1], tuple) and s[1] and s[1][0] == "bin":
            return lins(sim, env, s[1], depth + 1)
        if s[0] == "val":
            return lin(sim, env, s[1], depth + 1)
        if s[0] == "ld" and isinstance(s[1], tuple) and s[1] and s[1][0] in ("c", "y"):
            return lin(sim, env, s[1], depth + 1)
    return {flats(s): 1}


def val(x):
    if isinstance(x, tuple) and x and x[0] in ("c", "v", "y", "r", "kr", "clo", "fn", "s"):
        return x
    return ("y", x)


def show(l):
    t = []
    for k in sorted(l, key=str):
        n = l[k]
        s = str(abs(n)) if k == 1 else k if abs(n) == 1 else "%d*%s" % (abs(n), k)
        t.append(("-" if n < 0 else "+") + s)
    r = "".join(t) or "0"
    return r[1:] if r.startswith("+") else r


NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}


def rel(op, a, b):
    """Constraints l >= 0 for a `op` b."""
    d = ladd(b, a, -1)          # b - a
    e = ladd(a, b, -1)          # a - b
    if op == "Lt":
        return [ladd(d, {1: 1}, -1)]
    if op == "Le":
        return [d]
    if op == "Gt":
        return [ladd(e, {1: 1}, -1)]
    if op == "Ge":
        return [e]
    if op == "Eq":
        return [d, e]
    if op == "Ne":              # quantities are never negative
        return [ladd(x, {1: 1}, -1) for x in (d, e) if x and all(n > 0 for n in x.values())]
    return []


ORD = {"Less": "Lt", "Equal": "Eq", "Greater": "Gt"}


def facts_of(sim, env, facts, st=(), cmp="cmp"):
    """The inequalities a path has established, from its branches and from ('cmp', a, b, ordering) trace items."""
    out = []
    for s, v in facts.items():
        if isinstance(s, tuple) and s and s[0] == "bin" and s[1] in NEG and v[0] == "c":
            op = s[1] if v[1] else NEG[s[1]]
            out += rel(op, lin(sim, env, val(s[2])), lin(sim, env, val(s[3])))
    for x in st:
        if x[0] == cmp and len(x) == 4:
            out += rel(ORD[x[3]], thaw(x[1]), thaw(x[2]))
    return out


def freeze(l):
    return tuple(sorted(l.items(), key=str))


def thaw(t):
    return dict(t)


def proves(cons, goal, depth=4):
    """goal >= 0 follows: it is a sum of at most `depth` constraints, non-negative atoms and a non-negative constant."""
    cons = [c for c in cons if c]
    for k in {k for c in cons + [goal] for k in c if k in MINMAX}:
        w, a, b = MINMAX[k]
        for x in (a, b):
            cons.append(ladd(x, {k: 1}, -1) if w == "min" else ladd({k: 1}, x, -1))
    seen = set()

    def rec(g, d, i):
        if all(n >= 0 for n in g.values()):
            return True
        if d == 0:
            return False
        f = (freeze(g), d)
        if f in seen:
            return False
        seen.add(f)
        # an atom with a negative coefficient must be cancelled by a constraint in which it is negative
        bad = [k for k, n in g.items() if n < 0]
        for k in bad:
            for c in cons:
                if c.get(k, 0) < 0 or (k == 1 and c.get(1, 0) < 0):
                    if rec(ladd(g, c, -1), d - 1, 0):
                        return True
            break
        return False
    return rec(goal, depth, 0)


def zero(cons, l):
    """l == 0 follows."""
    return not l or (proves(cons, l) and proves(cons, {k: -n for k, n in l.items()}))
