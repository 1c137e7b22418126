"""S03: abstract interpretation of the lifecycle word: lifecycle flags are enumerated, the count is split into
classes (zero / some / full) and never given a number, so every word of a class is covered at once."""
from kit import *
from rules import prop

STATES = ("Active", "Passive", "Destroyed", "Faulty", "Blocking")
SETTERS = {"set_active": "Active", "set_passive": "Passive", "set_destroyed": "Destroyed", "set_faulty": "Faulty", "set_blocking": "Blocking"}
TESTS = {"is_active": "Active", "is_destroyed": "Destroyed", "is_faulty": "Faulty", "is_blocking": "Blocking"}
WORD = "core::sync::atomic::Atomic<u64>"


def Y(*a):
    return ("y", a)


class Word(Rule):
    inline_depth = 10

    def __init__(self, prog, home, flags, q, rel=None, depth=0):
        self.prog = prog
        self.home = home
        self.F = flags
        self.q = q
        self.rel = rel
        self.masks = set()
        self.rets = set()
        self.rmw = set()
        self.depth = depth

    # state: (load id, list of writes)
    init = (0, ())

    def word(self, i):
        return Y("w", self.F, self.q, i)

    def may_inline(self, c, b):
        return b.file in self.home or (b.self_adt and last_seg(b.self_adt) == "SchedulingDecision") or b.kind == "Closure"

    def cntrel(self, a, b):
        """Order of two abstract counts: -1, 0, 1 or None."""
        def rank(v):
            if v == ("c", 0) or (v[0] == "y" and v[1][0] == "cnt" and v[1][1] in ("zero", "rem0")):
                return 0
            if v[0] == "y" and v[1][0] == "cnt" and v[1][1] in ("some", "rem+"):
                return 1
            if v[0] == "y" and v[1][0] == "cnt" and v[1][1] == "full":
                return 3
            if v[0] == "c" and v[1] in self.masks:
                return 3
            if v[0] == "c" and v[1] > 2 ** 20:
                return 2.5
            return None
        if a[0] == "y" and b[0] == "y" and b[1] == ("amt",) and a[1][0] == "cnt":
            return {"lt": 1, "eq": 0, "gt": -1}.get(self.rel)
        if a[0] == "y" and b[0] == "y" and a[1] == ("amt",) and b[1][0] == "cnt":
            return {"lt": -1, "eq": 0, "gt": 1}.get(self.rel)
        if a[0] == "c" and b[0] == "c":
            return None
        x, y = rank(a), rank(b)
        if x is None or y is None:
            return None
        if x == y and x in (1,):
            return None
        return (x > y) - (x < y)

    def arith(self, op, a, b):
        aw = a[0] == "y" and a[1][0] == "w"
        bw = b[0] == "y" and b[1][0] == "w"
        if op == "BitAnd" and (aw or bw):
            w, o = (a, b) if aw else (b, a)
            if o[0] == "c":
                m = o[1]
                if m & (m + 1) == 0 and m > 2 ** 32:
                    self.masks.add(m)
                    return Y("cnt", w[1][2], w[1][3])
                inv = m ^ (2 ** 64 - 1)
                if inv & (inv + 1) == 0 and inv > 2 ** 32:
                    self.masks.add(inv)
                    return ("c", w[1][1]) if isinstance(w[1][1], int) else Y("flags", w[1][1])
        if op in ("BitOr", "Add", "BitXor"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and y[0] == "y" and y[1][0] == "cnt" and len(y[1]) == 3 and (x[1] == 0 or x[1] > 2 ** 32):
                    return Y("w", x[1], y[1][1], y[1][2])
        if op == "Shr" and aw and b[0] == "c" and isinstance(a[1][1], int):
            self.masks.add((1 << b[1]) - 1)
            return ("c", a[1][1] >> b[1])
        if op == "Sub" and a[0] == "y" and a[1][0] == "cnt" and b == Y("amt"):
            return {"lt": Y("cnt", "rem+", 9), "eq": Y("cnt", "rem0", 9)}.get(self.rel, Y("wrapped"))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            r = self.cntrel(a, b)
            if r is not None:
                return ("c", int({"Eq": r == 0, "Ne": r != 0, "Lt": r < 0, "Le": r <= 0, "Gt": r > 0, "Ge": r >= 0}[op]))
        return None

    def known(self, sym):
        if sym[0] == "cnt":
            return ("c", 0) if sym[1] in ("zero", "rem0") else ("not", frozenset((0,)))
        return None

    def call(self, st, c):
        fn = c.fn
        if fn is None:
            return None
        i, ws = st
        n = fn.name
        if fn.self_ty and fn.self_ty.startswith("core::sync::atomic::Atomic<"):
            if n == "load":
                return Outcome(ret=self.word(1 - i), st=(1 - i, ws))
            if n in ("fetch_add", "fetch_sub"):
                return Outcome(ret=self.word(i), st=(i, self.add(ws, (n, c.args[1]))))
            if n in ("compare_exchange", "compare_exchange_weak"):
                cur, new = c.args[1], c.args[2]
                j = 1 - i
                ok = Outcome(ret=("v", Sim.RES, "Ok", (("0", cur),)), st=(i, self.add(ws, ("cas", cur, new))))
                no = Outcome(ret=("v", Sim.RES, "Err", (("0", self.word(j)),)), st=(j, ws))
                return [ok, no]
            if n in ("fetch_update", "try_update", "update"):
                f = self.sim.load_through(c.env, c.args[3])
                j = 1 - i
                outs = []
                if f[0] == "clo":
                    b = self.prog.by_h.get(f[1])
                    r2 = Word(self.prog, self.home, self.F, self.q, self.rel)
                    s2 = Sim(self.prog, r2, 20000)
                    cs = ("r", (("l", 0, -1),)) if b.locals[1].startswith("&") else f
                    f = ("clo", f[1], tuple((n2, self.sim.freeze(c.env, x)) for n2, x in f[2]))
                    s2.run(b, args=[cs if cs[0] == "r" else f, self.word(j)], env={(("l", 0, -1),): f})
                    self.masks |= r2.masks
                    for v, w2 in r2.rets:
                        nv = v[3][0][1] if v[0] == "v" and v[3] else (None if v[0] == "v" else v)
                        if nv is None:
                            outs.append(Outcome(ret=("v", Sim.RES, "Err", (("0", self.word(j)),)), st=(j, ws)))
                        else:
                            outs.append(Outcome(ret=("v", Sim.RES, "Ok", (("0", self.word(j)),)), st=(j, self.add(ws, ("cas", self.word(j), nv)))))
                return outs or Outcome(st=(i, self.add(ws, (n, None))))
            if n in ("store", "swap", "fetch_or", "fetch_and", "fetch_xor", "fetch_nand", "fetch_max", "fetch_min"):
                return Outcome(ret=self.word(i), st=(i, self.add(ws, (n, c.args[1]))))
            return None
        if fn.krate == "core" and n in ("checked_sub", "wrapping_sub", "saturating_sub", "overflowing_sub") and c.args[1] == Y("amt"):
            a = c.args[0]
            if a[0] == "y" and a[1][0] == "cnt":
                rem = {"lt": Y("cnt", "rem+", 9), "eq": Y("cnt", "rem0", 9)}.get(self.rel)
                if n == "checked_sub":
                    return Outcome(ret=("v", Sim.OPT, "None", ()) if rem is None else ("v", Sim.OPT, "Some", (("0", rem),)))
                if n == "wrapping_sub":
                    return Outcome(ret=rem or Y("wrapped"))
                if n == "saturating_sub":
                    return Outcome(ret=rem or Y("cnt", "rem0", 9))
                if n == "overflowing_sub":
                    return Outcome(ret=("v", "tuple", None, (("0", rem or Y("wrapped")), ("1", ("c", int(rem is None))))))
        if n in ("eq", "ne") and len(c.args) == 2:
            a, b = (self.sim.load_through(c.env, x) for x in c.args)
            if a[0] == "v" and b[0] == "v" and a[1] == b[1]:
                if a[2] != b[2]:
                    return Outcome(ret=("c", int(n == "ne")))
                if a[3] == b[3]:
                    return Outcome(ret=("c", int(n == "eq")))
            r = self.arith("Eq", a, b)
            if r is not None:
                return Outcome(ret=("c", r[1] if n == "eq" else 1 - r[1]))
        return None

    def add(self, ws, x):
        return (ws + (x,))[:4]

    def ret(self, st, c, val):
        self.rets.add((val, st[1]))


def simulate(ctx, p, home, b, F, q, rel=None):
    r = Word(p, home, F, q, rel)
    s = Sim(p, r, 60000)
    args = [None] * b.argc
    for i in range(b.argc):
        ty = b.locals[i + 1]
        if rel is not None and ty in ("usize", "u64"):
            args[i] = Y("amt")
    try:
        s.run(b, args=args)
    except Budget as e:
        raise ToolError(str(e))
    ctx.simulated(s)
    return r


def word_functions(p):
    """Functions of the crate's lifecycle module that work on the word."""
    return [b for b in p.bodies if b.crate == "kompact" and b.kind in ("Fn", "AssocFn") and
            any(t.startswith("&" + WORD) for t in b.locals[1:b.argc + 1])]


@prop("S03")
def s03(ctx):
    p = ctx.prog("net")
    fns = word_functions(p)
    home = {b.file for b in fns}
    by = {}
    for b in fns:
        by.setdefault(b.name, []).append(b)
    flags = {}
    for n, S in SETTERS.items():
        ctx.anchor("state setter " + n, by.get(n, ()))
        for b in by.get(n, ()):
            for q in ("zero", "some", "full"):
                r = simulate(ctx, p, home, b, "F", q)
                for val, ws in r.rets:
                    one = len(ws) == 1 and ws[0][0] == "cas"
                    ctx.ob("setter-one-rmw", one, n, "%s changes the state word by %s instead of one compare-and-swap" % (n, [x[0] for x in ws]), where(b))
                    if not one:
                        continue
                    cur, new = ws[0][1], ws[0][2]
                    okw = new[0] == "y" and new[1][0] == "w" and cur[0] == "y" and cur[1][0] == "w"
                    ctx.ob("setter-keeps-count", okw and new[1][2:] == cur[1][2:], n, "%s installs a word whose pending-work count is not the count of the word it replaces" % n, where(b))
                    if okw:
                        flags.setdefault(S, set()).add(new[1][1])
                ctx.ob("setter-returns", bool(r.rets), n, "%s never returns" % n, where(b))
    single = {S: next(iter(v)) for S, v in flags.items() if len(v) == 1 and isinstance(next(iter(v)), int)}
    for S in STATES:
        ctx.ob("one-flag-per-state", S in single, S, "the setter of %s does not install one fixed flag pattern: %s" % (S, sorted(map(str, flags.get(S, ())))))
    if len(single) < 5:
        return
    ctx.ob("flags-distinct", len(set(single.values())) == 5, "states", "two lifecycle states share a flag pattern: %s" % single)
    masks = set()
    for n, S in TESTS.items():
        ctx.anchor("state test " + n, by.get(n, ()))
        for b in by.get(n, ()):
            for S2, F in single.items():
                for q in ("zero", "some", "full"):
                    r = simulate(ctx, p, home, b, F, q)
                    masks |= r.masks
                    got = {v for v, w in r.rets}
                    ctx.ob("test-exact", got == {("c", int(S == S2))}, "%s/%s/%s" % (n, S2, q), "%s gives %s for a component that is %s with %s pending work" % (n, show(got), S2, q), where(b))
                    ctx.ob("test-pure", all(not w for v, w in r.rets), n, "%s writes the state word" % n, where(b))
    for b in by.get("load", []):
        for S, F in single.items():
            for q in ("zero", "some", "full"):
                r = simulate(ctx, p, home, b, F, q)
                masks |= r.masks
                for v, w in r.rets:
                    good = v[0] == "v" and v[2] == S and all(x[0] == "y" and x[1][0] == "cnt" and x[1][1] == q for _, x in v[3])
                    ctx.ob("load-exact", good, "%s/%s" % (S, q), "loading the word of a component that is %s with %s pending work gives %s" % (S, q, show([v])), where(b))
                ctx.ob("load-returns", bool(r.rets), S, "loading the word of a %s component never returns" % S, where(b))
    ctx.anchor("state load", by.get("load", ()))
    ctx.anchor("work increment", by.get("increment_work", ()))
    ctx.anchor("work decrement", by.get("decrement_work", ()))
    for b in by.get("increment_work", []):
        for S, F in single.items():
            for q in ("zero", "some", "full"):
                r = simulate(ctx, p, home, b, F, q)
                masks |= r.masks
                k = "%s/%s" % (S, q)
                if q == "full":
                    ctx.ob("overflow-aborts", not r.rets, k, "adding work to a full count returns instead of aborting", where(b))
                    continue
                ctx.ob("increment-returns", bool(r.rets), k, "adding work to a %s component aborts" % S, where(b))
                want = "NoWork" if S in ("Destroyed", "Faulty", "Blocking") else ("Schedule" if q == "zero" else "AlreadyScheduled")
                for v, ws in r.rets:
                    one = [x for x in ws] == [("fetch_add", ("c", 1))] or plus(ws, F, q)
                    ctx.ob("increment-one-rmw", one, "rmw", "adding work is not one atomic addition of 1 (%s)" % [x[0] for x in ws], where(b))
                    ctx.ob("increment-decision", v[0] == "v" and v[2] == want, k, "adding work to a %s component with %s pending work says %s instead of %s" % (S.lower(), q, show([v]), want), where(b))
    for b in by.get("decrement_work", []):
        for S, F in single.items():
            for q, rel in (("zero", "eq"), ("zero", "gt"), ("some", "lt"), ("some", "eq"), ("some", "gt"), ("full", "lt"), ("full", "eq")):
                r = simulate(ctx, p, home, b, F, q, rel)
                masks |= r.masks
                k = "%s/%s/%s" % (S, q, rel)
                if rel == "gt":
                    ctx.ob("underflow-aborts", not r.rets, k, "taking out more work than is pending returns instead of aborting", where(b))
                    continue
                ctx.ob("decrement-returns", bool(r.rets), k, "taking out pending work aborts", where(b))
                want = "Schedule" if rel == "lt" else "NoWork"
                for v, ws in r.rets:
                    ctx.ob("decrement-one-rmw", list(ws) == [("fetch_sub", Y("amt"))], "rmw", "taking out work is not one atomic subtraction of the amount given (%s)" % [(x[0], x[1:]) for x in ws], where(b))
                    ctx.ob("decrement-decision", v[0] == "v" and v[2] == want, k, "taking out %s of the pending work says %s instead of %s" % ("some" if rel == "lt" else "all", show([v]), want), where(b))
    ctx.ob("one-mask", len(masks) == 1, "mask", "the word is split at different places: %s" % sorted(map(hex, masks)))
    for m in masks:
        for S, F in single.items():
            ctx.ob("flags-outside-count", F & m == 0, "%s" % S, "the flag of %s overlaps the count" % S)
    # nobody else touches the word
    for b in p.bodies:
        if b.crate != "kompact" or b.file in home:
            continue
        for x in p.calls(b):
            f = x[1]
            if f and f.self_ty == WORD and f.name not in ("new",):
                ctx.ob("word-private", False, bkey(b), "accesses a 64-bit atomic outside the lifecycle functions", where(b, x[2]))
    for b in fns:
        if b.file in home and b.name not in SETTERS and b.name not in TESTS and b.name not in ("load", "increment_work", "decrement_work"):
            # helpers may only be used by the functions above
            cs = [p.by_h[h] for h in p.callers().get(b.h, ())]
            ctx.ob("helper-private", all(c.file in home for c in cs), bkey(b), "writes the state word and is called from outside the lifecycle functions", where(b))
    # initial word: passive, no work
    ini = [b for b in p.bodies if b.crate == "kompact" and b.file in home and b.locals and b.locals[0] == WORD and b.kind == "Fn"]
    for b in ini:
        r = Rule()
        vals = []
        class I(Word):
            def call(self, st, c):
                if c.fn and c.fn.name == "new" and c.fn.self_ty == WORD:
                    vals.append(c.args[0])
                return None
        s = Sim(p, I(p, home, "F", "zero"), 2000)
        s.run(b)
        ctx.simulated(s)
        ctx.ob("initial", vals == [("c", single["Passive"])], bkey(b), "a new component does not start passive without pending work", where(b))
    ctx.anchor("initial state", ini)
    ctx.say("Every function over the component's 64-bit state word is interpreted abstractly for each lifecycle flag and each class of the pending-work count (zero, some, full; amount below, equal, above).")
    ctx.assume("Atomic::<u64> operations behave as documented; orderings are not judged")


def plus(ws, F, q):
    return False


def show(vals):
    return ", ".join(sorted((v[2] if v[0] == "v" and v[2] else str(v[1])) for v in vals)) or "nothing"
