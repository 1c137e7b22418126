"""S02, S07, S10: the port loop that the ComponentDefinition derive macro generates, and the budget of one execution."""
from kit import *
from rules import prop
from rules.execution import Exec, Balance, exec_roots, adt_of, classify

RES = Sim.RES
OPT = Sim.OPT
HANDLED = "kompact::component::Handled"
ER = "kompact::component::ExecuteResult"
PORTS = ("ProvidedPort", "RequiredPort")


class Derived(Balance):
    """Typestate of ComponentDefinition::execute.

    st = (taken, lo, hi, room, last, polled, started, pend, ev):
    lo..hi bounds of the start offset, room whether the budget is known to allow another event, last served port,
    ports found empty since, pend the outcome of the last handler that still has to reach the caller, ev an event
    that was taken and not handled yet.
    """
    init = (0, 0, None, None, None, frozenset(), None, None, None)

    def __init__(self, prog, ports, find):
        Exec.__init__(self, prog)
        self.ports = ports
        self.n = len(ports)
        self.found = find
        self.bads = {}

    def bad(self, pid, key, msg):
        self.sim.violate(pid + "|" + key, msg)

    # -- the budget and the offset as symbols
    def is_cnt(self, v):
        return (v[0] == "y" and v[1][0] == "ctr" and v[1][1] == 0) or (v == ("c", 0) and not self.cur_st[0])

    def arith(self, op, a, b):
        st = self.cur_st
        MAX, SKIP = ("y", ("max",)), ("y", ("skip",))
        flip = {"Ge": "Le", "Le": "Ge", "Gt": "Lt", "Lt": "Gt", "Eq": "Eq", "Ne": "Ne"}
        if op in flip:
            if a == MAX or a == SKIP:
                a, b, op2 = b, a, flip[op]
            else:
                op2 = op
            if b == MAX and self.is_cnt(a) and op2 in ("Ge", "Lt", "Eq", "Ne"):
                room = st[3]
                full = op2 in ("Ge", "Eq")
                if room is not None:
                    return ("c", int(room != full))
                return ("y", ("full",)) if full else ("y", ("not", ("full",)))
            if b == SKIP and a[0] == "c":
                # i ? skip
                i = a[1]
                t = {"Ge": (i, 1), "Gt": (i - 1, 1), "Lt": (i, 0), "Le": (i - 1, 0)}.get(op2)
                if t is not None:
                    k, pos = t          # skip <= k, or its negation
                    if st[2] is not None and st[2] <= k:
                        return ("c", pos)
                    if st[1] > k:
                        return ("c", 1 - pos)
                    return ("y", ("skiple", k)) if pos else ("y", ("not", ("skiple", k)))
            return None
        return Balance.arith(self, op, a, b)

    def branch(self, st, c, val, outcome):
        if val[0] != "y":
            return None
        s, neg = val[1], False
        while s[0] == "not":
            s, neg = s[1], not neg
        if s[0] not in ("full", "skiple"):
            return None
        t = outcome[1] if outcome[0] == "bool" else bool(outcome[1] if not isinstance(outcome[1], tuple) else 0 not in outcome[1] and outcome[1] != (1,))
        if outcome[0] == "other":
            t = 0 in outcome[1]
        if neg:
            t = not t
        if s[0] == "full":
            return self.upd(st, room=not t)
        k = s[1]
        return self.upd(st, hi=k if st[2] is None else min(k, st[2])) if t else self.upd(st, lo=max(st[1], k + 1))

    F = ("taken", "lo", "hi", "room", "last", "polled", "started", "pend", "ev")

    def upd(self, st, **k):
        return tuple(k.get(n, v) for n, v in zip(self.F, st))

    # -- events
    def may_inline(self, c, b):
        if b.self_adt and last_seg(b.self_adt) in PORTS + ("ComponentContext",):
            return False
        return b.kind == "Closure" or b.file == "core/src/component/mod.rs" or b.name not in ("handle",)

    def port_of(self, c, v):
        if v[0] in ("r", "kr"):
            for e in reversed(v[1]):
                if isinstance(e, tuple) and e[0] == "f" and e[1] in self.ports:
                    return self.ports.index(e[1])
        return None

    def call(self, st, c):
        fn = c.fn
        if fn is None:
            return None
        tr = last_seg(fn.trait) if fn.trait else None
        taken, lo, hi, room, last, polled, started, pend, ev = st
        if fn.name == "dequeue" and ty_head(fn.self_ty) in PORTS:
            i = self.port_of(c, c.args[0])
            self.found.add("dequeue")
            if i is None:
                return None
            nm = self.ports[i]
            if ev is not None:
                self.bad("S07", "unhandled", "an event taken from a port is not given to its handler")
            if pend is not None:
                self.bad("S07", "continue:%s" % pend, "the loop goes on after a handler returned '%s'" % pend)
            if room is not True:
                self.bad("S10", "budget", "port `%s` is asked for an event without knowing that the budget allows another one" % nm)
            if started is None:
                okc = lo >= i and ((hi is not None and hi <= i) or (i == 0 and lo >= self.n))
                if not okc:
                    self.bad("S10", "start", "the loop starts at port `%s` although the offset it was given may name another port" % nm)
            none = Outcome(ret=("v", OPT, "None", ()), st=self.upd(st, polled=polled | {i}, started=1))
            ws = self.shift(c, by=1, fresh=not taken)
            e2 = dict(c.env)
            some = Outcome(ret=("v", OPT, "Some", (("0", ("y", ("event", i))),)), writes=ws,
                           st=self.upd(st, taken=1, room=None, last=i, polled=frozenset(), started=1, ev=i))
            c.sim.purge_symbol_phi(c.env, ("full",))
            return [none, some]
        if tr in ("Provide", "Require") and fn.name == "handle":
            self.found.add("handle")
            v = c.args[-1]
            if ev is None or v != ("y", ("event", ev)):
                self.bad("S07", "handle-other", "a port handler is given something other than the event just taken from a port")
            base = self.upd(st, ev=None)
            if pend is not None:
                self.bad("S07", "continue:%s" % pend, "the loop goes on after a handler returned '%s'" % pend)

            def H(x, f=()):
                return ("v", RES, "Ok", (("0", ("v", HANDLED, x, f)),))
            return [Outcome(ret=H("Ok"), st=base),
                    Outcome(ret=H("BlockOn", (("0", ("y", ("blkf", ev))),)), st=self.upd(base, pend="block")),
                    Outcome(ret=H("Shutdown"), st=self.upd(base, pend="shutdown")),
                    Outcome(ret=("v", RES, "Err", (("0", ("y", ("herr", ev))),)), st=self.upd(base, pend="error"))]
        if fn.name == "set_blocking" and ty_head(fn.self_ty) == "ComponentContext":
            v = c.args[1]
            if pend != "block" or v[0] != "y" or v[1][0] != "blkf":
                self.bad("S07", "block-other", "the component blocks on a future that is not the one its handler returned")
            return Outcome(st=self.upd(st, pend="blocked"))
        if ty_head(fn.self_ty) == "ExecuteResult" or (fn.self_ty or "").endswith("ExecuteResult"):
            a = c.args

            def R(bl, sh, er, cnt, sk):
                return Outcome(ret=("v", ER, None, (("blocking", bl), ("count", cnt), ("error", er), ("shutdown", sh), ("skip", sk))))
            if not c.bodies:
                no = ("v", OPT, "None", ())
                if fn.name == "new":
                    return R(a[0], FALSE, no, a[1], a[2])
                if fn.name == "shutdown":
                    return R(FALSE, TRUE, no, a[0], a[1])
                if fn.name == "error":
                    return R(FALSE, FALSE, ("v", OPT, "Some", (("0", a[0]),)), a[1], a[2])
        return None

    def ret(self, st, c, val):
        taken, lo, hi, room, last, polled, started, pend, ev = st
        if ev is not None:
            self.bad("S07", "unhandled", "an event taken from a port is not given to its handler")
        if not (val[0] == "v" and adt_of(val) == "ExecuteResult"):
            self.bad("S07", "result", "returns something the analysis cannot read (%s)" % (val,))
            return
        f = dict(val[3])
        bl, sh, er = f.get("blocking"), f.get("shutdown"), f.get("error")
        if pend == "block":
            self.bad("S07", "block-lost", "a future that a handler wants to block on is dropped")
        if bl != (TRUE if pend == "blocked" else FALSE):
            self.bad("S07", "blocking-flag", "the result's 'blocking' flag does not say whether a handler blocked (%s)" % pend)
        if sh != (TRUE if pend == "shutdown" else FALSE):
            self.bad("S07", "shutdown-flag", "the result's 'shutdown' flag does not say whether a handler asked to shut down (%s)" % pend)
        want = "Some" if pend == "error" else "None"
        if not (er and er[0] == "v" and er[2] == want and (want == "None" or (er[3][0][1][0] == "y" and er[3][0][1][1][0] == "herr"))):
            self.bad("S07", "error-lost", "the result does not carry exactly the handler's error")
        cnt = f.get("count")
        if not ((cnt[0] == "y" and cnt[1][0] == "ctr" and cnt[1][1] == 0) or (cnt == ("c", 0) and not taken)):
            self.bad("S02", "count", "the reported number of handled events is not the number of events taken (%s)" % self.show(cnt, taken))
        sk = f.get("skip")
        if pend != "shutdown" and last is not None:
            if sk[0] != "c":
                self.bad("S10", "skip", "the next start offset is not determined by the port last served")
            else:
                s = sk[1] if sk[1] < self.n else 0
                k = (s - last - 1) % self.n
                if any(((last + 1 + j) % self.n) not in polled for j in range(k)):
                    self.bad("S10", "skip:%s" % (pend or "budget"), "after serving port `%s` (%s) the next execution starts at offset %d: it skips ports that may have events, or serves the same port again first" % (self.ports[last], pend or "budget used up", sk[1]))


FALSE = ("c", 0)
TRUE = ("c", 1)


def port_fields(p, adt):
    a = p.adts.get(adt)
    if not a or not a["variants"]:
        return []
    return [f[0] if not isinstance(f, dict) else f["name"] for f in a["variants"][0]["fields"]
            if ty_head(f[1] if not isinstance(f, dict) else f["ty"]) in PORTS]


def derived_results(ctx, pid):
    total = 0
    for sets in (("witness",), ("net",)):
        p = ctx.prog(*sets)
        bodies = [b for b in p.bodies if b.name == "execute" and b.trait and last_seg(b.trait) == "ComponentDefinition"]
        for b in bodies:
            ports = port_fields(p, b.self_adt)
            found = set()
            r = Derived(p, ports, found)
            s = Sim(p, r, 400000)
            try:
                s.run(b, args=[("r", (("h", ("self",)),)), ("y", ("max",)), ("y", ("skip",))])
            except Budget as e:
                raise ToolError(str(e))
            ctx.simulated(s)
            if ports:
                ctx.anchor("ports are served in %s" % b.id, found >= {"dequeue", "handle"})
                total += 1
            vs = [v for v in s.violations if v["key"].startswith(pid + "|")]
            if not vs:
                ctx.ob("derived-ports", True, bkey(b), "", "%s: %d ports" % (where(b), len(ports)))
            for v in vs:
                ctx.ob("derived-ports", False, "%s:%s" % (last_seg(b.self_adt), v["key"].split("|")[1]), v["msg"], where(b), v["trace"])
    ctx.anchor("derived port loops", [1] * total, 3)
    # the constructors of the result
    p = ctx.prog("net")
    bs = [b for b in p.bodies if b.self_adt and last_seg(b.self_adt) == "ExecuteResult" and b.kind != "Closure" and b.name in ("new", "shutdown", "error")]
    ctx.anchor("constructors of ExecuteResult", bs, 3)

    class Ctor(Rule):
        out = ()

        def ret(self, st, c, val):
            self.out = self.out + (val,)
    for b in bs:
        r = Ctor()
        s = Sim(p, r, 2000)
        s.run(b, args=[("y", ("a", i)) for i in range(b.argc)])
        A = [("y", ("a", i)) for i in range(b.argc)]
        no = ("v", OPT, "None", ())
        want = {"new": lambda: dict(blocking=A[0], shutdown=FALSE, error=no, count=A[1], skip=A[2]),
                "shutdown": lambda: dict(blocking=FALSE, shutdown=TRUE, error=no, count=A[0], skip=A[1]),
                "error": lambda: dict(blocking=FALSE, shutdown=FALSE, error=("v", OPT, "Some", (("0", A[0]),)), count=A[1], skip=A[2])}[b.name]()
        ok = len(r.out) == 1 and r.out[0][0] == "v" and all(dict(r.out[0][3]).get(k) == v for k, v in want.items())
        ctx.ob("result-constructor", ok, b.name, "ExecuteResult::%s does not store its arguments in the fields they are meant for" % b.name, where(b))


@prop("S07")
def s07d(ctx):
    derived_results(ctx, "S07")


@prop("S02")
def s02d(ctx):
    derived_results(ctx, "S02")


@prop("S10")
def s10d(ctx):
    derived_results(ctx, "S10")


# ---- S10: the budget of one execution ---------------------------------------------------------------

class Budgeted(Balance):
    """st = (Balance state, limits known to leave room, port cursor waiting to be stored)."""
    init = (Balance.init, frozenset(), None)

    def limit(self, v):
        return v[1][1] if v[0] == "y" and v[1][0] == "limit" else None

    def is_cnt(self, v):
        return (v[0] == "y" and v[1][0] == "ctr" and v[1][1] == 0 and not v[1][2]) or (v == ("c", 0) and not self.cur_st[0][0])

    def arith(self, op, a, b):
        flip = {"Ge": "Le", "Le": "Ge", "Gt": "Lt", "Lt": "Gt"}
        if op in flip:
            if self.limit(a):
                a, b, op = b, a, flip[op]
            l = self.limit(b)
            if l and self.is_cnt(a) and op in ("Lt", "Ge"):
                if l in self.cur_st[1]:
                    return ("c", int(op == "Lt"))
                return ("y", ("lt", l)) if op == "Lt" else ("y", ("not", ("lt", l)))
            return None
        if op == "Sub" and self.limit(a) and self.is_cnt(b):
            return ("y", ("rem", self.limit(a)))
        return Balance.arith(self, op, a, b)

    def sh(self, v, by, sym, fresh, c):
        if v[0] == "y" and v[1][0] == "rem":
            return ("y", ("oldrem",))
        return Balance.sh(self, v, by, sym, fresh, c)

    def branch(self, st, c, val, outcome):
        if val[0] != "y":
            return None
        s, neg = val[1], False
        while s[0] == "not":
            s, neg = s[1], not neg
        if s[0] == "lt" and outcome[0] == "bool":
            if outcome[1] != neg:
                return (st[0], st[1] | {s[1]}, st[2])
        return None

    def call(self, st, c):
        fn = c.fn
        if fn is not None:
            if fn.krate == "kompact" and fn.name in ("throughput", "max_messages") and ty_head(fn.self_ty) == "KompactSystem":
                return Outcome(ret=("y", ("limit", fn.name)))
            if fn.name in ("saturating_sub", "wrapping_sub") and len(c.args) == 2 and self.limit(c.args[0]) and self.is_cnt(c.args[1]):
                return Outcome(ret=("y", ("rem", self.limit(c.args[0]))))
        return Balance.call(self, st, c)

    def event(self, st, c, e):
        b, room, cur = st
        k = e[0]
        if k == "take" and e[1] in ("timer", "msg") and not room:
            self.sim.violate("budget:%s" % e[1], "an item is taken from the %s queue without checking that the execution's budget allows another one" % e[1])
        if k == "ports":
            v = c.args[1]
            if not (v[0] == "y" and v[1][0] == "rem"):
                self.sim.violate("ports-budget", "ports may handle a number of events that is not the rest of this execution's budget (%s)" % (v,))
            s = c.args[2]
            if not self.is_cursor(s):
                self.sim.violate("ports-cursor", "ports are not served from the offset that the last execution left (%s)" % (s,))
            r = ("call", c.site, "ports")
            cur = r
        o = Balance.event(self, b, c, e)
        if k in ("take", "ports"):
            for x in ("throughput", "max_messages"):
                c.sim.purge_symbol_phi(c.env, ("lt", x))
        if o is None:
            return None
        for x in o if isinstance(o, list) else [o]:
            if x.st is None:
                x.st = st
                continue
            took = k == "ports" or (k == "take" and x.ret and x.ret[2] == "Some")
            x.st = (x.st, frozenset() if took else room, cur)
        return o

    def is_cursor(self, v):
        if v[0] != "y":
            return False
        s = v[1]
        if s[0] == "ld":
            s = s[1]
        return s[0] == "fld" and s[-1] == "skip" and not (s[1][0] == "call" and s[1][-1] == "ports")

    def write(self, st, c, key, val):
        if key[-1] == ("f", "skip"):
            if st[2] is not None and val == ("y", ("fld", st[2], "skip")):
                return (st[0], st[1], None)
            if self.is_heap(key):
                self.sim.violate("cursor-overwritten", "the stored port offset is overwritten with something other than the offset the ports reported (%s)" % (val,))
        return None

    def is_heap(self, key):
        return key[0][0] == "h"

    def ret(self, st, c, val):
        if st[2] is not None and st[0][2] not in ("Destroyed", "Faulty"):
            self.sim.violate("cursor-lost", "the offset the ports reported is not kept for the next execution")


@prop("S10")
def s10(ctx):
    p = ctx.prog("net")
    roots = exec_roots(p)
    ctx.anchor("component execution entry", roots)
    for b in roots:
        r = Budgeted(p)
        s = Sim(p, r, 600000)
        try:
            s.run(b)
        except Budget as e:
            raise ToolError(str(e))
        ctx.simulated(s)
        for n in (("take", "timer"), ("take", "msg"), ("ports",)):
            ctx.anchor("execution event %s" % (n,), r.nev.get(n, 0) and [1])
        if not s.violations:
            ctx.ob("budget", True, "execute", "", where(b))
        for v in s.violations:
            ctx.ob("budget", False, v["key"], v["msg"], where(b), v["trace"])
