"""S02, S04, S05, S07, S08, S10: what one execution of a component does, on every path through it."""
from kit import *
from rules import prop

FLAGS = {"set_active": "Active", "set_passive": "Passive", "set_destroyed": "Destroyed", "set_faulty": "Faulty", "set_blocking": "Blocking"}


def adt_of(v):
    return last_seg(v[1]) if v[0] == "v" else None


def is_handler_result(ty):
    return ty is not None and "HandlerResult" in ty or (ty or "").startswith("core::result::Result<kompact::component::Handled,")


def classify(c):
    """Name of the execution event a call is, or None."""
    fn = c.fn
    if fn is None:
        if is_handler_result(c.dest_ty):
            return ("action",)
        return None
    n = fn.name
    tr = last_seg(fn.trait) if fn.trait else None
    if n == "pop" and fn.krate not in ("kompact", "kompact_net") and fn.self_ty:
        if "ControlEvent" in fn.self_ty:
            return ("take", "ctrl")
        if "Timeout" in fn.self_ty:
            return ("take", "timer")
        if "MsgEnvelope" in fn.self_ty or "SegQueue" in fn.self_ty or "Queue" in fn.self_ty:
            return ("take", "msg")
    if tr == "ComponentLifecycle" and n in ("on_start", "on_stop", "on_kill") and fn.rk != "item":
        return ("hook", n)
    if tr == "ActorRaw" and n == "receive" and fn.rk != "item":
        return ("handler", "receive")
    if tr == "ComponentDefinition" and n == "execute" and fn.rk != "item":
        return ("ports",)
    if tr == "ComponentDefinition" and n in ("ctx", "ctx_mut") and fn.rk != "item":
        return ("ctx",)
    if tr in ("FnOnce", "Fn", "FnMut") and is_handler_result(c.dest_ty) and not c.bodies:
        return ("handler", "action")
    if fn.krate == "kompact":
        p = fn.path
        if "::lifecycle::" in p and n in FLAGS and c.bodies and not c.bodies[0].self_adt:
            return ("state", FLAGS[n])
        if "::lifecycle::" in p and n in ("is_active", "is_destroyed", "is_faulty", "is_blocking") and not c.bodies[0].self_adt:
            return ("test", n)
        if ty_head(fn.self_ty) == "LifecycleState":
            if n == "decrement_work":
                return ("dec",)
            if n == "increment_work":
                return ("inc",)
            if n == "load":
                return ("load",)
        if n == "typed_component":
            return ("comp",)
        if n == "poison" and ty_head(fn.self_ty) in ("KompactSystem", "KompactRuntime"):
            return ("poison",)
        if n == "enqueue" and ty_head(fn.self_ty) in ("ProvidedRef", "RequiredRef") and len(c.args) > 1:
            v = c.sim.load_through(c.env, c.args[1])
            if adt_of(v) == "SupervisorMsg":
                return ("notify", v[2])
            return ("notify", "?")
        if ty_head(fn.self_ty) == "BlockingFuture" and n == "run":
            return ("pollblk",)
        if ty_head(fn.self_ty) == "NonBlockingFuture" and n == "run":
            return ("pollnb",)
    return None


class Exec(Rule):
    """Common model of an execution: classifies calls, models the context and the component as single objects."""
    inline_depth = 14

    def __init__(self, prog):
        self.prog = prog
        self.nev = {}
        rel = prog.reaching(prog.direct(self.mention), stop=self.cut)
        self.rel = rel

    def mention(self, f):
        n = f.name
        if n in ("pop",) and f.krate not in ("kompact", "kompact_net"):
            return True
        if f.krate == "kompact" and (n in FLAGS or n in ("decrement_work", "typed_component", "poison", "is_active")):
            return True
        tr = last_seg(f.trait) if f.trait else None
        if tr in ("ComponentLifecycle", "ActorRaw") and f.rk != "item":
            return True
        if n == "enqueue" and ty_head(f.self_ty) == "ProvidedRef":
            return True
        if n == "run" and ty_head(f.self_ty) in ("BlockingFuture", "NonBlockingFuture"):
            return True
        return False

    def cut(self, b):
        return not b.file.startswith(("core/src/component", "core/src/timer", "core/src/actors/refs"))

    def may_inline(self, c, b):
        if b.kind == "Closure":
            return True
        if b.file.startswith(("core/src/component/", "core/src/timer/timer_manager")):
            if b.self_adt and last_seg(b.self_adt) in ("SchedulingDecision", "HandlerError", "Handled", "LifecycleState", "ComponentCore", "StateTransition"):
                return True
            if b.h in self.rel:
                return True
            # small accessors on the way to the events
            return len(b.blocks) <= 12 and b.self_adt is not None
        if b.file == "core/src/actors/refs.rs" and b.name == "pop":
            return True
        return False

    def call(self, st, c):
        e = classify(c)
        if e is None:
            return None
        self.nev[e] = self.nev.get(e, 0) + 1
        k = e[0]
        if k == "ctx":
            return Outcome(ret=("y", ("ctx",)))
        if k == "comp":
            return Outcome(ret=("y", ("comp",)))
        return self.event(st, c, e)

    def event(self, st, c, e):
        return Outcome(st=st)


# ---- S02: balance -----------------------------------------------------------------------------------

class Balance(Exec):
    """Relational ghost counter: every integer is tracked as 'items taken so far + constant'."""
    # (taken: 0 none yet / 1 some, decremented: 0/1/2, state, decision freshness)
    init = (0, 0, "?", None)

    def shift(self, c, by=None, sym=None, fresh=False):
        env = c.env
        w = []
        for k in list(env):
            if k[0] == "φ":
                continue
            v = env[k]
            nv = self.sh(v, by, sym, fresh and k[0][0] == "l" and self.usz(k), c)
            if nv is not v:
                w.append((k, nv))
        return w

    def usz(self, k):
        if len(k) != 1 or k[0][2] < 0:
            return False
        b = self.sim.finfo[k[0][1]][0]
        return k[0][2] < len(b.locals) and b.locals[k[0][2]] in ("usize", "u64", "u32", "i32", "i64")

    def sh(self, v, by, sym, fresh, c):
        if v[0] == "c" and fresh and abs(v[1]) <= 2:
            v = ("y", ("ctr", v[1], ()))
        if v[0] == "y" and v[1][0] == "ctr":
            n, outs = v[1][1], v[1][2]
            if by:
                n -= by
            if sym is not None:
                outs = tuple(sorted(outs + (sym,), key=repr))
            if abs(n) > 2 or len(outs) > 2:
                return ("y", ("ctrtop",))
            return ("y", ("ctr", n, outs))
        return v

    def arith(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "y" and x[1][0] == "ctr":
                if op in ("Add",) and y[0] == "c":
                    n = x[1][1] + y[1]
                    return ("y", ("ctr", n, x[1][2])) if abs(n) <= 3 else ("y", ("ctrtop",))
                if op == "Sub" and x is a and y[0] == "c":
                    return ("y", ("ctr", x[1][1] - y[1], x[1][2]))
                if op == "Add" and y[0] == "y" and y[1] in x[1][2]:
                    o = list(x[1][2])
                    o.remove(y[1])
                    return ("y", ("ctr", x[1][1], tuple(o)))
                if op == "Add":
                    return ("y", ("ctrtop",))
        if op == "Add":
            # a constant zero plus the items an opaque step reported
            for x, y in ((a, b), (b, a)):
                if x == ("c", 0) and y[0] == "y" and y[1][0] == "fld":
                    return y
        return None

    def event(self, st, c, e):
        taken, dec, state, dsn = st
        k = e[0]
        if k == "take":
            # two outcomes: nothing there / one item taken
            none = Outcome(ret=("v", Sim.OPT, "None", ()), st=st)
            if dec:
                self.sim.violate("take-after-decrement:%s" % e[1], "an item is taken from the %s queue after the pending-work count was already reduced" % e[1])
            ws = self.shift(c, by=1, fresh=not taken)
            some = Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("call", c.site, e[1]))),)), st=(1, dec, state, dsn), writes=ws)
            return [none, some]
        if k == "ports":
            if dec:
                self.sim.violate("ports-after-decrement", "port events are executed after the pending-work count was already reduced")
            r = ("call", c.site, "ports")
            ws = self.shift(c, sym=("fld", r, "count"), fresh=not taken)
            return [Outcome(ret=("y", r), st=(1, dec, "?", dsn), writes=ws)]
        if k == "dec":
            v = c.args[1]
            v = self.sim.load_through(c.env, v)
            if dec:
                self.sim.violate("decrement-twice", "the pending-work count is reduced a second time in the same execution")
            okc = (v[0] == "y" and v[1][0] == "ctr" and v[1][1] == 0 and not v[1][2]) or (not taken and v == ("c", 0))
            if not okc:
                self.sim.violate("decrement-amount", "the pending-work count is reduced by something other than the number of items taken in this execution (%s)" % self.show(v, taken))
            return Outcome(ret=("y", ("dec", "D")), st=(taken, 1, state, "fresh"))
        if k == "state":
            if state in ("Destroyed",) and e[1] not in ("Destroyed", "Faulty"):
                return Outcome(st=(taken, dec, e[1], dsn))
            if dsn == "fresh" and e[1] in ("Active", "Passive"):
                dsn = "stale"
            return Outcome(st=(taken, dec, e[1], dsn))
        if k == "test":
            want = {"is_active": "Active", "is_destroyed": "Destroyed", "is_faulty": "Faulty", "is_blocking": "Blocking"}[e[1]]
            if state == "?":
                return [Outcome(ret=("c", 1), st=(taken, dec, want, dsn)), Outcome(ret=("c", 0), st=st)]
            return Outcome(ret=("c", int(state == want)), st=st)
        if c.fn and c.fn.name == "get_scheduling_decision":
            return Outcome(ret=("y", ("dec", "now")), st=st)
        if k == "load":
            return Outcome(ret=("y", ("lstate",)), st=st)
        return Outcome(st=st)

    def show(self, v, taken):
        if v[0] == "y" and v[1][0] == "ctr":
            return "items taken %+d%s" % (v[1][1], " minus port events" if v[1][2] else "")
        if v[0] == "c":
            return "constant %d" % v[1]
        return "an unrelated value"

    def ret(self, st, c, val):
        taken, dec, state, dsn = st
        if state in ("Destroyed", "Faulty"):
            return
        if taken and not dec:
            self.sim.violate("no-decrement", "an execution that took items ends with the component alive (%s) without reducing the pending-work count" % state)
        if dec:
            good = val == ("y", ("dec", "D")) or self.variant(val) in ("Blocked", "Resume", "Schedule") or (val[0] == "y" and val[1][0] == "dec")
            if self.variant(val) in ("NoWork", "AlreadyScheduled") and not self.known_nowork(c):
                good = False
            if not good:
                self.sim.violate("leftover-dropped", "the execution's result does not reflect the work left over after the count was reduced (returns %s)" % (val,))
            if self.variant(val) == "Blocked" and state not in ("Blocking", "?"):
                self.sim.violate("blocked-not-blocking", "reports 'blocked' although the component was not left in the blocking state")
            if dsn == "stale" and (val == ("y", ("dec", "D")) or self.variant(val) in ("NoWork",)):
                self.sim.violate("stale-decision", "the scheduling decision was computed before the component left the blocked state: work accepted in between is lost")

    def variant(self, v):
        return v[2] if v[0] == "v" and adt_of(v) == "SchedulingDecision" else None

    def known_nowork(self, c):
        """A concrete NoWork is right if the decrement's own decision was found to be NoWork on this path."""
        for k, v in c.env.items():
            if k[0] == "φ" and k[1][0] == "discr" and k[1][1] == ("dec", "D"):
                return True
        return False

    def keep_phi(self, sym):
        return sym[0] == "discr" and sym[1] in (("dec", "D"), ("dec", "now"))


def exec_roots(p):
    """The functions that run a component: bodies implementing CoreContainer::execute for Component."""
    return p.method("Component", "execute", "CoreContainer")


@prop("S02")
def s02(ctx):
    p = ctx.prog("net")
    roots = exec_roots(p)
    ctx.anchor("component execution entry", roots)
    for b in roots:
        r = Balance(p)
        s = Sim(p, r, 600000)
        try:
            s.run(b)
        except Budget as e:
            raise ToolError(str(e))
        ctx.simulated(s)
        for e in sorted(r.nev):
            ctx.ob("event", True, str(e), "", "%s x%d" % (e, r.nev[e]))
        for n in (("take", "ctrl"), ("take", "timer"), ("take", "msg"), ("ports",), ("dec",)):
            ctx.anchor("execution event %s" % (n,), r.nev.get(n, 0) and [1])
        ctx.ob("balance", not s.violations, "execute", "", where(b)) if not s.violations else None
        for v in s.violations:
            ctx.ob("balance", False, v["key"], v["msg"], where(b), v["trace"])


# ---- S04 / S05 / S07 / S08: outcome automaton -------------------------------------------------------

ALL = frozenset(("Active", "Passive", "Destroyed", "Faulty", "Blocking"))
RESULT = Sim.RES
HOOKS = {"on_start": ("Start", "Active", "Started"), "on_stop": ("Stop", "Passive", "Stopped"), "on_kill": ("Kill", "Destroyed", "Killed")}
KINDS = {"start": ("Active", "Started"), "stop": ("Passive", "Stopped"), "kill": ("Destroyed", "Killed")}
FUTKEY = (("h", ("ctx",)), ("f", "blocking_future"))


def fld(s, *n):
    for x in n:
        s = ("fld", s, x)
    return s


class Life(Exec):
    # poss, ctrl found empty, control event symbol, current result (kind, symbol), effects since, deferred kind,
    # killed, pre state (for polls)
    init = (ALL, 0, None, None, (), None, 0, None)

    def __init__(self, prog):
        super().__init__(prog)
        self.transitions = {}
        a = prog.adt("StateTransition")
        self.st_adt = a["id"] if a else None

    def arith(self, op, a, b):
        if op in ("Add", "Sub", "Mul"):
            return ("y", ("num",))
        return None

    # -- path facts
    def phi(self, env, sym, adt=None):
        for k in ([("φ", ("discr", sym, adt))] if adt else [k for k in env if k[0] == "φ" and k[1][0] == "discr" and k[1][1] == sym]):
            v = env.get(k)
            if v is None:
                continue
            ad = k[1][2]
            vs = self.prog.adts.get(ad)
            if not vs:
                continue
            names = {x["discr"]: x["name"] for x in vs["variants"]}
            if v[0] == "c":
                return {names.get(v[1])}
            return {n for d, n in names.items() if d not in v[1]}
        return None

    def keep_phi(self, sym):
        st = self.cur_st
        s = sym
        while isinstance(s, tuple) and s and s[0] in ("discr", "fld", "ld", "not"):
            if s[0] == "fld" and s[2] == "supervisor":
                return True
            s = s[1]
        return s == st[2] or (st[3] is not None and s == st[3][1])

    def outcomes(self, env, cur):
        """Possible outcomes of the current result on this path."""
        kind, s = cur
        if kind[0] == "ports":
            sh = env.get(("φ", fld(s, "shutdown")))
            bl = env.get(("φ", fld(s, "blocking")))
            er = self.phi(env, fld(s, "error"))
            out = set()
            if sh == ("c", 1):
                return {"shutdown"}
            if sh is None:
                out.add("shutdown")
            e = set()
            if er is None or "Some" in er:
                h = self.phi(env, fld(s, "error", "Some", "0"))
                e = {"Benign": "benign", "Recoverable": "recov", "Unrecoverable": "unrec"}
                e = {e[x] for x in (h or e)}
            if er == {"Some"}:
                return out | e
            out |= e
            if bl == ("c", 1):
                return out | {"block"}
            if bl is None:
                out.add("block")
            out.add("ok")
            return out
        if kind[0] == "nb":
            pv = self.phi(env, s)
            out = set()
            if pv is None or "Pending" in pv:
                out.add("pending")
            if pv is None or "Ready" in pv:
                out |= self.res(env, fld(s, "Ready", "0"))
            return out
        if kind[0] == "blk":
            pv = self.phi(env, s)
            out = set()
            if pv is None or "BlockOn" in pv:
                out.add("pending")
            if pv is None or "Unblock" in pv:
                r = self.res(env, fld(s, "Unblock", "0"))
                out |= {("pending" if x == "block" else x) for x in r}
            return out
        return self.res(env, s)

    def res(self, env, s):
        d = self.phi(env, s, RESULT)
        out = set()
        if d is None or "Ok" in d:
            h = self.phi(env, fld(s, "Ok", "0"))
            m = {"Ok": "ok", "BlockOn": "block", "Shutdown": "shutdown"}
            out |= {m[x] for x in (h or m)}
        if d is None or "Err" in d:
            h = self.phi(env, fld(s, "Err", "0"))
            m = {"Benign": "benign", "Recoverable": "recov", "Unrecoverable": "unrec"}
            out |= {m[x] for x in (h or m)}
        return out

    def sup(self, env):
        for k, v in env.items():
            if k[0] == "φ" and k[1][0] == "discr" and self.is_sup(k[1][1]):
                return v[1] if v[0] == "c" else None
        return None

    def is_sup(self, s):
        while isinstance(s, tuple) and s and s[0] in ("ld",):
            s = s[1]
        return isinstance(s, tuple) and s and s[0] == "fld" and s[2] == "supervisor"

    def fut(self, env):
        v = env.get(FUTKEY)
        if v is None:
            return "?"
        if v[0] == "v" and v[1] == Sim.OPT:
            return v[2]
        return "?"

    def bad(self, pid, key, msg):
        self.sim.violate("%s|%s" % (pid, key), msg)

    # -- settling a result: the effects seen must be what each possible outcome asks for
    def settle(self, st, c, at):
        poss, empty, ev, cur, done, defer, killed, pre = st
        env = c.env
        if cur is None:
            return st
        kind, sym = cur
        outs = self.outcomes(env, cur)
        sup = self.sup(env)
        nots = tuple(x[1] for x in done if x[0] == "notify")
        hooks = tuple(x[1] for x in done if x[0] == "hook")
        pois = any(x[0] == "poison" for x in done)
        label = kind[0] if kind[0] not in ("blk",) else "future of %s" % (kind[1],)
        base = kind[1] if kind[0] == "blk" else kind[0]
        ndefer = None
        for o in sorted(outs):
            k = "%s/%s@%s" % (label, o, at)
            if o == "pending" and kind[0] == "nb":
                if done or hooks:
                    self.bad("S07", k, "an unfinished background future changes the component's state")
                continue
            if o in ("pending",):
                if poss != {"Blocking"} and not (poss - {"Blocking"} == frozenset()):
                    if not self.blocked_ok(poss):
                        self.bad("S08", k, "an unfinished blocking future leaves the component in state %s" % sorted(poss))
                if self.fut(env) == "None":
                    self.bad("S08", "dropped:" + k, "an unfinished blocking future is dropped instead of being kept")
                if nots or hooks:
                    self.bad("S05", k, "the supervisor is notified while the hook is still blocked")
                ndefer = base
                continue
            if o == "block":
                if kind[0] != "ports" and at != "poll":
                    if poss != {"Blocking"} or self.fut(env) == "None":
                        self.bad("S07", k, "a request to block is ignored: after %s the component is %s and %s" % (label, "/".join(sorted(poss)), "keeps no future" if self.fut(env) == "None" else "keeps the future"))
                if nots or hooks:
                    self.bad("S05", k, "the supervisor is notified although the hook is still blocked")
                if kind[0] == "ports" and at not in ("poll", "return"):
                    self.bad("S07", k, "port execution asked to block, but the execution goes on")
                ndefer = base
                continue
            if o in ("ok", "benign"):
                if base in KINDS:
                    S, N = KINDS[base]
                    if poss != {S}:
                        self.bad("S05", k, "after %s finished with '%s' the component is %s instead of %s" % (label, o, "/".join(sorted(poss)), S))
                        if kind[0] == "blk":
                            self.bad("S08", k, "after %s finished with '%s' the component is %s instead of %s" % (label, o, "/".join(sorted(poss)), S))
                    self.expect(sup, nots, N, k, "S05", label, o)
                    if hooks:
                        self.bad("S05", k + ":hook", "a lifecycle hook runs a second time after %s" % label)
                else:
                    if kind[0] == "blk":
                        S = self.after(base, pre)
                        if S is not None and not (poss <= S):
                            self.bad("S08", k, "after the future of %s completed the component is %s instead of %s" % (base, "/".join(sorted(poss)), "/".join(sorted(S))))
                        elif S is None:
                            ok = {(): {"Active", "Passive"}, ("Started",): {"Active"}, ("Stopped",): {"Passive"}, ("Killed",): {"Destroyed"}}.get(nots)
                            if sup == 0:
                                ok = {"Active", "Passive", "Destroyed"}
                            if ok is None or not poss <= ok:
                                self.bad("S08", k, "after the blocking future completed the component is %s and the supervisor was told %s" % ("/".join(sorted(poss)), list(nots)))
                        if nots and S is not None:
                            self.bad("S05", k, "supervisor notified (%s) after an ordinary handler" % (nots,))
                    else:
                        if any(x[0] in ("state", "notify", "poison", "hook") for x in done):
                            self.bad("S07", k, "a handler that returned '%s' changes the component's lifecycle: %s" % (o, done))
                continue
            if o == "shutdown":
                iskill = base == "kill"
                if poss != {"Destroyed"}:
                    self.bad("S07", k, "a shutdown request leaves the component in state %s" % "/".join(sorted(poss)))
                if iskill and hooks:
                    self.bad("S05", k + ":hook", "the kill hook runs again after it asked for shutdown")
                unknown = kind[0] == "blk" and base in ("entry", "ports") and hooks == ()
                if not iskill and hooks != ("on_kill",) and not unknown:
                    self.bad("S07", k + ":hook", "a shutdown request from %s runs the kill hook %d times" % (label, len(hooks)))
                self.expect(sup, nots, "Killed", k, "S05", label, o)
                continue
            if o == "recov":
                if poss != {"Faulty"}:
                    self.bad("S07", k, "a recoverable error from %s leaves the component in state %s" % (label, "/".join(sorted(poss))))
                if sup != 0 and not self.lockfail(env, done):
                    self.expect(sup, nots, "Faulty", k, "S06", label, o)
                if sup == 0 and not pois:
                    self.bad("S06", k + ":poison", "a recoverable error in a component without supervisor does not poison the system")
                if hooks:
                    self.bad("S07", k + ":hook", "a faulty component runs a lifecycle hook")
                continue
            if o == "unrec":
                if poss != {"Destroyed"}:
                    self.bad("S07", k, "an unrecoverable error from %s leaves the component in state %s" % (label, "/".join(sorted(poss))))
                self.expect(sup, nots, "Killed", k, "S07", label, o)
                if sup == 0 and not pois:
                    self.bad("S06", k + ":poison", "an unrecoverable error in a component without supervisor does not poison the system")
                if hooks:
                    self.bad("S07", k + ":hook", "a destroyed component runs another lifecycle hook")
        self.sim.purge_symbol_phi(env, sym)
        return (poss, empty, ev, None, (), ndefer, killed, pre if ndefer == "nb" else None)

    def lockfail(self, env, done):
        return any(x[0] == "reclock-failed" for x in done)

    def blocked_ok(self, poss):
        return poss == frozenset(("Blocking",))

    def after(self, base, pre):
        if base in KINDS:
            return frozenset((KINDS[base][0],))
        if base in ("nb",):
            return pre or frozenset(("Active",))
        if base in ("handler", "receive", "action"):
            return frozenset(("Active",))
        if base and base.startswith("trans:"):
            return None
        return None

    def expect(self, sup, nots, N, k, pid, label, o):
        if sup == 1 and nots != (N,):
            self.bad(pid, k + ":notify", "after %s ended with '%s' the supervisor gets %s instead of exactly one '%s'" % (label, o, list(nots) or "nothing", N))
        if sup is None and nots != (N,):
            self.bad(pid, k + ":notify", "after %s ended with '%s' the supervisor gets %s instead of exactly one '%s'" % (label, o, list(nots) or "nothing", N))
        if sup == 0 and nots:
            self.bad(pid, k + ":notify0", "notification without supervisor")

    # -- events
    def event(self, st, c, e):
        k = e[0]
        env = c.env
        poss, empty, ev, cur, done, defer, killed, pre = st
        if k == "take":
            st = self.settle(st, c, "take")
            st = self.drop_ev(st, c)
            poss, empty, ev, cur, done, defer, killed, pre = st
            if "Blocking" in poss:
                self.bad("S08", "take:%s" % e[1], "something is taken from the %s queue while the component may be blocked" % e[1])
            if e[1] == "ctrl":
                return [Outcome(ret=("v", Sim.OPT, "None", ()), st=(poss, 1, None, None, (), None, killed, pre)),
                        Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("call", c.site, "ctrl"))),)), st=(poss, 0, ("call", c.site, "ctrl"), None, (), None, killed, pre))]
            if not empty:
                self.bad("S04", "order:%s" % e[1], "the %s queue is served before the control queue was found empty" % e[1])
            return [Outcome(ret=("v", Sim.OPT, "None", ()), st=st),
                    Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("call", c.site, e[1]))),)), st=st)]
        if k == "state":
            if "Destroyed" in poss and e[1] in ("Active", "Passive") and not self.iskill(ev, env):
                self.bad("S04", "resurrect:%s" % e[1], "a component that may already be destroyed is made %s" % e[1].lower())
            if "Faulty" in poss and e[1] in ("Active", "Passive"):
                self.bad("S04", "unfault:%s" % e[1], "a component that may be faulty is made %s" % e[1].lower())
            return Outcome(st=(frozenset((e[1],)), empty, ev, cur, self.add(done, ("state", e[1])), defer, killed, pre))
        if k == "test":
            want = {"is_active": "Active", "is_destroyed": "Destroyed", "is_faulty": "Faulty", "is_blocking": "Blocking"}[e[1]]
            o = []
            if want in poss:
                o.append(Outcome(ret=("c", 1), st=(poss & {want},) + st[1:]))
            if poss - {want}:
                o.append(Outcome(ret=("c", 0), st=(poss - {want},) + st[1:]))
            return o
        if k == "load":
            adt = self.prog.adt("LifecycleState")
            o = []
            for v in adt["variants"]:
                if v["name"] in poss:
                    fs = tuple((n, ("y", ("cnt", c.site))) for n, t, pb in v["fields"])
                    o.append(Outcome(ret=("v", adt["id"], v["name"], fs), st=(poss & {v["name"]},) + st[1:]))
            return o
        if k == "hook":
            h = e[1]
            r = ("call", c.site, h)
            if ev is not None:
                st = self.settle(st, c, "hook")
                poss, empty, ev, cur, done, defer, killed, pre = st
                EV, S, N = HOOKS[h]
                evs = self.phi(env, ev)
                if evs != {EV}:
                    self.bad("S05", "hook:%s" % h, "%s runs for control event %s" % (h, sorted(evs) if evs else "?"))
                if poss != {S}:
                    self.bad("S05", "state-before:%s" % h, "%s runs while the component is %s instead of %s" % (h, "/".join(sorted(poss)), S))
                if killed and h != "on_kill" or (killed and h == "on_kill"):
                    self.bad("S04", "hook-after-kill:%s" % h, "%s runs although the component was already killed in this execution" % h)
                return Outcome(ret=("y", r), st=(poss, empty, None, ((h[3:],), r), (), None, 1 if h == "on_kill" else killed, None))
            if cur is not None and h == "on_kill":
                if "Destroyed" not in poss or len(poss) > 1:
                    self.bad("S05", "state-before:on_kill:shutdown", "the kill hook runs before the component is marked destroyed")
                return Outcome(ret=("y", r), st=(poss, empty, ev, cur, self.add(done, ("hook", h)), defer, 1, pre))
            self.bad("S05", "stray-hook:%s" % h, "%s runs without a control event or shutdown request asking for it" % h)
            return Outcome(ret=("y", r), st=st)
        if k in ("handler", "ports"):
            st = self.settle(st, c, "handler")
            st = self.drop_ev(st, c)
            poss, empty, ev, cur, done, defer, killed, pre = st
            nm = e[1] if k == "handler" else "ports"
            if poss != {"Active"}:
                self.bad("S04", "handler:%s" % nm, "a %s handler runs while the component may be %s" % ({"receive": "message", "action": "timeout", "ports": "port-event"}[nm], "/".join(sorted(poss - {"Active"})).lower()))
            if not empty:
                self.bad("S04", "order:%s" % nm, "a %s handler runs before the control queue was found empty" % nm)
            r = ("call", c.site, nm)
            ws = []
            if k == "ports":
                ws = [(FUTKEY, ("y", ("call", c.site, "fut")))]
            return Outcome(ret=("y", r), st=(frozenset(("Active",)), empty, None, ((nm,), r), (), None, killed, None), writes=ws)
        if k == "pollnb":
            r = ("call", c.site, "nb")
            if ev is None or self.phi(env, ev) != {"Poll"}:
                self.bad("S08", "pollnb", "a background future is polled without a poll event for it")
            st = self.settle(st, c, "pollnb")
            poss, empty, ev, cur, done, defer, killed, pre = st
            if poss & {"Destroyed", "Faulty"}:
                self.bad("S04", "pollnb", "a background future is polled while the component may be %s" % "/".join(sorted(poss & {"Destroyed", "Faulty"})).lower())
            return Outcome(ret=("y", r), st=(poss, empty, None, (("nb",), r), (), None, killed, poss))
        if k == "pollblk":
            r = ("call", c.site, "blk")
            pb = cur_block(self, env, st)
            st = self.settle(st, c, "poll")
            poss, empty, ev, cur, done, defer, killed, pre = st
            if pb:
                # port execution said that it stored a blocking future
                poss, defer = frozenset(("Blocking",)), "ports"
            if poss != {"Blocking"}:
                self.bad("S08", "poll", "the blocking future is polled while the component may be %s" % "/".join(sorted(poss - {"Blocking"})).lower())
            return Outcome(ret=("y", r), st=(poss, empty, ev, (("blk", defer or "entry"), r), (), None, killed, pre))
        if k == "notify":
            if cur is None and not self.lateok(st):
                self.bad("S05", "stray-notify:%s" % e[1], "the supervisor is told '%s' although no handler result asks for it" % e[1])
            return Outcome(st=(poss, empty, ev, cur, self.add(done, ("notify", e[1])), defer, killed, pre))
        if k == "poison":
            return Outcome(st=(poss, empty, ev, cur, self.add(done, ("poison",)), defer, killed, pre))
        return Outcome(st=st)

    def lateok(self, st):
        return False

    def iskill(self, ev, env):
        return False

    def add(self, done, x):
        return done + (x,) if len(done) < 8 else done

    def drop_ev(self, st, c):
        """A control event that was taken but never led to its hook."""
        poss, empty, ev, cur, done, defer, killed, pre = st
        if ev is None:
            return st
        evs = self.phi(c.env, ev)
        for x in sorted(evs or ("Start", "Stop", "Kill", "Poll")):
            if x != "Poll" and not poss <= {"Destroyed", "Faulty"}:
                self.bad("S05", "ignored:%s" % x, "a %s event is taken but its lifecycle hook does not run" % x.lower())
        return (poss, empty, None) + st[3:]

    def call(self, st, c):
        fn = c.fn
        if fn is not None and fn.krate == "core" and ty_head(fn.self_ty) == "Option" and c.args:
            a = c.args[0]
            if a[0] == "r" and a[1] == FUTKEY:
                return self.futop(st, c, fn.name)
        # locking decides under which knowledge we run: another thread may have changed the state before
        if fn is not None and fn.name == "lock" and fn.self_ty and "ComponentMutableCore" in fn.self_ty:
            return Outcome(ret=("y", ("call", c.site, "guard")), st=(ALL,) + st[1:])
        if fn is not None and fn.name == "lock" and fn.self_ty and "RecoveryHandler" in fn.self_ty:
            poss, empty, ev, cur, done, defer, killed, pre = st
            g = ("y", ("call", c.site, "rguard"))
            return [Outcome(ret=("v", RESULT, "Ok", (("0", g),)), st=st),
                    Outcome(ret=("v", RESULT, "Err", (("0", g),)), st=(poss, empty, ev, cur, self.add(done, ("reclock-failed",)), defer, killed, pre))]
        return super().call(st, c)

    def futop(self, st, c, n):
        env = c.env
        poss = st[0]
        v = env.get(FUTKEY)
        known = v[2] if v is not None and v[0] == "v" else None
        if known is None and cur_block(self, env, st):
            known = "Some"
        if n in ("is_some", "is_none"):
            o = []
            for nm, keep in (("Some", frozenset(("Blocking",))), ("None", ALL - {"Blocking"})):
                if known is not None and known != nm:
                    continue
                p2 = poss & keep if known is None else poss
                if not p2:
                    continue
                w = []
                if known is None:
                    w = [(FUTKEY, ("v", Sim.OPT, "None", ()) if nm == "None" else ("v", Sim.OPT, "Some", (("0", ("y", ("heldfut",))),)))]
                o.append(Outcome(ret=("c", int((nm == "Some") == (n == "is_some"))), st=(p2,) + st[1:], writes=w))
            return o
        if n in ("take", "replace", "insert"):
            o = []
            for nm in ("Some", "None"):
                if known is not None and known != nm:
                    continue
                keep = frozenset(("Blocking",)) if nm == "Some" else ALL - {"Blocking"}
                p2 = poss if known is not None else poss & keep
                if not p2:
                    continue
                if nm == "None":
                    old = ("v", Sim.OPT, "None", ())
                else:
                    old = v if v is not None and v[0] == "v" else ("v", Sim.OPT, "Some", (("0", ("y", ("heldfut",))),))
                new = ("v", Sim.OPT, "None", ()) if n == "take" else ("v", Sim.OPT, "Some", (("0", c.args[1]),))
                if n != "take" and nm == "Some":
                    # only tolerable if this path ends in a panic: remember it as a lost future
                    poss2, empty, ev, cur, done, defer, killed, pre = (p2,) + st[1:]
                    o.append(Outcome(ret=old, st=(p2, empty, ev, cur, self.add(done, ("lostfut",)), defer, killed, pre), writes=[(FUTKEY, new)]))
                else:
                    o.append(Outcome(ret=old, st=(p2,) + st[1:], writes=[(FUTKEY, new)]))
            return o
        return None

    def ret(self, st, c, val):
        poss, empty, ev, cur, done, defer, killed, pre = st
        env = c.env
        if any(x[0] == "lostfut" for x in done):
            self.bad("S08", "replaced", "a blocking future is replaced before it completed")
        st = self.settle(st, c, "return")
        self.drop_ev(st, c)


def cur_block(rule, env, st):
    cur = st[3]
    return cur is not None and cur[0][0] == "ports" and env.get(("φ", fld(cur[1], "blocking"))) == ("c", 1)


_life = {}


def life(ctx):
    """One simulation shared by the four properties it decides."""
    p = ctx.prog("net")
    roots = exec_roots(p)
    ctx.anchor("component execution entry", roots)
    out = []
    for b in roots:
        r = Life(p)
        s = Sim(p, r, 900000)
        try:
            s.run(b, args=[("y", ("comp",))])
        except Budget as e:
            raise ToolError(str(e))
        out.append((b, r, s))
        ctx.simulated(s)
        for e in sorted(r.nev):
            ctx.ob("event", True, str(e), "", "%s x%d" % (e, r.nev[e]))
    return out


def life_check(ctx, pid, need):
    for b, r, s in life(ctx):
        for n in need:
            ctx.anchor("execution event %s" % (n,), r.nev.get(n, 0) and [1])
        mine = [v for v in s.violations if v["key"].startswith(pid + "|")]
        if not mine:
            ctx.ob("outcome-automaton", True, "execute", "", where(b))
        for v in mine:
            ctx.ob("outcome-automaton", False, v["key"].split("|", 1)[1], v["msg"], where(b), v["trace"])


EV_ALL = [("take", "ctrl"), ("take", "timer"), ("take", "msg"), ("ports",), ("hook", "on_start"), ("hook", "on_stop"), ("hook", "on_kill"),
          ("handler", "receive"), ("handler", "action"), ("pollblk",), ("pollnb",)]


@prop("S04")
def s04(ctx):
    life_check(ctx, "S04", EV_ALL)


@prop("S05")
def s05(ctx):
    life_check(ctx, "S05", EV_ALL + [("notify", "Started"), ("notify", "Stopped"), ("notify", "Killed")])


@prop("S07")
def s07(ctx):
    life_check(ctx, "S07", EV_ALL)


@prop("S08")
def s08(ctx):
    life_check(ctx, "S08", EV_ALL)


# ---- S06: panics -----------------------------------------------------------------------------------

class Panic(Exec):
    """Every handler call may unwind. (panicked, last state written, notifications, recovery results, poisoned)"""
    init = (0, None, (), (), 0)
    follow_unwind = True

    def mention(self, f):
        return super().mention(f)

    def may_unwind(self, c, fn):
        e = classify(c)
        return e is not None and e[0] in ("hook", "handler", "ports", "pollblk", "pollnb")

    def keep_phi(self, sym):
        s = sym
        while isinstance(s, tuple) and s and s[0] in ("discr", "ld"):
            s = s[1]
        return isinstance(s, tuple) and len(s) > 2 and s[0] == "fld" and s[2] == "supervisor"

    def sup(self, env):
        for k, v in env.items():
            if k[0] == "φ" and self.keep_phi(k[1]):
                return v[1] if v[0] == "c" else None
        return None

    def arith(self, op, a, b):
        if op in ("Add", "Sub", "Mul"):
            return ("y", ("num",))
        return None

    def call(self, st, c):
        fn = c.fn
        pan, state, nots, rec, poi = st
        if c.dest_ty and "RecoveryHandler" in c.dest_ty and not c.bodies and (fn is None or fn.name in ("call_once", "call", "call_mut")):
            self.nev[("recovery",)] = self.nev.get(("recovery",), 0) + 1
            if len(rec) < 3:
                rec = rec + (c.site,)
            return Outcome(ret=("y", ("call", c.site, "recovery")), st=(pan, state, nots, rec, poi))
        if fn is not None and fn.name == "lock" and fn.self_ty and "RecoveryHandler" in fn.self_ty:
            g = ("y", ("call", c.site, "rguard"))
            return [Outcome(ret=("v", RESULT, "Ok", (("0", g),)), st=st),
                    Outcome(ret=("v", RESULT, "Err", (("0", g),)), st=(pan, state, nots, ("nolock",), poi))]
        return super().call(st, c)

    def event(self, st, c, e):
        pan, state, nots, rec, poi = st
        k = e[0]
        if k in ("hook", "handler", "ports", "pollblk", "pollnb"):
            uw = None
            ret = Outcome(ret=("y", ("call", c.site, "h")), st=(0, None, (), (), 0))
            ret.unwind = (1, None, (), (), 0)
            self.panics = self.panics + 1 if hasattr(self, "panics") else 1
            return ret
        if k == "state":
            return Outcome(st=(pan, e[1], nots, rec, poi))
        if k == "notify":
            v = self.sim.load_through(c.env, c.args[1])
            src = None
            if v[0] == "v" and v[2] == "Faulty" and v[3]:
                h = v[3][0][1]
                src = h[0] == "y" and h[1][0] == "call" and h[1][2] == "recovery"
            return Outcome(st=(pan, state, (nots + ((e[1], src),))[:4], rec, poi))
        if k == "poison":
            return Outcome(st=(pan, state, nots, rec, min(poi + 1, 2)))
        return None

    def unwind_exit(self, st, c):
        if st[0]:
            self.sim.violate("escape", "a panic in a handler leaves the component's execution and unwinds into the scheduler thread")

    def ret(self, st, c, val):
        pan, state, nots, rec, poi = st
        if not pan:
            return
        sup = self.sup(c.env)
        if state != "Faulty":
            self.sim.violate("not-faulty", "after a handler panicked the component ends %s instead of faulty" % (state or "unchanged"))
        f = [x for x in nots if x[0] == "Faulty"]
        if any(x[0] != "Faulty" for x in nots):
            self.sim.violate("other-notify", "a panic is reported to the supervisor as %s" % [x[0] for x in nots])
        if sup != 0 and rec != ("nolock",):
            if len(f) != 1:
                self.sim.violate("report", "a panic in a supervised component leads to %d fault reports instead of one" % len(f))
            elif not f[0][1]:
                self.sim.violate("report-source", "the fault report does not carry the result of the component's recovery function")
            if len(rec) != 1:
                self.sim.violate("recovery", "the recovery function runs %d times for one panic" % len(rec))
        if sup == 0 and not poi:
            self.sim.violate("poison", "a panic in a component without supervisor does not poison the system")
        if sup != 0 and poi:
            self.sim.violate("poison-supervised", "a panic in a supervised component poisons the system")


@prop("S06")
def s06(ctx):
    life_check(ctx, "S06", EV_ALL + [("notify", "Faulty"), ("poison",)])
    p = ctx.prog("net")
    roots = exec_roots(p)
    for b in roots:
        r = Panic(p)
        s = Sim(p, r, 600000)
        try:
            s.run(b, args=[("y", ("comp",))])
        except Budget as e:
            raise ToolError(str(e))
        ctx.simulated(s)
        ctx.anchor("handler calls that may panic", getattr(r, "panics", 0) and [1])
        ctx.anchor("recovery function call", r.nev.get(("recovery",), 0) and [1])
        if not s.violations:
            ctx.ob("panic", True, "execute", "", where(b))
        for v in s.violations:
            ctx.ob("panic", False, v["key"], v["msg"], where(b), v["trace"])
    # handlers are entered through execute only
    n = 0
    for b in p.bodies:
        if b.h in {x.h for x in roots}:
            continue
        hs = [x for x in p.calls(b) if x[1] is not None and handler_ref(x[1])]
        if not hs:
            continue
        n += 1
        bad = escapes(p, b, {x.h for x in roots})
        ctx.ob("handlers-inside-execute", not bad, bkey(b), "runs component handlers but can be reached without the execution boundary, through %s" % (bad and where(bad)), where(b))
    ctx.anchor("functions calling component handlers", list(range(n)))


def handler_ref(f):
    tr = last_seg(f.trait) if f.trait else None
    if tr == "ComponentLifecycle" and f.name in ("on_start", "on_stop", "on_kill"):
        return f.rk != "item"
    if tr == "ComponentDefinition" and f.name == "execute":
        return True
    return f.name == "run" and ty_head(f.self_ty) in ("BlockingFuture", "NonBlockingFuture")


def escapes(p, b, stop):
    """A function that reaches b although nothing calls it, other than the execution boundary."""
    cg = p.callers()
    seen, work = set(), [b.h]
    while work:
        h = work.pop()
        if h in seen or h in stop:
            continue
        seen.add(h)
        cs = [x for x in cg.get(h, ()) if x != h]
        if not cs:
            return p.by_h[h]
        work.extend(cs)
    return None
