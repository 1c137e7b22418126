"""S11: what scheduler threads do with the outcome of an execution, and how schedulers stop."""
from kit import *
from rules import prop
from rules.execution import adt_of

DEC = "kompact::component::SchedulingDecision"
VARIANTS = ("Schedule", "AlreadyScheduled", "NoWork", "Blocked", "Resume")


def is_exec(f):
    return f is not None and f.name == "execute" and f.trait and last_seg(f.trait) == "CoreContainer"


def handover(f):
    if f is None:
        return None
    if f.name == "try_execute_locally":
        return "local"
    if f.name == "schedule" and (ty_head(f.self_ty) in ("KompactSystem", "KompactRuntime") or (f.trait and last_seg(f.trait) in ("CoreContainer", "Scheduler"))):
        return "sched"
    if f.name == "execute" and f.trait and last_seg(f.trait) == "Executor":
        return "exec"
    return None


class Base(Rule):
    def __init__(self, p, root, runners):
        self.prog = p
        self.root = root
        self.runners = runners
        self.n = 0

    def may_inline(self, c, b):
        if b.h == self.root:
            return False
        return b.kind == "Closure" or b.h in self.force or (b.crate == "kompact" and len(b.blocks) <= 15 and not b.trait)

    def ident(self, c, v):
        v = self.sim.load_through(c.env, v)
        return v

    def runs(self, v, depth=0):
        """The closure (or function) runs a component when called."""
        if v[0] == "clo" or v[0] == "fn":
            return v[1] in self.runners
        return False


class Pool(Base):
    """st = (decision of the last execution or None, component, handed over)"""
    init = (None, None, 0)

    def call(self, st, c):
        f = c.fn
        dec, comp, handed = st
        if is_exec(f):
            self.n += 1
            if handed:
                self.sim.violate("run-after-handover", "a component is run after it was handed to the scheduler again: two threads may run it")
            if dec in ("NoWork", "Blocked", "AlreadyScheduled"):
                self.sim.violate("run-without-work", "a component is run again although its execution reported '%s'" % dec)
            v = self.ident(c, c.args[0])
            if comp is not None and v != comp:
                self.sim.violate("other-component", "another component than the one that has work left is run")
            return [Outcome(ret=("v", DEC, x, ()), st=(x, v, 0)) for x in VARIANTS]
        k = handover(f)
        if k:
            if dec not in ("Schedule", "Resume"):
                self.sim.violate("schedule-without-work", "a component is handed to the scheduler although its execution reported '%s'" % dec)
            if handed:
                self.sim.violate("schedule-twice", "a component is handed to the scheduler twice for one execution")
            v = c.args[-1]
            if k == "sched":
                if self.ident(c, v) != comp:
                    self.sim.violate("schedule-other", "something other than the component with work left is handed to the scheduler")
            else:
                v = self.ident(c, v)
                if not self.runs(v) or not has_site(v, comp):
                    self.sim.violate("handover-idle", "the job given to the executor does not run the component that has work left")
            ok = Outcome(st=(dec, comp, 1))
            if k == "local":
                return [Outcome(ret=("v", Sim.RES, "Ok", (("0", ("v", "tuple", None, ())),)), st=(dec, comp, 1)),
                        Outcome(ret=("v", Sim.RES, "Err", (("0", ("y", ("eerr",))),)), st=(dec, comp, 0))]
            return ok
        if f is not None and any(b.h == self.root for b in c.bodies or ()):
            self.sim.violate("recursion", "a component that resumes is run by a nested call: enough resumptions in a row overflow the stack")
            return Outcome(stop=True)
        return None

    def ret(self, st, c, val):
        dec, comp, handed = st
        if dec in ("Schedule", "Resume") and not handed:
            self.sim.violate("work-dropped", "the execution reported '%s' but the component is neither run again nor handed to the scheduler" % dec)


class Dedicated(Base):
    """st = (last decision, component known destroyed or stop requested, left the loop signalled)"""
    init = (None, False, False)

    def call(self, st, c):
        f = c.fn
        dec, end, sig = st
        if is_exec(f):
            self.n += 1
            if sig:
                self.sim.violate("run-after-stopped", "the dedicated thread runs its component after it announced having stopped")
            return [Outcome(ret=("v", DEC, x, ()), st=(x, False, sig)) for x in VARIANTS]
        if f is None:
            return None
        if f.name == "is_destroyed":
            return [Outcome(ret=("c", 1), st=(dec, True, sig)), Outcome(ret=("c", 0), st=st)]
        if ty_head(f.self_ty) in ("AtomicBool", "Atomic") and f.name == "load":
            a = self.ident(c, c.args[0])
            self.loads = getattr(self, "loads", set()) | {a}
            return [Outcome(ret=("c", 1), st=(dec, True, sig)), Outcome(ret=("c", 0), st=st)]
        if ty_head(f.self_ty) in ("AtomicBool", "Atomic") and f.name in ("store", "swap"):
            self.stores = getattr(self, "stores", set()) | {self.ident(c, c.args[0])}
            if c.args[1] == ("c", 1):
                if not end:
                    self.sim.violate("early-stopped", "announces having stopped while the loop may still run the component")
                return Outcome(st=(dec, end, True))
        if f.name in ("park", "park_timeout"):
            if dec in ("Resume", "Schedule"):
                self.sim.violate("parks-with-work", "the dedicated thread parks although the execution reported '%s'" % dec)
            if dec is None:
                self.sim.violate("parks-first", "the dedicated thread parks before running its component once")
        return None

    def ret(self, st, c, val):
        dec, end, sig = st
        if not end:
            self.sim.violate("gives-up", "the dedicated thread leaves its loop although its component is neither destroyed nor was it asked to stop (last outcome %s)" % dec)
        if not sig:
            self.sim.violate("no-stopped", "the dedicated thread ends without announcing it: shutting it down waits forever")


class Stop(Rule):
    """st = (stop requested, stop seen completed)"""
    init = (False, False)
    n = 0

    def may_inline(self, c, b):
        return b.kind == "Closure" or (b.self_adt and last_seg(b.self_adt) == "DedicatedThreadScheduler")

    def fld(self, c, v):
        v = self.sim.load_through(c.env, v) if v[0] == "r" else v
        return repr((c.args[0], v))

    def call(self, st, c):
        f = c.fn
        if f is None or ty_head(f.self_ty) not in ("AtomicBool", "Atomic"):
            return None
        s = self.fld(c, c.args[0])
        which = "stopped" if "'stopped'" in s else "stop" if "'stop'" in s else None
        if f.name in ("store", "swap") and c.args[1] == ("c", 1) and which == "stop":
            self.n += 1
            return Outcome(st=(True, st[1]))
        if f.name == "load":
            if which == "stopped":
                return [Outcome(ret=("c", 1), st=(st[0], True)), Outcome(ret=("c", 0), st=st)]
        return None


class StopNow(Stop):
    def ret(self, st, c, val):
        if not st[0]:
            self.sim.violate("no-request", "returns without asking the dedicated thread to stop")


class StopWait(StopNow):
    def ret(self, st, c, val):
        StopNow.ret(self, st, c, val)
        if not st[1]:
            self.sim.violate("no-wait", "completes without having seen the dedicated thread leave its loop")


def simulate_one(ctx, p, r, b, rule, max_states=60000):
    s = Sim(p, r, max_states)
    try:
        s.run(b)
    except Budget as e:
        raise ToolError(str(e))
    ctx.simulated(s)
    if not s.violations:
        ctx.ob(rule, True, bkey(b), "", where(b))
    for v in s.violations:
        ctx.ob(rule, False, "%s:%s" % (bkey(b), v["key"]), v["msg"], where(b), v["trace"])
    return s


@prop("S11")
def s11(ctx):
    p = ctx.prog("net")
    direct = [b for b in p.bodies if b.crate == "kompact" and any(is_exec(x[1]) for x in p.calls(b))]
    runners = p.reaching(p.direct(is_exec), stop=lambda b: b.trait and last_seg(b.trait) not in ("FnOnce", "FnMut", "Fn"))
    pool = [b for b in direct if not (b.self_adt and last_seg(b.self_adt) == "DedicatedThreadScheduler") and not (b.trait and last_seg(b.trait) == "CoreContainer")]
    ded = [b for b in direct if b.self_adt and last_seg(b.self_adt) == "DedicatedThreadScheduler"]
    ctx.anchor("pool function that runs components", pool)
    ctx.anchor("dedicated thread loop", ded)

    def mk(cls):
        def analyse(b, force):
            r = cls(p, b.h, runners)
            r.force = force
            s = Sim(p, r, 60000)
            s.run(b)
            ctx.simulated(s)
            if cls is Dedicated:
                l, t = getattr(r, "loads", set()), getattr(r, "stores", set())
                if l & t:
                    s.violations.append({"key": "own-flag", "msg": "the loop waits for the flag it sets itself when it has stopped, not for a stop request", "trace": []})
            return s.violations, s.bodies_seen
        return analyse
    lifted(ctx, p, "pool-outcome", pool, mk(Pool), excusable=lambda k: k in ("work-dropped",))
    lifted(ctx, p, "dedicated-loop", ded, mk(Dedicated), excusable=lambda k: k in ("gives-up", "no-stopped"))
    # stopping
    for n, cls in (("shutdown", StopWait), ("shutdown_async", StopNow), ("poison", StopNow)):
        bs = p.method("DedicatedThreadScheduler", n, "Scheduler")
        ctx.anchor("DedicatedThreadScheduler::%s" % n, bs)
        for b in bs:
            simulate_one(ctx, p, cls(), b, "stop-dedicated")
    bs = p.method("DedicatedThreadScheduler", "shutdown_notify", "Scheduler")
    ctx.anchor("DedicatedThreadScheduler::shutdown_notify", bs)
    for b in bs:
        # what the returned future does
        cap = Captures()
        s = Sim(p, cap, 20000)
        s.run(b)
        ctx.simulated(s)
        ctx.anchor("future of DedicatedThreadScheduler::shutdown_notify", cap.out)
        for h, caps in sorted(cap.out, key=repr):
            f = p.by_h[h]
            names = {str(i): ("stopped" if "'stopped'" in repr(v) else "stop" if "'stop'" in repr(v) else None) for i, v in enumerate(caps)}
            r = FutStop(names, b)
            s0 = simulate_one(ctx, p, r, f, "stop-dedicated")
            for st in sorted(r.pending, key=repr):
                simulate_one(ctx, p, FutStop(names, b, st), f, "stop-dedicated")
    for n in ("shutdown", "shutdown_async", "poison"):
        bs = p.method("ExecutorScheduler", n, "Scheduler")
        ctx.anchor("ExecutorScheduler::%s" % n, bs)
        for b in bs:
            simulate_one(ctx, p, PoolStop(n), b, "stop-pool")
    # the way from a component to the executor
    for ty, n, tr in (("KompactSystem", "schedule", None), ("ExecutorScheduler", "schedule", "Scheduler"), ("DedicatedThreadScheduler", "schedule", "Scheduler"), ("DedicatedThreadScheduler", "schedule_custom", None)):
        bs = p.method(ty, n, tr) if tr else [b for b in p.method(ty, n) if not b.trait]
        ctx.anchor("%s::%s" % (ty, n), bs)
        for b in bs:
            simulate_one(ctx, p, Forward(p, runners, ty), b, "forward")
    ctx.assume("the executors crate runs every job given to execute or try_execute_locally once")
    ctx.assume("std's park/unpark keeps a wake-up that comes before parking")


class Captures(Rule):
    def __init__(self):
        self.out = set()

    def call(self, st, c):
        for a in c.args:
            if a[0] == "clo" and a[1] in self.sim.prog.by_h:
                self.out.add((a[1], tuple(self.sim.load_through(c.env, x) if x[0] == "r" else x for x in a[2])))
        return None


class FutStop(Stop):
    """Body of an async block, entered at its start (resume None) or where it was suspended in state `resume`."""

    def __init__(self, names, b, resume=None):
        self.names, self.b, self.resume = names, b, resume
        self.pending = set()
        if resume is not None:
            self.init = resume
        self.first = None

    def branch(self, st, c, val, outcome):
        if val[0] == "y" and val[1][0] == "discr" and ("arg", 0, "") in val[1][1:2] or "'arg', 0" in repr(val) and val[1][0] == "discr" and outcome[0] in ("int", "variant", "other"):
            n = outcome[1]
            if isinstance(n, int):
                if (self.resume is None) != (n == 0):
                    return "infeasible"
        return None

    def fld(self, c, v):
        t = self.sim.load_through(c.env, v) if v[0] == "r" else v
        for k, n in self.names.items():
            if n and repr(t).endswith("'%s')))" % k):
                return "'%s'" % n
        return repr(t)

    def ret(self, st, c, val):
        if val[0] == "v" and val[2] == "Pending":
            self.pending.add(st)
            return
        if not st[0]:
            self.sim.violate("no-request", "completes without asking the dedicated thread to stop")
        if not st[1]:
            self.sim.violate("no-wait", "completes without having seen the dedicated thread leave its loop")


class PoolStop(Rule):
    init = 0

    def __init__(self, n):
        self.want = "shutdown_borrowed" if n == "shutdown" else "shutdown_async"

    def call(self, st, c):
        if c.fn is not None and c.fn.trait and last_seg(c.fn.trait) in ("Executor", "FuturesExecutor") and c.fn.name in ("shutdown_async", "shutdown_borrowed", "shutdown"):
            return Outcome(st=1 if (c.fn.name == self.want or c.fn.name == "shutdown_borrowed") else st)
        return None

    def ret(self, st, c, val):
        if not st:
            self.sim.violate("not-stopped", "the executor is not asked to shut down (or not waited for)")


class Forward(Rule):
    """Exactly one hand-over on every path, of the component that was given."""
    init = 0

    def __init__(self, p, runners, ty):
        self.prog, self.runners, self.ty = p, runners, ty

    def may_inline(self, c, b):
        return bool(b.self_adt) and last_seg(b.self_adt) == self.ty

    def call(self, st, c):
        f = c.fn
        if f is None:
            return None
        if f.name == "unpark":
            return Outcome(st=st + 1)
        k = handover(f)
        if k and not any(b.self_adt and last_seg(b.self_adt) == self.ty for b in c.bodies or ()):
            v = self.sim.load_through(c.env, c.args[-1])
            if k == "sched":
                if v != ("y", ("arg", 1, c.sim.finfo[0][0].names.get(2, ""))):
                    self.sim.violate("other", "something other than the given component is passed on to the scheduler")
            elif not (v[0] in ("clo", "fn") and v[1] in self.runners and has_site(v, ("arg", 1, c.sim.finfo[0][0].names.get(2, "")))):
                self.sim.violate("idle-job", "the job given to the executor does not run the given component")
            return Outcome(st=st + 1)
        return None

    def ret(self, st, c, val):
        if st != 1:
            self.sim.violate("once", "the component is handed on %d times instead of once" % st)
