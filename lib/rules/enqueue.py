"""S01: count first, then publish, then wake exactly the idle component."""
from kit import *
from rules import prop

SD = "kompact::component::SchedulingDecision"


def is_inc(f):
    return f.krate == "kompact" and f.name == "increment_work"


def is_push(f):
    return f.name == "push" and ty_head(f.self_ty) == "SegQueue"


def sched_kind(f):
    if f.krate != "kompact":
        return None
    if f.name == "schedule" and f.trait and last_seg(f.trait) == "CoreContainer":
        return "own"
    if f.name == "schedule" and (ty_head(f.self_ty) in ("KompactSystem", "KompactRuntime") or (f.trait and last_seg(f.trait) == "Scheduler")):
        return "pool"
    if f.name == "schedule_custom":
        return "dedicated"
    return None


class Enq(Rule):
    inline_depth = 8
    init = (None, 0, 0)  # open count-in (component, decision), items published since, wake-ups since

    def __init__(self, prog):
        self.prog = prog
        self.rel = prog.reaching(prog.direct(lambda f: is_inc(f) or is_push(f) or sched_kind(f)))
        self.n = {"inc": 0, "push": 0, "schedule": 0}

    def may_inline(self, c, b):
        if b.crate != "kompact":
            return False
        if b.kind == "Closure":
            return True
        if b.h in self.rel and not (b.trait and b.name == "schedule") and b.name != "increment_work":
            return b.file in ("core/src/actors/refs.rs", "core/src/ports.rs", "core/src/timer/timer_manager.rs", "core/src/component/actual_component.rs", "core/src/component/core.rs")
        return len(b.blocks) <= 4 and b.name in ("core", "component", "system")

    def arith(self, op, a, b):
        if op in ("Add", "Sub"):
            return ("y", ("num",))
        return None

    def who(self, c, v):
        s = self.sim.ident(c.env, v)
        while isinstance(s, tuple) and s and (s[0] == "ld" or (s[0] == "fld" and s[2] in ("core",)) or s[0] == "coreof"):
            s = s[1]
        return s

    def call(self, st, c):
        f = c.fn
        if f is None or f.krate == "alloc" and f.name == "clone":
            return None
        inc, pushed, woken = st
        if is_inc(f) and f.self_ty and ty_head(f.self_ty) == "ComponentCore":
            self.n["inc"] += 1
            self.settle(st)
            o = []
            for v in ("Schedule", "AlreadyScheduled", "NoWork"):
                o.append(Outcome(ret=("v", SD, v, ()), st=((self.who(c, c.args[0]), v), 0, 0)))
            return o
        if f.name == "core" and f.trait and last_seg(f.trait) == "CoreContainer":
            return Outcome(ret=("y", ("coreof", self.who(c, c.args[0]))))
        if is_push(f):
            if self.item(f):
                self.n["push"] += 1
                if inc is None:
                    self.sim.violate("push-uncounted", "an item becomes visible in a component's queue before it is counted as pending work")
                elif pushed:
                    self.sim.violate("push-twice", "two items are published for one unit of pending work")
                return Outcome(st=(inc, pushed + 1 if pushed < 2 else 2, woken))
            return None
        k = sched_kind(f)
        if k is not None:
            self.n["schedule"] += 1
            if k != "own":
                self.sim.violate("bypass", "the component is handed to %s directly instead of to its own scheduler" % ("the system's scheduler" if k == "pool" else "a dedicated thread"))
            if inc is None:
                self.sim.violate("wake-uncounted", "a component is scheduled although no work was counted for it on this path")
            else:
                if inc[1] != "Schedule":
                    self.sim.violate("wake-busy", "a component is scheduled although counting the item said %s" % inc[1])
                if not pushed:
                    self.sim.violate("wake-early", "the component is scheduled before the item is visible in its queue")
                if woken:
                    self.sim.violate("wake-twice", "the component is scheduled twice for one item")
                if k == "own" and self.who(c, c.args[0]) != inc[0]:
                    self.sim.violate("wake-other", "work is counted for one component but another one is scheduled")
            return Outcome(st=(inc, pushed, min(woken + 1, 2)))
        return None

    def item(self, f):
        return True

    def settle(self, st):
        inc, pushed, woken = st
        if inc is None:
            return
        if not pushed:
            self.sim.violate("count-without-item", "work is counted but no item is published for it")
        if inc[1] == "Schedule" and not woken:
            self.sim.violate("no-wake", "the item finds the component idle but nothing schedules it")

    def ret(self, st, c, val):
        self.settle(st)


@prop("S01")
def s01(ctx):
    p = ctx.prog("net")
    tot = {"inc": 0, "push": 0, "schedule": 0}

    def analyse(b, force):
        r = Enq(p)
        r.force = force
        s = Sim(p, r, 60000)
        s.run(b)
        ctx.simulated(s)
        for k in tot:
            tot[k] += r.n[k]
        return s.violations, s.bodies_seen

    roots = []
    for b in p.bodies:
        if b.crate != "kompact" or b.name == "increment_work":
            continue
        fs = [x[1] for x in p.calls(b) if x[1] is not None]
        if any(is_inc(f) or is_push(f) for f in fs):
            roots.append(b)
    ctx.anchor("functions that publish work", roots, 5)
    lifted(ctx, p, "count-publish-wake", roots, analyse, excusable=lambda k: k in ("push-uncounted", "count-without-item", "no-wake", "wake-uncounted", "wake-early", "wake-other"))
    ctx.anchor("counting calls", list(range(tot["inc"])), 5)
    ctx.anchor("publishing calls", list(range(tot["push"])), 5)
    # a component's own scheduler: the dedicated one if present, else the system's, exactly once, with itself
    sch = p.method("Component", "schedule", "CoreContainer")
    ctx.anchor("component scheduling function", sch)
    for b in sch:
        r = Own(p)
        s = Sim(p, r, 20000)
        s.run(b)
        ctx.simulated(s)
        ctx.ob("own-scheduler", not s.violations, bkey(b), "", where(b)) if not s.violations else None
        for v in s.violations:
            ctx.ob("own-scheduler", False, v["key"], v["msg"], where(b), v["trace"])
    ctx.assume("crossbeam's SegQueue publishes an item before push returns")


class Own(Rule):
    init = (None, 0)

    def __init__(self, prog):
        self.prog = prog

    def may_inline(self, c, b):
        return b.crate == "kompact" and b.file.startswith("core/src/component/") and len(b.blocks) <= 8

    def branch(self, st, c, val, outcome):
        if outcome[0] == "variant" and outcome[1] in ("Some", "None") and "custom_scheduler" in str(val):
            return (outcome[1], st[1])
        return None

    def call(self, st, c):
        f = c.fn
        if f is None:
            return None
        k = sched_kind(f)
        if k is None or (k == "own"):
            if f.name == "component" and ty_head(f.self_ty) == "ComponentCore":
                return Outcome(ret=("y", ("selfcomp",)))
            return None
        if k == "pool":
            if st[0] == "Some":
                self.sim.violate("pool-despite-dedicated", "a component with its own thread is handed to the system's scheduler")
            v = self.sim.load_through(c.env, c.args[1])
            if v != ("y", ("selfcomp",)):
                self.sim.violate("pool-other", "the component hands something other than itself to the system's scheduler")
        if k == "dedicated" and st[0] == "None":
            self.sim.violate("dedicated-missing", "wakes a dedicated thread the component does not have")
        return Outcome(st=(st[0], st[1] + 1))

    def ret(self, st, c, val):
        if st[1] != 1:
            self.sim.violate("once", "scheduling a component wakes %d schedulers instead of one" % st[1])
