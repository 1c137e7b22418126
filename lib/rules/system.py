"""U02, U03, U04: waiting for lifecycle changes, creating components, ending the system."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named

WAIT = {"start_notify": ("Started", "Start"), "stop_notify": ("Stopped", "Stop"), "kill_notify": ("Destroyed", "Kill")}
PLAIN = {"start": "Start", "stop": "Stop", "kill": "Kill"}


def methods_of(p, ty, trait=None):
    return [b for b in p.bodies if b.kind != "Closure" and b.self_adt and last_seg(b.self_adt) == ty and (last_seg(b.trait) if b.trait else None) == trait]


def in_system(c, b):
    return b.kind == "Closure" or b.file.startswith("core/src/runtime/") or b.file.startswith("core/src/utils")


def base_event(sim, c):
    """Events all of these checks share."""
    f = c.fn
    if f is None:
        return None
    n = f.name
    tr = last_seg(f.trait) if f.trait else ""
    a = lambda i: deep(sim, c.env, sim.unref(c.env, c.args[i]))
    who = lambda i: flat(sim.ident(c.env, c.args[i]))
    hd = ty_head(f.self_ty) if f.self_ty else ""
    if n == "promise" and f.krate == "kompact" and not c.args:
        return E("promise", ret=("v", "tuple", None, (("0", ("y", ("prom", c.site))), ("1", ("y", ("fut", c.site))))))
    if n == "id" and len(c.args) == 1 and (tr == "CoreContainer" or hd in ("Component", "ComponentCore")):
        return E(ret=("y", ("idof", sim.ident(c.env, c.args[0]))))
    if n == "enqueue_control":
        return E("control", who(0), a(1))
    if n == "enqueue" and hd in ("ProvidedRef", "RequiredRef", "ActorRef", "ActorRefStrong", "DynActorRef"):
        return E("send", hd, who(0), a(1))
    return None


class Sys(Trace):
    def __init__(self, p, check, ev=None, cls=None, **k):
        Trace.__init__(self, p, self.event, check, inline=k.pop("inline", in_system), **k)
        self.more = ev

    def event(self, c):
        e = self.more(self.sim, c) if self.more else None
        return e if e is not None else base_event(self.sim, c)


@prop("U02")
def waiting(ctx):
    ctx.say("For every public function that returns a future for a lifecycle change: on every path the supervisor is told about the waiter, with the component's own id and the event of the request, before the component is told to change; the future returned is the other half of the promise sent. Handles forward to these functions unchanged.")
    for fs in ("net", "local"):
        p = ctx.prog(fs)
        seen = set()
        for b in methods_of(p, "KompactSystem"):
            if b.name in WAIT:
                want = WAIT[b.name]
                r = Sys(p, lambda st, val, facts, c, want=want: wait_check(st, val, want))
                run_trace(ctx, p, "notify-" + want[1], b, r)
                seen |= r.sim.bodies_seen
                ctx.anchor("%s/%s listens" % (fs, b.name), r.events.get("send", 0))
            elif b.name in PLAIN:
                r = Sys(p, lambda st, val, facts, c, want=PLAIN[b.name]: plain_check(st, want))
                run_trace(ctx, p, "request-" + PLAIN[b.name], b, r)
        have = {b.name for b in methods_of(p, "KompactSystem")}
        for n in list(WAIT) + list(PLAIN):
            ctx.anchor("%s/KompactSystem::%s" % (fs, n), [n] if n in have else [])
        for h in agg_sites(p, "ListenEvent"):
            b = p.by_h[h]
            if b.h not in seen and not b.file.endswith("supervision.rs") and "fmt" not in b.name:
                r = Sys(p, lambda st, val, facts, c: wait_check(st, val, None))
                run_trace(ctx, p, "other-waiter", b, r)
        # handles forward
        for tr in ("SystemHandle", "DistributedSystemHandle"):
            impls = [b for b in p.bodies if b.trait and last_seg(b.trait) == tr and b.kind != "Closure"]
            ctx.anchor("%s/%s impls" % (fs, tr), impls if fs == "net" or tr == "SystemHandle" else [1])
            for b in impls:
                if b.name in WAIT or b.name in PLAIN:
                    fwd(ctx, p, b)


def agg_sites(p, adt):
    out = set()
    for b in p.bodies:
        for blk in b.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and (s[2][1][1] == adt or last_seg(s[2][1][1]) == adt):
                    out.add(b.h)
    return out


def wait_check(st, val, want):
    sends = [x for x in st if x[0] == "send" and "Listen(" in x[3]]
    ctl = [x for x in st if x[0] == "control"]
    if len(ctl) != 1 or len(sends) != 1:
        yield "count", "%d waiters are registered and %d control events are sent, instead of one each" % (len(sends), len(ctl))
        return
    if st.index(sends[0]) > st.index(ctl[0]):
        yield "order", "the component is told to change before the supervisor knows about the waiter"
    pair = {v[0]: v[1] for v in WAIT.values()}
    msg = sends[0][3]
    ev = [e for e in pair if e + "(" in msg]
    ctlname = ctl[0][2]
    if not ev:
        yield "no-event", "the waiter names no lifecycle event: %s" % msg
        return
    ev = ev[0]
    if pair[ev] != ctlname or (want and (ev, ctlname) != want):
        yield "wrong-event", "the caller asked for %s, but the waiter waits for %s and the component is sent %s" % (want and want[0], ev, ctlname)
    if "idof:" not in msg or msg.split("idof:")[1].split(")")[0] != ctl[0][1]:
        yield "other-component", "the waiter names another component (%s) than the one that is told to change (%s)" % (msg, ctl[0][1])
    if "prom:" not in msg:
        yield "promise", "the supervisor is not given the new promise: %s" % msg
    v = flat(val)
    if not v.startswith("fut:") or v[4:].split(")")[0] != msg.split("prom:")[1].split(",")[0].split(")")[0] if "prom:" in msg else True:
        if not v.startswith("fut:"):
            yield "future", "the future that is returned is not the one the supervisor completes (%s)" % v


def plain_check(st, want):
    ctl = [x for x in st if x[0] == "control"]
    if len(ctl) != 1 or ctl[0][2] != want:
        yield "control", "the component is sent %s instead of one %s" % ([x[2] for x in ctl], want)
    elif "arg1" not in ctl[0][1]:
        yield "other-component", "another component than the one named is told to change (%s)" % ctl[0][1]


def fwd(ctx, p, b):
    """A handle's method does what the system's method of that name does, with the same arguments, and returns its result."""
    def ev(sim, c):
        f = c.fn
        if f is None or f.krate != "kompact":
            return None
        if f.name == b.name and (ty_head(f.self_ty) == "KompactSystem" or (f.trait and last_seg(f.trait) == last_seg(b.trait))) and c.body.h != b.h + "x":
            return E("call", f.name, tuple(flat(sim.unref(c.env, a)) for a in c.args[1:]), ret=("y", ("res", "fwd")))
        return None

    def chk(st, val, facts, c):
        cs = [x for x in st if x[0] == "call"]
        n = b.argc - 1 if hasattr(b, "argc") else None
        if len(cs) != 1:
            yield "forward", "the handle does not forward the request exactly once (%d)" % len(cs)
            return
        args = cs[0][2]
        for i, a in enumerate(args):
            if "arg%d" % (i + 1) not in a:
                yield "argument", "argument %d is forwarded as %s" % (i + 1, a)
        if [x for x in st if x[0] in ("control", "send")]:
            yield "extra", "the handle sends something itself"
        if len(args) and flat(val) not in ("res:fwd", "tuple", "()") and b.name in WAIT:
            yield "result", "the handle returns something else than the result: %s" % flat(val)
    run_trace(ctx, p, "handle-forwards", b, Sys(p, chk, ev, inline=lambda c, bb: bb.kind == "Closure" or bb.file == b.file and bb.name != b.name))


# ------------------------------------------------------------------------------------------------- U03
def component_adt(p):
    a = adt_named(p, "Component")
    return a


def create_event(p):
    a = component_adt(p)
    fn = {f[0]: f[1] for f in a["variants"][0]["fields"]}
    sup = [n for n, t in fn.items() if "SupervisionPort" in t]
    sch = [n for n, t in fn.items() if "DedicatedThreadScheduler" in t]
    core = [n for n, t in fn.items() if ty_head(t) == "ComponentCore"]
    mut = [n for n, t in fn.items() if "ComponentMutableCore" in t]

    def ev(sim, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        hd = ty_head(f.self_ty) if f.self_ty else ""
        a = lambda i: deep(sim, c.env, sim.unref(c.env, c.args[i]))
        who = lambda i: flat(sim.ident(c.env, c.args[i]))
        if n in ("new", "new_cyclic") and hd in ("Arc", "Rc") and c.args:
            v = sim.load_through(c.env, c.args[0])
            if v[0] == "v" and last_seg(str(v[1])) == "Component":
                g = dict(v[3])
                get = lambda ks: flat(sim.unref(c.env, g[ks[0]])) if ks and ks[0] in g else "?"
                return E("component", get(core), get(sup), get(sch), get(mut), ret=("y", ("comp", c.site)))
            return None
        if hd == "ComponentCore" and n != "set_component" and f.krate == "kompact" and "ComponentCore" in str(c.dest_ty or ""):
            return E("core", a(0), ret=("y", ("newcore", sim.unref(c.env, c.args[0]))))
        if hd == "DedicatedThreadScheduler" and f.krate == "kompact" and n not in ("schedule",):
            t = ("v", "tuple", None, (("0", ("y", ("sched", c.site))), ("1", ("y", ("sprom", c.site)))))
            return E("thread", n, tuple(a(i) for i in range(len(c.args))), ret=("v", Sim.RES, "Ok", (("0", t),)), alts=[E("thread-failed", ret=("v", Sim.RES, "Err", (("0", ("y", ("terr", c.site))),)))])
        if n == "setup" and f.trait and last_seg(f.trait) == "ComponentDefinition":
            return E("setup", who(0), a(1))
        if n == "set_component":
            return E("link", who(0), a(1))
        if n == "fulfil":
            return E("hand", a(0), a(1), ret=("v", Sim.RES, "Ok", (("0", ("v", "tuple", None, ())),)), alts=[E("hand-failed", ret=("v", Sim.RES, "Err", (("0", ("y", ("ferr", c.site))),)))])
        if n in ("register", "register_by_path", "register_by_alias", "actor_with_promise") and hd in ("KompactSystem", "KompactRuntime"):
            return E("register", a(1), ret=("y", ("registration", c.site)))
        if f.krate == "kompact" and n in ("supervision_port",):
            return E(ret=("y", ("supervision",)))
        if f.krate == "kompact" and n == "logger":
            return E(ret=("y", ("logger",)))
        if f.trait and last_seg(f.trait) in ("FnOnce", "Fn", "FnMut"):
            return E("definition", ret=("y", ("definition",)))
        if n == "schedule":
            return E("schedule", a(0))
        return None
    return ev, bool(sup) and bool(sch) and bool(core) and bool(mut)


@prop("U03")
def creation(ctx):
    ctx.say("Every function of the system that returns a new component is simulated: the component is made from the caller's definition with this system, with the supervisor and the scheduler its name promises; it is set up with itself and linked to its core before it is handed to its thread, registered or returned; nothing starts it. Every constructor of a component keeps what it was given. Derived setup code initialises the context and every port with the component itself.")
    for fs in ("net", "local", "pinning"):
        p = ctx.prog(fs)
        ev, ok = create_event(p)
        ctx.anchor(fs + "/fields of Component", [1] if ok else [])
        roots = [b for b in methods_of(p, "KompactSystem") if b.name.startswith("create") and "Component<" in str(b.locals[0]) and b.name not in ("create_erased",)]
        ctx.anchor(fs + "/creation functions", roots, 4)
        for b in roots:
            r = Sys(p, lambda st, val, facts, c, b=b: create_check(b, st, val), ev, inline=lambda c, bb: in_system(c, bb) and bb.name != "register" or bb.file.startswith("core/src/component/"))
            run_trace(ctx, p, "creation", b, r)
            ctx.anchor("%s/%s makes a component" % (fs, b.name), r.events.get("component", 0))
        # components made elsewhere
        a = component_adt(p)
        made = {h for h in agg_sites(p, a["id"])} if a else set()
        ctx.anchor(fs + "/constructors", made)
        for h in sorted(made):
            b = p.by_h[h]
            if not b.self_adt or last_seg(b.self_adt) != "Component":
                ctx.ob("constructor", False, bkey(b), "a component is put together outside its constructors", where(b))
            else:
                for g in p.callers().get(h, ()):
                    gb = p.by_h.get(g)
                    okc = gb is not None and (gb.self_adt and last_seg(gb.self_adt) in ("KompactSystem", "Component"))
                    ctx.ob("constructor", bool(okc), "%s<-%s" % (bkey(b), gb.id if gb else "?"), "a component is made by code that is not one of the creation functions", where(gb) if gb else "")
        # core: what the constructor of the core keeps
        for b in p.bodies:
            if b.self_adt and last_seg(b.self_adt) == "ComponentCore" and b.kind != "Closure" and "ComponentCore" in str(b.locals[0]) and not str(b.locals[0]).startswith("&"):
                run_trace(ctx, p, "core", b, Sys(p, core_check, inline=lambda c, bb: bb.file.endswith("lifecycle.rs")))
        for b in p.bodies:
            if b.name == "set_component" and b.self_adt and last_seg(b.self_adt) == "ComponentCore":
                def sc(st, val, facts, c):
                    s = [x for x in st if x[0] == "set"]
                    if len(s) != 1 or "arg1" not in s[0][2] or "arg0" not in s[0][1]:
                        yield "link", "the core does not keep the component it is linked to"
                run_trace(ctx, p, "core-link", b, Sys(p, sc, lambda sim, c: E("set", flat(sim.ident(c.env, c.args[0])), flat(sim.unref(c.env, c.args[1])), ret=("v", Sim.RES, "Ok", (("0", ("v", "tuple", None, ())),))) if c.fn and c.fn.name in ("set", "get_or_init", "init") and len(c.args) == 2 else None))
        for b in p.bodies:
            if b.name == "initialise" and b.self_adt and last_seg(b.self_adt) == "ComponentContext":
                def ic(st, val, facts, c):
                    w = [x for x in st if x[0] == "inner"]
                    if len(w) != 1 or not w[0][1].startswith("Some("):
                        yield "inner", "initialising a context does not set it exactly once"
                    elif not w[0][2]:
                        yield "inner-of", "the context is initialised with something that does not come from the component it was given"
                a2 = adt_named(p, "ComponentContext")
                inn = [f[0] for f in a2["variants"][0]["fields"] if "ComponentContextInner" in f[1]]

                def wr(c, key, val):
                    if key[-1] in [("f", i) for i in inn]:
                        val = resolve(c.sim, c.env, val)
                        s = flat(val)
                        g = dict(val[3]).get("0") if val[0] == "v" and val[3] else None
                        parts = [flat(x) for _, x in g[3]] if g and g[0] == "v" else []
                        good = bool(parts) and any("arg1" in x for x in parts) and not any("arg0" in x for x in parts)
                        return ("inner", s[:5], good)
                    return None
                run_trace(ctx, p, "context", b, Sys(p, ic, inline=lambda c, bb: False, on_write=wr))
    derived_setup(ctx)


def core_check(st, val, facts, c):
    if val[0] != "v":
        yield "core", "the core is not built here"
        return
    v = [flat(x) for _, x in val[3]]
    if not any(x == "arg0" or x.startswith("arg0") for x in v):
        yield "core-system", "the core does not keep the system it is made for"


def create_check(b, st, val):
    comp = [x for x in st if x[0] == "component"]
    if len(comp) != 1:
        if b.name not in ("create_erased",):
            yield "component", "%d components are made instead of one" % len(comp)
        return
    _, core, sup, sch, mut = comp[0]
    unsup = "unsupervised" in b.name
    ded = "dedicated" in b.name
    if "newcore" not in core or "arg0" not in core:
        yield "system", "the component's core is not made for this system (%s)" % core
    if "definition" not in mut:
        yield "definition", "the component is not made from the caller's definition (%s)" % mut
    if unsup and sup != "None":
        yield "supervisor", "an unsupervised component gets a supervisor"
    if not unsup and not ("supervision" in sup and sup != "None"):
        yield "supervisor", "a supervised component is not bound to the system's supervisor (%s)" % sup
    if ded and "sched:" not in sch:
        yield "scheduler", "a component with its own thread is not bound to that thread's scheduler (%s)" % sch
    if not ded and sch != "None":
        yield "scheduler", "a component without its own thread gets a scheduler of its own"
    if ded:
        t = [x for x in st if x[0] == "thread"]
        if "pinned" in b.name and not any("arg2" in a for x in t for a in x[2]):
            yield "pin", "a pinned component's thread is not pinned to the core that was named"
        h = [x for x in st if x[0] == "hand"]
        if len(h) != 1 or "sprom" not in h[0][1] or "comp:" not in h[0][2]:
            yield "hand", "the component is not handed to its thread exactly once"
    su = [x for x in st if x[0] == "setup"]
    li = [x for x in st if x[0] == "link"]
    if len(su) != 1 or "comp:" not in su[0][1] and "definition" not in su[0][1] or "comp:" not in su[0][2]:
        yield "setup", "the definition is not set up exactly once with its own component"
    if len(li) != 1 or "comp:" not in li[0][1] or "comp:" not in li[0][2]:
        yield "link", "the core is not linked to its own component exactly once"
    order = {x: i for i, x in enumerate(st)}
    for x in st:
        if x[0] in ("hand", "register", "send") and (not su or not li or order[x] < order[su[0]] or order[x] < order[li[0]]):
            yield "reachable", "the component can be reached (%s) before it is set up and linked" % x[0]
        if x[0] in ("control", "schedule"):
            yield "started", "creating a component already sends it something (%s)" % (x[-1],)
    v = flat(val)
    if "register" in b.name:
        g = [x for x in st if x[0] == "register"]
        if len(g) != 1 or "comp:" not in g[0][1]:
            yield "registered", "the new component is not registered exactly once"
        if "registration:" not in v or "comp:" not in v:
            yield "result", "the component and its registration are not what is returned (%s)" % v
    else:
        if [x for x in st if x[0] == "register"]:
            yield "registered", "creating a component registers it"
        if "comp:" not in v:
            yield "result", "what is returned is not the new component (%s)" % v


def derived_setup(ctx):
    p = ctx.prog("witness")
    n = 0
    for b in p.bodies:
        if b.name == "setup" and b.trait and last_seg(b.trait) == "ComponentDefinition":
            a = p.adts.get(b.self_adt) or next((x for x in p.adts.values() if x["id"] == b.self_adt), None)
            if a is None:
                continue
            n += 1
            fs = [(f[0], ty_head(f[1])) for f in a["variants"][0]["fields"]]
            ports = {f for f, h in fs if h in ("ProvidedPort", "RequiredPort")}
            cx = {f for f, h in fs if h == "ComponentContext"}

            def ev(sim, c):
                f = c.fn
                if f and f.krate == "kompact" and f.name in ("initialise", "set_parent"):
                    return E(f.name, flat(sim.ident(c.env, c.args[0])), flat(sim.unref(c.env, c.args[1])))
                return None

            def chk(st, val, facts, c):
                for x in st:
                    if x[0] in ("initialise", "set_parent") and "arg1" not in x[2]:
                        yield "other", "something else than the component itself is given to %s" % x[1]
                for f in ports:
                    k = [x for x in st if x[0] == "set_parent" and x[1].endswith("." + f)]
                    if len(k) != 1:
                        yield "port:" + f, "port `%s` is told its component %d times" % (f, len(k))
                for f in cx:
                    k = [x for x in st if x[0] == "initialise" and x[1].endswith("." + f)]
                    if len(k) != 1:
                        yield "ctx", "the context is initialised %d times" % len(k)
            run_trace(ctx, p, "derived-setup", b, Sys(p, chk, ev, inline=lambda c, bb: bb.kind == "Closure"))
    ctx.anchor("derived setup functions", list(range(n)), 2)
    # set_parent keeps the component
    q = ctx.prog("net")
    sp = [b for b in q.bodies if b.name == "set_parent" and b.self_adt and last_seg(b.self_adt) in ("ProvidedPort", "RequiredPort")]
    ctx.anchor("set_parent", sp, 2)
    for b in sp:
        def ck(st, val, facts, c):
            w = [x for x in st if x[0] == "kept"]
            if len(w) != 1:
                yield "parent", "the port does not keep the component it is told about"

        def wr(c, key, val):
            return ("kept",) if "arg1" in deep(c.sim, c.env, val) and repr(key).find("'arg', 0") >= 0 else None

        def ev(sim, c):
            f = c.fn
            if f and f.name in ("set", "insert", "replace", "init", "store") and len(c.args) == 2 and "arg0" in flat(sim.ident(c.env, c.args[0])):
                return E("kept") if "arg1" in flat(sim.unref(c.env, c.args[1])) else None
            return None
        run_trace(ctx, q, "port-parent", b, Sys(q, ck, ev, on_write=wr))


# ------------------------------------------------------------------------------------------------- U04
LIFE = "core/src/runtime/lifecycle.rs"
POISON_ONLY = {"start", "now", "timer_ref"}
SETUP = ("create_unsupervised", "create_dedicated_unsupervised", "create_dedicated_pinned_unsupervised")


def rt_state(p):
    a = adt_named(p, "KompactRuntime")
    return [f[0] for f in a["variants"][0]["fields"] if "Atomic" in f[1]] if a else []


class Run(Sys):
    """Events of the runtime's own life cycle; the runtime state is read as every value it may have."""

    def __init__(self, p, check, vals, **k):
        self.vals = vals
        self.fields = rt_state(p)
        Sys.__init__(self, p, check, self.own, **k)

    def own(self, sim, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        hd = ty_head(f.self_ty) if f.self_ty else ""
        if "Atomic" in hd or "Atomic" in f.path:
            who = (c.args[0], sim.ident(c.env, c.args[0])) if c.args else ()
            mine = any(touches(who, x) for x in self.fields) or self.loose
            if mine:
                a = lambda i: sim.unref(c.env, c.args[i])
                if n == "load":
                    vs = self.vals or (None,)
                    if vs == (None,):
                        return E("state?", ret=("y", ("state", c.site)))
                    return E("state", vs[0], ret=("c", vs[0]), alts=[E("state", v, ret=("c", v)) for v in vs[1:]])
                if n == "store":
                    return E("state-store", flat(a(1)))
                if n in ("fetch_update", "try_update", "update"):
                    return E("state-update", flat(a(0)))
                if n in ("compare_exchange", "compare_exchange_weak", "compare_and_swap"):
                    it = ("state-cas", flat(a(1)), flat(a(2)))
                    if not self.vals:
                        return E(*it)
                    return E(*it, ret=("v", Sim.RES, "Ok", (("0", a(1)),)), alts=[E(*it, ret=("v", Sim.RES, "Err", (("0", ("c", v)),))) for v in self.vals])
                if n == "new":
                    return E("state-new", flat(a(0)))
                if n not in ("deref", "as_ptr"):
                    return E("state-other", n)
        tr = last_seg(f.trait) if f.trait else ""
        if tr == "Scheduler" or f.krate == "kompact" and "Scheduler" in tr:
            if n in ("shutdown", "shutdown_notify", "shutdown_async", "poison"):
                return E("scheduler-" + n, ret=None if n != "shutdown_notify" else ("y", ("awaitable", "scheduler-" + n)))
        if tr == "TimerComponent" and n in ("shutdown", "shutdown_notify"):
            return E("timer-" + n, ret=None if n != "shutdown_notify" else ("y", ("awaitable", "timer-" + n)))
        if tr == "SystemComponents" and n in ("start", "stop", "kill", "stop_notify"):
            return E("components-" + n, ret=None if n != "stop_notify" else ("y", ("awaitable", "components-" + n)))
        if f.krate == "kompact" and hd in ("KompactRuntime", "InternalComponents") and n in ("shutdown_notify", "stop_notify") and self.frozen:
            return E(hd + "-" + n, ret=("y", ("awaitable", hd + "-" + n)))
        if n == "wait" and f.krate == "kompact" and len(c.args) == 1:
            return E("waited", flat(sim.ident(c.env, c.args[0])))
        return None

    loose = False
    frozen = True


class Async(AsyncTrace):
    def __init__(self, p, check, caps, **k):
        self.rule0 = Run(p, None, None)
        AsyncTrace.__init__(self, p, self.evt, caps, check, inline=in_system, **k)

    def evt(self, c):
        self.rule0.sim = self.sim
        e = self.rule0.own(self.sim, c)
        return e if e is not None else base_event(self.sim, c)


def seq(st):
    """The order of the steps of a shutdown."""
    return [x for x in st if x[0] not in ("state", "state?", "promise", "iters", "end")]


def marked(st, after):
    """The runtime state is changed after `after`, and not before."""
    n = max([i for i, x in enumerate(st) if x[0] == after], default=len(st))
    up = [i for i, x in enumerate(st) if x[0] in ("state-update", "state-cas", "state-store")]
    # a loop around a compare-and-swap only gives up when the state it read forbids the change
    return all(i > n for i in up) and (up or any(x[0] in ("state", "state?") for x in st[n:]))


def consts(ctx, p):
    """(active, destroyed, faulty) as the runtime uses them."""
    out = {}
    for b in methods_of(p, "KompactRuntime"):
        if b.name in ("new", "poison", "kill"):
            r = Run(p, None, None)
            r.loose = b.name == "new"
            s = Sim(p, r, 20000)
            s.run(b)
            for st, v in r.paths:
                for x in st:
                    if x[0] == "state-new":
                        out.setdefault("active", set()).add(x[1])
                    if x[0] == "state-store" and b.name == "poison":
                        out.setdefault("faulty", set()).add(x[1])
    try:
        a = [int(x) for x in out.get("active", ())]
        f = [int(x) for x in out.get("faulty", ())]
    except ValueError:
        a = f = []
    ctx.anchor("initial and poisoned state values", [1] if len(a) == 1 and len(f) == 1 and a != f else [])
    if len(a) != 1 or len(f) != 1:
        raise ToolError("the runtime's state values were not found")
    return a[0], f[0]


@prop("U04")
def ending(ctx):
    ctx.say("The shutdown future and the kill function of the system are simulated step by step, every await taken to complete: the supervisor's shutdown is requested and awaited, then the system components, then the timer, then the state is set and the scheduler is shut down last. Every write to the runtime state other than poisoning goes through an atomic update that leaves a poisoned state alone, and poisoning is never overwritten. Every public function that sends a request first finds the state it needs.")
    for fs in ("net", "local"):
        p = ctx.prog(fs)
        active, faulty = consts(ctx, p)
        vals = (active, faulty, 999)
        state_writes(ctx, p, active, faulty)
        orders(ctx, p)
        gates(ctx, p, active, faulty, vals)


def state_writes(ctx, p, active, faulty):
    """Where the runtime state may be written, and how."""
    fields = rt_state(p)
    ctx.anchor("runtime state field", fields)
    n = 0
    roots = [b for b in p.bodies if b.kind != "Closure" and (b.file.startswith("core/src/runtime/system.rs") or b.file == LIFE)]
    atom = [b for b in roots if any("Atomic" in (c[1].path if c[1] else "") for c in p.calls(b))]
    atom += [p.by_h[h] for b in list(atom) for h in p.callers().get(b.h, ()) if False]
    for b in atom:
        r = Run(p, None, (active, faulty, 999))
        r.loose = True
        s = Sim(p, r, 20000)
        s.run(b)
        ctx.simulated(s)
        for st, v in sorted(r.paths, key=repr):
            for x in st:
                if x[0] == "state-store":
                    n += 1
                    ctx.ob("state-write", x[1] == str(faulty), bkey(b) + ":store", "the runtime state is overwritten with %s whatever it was, also when it was poisoned" % x[1], where(b))
                elif x[0] == "state-cas":
                    n += 1
                    ctx.ob("state-write", x[1] != str(faulty) and x[1].isdigit() or x[2] == str(faulty), bkey(b) + ":cas", "a compare-and-swap may replace the poisoned state", where(b))
                elif x[0] == "state-other":
                    ctx.ob("state-write", x[1] in ("fmt", "get_mut") or False, bkey(b) + ":" + x[1], "the runtime state is changed by %s, which ignores whether it was poisoned" % x[1], where(b))
        if has_update(p, b):
            n += 1
            good, why = update_keeps(p, b, faulty)
            ctx.ob("state-write", good, bkey(b) + ":update", why, where(b))
    ctx.anchor("writes of the runtime state", list(range(n)), 2)
    # nothing else may see the field as an atomic to write
    for b in p.bodies:
        if b.file in ("core/src/runtime/system.rs", LIFE) or b.file.startswith("core/src/component/lifecycle"):
            continue
        for blk, f, line, mac, cl in p.calls(b):
            if f and f.path.startswith("kompact::runtime::lifecycle::"):
                ctx.ob("state-write", False, bkey(b) + ":" + f.name, "the runtime state functions are used outside the runtime", where(b, line))


def has_update(p, b):
    return any(c[1] and c[1].name in ("fetch_update", "try_update", "update") and "Atomic" in c[1].path for c in p.calls(b))


def update_keeps(p, b, faulty):
    """The closure of a fetch_update returns None (or the same value) for the poisoned state."""
    cl = p.closures_of(b)
    for k in cl:
        for v0 in (faulty,):
            r = Trace(p, lambda c: None)
            s = Sim(p, r, 5000)
            s.run(k, args=[None, ("c", v0)])
            for st, v in r.paths:
                f = flat(v)
                if f not in ("None", "Some(%d)" % v0):
                    return False, "the update of the runtime state replaces the poisoned state by %s" % f
        return True, ""
    return False, "the update of the runtime state could not be followed"


def orders(ctx, p):
    def future(ty, name, chk, rule):
        bs = [b for b in methods_of(p, ty) if b.name == name]
        ctx.anchor("%s::%s" % (ty, name), bs)
        for b in bs:
            a = async_body(p, b)
            ctx.anchor("future of %s::%s" % (ty, name), [a] if a else [])
            if a:
                r = Async(p, chk, a[1])
                run_trace(ctx, p, rule, a[0], r, args=[("clo", a[0].h, a[1])] if False else None, root=b)

    def order(st, *steps):
        i = -1
        for s in steps:
            js = [j for j, x in enumerate(st) if x[0] == s[0] and all(t in str(x[k + 1]) for k, t in enumerate(s[1:]))]
            if len(js) != 1:
                return "`%s` happens %d times instead of once" % (" ".join(s), len(js))
            if js[0] < i:
                return "`%s` happens before a step that has to come first" % " ".join(s)
            i = js[0]
        return None

    def ok(val):
        f = flat(val)
        return not ("Err" in f or "from_residual" in f)

    def sysdown(st, val, facts, c):
        s = seq(st)
        if not ok(val):
            return
        why = order(s, ("KompactRuntime-shutdown_notify",), ("await", "KompactRuntime-shutdown_notify"), ("scheduler-shutdown_notify",), ("await", "scheduler-shutdown_notify"))
        if why:
            yield "order", "system shutdown: " + why

    def rtdown(st, val, facts, c):
        s = seq(st)
        why = order(s, ("InternalComponents-stop_notify",), ("await", "InternalComponents-stop_notify"), ("timer-shutdown_notify",), ("await", "timer-shutdown_notify"))
        if why:
            yield "order", "runtime shutdown: " + why
        if not marked(st, "await"):
            yield "state", "the runtime is not marked as ended exactly once, after everything was stopped"
        f = flat(val)
        if f.startswith("Ok") and False:
            yield "result", ""

    def icdown(st, val, facts, c):
        s = seq(st)
        sh = [i for i, x in enumerate(s) if x[0] == "send" and "Shutdown(" in x[3]]
        aw = [i for i, x in enumerate(s) if x[0] in ("await", "waited") and "fut:" in x[1]]
        if len(sh) != 1 or "prom:" not in s[sh[0]][3]:
            yield "supervisor", "the supervisor is not asked to end all components"
            return
        if not aw or aw[0] < sh[0]:
            yield "supervisor-await", "nothing waits for the supervisor to end all components"
            return
        down = [i for i, x in enumerate(s) if x[0] in ("components-stop_notify", "components-kill", "components-stop")]
        if [i for i in down if i < aw[0]]:
            yield "order", "system components are ended before all other components have ended"
        if ok(val) and not down:
            yield "components", "the system components are not ended"
        if [1 for i in down if s[i][0] == "components-stop_notify"] and ok(val) and not [1 for x in s if x[0] == "await" and "components-stop_notify" in x[1]]:
            yield "components-await", "nothing waits for the system components to end"

    future("KompactSystem", "shutdown", sysdown, "shutdown-order")
    future("KompactRuntime", "shutdown_notify", rtdown, "shutdown-order")
    future("InternalComponents", "stop_notify", icdown, "shutdown-order")

    def plain(ty, name, chk, rule="shutdown-order", frozen=False):
        bs = [b for b in methods_of(p, ty) if b.name == name]
        ctx.anchor("%s::%s" % (ty, name), bs)
        for b in bs:
            r = Run(p, chk, None, inline=in_system)
            r.frozen = frozen
            run_trace(ctx, p, rule, b, r)

    def killed(st, val, facts, c):
        yield from icdown(st, val, facts, c)
        s = [x for x in seq(st)]
        if not ok(val):
            return
        why = order(s, ("components-kill",), ("timer-shutdown",), ("scheduler-shutdown",))
        if why:
            yield "order", "killing the system: " + why
        if not marked(st, "components-kill"):
            yield "state", "the runtime is not marked as ended exactly once, after the components have ended"

    def poisoned(st, val, facts, c):
        s = seq(st)
        if not [x for x in s if x[0] == "state-store"]:
            yield "state", "poisoning does not set the state"
        if not [x for x in s if x[0].startswith("timer-shutdown")]:
            yield "timer", "poisoning does not stop the timer"
        if not [x for x in s if x[0] in ("scheduler-poison", "scheduler-shutdown", "scheduler-shutdown_async")]:
            yield "scheduler", "poisoning does not stop the scheduler"
        elif [i for i, x in enumerate(s) if x[0] == "state-store"] and [i for i, x in enumerate(s) if x[0] == "state-store"][0] > [i for i, x in enumerate(s) if x[0].startswith("scheduler")][0]:
            yield "order", "the scheduler is stopped before the system is marked as poisoned"
    plain("KompactSystem", "kill_system", killed)
    plain("KompactSystem", "poison", poisoned)

    # system components end before they report it
    for b in p.bodies:
        if b.trait and last_seg(b.trait) == "SystemComponents" and b.kind != "Closure" and b.name in ("stop_notify", "kill", "stop"):
            def parts(st, val, facts, c, nm=b.name):
                s = seq(st)
                k = {x[1] for x in s if x[0] == "kill"}
                w = {x[1] for x in s if x[0] == "ended"}
                if len(k) < 2:
                    yield "kill", "not every system component is killed (%s)" % sorted(k)
                if k - w:
                    yield "wait", "nothing waits for %s to end" % sorted(k - w)
                for x in k & w:
                    if min(i for i, y in enumerate(s) if y == ("ended", x)) < min(i for i, y in enumerate(s) if y == ("kill", x)):
                        yield "order", "%s is waited for before it is told to end" % x

            def pe(c):
                f = c.fn
                if f is None:
                    return None
                sim = r.sim
                if f.krate == "kompact" and f.name == "kill" and ty_head(f.self_ty) == "KompactSystem":
                    return E("kill", flat(sim.ident(c.env, c.args[1])).split(".")[-1])
                if f.krate == "kompact" and f.name in ("stop", "start") and ty_head(f.self_ty) == "KompactSystem":
                    return E(f.name, flat(sim.ident(c.env, c.args[1])).split(".")[-1])
                if f.krate == "kompact" and f.name == "wait_ended":
                    return E("ended", flat(sim.ident(c.env, c.args[0])).split(".")[-1])
                if f.name == "await_component_ended" or f.krate == "kompact" and "ended" in f.name and c.args:
                    return E("ended", flat(sim.ident(c.env, c.args[0])).split(".")[-1], ret=("y", ("awaitable", "ended")))
                return None
            inl = lambda c, bb: bb.file == b.file and not (bb.name or "").endswith("ended")
            if b.name == "stop_notify":
                a = async_body(p, b)
                ctx.anchor("future of " + b.id, [a] if a else [])
                if a:
                    r = AsyncTrace(p, pe, a[1], parts, inline=inl)
                    run_trace(ctx, p, "system-components", a[0], r, root=b)
            else:
                r = Trace(p, pe, parts, inline=inl)
                run_trace(ctx, p, "system-components", b, r)


def gates(ctx, p, active, faulty, vals):
    """Requests are refused unless the state allows them."""
    n = 0
    ev, _ = create_event(p)
    EFF = ("control", "send", "component", "link", "thread", "scheduler-shutdown", "components-kill", "register")
    for b in methods_of(p, "KompactSystem"):
        if b.name in SETUP or b.name in ("poison", "schedule", "prepare_new", "build_from_config", "with_dispatcher_definition", "supervision_port"):
            continue
        if not b.pub and b.name not in ("dispatcher_ref",):
            continue

        def chk(st, val, facts, c, b=b):
            need = (active,) if b.name not in POISON_ONLY else tuple(v for v in vals if v != faulty)
            seen = False
            for x in st:
                if x[0] == "state" and x[1] in need:
                    seen = True
                if x[0] == "state" and x[1] not in need:
                    seen_bad = True
                if x[0] in EFF and not seen:
                    yield "unchecked:" + x[0], "a system that is not running accepts the request (%s)" % b.name
                    return
        r = Run(p, chk, vals, inline=lambda c, bb: in_system(c, bb))
        own = r.own
        r.more = lambda sim, c, own=own: own(sim, c) or ev(sim, c)
        try:
            s = run_trace(ctx, p, "gate", b, r, max_states=30000, anchor=False)
        except ToolError:
            raise
        if any(k in r.events for k in EFF):
            n += 1
    ctx.anchor("gated requests", list(range(n)), 8)
    for b in methods_of(p, "KompactSystem"):
        if b.name == "shutdown":
            a = async_body(p, b)
            if a:
                r = Async(p, None, a[1])
                r.rule0.vals = vals

                def chk(st, val, facts, c):
                    i = [j for j, x in enumerate(st) if x[0] == "KompactRuntime-shutdown_notify"]
                    if i and not any(x == ("state", active) for x in st[:i[0]]):
                        yield "unchecked", "a system that is not running accepts a shutdown"
                r.check = chk
                run_trace(ctx, p, "gate", a[0], r, root=b)
