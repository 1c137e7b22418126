"""P01, P02: triggering, connecting and disconnecting ports."""
import re
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named

REFS = ("ProvidedRef", "RequiredRef")
PORTS = ("ProvidedPort", "RequiredPort")
OTHER = {"ProvidedPort": "RequiredRef", "RequiredPort": "ProvidedRef"}
OWN = {"ProvidedPort": "ProvidedRef", "RequiredPort": "RequiredRef"}
EACH_WITH = ("for_each_with", "for_each_try_with")


def field_names(p, adt, pred):
    a = adt_named(p, adt)
    return [f[0] for v in a["variants"] for f in v["fields"] if pred(f[1])] if a else []


def inherent(p, ty, name):
    return [b for b in p.bodies if b.kind != "Closure" and not b.trait and b.self_adt and last_seg(b.self_adt) == ty and b.name == name]


def traitfn(p, trait, name, ty=None):
    return [b for b in p.bodies if b.kind != "Closure" and b.trait and last_seg(b.trait) == trait and b.name == name and (ty is None or b.self_adt and last_seg(b.self_adt) == ty)]


def settled(f):
    """A comparison of numbers, worked out."""
    ops = {"Add": "+", "Sub": "-", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!=", "Not": "not "}
    if re.fullmatch(r"[()\d ]*(?:(?:%s)[()\d ]*)+" % "|".join(ops), f):
        return str(int(eval(re.sub(r"[A-Z][a-z]+", lambda m: ops[m.group()], f))))
    return f


class Ports(Trace):
    """Events on channel collections; helper functions of the port module are inlined."""

    def __init__(self, p, check, ev=None, **k):
        self.more = ev
        k.setdefault("inline", lambda c, b: b.kind == "Closure" or b.file in ("core/src/ports.rs", "core/src/utils/mod.rs", "core/src/channels.rs"))
        Trace.__init__(self, p, self.event, check, on_iter=self.iteration, **k)

    def iteration(self, X, opened, it, _):
        return tuple(it)

    def event(self, c):
        if self.more:
            e = self.more(c)
            if e is not None:
                return e
        f = c.fn
        if f is None:
            return None
        n = f.name
        hd = ty_head(f.self_ty) if f.self_ty else ""
        tr = last_seg(f.trait) if f.trait else ""
        who = lambda i: flat(self.sim.ident(c.env, c.args[i]))
        val = lambda i: deep(self.sim, c.env, self.sim.unref(c.env, c.args[i]))
        if n == "clone" and tr == "Clone" and len(c.args) == 1:
            return E(ret=objval(self.sim, c.env, c.args[0]))
        if hd in REFS:
            if n == "enqueue":
                return E("give", hd, who(0), val(1), 0, ret=("c", 0), alts=[E("give", hd, who(0), val(1), 1, ret=("c", 1))])
            if n == "is_live":
                return E("live", who(0), 1, ret=("c", 1), alts=[E("live", who(0), 0, ret=("c", 0))])
            if n in ("eq", "ne"):
                y = 1 if n == "eq" else 0
                a, b = sorted((who(0), who(1)))
                return E("same", a, b, 1, ret=("c", y), alts=[E("same", a, b, 0, ret=("c", 1 - y))])
            if n == "owned_by_component_with_id":
                O = "kompact::ports::OwnershipResult"
                return E("owner", who(0), val(1), "Owned", ret=("v", O, "Owned", ()), alts=[E("owner", who(0), val(1), x, ret=("v", O, x, ())) for x in ("NotOwned", "Deallocated")])
        if hd == "Vec" and n in ("push", "clear", "truncate", "pop", "remove", "swap_remove", "insert", "append", "drain"):
            return E("vec-" + n, who(0), *[val(i) for i in range(1, len(c.args))])
        if n == "len" and hd == "Vec" and len(c.args) == 1:
            # a long list, shorter by one for each sweep that removed something from it
            w = self.sim.ident(c.env, c.args[0])
            fs = [x for x in field_names(self.prog, "CommonPortData", lambda t: "Vec" in t) if touches(w, x)]
            if len(fs) == 1:
                gone = sum(1 for x in self.now if x[0] == "iters" and x[2] and touches(x[1], fs[0]) and any(y[0] == "no" for y in x[2]))
                return E(ret=("c", 16 - gone))
        if n in EACH_WITH and f.krate == "kompact":
            return None
        if n == "id" and len(c.args) == 1 and f.krate == "kompact":
            return E(ret=("y", ("idof", self.sim.ident(c.env, c.args[0]))))
        return None



# for_each_with is a loop like the library's for_each; its own body is checked separately
import trace as _t
_t.ITER_EACH |= set(EACH_WITH)


@prop("P01")
def triggering(ctx):
    ctx.say("Every path of a port's trigger is followed: it goes through the whole list of channels of the opposite direction, gives every one exactly one copy of the event, and cleans up when one of them reports that its owner is gone; cleaning up keeps exactly the live channels. A channel delivers once when its owner and queue are alive and reports death otherwise.")
    p = ctx.prog("net")
    for P in PORTS:
        ch = field_names(p, "CommonPortData", lambda t: OTHER[P] in t) or field_names(p, P, lambda t: OTHER[P] in t and "Vec" in t)
        ctx.anchor("channels of " + P, ch)
        own = field_names(p, "CommonPortData", lambda t: OWN[P] in t and "Vec" in t)
        ts = inherent(p, P, "trigger")
        ctx.anchor(P + "::trigger", ts)
        for b in ts:
            r = Ports(p, lambda st, val, facts, c: trig_check(st, val, ch, own, OTHER[P]))
            run_trace(ctx, p, "trigger", b, r)
            ctx.anchor("deliveries of " + P, r.events.get("give", 0))
    for R in REFS:
        for b in inherent(p, R, "is_live"):
            run_trace(ctx, p, "live", b, Ports(p, lambda st, val, facts, c: live_check(st, val), weak_event(R)))
        es = inherent(p, R, "enqueue")
        ctx.anchor(R + "::enqueue", es)
        for b in es:
            run_trace(ctx, p, "deliver", b, Ports(p, lambda st, val, facts, c: deliver_check(st, val), weak_event(R)))
    each_with(ctx, p)


def weak_event(R):
    def ev(c):
        f = c.fn
        if f is None:
            return None
        hd = ty_head(f.self_ty) if f.self_ty else ""
        who = lambda i: flat(c.sim.ident(c.env, c.args[i]))
        if f.name == "strong_count" and hd in ("Weak", "Arc"):
            w = who(0)
            return E("alive", w, 1, ret=("c", 1), alts=[E("alive", w, 0, ret=("c", 0))])
        if f.name == "upgrade" and hd == "Weak":
            w = who(0)
            return E("alive", w, 1, ret=("v", Sim.OPT, "Some", (("0", ("y", ("up", w))),)), alts=[E("alive", w, 0, ret=("v", Sim.OPT, "None", ()))])
        if f.name in ("push",) and f.krate not in ("kompact",) and "up" in who(0):
            return E("push", who(0), flat(c.sim.unref(c.env, c.args[1])))
        if f.name == "increment_work" and f.krate == "kompact":
            D = "kompact::component::SchedulingDecision"
            return E("count", ret=("v", D, "Schedule", ()), alts=[E("count", ret=("v", D, "AlreadyScheduled", ()))])
        return None

    return ev


def live_check(st, val):
    al = {x[1]: x[2] for x in st if x[0] == "alive"}
    fs = {w.rsplit(".", 1)[-1] for w in al}
    f = flat(val)
    if f == "1" and (len(fs) < 2 or not all(al.values())):
        yield "live", "a channel counts as live although its owner or its queue may be gone"
    elif f == "0" and all(al.values()):
        yield "dead", "a channel counts as dead although its owner and its queue are alive"
    elif f not in ("0", "1"):
        yield "unknown", "whether a channel is live does not follow from its owner and its queue (%s)" % f


def deliver_check(st, val):
    al = {x[1]: x[2] for x in st if x[0] == "alive"}
    pu = [x for x in st if x[0] == "push"]
    f = flat(val)
    if all(al.values()):
        if len(pu) != 1 or pu[0][2] != "arg1":
            yield "lost", "a live channel does not get the event exactly once"
        if f != "0":
            yield "dead", "a live channel reports that its owner is gone"
    else:
        if pu:
            yield "pushed", "an event is put into the queue of a dead channel"
        if f != "1":
            yield "unreported", "a dead channel does not report that its owner is gone"


def trig_check(st, val, ch, own, R):
    on = lambda X: any(touches(X, f) for f in ch)
    if [x for x in st if x[0] == "give"]:
        yield "outside", "an event is given to a channel outside the loop over all channels"
    if not whole(st, on):
        yield "partial", "the loop does not reach every channel"
    rounds = [x for x in st if x[0] == "iters" and on(x[1])]
    dead = False
    for x in rounds:
        it = x[2]
        g = [y for y in it if y[0] == "give"]
        if not g and [y for y in it if y[0] in ("live", "yes", "no")]:
            continue        # the clean-up loop
        if len(g) != 1:
            yield "count", "a channel is given %d copies of the event" % len(g)
            continue
        if "elem" not in g[0][2]:
            yield "target", "the event is given to something else than the channel at hand (%s)" % g[0][2]
        if "arg1" not in g[0][3]:
            yield "event", "a channel is given something else than the event (%s)" % g[0][3]
        dead = dead or g[0][4] == 1
    if [x for x in st if x[0] == "iters" and not on(x[1]) and any(y[0] == "give" for y in x[2] or ())]:
        yield "direction", "channels of the other direction are given the event"
    swept = any(x[0] == "iters" and on(x[1]) and any(z[0] in ("yes", "no", "maybe") for z in x[2]) for x in st) or any(x[0] == "end" and on(x[1]) and x[1][2] in ("retain", "retain_mut") for x in st)
    if dead and not swept:
        yield "dead-kept", "a channel whose owner is gone is not cleaned up"
    for x in st:
        if x[0] == "iters" and any(z[0] in ("yes", "no", "maybe") for z in x[2] or ()):
            it = x[2]
            lv = [z for z in it if z[0] == "live"]
            ans = [z[0] for z in it if z[0] in ("yes", "no", "maybe")][-1]
            if not lv or ans == "maybe" or any("elem" not in z[1] for z in lv):
                yield "blind", "channels are removed without asking whether they are live"
            elif (lv[-1][2] == 1) != (ans == "yes"):
                yield "wrong-removal", "cleaning up %s a %s channel" % ("keeps" if ans == "yes" else "removes", "live" if lv[-1][2] else "dead")
        if x[0].startswith("vec-") and x[0] not in ("vec-push",):
            yield "other-removal", "channels are removed by %s" % x[0][4:]


# -- for_each_with: each element once, in order
class EachWith(Rule):
    init = ((), 0, 0)
    inline_depth = 4

    def __init__(self, p):
        self.prog = p

    def call(self, st, c):
        f = c.fn
        pend, n, end = st
        if f is None:
            return None
        if f.trait and f.trait.endswith("Iterator") and f.name == "next" or f.name == "next" and f.krate in ("core", "std"):
            if end == 1:
                return Outcome(ret=("v", Sim.OPT, "None", ()), st=st)
            i = n % 4
            pk = end == 2
            if len(pend) >= 3:
                self.sim.violate("lag", "more than two elements are taken before they are handed on")
                return Outcome(stop=True)
            some = Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("item", i))),)), st=(pend + (i,), i + 1, 0))
            if pk:
                return some
            return [some, Outcome(ret=("v", Sim.OPT, "None", ()), st=(pend, n, 1))]
        if f.name in ("peek", "peek_mut"):
            if end == 1:
                return Outcome(ret=("v", Sim.OPT, "None", ()), st=st)
            r = ("v", Sim.OPT, "Some", (("0", ("y", ("peeked",))),))
            if end == 2:
                return Outcome(ret=r, st=st)
            return [Outcome(ret=r, st=(pend, n, 2)), Outcome(ret=("v", Sim.OPT, "None", ()), st=(pend, n, 1))]
        if f.name in ("into_iter", "by_ref", "peekable", "fuse") and len(c.args) == 1:
            return Outcome(ret=c.args[0], st=st)
        if f.trait and last_seg(f.trait) in ("FnMut", "Fn", "FnOnce") and f.name.startswith("call"):
            tp = self.sim.load_through(c.env, c.args[1])
            it = tp[3][0][1] if tp[0] == "v" and tp[3] else ("?",)
            v = tp[3][1][1] if tp[0] == "v" and len(tp[3]) > 1 else ("?",)
            if "arg1" not in flat(v) and "cloned" not in flat(v):
                self.sim.violate("value", "the function is given something else than the value to hand out (%s)" % flat(v))
            if it[0] == "y" and it[1][0] == "item" and it[1][1] in pend:
                if pend[0] != it[1][1]:
                    self.sim.violate("order", "elements are handed on out of order")
                return Outcome(ret=("v", "tuple", None, ()), st=(tuple(x for x in pend if x != it[1][1]), n, end))
            self.sim.violate("repeat", "the function is called for something that is not an element waiting for its turn")
            return Outcome(stop=True)
        if f.name == "try_clone":
            return [Outcome(ret=("v", Sim.RES, "Ok", (("0", ("y", ("cloned",))),)), st=st), Outcome(ret=("v", Sim.RES, "Err", (("0", ("y", ("cerr",))),)), st=st + ("e",) if False else (pend, n, 3))]
        if f.name == "clone" and len(c.args) == 1:
            return Outcome(ret=("y", ("cloned",)) if "arg1" in flat(self.sim.load_through(c.env, c.args[0])) else None, st=st)
        return None

    def ret(self, st, c, val):
        if c.frame == 0 or True:
            pend, n, end = st
            if end == 3:
                return
            if pend:
                self.sim.violate("dropped", "an element is taken from the iterator but never handed on")
            if end != 1:
                self.sim.violate("early", "the loop ends before the iterator does")


def each_with(ctx, p):
    bs = [b for b in p.bodies if b.kind != "Closure" and b.name in EACH_WITH]
    ctx.anchor("for_each_with", bs, 2)
    for b in bs:
        r = EachWith(p)
        s = Sim(p, r, 20000)
        s.run(b)
        ctx.simulated(s)
        if not s.violations:
            ctx.ob("each-with", True, bkey(b), "", where(b))
        for v in s.violations:
            ctx.ob("each-with", False, "%s:%s" % (bkey(b), v["key"]), v["msg"], where(b), v["trace"])


# ------------------------------------------------------------------------------------------------- P02
@prop("P02")
def connecting(ctx):
    ctx.say("Connect adds the given channel to the list of its direction once. Disconnecting a port removes exactly the entries equal to the given channel and says whether there were any; disconnecting a component removes its entries from both lists. Two-way connections share each side's own reference with the other under both locks, and a channel object's disconnect that reports success has removed the right reference from every side that still exists.")
    p = ctx.prog("net")
    for P in PORTS:
        ch = field_names(p, "CommonPortData", lambda t: OTHER[P] in t) or field_names(p, P, lambda t: OTHER[P] in t and "Vec" in t)
        own = field_names(p, "CommonPortData", lambda t: OWN[P] in t and "Vec" in t)
        on = lambda w: any(w.endswith("." + f) for f in ch)

        def conn(st, val, facts, c):
            v = [x for x in st if x[0].startswith("vec-")]
            if len(v) != 1 or v[0][0] not in ("vec-push", "vec-insert") or not on(v[0][1]) or v[0][-1] != "arg1":
                yield "connect", "connecting does not add the channel to the list of its direction exactly once (%s)" % (v,)
            if [x for x in st if x[0] == "iters"]:
                yield "loop", "connecting touches other channels"
        for b in need(ctx, inherent(p, P, "connect"), P + "::connect"):
            run_trace(ctx, p, "connect", b, Ports(p, conn))

        def disc(st, val, facts, c):
            onX = lambda X: any(touches(X, f) for f in ch)
            if not whole(st, onX) or [x for x in st if x[0] == "iters" and not onX(x[1])]:
                yield "list", "disconnecting does not go through the channels of the port's direction, and only those"
            removed = False
            for x in st:
                if x[0] == "iters":
                    sm = [y for y in x[2] if y[0] == "same"]
                    ans = [y[0] for y in x[2] if y[0] in ("yes", "no", "maybe")]
                    if len(sm) < 1 or not ans or ans[-1] == "maybe" or "arg1" not in "".join(sm[-1][1:3]) or "elem" not in "".join(sm[-1][1:3]):
                        yield "blind", "an entry is kept or removed without comparing it with the given channel"
                    else:
                        if (sm[-1][3] == 1) != (ans[-1] == "no"):
                            yield "wrong", "disconnecting %s an entry that is %s given channel" % ("removes" if ans[-1] == "no" else "keeps", "the" if sm[-1][3] else "not the")
                        removed = removed or sm[-1][3] == 1
                if x[0].startswith("vec-"):
                    yield "vec", "disconnecting changes the list by %s" % x[0][4:]
            f = settled(flat(val))
            if f not in (("1",) if removed else ("0",)):
                yield "answer", "disconnecting answers %s although %s entry was removed" % (f, "an" if removed else "no")
        for b in need(ctx, inherent(p, P, "disconnect_port"), P + "::disconnect_port"):
            run_trace(ctx, p, "disconnect", b, Ports(p, disc))

        def disco(st, val, facts, c):
            for fs in (ch, own):
                if fs and not whole(st, lambda X: any(touches(X, f) for f in fs)):
                    yield "list", "disconnecting a component leaves out a list of channels"
            removed = mine = False
            for x in st:
                if x[0] == "iters":
                    o = [y for y in x[2] if y[0] == "owner"]
                    ans = [y[0] for y in x[2] if y[0] in ("yes", "no", "maybe")]
                    if not o or not ans or ans[-1] == "maybe" or "elem" not in o[-1][1] or "idof" not in o[-1][2] and "arg1" not in o[-1][2]:
                        yield "blind", "an entry is kept or removed without asking who owns it"
                    elif o[-1][3] == "Owned" and ans[-1] != "no":
                        yield "kept", "an entry of the component is kept"
                    elif o[-1][3] == "NotOwned" and ans[-1] != "yes":
                        yield "other", "an entry of another component is removed"
                    if o and ans:
                        removed = removed or ans[-1] == "no"
                        mine = mine or o[-1][3] == "Owned" and ans[-1] == "no"
            f = settled(flat(val))
            if f not in ("0", "1") or f == "1" and not removed or f == "0" and mine:
                yield "answer", "disconnecting a component answers %s although %s of its entries was removed" % (f, "one" if mine else "none")
        for b in need(ctx, inherent(p, P, "disconnect_component"), P + "::disconnect_component"):
            run_trace(ctx, p, "disconnect-component", b, Ports(p, disco))

        def share(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            if v[0] != "v" or last_seg(str(v[1])) != OWN[P]:
                yield "share", "sharing a port does not make a reference to it (%s)" % flat(v)
                return
            for n, x in v[3]:
                w = flat(x)
                ty = dict((f[0], f[1]) for f in adt_named(p, OWN[P])["variants"][0]["fields"])[n]
                src = field_names(p, P, (lambda t: "Queue" in t) if "Queue" in ty else (lambda t: "CoreContainer" in t))
                if not any("." + s in w for s in src) or "arg0" not in w:
                    yield "share-" + n, "the shared reference's %s does not come from the port (%s)" % (n, w)
        for b in need(ctx, inherent(p, P, "share"), P + "::share"):
            run_trace(ctx, p, "share", b, Ports(p, share))
    for R in REFS:
        q = field_names(p, R, lambda t: "Queue" in t)
        ctx.anchor("queue of " + R, q)

        def eqev(c):
            f = c.fn
            if f and f.name == "ptr_eq":
                w = sorted(flat(c.sim.ident(c.env, a)) for a in c.args)
                return E("ptr", w[0], w[1], 1, ret=("c", 1), alts=[E("ptr", w[0], w[1], 0, ret=("c", 0))])
            return None

        def eqc(st, val, facts, c):
            f = flat(val)
            pt = [x for x in st if x[0] == "ptr"]
            good = [x for x in pt if any(x[1] == "arg0." + n and x[2] == "arg1." + n for n in q)]
            if f == "1" and not [x for x in good if x[3]]:
                yield "equal", "references to different ports compare as equal"
            elif f == "0" and all(x[3] for x in pt):
                yield "differ", "references to the same port compare as different"
            elif f not in ("0", "1"):
                yield "unknown", "comparing references does not compare their queues (%s)" % f
        bs = need(ctx, traitfn(p, "PartialEq", "eq", R), R + " comparison")
        for b in bs:
            run_trace(ctx, p, "same-channel", b, Ports(p, eqc, eqev))
        for b in need(ctx, inherent(p, R, "owned_by_component_with_id"), R + " owner"):
            def own(st, val, facts, c):
                f = flat(val)
                al = [x[2] for x in st if x[0] == "alive"]
                eq = [x[1] for x in st if x[0] == "ideq"]
                want = "Deallocated" if not all(al) else ("Owned" if eq and eq[-1] else "NotOwned")
                if not al or (all(al) and not eq) or f != want:
                    yield "owner", "the owner of a channel is given as %s where it is %s" % (f, want)
            w = weak_event(R)

            def ev3(c, w=w):
                f = c.fn
                if f and f.name in ("eq", "ne") and "Uuid" in str(f.self_ty or (f.args[0] if f.args else "")):
                    y = 1 if f.name == "eq" else 0
                    ok = {flat(c.sim.ident(c.env, a)).split(":")[0].split(".")[0] for a in c.args}
                    if "arg1" in ok and len(ok) == 2:
                        return E("ideq", 1, ret=("c", y), alts=[E("ideq", 0, ret=("c", 1 - y))])
                return w(c)
            r3 = Ports(p, own, ev3)
            run_trace(ctx, p, "owner", b, r3)
    helpers(ctx, p)
    channels(ctx, p)
    derived(ctx)


def need(ctx, bs, what):
    ctx.anchor(what, bs)
    return bs


def link_event(r, c):
    """The steps of connecting two definitions or ports."""
    f = c.fn
    if f is None:
        return None
    sim = r.sim
    n = f.name
    tr = last_seg(f.trait) if f.trait else ""
    hd = ty_head(f.self_ty) if f.self_ty else ""
    who = lambda i: flat(sim.ident(c.env, c.args[i]))
    val = lambda i: deep(sim, c.env, sim.unref(c.env, c.args[i]))
    if n in ("provided_ref", "required_ref") and tr in ("ProvideRef", "RequireRef") or n == "share" and hd in PORTS:
        w = who(0)
        k = "P" if "provided" in n or hd == "ProvidedPort" else "R"
        return E("ref", k, w, ret=("y", ("ref", k, w)))
    if n in ("connect_to_required", "connect_to_provided") and tr in ("ProvideRef", "RequireRef") or n == "connect" and hd in PORTS:
        return E("link", "P" if tr == "ProvideRef" or hd == "ProvidedPort" else "R", who(0), val(1))
    if n == "disconnect" and tr in ("ProvideRef", "RequireRef") or n == "disconnect_port" and hd in PORTS:
        return E("unlink", "P" if tr == "ProvideRef" or hd == "ProvidedPort" else "R", who(0), val(1))
    if n in ("try_lock", "lock") and hd in ("Mutex", "RwLock"):
        w = who(0)
        g = ("y", ("locked", w))
        er = ("v", "std::sync::poison::TryLockError", "Poisoned", (("0", ("y", ("perr",))),))
        wb = ("v", "std::sync::poison::TryLockError", "WouldBlock", ())
        return E("lock", w, ret=("v", Sim.RES, "Ok", (("0", g),)), alts=[E("lock-failed", w, ret=("v", Sim.RES, "Err", (("0", er),)))] + ([E("lock-failed", w, ret=("v", Sim.RES, "Err", (("0", wb),)))] if n == "try_lock" else []))
    if n == "upgrade" and hd == "Weak":
        w = who(0)
        return E("alive", w, 1, ret=("v", Sim.OPT, "Some", (("0", ("y", ("up", w))),)), alts=[E("alive", w, 0, ret=("v", Sim.OPT, "None", ()))])
    return None


def linked(p, check, **k):
    r = Ports(p, check, None, inline=k.pop("inline", lambda c, b: b.kind == "Closure" or b.file in ("core/src/utils/mod.rs", "core/src/ports.rs") or b.name in ("on_definition",)), **k)
    r.more = lambda c: link_event(r, c)
    return r


def helpers(ctx, p):
    def both(st, val, facts, c, a0, a1):
        f = flat(val)
        refs = {(x[1], x[2]) for x in st if x[0] == "ref"}
        ln = {(x[1], x[2]): x[3] for x in st if x[0] == "link"}
        bad = [x for x in st if x[0] == "lock-failed"]
        if bad:
            if ln:
                yield "half", "one side is connected although the other side's lock was not available"
            return
        P = [k for k in ln if k[0] == "P"]
        R = [k for k in ln if k[0] == "R"]
        if len([x for x in st if x[0] == "link"]) != 2 or len(P) != 1 or len(R) != 1:
            yield "half", "the two sides are not both connected exactly once"
            return
        if a0 not in P[0][1] or a1 not in R[0][1]:
            yield "sides", "the connection is made between other components than the ones given"
        if ln[P[0]] != "ref:R:" + R[0][1]:
            yield "provided", "the provider is not given the requirer's own reference (%s)" % ln[P[0]]
        if ln[R[0]] != "ref:P:" + P[0][1]:
            yield "required", "the requirer is not given the provider's own reference (%s)" % ln[R[0]]
        if a0 == "arg0" and any(x[0] == "lock" for x in st):
            lk = [i for i, x in enumerate(st) if x[0] == "lock"]
            fl = [i for i, x in enumerate(st) if x[0] == "link"]
            if len(lk) != 2 or max(lk) > min(fl):
                yield "locks", "the connection is made without holding both components"
    for b in need(ctx, [b for b in p.bodies if b.name == "biconnect_ports" and b.kind != "Closure"], "biconnect_ports"):
        run_trace(ctx, p, "biconnect", b, linked(p, lambda st, val, facts, c: both(st, val, facts, c, "arg0", "arg1")))
    for b in need(ctx, [b for b in p.bodies if b.name == "biconnect_components" and b.kind != "Closure"], "biconnect_components"):
        def bc(st, val, facts, c):
            yield from both(st, val, facts, c, "arg0", "arg1")
            v = resolve(c.sim, c.env, val)
            ok = [x for x in st if x[0] == "link"]
            if ok:
                if not [x for x in st if x[0] == "lock"]:
                    yield "locks", "the connection is made without holding both components"
                if v[0] != "v" or v[2] != "Ok":
                    yield "result", "a connection was made but an error is returned"
                    return
                ch = v[3][0][1]
                if ch[0] != "v":
                    yield "channel", "no channel object is returned (%s)" % flat(v)
                    return
                for n, x in ch[3]:
                    w = flat(x)
                    if w.startswith("ref:"):
                        ty = dict((f[0], f[1]) for f in adt_named(p, "TwoWayChannel")["variants"][0]["fields"])[n]
                        if ("ProvidedRef" in ty) != w.startswith("ref:P:"):
                            yield "channel-" + n, "the channel object holds the wrong reference"
                    elif "C1" in dict((f[0], f[1]) for f in adt_named(p, "TwoWayChannel")["variants"][0]["fields"])[n] and "arg0" not in w:
                        yield "channel-" + n, "the channel object names another provider"
                    elif "C2" in dict((f[0], f[1]) for f in adt_named(p, "TwoWayChannel")["variants"][0]["fields"])[n] and "arg1" not in w:
                        yield "channel-" + n, "the channel object names another requirer"
        run_trace(ctx, p, "biconnect", b, linked(p, bc))
    for tr, nm in (("LockingProvideRef", "connect_to_required"), ("LockingRequireRef", "connect_to_provided")):
        for b in need(ctx, traitfn(p, tr, nm), tr):
            def one(st, val, facts, c, side=nm):
                ln = [x for x in st if x[0] == "link"]
                if [x for x in st if x[0] == "lock-failed"]:
                    return
                if len(ln) != 1 or ln[0][3] != "arg1" or (ln[0][1] == "P") != (side == "connect_to_required"):
                    yield "one-way", "a one-directional connection does not register exactly the given direction"
                if not [x for x in st if x[0] == "lock"]:
                    yield "lock", "the component is changed without its lock"
                f = flat(resolve(c.sim, c.env, val))
                if "arg1" not in f or "arg0" not in f:
                    yield "channel", "the channel object does not name the component and the reference (%s)" % f
            run_trace(ctx, p, "connect-locked", b, linked(p, one))


def channels(ctx, p):
    chs = [b for b in p.bodies if b.kind != "Closure" and b.trait and last_seg(b.trait) == "Channel" and b.name == "disconnect_by_ref" and b.self_adt and last_seg(b.self_adt) != "Box"]
    ctx.anchor("channel objects", chs, 3)
    for b in chs:
        a = adt_named(p, last_seg(b.self_adt))
        ty = {f[0]: f[1] for f in a["variants"][0]["fields"]}
        comps = [n for n, t in ty.items() if "Component<" in t]
        pref = [n for n, t in ty.items() if "ProvidedRef" in t]
        rref = [n for n, t in ty.items() if "RequiredRef" in t]

        def chk(st, val, facts, c):
            f = flat(val)
            al = {x[1].split(".")[-1]: x[2] for x in st if x[0] == "alive"}
            un = [x for x in st if x[0] == "unlink"]
            if "Err" in f or "residual" in f:
                if not [x for x in st if x[0] == "lock-failed"]:
                    yield "refused", "disconnecting fails although the component's lock was available"
                return
            if [x for x in st if x[0] == "lock-failed"]:
                yield "claimed", "disconnecting reports success although a component's lock was not available"
            for n in comps:
                if n not in al:
                    yield "forgotten:" + n, "disconnecting does not look at its %s" % n
                elif al[n]:
                    side = "P" if "Provide" in ty[n] or n == "provider" else "R"
                    k = [x for x in un if n in x[2]]
                    refs = rref if k and k[0][1] == "P" else pref
                    if len(k) != 1:
                        yield "side:" + n, "the %s is disconnected %d times" % (n, len(k))
                    elif not any(k[0][3] == "arg0." + r for r in refs):
                        yield "reference:" + n, "the %s is disconnected from %s" % (n, k[0][3])
            if len(un) > sum(al.values()):
                yield "extra", "more is disconnected than the channel connects"
        run_trace(ctx, p, "channel-disconnect", b, linked(p, chk))
    # the consuming disconnect gives the channel back when it fails
    ds = [b for b in p.bodies if b.kind != "Closure" and b.name == "disconnect" and (b.in_trait and last_seg(str(b.in_trait)) == "Channel" or b.id.endswith("Channel::disconnect"))]
    ctx.anchor("Channel::disconnect", ds)
    for b in ds:
        def dc(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            if [x for x in st if x[0] == "down" and x[1] == 0]:
                if v[0] == "v" and v[2] == "Ok":
                    yield "swallowed", "a failed disconnect reports success"
                elif "arg0" not in flat(v):
                    yield "lost", "a failed disconnect does not give the channel back"
            elif len([x for x in st if x[0] == "down"]) != 1 or flat(v).startswith("Err"):
                yield "result", "disconnecting does not disconnect exactly once"
        def ev(c):
            if c.fn and c.fn.name == "disconnect_by_ref":
                return E("down", 1, ret=("v", Sim.RES, "Ok", (("0", ("v", "tuple", None, ())),)), alts=[E("down", 0, ret=("v", Sim.RES, "Err", (("0", ("y", ("lockerr",))),)))])
            return None
        run_trace(ctx, p, "channel-disconnect", b, Ports(p, dc, ev))


def derived(ctx):
    p = ctx.prog("witness")
    n = 0
    for tr in ("ProvideRef", "RequireRef"):
        for b in p.bodies:
            if b.kind == "Closure" or not b.trait or last_seg(b.trait) != tr:
                continue
            a = p.adts.get(b.self_adt) or {}
            ports = [f[0] for v in a.get("variants", ()) for f in v["fields"] if ty_head(f[1]) in PORTS]
            amb = [ty for ty in [f[1] for v in a.get("variants", ()) for f in v["fields"] if ty_head(f[1]) in PORTS]]
            n += 1
            want = "P" if tr == "ProvideRef" else "R"

            def chk(st, val, facts, c, b=b):
                ops = [x for x in st if x[0] in ("ref", "link", "unlink")]
                kind = {"provided_ref": "ref", "required_ref": "ref", "connect_to_required": "link", "connect_to_provided": "link", "disconnect": "unlink"}.get(b.name)
                if len(ops) != 1 or ops[0][0] != kind or ops[0][1] != want:
                    yield "op", "derived `%s` does not do exactly that to the component's port" % b.name
                    return
                w = ops[0][2]
                if not any(w == "arg0." + f for f in ports):
                    yield "port", "derived `%s` acts on %s" % (b.name, w)
                if kind == "ref" and flat(val) != "ref:%s:%s" % (want, w):
                    yield "result", "derived `%s` returns something else than its port's reference" % b.name
                if kind != "ref" and ops[0][3] != "arg1":
                    yield "arg", "derived `%s` passes on another reference" % b.name
            run_trace(ctx, p, "derived-" + tr, b, linked(p, chk, inline=lambda c, bb: bb.kind == "Closure"), anchor=False)
    ctx.anchor("derived port references", list(range(n)), 6)
