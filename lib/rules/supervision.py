"""U01, U02: the supervisor and waiting for lifecycle changes."""
from kit import *
from trace import *
import sys
from rules import prop
from rules.sched import simulate_one

MSG = "SupervisorMsg"


def adt_named(p, name):
    for k, a in p.adts.items():
        if last_seg(a["id"]) == name and a["id"].startswith("kompact"):
            return a
    return None


def fields_of(p, name, pred):
    a = adt_named(p, name)
    if a is None:
        return []
    return [f[0] for v in a["variants"] for f in v["fields"] if pred(f[1])]


class Sup(Trace):
    def __init__(self, p, names, check):
        Trace.__init__(self, p, self.event, check, inline=lambda c, b: b.file.endswith("supervision.rs") or b.kind == "Closure", on_write=self.wr,
                       keep=lambda s: touches(s, names["shutdown"]) or s[0] == "discr" and last_seg(str(s[2])) == "ListenEvent")
        self.n = names
        self.on_iter = self.iteration
        self.lst = ()

    def wr(self, c, key, val):
        if key[-1] == ("f", self.n["shutdown"]):
            return ("set-shutdown", flat(val)) if val[0] == "v" else ("set-shutdown", "?")
        if touches(key, self.n["listeners"]):
            return ("put-back", flat(val))
        return None

    def vname(self, sym_pred):
        """The listen event variant the current element is known to have."""
        a = adt_named(self.prog, "ListenEvent")
        ds = {v["discr"]: v["name"] for v in a["variants"]}
        poss = set(ds.values())
        for k, v in self.env.items():
            if k[0] == "φ" and k[1][0] == "discr" and sym_pred(k[1][1]):
                if v[0] == "c":
                    poss &= {ds.get(v[1])}
                elif v[0] == "not":
                    poss -= {ds.get(x) for x in v[1]}
        return frozenset(poss)

    def iteration(self, X, opened, it, _):
        if touches(X, self.n["listeners"]) or "iter" in repr(X) and any(i[0] in ("complete", "yes", "no") for i in it):
            poss = self.vname(lambda s: has_site(s, ("elem", X)))
            act = "complete" if any(i[0] == "complete" for i in it) else "yes" if has(it, "yes") else "no" if has(it, "no") else "maybe" if has(it, "maybe") else "keep"
            return (act, poss)
        if any(i[0] == "control" for i in it):
            return tuple(i for i in it if i[0] == "control")
        return None

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        a0 = c.args[0] if c.args else ("c", 0)
        hd = ty_head(f.self_ty) if f.self_ty else ""
        tr = last_seg(f.trait) if f.trait else ""
        o = self.sim.ident(c.env, a0) if c.args else None
        ch = o is not None and touches((o, a0), self.n["children"])
        li = o is not None and touches((o, a0), self.n["listeners"])
        arg = lambda i: flat(self.sim.unref(c.env, c.args[i]))
        if n == "id" and (tr == "CoreContainer" or hd == "ListenEvent" and c.body.name != "id"):
            return E(ret=("y", ("idof", self.sim.ident(c.env, a0))))
        if hd == "HashMap" or hd in ("BTreeMap", "FxHashMap"):
            if ch:
                if n == "insert":
                    return E("child+", arg(1), flat(self.sim.ident(c.env, c.args[2])))
                if n in ("remove", "remove_entry"):
                    k = ("y", ("removed", c.site))
                    return E("child-", arg(1), ret=("v", Sim.OPT, "Some", (("0", k),)), alts=[E("child-", arg(1), ret=("v", Sim.OPT, "None", ()))])
                if n == "is_empty":
                    return E("empty", 1, ret=("c", 1), alts=[E("empty", 0, ret=("c", 0))])
                if n == "len":
                    return E("empty", 1, ret=("c", 0), alts=[E("empty", 0, ret=("c", 1)), E("empty", 0, ret=("c", 2))])
                if n in ("clear", "retain", "drain"):
                    return E("children-" + n)
            if li:
                if n in ("get_mut", "get", "remove", "entry", "insert"):
                    nm = {"get": "look", "get_mut": "look", "entry": "sub", "insert": "sub!", "remove": "unsub"}[n]
                    k = ("fld", ("fld", self.sim.ident(c.env, a0), "at"), arg(1))
                    if n in ("get_mut", "get"):
                        return E("look", arg(1), ret=("v", Sim.OPT, "Some", (("0", ("y", k)),)), alts=[E("look0", arg(1), ret=("v", Sim.OPT, "None", ()))])
                    if n == "remove":
                        return E("unsub", arg(1), ret=("v", Sim.OPT, "Some", (("0", ("y", k)),)), alts=[E("unsub", arg(1), ret=("v", Sim.OPT, "None", ()))])
                    return E(nm, arg(1), ret=("y", k))
                if n == "clear":
                    return E("unsub-all")
        if n in ("swap", "replace") and f.path.startswith(("core::mem", "std::mem")) and len(c.args) == 2:
            k = [touches((self.sim.ident(c.env, a), a), self.n["listeners"]) for a in c.args]
            if any(k):
                return E("put-back", arg(0 if not k[0] else 1), inline=True)
        if n in ("extend", "append") and li:
            return E("put-back", arg(1))
        if n in ("or_default", "or_insert_with", "or_insert") and li:
            return E(ret=a0)
        if n == "push" and li:
            v = self.sim.load_through(c.env, c.args[1])
            return E("waiter+", flat(v))
        if n in ("complete", "fulfil") and tr in ("Completable", "Fulfillable"):
            return E("complete", flat(self.sim.ident(c.env, a0)), ret=("y", ("res", c.site)))
        if n == "enqueue_control":
            return E("control", flat(self.sim.ident(c.env, a0)), arg(1))
        if n in ("recover",) and c.fn.krate == "kompact":
            return E("recover")
        if n == "try_unwrap":
            x = ("y", ("promise",))
            return E(ret=("v", Sim.RES, "Ok", (("0", x),)), alts=[E(ret=("v", Sim.RES, "Err", (("0", a0),)), stop=False)])
        if n == "partition" and len(c.args) == 2:
            return None
        return None

    def each(self, st, c, cl):
        r = Trace.each(self, st, c, cl)
        return r


def pos(st, *pre):
    return [i for i, x in enumerate(st) if x[:len(pre)] == pre]


def feasible(st):
    """Two looks at the number of children with no change in between agree."""
    e = None
    for x in st:
        if x[0].startswith("child"):
            e = None
        elif x[0] == "empty":
            if e is not None and e != x[1]:
                return False
            e = x[1]
    return True


def notified(st, variant, key):
    """Problem with how waiters for `variant` of component `key` are treated on this path, or None.

    Only paths where the waiter table has an entry count."""
    look = pos(st, "look", key) + pos(st, "unsub", key)
    if not look and not pos(st, "look0", key):
        others = [x for x in st if x[0] in ("look", "look0")]
        return "the waiters of another component are looked at" if others else "the component's waiters are not looked at"
    if pos(st, "look0", key):
        return None
    sel = set()
    for x in st:
        if x[0] == "iters" and x[2] and isinstance(x[2], tuple) and len(x[2]) == 2 and isinstance(x[2][1], frozenset):
            sel.add(x[2])
    parted = any(act in ("yes", "no", "maybe") for act, poss in sel)
    if parted and not any(x[0] == "put-back" and "partition().1" in x[1] for x in st):
        return "waiters for other events are lost"
    if any(act == "yes" for act, poss in sel) and not any(x[0] == "end" and "partition" in flats(x[1]) and ".0" in flats(x[1]) for x in st):
        return "the selected waiters are not completed"
    for x in st:
        if x[0] == "iters" and "partition()" in flats(x[1]) and (not x[2] or x[2][0] != "complete"):
            return "a selected waiter is not completed"
    for act, poss in sel:
        if act in ("yes", "complete") and poss - {variant} and poss != frozenset(("Started", "Stopped", "Destroyed")):
            return "waiters for %s are completed" % ",".join(sorted(poss - {variant}))
        if act in ("no", "keep") and variant in poss and len(poss) < 3:
            return "waiters for %s are not completed" % variant
        if act == "maybe":
            return "which waiters are completed does not depend on the event they wait for"
    return None


@prop("U01")
def u01(ctx):
    p = ctx.prog("net")
    sup = [i["self"] for i in p.impls if i.get("trait") and last_seg(i["trait"]) == "Provide" and "SupervisionPort" in str(i.get("trait_ref"))]
    ctx.anchor("component that supervises", sup)
    names = {}
    for s in sup:
        sn = ty_head(s)
        names["children"] = (fields_of(p, sn, lambda t: "HashMap" in t and "CoreContainer" in t) or [None])[0]
        names["listeners"] = (fields_of(p, sn, lambda t: "HashMap" in t and "ListenEvent" in t) or [None])[0]
        names["shutdown"] = (fields_of(p, sn, lambda t: t.startswith("core::option::Option") and "KPromise" in t) or [None])[0]
        ctx.anchor("table of children", names["children"] and [1])
        ctx.anchor("table of waiters", names["listeners"] and [1])
        ctx.anchor("shutdown promise", names["shutdown"] and [1])
        hs = p.method(sn, "handle", "Provide")
        ctx.anchor("supervision handler", hs)
        m = adt_named(p, MSG)
        for b in hs:
            for v in m["variants"]:
                ck = CHECKS.get(v["name"])
                ctx.anchor("rule for supervision message %s" % v["name"], ck and [1])
                if not ck:
                    continue
                fs = tuple((f[0], ("y", ("m", f[0]))) for f in v["fields"])
                r = Sup(p, names, lambda st, val, facts, c, ck=ck: ck(st, facts, names) if feasible(st) else [])
                s2 = Sim(p, r, 60000)
                ev = ("v", m["id"], v["name"], fs)
                try:
                    s2.run(b, args=[None, ev])
                except Budget as e:
                    raise ToolError(str(e))
                ctx.simulated(s2)
                ctx.count("paths of %s" % v["name"], len(r.paths))
                ctx.anchor("paths of %s" % v["name"], r.paths)
                if not s2.violations:
                    ctx.ob("on-" + v["name"], True, bkey(b), "", where(b))
                for x in s2.violations:
                    ctx.ob("on-" + v["name"], False, x["key"], x["msg"], where(b), x["trace"])
                if "-v" in sys.argv:
                    print("==", v["name"])
                    for st, val in sorted(r.paths, key=repr):
                        print("   ", [tuple(flat(y) if isinstance(y, tuple) and y and y[0] == "iter" else y for y in x) for x in st])


def shut(facts, n):
    """True/False/None: a shutdown is in progress."""
    for k, v in facts.items():
        if k[0] == "discr" and touches(k[1], n["shutdown"]) and v[0] == "c":
            return bool(v[1])
    return None


def end_shutdown(st, facts, n, out):
    s = shut(facts, n)
    e = [x[1] for x in st if x[0] == "empty"]
    done = [x for x in st if x[0] == "complete" and n["shutdown"] in x[1]]
    if s is None:
        out.append(("shutdown-ignored", "a component's end is handled without asking whether a shutdown waits for it"))
        return
    if s:
        if not e:
            out.append(("children-unchecked", "a shutdown is in progress but the remaining children are not looked at"))
        elif e[-1] and len(done) != 1:
            out.append(("shutdown-not-completed", "the last child of a shutdown is gone but the shutdown future is completed %d times" % len(done)))
        elif not e[-1] and done:
            out.append(("shutdown-early", "the shutdown future is completed while children are left"))
        elif e[-1] and pos(st, "child-") and pos(st, "empty")[-1] < pos(st, "child-")[0]:
            out.append(("order", "remaining children are counted before the ended one is removed"))
    elif done:
        out.append(("shutdown-early", "the shutdown future is completed although no shutdown was asked for"))


def on_started(st, facts, n):
    out = []
    key = "idof:m.0" if not any("idof" in str(x) for x in st) else [y for x in st for y in x if isinstance(y, str) and y.startswith("idof")][0]
    add = [x for x in st if x[0] == "child+"]
    if len(add) != 1 or "m" not in add[0][2]:
        out.append(("not-tracked", "a started component is not added to the children exactly once"))
    if pos(st, "child-") or any(x[0].startswith("children-") for x in st):
        out.append(("child-lost", "a started component makes the supervisor forget a child"))
    w = notified(st, "Started", add[0][1] if add else key)
    if w:
        out.append(("start-waiters", w))
    s = shut(facts, n)
    ctl = [x for x in st if x[0] == "control"]
    if s is None:
        out.append(("shutdown-ignored", "a component starts without asking whether a shutdown is in progress"))
    elif s and not (len(ctl) == 1 and ctl[0][2] == "Kill" and "m" in ctl[0][1]):
        out.append(("resurrected", "a component that starts during a shutdown is not killed"))
    elif s is False and ctl:
        out.append(("killed-at-start", "a component that started is sent %s" % ctl[0][2]))
    if pos(st, "complete") and any(n["shutdown"] in x[1] for x in st if x[0] == "complete"):
        out.append(("shutdown-early", "the shutdown future is completed when a component starts"))
    return out


def on_stopped(st, facts, n):
    out = []
    if pos(st, "child-") or pos(st, "child+") or any(x[0].startswith("children-") for x in st):
        out.append(("children-changed", "a component's stop changes the set of children"))
    w = notified(st, "Stopped", "m.0") if any("m.0" in str(x) for x in st) else notified(st, "Stopped", "m:0")
    if w:
        out.append(("stop-waiters", w))
    if pos(st, "unsub") or pos(st, "unsub-all"):
        out.append(("waiters-lost", "waiters of a stopped component are dropped"))
    if [x for x in st if x[0] in ("control",)]:
        out.append(("control", "a stop makes the supervisor send a control event"))
    return out


def on_killed(st, facts, n):
    out = []
    rm = [x for x in st if x[0] == "child-"]
    if len(rm) != 1 or "m" not in rm[0][1]:
        out.append(("not-removed", "a killed component is not removed from the children"))
    k = rm[0][1] if rm else "m:0"
    w = notified(st, "Destroyed", k)
    if w:
        out.append(("kill-waiters", w))
    u = pos(st, "unsub", k)
    l = pos(st, "look", k)
    if l and u and u[0] < l[0]:
        out.append(("waiters-lost", "waiters are dropped before they are completed"))
    if pos(st, "child+"):
        out.append(("resurrected", "a killed component is added to the children"))
    end_shutdown(st, facts, n, out)
    return out


def on_faulty(st, facts, n):
    out = []
    rm = [x for x in st if x[0] == "child-"]
    if len(rm) != 1 or "m" not in rm[0][1]:
        out.append(("not-removed", "a faulty component is not removed from the children"))
    s = shut(facts, n)
    rec = len(pos(st, "recover"))
    if s is False and rec != 1:
        out.append(("not-recovered", "the recovery handler of a faulty component runs %d times" % rec))
    if s and rec:
        out.append(("recovered-late", "the recovery handler runs during a shutdown"))
    if [x for x in st if x[0] == "complete" and n["shutdown"] not in x[1]]:
        out.append(("waiters-completed", "waiters of a faulty component are told that the event they wait for has happened"))
    if rm and not pos(st, "unsub", rm[0][1]):
        out.append(("waiters-kept", "waiters of a faulty component are left waiting for ever"))
    end_shutdown(st, facts, n, out)
    return out


def on_listen(st, facts, n):
    out = []
    w = [x for x in st if x[0] == "waiter+"]
    got = any("promise" in str(x) for x in st)
    if [x for x in st if x[0] in ("complete", "unsub", "unsub-all", "child-", "child+", "control", "sub!")]:
        out.append(("side-effect", "adding a waiter does something else as well"))
    if got or w:
        sub = [x for x in st if x[0] == "sub"]
        if len(w) != 1 or not sub:
            out.append(("not-added", "a waiter is not added to the table"))
        elif "m" not in w[0][1] or "promise" not in w[0][1]:
            out.append(("wrong-waiter", "the waiter added is not the promise and event that were asked for (%s)" % w[0][1]))
    return out


def on_shutdown(st, facts, n):
    out = []
    done = [x for x in st if x[0] == "complete" and "promise" in x[1]]
    put = [x for x in st if x[0] == "set-shutdown" and "promise" in x[1]]
    e = [x[1] for x in st if x[0] == "empty"]
    kills = [x for x in st if x[0] == "iters" and touches(x[1], n["children"])]
    if not e and (done or put):
        out.append(("children-unchecked", "a shutdown does not look at the children"))
    elif e and e[-1]:
        if len(done) != 1 or put:
            out.append(("not-completed", "a shutdown without children does not complete its future"))
    elif e:
        if done:
            out.append(("shutdown-early", "a shutdown is completed while children are left"))
        if len(put) != 1:
            out.append(("promise-lost", "the shutdown future is not kept until the last child is gone"))
        if not whole(st, lambda X: touches(X, n["children"])):
            out.append(("not-killed", "a shutdown does not go through all the children"))
        for x in kills:
            ok = x[2] and any(k[2] == "Kill" and "elem" in k[1] or "each" in k[1] for k in x[2])
            if not ok:
                out.append(("not-killed", "a shutdown leaves a child without a kill request"))
    return out


CHECKS = {"Started": on_started, "Stopped": on_stopped, "Killed": on_killed, "Faulty": on_faulty, "Listen": on_listen, "Shutdown": on_shutdown}
