"""D01, D02, D05, D06: what the dispatchers do with messages, registrations and connection events."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.ports import inherent, traitfn, need
from rules.wire import in_log, fn_in

CONN = "ConnectionState"
DISP = "network/src/dispatcher.rs"
ABSENT = ("c", "absent")


def level(c):
    return c.body.blocks[c.block].get("m") or ""


def ok(v=("v", "()", "", ())):
    return ("v", Sim.RES, "Ok", (("0", v),))


def err(v):
    return ("v", Sim.RES, "Err", (("0", v),))


def some(v):
    return ("v", Sim.OPT, "Some", (("0", v),))


NONE = ("v", Sim.OPT, "None", ())
PROTOCOLS = ("Local", "Tcp", "Udp")


def protocols(st, x):
    """The protocols the tests on a path leave for an address"""
    left = set(PROTOCOLS)
    for y in st:
        if y[0] == "proto" and y[1] == x:
            left &= {y[2]} if y[2] in PROTOCOLS else left - {y[2][3:]}
    return left


class Dispatcher(Trace):
    """Paths of a dispatcher's handlers. The maps of the dispatcher are modelled per key: what is known about an
    entry is in the trace, its value in a cell of its own."""
    inline_depth = 14
    MAPS = ("connections", "retry_map")

    def __init__(self, p, check, **k):
        self.conn = k.pop("conn", None)
        self.p = p
        Trace.__init__(self, p, self.event, check, inline=self.within, keep=lambda s: touches(s, "net_bridge") or "arg" in flats(s) or "ndev" in flats(s) or "resolve" in flats(s), on_write=self.written, **k)
        a = adt_named(p, CONN)
        self.adt = a["path"] if "path" in a else next(k for k, v in p.adts.items() if v is a)
        self.states = [(v["name"], v["fields"]) for v in a["variants"]]

    def within(self, c, b):
        return b.kind == "Closure" and b.file.endswith(("dispatcher.rs", "default_components.rs")) or b.file.endswith(("network/src/dispatcher.rs", "core/src/default_components.rs", "core/src/dispatch/mod.rs")) or b.name == "socket_address"

    # --- what is known about a map entry
    def last(self, st, m, k):
        for x in reversed(st):
            if x[0] in ("put", "has") and x[1] == m and x[2] == k:
                return x
            if x[0] == "del" and x[1] == m and x[2] == k or x[0] == "clear" and x[1] == m:
                return ("del", m, k)
        return None

    def cell(self, m, k):
        return (("h", ("cell", m, k)),)

    def which(self, c, v):
        w = c.sim.ident(c.env, v)
        for m in self.MAPS:
            if touches(w, m) or touches(v, m):
                return m
        return None

    def key(self, c, v):
        return deep(c.sim, c.env, v)

    def fresh_values(self, m, k):
        """The values an entry of the map can have when it is first looked at."""
        if m == "connections":
            return [(n, ("v", self.adt, n, tuple((f[0], ("y", ("was", n, k, f[0]))) for f in fs))) for n, fs in self.states]
        return [("some", ("y", ("tries", k)))]

    def read(self, st, m, k, yes, no):
        """Outcomes of looking an entry up: yes(ref) if it is there, no() if not."""
        x = self.last(st, m, k)
        key = self.cell(m, k)
        if x is None:
            outs = [no(E("has", m, k, "absent"))]
            for n, v in self.fresh_values(m, k):
                outs.append(yes(E("has", m, k, n, writes=((key, v),))))
            return outs
        if x[0] == "del" or x[0] == "has" and x[3] == "absent":
            return [no(E())]
        return [yes(E())]

    def alts(self, outs):
        a = outs[0]
        a.alts = outs[1:]
        return a

    def written(self, c, key, val):
        r = key[0]
        if r[0] == "h" and isinstance(r[1], tuple) and r[1][0] == "cell":
            return ("put", r[1][1], r[1][2], flat(resolve(c.sim, c.env, val)) if len(key) == 1 else "part")
        return None

    def event(self, c):
        f = c.fn
        if in_log(c):
            return E("log") if level(c) in ("warn", "error", "crit") else E()
        if f is None or not f.name:
            return None
        n = f.name
        st = self.cur_st
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if f.krate not in ("kompact", "kompact_net") and c.args:
            m = self.which(c, c.args[0])
            if m:
                if n == "insert":
                    k = self.key(c, c.args[1])
                    return E("put", m, k, d(2), ret=("y", ("old", m)), writes=((self.cell(m, k), c.sim.load_through(c.env, c.args[2])),))
                if n in ("remove", "remove_entry"):
                    k = self.key(c, c.args[1])
                    return E("del", m, k, ret=("y", ("old", m)))
                if n in ("get", "get_mut", "contains_key"):
                    k = self.key(c, c.args[1])
                    ref = ("r", self.cell(m, k))

                    def yes(e):
                        e.ret = ("c", 1) if n == "contains_key" else some(ref)
                        return e

                    def no(e):
                        e.ret = ("c", 0) if n == "contains_key" else NONE
                        return e
                    return self.alts(self.read(st, m, k, yes, no))
                if n == "entry":
                    return E(ret=("y", ("entry", m, self.key(c, c.args[1]))))
                if n == "clone":
                    return E(ret=("y", ("copy", m)))
                if n in ("clear",):
                    return E("clear", m)
                if n == "take":
                    return E("clear", m, ret=("y", ("copy", m)))
                if n == "drain":
                    return E("clear", m, ret=("y", ("iter", ("copy", m), "drain")))
        if n in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key") and c.args:
            w = c.sim.load_through(c.env, c.args[0])
            if w[0] == "y" and w[1][0] == "entry":
                m, k = w[1][1:3]
                ref = ("r", self.cell(m, k))
                v = c.sim.load_through(c.env, c.args[1]) if n == "or_insert" else ("c", 0) if n == "or_default" else ("y", ("made",))

                def yes(e):
                    e.ret = ref
                    return e

                def no(e):
                    e2 = E("put", m, k, flat(resolve(c.sim, c.env, v)), ret=ref, writes=((self.cell(m, k), v),))
                    return e2
                return self.alts(self.read(st, m, k, yes, no))
        b = last_seg(f.self_ty or "") if f.self_ty else ""
        if f.krate == "kompact_net":
            own = f.path.split("::")
            if "Bridge" in own or b == "Bridge":
                if n == "local_addr":
                    return E(ret=("y", ("bound",)))
                if n == "set_dispatcher":
                    return E(ret=("y", ("old-dispatcher",)))
                if n == "new":
                    return E("bridge-new", d(3), ret=("y", ("new-bridge",)))
                args = tuple(d(i) for i in range(1, len(c.args)))
                u = ("y", ("unit",))
                return E("bridge", n, args, ret=ok(u), alts=[E("bridge", n, args, "failed", ret=err(("y", ("bridge-error",))))])
            if "QueueManager" in own or b == "QueueManager":
                if n in ("enqueue_data", "enqueue_priority_data"):
                    return E("enq", n, d(1), d(2))
                if n == "pop_data":
                    k = d(1)
                    e = E("pop", k, ret=some(("y", ("popped", k))))
                    at = max((i for i, x in enumerate(st) if x == ("waiting", k) or x[0] == "enq" and x[3] == k), default=None)
                    if at is None or any(x[1] == k for x in st[at:] if x[0] in ("sent", "misplaced", "pop")):
                        e.alts = [E("empty", k, ret=NONE)]
                    return e
                if n == "has_data":
                    return E("waiting", d(1), ret=("c", 1), alts=[E("empty", d(1), ret=("c", 0))])
                if n == "drop_queue":
                    return E("dropq", d(1))
                return E("queue-other", n)
        if n == "with_socket" and len(c.args) == 2:
            return E(ret=("v", "SystemPath", "of", (("proto", c.args[0]), ("addr", c.sim.load_through(c.env, c.args[1])))))
        if n == "socket_address" and c.args:
            w = c.sim.load_through(c.env, c.args[0])
            if w[0] == "v" and w[1] == "SystemPath":
                return E(ret=dict(w[3])["addr"])
            return E(ret=("y", ("sockaddr", c.sim.ident(c.env, c.args[0]))))
        if n == "new" and "SocketAddr" in f.path and len(c.args) == 2:
            return E(ret=("v", "SocketAddr", "at", (("ip", objval(c.sim, c.env, c.args[0])), ("port", c.sim.load_through(c.env, c.args[1])))))
        if n in ("address", "port", "protocol", "system") and len(c.args) == 1 and f.krate == "kompact":
            w = objval(c.sim, c.env, c.args[0])
            if w[0] == "y" and w[1][0] == "system":
                w = ("y", w[1][1])
            if n == "system" or w[0] == "y":
                return E(ret=("y", (n, w[1] if w[0] == "y" else w)))
        if n in ("eq", "ne") and len(c.args) == 2 and f.trait and last_seg(f.trait) == "PartialEq":
            a, b = d(0), d(1)
            if any("system_path" in x for x in (a, b)) and any(x.startswith("system:") for x in (a, b)):
                x = a if a.startswith("system:") else b
                t = 1 if n == "eq" else 0
                return E("local", x[7:], ret=("c", t), alts=[E("remote", x[7:], ret=("c", 1 - t))])
            for x, y in ((a, b), (b, a)):
                if x.startswith("protocol:") and y in PROTOCOLS:
                    t = 1 if n == "eq" else 0
                    left = protocols(st, x[9:])
                    if y not in left or len(left) == 1:
                        return E(ret=("c", t if y in left else 1 - t))
                    return E("proto", x[9:], y, ret=("c", t), alts=[E("proto", x[9:], "not" + y, ret=("c", 1 - t))])
        if n in ("system_path", "system_path_ref") and c.args and f.krate in ("kompact", "kompact_net"):
            return E(ret=("y", ("system_path",)))
        if n == "into_local" and c.args:
            w = objval(c.sim, c.env, c.args[0])
            return E(ret=ok(("y", ("msg", flat(resolve(c.sim, c.env, w))))), alts=[E("unserialisable", d(0), ret=err(("y", ("ser-error",))))])
        if n in ("tell", "enqueue", "route") and len(c.args) >= 2 and f.krate == "kompact":
            return E("deliver", n, d(0), d(1))
        if n == "deadletter_ref":
            return E(ret=("y", ("deadletters",)))
        if n in ("into_named_with_string", "into_named_with_vec", "with_system", "into_unique"):
            w = ("y", (n,) + tuple(objval(c.sim, c.env, a) for a in c.args))
            if n in ("with_system", "into_unique"):
                return E(ret=w)
            return E(ret=ok(w), alts=[E("malformed", d(1), ret=err(("y", ("path-error",))))])
        if n == "into" and c.args and f.krate == "core":
            return E(ret=objval(c.sim, c.env, c.args[0]))
        if n in ("to_vec", "to_owned") and c.args:
            return E(ret=objval(c.sim, c.env, c.args[0]))
        if n == "contains" and len(c.args) == 2 and f.krate in ("kompact", "kompact_net"):
            k = self.pathkey(c, c.args[1])
            return E("taken", k, ret=("c", 1), alts=[E("free", k, ret=("c", 0))])
        if n in ("insert", "set_routing_policy") and len(c.args) == 3 and f.krate in ("kompact", "kompact_net"):
            it = ("store", d(0), self.pathkey(c, c.args[1]), d(2))
            return E(*it, ret=ok(("y", ("replaced",))), alts=[E(*(it + ("refused",)), ret=err(("y", ("path-error",))))])
        if n in ("store", "swap") and len(c.args) == 2 and "lookup" in d(0):
            return E("overwrites", d(1))
        if n == "clone" and len(c.args) == 1:
            w = objval(c.sim, c.env, c.args[0])
            return E(ret=("y", ("copy", d(0))) if "current" in flat(w) else w)
        if n == "load" and c.args:
            return E(ret=("y", ("loaded", c.sim.ident(c.env, c.args[0]))))
        if n in ("fulfil",) and len(c.args) == 2:
            return E("fulfil", d(0), d(1), ret=ok(), alts=[E("fulfil", d(0), d(1), ret=err(("y", ("promise-error",))))])
        if n == "trigger" and len(c.args) == 2:
            return E("trigger", d(1))
        if n == "downcast" and c.args:
            w = ("y", ("ndev",))
            return E("event", ret=ok(w), alts=[E("foreign", ret=err(("y", ("other-event",))))])
        if n in ("schedule_once", "schedule_periodic"):
            w = c.sim.load_through(c.env, c.args[2])
            return E("timer", d(1), w[1] if w[0] == "clo" else "?", ret=("y", ("timer",)))
        if n in ("get_by_actor_path",):
            return E("lookup", d(1), ret=("y", ("found", d(1))))
        return None

    def pathkey(self, c, v):
        """The path without the wrapper that says how it is given."""
        t = deep(c.sim, c.env, v)
        return t[len("Segments("):-1] if t.startswith("Segments(") else t

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)

    # a popped message and what becomes of it
    def add(self, st, item):
        if item and item[0] in ("bridge", "enq", "deliver"):
            data = item[2][1] if item[0] == "bridge" and item[1] == "route" else item[2] if item[0] == "enq" else item[3] if item[0] == "deliver" else ""
            if data.startswith("popped:"):
                k = data[7:]
                i = max((i for i, x in enumerate(st) if x == ("pop", k)), default=None)
                if i is None:
                    return Trace.add(self, st, ("again", k))
                st = st[:i] + st[i + 1:]
                if item[0] == "bridge":
                    item = ("sent", k, item[2][0], item[2][2]) + item[3:]
                else:
                    item = ("misplaced", item[0], k)
                self.events[item[0]] = self.events.get(item[0], 0) + 1
                return st if item in st else st + (item,)
        if item and item[0] == "pop":
            if item in st:
                st = tuple(x for x in st if x != item)
                if ("lost", item[1]) not in st:
                    st += (("lost", item[1]),)
            st = tuple(x for x in st if x != ("empty", item[1]))
        if item and item[0] in ("waiting", "empty"):
            st = tuple(x for x in st if x != item)
        return Trace.add(self, st, item)

    # a new version of the table of actors is made from the current one
    def each(self, st, c, cl):
        if c.fn is not None and c.fn.name == "rcu":
            X = ("iter", ("rcu",), "rcu")
            return self.open(st, X, "rcu"), ("each", X, "rcu", c.fn.path), (("y", ("current",)),)
        return Trace.each(self, st, c, cl)

    def each_none(self, st, c):
        if c.fn is not None and c.fn.name == "rcu":
            return st + (("never",),)
        return Trace.each_none(self, st, c)

    def each_stop(self, st, note, v, env):
        return ("y", ("old-table",)) if note[2] == "rcu" else None

    def each_end(self, st, note, v, env):
        if note[2] != "rcu":
            return Trace.each_end(self, st, note, v, env)
        self.env = env
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == note[1]:
                return st[:j] + (("round", deep(self.sim, env, v)) + tuple(st[j + 1:]),)
        return st

    def close(self, st, X):
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == X:
                r = ("turn", flats(X), tuple(x for x in st[j + 1:]))
                # every round is the last one on some path: earlier ones need not be kept
                return tuple(x for x in st[:j] if x[:2] != r[:2]) + (r,)
        return st


def settled(p, facts):
    """{object: variant} a path has settled"""
    out = {}
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "discr" and v[0] == "c":
            a = p.adts.get(k[2]) if len(k) > 2 else None
            n = flats(k[1])
            if a:
                out[n] = next((x["name"] for x in a["variants"] if x["discr"] == v[1]), None)
            elif len(k) > 2 and k[2] and "Option" in str(k[2]):
                out[n] = ("None", "Some")[v[1]] if v[1] in (0, 1) else None
            elif len(k) > 2 and k[2] and "Result" in str(k[2]):
                out[n] = ("Ok", "Err")[v[1]] if v[1] in (0, 1) else None
    return out


def bridge_gone(kn):
    return any("net_bridge" in k and v == "None" for k, v in kn.items())


def bridge_known(kn):
    return any("net_bridge" in k for k in kn)


def handlers(p, name):
    return [b for b in p.bodies if b.kind != "Closure" and b.name == name and b.self_adt and last_seg(b.self_adt) in ("NetworkDispatcher", "LocalDispatcher") and "ests" not in b.id]


def message(kn):
    """(the message a path is about, its destination)"""
    k = kn.get("arg1")
    if k == "Msg":
        return "arg1.Msg.msg", "arg1.Msg.dst"
    if k == "ForwardedMsg":
        return "arg1.ForwardedMsg.msg", "arg1.ForwardedMsg.msg.receiver"
    return None


def mine(x, data):
    return data in x


def route_check(p, net):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        m = message(kn)
        if m is None:
            return
        data, dst = m
        logged = has(st, "log")
        out = [x for x in st if x[0] == "deliver" and mine(x[3], data) or x[0] == "bridge" and x[1] == "route" and mine(x[2][1], data) or x[0] == "enq" and mine(x[2], data)]
        other = [x for x in st if x[0] in ("deliver", "enq") and x not in out or x[0] == "bridge" and x[1] == "route" and x not in out]
        conn = next((x[3] for x in st if x[0] == "has" and x[1] == "connections"), None)
        n = len(out)
        if n > 1:
            yield "twice", "a message is disposed of more than once: %s" % (out,)
        if other:
            yield "other", "something else than the message is delivered: %s" % (other,)
        if n == 0 and not logged and not (conn == "Connected" and bridge_gone(kn)):
            yield "lost", "a message disappears without a trace (%s)" % (show(st),)
        proto = kn.get("protocol:" + dst)
        left = protocols(st, dst)
        if proto is None and len(left) == 1:
            proto = next(iter(left))
        notlocal = "Local" not in left
        here = ("local", dst) in st or proto == "Local"
        there = ("remote", dst) in st and (proto in ("Tcp", "Udp") or notlocal)
        for x in out:
            if x[0] == "deliver":
                f = kn.get("found:" + dst)
                if x[1] in ("tell", "route", "enqueue") and x[2].startswith("found:"):
                    want = "found:%s.%s.0" % (dst, {"tell": "Ref", "enqueue": "Ref", "route": "Group"}[x[1]])
                    if x[2] != want:
                        yield "wrong-actor", "a message is given to %s instead of what is registered at its destination" % x[2]
                    if not here:
                        yield "not-local", "a message for another system is delivered to a local actor"
                elif x[2] == "deadletters":
                    if here and f not in ("None", "Err"):
                        yield "deadletter", "a message goes to the dead letters without the look-up of its destination failing"
                    if not here and (net or not there):
                        yield "deadletter", "a message goes to the dead letters although it could be sent"
                else:
                    yield "stranger", "a message is given to %s" % x[2]
            else:
                addr = x[2][0] if x[0] == "bridge" else x[3]
                if addr != "at(address:%s,port:%s)" % (dst, dst):
                    yield "address", "a message is sent to %s instead of its destination" % addr
                if here or not there:
                    yield "remote", "a message is sent to the network although its destination is local"
                if x[0] == "bridge" and x[2][2] != proto:
                    yield "protocol", "a message for %s is sent by %s" % (proto, x[2][2])
                if x[0] == "enq" and proto != "Tcp":
                    yield "protocol", "a message for %s is queued for a TCP connection" % proto
                if x[0] == "bridge" and x[-1] == "failed" and not logged:
                    yield "silent", "a message the network thread cannot take disappears without a trace"
    return check


def show(st):
    return " ".join(x[0] + ":" + ",".join(str(y) for y in x[1:]) for x in st)[:200]


@prop("D01")
def d01(ctx):
    p = ctx.prog("net")
    bs = need(ctx, handlers(p, "receive_local"), "receive_local of the dispatchers")
    for b in bs:
        net = last_seg(b.self_adt) == "NetworkDispatcher"
        r = Dispatcher(p, route_check(p, net))
        run_trace(ctx, p, "disposal", b, r, max_states=200000)
        ctx.anchor("paths on which %s delivers a message" % last_seg(b.self_adt), [x for x in r.paths if has(x[0], "deliver")], 4)
        if net:
            ctx.anchor("paths on which %s sends or queues a message" % last_seg(b.self_adt), [x for x in r.paths if has(x[0], "bridge") or has(x[0], "enq")], 8)
    network_side(ctx, p)
    ctx.assume("a message for a connected peer is dropped without a log line only when the network has been stopped")


def network_side(ctx, p):
    """The network thread: every message handed to it or received by it ends in one place."""
    inl = lambda c, b: b.kind == "Closure" or b.name in ("handle_data_frame", "deliver_net_message", "reject_dispatch_data", "serialise_dispatch_data", "reject_outbound_for_channel")

    def mk(check):
        def ev(c):
            f = c.fn
            if in_log(c):
                return E("log") if level(c) in ("warn", "error", "crit") else E()
            if f is None or not f.name:
                return None
            n = f.name
            d = lambda i: deep(c.sim, c.env, c.args[i])
            if n == "deserialise_chunk_lease":
                return E("decoded", ret=ok(("y", ("envelope",))), alts=[E("undecodable", ret=err(("y", ("ser-error",))))])
            if n == "get_by_actor_path":
                return E("lookup", d(1), ret=("y", ("found", d(1))))
            if n in ("enqueue", "tell", "route") and f.krate == "kompact" and len(c.args) >= 2:
                t = d(1)
                if "RejectedData" in t:
                    return E("rejected", t)
                return E("deliver", n, d(0), t)
            if n == "set_session":
                return E("session", d(1))
            if n == "load" and c.args:
                return E(ret=("y", ("loaded", c.sim.ident(c.env, c.args[0]))))
            if n == "enqueue_serialised":
                return E("enq", d(0), tuple(d(i) for i in range(1, len(c.args))))
            if n in ("serialise_dispatch_data",):
                return E("serialised", d(1), ret=ok(("y", ("frame",))), alts=[E("unserialisable", ret=err(("y", ("ser-error",))))])
            if n == "connected":
                return E("connected", d(0), ret=("c", 1), alts=[E("unconnected", d(0), ret=("c", 0))])
            if n == "get_channel_by_address":
                return E("channel", d(1), ret=some(("y", ("channel", d(1)))), alts=[E("no-channel", d(1), ret=NONE)])
            if n == "new" and "Box" in f.path and len(c.args) == 1:
                return E(ret=c.sim.load_through(c.env, c.args[0]))
            if n in ("borrow", "borrow_mut") and len(c.args) == 1:
                return E(ret=objval(c.sim, c.env, c.args[0]))
            return None
        return ev

    def delivered(st, val, facts, c):
        kn = settled(p, facts)
        out = [x for x in st if x[0] == "deliver"]
        if len(out) > 1:
            yield "twice", "a received message is delivered twice"
        if not out and not has(st, "log"):
            yield "lost", "a received message disappears without a trace"
        for x in out:
            if not x[2].startswith("found:"):
                yield "stranger", "a received message is given to %s" % x[2]
                continue
            key = x[2][6:].rsplit(".", 2)[0]
            if x[3] not in ("envelope", "arg1") or key != x[3] + ".receiver":
                yield "wrong-actor", "a received message is given to what is registered at %s" % key
            if x[2].rsplit(".", 2)[1] != {"enqueue": "Ref", "tell": "Ref", "route": "Group"}[x[1]]:
                yield "wrong-actor", "a received message is given to %s" % x[2]
    for n in ("handle_data_frame", "deliver_net_message"):
        for b in need(ctx, inherent(p, "NetworkThread", n), "NetworkThread::" + n):
            r = Trace(p, mk(None), delivered, inline=inl, keep=lambda s: "found" in flats(s))
            run_trace(ctx, p, "received", b, r)
            ctx.anchor("deliveries in " + n, [x for x in r.paths if has(x[0], "deliver")], 2)

    def sent(st, val, facts, c):
        enq = [x for x in st if x[0] == "enq"]
        rej = [x for x in st if x[0] == "rejected"]
        if len(enq) + len(rej) > 1:
            yield "twice", "a message to be sent is disposed of more than once"
        if not enq and not rej and not has(st, "log"):
            yield "lost", "a message to be sent disappears without a trace"
        for x in rej:
            if "arg1" not in x[1] or "arg2" not in x[1]:
                yield "rejected", "a message is handed back with another address or content: %s" % x[1]
        for x in enq:
            udp = "udp" in x[1]
            if x[2][-1] != "frame" or udp and x[2][0] != "arg1":
                yield "content", "something else than the message is queued: %s" % (x[2],)
            if not udp and ("connected", x[1]) not in st:
                yield "unconnected", "a message is queued on a channel whose handshake is not complete"
            if not udp and "channel:arg1" not in x[1]:
                yield "address", "a message is queued on the channel of another peer: %s" % x[1]
        if any(x[0] == "serialised" and "arg2" not in x[1] for x in st):
            yield "content", "something else than the message is serialised"
    for n in ("send_tcp_message", "send_udp_message"):
        for b in need(ctx, inherent(p, "NetworkThread", n), "NetworkThread::" + n):
            r = Trace(p, mk(None), sent, inline=lambda c, b: b.kind == "Closure" or b.file.endswith("network_thread.rs"))
            run_trace(ctx, p, "sending", b, r)
            ctx.anchor("queued messages in " + n, [x for x in r.paths if has(x[0], "enq")])
            ctx.anchor("rejected messages in " + n, [x for x in r.paths if has(x[0], "rejected")])


def register_check(p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        if kn.get("arg1") != "Registration" or has(st, "never"):
            if kn.get("arg1") != "Registration" and any(x[0] in ("store", "round", "fulfil") for x in st):
                yield "unasked", "the registry changes without a request"
            return
        E_ = "arg1.Registration.0."
        actor = kn.get(E_ + "event") == "Actor"
        key, what = (E_ + "event.Actor.0.path", E_ + "event.Actor.0.actor") if actor else (E_ + "event.Policy.0.path", E_ + "event.Policy.0.policy")
        upd = next((v[1] for k, v in facts.items() if flats(k) == E_ + "update" and v[0] == "c"), None)
        stores, direct = [], []
        for x in st:
            if x[0] == "store":
                stores.append(x)
                direct.append(x)
            if x[0] == "round":
                inner = [y for y in x[2:] if y[0] == "store"]
                stores += inner
                if not x[1].startswith("copy") or any(y[1] != x[1] for y in inner):
                    yield "copy", "the registry is not replaced by a changed copy of itself"
        for x in direct:
            if "lookup" not in x[1]:
                yield "copy", "the registration goes to %s" % x[1]
        if has(st, "overwrites"):
            yield "copy", "the registry is replaced without regard to changes made meanwhile"
        answers = [x for x in st if x[0] == "fulfil"]
        want = {"Fulfil": 1, "None": 0}.get(kn.get(E_ + "promise"))
        if want is not None and len(answers) != want:
            yield "answers", "a registration is answered %d times" % len(answers)
        if want is None:
            yield "answers", "it cannot be told whether the registration wants an answer"
        for x in answers:
            if not x[1].startswith(E_ + "promise"):
                yield "answers", "somebody else is answered: %s" % x[1]
        ans = answers[0][2] if answers else None
        bad = [x for x in st if x[0] == "malformed"]
        taken = next((x for x in st if x[0] in ("taken", "free")), None)
        if taken is not None and taken[1] != key:
            yield "other-path", "another path than the one to be stored is looked for: %s" % taken[1]
        if len(stores) > 1:
            yield "stores", "one registration is stored %d times" % len(stores)
        for x in stores:
            if x[2] != key or x[3] != what:
                yield "stored", "%s is stored at %s" % (x[3], x[2])
        if bad:
            if stores:
                yield "malformed", "an actor is stored under a path that is not valid"
            if ans and not ans.startswith("Err(InvalidPath"):
                yield "malformed", "a registration under an invalid path is answered with %s" % ans
            return
        if not stores:
            if taken is None or taken[0] != "taken" or upd != 0:
                yield "refused", "a registration is refused although its path is free or it may replace what is there"
            if ans and ans != "Err(DuplicateEntry)":
                yield "refused", "a registration that is not stored is answered with %s" % ans
            return
        if upd != 1 and (taken is None or taken[0] != "free"):
            yield "overwrite", "a path is replaced without the request allowing it or without looking whether it is taken"
        for x in stores:
            if ans is None:
                continue
            if x[-1] == "refused" and not ans.startswith("Err(InvalidPath"):
                yield "answer", "a registration that could not be stored is answered with %s" % ans
            how = kn.get(key) if actor else "Segments"
            here = key + "." + how if actor and how else key
            if x[-1] != "refused" and not (ans.startswith("Ok(") and (here in ans or how == "System" and "system_path" in ans)):
                yield "answer", "a registration that was stored is answered with %s" % ans
    return check


@prop("D02")
def d02(ctx):
    p = ctx.prog("net")
    for b in need(ctx, handlers(p, "receive_local"), "receive_local of the dispatchers"):
        r = Dispatcher(p, register_check(p))
        run_trace(ctx, p, "registration", b, r, max_states=200000)
        n = last_seg(b.self_adt)
        done = [x for x in r.paths if any(y[0] == "store" or y[0] == "round" and any(z[0] == "store" for z in y[2:]) for y in x[0])]
        ctx.anchor("paths on which %s stores a registration" % n, done, 4)
        ctx.anchor("paths on which %s refuses a registration" % n, [x for x in r.paths if any(y[0] == "fulfil" and y[2].startswith("Err") for y in x[0])], 2)
        for kind in ("Actor", "Policy"):
            ctx.ob("registration", any(kind + ".0" in show(x[0]) or kind + ".0" in repr(x[0]) for x in done), "%s:%s" % (n, kind), "%s never stores %s registrations" % (n, kind), where(b))


STATUS = {"ConnectionEstablished": 2, "ConnectionLost": 2, "ConnectionClosed": 2, "ConnectionDropped": 1, "BlockedSystem": 1, "AllowedSystem": 1,
          "BlockedIp": 1, "BlockedIpNet": 1, "AllowedIp": 1, "AllowedIpNet": 1, "SoftConnectionLimitExceeded": 0, "HardConnectionLimitReached": 0, "CriticalNetworkFailure": 0}


def final(st, m, k):
    """What an entry of a map is at the end: a value, 'absent', or None if it is as it was"""
    for x in reversed(st):
        if x[0] == "put" and x[1] == m and x[2] == k:
            return x[3]
        if x[0] == "del" and x[1] == m and x[2] == k or x[0] == "clear" and x[1] == m:
            return "absent"
    return None


def initial(st, m, k):
    for x in st:
        if x[0] == "has" and x[1] == m and x[2] == k:
            return x[3]
        if x[0] in ("put", "del") and x[1] == m and x[2] == k or x[0] == "clear" and x[1] == m:
            return None
    return None


def retried(st, k):
    """The address will be connected to again later on."""
    f = final(st, "retry_map", k)
    return f not in (None, "absent") or f is None and initial(st, "retry_map", k) == "some"


def keys_touched(st, m):
    return {x[2] for x in st if x[0] in ("put", "del") and x[1] == m}


def others(st, k):
    """Entries of other peers that are changed."""
    for m in Dispatcher.MAPS:
        for x in keys_touched(st, m) - {k}:
            yield "peer", "an event of one peer changes the %s entry of another: %s" % (m, x)
        if ("clear", m) in st:
            yield "peer", "an event of one peer clears all of %s" % m
    for x in st:
        if x[0] in ("dropq",) and x[1] != k or x[0] in ("sent", "lost") and x[1] != k or x[0] == "enq" and x[3] != k:
            yield "peer", "an event of one peer touches the queue of another: %s" % (x,)
        if x[0] == "bridge" and x[1] != "route" and k not in x[2]:
            yield "peer", "an event of one peer makes a request about another: %s" % (x,)


def acked(st, k, kn):
    return any(x[0] == "bridge" and x[1] == "ack_closed" and x[2] == (k,) for x in st) or bridge_gone(kn)


def lost_to(st, k, sid, base, kn):
    if final(st, "connections", k) != "Lost(%s)" % sid:
        yield "state", "the connection is not lost after it was lost but %s" % final(st, "connections", k)
    if not retried(st, k):
        yield "retry", "a lost connection is not retried"
    if not acked(st, k, kn):
        yield "ack", "the network thread is not told that the dispatcher knows about a lost connection"


def event_check(p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        if kn.get("arg1") != "Event":
            return
        if has(st, "foreign"):
            if any(x[0] in ("put", "del", "clear", "bridge", "enq", "dropq") for x in st):
                yield "foreign", "an event of another dispatcher changes something"
            return
        base = "ndev.0.Network.0"
        if kn.get("ndev.0") == "RejectedData":
            yield from rejected(st, kn)
            return
        if kn.get("ndev.0") != "Network":
            yield "unknown", "it cannot be told which event a path handles"
            return
        e = next((v for k, v in kn.items() if k in ("ndev.0.Network.0",)), None)
        if e not in STATUS:
            yield "unknown", "it cannot be told which status a path handles: %s" % e
            return
        ev = base + "." + e
        k = "sockaddr:" + ev + ".0"
        sid = ev + ".1"
        trig = [x[1] for x in st if x[0] == "trigger"]
        want = e if STATUS[e] == 0 else "%s(%s)" % (e, ",".join("%s.%d" % (ev, i) for i in range(STATUS[e])))
        if trig != [want] and trig != [base]:
            yield "told", "subscribers are told %s on %s" % (trig, e)
        if e == "CriticalNetworkFailure":
            yield from failure(st, kn)
            return
        yield from others(st, k)
        f = final(st, "connections", k)
        if e == "ConnectionEstablished":
            if f != "Connected(%s)" % sid:
                yield "state", "an established connection is not connected but %s" % f
            if final(st, "retry_map", k) != "absent":
                yield "retry", "an established connection is still retried"
        elif e == "ConnectionLost":
            yield from lost_to(st, k, sid, ev, kn)
        elif e == "ConnectionClosed":
            if f != "Closed(%s)" % sid:
                yield "state", "a closed connection is not closed but %s" % f
            if not acked(st, k, kn):
                yield "ack", "the network thread is not told that the dispatcher knows about a closed connection"
            if ("empty", k) not in st and not retried(st, k):
                yield "retry", "messages wait for a closed connection, but it is not reopened"
        elif e == "ConnectionDropped":
            if f != "absent" or final(st, "retry_map", k) != "absent" or ("dropq", k) not in st:
                yield "dropped", "a dropped connection leaves something behind: %s" % show(st)
        elif e == "BlockedSystem":
            if f != "Blocked":
                yield "state", "a blocked system is not blocked but %s" % f
            if final(st, "retry_map", k) != "absent":
                yield "retry", "the connection to a blocked system is still retried"
        elif e == "AllowedSystem":
            i = initial(st, "connections", k)
            if i == "Blocked" and f != "absent" and f != "New":
                yield "state", "a system that is allowed again stays blocked"
            if i != "Blocked" and f is not None:
                yield "state", "allowing a system that is not blocked changes the state of its connection"
        elif keys_touched(st, "connections") or keys_touched(st, "retry_map"):
            yield "state", "%s changes the state of a connection" % e
        if e not in ("ConnectionEstablished", "ConnectionDropped") and any(x[0] in ("sent", "lost", "dropq", "enq", "misplaced") for x in st):
            yield "queue", "%s changes the messages waiting" % e
    return check


def rejected(st, kn):
    k, d = "ndev.0.RejectedData.0.0", "ndev.0.RejectedData.0.1"
    yield from others(st, k)
    if keys_touched(st, "connections"):
        yield "state", "data handed back by the network changes the state of the connection"
    i = initial(st, "connections", k)
    enq = [x for x in st if x[0] == "enq"]
    if i == "Blocked":
        if enq or not has(st, "log"):
            yield "blocked", "data for a blocked system is kept or disappears without a trace"
        if retried(st, k) and final(st, "retry_map", k) is not None:
            yield "retry", "the connection to a blocked system is retried"
        return
    if len(enq) != 1 or d not in enq[0][2]:
        yield "rejected", "data handed back by the network is not queued again exactly once"
        return
    if enq[0][1] != "enqueue_priority_data":
        yield "order", "data handed back by the network is queued behind newer data"
    if not retried(st, k):
        yield "retry", "data is queued again without the connection being retried"


def failure(st, kn):
    if ("clear", "connections") not in st:
        seen = [x for x in st if x[0] == "turn"]
        if not seen:
            return
    for x in st:
        if x[0] != "turn":
            continue
        it = x[2]
        ks = keys_touched(it, "connections")
        if len(ks) != 1:
            yield "failure", "a connection is forgotten or confused with another when the network thread fails: %s" % show(it)
            continue
        k = next(iter(ks))
        f = final(it, "connections", k)
        if f and f.startswith("Lost("):
            if not retried(it, k) or not any(y[0] == "trigger" and y[1].startswith("ConnectionLost(") for y in it):
                yield "failure", "a connection lost with the network thread is not retried or not reported"
        elif not f or not (f.startswith("elem(") or f == "absent") or "absent" == f:
            yield "failure", "the connection is %s after the network thread failed" % f
    if not any(x[0] == "bridge-new" for x in st):
        yield "failure", "no new network thread is started after one failed"
    for x in st:
        if x[0] == "bridge-new" and x[1] not in ("bound.Some.0", "arg0.cfg.addr"):
            yield "failure", "the new network thread is bound to %s" % x[1]


def machine_check(p):
    """What sending a message does to the state of the connection it needs"""
    def check(st, val, facts, c):
        kn = settled(p, facts)
        m = message(kn)
        if m is None:
            return
        data, dst = m
        k = "at(address:%s,port:%s)" % (dst, dst)
        yield from others(st, k)
        i = initial(st, "connections", k)
        if i is None and any(x[0] == "put" and x[1] == "connections" for x in st):
            i = "absent"
        f = final(st, "connections", k)
        conns = [x for x in st if x[0] == "bridge" and x[1] == "connect"]
        if i is None:
            if conns or keys_touched(st, "retry_map"):
                yield "connect", "a message that needs no connection opens one"
            return
        if any(x[2] != ("Tcp", k) for x in conns):
            yield "connect", "a connection to another peer is requested"
        failed = any(x[-1] == "failed" for x in conns)
        gone = bridge_gone(kn)
        if i in ("absent", "New", "Closed"):
            if gone:
                pass
            elif len(conns) != 1:
                yield "connect", "a message for a peer without connection requests %d connections" % len(conns)
            elif not retried(st, k):
                yield "retry", "a requested connection is not retried"
            elif f != "Initializing" and not (failed and i == "Closed" and f is None):
                yield "state", "a requested connection is not initialising but %s" % f
            if i == "absent" and gone and f not in ("New", "Initializing", None):
                yield "state", "without network a connection becomes %s" % f
        else:
            if f is not None:
                yield "state", "sending a message over a %s connection makes it %s" % (i, f)
            if conns:
                yield "connect", "sending a message over a %s connection requests a new one" % i
        if i == "Blocked" and any(x[0] in ("enq", "sent") or x[0] == "bridge" for x in st):
            yield "blocked", "a message for a blocked system is kept or sent"
        if i in ("Initializing", "Lost", "Closed", "New", "absent") and any(x[0] in ("sent", "misplaced", "lost") or x[0] == "bridge" and x[1] == "route" for x in st) and not any(x == ("remote", dst) and kn.get("protocol:" + dst) == "Udp" for x in st):
            yield "early", "a message is sent although the connection is not established"
    return check


def retry_check(p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        if ("clear", "retry_map") not in st:
            if any(x[0] == "turn" for x in st):
                yield "again", "connections are retried without their entries being renewed"
        if not any(x[0] == "timer" for x in st):
            yield "timer", "retries are not scheduled again"
        for x in st:
            if x[0] != "turn" or not x[2]:
                continue
            it = x[2]
            ks = keys_touched(it, "retry_map") | keys_touched(it, "connections") | {y[1] for y in it if y[0] == "dropq"}
            if len(ks) != 1:
                yield "peer", "retrying one connection changes another: %s" % show(it)
                continue
            k = next(iter(ks))
            if not x[1].startswith("each(") or not k.startswith("elem("):
                yield "peer", "a retry is for %s" % k
            n = final(it, "retry_map", k)
            conns = [y for y in it if y[0] == "bridge" and y[1] == "connect"]
            if n not in (None, "absent"):
                if " Add " not in n or "1" not in n or k.rsplit(".", 1)[0] not in n:
                    yield "count", "the number of attempts is not raised by one but becomes %s" % n
                if any(y[2] != ("Tcp", k) for y in conns) or len(conns) > 1:
                    yield "connect", "a retry connects to another peer: %s" % (conns,)
                if keys_touched(it, "connections") or has(it, "dropq"):
                    yield "early", "a connection is given up while it is still retried"
                if not any(y[0] == "under" for y in it):
                    yield "limit", "a connection is retried without regard to the limit of attempts"
            else:
                if conns:
                    yield "connect", "a connection that is given up is requested"
                if final(it, "connections", k) != "absent" or ("dropq", k) not in it or not any(y[0] == "trigger" and y[1] == "ConnectionDropped(of(Tcp,%s))" % k or y[0] == "trigger" and "ConnectionDropped" in y[1] and k in y[1] for y in it):
                    yield "give-up", "a connection that is given up leaves something behind or is not reported: %s" % show(it)
                if not any(y[0] == "over" for y in it):
                    yield "limit", "a connection is given up before its attempts ran out"
    return check


class Retry(Dispatcher):
    """Also notes on which side of the limit of attempts a round is."""
    def branch(self, st, c, val, outcome):
        return None

    def add(self, st, item):
        if item and item[0] in ("put", "dropq") and (item[0] != "put" or item[1] == "retry_map"):
            for k, v in self.env.items():
                if k[0] == "φ" and isinstance(k[1], tuple) and k[1][0] == "bin" and v[0] == "c":
                    a, b = flat(k[1][2]), flat(k[1][3])
                    op = k[1][1]
                    lim = "max_connection_retry_attempts"
                    if lim in b and a.startswith("elem(") and op in ("Lt", "Ge") or lim in a and b.startswith("elem(") and op in ("Gt", "Le"):
                        under = v[1] == (1 if op in ("Lt", "Gt") else 0)
                        w = ("under",) if under else ("over",)
                        if w not in st[self.mark(st):]:
                            st = st + (w,)
        return Dispatcher.add(self, st, item)

    def mark(self, st):
        return max((i for i, x in enumerate(st) if x[0] == "["), default=0)


def timer_restarts(ctx, p, r, name, rule):
    hs = {x[2] for st, v in r.paths for x in st if x[0] == "timer"}
    for h in hs:
        b = p.by_h.get(h)
        ctx.ob(rule, b is not None, "timer:" + name, "it cannot be told what the timer that is set does")
        if b is None:
            continue

        def again(st, val, facts, c):
            if not has(st, "again"):
                yield "timer", "the timer that is set does not always call %s again" % name
        run_trace(ctx, p, rule, b, Trace(p, lambda c: E("again") if c.fn is not None and c.fn.name == name else E() if in_log(c) else None, again))


@prop("D06")
def d06(ctx):
    p = ctx.prog("net")
    for b in need(ctx, [b for b in handlers(p, "receive_local") if last_seg(b.self_adt) == "NetworkDispatcher"], "NetworkDispatcher::receive_local"):
        r = Dispatcher(p, event_check(p))
        r.keep = lambda s, k=r.keep: k(s)
        run_trace(ctx, p, "event", b, r, max_states=200000)
        for e in STATUS:
            ctx.ob("event", any(any(x[0] == "trigger" and x[1].startswith(e) for x in st) for st, v in r.paths), "handled:" + e, "%s is never reported" % e, where(b))
        r = Dispatcher(p, machine_check(p))
        run_trace(ctx, p, "machine", b, r, max_states=200000)
        for n in [n for n, _ in r.states] + ["absent"]:
            ctx.ob("machine", any(any(x[0] == "has" and x[1] == "connections" and x[3] == n for x in st) for st, v in r.paths), "state:" + n, "no path sends over a %s connection" % n, where(b))
    for b in need(ctx, inherent(p, "NetworkDispatcher", "schedule_retries"), "schedule_retries"):
        r = Retry(p, retry_check(p))
        run_trace(ctx, p, "retry", b, r)
        ctx.anchor("rounds of the retry loop", [x for st, v in r.paths for x in st if x[0] == "turn"], 2)
        timer_restarts(ctx, p, r, "schedule_retries", "retry")
    for b in need(ctx, [b for b in handlers(p, "on_start") if last_seg(b.self_adt) == "NetworkDispatcher"], "on_start"):
        r = Dispatcher(p, None)
        run_trace(ctx, p, "start", b, r)
        for st, v in r.paths:
            ctx.ob("start", any(x[0] == "bridge-new" for x in st) and any(x[0] == "timer" for x in st), "start", "the network is started without network thread or without retries", where(b))


# --------------------------------------------------------------------------------------------- D05
class Queues(Trace):
    """The methods of the queue manager, over the queues of its fields per address"""

    def __init__(self, p, check, fields):
        self.fields = fields
        Trace.__init__(self, p, self.event, check, inline=lambda c, b: b.kind == "Closure" or b.file.endswith("queue_manager.rs"))

    def field(self, c, v):
        w = c.sim.load_through(c.env, v)
        if w[0] == "v" and w[1] in ("array", "array-iter"):
            return None
        for w in (c.sim.ident(c.env, v), v):
            for f in self.fields:
                if touches(w, f):
                    return f
        return None

    def queue(self, c, v):
        w = objval(c.sim, c.env, v)
        return w[1][1:3] if w[0] == "y" and w[1][0] == "queue" else None

    def state(self, st, f, k):
        for x in reversed(st):
            if x[0] in ("full", "none", "absent") and x[1:] == (f, k):
                return x[0]
            if x[0] == "remove" and x[1:] == (f, k):
                return "absent"
            if x[0] == "push" and x[1:3] == (f, k):
                return "full"
            if x[0] == "pop" and x[1:3] == (f, k):
                return None
        return None

    def event(self, c):
        f = c.fn
        if f is None or not f.name or f.krate == "kompact_net" or not c.args:
            return None
        n, st = f.name, self.cur_st
        q = self.queue(c, c.args[0])
        if q:
            s = self.state(st, *q)
            if n in ("push_back", "push_front"):
                return E("push", q[0], q[1], n[5:], deep(c.sim, c.env, c.args[1]))
            if n in ("pop_front", "pop_back"):
                if s in ("none", "absent"):
                    return E(ret=NONE)
                e = E("pop", q[0], q[1], n[4:], ret=some(("y", ("popped", q[0], q[1]))))
                if s != "full":
                    e.alts = [E("none", *q, ret=NONE)]
                return e
            if n in ("is_empty", "len"):
                t = n == "is_empty"
                counts = [("c", 0)] if t else [("c", 1), ("c", 1 << 40)]
                none = E("none", *q, ret=("c", 1 if t else 0))
                if s in ("none", "absent"):
                    return none
                e = E("full", *q, ret=counts[0])
                e.alts = [E("full", *q, ret=x) for x in counts[1:]] + ([none] if s is None else [])
                return e
            if n in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "iter", "front", "back"):
                return None
            return E("other", n)
        m = self.field(c, c.args[0])
        if m and n not in ("deref", "deref_mut"):
            k = deep(c.sim, c.env, c.args[1]) if len(c.args) > 1 else ""
            s = self.state(st, m, k)
            qv = ("y", ("queue", m, k))
            if n == "entry":
                return E(ret=("y", ("entry", m, k)))
            if n in ("get", "get_mut", "contains_key"):
                t = n == "contains_key"
                yes, no = (("c", 1), ("c", 0)) if t else (some(("r", (("h", qv[1]),))), NONE)
                if ("key", m, k) in st and s != "absent" or s in ("full", "none"):
                    return E(ret=yes)
                if s == "absent":
                    return E(ret=no)
                return E("key", m, k, ret=yes, alts=[E("absent", m, k, ret=no)])
            if n in ("remove", "remove_entry"):
                if s == "absent":
                    return E(ret=NONE)
                return E("remove", m, k, ret=some(qv), alts=[E("absent", m, k, ret=NONE)])
            if n in ("get_or_insert_with",):
                return E("other", n)
            if n not in ("is_empty", "len"):
                return E("other", n)
        w = c.sim.load_through(c.env, c.args[0])
        if w[0] == "y" and w[1][0] == "entry":
            if n in ("or_default", "or_insert_with", "or_insert"):
                return E(ret=("r", (("h", ("queue",) + w[1][1:]),)))
            return E("other", n)
        return None

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)

    def add(self, st, item):
        if item and item[0] in ("full", "none", "absent", "remove"):
            st = tuple(x for x in st if x != item)
        return Trace.add(self, st, item)


def queue_checks(ctx, p):
    a = adt_named(p, "QueueManager")
    fields = [f[0] for f in a["variants"][0]["fields"]]
    found = {}

    def pushed(name):
        def check(st, val, facts, c):
            ps = [x for x in st if x[0] == "push"]
            if len(ps) != 1 or ps[0][2:] != ("arg2", "back", "arg1"):
                yield "push", "%s does not put the message at the end of the queue of its destination: %s" % (name, show(st))
            else:
                found.setdefault(name, set()).add(ps[0][1])
            if any(x[0] in ("pop", "remove", "other") for x in st):
                yield "other", "%s takes something from a queue: %s" % (name, show(st))
        return check

    def state_at_end(r, st, f):
        return r.state(st, f, "arg1")

    def run(name, mk):
        for b in need(ctx, inherent(p, "QueueManager", name), "QueueManager::" + name):
            r = Queues(p, None, fields)
            r.check = mk(r)
            run_trace(ctx, p, "queue", b, r)
            ctx.anchor("paths of QueueManager::" + name, r.paths)

    run("enqueue_data", lambda r: pushed("enqueue_data"))
    run("enqueue_priority_data", lambda r: pushed("enqueue_priority_data"))
    late, early = found.get("enqueue_data", set()), found.get("enqueue_priority_data", set())
    ctx.ob("queue", len(late) == 1 and len(early) == 1 and late != early, "apart", "messages handed back by the network and new ones are not kept in two queues: %s, %s" % (early, late))
    late, early = next(iter(late), None), next(iter(early), None)

    def popped(r):
        def check(st, val, facts, c):
            pops = [x for x in st if x[0] == "pop"]
            if any(x[0] in ("push", "other") for x in st):
                yield "other", "taking a message changes the queues in another way: %s" % show(st)
            if any(x[2:] != ("arg1", "front") for x in pops):
                yield "front", "a message is not taken from the front of the queue of its destination: %s" % (pops,)
            v = deep(c.sim, c.env, val)
            if len(pops) > 1:
                yield "one", "more than one message is taken at once"
            elif pops:
                if v != "Some(popped:%s:arg1)" % pops[0][1]:
                    yield "lost", "a message that is taken is not returned but %s" % v
                if pops[0][1] != early and not any(x[0] in ("none", "absent") and x[1:] == (early, "arg1") for x in st):
                    yield "order", "a newer message is taken although one handed back by the network may be waiting"
            elif v != "None" or any(state_at_end(r, st, f) not in ("none", "absent") for f in fields):
                yield "stuck", "no message is taken although one may be waiting (%s)" % v
            for i, x in enumerate(st):
                if x[0] == "remove" and (x[2] != "arg1" or r.state(st[:i], x[1], x[2]) not in ("none", "absent")):
                    yield "dropped", "a queue is removed that may not be empty"
        return check
    run("pop_data", popped)

    def has_data(r):
        def check(st, val, facts, c):
            if any(x[0] in ("push", "pop", "remove", "other") for x in st):
                yield "other", "looking for messages changes the queues: %s" % show(st)
            full = any(state_at_end(r, st, f) == "full" for f in fields)
            empty = all(state_at_end(r, st, f) in ("none", "absent") for f in fields)
            if val == ("c", 1) and not full or val == ("c", 0) and not empty or val[0] != "c":
                yield "has", "whether messages wait is answered with %s while the queues are %s" % (flat(val), [state_at_end(r, st, f) for f in fields])
        return check
    run("has_data", has_data)

    def dropped(r):
        def check(st, val, facts, c):
            if any(state_at_end(r, st, f) != "absent" for f in fields):
                yield "left", "a queue that is given up is still there"
            if any(x[0] in ("push", "pop", "other") or x[0] == "remove" and x[2] != "arg1" for x in st):
                yield "other", "giving up a queue changes something else: %s" % show(st)
        return check
    run("drop_queue", dropped)
    for b in p.bodies:
        if b.self_adt and last_seg(b.self_adt) == "QueueManager" and b.name not in ("enqueue_data", "enqueue_priority_data", "pop_data", "has_data", "drop_queue") and b.kind in ("Fn", "AssocFn"):
            r = Queues(p, lambda st, val, facts, c: [("other", "%s changes the queues: %s" % (c.body.name, show(st)))] if any(x[0] in ("push", "pop", "remove", "other") for x in st) else [], fields)
            run_trace(ctx, p, "queue", b, r)
    vis = [f for f in a["variants"][0]["fields"] if f[2]]
    ctx.ob("queue", not vis, "private", "the queues can be changed from outside the queue manager: %s" % vis)


def order_check(p, root):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        gone = bridge_gone(kn)
        for x in st:
            if x[0] == "misplaced" or x[0] == "again":
                yield "misplaced", "a message taken from the queue is given to somebody else: %s" % (x,)
            if x[0] == "queue-other":
                yield "other", "the queue manager is used in an unknown way: %s" % (x,)
            if x[0] in ("lost", "pop") and not gone:
                yield "lost", "a message taken from the queue is not handed to the network"
            if x[0] == "sent" and (x[2] != x[1] or x[3] != "Tcp"):
                yield "misplaced", "a message waiting for %s is sent to %s by %s" % (x[1], x[2], x[3])
        m = message(kn) if root == "receive_local" else None
        ev = kn.get("ndev.0.Network.0") if root == "receive_local" and kn.get("arg1") == "Event" else None
        evk = "sockaddr:ndev.0.Network.0.%s.0" % ev
        for k in {x[1] for x in st if x[0] == "dropq"}:
            if not (ev == "ConnectionDropped" and k == evk):
                yield "dropped", "the messages waiting for %s are given up without their connection being given up" % k
        failed = any(x[0] in ("sent", "bridge") and x[-1] == "failed" for x in st)
        for k in {x[1] for x in st if x[0] == "sent"}:
            if initial(st, "connections", k) != "Connected" and not (ev == "ConnectionEstablished" and k == evk):
                yield "early", "waiting messages are sent over a connection that is not established"
        if ev == "ConnectionEstablished" and ("empty", evk) not in st and not gone:
            yield "stuck", "messages wait although the connection is established"
        for i, x in enumerate(st):
            if x[0] == "bridge" and x[1] == "route" and x[2][2] == "Tcp":
                k = x[2][0]
                e = max((j for j, y in enumerate(st[:i]) if y == ("empty", k)), default=None)
                if e is None or any(y[0] == "enq" and y[3] == k or y == ("waiting", k) for y in st[e:i]):
                    yield "overtakes", "a message is sent directly although older ones may be waiting"
            if x[0] == "bridge" and x[1] == "close_channel":
                k = x[2][0]
                if ("empty", k) not in st[:i]:
                    yield "close", "a connection is closed although messages wait for it"
            if x[0] == "enq" and initial(st, "connections", x[3]) == "Connected" and not gone and not failed and m and ("empty", x[3]) not in st[i:]:
                yield "stuck", "a message is left in the queue of an established connection"
    return check


@prop("D05")
def d05(ctx):
    p = ctx.prog("net")
    queue_checks(ctx, p)
    sites = set()

    class Order(Dispatcher):
        def event(self, c):
            if c.fn is not None and c.fn.krate == "kompact_net" and "QueueManager" in c.fn.path:
                sites.add((c.body.id, c.block))
            return Dispatcher.event(self, c)
    for name in ("receive_local", "receive_network", "on_start", "on_stop", "on_kill", "handle"):
        for b in need(ctx, [b for b in handlers(p, name) if last_seg(b.self_adt) == "NetworkDispatcher"], "NetworkDispatcher::" + name):
            r = Order(p, order_check(p, name))
            run_trace(ctx, p, "order", b, r, max_states=200000)
            if name in ("receive_local", "handle"):
                ctx.anchor("paths of %s that send waiting messages" % name, [x for x in r.paths if has(x[0], "sent")])
    for b in need(ctx, inherent(p, "NetworkDispatcher", "schedule_retries"), "schedule_retries"):
        r = type("OrderRetry", (Order, Retry), {})(p, retry_check(p))
        run_trace(ctx, p, "order", b, r)
    for b in p.bodies:
        if "ests" in b.id or b.file.endswith("queue_manager.rs"):
            continue
        for blk, fn, *_ in p.calls(b):
            if fn is not None and fn.krate == "kompact_net" and "QueueManager" in fn.path and fn.name not in ("new", "has_data"):
                ctx.ob("order", (b.id, blk) in sites, "site:%s:%s" % (bkey(b), fn.name), "the queue of waiting messages is used outside the paths that are checked", where(b))
