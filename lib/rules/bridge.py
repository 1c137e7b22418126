"""N06: the bridge to the network thread, its inbox, and its failure."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.ports import inherent, traitfn, need
from rules.wire import in_log
from rules.netdispatch import ok, err, some, NONE, level, settled, handlers, show, bridge_gone, Dispatcher
from rules.transport import NT, NM, Net

UNIT = ("v", "()", "", ())
# what each method of the bridge asks for: the event, and which of its arguments go into it
ASKS = {
    "stop": ("Stop",), "kill": ("Kill",), "ack_closed": ("ClosedAck(arg1)",), "close_channel": ("Close(arg1)",),
    "block_socket": ("BlockSocket(arg1)",), "block_ip": ("BlockIpAddr(arg1)",), "block_ip_net": ("BlockIpNet(arg1)",),
    "allow_socket": ("AllowSocket(arg1)",), "allow_ip": ("AllowIpAddr(arg1)",), "allow_ip_net": ("AllowIpNet(arg1)",),
    "route": ("SendTcp(arg1,arg2)", "SendUdp(arg1,arg2)"), "connect": ("Connect(arg2)",),
}
WAITS = ("stop", "kill")


class Bridge(Trace):
    inline_depth = 10

    def __init__(self, p, check, **k):
        self.p = p
        Trace.__init__(self, p, self.event, check, inline=lambda c, b: b.file.endswith(NM), keep=lambda s: True, on_write=None, **k)

    def event(self, c):
        f = c.fn
        if in_log(c):
            return E("log") if level(c) in ("warn", "error", "crit") else E()
        if f is None or not f.name:
            return None
        n = f.name
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if n in ("send", "try_send") and "Sender" in f.path and len(c.args) == 2:
            return E("inbox", d(0), d(1), ret=ok(), alts=[E("inbox", d(0), d(1), "failed", ret=err(("y", ("send-error",))))])
        if n == "wake" and f.krate == "mio":
            return E("wake", d(0), ret=ok(), alts=[E("wake", d(0), "failed", ret=err(("y", ("wake-error",))))])
        if n in ("wait", "wait_timeout", "recv", "block_on") and c.args and "shutdown_future" in d(0):
            return E("waited", ret=("y", ("unit",)) if n == "wait" else None)
        if n in ("context", "with_context", "map_err") and c.args:
            w = c.sim.load_through(c.env, c.args[0])
            if w[0] == "v" and w[2] == "Ok":
                return E(ret=w)
            if w[0] == "v" and w[2] == "Err":
                return E(ret=err(("y", ("bridge-error",))))
        if n == "unsupported_protocol":
            return E(ret=("y", ("bridge-error",)))
        return None


def asks(p):
    def check(st, val, facts, c):
        n = c.body.name if c.frame == 0 else None
        return ()
    return check


def bridge_checks(ctx, p):
    for name, wanted in sorted(ASKS.items()):
        for b in need(ctx, inherent(p, "Bridge", name), "Bridge::" + name):
            def check(st, val, facts, c, name=name, wanted=wanted):
                kn = settled(p, facts)
                ib = [x for x in st if x[0] == "inbox"]
                wk = [x for x in st if x[0] == "wake"]
                res = flat(val) if val else ""
                good = res.startswith("Ok")
                bad = res.startswith("Err")
                want = wanted
                if name == "route":
                    proto = kn.get("arg3")
                    want = ("Send%s(arg1,arg2)" % proto,) if proto in ("Tcp", "Udp") else ()
                if name == "connect" and kn.get("arg1") != "Tcp":
                    if ib or not bad:
                        yield "unsupported", "a connection over a protocol other than TCP is not refused: %s" % show(st)
                    return
                if len(ib) != 1 or ib[0][2] not in want or "network_input_queue" not in ib[0][1]:
                    yield "event", "the request to %s puts %s into the inbox" % (name, [x[2] for x in ib])
                    return
                if ib[0][-1] == "failed":
                    if not bad:
                        yield "silent", "a full or closed inbox is not reported to who asked to %s" % name
                    return
                if len(wk) != 1 or not before(st, "inbox", "wake"):
                    yield "asleep", "the network thread is not woken after the request to %s was put into its inbox: %s" % (name, show(st))
                    return
                if wk[0][-1] == "failed":
                    if not bad:
                        yield "silent", "a failure to wake the network thread is not reported to who asked to %s" % name
                    return
                if not good:
                    yield "error", "a request to %s that was delivered is reported as failed" % name
                if name in WAITS and not (has(st, "waited") and before(st, "wake", "waited")):
                    yield "wait", "%s does not wait for the network thread to end" % name
                if name not in WAITS and has(st, "waited"):
                    yield "wait", "%s waits for the network thread to end" % name
            run_trace(ctx, p, "request", b, Bridge(p, check))


class Inbox(Net):
    """The network thread's inbox is emptied."""

    def __init__(self, p, check):
        Net.__init__(self, p, check, opaque={"handle_dispatch_event"}, extra=self.more)

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        if not own and n in ("try_recv", "recv", "try_iter", "iter", "recv_timeout") and c.args and "input_queue" in deep(c.sim, c.env, c.args[0]):
            if n in ("try_iter",):
                return E(ret=("y", ("iter", ("inbox",), "try_iter")))
            if n in ("recv", "iter"):
                return E("blocks", ret=("y", ("request",)))
            return E("received", ret=ok(("y", ("request",))), alts=[E("inbox-empty", ret=err(("y", ("recv-error",))))])
        if own and n == "handle_dispatch_event":
            return E("handled", deep(c.sim, c.env, c.args[1]))
        return None

    def add(self, st, item):
        if item is None:
            return st
        if item[0] == "received":
            if ("received",) in st:
                return tuple(x for x in st if x != ("lost",)) + (("lost",),)
            st = tuple(x for x in st if x[0] not in ("handled", "inbox-empty"))
        if item[0] == "handled":
            if item[1].startswith("request"):
                if ("received",) not in st:
                    return st + (("again",),)
                st = tuple(x for x in st if x != ("received",))
        return Net.add(self, st, item) if item not in st else st


def inbox_checks(ctx, p):
    def check(st, val, facts, c):
        if has(st, "lost") or has(st, "received"):
            yield "lost", "a request taken from the inbox is not handled"
        if has(st, "again"):
            yield "again", "a request is handled twice"
        if has(st, "blocks"):
            yield "blocks", "the network thread waits for requests instead of polling"
        if has(st, "end"):
            for x in st:
                if x[0] == "iters" and not any(y[0] == "handled" for y in str_items(x)):
                    yield "lost", "a request taken from the inbox is not handled"
            return
        if not has(st, "inbox-empty"):
            yield "left", "the network thread goes back to sleep before its inbox is known to be empty"
    for b in need(ctx, inherent(p, "NetworkThread", "receive_dispatch"), "NetworkThread::receive_dispatch"):
        run_trace(ctx, p, "inbox", b, Inbox(p, check))


def str_items(x):
    out = []
    for y in x:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str):
                out.append(y)
            out += str_items(y)
    return out


class Requests(Net):
    """What a request taken from the inbox does: sending is followed in detail."""
    SENDING = {"serialise_dispatch_data", "try_write", "try_drain"}

    def __init__(self, p, check, opaque=()):
        Net.__init__(self, p, check, opaque=self.SENDING | set(opaque), extra=self.more)

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if own and n == "serialise_dispatch_data":
            fr = ("y", ("frame", d(1)))
            return E("serialised", d(1), ret=ok(fr), alts=[E("unserialisable", d(1), ret=err(("y", ("ser-error",))))])
        if not own and n in ("push_back", "push_front") and c.args:
            q = d(0)
            if "outbound_queue" in q:
                return E("queued", n, q.replace(".outbound_queue", ""), d(1))
            if "retry_queue" in q:
                return E("later", n, d(1))
        if own and n == "try_write":
            return E("written", ret=ok(("y", ("sent",))), alts=[E("written", "failed", ret=err(("y", ("io-error",))))])
        if own and n in ("out_of_buffers",):
            return E(ret=("c", 1), alts=[E(ret=("c", 0))])
        return None


def socket_back(st):
    back = [x for x in st if x[:2] == ("set", "udp_state")]
    return bool(back) and back[-1][2].startswith("Some")


def send_checks(ctx, p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        v = kn.get("arg1")
        logged = has(st, "log")
        q = [x for x in st if x[0] == "queued"]
        rej = [x for x in st if x[0] == "reject"]
        if v not in ("SendTcp", "SendUdp"):
            return
        addr, data = "arg1.%s.0" % v, "arg1.%s.1" % v
        for x in rej:
            if x[1:] != ("tuple(%s,%s)" % (addr, data),) and x[1:] != (addr, data):
                yield "reject", "a message that cannot be sent is handed back as %s" % (x[1:],)
        if has(st, "unserialisable"):
            if q or not (logged or rej):
                yield "lost", "a message that cannot be serialised disappears without a trace"
            if v == "SendUdp" and not socket_back(st):
                yield "socket", "the UDP socket is gone after a message that could not be serialised"
            return
        if len(q) + len(rej) != 1:
            yield "lost", "a message to send is queued %d times and handed back %d times (%s)" % (len(q), len(rej), show(st))
            return
        if rej:
            if v == "SendTcp" and ("found", "address", addr) in st and kn.get("chan:address:%s.state" % addr) == "Connected":
                yield "reject", "a message for a connected peer is handed back"
            return
        x = q[0]
        if x[1] != "push_back":
            yield "order", "a message to send overtakes those already queued"
        if v == "SendTcp":
            ch = "chan:address:" + addr
            if x[2] != ch or x[3] != "frame:" + data:
                yield "wrong", "the message queued is %s on %s" % (x[3], x[2])
            if kn.get(ch + ".state") != "Connected":
                yield "early", "a message is queued on a channel that is not connected"
            if not any(y[0] == "later" and ch + ".token" in y[2] for y in st) and not any(y[0] == "drain" and y[1] == ch for y in st):
                yield "stuck", "nothing writes out a message that was queued"
        else:
            if "udp_state" not in x[2] or x[3] != "tuple(%s,frame:%s)" % (addr, data):
                yield "wrong", "the datagram queued is %s on %s" % (x[3], x[2])
            if not socket_back(st):
                yield "socket", "the UDP socket is gone after a datagram was sent"
            if not has(st, "written"):
                yield "stuck", "nothing writes out a datagram that was queued"
            elif not logged and any(y == ("written", "failed") for y in st):
                yield "silent", "a datagram that cannot be sent disappears without a trace"
    for b in need(ctx, inherent(p, "NetworkThread", "handle_dispatch_event"), "NetworkThread::handle_dispatch_event"):
        r = Requests(p, check, OTHER)
        run_trace(ctx, p, "send", b, r)


OTHER = ("stop", "kill", "request_stream", "handle_closed_ack", "close_connection", "block_socket_addr", "block_ip_addr", "block_ip_net", "allow_socket_addr", "allow_ip_addr", "allow_ip_net")


WORK = {"receive_stream", "write_udp", "read_udp", "receive_dispatch", "write_tcp", "read_tcp"}


class Poll(Net):
    """The event loop: which source an event is taken to come from."""

    def __init__(self, p, check, opaque, extra=None):
        Net.__init__(self, p, check, opaque=opaque, extra=self.more)
        self.xtra = extra

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if own and n in self.opaque:
            a = [d(i) for i in range(1, len(c.args))]
            if n == "receive_stream":
                return E(n, *a, ret=ok(), alts=[E(n, *a, "failed", ret=err(("y", ("io-error",))))])
            return E(n, *a)
        if n == "register" and "Registry" in f.path:
            return E("register", d(1), d(2), d(3), ret=("y", ("result", n)))
        if n == "new" and "Waker" in f.path and len(c.args) == 2:
            return E("waker", d(1), ret=("y", ("result", n)))
        return None


class Loop(Poll):
    """The rounds of the event loop: poll, then handle what was polled and what was put aside."""

    def __init__(self, p, check=None, rounds=None):
        Poll.__init__(self, p, check, {"handle_event"})
        self.rounds = rounds
        self.on_iter = lambda X, op, it, tr: tuple(it)

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if n == "poll" and f.krate == "mio":
            kn = {flats(k): v for k, v in self.facts(c).items()}
            w = c.args[0]
            k = w[1] if w[0] == "r" else (("h", w[1]),)
            oob = c.sim.load_through(c.env, ("r", (k[:-1] or k) + (("f", "out_of_buffers"),)))
            if oob[0] == "y":
                oob = c.env.get(("φ", oob[1]))
            emp = next((v for k, v in kn.items() if k.startswith("waiting")), None)
            return E("poll", d(2), oob, emp, ret=("y", ("result", "poll")))
        if n.startswith("from_") and "Duration" in f.path and len(c.args) == 1:
            return E(ret=("y", ("dur", d(0))))
        if not own and c.args and "retry_queue" in d(0):
            if n in ("is_empty",):
                return E(ret=("y", ("waiting", c.site)))
            if n in ("split_off", "drain", "take", "append"):
                return E("retries", ret=("y", ("iter", ("retries",), "drain")))
            if n in ("pop_front",):
                return E("retries", ret=some(("y", ("retry-event",))), alts=[E("retries-end", ret=NONE)])
        if n in ("chain", "collect") and c.args and not own:
            # the polled events are all there, in one or the other order with those put aside
            its = [x for x in (self.iter_sym(c, a) for a in c.args) if x is not None]
            if any("events" in repr(x).lower() for x in its):
                return E(ret=("y", ("iter", ("polled events",), "part" if any(x[2] == "part" for x in its) else "iter")))
        if n in ("take", "replace") and f.path.startswith("core::mem") and c.args and "retry_queue" in d(0):
            return E("retries", ret=("y", ("retries",)))
        if own and n == "handle_event" and c.args:
            w = c.args[0]
            k = w[1] if w[0] == "r" else (("h", w[1]),)
            for x in [x for x in c.env if x[0] == "φ" and isinstance(x[1], tuple) and x[1][0] == "flag"]:
                del c.env[x]
            return E(n, d(1), writes=tuple((k + (("f", f),), ("y", ("flag", f))) for f in ("out_of_buffers", "stopped")))
        return Poll.more(self, c)

    def add(self, st, item):
        if item is None:
            return st
        if item[0] == "poll":
            st = self.finish(st)
            if any(x[0] == "poll" for x in st) and self.rounds:
                for k, m in self.rounds(st, {flats(k): v for k, v in self.env_facts.items()}):
                    self.sim.violate(k, m)
            return (item,)
        if item[0] == "handle_event" and item in st:
            return st + (("again", item[1]),)
        return Poll.add(self, st, item)

    def call(self, st, c):
        self.env_facts = self.facts(c)
        return Poll.call(self, st, c)


def turns(st):
    """(collection, what was done with one of its elements) for the loops of a round"""
    return [(x[1], x[2]) for x in st if x[0] == "iters"]


def round_check(st, kn):
    """What a completed round of the event loop must have done."""
    failed = kn.get("discr(result:poll)") == ("c", 1)
    if failed:
        return
    if not any(x[0] == "end" and "events" in flats(x[1]) + repr(x[1]).lower() and x[1][2] != "part" for x in st):
        yield "polled", "not every event polled is handled before the next poll: %s" % show(st)
    for X, it in turns(st):
        h = [y for y in it if y[0] == "handle_event"]
        if len(h) != 1 or any(y[0] == "again" for y in it):
            yield "polled", "an event polled is handled %d times" % len(h)


def loop(ctx, p, rule, rounds=None, check=None):
    for b in need(ctx, inherent(p, "NetworkThread", "run"), "NetworkThread::run"):
        run_trace(ctx, p, rule, b, Loop(p, check, rounds), max_states=120000)


def source_checks(ctx, p):
    """Tokens are registered for and dispatched to the same source."""
    reg = {}
    for name in ("new", "build"):
        for b in need(ctx, inherent(p, "NetworkThreadBuilder", name), "NetworkThreadBuilder::" + name):
            r = Poll(p, None, WORK)
            run_trace(ctx, p, "register", b, r)
            for st, val in r.paths:
                for x in st:
                    if x[0] == "register":
                        what = "listener" if "tcp_listener" in x[1] or "listener" in x[1].lower() else "udp"
                        reg.setdefault(what, set()).add(x[2])
                    if x[0] == "waker":
                        reg.setdefault("inbox", set()).add(x[1])
    for what in ("listener", "udp", "inbox"):
        ctx.anchor("token of the " + what, len(reg.get(what, ())))
    tok = {}
    for what, ts in reg.items():
        for t in ts:
            ctx.ob("register", t not in tok and len(ts) == 1, "token:%s" % what, "the %s is registered under token %s, which stands for the %s as well" % (what, t, tok.get(t)), NT)
            tok[t] = what

    def check(st, val, facts, c):
        kn = {flats(k): v for k, v in facts.items()}
        t = next((v for k, v in kn.items() if "token" in k), None)
        rd, wr = kn.get("arg1.readable"), kn.get("arg1.writeable")
        what = tok.get(str(t[1])) if t and t[0] == "c" else "channel" if t and t[0] == "not" else None
        did = [x[0] for x in st if x[0] in WORK]
        if len(set(did)) != len(did):
            yield "twice", "an event is handled twice: %s" % did
        if what is None:
            yield "source", "an event is handled without looking at where it comes from"
        elif what == "listener":
            if did != ["receive_stream"]:
                yield "source", "an event of the listener leads to %s" % did
            elif any(x == ("receive_stream", "failed") for x in st) and not has(st, "log"):
                yield "silent", "a failure to accept connections disappears without a trace"
        elif what == "inbox":
            if did != ["receive_dispatch"]:
                yield "source", "an event of the inbox leads to %s" % did
        else:
            r, w = ("read_udp", "write_udp") if what == "udp" else ("read_tcp", "write_tcp")
            if what == "udp" and kn.get("discr(arg0.udp_state)") == ("c", 0):
                return
            if set(did) - {r, w}:
                yield "source", "an event of a %s leads to %s" % (what, did)
            if rd != ("c", 0) and r not in did or rd == ("c", 0) and r in did:
                yield "source", "a %s event of a %s leads to %s" % ("readable" if rd != ("c", 0) else "not readable", what, did)
            if wr != ("c", 0) and w not in did or wr == ("c", 0) and w in did:
                yield "source", "a %s event of a %s leads to %s" % ("writable" if wr != ("c", 0) else "not writable", what, did)
            if what == "udp":
                if not socket_back(st):
                    yield "socket", "the UDP socket is gone after one of its events was handled"
            for x in st:
                if x[0] in ("read_tcp", "write_tcp") and not x[1].startswith("arg1"):
                    yield "source", "an event leads to %s of %s" % (x[0], x[1])
    for b in need(ctx, inherent(p, "NetworkThread", "handle_event"), "NetworkThread::handle_event"):
        run_trace(ctx, p, "source", b, Poll(p, check, WORK))
    loop(ctx, p, "loop", round_check)


class Guard(Trace):
    """The thread's main function: what runs under catch_unwind and what follows a panic."""
    inline_depth = 8

    def __init__(self, p, check, root):
        self.p = p
        self.caught = set()
        Trace.__init__(self, p, self.event, check, inline=lambda c, b: b.file.endswith(NM), keep=lambda s: True)

    def event(self, c):
        f = c.fn
        if in_log(c):
            return E("log") if level(c) in ("warn", "error", "crit") else E()
        if f is None or not f.name:
            return None
        n = f.name
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if n in ("catch_unwind", "try") and c.args:
            w = c.sim.load_through(c.env, c.args[0])
            while w[0] == "v" and w[3]:
                w = w[3][0][1]
            if w[0] == "clo":
                self.caught.add(w[1])
            return E("ended", ret=ok(), alts=[E("panicked", ret=err(("y", ("panic",))))])
        if f.krate == "kompact_net" and last_seg(f.path) in ("build", "run") and "etwork" in f.path:
            return E(n, ret=("y", ("thread",)))
        if n == "complete" and f.krate == "kompact":
            return E("complete", d(0), ret=ok(), alts=[E("complete", d(0), "failed", ret=err(("y", ("promise-error",))))])
        if n == "tell" and f.krate == "kompact":
            return E("tell", d(1))
        if n == "new" and "Box" in f.path:
            return E(ret=c.sim.load_through(c.env, c.args[0]))
        return None


def guard_checks(ctx, p):
    mine = [b for b in p.bodies if b.kind == "Closure" and b.file.endswith(NM) and "ests" not in b.id]
    outer = [b for b in mine if any(f is not None and f.name == "catch_unwind" for _, f, *_ in p.calls(b))]
    fns = [b for b in p.bodies if b.kind == "Fn" and b.file.endswith(NM) and "ests" not in b.id and any(f is not None and f.name == "catch_unwind" for _, f, *_ in p.calls(b))]
    caught = set()

    def after(st, val, facts, c):
        told = [x for x in st if x[0] == "tell"]
        if has(st, "panicked"):
            if [x[1] for x in told] != ["Event(Network(CriticalNetworkFailure))"]:
                yield "unreported", "after a panic of the network thread the dispatcher is told %s" % [x[1] for x in told]
            if not has(st, "log"):
                yield "silent", "a panic of the network thread is not logged"
        elif told:
            yield "alarm", "the dispatcher is told %s although the network thread ended normally" % [x[1] for x in told]
        if not has(st, "panicked") and not has(st, "ended"):
            yield "unguarded", "the network thread can end without its panics being caught"
    for b in need(ctx, outer + fns, "guarded network thread"):
        r = Guard(p, after, b)
        run_trace(ctx, p, "panic", b, r)
        caught |= r.caught
    inner = [p.by_h[h] for h in caught if h in p.by_h]

    def main(st, val, facts, c):
        if not has(st, "run"):
            yield "norun", "the network thread does not run"
        if not has(st, "complete") or not before(st, "build", "complete") or not before(st, "complete", "run"):
            yield "started", "the network thread is not reported as started between being built and running: %s" % show(st)
    for b in need(ctx, inner, "main function of the network thread"):
        run_trace(ctx, p, "main", b, Guard(p, main, b))
    # nothing of the network thread runs outside of it
    up = p.callers()
    for name, ty in (("run", "NetworkThread"), ("build", "NetworkThreadBuilder")):
        for t in inherent(p, ty, name):
            seen, todo = set(), [t.h]
            while todo:
                h = todo.pop()
                for x in up.get(h, ()):
                    b = p.by_h.get(x)
                    if b is None or x in seen or x in caught or "ests" in b.id:
                        continue
                    seen.add(x)
                    todo.append(x)
            for x in sorted(seen):
                b = p.by_h[x]
                if not any(y in seen for y in up.get(x, ()) ) and x not in {o.h for o in outer + fns}:
                    ctx.ob("guarded", False, "%s:%s" % (bkey(b), name), "%s of the network thread is called without catching its panics" % name, where(b))
            ctx.ob("guarded", True, "%s.%s" % (ty, name), "", where(t))


# what the dispatcher asks of the network thread for each request of a user
STATUS = {
    "ConnectSystem": ("connect", "protocol:{0}", "{a}"), "BlockIp": ("block_ip", "{0}"), "BlockSystem": ("block_socket", "{a}"),
    "BlockIpNet": ("block_ip_net", "{0}"), "AllowIp": ("allow_ip", "{0}"), "AllowSystem": ("allow_socket", "{a}"), "AllowIpNet": ("allow_ip_net", "{0}"),
    "DisconnectSystem": ("close_channel", "{a}"),
}


def status_checks(ctx, p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        v = kn.get("arg1")
        if v not in STATUS:
            yield "request", "a request is handled without looking at what it asks for"
            return
        x0 = "arg1.%s.0" % v
        want = tuple(t.format(x0, a="@") if "{" in t else t for t in STATUS[v])
        asked = [x for x in st if x[0] == "bridge"]
        if bridge_gone(kn):
            return
        if not asked and v == "DisconnectSystem":
            conn = next((x[3] for x in st if x[0] == "has" and x[1] == "connections"), None)
            if conn == "Connected":
                yield "ignored", "a request to disconnect is ignored although there is a connection"
            return
        if len(asked) != 1:
            yield "ignored", "a request to %s leads to %d requests to the network thread" % (v, len(asked))
            return
        x = asked[0]
        args = tuple(show_addr(a, x0) for a in x[2])
        if (x[1],) + args != want:
            yield "request", "a request to %s becomes %s(%s)" % (v, x[1], ",".join(x[2]))
        if x[-1] == "failed" and not has(st, "log"):
            yield "silent", "a request the network thread cannot take disappears without a trace"
    hs = [b for b in p.bodies if b.kind != "Closure" and b.name == "handle" and b.self_adt and last_seg(b.self_adt) == "NetworkDispatcher" and b.trait and "NetworkStatusPort" in (str(b.trait_ref) + str(b.trait))]
    for b in need(ctx, hs, "NetworkStatusPort handler of the dispatcher"):
        run_trace(ctx, p, "status", b, Dispatcher(p, check))


def show_addr(a, x0):
    return "@" if a in ("sockaddr:" + x0, "at(address:%s,port:%s)" % (x0, x0)) else a


@prop("N06")
def n06(ctx):
    p = ctx.prog("net")
    bridge_checks(ctx, p)
    inbox_checks(ctx, p)
    send_checks(ctx, p)
    source_checks(ctx, p)
    guard_checks(ctx, p)
    status_checks(ctx, p)
