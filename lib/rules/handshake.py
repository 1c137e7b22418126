"""N01: the handshake of a connection."""
import re
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.system import agg_sites
from rules.ports import inherent, need
from rules.wire import in_log
from rules.netdispatch import ok, err, some, NONE, level, settled, show
from rules.transport import Net, NT, NC, OPAQUE, HELPERS

BYTES = {"receive", "has_frame", "get_frame", "swap_buffer"}


class States(Net):
    """What the functions of a channel make of its state"""

    def __init__(self, p, check, opaque=OPAQUE - {"read_frame"} | HELPERS | BYTES, **k):
        Net.__init__(self, p, check, opaque=opaque, extra=self.more, **k)

    def within(self, c, b):
        return Net.within(self, c, b) or b.file.endswith("net/frames.rs") and b.name == "new"

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        if own and n == "receive":
            return E("receive", ret=ok(("v", "()", "", ())), alts=[E("receive", ret=err(("y", ("read-error",))))])
        if own and n == "get_frame":
            return E("decode", ret=ok(("y", ("frame",))), alts=[E("decode", "error", ret=err(("y", ("framing-error",))))])
        if own and n == "has_frame":
            return E(ret=ok(("y", ("ready",))), alts=[E(ret=err(("y", ("framing-error",))))])
        if n == "get_buffer" and own:
            return E(ret=some(("y", ("buffer",))), alts=[E(ret=NONE)])
        if n == "send_bye" and own:
            return E("bye", deep(c.sim, c.env, c.args[0]), ret=ok(("v", "()", "", ())), alts=[E("bye", deep(c.sim, c.env, c.args[0]), "unsent", ret=err(("y", ("io-error",))))])
        return None

    def add(self, st, item):
        if item and item[0] in ("receive",) and item in st:
            return st
        return Net.add(self, st, item)


def split(text):
    """'A(x,y(z))' -> ('A', ['x', 'y(z)'])"""
    m = re.match(r"(\w+)\((.*)\)$", text)
    if not m:
        return text, []
    out, depth, cur = [], 0, ""
    for ch in m.group(2):
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += {"(": 1, ")": -1}.get(ch, 0)
        cur += ch
    return m.group(1), out + [cur]


# what a channel's state may turn into, and where the address and session of the new state come from
MOVES = {
    "Requested": {"Initialised": ("hello", 1)},
    "Initialising": {"Connected": ("start", "start")},
    "Initialised": {"Connected": (0, 1)},
    "Connected": {"CloseReceived": (0, 1), "CloseRequested": (0, 1), "Closed": (0, 1)},
    "CloseReceived": {"Closed": (0, 1)},
    "CloseRequested": {"Closed": (0, 1)},
}


def moves_check(p, params):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        now = {}
        for x in st:
            if x[0] != "state":
                continue
            K, (new, args) = x[1], split(x[2])
            old = now.get(K) or (kn.get(K + ".state"), None)
            if new == "Error" or x[2] == "Error":
                now[K] = ("Error", [])
                continue
            if old[0] is None:
                yield "move", "a channel becomes %s whatever it was before" % new
                continue
            if new not in MOVES.get(old[0], {}):
                yield "move", "a channel that is %s becomes %s" % (old[0], new)
                continue
            for i, src in enumerate(MOVES[old[0]][new]):
                if i >= len(args):
                    yield "move", "the session of a channel that becomes %s is lost" % new
                elif isinstance(src, int):
                    want = old[1][src] if old[1] else "%s.state.%s.%d" % (K, old[0], src)
                    if args[i] != want:
                        yield "session", "a channel that is %s becomes %s with another %s: %s" % (old[0], new, ("address", "session id")[i], args[i])
                elif args[i] not in ["%s.%s" % (q, ("addr", "id")[i]) for q in params.get(src, ())]:
                    yield "session", "the %s of a channel that becomes %s is not the one its peer sent: %s" % (("address", "session id")[i], new, args[i])
            now[K] = (new, args)
    return check


def ack_check(p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        s = kn.get("arg0.state")
        up = any(x[:2] == ("state", "arg0") and x[2].startswith("Connected(") for x in st)
        v = flat(val)
        if s == "Initialised":
            if not up:
                yield "ack", "an acknowledged channel is not connected"
            if v not in ("Some(arg0.state.Initialised.1)",):
                yield "ack", "the session that is reported is not the one of the channel: %s" % v
        elif v != "None" or up:
            yield "ack", "an acknowledgement that nobody waits for has an effect"
    return check


def shake_check(p, role):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        s = kn.get("arg0.state")
        sent = [x[2] for x in st if x[0] == "send" and x[1] == "arg0"]
        i = next((i for i, x in enumerate(st) if x[0] == "send"), None)
        if role == "hello":
            if s == "Requested":
                if sent != ["Start(Start(arg0.own_addr,arg0.state.Requested.1))"]:
                    yield "answer", "a Hello is not answered with the own address and the channel's session id: %s" % sent
                if not any(x[0] == "state" for x in st):
                    yield "answer", "the channel does not go on after a Hello"
                if ("set", "address", "arg1.addr") not in st:
                    yield "answer", "the channel does not take the address that its peer names"
            elif sent:
                yield "answer", "an unexpected Hello is answered"
        if role == "start":
            if s == "Initialising":
                if len(sent) != 1 or not sent[0].startswith("Ack"):
                    yield "answer", "a Start is not acknowledged: %s" % sent
                if not any(x[0] == "state" for x in st):
                    yield "answer", "the channel does not go on after a Start"
                if ("set", "address", "arg1.addr") not in st:
                    yield "answer", "the channel does not take the address that its peer names"
            elif sent:
                yield "answer", "an unexpected Start is acknowledged"
        if role == "init":
            if s == "Initialising":
                if len(sent) != 1 or not sent[0].startswith("Hello(") or "arg1" not in sent[0]:
                    yield "answer", "the handshake does not begin with a Hello: %s" % sent
            elif sent:
                yield "answer", "a Hello is sent on a channel that is not new"
    return check


def bye_check(p):
    """N03: a Bye that was read has had its effect on the channel."""
    def check(st, val, facts, c):
        kn = settled(p, facts)
        if flat(val) != "Ok(Some(Bye))" and not (flat(val) == "Ok(Some(frame))" and kn.get("frame") == "Bye"):
            if any(x[0] == "state" for x in st):
                yield "bye", "the state of a channel changes although no Bye was received: %s" % show(st)
            return
        s = kn.get("arg0.state")
        new = [split(x[2])[0] for x in st if x[0] == "state"]
        if s == "Connected":
            if not new or new[-1] not in ("CloseReceived", "Closed"):
                yield "bye", "a connected channel stays connected after a Bye"
            if not any(x[0] == "bye" for x in st):
                yield "bye", "a Bye is not answered"
            if new and new[-1] == "Closed" and any(x[0] == "bye" and "unsent" in x for x in st):
                yield "bye", "a channel is closed before its Bye is sent"
        elif s == "CloseRequested":
            if new[-1:] != ["Closed"]:
                yield "bye", "a closing channel is not closed by its peer's Bye"
        elif s is None and not new:
            others = next((v[1] for k, v in facts.items() if isinstance(k, tuple) and k[0] == "discr" and flats(k[1]) == "arg0.state" and v[0] == "not"), ())
            ds = {x["name"]: x["discr"] for x in adt_named(p, "ChannelState")["variants"]}
            if not {ds["Connected"], ds["CloseRequested"]} <= set(others):
                yield "bye", "a Bye has no effect on the channel"
    return check


def writers(p):
    """Bodies that make states of a channel"""
    adt = adt_named(p, "ChannelState")["path"] if "path" in adt_named(p, "ChannelState") else next(k for k in p.adts if k.endswith("::ChannelState"))
    out = []
    for b in [p.by_h[h] for h in sorted(agg_sites(p, adt))]:
        if b.file.endswith((NT, NC)) and "::tests::" not in b.id and b not in out and not b.trait:
            out.append(b)
    return out


def params(b):
    """The arguments of a function that hold what the peer sent"""
    out = {"start": ["frame.Start.0"], "hello": ["frame.Hello.0"]}
    for i in range(b.argc):
        t = last_seg(str(b.locals[i + 1]).replace("&", "").strip())
        if t in ("Start", "Hello"):
            out[t.lower()].append("arg%d" % i)
    return out


class Merge(Net):
    """Which of two channels to the same peer stays"""

    def __init__(self, p, check, **k):
        Net.__init__(self, p, check, extra=self.more, **k)

    def more(self, c):
        f = c.fn
        n = f.name
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if n in ("as_u128", "to_u128_le", "as_u64_pair", "as_bytes", "into_bytes", "to_bytes_le") and len(c.args) == 1:
            return E(ret=("y", ("num", n, d(0))))
        if n in ("gt", "lt", "ge", "le") and len(c.args) == 2 and (f.trait or "").endswith("PartialOrd"):
            op = n[0].upper() + n[1]
            return E("than", op, d(0), d(1), 1, ret=("c", 1), alts=[E("than", op, d(0), d(1), 0, ret=("c", 0))])
        if n in ("cmp", "partial_cmp") and len(c.args) == 2:
            w = (lambda v: some(v)) if n == "partial_cmp" else (lambda v: v)
            o = lambda x: w(("v", "core::cmp::Ordering", x, ()))
            return E("than", "Gt", d(0), d(1), 1, ret=o("Greater"), alts=[E("than", "Lt", d(0), d(1), 1, ret=o("Less"))])
        return None


def order_of(st, facts, mine, theirs):
    """+: the own session is greater, -: the peer's is, None: not compared; and how it was compared"""
    rel = [(x[1], x[2], x[3], x[4]) for x in st if x[0] == "than"]
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "bin" and k[1] in ("Gt", "Lt", "Ge", "Le"):
            yes = v[1] == 1 if v[0] == "c" else 1 not in v[1]
            rel.append((k[1], flat(k[2]), flat(k[3]), int(yes)))
    out = []
    for op, a, b, yes in rel:
        if mine in a and theirs in b:
            pass
        elif theirs in a and mine in b:
            op = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}[op]
            a, b = b, a
        else:
            continue
        if a.replace(mine, "") != b.replace(theirs, ""):
            out.append(("?", "%s with %s" % (a, b)))
            continue
        up = op in ("Gt", "Ge")
        out.append(("+" if up == bool(yes) else "-", a.replace(mine, "*")))
    return out


def merge_check(p, seen):
    """arg1: event, arg2: this channel, arg3: the Start that was received on it"""
    OTHER = "chan:address:arg3.addr"

    def check(st, val, facts, c):
        kn = settled(p, facts)
        this = [x for x in st if x[:2] in (("drop_channel", "arg2"), ("lost_connection", "arg2"))]
        other = [x for x in st if x[0] in ("drop_channel", "lost_connection") and x[1] == OTHER]
        up = [x for x in st if x[:2] == ("state", "arg2")]
        told = [x[1] for x in st if x[0] == "notify"]
        if kn.get("arg2.state") != "Initialising":
            if this or other or up or told:
                yield "unexpected", "a Start has an effect on a channel that does not wait for one: %s" % show(st)
            return
        if any(x[0] == "blocked" for x in st):
            return
        if not any(x[0] in ("found", "unknown") and x[1:3] == ("address", "arg3.addr") for x in st) and not any(isinstance(k, tuple) and k[0] == "bin" and {flat(k[2]), flat(k[3])} == {"arg3.addr", "arg2.address"} and (k[1] == "Eq") == (v == ("c", 1)) for k, v in facts.items()):
            yield "look", "it is not looked whether there is another channel to the peer"
        if bool(this) == bool(up):
            yield "one", "a channel is %s" % ("dropped and used" if this else "neither used nor dropped")
        if up and told != ["ConnectionEstablished(of(Tcp,arg3.addr),arg3.id)"]:
            yield "told", "the dispatcher is not told of the connection, with the peer's address and session: %s" % told
        if not up and told:
            yield "told", "the dispatcher is told of a connection that was dropped: %s" % told
        if up and ("removed", "address", "arg2.address") not in st:
            yield "address", "the channel is not found by the address that its peer names"
        if any(x[0] == "put" and (x[1:3] != ("address", "arg3.addr") or not x[3].startswith("out:address:arg2.address")) for x in st):
            yield "address", "the channel is not found by the address that its peer names"
        if up and any(x[0] == "removed" and x[1] == "address" for x in st) and kn.get("out:address:arg2.address") == "Some" and not any(x[0] == "put" for x in st):
            yield "address", "the channel is not found by the address that its peer names"
        if ("found", "address", "arg3.addr") not in st:
            return
        if bool(this) == bool(other):
            yield "one", "%s of two channels to the same peer stay" % ("none" if this else "both")
        s = kn.get(OTHER + ".state")
        if any(x[:2] == ("state", OTHER) for x in st):
            s = "Error"
        if s in ("Requested", "Initialised"):
            rel = order_of(st, facts, "%s.state.%s.1" % (OTHER, s), "arg3.id")
            if not rel:
                yield "order", "which of two new channels stays does not depend on their sessions (other channel: %s)" % s
            for sign, how in rel:
                if sign == "?":
                    yield "order", "the sessions of two channels are not compared alike: %s" % how
                else:
                    keep = "own" if this else "peer"
                    seen.setdefault((s, how, keep if sign == "+" else "peer" if keep == "own" else "own"), c)
        elif s == "Connected":
            fresh = [v for k, v in facts.items() if isinstance(k, tuple) and k[0] == "bin" and flats(k) in ("(%s.messages Eq 0)" % OTHER,)] + [("c", int(v == ("c", 0))) for k, v in facts.items() if flats(k) == OTHER + ".messages"] + [("c", int(v[1] == 0)) for k, v in facts.items() if flats(k) in ("(%s.messages Gt 0)" % OTHER, "(0 Lt %s.messages)" % OTHER, "(%s.messages Ne 0)" % OTHER)]
            if not fresh:
                yield "fresh", "a connected channel is not asked whether it was used before it is replaced or kept"
            elif (fresh[0] == ("c", 1)) != bool(this):
                yield "fresh", "a channel that was just connected is given up for a new one, or a used one is kept although its peer connects again"
            if other and not any(x[0] == "lost_connection" for x in other):
                yield "told", "a connected channel is replaced and the dispatcher is not told that it is lost"
        elif this:
            yield "one", "the new channel is dropped for one that is of no use"
    return check


class Reads(Net):
    """What is done with each frame that is read."""

    def __init__(self, p, rounds):
        self.rounds = rounds
        Net.__init__(self, p, self.end, opaque=OPAQUE | HELPERS | {"handle_start", "handle_hello", "handle_bye", "handle_ack"}, extra=self.more)

    def end(self, st, val, facts, c):
        return self.rounds(st, facts)

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        self.now = self.facts(c)
        if own and n == "read_frame":
            self.forget(c, "frame")
            self.havoc(c, "ack")
            return None
        if own and n == "handle_ack":
            K = deep(c.sim, c.env, c.args[0])
            return E("ack", K, ret=some(("y", ("ack-session",))), alts=[E("ack", K, "none", ret=NONE)])
        if own and n == "handle_hello":
            return E("hello", *[deep(c.sim, c.env, a) for a in c.args], ret=("y", ("goes-on",)))
        return None

    def add(self, st, item):
        if item and item[0] == "frame":
            for k, m in self.rounds(st, self.now):
                self.sim.violate(k, m)
            return tuple(x for x in st if x[0] == "found") + (item,)
        return Net.add(self, st, item)


def may_be(p, facts, name, variants):
    """Can the state be one of these variants on this path?"""
    ds = {x["name"]: x["discr"] for x in adt_named(p, "ChannelState")["variants"]}
    want = {ds[v] for v in variants}
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "discr" and flats(k[1]) == name:
            want = want & {v[1]} if v[0] == "c" else want - set(v[1])
    return bool(want)


def frame_round(p):
    def check(st, facts):
        kn = settled(p, facts)
        fr = next((x for x in st if x[0] == "frame"), None)
        if fr is None:
            return
        K = fr[2]
        kind = kn.get("frame") if fr[1] == "some" else None
        data = [x for x in st if x[0] == "handle_data_frame"]
        acks = [x for x in st if x[0] == "ack"]
        told = [x[1] for x in st if x[0] == "notify"]
        for x in data:
            s = kn.get(K + ".state")
            if s not in ("Connected", "CloseRequested"):
                yield "data", "data is accepted on a channel that is not connected"
            elif x[2] != "%s.state.%s.1" % (K, s):
                yield "data", "data is accepted for another session than the channel's: %s" % x[2]
            if x[1] != "frame.Data.0":
                yield "data", "what is delivered is not the frame that was read: %s" % x[1]
        if kind == "Data" and may_be(p, facts, K + ".state", ("Connected", "CloseRequested")) and len(data) != 1:
            yield "data", "data is accepted %d times" % len(data)
        if kind != "Data" and data:
            yield "data", "something that is not data is delivered"
        if kind == "Ack":
            if [x[1] for x in acks] != [K]:
                yield "ack", "an Ack does not reach its channel"
            if acks and "none" in acks[0]:
                if told:
                    yield "ack", "a connection is reported for an Ack that nobody waited for"
            elif told != ["ConnectionEstablished(of(Tcp,%s.address),ack-session)" % K]:
                yield "ack", "an acknowledged connection is not reported with its address and session: %s" % told
        elif acks or any(t.startswith("ConnectionEstablished") for t in told):
            yield "ack", "a connection counts as established without an Ack"
        if kind == "Start" and not any(x[0] == "handle_start" and x[-2:] == (K, "frame.Start.0") for x in st):
            yield "start", "a Start has no effect: %s" % show(st)
        if kind == "Hello" and not any(x[0] == "hello" and x[-2:] == (K, "frame.Hello.0") for x in st):
            yield "hello", "a Hello has no effect: %s" % show(st)
    return check


def hello_check(p):
    """arg1: the channel, arg2: the Hello"""
    def check(st, val, facts, c):
        kn = settled(p, facts)
        up = [i for i, x in enumerate(st) if x[:2] == ("state", "arg1")]
        gone = any(x[0] in ("drop_channel", "lost_connection") for x in st)
        if kn.get("arg1.state") != "Requested":
            if up or gone or has(st, "put") or has(st, "removed"):
                yield "unexpected", "a Hello has an effect on a channel that does not wait for one"
            return
        if any(x[0] == "blocked" for x in st):
            if flat(val) != "0" or up:
                yield "blocked", "reading goes on for a channel that was dropped"
            return
        if flat(val) != "1":
            yield "on", "reading does not go on after a Hello"
        if not up:
            yield "on", "the handshake does not go on after a Hello"
        if ("removed", "address", "arg1.address") not in st or any(x[0] == "put" and x[1:3] != ("address", "arg2.addr") for x in st) or kn.get("out:address:arg1.address") == "Some" and not has(st, "put"):
            yield "address", "the channel is not found by the address that its peer names"
    return check


def open_check(p, own):
    """A stream that is stored for the own request / for a peer that connected"""
    def check(st, val, facts, c):
        for x in st:
            if x[0] == "store_stream":
                s = [a for a in x[1:] if split(a)[0] in ("Requested", "Initialising", "Initialised", "Connected")]
                want = "Requested(arg1,new-session)" if own else "Initialising"
                if s != [want]:
                    yield "open", "a new channel begins as %s" % s
    return check


@prop("N01")
def n01(ctx):
    p = ctx.prog("net")
    m = lambda t, n: need(ctx, inherent(p, t, n), "%s::%s" % (t, n))
    ws = writers(p)
    ctx.anchor("functions that change the state of a channel", ws, 5)
    for b in ws:
        run_trace(ctx, p, "moves", b, States(p, moves_check(p, params(b))))
    for b in m("TcpChannel", "handle_ack"):
        run_trace(ctx, p, "ack", b, States(p, ack_check(p)))
    for n, role in (("handle_hello", "hello"), ("handle_start", "start"), ("initialise", "init")):
        for b in m("TcpChannel", n):
            run_trace(ctx, p, "answer", b, States(p, shake_check(p, role)))
    seen = {}
    for b in m("NetworkThread", "handle_start"):
        run_trace(ctx, p, "merge", b, Merge(p, merge_check(p, seen)))
        ctx.ob("merge", len(seen) == 0 or len({k[1:] for k in seen}) == 1, "agree", "which of two channels stays is decided differently: %s" % sorted(set(k[:3] for k in seen)), where(b))
        ctx.anchor("states of the other channel in which sessions are compared", sorted({k[0] for k in seen}), 2)
    for b in m("NetworkThread", "handle_hello"):
        run_trace(ctx, p, "hello", b, Net(p, hello_check(p)))
    for b in m("NetworkThread", "read_tcp"):
        run_trace(ctx, p, "read", b, Reads(p, frame_round(p)))
    for n in ("request_stream", "receive_stream"):
        for b in m("NetworkThread", n):
            run_trace(ctx, p, "open", b, Net(p, open_check(p, n == "request_stream")))
