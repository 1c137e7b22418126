"""N07: temporary conditions in the network thread."""
from kit import *
from trace import *
from rules import prop
from rules.ports import inherent, need
from rules.wire import in_log
from rules.netdispatch import ok, err, some, NONE, level, settled, show
from rules.transport import Net, NT, NC, NU, OPAQUE, HELPERS, lists_of
from rules.sending import Queue, Datagrams, is_
from rules.bridge import loop

SUM = ("y", ("sum",))


class Socket(Net):
    """A loop that reads from a socket, one read at a time."""

    def __init__(self, p, rounds, check, **k):
        self.rounds = rounds
        Net.__init__(self, p, check, opaque={"decode"}, extra=self.more, **k)

    def arith(self, op, a, b):
        return SUM if op == "Add" else None

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        self.now = self.facts(c)
        if n in ("read", "recv_from", "recv", "read_vectored") and not own and len(c.args) >= 2:
            for x in ("errkind", "sum", "got"):
                self.forget(c, x)
            for k in list(c.env):
                if k[0] == "φ" and isinstance(k[1], tuple) and k[1][0] == "bin" and ("sum" in flats(k[1]) or "got" in flats(k[1])):
                    del c.env[k]
            wrap = (lambda v: ok(("v", "tuple", None, (("0", v), ("1", ("y", ("from",))))))) if n == "recv_from" else ok
            return E("read", "some", ret=wrap(("y", ("got",))), alts=[E("read", "empty", ret=wrap(("c", 0))), E("read", "failed", ret=err(("y", ("error",))))])
        if n in ("would_block", "interrupted", "broken_pipe", "connection_reset", "no_buffer_space", "out_of_buffers") and own:
            return E(ret=("y", ("errkind", n)))
        if n == "get_writeable":
            return E(ret=some(("y", ("room",))), alts=[E("no-room", ret=NONE)])
        if n == "writeable_len":
            return E(ret=("y", ("roomlen", len(self.cur_st))))
        if n == "swap_buffer" and own:
            return E("swapped")
        if n == "advance_writeable":
            return E("count", deep(c.sim, c.env, c.args[1]))
        if n in ("get_frame", "decode") and own:
            return E("decode", ret=("y", ("result", n)))
        if n in ("discard_unread",) and own:
            return E("discard")
        if n == "push_back" and "incoming_messages" in deep(c.sim, c.env, c.args[0]):
            return E("deliver")
        return None

    def add(self, st, item):
        if item and item[0] == "read":
            for k, m in self.rounds(st, self.now):
                self.sim.violate(k, m)
            return (item,)
        return Net.add(self, st, item)


def bounded(facts):
    """Was a number of attempts compared with its bound?"""
    return any(isinstance(k, tuple) and k[0] == "bin" and k[1] in ("Ge", "Gt", "Lt", "Le", "Eq", "Ne") and "sum" in flats(k) for k in facts)


def last_read(st, facts):
    r = next((x[1] for x in reversed(st) if x[0] == "read"), None)
    # the read of nothing is a case of its own
    return "impossible" if r == "some" and any(flats(k) == "got" and v == ("c", 0) for k, v in facts.items()) else r


def tries_again(facts):
    if is_(facts, "interrupted") is not True:
        yield "spin", "after an error the operation is tried again at once although it was not merely interrupted"
    elif not bounded(facts):
        yield "spin", "an operation that is interrupted again and again is never given up"


def stream_round(st, facts):
    r = last_read(st, facts)
    if r == "empty":
        yield "spin", "reading goes on at the end of the stream"
    if r == "failed":
        yield from tries_again(facts)
    if r == "some" and not any(x == ("count", "got") for x in st):
        yield "lost", "bytes that were read are not counted as received"


def stream_end(st, val, facts, c):
    r = last_read(st, facts)
    res = flat(val)
    if r == "some" and not has(st, "no-room") and res.startswith("Ok"):
        yield "early", "reading stops although the socket was not read until it would block"
    if r == "some" and not any(x == ("count", "got") for x in st):
        yield "lost", "bytes that were read are not counted as received"
    yield from common_end(st, r, res, facts)


def common_end(st, r, res, facts):
    if r == "failed" and is_(facts, "would_block") is True and not res.startswith("Ok"):
        yield "block", "a socket with nothing to read is reported as an error"
    if r == "failed" and is_(facts, "would_block") is not True and res.startswith("Ok"):
        yield "silent", "an error while reading is not told"
    if has(st, "no-room") and r != "failed" and not res.startswith("Err"):
        yield "room", "reading stops for want of buffers and nobody is told"


def datagram_round(st, facts):
    r = last_read(st, facts)
    if r == "failed":
        yield from tries_again(facts)
    if r == "some":
        order = [x[0] for x in st if x[0] in ("count", "decode", "discard")]
        if order.count("decode") != 1 or order[:2] != ["count", "decode"]:
            yield "decode", "a datagram is not decoded once after it was received: %s" % order
        elif order[2:3] != ["discard"]:
            yield "discard", "what is left of one datagram becomes part of the next"


def datagram_end(st, val, facts, c):
    r = last_read(st, facts)
    res = flat(val)
    if r in ("some", "empty") and res.startswith("Ok"):
        yield "early", "reading stops although more datagrams may be waiting"
    if r == "some":
        yield from datagram_round(st, facts)
    if not r and res.startswith("Ok"):
        yield "early", "reading stops before it began"
    yield from common_end(st, r, res, facts)
    if not r and res.startswith("Ok"):
        yield "room", "reading stops for want of buffers and nobody is told"


# --- writing ---------------------------------------------------------------------------------

def write_round(st, facts, last):
    w = [x for x in st if x[0] in ("write", "failed")]
    if w and w[-1][0] == "failed":
        if is_(facts, "interrupted") is True and not bounded(facts):
            yield "spin", "an operation that is interrupted again and again is never given up"
        if is_(facts, "would_block") is True:
            yield "spin", "writing is tried again at once although the socket would block"
        kept = any(x[0] == "back" for x in st)
        if is_(facts, "interrupted") is not True and kept:
            yield "spin", "after an error the operation is tried again at once although it was not merely interrupted"


def write_end(st, val, facts, c):
    w = [x for x in st if x[0] in ("write", "failed")]
    if w and w[-1][0] == "failed" and is_(facts, "would_block") is True and not flat(val).startswith("Ok"):
        yield "block", "a socket that takes nothing more is reported as an error"
    if w and w[-1][0] == "write" and flat(val).startswith("Ok") and not any(x[0] in ("drained", "few") for x in st):
        yield "early", "writing stops although the socket was not full"


class Attempts:
    """Counters may be compared with their bounds"""

    def more(self, c):
        f = c.fn
        if f.name in ("write", "send_to", "send", "write_all") and f.krate not in ("kompact", "kompact_net"):
            for k in list(c.env):
                if k[0] == "φ" and isinstance(k[1], tuple) and k[1][0] == "bin" and "sum" in flats(k[1]):
                    del c.env[k]
        return Queue.more(self, c)


class Frames(Attempts, Queue):
    pass


class Packets(Attempts, Datagrams):
    pass


# --- shortage of buffers ---------------------------------------------------------------------

class Short(Net):
    """Who holds a channel, and what is put aside."""

    def __init__(self, p, check, opaque=()):
        Net.__init__(self, p, check, opaque=(OPAQUE | HELPERS) - {"retry_event", "handle_start"} | {"handle_hello", "handle_bye", "handle_ack", "try_read", "try_write", "deliver_net_message", "lost_connection", "get_retry_event"} | set(opaque), extra=self.more)
        self.on_drop = self.dropped

    def dropped(self, c, ty, v):
        if "RefMut<" in str(ty) and v[0] in ("y", "r", "kr"):
            return ("letgo", deep(c.sim, c.env, v))

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if n in ("would_block", "interrupted", "broken_pipe", "connection_reset", "no_buffer_space", "out_of_buffers") and own and len(c.args) == 1:
            return E(ret=("y", ("errkind", n)))
        if n == "try_read" and own:
            return E("try_read", ret=ok(), alts=[E("try_read", "failed", ret=err(("y", ("error",))))])
        if n in ("saturating_add", "checked_add") and not own and len(c.args) == 2 and "retries" in d(0) and c.args[1] == ("c", 1):
            more = ("y", ("counted", d(0)))
            return E(ret=some(more), alts=[E(ret=NONE)]) if n == "checked_add" else E(ret=more)
        if n == "get_retry_event" and own:
            return E(ret=("y", ("again", d(0))))
        if n == "lost_connection" and own:
            return E("lost", d(1))
        if n in ("push_back", "push_front") and c.args and "retry_queue" in d(0):
            return E("aside", d(1))
        if n == "pop_front" and "incoming_messages" in d(0):
            return E("message", ret=some(("y", ("message",))), alts=[E("no-message", ret=NONE)])
        if n == "drop" and f.path.startswith("core::mem") and c.args:
            return E("letgo", d(0))
        if n == "borrow_mut" and not own and len(c.args) == 1:
            v = objval(c.sim, c.env, c.args[0])
            return E("hold", flat(v), ret=v)
        if n == "deliver_net_message" and own:
            return E("deliver", d(1))
        if n in ("readable_with_token", "writeable_with_token"):
            return None
        return None

    def add(self, st, item):
        if item and item[0] in ("hold", "letgo", "lost"):
            held = [x for x in st if x[0] == "hold" and x[1] == item[1]]
            if item[0] == "hold":
                if held:
                    self.sim.violate("twice", "channel %s is borrowed while it is already held" % item[1])
                return st if held else st + (item,)
            st = tuple(x for x in st if x not in held)
            return st + (item,) if item[0] == "lost" else st
        if item and item[0] == "frame":
            held = tuple(x for x in st if x[0] == "hold")
            st = Net.add(self, tuple(x for x in st if x[0] != "hold"), item)
            return st[:-1] + held + st[-1:]
        if item and item[0] == "message":
            i = max((i for i, x in enumerate(st) if x[0] == "message"), default=None)
            if i is not None:
                if ("deliver", "message") not in st[i:]:
                    self.sim.violate("deliver", "a received message is not delivered")
                st = st[:i]
            return st + (item,)
        return Net.add(self, st, item)


def kind(facts, n):
    return is_(facts, n)


def read_check(p):
    """read_tcp: a shortage of buffers puts the event aside"""
    def check(st, val, facts, c):
        fr = [x for x in st if x[0] == "frame"]
        if not fr or fr[-1][1] != "error" or is_(facts, "no_buffer_space") is False:
            return
        tail = st[max(i for i, x in enumerate(st) if x[0] == "frame"):]
        if is_(facts, "no_buffer_space") is None:
            if not any(x[0] in ("aside", "lost", "removed") for x in tail):
                yield "short", "it is not looked whether reading stopped for want of buffers"
            return
        if ("set", "out_of_buffers", "1") not in tail:
            yield "short", "a shortage of buffers is not noted"
        if not any(x[0] in ("aside", "lost") for x in tail) and ("unknown", "token", "arg1.token") not in st:
            yield "aside", "an event that cannot be handled for want of buffers is not put aside"
    return check


def udp_check(p):
    def check(st, val, facts, c):
        if ("try_read", "failed") in st:
            short = is_(facts, "no_buffer_space")
            if short is None:
                yield "short", "it is not looked whether reading stopped for want of buffers"
            elif short:
                if ("set", "out_of_buffers", "1") not in st:
                    yield "short", "a shortage of buffers is not noted"
                if not any(x[0] == "aside" for x in st) and not retries_over(facts):
                    yield "aside", "an event that cannot be handled for want of buffers is not put aside"
        if not has(st, "no-message"):
            yield "deliver", "not all messages received are delivered"
        i = max((i for i, x in enumerate(st) if x[0] == "message"), default=None)
        if i is not None and ("deliver", "message") not in st[i:]:
            yield "deliver", "a received message is not delivered"
    return check


def retries_over(facts):
    """Is it known that the event was put aside more often than allowed?"""
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "bin" and v[0] == "c":
            a, b = flats(k[2]), flats(k[3])
            if "retries" in a and "max_connection_retry_attempts" in b:
                return {"Le": v[1] == 0, "Gt": v[1] == 1, "Lt": v[1] == 0, "Ge": v[1] == 1}.get(k[1], False)
            if "retries" in b and "max_connection_retry_attempts" in a:
                return {"Ge": v[1] == 0, "Lt": v[1] == 1, "Gt": v[1] == 0, "Le": v[1] == 1}.get(k[1], False)
    return None


def retry_check(st, val, facts, c):
    over = retries_over(facts)
    aside = [x for x in st if x[0] == "aside"]
    if over is None:
        yield "bound", "an event is put aside without regard to how often this was done before"
    elif not over:
        if aside != [("aside", "again:arg1")]:
            yield "aside", "an event that may be tried again is not put aside: %s" % show(st)
        if has(st, "lost"):
            yield "aside", "a connection is given up although its event may be tried again"
    else:
        if aside:
            yield "bound", "an event is put aside more often than allowed"
        if ("found", "token", "arg1.token") in st and not has(st, "lost"):
            yield "lost", "the event of a channel is dropped and the channel is kept"
        if not any(x[0] in ("found", "unknown") for x in st):
            yield "lost", "the event of a channel is dropped and the channel is kept"


def again_check(st, val, facts, c):
    v = resolve(c.sim, c.env, val)
    fs = dict(v[3]) if v[0] == "v" else {}
    for n in ("token", "readable", "writeable"):
        if flat(fs.get(n, ("c", None))) != "arg0." + n:
            yield "same", "an event that is tried again is not the one put aside: %s is %s" % (n, flat(fs.get(n, ("c", None))))
    r = flat(fs.get("retries", ("c", None)))
    if "arg0.retries" not in r or r == "arg0.retries":
        yield "count", "the number of retries is not counted: %s" % r


def accept_check(st, val, facts, c):
    n = [x for x in st if x[0] in ("accepted", "none-accepted")]
    if not n or n[-1][0] != "none-accepted":
        yield "accept", "accepting stops although more connections may be waiting"


# --- the event loop --------------------------------------------------------------------------

def turn(st, kn):
    polled = next((x for x in st if x[0] == "poll"), None)
    if polled is None:
        return
    failed = kn.get("discr(result:poll)") == ("c", 1)
    if failed:
        return
    h = next((i for i, x in enumerate(st) if x[0] == "iters" and any(y[0] == "handle_event" for y in (x[2] or ()))), len(st))
    if ("set", "out_of_buffers", "0") not in st[:h]:
        yield "reset", "a shortage of buffers is never over"
    if not has(st, "retries"):
        yield "retries", "events put aside are not tried again"
    yield from timeouts(st, kn)


def timeouts(st, kn):
    polled = next((x for x in st if x[0] == "poll"), None)
    if polled is None:
        return
    t, oob, emp = polled[1:4]
    if t == "None" and not (oob == ("c", 0) and emp == ("c", 1)):
        yield "sleep", "the thread waits without end although something is put aside"
    if t.startswith("Some(dur:0") and oob != ("c", 0):
        yield "busy", "the thread does not wait although it is short of buffers"


@prop("N07")
def n07(ctx):
    p = ctx.prog("net")
    m = lambda t, n: need(ctx, inherent(p, t, n), "%s::%s" % (t, n))
    for b in m("TcpChannel", "receive"):
        run_trace(ctx, p, "stream", b, Socket(p, stream_round, stream_end))
    for b in m("UdpState", "try_read"):
        run_trace(ctx, p, "datagram", b, Socket(p, datagram_round, datagram_end))
    for b in m("TcpChannel", "try_drain"):
        run_trace(ctx, p, "write", b, Frames(p, write_end, write_round))
    for b in m("UdpState", "try_write"):
        run_trace(ctx, p, "write", b, Packets(p, write_end, write_round))
    for b in m("NetworkThread", "read_tcp"):
        run_trace(ctx, p, "short", b, Short(p, read_check(p)))
    for b in m("NetworkThread", "read_udp"):
        run_trace(ctx, p, "short", b, Short(p, udp_check(p)))
    for b in m("NetworkThread", "retry_event"):
        run_trace(ctx, p, "retry", b, Short(p, retry_check))
    for b in m("EventWithRetries", "get_retry_event"):
        run_trace(ctx, p, "again", b, Short(p, again_check))
    for b in m("NetworkThread", "receive_stream"):
        run_trace(ctx, p, "accept", b, Short(p, accept_check, {"store_stream", "refuse_stream", "check_hard_connection_limit"}))
    loop(ctx, p, "loop", turn)
