"""N04: which peers are blocked, and what blocking and allowing them does."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.ports import inherent, traitfn, need
from rules.wire import in_log
from rules.netdispatch import ok, err, some, NONE, level, settled, show
from rules.transport import NT, NM, Net, HELPERS, OPAQUE

SETS = {"ipv4_set": "v4", "ipv6_set": "v6", "blocked_socket_addr": "blocked", "allowed_socket_addr": "allowed"}


class Lists(Net):
    """The block list is modelled by its four sets: what is added, removed and asked for."""

    def __init__(self, p, check, opaque=OPAQUE | HELPERS, **k):
        k.setdefault("on_iter", lambda X, op, it, tr: tuple(it))
        Net.__init__(self, p, check, opaque=opaque, extra=self.more, **k)

    def add(self, st, item):
        return st if item is not None and item in st and item[0] in ("in", "out", "same-ip", "other-ip", "in-net", "off-net") else Net.add(self, st, item)

    def close(self, st, X):
        # every round is the last one on some path: earlier ones need not be kept
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == X:
                return tuple(x for x in st[:j] if x[:2] != ("iters", X)) + (("iters", X, tuple(st[j + 1:])),)
        return st

    # closures over the tables: what they select
    def each_stop(self, st, note, v, env):
        n = last_seg(note[3])
        if n == "any" and v == ("c", 1) or n == "all" and v == ("c", 0):
            return v
        return None

    def each_value(self, st, path):
        n = last_seg(path or "")
        return ("c", 0) if n == "any" else ("c", 1) if n == "all" else ("y", ("iter", ("kept",), "iter")) if n in ("filter", "filter_map") else None

    def each_end(self, st, note, v, env):
        if last_seg(note[3]) in ("filter", "filter_map"):
            w = self.sim.load_through(env, v)
            if w[0] == "y":
                w = env.get(("φ", w[1]), w)
            st = st + (("keep",) if w == ("c", 1) or w[0] == "v" and w[2] == "Some" else ("skip",) if w == ("c", 0) or w[0] == "v" and w[2] == "None" else ("unsure",),)
        return Net.each_end(self, st, note, v, env)

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if own and n in ("socket_addr_is_blocked", "ip_addr_is_blocked"):
            return E(inline=True)
        if own:
            return None
        if c.args:
            w = c.sim.ident(c.env, c.args[0])
            s = next((v for k, v in SETS.items() if touches(w, k) or touches(c.args[0], k)), None)
            if s:
                if n in ("add", "insert"):
                    return E("add", s, d(1), ret=("y", ("new", s, d(1))))
                if n in ("remove", "take", "shift_remove"):
                    return E("del", s, d(1), ret=("y", ("was", s, d(1))))
                if n in ("contains", "contains_key"):
                    return E("in", s, d(1), ret=("c", 1), alts=[E("out", s, d(1), ret=("c", 0))])
                if n in ("clear", "drain", "retain", "append"):
                    return E("wipe", s)
        if n in ("new", "with_capacity") and "Vec" in f.path:
            return E(ret=("y", ("kept", c.site)))
        if n == "push" and len(c.args) == 2 and "'kept'" in repr(c.sim.ident(c.env, c.args[0])):
            return E("keep")
        if n == "collect" and c.args and self.iter_sym(c, c.args[0]) is not None:
            return E(ret=("y", self.iter_sym(c, c.args[0])))
        if n in ("eq", "ne") and len(c.args) == 2 and any(d(i).startswith("ip:") for i in (0, 1)):
            t = 1 if n == "eq" else 0
            a, b = sorted((d(0), d(1)), key=lambda x: not x.startswith("ip:"))
            return E("same-ip", a[3:], b, ret=("c", t), alts=[E("other-ip", a[3:], b, ret=("c", 1 - t))])
        if n == "contains" and len(c.args) == 2 and d(1).startswith("ip:"):
            return E("in-net", d(1)[3:], d(0), ret=("c", 1), alts=[E("off-net", d(1)[3:], d(0), ret=("c", 0))])
        if n == "to_network" and c.args:
            return E(ret=("y", ("net", d(0))))
        if n in ("from", "into") and len(c.args) == 1 and "Net" in d(0):
            return E(ret=c.sim.load_through(c.env, c.args[0]))
        if n == "ip" and len(c.args) == 1 and "SocketAddr" in f.path:
            return E(ret=("y", ("ip", objval(c.sim, c.env, c.args[0]))))
        return None


def known(st, facts, s, x):
    """1 if x is known to have been in set s before, 0 if known not, else None"""
    for y in st:
        if y == ("in", s, x):
            return 1
        if y == ("out", s, x):
            return 0
    for k, v in facts.items():
        if isinstance(k, tuple) and v[0] == "c" and k[0] in ("new", "was") and k[1:] == (s, x):
            return 1 - v[1] if k[0] == "new" else v[1]
    return None


def is_blocked(st, a):
    """What the tests of a path say about socket address a: True, False or None"""
    got = {y[1]: y[0] == "in" for y in st if y[0] in ("in", "out") and (y[2] == a or y[2].startswith("net:ip:" + a))}
    if got.get("allowed"):
        return False
    if "allowed" not in got:
        return None
    if got.get("blocked") or got.get("v4") or got.get("v6"):
        return True
    if "blocked" in got and ("v4" in got or "v6" in got):
        return False
    return None


def changes(st):
    return sorted((x[0], x[1], x[2]) for x in st if x[0] in ("add", "del", "wipe"))


def expect_list(st, facts, op, kind, x):
    """The changes of the block list that a request must lead to, given what was already in it"""
    want, undo = ("blocked", "allowed") if op == "block" else ("allowed", "blocked")
    got = changes(st)
    if kind == "socket":
        need_ = {("add", want, x), ("del", undo, x)}
        may = need_
        done = {y for y in need_ if known(st, facts, y[1], x) == (1 if y[0] == "add" else 0)}
    else:
        v = next((f for f in ("V4", "V6") if ("%s.%s.0" % (x, f)) in repr(got) + repr(st)), None)
        if v is None:
            return "nothing is changed for %s" % x
        e = ("net:" if kind == "ip" else "") + "%s.%s.0" % (x, v)
        s = v.lower()
        need_ = {("add" if op == "block" else "del", s, e)}
        may = need_
        done = {y for y in need_ if known(st, {}, s, e) == (1 if op == "block" else 0)}
    left = need_ - set(got) - done
    extra = set(got) - may
    if left:
        return "%s leaves out %s" % (op, sorted(left))
    if extra:
        return "%s does more than asked: %s" % (op, sorted(extra))
    return None


REQ = {"BlockSocket": ("block", "socket", "BlockedSystem(of(Tcp,%s))"), "BlockIpAddr": ("block", "ip", "BlockedIp(%s)"), "BlockIpNet": ("block", "net", "BlockedIpNet(%s)"),
       "AllowSocket": ("allow", "socket", "AllowedSystem(of(Tcp,%s))"), "AllowIpAddr": ("allow", "ip", "AllowedIp(%s)"), "AllowIpNet": ("allow", "net", "AllowedIpNet(%s)")}
LISTM = {"block_socket_addr": ("block", "socket"), "allow_socket_addr": ("allow", "socket"), "block_ip_addr": ("block", "ip"), "allow_ip_addr": ("allow", "ip"), "block_ip_net": ("block", "net"), "allow_ip_net": ("allow", "net")}


def sweep(st, kind, x):
    """Dropping the channels to what was just blocked"""
    tables = [(X, it) for t, X, it in (y for y in st if y[0] == "iters") if touches(X, "address_map")]
    kept = [(X, it) for t, X, it in (y for y in st if y[0] == "iters") if "kept" in flats(X)]
    ends = [flats(y[1]) for y in st if y[0] == "end"]
    def drops(it, el, connected):
        return [y for y in it if y[0] == "drop_channel" and el in y[1]]
    for X, it in tables:
        el = flats(("elem", X))
        els = [y[1] for y in it if y[0] in ("same-ip", "other-ip", "in-net", "off-net")] + [y[2] for y in it if y[0] in ("in", "out") and y[1] == "allowed"]
        e = els[0] if els else el
        hit = any(y[0] in ("same-ip", "in-net") for y in it)
        miss = any(y[0] in ("other-ip", "off-net") for y in it)
        b = is_blocked(it, e)
        gone = [y for y in it if y[0] == "drop_channel"]
        keep = ("keep",) in it or bool(gone)
        if ("unsure",) in it:
            yield "select", "which channels are dropped does not follow from whether they are blocked"
        elif keep and b is not True:
            yield "select", "a channel is dropped although its peer is not known to be blocked: %s" % (it,)
        elif not keep and not miss and b is not False:
            yield "select", "a channel is kept although its peer was just blocked: %s" % (it,)
    for X, it in kept:
        for y in it:
            if y[0] == "found" and not any(z[0] == "drop_channel" and z[1] == "chan:%s:%s" % (y[1], y[2]) for z in it):
                yield "kept", "a channel to a peer that was just blocked is not dropped"
    if any(("keep",) in it for X, it in tables) and not any("kept" in e for e in ends):
        yield "kept", "not all channels to what was just blocked are dropped"
    if not tables and not any("kept" in e or "address_map" in e for e in ends):
        yield "kept", "the channels to what was just blocked are not looked for"


def request_check(p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        v = kn.get("arg1")
        if v == "Connect":
            x = "arg1.Connect.0"
            b = is_blocked(st, x)
            opened = [y for y in st if y[0] == "request_stream"]
            if opened and b is not False:
                yield "connect", "a connection is requested to a peer that is not known to be allowed"
            if not opened and b is not True:
                yield "refuse", "a connection to a peer that is not blocked is refused"
            return
        if v not in REQ:
            return
        op, kind, note = REQ[v]
        x = "arg1.%s.0" % v
        bad = expect_list(st, facts, op, kind, x)
        if bad:
            yield "list", bad
        told = [y[1] for y in st if y[0] == "notify"]
        told = [t for t in told if not t.startswith("ConnectionDropped")]
        same = kind == "socket" and known(st, facts, "blocked" if op == "block" else "allowed", x) == 1 and known(st, facts, "allowed" if op == "block" else "blocked", x) == 0
        if told != [note % x] and not (same and not told):
            yield "report", "the dispatcher is told %s after %s" % (told, v)
        drops = [y for y in st if y[0] == "drop_channel"]
        if op == "allow":
            if drops:
                yield "dropped", "allowing a peer drops a channel"
            return
        if kind == "socket":
            if ("found", "address", x) in st:
                if [y[1] for y in drops] != ["chan:address:" + x]:
                    yield "kept", "the channel to a peer that was just blocked is not dropped: %s" % drops
            elif drops:
                yield "dropped", "blocking a peer drops the channel %s" % drops
            elif ("unknown", "address", x) not in st and not same:
                yield "kept", "the channel to what was just blocked is not looked for"
        else:
            was = any(y[0] == "in" and y[2].startswith("net:" + x) for y in st)
            if not was:
                yield from sweep(st, kind, x)
    return check


def list_check(name):
    op, kind = LISTM[name]

    def check(st, val, facts, c):
        bad = expect_list(st, facts, op, kind, "arg1")
        if bad:
            yield "list", bad
        if kind == "net" or val is None:
            return
        v = val
        if v[0] == "y":
            v = facts.get(v[1], v)
        ch = changes(st)
        modified = None
        if kind == "socket":
            a, b = ("blocked", "allowed") if op == "block" else ("allowed", "blocked")
            k1, k2 = known(st, facts, a, "arg1"), known(st, facts, b, "arg1")
            modified = 1 if k1 == 0 or k2 == 1 else 0 if (k1, k2) == (1, 0) else None
            if v[0] == "y" and v[1][0] == "new" and k2 == 0:
                return
        else:
            modified = 1 if ch else 0
        if v[0] == "c" and modified is not None and v[1] != modified or v[0] == "y" and modified is not None:
            yield "result", "%s says %s although the rules were %schanged" % (name, flat(v), "" if modified else "not ")
    return check


def query_check(name):
    def check(st, val, facts, c):
        if changes(st):
            yield "changes", "asking whether an address is blocked changes the block list"
        v = val if val and val[0] == "c" else facts.get(val[1]) if val and val[0] == "y" else None
        if v is None and val and val[0] == "y" and val[1][0] == "not":
            w = facts.get(val[1][1])
            v = ("c", 1 - w[1]) if w else None
        if v is None or v[0] != "c":
            yield "answer", "whether an address is blocked does not follow from the lists (%s)" % flat(val)
            return
        if name == "socket_addr_is_blocked":
            b = is_blocked(st, "arg1")
        else:
            got = {y[1]: y[0] == "in" for y in st if y[0] in ("in", "out") and y[2].startswith("net:arg1")}
            b = None
            if got and not any(got.values()):
                b = False
            elif got:
                turns = [it for t, X, it in (y for y in st if y[0] == "iters") if touches(X, "allowed_socket_addr")]
                if any(y[0] == "same-ip" for it in turns for y in it):
                    b = False
                elif turns and all(any(y[0] == "other-ip" for y in it) for it in turns) or not turns:
                    b = True
        if b is None or v[1] != (1 if b else 0):
            yield "answer", "%s says %s where the lists say %s" % (name, bool(v[1]), b)
    return check


@prop("N04")
def n04(ctx):
    p = ctx.prog("net")
    for n in sorted(LISTM):
        for b in need(ctx, inherent(p, "BlockList", n), "BlockList::" + n):
            run_trace(ctx, p, "list", b, Lists(p, list_check(n)))
    for n in ("ip_addr_is_blocked", "socket_addr_is_blocked"):
        for b in need(ctx, inherent(p, "BlockList", n), "BlockList::" + n):
            run_trace(ctx, p, "query", b, Lists(p, query_check(n)))
    other = {"send_tcp_message", "send_udp_message", "stop", "kill", "handle_closed_ack", "request_stream"}
    for b in need(ctx, inherent(p, "NetworkThread", "handle_dispatch_event"), "NetworkThread::handle_dispatch_event"):
        run_trace(ctx, p, "request", b, Lists(p, request_check(p), OPAQUE | HELPERS | other))
    for b in need(ctx, inherent(p, "NetworkThread", "receive_stream"), "NetworkThread::receive_stream"):
        run_trace(ctx, p, "accept", b, Net(p, accept_check))
    for n, chan, msg in (("handle_hello", "arg1", "arg2.addr"), ("handle_start", "arg2", "arg3.addr")):
        for b in need(ctx, inherent(p, "NetworkThread", n), "NetworkThread::" + n):
            run_trace(ctx, p, "handshake", b, Net(p, shake_check(chan, msg)))


def accept_check(st, val, facts, c):
    stored = [x for x in st if x[0] == "store_stream"]
    refused = has(st, "shutdown")
    asked = [x for x in st if x[0] in ("blocked", "unblocked")]
    if not has(st, "accepted"):
        return
    if any(x[2] not in ("ip:peer", "peer") for x in asked):
        yield "accept", "whether a stream is accepted is made to depend on %s" % asked
    if stored:
        if any(x[0] == "blocked" for x in asked):
            yield "accept", "a connection from a blocked address is accepted"
        if not any(x[0] == "unblocked" for x in asked):
            yield "accept", "a connection is accepted without asking whether its peer is blocked"
    elif not any(x[0] == "blocked" for x in asked) and not has(st, "no-buffer") and not any(x[0] == "notify" and x[1] == "HardConnectionLimitReached" for x in st):
        yield "refuse", "a connection from an address that is not blocked is refused: %s" % show(st)
    if stored and refused:
        yield "accept", "a stream is shut down and used"


def shake_check(chan, addr):
    def check(st, val, facts, c):
        b = [x for x in st if x[0] in ("blocked", "unblocked") and x[1] == "socket_addr_is_blocked" and x[2] == addr]
        moved = [x for x in st if x[0] == "state" and x[1] == chan]
        gone = any(x[0] in ("drop_channel", "lost_connection") and x[1] == chan for x in st)
        if any(x[0] == "blocked" for x in b):
            if moved or has(st, "put"):
                yield "handshake", "the handshake goes on with a peer that is blocked"
            if not gone:
                yield "kept", "a channel is kept although its peer turned out to be blocked"
        elif moved and not b:
            yield "handshake", "the handshake goes on without asking whether the peer is blocked"
        for x in moved:
            if b and st.index(b[0]) > st.index(x):
                yield "handshake", "the handshake goes on before it is known whether the peer is blocked"
    return check
