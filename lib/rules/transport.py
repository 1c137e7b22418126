"""N01-N07: the network thread, its channels and the bridge to it."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.ports import inherent, traitfn, need
from rules.wire import in_log, fn_in
from rules.netdispatch import ok, err, some, NONE, level, settled, handlers, show, bridge_gone
from rules.dispatch import fact
from lin import lin, facts_of, proves

NT = "network/src/transport/network_thread.rs"
NC = "network/src/transport/network_channel.rs"
NU = "network/src/transport/udp_state.rs"
NM = "network/src/transport/mod.rs"
HELPERS = {"drop_channel", "lost_connection", "deregister_channel", "reject_outbound_for_channel", "check_soft_connection_limit", "close_connection", "store_stream", "retry_event"}
MAPS = ("token_map", "address_map")
OPAQUE = {"send_frame", "send_bye", "try_drain", "handle_data_frame", "deliver_net_message", "read_frame", "try_read", "try_write", "serialise_dispatch_data"}


class Net(Trace):
    """Paths of the network thread. Channels are named by the key they were found under."""
    inline_depth = 14
    vcap = 24

    def __init__(self, p, check, opaque=OPAQUE | HELPERS, extra=None, **k):
        self.p = p
        self.opaque = set(opaque)
        self.extra = extra
        Trace.__init__(self, p, self.event, check, inline=self.within, keep=lambda s: True, on_write=self.written, on_drop=None, **k)

    def within(self, c, b):
        if b.kind == "Closure":
            return b.file.startswith("network/src/transport/") or "network/src/transport" in b.file
        return b.file.endswith((NT, NC, NU)) and b.name not in self.opaque

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)

    def add(self, st, item):
        if item == ("log",) and item in st:
            return st
        if item and item[0] == "frame":
            # rounds of a read loop: the last one and the one before it are kept
            i = max((i for i, x in enumerate(st) if x[0] == "frame"), default=-1)
            return tuple(x for x in st[:i + 1] if x[:2] in (("found", "token"), ("set", "address"))) + st[i + 1:] + (item,)
        if item and item[0] in ("accepted", "none-accepted"):
            i = max((i for i, x in enumerate(st) if x[0] == "accepted"), default=-1)
            return st[max(i, 0):] + (item,)
        return Trace.add(self, st, item)

    def written(self, c, key, val):
        if key[-1] == ("f", "state") and len(key) >= 2:
            v = resolve(c.sim, c.env, val)
            return ("state", flatkey(key[:-1]), flat(v))
        if key[-1] in (("f", "stopped"), ("f", "out_of_buffers"), ("f", "partially_sent"), ("f", "address"), ("f", "udp_state")):
            return ("set", key[-1][1], flat(resolve(c.sim, c.env, val)))
        return None

    def havoc(self, c, name):
        """What a callee that is not followed may have changed is not known any more."""
        for k in list(c.env):
            if k[0] == "φ":
                t = k[1]
                if isinstance(t, tuple) and t[0] == "discr" and flats(t[1]).startswith(name):
                    del c.env[k]
            elif isinstance(k[0], tuple) and len(k) > 1 and k[0][0] == "h" and flatkey(k).startswith(name):
                del c.env[k]

    def fresh(self, env, X):
        # channels are named by texts
        Trace.fresh(self, env, X)
        el = flats(("elem", X))
        for k in list(env):
            if k[0] == "φ" and el in flats(k[1]) or isinstance(k[0], tuple) and k[0][0] == "h" and el in flats(k[0][1]):
                del env[k]

    def forget(self, c, name):
        """What was known about an earlier result of the same call"""
        for k in list(c.env):
            if k[0] == "φ" and flats(k[1][1] if isinstance(k[1], tuple) and k[1][0] == "discr" else k[1]).startswith(name):
                del c.env[k]

    def which(self, c, v):
        w = c.sim.ident(c.env, v)
        for m in MAPS:
            if touches(w, m) or touches(v, m):
                return m
        return None

    def event(self, c):
        f = c.fn
        if in_log(c):
            return E("log") if level(c) in ("warn", "error", "crit") else E()
        if f is None or not f.name:
            return None
        if self.extra:
            e = self.extra(c)
            if e is not None:
                return e
        n = f.name
        d = lambda i: deep(c.sim, c.env, c.args[i])
        own = f.krate in ("kompact", "kompact_net")
        st = self.cur_st
        if not own and c.args:
            m = self.which(c, c.args[0])
            short = m and m[:-4]
            if m and n in ("get", "get_mut", "peek", "peek_mut", "contains_key", "contains"):
                k = d(1)
                ch = ("y", ("chan", short, k))
                yes = E("found", short, k, ret=("c", 1) if n.startswith("contains") else some(ch))
                no = E("unknown", short, k, ret=("c", 0) if n.startswith("contains") else NONE)
                for x in reversed(st):
                    if x[0] == "found" and x[1:3] == (short, k):
                        return yes
                    if x[0] in ("unknown", "removed") and x[1:3] == (short, k):
                        return no
                yes.alts = [no]
                return yes
            if m and n in ("pop", "remove", "pop_entry", "remove_entry"):
                k = d(1)
                self.forget(c, "out:%s:%s" % (short, k))
                return E("removed", short, k, ret=("y", ("out", short, k)))
            if m and n in ("put", "insert", "push"):
                return E("put", short, d(1), d(2), ret=("y", ("old", short)))
            if m and n == "extend" and len(c.args) == 2:
                v = c.sim.load_through(c.env, c.args[1])
                if v[0] == "v" and v[2] == "None":
                    return E(ret=("v", "()", "", ()))
                t = v[3][0][1] if v[0] == "v" and v[2] == "Some" and v[3] else None
                if t is not None and t[0] == "v" and len(t[3]) == 2:
                    return E("put", short, *[deep(c.sim, c.env, x) for _, x in t[3]], ret=("v", "()", "", ()))
            if m and n in ("pop_lru",):
                return E("popped", short, ret=some(("v", "tuple", None, (("0", ("y", ("lru-token",))), ("1", ("y", ("chan", short, "lru")))))), alts=[E("emptied", short, ret=NONE)])
            if m and n in ("clear",):
                return E("emptied", short)
            if m and n == "len":
                return E(ret=("y", ("len", short)))
            if m and n == "drain":
                return E("emptied", short, ret=("y", ("iter", ("all", short), "drain")))
            if n in ("register", "reregister", "deregister") and "Registry" in f.path:
                return E(n, d(1), ret=("y", ("result", n)))
            if n in ("borrow", "borrow_mut", "deref", "deref_mut", "as_ref", "as_mut", "clone") and len(c.args) == 1:
                return E(ret=objval(c.sim, c.env, c.args[0]))
            if n in ("try_borrow", "try_borrow_mut"):
                v = objval(c.sim, c.env, c.args[0])
                return E(ret=ok(v), alts=[E("busy", flat(v), ret=err(("y", ("borrow-error",))))])
            if n == "accept":
                return E("accepted", ret=ok(("v", "tuple", None, (("0", ("y", ("stream",))), ("1", ("y", ("peer",)))))), alts=[E("none-accepted", ret=err(("y", ("io-error",))))])
            if n == "connect" and "TcpStream" in f.path:
                return E("connect", d(0), ret=ok(("y", ("stream",))), alts=[E("connect", d(0), "failed", ret=err(("y", ("io-error",))))])
            if n == "shutdown" and ("TcpStream" in f.path or "net" in f.path):
                return E("shutdown", d(0), ret=("y", ("result", n)))
            if n == "take_error":
                return None
            if n == "set_nodelay":
                return E(ret=ok(("v", "()", "", ())))
            if n == "try_recv":
                return E("received", ret=ok(("y", ("request",))), alts=[E("inbox-empty", ret=err(("y", ("recv-error",))))])
            if n == "new" and "Rc" in f.path or n == "new" and "RefCell" in f.path or n == "new" and "Box" in f.path:
                return E(ret=c.sim.load_through(c.env, c.args[0]))
        if n == "ip" and len(c.args) == 1 and "SocketAddr" in f.path:
            return E(ret=("y", ("ip", objval(c.sim, c.env, c.args[0]))))
        if n == "with_socket" and len(c.args) == 2:
            return E(ret=("v", "SystemPath", "of", (("proto", c.args[0]), ("addr", c.sim.load_through(c.env, c.args[1])))))
        if n == "tell" and len(c.args) >= 2 and own:
            t = d(1)
            if t.startswith("Event(Network("):
                return E("notify", t[len("Event(Network("):-2])
            if t.startswith("Event(RejectedData("):
                return E("reject", t[len("Event(RejectedData("):-2])
            return E("tell", t)
        if n in ("socket_addr_is_blocked", "ip_addr_is_blocked") and own:
            return E("blocked", n, d(1), ret=("c", 1), alts=[E("unblocked", n, d(1), ret=("c", 0))])
        if n in ("get_buffer",) and own and "Encode" not in f.path:
            return E("buffer", ret=some(("y", ("buffer",))), alts=[E("no-buffer", ret=NONE)])
        if n == "return_buffer" and own:
            return E("returned", d(1))
        if n == "swap_buffer" and own and "DecodeBuffer" in f.path:
            return E("swap", d(0))
        if n == "new" and own and "BufferChunk" in f.path:
            return E(ret=("y", ("empty-chunk",)))
        if n == "new_unique":
            return E(ret=("y", ("new-session",)))
        if own and n == "read_frame":
            fr = ("y", ("frame",))
            self.havoc(c, d(0) + ".state")
            return E("frame", "some", d(0), ret=ok(some(fr)), alts=[E("frame", "none", d(0), ret=ok(NONE)), E("frame", "error", d(0), ret=err(("y", ("read-error",))))])
        if own and n in self.opaque:
            if n == "send_frame":
                return E("send", d(0), d(1))
            if n in ("send_bye",):
                return E("bye", d(0), ret=("y", ("result", n)))
            if n == "try_drain":
                return E("drain", d(0), ret=ok(("y", ("sent",))), alts=[E("drain", d(0), "failed", ret=err(("y", ("io-error",))))])
            return E(n, *[d(i) for i in range(1, len(c.args))])
        if n == "complete" and own:
            return E("complete", d(0), ret=("y", ("result", n)))
        return None


class Limits(Net):
    """Connection limits: what is known about the number of channels when one is stored, refused or closed."""

    def __init__(self, p, check, opaque=OPAQUE | HELPERS, **k):
        k.setdefault("on_iter", lambda X, op, it, tr: (tr.level(tr.env, X),) + tuple(it))
        Net.__init__(self, p, check, opaque=opaque, extra=self.more, **k)

    def level(self, env, X):
        """What this round knows about the channel it looks at: 'connected', 'other', 'busy' or '?'"""
        el = flats(("elem", X))
        if any(x[0] == "busy" and x[1].startswith(el) for x in self.turn(X)):
            return "busy"
        for k, v in env.items():
            if k[0] == "φ" and isinstance(k[1], tuple) and k[1][0] == "discr" and el in flats(k[1][1]) and flats(k[1][1]).endswith(".state"):
                ds = {x["name"]: x["discr"] for x in adt_named(self.p, "ChannelState")["variants"]}
                return "connected" if v == ("c", ds["Connected"]) else "other" if v[0] == "c" or ds["Connected"] in v[1] else "?"
        return "?"

    def turn(self, X):
        st = self.closing
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == X:
                return st[j + 1:]
        return ()

    closing = ()

    def close(self, st, X):
        self.closing = st
        return Net.close(self, st, X)

    def each_stop(self, st, note, v, env):
        n = last_seg(note[3])
        if n == "find" and v == ("c", 1):
            return some(("y", ("elem", note[1])))
        if n == "find_map" and v[0] == "v" and v[2] == "Some":
            return v
        return None

    def each_value(self, st, path):
        n = last_seg(path or "")
        return ("y", ("iter", ("kept",), "iter")) if n == "filter" else NONE if n in ("find", "find_map") else None

    def each_end(self, st, note, v, env):
        n = last_seg(note[3])
        if n == "filter":
            w = self.sim.load_through(env, v)
            if w[0] == "y":
                w = env.get(("φ", w[1]), w)
            st = st + (("keep",) if w == ("c", 1) else ("skip",) if w == ("c", 0) else ("unsure",),)
        return Net.each_end(self, st, note, v, env)

    def done(self, st, X, name):
        if name in ("find", "find_map") and X[2] != "part" and ("end", X) not in st:
            return st + (("end", X),)
        return Net.done(self, st, X, name)

    def each_none(self, st, c):
        self.env = c.env
        return self.done(st, self.each_sym(c), c.fn.name) if c.fn is not None and c.fn.name in ("find", "find_map") else Net.each_none(self, st, c)

    def arith(self, op, a, b):
        """A count of the rounds of a loop over the channels."""
        if op != "Add" or b != ("c", 1):
            return None
        o = next((x for x in reversed(self.cur_st) if x[0] == "["), None)
        if o is None or not touches(o[1], "token_map") or not (a == ("c", 0) or a[0] == "y" and a[1][0] in ("count", "miscount")):
            return None
        self.closing = self.cur_st
        lv = self.level(self.cur_op[0], o[1])
        if a != ("c", 0) and a[1][0] == "miscount" or lv not in ("connected", "busy"):
            return ("y", ("miscount",))
        return ("y", ("count", ("iter", ("kept",), "iter")))

    def len_facts(self, c):
        fs = {k[1]: v for k, v in c.env.items() if k[0] == "φ"}
        return facts_of(c.sim, c.env, fs, self.cur_st)

    def room(self, c):
        cons = self.len_facts(c)
        g = {("len", "token"): -1, ("hard",): 1, 1: -1}
        g = {a if a == 1 else flats(a): n for a, n in g.items()}
        if proves(cons, g):
            return "room"
        return "full" if proves(cons, {a: -n if a != 1 else 0 for a, n in g.items()}) else "unknown"

    def moved(self, c):
        for k in [k for k in c.env if k[0] == "φ" and has_site(k[1], ("len", "token"))]:
            del c.env[k]

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        if own and n == "get_hard_connection_limit":
            return E(ret=("y", ("hard",)))
        if own and n == "get_soft_connection_limit":
            return E(ret=("y", ("soft",)))
        if own and n == "store_stream":
            r = self.room(c)
            self.moved(c)
            return E("store_stream", r, *[deep(c.sim, c.env, x) for x in c.args[1:]])
        if own and n == "tell" and len(c.args) >= 2 and "HardConnectionLimitReached" in deep(c.sim, c.env, c.args[1]):
            return E("limit-hit", self.room(c))
        if own and n in ("drop_channel", "deregister_channel", "lost_connection") or not own and n in ("put", "pop", "push", "accept") and c.args:
            self.moved(c)
        if not own and n in ("peek", "peek_mut", "contains") and c.args and self.which(c, c.args[0]) == "token_map":
            ch = ("y", ("chan", "token", deep(c.sim, c.env, c.args[1])))
            return E("peeked", ret=("c", 1) if n == "contains" else some(ch), alts=[E(ret=("c", 0) if n == "contains" else NONE)])
        if not own and n == "push_back" and len(c.args) == 2 and touches(c.sim.ident(c.env, c.args[0]), "outbound_queue"):
            return E("queued", deep(c.sim, c.env, c.args[0])[:-len(".outbound_queue")])
        if n == "count" and c.args and self.iter_sym(c, c.args[0]) is not None:
            return E(ret=("y", ("count", self.iter_sym(c, c.args[0]))))
        if n == "rev" and c.args and self.iter_sym(c, c.args[0]) is not None:
            it = self.iter_sym(c, c.args[0])
            return E(ret=("y", ("iter", ("rev", it[1]), it[2])))
        return None


COUNT = "count:each(kept)"


def hard_check(st, val, facts, c):
    for x in st:
        if x[0] == "store_stream" and x[1] != "room":
            yield "hard", "a channel is stored although the number of connections is not known to be below the hard limit"
        if x[0] == "limit-hit" and x[1] != "full":
            yield "report", "the hard limit is reported reached although it is not known to be"
    if count(st, "store_stream") and has(st, "limit-hit"):
        yield "hard", "a channel is stored although the hard limit was found to be reached"


def request_stream_check(p):
    def check(st, val, facts, c):
        yield from hard_check(st, val, facts, c)
        kn = settled(p, facts)
        if has(st, "store_stream") or has(st, "limit-hit") or has(st, "no-buffer") or any(x[0] == "connect" and len(x) > 2 for x in st):
            return
        if kn.get("chan:address:arg1.state") not in ("Connected", "Closed"):
            yield "refuse", "a request to connect is ignored without a reason: %s" % show(st)
    return check


def soft_check(rule):
    def check(st, val, facts, c):
        rule.cur_st = st
        cons = facts_of(c.sim, c.env, facts, st)
        over = proves(cons, {COUNT: 1, "soft": -1, 1: -1}) or proves(cons, {"soft": -1, 1: -1})
        within = proves(cons, {"soft": 1, COUNT: -1}) or proves(cons, {"soft": 1, "len(token)": -1})
        turns = [(X, it[0], it[1:]) for t, X, it in (x for x in st if x[0] == "iters") if touches(X, "token_map")]
        if not within and not any(lv != "other" for X, lv, it in turns if not isinstance(X[1], tuple) or X[1][0] != "rev"):
            within = any(isinstance(k, tuple) and k[0] == "bin" and ("c", 0) in k[2:4] and "soft" in flats(k) for k in facts)
        gone = [x for x in st if x[0] in ("close_connection", "drop_channel", "lost_connection")] + [x for X, lv, it in turns for x in it if x[0] in ("close_connection", "drop_channel", "lost_connection")]
        for X, lv, it in turns:
            rev = isinstance(X[1], tuple) and X[1][0] == "rev"
            el = flats(("elem", X))
            mine = [x for x in gone if any(isinstance(y, str) and y.startswith(el) for y in x[1:])]
            if ("unsure",) in it or ("keep",) in it and lv not in ("connected", "busy") or ("skip",) in it and lv not in ("other",):
                yield "count", "connected channels are not counted exactly (%s %s)" % (lv, it)
            if ("keep",) in it or ("skip",) in it:
                continue
            if mine and not rev:
                yield "order", "the channel that is closed is not the least recently used one"
            if rev and lv == "connected" and not mine:
                yield "order", "a connected channel that was used less recently is passed over"
        for x in gone:
            if x[0] != "close_connection":
                yield "graceful", "a channel over the soft limit is not closed gracefully but %s" % x[0]
            if not any(x[1] == flats(("elem", X)) + ".1.address" and lv == "connected" for X, lv, it in turns if isinstance(X[1], tuple) and X[1][0] == "rev"):
                yield "which", "the channel %s is closed, which is not known to be connected and least recently used" % x[1]
        told = sum(1 for x in st if x == ("notify", "SoftConnectionLimitExceeded")) + sum(1 for X, lv, it in turns for x in it if x == ("notify", "SoftConnectionLimitExceeded"))
        if gone and not over:
            yield "limit", "a channel is closed although the number of connected channels is not known to exceed the soft limit"
        if len(gone) > 1:
            yield "more", "more than one channel is closed"
        if not gone and not within and not any(x[0] == "end" and "rev" in flats(x[1]) for x in st):
            yield "limit", "no channel is closed although the soft limit may be exceeded: %s" % show(st)
        if bool(told) != bool(gone):
            yield "report", "the dispatcher is %stold that the soft limit is exceeded" % ("" if told else "not ")
    return check


def close_check(p):
    def check(st, val, facts, c):
        k = "chan:address:arg1"
        v = settled(p, facts).get(k + ".state")
        if ("found", "address", "arg1") not in st:
            return
        gone = has(st, "drop_channel") or has(st, "lost_connection") or has(st, "shutdown")
        if v == "Connected":
            if gone:
                yield "graceful", "a connected channel is dropped instead of being closed gracefully"
            if not any(x[0] == "state" and x[1] == k and x[2].startswith("CloseRequested(") for x in st) or not any(x[0] == "bye" and x[1] == k for x in st):
                yield "graceful", "closing a connected channel does not begin with a Bye"
        elif not gone:
            yield "close", "a channel that is not connected is not dropped when it is to be closed"
    return check


def established_check(st, val, facts, c):
    for i, x in enumerate(st):
        if x[0] == "state" and x[2].startswith("Connected(") and not any(y[0] == "check_soft_connection_limit" for y in st[i:]):
            yield "after", "a channel becomes connected without the soft limit being checked"


def used_check(st, val, facts, c):
    for x in st:
        if x[0] in ("queued", "drain", "frame") and not any(y[0] in ("found", "unknown") and y[1] == "token" for y in st):
            yield "used", "a channel is used (%s) without becoming the most recently used one" % x[0]
            return


def capacity(p, ctx, b):
    """The token table holds as many channels as the hard limit allows: a smaller one would forget channels in use."""
    def ev(c):
        f = c.fn
        if f is None:
            return None
        own = f.krate in ("kompact", "kompact_net")
        if own:
            return E(ret=("y", ("hard",))) if f.name == "get_hard_connection_limit" else None
        if "LruCache" in f.path and f.name in ("new", "with_hasher"):
            return E("cache", deep(c.sim, c.env, c.args[0]))
        if "LruCache" in f.path and f.name.startswith("unbounded"):
            return E("cache", "unbounded")
        if "NonZero" in f.path and f.name in ("new", "try_from") and c.args:
            return E(ret=some(c.sim.load_through(c.env, c.args[0])), alts=[E("zero", ret=NONE)])
        if "NonZero" in f.path and f.name in ("new_unchecked", "get") and c.args:
            return E(ret=c.sim.load_through(c.env, c.args[0]))
        return None

    def check(st, val, facts, c):
        for x in st:
            if x[0] == "cache" and x[1] not in ("unbounded", "hard") and not (has(st, "zero") and "MIN" in x[1] or has(st, "zero") and x[1] == "1"):
                yield "capacity", "the table of channels is created with capacity %s instead of the hard limit" % x[1]
        if not has(st, "cache"):
            yield "capacity", "no table of channels is created"
    run_trace(ctx, p, "hard", b, Trace(p, ev, check, inline=lambda c, b: b.file.endswith(NT)))


@prop("N05")
def n05(ctx):
    p = ctx.prog("net")
    nt = lambda n: need(ctx, inherent(p, "NetworkThread", n), "NetworkThread::" + n)
    for b in nt("request_stream"):
        run_trace(ctx, p, "hard", b, Limits(p, request_stream_check(p)))
    for b in nt("receive_stream"):
        run_trace(ctx, p, "hard", b, Limits(p, hard_check))
    for b in nt("check_soft_connection_limit"):
        r = Limits(p, None, OPAQUE | HELPERS - {"check_soft_connection_limit"})
        r.check = soft_check(r)
        run_trace(ctx, p, "soft", b, r)
    for b in nt("close_connection"):
        run_trace(ctx, p, "graceful", b, Limits(p, close_check(p), OPAQUE | HELPERS - {"close_connection"}))
    for b in need(ctx, inherent(p, "NetworkThreadBuilder", "build"), "NetworkThreadBuilder::build"):
        capacity(p, ctx, b)
    for n in ("read_tcp", "handle_start"):
        for b in nt(n):
            run_trace(ctx, p, "after", b, Limits(p, established_check))
    for n in ("read_tcp", "write_tcp", "send_tcp_message"):
        for b in nt(n):
            run_trace(ctx, p, "used", b, Limits(p, used_check))


class Cleanup(Net):
    """What a path takes away from a channel, and what it tells about it."""

    def __init__(self, p, check, opaque=OPAQUE | {"check_soft_connection_limit", "store_stream"}, **k):
        k.setdefault("on_iter", None)
        Net.__init__(self, p, check, opaque=opaque, extra=self.more, **k)

    def level(self, env, X):
        """The state of the channel this round looks at"""
        el = flats(("elem", X))
        for k, v in env.items():
            if k[0] == "φ" and isinstance(k[1], tuple) and k[1][0] == "discr" and el in flats(k[1][1]) and flats(k[1][1]).endswith(".state"):
                ds = {x["discr"]: x["name"] for x in adt_named(self.p, "ChannelState")["variants"]}
                con = [d for d in ds if ds[d] == "Connected"][0]
                return ds.get(v[1]) if v[0] == "c" else "other" if con in v[1] else "?"
        return "?"

    def close(self, st, X):
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == X:
                return tuple(x for x in st[:j] if x[:2] != ("iters", X)) + (("iters", X, (("of", self.level(self.env, X)),) + tuple(st[j + 1:])),)
        return st

    def written(self, c, key, val):
        if key[-1] == ("f", "token") and len(key) >= 2 and key[0] == ("h", ("arg", 0, "self")):
            return ("set", "token", flat(resolve(c.sim, c.env, val)))
        return Net.written(self, c, key, val)

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if not own and n in ("is_empty", "len") and c.args:
            q = deep(c.sim, c.env, c.args[0])
            if q.endswith(".outbound_queue"):
                return E(ret=("y", ("left:" + n, q[:-len(".outbound_queue")])))
        if not own and n == "drain" and c.args and self.which(c, c.args[0]):
            m = self.which(c, c.args[0])[:-4]
            again = ("emptied", m) in self.cur_st
            return E("emptied", m, ret=("y", ("iter", ("none" if again else "all", m), "drain")))
        if own and n == "take_outbound":
            return E("take", d(0), ret=("y", ("iter", ("outbound", d(0)), "into_iter")))
        if own and n == "swap_buffer" and len(c.args) == 2 and c.args[1][0] == "r":
            return E("swap", d(0), writes=((c.args[1][1], ("y", ("old-buffer", d(0)))),))
        return None


def given_up(items, K):
    """What a list of items does to channel K"""
    keys = {"token": {K + ".token"}, "address": {K + ".address"}}
    for m in keys:
        if K.startswith("chan:%s:" % m):
            keys[m].add(K[len("chan:%s:" % m):])
    keys["address"] |= {x[2] for x in items if x[:2] == ("set", "address")}
    T = [i for i, x in enumerate(items) if x[0] == "removed" and x[1] == "token" and x[2] in keys["token"]]
    A = [i for i, x in enumerate(items) if x[0] == "removed" and x[1] == "address" and x[2] in keys["address"]]
    A = [i for i in A if not any(x[0] == "put" and x[1] == "address" and x[3].startswith("out:address:" + items[i][2]) for x in items[i:])]
    D = [i for i, x in enumerate(items) if x == ("deregister", K + ".stream")]
    S = [i for i, x in enumerate(items) if x == ("shutdown", K + ".stream")]
    W = [i for i, x in enumerate(items) if x == ("swap", K)]
    B = [i for i, x in enumerate(items) if x == ("returned", "old-buffer:" + K)]
    return T, A, D, S, W, B


def lists_of(st):
    """The items of a path outside and inside each of its loops"""
    yield st
    for x in st:
        if x[0] == "iters" and isinstance(x[2], tuple):
            yield from lists_of(x[2])


def rejected(items, K):
    if ("take", K) not in items:
        return "its unsent frames are not handed back"
    X = next((x[1] for x in items if x[0] in ("end", "iters") and x[1][1] == ("outbound", K)), None)
    if X is None or not any(x[0] == "end" and x[1] == X for x in items):
        return "not all of its unsent frames are handed back"
    for x in items:
        if x[0] == "iters" and x[1] == X and not any(y[0] == "reject" and "elem(each(outbound" in y[1] for y in x[2]):
            return "an unsent frame is not handed back"
    return None


def called(facts, name, value):
    return any(isinstance(k, tuple) and k[0] == "call" and last_seg(str(k[2])) == name and v == ("c", value) for k, v in facts.items())


# reports that a connection is gone
ENDED = tuple(n + "(of(Tcp," for n in ("ConnectionLost", "ConnectionClosed", "ConnectionDropped", "BlockedSystem"))


def cleanup_check(p, root):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        told = [x[1] for x in st if x[0] == "notify"]
        for items in lists_of(st):
            ks = {x[1] for x in items if x[0] in ("swap", "take", "frame") and len(x) > 1} | {x[1][:-7] for x in items if x[0] == "deregister" and x[1].endswith(".stream")}
            ks |= {x[2][:-len("." + x[1])] for x in items if x[0] == "removed" and x[2].endswith("." + x[1])} | {"chan:%s:%s" % (x[1], x[2]) for x in items if x[0] == "found"}
            ks = {k for k in ks if k not in ("some", "none", "error")}
            for K in sorted(ks):
                T, A, D, S, W, B = given_up(items, K)
                if A and kn.get("out:address:" + items[A[-1]][2]) == "None":
                    A = []
                if K.startswith(("elem(each(all:", "elem(each(none:")):
                    continue    # the tables themselves are going away
                if bool(T) != bool(D):
                    yield "deregister", "channel %s is %s" % (K, "taken out of the token table without being deregistered" if T else "deregistered without being taken out of the token table")
                if A and not (T and S and B):
                    yield "release", "channel %s is forgotten without %s" % (K, "being taken out of the token table" if not T else "its socket being shut down" if not S else "its receive buffer going back to the pool")
                if len(W) > len(B) and W:
                    yield "buffer", "the receive buffer taken from channel %s does not go back to the pool" % K
                if B and not A:
                    yield "buffer", "the receive buffer of channel %s goes back to the pool although the channel stays" % K
                if B and any(x[0] in ("frame", "queued", "send", "drain", "bye") and len(x) > 1 and K in x[1:3] for x in items[B[-1]:]):
                    yield "after", "channel %s is used after it was dropped" % K
                if T and not A:
                    mine = [t for t in told if t.startswith(("ConnectionLost(of(Tcp,", "ConnectionClosed(of(Tcp,"))]
                    ids = [t for t in mine if any((K + ".state.%s.1)" % s) in t for s in ("Connected", "Requested", "Initialised", "CloseRequested", "CloseReceived", "Closed")) or any(x[:2] == ("state", K) and t.endswith(x[2][x[2].rfind(","):]) for x in st)]
                    if not ids:
                        yield "report", "channel %s is given up without telling the dispatcher: %s" % (K, told)
                    r = rejected(items, K)
                    if r:
                        yield "unsent", "channel %s is given up and %s" % (K, r)
                s = items[0][1] if items and items[0][0] == "of" and len(items[0]) == 2 else kn.get(K + ".state")
                if A and s == "Connected" and kn.get("frame") != "Bye" and not any(t.startswith(ENDED) for t in told + [x[1] for x in items if x[0] == "notify"]):
                    yield "report", "connected channel %s is dropped without telling the dispatcher" % K
                for x in items:
                    if x[0] == "put" and x[1] == "address" and ("found", "address", x[2]) in items and K == "chan:address:" + x[2] and not A and items.index(("found", "address", x[2])) < items.index(x):
                        yield "replace", "channel %s is replaced in the address table without being dropped" % K
        for x in st:
            if x[0] == "state" and x[2].startswith("Closed(") and kn.get(x[1] + ".state") == "CloseReceived" and not sent_all(facts, x[1]):
                yield "early", "channel %s is closed while its Bye may still wait to be sent" % x[1]
        lost = called(facts, "connection_reset", 1) and root == "read_tcp" or called(facts, "broken_pipe", 1) and root == "write_tcp"
        if lost and not any(x[0] == "removed" and x[1] == "token" for x in st):
            yield "lost", "the channel stays although its connection is lost"
    return check


def sent_all(facts, K):
    """Is it known that nothing is left in the outgoing queue of the channel?"""
    for k, v in facts.items():
        t = flats(k)
        if t == "left:is_empty:" + K and v == ("c", 1) or t == "left:len:" + K and v == ("c", 0):
            return True
        if isinstance(k, tuple) and k[0] == "bin" and "left:len:" + K in t and ("c", 0) in k[2:4] and v[0] == "c" and (k[1], v[1]) in (("Eq", 1), ("Ne", 0), ("Gt", 0), ("Lt", 0)):
            return True
    return False


def closed_ack_check(p):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        if kn.get("arg1") != "ClosedAck":
            return
        K = "chan:address:arg1.ClosedAck.0"
        if ("found", "address", "arg1.ClosedAck.0") in st:
            A = given_up(st, K)[1]
            if kn.get(K + ".state") == "Connected":
                if A:
                    yield "ack", "a connected channel is dropped"
            elif not A:
                yield "ack", "a closed channel is kept although the dispatcher is done with it"
        elif ("unknown", "address", "arg1.ClosedAck.0") not in st:
            yield "ack", "the channel that the dispatcher is done with is not looked for"
    return check


def stop_check(kill):
    def check(st, val, facts, c):
        all_ = [x for x in st if x[0] in ("iters", "end") and "all:address" in flats(x[1])]
        if not any(x[0] == "end" for x in all_):
            yield "all", "not every channel is closed"
        for x in all_:
            if x[0] == "iters":
                el = flats(("elem", x[1])) + ".1"
                if kill and not any(y == ("shutdown", el + ".stream") for y in x[2]):
                    yield "all", "a channel is not shut down"
                if not kill:
                    if not any(y[0] == "removed" and y[1] == "token" and y[2] == el + ".token" for y in x[2]):
                        yield "all", "a channel stays in the token table"
                    if x[2][0][1] not in ("other",) and not any(y[0] == "bye" and y[1] == el for y in x[2]) and x[2][0][1] in ("Connected", "?"):
                        yield "all", "a connected channel is not closed with a Bye"
        if ("deregister", "arg0.tcp_listener") not in st:
            yield "listener", "the listener is not deregistered"
        if ("set", "stopped", "1") not in st:
            yield "stopped", "the thread does not stop"
    return check


def store_check(st, val, facts, c):
    puts = [x for x in st if x[0] == "put"]
    if sorted(x[1] for x in puts) != ["address", "token"] or len({x[3] for x in puts}) != 1:
        yield "store", "a new channel is not put into both tables: %s" % [x[:3] for x in puts]
    if not has(st, "register"):
        yield "store", "a new channel is not registered for polling"
    for x in puts:
        if x[1] == "token":
            if x[2] != "arg0.token" or "arg0.token" not in x[3]:
                yield "token", "the channel is stored under token %s" % x[2]
            if not any(y[0] == "set" and y[1] == "token" and "arg0.token" in y[2] and "Add" in y[2] for y in st):
                yield "token", "the next channel gets the same token"
        if x[1] == "address" and x[2] != "arg2":
            yield "store", "the channel is stored under address %s" % x[2]


def fall_check(st, val, facts, c):
    if any(isinstance(k, tuple) and flats(k) == "arg0.stopped" and v == ("c", 1) for k, v in facts.items()):
        return
    if not any(x[:2] == ("emptied", "token") for x in st):
        yield "fall", "a thread that was not stopped goes away without dropping its channels"
    K = "chan:token:lru"
    if ("popped", "token") in st:
        T, A, D, S, W, B = given_up(st, K)
        if not (S and B):
            yield "fall", "a channel that is left goes away without %s" % ("its socket being shut down" if not S else "its receive buffer going back to the pool")


def answers(st):
    return [x for items in lists_of(st) for x in items if x[0] == "complete" and "shutdown_promise" in x[1]]


def ended_check(st, val, facts, c):
    kn = {flats(k): v for k, v in facts.items()}
    if kn.get("flag:stopped", kn.get("arg0.stopped")) != ("c", 1):
        yield "ended", "the thread ends although it was not stopped"
    n = len(answers(st))
    if n != 1 and not (n == 0 and kn.get("discr(arg0.shutdown_promise)") == ("c", 0)):
        yield "answer", "the request to stop is answered %d times when the thread ends" % n


def turn_check(st, kn):
    if kn.get("discr(result:poll)") == ("c", 1):
        return
    if answers(st):
        yield "answer", "the request to stop is answered while the thread goes on"
    if any(x[0] == "handle_event" for items in lists_of(st) for x in items) and kn.get("flag:stopped") != ("c", 0):
        yield "ended", "the thread goes on after it was stopped"


ENDS = {"pop", "remove", "clear", "drain", "retain", "pop_lru", "remove_entry", "pop_entry", "split_off", "extract_if"}


@prop("N03")
def n03(ctx):
    p = ctx.prog("net")
    nt = lambda n: need(ctx, inherent(p, "NetworkThread", n), "NetworkThread::" + n)
    for n in ("read_tcp", "write_tcp", "handle_dispatch_event", "retry_event", "receive_stream"):
        for b in nt(n):
            run_trace(ctx, p, "drop", b, Cleanup(p, cleanup_check(p, n)), max_states=200000)
    for b in nt("handle_dispatch_event"):
        run_trace(ctx, p, "ack", b, Cleanup(p, closed_ack_check(p)), max_states=200000)
    for n in ("stop", "kill"):
        for b in nt(n):
            run_trace(ctx, p, "stop", b, Cleanup(p, stop_check(n == "kill")))
    for b in nt("store_stream"):
        run_trace(ctx, p, "store", b, Cleanup(p, store_check))
    for b in need(ctx, traitfn(p, "Drop", "drop", "NetworkThread"), "NetworkThread::drop"):
        run_trace(ctx, p, "fall", b, Cleanup(p, fall_check))
    for b in need(ctx, inherent(p, "TcpChannel", "read_frame"), "TcpChannel::read_frame"):
        from rules.handshake import States, bye_check
        run_trace(ctx, p, "bye", b, States(p, bye_check(p), opaque=OPAQUE - {"read_frame"} | HELPERS | {"receive", "has_frame", "get_frame", "swap_buffer"}))
    seen = set(ctx.funcs)
    n = []
    for b in p.bodies:
        if b.crate != "kompact_net":
            continue
        if not b.file.endswith(NT) or "::tests::" in b.id:
            continue
        if any(f is not None and f.name in ENDS and ("LruCache" in f.path or "HashMap" in f.path) for _, f, *_ in p.calls(b)):
            n.append(b)
            ctx.ob("tables", b.h in seen, "tables:" + bkey(b), "entries of the channel tables are removed on a path that is not analysed", where(b))
    ctx.anchor("functions that remove entries of the channel tables", n, 2)
    from rules.bridge import loop
    loop(ctx, p, "shutdown", turn_check, ended_check)
