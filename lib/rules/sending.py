"""N02: what happens to frames between the dispatcher and the socket."""
from kit import *
from trace import *
from rules import prop
from rules.ports import inherent, need
from rules.wire import in_log
from rules.netdispatch import ok, err, some, NONE, level, settled, show
from rules.transport import Net, NT, NC, NU, NM, OPAQUE, HELPERS
from lin import lin, facts_of, proves

HEAD = ("y", ("head",))
N = ("y", ("n",))
LEFT = ("y", ("left",))


class Queue(Net):
    """The outgoing queue of a channel, one frame at a time."""

    def __init__(self, p, check, rounds=None, opaque=(), **k):
        self.rounds = rounds
        Net.__init__(self, p, check, opaque=set(opaque), extra=self.more, **k)

    def mine(self, c, v):
        w = c.sim.ident(c.env, v)
        return touches(w, "outbound_queue") or touches(v, "outbound_queue")

    def head(self, c, v):
        return "head" in deep(c.sim, c.env, v)

    def inside(self, st):
        """Is the current frame at the front of the queue?"""
        r = None
        for x in st:
            r = {"pop": False, "peek": True, "back": True, "behind": r, "drained": None}.get(x[0], r)
        return r

    def more(self, c):
        f = c.fn
        n = f.name
        st = self.cur_st
        self.now = self.facts(c)
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if not own and c.args and self.mine(c, c.args[0]):
            front = self.inside(st)
            if n in ("pop_front", "pop_back", "front", "front_mut", "back", "back_mut"):
                if n == "pop_front" and front and not has(st, "back"):
                    # the frame that was looked at is taken out now
                    return E("done", ret=some(self.shape(HEAD)))
                if st and [x for x in st if x[0] in ("pop", "peek", "drained", "behind", "ahead", "back")][-1:] == [("drained",)]:
                    return E(ret=NONE)
                self.forget(c, "head")
                self.forget(c, "n")
                self.forget(c, "left")
                self.forget(c, "errkind")
                self.forget(c, "discr(head")
                for k in list(c.env):
                    if k[0] == "φ" and isinstance(k[1], tuple) and k[1][0] == "bin":
                        del c.env[k]
                        continue
                    if isinstance(k[0], tuple) and len(k[0]) > 1 and k[0] == ("h", ("head",)):
                        del c.env[k]
                back = "_back" in n or n.startswith("back")
                e = E("pop" if n.startswith("pop") else "peek", "last" if back else "first", ret=some(self.shape(HEAD)))
                e.alts = [E("drained", ret=NONE)]
                return e
            if n == "push_front" or n == "insert" and len(c.args) == 3 and c.args[1] == ("c", 0):
                return E("back" if self.head(c, c.args[-1]) else "ahead", deep(c.sim, c.env, c.args[-1]))
            if n == "push_back":
                return E("behind", d(1))
            if n == "is_empty":
                return E(ret=("c", 0)) if front else E(ret=("y", ("empty", len(st))))
            if n == "len":
                k = 1 if front else 0
                return E("many", ret=("c", 1000 + k), alts=[E("few", ret=("c", k))]) if not has(st, "many") and not has(st, "few") else E(ret=("c", (1000 if has(st, "many") else 0) + k))
            if n in ("drain", "into_iter", "take", "iter", "iter_mut", "split_off"):
                return E("take-all", ret=("y", ("iter", ("queued",), "drain")))
            return E("queue-" + n)
        if n in ("write", "send_to", "send", "write_vectored", "write_all") and not own and len(c.args) >= 2:
            what = d(1)
            ret = ok(N) if n != "write_all" else ok(("v", "()", "", ()))
            return E("write", what, d(2) if n == "send_to" else None, ret=ret, alts=[E("failed", what, ret=err(("y", ("error",))))])
        if c.args and self.head(c, c.args[0]):
            if n in ("len", "remaining"):
                return E(ret=("y", ("left", self.cuts(st))))
            if n in ("is_empty", "has_remaining"):
                return E(ret=("y", ("left?", n)))
            if n in ("chunk", "bytes", "deref", "as_ref", "borrow", "as_slice", "deref_mut", "as_mut", "clone", "slice"):
                return E(ret=objval(c.sim, c.env, c.args[0]))
            if n in ("make_contiguous",):
                return E()
            if n in ("split_to", "advance"):
                return E("cut", d(1), ret=("y", ("part",)))
            if n in ("split_off", "truncate", "clear"):
                return E("cut", n, ret=("y", ("part",)))
        if n in ("would_block", "interrupted", "broken_pipe", "connection_reset", "no_buffer_space", "out_of_buffers") and own:
            return E(ret=("y", ("errkind", n)))
        return None

    def shape(self, v):
        return v

    def arith(self, op, a, b):
        """Counters of bytes and of interrupts"""
        return ("y", ("sum",)) if op == "Add" else None

    def cuts(self, st):
        return sum(1 for x in st if x[0] == "cut")

    def add(self, st, item):
        if item is None:
            return st
        if item[0] in ("pop", "peek", "drained") and any(x[0] in ("pop", "peek") for x in st):
            if self.rounds:
                for k, m in self.rounds(st, self.now, False):
                    self.sim.violate(k, m)
            i = next(i for i, x in enumerate(st) if x[0] in ("pop", "peek"))
            return st[:i] + (item,)
        return Net.add(self, st, item)



def compared(facts):
    """Is less written than there was? (True, False or None)"""
    for k, v in facts.items():
        if not (isinstance(k, tuple) and k[0] == "bin"):
            continue
        a, b = flats(k[2]) if isinstance(k[2], tuple) else "", flats(k[3]) if isinstance(k[3], tuple) else ""
        if v[0] != "c":
            v = ("c", 0 if 1 in v[1] else 1)
        yes = v[1] == 1
        left = lambda s: s.startswith("left:")
        if a == "n" and left(b):
            r = {"Lt": yes, "Ge": not yes, "Eq": not yes, "Ne": yes}.get(k[1])
        elif left(a) and b == "n":
            r = {"Gt": yes, "Le": not yes, "Eq": not yes, "Ne": yes}.get(k[1])
        else:
            continue
        if r is not None:
            return r
    return None


def tcp_round(st, facts, last, flag="partially_sent"):
    w = [x for x in st if x[0] in ("write", "failed")]
    i = max((i for i, x in enumerate(st) if x[0] in ("pop", "peek")), default=None)
    if i is None:
        return
    kept = kept_(st)
    cut = [x for x in st if x[0] == "cut"]
    if first(st)[1] != "first":
        yield "order", "the frame that is sent is not the first of the queue"
    if any(x[0] in ("behind", "ahead") and "head" in x[1] for x in st) or any(x[0].startswith("queue-") for x in st):
        yield "order", "the queue is reordered while it is sent: %s" % show(st)
    if len(w) != 1:
        yield "write", "a frame is taken from the queue and written %d times" % len(w)
        return
    if "head" not in w[0][1]:
        yield "write", "what is written is not the frame taken from the queue: %s" % w[0][1]
    if w[0][0] == "failed":
        if not kept:
            yield "error", "a frame whose write failed is not queued any more"
        if cut:
            yield "error", "a frame whose write failed loses bytes"
        return
    less = compared(facts)
    if less is None:
        yield "partial", "it is not looked whether the whole frame was written"
    elif less:
        if not kept:
            yield "partial", "the rest of a frame that was written partly is lost"
        if [x[1] for x in cut] != ["n"]:
            yield "partial", "what stays of a frame that was written partly is not what was not written: %s" % [x[1] for x in cut]
    elif kept:
        yield "complete", "a frame that was written completely stays in the queue"
    if flag is not None:
        sets = [x[2] for x in st if x[:2] == ("set", flag)]
        was = next((v for k, v in facts.items() if flats(k) == "arg0." + flag), None)
        nothing = any(flats(k) in POSITIVE and v == ("c", 0) for k, v in facts.items())
        new = sets[-1] if sets else None
        if not less:
            if new != "0" and not (new is None and was == ("c", 0)):
                yield "part", "after a frame was written completely the next one counts as begun"
        elif new is None and was != ("c", 1) and not nothing or new == "0" and not (nothing and was == ("c", 0)) or new not in (None, "0", "1") and not any(x in new for x in POSITIVE):
            yield "part", "a frame of which a part was written does not count as begun"


def udp_round(st, facts, last):
    w = [x for x in st if x[0] in ("write", "failed")]
    if not any(x[0] in ("pop", "peek") for x in st):
        return
    kept = kept_(st)
    if first(st)[1] != "first":
        yield "order", "the frame that is sent is not the first of the queue"
    if any(x[0] in ("behind", "ahead") and "head" in x[1] for x in st) or any(x[0].startswith("queue-") for x in st):
        yield "order", "the queue is reordered while it is sent: %s" % show(st)
    if len(w) != 1:
        yield "write", "a frame is taken from the queue and written %d times" % len(w)
        return
    if "head" not in w[0][1] or w[0][0] == "write" and w[0][2] != "to":
        yield "write", "what is written is not the frame taken from the queue, to its address: %s" % (w[0][1:],)
    if w[0][0] == "write":
        if kept:
            yield "complete", "a frame that was sent stays in the queue"
        return
    if not kept:
        for n in ("would_block", "interrupted"):
            if is_(facts, n) is not False:
                yield "error", "a frame is dropped although it could be sent later"
        if not last:
            yield "error", "a frame is dropped and the error is not told"


def is_(facts, n):
    """Is the error of this kind? None: not known"""
    v = next((v for k, v in facts.items() if flats(k) == "errkind:" + n), None)
    return None if v is None else v == ("c", 1)


def first(st):
    return next(x for x in reversed(st) if x[0] in ("pop", "peek"))


def kept_(st):
    kept = None
    for x in st:
        kept = {"pop": False, "peek": True, "back": True, "done": False}.get(x[0], kept)
    return kept


POSITIVE = ("(n Gt 0)", "(0 Lt n)", "(n Ne 0)")


def ending(st, val, facts):
    """What the path tells its caller"""
    w = [x for x in st if x[0] in ("write", "failed")]
    if w and w[-1][0] == "failed" and not flat(val).startswith("Err(") and is_(facts, "would_block") is not True:
        yield "told", "writing ends with an error that the caller is not told about"


def tcp_check(st, val, facts, c):
    yield from tcp_round(st, facts, True)
    yield from ending(st, val, facts)


def udp_check(st, val, facts, c):
    yield from udp_round(st, facts, True)
    yield from ending(st, val, facts)


class Datagrams(Queue):
    def shape(self, v):
        return ("v", "tuple", None, (("0", ("y", ("to",))), ("1", v)))


HANDED = "a frame that only concerns this channel (Hello, Start, Ack or Bye) is handed back to be sent over another"


class Take(Queue):
    """All frames of the queue are taken out, in order; those that carry data are handed back."""

    def __init__(self, p, check, **k):
        Queue.__init__(self, p, check, on_iter=Take.round, **k)

    @staticmethod
    def round(X, op, items, tr):
        if any(x[0] == "give" for x in items) and carries(items, {k[1]: v for k, v in tr.env.items() if k[0] == "φ"}) is not True:
            tr.sim.violate("control", HANDED)

    def head(self, c, v):
        return Queue.head(self, c, v) or "each(queued)" in deep(c.sim, c.env, v)

    def within(self, c, b):
        return Queue.within(self, c, b) or b.file.endswith("net/frames.rs")

    def add(self, st, item):
        if item and item[0] in ("pop", "drained", "take-all"):
            ps = [i for i, x in enumerate(st) if x[0] == "pop"]
            if ps and (len(ps) > 1 or begun(self.now) != ("c", 1)):
                for k, m in taken(st[ps[-1]:], self.now):
                    self.sim.violate(k, m)
                st = st[:ps[-1]]
        return Net.add(self, st, item)

    def more(self, c):
        f = c.fn
        if f.name in ("push", "push_back", "push_front", "insert", "extend") and not self.mine(c, c.args[0]) and len(c.args) > 1:
            return E("give", f.name, deep(c.sim, c.env, c.args[-1]))
        if f.name == "decode_from" and "FrameHead" in (f.self_ty or "") and c.args and self.head(c, c.args[0]):
            return E("kind", ret=ok(("y", ("framehead",))), alts=[E("kind", "none", ret=err(("y", ("framing-error",))))])
        if f.name in ("pop_front", "pop_back") and self.mine(c, c.args[0]):
            self.now = self.facts(c)
            r = Queue.more(self, c)
            self.forget(c, "framehead")
            self.forget(c, "discr(fld:framehead")
            return r
        return Queue.more(self, c)


DATA, CONTROL = 2, {4, 5, 6, 7}


def carries(st, facts):
    """Is the frame looked at one that carries data? None: not known"""
    kind = [x for x in st if x[0] == "kind"]
    if not kind:
        return None
    if kind[-1][1:] == ("none",):
        return True
    for k, v in facts.items():
        if isinstance(k, tuple) and k[0] == "bin" and "framehead" in flats(k):
            name = next((x[2] for x in k[2:4] if isinstance(x, tuple) and x[0] == "v"), None)
            if k[1] in ("Eq", "Ne") and name and v[0] == "c":
                same = (v[1] == 1) == (k[1] == "Eq")
                if name == "Data":
                    return same
                if same:
                    return False
        elif "framehead" in flats(k) and "frame_type" in flats(k):
            if v[0] == "c":
                return v[1] not in CONTROL
            if DATA in v[1]:
                return False
            if CONTROL <= set(v[1]):
                return True
    return None


def begun(facts):
    return next((v for k, v in facts.items() if flats(k) == "arg0.partially_sent"), None)


def taken(st, facts):
    p = [x for x in st if x[0] == "pop"]
    if p[0][1] != "first":
        yield "take", "the frames are not taken out in their order"
    gives = [x for x in st if x[0] == "give"]
    data = carries(st, facts)
    if gives and data is not True:
        yield "control", HANDED
    if gives not in ([("give", "push", "head")], [("give", "push_back", "head")]) and data is not False:
        yield "take", "a frame is taken out of the queue and not handed back"


def take_check(st, val, facts, c):
    was = begun(facts)
    ps = [i for i, x in enumerate(st) if x[0] == "pop"]
    all_ = any(x[0] == "take-all" for x in st)
    if was == ("c", 1):
        if not ps and not any(x[0] == "drained" for x in st):
            yield "begun", "the rest of a frame of which a part was sent is handed back as if it were a frame"
        elif ps:
            end = min([i for i, x in enumerate(st) if x[0] == "take-all"] + ps[1:] + [len(st)])
            if any(x[0] == "give" for x in st[ps[0]:end]):
                yield "begun", "the rest of a frame of which a part was sent is handed back as if it were a frame"
            if st[ps[0]][1] != "first":
                yield "begun", "it is not the frame of which a part was sent that is not handed back"
        if ("set", "partially_sent", "0") not in st:
            yield "begun", "the next frame counts as begun"
        ps = ps[1:]
    elif was is None:
        yield "begun", "it is not looked whether a part of the first frame was sent"
    for i in ps:
        yield from taken(st[i:], facts)
    if all_ and ("give", "extend", "each(queued)") in st or flat(val) in ("each(queued)", "collect(each(queued))"):
        yield "control", HANDED
    if not all_ and not (st and any(x[0] == "drained" for x in st)):
        yield "take", "not all frames are taken out of the queue"


def put_check(what):
    def check(st, val, facts, c):
        puts = [x for x in st if x[0] in ("behind", "ahead", "back")]
        if len(puts) != 1 or puts[0][0] != "behind":
            yield "put", "a frame is not put behind the others of the queue: %s" % show(st)
        elif what not in puts[0][1]:
            yield "put", "what is queued is not the frame: %s" % puts[0][1]
        if any(x[0] == "drain" for x in st) and puts and st.index(puts[0]) > min(i for i, x in enumerate(st) if x[0] == "drain"):
            yield "put", "a frame is queued after the queue was written"
    return check


class Route(Net):
    """Where a message of the dispatcher goes."""

    def more(self, c):
        f = c.fn
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        d = lambda i: deep(c.sim, c.env, c.args[i])
        if own and n == "serialise_dispatch_data":
            return E("ser", d(1), ret=ok(("y", ("serialised",))), alts=[E("unser", d(1), ret=err(("y", ("ser-error",))))])
        if own and n == "enqueue_serialised":
            return E("queued", d(0), *[d(i) for i in range(1, len(c.args))])
        if own and n == "try_write":
            return E("drain", d(0), ret=ok(("y", ("sent",))), alts=[E("drain", d(0), "failed", ret=err(("y", ("io-error",))))])
        if not own and n in ("push_back", "push_front", "push") and c.args and (touches(c.args[0], "retry_queue") or touches(c.sim.ident(c.env, c.args[0]), "retry_queue")):
            return E("event", d(1))
        if n == "take" and c.args and "udp_state" in d(0) and not own:
            return E("udp", ret=some(("y", ("udp",))), alts=[E("no-udp", ret=NONE)])
        return None

    def __init__(self, p, check):
        Net.__init__(self, p, check, opaque=OPAQUE | HELPERS | {"enqueue_serialised"}, extra=self.more)


def writes(p, text, token):
    """Is this an event that lets the channel with this token write?"""
    a = p.adts.get(next((k for k in p.adts if k.endswith("::EventWithRetries")), None))
    if not a or not text.startswith("EventWithRetries("):
        return False
    names = [f[0] for f in a["variants"][0]["fields"]]
    vals = dict(zip(names, text[len("EventWithRetries("):-1].split(",")))
    return vals.get("token") == token and vals.get("writeable") == "1"


def route_check(p, udp):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        K = "chan:address:arg1"
        rej = [x for x in st if x[0] == "reject"]
        q = [x for x in st if x[0] == "queued"]
        un = [x for x in st if x[0] == "unser"]
        if any(x[0] in ("found", "unknown") and x[1] == "address" and x[2] != "arg1" for x in st):
            yield "route", "a message is sent over a channel that was not looked for by the message's address"
        if len(rej) + len(q) + len(un) != 1:
            yield "route", "a message is %s" % ("lost" if not rej + q + un else "sent or handed back more than once") + ": %s" % show(st)
        if rej and rej[0][1] != "tuple(arg1,arg2)":
            yield "route", "what is handed back is not the message and its address: %s" % rej[0][1]
        if un and not any(x[0] == "log" for x in st):
            yield "route", "a message that can not be serialised is dropped without a word"
        if (q or un) and not any(x[0] in ("ser", "unser") and x[1] == "arg2" for x in st):
            yield "route", "what is sent is not the message: %s" % show(st)
        if udp:
            if q and (q[0][1:3] != ("udp", "arg1") or q[0][3] != "serialised"):
                yield "route", "the message is not queued for its address: %s" % (q[0],)
            if q and not any(x[0] == "drain" and st.index(x) > st.index(q[0]) for x in st):
                yield "write", "a message that was queued is not sent"
            if has(st, "udp") and not any(x[:2] == ("set", "udp_state") and "udp" in x[2] for x in st):
                yield "socket", "the socket is lost"
            if rej and has(st, "udp"):
                yield "route", "a message is handed back although it could be sent"
        else:
            up = kn.get(K + ".state") == "Connected"
            if q and not up:
                yield "route", "a message is queued on a channel that is not connected"
            if rej and up:
                yield "route", "a message is handed back although its channel is connected"
            if q and (q[0][1] != K or q[0][2] != "serialised"):
                yield "route", "the message is not queued on its channel: %s" % (q[0],)
            if q and not any(x[0] == "event" and writes(p, x[1], K + ".token") or x[:2] == ("drain", K) for x in st[st.index(q[0]):]):
                yield "write", "a message is queued and nobody is told to send it"
    return check


@prop("N02")
def n02(ctx):
    p = ctx.prog("net")
    m = lambda t, n: need(ctx, inherent(p, t, n), "%s::%s" % (t, n))
    for b in m("TcpChannel", "try_drain"):
        run_trace(ctx, p, "tcp", b, Queue(p, tcp_check, tcp_round))
    for b in m("UdpState", "try_write"):
        run_trace(ctx, p, "udp", b, Datagrams(p, udp_check, udp_round))
    for b in m("TcpChannel", "take_outbound"):
        run_trace(ctx, p, "unsent", b, Take(p, take_check))
    for t, n, what in (("TcpChannel", "enqueue_serialised", "arg1"), ("UdpState", "enqueue_serialised", "tuple(arg1,arg2)"), ("TcpChannel", "send_frame", "Bytes("), ("TcpChannel", "send_bye", "Bytes(")):
        for b in m(t, n):
            run_trace(ctx, p, "put", b, Queue(p, put_check(what), opaque={"try_drain"}))
    for n in ("send_tcp_message", "send_udp_message"):
        for b in m("NetworkThread", n):
            run_trace(ctx, p, "route", b, Route(p, route_check(p, "udp" in n)))
    for b in p.bodies:
        if b.file.endswith(NM) and b.name in KINDS and "::tests::" not in b.id:
            run_trace(ctx, p, "kinds", b, Kinds(p, kinds_check(p, KINDS[b.name])))
    users = []
    seen = set(ctx.funcs)
    for b in p.bodies:
        if b.file.endswith((NC, NU)) and "::tests::" not in b.id and any(f is not None and f.name in REMOVES and "VecDeque<" in (f.self_ty or "") and "SerialisedFrame" in (f.self_ty or "") for _, f, *_ in p.calls(b)):
            users.append(b)
            ctx.ob("queues", b.h in seen, "queues:" + bkey(b), "frames are taken out of a queue on a path that is not analysed", where(b))
    ctx.anchor("functions that take frames out of an outgoing queue", users, 3)


REMOVES = {"pop_front", "pop_back", "clear", "drain", "retain", "remove", "truncate", "split_off", "retain_mut", "swap_remove_back", "swap_remove_front", "pop_front_if", "pop_back_if"}


KINDS = {"would_block": ("WouldBlock",), "interrupted": ("Interrupted",), "connection_reset": ("ConnectionReset",), "broken_pipe": ("BrokenPipe",), "no_buffer_space": ("InvalidInput",), "out_of_buffers": ("NoBuffersAvailable",)}


class Kinds(Trace):
    """Which kinds of errors a classifier accepts"""

    def __init__(self, p, check):
        Trace.__init__(self, p, self.event, check, keep=lambda s: True)

    def event(self, c):
        f = c.fn
        if f is not None and f.name == "kind" and len(c.args) == 1:
            return E("kind", deep(c.sim, c.env, c.args[0]), ret=("y", ("kind",)))
        if f is not None and f.name in ("eq", "ne") and len(c.args) == 2:
            ab = sorted(deep(c.sim, c.env, a) for a in c.args)
            if "kind" in ab:
                ab.remove("kind")
                return E("same" if f.name == "eq" else "other", ab[0], ret=("c", 1), alts=[E("other" if f.name == "eq" else "same", ab[0], ret=("c", 0))])
        return None


def kinds_check(p, want):
    def check(st, val, facts, c):
        kn = settled(p, facts)
        yes = {x[1] for x in st if x[0] == "same"} | ({kn["kind"]} if kn.get("kind") else set())
        no = {x[1] for x in st if x[0] == "other"}
        if val == ("c", 1) and yes and not yes & set(want) or val == ("c", 1) and not yes and no:
            yield "kind", "an error of another kind than %s counts as one" % want
        if val == ("c", 0) and yes & set(want) or val == ("c", 0) and not no and not yes and not any(isinstance(k, tuple) and "kind" in flats(k) for k in facts):
            yield "kind", "%s does not count as one" % want
    return check
