"""T01, M01, M02: timeouts, asks, reading network messages."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.ports import inherent, traitfn, field_names, need

TUP = ("v", "tuple", None, ())


def ok(x):
    return ("v", Sim.RES, "Ok", (("0", x),))


def err(x):
    return ("v", Sim.RES, "Err", (("0", x),))


def some(x):
    return ("v", Sim.OPT, "Some", (("0", x),))


NONE = ("v", Sim.OPT, "None", ())


def eq_fact(facts, a, b):
    """Whether the path took `a == b`: 1, 0 or None when it did not compare them."""
    out = None
    for s, v in facts.items():
        if isinstance(s, tuple) and s and s[0] == "bin" and s[1] in ("Eq", "Ne") and v[0] == "c":
            l, r = flat(s[2]), flat(s[3])
            if a in l and b in r or a in r and b in l:
                x = v[1] if s[1] == "Eq" else 1 - v[1]
                out = x if out is None else out
    return out


def field(v, name):
    for n, x in v[3] if v[0] == "v" else ():
        if n == name:
            return x
    return None


def same_as(v, root, adt, skip=()):
    """v is `root` itself or a copy of it built from root's own fields."""
    f = flat(v)
    if f == root:
        return None
    if v[0] != "v":
        return f
    for n, x in v[3]:
        if n in skip:
            continue
        if v[3] and same_as(x, root + "." + n, adt) is not None:
            return n
    return None


# ------------------------------------------------------------------------------------------------- M02
NETMSG = "core/src/messaging/net_message.rs"


def deser_event(c):
    f = c.fn
    if f is None:
        return None
    n = f.name
    tr = last_seg(f.trait) if f.trait else ""
    who = lambda i: flat(c.sim.ident(c.env, c.args[i]))
    if tr == "Deserialiser" and n == "deserialise":
        w = who(0)
        if w.startswith("local"):
            w = deep(c.sim, c.env, c.sim.unref(c.env, c.args[0]))
        return E("deser", w, ret=ok(("y", ("content", "d"))), alts=[E("deser-err", w, ret=err(("y", ("sererr",))))])
    if n == "local" and tr == "Serialisable":
        w = who(0)
        return E("local", w, ret=ok(("y", ("any", w))), alts=[E("local-err", w, ret=err(("y", ("boxback",))))])
    if n == "downcast" and not tr:
        w = who(0)
        return E("cast", w, ret=ok(("y", ("content", "l"))), alts=[E("cast-err", w, ret=err(("y", ("box", w))))])
    return None


def unpack_check(st, val, facts, c, root, checked):
    v = resolve(c.sim, c.env, val)
    ev = [x[0] for x in st]
    e = eq_fact(facts, "ser_id", "SER_ID")
    reads = [x for x in st if x[0] in ("deser", "deser-err", "local", "local-err", "cast", "cast-err")]
    if checked and e is None and not reads and v[0] == "v" and v[2] == "Err":
        # every payload kind must be compared
        yield "unasked", "a message is refused without comparing its serialisation id"
    if checked and e != 1 and reads:
        yield "unchecked", "content is read although its serialisation id was not found to be the deserialiser's"
        return
    if v[0] != "v" or v[2] not in ("Ok", "Err"):
        yield "result", "the result of reading a message cannot be followed (%s)" % flat(v)
        return
    x = v[3][0][1]
    if checked and e == 0:
        if v[2] != "Err" or x[0] != "v" or x[2] != "NoIdMatch":
            yield "mismatch", "a message with another serialisation id is not given back as such (%s)" % flat(v)
        else:
            d = same_as(x[3][0][1], root, None)
            if d:
                yield "changed", "a message given back is not the one received (%s)" % d
        return
    if v[2] == "Ok":
        cont = field(x, "content") if x[0] == "v" and last_seg(str(x[1])) == "DeserialisedMessage" else x
        if "deser" in ev and not flat(cont).startswith("content:d") or "cast" in ev and not flat(cont).startswith("content:l") or not [n for n in ("deser", "cast") if n in ev]:
            yield "content", "the content returned is not what was read from the message (%s)" % flat(cont)
        if x[0] == "v" and last_seg(str(x[1])) == "DeserialisedMessage":
            for n in ("sender", "receiver"):
                if flat(field(x, n)) != "arg0." + n:
                    yield "path-" + n, "the %s of a message is lost when it is read" % n
    else:
        if "deser" in ev or "cast" in ev:
            yield "dropped", "content was read but an error is returned"
        if x[0] == "v" and x[2] == "NoIdMatch" and (checked or "unchecked" in c.body.name):
            yield "claims", "a read error is reported as a different serialisation id"
    if len([x for x in reads if x[0].startswith(("deser", "cast"))]) > 1:
        yield "twice", "a message's content is read more than once"
    for x in reads:
        if x[0].startswith(("deser", "local")) and not ("arg0" in x[1] and ".data" in x[1]):
            yield "source", "content is read from something else than the message's data (%s)" % x[1]
        if x[0].startswith("cast") and "any" not in x[1]:
            yield "source", "another value than the message's own content is cast (%s)" % x[1]
        if x[0].startswith(("local", "cast")) and "Boxed" not in "".join(str(k) for k in facts) and not any(isinstance(k, tuple) and k and k[0] == "discr" for k in facts):
            yield "kind", "a message is read without looking at how its data is stored"


@prop("M02")
def unpacking(ctx):
    ctx.say("Every path of every function that reads a message as some type: content is only touched where the message's id was found equal to the deserialiser's, it is that message's own content, and on the unequal path the very message (every field) is returned. Functions that read unchecked may only be called where the id was compared: inside the library and in the expansion of the reading macro. Cloning a message keeps its paths, session and id.")
    p = ctx.prog("net")
    inl = lambda c, b: b.kind == "Closure" or b.file == NETMSG
    todo = [b for b in p.bodies if b.kind != "Closure" and b.file == NETMSG and b.name.startswith("try_") and "deserialise" in b.name]
    ctx.anchor("functions that read a message", todo, 5)
    for b in todo:
        checked = "unchecked" not in b.name
        r = Trace(p, deser_event, lambda st, val, facts, c: unpack_check(st, val, facts, c, "arg0", checked), inline=inl, keep=lambda s: True)
        run_trace(ctx, p, "unpack", b, r)
        ctx.anchor("reads in %s" % bkey(b), r.events.get("deser", 0))
    # unchecked reads elsewhere
    for ps in ("net", "local", "witness"):
        q = ctx.prog(ps)
        for b in q.bodies:
            sites = [x for x in q.calls(b) if x[1] is not None and x[1].name == "try_deserialise_unchecked" and x[1].krate == "kompact"]
            if not sites or b.file == NETMSG:
                continue

            def sites_check(st, val, facts, c):
                for x in st:
                    if x[0] == "raw" and x[1] != 1:
                        yield "unchecked", "a message is read unchecked on a path on which its serialisation id was not compared"
            run_trace(ctx, q, "unchecked-use", b, Trace(q, raw_event, sites_check, inline=lambda c, bb: bb.kind == "Closure" or bb.name in ("ser_id",), keep=lambda s: True))
    macro(ctx)
    clones(ctx, p)
    actors(ctx, p)


def raw_event(c):
    f = c.fn
    if f is None:
        return None
    if f.name == "try_deserialise_unchecked" and f.krate == "kompact":
        fs = {k[1]: v for k, v in c.env.items() if k[0] == "φ"}
        e = None
        for s, v in fs.items():
            if "ser_id" in flats(s):
                if s[0] == "bin" and s[1] in ("Eq", "Ne") and v[0] == "c":
                    e = v[1] if s[1] == "Eq" else 1 - v[1]
                elif v[0] == "c" and e is None:
                    e = 1
        return E("raw", e, ret=ok(("y", ("content", "u"))), alts=[E("raw", e, ret=err(("y", ("unpackerr",))))])
    return None


def macro(ctx):
    """The reading macro, as expanded in a function of the witness crate with two message types (ids 101, 102)."""
    q = ctx.prog("witness")
    for b in need(ctx, [b for b in q.bodies if b.name == "reads_by_id"], "match_deser expansion"):
        def ev(c):
            f = c.fn
            if f is None:
                return None
            if f.name.startswith("took_"):
                return E("took", f.name[5:], flat(c.sim.unref(c.env, c.args[0])))
            if f.name == "try_deserialise_unchecked":
                fs = {k[1]: v for k, v in c.env.items() if k[0] == "φ"}
                ids = [v[1] for s, v in fs.items() if "ser_id" in flats(s) and s[0] != "bin" and v[0] == "c"]
                ids += [next(z[1] for z in (s[2], s[3]) if z[0] == "c") for s, v in fs.items() if s[0] == "bin" and s[1] == "Eq" and v == ("c", 1) and "ser_id" in flats(s) and any(z[0] == "c" for z in (s[2], s[3]))]
                i = ids[0] if len(set(ids)) == 1 else None
                ty = (f.args or ["", ""])
                return E("read", i, tuple(last_seg(t) for t in ty), ret=ok(("y", ("content", i))), alts=[E("read", i, tuple(last_seg(t) for t in ty), ret=err(("y", ("rerr", i))))])
            return None

        def chk(st, val, facts, c):
            rd = [x for x in st if x[0] == "read"]
            tk = [x for x in st if x[0] == "took"]
            if len(tk) != 1:
                yield "arms", "reading a message by id takes %d arms" % len(tk)
                return
            k, w = tk[0][1:]
            if k == "other":
                if rd:
                    yield "default", "the default arm is taken after the message was read"
            elif len(rd) != 1 or rd[0][1] is None:
                yield "unchecked", "the macro reads a message without comparing its id"
            elif {"a": 101, "b": 102}.get(k, rd[0][1]) != rd[0][1] or k in "ab" and w != "content:%s" % rd[0][1] or k == "err" and not w.startswith("rerr"):
                yield "arm", "the arm for id %s is taken for a message of another id or result" % rd[0][1]
            elif {101: "MsgA", 102: "SerB"}.get(rd[0][1]) not in rd[0][2]:
                yield "type", "a message with id %s is read with %s" % (rd[0][1], "/".join(rd[0][2]))
        r = Trace(q, ev, chk, inline=lambda c, bb: bb.kind == "Closure" or bb.name == "ser_id", keep=lambda s: True)
        run_trace(ctx, q, "macro", b, r)
        got = {x[1] for st, _ in r.paths for x in st if x[0] == "took"}
        for k in ("a", "b", "err", "other"):
            ctx.ob("macro", k in got, "arm-" + k, "the reading macro never takes the arm `%s`" % k, where(b))


def clones(ctx, p):
    for ty in ("NetMessage", "NetData", "HeapOrSer"):
        for b in need(ctx, traitfn(p, "TryClone", "try_clone", ty), ty + " clone"):
            def ev(c):
                f = c.fn
                if f is None:
                    return None
                if f.name == "clone" and f.trait and len(c.args) == 1:
                    return E(ret=objval(c.sim, c.env, c.args[0]))
                if f.name in ("serialise", "try_serialise") and f.trait and last_seg(f.trait) == "Serialisable":
                    return E("write", flat(c.sim.ident(c.env, c.args[0])), ret=ok(TUP), alts=[E("write-err", ret=err(("y", ("sererr",))))])
                if f.name == "create_byte_clone":
                    return E(ret=("y", ("bytes", c.sim.ident(c.env, c.args[0]))))
                return None

            def chk(st, val, facts, c, ty=ty):
                v = resolve(c.sim, c.env, val)
                if v[0] == "v" and v[2] == "Err":
                    if not [x for x in st if x[0] == "write-err"]:
                        yield "refused", "cloning fails although the content could be copied"
                    return
                if v[0] != "v" or v[2] != "Ok" or v[3][0][1][0] != "v":
                    yield "result", "the result of cloning a message cannot be followed (%s)" % flat(v)
                    return
                if [x for x in st if x[0] == "write-err"]:
                    yield "swallowed", "a failed copy is returned as a clone"
                x = v[3][0][1]
                if last_seg(str(x[1])) != ty:
                    yield "result", "cloning gives a %s" % flat(x)
                    return
                if ty == "HeapOrSer":
                    src = flat(x[3][0][1])
                    if not [y for y in st if y[0] == "write"] and "arg0" not in src:
                        yield "data", "a clone holds other content than the original (%s)" % src
                    return
                for n, y in x[3]:
                    if n == "data" and y[0] == "v":
                        if [z for z in st if z[0] == "write"] or "arg0.data" in flat(y):
                            i = field(y, "ser_id")
                            if i is not None and flat(i) != "arg0.data.ser_id":
                                yield "id", "a clone carries another serialisation id"
                        else:
                            yield "data", "a clone holds other content than the original"
                    elif n != "data" and flat(y) != "arg0." + n:
                        yield "field-" + n, "a clone's %s is not the original's (%s)" % (n, flat(y))
            run_trace(ctx, p, "clone", b, Trace(p, ev, chk, inline=lambda c, bb: bb.kind == "Closure" or bb.file == NETMSG))


def actors(ctx, p):
    """Network actors: what arrives is either the content with its sender, or handed to on_error."""
    bs = [b for b in p.bodies if b.kind != "Closure" and b.name == "receive_network" and b.trait and last_seg(b.trait) in ("Actor", "ActorRaw") and b.file == "core/src/actors/distributed.rs"]
    ctx.anchor("network actors", bs)
    for b in bs:
        def ev(c):
            f = c.fn
            if f is None:
                return None
            val = lambda i: deep(c.sim, c.env, c.sim.unref(c.env, c.args[i]))
            if f.name == "receive" and len(c.args) == 3:
                return E("receive", val(1), val(2), ret=("y", ("res", "receive")))
            if f.name == "on_error":
                return E("on-error", val(1), ret=("y", ("res", "on_error")))
            return deser_event(c)

        def chk(st, val, facts, c):
            rc = [x for x in st if x[0] == "receive"]
            oe = [x for x in st if x[0] == "on-error"]
            good = [x for x in st if x[0] in ("deser", "cast")]
            if len(rc) + len(oe) != 1:
                yield "count", "a network message is handled %d times" % (len(rc) + len(oe))
            elif rc:
                if not good or rc[0][1] != "Some(arg1.sender)" or not rc[0][2].startswith("content"):
                    yield "receive", "the actor is given something else than the sender and content of the message (%s)" % (rc[0],)
                if flat(val) != "res:receive":
                    yield "result", "the result of the handler is lost"
            else:
                if good:
                    yield "error", "a message that was read is given to the error handler"
                if flat(val) != "res:on_error":
                    yield "result", "the result of the error handler is lost"
        r = Trace(p, ev, chk, inline=lambda c, bb: bb.kind == "Closure" or bb.file == NETMSG, keep=lambda s: True)
        run_trace(ctx, p, "network-actor", b, r)


# ------------------------------------------------------------------------------------------------- M01
def promise_event(c):
    f = c.fn
    if f is None:
        return None
    n = f.name
    who = lambda i: flat(c.sim.ident(c.env, c.args[i]))
    val = lambda i: deep(c.sim, c.env, c.sim.unref(c.env, c.args[i]))
    if n == "channel" and f.krate not in ("kompact", "kompact_net"):
        return E("channel", ret=("v", "tuple", None, (("0", ("y", ("tx",))), ("1", ("y", ("rx",))))))
    if n == "send" and f.krate not in ("kompact", "kompact_net") and "Sender" in str(f.self_ty or f.path):
        return E("send", who(0), val(1), 1, ret=ok(TUP), alts=[E("send", who(0), val(1), 0, ret=err(("y", ("sendback",))))])
    if n in ("fulfil",) and f.krate == "kompact":
        return E("fulfil", val(0), val(1), ret=("y", ("fulfilled",)))
    if n == "promise" and f.krate == "kompact":
        return E("promise", ret=("v", "tuple", None, (("0", ("y", ("prom",))), ("1", ("y", ("fut",))))))
    if n == "enqueue" and f.krate == "kompact":
        return E("enqueue", who(0), val(1))
    if f.trait and last_seg(f.trait) in ("FnOnce", "FnMut", "Fn") and n.startswith("call") and c.sim.load_through(c.env, c.args[0])[0] not in ("clo", "fn"):
        tp = c.sim.load_through(c.env, c.args[1])
        a = deep(c.sim, c.env, tp[3][0][1]) if tp[0] == "v" and tp[3] else "?"
        return E("apply", who(0), a, ret=("y", ("applied", a)))
    return None


@prop("M01")
def asks(ctx):
    ctx.say("Every function that returns a future creates one promise, puts exactly that promise into the message it sends once, and returns the future paired with it. Answering consumes the request (by signature; promise and request types have no clone and no public fields) and fulfils its own promise once with the given answer; taking a request apart gives back the original promise. A fulfilled promise reaches the channel its future polls.")
    p = ctx.prog("net")
    deffile = lambda n: (adt_named(p, n) or {}).get("file", "")
    # one-shot by type
    for ty in ("Ask", "KPromise"):
        a = adt_named(p, ty)
        if not ctx.anchor(ty, [a] if a else []):
            continue
        cl = [i for i in p.impls if i.get("trait") and last_seg(i["trait"]) in ("Clone", "Copy") and ty_head(i.get("self") or "") == ty]
        ctx.ob("one-shot", not cl, "clone:" + ty, "%s can be cloned, so a request could be answered twice" % ty)
        for v in a["variants"]:
            for f in v["fields"]:
                ctx.ob("one-shot", not f[2], "field:%s.%s" % (ty, f[0]), "%s.%s can be taken out from outside" % (ty, f[0]))
    for ty, ns in (("Ask", ("reply", "complete", "complete_with", "take")),):
        for n in ns:
            for b in need(ctx, inherent(p, ty, n), ty + "::" + n):
                ctx.ob("one-shot", not b.locals[1].startswith("&"), "by-ref:" + n, "`%s` does not consume the request" % n, where(b))
        for b in inherent(p, ty, None) if False else [b for b in p.bodies if b.kind != "Closure" and not b.trait and b.self_adt and last_seg(b.self_adt) == ty and b.pub]:
            r = b.locals[0]
            if b.argc and b.locals[1].startswith("&"):
                ctx.ob("one-shot", "KPromise" not in r, "lends:" + b.name, "`%s` hands the promise out without consuming the request" % b.name, where(b))
    for n in ("fulfil", "complete"):
        for b in need(ctx, traitfn(p, "Fulfillable" if n == "fulfil" else "Completable", n, "KPromise"), "KPromise::" + n):
            ctx.ob("one-shot", not b.locals[1].startswith("&"), "by-ref:promise-" + n, "`%s` does not consume the promise" % n, where(b))
    inl = lambda c, b: b.kind == "Closure" or b.file in ("core/src/utils/ask.rs", "core/src/utils/mod.rs") or b.name.startswith("ask")

    def T(chk, ev=promise_event):
        return Trace(p, ev, chk, inline=inl)
    pf = field_names(p, "Ask", lambda t: "KPromise" in t)
    cf = field_names(p, "Ask", lambda t: "KPromise" not in t)
    P, C = "arg0." + (pf or ["?"])[0], "arg0." + (cf or ["?"])[0]

    def one_fulfil(st, val, want, what):
        fl = [x for x in st if x[0] == "fulfil"]
        if len(fl) != 1:
            yield "count", "%s fulfils %d promises" % (what, len(fl))
        elif fl[0][1] != P:
            yield "promise", "%s fulfils another promise than the request's (%s)" % (what, fl[0][1])
        elif not want(fl[0][2]):
            yield "answer", "%s answers with something else than the answer (%s)" % (what, fl[0][2])
        if flat(val) != "fulfilled":
            yield "result", "%s does not report whether the asker could be reached" % what
    for b in inherent(p, "Ask", "reply"):
        run_trace(ctx, p, "answer", b, T(lambda st, val, facts, c: one_fulfil(st, val, lambda a: a == "arg1", "replying")))
    for b in inherent(p, "Ask", "complete"):
        def comp(st, val, facts, c):
            ap = [x for x in st if x[0] == "apply"]
            if len(ap) != 1 or ap[0][2] != C:
                yield "request", "completing does not run the function on the request exactly once"
            yield from one_fulfil(st, val, lambda a: a.startswith("applied"), "completing")
        run_trace(ctx, p, "answer", b, T(comp))
    for b in inherent(p, "Ask", "complete_with"):
        cb = async_body(p, b)
        if not ctx.anchor("complete_with's future", [cb] if cb else []):
            continue
        f, caps = cb
        names_ = {n: flat(v) for n, v in caps}
        bad = [n for n, v in names_.items() if "arg" not in v and "Ask" not in v]

        def cw(st, val, facts, c):
            fl = [x for x in st if x[0] == "fulfil"]
            ap = [x for x in st if x[0] == "apply"]
            if len(ap) != 1 or len([x for x in st if x[0] == "await"]) != 1:
                yield "request", "completing with a future does not run it exactly once"
            if len(fl) != 1 or pf and not fl[0][1].endswith("." + pf[0]):
                yield "promise", "completing with a future does not fulfil the request's promise exactly once"
            elif "out" not in fl[0][2]:
                yield "answer", "completing with a future answers with something else than its result (%s)" % fl[0][2]
        run_trace(ctx, p, "answer", f, AsyncTrace(p, promise_event, caps, cw, inline=inl), root=b)
    for b in inherent(p, "Ask", "take"):
        def tk(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            got = [flat(x) for _, x in v[3]] if v[0] == "v" else []
            if P not in got:
                yield "promise", "taking a request apart does not give back its own promise (%s)" % flat(v)
            if C not in got:
                yield "content", "taking a request apart does not give back its content (%s)" % flat(v)
            if [x for x in st if x[0] in ("fulfil", "promise", "channel")]:
                yield "extra", "taking a request apart makes or fulfils a promise"
        run_trace(ctx, p, "answer", b, T(tk))
    mk = inherent(p, "Ask", "new")
    for b in need(ctx, mk, "Ask::new"):
        def nw(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            if v[0] != "v" or flat(field(v, pf[0])) != "arg0" or flat(field(v, cf[0])) != "arg1":
                yield "new", "a new request does not hold the given promise and content (%s)" % flat(v)
        run_trace(ctx, p, "request", b, T(nw))
    for b in p.bodies:
        if b.kind == "Closure" and b.file == "core/src/utils/ask.rs" and b.id.rsplit("::{", 1)[0].endswith("::of"):
            def of(st, val, facts, c):
                v = resolve(c.sim, c.env, val)
                if v[0] != "v" or flat(field(v, pf[0])) != "arg1":
                    yield "of", "a request made from a promise holds another promise (%s)" % flat(v)
            run_trace(ctx, p, "request", b, T(of))
    # asking
    askers = [b for b in p.bodies if b.kind != "Closure" and b.pub and b.file.startswith("core/src/actors/") and b.name.startswith("ask") and "KFuture" in b.locals[0]]
    ctx.anchor("ask functions", askers, 4)
    for b in askers:
        def ask(st, val, facts, c):
            pr = [x for x in st if x[0] in ("promise", "channel")]
            en = [x for x in st if x[0] == "enqueue"]
            if len(pr) != 1:
                yield "promises", "asking makes %d promises" % len(pr)
            if len(en) != 1:
                yield "sends", "asking sends %d messages" % len(en)
            else:
                msg = en[0][2]
                if msg.count("prom") != 1 or not ("applied:prom" in msg or msg.startswith("Typed(Ask(prom,arg1")):
                    yield "carries", "the message sent does not carry the promise and the request (%s)" % msg
                if not en[0][1].startswith("arg0"):
                    yield "target", "the request is sent to %s" % en[0][1]
            if flat(val) != "fut":
                yield "future", "asking returns something else than the future of its promise (%s)" % flat(val)
        run_trace(ctx, p, "ask", b, T(ask))
    # the pair itself
    for b in need(ctx, [b for b in p.bodies if b.kind != "Closure" and b.name == "promise" and b.file == "core/src/utils/mod.rs"], "promise()"):
        def pair(st, val, facts, c):
            f = deep(c.sim, c.env, val)
            if f != "tuple(KPromise(tx),KFuture(rx))" or len([x for x in st if x[0] == "channel"]) != 1:
                yield "pair", "a promise and its future do not share one channel (%s)" % f
        run_trace(ctx, p, "pair", b, T(pair))

    def pe2(c):
        return None if c.fn is not None and c.fn.name == "fulfil" and c.body.name == "complete" and False else promise_event(c)
    for b in traitfn(p, "Fulfillable", "fulfil", "KPromise"):
        def ful(st, val, facts, c):
            sd = [x for x in st if x[0] == "send"]
            f = deep(c.sim, c.env, val)
            if len(sd) != 1 or not sd[0][1].startswith("arg0.") or sd[0][2] != "arg1":
                yield "send", "fulfilling a promise does not send the value on its channel exactly once"
            elif sd[0][3] == 1 and f != "Ok(tuple)" or sd[0][3] == 0 and not f.startswith("Err"):
                yield "result", "fulfilling a promise reports %s" % f
        run_trace(ctx, p, "fulfil", b, T(ful))
    for b in traitfn(p, "Completable", "complete", "KPromise"):
        def cpl(st, val, facts, c):
            fl = [x for x in st if x[0] == "fulfil"]
            if len(fl) != 1 or fl[0][1] != "arg0" or flat(val) != "fulfilled":
                yield "complete", "completing a promise does not fulfil it exactly once"
        run_trace(ctx, p, "fulfil", b, T(cpl))
    for b in need(ctx, traitfn(p, "Future", "poll", "KFuture"), "KFuture::poll"):
        PO = "core::task::poll::Poll"

        def pev(c):
            f = c.fn
            if f is None:
                return None
            if f.name == "poll" and f.trait and f.trait.endswith("Future"):
                w = deep(c.sim, c.env, c.args[0])
                return E("poll", w, "pending", ret=("v", PO, "Pending", ()), alts=[E("poll", w, "value", ret=("v", PO, "Ready", (("0", ok(("y", ("value",)))),))), E("poll", w, "gone", ret=("v", PO, "Ready", (("0", err(("y", ("canceled",)))),)))])
            if f.name in ("get_mut", "new", "as_mut", "get_unchecked_mut", "new_unchecked", "map_unchecked_mut") and "Pin" in str(f.self_ty or f.path):
                return E(ret=c.args[0])
            if f.name == "map" and "Poll" in str(f.self_ty or ""):
                v = c.sim.load_through(c.env, c.args[0])
                if v[0] == "v" and v[2] == "Pending":
                    return E(ret=v)
                return E("mapped")
            return None

        def poll(st, val, facts, c):
            po = [x for x in st if x[0] == "poll"]
            f = deep(c.sim, c.env, val)
            if len(po) != 1 or "arg0" not in po[0][1]:
                yield "poll", "polling a future does not poll its channel exactly once"
            elif has(st, "mapped"):
                return
            elif po[0][2] == "pending" and f != "Pending" or po[0][2] == "value" and f != "Ready(Ok(value))" or po[0][2] == "gone" and not f.startswith("Ready(Err"):
                yield "poll", "a future answers %s where its channel says %s" % (f, po[0][2])
        run_trace(ctx, p, "poll", b, Trace(p, pev, poll, inline=inl))


# ------------------------------------------------------------------------------------------------- T01
TIMERS = ("core/src/timer/timer_manager.rs", "core/src/timer/mod.rs", "core/src/component/actual_component.rs", "core/src/component/context.rs")


class Timers(Trace):
    """A symbolic table of handles with one entry of interest: the one for the id at hand."""

    def __init__(self, p, check, first=None, **k):
        self.first = first
        k.setdefault("inline", lambda c, b: b.kind == "Closure" or b.file in TIMERS[:2])
        Trace.__init__(self, p, self.event, check, **k)

    def handle(self, kind):
        a = adt_named(self.prog, "TimerHandle")
        v = [v for v in a["variants"] if v["name"] == kind][0]
        return ("v", "kompact::timer::timer_manager::TimerHandle", kind, tuple((f[0], ("y", ("own", kind, "action" if "Fn" in f[1] else "id"))) for f in v["fields"]))

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        hd = ty_head(f.self_ty) if f.self_ty else ""
        who = lambda i: flat(c.sim.ident(c.env, c.args[i]))
        val = lambda i: deep(c.sim, c.env, c.sim.unref(c.env, c.args[i]))
        st = c.sim.rule.cur_st
        if n == "pop" and "Queue" in str(f.self_ty or f.path):
            T = adt_named(self.prog, "Timeout")
            return E("pop", 1, ret=some(("v", "kompact::timer::timer_manager::Timeout", "Timeout", (("0", ("y", ("tid",))),))), alts=[E("pop", 0, ret=NONE)])
        if hd == "HashMap" and n in ("remove", "get", "get_mut", "contains_key", "remove_entry") and len(c.args) == 2:
            k = val(1)
            now = None
            for x in st:
                if x[0] == "entry" and x[1] == k:
                    now = x[2]
            gone = False
            for x in st:
                if x[0] == "gone" and x[1] == k:
                    gone = True
                if x[0] == "put" and x[1] == k:
                    gone = False
            kinds = ("OneShot", "Periodic", None) if now is None else ((now,) if now != "absent" else (None,))
            if gone:
                kinds = (None,)
            outs = []
            for kd in kinds:
                h = self.handle(kd) if kd else None
                if n == "contains_key":
                    r = ("c", int(kd is not None))
                elif kd is None:
                    r = NONE
                elif n == "remove_entry":
                    r = some(("v", "tuple", None, (("0", c.sim.unref(c.env, c.args[1])), ("1", h))))
                else:
                    r = some(("kr", h) if n.startswith("get") else h)
                outs.append((kd, r))
            es = []
            for kd, r in outs:
                it = []
                if gone:
                    es.append(E("look", ret=r))
                elif n in ("remove", "remove_entry") and now is None:
                    es.append(E("entry", k, kd or "absent", "taken", ret=r))
                elif n in ("remove", "remove_entry"):
                    es.append(E("gone", k, ret=r))
                elif now is None:
                    es.append(E("entry", k, kd or "absent", "seen", ret=r))
                else:
                    es.append(E("look", ret=r))
            e = es[0]
            e.alts = es[1:]
            return e
        if hd == "HashMap" and n == "insert":
            return E("put", val(1), val(2), ret=("y", ("old",)))
        if hd == "HashMap" and n in ("drain", "clear", "retain", "iter", "keys", "into_keys"):
            return None
        if n == "clone" and len(c.args) == 1 and f.trait:
            return E(ret=objval(c.sim, c.env, c.args[0]))
        if n == "new_v4":
            return E("id", ret=("y", ("newid",)))
        if n in ("schedule_once", "schedule_periodic") and f.krate not in ("kompact", "kompact_net"):
            return E("low-" + n[9:], who(0), *[val(i) for i in range(1, len(c.args))])
        if n in ("cancel", "cancel_timer") and (f.krate not in ("kompact", "kompact_net") or "TimerRef" in hd):
            return E("low-cancel", who(0), val(1))
        if n == "downgrade":
            return E(ret=("y", ("weak", c.sim.ident(c.env, c.args[0]))))
        if n in ("new",) and hd in ("Rc", "Arc", "Box"):
            return E(ret=c.args[0])
        return None


def ids(s):
    return s.replace("ScheduledTimer(", "").replace("Timeout(", "").rstrip(")")


@prop("T01")
def timeouts(ctx):
    ctx.say("Every path of the timeout bookkeeping is followed with a symbolic handle table: an expiry looks up exactly its own id; a one-shot action leaves the table when it is handed out, a periodic one stays; an unknown id runs nothing. Scheduling stores the action under the id that the underlying timer, the target reference and the returned handle carry; cancelling removes both the entry and the underlying timer; dropping the table cancels every remaining one. What the execution loop runs is the action handed out, with its id, once.")
    p = ctx.prog("net")
    for b in need(ctx, inherent(p, "TimerManager", "try_action"), "try_action"):
        def act(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            k = v[2] if v[0] == "v" else None
            pop = [x for x in st if x[0] == "pop"]
            en = [x for x in st if x[0] == "entry"]
            if len(pop) != 1:
                yield "pop", "expired timeouts are taken from the queue %d times" % len(pop)
                return
            if pop[0][1] == 0:
                if k != "None" or en:
                    yield "none", "without an expired timeout %s is returned" % flat(v)
                return
            if not en or any(x[1] != "tid" for x in en):
                yield "id", "the handle of another timeout than the expired one is used (%s)" % (en,)
                return
            kind = en[0][2]
            there = en[0][3] == "seen" and kind != "absent"
            act_ = "own:%s" % kind
            for x in st:
                if x[0] == "gone":
                    there = False
                if x[0] == "put":
                    there = True
                    if x[1] != "tid" or not x[2].startswith("Periodic") or "own:Periodic" not in x[2] or kind != "Periodic":
                        yield "put", "the handle table gets another entry back (%s)" % (x,)
            want = {"OneShot": "Once", "Periodic": "Periodic", "absent": "Cancelled"}[kind]
            if k != want:
                yield "variant", "a timeout whose handle is %s gives %s" % (kind, k)
            elif kind != "absent":
                i, a = [flat(x) for _, x in v[3]][:2]
                if i != "tid" or not a.startswith(act_):
                    yield "action", "a timeout gives the action %s with id %s" % (a, i)
            if kind == "OneShot" and there:
                yield "stays", "a one-shot action stays in the table after it was handed out"
            if kind == "Periodic" and not there:
                yield "leaves", "a periodic action leaves the table after its first run"
        run_trace(ctx, p, "expiry", b, Timers(p, act))
    qf = field_names(p, "TimerManager", lambda t: "Queue" in t)
    tf = field_names(p, "TimerManager", lambda t: "TimerRef" in t)
    for nm, kind, durs in (("schedule_once", "OneShot", 1), ("schedule_periodic", "Periodic", 2)):
        for b in need(ctx, inherent(p, "TimerManager", nm), nm):
            def sch(st, val, facts, c, nm=nm, kind=kind, durs=durs):
                low = [x for x in st if x[0].startswith("low-")]
                put = [x for x in st if x[0] == "put"]
                if len([x for x in st if x[0] == "id"]) != 1 or len(put) != 1 or len(low) != 1 or low[0][0] != "low-" + nm[9:]:
                    yield "once", "scheduling does not create one id, one entry and one underlying timer (%s)" % [x[0] for x in st]
                    return
                if put[0][1] != "newid" or not put[0][2].startswith(kind):
                    yield "entry", "the action is stored as %s under %s" % (put[0][2], put[0][1])
                if not low[0][1].startswith("arg0.") or list(low[0][2:2 + durs]) != ["arg%d" % (2 + i) for i in range(durs)]:
                    yield "time", "the underlying timer gets other durations than the ones given (%s)" % (low[0][2:2 + durs],)
                state = low[0][2 + durs]
                if not state.startswith("ActorRefState(newid,") or "weak:arg0.%s" % (qf or ["?"])[0] not in state or "arg1" not in state:
                    yield "target", "the underlying timer reports to another id, queue or component (%s)" % state
                if ids(flat(resolve(c.sim, c.env, val))) != "newid":
                    yield "handle", "the handle returned is not the one scheduled (%s)" % flat(val)
            r = Timers(p, sch)
            run_trace(ctx, p, "schedule", b, r)
            # the stored wrapper passes the component and the handle on to the user's action
            cls = [x for x in p.closures_of(b) if x.argc == 3]
            ctx.anchor("stored action of " + nm, cls)
            for cb in cls:
                def wr(st, val, facts, c):
                    ap = [x for x in st if x[0] == "run"]
                    if len(ap) != 1 or ap[0][1] != "arg1" or ids(ap[0][2]) != "arg2":
                        yield "wrapper", "the stored action does not run the given action once with the component and the timer's handle (%s)" % (ap,)
                    elif flat(val) != "ran":
                        yield "result", "the result of a timeout action is lost"

                def wev(c):
                    f = c.fn
                    if f is not None and f.trait and last_seg(f.trait) in ("FnOnce", "FnMut", "Fn") and f.name.startswith("call"):
                        tp = c.sim.load_through(c.env, c.args[1])
                        return E("run", *[deep(c.sim, c.env, x) for _, x in tp[3]], ret=("y", ("ran",)))
                    return None
                run_trace(ctx, p, "schedule", cb, Trace(p, wev, wr, inline=lambda c, bb: bb.file == TIMERS[0]))
    for b in need(ctx, inherent(p, "TimerManager", "cancel_timer"), "cancel_timer"):
        def can(st, val, facts, c):
            low = [x for x in st if x[0] == "low-cancel"]
            if len(low) != 1 or ids(low[0][2]) not in ("arg1.0", "arg1"):
                yield "low", "cancelling a timer does not cancel the underlying timer of that handle"
            gone = [x for x in st if x[0] == "entry" and x[3] == "taken" or x[0] == "gone"]
            there = [x for x in st if x[0] == "entry" and x[3] == "seen" and x[2] != "absent"] and not [x for x in st if x[0] == "gone"]
            if there or not [x for x in st if x[0] == "entry"] or any(ids(x[1]) not in ("arg1.0", "arg1") for x in st if x[0] in ("entry", "gone")):
                yield "entry", "cancelling a timer leaves its action in the table"
        run_trace(ctx, p, "cancel", b, Timers(p, can))
    for b in need(ctx, [x for x in p.bodies if x.kind != "Closure" and x.trait and last_seg(x.trait) == "CanCancelTimers" and x.name == "cancel_timer"], "CanCancelTimers"):
        def can2(st, val, facts, c):
            low = [x for x in st if x[0] == "low-cancel"]
            if len(low) != 1 or ids(low[0][2]) not in ("arg1.0", "arg1"):
                yield "low", "cancelling a timer does not cancel the underlying timer of that handle"
        run_trace(ctx, p, "cancel", b, Timers(p, can2))
    for b in need(ctx, [x for x in p.bodies if x.trait and last_seg(x.trait) == "Drop" and x.self_adt and last_seg(x.self_adt) == "TimerManager"], "dropping the table"):
        hf = field_names(p, "TimerManager", lambda t: "TimerHandle" in t)

        def dr(st, val, facts, c):
            on = lambda X: any(touches(X, f) for f in hf)
            if not whole(st, on):
                yield "all", "dropping a component's timers does not go through all of them"
            for x in st:
                if x[0] == "iters" and on(x[1]):
                    lc = [y for y in x[2] if y[0] == "low-cancel"]
                    if len(lc) != 1 or "elem" not in lc[0][2]:
                        yield "low", "dropping a component's timers leaves an underlying timer running"
        run_trace(ctx, p, "end", b, Timers(p, dr, on_iter=lambda X, o, it, _: tuple(it)))
    triggers(ctx, p)
    execution(ctx, p)
    facade(ctx, p)


def triggers(ctx, p):
    for tr in ("OneshotState", "PeriodicState"):
        for b in need(ctx, traitfn(p, tr, "trigger", "ActorRefState"), tr):
            def ev(c):
                f = c.fn
                if f is not None and f.name == "enqueue":
                    w, t = flat(c.sim.ident(c.env, c.args[0])), deep(c.sim, c.env, c.args[1])
                    return E("enq", w, t, 1, ret=ok(TUP), alts=[E("enq", w, t, 0, ret=err(("y", ("qerr",))))])
                return None

            def chk(st, val, facts, c, tr=tr):
                e = [x for x in st if x[0] == "enq"]
                if len(e) != 1 or not e[0][1].startswith("arg0.") or e[0][2] != "Timeout(arg0.id)":
                    yield "report", "an expiry does not report its own id to its component exactly once (%s)" % (e,)
                elif tr == "PeriodicState":
                    f = deep(c.sim, c.env, val)
                    if e[0][3] == 1 and not (f.startswith("Reschedule(") and "arg0" in f) or e[0][3] == 0 and not f.startswith("Cancel"):
                        yield "again", "a periodic timer whose component is %s answers %s" % ("there" if e[0][3] else "gone", f)
            run_trace(ctx, p, "expire", b, Trace(p, ev, chk, inline=lambda c, bb: False))


def execution(ctx, p):
    """What runs is the action handed out, once, with its own id, on this component's definition."""
    users = [b for b in p.bodies if any(x[1] is not None and x[1].name == "try_action" for x in p.calls(b))]
    ctx.anchor("places that take expired timeouts", users)
    for b in users:
        r = TakeRun(p)
        s = Sim(p, r, 400000)
        s.run(b)
        ctx.simulated(s)
        ctx.anchor("actions run", r.n, 2)
        k = bkey(b)
        if not s.violations:
            ctx.ob("run", True, k, "", where(b))
        for v in s.violations:
            ctx.ob("run", False, "%s:%s" % (k, v["key"]), v["msg"], where(b), v["trace"])


class TakeRun(Rule):
    init = "-"
    inline_depth = 6
    EA = "kompact::timer::timer_manager::ExecuteAction"

    def __init__(self, p):
        self.prog = p
        self.n = set()

    def may_inline(self, c, b):
        return b.kind == "Closure"

    def call(self, st, c):
        f = c.fn
        if f is None:
            return None
        if f.name == "pop" and "Queue" in str(f.self_ty or f.path):
            return Outcome(ret=NONE, st=st)
        if f.name == "take" and ty_head(f.self_ty or "") == "Option":
            return Outcome(ret=NONE, st=st)
        if f.name == "try_action":
            if st in ("Once", "Periodic"):
                self.sim.violate("unrun:" + st, "an expired %s action is not run" % st)
            outs = [Outcome(ret=("v", self.EA, k, ()), st="-") for k in ("None", "Cancelled")]
            return outs + [Outcome(ret=("v", self.EA, k, (("0", ("y", ("tid", k))), ("1", ("y", ("act", k))))), st=k) for k in ("Once", "Periodic")]
        if f.trait and last_seg(f.trait) in ("FnOnce", "FnMut", "Fn") and f.name.startswith("call"):
            w = flat(self.sim.ident(c.env, c.args[0]))
            if w.startswith("act:"):
                tp = self.sim.load_through(c.env, c.args[1])
                a = [deep(self.sim, c.env, x) for _, x in tp[3]] if tp[0] == "v" else []
                k = w.split(":")[1].split(".")[0]
                self.n.add(k)
                if st != k:
                    self.sim.violate("twice:" + k, "a timeout action is run again without having expired again")
                if len(a) != 2 or a[1] != "tid:" + k:
                    self.sim.violate("id:" + k, "a timeout action is run with another id (%s)" % a[1:])
                return Outcome(ret=("y", ("ran", c.site)), st="-")
        return None

    def ret(self, st, c, val):
        if st in ("Once", "Periodic"):
            self.sim.violate("unrun:" + st, "an expired %s action is not run" % st)


def facade(ctx, p):
    """The component's own timer functions: this component, the given times and action."""
    for n, k in (("schedule_once", 3), ("schedule_periodic", 4), ("cancel_timer", 2)):
        for b in need(ctx, traitfn(p, "Timer", n), "Timer::" + n):
            def ev(c, n=n):
                f = c.fn
                if f is None:
                    return None
                hd = ty_head(f.self_ty) if f.self_ty else ""
                if hd == "TimerManager" and f.name == n:
                    return E("do", *[deep(c.sim, c.env, c.sim.ident(c.env, a)) for a in c.args], ret=("y", ("handle",)))
                if f.name == "downgrade":
                    return E(ret=("y", ("weak", c.sim.ident(c.env, c.args[0]))))
                if f.name == "component" and f.krate == "kompact":
                    return E(ret=("y", ("component", c.sim.ident(c.env, c.args[0]))))
                return None

            def chk(st, val, facts, c, n=n, k=k):
                d = [x for x in st if x[0] == "do"]
                if len(d) != 1:
                    yield "once", "`%s` does not act exactly once" % n
                    return
                a = d[0][2:]
                if n == "cancel_timer":
                    if a != ("arg1",):
                        yield "arg", "another timer is cancelled"
                    return
                if "component" not in a[0] or "weak" not in a[0]:
                    yield "component", "the timeout is scheduled for another component (%s)" % a[0]
                if list(a[1:]) != ["arg%d" % i for i in range(1, k)]:
                    yield "args", "the timeout is scheduled with other times or another action (%s)" % (a[1:],)
                if flat(val) != "handle":
                    yield "handle", "the handle is lost"
            run_trace(ctx, p, "facade", b, Trace(p, ev, chk, inline=lambda c, bb: False))
