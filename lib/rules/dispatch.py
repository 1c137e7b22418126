"""D01-D06: dispatchers, actor registry, routing policies, connection queues."""
from kit import *
from trace import *
from rules import prop
from rules.supervision import adt_named
from rules.ports import inherent, traitfn, field_names, need, settled
from rules.wire import fn_in, in_log


# ------------------------------------------------------------------------------------------------- D04
def policies(p):
    """Implementations of the routing policy trait by method: {type: {method: body}}"""
    out = {}
    for b in p.bodies:
        if b.kind == "AssocFn" and b.trait and last_seg(b.trait) == "RoutingPolicy" and b.crate == "kompact" and "test" not in b.file:
            out.setdefault(b.self_adt or b.self_ty, {})[b.name] = b
    return out


class Each(Rule):
    """Every item the iterator yields is given to the consumer once, in order, before the function returns normally."""
    inline_depth = 10
    init = ((), False, None, False)      # items obtained and not yet given away, iterator exhausted, peeked item, ended by an error

    def __init__(self, p, source, consume, inline, value):
        self.prog, self.source, self.consume, self.inl, self.value = p, source, consume, inline, value
        self.paths = set()
        self.gave = 0

    def may_inline(self, c, b):
        return self.inl(c, b)

    def item(self, pend, env, peek):
        used = set(pend) | ({peek} if peek is not None else set())
        i = next((i for i in range(4) if i not in used), None)
        if i is None:
            self.sim.violate("left", "items of the collection pile up without being handed the value")
        return i

    def which(self, v):
        s = self.sim.load_through(self.env, v)
        for x in (v, s):
            if x[0] == "y":
                y = x[1]
                while isinstance(y, tuple) and y and y[0] in ("ld", "val"):
                    y = y[1]
                if isinstance(y, tuple) and y[0] == "item":
                    return y[1]
            if x[0] in ("r", "kr"):
                w = self.sim.load_through(self.env, x)
                if w[0] == "y" and w[1][0] == "item":
                    return w[1][1]
        return None

    def call(self, st, c):
        f = c.fn
        self.env = c.env
        pend, over, peek, bad = st
        if in_log(c):
            return Outcome(st=st)
        if f is None:
            return None
        got = self.consume(c, self)
        if got is not None:
            v, what = got
            i = self.which(v)
            self.gave += 1
            if i is None:
                self.sim.violate("stranger", "something else than an item of the collection is handed the value")
                return Outcome(st=st)
            if i not in pend:
                self.sim.violate("twice", "an item of the collection is handed the value twice")
            elif pend[0] != i:
                self.sim.violate("order", "items are handed the value out of order")
            if not self.value(c, what):
                self.sim.violate("value", "an item is handed something else than the value or its copy: %s" % deep(c.sim, c.env, what)[:80])
            return Outcome(st=(tuple(x for x in pend if x != i), over, peek, bad))
        tr = f.trait or ""
        if tr.endswith("Iterator") and f.name in ("next", "into_iter", "iter", "peekable", "by_ref", "fuse") or f.name in ("iter", "peekable", "peek"):
            src = c.sim.load_through(c.env, c.args[0])
            ident = src if src == ("y", ("source",)) else ("y", ("source",)) if self.source(c, c.args[0]) else None
            if f.name in ("into_iter", "iter", "peekable", "by_ref", "fuse"):
                return Outcome(ret=("y", ("source",)), st=st) if ident else None
            if ident is None:
                self.sim.violate("other-source", "it does not go over the whole collection as it was given")
                return None
            if f.name == "next":
                if peek == "end":
                    return Outcome(ret=("v", Sim.OPT, "None", ()), st=(pend, True, None, bad))
                if peek is not None:
                    return Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("item", peek))),)), st=(pend + (peek,), over, None, bad))
                i = self.item(pend, c.env, peek)
                if i is None:
                    return Outcome(st=st, stop=True)
                self.sim.purge_symbol_phi(c.env, ("item", i))
                none = Outcome(ret=("v", Sim.OPT, "None", ()), st=(pend, True, None, bad))
                if over:
                    return none
                return [none, Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("item", i))),)), st=(pend + (i,), over, None, bad))]
            if f.name == "peek":
                i = peek if isinstance(peek, int) else self.item(pend, c.env, None)
                some = Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("item", i))),)), st=(pend, over, i, bad))
                none = Outcome(ret=("v", Sim.OPT, "None", ()), st=(pend, over, "end", bad))
                return none if over or peek == "end" else some if peek is not None else [none, some]
        if f.name == "try_clone":
            s = ("y", ("copy",))
            return [Outcome(ret=("v", Sim.RES, "Ok", (("0", s),)), st=st), Outcome(ret=("v", Sim.RES, "Err", (("0", ("y", ("clone-error",))),)), st=(pend, over, peek, True))]
        if f.name == "clone" and not f.args[:1] == ():
            return Outcome(ret=("y", ("copy",)), st=st)
        return None

    def ret(self, st, c, val):
        pend, over, peek, bad = st
        self.paths.add((st, val if vdepth(val) < 12 else None))
        self.sim = c.sim
        if bad:
            return
        if pend:
            self.sim.violate("left", "it returns with an item of the collection still to be handed the value")
        if not over and peek != "end":
            self.sim.violate("early", "it returns before the collection is at its end")
        if val[0] == "v" and val[2] == "Err":
            self.sim.violate("err", "it reports an error after all items were handed the value")


GROUPS = ("groups.rs", "iter_extras.rs")


def near(*files):
    return lambda c, b: b.kind == "Closure" or any(b.file.endswith(f) for f in files)


LEN = ("y", ("members-len",))


def emptiness(st, facts):
    """What a path knows about the members: 'empty', 'some' or None."""
    for x in st:
        if x[0] == "empty":
            return "empty" if x[1] else "some"
    for s, v in facts.items():
        if v[0] == "c" and s == LEN[1]:
            return "some" if v[1] else "empty"
        if v[0] == "not" and s == LEN[1] and 0 in v[1]:
            return "some"
        if isinstance(s, tuple) and s and s[0] == "bin" and v[0] == "c" and LEN in s[2:4]:
            op, l, r = s[1:4]
            if r == LEN:
                op, l, r = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), r, l
            if not v[1]:
                op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
            if r[0] == "c" and (op == "Ne" and r[1] == 0 or op == "Gt" and r[1] >= 0 or op == "Ge" and r[1] >= 1):
                return "some"
            if r[0] == "c" and (op == "Eq" and r[1] == 0 or op == "Lt" and r[1] == 1 or op == "Le" and r[1] == 0):
                return "empty"
    return None


class Pick(Trace):
    """One member chosen by an index into the members."""

    def index(self, iv):
        return iv

    def arith(self, op, a, b):
        if op in ("Rem", "Div") and b == LEN:
            env, site = self.cur_op
            if emptiness(self.cur_st, {k[1]: v for k, v in env.items() if k[0] == "\u03c6"}) != "some":
                self.sim.violate("crash", "the number of members divides although the group may have none")
        return None

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)


def picks(p, members, msg, offset):
    """Events of choosing and telling a member; members, msg, offset: how the three show."""
    def ev(c):
        f = c.fn
        if in_log(c):
            return E()
        at = [c.sim.ident(c.env, a) for a in c.args]
        if f is None:
            if c.args and "field_extractor" in flat(c.fval):
                return E("extract", "msg" if msg(at[0]) else flat(at[0]), ret=("y", ("key",)))
            return None
        n = f.name
        if n == "is_empty" and members(at[0]):
            return E("empty", 1, ret=("c", 1), alts=[E("empty", 0, ret=("c", 0))])
        if n == "len" and members(at[0]):
            return E(ret=LEN)
        if n == "first" and members(at[0]):
            return E("empty", 1, ret=("v", Sim.OPT, "None", ()), alts=[E("empty", 0, ret=("v", Sim.OPT, "Some", (("0", ("y", ("fld", at[0], ("c", 0)))),)))])
        if n in ("rem_euclid", "rem") and len(c.args) == 2 and deep(c.sim, c.env, c.args[1]) == flat(LEN) and any("<impl %s>" % u in f.path for u in ("usize", "u64", "u32", "u128")):
            c.sim.rule.cur_op = (c.env, c.site)
            c.sim.rule.arith("Rem", c.args[0], LEN)
            return E(ret=("y", ("bin", "Rem", c.args[0], LEN, None)))
        if n == "checked_rem" and deep(c.sim, c.env, c.args[1]) == flat(LEN):
            return E("empty", 1, ret=("v", Sim.OPT, "None", ()), alts=[E("empty", 0, ret=("v", Sim.OPT, "Some", (("0", ("y", ("bin", "Rem", c.args[0], LEN, None))),)))])
        if n in ("get", "get_unchecked", "index") and c.args and members(at[0]):
            el = ("y", ("fld", at[0], c.args[1]))
            if n != "get":
                return E(ret=el)
            if c.args[1][0] == "y" and c.args[1][1][:2] == ("bin", "Rem") and c.args[1][1][3] == LEN:
                return E(ret=some_(el))
            return E("outside", ret=("v", Sim.OPT, "None", ()), alts=[E(ret=("v", Sim.OPT, "Some", (("0", el),)))])
        if n in ("hash_one",):
            return E("hash", flat(at[0]), flat(at[1]), ret=("y", ("hash",)))
        if n.startswith("fetch_") or n in ("store", "swap", "compare_exchange", "load") and offset(at[0]):
            return E("count", n, flat(c.args[1]) if n != "load" else "", ret=("y", ("counter", n)))
        if n in ("tell", "tell_serialised", "enqueue", "actor_ref_tell"):
            m = at[0]
            while m[0] in ("y", "ld") and isinstance(m[1], tuple):
                m = m[1]
            who = None
            if m[0] == "fld" and members(m[1]):
                who = m[2]
            return E("tell", who if who is None or vdepth(who) < 10 else "?", bool(msg(at[1])))
        return None
    return ev


def picked(kind):
    def check(st, val, facts, c):
        n = count(st, "tell")
        e = emptiness(st, facts)
        if e == "empty":
            if n:
                yield "tell-none", "a member of an empty group is told"
            return
        if n != 1:
            yield "not-one", "the message is given to %d members instead of one" % n
            return
        who, same = next(x[1:] for x in st if x[0] == "tell")
        if not same:
            yield "other-message", "another message is given to the member"
        x = None
        if isinstance(who, tuple) and who[0] == "y" and who[1][0] == "bin" and who[1][1] == "Rem" and who[1][3] == LEN:
            x = who[1][2]
        if x is None:
            yield "member", "the member is not chosen by a number modulo the number of members: %s" % (flat(who) if who else "?")
            return
        if kind == "cycle":
            cs = [y for y in st if y[0] == "count"]
            if x != ("y", ("counter", "fetch_add")) or [y[1:] for y in cs] != [("fetch_add", "1")]:
                yield "cycle", "the member is not the one after the last one told: %s, %s" % (flat(x), cs)
        else:
            ex = [y for y in st if y[0] == "extract"]
            hs = [y for y in st if y[0] == "hash"]
            if x != ("y", ("hash",)) or len(hs) != 1 or not ex or any(y[1] != "msg" for y in ex) or "key" not in hs[0][2] or "hasher_builder" not in hs[0][1]:
                yield "key", "the member does not depend on the hash of the message's key alone: %s" % flat(x)
    return check


@prop("D04")
def d04(ctx):
    p = ctx.prog("net")
    ps = policies(p)
    ctx.anchor("routing policies", ps, 3)
    # handing a value to every item of an iterator
    for name in ("for_each_with", "for_each_try_with"):
        for b in need(ctx, [b for b in p.bodies if b.name == name and b.file.endswith("iter_extras.rs") and b.kind == "AssocFn"], name):
            def consume(c, r):
                if c.fn.trait and c.fn.name in ("call", "call_mut", "call_once") and not c.bodies:
                    tp = c.sim.load_through(c.env, c.args[1])
                    if tp[0] == "v" and len(tp[3]) == 2:
                        return tp[3][0][1], tp[3][1][1]
            r = Each(p, lambda c, v: "arg0" in flat(c.sim.ident(c.env, v)) or "arg0" in flat(c.sim.load_through(c.env, v)), consume, near(*GROUPS),
                     lambda c, v: (lambda w: w == ("y", ("copy",)) or "arg1" in flat(w))(resolve(c.sim, c.env, v)))
            go(ctx, p, "each", b, r)

    arg = lambda i: lambda v: isinstance(v, tuple) and (v[:2] == ("arg", i) or v[0] == "y" and v[1][:2] == ("arg", i))
    for ty, ms in sorted(ps.items()):
        kind = "cast" if ty.endswith("BroadcastRouting") else "cycle" if ty.endswith("RoundRobinRouting") else "hash" if "HashBucket" in ty else None
        if not ctx.ob("policy", kind is not None, ty, "a routing policy this check does not know"):
            continue
        b = ms["route"]
        if kind == "cast":
            def consume(c, r):
                if c.fn.name == "tell":
                    return c.args[0], c.args[1]
            r = Each(p, lambda c, v: arg(1)(c.sim.ident(c.env, v)) or arg(1)(c.sim.load_through(c.env, v)), consume, near(*GROUPS),
                     lambda c, v: (lambda w: w == ("y", ("copy",)) or arg(2)(w))(resolve(c.sim, c.env, v)))
            go(ctx, p, "all", b, r)
        else:
            r = Pick(p, picks(p, arg(1), arg(2), lambda v: "offset" in flat(v)), picked(kind), keep=lambda s: True, inline=near(*GROUPS))
            run_trace(ctx, p, "one", b, r)
        # the parts of a policy
        for part, have in (("broadcast", kind == "cast"), ("select", kind != "cast")):
            def check(st, val, facts, c, have=have, part=part):
                if val[0] != "v" or (val[2] == "Some") != have:
                    yield "part", "%s() is %s although the policy %s one" % (part, flat(val), "is" if have else "is not")
                elif have and not arg(0)(c.sim.ident(c.env, val[3][0][1])):
                    yield "part-self", "%s() is not the policy itself: %s" % (part, flat(val))
            run_trace(ctx, p, "parts", ms[part], Trace(p, lambda c: None, check, inline=near(*GROUPS)))

        def copied(st, val, facts, c, kind=kind):
            v = c.sim.load_through(c.env, val)
            t = deep(c.sim, c.env, v)
            n = [x for x in st if x[0] == "new"]
            if kind == "cycle" and [x[1] for x in n] != ["now"]:
                yield "copy", "the copy does not go on where the original is: %s" % t
            if kind == "hash" and not ("hasher_builder" in t and "field_extractor" in t):
                yield "copy", "the copy does not use the same hasher and field: %s" % t

        def evc(c):
            f = c.fn
            if f is None:
                return None
            if f.name == "load" and "offset" in flat(c.sim.ident(c.env, c.args[0])):
                return E(ret=("y", ("now",)))
            if f.name == "new" and "Atomic" in f.path:
                return E("new", flat(c.args[0]))
            if f.name == "new" and "Box" in f.path:
                return E(ret=c.args[0])
            if f.name == "clone" and (not c.bodies or touches(c.sim.ident(c.env, c.args[0]), "hasher_builder")):
                return E(ret=objval(c.sim, c.env, c.args[0]))
        if kind != "cast":
            run_trace(ctx, p, "copy", ms["boxed_clone"], Trace(p, evc, copied, inline=near(*GROUPS)))
    # the group hands all its members and the message to the policy
    for b in need(ctx, inherent(p, "RoutingGroup", "route"), "RoutingGroup::route"):
        def ev(c):
            if in_log(c):
                return E()
            if c.fn is not None and c.fn.name == "route":
                return E("route", *[flat(c.sim.ident(c.env, a)) for a in c.args[:3]])

        def check(st, val, facts, c):
            if [x[1:] for x in st if x[0] == "route"] != [("arg0.policy", "arg0.members", "arg1")]:
                yield "group", "the group does not hand its members and the message to its policy once: %s" % (st,)
        run_trace(ctx, p, "group", b, Trace(p, ev, check))
    for b in need(ctx, inherent(p, "RoutingGroup", "new"), "RoutingGroup::new"):
        run_trace(ctx, p, "group", b, Trace(p, lambda c: None, lambda st, v, f, c: [] if [flat(x) for n, x in sorted(v[3])] == ["arg0", "arg1"] else [("new", "a group is not made of the given members and policy: %s" % flat(v))]))
    # keys hash the same every time
    for b in need(ctx, [b for b in p.bodies if b.name == "build_hasher" and b.file.endswith("groups.rs")], "build_hasher"):
        run_trace(ctx, p, "hasher", b, Trace(p, lambda c: E("made", c.fn.path if c.fn else "?", (c.fn.self_ty or "") if c.fn else ""), lambda st, v, f, c: [] if len(st) == 1 and "default" in st[0][1].lower() and "RandomState" not in repr(st) else [("hasher", "the hasher is not the fixed default one: %s" % (st,))]))
    for b in need(ctx, [b for b in p.bodies if b.name == "sender" and b.file.endswith("net_message.rs") and b.kind == "AssocFn"], "NetMessage::sender"):
        run_trace(ctx, p, "key", b, Trace(p, lambda c: None, lambda st, v, f, c: [] if flat(c.sim.ident(c.env, v)) == "arg0.sender" else [("sender", "the key of a message is not its sender: %s" % flat(v))]))
    uses = []
    for b in p.bodies:
        for bl in b.blocks:
            for x in bl["s"]:
                if x[0] == "=" and x[2][0] == "cast" and x[2][2][0] == "k" and isinstance(x[2][2][1], dict) and "fn" in x[2][2][1] and "NetMessage) -> &" in str(x[2][4]) and "ActorPath" in str(x[2][4]):
                    uses.append(b)
                    f = x[2][2][1]["fn"]
                    ctx.ob("key", f.path.endswith("NetMessage::sender"), bkey(b) + ":field", "the key of a message is %s, not its sender" % f.path, where(b))
    ctx.anchor("uses of the sender as key", uses, 2)


def go(ctx, p, rule, b, r):
    s = Sim(p, r, 60000)
    r.sim = s
    try:
        s.run(b)
    except Budget as e:
        raise ToolError(str(e))
    ctx.simulated(s)
    ctx.count("paths", len(r.paths))
    k = bkey(b)
    ctx.ob(rule, bool(r.paths) and r.gave > 0, k + ":no-path", "no path through the function could be followed", where(b))
    for v in s.violations:
        ctx.ob(rule, False, "%s:%s" % (k, v["key"]), v["msg"], where(b), v["trace"])
    import sys
    if "-v" in sys.argv:
        print("==", rule, b.id)
        for x in sorted(r.paths, key=repr)[:40]:
            print("   ", x)


# ------------------------------------------------------------------------------------------------- D03
LOOKUP = ("lookup/mod.rs", "paths.rs", "path_trie.rs", "messaging/mod.rs")


class Store(Trace):
    """Events on the tables of the actor store; keys shown by where they come from."""

    def __init__(self, p, check=None, more=None, **kw):
        Trace.__init__(self, p, self.event, check, **kw)
        self.more = more
        self.inl = self.inl or (lambda c, b: b.kind == "Closure" or b.file.endswith(("lookup/mod.rs", "paths.rs", "messaging/mod.rs")) and b.name not in ("validate_insert_path", "validate_lookup_path", "parse_path"))

    def where_(self, c, v):
        w = flat(c.sim.ident(c.env, v))
        return next((t for t in ("uuid_map", "name_map", "deadletter") if touches(c.sim.ident(c.env, v), t)), None)

    def key(self, c, v):
        return deep(c.sim, c.env, c.sim.ident(c.env, v))

    def event(self, c):
        f = c.fn
        if in_log(c) or c.body.blocks[c.block].get("m") in ("format", "debug_assert", "panic", "unreachable"):
            return E()
        if f is None:
            return None
        if self.more:
            e = self.more(c)
            if e is not None:
                return e
        n = f.name
        if n in ("validate_insert_path", "validate_lookup_path"):
            k = self.key(c, c.args[0])
            return E("valid", n, k, ret=("v", Sim.RES, "Ok", (("0", ("v", "tuple", None, ())),)), alts=[E("invalid", n, k, ret=("v", Sim.RES, "Err", (("0", ("y", ("parse-error",))),)))])
        if n == "parse_path":
            return E(ret=("y", ("parsed", c.sim.ident(c.env, c.args[0]))))
        t = self.where_(c, c.args[0]) if c.args else None
        if t and n in ("insert", "insert_owned", "remove", "get", "get_node", "contains_key", "retain", "replace", "is_some", "take", "clear", "entry", "is_none", "get_mut", "remove_entry", "drain"):
            a = [self.key(c, x) for x in c.args[1:]]
            if n == "retain":
                return None
            nm = "read" if n in ("get", "get_node", "contains_key", "is_some", "is_none") else "write"
            r = ("y", (n, t))
            if n in ("get", "get_node"):
                return E("miss", t, *a, ret=("v", Sim.OPT, "None", ()), alts=[E("hit", t, *a, ret=("v", Sim.OPT, "Some", (("0", ("y", (n, t))),)))])
            if n in ("insert", "insert_owned", "replace", "remove"):
                old = ("y", ("old", t))
                return E(nm, n, t, *a, ret=("v", Sim.OPT, "None", ()), alts=[E(nm, n, t, *a, ret=("v", Sim.OPT, "Some", (("0", old),)))])
            return E(nm, n, t, *a, ret=r)
        return None


def kinds(facts, root):
    """Variants a path took of an enum value and of what it holds: 'Path.Named' ..."""
    return {flats(k): v for k, v in facts.items()}


WHERE = {"Unique": "uuid_map", "Named": "name_map", "Alias": "name_map", "Segments": "name_map", "ActorId": "uuid_map", "System": "deadletter"}


def destination(k):
    """Which table and which part of the path a key shows."""
    for n in ("Unique", "Named", "Alias", "Segments", "ActorId", "System"):
        if "." + n in k or n in k:
            return n
    return None


KEYS = {"arg1.Path.0.Unique.0.id": "uuid_map", "arg1.Path.0.Named.0.path": "name_map", "parsed:arg1.Alias.0": "name_map", "arg1.Segments.0": "name_map", "arg1.ActorId.0": "uuid_map", None: "deadletter"}


@prop("D03")
def d03(ctx):
    p = ctx.prog("net")
    store(ctx, p)
    for q in (p, ctx.prog("implicit")):
        lookup(ctx, q, q is not p)
    cleaning(ctx, p)
    single(ctx, p)
    trie(ctx, p)
    reaper(ctx, p)


def store(ctx, p):
    K = lambda s: "discr" in flats(s)
    seen = {"insert": set(), "contains": set()}

    def inserted(st, val, facts, c):
        ws = [x for x in st if x[0] == "write"]
        bad = [x for x in st if x[0] == "invalid"]
        failed = val[0] == "v" and val[2] == "Err"
        if failed:
            if ws:
                yield "half", "an insertion that fails changes the tables: %s" % (ws,)
            if not bad:
                yield "refused", "an insertion fails although its path is valid"
            return
        if val[0] != "v" or val[2] != "Ok":
            yield "result", "what the insertion returns is not followed: %s" % flat(val)
            return
        if bad:
            yield "invalid", "an insertion of an invalid path succeeds"
        if len(ws) != 1:
            yield "once", "an insertion writes %d entries" % len(ws)
            return
        w = ws[0]
        k = None if w[2] == "deadletter" else w[3]
        entry = w[-1]
        if KEYS.get(k) != w[2] or w[1] not in ("insert", "insert_owned", "replace"):
            yield "where", "the entry is stored at %s of %s" % (k, w[2])
            return
        seen["insert"].add(k)
        if entry != ("Ref(arg2)" if w[2] == "name_map" else "arg2"):
            yield "what", "%s is stored instead of the given actor" % entry
        if w[2] == "name_map" and not any(x == ("valid", "validate_insert_path", k) for x in st[:st.index(w)]):
            yield "unchecked", "a name is stored that is not known to be valid: %s" % k
        r = flat(val[3][0][1])
        if r not in ("None",) and "old:" + w[2] not in r:
            yield "previous", "the previous entry is not returned: %s" % r

    def policy_set(st, val, facts, c):
        ws = [x for x in st if x[0] == "write"]
        if val[0] == "v" and val[2] == "Err":
            if ws or not has(st, "invalid"):
                yield "half", "a policy is refused wrongly or after the tables changed: %s" % (st,)
            return
        if len(ws) != 1 or ws[0][2:] != ("name_map", "copy:arg1", "Policy(arg2)") or ws[0][1] != "insert_owned":
            yield "policy", "the policy is not stored at its path: %s" % (ws,)
        elif not before(st, "valid", "write") or not any(x == ("valid", "validate_insert_path", "arg1") for x in st):
            yield "unchecked", "a policy is stored under a name that is not known to be valid"

    def contained(st, val, facts, c):
        rs = [x for x in st if x[0] in ("read", "hit", "miss")]
        if has(st, "write"):
            yield "changes", "asking whether a path is taken changes the tables"
        if len(rs) != 1:
            if val == ("c", 0) and has(st, "invalid"):
                return
            yield "once", "asking whether a path is taken looks at %d entries" % len(rs)
            return
        x = rs[0]
        t, k = (x[2], x[3] if len(x) > 3 else None) if x[0] == "read" else (x[1], x[2])
        if KEYS.get(None if t == "deadletter" else k) != t:
            yield "where", "the entry is looked for at %s of %s" % (k, t)
            return
        seen["contains"].add(None if t == "deadletter" else k)
        want = ("y", (x[1], t)) if x[0] == "read" else ("c", 1 if x[0] == "hit" else 0)
        if val != want:
            yield "answer", "the answer is not whether there is an entry: %s" % flat(val)

    def copy(c):
        if c.fn.name in ("to_vec", "to_owned", "clone") and c.fn.krate not in ("kompact",):
            return E(ret=("y", ("copy", c.sim.ident(c.env, c.args[0]))))
    for b in need(ctx, traitfn(p, "ActorLookup", "insert", "ActorStore"), "ActorStore::insert"):
        run_trace(ctx, p, "insert", b, Store(p, inserted, keep=K))
    for b in need(ctx, traitfn(p, "ActorLookup", "set_routing_policy", "ActorStore"), "ActorStore::set_routing_policy"):
        run_trace(ctx, p, "insert", b, Store(p, policy_set, copy, keep=K))
    for b in need(ctx, traitfn(p, "ActorLookup", "contains", "ActorStore"), "ActorStore::contains"):
        run_trace(ctx, p, "contains", b, Store(p, contained, keep=K))
    for n in ("insert", "contains"):
        ctx.ob("insert", seen[n] == set(KEYS), n + ":kinds", "%s does not treat every kind of path: %s" % (n, sorted(map(str, set(KEYS) - seen[n]))))


class Find(Store):
    """Looking a name up."""

    def __init__(self, p, check, **kw):
        Store.__init__(self, p, check, self.more_, on_iter=self.round, keep=lambda s: True, **kw)

    def index(self, iv):
        return iv

    def kind(self, X):
        """Which kind of entry the current element is, as the path knows."""
        for k, v in self.env.items():
            if k[0] == "\u03c6" and k[1][0] == "discr" and has_site(k[1], ("elem", X)) and v[0] == "c":
                return v[1]
        return None

    def round(self, X, opened, items, rule):
        g = [x[1] for x in items if x[0] == "gives"]
        return tuple(g), self.kind(X)

    def each_end(self, st, note, v, env):
        X = note[1]
        self.env = env
        n = last_seg(note[3])
        if n in ("flat_map", "filter_map"):
            w = self.sim.load_through(env, v)
            if w[0] == "v" and w[2] == "Some":
                st = self.add(st, ("gives", flat(self.sim.ident(env, w[3][0][1]))))
            elif not (w[0] == "v" and w[2] == "None"):
                st = self.add(st, ("gives", "?"))
        elif n not in ("for_each",):
            st = self.add(st, ("gives", "? " + n))
        return self.close(st, X)

    def more_(self, c):
        f, n = c.fn, c.fn.name
        at = [c.sim.ident(c.env, a) for a in c.args]
        fl = flat(at[0]) if at else ""
        path = lambda: fl == "arg1"
        if n == "is_empty" and path():
            return E("empty", 1, ret=("c", 1), alts=[E("empty", 0, ret=("c", 0))])
        if n == "len" and path():
            return E(ret=("y", ("n",)))
        last = ("v", Sim.OPT, "Some", (("0", ("y", ("last",))),))
        if n in ("last",) and path():
            return E("empty", 1, ret=("v", Sim.OPT, "None", ()), alts=[E("empty", 0, ret=last)])
        if n == "split_last" and path():
            return E("empty", 1, ret=("v", Sim.OPT, "None", ()), alts=[E("empty", 0, ret=("v", Sim.OPT, "Some", (("0", ("v", "tuple", None, (("0", ("y", ("last",))), ("1", ("y", ("parent",)))))),)))])
        islast = fl in ("arg1.(n Sub 1)", "last") or "(n Sub 1)" in repr(fl) and fl.startswith("arg1") or at and at[0] == ("fld", ("arg", 1, "path"), ("y", ("bin", "Sub", ("y", ("n",)), ("c", 1)))) or at and at[0][0] == "fld" and flat(at[0][1]) == "arg1" and flat(at[0][2]) == "(n Sub 1)"
        if n == "index" and path():
            r = deep(c.sim, c.env, c.args[1])
            return E(ret=("y", ("parent",)) if r == "RangeTo((n Sub 1))" or r == "Range(0,(n Sub 1))" else ("y", ("part", r)))
        if n == "chars" and islast:
            return E(ret=("y", ("letters",)))
        if n == "next" and c.sim.load_through(c.env, c.args[0]) == ("y", ("letters",)):
            return E("marker", "*", ret=some_(("c", 42)), alts=[E("marker", "?", ret=some_(("c", 63))), E("marker", None, ret=some_(("c", 97)))])
        if n in ("starts_with", "eq", "ends_with") and islast:
            ch = deep(c.sim, c.env, c.args[1]).strip("'")
            ch = {"42": "*", "63": "?"}.get(ch, ch)
            had = [x[1] for x in self.cur_st if x[0] == "marker"]
            no = [x[1] for x in self.cur_st if x[0] == "unmarked"]
            if had:
                return E(ret=("c", int(had[0] == ch)))
            if ch in no:
                return E(ret=("c", 0))
            return E("marker", ch, ret=("c", 1), alts=[E("unmarked", ch, ret=("c", 0))])
        if fl in ("get_node:name_map",) or "get_node:name_map" in fl and not fl.startswith("entry"):
            if n == "value":
                return E("none", ret=("v", Sim.OPT, "None", ()), alts=[E("entry", ret=some_(("y", ("entry",))))])
            if n == "values":
                return E(ret=("y", ("iter", ("y", ("get_node", "name_map")), "values")))
        if n in ("broadcast", "select") and fl.startswith(("entry", "the-policy")):
            return E("part", n, 0, ret=("v", Sim.OPT, "None", ()), alts=[E("part", n, 1, ret=some_(("y", ("policy-part", n))))])
        if n == "deref" and fl.startswith("entry"):
            return E(ret=("y", ("the-policy", fl)))
        if n == "push":
            return E("gives", flat(c.sim.ident(c.env, c.args[1])))
        if n == "collect":
            return E(ret=("y", ("children",)))
        if n in ("new", "with_capacity") and "Vec" in f.path:
            return E(ret=("y", ("children",)))
        if n == "new" and "RoutingGroup" in f.path:
            return E(ret=("v", "group", "Grp", (("0", at[0]), ("1", c.args[1]))))
        return None

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)


def some_(x):
    return ("v", Sim.OPT, "Some", (("0", x),))


def lookup(ctx, p, implicit):
    def check(st, val, facts, c):
        rs = [x for x in st if x[0] in ("read", "hit", "miss")]
        if val[0] != "v":
            if len(rs) == 1 and rs[0][1:] == ("deadletter",):
                return
        if has(st, "write"):
            yield "changes", "looking up a path changes the tables"
        t = flat(val)
        if [x[1] for x in st if x[0] == "empty"] == [1]:
            if "deadletter" not in t and t != "None":
                yield "system", "the system's own path does not lead to the dead letters: %s" % t
            return
        m = [x[1] for x in st if x[0] == "marker"]
        m = m[0] if m else None
        rs = [x for x in rs if x[1] != "deadletter"]
        if len(rs) != 1:
            yield "reads", "a lookup looks at %d places" % len(rs)
            return
        key = "parent" if m else "arg1"
        if rs[0][1:] != ("name_map", key):
            yield "place", "with the marker %s, the lookup goes to %s" % (m, rs[0][1:])
        if rs[0][0] == "miss":
            if t != "None":
                yield "miss", "%s is found at a path without a node" % t
            return
        if has(st, "none"):
            if m and implicit:
                want = "DEFAULT_BROADCAST_POLICY" if m == "*" else "DEFAULT_SELECT_POLICY"
                if not (t.startswith("Group") and want in t):
                    yield "implicit", "the marker %s leads to %s" % (m, t)
                elif not t.startswith("Group(Grp(children,"):
                    yield "group", "the group is not made of the entries below the path: %s" % t
            elif t != "None":
                yield "nothing", "%s is found at a path without an entry" % t
            return
        if not has(st, "entry"):
            yield "entry", "what is stored at the path is not looked at"
            return
        kind = [v[1] for k, v in facts.items() if k[0] == "discr" and flats(k[1]) == "entry" and v[0] == "c"]
        kind = kind[0] if kind else None
        if kind == 0:
            if m and not t.startswith("Err"):
                yield "marked-actor", "the marker %s at an actor's path leads to %s" % (m, t)
            if not m and t != "Ref(entry.Ref.0)":
                yield "actor", "an actor's path leads to %s" % t
        elif kind == 1:
            if m:
                n = "broadcast" if m == "*" else "select"
                ps = [x[1:] for x in st if x[0] == "part"]
                if len(ps) != 1 or ps[0][0] != n:
                    yield "part", "the marker %s asks for %s" % (m, ps)
                elif ps[0][1] and not (t.startswith("Group(Grp(children,") and "policy-part:" + n in t):
                    yield "group", "the marker %s leads to %s" % (m, t)
                elif not ps[0][1] and not t.startswith("Err"):
                    yield "no-part", "the marker %s leads to %s although the policy has no such part" % (m, t)
            elif not t.startswith("Group(Grp(children,the-policy:entry.Policy.0") and not t.startswith("Group(Grp(children,'the-policy"):
                yield "policy", "a policy's path leads to %s" % t
        else:
            yield "kind", "the kind of the entry is not looked at"
        for x in st:
            if x[0] == "iters" and "name_map" in repr(x[1]):
                g, k = x[2]
                if x[1][2] == "part" or k == 0 and list(g) != ["elem(get_node:name_map).Ref.0"] and not (len(g) == 1 and g[0].endswith(".Ref.0") and "elem(" in g[0]) or k == 1 and g or k is None:
                    yield "members", "the members of a group are not all actors below its path: %s" % (x[2],)
    for b in need(ctx, traitfn(p, "ActorLookup", "get_by_named_path", "ActorStore"), "get_by_named_path"):
        r = Find(p, check)
        run_trace(ctx, p, "lookup", b, r)
        ms = {x[1] for st, v in r.paths for x in st if x[0] == "marker"}
        ctx.ob("lookup", {"*", "?"} <= ms, "markers", "the markers of a path are not told apart: %s" % sorted(map(str, ms)), where(b))
        ctx.ob("lookup", any(x[0] == "iters" and "name_map" in repr(x[1]) for st, v in r.paths for x in st), "members", "no loop over the entries below a path was found", where(b))


class Clean(Store):
    """Removing entries: which the conditions keep."""

    def __init__(self, p, check, ask, **kw):
        Store.__init__(self, p, check, self.more_, on_iter=self.round, keep=lambda s: True, inline=lambda c, b: b.kind == "Closure" or b.file.endswith("lookup/mod.rs"), **kw)
        self.ask = ask
        self.rounds = set()

    def table(self, X):
        r = repr(X)
        return "name_map" if "name_map" in r else "uuid_map" if "uuid_map" in r else "doomed" if "doomed" in r else None

    def round(self, X, opened, items, rule):
        kind = None
        for k, v in self.env.items():
            if k[0] == "\u03c6" and k[1][0] == "discr" and has_site(k[1], ("elem", X)) and v[0] == "c":
                kind = v[1]
        how = [x for x in items if x[0] in ("asked", "keeps", "removed", "doom")]
        self.rounds.add((self.table(X), kind if self.table(X) == "name_map" else None, tuple(how)))
        return None

    def each_end(self, st, note, v, env):
        X = note[1]
        self.env = env
        n = last_seg(note[3])
        if v[0] == "y" and env.get(("\u03c6", v[1]), ("?",))[0] == "c":
            v = env[("\u03c6", v[1])]
        if n == "retain":
            st = self.add(st, ("keeps", v[1] if v[0] == "c" else "?"))
        elif n == "filter":
            st = self.add(st, ("doom", v[1] if v[0] == "c" else "?"))
        elif n == "filter_map":
            w = self.sim.load_through(env, v)
            st = self.add(st, ("doom", 1 if w[0] == "v" and w[2] == "Some" else 0 if w[0] == "v" else "?"))
        return self.close(st, X)

    def more_(self, c):
        f, n = c.fn, c.fn.name
        at = [c.sim.ident(c.env, a) for a in c.args]
        a = self.ask(c, n, at)
        if a is not None:
            return E("asked", 1, ret=("c", a[0]), alts=[E("asked", 0, ret=("c", a[1]))])
        if n in ("filter", "filter_map", "map", "collect") and touches(at[0], "uuid_map") or n in ("map", "collect", "filter_map") and flat(at[0]).startswith(("doomed", "each(doomed", "filter", "map")):
            if n == "collect":
                return E(ret=("y", ("doomed",)))
        if n in ("len", "count") and flat(at[0]).startswith("doomed"):
            return E(ret=("y", ("number-doomed",)))
        if n == "push":
            return E("doom", 1)
        if n in ("new", "with_capacity") and "Vec" in f.path:
            return E(ret=("y", ("doomed",)))
        if n == "remove" and at and touches(at[0], "uuid_map"):
            k = flat(at[1])
            return E("removed", "doomed" if "doomed" in k else k, ret=("y", ("removed",)))
        return None


def cleaning(ctx, p):
    def judge(what, b, r, name):
        """Exactly the entries asked for go: the name tree keeps what the condition does not single out, and all policies."""
        rs = r.rounds
        nm = [x for x in rs if x[0] == "name_map"]
        um = [x for x in rs if x[0] == "uuid_map"]
        dm = [x for x in rs if x[0] == "doomed"]
        ctx.ob(what, bool(nm) and bool(um), name + ":both", "%s does not go over both tables" % name, where(b))
        for t, kind, how in nm:
            h = dict(how)
            keeps = h.get("keeps")
            if kind == 1:
                ctx.ob(what, keeps == 1, name + ":policy", "a policy is removed", where(b))
            elif kind == 0:
                ctx.ob(what, "asked" in h and keeps == 1 - h["asked"], name + ":names", "a named entry is %s although the actor %s" % ("kept" if keeps else "removed", {1: "is to go", 0: "is not to go", None: "is not looked at"}[h.get("asked")]), where(b))
            else:
                ctx.ob(what, False, name + ":kind", "the kind of a named entry is not looked at", where(b))
        for t, kind, how in um:
            h = dict(how)
            if "keeps" in h:
                ctx.ob(what, "asked" in h and h["keeps"] == 1 - h["asked"], name + ":ids", "an entry is %s although its actor %s" % ("kept" if h["keeps"] else "removed", h.get("asked")), where(b))
            elif "doom" in h or "asked" in h:
                ctx.ob(what, "asked" in h and h.get("doom", 0) == h["asked"], name + ":ids", "an entry is %s although its actor %s" % ("removed" if h.get("doom") else "kept", h.get("asked")), where(b))
                ctx.ob(what, bool(dm) and all(dict(x[2]).get("removed") == "doomed" for x in dm), name + ":removed", "the entries found are not all removed", where(b))

    def dead(c, n, at):
        if n == "can_upgrade_component":
            if "elem(" not in flat(at[0]):
                return None
            return (0, 1)                       # asked=1: gone

    def gone(c, n, at):
        # asked=1: this is the actor to remove
        if n in ("eq", "ne") and len(at) == 2:
            f = [deep(c.sim, c.env, x) for x in c.args] + [flat(x) for x in at]
            if any("elem(" in x for x in f) and any(x.startswith("arg1") for x in f):
                return (1, 0) if n == "eq" else (0, 1)
    for name, ask, bs in (("cleanup", dead, traitfn(p, "ActorLookup", "cleanup", "ActorStore")), ("remove", gone, traitfn(p, "ActorLookup", "remove", "ActorStore"))):
        for b in need(ctx, bs, "ActorStore::" + name):
            def check(st, val, facts, c):
                for x in st:
                    if x[0] == "write" and x[1] in ("clear", "take", "drain", "insert", "insert_owned", "replace"):
                        yield "writes", "cleaning up changes a table otherwise: %s" % (x,)
                    if x[0] in ("iters", "end") and x[1][2] == "part":
                        yield "part", "only a part of the entries is looked at"
                    if x[0] in ("removed",) and x[1] != "doomed":
                        yield "other", "an entry other than those found is removed: %s" % (x,)
            r = Clean(p, check, ask)
            run_trace(ctx, p, name, b, r)
            if "-v" in __import__("sys").argv:
                print(r.rounds)
            judge(name, b, r, name)


def single(ctx, p):
    """Lookups and removals of one entry."""
    K = lambda s: "discr" in flats(s)

    def byid(st, val, facts, c):
        rs = [x for x in st if x[0] in ("read", "hit", "miss")]
        t = flat(val)
        if has(st, "write") or len(rs) != 1 or rs[0][1:] != ("uuid_map", "arg1"):
            yield "place", "an id is looked for at %s" % (rs,)
        elif rs[0][0] == "hit" and t != "Some(get:uuid_map)" or rs[0][0] == "miss" and t != "None":
            yield "answer", "an id leads to %s" % t
    for b in need(ctx, traitfn(p, "ActorLookup", "get_by_uuid", "ActorStore"), "get_by_uuid"):
        run_trace(ctx, p, "lookup", b, Store(p, byid, keep=K))

    def ev(c):
        n = c.fn.name
        if n == "get_by_uuid":
            k = deep(c.sim, c.env, c.args[1])
            return E("id", 0, k, ret=("v", Sim.OPT, "None", ()), alts=[E("id", 1, k, ret=some_(("y", ("by-id",))))])
        if n == "get_by_named_path":
            return E("name", deep(c.sim, c.env, c.args[1]), ret=("y", ("by-name",)))

    def bypath(st, val, facts, c):
        t = flat(val)
        ks = [x for x in st if x[0] in ("id", "name")]
        if len(ks) != 1:
            yield "once", "a path is looked up %d times" % len(ks)
        elif ks[0][0] == "name" and (ks[0][1] != "arg1.Named.0.path" or t != "by-name"):
            yield "name", "a named path leads to %s of %s" % (t, ks[0][1])
        elif ks[0][0] == "id" and (ks[0][2] != "arg1.Unique.0.id" or t != ("Ref(by-id)" if ks[0][1] else "None")):
            yield "id", "a unique path leads to %s of %s" % (t, ks[0][2])
    for b in need(ctx, [b for b in p.bodies if b.name == "get_by_actor_path" and b.kind == "AssocFn"], "get_by_actor_path"):
        run_trace(ctx, p, "lookup", b, Store(p, bypath, ev, keep=K))

    def rem(table):
        def check(st, val, facts, c):
            ws = [x for x in st if x[0] == "write"]
            if not ws and has(st, "miss") and val == ("c", 0):
                return
            if [x[1:] for x in ws] != [("remove", table, "arg1")]:
                yield "place", "an entry is removed at %s" % (ws,)
        return check
    for n, t in (("remove_by_uuid", "uuid_map"), ("remove_by_named_path", "name_map")):
        for b in need(ctx, traitfn(p, "ActorLookup", n, "ActorStore"), n):
            run_trace(ctx, p, "remove-one", b, Store(p, rem(t), keep=K))

    def alive(st, val, facts, c):
        if [x[0] for x in st] != ["upgrade"] or "component" not in st[0][1] or settled(flat(val)) != str(st[0][2]):
            yield "alive", "a reference counts as alive by something else than its component being there: %s -> %s" % (st, flat(val))
    for b in need(ctx, inherent(p, "DynActorRef", "can_upgrade_component"), "can_upgrade_component"):
        def evu(c):
            if c.fn is not None and c.fn.name in ("upgrade", "strong_count"):
                k = flat(c.sim.ident(c.env, c.args[0]))
                if c.fn.name == "upgrade":
                    return E("upgrade", k, 0, ret=("v", Sim.OPT, "None", ()), alts=[E("upgrade", k, 1, ret=some_(("y", ("up",))))])
                return E("upgrade", k, 0, ret=("c", 0), alts=[E("upgrade", k, 1, ret=("c", 1))])
        run_trace(ctx, p, "alive", b, Trace(p, evu, alive))


class Descend(Trace):
    """Walking the tree by a key: one child per fragment, from the root to the end of the key."""
    NODE = ("y", ("arg", 0, "self"))

    def __init__(self, p, check, how, **kw):
        Trace.__init__(self, p, self.event, check, on_iter=self.round, inline=lambda c, b: b.kind == "Closure" or b.file.endswith("path_trie.rs") and b.name not in ("insert_recursive", "remove_recursive", "retain_recursive"), keep=lambda s: True, **kw)
        self.how = how

    def at(self, st):
        for x in reversed(st):
            if x[0] == "at":
                return x[1]
        return ("arg", 0, "self")

    def base(self, k):
        while isinstance(k, tuple) and k and k[0] in ("y", "ld", "r") and isinstance(k[1], tuple):
            k = k[1] if k[0] != "r" else self.sim.sym_of_key(k[1])
        return k

    def add(self, st, item):
        if item is not None and item[0] == "at":
            self.events["at"] = self.events.get("at", 0) + 1
            return tuple(x for x in st if x[0] != "at") + (("step", item[2]), item[:2])
        return Trace.add(self, st, item)

    def close(self, st, X):
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == X:
                it = [x for x in st[j + 1:]]
                keep = tuple(x for x in st if x[0] == "at")
                n = ("iters", X, tuple(x[1] for x in it if x[0] == "step"))
                if any(x[0] == "gone" for x in it):
                    return tuple(x for x in st[:j] if x[0] != "at") + tuple(x for x in it if x[0] == "gone") + keep
                rest = tuple(x for x in st[:j] if x[0] != "at")
                return (rest if n in rest else rest + (n,)) + keep
        return st

    def round(self, *a):
        return None

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        st = self.cur_st
        n = f.name
        if n in ("get", "get_mut", "entry") and c.args and touches(c.sim.ident(c.env, c.args[0]), "children"):
            r = c.sim.ident(c.env, c.args[0])
            holder = self.holder(c, c.args[0])
            key = deep(c.sim, c.env, c.args[1])
            good = holder == self.at(st) and key.startswith("elem(")
            cur = self.at(st)
            nxt = ("node", 1 if cur == ("node", 0) else 0)
            c.sim.purge_symbol_phi(c.env, nxt)
            node = ("y", nxt)
            if n == "entry":
                return E("at", nxt, good, ret=node)
            return E("gone", good, ret=("v", Sim.OPT, "None", ()), alts=[E("at", nxt, good, ret=some_(node))])
        if n in ("or_insert_with", "or_default", "or_insert", "or_insert_with_key"):
            return E(ret=c.args[0])
        if n in ("replace", "insert", "take") and c.args and touches(c.sim.ident(c.env, c.args[0]), "value"):
            v = c.args[1] if len(c.args) > 1 else None
            if v is not None and f.path.startswith(("core::mem", "std::mem")):
                w = c.sim.load_through(c.env, v)
                v = w[3][0][1] if w[0] == "v" and w[2] == "Some" and w[3] else ("y", ("nothing",))
            return E("value", n, self.holder(c, c.args[0]) == self.at(st), flat(v) if v is not None else "", ret=("y", ("old-value",)))
        return None

    def holder(self, c, v):
        """The node a reference to one of its fields belongs to."""
        k = c.sim.ident(c.env, v)
        for _ in range(8):
            if isinstance(k, tuple) and k[0] in ("y", "ld") and isinstance(k[1], tuple):
                k = k[1]
            elif isinstance(k, tuple) and k[0] == "fld" and k[2] in ("children", "value"):
                k = k[1]
            elif isinstance(k, tuple) and k[0] == "r":
                k = c.sim.sym_of_key(k[1])
            else:
                break
        if isinstance(k, tuple) and k[0] == "call" and last_seg(str(k[2])) == "fold":
            return self.at(self.cur_st)
        return k

    def call(self, st, c):
        self.cur_st = st
        self.env = c.env
        return Trace.call(self, st, c)

    def each(self, st, c, cl):
        r = Trace.each(self, st, c, cl)
        if r is not None and c.fn.name in ("fold", "try_fold"):
            st2, note, ps = r
            return st2, note, (("y", self.at(st2)), ps[1])
        return r

    def each_args(self, st, note):
        return (("y", self.at(st)),) + note[5][1:] if last_seg(note[3]) in ("fold", "try_fold") else note[5]

    def each_stop(self, st, note, v, env):
        if last_seg(note[3]) == "try_fold":
            w = self.sim.load_through(env, v)
            return w if w[0] == "v" and w[2] == "None" else None

    def each_value(self, st, path):
        if path and last_seg(path) == "try_fold":
            return some_(("y", self.at(st)))

    def done(self, st, X, name):
        return Trace.done(self, st, X, "fold" if name == "try_fold" else name)

    def each_none(self, st, c):
        if c.fn is not None and c.fn.name == "try_fold":
            self.env = c.env
            return self.done(st, self.each_sym(c), "fold")
        return Trace.each_none(self, st, c)

    def each_end(self, st, note, v, env):
        self.env = env
        if last_seg(note[3]) in ("fold", "try_fold"):
            if last_seg(note[3]) == "try_fold":
                v = self.sim.load_through(env, v)
                if v[0] == "v" and v[2] == "None":
                    return self.close(st, note[1])
                v = v[3][0][1] if v[0] == "v" and v[3] else v
            w = self.base(self.sim.load_through(env, v))
            if w != self.at(st) and self.base(v) != self.at(st):
                st = self.add(st, ("astray",))
        return self.close(st, note[1])


def trie(ctx, p):
    def walked(st):
        for x in st:
            if x[0] == "iters" and x[2] != (True,):
                return "a fragment of the key is followed %s" % ("%d times" % len(x[2]) if len(x[2]) != 1 else "from another node or by another fragment")
            if x[0] in ("iters", "end") and x[1][2] == "part":
                return "a part of the key is left out"
            if x[0] == "astray":
                return "the walk goes on from another node than the child found"
            if x[0] == "gone" and not x[1] or x[0] == "step" and not x[1]:
                return "a child is looked for below another node or by another fragment"

    def found(value):
        def check(st, val, facts, c):
            w = walked(st)
            if w:
                yield "walk", w
            v = c.sim.load_through(c.env, val)
            if has(st, "gone"):
                if not (v[0] == "v" and v[2] == "None"):
                    yield "gone", "a path without a node leads to %s" % flat(v)
                return
            if not has(st, "end"):
                yield "short", "the walk ends before the end of the key"
                return
            t = deep(c.sim, c.env, v)
            cur = flats(c.sim.rule.at(st))
            if value:
                if not (cur + ".value" in t or t == "None" and any(cur + ".value" in flats(k) for k in facts)):
                    yield "value", "the value of another node is returned: %s" % t
            elif t != "Some(%s)" % cur:
                yield "node", "another node than the one reached is returned: %s" % t
        return check
    for n, val in (("get_node", False), ("get", True)):
        for b in need(ctx, inherent(p, "PathTrie", n), "PathTrie::" + n):
            run_trace(ctx, p, "trie", b, Descend(p, found(val), None))

    def stored(st, val, facts, c):
        w = walked(st)
        if w:
            yield "walk", w
        vs = [x for x in st if x[0] == "value"]
        if len(vs) != 1 or vs[0][1] not in ("replace", "insert") or vs[0][3] != "arg2":
            yield "value", "the value is not stored once: %s" % (vs,)
        elif not vs[0][2]:
            yield "node", "the value is stored at another node than the one reached"
        elif vs[0][1] == "replace" and val != ("y", ("old-value",)):
            yield "old", "the previous value is not returned"
    for b in need(ctx, inherent(p, "PathTrie", "insert_owned"), "PathTrie::insert_owned"):
        run_trace(ctx, p, "trie", b, Descend(p, stored, None))


def fact(env, pred):
    """What the path decided about the symbol pred accepts."""
    for k, v in env.items():
        if k[0] == "\u03c6" and v[0] == "c" and pred(k[1]):
            return v[1]
    return None


class Tree(Trace):
    """Recursive work on a node of the tree and the walk over its values."""

    def __init__(self, p, check, name, **kw):
        Trace.__init__(self, p, self.event, check, on_iter=self.round, on_write=self.wrote, keep=lambda s: True, inline=lambda c, b: b.kind == "Closure" or b.file.endswith("path_trie.rs") and b.name not in (name, "is_empty"), **kw)
        self.name = name
        self.rounds = set()

    def round(self, X, opened, items, rule):
        self.rounds.add((flats(X), tuple(x for x in items if x[0] in ("down", "keeps"))))

    def wrote(self, c, key, val):
        if key and key[-1] == ("f", "value") and flatkey(key).startswith("arg0"):
            return ("set", flat(val))

    def each_end(self, st, note, v, env):
        self.env = env
        if v[0] == "y" and env.get(("\u03c6", v[1]), ("?",))[0] == "c":
            v = env[("\u03c6", v[1])]
        if last_seg(note[3]) == "retain":
            st = self.add(st, ("keeps", v[1] if v[0] == "c" else "?"))
        return self.close(st, note[1])

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        at = [flat(c.sim.ident(c.env, a)) for a in c.args]
        if n == self.name and f.krate == "kompact":
            return E("down", 1, *at, ret=("c", 1), alts=[E("down", 0, *at, ret=("c", 0))])
        if n == "is_empty" and at[0] == "arg0.children" or n in ("is_none", "is_some") and at[0] == "arg0.value":
            k = "no-children" if n == "is_empty" else "no-value"
            neg = n == "is_some"
            return E(k, 1, ret=("c", 1 - neg), alts=[E(k, 0, ret=("c", 0 + neg))])
        if n == "is_empty" and f.krate == "kompact":
            return E("asks-empty", at[0], ret=("y", ("emptiness",)))
        if n in ("first", "split_first") and at[0] == "arg1":
            one = ("y", ("fragment",))
            return E("end", ("key",), ret=("v", Sim.OPT, "None", ())) if False else E("last", ret=("v", Sim.OPT, "None", ()), alts=[E("more", ret=some_(one if n == "first" else ("v", "tuple", None, (("0", one), ("1", ("y", ("rest",)))))))])
        if n == "is_empty" and at[0] == "arg1":
            return E("last", ret=("c", 1), alts=[E("more", ret=("c", 0))])
        if n == "index" and at[0] == "arg1":
            return E(ret=("y", ("rest",)) if deep(c.sim, c.env, c.args[1]) == "RangeFrom(1)" else ("y", ("part",)))
        if n == "get_mut" and "arg0.children" in at[0]:
            k = at[1]
            return E("no-child", k, ret=("v", Sim.OPT, "None", ()), alts=[E("child", k, ret=some_(("y", ("child",))))])
        if n == "borrow":
            return E(ret=c.args[0])
        if n == "remove" and "arg0.children" in at[0]:
            return E("cut", at[1])
        if n == "swap" and len(at) == 2:
            return E("take", *sorted(flat(a) if a[0] != "r" else flatkey(a[1]) for a in c.args))
        if n == "take" and "arg0.value" in (flatkey(c.args[0][1]) if c.args[0][0] == "r" else at[0]):
            return E("taken", ret=("y", ("the-value",)))
        if n in ("call", "call_mut", "call_once") and f.trait and not c.bodies:
            a = deep(c.sim, c.env, c.args[1])
            return E("cond", 1, a, ret=("c", 1), alts=[E("cond", 0, a, ret=("c", 0))])
        return None


def tells_empty(st, val, env):
    """The answer says whether the node is empty once all else is done."""
    last = max([i for i, x in enumerate(st) if x[0] in ("down", "cut", "take", "taken", "set", "iters", "end")] + [-1])
    late = st[last + 1:]
    if val == ("y", ("emptiness",)):
        return any(x == ("asks-empty", "arg0") for x in late)
    kids = [x[1] for x in late if x[0] == "no-children"]
    none = [x[1] for x in late if x[0] == "no-value"]
    if val == ("c", 1):
        return bool(kids and kids[-1] and none and none[-1])
    return val == ("c", 0) and (bool(kids) and not kids[-1] or bool(none) and not none[-1])


def reaper(ctx, p):
    # removal of one node and of many
    def removed(st, val, facts, c):
        d = [x for x in st if x[0] == "down"]
        cut = [x for x in st if x[0] == "cut"]
        took = [x for x in st if x[0] in ("take", "taken")]
        if has(st, "last"):
            if d or cut or len(took) != 1:
                yield "last", "at the end of the key: %s" % (st,)
            elif took[0][0] == "take" and took[0][1:] != ("arg0.value", "arg2"):
                yield "last", "the value of another node is taken: %s" % (took,)
        else:
            if took:
                yield "early", "a value is taken before the end of the key"
            if has(st, "child"):
                if len(d) != 1 or d[0][2:] != ("child", "rest", "arg2"):
                    yield "down", "the rest of the key is not followed below the child: %s" % (d,)
                elif [x[1] for x in cut] != ["fragment"] * d[0][1]:
                    yield "cut", "a child is %s although its subtree is %s" % ("removed" if cut else "kept", "empty" if d[0][1] else "not empty")
            elif d or cut:
                yield "no-child", "something is removed for a key that is not there"
            if any(x[0] in ("child", "no-child") and x[1] != "fragment" for x in st):
                yield "fragment", "another child than the key names is followed"
        if not tells_empty(st, val, c.env):
            yield "result", "the node is not reported by whether it is empty afterwards: %s" % flat(val)
    for b in need(ctx, inherent(p, "PathTrie", "remove_recursive"), "PathTrie::remove_recursive"):
        run_trace(ctx, p, "trie", b, Tree(p, removed, "remove_recursive"))

    def retained(st, val, facts, c):
        cd = [x for x in st if x[0] == "cond"]
        sets = [x for x in st if x[0] in ("set", "taken")]
        hasv = fact(c.env, lambda s: s[0] == "discr" and flats(s[1]) == "arg0.value")
        if hasv == 1 and len(cd) != 1 or any("arg0.value" not in x[2] for x in cd):
            yield "asked", "the condition is not put to the node's value: %s" % (cd,)
        gone = bool(sets)
        if cd and gone != (cd[0][1] == 0) or not cd and gone:
            yield "kept", "the value is %s although the condition %s" % ("removed" if gone else "kept", "holds" if cd and cd[0][1] else "does not hold")
        if any(x[0] == "set" and x[1] != "None" for x in sets):
            yield "value", "the value is replaced"
        if not (whole(st, lambda X: "arg0.children" in flats(X))):
            yield "children", "not all children are gone through"
        if not tells_empty(st, val, c.env):
            yield "result", "the node is not reported by whether it is empty afterwards: %s" % flat(val)
    for b in need(ctx, inherent(p, "PathTrie", "retain_recursive"), "PathTrie::retain_recursive"):
        r = Tree(p, retained, "retain_recursive")
        run_trace(ctx, p, "trie", b, r)
        rs = {x[1] for x in r.rounds}
        ok_ = bool(rs) and all(len(x) == 2 and x[0][0] == "down" and "elem(" in x[0][2] and x[1] == ("keeps", 1 - x[0][1]) for x in rs)
        ctx.ob("trie", ok_, "retain:children", "children are not kept exactly when they still hold something: %s" % sorted(rs, key=repr), where(b))
    for n, good in (("is_empty", ("is_leaf", "value")), ("is_leaf", ("children",))):
        for b in need(ctx, inherent(p, "PathTrie", n), "PathTrie::" + n):
            def ev(c):
                if c.fn is not None and c.fn.name in ("is_empty", "is_none", "is_some", "len"):
                    k = flat(c.sim.ident(c.env, c.args[0]))
                    neg = c.fn.name == "is_some"
                    return E(k, 1, ret=("c", 1 - neg), alts=[E(k, 0, ret=("c", 0 + neg))])

            def check(st, val, facts, c, n=n):
                want = {"arg0.children"} | ({"arg0.value"} if n == "is_empty" else set())
                yes = {x[0] for x in st if x[1]}
                no = {x[0] for x in st if not x[1]}
                if val == ("c", 1) and yes != want or val == ("c", 0) and not no & want or val[0] != "c":
                    yield "empty", "%s answers %s for %s" % (n, flat(val), st)
            run_trace(ctx, p, "trie", b, Trace(p, ev, check, inline=lambda c, b: b.file.endswith("path_trie.rs")))
    # the walk over all values below a node
    for b in need(ctx, [b for b in p.bodies if b.name == "next" and b.file.endswith("path_trie.rs") and b.kind == "AssocFn"], "Values::next"):
        run_trace(ctx, p, "walk", b, Walk(p))
    for b in need(ctx, inherent(p, "PathTrie", "values"), "PathTrie::values"):
        def check(st, val, facts, c):
            g = {n: flat(x) for n, x in val[3]} if val[0] == "v" else {}
            if g.get("root") != "arg0" or g.get("root_visited") != "0":
                yield "start", "the walk does not start at the node: %s" % g
        run_trace(ctx, p, "walk", b, Trace(p, lambda c: None, check))
    sweep(ctx, p)


class Walk(Trace):
    """Depth-first walk: every node met is entered once, its value returned if it has one."""

    def __init__(self, p):
        Trace.__init__(self, p, self.event, self.left, keep=lambda s: True, on_write=self.wrote)

    def wrote(self, c, key, val):
        if key[-1] == ("f", "root_visited"):
            return ("visited", flat(val))

    def settle(self, c, st, returned):
        """The node met since the last step down was entered and its value not passed over."""
        for who, val in (("child", "child.value"), ("root", "arg0.root.value")):
            met = has(st, "met-" + who)
            if not met:
                continue
            into = [x for x in st if x[0] == "push"]
            if [x[1] for x in into] != [("child" if who == "child" else "arg0.root") + ".children"]:
                yield "enter", "a node that is met is entered %d times (%s)" % (len(into), into)
            v = fact(c.env, lambda s: s[0] == "discr" and flats(s[1]) == val)
            if returned is None and v != 0:
                yield "skipped", "a node's value may be passed over"
            if returned is not None and returned != val + ".Some.0":
                yield "value", "the walk yields %s instead of the value of the node it met" % returned
        if not has(st, "met-child") and not has(st, "met-root") and returned is not None:
            yield "stranger", "the walk yields %s without having met a node" % returned
        if has(st, "push") and not (has(st, "met-child") or has(st, "met-root")):
            yield "enter", "a node is entered that was not met"

    def root(self, st):
        return st + (("met-root",),) if has(st, "visited") else st

    def report(self, xs):
        for k, m in xs:
            self.sim.violate(k, m)

    def call(self, st, c):
        self.cur_st = st
        f = c.fn
        if f is not None and f.name == "last_mut" and touches(c.sim.ident(c.env, c.args[0]), "stack"):
            self.report(self.settle(c, self.root(st), None))
            if any(x[0] == "over" for x in st) and not has(st, "pop"):
                self.sim.violate("stuck", "an exhausted level is not left")
            for k in [k for k in c.env if k[0] == "\u03c6" and "child" in flats(k[1])]:
                del c.env[k]
            if fact(c.env, lambda s: flats(s).endswith("root_visited")) == 0 and not has(st, "visited") and not has(st, "started"):
                self.sim.violate("again", "the walk does not note that it has met its root")
            keep = (("started",),) if has(st, "visited") or has(st, "started") else ()
            return [Outcome(ret=("v", Sim.OPT, "None", ()), st=keep + (("bottom",),)), Outcome(ret=some_(("y", ("level",))), st=keep + (("top",),))]
        return Trace.call(self, st, c)

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        i = flat(c.sim.ident(c.env, c.args[0])) if c.args else ""
        if n == "next" and "level.child_iter" in i:
            t = ("v", "tuple", None, (("0", ("y", ("name",))), ("1", ("y", ("child",)))))
            return E("over", ret=("v", Sim.OPT, "None", ()), alts=[E("met-child", ret=some_(t))])
        if n == "push" and "stack" in i:
            a = deep(c.sim, c.env, c.args[1])
            import re
            m = re.search(r"each\(([^()]*)\)|\(([^()]*children)[^()]*\)", a)
            k = (m.group(1) or m.group(2)) if m else a
            return E("met-root") if False else E("push", k)
        if n == "pop" and "stack" in i:
            return E("pop")
        if n in ("iter",):
            return None
        return None

    def left(self, st, val, facts, c):
        st2 = self.root(st)
        if val[0] != "v":
            t = flat(val)
            if t in ("child.value", "arg0.root.value") and fact(c.env, lambda s: s[0] == "discr" and flats(s[1]) == t) == 1:
                for k, m in self.settle(c, st2, t + ".Some.0"):
                    yield k, m
            else:
                yield "result", "what the walk yields is not followed: %s" % t
            return
        r = flat(c.sim.ident(c.env, val[3][0][1])) if val[2] == "Some" else None
        if r is None:
            if not has(st, "bottom"):
                yield "end", "the walk ends before every node was met"
            return
        for k, m in self.settle(c, st2, r):
            yield k, m


def flatc(v):
    return flat(v) + ("#%s" % (v[1][2],) if v[0] == "y" and v[1][0] == "copy" else "")


def sweep(ctx, p):
    """The periodic clean-up: works on a copy that replaces the table, at an interval within bounds."""
    class Rcu(Trace):
        def each(self, st, c, cl):
            if c.fn is not None and c.fn.name == "rcu":
                X = ("iter", ("rcu",), "rcu")
                return self.open(st, X, "rcu"), ("each", X, "rcu", c.fn.path), (("y", ("current",)),)
            return Trace.each(self, st, c, cl)

        def close(self, st, X):
            for j in range(len(st) - 1, -1, -1):
                if st[j][0] == "[" and st[j][1] == X:
                    r = ("round",) + tuple(st[j + 1:])
                    return st[:j] + (() if r in st[:j] else (r,))
            return st

        def each_end(self, st, note, v, env):
            self.env = env
            w = self.sim.load_through(env, v)
            return self.close(self.add(st, ("stores", flatc(w))), note[1])

    def ev(c):
        f = c.fn
        if in_log(c):
            return E()
        if f is None:
            return None
        if f.name == "clone" and c.args:
            k = flat(c.sim.ident(c.env, c.args[0]))
            return E(ret=("y", ("copy", k, c.site)))
        if f.name == "cleanup":
            return E("cleanup", flatc(c.sim.load_through(c.env, c.args[0])), ret=("y", ("removed",)))
        if f.name in ("store", "swap") and "lookup" in flat(c.sim.ident(c.env, c.args[0])):
            return E("overwrites")

    def ran(st, val, facts, c):
        rs = [x for x in st if x[0] == "round"]
        if has(st, "overwrites"):
            yield "store", "the table is replaced without regard to changes made meanwhile"
        for r in rs:
            it = r[1:]
            cl = [x for x in it if x[0] == "cleanup"]
            s_ = [x[1] for x in it if x[0] == "stores"]
            if len(cl) != 1 or not cl[0][1].startswith("copy") or "current" not in cl[0][1] or s_ != [cl[0][1]]:
                yield "copy", "the table is not replaced by a cleaned copy of itself: %s" % (it,)
        if not rs and has(st, "cleanup"):
            yield "copy", "the clean-up does not replace the table"
    for b in need(ctx, inherent(p, "ActorRefReaper", "run"), "ActorRefReaper::run"):
        r = Rcu(p, ev, ran, inline=lambda c, b: b.kind == "Closure" or near("gc.rs", "mod.rs")(c, b) and b.self_adt and last_seg(b.self_adt) == "ActorRefReaper")
        run_trace(ctx, p, "reaper", b, r)
        ctx.ob("reaper", any(has(st, "round") for st, v in r.paths), "round", "the clean-up never replaces the table", where(b))

    def bound(name, op, limit):
        def ev(c):
            f = c.fn
            if f is not None and f.name in ("min", "max", "clamp") and f.krate == "core":
                return E(ret=("y", (f.name,) + c.args))

        def check(st, val, facts, c):
            v = next((x[1] for x in reversed(st) if x[0] == "set"), None)
            if v is None:
                yield "unset", "the interval is not updated"
                return
            t = flat(v)
            y = v[1] if v[0] == "y" else ()
            ok_ = y[:1] == (op,) and any(flat(a) == "arg0." + limit for a in y[1:]) or y[:1] == ("clamp",) and [flat(a) for a in y[2:]] == ["arg0.min", "arg0.max"] or t == "arg0." + limit
            if not ok_:
                for s, w in facts.items():
                    if s[0] == "bin" and {flat(s[2]), flat(s[3])} == {t, "arg0." + limit} and w[0] == "c":
                        l = flat(s[2]) == t
                        lt = {"Lt": -1, "Le": -1, "Gt": 1, "Ge": 1}.get(s[1], 0) * (1 if w[1] else -1) * (1 if l else -1)
                        ok_ = ok_ or lt == (-1 if op == "min" else 1)
            if not ok_:
                yield "bound", "the new interval is not held to the %simum: %s" % (limit, t)
            if "arg0.curr" not in repr_flat(v):
                yield "base", "the new interval does not come from the current one: %s" % t
        return Trace(p, ev, check, keep=lambda s: True, on_write=lambda c, key, val: ("set", val) if key[-1] == ("f", "curr") else None)
    for n, op, lim in (("incr", "min", "max"), ("decr", "max", "min")):
        for b in need(ctx, inherent(p, "UpdateStrategy", n), "UpdateStrategy::" + n):
            run_trace(ctx, p, "interval", b, bound(n, op, lim))
    for b in need(ctx, inherent(p, "UpdateStrategy", "new"), "UpdateStrategy::new"):
        def check(st, val, facts, c):
            g = {n: flat(x) for n, x in val[3]} if val[0] == "v" else {}
            if g != {"curr": "arg0", "min": "arg1", "max": "arg2", "incr": "arg3", "decr": "arg4", "algo": "arg5"}:
                yield "mixed", "the parameters of the interval are mixed up: %s" % g
        run_trace(ctx, p, "interval", b, Trace(p, lambda c: None, check))
    # the dispatchers: clean up, then come back after the current interval
    for b in need(ctx, [b for b in p.bodies if b.name == "schedule_reaper" and b.kind == "AssocFn"], "schedule_reaper"):
        def evs(c):
            f = c.fn
            if in_log(c):
                return E()
            if f is None:
                return None
            if f.name == "is_scheduled":
                return E("first", 0, ret=("c", 1), alts=[E("first", 1, ret=("c", 0))])
            if f.name == "run":
                return E("run", flat(c.sim.ident(c.env, c.args[1])), ret=("y", ("reaped",)))
            if f.name == "curr":
                return E(ret=("y", ("interval",)))
            if f.name in ("incr", "decr"):
                return E("adapt", f.name, ret=("y", ("interval",)))
            if f.name == "schedule":
                return E("mark")
            if f.name == "from_millis":
                return E(ret=("y", ("millis", c.args[0])))
            if f.name in ("schedule_once", "schedule_periodic"):
                cl = c.sim.load_through(c.env, c.args[2] if f.name == "schedule_once" else c.args[3])
                again = cl[0] == "clo" and cl[1] in p.by_h and "schedule_reaper" in repr([x[1].name for x in p.calls(p.by_h[cl[1]]) if x[1] is not None])
                return E("later", flat(c.args[1]), again)

        def check(st, val, facts, c):
            l = [x for x in st if x[0] == "later"]
            if len(l) != 1 or not l[0][2] or l[0][1] not in ("millis:interval", "interval"):
                yield "again", "the clean-up is not set to run again once after the current interval: %s" % (l,)
            if has(st, "first"):
                f1 = ("first", 1) in st
                if f1 and not has(st, "mark"):
                    yield "mark", "the clean-up is not noted as scheduled"
                if not f1 and not has(st, "run"):
                    yield "run", "the clean-up does not run"
            if any(x[0] == "run" and "lookup" not in x[1] for x in st):
                yield "table", "another table is cleaned up: %s" % (st,)
        run_trace(ctx, p, "reaper", b, Trace(p, evs, check, inline=lambda c, b: False))


def repr_flat(v):
    return repr(v).replace("('fld', ('arg', 0, 'self'), 'curr')", "arg0.curr") + flat(v)
