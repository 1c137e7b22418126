"""B01-B04: network buffers."""
from kit import *
from trace import *
from lin import *
from rules import prop
from rules.supervision import adt_named
from rules.system import agg_sites
from rules.ports import inherent, traitfn, field_names, need
from rules.messages import ok, err, some, NONE

DIR = "core/src/net/buffers/"
CMP = "core::cmp::Ordering"
RAWS = ("from_raw_parts_mut", "from_raw_parts", "copy_nonoverlapping", "copy", "copy_from_nonoverlapping", "copy_to_nonoverlapping", "copy_from", "copy_to", "write", "read", "write_bytes", "slice_from_raw_parts_mut", "slice_from_raw_parts", "get_unchecked", "get_unchecked_mut")
LEASES = ("ChunkLease", "ChunkRef")
OWNERS = ("EncodeBuffer", "DecodeBuffer")


def tested(b):
    return "tests" in b.id.split("::")


def inbuf(p):
    return [b for b in p.bodies if b.file and b.file.startswith(DIR) and not tested(b)]


def place(v):
    """Where a reference points, by its path."""
    return flatkey(v[1]) if v[0] == "r" else flat(v)


def owner(pl):
    """X for a place 'X.buffer'"""
    return pl[:-len(".buffer")] if pl.endswith(".buffer") else None


def invariants(names):
    """What holds of buffers between operations; kept by the `offsets` and `leases` rules."""
    out = []
    xs = set()
    for n in names:
        if isinstance(n, str):
            for s in (".write_offset", ".read_offset", ".chain_head_len", ".chain_len", ".content)", ".read_pointer", ".buffer)"):
                if s in n:
                    x = n[:n.index(s)]
                    xs.add(x[4:] if x.startswith("len(") else x)
    for x in xs:
        w, r, ln = {x + ".write_offset": 1}, {x + ".read_offset": 1}, {"len(%s.buffer)" % x: 1}
        out += [ladd(ln, w, -1), ladd(w, r, -1)]
        h, c = {x + ".chain_head_len": 1}, {"len(%s.content)" % x: 1}
        cl, rp = {x + ".chain_len": 1}, {x + ".read_pointer": 1}
        out += [ladd(h, c, -1), ladd(c, h, -1), ladd(cl, h, -1), ladd(cl, rp, -1)]
    return out


def inline_buf(c, b):
    if b.kind == "Closure":
        return True
    if not (b.file or "").startswith(DIR):
        return False
    tr, f = last_seg(b.trait or ""), c.fn
    if tr in ("Buf", "BufMut"):
        # a contract of its own; simple accessors of a known lease are looked into
        return tr == "Buf" and b.name in ("remaining", "advance") and last_seg(b.self_adt or "") in LEASES and f is not None and (len(c.bodies) == 1 or c.body.self_adt == b.self_adt)
    return b.name not in ("get_chunk_at", "get_chunk_mut_at")


class Buf(Trace):
    """Buffer code: raw slices, leases, offsets and swaps are judged where they happen."""

    def __init__(self, p, check=None, more=None, want=(), **k):
        self.more, self.want = more, set(want)
        self.seen = {}
        k.setdefault("inline", inline_buf)
        k.setdefault("keep", lambda s: isinstance(s, tuple) and (s[0] == "bin" or s[0] == "discr" and "'call'" not in repr(s)) or "locked" in flats(s))
        chk = check and (lambda st, val, facts, c: () if proves(facts_of(c.sim, c.env, facts, st), {1: -1}) else check(st, val, facts, c))
        Trace.__init__(self, p, self.event, chk, **k)

    def arith(self, op, a, b):
        if op in ("Add", "Sub") and not (a[0] == "c" and b[0] == "c"):
            l = ladd(lin(self.sim, {}, a), lin(self.sim, {}, b), 1 if op == "Add" else -1)
            if set(l) <= {1} and l.get(1, 0) >= 0:
                return ("c", l.get(1, 0))
            if len(l) <= 8 and all(abs(n) <= (3 if k != 1 else 32) for k, n in l.items()):
                if not any(isinstance(k, str) and (k.count("min(") > 1 or k.count("max(") > 1 or len(k) > 160) for k in l) and sum("min(" in k for k in l if isinstance(k, str)) < 2:
                    return ("y", ("lin", freeze(l)))
        if op in ("Add", "Sub"):
            env, site = self.cur_op
            self.sim.purge_symbol(env, site)
            return ("y", ("call", site, "sum"))
        return None

    def hit(self, what):
        self.seen[what] = self.seen.get(what, 0) + 1

    def cons(self, c, *ls):
        fs = {k[1]: v for k, v in c.env.items() if k[0] == "φ"}
        cs = facts_of(c.sim, c.env, fs, getattr(self, "cur_st", ()))
        return cs + invariants({n for l in cs + list(ls) for n in l})

    def holds(self, c, goal):
        return proves(self.cons(c, goal), goal)

    def judge(self, rule, okay, key, msg):
        self.hit(rule)
        if rule in self.want and not okay:
            self.bad(key, msg)

    def fresh(self, env, X=None):
        return Trace.fresh(self, env, X)

    def event(self, c):
        if self.more:
            e = self.more(c)
            if e is not None:
                return e
        f = c.fn
        if f is None:
            return None
        n, sim, env = f.name, c.sim, c.env
        hd = ty_head(f.self_ty) if f.self_ty else ""
        tr = last_seg(f.trait) if f.trait else ""
        L = lambda i: lin(sim, env, c.args[i])
        who = lambda i: flat(objval(sim, env, c.args[i]))
        foreign = f.krate not in ("kompact", "kompact_net")
        if n == "cmp" and tr == "Ord" and len(c.args) == 2:
            a, b = freeze(L(0)), freeze(L(1))
            o = ("Less", "Equal", "Greater")
            return E("cmp", a, b, o[0], ret=("v", CMP, o[0], ()), alts=[E("cmp", a, b, x, ret=("v", CMP, x, ())) for x in o[1:]])
        if n in ("min", "max") and len(c.args) == 2 and foreign:
            return E(ret=("y", (n, ("lin", freeze(L(0))), ("lin", freeze(L(1))))))
        if n == "as_mut_ptr" and (tr == "Chunk" or "Chunk" in hd) and not foreign:
            x = flat(objval(sim, env, c.args[0]))
            return E(ret=("y", ("ptr", x, (), None)))
        if n in ("as_mut_ptr", "as_ptr", "dangling", "as_ref") and foreign and ("slice" in f.path or "NonNull" in f.path or "Unin" in f.path or "str" in f.path):
            v = sim.load_through(env, c.args[0]) if c.args else ("c", 0)
            if v[0] == "y" and v[1][0] == "ptr":
                return E(ret=v)
            if v[0] == "y" and v[1][0] == "slice":
                return E(ret=("y", ("ptr", v[1][1], v[1][2], v[1][3])))
            if v[0] == "y" and v[1][0] == "room":
                return E(ret=("y", ("ptr", "room", (), freeze(lins(sim, env, ("len", v[1]))))))
            return E(ret=("y", ("ptr", who(0) if c.args else "nowhere", (), None)))
        if n in ("add", "offset", "wrapping_add") and "ptr" in f.path and len(c.args) == 2:
            v = sim.load_through(env, c.args[0])
            if v[0] == "y" and v[1][0] == "ptr":
                return E(ret=("y", ("ptr", v[1][1], freeze(ladd(thaw(v[1][2]), L(1))), v[1][3])))
            return E(ret=("y", ("ptr", "?" + flat(v), freeze(L(1)), None)))
        if n in RAWS and foreign and c.args and ("ptr" in f.path or "slice" in f.path or "intrinsics" in f.path or "Unin" in f.path):
            return self.raw(c, n, hd, L)
        if n == "len" and len(c.args) == 1 and foreign:
            v = sim.load_through(env, c.args[0])
            if v[0] == "y" and v[1][0] in ("slice", "room"):
                return E(ret=("y", ("len", v[1])))
            return E(ret=("y", ("len", who(0)))) if "slice" in f.path else None
        if n == "len" and hd in ("BufferChunk",):
            return E(ret=("y", ("len", who(0))))
        if n == "len" and tr == "Chunk":
            return E(ret=("y", ("len", who(0))))
        if hd == "BufferChunk" and n in ("lock", "get_lock", "free"):
            if n == "lock":
                return E("lock", who(0), place(c.args[0]))
            if n == "get_lock":
                return E(ret=("y", ("lockof", who(0))))
            return E("free", who(0), 1, ret=("c", 1), alts=[E("free", who(0), 0, ret=("c", 0))])
        if hd == "BufferChunk" and n in ("get_slice", "get_lease"):
            return self.cut(c, n, L)
        if n == "swap" and f.path.startswith(("core::mem::", "std::mem::")) and len(c.args) == 2 and "BufferChunk" in "".join(map(str, f.args)):
            a, b = place(c.args[0]), place(c.args[1])
            x = a if owner(a) else b if owner(b) else a
            y = (who(0), who(1), b) if x == a else (who(1), who(0), a)
            return E("swap", x, *y, inline=True)
        if n in ("replace",) and f.path.startswith(("core::mem::", "std::mem::")) and "BufferChunk" in "".join(map(str, f.args)):
            return E("swap", place(c.args[0]), who(0), who(1), "", inline=True)
        if hd == "BufferPool" and n == "get_buffer":
            return E(ret=some(("y", ("pooled", c.site))), alts=[E("nobuffer", ret=NONE)])
        if hd == "BufferPool" and n == "return_buffer":
            return E("returned", who(1))
        if hd == "BufferPool" and n == "try_reserve":
            return E(ret=ok(("v", "tuple", None, ())), alts=[E("nobuffer", ret=err(("y", ("poolerr",))))])
        if tr == "BufMut" and n == "chunk_mut" and hd in ("BufferEncoder", "Self", ""):
            return E(ret=("y", ("room", c.site)))
        if tr == "BufMut" and n == "advance_mut" and hd == "BufferEncoder":
            return E(ret=("v", "tuple", None, ()))
        if n == "remaining" and tr == "Buf" and any(x in (f.self_ty or "") for x in LEASES) and "&" in f.self_ty and c.args[0][0] in ("r", "y"):
            x = c.args[0]
            for _ in range((f.self_ty or "").count("&")):
                if x[0] == "r":
                    x = sim.load(env, x[1])
            a, b = self.fldof(c, x, "chain_len"), self.fldof(c, x, "read_pointer")
            return E(ret=("y", ("lin", freeze(ladd(a, b, -1)))))
        if n in ("split_at", "append_to_chain") and hd in LEASES:
            return self.chainop(c, n, L, who)
        return None

    # every raw slice or copy, at the point where it is made
    def raw(self, c, n, hd, L):
        sim, env = c.sim, c.env

        def ptr(i):
            v = sim.load_through(env, c.args[i])
            return v[1][1:] if v[0] == "y" and v[1][0] == "ptr" else ("?" + flat(v), (), None)
        if n.endswith("raw_parts_mut") or n.endswith("raw_parts"):
            base, off, cap = ptr(0)
            ln = L(1)
            self.inside(c, base, thaw(off), ln, cap, "a slice")
            return E(ret=("y", ("slice", base, off, freeze(ln))))
        if n in ("copy_nonoverlapping", "copy"):
            cnt = L(2)
            for i, w in ((0, "read"), (1, "written")):
                base, off, cap = ptr(i)
                self.inside(c, base, thaw(off), cnt, cap, "memory %s by a copy" % w)
            return E(ret=("v", "tuple", None, ()))
        self.judge("slice", False, "raw:" + n, "memory is accessed by `%s`, whose bounds are not known" % n)
        return None

    def inside(self, c, base, off, ln, cap, what):
        end = ladd(off, ln)
        if base == "nowhere":
            self.judge("slice", zero(self.cons(c, ln), ln), "nowhere", "%s is made from a dangling pointer with length %s" % (what, show(ln)))
            return
        if cap is not None:
            size = thaw(cap)
        elif base.endswith(".chunk"):
            size = {"len(%s)" % base[:-len(".chunk")]: 1}
        elif base.endswith(".content"):
            size = {"len(%s)" % base: 1}
        elif base.startswith("arg"):
            size = {"len(%s)" % base: 1}
        else:
            self.judge("slice", False, "base", "%s is cut from memory that is not followed (%s)" % (what, base))
            return
        self.judge("slice", self.holds(c, ladd(size, end, -1)), "beyond:" + short(base), "%s may reach past the end of its memory: [%s, %s) of %s" % (what, show(off), show(end), show(size)))
        self.judge("slice", self.holds(c, ln) and self.holds(c, off), "negative:" + short(base), "%s may have a negative offset or length: [%s, %s)" % (what, show(off), show(end)))
        if base.endswith(".buffer.chunk"):
            x = base[:-len(".buffer.chunk")]
            w = self.field_at(c, x, "write_offset")
            self.judge("write", self.holds(c, ladd(off, w, -1)), "written:" + short(base), "the writable part of a buffer starts at %s, before the end of what was written (%s)" % (show(off), show(w)))
        elif base.endswith(".chunk"):
            fs = {k[1]: v for k, v in c.env.items() if k[0] == "φ"}
            self.judge("locked", any(v == ("c", 0) and flats(k) == base[:-len("chunk")] + "locked" for k, v in fs.items()), "locked:" + short(base), "a slice of a chunk is made without making sure that it is not locked")

    def field_at(self, c, x, fld):
        """The current value of field `fld` of the object at path x."""
        for k in c.env:
            if isinstance(k, tuple) and k and isinstance(k[0], tuple) and k[0][0] in ("h", "l") and flatkey(k) == x + "." + fld:
                return lin(c.sim, c.env, ("r", k))
        return {x + "." + fld: 1}

    # leases and slices through the chunk's own functions
    def cut(self, c, n, L):
        sim, env = c.sim, c.env
        pl = place(c.args[0])
        x = owner(pl)
        lo, hi = L(1), L(2)
        if x is None:
            return E(n, pl, freeze(lo), freeze(hi), ret=("y", (n, pl, freeze(lo), freeze(hi))))
        w = self.off(c, c.args[0], "write_offset")
        r = self.off(c, c.args[0], "read_offset")
        if n == "get_lease":
            okay = self.holds(c, ladd(w, hi, -1))
            self.judge("lease", okay, "unwritten", "a lease may reach past what was written: [%s, %s), written up to %s" % (show(lo), show(hi), show(w)))
            # the reader either moved on already, or does so later on this path
            ahead = self.holds(c, ladd(r, hi, -1))
            return E("lease", x, freeze(lo), freeze(hi), int(ahead), ret=("y", ("lease", c.site, freeze(ladd(hi, lo, -1)))))
        self.judge("write", self.holds(c, ladd(lo, w, -1)), "written-slice", "the writable part of a buffer starts at %s, before the end of what was written (%s)" % (show(lo), show(w)))
        ln = ladd(hi, lo, -1)
        return E("writable", x, freeze(lo), freeze(hi), ret=("y", ("slice", pl + ".chunk", freeze(lo), freeze(ln))))

    def fldof(self, c, x, fld):
        if x[0] == "r":
            return lin(c.sim, c.env, ("r", x[1] + (("f", fld),)))
        return lin(c.sim, c.env, ("r", (("h", x[1]), ("f", fld))))

    def sib(self, ref, fld):
        k = ref[1]
        return ("r", k[:-1] + (("f", fld),))

    def off(self, c, ref, fld):
        if ref[0] != "r":
            return {"?": 1}
        if not ref[1][1:]:
            # &mut arg0.buffer as an opaque pointer: arg0 and the field are in its name
            s = ref[1][0][1]
            if isinstance(s, tuple) and s[0] == "fld":
                return lin(c.sim, c.env, ("y", ("fld", s[1], fld)))
            return {"?": 1}
        return lin(c.sim, c.env, self.sib(ref, fld))

    def chainop(self, c, n, L, who):
        if n == "split_at":
            return E("split", who(0), freeze(L(1)), ret=("y", ("tail", c.site)))
        return E("append", who(0), who(1))

    def write(self, st, c, key, val):
        r = None
        e = key[-1]
        if e[0] == "f" and e[1] in ("write_offset", "read_offset", "read_pointer", "locked"):
            self.env = c.env
            r = self.moved(st, c, key, val)
        if r is not None:
            return self.add(st, r)
        return Trace.write(self, st, c, key, val)

    def moved(self, st, c, key, val):
        self.cur_st = st
        x, fld = flatkey(key[:-1]), key[-1][1]
        new = lin(c.sim, c.env, val)
        old = lin(c.sim, c.env, ("r", key))
        if fld == "locked":
            return ("setlock", flat(objval(c.sim, c.env, ("r", key[:-1]))), flat(val))
        if fld == "read_pointer":
            ln = lin(c.sim, c.env, ("r", key[:-1] + (("f", "chain_len"),)))
            self.judge("advance", zero([], new) or self.holds(c, ladd(ln, new, -1)), "past-end", "the read pointer may be moved past the end (%s, of %s)" % (show(new), show(ln)))
            return ("moved", x, fld)
        swapped = [i for i, y in enumerate(st) if y[0] == "swap" and owner(y[1]) == x]
        fresh = bool(swapped) and not [y for y in st[swapped[-1]:] if y[0] == "lease" and y[1] == x]
        if fld == "write_offset":
            if not fresh:
                self.judge("offset", self.holds(c, ladd(new, old, -1)), "rewind", "the write position of a buffer may move back from %s to %s, over bytes that were handed out" % (show(old), show(new)))
                buf = {"len(%s)" % flat(objval(c.sim, c.env, ("r", key[:-1] + (("f", "buffer"),)))): 1}
                self.judge("range", self.holds(c, ladd(buf, new, -1)), "overrun", "the write position may move past the end of the buffer (%s, of %s)" % (show(new), show(buf)))
        else:
            if not fresh:
                w = lin(c.sim, c.env, ("r", key[:-1] + (("f", "write_offset"),)))
                self.judge("range", self.holds(c, ladd(w, new, -1)), "read-ahead", "the read position may move past what was written (%s, of %s)" % (show(new), show(w)))
                self.judge("reread", self.holds(c, ladd(new, old, -1)), "read-back", "the read position may move back from %s to %s, over bytes that were handed out" % (show(old), show(new)))
        return ("w", x, fld, freeze(new))


def short(s):
    return s.rsplit("/", 1)[-1][-40:]


def roots(p):
    """Functions judged on their own: those callable from elsewhere and those with callers outside the buffer code."""
    out = []
    for b in inbuf(p):
        if b.kind == "Closure" or b.name in ("fmt", "default", "clone", "eq"):
            continue
        if b.name != "get_slice" and not b.pub and not b.trait and [x for x in p.callers().get(b.h, ()) if x != b.h and x in p.by_h and (p.by_h[x].file or "").startswith(DIR)]:
            continue
        if last_seg(b.self_adt or "") in OWNERS + LEASES + ("BufferEncoder", "BufferChunk"):
            out.append(b)
    return out


def offset_check(st, val, facts, c):
    """A swapped-in buffer starts at the beginning; what is leased is consumed; the old buffer is locked and kept."""
    for i, y in enumerate(st):
        if y[0] == "swap" and owner(y[1]):
            x = owner(y[1])
            for f in ("write_offset", "read_offset"):
                if not any(z[0] == "w" and z[1] == x and z[2] == f for z in st[i + 1:]):
                    yield "offset", "unset-" + f, "`%s` keeps its old value although the buffer was swapped" % f
            if not any(z[0] == "lock" and (z[1] == y[2] or z[2] == y[4]) or z[0] == "setlock" and z[1] == y[2] and z[2] == "1" or z[0] == "returned" and z[1] == y[2] for z in st[i + 1:]):
                yield "swap", "unlocked", "a used buffer is swapped out without being locked"
        if y[0] == "lease" and not y[4]:
            x = y[1]
            later = [z for z in st[i + 1:] if z[0] == "w" and z[1] == x and z[2] == "read_offset" or z[0] == "swap" and owner(z[1]) == x]
            if not later:
                yield "consumed", "again", "bytes are leased without being marked as read"
            elif later[0][0] == "w":
                if not zero(facts_of(c.sim, c.env, facts, st), ladd(thaw(later[0][3]), thaw(y[3]), -1)):
                    yield "consumed", "partly", "the read position is set to %s after leasing up to %s" % (show(thaw(later[0][3])), show(thaw(y[3])))


def targets(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    return []


def loops(b):
    """The function's control flow graph has a cycle (outside cleanup)."""
    g = {}
    for i, blk in enumerate(b.blocks):
        if blk.get("cl"):
            continue
        g[i] = targets(blk["t"])
    state = {}

    def dfs(n):
        state[n] = 1
        for m in g.get(n, ()):
            if state.get(m) == 1 or m not in state and dfs(m):
                return True
        state[n] = 2
        return False
    return dfs(0)


def run_buf(ctx, p, want, names=None):
    seen = {}
    for b in roots(p):
        if names and b.name not in names:
            continue

        def chk(st, val, facts, c):
            for rule, k, m in offset_check(st, val, facts, c):
                if rule in want:
                    yield k, m
        k = {}
        if loops(b):
            k["inline"] = lambda c, x, b=b: inline_buf(c, x) and (x.kind == "Closure" or p.callers().get(x.h, set()) <= {b.h, x.h})
        r = Buf(p, chk, want=want, **k)
        run_trace(ctx, p, "buffers", b, r, anchor=False)
        for k, v in r.seen.items():
            seen[k] = seen.get(k, 0) + v
        for k in ("swap", "lease", "slice", "writable"):
            seen["ev-" + k] = seen.get("ev-" + k, 0) + r.events.get(k, 0)
    return seen


def adt_of(b):
    return last_seg(b.self_adt or "")


def method(p, ty, name, trait=None):
    return [b for b in inbuf(p) if adt_of(b) == ty and b.name == name and (trait is None or last_seg(b.trait or "") == trait)]


def caller_contract(b):
    """`advance_writeable` trusts its caller; its callers are checked instead."""
    return adt_of(b) == "DecodeBuffer" and b.name == "advance_writeable"


def run_rules(ctx, p, want):
    class W:
        def __getattr__(self, n):
            return getattr(ctx, n)

        def ob(self, rule, okay, key, *a):
            if key.endswith(":overrun") and "advance_writeable" in key:
                return
            ctx.ob(rule, okay, key, *a)
    return run_buf(W(), p, want)


# --- B03 -------------------------------------------------------------------------------------

def leaf(v):
    while v[0] == "v" and len(v[3]) == 1:
        v = v[3][0][1]
    return v


def algebra(ctx, p):
    """What each operation of a lease does to its lengths and contents."""
    seen = {}

    def at(c, root, fld):
        return lin(c.sim, c.env, ("r", (("h", ("arg", 0, root)), ("f", fld))))

    def raw(c, fld):
        k = (("h", ("arg", 0, "self")), ("f", fld))
        return c.env.get(k)
    for ty in LEASES:
        for b in need(ctx, method(p, ty, "remaining", "Buf"), "%s::remaining" % ty):
            run(ctx, p, b, lambda st, val, facts, c: same(c, val, {"arg0.chain_len": 1, "arg0.read_pointer": -1}, "remaining", "`remaining` is not the length of the chain less what was read"))
        for b in need(ctx, method(p, ty, "capacity"), "%s::capacity" % ty):
            run(ctx, p, b, lambda st, val, facts, c: same(c, val, {"arg0.chain_len": 1}, "capacity", "`capacity` is not the length of the chain"))

        def at_chunk(n):
            def more(c):
                f = c.fn
                if f is not None and f.name == n and ty_head(f.self_ty or "") in LEASES:
                    a = lin(c.sim, c.env, c.args[1])
                    return E("at", flat(objval(c.sim, c.env, c.args[0])), freeze(a), ret=("y", ("chunkat", flat(objval(c.sim, c.env, c.args[0])), freeze(a))))
                if f is not None and f.name in ("index", "index_mut") and len(c.args) == 2 and f.krate not in ("kompact",):
                    lo = c.args[1]
                    lo = c.sim.load_through(c.env, lo)
                    if lo[0] == "v" and last_seg(lo[1]) in ("RangeFrom", "Range"):
                        fs = dict(lo[3])
                        hi = freeze(lins2(c, fs["end"])) if "end" in fs else None
                        return E("cut", flat(objval(c.sim, c.env, c.args[0])), freeze(lins2(c, fs["start"])), hi, ret=("y", ("cutout", c.site)))
                return None
            return more

        def chunk_at(st, val, facts, c):
            cs = facts_of(c.sim, c.env, facts, st) + invariants(["arg0.chain_head_len"])
            head = proves(cs, {"arg0.chain_head_len": 1, "arg1": -1, 1: -1})
            tail = proves(cs, {"arg0.chain_head_len": -1, "arg1": 1})
            here = [x for x in st if x[0] == "cut"]
            there = [x for x in st if x[0] == "at"]
            rawsl = val[0] == "y" and val[1][0] == "slice"
            if rawsl or here:
                if not head:
                    yield "beyond-head", "bytes of the first part are returned for a position that may lie behind it"
                lo = thaw(val[1][2]) if rawsl else thaw(here[-1][2])
                base = val[1][1] if rawsl else here[-1][1]
                if not zero(cs, ladd(lo, {"arg1": 1}, -1)) or not base.endswith("content"):
                    yield "position", "the bytes returned do not start at the position asked for (%s of %s)" % (show(lo), base)
                if not rawsl and here[-1][3] is not None:
                    yield "position", "the bytes returned do not reach the end of the part"
                if rawsl and not zero(cs, ladd(ladd({"arg0.chain_head_len": 1}, {"arg1": 1}, -1), thaw(val[1][3]), -1)):
                    yield "length", "the bytes returned do not reach exactly to the end of the part"
            elif there:
                if not tail:
                    yield "in-head", "the next part is asked although the position may lie in the first"
                if not zero(cs, ladd(thaw(there[-1][2]), {"arg1": 1, "arg0.chain_head_len": -1}, -1)):
                    yield "tail-position", "the next part is asked for position %s" % show(thaw(there[-1][2]))
                if "chain" not in there[-1][1]:
                    yield "other", "the position is looked up in %s instead of the next part" % there[-1][1]
            else:
                yield "other", "the bytes returned are neither of the first part nor of the next (%s)" % flat(val)
        for nm in ("get_chunk_at", "get_chunk_mut_at"):
            for b in method(p, ty, nm):
                run(ctx, p, b, chunk_at, more=at_chunk(nm))
                seen["chunk-at"] = seen.get("chunk-at", 0) + 1
        for nm, fld in (("chunk", "read_pointer"), ("chunk_mut", "write_pointer")):
            for b in method(p, ty, nm):
                def via(st, val, facts, c, fld=fld):
                    if not (val[0] == "y" and val[1][0] == "chunkat" and val[1][1] == "arg0" and dict(val[1][2]) == {"arg0." + fld: 1}):
                        yield "not-at", "`%s` does not return the bytes at the %s (%s)" % (nm, fld, flat(val))
                run(ctx, p, b, via, more=at_chunk("get_chunk_at" if nm == "chunk" else "get_chunk_mut_at"))
        for b in need(ctx, method(p, ty, "append_to_chain"), "%s::append_to_chain" % ty):
            run(ctx, p, b, appended)
    for b in need(ctx, method(p, "ChunkLease", "split_at"), "ChunkLease::split_at"):
        run(ctx, p, b, split)
    for b in need(ctx, method(p, "ChunkLease", "new"), "ChunkLease::new"):
        run(ctx, p, b, made)
    for b in need(ctx, method(p, "ChunkLease", "into_chunk_ref"), "ChunkLease::into_chunk_ref"):
        run(ctx, p, b, to_ref, more=ref_more)
    for b in need(ctx, method(p, "ChunkRef", "new"), "ChunkRef::new"):
        def plain(st, val, facts, c):
            fs = dict(val[3]) if val[0] == "v" else {}
            args = {n: i for i, n in enumerate(("content", "read_pointer", "chain_head_len", "lock", "chain", "chain_len"))}
            for n, i in args.items():
                if flat(fs.get(n, ("c", 0))) != "arg%d" % i:
                    yield "field-" + n, "`%s` is not what the caller gave (%s)" % (n, flat(fs.get(n, ("c", 0))))
        run(ctx, p, b, plain)
    ctx.anchor("positions looked up in a chain", [1] * seen.get("chunk-at", 0), 3)


def lins2(c, v):
    return lin(c.sim, c.env, v)


def run(ctx, p, b, check, more=None, rule="algebra", **k):
    r = Buf(p, check, more=more, **k)
    return run_trace(ctx, p, rule, b, r)


def same(c, val, l, key, msg):
    d = ladd(lin(c.sim, c.env, val), l, -1)
    if d:
        yield key, "%s (%s)" % (msg, show(lin(c.sim, c.env, val)))


def self_field(c, fld):
    return ("r", (("h", ("arg", 0, "self")), ("f", fld)))


def arg0(c, fld):
    for k in c.env:
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and k[0][0] in ("h",) and flatkey(k) == "arg0." + fld:
            return c.env[k]
    return None


def appended(st, val, facts, c):
    n = arg0(c, "chain_len")
    l = lin(c.sim, c.env, n) if n else {}
    if ladd(l, {"arg0.chain_len": 1, "arg1.chain_len": 1}, -1):
        yield "chain-len", "the length of the chain is %s after appending" % show(l)
    ap = [x for x in st if x[0] == "append"]
    ch = arg0(c, "chain")
    if ap:
        if "arg0.chain" not in ap[0][1] or ap[0][2] != "arg1" or len(ap) > 1:
            yield "appended", "%s is appended to %s" % (ap[0][2], ap[0][1])
    elif ch is None or "arg1" not in flat(ch):
        yield "lost", "the appended part is dropped"
    elif not any(k[0] == "discr" and flats(k[1]) == "arg0.chain" and v == ("c", 0) for k, v in facts.items() if isinstance(k, tuple)):
        yield "replaced", "the rest of the chain is replaced"


def split(st, val, facts, c):
    cs = facts_of(c.sim, c.env, facts, st) + invariants(["arg0.chain_len", "arg0.chain_head_len"])
    ln = arg0(c, "chain_len")
    if ln is None or ladd(lin(c.sim, c.env, ln), {"arg1": 1}, -1):
        yield "chain-len", "the part kept does not have the length it was split at (%s)" % (flat(ln) if ln else "unchanged")
    if not proves(cs, {"arg0.chain_len": 1, "arg1": -1}):
        yield "too-long", "a lease can be split behind its end"
    less = proves(cs, {"arg0.chain_head_len": 1, "arg1": -1, 1: -1})
    eq = zero(cs, {"arg0.chain_head_len": 1, "arg1": -1})
    greater = proves(cs, {"arg0.chain_head_len": -1, "arg1": 1, 1: -1})
    hl, ch = arg0(c, "chain_head_len"), arg0(c, "chain")
    rest = [x for x in st if x[0] == "split"]
    if greater:
        if len(rest) != 1 or "arg0.chain" not in rest[0][1] or ladd(thaw(rest[0][2]), {"arg1": 1, "arg0.chain_head_len": -1}, -1):
            yield "tail-split", "a split behind the first part does not split the next at what is left of the position"
        elif val != ("y", ("tail", val[1][1])) if val[0] == "y" and val[1][0] == "tail" else True:
            yield "tail-lost", "what the next part was split off is not returned"
        if hl is not None and ladd(lin(c.sim, c.env, hl), {"arg0.chain_head_len": 1}, -1) or ch is not None and not (ch[0] == "y" and flat(ch) == "arg0.chain" or ch[0] == "v" and ch[2] == "Some"):
            yield "head-changed", "the first part is changed by a split behind it"
        return
    if rest:
        yield "tail-split", "the next part is split although the position may lie in the first"
        return
    if hl is not None and not zero(cs, ladd(lin(c.sim, c.env, hl), {"arg1": 1}, -1)) or hl is None and not eq:
        yield "head-len", "the first part does not end at the position (%s)" % (show(lin(c.sim, c.env, hl)) if hl else "unchanged")
    if ch is None or ch != NONE and ch[0] == "v" and ch[2] == "Some" or flat(ch) == "arg0.chain":
        if not any(isinstance(k, tuple) and k[0] == "discr" and flats(k[1]) == "arg0.chain" and v == ("c", 0) for k, v in facts.items()):
            yield "chain-kept", "the rest of the chain is kept as well as returned"
    if eq and not less:
        some_ = any(isinstance(k, tuple) and k[0] == "discr" and "arg0.chain" in flats(k[1]) and v == ("c", 1) for k, v in facts.items())
        if some_ and "arg0.chain" not in flat(val):
            yield "rest-lost", "the rest of the chain is not returned by a split at its start (%s)" % flat(val)[:120]
        return
    if not less:
        yield "order", "what is done does not follow from how the position compares to the end of the first part"
        return
    fs = dict(val[3]) if val[0] == "v" else {}
    ct = fs.get("content")
    body = arg0(c, "content")

    def sl(v, lo, n):
        return v is not None and v[0] == "y" and v[1][0] == "slice" and v[1][1] == "arg0.content" and zero(cs, ladd(thaw(v[1][2]), lo, -1)) and zero(cs, ladd(thaw(v[1][3]), n, -1))
    if not sl(body, {}, {"arg1": 1}):
        yield "head-bytes", "the part kept is not the bytes before the position"
    if not sl(ct, {"arg1": 1}, {"arg0.chain_head_len": 1, "arg1": -1}):
        yield "tail-bytes", "the part returned is not the bytes from the position on"
    if "arg0.lock" not in flat(fs.get("lock", ("c", 0))):
        yield "tail-lock", "the part returned does not hold the lock of the lease it was split from"
    had = any(isinstance(k, tuple) and k[0] == "discr" and "arg0.chain" in flats(k[1]) and v == ("c", 1) for k, v in facts.items())
    if had and "arg0.chain" not in flat(fs.get("chain", ("c", 0))) and not any(x[0] == "append" and "arg0.chain" in x[2] for x in st):
        yield "rest-lost", "the rest of the chain is not attached to the part returned"


def made(st, val, facts, c):
    fs = dict(val[3]) if val[0] == "v" else {}
    n = {"len(arg0)": 1}
    for f, want in (("chain_head_len", n), ("chain_len", n), ("read_pointer", {}), ("write_pointer", n)):
        if ladd(lin(c.sim, c.env, fs.get(f, ("y", ("?",)))), want, -1):
            yield f, "a new lease has %s %s, not %s" % (f, flat(fs.get(f, ("c", 0))), show(want))
    if flat(fs.get("content", ("c", 0))) != "arg0" or flat(fs.get("lock", ("c", 0))) != "arg1":
        yield "content", "a new lease does not hold the bytes and the lock it was given"
    if fs.get("chain") != NONE:
        yield "chain", "a new lease is not the end of its chain"


def ref_more(c):
    f = c.fn
    if f is not None and f.name == "into_chunk_ref" and f.krate == "kompact":
        x = c.sim.load_through(c.env, c.args[0])
        w = flat(objval(c.sim, c.env, x)) if x[0] != "v" else flat(x)
        rp = c.env.get(x[1] + (("f", "read_pointer"),)) if x[0] == "r" else dict(x[3]).get("read_pointer") if x[0] == "v" else None
        return E("toref", w, flat(rp) if rp else "", ret=("y", ("asref", w)))
    return None


def to_ref(st, val, facts, c):
    cs = facts_of(c.sim, c.env, facts, st)
    if val[0] == "y" and val[1][0] == "asref":
        sp = [x for x in st if x[0] == "split"]
        if len(sp) != 1 or dict(sp[0][2]) != {"arg0.read_pointer": 1}:
            yield "split", "bytes are cut off at %s, not at what was read" % (show(thaw(sp[0][2])) if sp else "nothing")
        elif "tail" not in val[1][1] and "tail" not in repr(val):
            yield "part", "the part that was read is kept instead of the rest"
        return
    fs = dict(val[3]) if val[0] == "v" else {}
    if not zero(cs, {"arg0.read_pointer": 1}):
        yield "read", "a lease of which something was read is turned into a reference as if nothing was"
    for f in ("content", "chain_head_len", "lock", "chain_len"):
        if flat(fs.get(f, ("c", 0))) != "arg0." + f:
            yield "field-" + f, "the reference's `%s` is not that of the lease (%s)" % (f, flat(fs.get(f, ("c", 0))))
    if "arg0.chain" not in flat(fs.get("chain", ("c", 0))) and not any(isinstance(k, tuple) and k[0] == "discr" and "arg0.chain" in flats(k[1]) and v == ("c", 0) for k, v in facts.items()):
        yield "chain", "the rest of the chain is not part of the reference"


class Received(Trace):
    """Keeps only the newest read, and judges each count when it is made"""

    def add(self, st, item):
        if item is None or item[0] not in ("got", "swapped", "count"):
            return Trace.add(self, st, item) if item and item[0] in ("[", "iters", "end") else st
        if item[0] == "count":
            prev = [y for y in st if y[0] in ("got", "swapped", "count")]
            if item[2] is None or not prev or prev[-1][0] != "got" or prev[-1][2] != item[2]:
                self.sim.violate("uncounted", "a number of bytes is counted as received that did not come from the read just before it")
            elif prev[-1][1] != item[1]:
                self.sim.violate("elsewhere", "bytes counted as received by %s were read into %s" % (item[1], prev[-1][1]))
        return tuple(x for x in st if x[0] not in ("got", "swapped", "count")) + (item,)


def received(ctx, p):
    """Bytes are only counted as received up to the length of the slice they were read into."""
    n = 0
    for b in p.bodies:
        if tested(b) or b.kind == "Closure" or (b.file or "").startswith(DIR):
            continue
        if not any(f is not None and f.name == "advance_writeable" for _, f, _, _, _ in p.calls(b)):
            continue
        n += 1

        def ev(c):
            f = c.fn
            if f is None:
                return None
            if f.name == "get_writeable":
                x = flat(objval(c.sim, c.env, c.args[0]))
                return E("room", x, ret=some(("y", ("roomof", x, c.site))), alts=[E("noroom", ret=NONE)])
            if f.name in ("read", "recv_from", "recv", "peek") and f.krate not in ("kompact", "kompact_net") and len(c.args) >= 2:
                w = c.sim.load_through(c.env, c.args[1])
                x = w[1][1] if w[0] == "y" and w[1][0] == "roomof" else None
                v = ("y", ("got", c.site))
                r = ("v", "tuple", None, (("0", v), ("1", ("y", ("from", c.site))))) if f.name in ("recv_from", "peek") else v
                return E("got", x, c.site, ret=ok(r), alts=[E("failed", ret=err(("y", ("ioerr", c.site))))])
            if f.name == "advance_writeable":
                v = c.sim.load_through(c.env, c.args[1])
                return E("count", flat(objval(c.sim, c.env, c.args[0])), v[1][1] if v[0] == "y" and v[1][0] == "got" else None, ret=("v", "tuple", None, ()))
            if f.name == "swap_buffer":
                return E("swapped", ret=("v", "tuple", None, ()))
            return None

        run_trace(ctx, p, "received", b, Received(p, ev, inline=lambda c, x: x.kind == "Closure"), anchor=False)
    ctx.anchor("places that count received bytes", [1] * n, 2)


@prop("B03")
def b03(ctx):
    p = ctx.prog("net")
    s = run_rules(ctx, p, ("slice", "lease", "range", "advance", "reread"))
    ctx.anchor("raw slices and copies of chunk memory", [1] * s.get("slice", 0), 10)
    ctx.anchor("leases taken", [1] * s.get("lease", 0), 5)
    ctx.anchor("moves of buffer positions", [1] * s.get("range", 0), 5)
    ctx.anchor("moves of read pointers", [1] * s.get("advance", 0), 2)
    algebra(ctx, p)
    received(ctx, p)
    ctx.assume("allocators report the length of their chunks truthfully; io reads return at most the length of the slice they were given")


# --- B01 -------------------------------------------------------------------------------------

def unique_more(c):
    f = c.fn
    if f is None:
        return None
    if f.name in ("get_mut", "try_unwrap", "into_inner") and "Arc" in f.path:
        return E("unique", flat(c.args[0]), ret=some(("y", ("mutref", c.site))) if f.name != "try_unwrap" else None, alts=[E("shared", ret=NONE)])
    if f.name == "strong_count" and "Arc" in f.path:
        return E("counted", ret=("y", ("strong", c.site)))
    if f.name == "fence":
        o = c.args[0]
        return E("fence", o[2] if o[0] == "v" else "?", ret=("v", "tuple", None, ()))
    if f.name == "is_unique" and "Arc" in f.path:
        return E("unique", flat(c.args[0]), ret=("c", 1), alts=[E("shared", ret=("c", 0))])
    if f.name == "clone" and "Arc" in (f.self_ty or "") + f.path:
        return E(ret=("y", ("arcclone", flat(objval(c.sim, c.env, c.args[0])))))
    return None


def alone(st, facts):
    """The path made sure, and synchronised with the one who left last, that no lease exists."""
    if has(st, "unique"):
        return True
    lone = any(isinstance(k, tuple) and k[0] == "bin" and "strong" in repr(k) and v == ("c", 1) and k[1] in ("Lt", "Eq", "Le") for k, v in facts.items()) or any(isinstance(k, tuple) and k[0] == "strong" and v == ("c", 1) for k, v in facts.items())
    return lone and any(x[0] == "fence" and x[1] in ("Acquire", "AcqRel", "SeqCst") for x in st)


def primitives(ctx, p):
    n = 0
    for b in inbuf(p):
        if b.kind == "Closure" or adt_of(b) != "BufferChunk" or last_seg(b.trait or "") in ("Debug",):
            continue
        n += 1

        def chk(st, val, facts, c, b=b):
            unlocked = any(flats(k) == "arg0.locked" and v == ("c", 0) for k, v in facts.items() if isinstance(k, tuple))
            for x in st:
                if x[0] == "setlock" and x[2] != "1" and not unlocked and not alone(st, facts):
                    yield "unlocked", "a buffer is unlocked without making sure that no lease of it exists"
            if b.name == "free":
                if val != ("c", 0) and not unlocked and not alone(st, facts):
                    yield "in-use", "a locked buffer counts as free without making sure that no lease of it exists"
            if b.name == "lock" and not any(x[0] == "setlock" and x[2] == "1" for x in st):
                yield "not-locked", "`lock` does not lock the buffer"
            if b.name == "get_lock":
                v = val
                if not (v[0] == "y" and v[1][0] == "arcclone" and v[1][1].startswith("arg0.")):
                    yield "lock", "the lock handed out is not a share of the buffer's own (%s)" % flat(v)
        run(ctx, p, b, chk, more=lambda c: unique_more(c), rule="lock")
    ctx.anchor("functions of a buffer chunk", [1] * n, 8)
    for b in p.bodies:
        if (b.file or "").startswith(DIR) and adt_of(b) == "BufferChunk" or tested(b):
            continue
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0] == "=" and len(st[1]) > 1 and any(isinstance(e, list) and e[0] == "f" and e[-1] == "locked" for e in st[1][1:]) and "BufferChunk" in b.locals[st[1][0]]:
                    ctx.ob("lock", False, bkey(b) + ":outside", "a buffer's lock is changed outside of its own functions", where(b))
    for b in need(ctx, method(p, "BufferChunk", "get_lease"), "BufferChunk::get_lease"):
        def more(c):
            f = c.fn
            if f is not None and f.name == "new" and ty_head(f.self_ty or "") == "ChunkLease":
                return E("made", flat(c.args[0]), flat(c.args[1]), ret=("y", ("made", c.site)))
            if f is not None and f.name == "get_slice":
                return E("cut", flat(objval(c.sim, c.env, c.args[0])), flat(c.args[1]), flat(c.args[2]), ret=("y", ("sliceof", c.site)))
            return None

        def chk(st, val, facts, c):
            m = [x for x in st if x[0] == "made"]
            if len(m) != 1 or "sliceof" not in m[0][1] or "lockof" not in m[0][2]:
                yield "lease", "a lease is not made of a slice and the lock of the chunk it is taken from (%s)" % (m[:1],)
                return
            if ("cut", "arg0", "arg1", "arg2") not in st or count(st, "cut") != 1 or "arg0" not in m[0][2]:
                yield "lease", "a lease does not cover the range asked for, or holds another chunk's lock (%s)" % (m[0],)
        run(ctx, p, b, chk, more=more, rule="lock")
    # a chunk is only written into when it is free
    for b in need(ctx, method(p, "DecodeBuffer", "swap_buffer"), "DecodeBuffer::swap_buffer"):
        def chk(st, val, facts, c):
            for i, x in enumerate(st):
                if x[0] == "swap" and owner(x[1]):
                    if not any(y == ("free", x[3], 1) for y in st[:i]):
                        yield "not-free", "a buffer is swapped in without making sure that it is free"
        run(ctx, p, b, chk, rule="swap-free")
    k = 0
    for b in inbuf(p):
        if b.kind == "Closure" or adt_of(b) not in OWNERS:
            continue

        def chk2(st, val, facts, c):
            for x in st:
                if x[0] == "swap" and owner(x[1]) and not ("pooled" in x[3] or any(y == ("free", x[3], 1) for y in st) or x[3].startswith("v(") or "dummy" in x[3] or "fresh" in x[3]):
                    yield "not-free", "a buffer of unknown state is swapped in (%s)" % x[3]

        def more2(c):
            f = c.fn
            if f is not None and ty_head(f.self_ty or "") == "BufferChunk" and f.name in ("new", "from_chunk"):
                return E(ret=("y", ("fresh", c.site)))
            return None
        k += 1
        run(ctx, p, b, chk2, more=more2, rule="swap-free", inline=lambda c, x: x.kind == "Closure")


@prop("B01")
def b01(ctx):
    p = ctx.prog("net")
    s = run_rules(ctx, p, ("write", "locked", "offset", "swap", "consumed"))
    ctx.anchor("swapped buffers", [1] * s.get("ev-swap", 0), 2)
    ctx.anchor("writable parts", [1] * s.get("write", 0), 2)
    ctx.anchor("moves of write positions", [1] * s.get("offset", 0), 2)
    primitives(ctx, p)
    ctx.assume("allocators hand out each chunk once; BufMut::advance_mut is called for bytes that were written through chunk_mut")


# --- B02 -------------------------------------------------------------------------------------

CHUNKY = ("ChunkLease", "ChunkRef", "BufferChunk")
LEAKS = ("forget", "into_raw", "leak", "transmute", "transmute_copy", "increment_strong_count", "decrement_strong_count", "from_raw", "read", "drop_in_place", "from_raw_in")


def calls_of(p, name, pred=None):
    for b in p.bodies:
        if tested(b):
            continue
        for blk, f, line, m, cl in p.calls(b):
            if f is not None and f.name == name and (pred is None or pred(f)):
                yield b, f, line


def is_alloc(f):
    return last_seg(f.trait or "") == "ChunkAllocator"


@prop("B02")
def b02(ctx):
    p = ctx.prog("net")
    # who gives memory back
    owners = set()
    n = 0
    for b, f, line in calls_of(p, "release", is_alloc):
        n += 1
        t = adt_of(b)
        good = b.name == "drop" and last_seg(b.trait or "") == "Drop" and bool(t)
        ctx.ob("release", good, bkey(b), "memory is given back other than by the drop of its owner", where(b, line))
        if good:
            owners.add(t)

            def ev(c):
                g = c.fn
                if g is not None and g.name == "release" and is_alloc(g):
                    return E("release", flat(objval(c.sim, c.env, c.args[0])), flat(c.args[1]), ret=("v", "tuple", None, ()))
                if g is not None and g.name in ("deref", "as_ref") and c.args:
                    return E(ret=c.args[0])
                return None

            def chk(st, val, facts, c):
                r = [x for x in st if x[0] == "release"]
                if len(r) != 1:
                    yield "times", "the owner's memory is given back %d times" % len(r)
                elif not (r[0][1].startswith("arg0.") and r[0][2].startswith("arg0.")):
                    yield "other", "what is given back is not the owner's own (%s to %s)" % (r[0][2], r[0][1])
            r = Trace(p, ev, chk, inline=lambda c, x: (x.file or "").startswith(DIR))
            run_trace(ctx, p, "release-own", b, r)
    ctx.anchor("places that give memory back", [1] * n, 1)
    ctx.anchor("owner of chunk memory", sorted(owners))
    for t in owners | {"BufferChunk"}:
        for i in p.impls:
            if ty_head(i["self"]) == t and i.get("trait") and last_seg(i["trait"]) in ("Clone", "Copy"):
                ctx.ob("owner-unique", False, t, "the owner of chunk memory can be copied, so the memory would be given back twice", "%s:%s" % (i["file"], i["line"]))
    # only handles hold it: the shares are reference counted
    lockf = [f for k, a in p.adts.items() if last_seg(k) == "BufferChunk" for f in a["variants"][0]["fields"]]
    for o in sorted(owners):
        held = [f[0] for f in lockf if "Arc<" in f[1] and o in f[1]]
        ctx.ob("shared", bool(held), o, "a buffer does not share its memory's owner with its leases", "")
        for b in need(ctx, method(p, "BufferChunk", "get_lock"), "BufferChunk::get_lock"):
            def chk(st, val, facts, c, held=held):
                if not (val[0] == "y" and val[1][0] == "arcclone" and val[1][1] in ["arg0." + h for h in held]):
                    yield "lock", "the lock handed to leases is not a share of the memory's owner (%s)" % flat(val)
            run(ctx, p, b, chk, more=unique_more, rule="shared")
    # an owner belongs to what it was allocated with
    ms = set()
    for o in sorted(owners):
        ms |= agg_sites(p, o)
    for h in sorted(ms):
        b = p.by_h[h]
        while b.kind == "Closure" and len(p.callers().get(b.h, ())) == 1:
            b = p.by_h[next(iter(p.callers()[b.h]))]
        pairs(ctx, p, b, owners)
    ctx.anchor("places that make an owner", sorted(ms))
    # handles hold bytes together with the lock of those bytes
    n = 0
    for h in sorted(agg_sites(p, "ChunkLease") | agg_sites(p, "ChunkRef")):
        b = p.by_h[h]
        if tested(b):
            continue
        n += 1
        ctx.ob("handle-made", b.name in ("new", "clone") and adt_of(b) in LEASES, bkey(b), "a handle is put together outside of its constructor", where(b))
    ctx.anchor("constructors of handles", [1] * n, 2)
    handles(ctx, p)
    # nothing is forgotten or taken apart
    for b in p.bodies:
        if tested(b):
            continue
        for blk, f, line, m, cl in p.calls(b):
            if f is None or f.name not in LEAKS or f.krate in ("kompact", "kompact_net"):
                continue
            tys = " ".join(map(str, f.args)) + (f.self_ty or "")
            if any(t in tys for t in CHUNKY + tuple(owners) + ("ManuallyDrop",)) and not ("ptr" in f.path and f.name == "read" and not any(t in tys for t in CHUNKY)):
                ctx.ob("forgotten", False, "%s:%s" % (bkey(b), f.name), "`%s` is used on a handle of chunk memory" % f.name, where(b, line))
    for a in p.adts:
        for v in p.adts[a]["variants"]:
            for _, ty, _ in v["fields"]:
                if "ManuallyDrop" in ty and any(t in ty for t in CHUNKY):
                    ctx.ob("forgotten", False, a, "a handle of chunk memory is kept without being dropped", "")
    # slices with an unbounded lifetime go into leases only
    k = 0
    for b, f, line in calls_of(p, "get_slice", lambda f: ty_head(f.self_ty or "") == "BufferChunk"):
        k += 1
        ctx.ob("slice-users", (b.file or "").startswith(DIR), bkey(b), "a slice of unbounded lifetime is taken outside of the buffer code", where(b, line))
    ctx.anchor("uses of unbounded slices", [1] * k, 3)
    for b in p.bodies:
        if tested(b) or not (b.file or "").startswith(DIR):
            continue
        if b.pub and b.name == "get_slice":
            ctx.ob("slice-users", False, bkey(b) + ":public", "slices of unbounded lifetime can be taken by anyone", where(b))
    for a in p.adts:
        if last_seg(a) in LEASES + ("BufferChunk",) + tuple(owners):
            for v in p.adts[a]["variants"]:
                for nm, _, pub in v["fields"]:
                    ctx.ob("private", not pub, "%s.%s" % (last_seg(a), nm), "field `%s` can be changed or moved out from outside" % nm, "")
    ctx.assume("reference counting of std::sync::Arc; allocators implement ChunkAllocator as documented")


def pairs(ctx, p, b, owners):
    """The chunk and the allocator put together in an owner belong together."""
    def ev(c):
        f = c.fn
        if f is None:
            return None
        if f.name == "get_chunk" and is_alloc(f):
            return E("chunk", ret=("y", ("chunkof", origin(c, c.args[0]))))
        if f.name == "clone" and "Arc" in (f.self_ty or "") + f.path:
            return E(ret=("y", ("same", origin(c, c.args[0]))))
        if f.name == "new" and "Arc" in f.path and len(c.args) == 1:
            return E(ret=("y", ("same", "new:%s" % (c.site[-1],))) if "Allocator" in " ".join(map(str, f.args)) + (f.self_ty or "") else None)
        return None

    def origin(c, v):
        v = objval(c.sim, c.env, v)
        while v[0] == "y" and v[1][0] == "same":
            return v[1][1]
        return flat(v)
    work, seen = [(b, None)], set()
    while work:
        x, tgt = work.pop()
        if (x.h, tgt) in seen:
            continue
        seen.add((x.h, tgt))
        bad = []
        esc = []

        class R(Trace):
            def call(self, st, c):
                f = c.fn
                if f is not None and tgt is not None and f.h == tgt or tgt is not None and any(y.h == tgt for y in c.bodies):
                    self.look(c, c.args[0], c.args[1])
                    return Outcome(ret=("y", ("chunk-made", c.site)))
                return Trace.call(self, st, c)

            def agg(self, st, c, kind, fields):
                return None

            def look(self, c, ch, al):
                ch = c.sim.load_through(c.env, ch)
                a = origin(c, al)
                if ch[0] == "y" and ch[1][0] == "chunkof":
                    if ch[1][1] != a:
                        bad.append((ch[1][1], a))
                elif flat(ch).startswith("arg") and a.startswith("arg"):
                    esc.append((flat(ch), a))
                else:
                    bad.append((flat(ch), a))
        r = R(p, ev, None, inline=lambda c, y: (y.file or "").startswith(DIR) and y.kind == "Closure")
        if tgt is None:
            def chk(st, val, facts, c):
                # the owner's fields come from the arguments
                for k, v in list(c.env.items()):
                    pass
                f = find(val, owners) or find_env(c.env, owners)
                if f is None:
                    return
                d = dict(f[3])
                ch = [v for n, v in d.items() if "chunk" == n or "ptr" in n or flat(v) == "arg0"]
                al = [v for n, v in d.items() if v not in ch]
                if ch and al:
                    r.look(c, ch[0], al[0])
            r.check = chk
        run_trace(ctx, p, "paired", x, r, anchor=False)
        ctx.ob("paired", not bad, bkey(x), "a chunk is put together with an allocator it may not come from (%s, %s)" % (bad[0] if bad else ("", "")), where(x))
        if esc or tgt is None:
            for ch in p.callers().get(x.h, ()):
                if ch in p.by_h and not tested(p.by_h[ch]):
                    work.append((p.by_h[ch], x.h))


def find(v, owners):
    if v[0] == "v":
        if isinstance(v[1], str) and last_seg(v[1]) in owners:
            return v
        for _, x in v[3]:
            r = find(x, owners)
            if r:
                return r
    return None


def find_env(env, owners):
    for k, v in env.items():
        if isinstance(v, tuple) and v and v[0] == "v":
            r = find(v, owners)
            if r:
                return r
    return None


def handles(ctx, p):
    """Every call of a handle's constructor passes bytes together with the lock that keeps them."""
    n = 0
    for b in p.bodies:
        if tested(b) or b.kind == "Closure":
            continue
        if not any(f is not None and f.name == "new" and ty_head(f.self_ty or "") in LEASES for _, f, _, _, _ in p.calls(b)):
            continue
        n += 1

        def more(c):
            f = c.fn
            if f is None:
                return None
            if f.name == "new" and ty_head(f.self_ty or "") in LEASES:
                k = 1 if ty_head(f.self_ty) == "ChunkLease" else 3
                ct, lk = c.args[0], c.args[k]
                ct = c.sim.load_through(c.env, ct) if ct[0] == "r" else ct
                zero_ = ct[0] == "y" and ct[1][0] == "slice" and (not ct[1][3] or ct[1][1] == "nowhere" and not ct[1][3])
                w = base(ct)
                return E("handle", w, base(lk), int(zero_), ret=("y", ("made", c.site)))
            if f.name == "clone" and c.args:
                return E(ret=("y", ("same", flat(objval(c.sim, c.env, c.args[0])))))
            if f.name == "get_slice":
                return E(ret=("y", ("of", flat(objval(c.sim, c.env, c.args[0])), "content")))
            if f.name == "get_lock":
                return E(ret=("y", ("of", flat(objval(c.sim, c.env, c.args[0])), "lock")))
            return None

        def base(v):
            if v[0] == "r":
                return place(v)
            if v[0] == "y":
                if v[1][0] == "of":
                    return v[1][1] + "." + v[1][2]
                if v[1][0] == "slice":
                    return v[1][1]
                if v[1][0] == "same":
                    return v[1][1]
            return flat(v)

        def chk(st, val, facts, c):
            for x in st:
                if x[0] == "handle" and not x[3]:
                    a, l = x[1].rsplit(".", 1)[0], x[2].rsplit(".", 1)[0]
                    if a != l or x[1] == a or x[2] == l:
                        yield "lock", "a handle of %s holds %s, which is not the lock of those bytes" % (x[1], x[2])
        run(ctx, p, b, chk, more=more, rule="handle")
    ctx.anchor("places that make handles", [1] * n, 4)
    for b in p.bodies:
        if tested(b):
            continue
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == "f" and st[1][-1][-1] in ("content", "lock", "ref_count"):
                    ty = b.locals[st[1][0]]
                    if any(t in ty for t in CHUNKY):
                        ctx.ob("handle-kept", st[1][-1][-1] == "content" and b.name == "split_at", bkey(b) + ":" + st[1][-1][-1], "the bytes or the lock of a handle are replaced", where(b, st[3] if len(st) > 3 else None))


# --- B04 -------------------------------------------------------------------------------------

DEQ = ("push_front", "push_back", "push", "insert")


def unfold(st):
    """The trace with what happened in the rounds of its loops."""
    out = []
    for x in st:
        out.append(x)
        if x[0] == "iters" and x[2] and isinstance(x[2][1], tuple):
            out += list(unfold(x[2][1]))
    return tuple(out)


class Pool(Buf):
    """Follows chunks: taken from the pool, made, put back, dropped."""

    def __init__(self, p, check, **k):
        chk = lambda st, val, facts, c: check(unfold(st), val, facts, c)
        Buf.__init__(self, p, chk, on_drop=self.dropping, on_iter=self.rounds, **k)

    def rounds(self, X, opened, items, rule):
        n = None
        v = X[1]
        if isinstance(v, tuple) and v and v[0] == "v" and last_seg(str(v[1])) == "Range":
            d = dict(v[3])
            n = freeze(ladd(lin(self.sim, self.env, d["end"]), lin(self.sim, self.env, d["start"]), -1))
        return (n, tuple(x for x in items if x[0] in ("alloc", "made", "put", "free", "dropped", "took", "droppedall", "pop")))

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        sim, env = c.sim, c.env
        hd = ty_head(f.self_ty) if f.self_ty else ""
        sig = " ".join(map(str, f.args)) + (f.self_ty or "")
        if f.name == "get_chunk" and is_alloc(f):
            return E("alloc", ret=("y", ("raw", c.site)))
        if f.name in ("from_chunk", "new") and hd == "BufferChunk":
            v = ("y", ("made", c.site, f.name))
            self.sim.purge_symbol(env, c.site)
            return E("made", v[1] if f.name == "from_chunk" else "dummy", ret=v)
        if f.name == "validate" and hd == "BufferConfig":
            return E("validate", flat(objval(sim, env, c.args[0])), ret=("v", "tuple", None, ()))
        if "BufferChunk" in sig and f.krate not in ("kompact", "kompact_net"):
            if f.name in DEQ and len(c.args) >= 2:
                v = c.args[-1]
                return E("put", flat(objval(sim, env, c.args[0])), self.what(c, v), ret=("v", "tuple", None, ()))
            if f.name in ("pop_front", "pop_back", "pop", "remove", "swap_remove_back", "swap_remove_front"):
                v = ("y", ("popped", c.site))
                return E("pop", flat(objval(sim, env, c.args[0])), v[1], ret=some(v), alts=[E("empty", ret=NONE)])
            if f.name in ("append", "extend") and len(c.args) == 2:
                return E("putall", flat(objval(sim, env, c.args[0])), flat(objval(sim, env, c.args[1])), place(c.args[1]) if c.args[1][0] == "r" else "", ret=("v", "tuple", None, ()))
            if f.name in ("clear", "truncate", "drain", "retain", "retain_mut", "split_off"):
                return E(f.name, flat(objval(sim, env, c.args[0])), inline=True)
        if hd == "BufferPool" and f.name in ("get_buffer", "try_reclaim", "increase_pool") and self.outside:
            v = ("y", ("pooled", c.site))
            return E("took", v[1], ret=some(v), alts=[E("nobuffer", ret=NONE)])
        if hd == "BufferPool" and f.name == "return_buffer" and self.outside:
            return E("returned", self.what(c, c.args[1]), ret=("v", "tuple", None, ()))
        if hd == "DecodeBuffer" and f.name == "swap_buffer" or hd == "TcpChannel" and f.name == "swap_buffer" or hd == "BufferChunk" and f.name == "swap_buffer" and self.outside:
            a, b = (objval(sim, env, c.args[0]), objval(sim, env, c.args[1]))
            k = c.args[1]
            if hd == "BufferChunk" and place(c.args[1]).endswith(".buffer"):
                k, a, b = c.args[0], b, a
            old = ("y", ("old", flat(a)))
            w = ((k[1], old),) if k[0] == "r" else ()
            return E("exchanged", self.what(c, b), flat(a), ret=("v", "tuple", None, ()), writes=w)
        if hd == "BufferChunk" and f.name in ("free", "lock"):
            w = self.what(c, c.args[0])
            if f.name == "lock":
                return E("lock", w, ret=("v", "tuple", None, ()))
            return E("free", w, 1, ret=("c", 1), alts=[E("free", w, 0, ret=("c", 0))])
        if hd == "NetworkThread" and f.name in ("get_buffer",):
            v = ("y", ("pooled", c.site))
            return E("took", v[1], ret=some(v), alts=[E("nobuffer", ret=NONE)])
        if hd == "NetworkThread" and f.name == "return_buffer":
            return E("returned", self.what(c, c.args[1]), ret=("v", "tuple", None, ()))
        if self.outside:
            for a in c.args:
                if self.what(c, a)[:1] in (("pooled",), ("old",)) and f.krate in ("kompact", "kompact_net") and a[0] != "r":
                    return E("given", self.what(c, a), f.name)
        return None

    outside = False

    def add(self, st, item):
        if item is not None and item[0] == "pop":
            # another buffer under the same name
            st = tuple(x for x in st if item[2] not in x or x[0] == "dropped")
        return Buf.add(self, st, item)

    def what(self, c, v):
        v = objval(c.sim, c.env, v)
        if v[0] == "y" and v[1][0] in ("made", "popped", "pooled", "old", "elem"):
            return v[1]
        return ("other", flat(v))

    def dropping(self, c, ty, val):
        ty = str(ty)
        if "BufferChunk" not in ty:
            return None
        if ty_head(ty) == "BufferChunk":
            v = val if val is not None else ("c", 0)
            v = v[1] if v[0] == "y" else ("other", flat(v))
            return ("dropped", v)
        if ty_head(ty) in ("Vec", "VecDeque", "IntoIter", "Drain"):
            v = val if val is not None else ("c", 0)
            return ("droppedall", ty_head(ty), flat(v))
        return None


def pool_fns(p):
    return [b for b in inbuf(p) if adt_of(b) == "BufferPool" and b.kind != "Closure" and not b.trait]


def account(st, val, facts, c):
    """Within the pool: chunks are made under the limit and counted; none gets lost."""
    for i, x in enumerate(st):
        if x[0] == "dropped" and x[1][0] in ("popped", "made", "elem"):
            yield "dropped", "a buffer that the pool counts is thrown away"
        if x[0] == "droppedall" and x[1] in ("IntoIter", "Drain"):
            if not any(y[0] == "end" and y[1][2] != "part" or y[0] == "iters" and y[1][2] != "part" for y in st[:i]):
                yield "dropped-rest", "the rest of a collection of buffers is thrown away"
        if x[0] in ("clear", "truncate", "retain", "split_off"):
            yield x[0], "buffers that the pool counts are thrown away by `%s`" % x[0]
        if x[0] == "droppedall" and x[1] in ("Vec", "VecDeque") and any(y[0] == "put" and y[1] != "arg0.pool" for y in st[:i]):
            if not any(y[0] == "putall" for y in st[:i]):
                yield "dropped-all", "a collection of buffers that the pool counts is thrown away"


@prop("B04")
def b04(ctx):
    p = ctx.prog("net")
    fns = need(ctx, pool_fns(p), "functions of the pool")
    by = {b.name: b for b in fns}
    seen = {"alloc": 0, "free": 0, "put": 0}

    def note(r):
        for k in seen:
            seen[k] += r.events.get(k, 0)
    for b in fns:
        if not b.pub and b.name != "new" and not [x for x in p.callers().get(b.h, ()) if x in p.by_h and adt_of(p.by_h[x]) != "BufferPool"]:
            continue
        ctor = b.argc == 0 or "BufferPool" not in b.locals[1]

        def chk(st, val, facts, c, b=b, ctor=ctor):
            yield from account(st, val, facts, c)
            cs = facts_of(c.sim, c.env, facts, st)
            if ctor:
                yield from construct(st, val, facts, c)
                return
            a = sum(1 for x in st if x[0] == "alloc")
            sz = arg0(c, "pool_size")
            d = ladd(lin(c.sim, c.env, sz), {"arg0.pool_size": 1}, -1) if sz is not None else {}
            if not reserve(b):
                if ladd(d, {1: a}, -1):
                    yield "count", "%d buffers are allocated but the count changes by %s" % (a, show(d))
                if a > 1:
                    yield "many", "several buffers are allocated at once"
            if a and not proves(cs, {"arg0.max_pool_size": 1, "arg0.pool_size": -1, 1: -1}):
                yield "limit", "a buffer is allocated without making sure that the limit is not reached"
            if "Option<" in b.locals[0] and "BufferChunk" in b.locals[0]:
                if val == NONE:
                    if not proves(cs, {"arg0.pool_size": 1, "arg0.max_pool_size": -1}):
                        yield "refused", "no buffer is given out although the limit is not reached"
                    return
                v = val[3][0][1] if val[0] == "v" and val[3] else val
                v = v[1] if v[0] == "y" else ("other", flat(v))
                pops = [i for i, x in enumerate(st) if x[0] == "pop" and x[2] == v]
                last = st[pops[-1]:] if pops else st
                if v[0] != "made" and not any(x == ("free", v, 1) for x in last):
                    yield "in-use", "a buffer is given out without making sure that it is free"
                if any(x[0] == "put" and x[2] == v for x in last):
                    yield "twice", "a buffer is given out and kept in the pool"
            if b.argc == 2 and ty_head(b.locals[2]) == "BufferChunk":
                w = ("other", "arg1")
                if [x for x in st if x[0] == "put" and x[1] == "arg0.pool" and x[2] == w] == []:
                    yield "not-kept", "a buffer that is returned is not put back"
                if not any(x == ("lock", w) for x in st):
                    yield "not-locked", "a buffer that is returned is not locked"
            if reserve(b):
                yield from reserved(st, val, c)
        inl = lambda c, x: (x.file or "").startswith(DIR) and adt_of(x) == "BufferPool" or x.kind == "Closure"
        if reserve(b):
            def more(c):
                f = c.fn
                return None
            r = Pool(p, chk, inline=lambda c, x: x.kind == "Closure", cap=3)
            r.outside = True
        else:
            r = Pool(p, chk, inline=inl)
        run_trace(ctx, p, "pool", b, r)
        note(r)
    ctx.anchor("allocations followed", [1] * seen["alloc"], 2)
    ctx.anchor("buffers taken back", [1] * seen["free"], 1)
    # functions judged through the ones above must not be reached around them
    for b in p.bodies:
        if tested(b) or adt_of(b) == "BufferPool":
            continue
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == "f" and st[1][-1][-1] in ("pool_size", "max_pool_size") and "BufferPool" in b.locals[st[1][0]]:
                    ctx.ob("pool", False, bkey(b) + ":count", "the pool's count is changed from outside", where(b))
    for b in need(ctx, [x for x in p.bodies if x.name == "validate" and adt_of(x) == "BufferConfig"], "BufferConfig::validate"):
        def chk(st, val, facts, c):
            if not proves(facts_of(c.sim, c.env, facts, st), {"arg0.max_chunk_count": 1, "arg0.initial_chunk_count": -1}):
                yield "initial", "a configuration with more initial buffers than the limit is accepted"
        run(ctx, p, b, chk, rule="validate")
    users(ctx, p)
    reported(ctx, p)
    ctx.assume("only what is dropped or put away on paths without panics is followed")


def reserve(b):
    return "Result<" in b.locals[0] and "BufferError" in b.locals[0]


def reserved(st, val, c):
    took = [x for x in st if x[0] == "took"]
    for i, x in enumerate(st):
        if x[0] == "took":
            if not any(y[0] == "put" and y[2] == x[1] for y in st[i:]) and not any(y[0] == "iters" for y in st[i:]):
                yield "lost", "a buffer taken for a reservation is not put back"
    for i, x in enumerate(st):
        if x[0] == "put" and x[1] != "arg0.pool":
            later = st[i + 1:]
            if not any(y[0] in ("putall",) and y[1] == "arg0.pool" for y in later) and not any(y[0] in ("end",) and y[1][2] != "part" or y[0] == "iters" and y[1][2] != "part" for y in later):
                yield "kept-back", "buffers taken for a reservation are not put back"


def construct(st, val, facts, c):
    fs = dict(val[3]) if val[0] == "v" else {}
    if not has(st, "validate"):
        yield "validate", "the pool is made without validating its configuration"
    if "max_chunk_count" not in flat(fs.get("max_pool_size", ("c", 0))) or lin(c.sim, c.env, fs["max_pool_size"]) != {"arg0.max_chunk_count": 1}:
        yield "max", "the limit of the pool is not the configured one (%s)" % flat(fs.get("max_pool_size", ("c", 0)))
    sz = lin(c.sim, c.env, fs.get("pool_size", ("c", 0)))
    loops_ = [x for x in st if x[0] == "iters" and x[2] is not None]
    inner = sum(1 for x in loops_ for y in x[2][1] if y[0] == "alloc")
    total = {}
    total = ladd(total, {1: sum(1 for x in st if x[0] == "alloc") - inner}, 1)
    for x in loops_:
        n, items = x[2]
        k = sum(1 for y in items if y[0] == "alloc")
        if k != sum(1 for y in items if y[0] == "put"):
            yield "lost", "a buffer made in advance is not put into the pool"
        if n is None:
            return
        total = ladd(total, thaw(n), k)
    none = any(x[0] == "end" for x in st) and not loops_
    if not none and ladd(sz, total, -1):
        yield "initial", "%s buffers are made but %s are counted" % (show(total), show(sz))


def users(ctx, p):
    """A buffer taken from a pool is kept or returned by whoever takes it."""
    n = 0
    for b in p.bodies:
        if tested(b) or b.kind == "Closure" or adt_of(b) == "BufferPool" or b.name in ("drop",):
            continue
        if not any(f is not None and (f.name in ("get_buffer",) and ty_head(f.self_ty or "") in ("BufferPool", "NetworkThread") or f.name == "swap_buffer" or f.name == "return_buffer") for _, f, _, _, _ in p.calls(b)) and not (any(ty_head(b.locals[j + 1]) == "BufferChunk" for j in range(b.argc)) and b.name != "drop" and not (b.file or "").startswith(DIR)):
            continue
        if b.trait or "sim" in (b.file or ""):
            continue
        n += 1

        def chk(st, val, facts, c):
            for i, x in enumerate(st):
                if x[0] != "dropped":
                    continue
                if x[1][0] in ("pooled", "old") or x[1] == ("other", "arg1") or x[1][0] == "other" and x[1][1].startswith("arg"):
                    yield "dropped", "a buffer of the pool is thrown away, while the pool still counts it (%s)" % flats(x[1])
        r = Pool(p, chk, inline=lambda c, x: x.kind == "Closure")
        r.outside = True
        run_trace(ctx, p, "kept", b, r, anchor=False)
    ctx.anchor("functions that take or exchange buffers", [1] * n, 6)


def reported(ctx, p):
    """Running out of buffers is reported to whoever serialises, and nothing changes."""
    n = 0
    for b in inbuf(p):
        if b.kind == "Closure" or adt_of(b) not in ("EncodeBuffer", "BufferEncoder"):
            continue
        if b.name in ("drop", "with_config", "with_dispatcher_ref"):
            continue

        def more(c):
            f = c.fn
            if f is None:
                return None
            return None

        def chk(st, val, facts, c, b=b):
            for i, x in enumerate(st):
                if x[0] != "nobuffer":
                    continue
                rest = st[i + 1:]
                if "Result<" in b.locals[0]:
                    if not (val[0] == "v" and val[2] == "Err") and not (val[0] == "y" and "poolerr" in repr(val)):
                        yield "unreported", "running out of buffers is not reported to the caller (%s)" % flat(val)[:100]
                elif adt_of(b) == "BufferEncoder" and not any(y[0] == "sererr" for y in rest):
                    yield "unreported", "running out of buffers while writing is not remembered"
                if any(y[0] in ("swap",) for y in rest):
                    yield "changed", "the buffer is changed although no new one is available"

        class R(Buf):
            def write(self, st, c, key, val):
                if key[-1] == ("f", "ser_error") and val[0] == "v" and val[2] == "Some":
                    return self.add(st, ("sererr",))
                return Buf.write(self, st, c, key, val)
        k = {}
        if loops(b):
            k["inline"] = lambda c, x, b=b: inline_buf(c, x) and (x.kind == "Closure" or p.callers().get(x.h, set()) <= {b.h, x.h})
            def more(c, b=b):
                f = c.fn
                if f is not None and f.name in ("chain_and_swap", "swap_buffer") and f.krate == "kompact" and ty_head(f.self_ty or "") in ("BufferEncoder", "EncodeBuffer"):
                    return E("swapped", ret=ok(("v", "tuple", None, ())), alts=[E("nobuffer", ret=err(("y", ("sererror", c.site))))])
                return None
        n += 1
        run_trace(ctx, p, "reported", b, R(p, chk, more=more, **k), anchor=False)
    ctx.anchor("functions that write to pooled buffers", [1] * n, 6)
    for b in need(ctx, method(p, "BufferEncoder", "get_chunk_lease"), "BufferEncoder::get_chunk_lease"):
        def chk(st, val, facts, c):
            some_ = any(isinstance(k, tuple) and k[0] == "discr" and "ser_error" in flats(k[1]) and v == ("c", 1) for k, v in facts.items())
            none_ = any(isinstance(k, tuple) and k[0] == "discr" and "ser_error" in flats(k[1]) and v == ("c", 0) for k, v in facts.items())
            if some_ and not (val[0] == "v" and val[2] == "Err"):
                yield "forgotten", "an error while writing is not reported when the message is taken"
            if not some_ and not none_:
                yield "unread", "the message is taken without looking for errors"
        run(ctx, p, b, chk, rule="reported")
