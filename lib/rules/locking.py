"""S09: component state is only touched under the component's lock."""
from kit import *
from rules import prop
from rules.execution import Exec, exec_roots, escapes, handler_ref

GUARDED = ("hook", "handler", "ports", "pollblk", "pollnb", "take-timer")


def guard_ty(ty):
    return "MutexGuard" in (ty or "") and "ComponentMutableCore" in ty


class Held(Exec):
    """st = number of guards of the component's state alive on this path"""
    init = 0

    def __init__(self, p):
        Exec.__init__(self, p)
        self.nlock = 0
        self.nobl = 0

    def call(self, st, c):
        f = c.fn
        if f is not None and f.name in ("lock", "try_lock") and "ComponentMutableCore" in (f.self_ty or "") + " ".join(f.args or []) and ty_head(f.self_ty) == "Mutex":
            self.nlock += 1
            if st:
                self.sim.violate("relock", "the component's lock is taken again while it is held: the thread blocks on itself")
            return Outcome(st=1)
        return Exec.call(self, st, c)

    def arith(self, op, a, b):
        return ("y", ("n",)) if op in ("Add", "Sub") else None

    def keep_phi(self, sym):
        return False

    def drop(self, st, c, ty, val):
        if guard_ty(ty):
            return 0
        return None

    def event(self, st, c, e):
        if e[0] in GUARDED:
            self.nobl += 1
            if not st:
                self.sim.violate("unlocked:%s" % (e[1] if len(e) > 1 else e[0]), "%s runs while the component's lock is not held" % {"hook": "a lifecycle hook", "ports": "port handlers", "pollblk": "the blocking future", "pollnb": "a local future"}.get(e[0], "a handler"))
        if e[0] == "test":
            return [Outcome(ret=("c", 0), st=st), Outcome(ret=("c", 1), st=st)]
        if e[0] == "take":
            return [Outcome(ret=("v", Sim.OPT, "None", ()), st=st), Outcome(ret=("v", Sim.OPT, "Some", (("0", ("y", ("item",))),)), st=st)]
        return Outcome(ret=("y", ("ev", e[0])), st=st)

    def ret(self, st, c, val):
        if st:
            self.sim.violate("leaked", "the execution ends without releasing the component's lock")


def places(x):
    if isinstance(x, list):
        if len(x) > 1 and isinstance(x[0], int) and not isinstance(x[0], bool) and all(isinstance(e, (str, list)) for e in x[1:]):
            yield x
        for y in x:
            if isinstance(y, list):
                yield from places(y)


def raw_derefs(b):
    """Dereferences of raw pointers that do not come from unboxing: (pointee type, line)."""
    boxed = set()
    out = set()
    for bl in b.blocks:
        for st in bl["s"]:
            if st[0] == "=" and st[2][0] == "cast" and len(st[1]) == 1:
                src = st[2][2]
                ty = st[2][3]
                sl = src[1][0] if src[0] in ("c", "m") else None
                st_ty = b.locals[sl] if sl is not None and sl < len(b.locals) else ""
                if "Transmute" in str(st[2][1]) and ("BoxRaw" in repr(src) or "Unique" in st_ty or "NonNull" in st_ty or from_box(b, src)):
                    boxed.add(st[1][0])
    for bl in b.blocks:
        for st in bl["s"] + [bl["t"]]:
            for pl in places(list(st[1:3]) if st[0] == "=" else list(st[1:])):
                l = pl[0]
                if "*" in pl[1:] and l < len(b.locals) and b.locals[l].startswith("*") and l not in boxed:
                    out.add((b.locals[l], st[-1] if isinstance(st[-1], int) else bl["l"]))
    return out


def from_box(b, src):
    if src[0] not in ("c", "m"):
        return False
    l = src[1][0]
    return l < len(b.locals) and ("alloc::boxed::Box<" in b.locals[l] or "BoxRaw" in b.locals[l])


MUTEX_OK = ("lock", "try_lock", "get_mut", "into_inner", "is_poisoned", "clear_poison", "fmt")


def field_uses(p, field, adt):
    """(body, line, ok) for every mention of a field: only borrowing it for a Mutex operation is fine."""
    for b in p.bodies:
        refs = {}
        for bi, bl in enumerate(b.blocks):
            for st in bl["s"]:
                if st[0] != "=":
                    continue
                for pl in places([st[1], st[2]]):
                    if any(isinstance(e, list) and e[0] == "f" and e[2] == field for e in pl[1:]):
                        last = isinstance(pl[-1], list) and pl[-1][0] == "f" and pl[-1][2] == field
                        if st[2][0] == "ref" and last and len(st[1]) == 1 and pl is not st[1]:
                            refs[st[1][0]] = st[-1]
                        else:
                            yield b, st[-1], False
        if not refs:
            continue
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0] == "=" and st[2][0] in ("use", "ref", "cast") and any(pl in refs and pl != (st[1][0] if st[1] else None) for pl in locals_in(st[2])):
                    if st[2][0] == "ref" and len(st[1]) == 1 and st[1][0] not in refs:
                        refs[st[1][0]] = st[-1]
        used = set()
        for blk, f, line, mac, cl in p.calls(b):
            args = b.blocks[blk]["t"][2] if isinstance(blk, int) else []
            for a in args:
                for l in locals_in(a):
                    if l in refs:
                        used.add(l)
                        good = f is not None and f.name in MUTEX_OK and "Mutex" in (f.self_ty or f.path)
                        yield b, line, good
        for l in refs:
            if l not in used and not any(l in locals_in(st) and refs[l] != st[-1] for bl in b.blocks for st in bl["s"]):
                continue


def locals_in(x):
    out = []
    if isinstance(x, list):
        if x and x[0] in ("c", "m") and len(x) > 1 and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            out.append(x[1][0])
        for y in x:
            if isinstance(y, list):
                if y and isinstance(y[0], int) and not isinstance(y[0], bool):
                    out.append(y[0])
                out += locals_in(y)
    return out


ALLOWED_RAW = {
    # function name, self type head -> why the access is exclusive
    ("deref", "ComponentDefinitionAccess"): "only used while its future is polled, which happens under the lock",
    ("deref_mut", "ComponentDefinitionAccess"): "only used while its future is polled, which happens under the lock",
    ("downcast", "SystemComponents"): "downcast of system components after comparing type ids; not component state",
}
ALLOWED_AUTO = {
    ("ComponentDefinitionAccess", "Send"): "moves with the future, which is only polled under the lock",
    ("TimerHandle", "Send"): "timer actions are only run by their own component",
    ("BufferChunk", "Send"): "owns its memory (B02)",
    ("ChunkMemory", "Send"): "only hands its pointer back when it is dropped (B02)",
    ("ChunkMemory", "Sync"): "only hands its pointer back when it is dropped (B02)",
}


@prop("S09")
def s09(ctx):
    for sets in (("net",), ("local",)) if ctx.thorough else (("net",),):
        p = ctx.prog(*sets)
        roots = exec_roots(p)
        ctx.anchor("component execution entry", roots)
        stop = {x.h for x in roots}
        for b in roots:
            r = Held(p)
            s = Sim(p, r, 600000)
            try:
                s.run(b)
            except Budget as e:
                raise ToolError(str(e))
            ctx.simulated(s)
            ctx.anchor("acquisition of the component's lock", [1] * r.nlock)
            ctx.anchor("handlers, hooks and polls under the lock", [1] * r.nobl, 6)
            if not s.violations:
                ctx.ob("lock-held", True, "execute", "", where(b))
            for v in s.violations:
                ctx.ob("lock-held", False, v["key"], v["msg"], where(b), v["trace"])
        # handlers, hooks and component futures are entered through execute only
        n = 0
        for b in p.bodies:
            if b.h in stop:
                continue
            hs = [x for x in p.calls(b) if x[1] is not None and (handler_ref(x[1]) or (x[1].name == "poll" and "HandlerResult" in str(x[1].self_ty) + str(x[1].path) or x[1].name == "poll" and "kompact::component::Handled" in str(x[1].self_ty)))]
            if not hs:
                continue
            n += 1
            bad = escapes(p, b, stop)
            ctx.ob("only-in-execute", not bad, bkey(b), "runs component handlers or futures but can be reached without the component's lock, through %s" % (bad and where(bad)), where(b))
        ctx.anchor("functions running component handlers or futures", [1] * n, 3)
        # the state lives in a mutex, and only mutex operations touch the field
        holders = [a for a in p.adts.values() if a["id"].startswith("kompact") and any("ComponentMutableCore<" in f[1] for v in a["variants"] for f in v["fields"])]
        ctx.anchor("owner of the component's state", holders)
        for a in holders:
            for v in a["variants"]:
                for f in v["fields"]:
                    if "ComponentMutableCore<" in f[1]:
                        ctx.ob("state-in-mutex", ty_head(f[1]) in ("Mutex", "MutexGuard"), "%s.%s" % (a["id"], f[0]), "component state is held in a %s instead of a mutex" % f[1], a["id"])
        k = 0
        for b, line, good in field_uses(p, "mutable_core", None):
            k += 1
            ctx.ob("state-access", good, bkey(b), "the component's state is reached other than by a mutex operation", where(b, line))
        ctx.anchor("uses of the component's state", [1] * k, 8)
        # unsafe access
        raw = 0
        for b in p.bodies:
            if b.file.startswith("core/src/net/buffers/"):
                continue
            for ty, line in sorted(raw_derefs(b)):
                raw += 1
                sn = last_seg(b.self_adt) if b.self_adt else ty_head(b.self_ty or "")
                ok = any(b.name == m and (t == sn or t in b.id) for m, t in ALLOWED_RAW)
                ctx.ob("raw-access", ok, "%s:%s" % (bkey(b), ty.replace(" ", "_")), "dereferences a raw pointer (%s): not one of the accesses known to be exclusive" % ty, where(b, line))
        ctx.count("raw pointer dereferences", raw)
        m = 0
        for i in p.impls:
            if not i.get("unsafe") or not i.get("trait") or last_seg(i["trait"]) not in ("Send", "Sync"):
                continue
            m += 1
            ctx.ob("auto-trait", (ty_head(i["self"]), last_seg(i["trait"])) in ALLOWED_AUTO, "%s:%s" % (ty_head(i["self"]), last_seg(i["trait"])), "`unsafe impl %s for %s` lets threads share or move state the compiler would keep apart" % (last_seg(i["trait"]), i["self"]), "%s:%s" % (i["file"], i["line"]))
        ctx.anchor("manual Send implementations", [1] * m, 2)
        # the unchecked handle inside component futures
        h = [i for i in p.impls if ty_head(i["self"]) == "ComponentDefinitionAccess"]
        for i in h:
            t = last_seg(i["trait"]) if i.get("trait") else ""
            ctx.ob("handle-traits", t not in ("Clone", "Copy", "Sync", "Default"), t, "the unchecked component handle can be duplicated or shared (implements %s)" % t, "%s:%s" % (i["file"], i["line"]))
        mk = [b for b in p.bodies if any(st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and "ComponentDefinitionAccess" in str(st[2][1][1]) for bl in b.blocks for st in bl["s"])]
        ctx.anchor("constructor of the unchecked component handle", mk)
        cg = p.callers()
        for b in mk:
            work, seen = [b], set()
            while work:
                x = work.pop()
                if x.h in seen:
                    continue
                seen.add(x.h)
                ret = x.locals[0]
                if ty_head(ret) in ("BlockingFuture", "NonBlockingFuture"):
                    ctx.ob("handle-made", any(("&mut " in x.locals[j + 1] or x.locals[j + 1].startswith("&'") and "mut" in x.locals[j + 1]) for j in range(x.argc)), bkey(x), "makes an unchecked component handle without exclusive access to the component", where(x))
                    continue
                if "ComponentDefinitionAccess" not in ret:
                    ctx.ob("handle-made", False, bkey(x), "makes an unchecked component handle outside of a component future", where(x))
                    continue
                cs = [p.by_h[y] for y in cg.get(x.h, ()) if y in p.by_h]
                ctx.ob("handle-made", bool(cs), bkey(x), "the constructor of the unchecked component handle can be called by anyone", where(x))
                work += cs
        # and it stays private
        for b in mk:
            ctx.ob("handle-private", not getattr(b, "pub", False), bkey(b), "the constructor of the unchecked component handle is public", where(b))
    ctx.assume("the borrow checker: safe code cannot keep a reference into the state beyond the guard or the exclusive borrow")
    ctx.assume("ComponentDefinitionAccess is used as documented: only inside the future it was made for")
