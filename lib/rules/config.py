"""C01: configuration values are checked before they are used."""
import struct
from kit import *
from trace import *
from rules import prop
from rules.ports import inherent, traitfn, need
from rules.wire import adt_named
from rules.netdispatch import ok, err, some, NONE
from rules.paths import thru, bare, deepv, strip

OWN = ("kompact", "kompact_net")
MIN = 1
# key -> (field it decides, documented default or None if it is computed, documented rule)
KEYS = {
    "kompact.runtime.label": ("label", None, None),
    "kompact.runtime.throughput": ("throughput", 50, lambda x: x > 0),
    "kompact.runtime.message-priority": ("msg_priority", 0.5, lambda x: 0.0 < x < 1.0),
    "kompact.runtime.threads": ("threads", None, lambda x: x > 0),
    "kompact.runtime.scheduler": (None, "auto", lambda x: x in POOLS),
}
POOLS = {"auto": None, "small": "small_pool", "large": "large_pool", "dynamic": "dyn_pool", "custom": ""}
SAME = ("to_string", "to_owned", "into", "from", "as_ref", "as_str", "deref", "borrow", "clone", "must_use", "as_deref")


class Conf(Trace):
    """Follows configuration values; `more` names what matters to the function looked at."""

    def __init__(self, p, more, check, **k):
        self.more = more
        k.setdefault("keep", lambda s: True)
        Trace.__init__(self, p, self.event, check, **k)

    def event(self, c):
        e = self.more(c)
        if e is not None:
            return e
        f = c.fn
        if f is None or f.krate in OWN:
            return None
        if f.name in SAME and len(c.args) == 1:
            w = thru(c, c.args[0])
            if w[0] == "s" or w[0] == "y":
                return E(ret=w if w[0] == "s" else ("y", bare(w[1])))
        if f.name in ("eq", "ne") and len(c.args) == 2:
            l, r = thru(c, c.args[0]), thru(c, c.args[1])
            if r[0] != "s":
                l, r = r, l
            if r[0] == "s" and l[0] == "y":
                return E(ret=("y", ("member", (r[1],), f.name == "ne")))
        if f.name == "contains" and len(c.args) == 2:
            l, r = thru(c, c.args[0]), thru(c, c.args[1])
            if l[0] == "v" and l[1] == "array" and r[0] == "y":
                ws = tuple(thru(c, x[1]) for x in l[3])
                if all(w[0] == "s" for w in ws):
                    return E(ret=("y", ("member", tuple(w[1] for w in ws), False)))
        if f.name in ("format", "new_display", "new_debug") or "Arguments" in f.path and f.name == "new":
            return E(ret=("y", ("said", c.site[1] if isinstance(c.site, tuple) else str(c.site))))
        return None

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)


def name_of(v):
    """What a value is, whether seen through a reference or not."""
    if v[0] == "y":
        return flats(bare(v[1]))
    if v[0] == "kr":
        return name_of(v[1])
    return repr(v[1]) if v[0] == "s" else flat(v)


# ------------------------------------------------------------------ reading one entry
def payload(v):
    return v[3][0][1] if v[0] == "v" and len(v[3]) == 1 else None


def entry(ctx, p):
    bad = adt_named(p, "ConfigError")
    vb = inherent(p, "ConfigEntry", "validate")
    if need(ctx, vb, "ConfigEntry::validate"):
        def more(c):
            if c.fn is None:
                return E("ran", name_of(thru(c, c.args[0])) if c.args else "", flat(c.fval), ret=ok(UNIT), alts=[E("refused", ret=err(("y", ("why",))))])
            return None

        def chk(st, val, facts, c):
            v = deepv(c, val)
            ran = [x for x in st if x[0] == "ran"]
            if v[0] == "v" and v[2] == "Ok":
                if name_of(payload(v)) != "arg1":
                    yield "other", "the value handed out is %s, not the one validated" % name_of(payload(v))
                if has(st, "refused"):
                    yield "let", "a value the validator refuses is accepted"
                elif not any(x[1] == "arg1" and "validator" in x[2] for x in ran):
                    none = any(isinstance(k, tuple) and k[0] == "discr" and flats(bare(k[1])).endswith(".validator") and x in (("c", 0), ("not", frozenset((1,)))) for k, x in facts.items())
                    if not none:
                        yield "skip", "a value is accepted without running the validator of its key"
            elif v[0] == "v" and v[2] == "Err":
                e = payload(v)
                if not has(st, "refused"):
                    yield "refuse", "a valid value is refused"
                fs = dict(e[3]) if e[0] == "v" else {}
                if "arg0.key" not in name_of(fs.get("path", ("y", ("?",)))):
                    yield "name", "the error for an invalid value does not name its key"
        run_trace(ctx, p, "entry", vb[0], Conf(p, more, chk))
    rb = inherent(p, "ConfigEntry", "read") + inherent(p, "Config", "read")
    for b in rb:
        me, conf = ("arg0", "arg1") if last_seg(b.self_adt or b.self_ty).startswith("ConfigEntry") else ("arg1", "arg0")

        def more2(c):
            f = c.fn
            if f is None:
                return E("raw", flat(c.fval))
            if f.krate not in OWN:
                return None
            n = f.name
            if n in ("select", "get") and "Config" == last_seg((f.self_ty or "").split("<")[0]):
                return E("find", name_of(thru(c, c.args[0])), name_of(thru(c, c.args[1])), n, ret=("y", ("lookup",)))
            if n == "value" and len(c.args) == 1:
                return E("found", ret=ok(("y", ("raw",))), alts=[E("lost", ret=err(("y", ("lookuperr",))))])
            if n == "from_conf":
                return E("conv", name_of(thru(c, c.args[0])), ret=ok(("y", ("typed",))), alts=[E("noconv", ret=err(("y", ("converr",))))])
            if n == "with_path":
                return E(ret=("y", ("named", name_of(thru(c, c.args[0])), name_of(thru(c, c.args[1])))))
            if n == "validate":
                a = name_of(thru(c, c.args[1]))
                return E("valid", name_of(thru(c, c.args[0])), a, ret=ok(("y", ("checked", a))), alts=[E("invalid", ret=err(("y", ("inval",))))])
            return None

        def chk2(st, val, facts, c):
            v = deepv(c, val)
            if v[0] != "v":
                ctx.assume("%s returns %s" % (b.id, flat(v)[:60]))
                return
            got = payload(v)
            if v[2] == "Ok":
                if name_of(got) != "checked:typed":
                    yield "raw", "a value is handed out that was not validated (%s)" % name_of(got)
                if ("conv", "raw") not in st:
                    yield "source", "the value handed out does not come from the configuration"
                if not any(x[0] == "find" and x[1] == conf and x[2] == me + ".key" and x[3] == "select" for x in st):
                    yield "key", "the value is not the one stored under the key of the entry"
                if not any(x[0] == "valid" and x[1] == me for x in st):
                    yield "whose", "the value is validated by another entry"
            else:
                n = name_of(got)
                if has(st, "noconv") and not n.startswith("named:converr:" + me + ".key"):
                    yield "name", "the error for a value of the wrong type does not name its key (%s)" % n
                if not (has(st, "noconv") or has(st, "lost") or has(st, "invalid")):
                    yield "refuse", "a good value is refused"
        run_trace(ctx, p, "entry", b, Conf(p, more2, chk2))
    need(ctx, rb, "read of a configuration entry")
    conv = ("v", bad, "ConversionError", (("path", ("y", ("cp",))), ("description", ("y", ("cd",)))))
    inv = ("v", bad, "InvalidValue", (("path", ("y", ("cp",))), ("description", ("y", ("cd",)))))
    pe = ("v", bad, "PathError", (("0", ("y", ("pe",))),))
    db = inherent(p, "ConfigEntry", "read_or_default") + inherent(p, "Config", "read_or_default")
    need(ctx, db, "read_or_default of a configuration entry", )
    for b in db:
        def more3(c):
            f = c.fn
            if f is None:
                return E("default", flat(c.fval), ret=("y", ("dflt",)))
            if f.krate in OWN and f.name == "read":
                return E("got", ret=ok(("y", ("got",))), alts=[E("conv", ret=err(conv)), E("inv", ret=err(inv)), E("path", ret=err(pe))])
            if f.krate in OWN and f.name == "is_missing":
                return E(ret=("y", ("missing",)))
            return None

        def chk3(st, val, facts, c):
            v = deepv(c, val)
            if v[0] != "v":
                if not (v[0] == "y" or v[0] == "?"):
                    ctx.assume("%s returns %s" % (b.id, flat(v)[:60]))
                return
            if v[2] == "Ok":
                n = name_of(payload(v))
                if has(st, "got"):
                    if n != "got":
                        yield "lost", "the configured value is not the one handed out"
                elif not has(st, "path"):
                    yield "hide", "an invalid value is silently replaced by the default"
                elif facts.get(("missing",)) != ("c", 1):
                    yield "hide", "a key that cannot be looked up is silently replaced by the default"
                elif n != "dflt":
                    yield "dflt", "a missing key yields %s instead of its default" % n
            else:
                if has(st, "got"):
                    yield "refuse", "a good value is refused"
                if facts.get(("missing",)) == ("c", 1) and has(st, "default"):
                    yield "nodflt", "a missing key is an error although it has a default"
        run_trace(ctx, p, "entry", b, Conf(p, more3, chk3))
    ms = inherent(p, "ConfigPathError", "is_missing")
    if need(ctx, ms, "ConfigPathError::is_missing"):
        adt = adt_named(p, "ConfigPathError")
        for v in p.adts[adt]["variants"]:
            got = set()

            def chk4(st, val, facts, c):
                w = resolve(c.sim, c.env, val)
                got.add(w[1] if w[0] == "c" else None)
                return ()
            run_trace(ctx, p, "entry", ms[0], Conf(p, lambda c: None, chk4), args=[("kr", ("v", adt, v["name"], tuple((n, ("y", ("f", n))) for n, _, _ in v["fields"])))])
            ctx.ob("entry", got == {int(v["name"].startswith("Missing"))} or None in got, "missing:%s" % v["name"], "a lookup that fails with %s counts as a missing key: %s" % (v["name"], sorted(got)), where(ms[0]))
    wp = inherent(p, "ConfigError", "with_path")
    if need(ctx, wp, "ConfigError::with_path"):
        for e in (conv, inv):
            for path in (NONE, some(("y", ("old",)))):
                def chk5(st, val, facts, c):
                    v = deepv(c, val)
                    if v[0] != "v":
                        return
                    fs = dict(v[3])
                    if v[2] != e[2] or name_of(fs["description"]) != "cd":
                        yield "kind:" + e[2], "an error changes its kind when its key is named"
                    n = name_of(fs["path"])
                    if "arg1" not in n and "old" not in n:
                        yield "name:" + e[2], "an error does not carry the key it is given"
                run_trace(ctx, p, "entry", wp[0], Conf(p, lambda c: None, chk5), args=[("v", e[1], e[2], (("path", path), e[3][1])), ("y", ("arg", 1, "path"))])


# ------------------------------------------------------------------ the rules of the keys
def f32(bits):
    return struct.unpack("<f", struct.pack("<I", bits & 0xffffffff))[0]


def f64(bits):
    return struct.unpack("<d", struct.pack("<Q", bits & (1 << 64) - 1))[0]


def samples(ty, consts):
    if ty in ("f32", "f64"):
        tiny = 1.401298464324817e-45 if ty == "f32" else 5e-324
        out = [float("-inf"), -1.0, -0.0, 0.0, tiny, 0.25, 0.5, 0.75, 0.99999994, 1.0, 1.0000001192092896, 2.0, 1e30, float("inf"), float("nan")]
        dec = f32 if ty == "f32" else f64
        for k in consts:
            out += [dec(k), dec(k + 1), dec(k - 1) if k else -tiny]
        return out
    if ty in ("String", "str"):
        return sorted(set(POOLS) | set(consts) | {"", "\0other", "Auto", "auto "})
    top = 1 << (64 if ty in ("usize", "u64", "i64") else 32)
    out = {0, 1, 2, 3, 50, top - 1, top // 2}
    for k in consts:
        out |= {k - 1, k, k + 1}
    return sorted(x for x in out if 0 <= x < top)


def value(s, x, ty):
    """The value of a branch symbol for the input x, None if it is not known."""
    if s[0] == "c":
        return f32(s[1]) if ty == "f32" else f64(s[1]) if ty == "f64" else s[1]
    if s[0] == "y":
        return value(bare(s[1]), x, ty)
    if s[0] == "input":
        return x
    if s[0] == "member":
        return int((x in s[1]) != s[2]) if isinstance(x, str) else None
    if s[0] == "bin" and len(s) >= 4:
        l, r = value(s[2], x, ty), value(s[3], x, ty)
        if l is None or r is None:
            return None
        op = s[1]
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return int({"Lt": l < r, "Le": l <= r, "Gt": l > r, "Ge": l >= r, "Eq": l == r, "Ne": l != r}[op])
        if op == "BitAnd" and l in (0, 1) and r in (0, 1):
            return l & r
        if op == "BitOr" and l in (0, 1) and r in (0, 1):
            return l | r
        return None
    if s[0] == "un" and s[1] == "Not":
        l = value(s[2], x, ty)
        return None if l is None else 1 - l
    if s[0] == "not":
        l = value(s[1], x, ty)
        return None if l is None else 1 - l
    return None


def possible(facts, x, ty):
    """False if the path cannot be taken for x; None if that is not known."""
    out = True
    for k, v in facts.items():
        if not isinstance(k, tuple):
            continue
        g = value(k, x, ty)
        if g is None:
            if k[0] in ("bin", "member", "un", "not"):
                out = None
            continue
        if v[0] == "c" and g != v[1] or v[0] == "not" and g in v[1]:
            return False
    return out


def consts_in(s, out):
    if isinstance(s, tuple):
        if s and s[0] == "c" and len(s) == 2 and isinstance(s[1], int):
            out.add(s[1])
        elif s and s[0] == "member":
            out.update(s[1])
        else:
            for x in s:
                consts_in(x, out)


def key_of(v):
    """The fields of a configuration entry, None if the value is not one."""
    while v[0] == "kr":
        v = v[1]
    if v[0] == "v" and last_seg(v[1]) == "ConfigEntry":
        return dict(v[3])
    return None


def fn_of(p, v):
    """The body a field like Some(f) names; False for None."""
    if v[0] == "v" and v[2] == "None":
        return False
    w = payload(v)
    if w is not None and w[0] == "fn":
        return p.by_h.get(w[1])
    return None


def rules_of(ctx, p, keys, at):
    for name, (field, dflt, rule) in sorted(KEYS.items()):
        e = keys.get(name)
        if e is None:
            continue
        va, de = fn_of(p, e["validator"]), fn_of(p, e["default"])
        if rule is not None:
            if not ctx.ob("values", va is not False, name + ":none", "the key %s has no validity rule" % name, at):
                continue
            if va is not None:
                seen = []

                def chk(st, val, facts, c):
                    v = resolve(c.sim, c.env, val)
                    if v[0] == "v":
                        seen.append((dict(facts), v[2] == "Ok"))
                    else:
                        seen.append((dict(facts), None))
                    return ()
                run_trace(ctx, p, "values", va, Conf(p, lambda c: None, chk), args=[("kr", ("y", ("input",)))])
                ty = last_seg(strip(va.locals[1]))
                ks = set()
                for fs, _ in seen:
                    for k in fs:
                        consts_in(k, ks)
                ks = {k for k in ks if isinstance(k, str) == (ty in ("String", "str"))}
                n = 0
                for x in samples(ty, ks):
                    res = [(possible(fs, x, ty), r) for fs, r in seen]
                    rs = {r for q, r in res if q is not False}
                    n += 1
                    if rs and None not in rs and bool(rule(x)) not in rs:
                        ctx.ob("values", False, "%s:%s" % (name, "let" if not rule(x) else "refuse"), "the value %r of %s is %s" % (x, name, "accepted" if not rule(x) else "refused"), where(va))
                        break
                else:
                    ctx.ob("values", True, name, "", where(va))
                ctx.count("values", n)
        if ctx.ob("values", de is not False, name + ":default", "the key %s has no default" % name, at) and de is not None:
            def chk2(st, val, facts, c):
                v = deepv(c, val)
                ty = last_seg(strip(de.locals[0]))
                x = None
                if v[0] == "c" and isinstance(v[1], int):
                    x = value(v, None, ty)
                elif v[0] == "s":
                    x = v[1]
                if x is None:
                    return
                if dflt is not None and x != dflt:
                    yield "default", "the default of %s is %r, not %r as documented" % (name, x, dflt)
                if rule is not None and not rule(x):
                    yield "baddefault", "the default of %s is %r, which is not valid" % (name, x)
            run_trace(ctx, p, "values", de, Conf(p, lambda c: None, chk2))


def pools_in(p, v):
    """The pools a scheduler builder makes, by the closure that is stored."""
    out = set()

    def visit(b, depth):
        for _, f, _, _, _ in p.calls(b):
            if f is None:
                continue
            if f.name in ("small_pool", "large_pool", "dyn_pool"):
                out.add(f.name)
            for t in p.by_id.get(f.path, ()):
                if depth and t.crate in OWN:
                    visit(t, depth - 1)

    def find(w):
        if isinstance(w, tuple):
            if w and w[0] == "clo" and isinstance(w[1], str) and w[1] in p.by_h:
                visit(p.by_h[w[1]], 2)
                return
            for x in w:
                find(x)
    find(v)
    return out


def using(ctx, p):
    bs = inherent(p, "KompactConfig", "override_from_config")
    if not need(ctx, bs, "KompactConfig::override_from_config"):
        return
    keys, pools = {}, {}

    def more(c):
        f = c.fn
        if f is not None and f.krate in OWN and f.name in ("read_or_default", "read") and len(c.args) == 2:
            a = [deepv(c, x) for x in c.args]
            e = next((key_of(x) for x in a if key_of(x)), None)
            if e is None:
                return None
            k = e["key"][1]
            keys[k] = e
            return E("read", k, f.name, ret=ok(("y", ("input", k))), alts=[E("bad", k, ret=err(("y", ("why", k))))])
        return None

    def wrote(c, key, val):
        k = flatkey(key)
        if k.startswith("arg0."):
            v = deepv(c, val)
            return ("set", k[5:], flats(bare(v[1])) if v[0] == "y" else "pool:" + "+".join(sorted(pools_in(p, v))) if k.endswith("scheduler_builder") else flat(v)[:40])
        return None

    def chk(st, val, facts, c):
        v = deepv(c, val)
        if v[0] == "v" and v[2] == "Err":
            if not has(st, "bad"):
                yield "refuse", "a good configuration is refused"
            else:
                k = next(x[1] for x in st if x[0] == "bad")
                if k not in flat(payload(v)):
                    yield "error", "the error for %s is replaced by another" % k
            return
        if v[0] != "v":
            return
        if has(st, "bad"):
            yield "swallow", "an invalid value of %s does not fail the build" % next(x[1] for x in st if x[0] == "bad")
            return
        last = {x[1]: x[2] for x in st if x[0] == "set"}
        for k, (field, dflt, rule) in sorted(KEYS.items()):
            if not any(x[0] == "read" and x[1] == k for x in st):
                yield "unread:" + k, "the key %s is not read when the system is built" % k
            elif any(x[0] == "read" and x[1] == k and x[2] != "read_or_default" for x in st):
                yield "must:" + k, "the key %s must be present although it has a default" % k
            elif field and last.get(field) != "input:" + k:
                yield "use:" + k, "%s is set to %s and not to the value of %s" % (field, last.get(field), k)
        for w in POOLS:
            if possible({k: x for k, x in facts.items() if isinstance(k, tuple) and k[0] == "member"}, w, "str") is not False:
                pools.setdefault(w, set()).add(last.get("scheduler_builder", "pool:"))
    run_trace(ctx, p, "use", bs[0], Conf(p, more, chk, on_write=wrote))
    for w, want in sorted(POOLS.items()):
        got = pools.get(w)
        ctx.ob("use", got, "scheduler:%s:none" % w, "the scheduler %s is accepted but building the system with it panics" % w, where(bs[0]))
        if got and want is not None:
            ctx.ob("use", got == {"pool:" + want}, "scheduler:%s" % w, "the scheduler %s uses %s" % (w, sorted(got)), where(bs[0]))
        elif got:
            ctx.ob("use", "pool:" not in got, "scheduler:%s" % w, "the scheduler %s picks no pool" % w, where(bs[0]))
    rules_of(ctx, p, keys, where(bs[0]))
    ctx.count("keys", len(keys))


# ------------------------------------------------------------------ where the values come from
def own(f, *names):
    return f is not None and f.krate in OWN and f.name in names


def self_is(f, ty):
    return last_seg((f.self_ty or "").split("<")[0]) == ty


def sources(ctx, p):
    bs = inherent(p, "KompactSystem", "load_config")
    if need(ctx, bs, "KompactSystem::load_config"):
        def more(c):
            f = c.fn
            if own(f, "load") and self_is(f, "ConfigSource"):
                n = name_of(thru(c, c.args[0]))
                return E("load", n, ret=ok(("y", ("loaded", n))), alts=[E("noload", ret=err(("y", ("loaderr",))))])
            if own(f, "merge") and self_is(f, "Config"):
                return E("merge", name_of(thru(c, c.args[1])), ret=UNIT)
            return None

        def turn(X, op, it, tr):
            return tuple(it)

        def chk(st, val, facts, c):
            v = deepv(c, val)
            if v[0] != "v":
                return
            flatd = [x for y in st for x in (y[2] or () if y[0] == "iters" else (y,)) if isinstance(x, tuple)]
            if v[2] == "Err":
                if not has(flatd, "noload"):
                    yield "refuse", "sources that can all be read are refused"
                return
            if has(flatd, "noload"):
                yield "swallow", "a source that cannot be read is left out without an error"
                return
            rounds = [y for y in st if y[0] == "iters"]
            its = {y[1] for y in st if y[0] in ("iters", "end")}
            loads = [x for x in flatd if x[0] == "load"]
            merges = [x for x in flatd if x[0] == "merge"]
            for x in loads:
                if ("merge", "loaded:" + x[1]) not in merges:
                    yield "lost", "a source is read but does not take part"
            for X in its:
                n = flats(X)
                if "arg0.config_sources" in n and X[2] == "part":
                    yield "some", "only some of the sources are read"
            if rounds and not loads:
                yield "none", "the sources are not read"
            if not its and not loads:
                yield "none", "the sources are not read"
        r = Conf(p, more, chk, on_iter=turn)
        run_trace(ctx, p, "sources", bs[0], r)
        # the order of the sources
        for b in bs + list(p.closures_of(bs[0]) if hasattr(p, "closures_of") else ()):
            for _, f, line, _, _ in p.calls(b):
                if f is not None and f.name in ("rev", "next_back", "pop", "swap_remove", "sort", "sort_by", "rfold", "try_rfold"):
                    ctx.ob("sources", False, "order", "the sources are merged in another order than they were given", where(b, line))
    bs = inherent(p, "KompactSystem", "prepare_new")
    if need(ctx, bs, "KompactSystem::prepare_new"):
        def more2(c):
            f = c.fn
            if f is None or f.krate not in OWN and f.name in ("call", "call_mut", "call_once"):
                return E("builder", ret=("y", ("built", len(r2.cur_st))))
            if own(f, "load_config"):
                return E("load", ret=ok(("y", ("cfg",))), alts=[E("bad", ret=err(("y", ("loaderr",))))])
            if own(f, "override_from_config"):
                return E("checked", name_of(thru(c, c.args[0])), name_of(thru(c, c.args[1])), ret=ok(UNIT), alts=[E("bad", ret=err(("y", ("checkerr",))))])
            if own(f, "new") and self_is(f, "KompactRuntime"):
                return E("runtime", name_of(thru(c, c.args[0])), ret=("y", ("rt",)))
            if f.krate in OWN and f.name not in ("prepare_new",):
                return E(ret=("y", ("res", f.name)))
            return None

        def chk2(st, val, facts, c):
            v = deepv(c, val)
            if v[0] != "v":
                return
            if v[2] == "Err":
                if has(st, "runtime"):
                    yield "half", "the system exists although its configuration is refused"
                if not has(st, "bad"):
                    yield "refuse", "a good configuration is refused"
                return
            if has(st, "bad"):
                yield "swallow", "the system is built although its configuration is refused"
                return
            i = [j for j, x in enumerate(st) if x[0] == "checked"]
            if not i:
                yield "skip", "the system is built without reading its configuration"
                return
            for j, x in enumerate(st):
                if j < i[0] and x[0] in ("runtime", "builder"):
                    yield "early", "the system is built before its configuration is read"
            if st[i[0]][1:] != ("arg0", "cfg"):
                yield "which", "the configuration checked is not the one that was loaded"
            cf = [x for x in walk_fields(v, "config")]
            if cf and not any("cfg" in flat(x) for x in cf):
                yield "kept", "the configuration of the system is not the one that was loaded"
        r2 = Conf(p, more2, chk2)
        run_trace(ctx, p, "sources", bs[0], r2)
    cv = adt_named(p, "ConfigSource")
    for name, made in (("set_config_value", "Value"), ("load_config_file", "File"), ("load_config_str", "Str")):
        bs = inherent(p, "KompactConfig", name)
        if not need(ctx, bs, "KompactConfig::%s" % name):
            continue

        def more3(c):
            f = c.fn
            if f is None:
                return None
            if f.name in ("push", "insert", "push_within_capacity", "extend") and "config_sources" in objname(c, c.args[0]):
                return E("add", f.name, deepv(c, c.args[-1]), ret=UNIT)
            if f.name in ("clear", "pop", "remove", "truncate", "retain", "swap") and "config_sources" in objname(c, c.args[0]):
                return E("other", f.name)
            if f.name == "into_config_value":
                return E(ret=("y", ("stored", name_of(thru(c, c.args[0])))))
            return None

        def chk3(st, val, facts, c):
            adds = [x for x in st if x[0] == "add"]
            if has(st, "other") or any(x[1] == "insert" for x in adds):
                yield "order", "%s does not add its source behind the others" % name
                return
            if len(adds) != 1:
                yield "add", "%s adds %d sources" % (name, len(adds))
                return
            v = adds[0][2]
            if v[0] != "v":
                return
            if v[2] != made:
                yield "kind", "%s adds a source of the kind %s" % (name, v[2])
                return
            fs = {n: name_of(x) for n, x in v[3]}
            if made == "Value":
                if fs.get("key") != "arg1.key" or fs.get("value") != "stored:arg2":
                    yield "what", "%s stores %s" % (name, fs)
            elif "arg1" not in fs.get("0", "arg1"):
                yield "what", "%s stores %s" % (name, fs)
        run_trace(ctx, p, "sources", bs[0], Conf(p, more3, chk3))
    bs = inherent(p, "ConfigSource", "load")
    if need(ctx, bs, "ConfigSource::load"):
        for v in p.adts[cv]["variants"]:
            arg = ("kr", ("v", cv, v["name"], tuple((n, ("y", ("in", n))) for n, _, _ in v["fields"])))

            def more4(c):
                f = c.fn
                if own(f, "parse_config_file", "parse_config_str"):
                    return E("parse", f.name, name_of(thru(c, c.args[0])), ret=ok(("y", ("doc",))), alts=[E("bad", ret=err(("y", ("parseerr",))))])
                if own(f, "insert_value"):
                    return E("put", name_of(thru(c, c.args[1])), name_of(thru(c, c.args[2])), ret=UNIT)
                return None

            def chk4(st, val, facts, c):
                w = deepv(c, val)
                if w[0] != "v":
                    return
                if w[2] == "Err":
                    if not has(st, "bad"):
                        yield "refuse:" + v["name"], "a good source is refused"
                    return
                if has(st, "bad"):
                    yield "swallow:" + v["name"], "a source that cannot be parsed yields an empty configuration"
                    return
                want = {"File": ("parse", "parse_config_file", "in:0"), "Str": ("parse", "parse_config_str", "in:0"), "Value": ("put", "in:key", "in:value")}.get(v["name"])
                if want and not any(x[:2] + tuple(y.split("(")[0] for y in x[2:]) == want or x == want for x in st):
                    yield "what:" + v["name"], "the source %s is loaded by %s" % (v["name"], [x for x in st])
            run_trace(ctx, p, "sources", bs[0], Conf(p, more4, chk4), args=[arg])


def objname(c, v):
    w = thru(c, v)
    if w[0] == "y":
        return flats(bare(w[1]))
    o = objval(c.sim, c.env, v)
    return flat(o) if o[0] != "r" else flatkey(o[1])


def walk_fields(v, name):
    if v[0] == "v":
        for n, x in v[3]:
            if n == name:
                yield x
            else:
                yield from walk_fields(x, name)
    elif v[0] == "kr":
        yield from walk_fields(v[1], name)


# ------------------------------------------------------------------ later sources override earlier ones
def merging(ctx, p):
    vs = [v["name"] for v in p.adts[adt_named(p, "ConfigValueInner")]["variants"]]
    inner, cval = adt_named(p, "ConfigValueInner"), adt_named(p, "ConfigValue")
    bs = inherent(p, "ConfigValue", "merge")
    if need(ctx, bs, "ConfigValue::merge"):
        def more(c):
            if own(c.fn, "merge_tables"):
                return E("tables", objname(c, c.args[0]), objname(c, c.args[1]), ret=UNIT)
            return None

        def wrote(c, key, val):
            k = flatkey(key)
            if k in ("arg0.inner", "arg0"):
                return ("set", k, deepv(c, val))
            return None

        def chk(st, val, facts, c):
            sets, tabs = [x for x in st if x[0] == "set"], [x for x in st if x[0] == "tables"]
            t = {}
            for k, x in facts.items():
                if isinstance(k, tuple) and k[0] == "discr":
                    n = flats(bare(k[1]))
                    for a in ("arg0", "arg1"):
                        if n.startswith(a):
                            t[a] = x == ("c", len(vs) - 1) if x[0] == "c" else False if len(vs) - 1 in x[1] else None
            both = t.get("arg0") is True and t.get("arg1") is True
            if both:
                if not tabs or sets:
                    yield "tables", "two tables are not merged key by key"
                elif not ("arg0" in tabs[0][1] and "arg1" in tabs[0][2]):
                    yield "swap", "tables are merged the wrong way round (%s into %s)" % (tabs[0][2], tabs[0][1])
            elif False in t.values():
                if not sets or "arg1" not in flat(sets[-1][2]):
                    yield "keep", "a later value does not replace an earlier one"
        run_trace(ctx, p, "merge", bs[0], Conf(p, more, chk, on_write=wrote))
    bs = [b for b in p.bodies if b.kind == "Fn" and b.crate == "kompact" and b.name == "merge_tables"] or inherent(p, "Config", "merge")
    if need(ctx, bs, "the merge of two tables"):
        r = None

        def more2(c):
            f = c.fn
            if f is None:
                return None
            if f.krate not in OWN and f.name in ("get_mut", "remove", "insert", "contains_key", "entry") and len(c.args) >= 2 and "arg0" in objname(c, c.args[0]):
                k = objname(c, c.args[1])
                if f.name == "get_mut":
                    return E("has", k, ret=some(("kr", ("y", ("old", k)))), alts=[E("new", k, ret=NONE)])
                if f.name == "insert":
                    return E("insert", k, objname(c, c.args[2]), ret=NONE)
                if f.name == "contains_key":
                    return E("has", k, ret=("c", 1), alts=[E("new", k, ret=("c", 0))])
                return E("other", f.name)
            if own(f, "merge") and self_is(f, "ConfigValue"):
                return E("merge", objname(c, c.args[0]), objname(c, c.args[1]), ret=UNIT)
            if f.name == "extend":
                return E("other", "extend")
            return None

        def chk2(st, val, facts, c):
            for X in {y[1] for y in st if y[0] in ("iters", "end")}:
                if X[2] == "part":
                    yield "some", "only some keys of the later source take part"
            if not any(y[0] in ("iters", "end") for y in st):
                ctx.assume("the merge of two tables does not walk the later one in a form the rule knows")
                return
            for y in st:
                if y[0] != "iters":
                    continue
                it = y[2] or ()
                if has(it, "other"):
                    ctx.assume("a key is merged by %s" % [x for x in it if x[0] == "other"])
                    continue
                e = "elem(" + flats(y[1]) + ")"
                if has(it, "has") and not any(x[0] == "merge" and x[1].startswith("old") and ".1" in x[2] for x in it):
                    yield "keep", "a key both sources have keeps its earlier value"
                if has(it, "new") and not any(x[0] == "insert" and ".0" in x[1] and ".1" in x[2] for x in it):
                    yield "lose", "a key only the later source has is lost"
                if has(it, "insert") and not has(it, "new"):
                    yield "replace", "a table of the later source replaces the earlier one instead of being merged into it"
                if not it:
                    yield "skip", "a key of the later source is skipped"
        run_trace(ctx, p, "merge", bs[0], Conf(p, more2, chk2, on_iter=lambda X, op, it, tr: tuple(it)))
    bs = inherent(p, "Config", "merge")
    if need(ctx, bs, "Config::merge"):
        def more5(c):
            if own(c.fn, "merge_tables"):
                return E("tables", objname(c, c.args[0]), objname(c, c.args[1]), ret=UNIT)
            return None

        def chk5(st, val, facts, c):
            t = [x for x in st if x[0] == "tables"]
            if t and not ("arg0" in t[0][1] and "arg1" in t[0][2]):
                yield "swap", "configurations are merged the wrong way round"
            if not st:
                yield "none", "configurations are not merged"
        run_trace(ctx, p, "merge", bs[0], Conf(p, more5, chk5, on_iter=lambda X, op, it, tr: tuple(it)))


# ------------------------------------------------------------------ types of values
TYPES = {
    "StringValue": {"String"}, "IntegerValue": {"Integer"}, "RealValue": {"Integer", "Real"}, "BooleanValue": {"Boolean"},
    "BytesValue": {"Integer", "String"}, "DurationValue": {"String"}, "UsizeValue": {"Integer"}, "F32Value": {"Integer", "Real"}, "ArrayOfValues": {"Array"},
}


def converters(ctx, p):
    inner, cval = adt_named(p, "ConfigValueInner"), adt_named(p, "ConfigValue")
    n = 0
    for b in p.bodies:
        if b.kind == "Closure" or b.crate != "kompact" or last_seg(b.trait or "") != "ConfigValueType" or b.name not in ("from_conf", "into_config_value"):
            continue
        t = last_seg((b.self_ty or "").split("<")[0])
        if t not in TYPES:
            continue
        n += 1

        def more(c):
            f = c.fn
            if f is None:
                return None
            if f.name in ("parse_str", "parse_duration", "as_u64") and f.krate not in OWN:
                return E(ret=("y", ("parsed", name_of(thru(c, c.args[0])))))
            if f.name in ("try_into", "try_from") and f.krate not in OWN:
                a = thru(c, c.args[0])
                return E("fits", ret=ok(("y", ("num", name_of(a)))), alts=[E("toobig", ret=err(("y", ("range",))))])
            return None
        if b.name == "from_conf":
            for v in p.adts[inner]["variants"]:
                arg = ("kr", ("v", cval, "ConfigValue", (("inner", ("v", inner, v["name"], tuple((m, ("y", ("input",))) for m, _, _ in v["fields"]))),)))
                oks = []

                def chk(st, val, facts, c):
                    w = deepv(c, val)
                    if w[0] != "v" or w[2] == "Ok":
                        if w[0] == "v":
                            oks.append(1)
                        if v["name"] not in TYPES[t] and w[0] == "v":
                            yield "type:%s:%s" % (t, v["name"]), "a value of the kind %s is accepted for a %s" % (v["name"], t)
                        if w[0] == "v" and v["name"] == "Integer" and t in ("BytesValue", "UsizeValue") and not has(st, "fits") and possible(facts, -1, "i64") is not False:
                            yield "range:%s" % t, "a negative number is accepted for a %s" % t
                        if w[0] == "v" and v["name"] in TYPES[t] and t != "ArrayOfValues" and not mentions(payload(w)):
                            yield "value:%s:%s" % (t, v["name"]), "what is read for a %s is not the value given (%s)" % (t, flat(payload(w))[:60])
                    elif w[2] == "Err" and has(st, "toobig") is False and v["name"] in TYPES[t] and len(TYPES[t]) == 1 and t in ("StringValue", "IntegerValue", "BooleanValue"):
                        yield "refuse:%s" % t, "a value of the kind %s is refused for a %s" % (v["name"], t)
                run_trace(ctx, p, "types", b, Conf(p, more, chk), args=[arg])
        else:
            def chk2(st, val, facts, c):
                w = deepv(c, val)
                fs = fields(w)
                i = fs.get("inner")
                if i is None or i[0] != "v":
                    return
                if i[2] not in TYPES[t]:
                    yield "store:%s" % t, "a %s set in code is stored as %s, which cannot be read back" % (t, i[2])
            run_trace(ctx, p, "types", b, Conf(p, more, chk2), args=[("y", ("input",))])
    ctx.count("converters", n)
    ctx.anchor("converters of configuration values", [1] * n, 2)


def fields(v):
    return dict(v[3]) if v[0] == "v" and isinstance(v[3], tuple) else {}


def mentions(v):
    return "input" in repr(v)


def walking(ctx, p):
    """A dotted key names the same place when it is stored and when it is read."""
    bs = inherent(p, "Config", "select")
    if need(ctx, bs, "Config::select"):
        def more(c):
            f = c.fn
            if f is None:
                return None
            if f.name == "get" and f.krate not in OWN and len(c.args) == 2:
                at = ("at", str(c.block), "v")
                return E("step", objname(c, c.args[0]), objname(c, c.args[1]), flats(at), ret=some(("kr", ("y", at))), alts=[E("gone", objname(c, c.args[0]), objname(c, c.args[1]), "", ret=NONE)])
            if own(f, "value_type_name"):
                return E(ret=("y", ("typename",)))
            return None

        def chk(st, val, facts, c):
            w = deepv(c, val)
            while w[0] == "v" and last_seg(w[1]) == "ConfigLookup":
                w = w[3][0][1]
            if w[0] != "v":
                return
            flatd = []
            for y in st:
                flatd += [x for x in (y[2] or ()) if isinstance(x, tuple)] if y[0] == "iters" else [y]
            steps = [x for x in flatd if x[0] == "step"]
            gone = [x for x in flatd if x[0] == "gone"]
            fs = dict(w[3])
            if w[2] == "Value":
                if gone:
                    yield "found", "a key that does not exist is found"
                if not any(y[0] == "end" for y in st):
                    yield "early", "a value is found before the whole key is used"
            else:
                kind = fs["kind"]
                n = kind[2] if kind[0] == "v" else "?"
                if n.startswith("Missing") and not gone:
                    yield "missing", "a key is reported as missing although it is there or cannot be looked up"
                if gone and not n.startswith("Missing"):
                    yield "gone", "a missing key is reported as %s" % n
            at = "arg0.root"
            for x in flatd:
                if x[0] not in ("step", "gone"):
                    continue
                if x[1] != at and not x[1].startswith(at + "."):
                    yield "where", "a part of the key is looked up in %s instead of %s" % (x[1], at)
                if not x[2].startswith("elem(") and "arg1" not in x[2]:
                    yield "part", "what is looked up is %s" % x[2]
                at = x[3]
            if w[2] == "Value" and steps and name_of(fs["value"]) != at:
                yield "value", "the value found is not that of the last part of the key"
        run_trace(ctx, p, "walk", bs[0], Conf(p, more, chk, on_iter=lambda X, op, it, tr: tuple(it)))
    bs = [b for b in p.bodies if b.kind == "Fn" and b.crate == "kompact" and b.name == "insert_segments"]
    if need(ctx, bs, "the insertion of a dotted key"):
        b = bs[0]
        done = set()

        def more2(c):
            f = c.fn
            if f is None:
                return None
            if own(f, "insert_segments"):
                return E("below", objname(c, c.args[0]), objname(c, c.args[1]), objname(c, c.args[2]), ret=UNIT)
            if own(f, "merge"):
                return E("merge", objname(c, c.args[0]), objname(c, c.args[1]), ret=UNIT)
            if f.krate in OWN:
                return None
            if f.name == "index" and len(c.args) == 2:
                r = thru(c, c.args[1])
                if r[0] == "v" and last_seg(r[1]) == "RangeFrom" and r[3][0][1][0] == "c":
                    return E(ret=("y", ("rest", objname(c, c.args[0]), r[3][0][1][1])))
            if f.name in ("get_mut", "insert", "entry", "or_insert_with", "or_insert") and c.args:
                o = objname(c, c.args[0])
                if f.name == "get_mut":
                    return E(ret=some(("kr", ("y", ("old", objname(c, c.args[1]))))), alts=[E(ret=NONE), ][:1])
                if f.name == "insert":
                    return E("insert", o, objname(c, c.args[1]), objname(c, c.args[2]), ret=NONE)
                if f.name == "entry":
                    return E(ret=("y", ("entry", o, objname(c, c.args[1]))))
                return E(ret=("r", (("h", ("slot", o)),)))
            return None

        def chk2(st, val, facts, c):
            acts = [x for x in st if x[0] in ("insert", "merge", "below")]
            done.update(x[0] for x in acts)
            if len(acts) > 1:
                yield "twice", "a value is stored twice"
            for x in acts:
                if x[-1] != "arg2":
                    yield "what", "what is stored is %s" % x[-1]
                if x[0] == "below" and not x[2].startswith("rest:arg1:1"):
                    yield "rest", "below the first part of a key, %s is used" % x[2]
        run_trace(ctx, p, "walk", b, Conf(p, more2, chk2))
        ctx.ob("walk", done & {"insert", "merge"}, "store", "a value set in code is never stored", where(b))


@prop("C01")
def c01(ctx):
    p = ctx.prog("net")
    entry(ctx, p)
    using(ctx, p)
    sources(ctx, p)
    merging(ctx, p)
    converters(ctx, p)
    walking(ctx, p)
