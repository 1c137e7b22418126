"""A01: actor paths as text and as bytes."""
from kit import *
from trace import *
from rules import prop
from rules.ports import inherent, traitfn, need
from rules.wire import adt_named
from rules.netdispatch import ok, err, some, NONE
from rules import wire

CONV = ("to_string", "to_owned", "from", "into", "clone", "as_str", "as_ref", "deref", "borrow", "into_owned", "to_str", "into_string", "into_boxed_str", "String::from")
TEXTS = ("&str", "str", "String", "alloc::string::String")


def strip(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[-1]
        if ty.startswith("mut "):
            ty = ty[4:]
    return ty


def template(s):
    """The pieces of a compiled format string: text, or None for a plain placeholder, or ("opt",) for one with options."""
    b = bytes.fromhex(s[2:])
    out, i, nxt = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            return out
        if x < 0x80:
            out.append(b[i:i + x].decode("utf8", "replace"))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n].decode("utf8", "replace"))
            i += 2 + n
        else:
            plain = not x & 7
            i += (4 if x & 1 else 0) + (2 if x & 2 else 0) + (2 if x & 4 else 0)
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append((nxt, plain))
            nxt += 1
    return out


def thru(c, v):
    v = c.sim.load_through(c.env, v)
    n = 0
    while v[0] in ("kr", "r") and n < 8:
        v = v[1] if v[0] == "kr" else c.sim.load_through(c.env, v)
        n += 1
    return v


class Text(Trace):
    """Follows what is written to a formatter or put together in a string."""

    def __init__(self, p, extra=None, check=None, **k):
        self.extra = extra
        self.folds = {}
        Trace.__init__(self, p, self.event, check, on_iter=lambda X, op, it, tr: tuple(it), cap=9, keep=lambda s: True, **k)

    def pieces(self, c, v):
        v = thru(c, v)
        if v[0] == "s":
            return (v[1],)
        if v[0] == "c" and isinstance(v[1], int):
            return (chr(v[1]),)
        if v[0] == "y" and v[1][0] == "text":
            return v[1][1]
        if v[0] == "y" and v[1][0] == "sink":
            return (v[1],)
        return (("d", "str", deep(c.sim, c.env, v)),)

    def shown(self, c, ty, v):
        """What Display of v writes."""
        w = thru(c, v)
        ty = strip(ty)
        if last_seg(ty) in ("str", "String", "char") or w[0] == "s" or w[0] == "y" and w[1][0] in ("text", "sink"):
            if w[0] in ("s", "c") or w[0] == "y" and w[1][0] in ("text", "sink"):
                return self.pieces(c, w)
            return (("d", "str", deep(c.sim, c.env, v)),)
        return (("d", last_seg(ty), deep(c.sim, c.env, v)),)

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        e = self.extra(c) if self.extra else None
        if e is not None:
            return e
        own = f.krate in ("kompact", "kompact_net")
        if own:
            return None
        ty = f.args[-1] if f.args else ""
        if n == "new_display":
            return E(ret=("y", ("text", self.shown(c, next((a for a in f.args if not a.startswith("'")), ""), c.args[0]))))
        if n.startswith("new_") and "Argument" in (f.self_ty or f.path):
            return E(ret=("y", ("text", (("d", n, deep(c.sim, c.env, c.args[0])),))))
        if "Arguments" in (f.self_ty or f.path) and n in ("new", "from_str", "new_const", "from_str_nonconst"):
            t = thru(c, c.args[0])
            if n != "new" or len(c.args) == 1:
                return E(ret=("y", ("text", self.pieces(c, t))))
            a = thru(c, c.args[1])
            if t[0] == "s" and t[1].startswith("\0b") and a[0] == "v" and a[1] == "array":
                out = ()
                for x in template(t[1]):
                    if isinstance(x, str):
                        out += (x,)
                    else:
                        i, plain = x
                        w = self.pieces(c, a[3][i][1]) if i < len(a[3]) else (("d", "?", "?"),)
                        out += w if plain else (("d", "with options", flat(w[0]) if not isinstance(w[0], str) else w[0]),)
                return E(ret=("y", ("text", out)))
            return E(ret=("y", ("text", (("d", "?", "?"),))))
        if n in ("write_fmt", "write_str", "write_char", "pad") and len(c.args) == 2:
            ps = self.pieces(c, c.args[1])
            w = thru(c, c.args[0])
            r = ("y", ("result", n, len(self.cur_st)))
            if w[0] == "y" and w[1][0] == "sink":
                return E("put", w[1], ps, ret=ok(UNIT))
            return E("out", ps, ret=r)
        if n == "fmt" and f.trait and last_seg(f.trait) in ("Display", "Debug") and len(c.args) == 2:
            return E("out", self.shown(c, f.self_ty or "?", c.args[0]) if last_seg(f.trait) == "Display" else (("d", "debug", "?"),), ret=("y", ("result", n, len(self.cur_st))))
        if n == "format" and "fmt" in f.path:
            return E("put", ("sink", c.site), self.pieces(c, c.args[0]), ret=("y", ("sink", c.site)))
        if n in ("new", "with_capacity") and last_seg(f.self_ty or "") == "String":
            return E(ret=("y", ("sink", c.site)))
        if n in ("push", "push_str", "add_assign") and len(c.args) == 2:
            w = thru(c, c.args[0])
            if w[0] == "y" and w[1][0] in ("sink", "text"):
                if w[1][0] == "text":
                    k = c.args[0][1] if c.args[0][0] == "r" else None
                    if k is not None:
                        return E("put", ("sink", c.site), w[1][1] + self.pieces(c, c.args[1]), ret=UNIT, writes=((k, ("y", ("sink", c.site))),))
                return E("put", w[1], self.pieces(c, c.args[1]), ret=UNIT)
        if n == "add" and f.trait and last_seg(f.trait) == "Add" and len(c.args) == 2:
            w = thru(c, c.args[0])
            if w[0] == "y" and w[1][0] == "sink":
                return E("put", w[1], self.pieces(c, c.args[1]), ret=w)
            if w[0] == "y" and w[1][0] == "text":
                return E(ret=("y", ("text", w[1][1] + self.pieces(c, c.args[1]))))
        if n == "to_string" and len(c.args) == 1:
            return E("put", ("sink", c.site), self.shown(c, f.self_ty or "?", c.args[0]), ret=("y", ("sink", c.site)))
        if n == "to_owned" or n == "from" and f.args and strip(f.args[-1]) in ("str", "String"):
            w = thru(c, c.args[0])
            if w[0] == "s" or w[0] == "y" and w[1][0] in ("text", "sink"):
                return E(ret=("y", ("text", self.pieces(c, w))))
        if n == "collect" and f.args and last_seg(f.args[-1]) == "String":
            it = self.iter_sym(c, c.args[0])
            if it is not None:
                return E("end", it, ret=("y", ("sink", it)))
        if n == "new" and last_seg(f.self_ty or f.path.rsplit("::", 1)[0]) == "SocketAddr" and len(c.args) == 2:
            return E(ret=("y", ("sock", deep(c.sim, c.env, c.args[0]), deep(c.sim, c.env, c.args[1]))))
        if n in ("from", "into") and len(c.args) == 1:
            w = thru(c, c.args[0])
            if w[0] == "v" and w[1] == "tuple" and len(w[3]) == 2 and "SocketAddr" in (f.self_ty or "") + "".join(f.args):
                return E(ret=("y", ("sock", deep(c.sim, c.env, w[3][0][1]), deep(c.sim, c.env, w[3][1][1]))))
        if n == "map" and len(c.args) == 2:
            self.lastmap = self.each_sym(c)
            return None
        if n == "fold" and len(c.args) == 3:
            acc = thru(c, c.args[1])
            if acc[0] == "y" and acc[1][0] == "sink":
                self.folds[self.each_sym(c)] = acc
            return None
        if n == "is_empty" and len(c.args) == 1:
            return E(ret=("y", ("empty", deep(c.sim, c.env, c.args[0]))))
        if n == "join" and len(c.args) == 2:
            return E(ret=("y", ("text", (("joined", deep(c.sim, c.env, c.args[0]), self.pieces(c, c.args[1])),))))
        return None

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)

    def each(self, st, c, cl):
        r = Trace.each(self, st, c, cl)
        if r is not None and r[1][1] in self.folds and c.fn.name == "fold":
            st2, note, ps = r
            return st2, note, (self.folds[note[1]],) + ps[1:]
        return r

    def each_end(self, st, note, v, env):
        if note[3].endswith("::map") and v[0] == "y" and v[1][0] in ("text", "sink"):
            st = self.add(st, ("put", ("sink", note[1]), v[1][1] if v[1][0] == "text" else (v[1],)))
        return Trace.each_end(self, st, note, v, env)

    def each_value(self, st, path):
        if path and path.endswith("::fold"):
            for x in reversed(st):
                if x[0] in ("iters", "end") and x[1] in self.folds:
                    return self.folds[x[1]]
        if path and path.endswith("::map"):
            return ("y", self.lastmap)
        return None


def expand(items, want=None, facts=None):
    """The tokens a list of items writes: text, ("d", type, what), ("each", source, whole, tokens)."""
    out = []
    for i, x in enumerate(items):
        if x[0] == "out" and want is None or x[0] == "put" and x[1] == want:
            for t in x[-1]:
                if not isinstance(t, str) and t[0] == "sink":
                    out += expand(items[:i], t)
                elif not isinstance(t, str) and t[0] == "joined":
                    out.append(t)
                else:
                    out.append(t)
        elif x[0] == "iters":
            inner = expand(tuple(x[2] or ()), want)
            if inner:
                w = ("end", x[1]) in items[i:] and x[1][2] != "part"
                out.append(("each", flats(x[1][1]) if not (isinstance(x[1][1], tuple) and x[1][1][0] in ("y", "r", "v")) else flat(x[1][1]), w, tuple(inner), flats(("elem", x[1]))))
    return merged(out)


def merged(ts):
    out = []
    for t in ts:
        if isinstance(t, str) and out and isinstance(out[-1], str):
            out[-1] += t
        elif t != "":
            out.append(t)
    return out


def tidy(s):
    return s.replace(".Named.0", "").replace(".Unique.0", "")


def shown_as(ts):
    out = []
    for t in ts:
        if isinstance(t, str):
            out.append(repr(t))
        elif t[0] == "each":
            out.append("for each of %s: %s%s" % (tidy(t[1]), shown_as(t[3]).replace(t[4], "it"), "" if t[2] else " (may stop early)"))
        elif t[0] == "d":
            out.append("%s %s" % (t[1], tidy(t[2]) if isinstance(t[2], str) else t[2]))
        else:
            out.append(str(t))
    return " ".join(out)


def sees(ctx, p, rule, b, args=None):
    """[(facts, tokens)] of a Display::fmt, for the paths that did not fail."""
    res = []

    def chk(st, val, facts, c):
        v = resolve(c.sim, c.env, val)
        if v[0] == "v" and v[2] == "Err":
            return ()
        if v[0] == "y" and facts.get(("discr",) + v[1:] + ("core::result::Result",)) == ("c", 1):
            return ()
        res.append((dict(facts), expand(st), names(st)))
        return ()
    run_trace(ctx, p, rule, b, Text(p, check=chk), args=args)
    return res


def display_of(p, name):
    return [b for b in p.bodies if last_seg(b.trait or "") == "Display" and b.name == "fmt" and b.kind != "Closure" and last_seg(b.self_ty or "") == name and b.crate == "kompact" and "tests" not in b.id.split("::")]


# ------------------------------------------------------------------ text to path
def sep_of(v):
    return v[1] if v[0] == "s" else chr(v[1]) if v[0] == "c" and isinstance(v[1], int) else None


def bare(s):
    """A symbol without the loads around it, elements of a split text under one name."""
    while isinstance(s, tuple) and s and s[0] == "ld":
        s = s[1]
    if isinstance(s, tuple) and s and s[0] == "fld" and isinstance(s[1], tuple):
        o = bare(s[1])
        if o[0] == "strs" and isinstance(s[2], tuple) and s[2][0] == "c":
            return piece(o, s[2][1])
        return ("fld", o, s[2])
    return s


def piece(o, i):
    _, s, sep, k, n = o
    return ("rest", s, sep, k + i) if n and k + i == n - 1 else ("part", s, sep, k + i)


KNOWN = ("part", "rest", "strs", "parsed", "ip", "port", "arg", "vec0", "fld")


def understood(s):
    if not isinstance(s, tuple) or not s:
        return True
    if isinstance(s[0], str) and s[0] not in KNOWN:
        return False
    if s[0] == "arg":
        return True
    return all(understood(x) for x in s[1:] if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ("c",))


def asserted(c):
    """The call is made for a debug assertion only."""
    b = c.body
    preds = {}
    for i, bl in enumerate(b.blocks):
        for t in succs(bl["t"]):
            preds.setdefault(t, []).append(i)
    i, n = c.block, 0
    while n < 30:
        ps = [x for x in preds.get(i, ()) if not b.blocks[x].get("cl")]
        if len(ps) != 1:
            return False
        i, n = ps[0], n + 1
        if b.blocks[i]["t"][0] == "switch" and (b.blocks[i].get("m") or "").startswith("debug_assert"):
            return True
    return False


def succs(t):
    k = t[0]
    if k == "call":
        return [t[4]] if isinstance(t[4], int) and t[4] >= 0 else []
    if k == "switch":
        return [x[1] for x in t[2]]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    return []


class Parse(Trace):
    def __init__(self, p, check):
        self.bad_index = []
        Trace.__init__(self, p, self.event, check, keep=lambda s: True, cap=9, on_iter=lambda X, op, it, tr: tuple(it))

    def sym(self, c, v):
        w = thru(c, v)
        return bare(w[1]) if w[0] == "y" else w

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        a = [self.sym(c, x) for x in c.args]
        o = a[0] if a else None
        strs = isinstance(o, tuple) and o and o[0] == "strs"
        if own:
            if n == "from_str" and f.trait and last_seg(f.trait) == "FromStr":
                return self.parsed(last_seg(strip(f.self_ty or "?")), o)
            if n == "validate_lookup_path":
                if asserted(c):
                    return E(ret=ok(UNIT))
                return E("valid", o, ret=ok(UNIT), alts=[E("invalid", o, ret=err(("y", ("why", len(self.cur_st)))))])
            return None
        if n in ("parse", "from_str", "parse_str", "try_parse") and f.krate != "alloc":
            ty = last_seg(strip(f.args[-1])) if n == "parse" and f.args else last_seg(strip(f.self_ty or f.path.rsplit("::", 1)[0]))
            return self.parsed(ty, o)
        if n in ("split", "splitn", "split_terminator", "rsplitn") and f.krate == "core" and "str" in (f.self_ty or f.path):
            lim = c.args[1] if n in ("splitn", "rsplitn") else None
            sp = sep_of(thru(c, c.args[-1]))
            if sp is not None and n == "split":
                return E(ret=("y", ("strs", o, sp, 0, 0)))
            if sp is not None and n == "splitn" and lim[0] == "c":
                return E(ret=("y", ("strs", o, sp, 0, lim[1])))
            return None
        if n in ("split_once", "rsplit_once"):
            sp = sep_of(thru(c, c.args[1]))
            if sp is None:
                return None
            pair = ("v", "tuple", None, (("0", ("y", ("part", o, sp, 0))), ("1", ("y", ("rest", o, sp, 1)))))
            return E("atleast", o, sp, 2, ret=some(pair), alts=[E("exactly", o, sp, 1, ret=NONE)])
        if n == "contains" and len(c.args) == 2:
            sp = sep_of(thru(c, c.args[1]))
            if sp is not None:
                return E(ret=("y", ("has", o, sp)))
        if n in ("find", "rfind") and len(c.args) == 2:
            sp = sep_of(thru(c, c.args[1]))
            if sp is not None:
                k = ("\u03c6", ("has", o, sp))
                return E(ret=some(("y", ("at", o, sp))), writes=((k, ("c", 1)),), alts=[E(ret=NONE, writes=((k, ("c", 0)),))])
        if n == "is_empty" and strs:
            return E(ret=("c", 0) if o[3] == 0 else ("y", ("none", o)))
        if n in ("len", "count") and strs:
            return E(ret=("y", ("nparts",) + o[1:]))
        if n == "next" and strs and c.args[0][0] == "r":
            key = c.args[0][1]
            x = piece(o, 0)
            outs = [] if o[3] == 0 else [E("exactly", o[1], o[2], o[3], ret=NONE)]
            if x[0] == "rest":
                nxt = ("y", ("done",))
            else:
                nxt = ("y", o[:3] + (o[3] + 1, o[4]))
            return E("atleast", o[1], o[2], o[3] + 1, ret=some(("y", x)), writes=((key, nxt),), alts=outs)
        if n == "next" and o == ("done",):
            return E(ret=NONE)
        if n in ("index", "get", "remove", "swap_remove", "skip", "split_off", "nth") and strs and len(c.args) == 2:
            i = thru(c, c.args[1])
            if i[0] == "c" and isinstance(i[1], int):
                if n in ("skip", "split_off"):
                    return E(ret=("y", o[:3] + (o[3] + i[1], o[4])))
                x = ("y", piece(o, i[1]))
                if n == "get":
                    return E("atleast", o[1], o[2], o[3] + i[1] + 1, ret=some(x), alts=[E("atmost", o[1], o[2], o[3] + i[1], ret=NONE)])
                if n == "index" or n == "remove" and i[1] == 0:
                    lo, _ = bounds(self.cur_st, self.facts(c), o[1], o[2])
                    if lo <= o[3] + i[1]:
                        self.bad_index.append((o, i[1]))
                    if n == "remove" and c.args[0][0] == "r":
                        return E(ret=x, writes=((c.args[0][1], ("y", o[:3] + (o[3] + 1, o[4]))),))
                    return E(ret=x)
            if i[0] == "v" and last_seg(i[1]) == "RangeFrom" and i[3][0][1][0] == "c":
                return E(ret=("y", o[:3] + (o[3] + i[3][0][1][1], o[4])))
            return None
        if n in ("first", "last", "split_first") and strs:
            lo, _ = bounds(self.cur_st, self.facts(c), o[1], o[2])
            if n == "first" and lo > o[3]:
                return E(ret=some(("y", piece(o, 0))))
            if n == "split_first" and lo > o[3]:
                return E(ret=some(("v", "tuple", None, (("0", ("y", piece(o, 0))), ("1", ("y", o[:3] + (o[3] + 1, o[4])))))))
        if n == "map" and strs and len(c.args) == 2:
            g = c.sim.load_through(c.env, c.args[1])
            if g[0] == "fn" and g[2].name in CONV or g[0] == "clo" and self.converts(g[1]):
                return E(ret=("y", o))
        if n in ("collect", "into_iter", "iter", "copied", "cloned", "to_vec", "deref", "as_slice", "as_ref", "by_ref", "into", "from_iter", "to_owned", "clone") and strs:
            return E(ret=("y", o))
        if n in ("to_string", "to_owned", "from", "into", "as_str", "deref", "as_ref") and isinstance(o, tuple) and o and o[0] in ("part", "rest"):
            return E(ret=("y", o))
        if n in ("new", "default", "with_capacity") and not [x for x in c.args if x[0] != "c"] and ("Vec" in (f.self_ty or "") + f.path or "Vec" in (c.dest_ty or "")):
            return E(ret=("y", ("vec0",)))
        if n in ("ip", "port") and isinstance(o, tuple):
            return E(ret=("y", (n, o)))
        return None

    def converts(self, h):
        b = self.prog.by_h.get(h)
        if b is None:
            return False
        return all(fn is not None and fn.name in CONV for _, fn, _, _, cl in self.prog.calls(b) if not cl)

    def parsed(self, ty, o):
        good = ("parsed", ty, o)
        return E("parse", ty, o, ret=ok(("y", good)), alts=[E("noparse", ty, o, ret=err(("y", ("why", len(self.cur_st)))))])

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)


FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Lt": "Ge", "Gt": "Le", "Le": "Gt", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}


def narrow(facts, match, lo, hi):
    """The bounds the facts give to a number; match(symbol) -> offset to add, or None."""
    for k, v in facts.items():
        if not isinstance(k, tuple) or not k:
            continue
        off = match(bare(k))
        if off is not None:
            if v[0] == "c":
                lo, hi = max(lo, v[1] + off), min(hi, v[1] + off)
            elif v[0] == "not":
                while lo - off in v[1] and lo < 1 << 20:
                    lo += 1
            continue
        if k[0] == "bin" and k[1] in FLIP and v[0] == "c":
            l, r, op = k[2], k[3], k[1]
            if l[0] == "c":
                l, r, op = r, l, FLIP[op]
            if l[0] != "y" or r[0] != "c":
                continue
            off = match(bare(l[1]))
            if off is None:
                continue
            if v[1] == 0:
                op = NEG[op]
            n = r[1] + off
            if op == "Eq":
                lo, hi = max(lo, n), min(hi, n)
            elif op == "Lt":
                hi = min(hi, n - 1)
            elif op == "Le":
                hi = min(hi, n)
            elif op == "Gt":
                lo = max(lo, n + 1)
            elif op == "Ge":
                lo = max(lo, n)
            elif op == "Ne":
                lo = lo + 1 if lo == n else lo
                hi = hi - 1 if hi == n else hi
    return lo, hi


def bounds(st, facts, s, sep, lo=1, hi=1 << 20):
    """How many parts a text has, split at sep."""
    def match(k):
        if not isinstance(k, tuple):
            return None
        if k[0] == "nparts" and k[1] == s and k[2] == sep and not k[4]:
            return k[3]
        if k[0] == "len" and isinstance(bare(k[1]), tuple) and bare(k[1])[0] == "strs" and bare(k[1])[1:3] == (s, sep) and not bare(k[1])[4]:
            return bare(k[1])[3]
        return None
    lo, hi = narrow(facts, match, lo, hi)
    for x in st:
        if x[0] in ("atleast", "exactly", "atmost") and x[1] == s and x[2] == sep:
            if x[0] != "atmost":
                lo = max(lo, x[3])
            if x[0] != "atleast":
                hi = min(hi, x[3])
    for k, v in facts.items():
        if isinstance(k, tuple) and k[:3] == ("has", s, sep) and v[0] == "c":
            lo, hi = (max(lo, 2), hi) if v[1] else (lo, min(hi, 1))
    return lo, hi


def says(s):
    """A part of the text, for people."""
    if not isinstance(s, tuple) or not s:
        return str(s)
    if s[0] == "arg":
        return "the text"
    if s[0] == "part":
        return "part %d of %s split at '%s'" % (s[3], says(s[1]), s[2])
    if s[0] == "rest":
        return "all of %s from part %d at '%s' on" % (says(s[1]), s[3], s[2])
    if s[0] == "strs":
        return "the parts of %s from %d on, split at '%s'" % (says(s[1]), s[3], s[2])
    if s[0] == "parsed":
        return "%s of (%s)" % (s[1], says(s[2]))
    if s[0] in ("ip", "port"):
        return "the %s of %s" % (s[0], says(s[1]))
    return "nothing" if s[0] == "vec0" else flats(s)[:80]


TEXT = ("arg", 0)


def is_text(s):
    return isinstance(s, tuple) and s[:2] == TEXT


def fields_of(v):
    return {n: x for n, x in v[3]} if v[0] == "v" else {}


def symbol(v):
    return bare(v[1]) if v[0] == "y" else v


def judge(st, facts, v, kind):
    """[(key, message)] for a successful parse into v, None if it is not understood."""
    out = []
    fs = fields_of(v)
    sysf = fields_of(fs.get("system", UNIT))
    if not sysf:
        return None
    proto, ip, port = (symbol(sysf[x]) if x in sysf else None for x in ("protocol", "address", "port"))
    last = symbol(fs["id" if kind == "UniquePath" else "path"])
    if not all(isinstance(x, tuple) and understood(x) for x in (proto, ip, port, last)):
        return None
    sep = "#" if kind == "UniquePath" else "/"

    def count(s, at):
        return bounds(st, facts, s, at)

    def only(s, at, n, what):
        lo, hi = count(s, at)
        if hi > n:
            out.append((what + ":rest", "what follows the %s is ignored: %s may have more than %d parts" % (what, says(s), n)))
    if not (proto[0] == "parsed" and proto[1] == "Transport" and proto[2][0] == "part" and is_text(proto[2][1]) and proto[2][2:] == ("://", 0)):
        out.append(("protocol", "the protocol is %s" % says(proto)))
    if ip[0] != "ip" or port[0] != "port" or ip[1] != port[1]:
        return out + [("socket", "address and port are %s and %s" % (says(ip), says(port)))]
    sock = ip[1]
    if sock[:2] != ("parsed", "SocketAddr"):
        return out + [("socket", "the address is %s" % says(sock))]
    where_ = sock[2]
    body = where_
    if where_[0] == "part" and where_[2] == sep and where_[3] == 0:
        body = where_[1]
        whole_ = False
    else:
        whole_ = True
    if not (body[0] in ("part", "rest") and is_text(body[1]) and body[2:] == ("://", 1)):
        return out + [("socket", "the address is read from %s" % says(where_))]
    if body[0] == "part":
        only(body[1], "://", 2, "address")
    if kind == "UniquePath":
        good = last[0] == "parsed" and last[1] == "Uuid" and last[2][0] in ("part", "rest") and last[2][1] == body and last[2][2:] == ("#", 1)
        if not good:
            out.append(("id", "the id is %s" % says(last)))
        elif last[2][0] == "part":
            only(body, "#", 2, "id")
    else:
        if last == ("vec0",):
            if count(body, "/")[1] > 1:
                out.append(("path", "the path is empty although segments may follow the address"))
        else:
            x = last
            if x[0] == "strs" and x[1][0] == "rest" and x[1][2] == x[2] and x[3] == 0:
                x = ("strs", x[1][1], x[2], x[1][3], x[4])
            if not (x[0] == "strs" and x[1] == body and x[2] == "/" and x[3] == 1 and x[4] == 0):
                out.append(("path", "the path is %s" % says(last)))
            elif ("valid", last) not in st:
                out.append(("unchecked", "the segments of the path are not validated"))
    return out


def parsing(ctx, p):
    for kind in ("UniquePath", "NamedPath"):
        bs = [b for b in p.bodies if last_seg(b.trait or "") == "FromStr" and b.name == "from_str" and b.kind != "Closure" and last_seg(b.self_ty or "") == kind and b.crate == "kompact"]
        if not need(ctx, bs, "%s::from_str" % kind):
            continue
        b = bs[0]
        seen = [0, 0]

        def chk(st, val, facts, c):
            v = deepv(c, val)
            for o, i in r.bad_index:
                yield "index:%s" % flats(o), "%s reads part %d of %s without knowing that there is one" % (kind, i, says(o))
            if v[0] == "v" and v[2] == "Ok":
                j = judge(st, facts, v[3][0][1], kind)
                if j is None:
                    seen[1] += 1
                else:
                    seen[0] += 1
                    for k, m in j:
                        yield "%s:%s" % (kind, k), "text is parsed into a %s wrongly: %s" % (kind, m)
            elif v[0] == "v" and v[2] == "Err":
                if has(st, "noparse") or has(st, "invalid"):
                    return
                good = False
                known = False
                for k in list(facts) + [("nparts",) + x[1:3] + (0, 0) for x in st if x[0] in ("atleast", "exactly", "atmost")]:
                    for s, sp in splits(k):
                        known = True
                        lo, hi = bounds(st, facts, s, sp, 2, 2)
                        good = good or sp in ("://", "#") and lo > hi
                        good = good or sp == "#" and kind == "NamedPath" and bounds(st, facts, s, sp)[0] > 1
                if known and not good:
                    yield "%s:refused" % kind, "%s refuses text for no reason: %s" % (kind, sorted(str(x)[:60] for x in facts))
        r = Parse(p, chk)
        run_trace(ctx, p, "parse", b, r)
        if not seen[0]:
            ctx.assume("how %s::from_str takes the text apart is outside the forms the rule knows; its value is not judged" % kind)
        ctx.count("ways to parse", seen[0])


def splits(k, depth=0):
    if isinstance(k, tuple) and depth < 8:
        if k and k[0] in ("strs", "nparts", "has") and len(k) >= 3:
            yield k[1], k[2]
        for x in k:
            yield from splits(x, depth + 1)


def deepv(c, v, depth=0):
    """A value with what its references and parts point to."""
    v = thru(c, v)
    if v[0] == "v" and depth < 6:
        return v[:3] + (tuple((n, deepv(c, x, depth + 1)) for n, x in v[3]),)
    return v


# ------------------------------------------------------------------ path to text
def bases(kind):
    return ("arg0.%s.0" % kind, "arg0")


def empty_at(facts, st, what):
    """1 when the path knows the list to be empty, 0 when it knows it is not, None otherwise."""
    for k, v in facts.items():
        if isinstance(k, tuple) and k and k[0] == "empty" and k[1] == what and v[0] == "c":
            return v[1]
    lo, hi = narrow(facts, lambda k: 0 if isinstance(k, tuple) and k and k[0] == "len" and flats(k[1]) == what else None, 0, 1 << 20)
    if hi == 0:
        return 1
    if lo > 0:
        return 0
    if any(x[0] == "end" and flats(x[1][1]) == what for x in st) and not any(x[0] == "iters" and flats(x[1][1]) == what for x in st):
        return 1
    return None


def named_ok(ts, base, facts, st):
    head = ("d", "SystemPath", base + ".system")
    path = base + ".path"
    if ts[:1] != [head]:
        return False
    rest = ts[1:]
    if not rest:
        return empty_at(facts, st, path) == 1
    if len(rest) == 1 and rest[0][0] == "each":
        _, src, whole_, inner, el = rest[0]
        return src == path and whole_ and list(inner) == ["/", ("d", "str", el)]
    return len(rest) == 2 and rest[0] == "/" and rest[1] == ("joined", path, ("/",)) and empty_at(facts, st, path) == 0


def unique_ok(ts, base):
    return ts == [("d", "SystemPath", base + ".system"), "#", ("d", "Uuid", base + ".id")]


def showing(ctx, p):
    for n in ("SystemPath", "ActorPath", "NamedPath", "UniquePath"):
        bs = display_of(p, n)
        if n in ("SystemPath", "ActorPath") and not need(ctx, bs, "Display of %s" % n):
            continue
        for b in bs:
            kinds = set()

            def chk(st, val, facts, c):
                if failed(c, val, facts):
                    return
                ts = expand(st)
                if n == "SystemPath":
                    kinds.add(n)
                    if ts != [("d", "Transport", "arg0.protocol"), "://", ("d", "SocketAddr", "sock:arg0.address:arg0.port")]:
                        yield "form", "a system path is written as %s" % shown_as(ts)
                    return
                vs = [n[:-4]] if n != "ActorPath" else [v["name"] for v in p.adts[adt_named(p, n)]["variants"] if facts.get(discr_of(facts, "arg0")) == ("c", v["discr"])]
                for v in vs:
                    kinds.add(v)
                    base = "arg0.%s.0" % v if n == "ActorPath" else "arg0"
                    if ts == [("d", v + "Path", base)] or ts == [("d", v + "Path", base + ".0")]:
                        continue
                    if not (unique_ok(ts, base) if v == "Unique" else named_ok(ts, base, facts, st)):
                        yield v, "a %s path is written as %s" % (v.lower(), shown_as(ts))
                if not vs:
                    yield "kind", "a path is written as %s whatever its kind" % shown_as(ts)
            run_trace(ctx, p, "text", b, Text(p, check=chk))
            ctx.count("forms written", len(kinds))
            ctx.ob("text", len(kinds) == (2 if n == "ActorPath" else 1), "%s:kinds" % n, "%s is written for %s only" % (n, sorted(kinds)), where(b))


def discr_of(facts, obj):
    for k in facts:
        if isinstance(k, tuple) and k and k[0] == "discr" and flats(k[1]) == obj:
            return k
    return None


def failed(c, val, facts):
    v = resolve(c.sim, c.env, val)
    return v[0] == "v" and v[2] == "Err" or v[0] == "y" and any(isinstance(k, tuple) and k[0] == "discr" and k[1] == v[1] and x == ("c", 1) for k, x in facts.items())


class Word(Text):
    """A word compared with literals."""

    def __init__(self, p, check, **k):
        Text.__init__(self, p, extra=self.more, check=check, **k)

    def more(self, c):
        f = c.fn
        if f.name in ("eq", "ne") and len(c.args) == 2 and f.krate == "core":
            l, r = thru(c, c.args[0]), thru(c, c.args[1])
            if r[0] != "s":
                l, r = r, l
            if r[0] == "s" and l[0] == "y" and is_text(bare(l[1])):
                s = ("word", r[1])
                if f.name == "ne":
                    return E(ret=("y", ("not", s))) if False else E(ret=("y", ("differs", r[1])))
                return E(ret=("y", s))
        return None


def word(facts):
    out = set()
    for k, v in facts.items():
        if isinstance(k, tuple) and k and (k[0] == "word" and v == ("c", 1) or k[0] == "differs" and v == ("c", 0)):
            out.add(k[1])
    return out


def notword(facts):
    return {k[1] for k, v in facts.items() if isinstance(k, tuple) and k and (k[0] == "word" and v == ("c", 0) or k[0] == "differs" and v == ("c", 1))}


def protocols(ctx, p):
    tr = adt_named(p, "Transport")
    vs = {v["discr"]: v["name"] for v in p.adts[tr]["variants"]}
    show, parse = display_of(p, "Transport"), [b for b in p.bodies if last_seg(b.trait or "") == "FromStr" and b.name == "from_str" and last_seg(b.self_ty or "") == "Transport" and b.kind != "Closure"]
    if not need(ctx, show, "Display of Transport") or not need(ctx, parse, "Transport::from_str"):
        return
    text = {}
    for d, v in sorted(vs.items()):
        got = set()

        def chk(st, val, facts, c):
            if not failed(c, val, facts):
                got.add(shown_as(expand(st)))
            return ()
        run_trace(ctx, p, "word", show[0], Text(p, check=chk), args=[("kr", ("v", tr, v, ()))])
        text[v] = next(iter(got)) if len(got) == 1 else None
        if not ctx.ob("word", len(got) == 1 and re.fullmatch(r"'[^:/#]+'", min(got)), "%s:text" % v, "the protocol %s is written as %s" % (v, sorted(got)), where(show[0])):
            text[v] = None
    ctx.ob("word", len(set(text.values())) == len(text), "same", "two protocols are written alike: %s" % text, where(show[0]))
    made = {}

    def chk2(st, val, facts, c):
        v = resolve(c.sim, c.env, val)
        w = word(facts)
        if v[0] == "v" and v[2] == "Ok":
            x = thru(c, v[3][0][1])
            x = x[2] if x[0] == "v" else flat(x)
            if x not in text:
                ctx.assume("the protocol read is %s; its table is outside the forms the rule knows" % x[:80])
                return
            made.setdefault(x, set()).update(w or {None})
            if {repr(y) for y in w} != {text[x]}:
                yield "wrong:%s" % x, "%s is read as the protocol %s, which is written as %s" % (sorted(w) or "any text", x, text[x])
        elif v[0] == "v" and v[2] == "Err":
            if w:
                yield "refused", "the protocol %s is refused" % sorted(w)
    run_trace(ctx, p, "word", parse[0], Word(p, chk2))
    for v in text:
        if made and text[v]:
            ctx.ob("word", v in made, "%s:unread" % v, "the protocol %s can never be read" % v, where(parse[0]))
    ctx.count("protocols", len(text))


# ------------------------------------------------------------------ which segments are allowed
ALWAYS = "/#"
MARKS = "*?"


class Seg(Trace):
    """One segment: which characters it may contain when it is let through."""

    def __init__(self, p, marks, check):
        self.marks = marks
        Trace.__init__(self, p, self.event, check, keep=lambda s: True, cap=9, on_iter=self.round)

    def event(self, c):
        f = c.fn
        if f is None or f.krate in ("kompact", "kompact_net"):
            return None
        n = f.name
        o = thru(c, c.args[0]) if c.args else UNIT
        text = o[0] == "y" and is_text(bare(o[1]))
        if text and n == "len":
            return E(ret=("y", ("slen",)))
        if text and n == "is_empty":
            return E(ret=("y", ("sempty",)))
        if text and n in ("chars", "bytes", "char_indices"):
            return E(ret=("y", ("iter", ("arg", 0), n)))
        if n == "count" and o[0] == "y" and o[1][0] == "iter" and is_text(o[1][1]):
            return E(ret=("y", ("slen",)))
        if text and n in ("contains", "starts_with", "ends_with") and len(c.args) == 2:
            a = thru(c, c.args[1])
            if sep_of(a) is not None:
                return E(ret=("y", (n, sep_of(a))))
            if a[0] == "v" and a[1] == "array" and n == "contains":
                xs = [sep_of(deepv(c, x)) for _, x in a[3]]
                if None not in xs:
                    return E(ret=("y", (n, "".join(xs))))
        if n in ("eq", "ne") and len(c.args) == 2:
            l, r = thru(c, c.args[0]), thru(c, c.args[1])
            if r[0] != "s":
                l, r = r, l
            if r[0] == "s" and l[0] == "y" and is_text(bare(l[1])):
                return E(ret=("y", ("word" if n == "eq" else "differs", r[1])))
        return None

    def each(self, st, c, cl):
        f = c.fn
        if f is not None and f.name in ("contains", "find") and f.krate == "core" and len(c.args) == 2:
            o = thru(c, c.args[0])
            if o[0] == "y" and is_text(bare(o[1])):
                X = ("iter", ("arg", 0), "chars")
                self.env = c.env
                st = self.open(st, X, f.name)
                self.fresh(c.env, X)
                el = ("y", ("elem", X))
                return st, ("each", X, "it", "str::any" if f.name == "contains" else "str::find"), (el, el)
        return Trace.each(self, st, c, cl)

    def each_end(self, st, note, v, env):
        if note[3].split("::")[-1] in ("any", "all", "find") and v[0] == "y":
            ph = env.get(("φ", v[1]))
            v = ph if ph is not None else v
        self.env = env
        if v[0] == "c":
            st = self.add(st, ("gave", v[1]))
        elif v[0] == "y" and note[3].split("::")[-1] in ("any", "all"):
            st = self.add(st, ("gave", v))
        return Trace.each_end(self, st, note, v, env)

    def each_value(self, st, path):
        n = (path or "").split("::")[-1]
        if n == "find":
            return ("y", ("found",))
        if n in ("any", "all", "contains"):
            return ("y", ("all" if n == "all" else "any",))
        return None

    def possible(self, env):
        """The characters that need an excuse and that this round may have seen without one."""
        facts = {k[1]: v for k, v in env.items() if k[0] == "φ"}
        out = set()
        for ch in ALWAYS + MARKS:
            if not may_be_char(facts, ch):
                continue
            if self.excused(facts, ch):
                continue
            out.add(ch)
        return out

    def excused(self, facts, ch):
        if ch in ALWAYS or not self.marks:
            return False
        return flag(facts) == 1 and seg_len(facts)[1] <= 1

    def round(self, X, op, it, tr):
        gave = [x[1] for x in it if x[0] == "gave"]
        return (frozenset(self.possible(tr.env)), gave[0] if gave else None, frozenset(certain(tr.env)))


def elem_of(k):
    k = bare(k)
    return isinstance(k, tuple) and k and (k[0] == "elem" or k[0] == "fld" and elem_of(k[1]))


def may_be_char(facts, ch):
    lo, hi = narrow(facts, lambda k: 0 if elem_of(k) else None, ord(ch), ord(ch))
    w = word(facts)
    if w and not any(ch in x for x in w):
        return False
    return lo <= hi


def certain(env):
    """The characters the round's character is known to be."""
    facts = {k[1]: v for k, v in env.items() if k[0] == "φ"}
    lo, hi = narrow(facts, lambda k: 0 if elem_of(k) else None, 0, 1 << 20)
    return {chr(lo)} if lo == hi else set()


def flag(facts):
    for k, v in facts.items():
        b = bare(k)
        if isinstance(b, tuple) and b[:2] == ("arg", 1) and v[0] == "c":
            return v[1]
    return None


def seg_len(facts):
    w = word(facts)
    if w:
        n = len(next(iter(w)))
        return n, n
    lo, hi = 0, 1 << 20
    for k, v in facts.items():
        if k == ("sempty",) and v[0] == "c":
            lo, hi = (0, 0) if v[1] else (1, hi)
    return narrow(facts, lambda k: 0 if k == ("slen",) or isinstance(k, tuple) and k and k[0] == "len" and is_text(bare(k[1])) else None, lo, hi)


def segments(ctx, p):
    for name, marks in (("validate_lookup_path_segment", True), ("validate_insert_path_segment", False)):
        bs = [b for b in p.bodies if b.name == name and b.kind == "Fn"]
        if not need(ctx, bs, name):
            continue
        b = bs[0]

        def chk(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            w = word(facts)
            its = [x for x in st if x[0] == "iters" and x[2] is not None]
            anyv = [x for k, x in facts.items() if k == ("any",) or isinstance(k, tuple) and k[0] == "discr" and k[1] == ("found",)]
            other = notword(facts)
            rounds = []
            for x in its:
                may, gave, sure = x[2]
                if anyv and gave is not None and anyv[0] == ("c", 0) and gave == 1:
                    return
                rounds.append((may, gave, sure))
            if anyv and anyv[0] == ("c", 1) and not any(g not in (0, None) for _, g, _ in rounds):
                return
            whole_ = any(x[0] == "end" and x[1][2] != "part" and is_text(bare(x[1][1])) for x in st) or bool(anyv) and not any(x[1][2] == "part" for x in its)
            lo, hi = seg_len(facts)
            if v[0] == "v" and v[2] == "Ok":
                if lo < 1:
                    yield "empty", "an empty segment is let through"
                absent = set()
                for k, x in facts.items():
                    if isinstance(k, tuple) and k and k[0] == "contains" and x == ("c", 0):
                        absent |= set(k[1])
                for ch in ALWAYS + MARKS:
                    if ch in absent or w and not any(ch in x for x in w):
                        continue
                    if w and r.excused(facts, ch):
                        continue
                    if not whole_:
                        if r.excused(facts, ch):
                            continue
                        yield "unseen:%s" % ch, "a segment is let through without looking for '%s' in all of it" % ch
                    elif any(ch in may for may, gave, _ in rounds):
                        yield "let:%s" % ch, "a segment with '%s' is let through%s" % (ch, " although it is not the last one or has more characters" if marks and ch in MARKS else "")
            elif v[0] == "v" and v[2] == "Err":
                if hi < 1:
                    return
                sure = certain(c.env)
                for may, gave, s in rounds:
                    if gave == 1:
                        sure |= s
                for k, x in facts.items():
                    if isinstance(k, tuple) and k and k[0] in ("contains", "starts_with", "ends_with") and x == ("c", 1):
                        sure |= set(k[1])
                for x in w:
                    sure |= set(x)
                if not sure:
                    # which character it was is not known: those it can be must all be forbidden ones
                    if rounds or any(elem_of(k) for k in facts):
                        yield "refused", "a segment is refused although it need not contain a reserved character"
                    elif not any(isinstance(k, tuple) and k and k[0] in ("call",) for k in facts):
                        yield "refused", "a segment is refused for no reason"
                    return
                for ch in sure:
                    if ch in ALWAYS:
                        continue
                    if ch not in MARKS:
                        yield "refused:%s" % ch, "a segment is refused because of '%s'" % ch
                    elif marks and not (flag(facts) == 0 or lo > 1 or ch in other):
                        yield "marker:%s" % ch, "the last segment '%s' is refused" % ch
        r = Seg(p, marks, chk)
        run_trace(ctx, p, "segment", b, r)
        ctx.count("characters", len(ALWAYS + MARKS))


class Whole(Trace):
    """All segments of a path are validated."""

    def __init__(self, p, check, lasts, firsts):
        self.lasts, self.firsts = lasts, firsts
        Trace.__init__(self, p, self.event, check, keep=lambda s: True, on_iter=lambda X, op, it, tr: tuple(it))

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        if n in self.lasts + self.firsts and f.krate in ("kompact", "kompact_net"):
            el = self.name(c, c.args[0])
            last = self.lastness(c, c.args[1]) if n in self.lasts else "any"
            return E("check", el, last, ret=ok(UNIT), alts=[E("refused", el, ret=err(("y", ("why",))))])
        if f.krate in ("kompact", "kompact_net"):
            return None
        o = thru(c, c.args[0]) if c.args else UNIT
        text = o[0] == "y" and is_text(bare(o[1]))
        if n == "split_last" and text:
            return E("some", ret=some(("v", "tuple", None, (("0", ("y", ("lastseg",))), ("1", ("y", ("front",)))))), alts=[E("none", ret=NONE)])
        if n in ("last", "pop") and text:
            return E("some", ret=some(("y", ("lastseg",))), alts=[E("none", ret=NONE)])
        if n == "len" and text:
            return E(ret=("y", ("plen",)))
        if n == "is_empty" and text:
            return E(ret=("y", ("pempty",)))
        if n in ("saturating_sub", "wrapping_sub") and len(c.args) == 2:
            return E(ret=("y", ("bin", "Sub", thru(c, c.args[0]), thru(c, c.args[1]), c.site)))
        return None

    def done(self, st, X, name):
        if name == "try_for_each" and X[2] != "part" and ("end", X) not in st:
            return st if any(x[0] == "iters" and x[1] == X and has(x[2] or (), "refused") for x in st) else st + (("end", X),)
        return Trace.done(self, st, X, name)

    def each_none(self, st, c):
        if c.fn is not None and c.fn.name == "try_for_each":
            self.env = c.env
            return st + (("end", self.each_sym(c)),)
        return Trace.each_none(self, st, c)

    def each_value(self, st, path):
        if path and path.endswith("::try_for_each"):
            return err(("y", ("why",))) if any(x[0] == "iters" and has(x[2] or (), "refused") for x in st) else ok(UNIT)
        return None

    def name(self, c, v):
        w = thru(c, v)
        return bare(w[1]) if w[0] == "y" else w

    def lastness(self, c, v):
        v = thru(c, v)
        if v[0] == "c":
            return "last" if v[1] else "front"
        if v[0] != "y":
            return "?"
        t = v[1]
        ph = c.env.get(("φ", t))
        neg = False
        while isinstance(t, tuple) and t and t[0] == "not":
            t, neg = t[1], not neg
        if isinstance(t, tuple) and t and t[0] == "bin" and t[1] in FLIP:
            l, r = terms(c, t[2]), terms(c, t[3])
            if l is not None and r is not None:
                d = {k: l.get(k, 0) - r.get(k, 0) for k in set(l) | set(r)}
                d = {k: x for k, x in d.items() if x}
                op = t[1]
                if set(d) <= {"i", "n", 1} and d.get("i", 0) == -d.get("n", 0) and abs(d.get("i", 0)) == 1:
                    if d["i"] == -1:
                        d = {k: -x for k, x in d.items()}
                        op = FLIP[op]
                    if neg:
                        op = NEG[op]
                    # i - n + k `op` 0, where i - n <= -1
                    k = d.get(1, 0)
                    if k == 1 and op in ("Eq", "Ge") or k == 2 and op == "Gt":
                        return "is-last"
                    if k == 0 and op == "Ge" or k == 1 and op == "Gt":
                        return "front"
                    return "%s %s" % (op, k)
        return "?"


def terms(c, v, depth=0):
    """A sum of the position i, the length n and a constant."""
    if v[0] == "c" and isinstance(v[1], int):
        return {1: v[1]}
    if v[0] != "y" or depth > 5:
        return None
    t = bare(v[1])
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "plen" or t[0] == "len":
        return {"n": 1}
    if t[0] == "fld" and elem_of(t[1]) and str(t[2]) == "0":
        return {"i": 1}
    if t[0] == "fld" and str(t[2]) == "0" and isinstance(t[1], tuple) and t[1][0] == "bin":
        t = t[1]
    if t[0] == "bin" and t[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub"):
        l, r = terms(c, t[2], depth + 1), terms(c, t[3], depth + 1)
        if l is None or r is None:
            return None
        s = 1 if t[1].startswith("Add") else -1
        return {k: l.get(k, 0) + s * r.get(k, 0) for k in set(l) | set(r)}
    return None


def wholes(ctx, p):
    for name, kind in (("validate_lookup_path", "lookup"), ("validate_insert_path", "insert")):
        bs = [b for b in p.bodies if b.name == name and b.kind == "Fn"]
        if not need(ctx, bs, name):
            continue

        def chk(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            if has(st, "refused") or v[0] == "v" and v[2] == "Err":
                if not (has(st, "refused") or any(x[0] == "iters" and has(x[2] or (), "refused") for x in st)):
                    yield "refused", "a path is refused although no segment of it was"
                if not (v[0] == "v" and v[2] == "Err"):
                    yield "lost", "a path with a refused segment is let through"
                return
            if facts.get(("pempty",)) == ("c", 1) or has(st, "none"):
                return
            lastseen = any(x[0] == "check" and x[1] == ("lastseg",) for x in st)
            for x in st:
                if x[0] == "check" and x[1] == ("lastseg",) and x[2] not in ("last", "any"):
                    yield "last", "the last segment is validated as if others followed"
            ended = [x[1] for x in st if x[0] == "end"]
            over = [x for x in st if x[0] == "iters"]
            src = [X for X in ended if is_text(bare(X[1])) or bare(X[1]) == ("front",)]
            if not src:
                yield "some", "a path is let through although not all of its segments were looked at"
            for X in src:
                if bare(X[1]) == ("front",) and not lastseen:
                    yield "last", "the last segment of a path is not validated"
                if X[2] == "part":
                    yield "part", "only some segments of a path are validated"
            for x in over:
                its = x[2] or ()
                cs = [y for y in its if y[0] == "check"]
                if has(its, "refused"):
                    yield "lost", "a path with a refused segment is let through"
                    continue
                if not cs:
                    yield "skip", "a segment is not validated"
                for y in cs:
                    if not elem_of(y[1]):
                        yield "other", "something else than the segment is validated"
                    if kind == "lookup" and bare(x[1][1]) == ("front",):
                        if y[2] != "front":
                            yield "flag", "a segment that others follow is validated as the last one"
                    elif kind == "lookup" and y[2] != "is-last":
                        if y[2] in ("?", "any"):
                            if y[2] == "any":
                                yield "kind", "a lookup path is validated by the rules of insertion"
                            else:
                                ctx.assume("which segment counts as the last one is computed in a way the rule does not know")
                        else:
                            yield "flag", "a segment counts as the last one of its path when it is not, or the other way round (%s)" % y[2]
                    elif kind == "insert" and y[2] != "any":
                        yield "kind", "an insert path is validated by the rules of lookup"
        r = Whole(p, chk, ("validate_lookup_path_segment",), ("validate_insert_path_segment",))
        run_trace(ctx, p, "all", bs[0], r)
        ctx.count("validators", 1)


class Build(Trace):
    """A named path that is put together or changed."""

    def __init__(self, p, check):
        Trace.__init__(self, p, self.event, check, keep=lambda s: True, on_iter=lambda X, op, it, tr: tuple(it), on_write=self.wrote)

    def nm(self, c, v):
        w = thru(c, v)
        if w[0] == "y":
            return flats(bare(w[1]))
        if w[0] == "s":
            return repr(w[1])
        o = objval(c.sim, c.env, v)
        return flat(o) if o[0] != "r" else flatkey(o[1])

    def wrote(self, c, key, val):
        k = flatkey(key)
        if k.endswith(".path") and k.startswith("arg0"):
            return ("set", self.now(c, val))
        return None

    def now(self, c, v):
        w = thru(c, v)
        return flats(bare(w[1])) if w[0] == "y" else flat(w)

    def event(self, c):
        f = c.fn
        if f is None:
            return None
        n = f.name
        own = f.krate in ("kompact", "kompact_net")
        if own:
            if n == "validate_lookup_path":
                if asserted(c):
                    return E(ret=ok(UNIT))
                return E("all", self.nm(c, c.args[0]), ret=ok(UNIT), alts=[E("bad", ret=err(("y", ("why", len(self.cur_st)))))])
            if n == "validate_lookup_path_segment":
                fl = thru(c, c.args[1])
                return E("one", self.nm(c, c.args[0]), fl[1] if fl[0] == "c" else "?", ret=ok(UNIT), alts=[E("bad", ret=err(("y", ("why", len(self.cur_st)))))])
            if n == "parse_path":
                return E(ret=("y", ("parsed", self.nm(c, c.args[0]))))
            return None
        o = self.nm(c, c.args[0]) if c.args else ""
        if o.endswith("arg0.path") or o == "arg0.path":
            if n == "last":
                return E("some", ret=some(("y", ("lastseg",))), alts=[E("none", ret=NONE)])
            if n == "is_empty":
                return E(ret=("y", ("pempty",)))
            if n == "push":
                return E("add", self.nm(c, c.args[1]), ret=UNIT)
            if n in ("append", "extend", "extend_from_slice"):
                return E("add", self.nm(c, c.args[1]), ret=UNIT)
            if n in ("pop", "truncate", "clear", "remove", "drain", "insert", "swap"):
                return E("other", n)
        return None

    def call(self, st, c):
        self.cur_st = st
        return Trace.call(self, st, c)


def building(ctx, p):
    """Paths are only put together from validated segments."""
    ms = inherent(p, "NamedPath", "push") + inherent(p, "NamedPath", "append")
    if not need(ctx, ms, "NamedPath::push and append"):
        return
    for b in ms:
        def chk(st, val, facts, c):
            v = resolve(c.sim, c.env, val)
            adds = [x for x in st if x[0] == "add"]
            if has(st, "other") or has(st, "set"):
                ctx.assume("%s changes the path in a way the rule does not know" % b.name)
                return
            for x in st:
                if x[0] == "iters" and has(x[2] or (), "add"):
                    adds += [y for y in x[2] if y[0] == "add"]
            if v[0] == "v" and v[2] == "Err":
                if adds and b.argc and b.locals[1].startswith("&"):
                    yield "half", "a refused segment is left in the path"
                if not has(st, "bad") and not any(x[0] == "iters" and has(x[2] or (), "bad") for x in st):
                    yield "refused", "a segment is refused for no reason"
                return
            if has(st, "bad"):
                yield "lost", "a segment that was refused is added"
                return
            if len(adds) != 1 and not any(x[0] == "iters" for x in st):
                yield "adds", "%s adds %d times to the path" % (b.name, len(adds))
                return
            i = max([j for j, x in enumerate(st) if x[0] == "add"] or [0])
            alls = [j for j, x in enumerate(st) if x[0] == "all" and x[1].endswith("arg0.path")]
            if any(j > i for j in alls):
                return
            last_ok = has(st, "none") or facts.get(("pempty",)) == ("c", 1) or any(x[0] == "one" and x[1] == "lastseg" and x[2] == 0 for x in st)
            new_ok = any(x[0] == "one" and x[1] == adds[0][1] for x in st) or any(x[0] == "all" and x[1] == adds[0][1] for x in st) if adds else True
            if not last_ok:
                yield "after", "a segment may be put behind a broadcast or select marker"
            if not new_ok:
                yield "new", "what is added to the path is not validated"
            if new_ok and any(x[0] == "one" and x[1] == (adds[0][1] if adds else None) and x[2] != 1 for x in st):
                yield "marker", "a marker cannot be put at the end of a path"
        r = Build(p, chk)
        run_trace(ctx, p, "build", b, r)
        ctx.count("ways to build", 1)
    bs = inherent(p, "SystemPath", "into_named_with_vec") + inherent(p, "SystemPath", "into_named_with_string")
    if need(ctx, bs, "SystemPath::into_named_with_*"):
        for b in bs:
            want = "arg1" if b.name.endswith("vec") else "parsed:arg1"

            def chk2(st, val, facts, c):
                v = deepv(c, val)
                if v[0] == "v" and v[2] == "Err":
                    if not has(st, "bad"):
                        yield "refused", "a path is refused for no reason"
                    return
                if v[0] != "v":
                    ctx.assume("%s returns %s" % (b.name, flat(v)[:60]))
                    return
                if ("all", want) not in st:
                    yield "unchecked", "%s makes a path without validating its segments" % b.name
                fs = fields_of(v[3][0][1])
                got = {n: flats(bare(x[1])) if x[0] == "y" else flat(x) for n, x in fs.items()}
                if fs and (got.get("path") != want or not whole_arg(fs.get("system"), "arg0")):
                    yield "parts", "%s makes a path of %s" % (b.name, got)
            run_trace(ctx, p, "build", b, Build(p, chk2))
            ctx.count("ways to build", 1)
    # what the dispatcher is asked to register
    bs = [b for b in p.bodies if b.kind != "Closure" and b.crate == "kompact" and last_seg(b.self_ty or "") == "PathResolvable" and b.name in ("from_str", "try_from")]
    for b in bs:
        def chk3(st, val, facts, c):
            v = deepv(c, val)
            if v[0] == "v" and v[2] == "Ok" and ("all", "parsed:arg0") not in st:
                yield "alias", "text is taken for the alias of an actor without validating it"
        run_trace(ctx, p, "build", b, Build(p, chk3))
        ctx.count("ways to build", 1)


def whole_arg(v, name):
    if v is None:
        return False
    if v[0] == "y":
        return flats(bare(v[1])) == name
    if v[0] == "v" and v[3]:
        return all(whole_arg(x, name + "." + n) for n, x in v[3])
    return False


def reading(ctx, p):
    """Text is read as the kind of path it is."""
    for b in p.bodies:
        if b.kind == "Closure" or b.crate != "kompact" or "tests" in b.id.split("::"):
            continue
        k = last_seg(b.self_ty or "")
        if k not in ("ActorPath", "NamedPath", "UniquePath") or not (last_seg(b.trait or "").startswith("TryFrom") and b.name == "try_from" and "tring" in b.trait_ref or last_seg(b.trait or "") == "FromStr" and k == "ActorPath"):
            continue
        if b.argc != 1 or not any(t in b.locals[1] for t in ("str", "String")):
            continue

        def chk(st, val, facts, c):
            v = deepv(c, val)
            tried = {x[1] for x in st if x[0] in ("parse", "noparse")}
            if any(x[0] in ("parse", "noparse") and not is_text(x[2]) for x in st):
                yield "text", "something else than the text is parsed"
            if v[0] == "v" and v[2] == "Err":
                if not has(st, "noparse"):
                    yield "refused", "a path is refused without trying to read it"
                if k == "ActorPath" and b.name == "from_str":
                    h = has_fact(facts)
                    if not ({"NamedPath", "UniquePath"} <= tried or h == 1 and "UniquePath" in tried or h == 0 and "NamedPath" in tried or "ActorPath" in tried):
                        yield "kind", "text is refused after trying to read it as %s only" % sorted(tried)
                return
            if v[0] != "v":
                ctx.assume("%s returns %s" % (b.id, flat(v)[:80]))
                return
            x = v[3][0][1]
            if x[0] == "v" and x[2] in ("Unique", "Named") and x[3]:
                y = symbol(x[3][0][1])
                if not (isinstance(y, tuple) and y[0] == "parsed" and y[1] == x[2] + "Path" and is_text(y[2])):
                    yield "value", "text is read as a %s path that is %s" % (x[2].lower(), says(y))
                return
            y = symbol(x)
            if not (isinstance(y, tuple) and y[0] == "parsed" and y[1] == k and is_text(y[2])):
                yield "value", "text is read as %s" % says(y)
        run_trace(ctx, p, "read", b, Parse(p, chk))
        ctx.count("ways to parse", 1)


def has_fact(facts):
    for k, v in facts.items():
        if isinstance(k, tuple) and k and k[0] == "has" and is_text(k[1]) and k[2] == "#" and v[0] == "c":
            return v[1]
    return None


DROPS = ("filter", "filter_map", "skip", "take", "take_while", "skip_while", "map_while", "step_by", "rev", "dedup", "trim", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_start", "trim_end", "strip_prefix", "strip_suffix", "to_lowercase", "to_uppercase", "split_whitespace", "split_terminator", "rsplit", "splitn", "rsplitn", "split_inclusive", "replace")


def splitting(ctx, p):
    """parse_path gives all parts of the text, in order."""
    bs = [b for b in p.bodies if b.name == "parse_path" and b.kind == "Fn" and b.crate == "kompact"]
    if not need(ctx, bs, "parse_path"):
        return
    b = bs[0]
    for _, fn, line, _, cl in p.calls(b):
        if fn is not None and fn.krate not in ("kompact",):
            ctx.ob("split", fn.name not in DROPS, "drops:%s" % fn.name, "parse_path changes or leaves out segments: %s" % fn.path, where(b))

    def chk(st, val, facts, c):
        y = symbol(deepv(c, val))
        if isinstance(y, tuple) and y and understood(y):
            if not (y[0] == "strs" and is_text(y[1]) and y[2:] == ("/", 0, 0)):
                yield "parts", "parse_path gives %s" % says(y)
        else:
            ctx.assume("how parse_path puts its result together is outside the forms the rule knows")
    run_trace(ctx, p, "split", b, Parse(p, chk))


@prop("A01")
def a01(ctx):
    p = ctx.prog("net")
    splitting(ctx, p)
    parsing(ctx, p)
    reading(ctx, p)
    showing(ctx, p)
    protocols(ctx, p)
    segments(ctx, p)
    wholes(ctx, p)
    building(ctx, p)
    # bytes
    bits = wire.bitfields(ctx, p)
    ctx.anchor("bit fields", bits, 3)
    wire.mirrored(ctx, p)
    wire.small(ctx, p, bits)
    wire.accessors(ctx, p)
    wire.builtin(ctx, p, bits, only=("ActorPath", "SystemPath"))
