"""Path-sensitive typestate dataflow ("property simulation") over MIR with virtual inlining.

An abstract state is (program point in an inlined frame chain, automaton state, abstract store). The store maps
memory cells to values of a finite domain: constants, enum variants / aggregates, references to cells, and
symbols naming the static construct that produced an unknown value. Equal states are merged; the exploration is a
fixpoint over the finite reachable set. Nothing is executed and no path condition goes to a solver: a branch on an
unknown value goes both ways and only remembers which way it went for that same value.
"""
from collections import deque
from facts import last_seg, FnRef

TRUE = ("c", 1)
FALSE = ("c", 0)
UNIT = ("v", "tuple", None, ())


class Budget(Exception):
    pass


def live_info(body):
    """Block-level live-in sets, with address-taken locals never considered dead."""
    if body._live is not None:
        return body._live
    n = len(body.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    borrowed = set()

    def pl_use(p, i):
        if p[0] not in dfn[i]:
            use[i].add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i" and e[1] not in dfn[i]:
                use[i].add(e[1])

    def op_use(o, i):
        if o[0] in ("c", "m"):
            pl_use(o[1], i)

    succs = []
    for i, b in enumerate(body.blocks):
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k in ("use", "repeat"):
                    op_use(r[1], i)
                elif k in ("ref", "raw"):
                    p = r[2] if k == "ref" else r[1]
                    pl_use(p, i)
                    if "*" not in p[1:]:
                        borrowed.add(p[0])
                elif k == "cast":
                    op_use(r[2], i)
                elif k == "bin":
                    op_use(r[2], i)
                    op_use(r[3], i)
                elif k == "un":
                    op_use(r[2], i)
                elif k == "discr":
                    pl_use(r[1], i)
                elif k == "agg":
                    for o in r[2]:
                        op_use(o, i)
                if len(s[1]) == 1:
                    dfn[i].add(s[1][0])
                else:
                    pl_use(s[1], i)
            elif s[0] == "sd":
                pl_use(s[1], i)
            elif s[0] == "assume":
                op_use(s[1], i)
        t = b["t"]
        k = t[0]
        sc = []
        if k == "goto":
            sc = [t[1]]
        elif k == "switch":
            op_use(t[1], i)
            sc = [x[1] for x in t[2]]
        elif k == "drop":
            pl_use(t[1], i)
            sc = [t[2]]
            if t[3] >= 0:
                sc.append(t[3])
        elif k == "call":
            op_use(t[1], i)
            for o in t[2]:
                op_use(o, i)
            if len(t[3]) != 1:
                pl_use(t[3], i)
            if t[4] is not None:
                sc.append(t[4])
            if t[5] >= 0:
                sc.append(t[5])
        elif k == "assert":
            op_use(t[1], i)
            sc = [t[4]]
            if t[5] >= 0:
                sc.append(t[5])
        elif k == "yield":
            sc = [t[1]]
        elif k == "ret":
            if 0 not in dfn[i]:
                use[i].add(0)
        succs.append(sc)
    live = [set(u) for u in use]
    # call destinations are defined on the edge; handle as def at end of block
    cdef = [set() for _ in range(n)]
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if t[0] == "call" and len(t[3]) == 1:
            cdef[i].add(t[3][0])
    work = deque(range(n - 1, -1, -1))
    preds = [[] for _ in range(n)]
    for i, sc in enumerate(succs):
        for s in sc:
            preds[s].append(i)
    inq = set(work)
    while work:
        i = work.popleft()
        inq.discard(i)
        out = set()
        for s in succs[i]:
            out |= live[s]
        new = use[i] | ((out - cdef[i]) - dfn[i])
        if new != live[i]:
            live[i] = new
            for p in preds[i]:
                if p not in inq:
                    inq.add(p)
                    work.append(p)
    body._live = (live, borrowed)
    return body._live


class Call:
    """What a rule sees at a call site."""
    __slots__ = ("sim", "fn", "args", "site", "body", "block", "line", "mac", "env", "bodies", "closures", "frame", "dest_ty", "fval")

    def path(self):
        return self.fn.path if self.fn else "<indirect>"

    @property
    def name(self):
        return self.fn.name if self.fn else "<indirect>"

    def self_name(self):
        return ty_head(self.fn.self_ty) if self.fn and self.fn.self_ty else ""

    def where(self):
        return "%s (%s:%d)" % (self.body.id, self.body.file, self.line)

    def get(self, i):
        return self.args[i] if i < len(self.args) else None

    def deref(self, v):
        return self.sim.load_through(self.env, v)

    def sym(self, i):
        return self.sim.ident(self.env, self.args[i])


_tyh = {}


def ty_head(t):
    """Last path segment of a type's head, looking through references."""
    if t is None:
        return ""
    r = _tyh.get(t)
    if r is None:
        s = t
        while s.startswith("&"):
            s = s[1:].lstrip()
            if s.startswith("'"):
                s = s.split(" ", 1)[1] if " " in s else s
            if s.startswith("mut "):
                s = s[4:]
        if s.startswith("dyn "):
            s = s[4:]
        i = s.find("<")
        if i > 0:
            s = s[:i]
        s = s.rstrip(":")
        r = s.rsplit("::", 1)[-1].split(" ")[0]
        _tyh[t] = r
    return r


# calls that return (something aliasing) their first argument
IDENTITY = {
    "deref", "deref_mut", "as_ref", "as_mut", "borrow_mut_ptr", "clone", "cloned", "copied", "into_iter", "iter", "iter_mut", "by_ref",
    "as_deref", "as_deref_mut", "get_mut_unchecked", "into_inner", "as_slice", "as_mut_slice", "as_str", "to_owned",
    "downgrade", "into_boxed_slice", "into_raw", "from_raw", "as_ptr", "as_mut_ptr", "pin", "as_pin_mut", "get_unchecked_mut",
    "new_unchecked", "must_use",
}
IDENTITY_KRATES = {"core", "alloc", "std", "arc_swap"}


def has_site(v, site, depth=0):
    if not isinstance(v, tuple):
        return False
    if v == site:
        return True
    if depth > 12:
        return False
    for x in v:
        if isinstance(x, tuple) and has_site(x, site, depth + 1):
            return True
    return False


def vdepth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v:
        if isinstance(x, tuple):
            d = vdepth(x)
            if d > m:
                m = d
    return m + 1


class Outcome:
    __slots__ = ("ret", "st", "stop", "writes", "inline", "unwind")

    def __init__(self, ret=None, st=None, stop=False, writes=(), inline=False, unwind=None):
        self.unwind = unwind
        self.ret = ret
        self.st = st
        self.stop = stop
        self.writes = writes
        self.inline = inline


class Rule:
    """Override the hooks. `st` is the hashable automaton state."""
    init = ()
    follow_unwind = False
    force = frozenset()
    inline_depth = 12

    def call(self, st, c):
        return None

    def drop(self, st, c, ty, val):
        return None

    def write(self, st, c, key, val):
        return None

    def branch(self, st, c, val, outcome):
        return None

    def ret(self, st, c, val):
        return None

    def unwind_exit(self, st, c):
        return None

    def known(self, sym):
        """What the rule knows about an integer symbol: ('c', n), ('not', frozenset) or None."""
        return None

    def may_unwind(self, c, fn):
        return True

    def may_inline(self, c, body):
        return True

    def keep_phi(self, sym):
        return False

    vcap = 24

    def index(self, iv):
        """How an element chosen by this index is told apart from others."""
        return iv if iv[0] == "c" else "?"

    def dies(self, c, what, env):
        """A place where the thread panics: an assertion that may fail, an unwrapped error, a call that never returns."""

    def arith(self, op, a, b):
        """Abstract arithmetic of a rule's own domain; None: default."""
        return None


LOG_MACROS = {"trace", "debug", "info", "warn", "error", "crit", "slog_log", "log", "println", "eprintln", "print", "eprint"}


class Sim:
    def __init__(self, prog, rule, max_states=400000, trace=True):
        self.prog = prog
        self.rule = rule
        self.max_states = max_states
        self.frames = {}
        self.finfo = []
        self.violations = []
        self.vkeys = set()
        self.preds = {}
        self.sites_seen = set()
        self.bodies_seen = set()
        self.nstates = 0
        self.truncated = False
        self.consts = {}

    # ---- frames --------------------------------------------------------------------------------
    def frame(self, parent, block, body, dest, target, unwind, note=None):
        k = (parent, block, body.h, note)
        f = self.frames.get(k)
        if f is None:
            f = len(self.finfo)
            self.frames[k] = f
            depth = 0 if parent is None else self.finfo[parent][6] + 1
            self.finfo.append((body, parent, block, dest, target, unwind, depth, note))
        return f

    def in_chain(self, f, body):
        n = 0
        while f is not None:
            if self.finfo[f][0] is body:
                n += 1
            f = self.finfo[f][1]
        return n

    def chain(self, f):
        out = []
        while f is not None:
            out.append(self.finfo[f][0].id)
            f = self.finfo[f][1]
        return list(reversed(out))

    # ---- memory --------------------------------------------------------------------------------
    # key = (root, e1, e2, ...)  root = ('l', fid, local) | ('h', symbol)
    def key_of(self, env, fid, p):
        key = (("l", fid, p[0]),)
        for e in p[1:]:
            if e == "*":
                v = self.load(env, key)
                key = self.target(v, key)
            elif isinstance(e, list):
                if e[0] == "f":
                    key = key + (("f", e[2]),)
                elif e[0] == "d":
                    key = key + (("d", e[2]),)
                elif e[0] == "i":
                    iv = self.load(env, (("l", fid, e[1]),))
                    key = key + (("i", self.rule.index(iv)),)
                elif e[0] == "ci":
                    key = key + (("i", ("c", e[1])),) if not e[2] else key + (("i", "?"),)
                else:
                    key = key + (("ss",),)
            else:
                key = key + (("?",),)
        return key

    def target(self, v, key):
        if v[0] == "r":
            return v[1]
        if v[0] == "y":
            return (("h", v[1]),)
        if v[0] == "kr":
            return (("k", v[1]),)
        if v[0] == "s":
            return (("k", v),)
        return (("h", ("pt", key if vdepth(key) < 12 else "deep")),)

    def sym_of_key(self, key):
        r = key[0]
        if r[0] == "k":
            s = ("const", "place")
        elif r[0] == "h":
            s = r[1]
            first = True
        else:
            s = ("loc", r[1], r[2])
        for e in key[1:]:
            s = ("fld", s, e[1] if len(e) > 1 else e[0])
        return s

    def load(self, env, key):
        v = env.get(key)
        if v is not None:
            return v
        # aggregate at a prefix?
        for n in range(len(key) - 1, 0, -1):
            pv = env.get(key[:n])
            if pv is not None:
                return self.project(env, pv, key[n:])
        if key[0][0] == "k":
            return self.project(env, key[0][1], key[1:])
        # memory never written: named by its access path
        return ("y", ("ld",) + (self.sym_of_key(key),))

    def project(self, env, v, elems):
        for i, e in enumerate(elems):
            if v[0] == "v":
                if e[0] == "d":
                    continue
                if e[0] == "f":
                    got = None
                    for n, x in v[3]:
                        if n == e[1]:
                            got = x
                            break
                    if got is None:
                        v = ("y", ("nofield",))
                    else:
                        v = got
                    continue
                v = ("y", ("elem", e[0]))
            elif v[0] == "y":
                v = ("y", ("fld", v[1], e[1] if len(e) > 1 else e[0]))
            elif v[0] == "clo":
                if e[0] == "f":
                    got = None
                    for n, x in v[2]:
                        if n == e[1]:
                            got = x
                    v = got if got is not None else ("y", ("nofield",))
            elif v[0] == "r":
                # field of a pointer wrapper (Box/Unique/NonNull): same pointer
                continue
            else:
                v = ("y", ("fld", v, e[1] if len(e) > 1 else e[0]))
        return v

    def load_through(self, env, v):
        """Value behind a reference (or the value itself)."""
        n = 0
        while v[0] == "r" and n < 6:
            v = self.load(env, v[1])
            n += 1
        return v

    def ident(self, env, v):
        """Canonical identity of the object a value denotes, looking through references."""
        n = 0
        while v[0] == "r" and n < 8:
            w = self.load(env, v[1])
            if w[0] == "y" and w[1] == ("ld", self.sym_of_key(v[1])):
                return self.sym_of_key(v[1])
            v = w
            n += 1
        if v[0] == "y":
            s = v[1]
            if s and s[0] == "ld":
                return s[1]
            return s
        return v

    def store(self, env, key, val):
        n = len(key)
        # drop everything below
        dead = [k for k in env if k[0] != "φ" and len(k) > n and k[:n] == key]
        for k in dead:
            del env[k]
        # an aggregate at a strict prefix is split
        for m in range(n - 1, 0, -1):
            pv = env.get(key[:m])
            if pv is not None:
                if pv[0] in ("v", "clo"):
                    env[key[:m]] = self.agg_update(pv, key[m:], val)
                    return
                if pv[0] == "y":
                    # keep symbol for other fields; remember this one separately
                    break
                break
        env[key] = val

    def agg_update(self, agg, elems, val):
        if not elems:
            return val
        e = elems[0]
        if e[0] == "d":
            if agg[0] == "v" and agg[2] != e[1]:
                agg = ("v", agg[1], e[1], ())
            return self.agg_update(agg, elems[1:], val)
        if agg[0] not in ("v", "clo"):
            return ("y", ("upd",))
        idx = 3 if agg[0] == "v" else 2
        fs = list(agg[idx])
        for i, (n, x) in enumerate(fs):
            if n == e[1] if len(e) > 1 else False:
                fs[i] = (n, self.agg_update(x, elems[1:], val))
                break
        else:
            if len(e) > 1 and len(elems) == 1:
                fs.append((e[1], val))
        return agg[:idx] + (tuple(fs),)

    def forget(self, env, key):
        n = len(key)
        for k in [k for k in env if k[0] != "φ" and k[:n] == key]:
            del env[k]

    def purge_symbol_phi(self, env, sym):
        for k in [k for k in env if k[0] == "φ" and has_site(k[1], sym)]:
            del env[k]

    def purge_symbol(self, env, site):
        for k in [k for k in env if k[0] == "φ" and has_site(k[1], site)]:
            del env[k]
        for k in [k for k in env if k[0] != "φ" and k[0][0] == "h" and has_site(k[0][1], site)]:
            del env[k]

    # ---- evaluation ----------------------------------------------------------------------------
    def operand(self, env, fid, o):
        k = o[0]
        if k == "c" or k == "m":
            key = self.key_of(env, fid, o[1])
            return self.load(env, key)
        if k == "k":
            return self.const(o[1], fid)
        return ("y", ("rt",))

    def const(self, c, fid):
        if "fn" in c:
            return ("fn", c["fn"].h, c["fn"])
        if "closure" in c:
            return ("clo", c["h"], ())
        if "v" in c:
            ty = c.get("ty", "")
            v = int(c["v"])
            a = self.prog.adts.get(ty)
            if a is not None and a["kind"] == "enum":
                for vr in a["variants"]:
                    if vr["discr"] == v and not vr["fields"]:
                        return ("v", ty, vr["name"], ())
            if ty.startswith("i") and ty[1:].isdigit():
                bits = int(ty[1:])
                if v >= 1 << (bits - 1):
                    v -= 1 << bits
            return ("c", v)
        if "s" in c:
            return ("s", c["s"])
        if "b" in c:
            return ("kr", ("s", "\0b" + c["b"]))
        if "cdef" in c:
            return self.const_item(c["cdef"])
        if "static" in c:
            return ("y", ("static", c["static"]))
        if c.get("zst"):
            if c.get("ty") == "()":
                return UNIT
            return ("y", ("zst", c.get("ty")))
        if "promoted" in c:
            b = self.prog.by_h.get(c["pof"])
            if b is not None and c["promoted"] < len(b.promoted):
                return self.promoted(b, c["promoted"])
        return ("y", ("const", c.get("ty")))

    def const_item(self, name):
        """The value of a constant item whose initialiser is straight-line code."""
        if name in self.consts:
            return self.consts[name]
        v = ("y", ("const", name))
        self.consts[name] = v
        bs = self.prog.const_bodies().get(name, ())
        if len(bs) == 1 and all(bl["t"][0] in ("ret", "goto") for bl in bs[0].blocks):
            b = bs[0]
            env = {}
            fid = -1000 - len(self.consts)
            i, n = 0, 0
            while n < 20:
                n += 1
                bl = b.blocks[i]
                for st in bl["s"]:
                    if st[0] == "=":
                        self.store(env, self.key_of(env, fid, st[1]), self.rvalue(env, fid, st[2], ("const", name), None))
                if bl["t"][0] == "ret":
                    break
                i = bl["t"][1]
            w = self.freeze(env, env.get((("l", fid, 0),)))
            if w is not None and w[0] in ("v", "c"):
                v = w
        self.consts[name] = v
        return v

    def promoted(self, b, i):
        pr = b.promoted[i]
        env = {}
        for bl in pr["blocks"]:
            for s in bl["s"]:
                if s[0] == "=":
                    key = self.key_of(env, -1 - i, s[1])
                    self.store(env, key, self.rvalue(env, -1 - i, s[2], ("prom", b.h, i), None))
        v = env.get((("l", -1 - i, 0),))
        v = self.freeze(env, v)
        return v if v is not None else ("y", ("promoted", b.h, i))

    def freeze(self, env, v, depth=0):
        """Turn refs to promoted locals into self-contained constant refs."""
        if v is None:
            return None
        if v[0] == "r" and depth < 4:
            w = self.load(env, v[1])
            w = self.freeze(env, w, depth + 1)
            return ("kr", w)
        return v

    def rvalue(self, env, fid, r, site, body):
        k = r[0]
        if k == "use":
            return self.operand(env, fid, r[1])
        if k == "ref" or k == "raw":
            p = r[2] if k == "ref" else r[1]
            key = self.key_of(env, fid, p)
            return self.mkref(env, key)
        if k == "cast":
            v = self.operand(env, fid, r[2])
            if r[1] in ("IntToInt",):
                if v[0] == "c" and not r[4].startswith("i"):
                    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "bool": 1}.get(r[4])
                    if bits:
                        return ("c", v[1] & ((1 << bits) - 1))
                if v[0] == "v" and not v[3]:
                    a = self.prog.adts.get(v[1])
                    if a:
                        for vr in a["variants"]:
                            if vr["name"] == v[2]:
                                return ("c", vr["discr"])
                return v
            return v
        if k == "bin":
            a = self.operand(env, fid, r[2])
            b = self.operand(env, fid, r[3])
            return self.binop(env, r[1], a, b, site)
        if k == "un":
            a = self.operand(env, fid, r[2])
            if r[1] == "Not":
                ty = self.op_ty(r[2], body)
                if a[0] == "c" and ty and ty[0] == "u" and ty != "u8" and ty[1:] in ("16", "32", "64", "size"):
                    return ("c", a[1] ^ ((1 << int(ty[1:].replace("size", "64"))) - 1))
                if a[0] == "c" and a[1] in (0, 1):
                    return ("c", 1 - a[1])
                if a[0] == "y" and a[1] and a[1][0] == "not":
                    return ("y", a[1][1]) if isinstance(a[1][1], tuple) else a
                if a[0] == "y":
                    ph = env.get(("φ", a[1]))
                    if ph is not None and ph[0] == "c" and ph[1] in (0, 1):
                        return ("c", 1 - ph[1])
                    return ("y", ("not", a[1]))
            if r[1] == "PtrMetadata":
                return ("y", ("len", self.ident(env, a)))
            return ("y", ("un", r[1], a if vdepth(a) < 10 else None))
        if k == "discr":
            key = self.key_of(env, fid, r[1])
            v = self.load(env, key)
            return self.discr(env, v, r[2])
        if k == "agg":
            ops = [self.operand(env, fid, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return ("v", "tuple", None, tuple((str(i), o) for i, o in enumerate(ops)))
            if a[0] == "adt":
                return ("v", a[1], a[2], tuple(zip(a[3], ops)) if len(a[3]) == len(ops) else tuple((str(i), o) for i, o in enumerate(ops)))
            if a[0] in ("closure", "coroutine"):
                cb = self.prog.by_h.get(a[2])
                caps = cb.caps if cb is not None and cb.caps else None
                names = ["^" + c for c in caps] if caps and len(caps) == len(ops) else [str(i) for i in range(len(ops))]
                return ("clo", a[2], tuple(zip(names, ops)))
            if a[0] == "array":
                if len(ops) <= 8:
                    return ("v", "array", None, tuple((("c", i), o) for i, o in enumerate(ops)))
                return ("y", ("array", site))
            if a[0] == "rawptr":
                return ops[0]
            return ("y", ("agg", site))
        if k == "repeat":
            return ("y", ("repeat", site))
        return ("y", ("op", site))

    def op_ty(self, o, body):
        if o[0] == "k":
            return o[1].get("ty")
        if body is not None and len(o[1]) == 1 and o[1][0] < len(body.locals):
            return body.locals[o[1][0]]
        return None

    def mkref(self, env, key):
        # reborrow of an opaque pointer is that pointer
        if len(key) == 1 and key[0][0] == "h":
            return ("y", key[0][1])
        if key[0][0] == "k":
            return ("kr", self.load(env, key) if len(key) > 1 else key[0][1])
        return ("r", key)

    def binop(self, env, op, a, b, site):
        for x in (a, b):
            pass
        if a[0] == "y":
            ph = env.get(("φ", a[1]))
            if ph is not None and ph[0] == "c":
                a = ph
        if b[0] == "y":
            ph = env.get(("φ", b[1]))
            if ph is not None and ph[0] == "c":
                b = ph
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else op
        if base.endswith("Unchecked"):
            base = base[:-9]
        self.rule.cur_op = (env, site)
        res = self.rule.arith(base, a, b)
        if res is not None:
            pass
        elif a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y,
                     "Ge": lambda: x >= y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Shl": lambda: x << y, "Shr": lambda: x >> y,
                     "Div": lambda: x // y, "Rem": lambda: x % y}.get(base)
                if f is not None:
                    v = f()
                    if base in ("Add", "Sub", "Mul") and site is not None and not isinstance(site[0], str) and abs(v) > 6:
                        v = None
                    if v is not None:
                        res = ("c", int(v))
            except Exception:
                res = None
        elif base in ("Eq", "Ne") and a[0] == "v" and b[0] == "v" and not a[3] and not b[3] and a[1] == b[1]:
            res = ("c", int((a[2] == b[2]) == (base == "Eq")))
        if res is None:
            if has_site(a, site) or has_site(b, site) or vdepth(a) > 9 or vdepth(b) > 9:
                res = ("y", ("top", site))
            else:
                res = ("y", ("bin", base, a, b, site))
        if wo:
            return ("v", "tuple", None, (("0", res), ("1", FALSE)))
        return res

    def discr(self, env, v, adt):
        if v[0] == "v" and v[2] is not None:
            a = self.prog.adts.get(adt) if adt else None
            if a:
                for vr in a["variants"]:
                    if vr["name"] == v[2]:
                        return ("c", vr["discr"])
        if v[0] == "y":
            return ("y", ("discr", v[1], adt))
        return ("y", ("discr", ("val", v) if vdepth(v) < 10 else ("deep",), adt))

    # ---- exploration ---------------------------------------------------------------------------
    def run(self, body, args=None, st=None, env=None):
        rule = self.rule
        rule.sim = self
        f0 = self.frame(None, -1, body, None, None, None)
        env = dict(env or {})
        for i in range(body.argc):
            v = args[i] if args and i < len(args) and args[i] is not None else ("y", ("arg", i, body.names.get(i + 1, "")))
            env[(("l", f0, i + 1),)] = v
        st = rule.init if st is None else st
        start = (f0, 0, st, frozenset(env.items()))
        seen = {start}
        work = deque([start])
        self.preds[start] = None
        while work:
            s = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                self.truncated = True
                raise Budget("state budget exceeded in %s" % body.id)
            for n in self.step(s):
                if n not in seen:
                    seen.add(n)
                    self.preds[n] = s
                    work.append(n)
        return self

    def trace(self, s, limit=40):
        out = []
        while s is not None:
            f, b = s[0], s[1]
            bd = self.finfo[f][0]
            bl = bd.blocks[b]
            t = bl["t"]
            d = ""
            if t[0] == "call":
                d = "call " + (t[1][1]["fn"].path if t[1][0] == "k" and "fn" in t[1][1] else "<indirect>")
                out.append("%s:%d bb%d %s" % (bd.file, bl["l"], b, d))
            elif t[0] == "switch":
                out.append("%s:%d bb%d branch" % (bd.file, bl["l"], b))
            s = self.preds.get(s)
        out.reverse()
        if len(out) > limit:
            out = out[:6] + ["..."] + out[-(limit - 6):]
        return out

    def violate(self, key, msg):
        if key in self.vkeys:
            return
        self.vkeys.add(key)
        self.violations.append({"key": key, "msg": msg, "trace": self.trace(self.cur)})

    def norm(self, env, fid, block):
        """Prune dead locals of the current frame and refinements nobody can observe."""
        body = self.finfo[fid][0]
        live, borrowed = live_info(body)
        lv = live[block]
        dead = []
        for k in env:
            if k[0] != "φ":
                r = k[0]
                if r[0] == "l" and r[1] == fid and r[2] >= 0 and r[2] not in lv and r[2] not in borrowed:
                    dead.append(k)
        for k in dead:
            del env[k]
        # symbols still referenced
        phis = [k for k in env if k[0] == "φ"]
        if phis:
            used = set()
            for k, v in env.items():
                if k[0] != "φ":
                    self.collect(v, used)
                    if k[0][0] == "h":
                        self.collect(k[0], used)
            for k in phis:
                b = self.base(k[1])
                if b is not None and b not in used and not self.rule.keep_phi(k[1]):
                    del env[k]

    def base(self, s):
        """The value symbol a refinement is about (conditions on memory: the loaded symbol itself)."""
        while isinstance(s, tuple) and s and s[0] in ("not", "discr", "len", "is"):
            s = s[2] if s[0] == "is" else s[1]
        r = s
        while isinstance(r, tuple) and r and r[0] == "fld":
            r = r[1]
        if isinstance(r, tuple) and r and r[0] in ("call", "carg", "top", "default", "bin"):
            return r
        return s if isinstance(s, tuple) else None

    def collect(self, v, out, depth=0):
        if not isinstance(v, tuple) or depth > 14:
            return
        if v and v[0] == "fn":
            return
        if v in out:
            return
        out.add(v)
        for x in v:
            if isinstance(x, tuple):
                self.collect(x, out, depth + 1)

    def goto(self, fid, block, st, env):
        self.rule.cur_st = st
        self.norm(env, fid, block)
        return (fid, block, st, frozenset(env.items()))

    def step(self, s):
        self.cur = s
        fid, bi, st, fe = s
        self.rule.cur_st = st
        env = dict(fe)
        body, parent, pblock, dest, target, unwind, depth, note = self.finfo[fid]
        self.bodies_seen.add(body.h)
        bl = body.blocks[bi]
        rule = self.rule
        c = Call()
        c.sim = self
        c.body = body
        c.block = bi
        c.line = bl["l"]
        c.mac = bl.get("m")
        c.env = env
        c.frame = fid
        c.fn = None
        c.args = ()
        c.closures = ()
        c.bodies = ()
        for si, x in enumerate(bl["s"]):
            k = x[0]
            if k == "=":
                site = (fid, bi, si)
                key = self.key_of(env, fid, x[1])
                v = self.rvalue(env, fid, x[2], site, body)
                if v[0] == "v" and vdepth(v) > self.rule.vcap:
                    v = ("y", ("deepagg", site))
                if not (len(key) == 1 and key[0][0] == "l"):
                    c.line = x[3]
                    c.site = site
                    r = rule.write(st, c, key, v)
                    if r is not None:
                        st = r
                self.store(env, key, v)
            elif k == "dead":
                self.forget(env, (("l", fid, x[1]),))
            elif k == "sd":
                pass
        c.line = bl["l"]
        t = bl["t"]
        k = t[0]
        site = (fid, bi, -1)
        c.site = site
        out = []
        if k == "goto":
            out.append(self.goto(fid, t[1], st, env))
        elif k == "switch":
            if c.mac in LOG_MACROS and t[3] == "bool":
                # logging has no effect any rule observes: take the side that skips it
                tg = [g for x, g in t[2] if x == "0"]
                out.append(self.goto(fid, tg[0] if tg else t[2][-1][1], st, env))
            else:
                out.extend(self.switch(c, st, env, fid, t))
        elif k == "ret":
            v = self.load(env, (("l", fid, 0),))
            out.extend(self.do_return(c, st, env, fid, v))
        elif k == "drop":
            key = self.key_of(env, fid, t[1])
            v = self.load(env, key)
            r = rule.drop(st, c, t[4], v)
            sts = [st] if r is None else (r if isinstance(r, list) else [r])
            for s2 in sts:
                e2 = dict(env)
                db = self.drop_body(t[4], v)
                if db is not None and depth < rule.inline_depth and not self.in_chain(fid, db) and rule.may_inline(c, db):
                    f2 = self.frame(fid, bi, db, None, t[2], t[3])
                    e2[(("l", f2, 1),)] = self.mkref(e2, key)
                    out.append(self.goto(f2, 0, s2, e2))
                else:
                    self.forget(e2, key)
                    out.append(self.goto(fid, t[2], s2, e2))
                    if rule.follow_unwind and db is not None:
                        out.extend(self.unwinding(c, s2, dict(env), fid, t[3]))
        elif k == "assert":
            v = self.operand(env, fid, t[1])
            exp = 1 if t[2] else 0
            if not (v[0] == "c" and v[1] == exp):
                rule.dies(c, "assert:%s" % t[3], env)
                if rule.follow_unwind:
                    out.extend(self.unwinding(c, st, dict(env), fid, t[5]))
            out.append(self.goto(fid, t[4], st, env))
        elif k == "call":
            out.extend(self.do_call(c, st, env, fid, bi, t, depth))
        elif k == "resume":
            out.extend(self.do_unwind_exit(c, st, env, fid))
        elif k in ("unreach", "abort", "other", "tailcall", "yield"):
            pass
        return out

    def unwinding(self, c, st, env, fid, uw):
        if uw is None:
            return []
        if uw >= 0:
            return [self.goto(fid, uw, st, env)]
        if uw == -1:
            return self.do_unwind_exit(c, st, env, fid)
        return []

    def do_unwind_exit(self, c, st, env, fid):
        body, parent, pblock, dest, target, unwind, depth, note = self.finfo[fid]
        for k in [k for k in env if k[0] != "φ" and k[0][0] == "l" and k[0][1] == fid]:
            del env[k]
        if parent is None:
            self.rule.unwind_exit(st, c)
            return []
        if note == "catch":
            # frame entered through catch_unwind: becomes Err at the call's normal target
            if target is None:
                return []
            v = ("v", "core::result::Result", "Err", (("0", ("y", ("panic",))),))
            self.store(env, self.key_of(env, parent, dest), v)
            return [self.goto(parent, target, st, env)]
        return self.unwinding(c, st, env, parent, unwind)

    def drop_body(self, ty, v):
        h = ty_head(ty)
        if ty.startswith("&"):
            return None
        m = getattr(self.prog, "_dropmap", None)
        if m is None:
            m = {}
            for b in self.prog.bodies:
                if b.name == "drop" and b.trait and b.trait.endswith("ops::drop::Drop") and b.self_adt:
                    m[b.self_adt] = b
            self.prog._dropmap = m
        i = ty.find("<")
        return m.get(ty[:i] if i > 0 else ty)

    def do_return(self, c, st, env, fid, v):
        body, parent, pblock, dest, target, unwind, depth, note = self.finfo[fid]
        if parent is None:
            r = self.rule.ret(st, c, v)
            return []
        # the returned value must not refer to the dying frame's cells
        v = self.lift(env, fid, v)
        for k in [k for k in env if k[0] != "φ" and k[0][0] == "l" and k[0][1] == fid]:
            del env[k]
        if target is None:
            return []
        if isinstance(note, tuple) and note[0] == "each":
            w = self.rule.each_stop(st, note, v, env) if hasattr(self.rule, "each_stop") else None
            st = self.rule.each_end(st, note, v, env)
            if w is not None:
                if dest is not None:
                    self.store(env, self.key_of(env, parent, dest), w)
                return [self.goto(parent, target, st, env)]
            v = ("y", ("call", (parent, pblock, -1), note[3]))
            if len(note) > 4:
                e2 = dict(env)
                s2 = self.rule.each_again(st, note, e2)
                if hasattr(self.rule, "each_args"):
                    note = note[:5] + (self.rule.each_args(s2, note),) + note[6:]
                e2[(("l", fid, 1),)] = self.closure_self(e2, fid, body, note[4])
                for i in range(1, body.argc):
                    e2[(("l", fid, i + 1),)] = note[5][i - 1] if i - 1 < len(note[5]) else ("y", ("carg", (parent, pblock, -1), i))
                again = [self.goto(fid, 0, s2, e2)]
                st = self.rule.each_fin(st, note)
                if hasattr(self.rule, "each_value"):
                    v = self.rule.each_value(st, note[3]) or v
                if dest is not None:
                    self.store(env, self.key_of(env, parent, dest), v)
                return again + [self.goto(parent, target, st, env)]
        elif isinstance(note, tuple) and note[0] == "filter":
            out = []
            for w, e in self.filtered(env, note, v):
                if dest is not None:
                    self.store(e, self.key_of(e, parent, dest), w)
                out.append(self.goto(parent, target, st, e))
            return out
        elif dest is not None:
            if note is not None:
                v = self.wrap_note(env, note, v, parent, pblock)
        if dest is not None:
            self.store(env, self.key_of(env, parent, dest), v)
        return [self.goto(parent, target, st, env)]

    def wrap_note(self, env, note, v, parent, pblock):
        if note == "opt":
            return ("v", "core::option::Option", "Some", (("0", v),))
        if note == "catch" or note == "ok":
            return ("v", "core::result::Result", "Ok", (("0", v),))
        if note == "err":
            return ("v", "core::result::Result", "Err", (("0", v),))
        if note == "unknown":
            return ("y", ("call", (parent, pblock, -1)))
        if isinstance(note, tuple) and note[0] == "keep":
            return note[1]
        return v

    def lift(self, env, fid, v, depth=0):
        if depth > 6:
            return ("y", ("deep",))
        if v[0] == "r" and v[1][0] == ("l", fid, v[1][0][2] if v[1][0][0] == "l" else None):
            w = self.load(env, v[1])
            return self.lift(env, fid, w, depth + 1)
        if v[0] == "v":
            return ("v", v[1], v[2], tuple((n, self.lift(env, fid, x, depth + 1)) for n, x in v[3]))
        return v

    # ---- branches ------------------------------------------------------------------------------
    def switch(self, c, st, env, fid, t):
        v = self.operand(env, fid, t[1])
        out = []
        known = None
        if v[0] == "c":
            known = v[1]
        elif v[0] == "v" and not v[3] and v[1] != "tuple":
            a = self.prog.adts.get(v[1])
            for vr in (a["variants"] if a else []):
                if vr["name"] == v[2]:
                    known = vr["discr"]
        neg = False
        sym = None
        if v[0] == "y":
            sym = v[1]
            while sym and sym[0] == "not":
                sym = sym[1]
                neg = not neg
            ph = env.get(("φ", sym)) or self.rule.known(sym)
            if ph is not None and ph[0] == "c":
                known = ph[1] if not neg else 1 - ph[1]
            elif sym[0] == "discr":
                # constant enum behind the symbol?
                pass
        cases = [(int(x), tg) for x, tg in t[2] if x is not None]
        other = [tg for x, tg in t[2] if x is None][0]
        adt = sym[2] if sym and sym[0] == "discr" else None
        variants = None
        if adt and adt in self.prog.adts:
            variants = {vr["discr"]: vr["name"] for vr in self.prog.adts[adt]["variants"]}
        is_bool = t[3] == "bool"
        if known is not None:
            tg = other
            for x, g in cases:
                if x == known or (known < 0 and x == known + (1 << 64)):
                    tg = g
                    break
            else:
                if body_unreach(self.finfo[fid][0], other):
                    return []
            st2 = self.rule.branch(st, c, v, self.outcome(known, variants, is_bool))
            out.append(self.goto(fid, tg, st if st2 is None else st2, env))
            return out
        ph = (env.get(("φ", sym)) or self.rule.known(sym)) if sym is not None else None
        excl = ph[1] if ph is not None and ph[0] == "not" else frozenset()
        vals = set()
        for x, g in cases:
            vals.add(x)
            if x in excl:
                continue
            e2 = dict(env)
            if sym is not None:
                e2[("φ", sym)] = ("c", x if not neg else 1 - x)
                self.learn(e2, sym, x if not neg else 1 - x)
            st2 = self.rule.branch(st, c, v, self.outcome(x, variants, is_bool))
            if st2 == "infeasible":
                continue
            out.append(self.goto(fid, g, st if st2 is None else st2, e2))
        if not body_unreach(self.finfo[fid][0], other):
            rest = None
            if is_bool:
                rest = [1 - x for x in vals] if len(vals) == 1 else None
            elif variants is not None:
                rest = [d for d in variants if d not in vals and d not in excl]
                if not rest:
                    return out
            e2 = dict(env)
            oc = None
            if rest is not None and len(rest) == 1:
                if sym is not None:
                    r0 = rest[0] if not neg else 1 - rest[0]
                    e2[("φ", sym)] = ("c", r0)
                    self.learn(e2, sym, r0)
                oc = self.outcome(rest[0], variants, is_bool)
            else:
                if sym is not None:
                    e2[("φ", sym)] = ("not", frozenset(vals | set(excl)))
                oc = ("other", tuple(sorted(variants[d] for d in rest))) if rest is not None and variants else ("other", tuple(sorted(vals)))
            st2 = self.rule.branch(st, c, v, oc)
            if st2 != "infeasible":
                out.append(self.goto(fid, other, st if st2 is None else st2, e2))
        return out

    def learn(self, env, sym, val):
        """Consequences of a comparison's outcome for its operands."""
        if sym[0] == "bin":
            op, a, b = sym[1], sym[2], sym[3]
            if (op == "Eq" and val == 1) or (op == "Ne" and val == 0):
                for x, y in ((a, b), (b, a)):
                    if x[0] == "y" and y[0] == "c":
                        env[("φ", x[1])] = y
        elif sym[0] == "is":
            # ('is', variant discr, inner symbol, adt)
            if val == 1:
                env[("φ", ("discr", sym[2], sym[3]))] = ("c", sym[1])
            else:
                vs = self.prog.adts.get(sym[3])
                if vs and len(vs["variants"]) == 2:
                    o = [x["discr"] for x in vs["variants"] if x["discr"] != sym[1]]
                    env[("φ", ("discr", sym[2], sym[3]))] = ("c", o[0])

    def outcome(self, x, variants, is_bool):
        if is_bool:
            return ("bool", bool(x))
        if variants is not None and x in variants:
            return ("variant", variants[x])
        return ("int", x)

    # ---- calls ---------------------------------------------------------------------------------
    def do_call(self, c, st, env, fid, bi, t, depth):
        rule = self.rule
        site = (fid, bi, -1)
        args = tuple(self.operand(env, fid, o) for o in t[2])
        fv = self.operand(env, fid, t[1])
        c.args = args
        c.site = site
        c.fval = fv
        fn = fv[2] if fv[0] == "fn" else None
        c.fn = fn
        body = self.finfo[fid][0]
        c.dest_ty = body.locals[t[3][0]] if len(t[3]) == 1 else None
        if t[4] is None and not body.blocks[bi].get("cl"):
            rule.dies(c, "call", env)
        self.sites_seen.add((body.h, bi))
        # a tuple variant or struct used as a function
        cf, ca = fn, args
        if fn is not None and fn.trait and fn.name in ("call", "call_mut", "call_once") and len(args) == 2:
            a0 = self.load_through(env, args[0])
            if a0[0] == "fn" and a0[2].ctor:
                cf = a0[2]
                tp = self.load_through(env, args[1])
                ca = tuple(x for _, x in tp[3]) if tp[0] == "v" else (("y", ("carg", site, 0)),)
        if cf is not None and cf.ctor:
            out = []
            adt, vn = self.ctor_of(cf)
            if adt is not None and t[4] is not None:
                e2 = dict(env)
                self.store(e2, self.key_of(e2, fid, t[3]), ("v", adt, vn, tuple((str(i), a) for i, a in enumerate(ca))))
                return [self.goto(fid, t[4], st, e2)]
        # candidates
        c.bodies = self.candidates(fn, fv, args, env)
        out = []
        res = rule.call(st, c)
        if res is not None:
            if isinstance(res, Outcome):
                res = [res]
            for o in res:
                s2 = st if o.st is None else o.st
                if o.stop:
                    continue
                e2 = dict(env)
                if o.inline:
                    out.extend(self.default_call(c, s2, e2, fid, bi, t, depth, args, fn))
                    continue
                self.purge_symbol(e2, site)
                for k, v in o.writes:
                    self.store(e2, k, v)
                ret = o.ret if o.ret is not None else ("y", ("call", site, fn.path if fn else None))
                if t[4] is not None:
                    self.store(e2, self.key_of(e2, fid, t[3]), ret)
                    out.append(self.goto(fid, t[4], s2, e2))
                if rule.follow_unwind and rule.may_unwind(c, fn):
                    out.extend(self.unwinding(c, st if o.unwind is None else o.unwind, dict(env), fid, t[5]))
            return out
        return self.default_call(c, st, env, fid, bi, t, depth, args, fn)

    def ctor_of(self, f):
        import re as _re
        vn = last_seg(f.path)
        ad = _re.sub(r"::<.*>$", "", _re.sub(r"::<.*>$", "", f.path).rsplit("::", 1)[0])
        a = self.prog.adts.get(ad)
        if ad in (self.OPT, self.RES) or a is not None and any(v["name"] == vn for v in a["variants"]):
            return ad, vn
        full = _re.sub(r"::<.*>$", "", f.path)
        if full in self.prog.adts:
            return full, vn
        return None, None

    def candidates(self, fn, fv, args, env):
        prog = self.prog
        if fv[0] == "clo":
            b = prog.by_h.get(fv[1])
            return [b] if b else []
        if fn is None:
            return []
        if fn.trait and fn.name in ("call", "call_mut", "call_once") and args:
            a = self.load_through(env, args[0])
            if a[0] == "clo":
                b = prog.by_h.get(a[1])
                return [b] if b else []
            if a[0] == "fn":
                b = prog.by_h.get(a[2].rh or a[1]) or prog.by_h.get(a[1])
                return [b] if b else []
        if fn.rk == "item" and fn.rh in prog.by_h:
            b = prog.by_h[fn.rh]
            # a trait's default body: implementations may override it only if the call is unresolved
            return [b]
        if fn.name in ("into", "try_into"):
            return prog.targets(fn)
        if fn.rk in ("virtual", None) and fn.trait:
            out = list(prog.titem_impls.get(fn.h, ()))
            d = prog.by_h.get(fn.h)
            if d is not None:
                out.append(d)
            return out
        return []

    def default_call(self, c, st, env, fid, bi, t, depth, args, fn):
        rule = self.rule
        site = (fid, bi, -1)
        out = []
        lib = self.library(c, st, env, fid, bi, t, depth, args, fn)
        if lib is not None:
            return lib
        bodies = [b for b in c.bodies if depth < rule.inline_depth and self.in_chain(fid, b) == 0 and (b.h in rule.force or rule.may_inline(c, b))]
        if bodies and len(bodies) == len(c.bodies):
            for b in bodies:
                e2 = dict(env)
                f2 = self.frame(fid, bi, b, t[3], t[4], t[5])
                self.bind(e2, f2, b, args, fn, c.fval)
                out.append(self.goto(f2, 0, st, e2))
            return out
        # opaque
        e2 = dict(env)
        self.purge_symbol(e2, site)
        self.havoc(e2, args)
        self.opaque_effect(c, e2, args)
        ret = ("y", ("call", site, fn.path if fn else None))
        if t[4] is not None:
            self.store(e2, self.key_of(e2, fid, t[3]), ret)
            # closures handed to unknown code may run
            clos = [a for a in (self.load_through(env, a) for a in args) if a[0] == "clo"]
            st0 = rule.each_none(st, c) if clos and hasattr(rule, "each_none") else st
            if clos and hasattr(rule, "each_value"):
                w = rule.each_value(st0, fn.path if fn else None)
                if w is not None:
                    e2 = dict(e2)
                    self.store(e2, self.key_of(e2, fid, t[3]), w)
            out.append(self.goto(fid, t[4], st0, e2))
            for cl in clos:
                if hasattr(rule, "each"):
                    r = rule.each(st, c, cl)
                    if r is not None:
                        out.extend(self.run_each(c, r, env, fid, bi, t, depth, cl))
                        continue
                b = self.prog.by_h.get(cl[1])
                if b is None or depth >= rule.inline_depth or self.in_chain(fid, b) or not rule.may_inline(c, b):
                    continue
                e3 = dict(env)
                f2 = self.frame(fid, bi, b, t[3], t[4], t[5], "unknown")
                e3[(("l", f2, 1),)] = self.closure_self(e3, f2, b, cl)
                for i in range(1, b.argc):
                    e3[(("l", f2, i + 1),)] = ("y", ("carg", site, i))
                out.append(self.goto(f2, 0, st, e3))
        if rule.follow_unwind and rule.may_unwind(c, fn):
            out.extend(self.unwinding(c, st, dict(env), fid, t[5]))
        return out

    def run_each(self, c, r, env, fid, bi, t, depth, cl):
        st, note, params = r
        b = self.prog.by_h.get(cl[1])
        if b is None or depth >= self.rule.inline_depth or self.in_chain(fid, b) or not self.rule.may_inline(c, b):
            return []
        e3 = dict(env)
        if hasattr(self.rule, "each_again") and vdepth(cl) < 14:
            note = note + (cl, params)
        f2 = self.frame(fid, bi, b, t[3], t[4], t[5], note)
        e3[(("l", f2, 1),)] = self.closure_self(e3, f2, b, cl)
        for i in range(1, b.argc):
            e3[(("l", f2, i + 1),)] = params[i - 1] if i - 1 < len(params) else ("y", ("carg", c.site, i))
        return [self.goto(f2, 0, st, e3)]

    def opaque_effect(self, c, env, args):
        pass

    def havoc(self, env, args):
        """An opaque callee may write through &mut arguments: forget what we knew about cells they reach."""
        for a in args:
            if a[0] == "r":
                # we do not know mutability here; only forget non-symbolic knowledge of plain cells passed by &mut
                pass

    def closure_self(self, env, f2, b, clo):
        ty = b.locals[1] if len(b.locals) > 1 else ""
        if ty.startswith("&"):
            key = (("l", f2, -1),)
            env[key] = clo
            return ("r", key)
        return clo

    def bind(self, env, f2, b, args, fn, fval):
        if b.kind == "Closure":
            if fval is not None and fval[0] == "clo":
                clo, rest = fval, args
            else:
                clo, rest = args[0], args[1:]
                # rust-call ABI: arguments come as one tuple
                if len(rest) == 1 and rest[0][0] == "v" and rest[0][1] == "tuple":
                    rest = tuple(x for _, x in rest[0][3])
                elif len(rest) == 1 and b.argc - 1 != 1:
                    r = rest[0]
                    rest = tuple(self.project(env, r, (("f", str(i)),)) for i in range(b.argc - 1))
                elif len(rest) == 1 and fn is not None and fn.trait and fn.name in ("call", "call_mut", "call_once"):
                    rest = (self.project(env, rest[0], (("f", "0"),)),)
            cl = self.load_through(env, clo)
            want_ref = b.locals[1].startswith("&") if len(b.locals) > 1 else False
            if want_ref:
                if clo[0] != "r":
                    clo = self.closure_self(env, f2, b, cl)
            else:
                clo = cl
            env[(("l", f2, 1),)] = clo
            for i, a in enumerate(rest):
                if i + 2 <= b.argc:
                    env[(("l", f2, i + 2),)] = a
            return
        if fn is not None and fn.trait and fn.name in ("call", "call_mut", "call_once") and len(args) == 2:
            r = args[1]
            if r[0] == "v" and r[1] == "tuple":
                args = tuple(x for _, x in r[3])
            else:
                args = tuple(self.project(env, r, (("f", str(i)),)) for i in range(b.argc))
        for i, a in enumerate(args):
            if i + 1 <= b.argc:
                env[(("l", f2, i + 1),)] = a

    # ---- library models ------------------------------------------------------------------------
    def ret1(self, c, st, env, fid, t, v):
        if t[4] is None:
            return []
        self.purge_symbol(env, c.site) if v == ("y", ("call", c.site, c.path())) else None
        self.store(env, self.key_of(env, fid, t[3]), v)
        return [self.goto(fid, t[4], st, env)]

    OPT = "core::option::Option"
    RES = "core::result::Result"

    def variants_of(self, env, v, adt):
        """[(variant name, payload value, env)] for an Option/Result value."""
        v = self.load_through(env, v) if v[0] in ("r",) else (v[1] if v[0] == "kr" else v)
        if v[0] == "v" and v[1] == adt:
            pl = v[3][0][1] if v[3] else None
            return [(v[2], pl, env)]
        names = ("None", "Some") if adt == self.OPT else ("Ok", "Err")
        out = []
        sym = v[1] if v[0] == "y" else ("val", v)
        if v[0] != "y":
            sym = ("val", v) if vdepth(v) < 10 else ("deep",)
        dk = ("φ", ("discr", sym, adt))
        ph = env.get(dk)
        for i, n in enumerate(names):
            if ph is not None and ((ph[0] == "c" and ph[1] != i) or (ph[0] == "not" and i in ph[1])):
                continue
            e = dict(env)
            e[dk] = ("c", i)
            pl = None if n == "None" else ("y", ("fld", ("fld", sym, n), "0"))
            out.append((n, pl, e))
        return out

    def apply(self, c, st, e, fid, bi, t, depth, f, fa, note, path):
        """A closure or function value is called with the arguments `fa`; its result, as `note` says, is the call's."""
        rule = self.rule
        if f[0] == "clo":
            b = self.prog.by_h.get(f[1])
        else:
            b = self.prog.by_h.get(f[2].rh or f[1]) or self.prog.by_h.get(f[1])
        if b is None and f[0] == "fn" and f[2].ctor:
            import re as _re
            vn = last_seg(f[2].path)
            ad = _re.sub(r"::<.*>$", "", f[2].path.rsplit("::", 1)[0])
            vv = ("v", ad, vn, tuple((str(i), a) for i, a in enumerate(fa)))
            return self.ret1(c, st, e, fid, t, self.wrap_note(e, note, vv, fid, bi))
        if b is None or depth >= rule.inline_depth or self.in_chain(fid, b) or not rule.may_inline(c, b):
            v = ("y", ("call", c.site, path))
            if isinstance(note, tuple) and note[0] == "filter":
                return [x for w, e2 in self.filtered(e, note, v) for x in self.ret1(c, st, e2, fid, t, w)]
            return self.ret1(c, st, e, fid, t, self.wrap_note(e, note, v, fid, bi))
        f2 = self.frame(fid, bi, b, t[3], t[4], t[5], note)
        if f[0] == "clo":
            e[(("l", f2, 1),)] = self.closure_self(e, f2, b, f)
            off, na = 2, b.argc - 1
        else:
            off, na = 1, b.argc
        for i in range(na):
            e[(("l", f2, off + i),)] = fa[i] if i < len(fa) else ("y", ("carg", c.site, i))
        return [self.goto(f2, 0, st, e)]

    def filtered(self, env, note, v):
        """What Option::filter makes of a value, per result of its test"""
        none = ("v", self.OPT, "None", ())
        if v[0] == "c":
            return [(note[1] if v[1] else none, env)]
        e1, e0 = dict(env), dict(env)
        if v[0] == "y":
            known = env.get(("φ", v[1]))
            if known is not None and known[0] == "c":
                return [(note[1] if known[1] else none, env)]
            e1[("φ", v[1])], e0[("φ", v[1])] = ("c", 1), ("c", 0)
        return [(note[1], e1), (none, e0)]

    def library(self, c, st, env, fid, bi, t, depth, args, fn):
        """Semantics of the standard-library calls the rules need to see through. None: not modelled."""
        if fn is None or (fn.krate in ("kompact", "kompact_net", "kf_witness") and c.bodies):
            return None
        name = fn.name
        rule = self.rule
        path = fn.path
        if fn.krate not in ("core", "alloc", "std", "arc_swap", "futures_util", "futures_core", "kompact"):
            return None
        if name in IDENTITY and len(args) >= 1 and fn.krate in IDENTITY_KRATES and not c.bodies:
            hd = ty_head(fn.self_ty) if fn.self_ty else ""
            if name == "iter" or name == "into_iter" or name == "iter_mut":
                return None
            v = args[0]
            if name in ("clone", "cloned", "copied", "to_owned"):
                v2 = self.load_through(env, v)
                # a clone of an Arc/Weak/copyable is the same object; of other data an equal value
                return self.ret1(c, st, env, fid, t, v2)
            if hd == "Option" and name in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
                v2 = self.load_through(env, v)
                if v2[0] == "v" and v2[1] == self.OPT:
                    if v2[2] == "Some":
                        key = v[1] if v[0] == "r" else None
                        pl = ("r", key + (("d", "Some"), ("f", "0"))) if key else v2[3][0][1]
                        return self.ret1(c, st, env, fid, t, ("v", self.OPT, "Some", (("0", pl),)))
                    return self.ret1(c, st, env, fid, t, v2)
                return self.ret1(c, st, env, fid, t, v2)
            if name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow"):
                if v[0] == "r":
                    w = self.load(env, v[1])
                    if w[0] in ("y", "r"):
                        return self.ret1(c, st, env, fid, t, w)
                return self.ret1(c, st, env, fid, t, v)
            return self.ret1(c, st, env, fid, t, v)
        hd = ty_head(fn.self_ty) if fn.self_ty else ""
        if fn.krate in ("alloc", "core", "std") and name == "new" and hd in ("Box", "Arc", "Rc", "Some", "Cell", "RefCell", "Mutex", "UnsafeCell", "ManuallyDrop", "Wrapping") and len(args) == 1:
            return self.ret1(c, st, env, fid, t, args[0])
        if fn.trait and name == "from_residual" and args and args[0][0] == "v":
            return self.ret1(c, st, env, fid, t, args[0])
        if fn.krate == "core" and name == "then_some" and len(args) == 2:
            some = ("v", self.OPT, "Some", (("0", args[1]),))
            none = ("v", self.OPT, "None", ())
            if args[0][0] == "c":
                return self.ret1(c, st, env, fid, t, some if args[0][1] else none)
            return self.ret1(c, st, env, fid, t, none) + self.ret1(c, st, dict(env), fid, t, some)
        if args and hd not in ("Option", "Result"):
            if args[0][0] == "v" and args[0][1] in (self.OPT, self.RES) and (fn.krate in ("core", "std") or fn.trait and "try_trait" in fn.trait):
                hd = "Option" if args[0][1] == self.OPT else "Result"
            elif hd.endswith("Result") and fn.krate in ("core", "std"):
                hd = "Result"
        if fn.trait and fn.trait.endswith("try_trait::Try") and name == "branch":
            adt = self.OPT if hd == "Option" else self.RES if hd == "Result" else None
            if adt:
                out = []
                CF = "core::ops::control_flow::ControlFlow"
                for n, pl, e in self.variants_of(env, args[0], adt):
                    if n in ("Some", "Ok"):
                        v = ("v", CF, "Continue", (("0", pl),))
                    else:
                        inner = ("v", adt, n, (("0", pl),)) if pl is not None else ("v", adt, n, ())
                        v = ("v", CF, "Break", (("0", inner),))
                    out += self.ret1(c, st, e, fid, t, v)
                return out
        if hd in ("Option", "Result") and args:
            adt = self.OPT if hd == "Option" else self.RES
            some, none = ("Some", "None") if hd == "Option" else ("Ok", "Err")
            if name in ("is_some", "is_none", "is_ok", "is_err"):
                want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[name]
                out = []
                for n, pl, e in self.variants_of(env, args[0], adt):
                    out += self.ret1(c, st, e, fid, t, ("c", int(n == want)))
                return out
            if name in ("unwrap", "expect", "unwrap_unchecked"):
                out = []
                for n, pl, e in self.variants_of(env, args[0], adt):
                    if n == some:
                        out += self.ret1(c, st, e, fid, t, pl)
                    else:
                        if name != "unwrap_unchecked":
                            rule.dies(c, name, e)
                        if rule.follow_unwind:
                            out.extend(self.unwinding(c, st, e, fid, t[5]))
                return out
            if name in ("unwrap_err", "expect_err"):
                out = []
                for n, pl, e in self.variants_of(env, args[0], adt):
                    if n == "Err":
                        out += self.ret1(c, st, e, fid, t, pl)
                return out
            if name in ("ok", "err") and hd == "Result":
                out = []
                for n, pl, e in self.variants_of(env, args[0], adt):
                    if (n == "Ok") == (name == "ok"):
                        out += self.ret1(c, st, e, fid, t, ("v", self.OPT, "Some", (("0", pl),)))
                    else:
                        out += self.ret1(c, st, e, fid, t, ("v", self.OPT, "None", ()))
                return out
            if name in ("ok_or",) and hd == "Option":
                out = []
                for n, pl, e in self.variants_of(env, args[0], adt):
                    if n == "Some":
                        out += self.ret1(c, st, e, fid, t, ("v", self.RES, "Ok", (("0", pl),)))
                    else:
                        out += self.ret1(c, st, e, fid, t, ("v", self.RES, "Err", (("0", args[1]),)))
                return out
            if name == "take" and hd == "Option" and args[0][0] in ("r", "y"):
                key = args[0][1] if args[0][0] == "r" else (("h", args[0][1]),)
                cur = self.load(env, key)
                e = dict(env)
                if args[0][0] == "r" or True:
                    if cur[0] == "y" and cur[1] == ("ld", self.sym_of_key(key)):
                        pass
                    self.store(e, key, ("v", self.OPT, "None", ()))
                return self.ret1(c, st, e, fid, t, cur)
            if name in ("replace", "insert") and hd == "Option" and len(args) == 2 and args[0][0] in ("r", "y"):
                key = args[0][1] if args[0][0] == "r" else (("h", args[0][1]),)
                cur = self.load(env, key)
                e = dict(env)
                self.rule_write(c, key, args[1])
                self.store(e, key, ("v", self.OPT, "Some", (("0", args[1]),)))
                if name == "replace":
                    return self.ret1(c, st, e, fid, t, cur)
                return self.ret1(c, st, e, fid, t, ("r", key + (("d", "Some"), ("f", "0"))))
            if name in ("unwrap_or", "unwrap_or_default"):
                out = []
                for n, pl, e in self.variants_of(env, args[0], adt):
                    if n == some:
                        out += self.ret1(c, st, e, fid, t, pl)
                    else:
                        out += self.ret1(c, st, e, fid, t, args[1] if len(args) > 1 else ("y", ("default", c.site)))
                return out
            hof = {
                ("Option", "map"): ("Some", "opt", "None"), ("Option", "and_then"): ("Some", None, "None"),
                ("Result", "map"): ("Ok", "ok", "Err"), ("Result", "and_then"): ("Ok", None, "Err"),
                ("Result", "map_err"): ("Err", "err", "Ok"), ("Result", "or_else"): ("Err", None, "Ok"),
                ("Option", "unwrap_or_else"): ("None", None, "Some!"), ("Result", "unwrap_or_else"): ("Err", None, "Ok!"),
                ("Option", "or_else"): ("None", None, "Some"), ("Option", "ok_or_else"): ("None", "err", "Some>Ok"),
            }.get((hd, name))
            if hof is not None and len(args) == 2:
                f = self.load_through(env, args[1])
                runv, note, keep = hof
                if f[0] in ("clo", "fn"):
                    out = []
                    for n, pl, e in self.variants_of(env, args[0], adt):
                        if n == runv:
                            out += self.apply(c, st, e, fid, bi, t, depth, f, (pl,) if pl is not None else (), note, path)
                        else:
                            if keep.endswith("!"):
                                v = pl
                            elif keep == "Some>Ok":
                                v = ("v", self.RES, "Ok", (("0", pl),))
                            elif pl is None:
                                v = ("v", adt, n, ())
                            else:
                                v = ("v", adt, n, (("0", pl),))
                            out += self.ret1(c, st, e, fid, t, v)
                    return out
            tests = {"is_some_and": ("Some", 0), "is_none_or": ("Some", 1), "is_ok_and": ("Ok", 0), "is_err_and": ("Err", 0)}.get(name)
            if tests and len(args) == 2 or name in ("map_or", "map_or_else") and len(args) == 3:
                f = self.load_through(env, args[-1])
                g = self.load_through(env, args[1]) if name == "map_or_else" else None
                if f[0] in ("clo", "fn") and (g is None or g[0] in ("clo", "fn")):
                    out = []
                    for n, pl, e in self.variants_of(env, args[0], adt):
                        if n == (tests[0] if tests else some):
                            out += self.apply(c, st, e, fid, bi, t, depth, f, (pl,), None, path)
                        elif g is not None:
                            out += self.apply(c, st, e, fid, bi, t, depth, g, (pl,) if pl is not None else (), None, path)
                        else:
                            out += self.ret1(c, st, e, fid, t, ("c", tests[1]) if tests else args[1])
                    return out
            if name in ("inspect", "inspect_err", "filter") and len(args) == 2 and args[0][0] in ("v", "y"):
                f = self.load_through(env, args[1])
                if f[0] in ("clo", "fn"):
                    out = []
                    for n, pl, e in self.variants_of(env, args[0], adt):
                        v = ("v", adt, n, (("0", pl),)) if pl is not None else ("v", adt, n, ())
                        if n == ("Err" if name == "inspect_err" else some):
                            out += self.apply(c, st, e, fid, bi, t, depth, f, (("kr", pl),), ("filter" if name == "filter" else "keep", v), path)
                        else:
                            out += self.ret1(c, st, e, fid, t, v)
                    return out
            return None
        if fn.trait and name == "from_residual" and args:
            return self.ret1(c, st, env, fid, t, args[0])
        if fn.trait and name in ("from", "into") and len(args) == 1 and not c.bodies:
            return self.ret1(c, st, env, fid, t, ("y", ("conv", args[0][1] if args[0][0] == "y" and vdepth(args[0]) < 9 else ("val", args[0]) if vdepth(args[0]) < 8 else ("deep",))))
        if name in ("replace", "take", "swap") and path.startswith(("core::mem::", "std::mem::")):
            def kk(a):
                return a[1] if a[0] == "r" else (("h", a[1]),) if a[0] == "y" else None
            k0 = kk(args[0])
            if k0 is not None:
                old = self.load(env, k0)
                e = dict(env)
                if name == "replace":
                    self.rule_write(c, k0, args[1])
                    self.store(e, k0, args[1])
                    return self.ret1(c, st, e, fid, t, old)
                if name == "take":
                    self.store(e, k0, ("y", ("default", c.site)))
                    return self.ret1(c, st, e, fid, t, old)
                k1 = kk(args[1])
                if k1 is not None:
                    o1 = self.load(env, k1)
                    self.store(e, k0, o1)
                    self.store(e, k1, old)
                    return self.ret1(c, st, e, fid, t, UNIT)
        if name == "drop" and path.startswith(("core::mem::", "std::mem::")) and args:
            tyv = fn.args[0] if fn.args else ""
            r = rule.drop(st, c, tyv, args[0])
            s2 = st if r is None else r
            db = self.drop_body(tyv, args[0])
            if db is not None and depth < rule.inline_depth and not self.in_chain(fid, db) and rule.may_inline(c, db):
                f2 = self.frame(fid, bi, db, t[3], t[4], t[5])
                key = (("l", f2, -2),)
                env[key] = args[0]
                env[(("l", f2, 1),)] = ("r", key)
                return [self.goto(f2, 0, s2, env)]
            return self.ret1(c, s2, env, fid, t, UNIT)
        if fn.trait and fn.trait.endswith("cmp::PartialEq") and name in ("eq", "ne") and len(args) == 2 and not c.bodies:
            a = self.unref(env, args[0])
            b = self.unref(env, args[1])
            for x, y in ((a, b), (b, a)):
                # comparing with a variant of an enumeration without fields asks which variant it is
                if x[0] == "y" and y[0] == "v" and y[2] and not y[3]:
                    vs = self.prog.adts.get(y[1])
                    if vs and all(not v["fields"] for v in vs["variants"]):
                        i = next((v["discr"] for v in vs["variants"] if v["name"] == y[2]), None)
                        if i is not None:
                            q = ("is", i, x[1], y[1])
                            return self.ret1(c, st, env, fid, t, ("y", q if name == "eq" else ("not", q)))
            if a[0] in ("c", "s") and b[0] == a[0]:
                return self.ret1(c, st, env, fid, t, ("c", int((a[1] == b[1]) == (name == "eq"))))
            if a[0] == "v" and b[0] == "v" and a[1] == b[1] and (a[2] != b[2] or (not a[3] and not b[3])):
                return self.ret1(c, st, env, fid, t, ("c", int((a[2] == b[2]) == (name == "eq"))))
            sa = a if vdepth(a) < 9 else ("deep",)
            sb = b if vdepth(b) < 9 else ("deep",)
            return self.ret1(c, st, env, fid, t, ("y", ("bin", "Eq" if name == "eq" else "Ne", sa, sb, c.site)))
        if path.startswith("std::panic::catch_unwind") or name == "catch_unwind":
            f = self.load_through(env, args[0])
            if f[0] == "v" and f[3]:
                f = f[3][0][1]
            if f[0] == "clo":
                b = self.prog.by_h.get(f[1])
                if b is not None:
                    f2 = self.frame(fid, bi, b, t[3], t[4], t[5], "catch")
                    env[(("l", f2, 1),)] = self.closure_self(env, f2, b, f)
                    return [self.goto(f2, 0, st, env)]
        return None

    def unref(self, env, v):
        n = 0
        while n < 6:
            if v[0] == "r":
                v = self.load(env, v[1])
            elif v[0] == "kr":
                v = v[1]
            else:
                break
            n += 1
        return v

    def rule_write(self, c, key, val):
        pass


def body_unreach(body, bi):
    b = body.blocks[bi]
    return b["t"][0] == "unreach" and not any(s[0] == "=" for s in b["s"])


def simulate(prog, rule, body, **kw):
    s = Sim(prog, rule, kw.pop("max_states", 400000))
    s.run(body, **kw)
    return s
