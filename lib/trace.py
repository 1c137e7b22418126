"""Path traces: for every path of a function, the ordered list of events it performs, loops folded per iteration.

A check names events (calls, writes, drops) by what they do and to what, and states a predicate over the trace of a
path. Loops over collections are recorded as ('[', X, n) ... iteration ... and folded when the next round starts: an
iteration is judged by `on_iter`, and leaves ('iters', X).
"""
from sim import *
from facts import last_seg

ITER_SRC = {"iter", "iter_mut", "values", "values_mut", "keys", "into_iter", "drain", "into_values", "into_keys", "chunks", "windows", "split", "lines", "drain_filter", "extract_if", "try_iter", "chars", "bytes"}
ITER_PASS = {"rev", "enumerate", "skip", "take", "peekable", "by_ref", "cloned", "copied", "inspect", "fuse", "chain", "zip", "step_by", "skip_while", "take_while", "map", "filter", "filter_map", "flat_map", "flatten"}
ITER_PART = {"skip", "take", "step_by", "skip_while", "take_while", "filter", "filter_map", "zip"}
ITER_EACH = {"for_each", "try_for_each", "any", "all", "find", "find_map", "position", "fold", "try_fold", "map", "filter", "filter_map", "flat_map", "partition", "max_by_key", "min_by_key", "retain", "retain_mut", "extend", "count", "inspect", "take_while", "skip_while", "reduce", "min_by", "max_by", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"}

EACH_ALL = {"for_each", "fold", "retain", "retain_mut", "partition", "for_each_with", "for_each_try_with"}


class E:
    """An event: name and arguments; ret/inline/writes say how the call continues; alts: other outcomes [E,...]."""
    def __init__(self, name=None, *args, ret=None, inline=False, stop=False, writes=(), alts=None, facts=()):
        self.item = (name,) + args if name is not None else None
        self.ret, self.inline, self.stop, self.writes, self.alts, self.facts = ret, inline, stop, writes, alts, facts


def flat(v, depth=0):
    """Readable origin of a value: 'arg0.children', 'remove().Some.0', 'Kill', 3"""
    if not isinstance(v, tuple) or not v or depth > 24:
        return str(v)[:30]
    k = v[0]
    if k == "c":
        return str(v[1])
    if k == "s":
        return repr(v[1])[:40]
    if k == "v":
        return "%s%s" % (v[2] or last_seg(str(v[1])), "(%s)" % ",".join(flat(x, depth + 1) for _, x in v[3]) if v[3] else "")
    if k == "r":
        return flatkey(v[1], depth + 1)
    if k == "kr":
        return flat(v[1], depth + 1)
    if k == "y":
        return flats(v[1], depth + 1)
    if k == "fn":
        return "fn " + last_seg(v[2].path) if len(v) > 2 and hasattr(v[2], "path") else "fn"
    if k == "clo":
        return "closure"
    return flats(v, depth + 1)


def resolve(sim, env, v, depth=0):
    """The value with references into local variables replaced by what they hold."""
    if depth > 8 or not isinstance(v, tuple):
        return v
    if v[0] in ("r", "kr"):
        w = sim.ident(env, v)
        return resolve(sim, env, w, depth + 1) if w != v and w[0] in ("v", "r") else w
    if v[0] == "v" and v[3]:
        return (v[0], v[1], v[2], tuple((n, resolve(sim, env, x, depth + 1)) for n, x in v[3]))
    return v


def deep(sim, env, v):
    return flat(resolve(sim, env, v))


def flatkey(key, depth=0):
    r = key[0]
    s = flats(r[1], depth + 1) if r[0] == "h" else flat(r[1], depth + 1) if r[0] == "k" else "local%s" % (r[2],)
    for e in key[1:]:
        s += "." + str(e[1] if len(e) > 1 and not isinstance(e[1], tuple) else e[0])
    return s


def flats(s, depth=0):
    if not isinstance(s, tuple) or not s or depth > 24:
        return str(s)[:30]
    k = s[0]
    if k == "arg":
        return "arg%d" % s[1]
    if k == "fld":
        return flats(s[1], depth + 1) + "." + str(s[2])
    if k == "ld":
        return flats(s[1], depth + 1)
    if k == "call":
        return last_seg(str(s[2] if len(s) > 2 else "")) + "()"
    if k == "iter":
        return "each(" + flats(s[1], depth + 1) + ")"
    if k == "elem":
        return "elem(" + flats(s[1], depth + 1) + ")"
    if k in ("c", "v", "y", "r", "kr", "clo", "fn", "s"):
        return flat(s, depth + 1)
    if k == "bin":
        return "(%s %s %s)" % (flat(s[2], depth + 1), s[1], flat(s[3], depth + 1))
    if k == "val":
        return flat(s[1], depth + 1)
    if k in ("discr", "not", "len", "conv"):
        return "%s(%s)" % (k, flats(s[1], depth + 1))
    return str(k) + "".join(":" + flats(x, depth + 1) if isinstance(x, tuple) else ":" + str(x) for x in s[1:3])


def objval(sim, env, v):
    """The object a value denotes, as a value (what a clone of it is taken to be)."""
    w = sim.unref(env, v)
    w = sim.ident(env, w) if w[0] in ("r", "kr", "y") else w
    return w if w[0] in ("c", "v", "r", "kr", "y", "clo", "fn", "s") else ("y", w)


def touches(v, name, depth=0):
    """The value is reached through a field called `name`."""
    if not isinstance(v, tuple) or depth > 20:
        return False
    if len(v) >= 2 and v[0] == "f" and v[1] == name:
        return True
    if len(v) >= 3 and v[0] == "fld" and v[2] == name:
        return True
    return any(touches(x, name, depth + 1) for x in v if isinstance(x, tuple))


class Trace(Rule):
    inline_depth = 10
    init = ()
    cap = 2

    def __init__(self, p, ev, check=None, inline=None, on_iter=None, on_drop=None, on_write=None, keep=None, cap=2, unwind=False, prune=None):
        self.prog, self.ev, self.check, self.inl = p, ev, check, inline
        self.on_iter, self.on_drop, self.on_write, self.keep = on_iter, on_drop, on_write, keep
        self.cap = cap
        self.follow_unwind = unwind
        self.paths = set()
        self.events = {}
        self.prune = prune

    def may_inline(self, c, b):
        return True if self.inl is None else self.inl(c, b)

    def keep_phi(self, sym):
        return bool(self.keep and self.keep(sym))

    def add(self, st, item):
        if item is None:
            return st
        self.events[item[0]] = self.events.get(item[0], 0) + 1
        if st.count(item) >= self.cap:
            return st
        return st + (item,)

    # loops
    def close(self, st, X):
        i = None
        for j in range(len(st) - 1, -1, -1):
            if st[j][0] == "[" and st[j][1] == X:
                i = j
                break
        if i is None:
            return st
        it = st[i + 1:]
        summ = None
        if self.on_iter:
            summ = self.on_iter(X, st[i], it, self)
        done = ("iters", X, summ)
        st = st[:i]
        return st if done in st else st + (done,)

    def each_end(self, st, note, v, env):
        X = note[1]
        self.env = env
        if v[0] == "y":
            ph = env.get(("φ", v[1]))
            if ph is not None and ph[0] == "c":
                v = ph
        if note[2] in ("retain", "partition"):
            st = self.add(st, ("yes" if v == ("c", 1) else "no" if v == ("c", 0) else "maybe", note[2]))
        return self.close(st, X)

    def each_fin(self, st, note):
        return self.done(st, note[1], last_seg(note[3]))

    def each_again(self, st, note, env):
        self.env = env
        st = self.open(st, note[1], last_seg(note[3]))
        self.fresh(env, note[1])
        return st

    def done(self, st, X, name):
        """A closure-driven loop that goes to the end of its collection."""
        if name not in EACH_ALL or X[2] == "part" or ("end", X) in st:
            return st
        return st + (("end", X),)

    def each_none(self, st, c):
        f = c.fn
        if f is None or f.name not in EACH_ALL:
            return st
        self.env = c.env
        return self.done(st, self.each_sym(c), f.name)

    def each_sym(self, c):
        it = self.iter_sym(c, c.args[0])
        if it is None:
            idv = self.sim.ident(c.env, c.args[0])
            it = ("iter", idv if vdepth(idv) < 12 else ("deep", c.site), c.fn.name)
        return it

    def open(self, st, X, how, env=None):
        st = self.close(st, X)
        return st + (("[", X, how),)

    def iter_sym(self, c, v):
        w = self.sim.load_through(c.env, v)
        if w[0] == "y" and w[1][0] == "iter":
            return w[1]
        if w[0] == "y" and w[1][0] == "fld" and isinstance(w[1][1], tuple) and w[1][1][0] == "iter":
            return w[1][1]
        return None

    def fresh(self, env, X):
        for k in [k for k in env if k[0] == "φ" and has_site(k[1], ("elem", X)) or isinstance(k[0], tuple) and k[0][0] == "h" and has_site(k[0][1], ("elem", X))]:
            del env[k]

    def call(self, st, c):
        self.env, self.now = c.env, st
        e = self.ev(c)
        if e is not None:
            if isinstance(e, tuple):
                e = E(*e)
            outs = []
            for a in [e] + list(e.alts or ()):
                s2 = self.add(st, a.item)
                outs.append(Outcome(ret=a.ret, st=s2, inline=a.inline, stop=a.stop, writes=a.writes))
            return outs
        f = c.fn
        if f is None or f.krate in ("kompact", "kompact_net"):
            return None
        n = f.name
        small = self.small_array(st, c, n)
        if small is not None:
            return small
        if n in ITER_SRC and c.args:
            it = self.iter_sym(c, c.args[0])
            if it is None:
                idv = self.sim.ident(c.env, c.args[0])
                if len(c.args) == 1 or n in ("drain", "chunks", "split", "extract_if", "windows"):
                    return Outcome(ret=("y", ("iter", idv if vdepth(idv) < 12 else ("deep", c.site), n)), st=st)
            else:
                return Outcome(ret=("y", it), st=st)
        it = self.iter_sym(c, c.args[0]) if c.args else None
        each = n in ITER_EACH and len(c.args) >= 2
        if n == "next" and it is not None or (n == "next" and f.trait and f.trait.endswith("iterator::Iterator")):
            X = it if it is not None else ("iter", self.sim.ident(c.env, c.args[0]), "?")
            el = ("y", ("elem", X))
            fin = self.close(st, X)
            op = fin + (("[", X, "next"),)
            fin = fin if ("end", X) in fin else fin + (("end", X),)
            self.fresh(c.env, X)
            return [Outcome(ret=("v", Sim.OPT, "None", ()), st=fin), Outcome(ret=("v", Sim.OPT, "Some", (("0", el),)), st=op)]
        if n in ITER_PASS and it is not None and not (each and self.closure(c)):
            if n in ITER_PART:
                it = (it[0], it[1], "part")
            return Outcome(ret=("y", it), st=st)
        return None

    def small_array(self, st, c, n):
        """A loop over an array that is written out is a sequence of its rounds."""
        if not c.args or n not in ("into_iter", "iter", "iter_mut", "next"):
            return None
        w = self.sim.load_through(c.env, c.args[0])
        if w[0] != "v" or w[1] not in ("array", "array-iter"):
            return None
        if n == "next":
            if w[1] != "array-iter" or c.args[0][0] != "r":
                return None
            i, els = w[3][0][1][1], w[3][1:]
            if i >= len(els):
                return Outcome(ret=("v", Sim.OPT, "None", ()), st=st)
            return Outcome(ret=("v", Sim.OPT, "Some", (("0", els[i][1]),)), st=st, writes=((c.args[0][1], ("v", "array-iter", None, (("at", ("c", i + 1)),) + els)),))
        if w[1] == "array-iter":
            return Outcome(ret=w, st=st)
        els = [x for _, x in w[3]]
        if len(els) > 4:
            return None
        if n != "into_iter" or c.args[0][0] in ("r", "kr"):
            els = [("kr", x) for x in els]
        return Outcome(ret=("v", "array-iter", None, (("at", ("c", 0)),) + tuple(("e%d" % i, x) for i, x in enumerate(els))), st=st)

    def each(self, st, c, cl):
        """A closure handed to an iterator adapter or collection method: one round of a loop."""
        f = c.fn
        if f is None or f.name not in ITER_EACH:
            return None
        it = self.each_sym(c)
        el = ("y", ("elem", it))
        if f.name in ("fold", "try_fold"):
            ps = (("y", ("carg", c.site, 0)), el)
        elif f.name in ("for_each_with", "for_each_try_with"):
            ps = (el, self.sim.load_through(c.env, c.args[1]))
        else:
            ps = (el, el)
        self.env = c.env
        st = self.open(st, it, f.name)
        self.fresh(c.env, it)
        return st, ("each", it, "retain" if f.name in ("retain", "retain_mut") else "partition" if f.name == "partition" else "it", f.path), ps

    def closure(self, c):
        for a in c.args[1:]:
            v = self.sim.load_through(c.env, a)
            if v[0] == "clo":
                return v
        return None

    def drop(self, st, c, ty, val):
        if self.on_drop:
            e = self.on_drop(c, ty, val)
            if e is not None:
                return self.add(st, e)
        return None

    def write(self, st, c, key, val):
        if self.on_write:
            e = self.on_write(c, key, val)
            if e is not None:
                return self.add(st, e)
        return None

    def facts(self, c):
        return {k[1]: v for k, v in c.env.items() if k[0] == "φ"}

    def finish(self, st):
        opens = [x for x in st if x[0] == "["]
        for o in reversed(opens):
            st = self.close(st, o[1])
        return st

    def ret(self, st, c, val):
        self.env = c.env
        st = self.finish(st)
        v = val
        self.paths.add((st, v if vdepth(v) < 14 else ("deep",)))
        if self.check:
            for k, m in self.check(st, val, self.facts(c), c) or ():
                self.sim.violate(k, m)

    def bad(self, k, m):
        self.sim.violate(k, m)

    def unwind_exit(self, st, c):
        st = self.finish(st)
        self.paths.add((st + (("unwind",),), None))


def whole(st, pred):
    """The loop over the collection `pred` accepts went to the collection's end, leaving out no element."""
    return any(x[0] == "end" and x[1][2] != "part" and pred(x[1]) for x in st) or any(x[0] == "iters" and x[1][2] in ITER_EACH - ITER_PART and pred(x[1]) for x in st)


def names(st):
    return [x[0] for x in st]


def has(st, n):
    return any(x[0] == n for x in st)


def count(st, n):
    return sum(1 for x in st if x[0] == n)


def before(st, a, b):
    """Every b is preceded by an a."""
    seen = False
    for x in st:
        if x[0] == a:
            seen = True
        if x[0] == b and not seen:
            return False
    return True


def run_trace(ctx, p, rulename, b, r, args=None, max_states=60000, anchor=True, root=None):
    """Simulates body b under trace rule r and turns what its check reports into obligations."""
    from kit import ToolError, bkey, where
    s = Sim(p, r, max_states)
    try:
        s.run(b, args=args)
    except Budget as e:
        raise ToolError(str(e))
    ctx.simulated(s)
    ctx.count("paths", len(r.paths))
    k = bkey(root or b)
    if not r.paths and anchor:
        ctx.ob(rulename, False, k + ":no-path", "no path through the function could be followed", where(b))
    elif not s.violations:
        ctx.ob(rulename, True, k, "", where(b))
    for v in s.violations:
        ctx.ob(rulename, False, "%s:%s" % (k, v["key"]), v["msg"], where(b), v["trace"])
    import sys
    if "-v" in sys.argv:
        print("==", rulename, b.id)
        for st, val in sorted(r.paths, key=repr)[:int(__import__("os").environ.get("TRN","60"))]:
            print("   ", [tuple(flats(y) if isinstance(y, tuple) and y and y[0] == "iter" else y for y in x) for x in st], "->", flat(val)[:160] if val else val)
    return s


def async_body(p, b):
    """The coroutine a function that returns a future evaluates: (closure body, captured values) or None."""
    class Cap(Rule):
        def __init__(self):
            self.out = {}

        def call(self, st, c):
            for a in c.args:
                self.see(a, c.env)
            return None

        def see(self, a, env):
            a = self.sim.load_through(env, a)
            if a[0] == "clo" and a[1] in self.sim.prog.by_h:
                self.out[a[1]] = tuple((n, self.sim.load_through(env, x)) for n, x in a[2])

        def ret(self, st, c, val):
            self.see(val, c.env)

        def may_inline(self, c, b):
            return False
    r = Cap()
    Sim(p, r, 20000).run(b)
    for h, caps in r.out.items():
        f = p.by_h[h]
        if f.locals and ("async" in f.locals[1] or "Coroutine" in f.locals[1] or "Pin<" in f.locals[1]):
            return f, caps
    return None


class AsyncTrace(Trace):
    """Trace of a coroutine body, every await taken to complete. Awaiting is an event ('await', what)."""

    def __init__(self, p, ev, caps, *a, **k):
        Trace.__init__(self, p, ev, *a, **k)
        self.caps = caps

    def branch(self, st, c, val, outcome):
        if c.frame == 0 and val[0] == "y" and val[1][0] == "discr" and "'arg', 0" in repr(val[1][1]) and isinstance(outcome, tuple) and isinstance(outcome[1], int) and not touches(val[1][1], "__no"):
            if len(val[1]) > 2 and ("Coroutine" in str(val[1][2]) or val[1][2] is None or "closure" in str(val[1][2]) or "async" in str(val[1][2])):
                return None if outcome[1] == 0 else "infeasible"
        return None

    def call(self, st, c):
        f = c.fn
        if f is not None and f.name == "poll" and f.trait and f.trait.endswith("Future") and len(c.args) == 2:
            e = self.ev(c)
            if e is None:
                w = flat(self.sim.ident(c.env, c.args[0]))
                v = ("y", ("out", self.sim.ident(c.env, c.args[0])))
                return Outcome(ret=("v", "core::task::poll::Poll", "Ready", (("0", v),)), st=self.add(st, ("await", w)))
        if f is not None and f.name in ("into_future", "new_unchecked", "get_context", "boxed", "boxed_local") and c.args and f.krate not in ("kompact", "kompact_net"):
            return Outcome(ret=c.args[0], st=st)
        return Trace.call(self, st, c)
