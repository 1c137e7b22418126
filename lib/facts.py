import re
"""Fact extraction: builds the rustc driver, runs it over /repo's current sources and loads the facts.

Every run hashes /repo's sources; facts are only reused when driver and sources are byte-identical.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KF_REPO", "/repo")
BUILD = os.environ.get("KF_BUILD", os.path.join(VERIF, "build"))
DRIVER_SRC = os.path.join(VERIF, "driver", "main.rs")

# name -> (package dir to run cargo in, cargo args, crates dumped)
SETS = {
    # full networked stack: kompact(distributed, serde_support, default features) + kompact-net
    "net": ("", ["-p", "kompact-net", "--features", "kompact/serde_support"], ["kompact", "kompact_net"]),
    # default features of the core crate, no distribution
    "local": ("", ["-p", "kompact"], ["kompact"]),
    "erased": ("", ["-p", "kompact", "--features", "type_erasure,distributed"], ["kompact"]),
    "implicit": ("", ["-p", "kompact", "--features", "implicit_routes"], ["kompact"]),
    "ser8": ("", ["-p", "kompact", "--no-default-features", "--features", "distributed,serde_support,ser_id_8"], ["kompact"]),
    "ser16": ("", ["-p", "kompact", "--no-default-features", "--features", "distributed,serde_support,ser_id_16"], ["kompact"]),
    "ser32": ("", ["-p", "kompact", "--no-default-features", "--features", "distributed,serde_support,ser_id_32"], ["kompact"]),
    "ser64": ("", ["-p", "kompact", "--no-default-features", "--features", "distributed,serde_support,ser_id_64"], ["kompact"]),
    "pinning": ("", ["-p", "kompact", "--features", "thread_pinning,distributed"], ["kompact"]),
    # derive-macro expansions are analysed in a witness crate of ours
    "witness": ("witness", [], ["kf_witness"]),
}


class ToolError(Exception):
    """The machinery itself failed (not a property violation)."""


def sh(cmd, env=None, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def nightly_env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def source_files():
    out = []
    for top in ("core", "network", "macros", "feature-tests", "docs", "experiments"):
        for r, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = [d for d in ds if d not in ("target", ".git")]
            for f in fs:
                if f.endswith((".rs", ".toml", ".proto")):
                    out.append(os.path.join(r, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        out.append(os.path.join(REPO, f))
    return [p for p in out if os.path.isfile(p)]


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    key = file_hash([DRIVER_SRC])[:16]
    exe = os.path.join(BUILD, "kfacts-" + key)
    if os.path.exists(exe):
        return exe, key
    env = nightly_env()
    tmp = exe + ".tmp%d" % os.getpid()
    rc, out = sh(["rustc", "-O", "--edition", "2024", "-Awarnings", "-o", tmp, DRIVER_SRC], env=env, cwd=BUILD)
    if rc != 0:
        raise ToolError("driver build failed:\n" + out[-4000:])
    os.rename(tmp, exe)
    return exe, key


def sysroot_lib():
    rc, out = sh(["rustc", "--print", "sysroot"], env=nightly_env())
    if rc != 0:
        raise ToolError("no nightly sysroot: " + out)
    return os.path.join(out.strip(), "lib")


def extract(setname):
    """Run the driver for one feature set; returns directory holding <crate>.json."""
    exe, dkey = ensure_driver()
    sub, args, crates = SETS[setname]
    srcs = source_files()
    if sub:
        wd = os.path.join(VERIF, sub)
        for r, _, fs in os.walk(wd):
            srcs += [os.path.join(r, f) for f in fs if f.endswith((".rs", ".toml"))]
    key = hashlib.sha256((dkey + setname + repr(args) + file_hash(srcs)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "facts", key)
    if all(os.path.exists(os.path.join(out, c + ".json")) for c in crates):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if all(os.path.exists(os.path.join(out, c + ".json")) for c in crates):
            return out
        tdir = os.path.join(BUILD, "target")
        # force the workspace crates through the driver: drop everything cargo remembers about them
        for r, ds, fs in os.walk(tdir):
            for d in list(ds):
                if d.startswith(("kompact", "kf_witness", "kf-witness")):
                    shutil.rmtree(os.path.join(r, d), ignore_errors=True)
                    ds.remove(d)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        env = nightly_env()
        env["LD_LIBRARY_PATH"] = sysroot_lib()
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["KFACTS_OUT"] = tmp
        env["KFACTS_CRATES"] = ",".join(crates)
        env["CARGO_TARGET_DIR"] = tdir
        cwd = REPO
        if sub:
            cwd = os.path.join(BUILD, "w_" + sub)
            shutil.rmtree(cwd, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, sub), cwd)
            p = os.path.join(cwd, "Cargo.toml")
            t = open(p).read().replace("/repo", REPO)
            open(p, "w").write(t)
            shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(cwd, "Cargo.lock"))
            cmd = ["cargo", "check", "--offline", "--lib"] + args
        else:
            cmd = ["cargo", "check", "--offline", "--locked", "--lib"] + args
        rc, txt = sh(cmd, env=env, cwd=cwd)
        if rc != 0:
            shutil.rmtree(tmp, ignore_errors=True)
            raise ToolError("cargo check failed for set %s:\n%s" % (setname, txt[-6000:]))
        for c in crates:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise ToolError("driver wrote no facts for %s (set %s)\n%s" % (c, setname, txt[-3000:]))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        prune()
    return out


def prune(keep=24):
    d = os.path.join(BUILD, "facts")
    es = sorted((os.path.join(d, e) for e in os.listdir(d) if ".tmp" not in e), key=os.path.getmtime, reverse=True)
    for e in es[keep:]:
        shutil.rmtree(e, ignore_errors=True)


class Body:
    __slots__ = ("prog", "id", "h", "kind", "name", "parent", "base", "caps", "self_ty", "self_adt", "trait", "trait_ref",
                 "titem", "in_trait", "pub", "unsafe", "file", "line", "mac", "argc", "locals", "names", "blocks", "crate",
                 "cty", "v", "sv", "promoted", "coroutine", "_live", "_succ", "idx")

    def __init__(self, prog, d, S, crate):
        g = d.get
        self.prog = prog
        self.crate = crate
        self.id = S[d["id"]]
        self.h = d["h"]
        self.kind = d["kind"]
        self.name = g("name")
        self.parent = S[d["parent"]]
        self.base = S[d["base"]] if "base" in d else None
        self.caps = g("caps")
        self.self_ty = S[d["self"]] if "self" in d else None
        self.self_adt = S[d["self_adt"]] if "self_adt" in d else None
        self.trait = S[d["trait"]] if "trait" in d else None
        self.trait_ref = g("trait_ref")
        self.titem = g("titem")
        self.in_trait = S[d["in_trait"]] if "in_trait" in d else None
        self.pub = g("pub")
        self.unsafe = g("unsafe")
        self.file = S[d["file"]]
        self.line = d["line"]
        self.mac = g("mac")
        self.argc = d["argc"]
        self.locals = [S[x] for x in d["locals"]]
        self.names = {}
        for n, p in d["names"]:
            if len(p) == 1:
                self.names.setdefault(p[0], n)
        self.blocks = d["blocks"]
        self.cty = S[d["cty"]] if "cty" in d else None
        self.v = int(d["v"]) if "v" in d else None
        self.sv = g("sv")
        self.promoted = g("promoted") or []
        self.coroutine = g("coroutine", False)
        self._live = None
        self._succ = None

    def __repr__(self):
        return "<Body %s>" % self.id


class FnRef:
    """A resolved reference to a function."""
    __slots__ = ("path", "h", "krate", "args", "trait", "self_ty", "rk", "rpath", "rh", "ctor")

    def __init__(self, d, S):
        self.path = S[d["def"]]
        self.h = d["h"]
        self.krate = d["krate"]
        self.args = tuple(S[a] for a in d["args"])
        self.trait = S[d["trait"]] if "trait" in d else None
        self.self_ty = S[d["self"]] if "self" in d else None
        self.rk = d.get("rk")
        self.rpath = S[d["res"]] if "res" in d else None
        self.rh = d.get("rh")
        self.ctor = d.get("ctor", False)

    @property
    def name(self):
        return last_seg(self.path)

    def __repr__(self):
        return "<Fn %s>" % self.path


_seg_cache = {}


def last_seg(p):
    r = _seg_cache.get(p)
    if r is None:
        r = p
        # strip trailing generic args  ...::foo::<T>
        depth = 0
        i = len(p)
        q = p
        while q.endswith(">"):
            depth = 0
            j = len(q) - 1
            while j >= 0:
                if q[j] == ">" and (j == 0 or q[j - 1] not in "-="):
                    depth += 1
                elif q[j] == "<":
                    depth -= 1
                    if depth == 0:
                        break
                j -= 1
            if j <= 0:
                break
            q = q[:j]
            if q.endswith("::"):
                q = q[:-2]
        r = q.rsplit("::", 1)[-1]
        _seg_cache[p] = r
    return r


class Program:
    def __init__(self, sets):
        self.bodies = []
        self.by_h = {}
        self.by_id = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.titem_impls = {}
        self.sets = sets
        self._calls = {}
        self._refs = {}
        self._graph = None
        self._rgraph = None
        self._conv = None
        seen = set()
        for s in sets:
            d = extract(s)
            for c in SETS[s][2]:
                if c in seen:
                    continue
                seen.add(c)
                self._load(os.path.join(d, c + ".json"), c)

    def _load(self, p, crate):
        with open(p) as f:
            J = json.load(f)
        S = J["strs"]
        for d in J["bodies"]:
            b = Body(self, d, S, crate)
            self._fix(b.blocks, S)
            for pr in b.promoted:
                self._fix(pr["blocks"], S)
                pr["locals"] = [S[x] for x in pr["locals"]]
            b.idx = len(self.bodies)
            self.bodies.append(b)
            self.by_h[b.h] = b
            self.by_id.setdefault(b.id, []).append(b)
            if b.titem:
                self.titem_impls.setdefault(b.titem, []).append(b)
        for a in J["adts"]:
            for v in a["variants"]:
                v["discr"] = int(v["discr"])
                v["fields"] = [(n, S[t], pb) for n, t, pb in v["fields"]]
            if "file" in a:
                a["file"] = S[a["file"]]
            if a["local"] or a["id"] not in self.adts:
                self.adts[a["id"]] = a
        for i in J["impls"]:
            i["self"] = S[i["self"]]
            for k in ("self_adt", "trait", "file"):
                if k in i:
                    i[k] = S[i[k]]
            if "atys" in i:
                i["atys"] = {n: S[t] for n, t in i["atys"]}
            i["crate"] = crate
            self.impls.append(i)
        for t in J["traits"]:
            self.traits[S[t["id"]]] = t

    def _fn(self, d, S):
        return FnRef(d, S)

    def _fix_op(self, o, S):
        if o[0] == "k":
            k = o[1]
            if "fn" in k:
                k["fn"] = self._fn(k["fn"], S)
            else:
                for f in ("ty", "cdef", "static", "closure"):
                    if f in k and isinstance(k[f], int):
                        k[f] = S[k[f]]

    def _fix(self, blocks, S):
        for bl in blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "repeat"):
                        self._fix_op(r[1], S)
                    elif k == "cast":
                        self._fix_op(r[2], S)
                        r[3] = S[r[3]]
                        r[4] = S[r[4]]
                    elif k == "bin":
                        self._fix_op(r[2], S)
                        self._fix_op(r[3], S)
                    elif k == "un":
                        self._fix_op(r[2], S)
                    elif k == "discr":
                        if r[2] is not None:
                            r[2] = S[r[2]]
                    elif k == "agg":
                        a = r[1]
                        if a[0] in ("adt", "closure", "coroutine"):
                            a[1] = S[a[1]]
                        for o in r[2]:
                            self._fix_op(o, S)
                    elif k == "tls":
                        r[1] = S[r[1]]
                elif s[0] == "assume":
                    self._fix_op(s[1], S)
            t = bl["t"]
            k = t[0]
            if k == "switch":
                self._fix_op(t[1], S)
                t[3] = S[t[3]]
            elif k == "call":
                self._fix_op(t[1], S)
                for o in t[2]:
                    self._fix_op(o, S)
            elif k == "drop":
                t[4] = S[t[4]]
            elif k == "assert":
                self._fix_op(t[1], S)
                for o in t[6]:
                    self._fix_op(o, S)
            if "m" in bl:
                bl["m"] = S[bl["m"]]

    # ---- queries -------------------------------------------------------------------------------
    def find(self, pred):
        return [b for b in self.bodies if pred(b)]

    def method(self, adt, name, trait=None):
        """Bodies of methods `name` on impls of the ADT whose path ends with `adt` (optionally of a trait)."""
        out = []
        for b in self.bodies:
            if b.name == name and b.kind == "AssocFn" and b.self_adt and last_seg(b.self_adt) == adt:
                if trait is None or (b.trait and last_seg(b.trait) == trait):
                    if trait is None and b.trait and name in ("drop", "fmt", "clone", "eq") and False:
                        continue
                    out.append(b)
        return out

    def adt(self, name):
        r = [a for k, a in self.adts.items() if last_seg(k) == name and a["local"]]
        return r[0] if r else None

    def const_bodies(self):
        r = getattr(self, "_constb", None)
        if r is None:
            r = self._constb = {}
            for b in self.bodies:
                if b.kind in ("AssocConst", "Const"):
                    r.setdefault(b.id, []).append(b)
        return r

    def closures_of(self, body):
        return [b for b in self.bodies if b.base == body.id and b.crate == body.crate and b.kind == "Closure"]

    # ---- call graph ----------------------------------------------------------------------------
    def calls(self, body):
        """[(block index, FnRef or None, line, macro)] of every call terminator (non-cleanup blocks first)."""
        c = self._calls.get(body.h)
        if c is None:
            c = []
            for i, bl in enumerate(body.blocks):
                t = bl["t"]
                if t[0] == "call":
                    fn = t[1][1]["fn"] if t[1][0] == "k" and "fn" in t[1][1] else None
                    c.append((i, fn, bl["l"], bl.get("m"), bool(bl.get("cl"))))
            self._calls[body.h] = c
        return c

    def fn_refs(self, body):
        """Every function mentioned by the body: called, passed as a value, or closure created."""
        r = self._refs.get(body.h)
        if r is not None:
            return r
        fns, clos = [], []

        def op(o):
            if o[0] == "k":
                if "fn" in o[1]:
                    fns.append(o[1]["fn"])
                elif "closure" in o[1]:
                    clos.append(o[1]["h"])

        for blocks in [body.blocks] + [p["blocks"] for p in body.promoted]:
            for bl in blocks:
                for s in bl["s"]:
                    if s[0] == "=":
                        r = s[2]
                        k = r[0]
                        if k in ("use", "repeat"):
                            op(r[1])
                        elif k == "cast" or k == "un":
                            op(r[2])
                        elif k == "bin":
                            op(r[2])
                            op(r[3])
                        elif k == "agg":
                            if r[1][0] in ("closure", "coroutine"):
                                clos.append(r[1][2])
                            for o in r[2]:
                                op(o)
                t = bl["t"]
                if t[0] == "call":
                    op(t[1])
                    for o in t[2]:
                        op(o)
        self._refs[body.h] = (fns, clos)
        return self._refs[body.h]

    def targets(self, fn):
        """Workspace bodies a function reference may denote."""
        if fn.rk == "item" and fn.rh in self.by_h:
            return [self.by_h[fn.rh]]
        if fn.name in ("into", "try_into") and fn.trait in ("core::convert::Into", "core::convert::TryInto") and len(fn.args) == 2:
            # the blanket implementations lead to From and TryFrom
            b = self.conversions().get((fn.name == "try_into",) + tuple(fn.args))
            return [b] if b else []
        if fn.trait and fn.rk in ("virtual", None, "item"):
            out = list(self.titem_impls.get(fn.h, ())) if fn.rk != "item" else []
            if fn.h in self.by_h:
                out.append(self.by_h[fn.h])
            return out
        return []

    def conversions(self):
        if self._conv is None:
            self._conv = {}
            for b in self.bodies:
                if b.trait in ("core::convert::From", "core::convert::TryFrom") and b.name in ("from", "try_from") and b.argc == 1:
                    to = b.locals[0]
                    if b.name == "try_from":
                        to = re.sub(r"^core::result::Result<(.*), .*>$", r"\1", to)
                    self._conv[(b.name == "try_from", b.locals[1], to)] = b
        return self._conv

    def graph(self):
        """caller hash -> set of callee hashes (CHA for trait calls, closures included, drop glue for user Drop)."""
        if self._graph is None:
            g = {}
            drops = {}
            for b in self.bodies:
                if b.name == "drop" and b.trait and b.trait.endswith("ops::drop::Drop") and b.self_adt:
                    drops[b.self_adt] = b.h
            for b in self.bodies:
                s = set()
                fns, clos = self.fn_refs(b)
                for f in fns:
                    for tb in self.targets(f):
                        s.add(tb.h)
                for h in clos:
                    if h in self.by_h:
                        s.add(h)
                for bl in b.blocks:
                    t = bl["t"]
                    if t[0] == "drop":
                        ty = t[4]
                        i = ty.find("<")
                        d = drops.get(ty[:i] if i > 0 else ty)
                        if d:
                            s.add(d)
                g[b.h] = s
            self._graph = g
        return self._graph

    def callers(self):
        if self._rgraph is None:
            r = {}
            for a, ss in self.graph().items():
                for x in ss:
                    r.setdefault(x, set()).add(a)
            self._rgraph = r
        return self._rgraph

    def reaching(self, pred_body, stop=None):
        """Hashes of bodies that transitively may reach a body satisfying pred_body."""
        rg = self.callers()
        seed = {b.h for b in self.bodies if pred_body(b)}
        seen = set(seed)
        work = list(seed)
        while work:
            x = work.pop()
            for y in rg.get(x, ()):
                if y not in seen and not (stop and stop(self.by_h[y])):
                    seen.add(y)
                    work.append(y)
        return seen

    def direct(self, pred_fn):
        """Predicate on bodies: directly calls (or mentions) a function satisfying pred_fn."""
        def p(b):
            return any(pred_fn(f) for f in self.fn_refs(b)[0])
        return p


if __name__ == "__main__":
    for s in sys.argv[1:] or ("net", "witness"):
        extract(s)
        print("extracted", s)
