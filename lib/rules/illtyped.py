"""X01: ill-typed component programs do not compile.

Every witness in /verif/illtyped/src/bin is a pair of programs against the public API: one that uses it as intended and
one that differs in the lines marked BAD. Both are type- and borrow-checked against /repo's current source; nothing is
run. The intended one must be accepted (or the pair says nothing about this tree), the other must be rejected.
"""
import json, shutil
from kit import *
from rules import prop
import facts
from facts import REPO, BUILD, VERIF
import fcntl, hashlib, os


def check(wd, target, bad):
    env = facts.nightly_env()
    env["CARGO_TARGET_DIR"] = target
    env["RUSTFLAGS"] = "--cap-lints=warn"
    cmd = ["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"] + (["--features", "bad"] if bad else [])
    rc, txt = facts.sh(cmd, env=env, cwd=wd)
    errs, done, deps = {}, set(), []
    for l in txt.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            done.add((d["target"]["kind"][0], d["target"]["name"]))
        if d.get("reason") == "compiler-message" and d["message"]["level"].startswith("error"):
            m = d["message"]
            if d["target"]["kind"] == ["bin"]:
                errs.setdefault(d["target"]["name"], []).append(m)
            else:
                deps.append(d["target"]["name"] + ": " + (m.get("rendered") or m["message"]))
    return errs, done, deps, txt


def spans(m, name):
    """The lines of the witness a diagnostic points at, also from within macro expansions."""
    out, todo = set(), list(m["spans"])
    for c in m.get("children", ()):
        todo += c["spans"]
    while todo:
        s = todo.pop()
        if s["file_name"].replace("\\", "/").endswith("src/bin/%s.rs" % name):
            out |= set(range(s["line_start"], s["line_end"] + 1))
        if s.get("expansion"):
            todo.append(s["expansion"]["span"])
    return out


def results():
    src = os.path.join(VERIF, "illtyped")
    files = facts.source_files()
    for r, _, fs in os.walk(src):
        files += [os.path.join(r, f) for f in fs if f.endswith((".rs", ".toml"))]
    key = hashlib.sha256(("illtyped-2" + facts.file_hash(files + [__file__])).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "illtyped", key + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(BUILD, "illtyped", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return json.load(open(out))
        wd = os.path.join(BUILD, "w_illtyped")
        shutil.rmtree(wd, ignore_errors=True)
        shutil.copytree(src, wd, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        p = os.path.join(wd, "Cargo.toml")
        t = open(p).read().replace("/repo", REPO)
        open(p, "w").write(t)
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(wd, "Cargo.lock"))
        target = os.path.join(BUILD, "target_x")
        names = sorted(f[:-3] for f in os.listdir(os.path.join(wd, "src", "bin")) if f.endswith(".rs"))
        ge, gd, deps, txt = check(wd, target, False)
        if deps or ("lib", "kf_illtyped") not in gd:
            raise ToolError("the library the witnesses share does not compile:\n" + ("\n".join(deps) or txt)[-6000:])
        be, bd, deps, txt = check(wd, target, True)
        if deps:
            raise ToolError("the library the witnesses share does not compile:\n" + "\n".join(deps)[-6000:])
        res = []
        for n in names:
            lines = open(os.path.join(wd, "src", "bin", n + ".rs")).read().split("\n")
            bad = {i + 1 for i, x in enumerate(lines) if "BAD" in x}
            hit = [m for m in be.get(n, ()) if spans(m, n) & bad]
            why = hit or [m for m in be.get(n, ()) if m.get("spans")]
            res.append({
                "name": n, "title": lines[0].lstrip("/! ").rstrip("."), "good": ("bin", n) in gd and not ge.get(n),
                "goodwhy": [m["message"] for m in ge.get(n, ())][:2],
                "rejected": bool(why), "accepted": ("bin", n) in bd, "exact": bool(hit),
                "why": [((m.get("code") or {}).get("code") or "", m["message"]) for m in why][:2],
                "line": min(bad) if bad else 1, "text": [lines[b - 1].split("//~")[0].strip() for b in sorted(bad)],
            })
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(out + ".tmp", out)
        for o in sorted((os.path.join(BUILD, "illtyped", x) for x in os.listdir(os.path.join(BUILD, "illtyped")) if x.endswith(".json")), key=os.path.getmtime, reverse=True)[12:]:
            os.remove(o)
    return res


@prop("X01")
def x01(ctx):
    ctx.say("Each witness is a pair of programs against kompact's public API, type- and borrow-checked by rustc against the current source and never run: "
            "the intended one must be accepted, and the one that differs from it only in the marked lines must be rejected.")
    res = results()
    ok = [r for r in res if r["good"]]
    ctx.count("witness pairs", len(res))
    ctx.count("witness pairs whose intended program is accepted", len(ok))
    ctx.count("rejected at the marked line", sum(r["exact"] and r["rejected"] for r in ok))
    for r in res:
        if not r["good"]:
            ctx.assume("witness %s says nothing about this tree: its intended program no longer compiles (%s)" % (r["name"], "; ".join(r["goodwhy"])[:200]))
            continue
        w = "illtyped/src/bin/%s.rs:%d" % (r["name"], r["line"])
        if not r["rejected"] and not r["accepted"]:
            raise ToolError("no verdict on the ill-typed variant of " + r["name"])
        ctx.ob("illtyped", r["rejected"], r["name"],
               "the compiler accepts a program it must reject: %s: %s" % (r["title"], " | ".join(r["text"])), w)
    ctx.anchor("witness pairs whose intended program compiles", ok, len(res) // 2)
    ctx.assume("rustc's type and borrow checker are sound")
    ctx.assume("the witnesses sample the ill-typed programs of each kind; the intended program of each pair differs from the rejected one only in the marked lines")
