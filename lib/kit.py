"""Check framework: obligations, known findings, evidence, verdict."""
import json, os, re, sys, time, traceback

import facts
from facts import Program, ToolError, VERIF, last_seg
from sim import Sim, Rule, Outcome, Budget, ty_head, has_site

_progs = {}


def program(*sets):
    k = tuple(sets)
    if k not in _progs:
        _progs[k] = Program(list(sets))
    return _progs[k]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.rules = {}
        self.viol = []
        self.keys = set()
        self.assumptions = []
        self.samples = []
        self.counters = {}
        self.funcs = set()
        self.explain = []
        self.sets = []

    # -- program access
    def prog(self, *sets):
        for s in sets:
            if s not in self.sets:
                self.sets.append(s)
        return program(*sets)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- obligations
    def ob(self, rule, ok, key, msg, where="", trace=None):
        """One obligation of a rule at one construct."""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            r[1] += 1
            if len(self.samples) < 200:
                self.samples.append("%s: %s" % (rule, where or key))
            return True
        k = "%s:%s" % (rule, key)
        if k not in self.keys:
            self.keys.add(k)
            self.viol.append({"rule": rule, "key": k, "msg": msg, "where": where, "trace": trace or []})
        return False

    def anchor(self, what, found, minimum=1):
        """The constructs a rule is about must exist; their absence is reported, never skipped."""
        n = len(found) if hasattr(found, "__len__") else int(bool(found))
        return self.ob("anchor", n >= minimum, what, "found %d of at least %d expected constructs: %s" % (n, minimum, what), what)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def say(self, s):
        if s not in self.explain:
            self.explain.append(s)

    def simulated(self, sim):
        self.count("abstract states explored", sim.nstates)
        for h in sim.bodies_seen:
            self.funcs.add(h)

    def saw(self, *bodies):
        for b in bodies:
            self.funcs.add(b.h)


def where(b, line=None):
    return "%s (%s:%d)" % (b.id, b.file, line if line else b.line)


def bkey(b):
    """Stable key of a function: no line numbers."""
    return "%s" % b.id


# ---- lifting ----------------------------------------------------------------------------------------

def is_entry(prog, b):
    """May code outside the workspace enter here directly?"""
    if b.kind == "Closure":
        return False
    if b.trait:
        return True
    return False


def lifted(ctx, prog, rule_name, bodies, analyse, maxlift=4, excusable=None, final=None):
    """analyse(body, force) -> (violations, bodies seen).

    A violation found with a function analysed on its own may be excused by what all of its callers do (only for the
    kinds `excusable` names): it is re-examined with each caller as the root, the function inlined, and reported at
    the outermost function where it persists. A caller the analysis cannot follow excuses nothing.
    """
    cg = prog.callers()
    done = {}

    def report(b, vs):
        for v in vs:
            ctx.ob(rule_name, False, "%s:%s" % (bkey(b), v["key"]), v["msg"], where(b), v.get("trace"))

    def visit(b, force, level):
        """True if everything is fine with b as the root."""
        k = (b.h, force)
        if k in done:
            return
        done[k] = 1
        ctx.saw(b)
        try:
            vs, seen = analyse(b, force)
        except Budget:
            return "budget"
        if force - {b.h} - set(seen):
            return "budget"
        hard = [v for v in vs if excusable is not None and not excusable(v["key"])]
        if hard:
            report(b, hard)
            vs = [v for v in vs if v not in hard]
        if not vs:
            if not hard:
                ctx.ob(rule_name, True, bkey(b), "", where(b))
            return
        callers = [prog.by_h[h] for h in cg.get(b.h, ()) if h != b.h and h in prog.by_h]
        local = not b.trait or b.trait.split("::")[0] in ("kompact", "kompact_net")
        if level < maxlift and callers and local and not (final and final(b)):
            for c in callers:
                if visit(c, force | {b.h}, level + 1) == "budget":
                    report(b, vs)
                    return
            return
        report(b, vs)

    for b in bodies:
        if visit(b, frozenset(), 0) == "budget":
            raise ToolError("state budget exceeded in %s" % b.id)


# ---- known findings ---------------------------------------------------------------------------------

def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=\"([^\"]+)\" (.*)$", l)
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level, t0, err=None):
    known = {(p, k): w for p, k, w in known_findings()}
    real = []
    for v in ctx.viol:
        w = known.get((ctx.pid, v["key"]))
        if w is not None:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, w))
        else:
            real.append(v)
    obl = sum(r[0] for r in ctx.rules.values())
    dis = sum(r[1] for r in ctx.rules.values())
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": level,
        "coverage": {
            "explanation": " ".join(ctx.explain) or "Static analysis of the compiler's MIR of the current /repo sources.",
            "obligations": obl,
            "discharged": dis,
            "obligations_per_rule": {k: v[0] for k, v in sorted(ctx.rules.items())},
            "functions_analysed": len(ctx.funcs),
            "feature_sets": ctx.sets,
            "samples": ctx.samples[:: max(1, len(ctx.samples) // 25)][:25],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    ev["coverage"].update(ctx.counters)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(VERIF, "build", "reports", ctx.pid + ".txt")
    if real:
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            for v in real:
                f.write("rule: %s\nkey: %s\nwhere: %s\n%s\n" % (v["rule"], v["key"], v["where"], v["msg"]))
                for l in v["trace"]:
                    f.write("    %s\n" % l)
                f.write("\n")
        for v in real:
            print("  [%s] %s\n      at %s\n      key %s" % (v["rule"], v["msg"], v["where"], v["key"]))
            for l in v["trace"][-14:]:
                print("        " + l)
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d functions=%d (%.1fs)" % (ctx.pid, obl, dis, len(ctx.funcs), time.time() - t0))
    return 0
