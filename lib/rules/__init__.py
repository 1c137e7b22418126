import importlib, os, pkgutil

TABLE = {}


def prop(pid):
    def d(f):
        TABLE.setdefault(pid, []).append(f)
        return f
    return d


def load(pid):
    here = os.path.dirname(__file__)
    for m in sorted(pkgutil.iter_modules([here])):
        importlib.import_module("rules." + m.name)
    if pid not in TABLE:
        raise SystemExit("no check for " + pid)

    def run(ctx):
        for f in TABLE[pid]:
            f(ctx)
    return run


