"""Pieces shared by the checks of the key handler and the engine."""
import kh, eng, program

TRUSTED = [
    "clang 18 parses and type-checks /repo's sources as the build does (same defines, C++17)",
    "the models of the standard library and fcitx5 operations in engine/models.py and checks/eng.py",
    "single-threaded use: fcitx5 calls an input method from one thread",
]


def need_entries(rep):
    rep.need("entry points", 20)
    rep.need("functions analysed", 30)


def reaching(P, hits):
    """Keys of the functions (lambdas included) from which a call or reference to a function with hits(fn dict) can be
    reached through the source's own call graph; calls through a base reach every overrider."""
    edges, good = {}, set()
    for f in P.functions.values():
        if not f.get("repo") or f.get("body") is None:
            continue
        out = set()
        for x in program.walk([f["body"], f.get("inits") or []]):
            fn = x.get("fn")
            if isinstance(fn, dict):
                if hits(fn):
                    good.add(f["key"])
                for o in [fn] + [g for g in (P.overriders(fn["u"]) if fn.get("u") else ())]:
                    out.add(o.get("u") if isinstance(o, dict) else o)
            if x.get("fnkey"):
                out.add(x["fnkey"])
        edges[f["key"]] = out
    names = {}
    for f in P.functions.values():
        names.setdefault(f.get("u"), set()).add(f["key"])
        names.setdefault(f["key"], set()).add(f["key"])
    back = {}
    for k, out in edges.items():
        for u in out:
            for g in names.get(u, ()):
                back.setdefault(g, set()).add(k)
    todo = list(good)
    while todo:
        for k in back.get(todo.pop(), ()):
            if k not in good:
                good.add(k)
                todo.append(k)
    return good


def callers(P):
    called = {}
    for f in P.functions.values():
        if f.get("repo") and f.get("body") is not None:
            for x in program.walk([f["body"], f.get("inits") or []]):
                fn = x.get("fn")
                if isinstance(fn, dict) and fn.get("u") and fn["u"] != f["u"]:
                    called.setdefault(fn["u"], {})[f["key"]] = f
    return called


def judged_at_callers(P):
    """Helpers extracted after the checks were written: looked into from the functions that call them,
    where what they rely on is known, and not judged once more for arbitrary arguments."""
    import interp
    called = callers(P)
    return {f["key"] for f in P.functions.values() if f.get("repo") and f.get("body") is not None and not f.get("lambda")
            and f["q"] not in interp.KNOWN and called.get(f["u"])}


def at_callers(P, fs):
    """fs, with each newly extracted helper replaced by the functions that call it."""
    new, called, out, todo, seen = judged_at_callers(P), callers(P), {}, list(fs), set()
    while todo:
        f = todo.pop(0)
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        if f["key"] in new:
            todo += called[f["u"]].values()
        else:
            out[f["key"]] = f
    return list(out.values())
