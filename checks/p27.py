"""P27: when a data file is closed, no view of its contents stays behind, and none is handed out."""
import eng
from program import walk
from terms import *
from interp import *
from parts import *
import parts
from common import TRUSTED
TECHNIQUE = "ownership analysis: the classes that own a mapped file are found by type; their opening and closing methods are abstractly evaluated from every abstract state and the views left in their fields compared with the mapping that is open; type-level escape rules for results, fields and globals that could hold a view"
ASSUMPTIONS = TRUSTED + ["the owners are used by one thread", "text given to load() directly outlives the object, as its documentation demands"]
NOTE = "Static: every owner of a mapped file x {loaded, empty} x {the file opens, it does not} x {close, open, open again, destruction}."


def generations(t):
    out = set()
    for x in subterms(t):
        if x.op in ("bytes", "size"):
            out.add(x.a[0])
        if x.op == "m" and x.a[0] == "old":
            out.add(0)
    return out


def run(prog, rep, tier):
    P = prog
    rep.rule("after each opening or closing method every view a class keeps refers to the mapping that is open now")
    rep.rule("after close() no view is kept and the mapping is closed")
    rep.rule("contents of a closed mapping are not read")
    rep.rule("methods of the owners return text of their own, no views")
    rep.rule("no other class and no global keeps a view of mapped data")
    own = owners(P)
    if len(own) < 2:
        raise AnalysisError("anchor vanished: the owners of mapped files")
    fns = set()
    for q, (r, mf) in sorted(own.items()):
        short = q.split("::")[-1]
        vf = view_fields(P, r, mf)
        rep.inst("owners", "src %s: %s" % (q, ", ".join(f["n"] for f in vf)))
        if not vf:
            continue

        def judge(st, I, f, what, closed):
            where = "src/%s %s::%s" % (f["l"], short, f["q"].split("::")[-1])
            rep.count("end states judged")
            fns.update(I.stats["functions"])
            for e in st.ts[3]:
                if e[0] == "stale":
                    rep.violation("stale:%s:%s" % (q, f["q"]), e[1], "%s: %s reads the contents of a mapping that has been closed" % (what, e[2]))
            for v in vf:
                c = content(I, st, v)
                gens = set()
                for x in flatten(c):
                    gens |= generations(x)
                bad = {g for g in gens if g != st.ts[0]}
                if bad:
                    rep.violation("view:%s:%s" % (q, f["q"]), where, "%s: %s still holds %s, a view of a file that is closed by then" % (what, v["n"], parts.text(c)))
                elif closed and c:
                    rep.violation("kept:%s:%s" % (q, f["q"]), where, "%s: %s still holds %s" % (what, v["n"], parts.text(c)))
            if closed and st.ts[0] is not None:
                rep.violation("mapped:%s:%s" % (q, f["q"]), where, "%s: the file stays mapped" % what)
        for loaded in (True, False):
            for opens in (True, False):
                old = "a loaded %s" % short if loaded else "an empty %s" % short
                rs, I, f = run_part(P, q, "close", opens, loaded)
                for s, v in rs:
                    judge(s, I, f, "%s is closed" % old, True)
                    rs2, I2, f2 = run_part(P, q, "open", opens, nparam=1, first="char", start=(s, I))
                    for s2, v2 in rs2:
                        judge(s2, I2, f2, "%s is closed and a file that %s is opened" % (old, "opens" if opens else "does not open"), False)
                        rs3, I3, f3 = run_part(P, q, "close", opens, start=(s2, I2))
                        for s3, v3 in rs3:
                            judge(s3, I3, f3, "%s is reopened and closed" % old, True)
                rs, I, f = run_part(P, q, "open", opens, loaded, nparam=1, first="char")
                for s, v in rs:
                    judge(s, I, f, "%s is opened again with a file that %s" % (old, "opens" if opens else "does not open"), False)
                ld = method_at(P, q, "load", 2)
                if ld is not None:
                    rs, I, f = run_part(P, q, "load", opens, loaded, nparam=2)
                    for s, v in rs:
                        judge(s, I, f, "%s is given text in memory" % old, False)
        # what the methods hand out
        for m in r["methods"]:
            fn = P.functions.get(m["u"])
            rt = (fn or m).get("rt") or ""
            if fn is None or fn.get("ctor"):
                continue
            rep.count("results judged")
            if views(P, rt) and not fn.get("static"):
                rep.violation("result:%s" % fn["q"], "src/%s" % fn["l"], "%s returns %s, a view of mapped data" % (fn["q"], rt))
        for f in r["fields"]:
            if f.get("access") == "public" and views(P, f["t"]):
                rep.violation("public:%s" % f["q"], "src", "%s can be read from outside" % f["q"])
    # classes that hold views, and where they are kept
    names = set(own)
    for q, r in sorted(P.records.items()):
        if q in names:
            continue
        for f in r["fields"]:
            t = f["t"]
            if not ("string_view" in t or any(mentions(t, x) for x in (PDB, KV, KV + "::KeyValue"))):
                continue
            rep.count("fields judged")
            if transient(P, q):
                continue
            rep.violation("field:%s" % f["q"], "src/%s" % r.get("l", q), "%s keeps %s, a view of data it does not own" % (q, f["n"]))
    for g, d in P.globals.items():
        if d.get("const") or "string_view" not in (d.get("t") or ""):
            continue
        rep.violation("global:" + g, g, "the global %s keeps a view" % g)
    rep.need("end states judged", 40)
    rep.need("results judged", 10)
    return {"functions": sorted(fns)}


def flatten(c):
    for x in c:
        if isinstance(x, tuple):
            yield from flatten(x)
        else:
            yield x


def transient(P, q):
    """Objects of this class live only in functions: no class or global has one, but the owners."""
    own = owners(P)
    for o, r in P.records.items():
        if o in own or o == q:
            continue
        for f in r["fields"]:
            if mentions(f["t"], q) and not transient(P, o):
                return False
    for g, d in P.globals.items():
        if mentions(d.get("t") or "", q) and not d.get("const"):
            return False
    return q in (KV, KV + "::KeyValue", PDB) or not has_long_life(P, q)


def has_long_life(P, q):
    """Objects of the class are made with new / make_unique / make_shared."""
    for f in P.functions.values():
        if not f["repo"] or not f.get("body"):
            continue
        for n in walk([f.get("body"), f.get("inits")]):
            fn = n.get("fn")
            if fn and fn["q"].startswith(("std::make_unique", "std::make_shared")) and mentions(fn.get("rt", ""), q):
                return True
            if n.get("k") == "CXXNewExpr" and mentions(n.get("t", ""), q):
                return True
    return False
