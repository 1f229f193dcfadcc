"""The parts of the language model that own a mapped file, evaluated over what open, map and read can yield."""
import eng, models
from terms import *
from interp import *
from shape import *

MMF = "McBopomofo::MemoryMappedFile"
PDB = "McBopomofo::ParselessPhraseDB"
KV = "McBopomofo::KeyValueBlobReader"
THIS = mk("this")
BASE = mk("S", THIS)


def owners(P):
    """Classes with a mapped file of their own: class -> (record, the field)."""
    out = {}
    for q, r in P.records.items():
        for f in r["fields"]:
            if f["t"].split("::")[-1] == "MemoryMappedFile":
                out[q] = (r, f)
    return out


def views(P, t, seen=()):
    """Does a value of this type hold text it does not own?"""
    t = t.replace("const ", "")
    if "string_view" in t:
        return True
    if "function<" in t:
        return False
    if "char *" in t:
        return True
    for q, r in P.records.items():
        n = q.split("(")[0]
        if n in seen or not mentions(t, n):
            continue
        if any(views(P, f["t"], seen + (n,)) for f in r["fields"]):
            return True
    return False


def mentions(t, q):
    for n in (q, q.split("McBopomofo::")[-1]):
        i = t.find(n)
        while i >= 0:
            a, b = t[i - 1:i], t[i + len(n):i + len(n) + 1]
            if not (a.isalnum() or a == "_") and not (b.isalnum() or b in ("_", ":")):
                return True
            i = t.find(n, i + 1)
    return False


class Part(Shape):
    """st.ts = (mapping, opened, records read, events); the mapping is None (closed) or a generation number."""
    exact_sets = True
    split_unroll = True
    scope_end = False

    def __init__(self, P, opens, mapped=None, records=1):
        Shape.__init__(self, P, lambda f: f["repo"])
        self.opens = opens
        self.start = mapped
        self.records = records

    def init_ts(self):
        return (self.start, 0, 0, ())

    def ev(self, st, *e):
        st.ts = st.ts[:3] + (st.ts[3] + (e,),)

    def model(self, I, st, c):
        q, n = c.q, c.q.split("::")[-1]
        m, g, k, ev = st.ts
        if q.startswith(MMF + "::"):
            if c.ctor:
                return None
            if n == "open":
                if m is not None or not self.opens:
                    self.ev(st, "open", I.resolve(st, c.args[0]), "refused" if m is not None else "failed")
                    return [(st, FALSE)]
                st.ts = (g + 1, g + 1, k, ev)
                st.facts[mk("==", mk("bytes", g + 1), NULL)] = False      # an open mapping has an address and content
                for t in (mk("==", mk("size", g + 1), ZERO), mk("==", ZERO, mk("size", g + 1))):
                    st.facts[t] = False
                self.ev(st, "open", I.resolve(st, c.args[0]), "done")
                return [(st, TRUE)]
            if n == "close":
                st.ts = (None, g, k, ev)
                self.ev(st, "close")
                return [(st, VOID)]
            if n == "data":
                return [(st, mk("bytes", m) if m is not None else NULL)]
            if n == "length":
                return [(st, mk("size", m) if m is not None else ZERO)]
        if q.startswith(PDB + "::"):
            if c.ctor:
                a = [I.resolve(st, x) for x in c.args]
                return [(st, mk("db", *a))]
            if n.startswith("~"):
                return [(st, VOID)]
            l, v = models.obj(I, st, c) if c.objloc is not None else (None, VOID)
            self.used(I, st, c, v)
        if q.startswith(KV + "::"):
            if c.ctor:
                return [(st, mk("reader", *[I.resolve(st, x) for x in c.args]))]
            if n == "Next":
                l, v = models.obj(I, st, c)
                if v.op != "reader":
                    return None
                self.used(I, st, c, v)
                st.ts = (m, g, k + 1, ev)
                names = {x["n"]: int(x["v"]) for x in self.P.enums[KV + "::State"]["consts"]}
                if k >= self.records:
                    return [(st, const(names["END"]))]
                p = I.resolve(st, c.args[0])
                pl = p.a[0] if p.op == "p" else mk("S", p)
                I.wr(st, mk("F", pl, KV + "::KeyValue::key"), mk("m", "column", 1, k, v), c.node)
                I.wr(st, mk("F", pl, KV + "::KeyValue::value"), mk("m", "column", 2, k, v), c.node)
                return [(st, const(names["HAS_PAIR"]))]
        return None

    def used(self, I, st, c, v):
        """Data is read: it must be that of the open mapping."""
        for t in subterms(v):
            if t.op == "bytes" and t.a[0] != st.ts[0]:
                self.ev(st, "stale", I.where(c.node), c.q)


def view_fields(P, rec, own):
    return [f for f in rec["fields"] if f is not own and views(P, f["t"])]


def set_old(I, st, P, rec, own, loaded):
    """An arbitrary state of the part: loaded from mapping 0 or empty."""
    for f in view_fields(P, rec, own):
        l = mk("F", BASE, f["q"])
        if "map<" in f["t"]:
            inner = f["t"][f["t"].index("map<"):]
            old = mk("m", "old", 2)
            val = mk("vec", (old,)) if "vector<" in inner else old
            I.storev(st, l, mk("map", ((mk("m", "old", 1), val),) if loaded else ()))
        elif "unique_ptr<" in f["t"]:
            if loaded:
                t = mk("O", mk("ctx"), mk("site", "old", f["q"]))
                st.store[t] = mk("db", mk("bytes", 0), mk("size", 0), TRUE)
                I.storev(st, l, mk("p", t))
            else:
                I.storev(st, l, NULL)
        elif "vector<" in f["t"]:
            I.storev(st, l, mk("vec", (mk("m", "old", 1),) if loaded else ()))
        else:
            raise AnalysisError("%s: a view of mapped data kept in a way the check does not know: %s" % (f["q"], f["t"]))


def content(I, st, f):
    """What a view field holds: () when nothing."""
    v = I.resolve(st, I.load(st, mk("F", BASE, f["q"])))
    if v is NULL:
        return ()
    if v.op == "map":
        return tuple((k, tuple(x.a[0]) if x.op == "vec" else (x,)) for k, x in v.a[0])
    if v.op == "vec":
        return tuple(v.a[0])
    if v.op == "p":
        return (I.resolve(st, I.load(st, v.a[0])),)
    return (v,)


def text(x):
    if isinstance(x, tuple):
        return ", ".join(text(y) for y in x) if x else "nothing"
    return show(x, 0, 4)


def method_at(P, cls, name, nparam, first=None):
    for f in P.functions.values():
        if f["q"] == cls + "::" + name and f.get("body") is not None and len(f["params"]) == nparam and (
                first is None or first in f["pt"][0]):
            return f
    return None


def run_part(P, cls, name, opens=True, loaded=True, records=1, nparam=0, first=None, start=None, mapped="auto"):
    """[(state, value)] of calling a method of the part in a given state; start: continue from (state, interp)."""
    f = method_at(P, cls, name, nparam, first)
    if f is None:
        raise AnalysisError("anchor vanished: %s::%s" % (cls, name))
    rec, own = owners(P)[cls]
    if start is None:
        C = Part(P, opens, (0 if loaded else None) if mapped == "auto" else mapped, records)
        C.entry = f["q"]
        I = Interp(P, C)
        C.I = I
        st = I.new_state()
        st.ts = C.init_ts()
        set_old(I, st, P, rec, own, loaded)
    else:
        st, I = start
        st = st.copy()
        I.C.opens = opens
    c = eng.bind(I, f, THIS, st)
    st.facts[mk("==", THIS, NULL)] = False
    return [(s, v) for s, v in I.inline(st, f, c, c.node)], I, f
