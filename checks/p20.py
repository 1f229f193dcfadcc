"""P20: the learning model's memory stays within its capacity, list and table agree, the least recently used goes."""
import eng, models
from program import walk
from terms import *
from interp import *
from shape import *
from common import TRUSTED
TECHNIQUE = "abstract evaluation of observe and suggest from an arbitrary consistent memory (symbolic contexts, every outcome of every key comparison) with exact models of the linked list and the table; the resulting list, table, counts and time stamps are compared with the specified ones (an inductive invariant)"
ASSUMPTIONS = TRUSTED + ["the store is reached only through its own methods (its members are private)", "the invariant is shown for memories of up to three contexts and capacities of up to three; the code treats sizes only through comparisons with the capacity"]
NOTE = "Static: one step from an arbitrary consistent memory, contexts and candidates symbolic; sizes are small constants."

CLS = "McBopomofo::UserOverrideModel"
THIS = mk("this")
LIST = mk("F", mk("S", THIS), CLS + "::lruList_")
TABLE = mk("F", mk("S", THIS), CLS + "::lruMap_")
CAP = mk("F", mk("S", THIS), CLS + "::capacity_")
OBS, OVR = CLS + "::Observation", CLS + "::Override"


def node(i):
    return mk("Tmp", "node", i)


def dead(t):
    return eng.contains(t, lambda x: x.op == "deadnode")


class Lru(Shape):
    """Exact std::list of known nodes; iterators name nodes, so they survive splicing."""
    exact_sets = True

    def __init__(self, P):
        Shape.__init__(self, P, lambda f: f["repo"])

    def init_ts(self):
        return (0, ())                       # nodes made, errors

    def err(self, st, what):
        st.ts = (st.ts[0], st.ts[1] + (what,))

    def new(self, I, st, v):
        n = ("new", st.ts[0])
        st.ts = (st.ts[0] + 1, st.ts[1])
        st.store[node(n)] = v
        return n

    def it(self, I, st, t):
        t = I.resolve(st, t)
        if t.op == "lref":
            t = I.resolve(st, I.load(st, t.a[0]))
        return t if t.op == "lit" else None

    def model(self, I, st, c):
        q = models.canon(c.q)
        n = q.split("::")[-1]
        a = c.args
        for x in list(a) + ([I.load(st, c.objloc)] if c.objloc is not None else []):
            if isinstance(x, T) and dead(I.load(st, x.a[0]) if x.op == "lref" else x):
                self.err(st, "%s: an entry that has been removed is used" % I.where(c.node))
        if q.startswith("std::list::"):
            return self.on_list(I, st, c, n, a)
        if c.q.startswith(("std::_List_iterator<", "std::_List_const_iterator<")):
            return self.on_iter(I, st, c, n, a)
        if n in ("operator==", "operator!=") and len(a) == 2:
            x, y = self.it(I, st, a[0]), self.it(I, st, a[1])
            if x is not None and y is not None:
                return [(st, TRUE if (x is y) == (n == "operator==") else FALSE)]
        if q in ("std::next", "std::prev"):
            x = self.it(I, st, a[0])
            k = I.resolve(st, a[1]) if len(a) > 1 else const(1)
            if x is not None and isc(k):
                return [(st, self.step(I, st, c, x, cval(k) * (1 if q == "std::next" else -1)))]
        if q in ("exp", "std::exp", "log", "std::log", "pow", "std::pow"):
            return [(st, mk("m", q, *[I.resolve(st, x) for x in a]))]
        return None

    def value(self, I, st, c):
        l, v = models.obj(I, st, c)
        if v.op != "list":
            raise AnalysisError("%s: a list that cannot be followed: %s" % (I.where(c.node), show(v, 0, 4)))
        return l, v

    def step(self, I, st, c, x, k):
        v = I.load(st, x.a[0])
        ids = list(v.a[0])
        if x.a[1] is None:
            i = len(ids)
        elif x.a[1] in ids:
            i = ids.index(x.a[1])
        else:
            self.err(st, "%s: an entry that has been removed is used" % I.where(c.node))
            return x
        if not 0 <= i + k <= len(ids):
            self.err(st, "%s: a step past the end of the list" % I.where(c.node))
            return x
        return mk("lit", x.a[0], ids[i + k] if i + k < len(ids) else None)

    def on_read(self, I, st, loc, node_):
        while loc.op in ("F", "E"):
            loc = loc.a[0]
        v = st.store.get(loc)
        if v is not None and v.op == "deadnode":
            self.err(st, "%s: an entry that has been removed is used" % I.where(node_))

    def on_list(self, I, st, c, n, a):
        if c.ctor:
            return None
        l, v = self.value(I, st, c)
        ids = list(v.a[0])

        def put(new):
            I.wr(st, l, mk("list", tuple(new)), c.node)
        if n in ("begin", "cbegin"):
            return [(st, mk("lit", l, ids[0] if ids else None))]
        if n in ("end", "cend"):
            return [(st, mk("lit", l, None))]
        if n == "size":
            return [(st, const(len(ids)))]
        if n == "empty":
            return [(st, FALSE if ids else TRUE)]
        if n in ("push_front", "push_back", "emplace_front", "emplace_back"):
            if n.startswith("emplace") and len(a) == 2:
                v = mk("pair", I.resolve(st, a[0]), I.resolve(st, a[1]))
            else:
                v = I.resolve(st, a[0])
            i = self.new(I, st, v)
            put([i] + ids if n.endswith("front") else ids + [i])
            return [(st, mk("lref", node(i)))]
        if n in ("pop_front", "pop_back"):
            if not ids:
                self.err(st, "%s: removing from an empty list" % I.where(c.node))
                return [(st, VOID)]
            st.store[node(ids[0 if n == "pop_front" else -1])] = mk("deadnode")
            put(ids[1:] if n == "pop_front" else ids[:-1])
            return [(st, VOID)]
        if n in ("front", "back"):
            if not ids:
                self.err(st, "%s: reading an empty list" % I.where(c.node))
                return [(st, mk("lref", node(("none", 0))))]
            return [(st, mk("lref", node(ids[0 if n == "front" else -1])))]
        if n == "clear":
            for i in ids:
                st.store[node(i)] = mk("deadnode")
            put([])
            return [(st, VOID)]
        its = [self.it(I, st, x) for x in a]
        if n == "splice" and len(a) == 3 and its[0] is not None and its[2] is not None:
            if its[2].a[1] not in ids or its[0].a[1] is not None and its[0].a[1] not in ids:
                self.err(st, "%s: an entry that has been removed is moved" % I.where(c.node))
                return [(st, VOID)]
            if its[2].a[1] != its[0].a[1]:
                ids.remove(its[2].a[1])
                ids.insert(ids.index(its[0].a[1]) if its[0].a[1] is not None else len(ids), its[2].a[1])
            put(ids)
            return [(st, VOID)]
        if n == "erase" and len(a) == 1 and its[0] is not None:
            if its[0].a[1] not in ids:
                self.err(st, "%s: an entry that is not there is removed" % I.where(c.node))
                return [(st, VOID)]
            i = ids.index(its[0].a[1])
            st.store[node(ids[i])] = mk("deadnode")
            put(ids[:i] + ids[i + 1:])
            return [(st, mk("lit", l, ids[i + 1] if i + 1 < len(ids) else None))]
        if n in ("insert", "emplace") and len(a) >= 2 and its[0] is not None:
            v = mk("pair", I.resolve(st, a[1]), I.resolve(st, a[2])) if len(a) == 3 else I.resolve(st, a[1])
            k = self.new(I, st, v)
            ids.insert(ids.index(its[0].a[1]) if its[0].a[1] is not None else len(ids), k)
            put(ids)
            return [(st, mk("lit", l, k))]
        raise AnalysisError("%s: a list operation that is not modelled: %s" % (I.where(c.node), n))

    def on_iter(self, I, st, c, n, a):
        if c.ctor:
            x = self.it(I, st, a[0]) if a else None
            if x is not None and c.this is not None:
                t = I.resolve(st, c.this)
                st.store[t.a[0] if t.op == "p" else mk("S", t)] = x
                return [(st, x)]
            return None
        if n in ("operator==", "operator!="):
            xs = [self.it(I, st, x) for x in ([I.load(st, c.objloc)] if c.objloc is not None else []) + list(a)]
            if len(xs) == 2 and None not in xs:
                return [(st, TRUE if (xs[0] is xs[1]) == (n == "operator==") else FALSE)]
        if c.objloc is None:
            return None
        l, v = models.obj(I, st, c)
        if n == "operator=":
            y = self.it(I, st, a[0])
            if y is not None:
                I.wr(st, l, y, c.node)
                return [(st, mk("lref", l))]
        x = self.it(I, st, v)
        if x is None:
            raise AnalysisError("%s: a list position that cannot be followed: %s" % (I.where(c.node), show(v, 0, 4)))
        if n in ("operator*", "operator->"):
            ids = I.load(st, x.a[0])
            if x.a[1] is None or ids.op == "list" and x.a[1] not in ids.a[0]:
                self.err(st, "%s: an entry that is not there is read" % I.where(c.node))
            return [(st, mk("lref", node(x.a[1])) if n == "operator*" else mk("p", node(x.a[1])))]
        if n in ("operator++", "operator--"):
            y = self.step(I, st, c, x, 1 if n == "operator++" else -1)
            I.wr(st, l, y, c.node)
            return [(st, x if a else mk("lref", l))]
        return None


def K(i):
    return mk("param", "context", i)


def override(i, j):
    return mk("s", OVR, tuple(sorted([(OVR + "::count", mk("param", "count", (i, j))), (OVR + "::timestamp", mk("param", "time", (i, j))),
                                      (OVR + "::forceHighScoreOverride", mk("param", "force", (i, j)))])), None)


def observation(i, m):
    return mk("s", OBS, tuple(sorted([(OBS + "::count", mk("param", "total", i)),
                                      (OBS + "::overrides", mk("map", tuple((mk("param", "candidate", (i, j)), override(i, j)) for j in range(m))))])), None)


def distinct(I, st, ts):
    for n, a in enumerate(ts):
        for b in ts[:n]:
            for t in (I.mkeq(a, b), I.mkeq(b, a), I.truth(models.str_eq(I, st, a, b)), I.truth(models.str_eq(I, st, b, a))):
                if t not in (TRUE, FALSE):
                    I.assume(st, t, False)


def memory(I, st, n, m, cap):
    """A consistent memory of n contexts with m candidates each."""
    I.storev(st, CAP, const(cap))
    ids = tuple(("old", i) for i in range(n))
    I.storev(st, LIST, mk("list", ids))
    for i in range(n):
        st.store[node(("old", i))] = mk("pair", K(i), observation(i, m))
    I.storev(st, TABLE, mk("map", tuple((K(i), mk("lit", LIST, ("old", i))) for i in range(n))))
    distinct(I, st, [K(i) for i in range(n)])
    for i in range(n):
        distinct(I, st, [mk("param", "candidate", (i, j)) for j in range(m)])


def contents(I, s):
    """The memory as [(node, key, observation)] in recency order, and the table as {key: node}."""
    v, t = I.load(s, LIST), I.load(s, TABLE)
    if v.op != "list" or t.op != "map":
        raise AnalysisError("the memory is not evaluated")
    out = []
    for i in v.a[0]:
        p = I.load(s, node(i))
        if p.op != "pair":
            raise AnalysisError("an entry is not evaluated: %s" % show(p, 0, 4))
        out.append((i, I.resolve(s, p.a[0]), I.resolve(s, I.load(s, mk("F", node(i), "std::pair::second")))))
    tab = []
    for k, x in t.a[0]:
        x = I.resolve(s, I.load(s, mk("E", TABLE, k)))
        tab.append((I.resolve(s, k), x.a[1] if x.op == "lit" else show(x, 0, 3)))
    return out, tab


def same(I, s, a, b):
    a, b = I.resolve(s, a), I.resolve(s, b)
    if a is b:
        return True
    return I.decide(s, I.truth(models.str_eq(I, s, a, b))) is True or I.decide(s, I.mkeq(a, b)) is True


def fields(I, s, v):
    v = I.resolve(s, v)
    return {k.split("::")[-1]: I.resolve(s, x) for k, x in v.a[1]} if v.op == "s" else {}


def learned(I, s, obs, m, i, cand, ts, force):
    """What an observation of cand turns entry i (None: a new one) into: a list of complaints."""
    d = fields(I, s, obs)
    if set(d) != {"count", "overrides"} or d["overrides"].op != "map":
        raise AnalysisError("an observation is not evaluated: %s" % show(obs, 0, 5))
    bad = []
    base = mk("param", "total", i) if i is not None else ZERO
    if not plus_one(I, s, d["count"], base):
        bad.append("the context's count becomes %s" % show(d["count"], 0, 3))
    want = {mk("param", "candidate", (i, j)): j for j in range(m)} if i is not None else {}
    hit = False
    for k, o in d["overrides"].a[0]:
        o = fields(I, s, o)
        mine = same(I, s, k, cand)
        j = next((j for c, j in want.items() if same(I, s, k, c)), None)
        if j is not None:
            want = {c: x for c, x in want.items() if x != j}
        if mine:
            hit = True
            if not plus_one(I, s, o.get("count", VOID), mk("param", "count", (i, j)) if j is not None else ZERO):
                bad.append("the observed candidate's count becomes %s" % show(o.get("count", VOID), 0, 3))
            if o.get("timestamp") is not ts:
                bad.append("the observed candidate's time becomes %s" % show(o.get("timestamp", VOID), 0, 3))
            if o.get("forceHighScoreOverride") is not I.resolve(s, force):
                bad.append("the observed candidate's strength becomes %s" % show(o.get("forceHighScoreOverride", VOID), 0, 3))
        elif j is None or o != fields(I, s, override(i, j)):
            bad.append("another candidate is changed")
    if not hit:
        bad.append("the observed candidate is not kept")
    if want:
        bad.append("a candidate learned before is forgotten")
    return bad


def plus_one(I, s, v, base):
    v = I.resolve(s, v)
    return lin_add(v, base, -1) is const(1) or v is lin_add(base, const(1)) or v.op in ("wrap", "ucast") and plus_one(I, s, v.a[0], base)


def check(P, rep, f, cap, n, m, show_only=False):
    C = Lru(P)
    I = Interp(P, C)
    name = f["q"].split("::")[-1]
    key, cand, ts, force = (mk("param", "ghost", x) for x in ("context", "candidate", "timestamp", "force"))

    def prep(I, st, c):
        memory(I, st, n, m, cap)
        vals = {"observe": (key, cand, ts, force), "suggest": (key, ts)}[name]
        for i, v in enumerate(vals):
            if c.alocs[i] is not None:
                st.store[c.alocs[i]] = v
        c.args = vals
    w = I.where({"l": f["l"]})
    for s, v in eng.run_fn(I, C, f, prep, this=THIS):
        rep.count("ways evaluated (%s)" % name)
        tr = trace_list(s)
        for e in s.ts[1]:
            rep.violation("use:" + name, w, "after any history: " + e, tr)
        got, tab = contents(I, s)
        # list and table agree
        pairs = [(k, i) for i, k, _ in got]
        if len(tab) != len(pairs) or not all(any(i == j and same(I, s, k, l) for l, j in tab) for k, i in pairs):
            rep.violation("agree:" + name, w, "the recency list holds %s, the table %s" % (
                ", ".join(show(k, 0, 2) for k, _ in pairs) or "nothing", ", ".join("%s at %s" % (show(k, 0, 2), i) for k, i in tab) or "nothing"), tr)
        if len(got) > cap:
            rep.violation("capacity:" + name, w, "%d contexts are held with a capacity of %d" % (len(got), cap), tr)
        at = next((i for i in range(n) if same(I, s, key, K(i))), None)
        if name == "suggest":
            if [g[0] for g in got] != [("old", i) for i in range(n)] or any(o is not I.resolve(s, observation(g[1], m)) for g, _, o in got):
                rep.violation("changed:suggest", w, "asking for a suggestion changes the memory", tr)
            suggestion(I, rep, s, v, at, m, w, tr)
            continue
        if at is None:
            want = [None] + list(range(n))
            want = want[:cap]
        else:
            want = [at] + [i for i in range(n) if i != at]
        ks = [key if i is None else K(i) for i in want]
        if len(got) != len(ks) or not all(same(I, s, g[1], k) for g, k in zip(got, ks)):
            rep.violation("recency:observe", w, "with %s holding %d of %d contexts, observing %s leaves %s in order of use" % (
                "the memory", n, cap, "a new context" if at is None else "context %d" % at, ", ".join(show(g[1], 0, 2) for g in got) or "nothing"), tr)
            continue
        for (g, k, o), i in zip(got, want):
            if k is I.resolve(s, ks[0]) or same(I, s, k, key):
                for b in learned(I, s, o, m, i, cand, ts, force):
                    rep.violation("learn:observe", w, b, tr)
            elif fields(I, s, o) != fields(I, s, I.resolve(s, observation(i, m))):
                rep.violation("learn:observe", w, "observing one context changes another", tr)


def suggestion(I, rep, s, v, at, m, w, tr):
    v = I.resolve(s, v)
    d = fields(I, s, v)
    if "candidate" not in d:
        raise AnalysisError("%s: the suggestion is not evaluated: %s" % (w, show(v, 0, 4)))
    c, force = d["candidate"], d.get("forceHighScoreOverride")
    if c.op == "c" and not c.a[0]:
        return
    j = next((j for j in range(m) if at is not None and c is I.resolve(s, mk("param", "candidate", (at, j)))), None)
    if j is None:
        rep.violation("suggest", w, "%s is suggested, which was not learned in this context" % show(c, 0, 3), tr)
    elif force is not I.resolve(s, mk("param", "force", (at, j))):
        rep.violation("suggest", w, "a suggestion carries the strength of another", tr)


def run(P, rep, tier):
    rep.rule("from every consistent memory, an observation leaves list and table with the same contexts, no more than the capacity, the observed one most recent and the others in their order; a new context at capacity displaces the least recent")
    rep.rule("an observation counts once, for its context and its candidate, with its time and strength, and changes nothing else; asking for a suggestion changes nothing and returns a candidate learned in that context, with its own strength, or none")
    rep.rule("the store is made with a capacity of at least one, and starts empty")
    obs = [f for f in P.functions.values() if f["q"] == CLS + "::observe" and f.get("body") is not None and "basic_string" in f["pt"][0]]
    sug = [f for f in P.functions.values() if f["q"] == CLS + "::suggest" and f.get("body") is not None and "basic_string" in f["pt"][0]]
    if len(obs) != 1 or len(sug) != 1:
        raise AnalysisError("the store's operations are gone")
    top = 3 if tier == "quick" else 4
    for cap in range(1, top + 1):
        for n in range(0, cap + 1):
            for m in (1, 2):
                check(P, rep, obs[0], cap, n, m)
    for n in range(0, 3):
        for m in (1, 2) if tier == "quick" else (1, 2, 3):
            check(P, rep, sug[0], 3, n, m)
    made(P, rep)
    rep.need("ways evaluated (observe)", 10)
    rep.need("ways evaluated (suggest)", 4)
    rep.need("stores made", 1)
    return {}


def made(P, rep):
    ctor = [f for f in P.functions.values() if f["q"] == CLS + "::UserOverrideModel" and f.get("ctor") and "unsigned long" in (f["pt"] or [""])[0] and f.get("body") is not None]
    if len(ctor) != 1:
        raise AnalysisError("the store's constructor is gone")
    C = Lru(P)
    I = Interp(P, C)
    cap = mk("param", "ghost", "capacity")

    def prep(I, st, c):
        for i, v in enumerate((cap, mk("param", "ghost", "half life"))):
            if c.alocs[i] is not None:
                st.store[c.alocs[i]] = v
        c.args = (cap, mk("param", "ghost", "half life"))
        I.assume(st, I.mkeq(cap, ZERO), False)
    for s, _ in eng.run_fn(I, C, ctor[0], prep, this=THIS):
        if I.resolve(s, I.load(s, CAP)) is not I.resolve(s, cap):
            rep.violation("made", I.where({"l": ctor[0]["l"]}), "the store's capacity is not the one it is made with", trace_list(s))
    for f in P.functions.values():
        if not f.get("repo") or f.get("body") is None:
            continue
        for x in walk([f["body"], f.get("inits") or []]):
            fn = x.get("fn")
            if isinstance(fn, dict) and fn.get("u") == ctor[0].get("u"):
                rep.count("stores made")
                k = const_arg(P, x["args"][0])
                if k is None or k < 1:
                    rep.violation("made", "src/" + x["l"], "the store is made with a capacity that is not a positive constant", [])


def const_arg(P, n):
    while isinstance(n, dict):
        if "v" in n:
            try:
                return int(n["v"])
            except (TypeError, ValueError):
                return None
        if n.get("k") == "DeclRefExpr":
            g = P.globals.get(n.get("d"))
            n = g.get("init") if g else None
            continue
        n = (n.get("c") or [None])[0]
    return None
