"""What choosing a candidate does to the lattice, evaluated for every small shape with symbolic phrases."""
import eng
from terms import *
from interp import *
from shape import *
from gridshape import RG, MAX, THIS, OBJ, READ, SPANS, method, known_null

NODE = RG + "::Node"
UNI, ITER, OT = NODE + "::unigrams_", NODE + "::unigramIter_", NODE + "::overrideType_"


def node_of(i, l):
    return mk("param", "ghost", "node%d_%d" % (i, l))


def rd(n):
    return mk("param", "ghost", "reading of " + n.a[1])


class Lat(Shape):
    """A lattice of n readings where every phrase is present."""

    def __init__(self, P, n, gone=(), follow=()):
        Shape.__init__(self, P, lambda f: "::Unigram::" in f["q"] or f["q"].startswith(RG) and (not f["q"].startswith(NODE) or base_name(f["q"]) in follow))
        self.size, self.gone = n, gone
        self.log = []
        self.bad = []
        self.accept = None
        self.same = None

    def nodes(self):
        return [(i, l) for i in range(self.size) for l in range(1, MAX + 1) if i + l <= self.size and (i, l) not in self.gone]

    def on_noreturn(self, I, st, call):
        return "assert" in call.q

    def span_at(self, I, st, c):
        t = I.resolve(st, c.this)
        l = t.a[0] if t.op == "p" else mk("S", t)
        if l.op == "E" and l.a[0] is mk("F", OBJ, SPANS):
            i = cval(I.resolve(st, l.a[1]))
            if isinstance(i, int):
                if not 0 <= i < self.size:
                    self.bad.append((I.where(c.node), "span %d of %d" % (i, self.size)))
                return i
        if l.op == "S" and l.a[0].op == "param" and l.a[0].a[1].startswith("span"):
            return int(l.a[0].a[1][4:])
        raise AnalysisError("%s: a span that cannot be followed: %s" % (I.where(c.node), show(l, 0, 4)))

    def which(self, I, st, t):
        t = I.resolve(st, t)
        for i, l in self.nodes():
            n = node_of(i, l)
            if t is n or t.op == "p" and t.a[0].op == "S" and t.a[0].a[0] is n:
                return n, i, l
        return None

    def start(self, I, st):
        I.storev(st, mk("F", OBJ, READ), mk("vec", tuple(mk("param", "ghost", "reading%d" % i) for i in range(self.size))))
        I.storev(st, mk("F", OBJ, SPANS), mk("vec", tuple(mk("param", "ghost", "span%d" % i) for i in range(self.size))))
        for i, l in self.nodes():
            I.assume(st, I.mkeq(node_of(i, l), NULL), False)
            for j, k in self.nodes():
                if (j, k) > (i, l):
                    I.assume(st, I.mkeq(node_of(i, l), node_of(j, k)), False)
                    I.assume(st, I.mkeq(node_of(j, k), node_of(i, l)), False)

    def model(self, I, st, c):
        n = base_name(c.q)
        if c.q.startswith(RG + "::Span::"):
            i = self.span_at(I, st, c)
            have = [l for j, l in self.nodes() if j == i]
            if n == "maxLength":
                return [(st, const(max(have, default=0)))]
            if n == "nodeOf":
                k = cval(I.resolve(st, c.args[0]))
                if not isinstance(k, int) or not 1 <= k <= MAX:
                    self.bad.append((I.where(c.node), "a node of length %s" % k))
                return [(st, node_of(i, k) if k in have else NULL)]
            raise AnalysisError("%s: %s while choosing" % (I.where(c.node), n))
        if c.q.startswith(NODE + "::"):
            w = self.which(I, st, c.this)
            if w is None:
                raise AnalysisError("%s: a node that cannot be followed: %s" % (I.where(c.node), show(I.resolve(st, c.this), 0, 4)))
            nd, i, l = w
            if n == "spanningLength":
                return [(st, const(l))]
            if n == "reading":
                loc = mk("L", "ghost", "reading of " + nd.a[1])
                st.store[loc] = rd(nd)
                return [(st, mk("lref", loc))]
            if n == "unigrams":
                loc = mk("L", "ghost", "unigrams of " + nd.a[1])
                st.store[loc] = mk("vec", tuple(mk("param", "ghost", "unigram %d of %s" % (x, nd.a[1])) for x in range(2)))
                return [(st, mk("lref", loc))]
            if n == "selectOverrideUnigram":
                ok = self.accept is not None and nd is self.accept
                self.note(st, ("try", nd, tuple(I.resolve(st, a) for a in c.args)))
                return [(st, TRUE if ok else FALSE)]
            if n == "reset":
                self.note(st, ("reset", nd))
                return [(st, VOID)]
        if self.same is not None and n in ("operator==", "operator!=") and len(c.args) == 2:
            r = [x for x in (strip(I.resolve(st, a)) for a in c.args)]
            for a, b in (r, r[::-1]):
                if a.op == "param" and a.a[1].startswith("reading of "):
                    eq = a is rd(self.same)
                    return [(st, TRUE if eq == (n == "operator==") else FALSE)]
        return None

    def note(self, st, e):
        st.ts = (st.ts or ()) + (e,)

    def init_ts(self):
        return ()


def strip(v):
    return v


def cover(C, loc):
    return {(i, l) for i, l in C.nodes() if i <= loc < i + l}


def overlapping(P, rep, sizes):
    rep.rule("the phrases found at a position are all those lying over it and no others")
    f = method(P, RG + "::overlappingNodesAt")
    for n in sizes:
        for loc in range(n + 2):
            for gone in ((), tuple((0, k) for k in range(2, 7, 2))):
                C = Lat(P, n, gone)
                I = Interp(P, C)

                def prep(I, st, c):
                    C.start(I, st)
                    c.args = [const(loc)]
                rs = eng.run_fn(I, C, f, prep, this=THIS)
                rep.count("positions examined")
                if len(rs) != 1:
                    raise AnalysisError("overlappingNodesAt is not evaluated at %d of %d" % (loc, n))
                s, v = rs[0]
                v = I.resolve(s, v)
                got = []
                for x in elements(I, s, v, f):
                    nd = C.which(I, s, I.fld(s, x, RG + "::NodeInSpan::node"))
                    si = cval(I.resolve(s, I.fld(s, x, RG + "::NodeInSpan::spanIndex")))
                    got.append((nd, si))
                want = cover(C, loc) if loc < n else set()
                bad(rep, C, "overlappingNodesAt", f)
                if any(nd is None or nd[1] != si for nd, si in got) or len(got) != len(want) or {(nd[1], nd[2]) for nd, si in got if nd} != want:
                    rep.violation("overlappingNodesAt:set", I.where({"l": f["l"]}), "position %d of %d: the phrases found are %s, not %s" % (
                        loc, n, sorted((si, nd[2] if nd else None) for nd, si in got), sorted(want)), trace_list(s))


def elements(I, s, v, f):
    out = []
    while v.op == "push":
        out.insert(0, v.a[1])
        v = v.a[0]
    if v.op != "vec":
        raise AnalysisError("%s: the result is not evaluated: %s" % (f["q"], show(v, 0, 3)))
    return [I.resolve(s, x) for x in list(v.a[0]) + out]


def bad(rep, C, key, f):
    for w, t in C.bad:
        rep.violation("%s:index" % key, w, "%s is looked at while %d are composed" % (t, C.size), [])


def override(P, rep, sizes):
    rep.rule("choosing a value pins the phrase that has it, frees every other phrase lying over one of its readings, and touches nothing else; when no phrase at the position has it nothing changes")
    fs = [f for f in P.functions.values() if f["q"] == RG + "::overrideCandidate" and f.get("body") is not None and
          (f["params"][1]["t"].endswith("Candidate &") or f["params"][1]["t"].endswith("> &") and len(f["params"]) == 3)]
    if len(fs) != 2:
        raise AnalysisError("anchor vanished: overrideCandidate(position, candidate)")
    for f in fs:
        whole = f["params"][1]["t"].endswith("Candidate &")
        for n in sizes:
            for loc in range(n + 2):
                base = Lat(P, n)
                eff = loc if loc < n else n - 1
                cands = [None] + (sorted(cover(base, eff)) if n and loc <= n else [])
                for a in cands:
                    C = Lat(P, n)
                    I = Interp(P, C)
                    C.accept = node_of(*a) if a else None
                    C.same = None
                    arg = mk("param", f["q"], "&" + f["params"][1]["n"])
                    ob = mk("obj", arg)
                    if whole:
                        C.same = C.accept if a else node_of(98, 1)

                    def prep(I, st, c):
                        C.start(I, st)
                        c.args = [const(loc)] + list(c.args[1:])
                    for s, v in eng.run_fn(I, C, f, prep, this=THIS):
                        rep.count("choices evaluated")
                        r = I.decide(s, I.truth(v))
                        w = I.where({"l": f["l"]})
                        bad(rep, C, "overrideCandidate", f)
                        tries = [e for e in s.ts if e[0] == "try"]
                        resets = [e[1] for e in s.ts if e[0] == "reset"]
                        name = "%s at %d of %d" % ("no phrase" if a is None else "phrase %d+%d" % a, loc, n)
                        if r is not (a is not None):
                            rep.violation("overrideCandidate:result", w, "choosing %s: the result is %s" % (name, show(v, 0, 3)), trace_list(s))
                            continue
                        for _, nd, args in tries:
                            want = I.fld(s, ob, RG + "::Candidate::value") if whole else ob
                            if I.resolve(s, args[0]) is not I.resolve(s, want):
                                rep.violation("overrideCandidate:value", w, "choosing %s tries another value: %s" % (name, show(args[0], 0, 3)), trace_list(s))
                            if len(f["params"]) == 3 and I.resolve(s, args[1]) is not I.resolve(s, mk("param", f["q"], f["params"][2]["n"])):
                                rep.violation("overrideCandidate:kind", w, "choosing %s uses another kind of override than asked: %s" % (name, show(args[1], 0, 3)), trace_list(s))
                            if whole and C.same is not nd:
                                rep.violation("overrideCandidate:reading", w, "choosing %s tries a phrase with another reading" % name, trace_list(s))
                        if a is None:
                            want = set()
                        else:
                            want = {node_of(*x) for k in range(a[0], a[0] + a[1]) for x in cover(C, k)} - {C.accept}
                        got = set(resets)
                        if C.accept in got and [e for e in s.ts if e[1] is C.accept][-1][0] == "reset":
                            rep.violation("overrideCandidate:unpinned", w, "choosing %s: the chosen phrase is freed again" % name, trace_list(s))
                        got.discard(C.accept)
                        if got - want:
                            rep.violation("overrideCandidate:freed", w, "choosing %s also frees %s" % (name, sorted(x.a[1] for x in got - want)), trace_list(s))
                        if want - got:
                            rep.violation("overrideCandidate:kept", w, "choosing %s leaves %s as chosen before, though they share a reading with it" % (name, sorted(x.a[1] for x in want - got)), trace_list(s))


def candidates(P, rep, sizes):
    rep.rule("the candidates at a position are every value of every phrase lying over it, each with that phrase's reading, longer phrases first")
    f = method(P, RG + "::candidatesAt")
    for n in sizes:
        for loc in range(n + 2):
            C = Lat(P, n)
            I = Interp(P, C)

            def prep(I, st, c):
                C.start(I, st)
                c.args = [const(loc)]
            rs = eng.run_fn(I, C, f, prep, this=THIS)
            rep.count("candidate lists evaluated")
            if len(rs) != 1:
                raise AnalysisError("candidatesAt is not evaluated at %d of %d" % (loc, n))
            s, v = rs[0]
            bad(rep, C, "candidatesAt", f)
            got = []
            for x in elements(I, s, I.resolve(s, v), f):
                r = I.resolve(s, I.fld(s, x, RG + "::Candidate::reading"))
                val = I.resolve(s, I.fld(s, x, RG + "::Candidate::value"))
                nd = next((k for k in C.nodes() if r is rd(node_of(*k))), None)
                got.append((nd, val))
            eff = loc if loc < n else n - 1
            want = cover(C, eff) if n and loc <= n else set()
            w = I.where({"l": f["l"]})
            if {g[0] for g in got} != want:
                rep.violation("candidatesAt:phrases", w, "position %d of %d offers phrases %s, not %s" % (loc, n, sorted(str(g[0]) for g in got), sorted(want)), trace_list(s))
                continue
            for k in want:
                vals = [g[1] for g in got if g[0] == k]
                nm = node_of(*k).a[1]
                if len(vals) != 2 or not all(contains(val, lambda t, x=x: t.op == "param" and t.a[1] == "unigram %d of %s" % (x, nm)) for x, val in enumerate(vals)):
                    rep.violation("candidatesAt:values", w, "position %d of %d: the values offered for phrase %d+%d are not its own, in order: %s" % (loc, n, k[0], k[1], ", ".join(show(x, 0, 4) for x in vals)), trace_list(s))
            ls = [g[0][1] for g in got]
            if ls != sorted(ls, reverse=True):
                rep.violation("candidatesAt:order", w, "position %d of %d: a shorter phrase is offered before a longer one" % (loc, n), trace_list(s))


def contains(t, f):
    if f(t):
        return True
    for x in t.a:
        if isinstance(x, T) and contains(x, f):
            return True
        if isinstance(x, tuple) and any(isinstance(y, T) and contains(y, f) for y in x):
            return True
    return False


def node_ops(P, rep):
    rep.rule("a phrase node shows the value it was last made to show, its first one when free, and only ever one of its own values")
    vs = [mk("param", "ghost", "unigram%d" % x) for x in range(3)]
    enum = {k["n"].rsplit("::", 1)[-1]: k["v"] for k in P.enums[NODE + "::OverrideType"]["consts"]}
    kinds = {n: const(int(v)) for n, v in enum.items()}
    if "kNone" not in kinds or len(kinds) != 3:
        raise AnalysisError("anchor vanished: OverrideType")
    UL = mk("F", OBJ, UNI)
    UV = "Formosa::Gramambular2::LanguageModel::Unigram::value_"
    US = "Formosa::Gramambular2::LanguageModel::Unigram::score_"

    class N(Shape):
        bad = ()

        def __init__(self):
            Shape.__init__(self, P, lambda f: f["q"].startswith(NODE + "::") or "Unigram::" in f["q"])

        def on_noreturn(self, I, st, call):
            return "assert" in call.q

        def on_index(self, I, st, loc, idx, node, kind):
            if loc is UL:
                i = cval(I.resolve(st, idx))
                if not isinstance(i, int) or not 0 <= i < self.k:
                    rep.violation("Node:index", I.where(node), "value %s of %d" % (i, self.k), trace_list(st))

    def cur(I, s):
        v = I.resolve(s, I.load(s, mk("F", OBJ, ITER)))
        if v.op == "p" and v.a[0].op == "E" and v.a[0].a[0] is UL:
            return cval(I.resolve(s, v.a[0].a[1]))
        return None

    def kind_of(I, s):
        return cval(I.resolve(s, I.load(s, mk("F", OBJ, OT))))
    none = cval(kinds["kNone"])
    for name in ("selectOverrideUnigram", "reset", "value", "currentUnigram", "score", "isOverridden"):
        f = method(P, NODE + "::" + name)
        w = lambda I: I.where({"l": f["l"]})
        for k in range(4):
            for at in range(max(k, 1)):
                for kn, kv in sorted(kinds.items()):
                    for ask in (sorted(kinds.values(), key=cval) if name.startswith("select") else [None]):
                        if ask is not None and cval(ask) == none:
                            continue
                        C = N()
                        C.k = k
                        I = Interp(P, C)

                        def prep(I, st, c):
                            I.storev(st, UL, mk("vec", tuple(vs[:k])))
                            I.storev(st, mk("F", OBJ, ITER), mk("p", mk("E", UL, const(at))))
                            I.storev(st, mk("F", OBJ, OT), kv)
                            if ask is not None:
                                c.args = [c.args[0], ask]
                        for s, v in eng.run_fn(I, C, f, prep, this=THIS):
                            rep.count("node operations evaluated")
                            r = I.resolve(s, v) if v is not None else None
                            i, t = cur(I, s), kind_of(I, s)

                            def say(text):
                                rep.violation("Node::%s" % name, w(I), "%s of a node with %d values showing %d (%s): %s" % (name, k, at, kn, text), trace_list(s))
                            val = lambda x: I.resolve(s, I.fld(s, vs[x], UV))
                            if name.startswith("select"):
                                want = mk("obj", mk("param", f["q"], "&" + f["params"][0]["n"]))
                                eq = [I.decide(s, I.mkeq(want, val(x))) if I.decide(s, I.mkeq(want, val(x))) is not None else I.decide(s, I.mkeq(val(x), want)) for x in range(k)]
                                d = I.decide(s, I.truth(v))
                                if d is True and not (i is not None and i < k and eq[i] is True and t == cval(ask)):
                                    say("reported chosen, but shows value %s with override %s" % (i, t))
                                if d is False and (any(e is not False for e in eq) or i != at or t != cval(kv)):
                                    say("reported not found, but it was there or the node changed")
                                if d is None:
                                    say("undecided")
                            elif name == "reset":
                                if i != 0 or t != none:
                                    say("left showing %s with override %s" % (i, t))
                            else:
                                if i != at or t != cval(kv):
                                    say("changes the node")
                                if name == "isOverridden" and I.decide(s, I.truth(v)) is not (cval(kv) != none):
                                    say("reports %s" % show(v, 0, 3))
                                if name == "value" and r is not (val(at) if k else const(b"")):
                                    say("gives %s" % show(r, 0, 3))
                                if name == "currentUnigram" and k and I.resolve(s, I.fld(s, r, UV)) is not val(at):
                                    say("gives %s" % show(r, 0, 3))
                                if name == "score" and k:
                                    sc = {"kNone": I.fld(s, vs[at], US), "kOverrideValueWithScoreFromTopUnigram": I.fld(s, vs[0], US)}.get(kn)
                                    if sc is not None and r is not I.resolve(s, sc):
                                        say("scores %s" % show(r, 0, 3))
                                    if sc is None and not (cval(r) is not None and float(cval(r)) > 0):
                                        say("a pinned node scores %s, which does not outweigh every phrase" % show(r, 0, 3))
    # a new node
    f = next((f for f in P.functions.values() if f["q"].startswith(NODE + "::Node") and f.get("ctor") and len(f["params"]) == 3), None)
    if f is None:
        raise AnalysisError("anchor vanished: Node constructor")
    C = N()
    C.k = 3
    I = Interp(P, C)
    for s, v in eng.run_fn(I, C, f, None, this=THIS):
        rep.count("node operations evaluated")
        if cur(I, s) != 0 or kind_of(I, s) != none:
            rep.violation("Node:new", I.where({"l": f["l"]}), "a new node shows value %s with override %s" % (cur(I, s), kind_of(I, s)), trace_list(s))
    rep.need("node operations evaluated", 30)


# ---------------------------------------------------------------- what key handling asks of the lattice
def keyhandling(P, rep):
    import gridkh, kh, models
    rep.rule("the candidates offered and the phrase a choice pins are those at one and the same position: the reading at the cursor or the one before it, as the preference says")
    rep.rule("choosing a candidate asks the lattice for exactly that candidate's reading and value, or in plain mode commits exactly its value")

    flag = next((f["q"] for f in P.records[kh.KH]["fields"] if f["n"] == "selectPhraseAfterCursorAsCandidate_"), None)
    mode = next((f["q"] for f in P.records[kh.KH]["fields"] if f["t"].endswith("InputMode")), None)
    if flag is None or mode is None:
        raise AnalysisError("anchor vanished: KeyHandler preference fields")
    modes = {k["n"].rsplit("::", 1)[-1]: int(k["v"]) for k in P.enums[kh.NS + "InputMode"]["consts"]}

    class Pin(gridkh.GridKH):
        def on_call(self, I, st, c):
            n = base_name(c.q)
            if c.fn.get("cls") == kh.GRID and n in ("candidatesAt", "overrideCandidate") and c.objloc is not None and self.is_grid(I, st, c):
                self.log(I, st, c, n)
            return gridkh.GridKH.on_call(self, I, st, c)

        def log(self, I, st, c, n):
            self.calls.append((n, cval(I.resolve(st, c.args[0])), I.resolve(st, c.args[1]) if len(c.args) > 1 else None, I, st.copy(), c))

        def at_most(self, *a, **k):
            return True

        def on_enter_state(self, I, st, node, kind, p):
            self.states.append((kind, I.load(st, p.a[0]) if p.op == "p" else None, I, st.copy(), node))

        def v(self, *a, **k):
            pass

    entries = {base_name(f["q"]): f for f in gridkh.entries(P)}
    for need in ("candidateSelected", "buildChoosingCandidateState", "candidateAssociatedPhraseSelected"):
        if need not in entries:
            raise AnalysisError("anchor vanished: KeyHandler::" + need)
    CAND = kh.ST + "ChoosingCandidate::Candidate"
    GC = RG + "::Candidate"
    for name in ("candidateSelected", "buildChoosingCandidateState", "candidateAssociatedPhraseSelected"):
        f = entries[name]
        for after in (False, True):
            for mn, mv in sorted(modes.items()):
                if name == "candidateAssociatedPhraseSelected" and mn == "PlainBopomofo":
                    continue
                for n in range(0 if name.startswith("build") else 1, 4):
                    for cur in range(n + 1):
                        C = Pin(P, rep, frozenset())
                        C.calls, C.states = [], []
                        I = Interp(P, C)
                        C.index_params = ()

                        def prep(st):
                            st.store[gridkh.LEN] = st.store[gridkh.WLEN] = const(n)
                            I.storev(st, mk("F", C.LG, gridkh.CUR), const(cur))
                            I.storev(st, mk("F", mk("S", C.this), flag), TRUE if after else FALSE)
                            I.storev(st, mk("F", mk("S", C.this), mode), const(mv))
                        gridkh.run_entry(I, C, f, prep)
                        at = cur if after and cur < n else max(cur - 1, 0)
                        rep.count("choices and listings by key handling")
                        for call in C.calls:
                            k, i, arg, I2, s, c = call
                            w = I.where(c.node)
                            if name != "candidateAssociatedPhraseSelected" and i != at and (k == "candidatesAt") == name.startswith("build"):
                                rep.violation("%s:position" % name, w, "%s asks for the candidates at %s, not %d, with the cursor at %d of %d and candidates %s the cursor" % (
                                    name, show(i) if isinstance(i, T) else i, at, cur, n, "after" if after else "before"), trace_list(s))
                            if k == "overrideCandidate" and name == "candidateSelected":
                                if mn == "PlainBopomofo":
                                    rep.violation("%s:plain" % name, w, "plain mode pins a phrase", trace_list(s))
                                    continue
                                o = mk("obj", mk("param", f["q"], "&" + f["params"][0]["n"]))
                                for fld in ("reading", "value"):
                                    got, want = I.resolve(s, I.fld(s, arg, GC + "::" + fld)), I.resolve(s, I.fld(s, o, CAND + "::" + fld))
                                    rep.count("choices handed on")
                                    if got is not want:
                                        rep.violation("%s:%s" % (name, fld), w, "the %s asked for is %s, not that of the chosen candidate (%s)" % (fld, show(got, 0, 3), show(arg, 0, 4)), trace_list(s))
                        if name == "candidateSelected" and mn != "PlainBopomofo" and not any(x[0] == "overrideCandidate" for x in C.calls):
                            rep.violation("%s:unused" % name, I.where({"l": f["l"]}), "a choice is never handed to the lattice", [])
                        if name == "candidateAssociatedPhraseSelected":
                            o = mk("obj", mk("param", f["q"], "&" + f["params"][1]["n"]))
                            want = I.fld(C.calls[0][4], o, CAND + "::value") if C.calls else None
                            if not any(k == "overrideCandidate" and strip(I2.resolve(s, a)) is I2.resolve(s, want) for k, i, a, I2, s, c in C.calls):
                                rep.violation("%s:unused" % name, I.where({"l": f["l"]}), "the chosen phrase is never asked of the lattice", [])
                        if name == "candidateSelected" and mn == "PlainBopomofo":
                            o = mk("obj", mk("param", f["q"], "&" + f["params"][0]["n"]))
                            com = [x for x in C.states if x[0] == kh.ST + "Committing"]
                            if not com:
                                rep.violation("%s:plain" % name, I.where({"l": f["l"]}), "a choice in plain mode is not committed", [])
                            for k, ob, I2, s, node in com:
                                fl = kh.field_of(P, kh.ST + "Committing", lambda t: models.is_string_type(t))
                                got = I2.resolve(s, I2.fld(s, ob, fl))
                                if got is not I2.resolve(s, I2.fld(s, o, CAND + "::value")):
                                    rep.violation("%s:plain value" % name, I.where(node), "plain mode commits %s, not the chosen value" % show(got, 0, 3), trace_list(s))
    rep.need("choices and listings by key handling", 20)
