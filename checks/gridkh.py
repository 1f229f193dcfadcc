"""Grid positions in key handling: the lattice is its length and cursor, by the effects proved for its operations."""
import kh, models
from kh import *
from terms import *
from interp import *

READ, SPANS, CUR = GRID + "::readings_", GRID + "::spans_", GRID + "::cursor_"
WR = GRID + "::WalkResult"
N0 = mk("param", "ghost", "n")
LEN, WLEN = mk("L", "ghost", "len"), mk("L", "ghost", "wlen")     # readings now, and when the sentence was computed


def index_fields(P):
    """Fields of input states that hold a position in the lattice."""
    out = {}
    for k, names in (("ChoosingCandidate", ("originalCursor",)), ("Marking", ("markStartGridCursorIndex",)), ("AssociatedPhrases", ("prefixCursorIndex",))):
        rec = P.records.get(ST + k)
        if rec is None:
            raise AnalysisError("anchor vanished: class " + k)
        own = [f for f in rec["fields"] if f["t"].replace("const ", "") in ("size_t", "unsigned long")]
        hit = [f for f in own if f["n"] in names] or (own[:1] if k == "AssociatedPhrases" or len(own) == 1 else [])
        if not hit:
            raise AnalysisError("anchor vanished: lattice position kept by " + k)
        out[ST + k] = hit[0]["q"]
    return out


class GridKH(KHClient):
    num = True
    merge_limit = 12

    def __init__(self, P, rep, want):
        KHClient.__init__(self, P, rep, want)
        self.idx = index_fields(P)
        self.idxf = set(self.idx.values())
        self.texty = {k for k in P.records if k == ST + "NotEmpty" or P.derives(k, ST + "NotEmpty")}

    def opaque(self, I, fn):
        q = fn["q"]
        if q.startswith(WR + "::"):
            return True
        return KHClient.opaque(self, I, fn)

    def key(self, I, st):
        return KHClient.key(self, I, st)

    # ---------------------------------------------------------------- what is known on entry
    def axioms(self, I, st, t):
        if t.op == "fld" and t.a[1] in self.idxf:
            st.num.add(ZERO, t, 0)
            I.axioms(st, N0)
            st.num.add(t, N0, 0)
        elif t.op == "param" and t.a[1] != "ghost" and t in self.index_params:
            st.num.add(ZERO, t, 0)
            I.axioms(st, N0)
            st.num.add(t, N0, 0)
        elif t is N0:
            st.num.add(ZERO, t, 0)
        elif t.op == "m" and t.a[0] == "nodelen":
            st.num.add(ZERO, t, -1)

    index_params = ()

    def size(self, I, st):
        return I.resolve(st, st.store[LEN])

    def grid_len(self, I, st, g):
        return st.store[LEN]

    def fresh_len(self, I, st, node, tag):
        """The composition may have become anything: some length, and a cursor within it."""
        n, cu = mk("r", "len", tag, mk("at", I.ctx, I.site(node))), mk("r", "cursor", tag, mk("at", I.ctx, I.site(node)))
        for x in [x for x in st.facts if n in subs(x) or cu in subs(x)]:
            del st.facts[x]
        st.num.forget(lambda x: n in subs(x) or cu in subs(x))
        for t in (n, cu):
            I.utype.add(t)
            I.axioms(st, t)
            st.num.add(ZERO, t, 0)
        st.num.add(cu, n, 0)
        st.store[LEN] = st.store[WLEN] = n
        I.storev(st, mk("F", self.LG, CUR), cu)

    def external_selection(self, I, st, node):
        KHClient.external_selection(self, I, st, node)
        self.fresh_len(I, st, node, "selection")

    def walk_loop(self, fn):
        """Does this function go over the nodes of the sentence?"""
        k = fn["key"]
        if k not in self.loops:
            def has(n):
                if isinstance(n, dict):
                    if n.get("k") == "CXXForRangeStmt" and mentions(n, WR + "::nodes"):
                        return True
                    return any(has(x) for x in n.values())
                if isinstance(n, list):
                    return any(has(x) for x in n)
                return False
            self.loops[k] = has(fn["body"])
        return self.loops[k]

    loops = {}

    def on_enter(self, I, st, fn, call):
        if not self.quiet and fn.get("cls") == KH and self.walk_loop(fn):
            for i, p in enumerate(fn["params"]):
                if p["t"].replace("const ", "") in ("size_t", "unsigned long"):
                    self.at_most(I, st, call.args[i], "text is split at the cursor", call.node)

    def cursor(self, I, st):
        return I.resolve(st, I.load(st, mk("F", self.LG, CUR)))

    def on_usub(self, I, st, a, b, node):
        self.not_nothing(I, st)

    def not_nothing(self, I, st):
        """Assumed: a state with text on screen is only ever left current while something is composed."""
        if not st.ts.touched and not st.ts.rep and self.rd_empty(I, st) is True:
            if any(f.op == "isa" and b and f.a[0] in self.params and f.a[1] in self.texty for f, b in st.facts.items()):
                if not st.num.add(ZERO, N0, -1):
                    st.exc = "dead"

    def at_most(self, I, st, v, what, node, slack=0):
        v = I.resolve(st, v)
        n = self.size(I, st)
        self.ob("pos", I, node)
        if not (I.proves_le(st, ZERO, v) and I.proves_le(st, v, n, slack)):
            self.v("pos", I, st, node, "%s: %s is not proved to be a position in the composition" % (what, show(v, 0, 4)))
            return False
        return True

    # ---------------------------------------------------------------- lattice operations
    def on_call(self, I, st, c):
        q = c.q
        n = base_name(q)
        if q.startswith(WR + "::") and n == "findNodeAt":
            return self.find_node(I, st, c)
        if n == "hasUnigrams" and len(c.args) == 1:
            return [(st, mk("m", "known", I.resolve(st, c.args[0])))]
        if q == GRID + "::Node::spanningLength":
            return [(st, mk("m", "nodelen", I.resolve(st, c.this)))]
        if c.objloc is not None and c.fn.get("cls") == GRID and self.is_grid(I, st, c):
            L = self.LG
            rl, cl = mk("F", L, READ), mk("F", L, CUR)
            if n in ("insertReading", "deleteReadingBeforeCursor", "deleteReadingAfterCursor"):
                r = I.load(st, rl)
                cu = self.cursor(I, st)
                sz = self.size(I, st)
                self.mutated(I, st, c.node, "composition changes")
                out = []
                if n == "insertReading":
                    if not self.known(I, st, I.resolve(st, c.args[0])):
                        s2 = st.copy()
                        out.append((s2, FALSE))
                    I.storev(st, rl, mk("ins", r, cu, const(1), c.args[0]))
                    I.storev(st, cl, lin_add(cu, const(1)))
                    st.store[LEN] = lin_add(sz, const(1))
                    self.spans_changed(I, st, c)
                    out.append((st, TRUE))
                    return out
                guard = I.mkeq(cu, ZERO) if n == "deleteReadingBeforeCursor" else I.mkeq(cu, I.resolve(st, sz))
                for s, none in I.branch(st, guard):
                    if none:
                        out.append((s, FALSE))
                        continue
                    k = lin_add(cu, const(-1)) if n == "deleteReadingBeforeCursor" else cu
                    I.storev(s, rl, mk("ers", r, k, const(1)))
                    I.storev(s, cl, k)
                    s.store[LEN] = lin_add(sz, const(-1))
                    self.spans_changed(I, s, c)
                    self.shrunk(I, s, c.node)
                    out.append((s, TRUE))
                return out
            if n == "setCursor":
                st.ts = st.ts._replace(touched=True)
                self.at_most(I, st, c.args[0], "the cursor is set", c.node)
                I.storev(st, cl, I.resolve(st, c.args[0]))
                return [(st, VOID)]
            if n == "findInSpan":
                self.at_most(I, st, c.args[0], "a node is looked for", c.node)
                return None
            if n == "overrideCandidate":
                self.mutated(I, st, c.node, "composition changes")
                self.spans_changed(I, st, c)
                return [(st, mk("r", "overridden", mk("at", I.ctx, I.site(c.node))))]
            if n == "clear":
                self.shrunk(I, st, c.node)
                st.store[LEN] = ZERO
            if n == "length":
                return [(st, self.size(I, st))]
            if n == "walk":
                st.store[WLEN] = st.store[LEN]
        if c.objloc is not None and self.at(I, st, c, mk("F", self.LG, READ)):
            if n == "size":
                return [(st, self.size(I, st))]
            if n == "empty":
                return [(st, I.mkeq(self.size(I, st), ZERO))]
            if n in ("end", "cend"):
                return [(st, mk("p", mk("E", mk("F", self.LG, READ), self.size(I, st))))]
        return KHClient.on_call(self, I, st, c)

    def known(self, I, st, x):
        """The language model is known to accept this reading here (and the lattice refuses nothing else)."""
        if x.op == "c":
            if x.a[0] in (b"", b"-"):
                return False
            if always_known(self.P, x):
                return True
        return I.decide(st, mk("m", "known", x)) is True

    def spans_changed(self, I, st, c):
        # spans are only compared for being the same as at the last walk
        sl = mk("F", self.LG, SPANS)
        I.storev(st, sl, mk("changed", mk("at", I.ctx, I.site(c.node))))
        st.ts = st.ts._replace(fresh=False)

    def shrunk(self, I, st, node):
        if st.ts.added and "i" in st.ts.added:
            self.v("pos", I, st, node, "the composition shrinks after a state that keeps a position in it was entered")

    def find_node(self, I, st, c):
        """findNodeAt: past the end when there are no readings or the position is beyond them; else a node and where it ends."""
        t = I.resolve(st, c.this)
        w = I.load(st, t.a[0]) if t.op == "p" else mk("obj", t)
        nodes = mk("F", t.a[0] if t.op == "p" else mk("S", t), WR + "::nodes")
        nv = I.load(st, nodes)
        total = st.store[WLEN] if nodes.a[0] is self.LW else I.fld(st, w, WR + "::totalReadings")
        I.utype.add(total)
        end = mk("p", mk("E", nodes, models.size_of(I, st, nv)))
        pos = I.resolve(st, c.args[0])
        site = mk("at", I.ctx, I.site(c.node))
        out = []
        for s, empty in I.branch(st, I.mkeq(I.resolve(st, total), ZERO)):
            for s2, beyond in ([(s, True)] if empty else I.branch(s, I.mklt(total, pos))):
                if beyond:
                    out.append((s2, end))
                    continue
                k = mk("r", "found", site)
                o = mk("r", "foundend", site)
                for x in [x for x in s2.facts if k in subs(x) or o in subs(x)]:
                    del s2.facts[x]
                s2.num.forget(lambda x: k in subs(x) or o in subs(x))
                I.utype.add(k)
                I.utype.add(o)
                I.axioms(s2, k)
                I.axioms(s2, o)
                s2.num.add(k, models.size_of(I, s2, nv), -1)
                I.add_le(s2, lin_add(o, I.resolve(s2, total), -1))
                s2.num.add(ZERO, o, -1)
                a = c.args[1] if len(c.args) > 1 else NULL
                if a.op == "p":
                    I.wr(s2, a.a[0], o, c.node)
                out.append((s2, mk("p", mk("E", nodes, k))))
        return out

    # ---------------------------------------------------------------- obligations
    def on_index(self, I, st, loc, idx, node, kind):
        if self.quiet:
            return
        if loc is mk("F", self.LG, READ) and kind in ("[]", "at", "front", "back", "*it", "it->"):
            if any(self.walk_loop(self.P.functions[k]) for k in I.stack if self.P.functions[k].get("body")):
                return      # depends on the lengths of the nodes passed so far, which the sentence guarantees
            self.at_most(I, st, idx, "a reading is looked at", node, -1)
        elif loc.op == "F" and loc.a[1] == WR + "::nodes" and kind in ("*it", "it->", "[]", "at", "back", "front"):
            v = I.load(st, loc)
            n = models.size_of(I, st, v)
            i = I.resolve(st, idx)
            self.ob("node", I, node)
            if not (I.proves_le(st, ZERO, i) and I.proves_le(st, i, n, -1)):
                self.v("node", I, st, node, "a node of the sentence is used that is not proved to exist")
                st.exc = "dead"

    def on_enter_state(self, I, st, node, kind, p):
        o = I.load(st, I.ptr_loc(p)) if p.op == "p" else None
        for k, f in self.idx.items():
            if kind == k and o is not None:
                if self.at_most(I, st, I.fld(st, o, f), "the position kept by %s" % base_name(k), node):
                    pass
        st.ts = st.ts._replace(added="i" if kind in self.idx or kind in KEPT else "")

    def finish(self, I, st, v, fn):
        n = self.size(I, st)
        cu = self.cursor(I, st)
        self.rep.count("exit states")
        if not (I.proves_le(st, ZERO, cu) and I.proves_le(st, cu, n)):
            self.v("pos", I, st, {"l": fn["l"]}, "%s can return with the cursor (%s) beyond the composition (%s)" % (fn["q"], show(cu, 0, 4), show(n, 0, 4)), fn["q"])


def mentions(n, q):
    if isinstance(n, dict):
        return any(v == q or mentions(v, q) for v in n.values())
    if isinstance(n, list):
        return any(mentions(x, q) for x in n)
    return False


_subs = {}


def subs(t):
    r = _subs.get(t)
    if r is None:
        r = {t}
        for x in t.a:
            if isinstance(x, T):
                r |= subs(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        r |= subs(y)
        r = _subs[t] = frozenset(r)
    return r


_known = {}


def always_known(P, x):
    """Does the language model accept this constant reading whatever is loaded?"""
    if x not in _known:
        fn = P.functions.get(next((k for k, f in P.functions.items() if f["q"] == NS + "McBopomofoLM::hasUnigrams" and f.get("body")), None))
        if fn is None:
            raise AnalysisError("anchor vanished: McBopomofoLM::hasUnigrams")

        class C(Client):
            def opaque(self, I, f):
                return True
        c = C()
        I = Interp(P, c)
        import eng
        rs = eng.run_fn(I, c, fn, None, {fn["params"][0]["n"]: x}, mk("this"))
        _known[x] = bool(rs) and all(I.decide(s, I.truth(v)) is True for s, v in rs)
    return _known[x]


# selection entry points whose position arguments the engine takes from the state on screen
FROM_STATE = ("candidateSelected", "candidateAssociatedPhraseSelected", "candidatePanelCancelled", "buildChoosingCandidateState")


def analyse(P, rep, want):
    tot = 0
    names = []
    for f in entries(P):
        C = GridKH(P, rep, want)
        I = Interp(P, C)
        if base_name(f["q"]) in FROM_STATE:
            C.index_params = tuple(mk("param", f["q"], p["n"]) for p in f["params"] if p["t"].replace("const ", "") in ("size_t", "unsigned long"))

        def prep(st, I=I, C=C):
            st.store[LEN] = st.store[WLEN] = N0
            cu = I.load(st, mk("F", C.LG, CUR))
            for t in (cu, N0):
                I.utype.add(t)
                I.axioms(st, t)
                st.num.add(ZERO, t, 0)
            st.num.add(cu, N0, 0)
        run_entry(I, C, f, prep)
        tot += I.steps
        names.append(f["q"])
    rep.samples["entry points"] = names
    return tot


# ---------------------------------------------------------------- positions the engine hands back
def engine(P, rep):
    import eng
    fields = set(index_fields(P).values())

    def judge(C, I, st, c, n):
        if n not in FROM_STATE:
            return
        for i, t in enumerate(c.atypes):
            if t.replace("const ", "").rstrip(" &") not in ("size_t", "unsigned long"):
                continue
            v = eng.strip_copy(I.resolve(st, c.args[i]))
            rep.inst("positions handed back", "%s %s from %s" % (I.where(c.node), n, base_name(C.kind or "none") if hasattr(C, "kind") else "?"))
            if v is ZERO or cval(v) == 0 or v.op == "fld" and v.a[1] in fields:
                continue
            if v.op in ("m", "r") and base_name(str(v.a[0]).split("(")[0]) == "candidateCursorIndex":
                continue
            rep.violation("engine:%s" % n, I.where(c.node), "%s is given %s as a position in the composition, which is neither the one kept by the current state nor the candidate cursor" % (n, show(v, 0, 4)), trace_list(st))

    class Show(eng.ShowClient):
        def on_kh(self, I, st, c, n):
            judge(self, I, st, c, n)
            eng.ShowClient.on_kh(self, I, st, c, n)

    class Drive(eng.DriveClient):
        def on_kh(self, I, st, c, n):
            judge(self, I, st, c, n)
            eng.DriveClient.on_kh(self, I, st, c, n)
    facts = eng.show_states(P, rep, frozenset({"grid"}), cls=Show)
    n = eng.drive(P, rep, frozenset({"grid"}), facts, cls=Drive)
    rep.need("positions handed back", 4)
    return facts["steps"] + n
