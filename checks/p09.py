"""P09: the composition cursor and the lattice keep their shape."""
import eng, gridkh, gridshape
from common import TRUSTED
from terms import *
from interp import *
import models
TECHNIQUE = "path-sensitive difference-bound analysis of every lattice operation with an arbitrary tracked phrase node, and of every caller's cursor positions"
ASSUMPTIONS = TRUSTED + ["ReadingGrid::walk returns nodes whose lengths add up to the number of readings", "a state with text on screen is only ever left current while something is composed (P07)", "a letter, punctuation or space reading that hasUnigrams accepted is accepted by insertReading in the same step",
    "standard library: vector insert/erase/size/index follow their contracts; std::vector element addresses are not needed across a reallocation"]
RG = "Formosa::Gramambular2::ReadingGrid"
READ, SPANS, CUR = RG + "::readings_", RG + "::spans_", RG + "::cursor_"
NODES, MAXL = RG + "::Span::nodes_", RG + "::Span::maxLength_"
MAX = 6
THIS = mk("this")
OBJ = mk("S", THIS)
P0, J0 = mk("param", "ghost", "p"), mk("param", "ghost", "j")
SP, RP = mk("L", "ghost", "spos"), mk("L", "ghost", "rpos")


def loc_field(l):
    """(field, index) when l lies in a field of the grid, else (None, None)."""
    if l is None:
        return None, None
    if l.op == "F" and l.a[0] is OBJ:
        return l.a[1], None
    if l.op == "E" and l.a[0].op == "F" and l.a[0].a[0] is OBJ:
        return l.a[0].a[1], l.a[1]
    return None, None


class Grid(Client):
    num = True
    merge_limit = 40

    def __init__(self, P, rep, fn):
        self.P, self.rep, self.fn = P, rep, fn

    def init_ts(self):
        return ("live", "ok", "none", None)

    def v(self, key, I, st, node, text):
        self.rep.violation("%s:%s" % (self.fn["q"], key), I.where(node), text, trace_list(st))

    def opaque(self, I, fn):
        return not fn["q"].startswith("Formosa::Gramambular2::") or fn["q"].startswith("Formosa::Gramambular2::ReadingGrid::ScoreRanked")

    def axioms(self, I, st, t):
        if t.op in ("m", "r") and t.a[0] == "nodelen":
            st.num.add(ZERO, t, -1)
            st.num.add(t, ZERO, MAX)
        if t.op == "m" and t.a[0] == "maxlen":
            st.num.add(ZERO, t, 0)
            st.num.add(t, ZERO, MAX)

    # -------------------------------------------------------------- obligations
    def need_le(self, I, st, a, b, c=0):
        return I.proves_le(st, a, b, c)

    def on_index(self, I, st, loc, idx, node, kind):
        f, i = loc_field(loc)
        what = None
        if f in (READ, SPANS) and i is None:
            what = base_name(f)
        elif loc.op == "F" and loc.a[1] == NODES:
            what = "nodes_"
        elif loc.op == "F" and loc.a[1] == RG + "::WalkResult::nodes":
            what = "nodes"
        if what is None:
            return
        sz = const(MAX) if what == "nodes_" else models.size_of(I, st, I.load(st, loc))
        i = I.resolve(st, idx)
        slack = 0 if kind in ("insert",) else -1
        self.rep.inst("index obligations", "%s %s %s" % (I.where(node), what, kind))
        if not (I.proves_le(st, ZERO, i) and I.proves_le(st, i, sz, slack)):
            self.v("index:" + what, I, st, node, "%s (%s) with %s, which is not proved to be a position in it" % (what, kind, show(i, 0, 4)))
            st.exc = "dead"

    def on_noreturn(self, I, st, call):
        return "assert" in call.q          # builds without assertions carry on

    # -------------------------------------------------------------- the ghost node
    def fork(self, I, st, i, pos):
        """[(state, sign)] of i - pos."""
        out = []
        a = st.copy()
        if I.assume(a, I.mklt(i, pos), True):
            out.append((a, -1))
        b = st.copy()
        if I.assume(b, I.mklt(pos, i), True):
            out.append((b, 1))
        if I.assume(st, I.mklt(i, pos), False) and I.assume(st, I.mklt(pos, i), False):
            if I.assume(st, I.mkeq(i, pos), True):
                out.append((st, 0))
        return out

    def straddles(self, st, I, loc):
        """[(state, does the ghost node cover loc strictly inside, as positions between readings)]"""

    def on_call(self, I, st, c):
        q = c.q
        n = base_name(q)
        f, i = loc_field(c.objloc)
        if f in (READ, SPANS) and i is None and n in ("insert", "erase", "clear", "operator=", "push_back", "emplace_back", "pop_back", "resize", "assign", "swap", "emplace"):
            return self.shape_change(I, st, c, f, n)
        if q.startswith(RG + "::Span::") and n in ("add", "removeNodesOfOrLongerThan", "nodeOf", "maxLength", "clear"):
            return self.span_call(I, st, c, n)
        if q == RG + "::Node::spanningLength":
            t = I.resolve(st, c.this)
            if t.op == "p":
                v = I.load(st, t.a[0])
                fv = I.fld(st, v, RG + "::Node::spanningLength_")
                if fv.op != "fld":
                    return [(st, I.resolve(st, fv))]
            return [(st, mk("m", "nodelen", t))]
        if q.startswith("std::find_if") or n in ("GetEpochNowInMicroseconds",):
            return None
        return None

    def shape_change(self, I, st, c, f, n):
        l = c.objloc
        v = I.load(st, l)
        g = RP if f == READ else SP
        out = []
        if n == "clear":
            I.wr(st, l, mk("vec", ()), c.node)
            st.ts = ("dead",) + st.ts[1:]
            return [(st, VOID)]
        a = [I.resolve(st, x) for x in c.args]
        if n not in ("insert", "erase", "push_back", "emplace_back", "pop_back") or (n in ("insert", "erase") and not (a and a[0].op == "p" and a[0].a[0].op == "E" and a[0].a[0].a[0] is l)):
            raise AnalysisError("%s: %s of %s is not understood" % (I.where(c.node), n, base_name(f)))
        size = models.size_of(I, st, v)
        i = a[0].a[0].a[1] if n in ("insert", "erase") else size if n != "pop_back" else lin_add(size, const(-1))
        if n in ("insert", "push_back", "emplace_back"):
            if len(a) > 2:
                raise AnalysisError("range insertion is not understood")
            self.on_index(I, st, l, i, c.node, "insert")
            self.rep.inst("insertions and removals", "%s %s %s" % (I.where(c.node), base_name(f), n))
            if st.exc == "dead":
                return []
            x = a[-1] if a else UNDEF
            if f == READ:
                self.at_cursor(I, st, c, i, x)
            for s, d in self.fork(I, st, i, s_load(st, g)):
                pos = s_load(s, g)
                nv = mk("ins", v, i, const(1), x)
                if d <= 0:
                    s.store[g] = lin_add(pos, const(1))
                    ss = [(s, False)]
                else:
                    ss = I.branch(s, I.mklt(i, lin_add(pos, J0))) if f == READ else [(s, False)]
                for s2, inside in ss:
                    if inside:
                        s2.ts = (s2.ts[0], "broken") + s2.ts[2:]
                    s2.ts = s2.ts[:2] + ("none",) + s2.ts[3:]
                    I.wr(s2, l, nv, c.node)
                    out.append((s2, mk("p", mk("E", l, i)) if n == "insert" else VOID))
            return out
        cnt = const(1)
        if n == "erase" and len(a) == 2:
            if not (a[1].op == "p" and a[1].a[0].op == "E" and a[1].a[0].a[0] is l):
                raise AnalysisError("erase range is not understood")
            cnt = I.resolve(st, lin_add(a[1].a[0].a[1], i, -1))
        if cval(cnt) != 1:
            self.v("erase", I, st, c.node, "%s entries of %s are removed at once" % (show(cnt, 0, 3), base_name(f)))
            return []
        self.on_index(I, st, l, i, c.node, n)
        self.rep.inst("insertions and removals", "%s %s %s" % (I.where(c.node), base_name(f), n))
        if st.exc == "dead":
            return []
        for s, d in self.fork(I, st, i, s_load(st, g)):
            pos = s_load(s, g)
            inside = [(s, False)]
            if d < 0:
                s.store[g] = lin_add(pos, const(-1))
            elif d == 0 and f == SPANS:
                s.ts = ("dead",) + s.ts[1:]
            elif d == 0:
                inside = [(s, True)]
            elif f == READ:
                inside = I.branch(s, I.mklt(i, lin_add(pos, J0)))
            for s2, b in inside:
                if b:
                    s2.ts = (s2.ts[0], "broken") + s2.ts[2:]
                s2.ts = s2.ts[:2] + ("none",) + s2.ts[3:]
                I.wr(s2, l, mk("ers", v, i, const(1)), c.node)
                out.append((s2, mk("p", mk("E", l, i)) if n == "erase" else VOID))
        return out

    def at_cursor(self, I, st, c, i, x):
        if self.fn["params"]:
            want = mk("obj", mk("param", self.fn["q"], "&" + self.fn["params"][0]["n"]))
            if I.resolve(st, x) is not want:
                self.v("inserted", I, st, c.node, "what is inserted is not the given reading")

    def span_call(self, I, st, c, n):
        t = I.resolve(st, c.this)
        l = t.a[0] if t.op == "p" else mk("S", t)
        f, i = loc_field(l)
        if n == "maxLength":
            return [(st, mk("m", "maxlen", i if i is not None else l))]
        if n in ("removeNodesOfOrLongerThan", "nodeOf"):
            k = I.resolve(st, c.args[0])
            self.rep.inst("index obligations", "%s %s" % (I.where(c.node), n))
            if not (I.proves_le(st, const(1), k) and I.proves_le(st, k, const(MAX))):
                self.v("length", I, st, c.node, "%s(%s): not proved to be a span length" % (n, show(k, 0, 3)))
                return []
        if n == "nodeOf":
            site = mk("at", I.ctx, I.site(c.node))
            r = mk("r", "nodeOf", site)
            for x in [x for x in st.facts if r in subs(x)]:
                del st.facts[x]
            st.num.forget(lambda x: r in subs(x))
            return [(st, r)]
        if i is None or f != SPANS:
            raise AnalysisError("%s: change of a span that is not part of the lattice" % I.where(c.node))
        if n == "add":
            nl = self.node_len(I, st, c)
            self.rep.inst("nodes added", I.where(c.node))
            sz = models.size_of(I, st, I.load(st, mk("F", OBJ, READ)))
            if nl is None or not (I.proves_le(st, const(1), nl) and I.proves_le(st, nl, const(MAX))):
                self.v("added length", I, st, c.node, "a node is added whose length is not proved to be between 1 and %d" % MAX)
            elif not I.proves_le(st, lin_add(i, nl), sz):
                self.v("added reach", I, st, c.node, "a node is added that is not proved to end within the readings")
            return [(st, VOID)]
        if st.ts[0] == "dead":
            return [(st, VOID)]
        out = []
        for s, d in self.fork(I, st, i, s_load(st, SP)):
            if d != 0:
                s.ts = s.ts[:2] + ((("below" if d < 0 else "above") if s.ts[2] != "visited" else "visited"),) + s.ts[3:]
                out.append((s, VOID))
                continue
            if n == "clear":
                s.ts = ("dead", s.ts[1], "none", s.ts[3])
                out.append((s, VOID))
                continue
            L = I.resolve(s, c.args[0])
            same = [L] + [lin_add(lin_add(L, i, k), s_load(s, SP), -k) for k in (1, -1)]     # the index is the node's
            for s2, gone in I.branch(s, I.mklt(J0, L)):
                if not all(I.assume(s2, I.mklt(J0, x), gone) for x in same) or not I.feasible(s2):
                    continue
                gone = not gone
                s2.ts = ("dead", s2.ts[1], "none", s2.ts[3]) if gone else s2.ts[:2] + ("visited",) + s2.ts[3:]
                out.append((s2, VOID))
        return out

    def node_len(self, I, st, c):
        v = I.resolve(st, c.args[0])
        if v.op == "p":
            nl = I.fld(st, I.load(st, v.a[0]), RG + "::Node::spanningLength_")
            return I.resolve(st, nl)
        return None


_subs = {}


def subs(t):
    r = _subs.get(t)
    if r is None:
        r = {t}
        for x in t.a:
            if isinstance(x, T):
                r |= subs(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        r |= subs(y)
        r = _subs[t] = frozenset(r)
    return r


def s_load(st, l):
    return st.store[l]


N0, C0 = mk("param", "ghost", "n"), mk("param", "ghost", "cursor")


def prep(I, st, c):
    r = mk("fld", mk("obj", THIS), READ)
    s = mk("fld", mk("obj", THIS), SPANS)
    cu = mk("fld", mk("obj", THIS), CUR)
    nr, ns = models.size_of(I, st, r), models.size_of(I, st, s)
    for t in (cu, N0, C0, P0, J0, nr, ns):
        I.utype.add(t)
        I.axioms(st, t)
    st.num.add(nr, ns, 0)
    st.num.add(ns, nr, 0)
    st.num.add(nr, N0, 0)
    st.num.add(N0, nr, 0)
    st.num.add(cu, nr, 0)
    st.num.add(cu, C0, 0)
    st.num.add(C0, cu, 0)
    st.num.add(ZERO, J0, -1)
    st.num.add(J0, ZERO, MAX)
    I.add_le(st, lin_add(lin_add(P0, J0), nr, -1))
    I.add_le(st, lin_add(P0, nr, -1))
    st.store[SP] = P0
    st.store[RP] = P0


def public(P):
    rec = P.records[RG]
    us = {m["u"]: m for m in rec["methods"] if m.get("acc") == "public"}
    return [f for f in P.functions.values() if f["u"] in us and f.get("body") is not None and not f.get("ctor")]


# what each operation does to (length, cursor), by result: None leaves both alone
EFFECT = {
    "insertReading": {True: (1, 1), False: (0, 0)},
    "deleteReadingBeforeCursor": {True: (-1, -1), False: (0, 0)},
    "deleteReadingAfterCursor": {True: (-1, 0), False: (0, 0)},
}


def run(P, rep, tier):
    rep.rule("every public lattice operation, entered with 0 <= cursor <= readings and one span per reading, leaves both true on every path, and every index, erase and insert position in between is proved to exist")
    rep.rule("an arbitrary phrase node present before the operation is afterwards gone, or still lies over exactly the readings it was made from")
    total = 0
    for fn in sorted(public(P), key=lambda f: f["l"]):
        n = base_name(fn["q"])
        C = Grid(P, rep, fn)
        I = Interp(P, C)

        def pre(I, st, c, fn=fn, n=n):
            prep(I, st, c)
            if n in ("setCursor", "findInSpan"):
                I.utype.add(c.args[0])
                I.axioms(st, c.args[0])
                I.add_le(st, lin_add(c.args[0], N0, -1))
        rs = eng.run_fn(I, C, fn, pre, this=THIS)
        rep.inst("operations", n)
        for s, v in rs:
            at_exit(I, C, s, v, fn, n)
        total += I.steps
    rep.need("operations", 12)
    rep.need("index obligations", 12)
    rep.need("insertions and removals", 5)
    gridshape.analyse(P, rep, tier)
    rep.rule("every position key handling gives the lattice, keeps in a state or leaves the cursor at lies within the composition, and every node of the sentence it uses exists")
    total += gridkh.analyse(P, rep, {"pos", "node"})
    rep.need("entry points", 20)
    rep.rule("the positions the engine hands back to key handling are those the current state keeps")
    total += gridkh.engine(P, rep)
    return {"abstract_steps": total}


def at_exit(I, C, s, v, fn, n):
    rep = C.rep
    node = {"l": fn["l"]}
    R = models.size_of(I, s, I.load(s, mk("F", OBJ, READ)))
    S = models.size_of(I, s, I.load(s, mk("F", OBJ, SPANS)))
    cu = I.resolve(s, I.load(s, mk("F", OBJ, CUR)))
    rep.count("exit paths")
    if not (I.proves_le(s, ZERO, cu) and I.proves_le(s, cu, R)):
        C.v("cursor", I, s, node, "after %s the cursor (%s) is not proved to be between zero and the number of readings (%s)" % (n, show(cu, 0, 4), show(R, 0, 4)))
    if not (I.proves_le(s, R, S) and I.proves_le(s, S, R)):
        C.v("spans", I, s, node, "after %s the number of spans (%s) is not proved to be the number of readings (%s)" % (n, show(S, 0, 4), show(R, 0, 4)))
    if n == "clear":
        want = (ZERO, ZERO)
    elif n == "setCursor":
        want = (N0, mk("param", fn["q"], fn["params"][0]["n"]))
    else:
        b = I.resolve(s, v) if v is not None else None
        b = cval(b) if b is not None and b.op == "c" else None
        e = EFFECT.get(n)
        if e is not None:
            if b not in (0, 1, True, False):
                C.v("result", I, s, node, "the result of %s is not decided" % n)
                return
            e = e[bool(b)]
        else:
            e = (0, 0)
        want = (lin_add(N0, const(e[0])), lin_add(C0, const(e[1])))
    for got, w, what in ((R, want[0], "number of readings"), (cu, want[1], "cursor")):
        if not (I.proves_le(s, got, w) and I.proves_le(s, w, got)):
            C.v("effect:" + what, I, s, node, "after %s the %s is %s, not %s" % (n, what, show(got, 0, 4), show(w, 0, 4)))
    if s.ts[0] == "live":
        rep.count("surviving node paths")
        if s.ts[1] == "broken":
            C.v("node", I, s, node, "after %s a phrase node survives over a place where a reading was inserted or removed" % n)
        else:
            a, b = s.store[SP], s.store[RP]
            if not (I.proves_le(s, a, b) and I.proves_le(s, b, a)):
                C.v("moved", I, s, node, "after %s a phrase node is at span %s but its readings start at %s" % (n, show(a, 0, 3), show(b, 0, 3)))
