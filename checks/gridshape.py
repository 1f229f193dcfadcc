"""The small pieces of the lattice, evaluated for every shape: what one span holds, and which node covers a position."""
import itertools
import eng
from terms import *
from interp import *
from shape import *

RG = "Formosa::Gramambular2::ReadingGrid"
NODES, MAXL = RG + "::Span::nodes_", RG + "::Span::maxLength_"
WR = RG + "::WalkResult"
MAX = 6
THIS = mk("this")
OBJ = mk("S", THIS)
SLOTS = [mk("param", "ghost", "slot%d" % i) for i in range(MAX)]


class Small(Shape):
    def __init__(self, P, lens=None):
        Shape.__init__(self, P, lambda f: f["q"].startswith(RG))
        self.lens = lens or {}
        self.bad = []

    def on_noreturn(self, I, st, call):
        return "assert" in call.q

    def model(self, I, st, c):
        if c.q == RG + "::Node::spanningLength":
            t = I.resolve(st, c.this)
            for k in [t] + [x for x in t.a if isinstance(x, T)]:
                if k in self.lens:
                    return [(st, self.lens[k])]
            raise AnalysisError("%s: length of an unknown node %s" % (I.where(c.node), show(t, 0, 5)))
        return None

    def on_index(self, I, st, loc, idx, node, kind):
        i = cval(I.resolve(st, idx))
        v = I.load(st, loc)
        if v.op == "vec" and (i is None or not 0 <= i < len(v.a[0]) + (kind == "insert")):
            self.bad.append((I.where(node), "index %s of %d" % (i, len(v.a[0]))))


def method(P, q):
    f = next((f for f in P.functions.values() if f["q"] == q and f.get("body") is not None), None)
    if f is None:
        raise AnalysisError("anchor vanished: " + q)
    return f


def known_null(I, s, t):
    return t is NULL or I.decide(s, I.mkeq(t, NULL)) is True


def span(P, rep):
    rep.rule("a span keeps exactly the nodes shorter than the given length, forgets the others, and its greatest length is that of the longest node left")
    for n in ("clear", "add", "removeNodesOfOrLongerThan", "nodeOf", "maxLength"):
        f = method(P, RG + "::Span::" + n)
        for L in ([0] if n in ("clear", "maxLength") else range(1, MAX + 1)):
            for m0 in range(MAX + 1):
                node = mk("obj", mk("param", f["q"], "&" + f["params"][0]["n"])) if n == "add" else mk("param", "ghost", "node")
                C = Small(P, {node: const(L)})
                I = Interp(P, C)

                def prep(I, st, c):
                    I.storev(st, mk("F", OBJ, NODES), mk("vec", tuple(SLOTS)))
                    I.storev(st, mk("F", OBJ, MAXL), const(m0))
                    # what a span with this greatest length holds
                    for i in range(m0, MAX):
                        I.assume(st, I.mkeq(SLOTS[i], NULL), True)
                    if m0:
                        I.assume(st, I.mkeq(SLOTS[m0 - 1], NULL), False)
                    I.assume(st, I.mkeq(node, NULL), False)
                    if n != "add" and c.args:
                        c.args = [const(L)]
                for s, v in eng.run_fn(I, C, f, prep, this=THIS):
                    rep.inst("span shapes", "%s %d of %d" % (n, L, m0))
                    vec = I.load(s, mk("F", OBJ, NODES))
                    mx = cval(I.resolve(s, I.load(s, mk("F", OBJ, MAXL))))

                    def bad(key, text):
                        rep.violation("Span::%s:%s" % (n, key), I.where({"l": f["l"]}), text, trace_list(s))
                    if vec.op != "vec" or mx is None:
                        raise AnalysisError("Span::%s is not evaluated: %s" % (n, show(vec, 0, 3)))
                    got = [I.resolve(s, x) for x in vec.a[0]]
                    want = list(SLOTS)
                    if n == "clear":
                        want = [NULL] * MAX
                    elif n == "add":
                        want[L - 1] = node
                    elif n.startswith("remove"):
                        want = [NULL if i >= L - 1 else x for i, x in enumerate(SLOTS)]
                    for i in range(MAX):
                        if got[i] is not want[i] and not (known_null(I, s, got[i]) and known_null(I, s, want[i])):
                            bad("slot", "after %s(%s) the node of length %d is %s, not %s" % (n, L, i + 1, show(got[i], 0, 2), show(want[i], 0, 2)))
                    top = 0
                    for i in range(MAX, 0, -1):
                        if want[i - 1] is node or want[i - 1] is not NULL and I.decide(s, I.mkeq(want[i - 1], NULL)) is False:
                            top = i
                            break
                        if not known_null(I, s, want[i - 1]):
                            top = None
                            break
                    if top != mx:
                        bad("greatest length", "after %s(%s) the greatest length is %s, but the longest node has %s" % (n, L, mx, top))
                    if n == "nodeOf" and I.resolve(s, v) is not SLOTS[L - 1] and not (known_null(I, s, I.resolve(s, v)) and known_null(I, s, SLOTS[L - 1])):
                        bad("node", "nodeOf(%d) is not the node of that length" % L)
                    if n == "maxLength" and cval(I.resolve(s, v)) != m0:
                        bad("result", "maxLength() is not the greatest length")
                for w, t in C.bad:
                    rep.violation("Span::%s:index" % n, w, t, [])


def find(P, rep, tier):
    rep.rule("the node found at a position covers it (the last node at the end of the sentence), and the position reported is where that node ends")
    f = method(P, WR + "::findNodeAt")
    top = 4 if tier == "thorough" else 3
    shapes = [()] + [ls for k in range(1, top + 1) for ls in itertools.product((1, 2, 3), repeat=k)]
    for ls in shapes:
        total = sum(ls)
        for cur in range(total + 3):
            nodes = [mk("param", "ghost", "node%d" % i) for i in range(len(ls))]
            C = Small(P, {x: const(l) for x, l in zip(nodes, ls)})
            I = Interp(P, C)
            out = mk("L", "ghost", "out")
            W = mk("F", OBJ, WR + "::nodes")

            def prep(I, st, c):
                I.storev(st, W, mk("vec", tuple(nodes)))
                I.storev(st, mk("F", OBJ, WR + "::totalReadings"), const(total))
                I.storev(st, out, const(0))
                for x in nodes:
                    I.assume(st, I.mkeq(x, NULL), False)
                c.args = [const(cur), mk("p", out)]
            rs = eng.run_fn(I, C, f, prep, this=THIS)
            rep.count("positions looked up")
            if len(rs) != 1:
                raise AnalysisError("findNodeAt is not evaluated for %s at %d" % (ls, cur))
            s, v = rs[0]
            v = I.resolve(s, v)
            i = I.resolve(s, v.a[0].a[1]) if v.op == "p" and v.a[0].op == "E" and v.a[0].a[0] is W else None
            i = cval(i) if i is not None else None
            o = cval(I.resolve(s, I.load(s, out)))
            want, end, acc = len(ls), 0, 0
            if ls and cur <= total:
                for want, l in enumerate(ls):
                    acc += l
                    if acc > cur:
                        break
                end = acc
            for w, t in C.bad:
                rep.violation("findNodeAt:index", w, "%s for nodes of %s readings at %d" % (t, ls, cur), [])
            if i != want or o != end:
                rep.violation("findNodeAt:result", I.where({"l": f["l"]}), "for nodes of %s readings, position %d gives node %s ending at %s, not node %d ending at %d" % (
                    ls, cur, i, o, want, end), trace_list(s))


def analyse(P, rep, tier):
    span(P, rep)
    find(P, rep, tier)
    rep.need("span shapes", 20)
    rep.need("positions looked up", 50)
    lattice(P, rep, tier)


# ---------------------------------------------------------------- which phrases the lattice holds after an edit
READ, SPANS, CUR, SEP = RG + "::readings_", RG + "::spans_", RG + "::cursor_", RG + "::separator_"


class Edit(Shape):
    """One edit of a lattice of known size: nothing is there yet wherever it looks, and every phrase is known."""

    def __init__(self, P):
        Shape.__init__(self, P, lambda f: f["q"].startswith(RG) and not f["q"].startswith(RG + "::ScoreRanked"))
        self.added = []
        self.bad = []

    def on_noreturn(self, I, st, call):
        return "assert" in call.q

    def model(self, I, st, c):
        n = base_name(c.q)
        if n == "hasUnigrams":
            return [(st, TRUE)]
        if n == "getUnigrams":
            return [(st, mk("vec", (mk("m", "unigram", I.resolve(st, c.args[0])),)))]
        if c.q == RG + "::hasNodeAt":
            self.asked(I, st, c)
            return [(st, FALSE)]
        if c.q == RG + "::Span::add":
            t = I.resolve(st, c.this)
            l = t.a[0] if t.op == "p" else mk("S", t)
            i = cval(I.resolve(st, l.a[1])) if l.op == "E" and l.a[0] is mk("F", OBJ, SPANS) else None
            v = I.resolve(st, c.args[0])
            if i is None or v.op != "p":
                raise AnalysisError("%s: a node is added that cannot be followed" % I.where(c.node))
            nd = I.load(st, v.a[0])
            f = lambda x: I.resolve(st, I.fld(st, nd, RG + "::Node::" + x))
            self.added.append((i, cval(f("spanningLength_")), flat(f("reading_")), f("unigrams_"), I.where(c.node)))
            return [(st, VOID)]
        if c.q == RG + "::Span::removeNodesOfOrLongerThan":
            return [(st, VOID)]
        return None

    def asked(self, I, st, c):
        pass


def join(rs):
    out = []
    for i, r in enumerate(rs):
        if i:
            out.append("sep")
        out.append(r)
    return out


def lattice(P, rep, tier):
    rep.rule("after an edit every phrase of up to %d readings that touches the edited place has been looked up and added at its own place, made from exactly the readings it lies over" % MAX)
    top = 14 if tier == "thorough" else 13
    sizes = [0, 1, 2, 5, 6, 7, top] if tier == "quick" else range(top + 1)
    for n in ("insertReading", "deleteReadingBeforeCursor", "deleteReadingAfterCursor"):
        f = next((f for f in P.functions.values() if f["q"] == RG + "::" + n and f.get("body") is not None), None)
        if f is None:
            raise AnalysisError("anchor vanished: " + n)
        for size in sizes:
            for cur in range(size + 1):
                old = [mk("param", "ghost", "reading%d" % i) for i in range(size)]
                C = Edit(P)
                I = Interp(P, C)
                sep = mk("param", "ghost", "separator")

                def prep(I, st, c):
                    I.storev(st, mk("F", OBJ, READ), mk("vec", tuple(old)))
                    I.storev(st, mk("F", OBJ, SPANS), mk("vec", tuple(mk("param", "ghost", "span%d" % i) for i in range(size))))
                    I.storev(st, mk("F", OBJ, CUR), const(cur))
                    I.storev(st, mk("F", OBJ, SEP), sep)
                new = list(old)
                if n == "insertReading":
                    x = mk("obj", mk("param", f["q"], "&" + f["params"][0]["n"]))
                    new.insert(cur, x)
                    edge = cur
                    cover = lambda p, l: p <= cur < p + l
                elif n == "deleteReadingBeforeCursor":
                    if not cur:
                        continue
                    del new[cur - 1]
                    cover = lambda p, l: p < cur - 1 < p + l
                else:
                    if cur == size:
                        continue
                    del new[cur]
                    cover = lambda p, l: p < cur < p + l
                rs = eng.run_fn(I, C, f, prep, this=THIS)
                done = [s for s, v in rs if v is TRUE or I.resolve(s, v) is TRUE]
                if not done:
                    raise AnalysisError("%s is not evaluated at %d of %d" % (n, cur, size))
                rep.count("edits evaluated")
                got = {}
                w0 = I.where({"l": f["l"]})
                for p, l, r, u, w in C.added:
                    rep.count("phrases placed")
                    if l is None or not 1 <= l <= MAX or p < 0 or p + l > len(new):
                        rep.violation("%s:place" % n, w, "editing %d readings at %d adds a phrase of %s readings at %s, which does not fit" % (size, cur, l, p), [])
                        continue
                    want = flat(cat_of([sep if x == "sep" else x for x in join(new[p:p + l])]))
                    if r != want:
                        rep.violation("%s:made from" % n, w, "editing %d readings at %d adds a phrase over readings %d to %d made from other readings: %s" % (
                            size, cur, p, p + l, " ".join(show(x, 0, 2) if isinstance(x, T) else str(x) for x in r)), [])
                    if u.op != "vec" or len(u.a[0]) != 1 or flat(u.a[0][0].a[1]) != want:
                        rep.violation("%s:values" % n, w, "a phrase over readings %d to %d is given the values of another reading" % (p, p + l), [])
                    got[p, l] = True
                for p in range(len(new)):
                    for l in range(1, MAX + 1):
                        if p + l <= len(new) and cover(p, l) and (p, l) not in got:
                            rep.violation("%s:missing" % n, w0, "editing %d readings at %d does not look up the phrase over readings %d to %d" % (size, cur, p, p + l), [])
    # a node is only taken to be there when it is made from the same reading
    f = method(P, RG + "::hasNodeAt")
    for same in (True, False, None):
        for L in range(1, MAX + 1):
            node = mk("param", "ghost", "node")
            rd = mk("param", "ghost", "reading")

            class There(Small):
                def model(self, I, st, c):
                    if c.q == RG + "::Span::nodeOf":
                        t = I.resolve(st, c.this)
                        l = t.a[0] if t.op == "p" else mk("S", t)
                        ok = l.op == "E" and cval(I.resolve(st, l.a[1])) == 1 and cval(I.resolve(st, c.args[0])) == L
                        return [(st, (NULL if same is None else node) if ok else mk("r", "other node", mk("at", I.ctx, I.site(c.node))))]
                    if c.q == RG + "::Node::reading":
                        return [(st, mk("lref", mk("L", "ghost", "reading")))]
                    return Small.model(self, I, st, c)
            C = There(P)
            I = Interp(P, C)

            def prep(I, st, c):
                I.storev(st, mk("F", OBJ, SPANS), mk("vec", tuple(mk("param", "ghost", "span%d" % i) for i in range(9))))
                I.assume(st, I.mkeq(node, NULL), False)
                st.store[mk("L", "ghost", "reading")] = rd
                q = mk("obj", mk("param", f["q"], "&" + f["params"][2]["n"]))
                if same is not None:
                    I.assume(st, I.mkeq(q, rd), same)
                    I.assume(st, I.mkeq(rd, q), same)
                c.args = [const(1), const(L)] + list(c.args[2:])
            for s, v in eng.run_fn(I, C, f, prep, this=THIS):
                rep.count("lookups of a node")
                if I.decide(s, I.truth(v)) is not (same is True):
                    rep.violation("hasNodeAt", I.where({"l": f["l"]}), "hasNodeAt is %s when the node of length %d is %s" % (
                        show(v, 0, 3), L, "missing" if same is None else "made from %s reading" % ("the same" if same else "another")), trace_list(s))
    rep.need("edits evaluated", 40)
    rep.need("phrases placed", 500)
    rep.need("lookups of a node", 12)
