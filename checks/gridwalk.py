"""How the sentence is computed from the lattice, evaluated for every small lattice with symbolic phrases and scores."""
import itertools
import eng
from terms import *
from interp import *
from shape import *
from gridshape import RG, MAX, THIS, OBJ, READ, SPANS, WR, method
from gridchoice import Lat, node_of, elements, NODE


class Walk(Lat):
    finite = True

    def __init__(self, P, n, gone):
        Lat.__init__(self, P, n, gone)
        self.transparent = lambda f: f["q"].startswith(RG) or "(anonymous" in f["q"] and not f["q"].endswith("GetEpochNowInMicroseconds")

    def model(self, I, st, c):
        n = base_name(c.q)
        if c.ctor:
            return None
        if c.q.startswith("std::numeric_limits<") and n == "infinity":
            return [(st, mk("c", float("inf")))]
        if c.q.startswith(NODE + "::"):
            w = self.which(I, st, c.this)
            if w is None:
                return None
            if n == "score":
                return [(st, mk("param", "ghost", "score of " + w[0].a[1]))]
        return Lat.model(self, I, st, c)


def total(t):
    """A sum of scores as a sorted tuple of its terms."""
    return tuple(sorted(sum_terms(t), key=lambda x: x.id))


def less(a, b):
    """a without b, each counted, or None if a does not have them all."""
    a = list(a)
    for x in b:
        if x not in a:
            return None
        a.remove(x)
    return a


def at_most(facts, a, b):
    """a <= b from comparisons made on this path, terms on both sides cancelling."""
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        for lo, hi in facts:
            rest = less(x, lo)
            if rest is None:
                continue
            y = tuple(sorted(rest + list(hi), key=lambda t: t.id))
            if y not in seen and len(seen) < 4000:
                seen.add(y)
                todo.append(y)
    return False


def judge(C, I, s, v, f, rep, name):
    n = C.size
    w = I.where({"l": f["l"]})
    vec = I.resolve(s, I.fld(s, v, WR + "::nodes"))
    if vec.op != "vec":
        raise AnalysisError("the sentence is not evaluated: %s" % show(vec, 0, 3))
    seq = [C.which(I, s, x) for x in vec.a[0]]

    def say(key, text):
        rep.violation("walk:" + key, w, "%s: %s" % (name, text), trace_list(s))
    pos = 0
    for x in seq:
        if x is None or x[1] != pos:
            say("path", "the sentence is %s, which does not go through the readings one after the other" % [(x[1], x[2]) if x else "?" for x in seq])
            return
        pos += x[2]
    if pos != n:
        say("path", "the sentence covers %d of %d readings" % (pos, n))
        return
    got = I.resolve(s, I.fld(s, v, WR + "::totalReadings"))
    if got is not const(n):
        say("readings", "the sentence is said to have %s readings" % show(got, 0, 3))
    # the best: comparisons made on this path, as an order on sums of scores
    facts = []
    for t, b in s.facts.items():
        if t.op == "<":
            x, y = total(t.a[0]), total(t.a[1])
            lo, hi = (x, y) if b else (y, x)
            facts.append((lo, hi))
    sc = lambda nd: mk("param", "ghost", "score of " + nd.a[1])
    mine = tuple(sorted((sc(nd) for nd, _, _ in seq), key=lambda x: x.id))
    nodes = C.nodes()

    def ways(i):
        if i == n:
            yield ()
        for j, l in nodes:
            if j == i:
                for r in ways(i + l):
                    yield ((j, l),) + r
    for way in ways(0):
        rep.count("ways compared")
        if not at_most(facts, tuple(sorted((sc(node_of(*x)) for x in way), key=lambda x: x.id)), mine):
            say("best", "the sentence through %s is chosen, and nothing shows that it is at least as good as %s" % (["%d+%d" % x[1:] for x in seq], ["%d+%d" % x for x in way]))
            return


def walk(P, rep, shapes):
    rep.rule("the sentence goes through the readings one after the other to the end, and on every outcome of the score comparisons made, those comparisons imply that no other way through the lattice scores higher")
    f = method(P, RG + "::walk")
    for n, gone in shapes:
        C = Walk(P, n, gone)
        I = Interp(P, C)
        name = "%d readings%s" % (n, " without phrases " + " ".join("%d+%d" % g for g in gone) if gone else "")
        rs = eng.run_fn(I, C, f, lambda I, st, c: C.start(I, st), this=THIS)
        rep.count("lattices evaluated")
        if not rs:
            raise AnalysisError("walk is not evaluated for " + name)
        for s, v in rs:
            if n == 0:
                vec = I.resolve(s, I.fld(s, v, WR + "::nodes"))
                if vec.op != "vec" or vec.a[0]:
                    rep.violation("walk:empty", I.where({"l": f["l"]}), "an empty lattice gives a sentence", trace_list(s))
                continue
            rep.count("sentences judged")
            judge(C, I, s, v, f, rep, name)
        for w, t in C.bad:
            rep.violation("walk:index", w, "%s is looked at: %s" % (t, name), [])


def shapes(top, rich):
    out = [(0, ())]
    for n in range(1, top + 1):
        longer = [(i, l) for i in range(n) for l in range(2, n - i + 1)]
        if n <= rich:
            subsets = [c for k in range(len(longer) + 1) for c in itertools.combinations(longer, k)]
        else:
            subsets = [()] + [(x,) for x in longer] + [tuple(longer)]
        out += [(n, s) for s in subsets]
    return out
