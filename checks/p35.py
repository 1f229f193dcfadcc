"""P35: the composing text shows the sentence, the pending syllable and the cursor's place."""
import itertools
import eng, kh, models, shape
from common import TRUSTED
from interp import *
from kh import GRID, KH, NS, RDBUF, ST
from program import AnalysisError
from terms import *
TECHNIQUE = ("partial evaluation of the functions that build composing and marking states, for every small sentence (phrases of 1 to 3 "
             "readings with fewer, as many or more characters) and every cursor and mark position; texts stay symbolic and are compared piece by piece")
ASSUMPTIONS = TRUSTED + ["the code point helpers count and cut whole characters (their reads are P10's)",
                         "sentences of up to 3 phrases stand for longer ones"]
THIS = mk("this")
WR = GRID + "::WalkResult"


class Text(shape.Shape):
    exactsub = True
    def __init__(self, P, nodes):
        shape.Shape.__init__(self, P, self.follow)
        self.nodes = nodes                       # (readings, characters)

    def follow(self, f):
        q = f["q"]
        if q.startswith(GRID):
            return base_name(q) in ("cursor", "readings", "length")
        if "Localized" in q or base_name(q) in ("CodePointCount", "SubstringToCodePoints"):
            return False
        return q.startswith(NS) and "LM::" not in q and "Model::" not in q or "(anon" in q or "lambda" in q

    def val(self, i):
        return mk("val", i)

    def part(self, i, k):
        m = self.nodes[i][1]
        return const(b"") if k <= 0 else self.val(i) if k >= m else mk("prefix", self.val(i), k)

    def node(self, I, st, c):
        for t in (I.resolve(st, c.this) if c.this is not None else None, c.objloc):
            if t is None:
                continue
            for x in subterms(t):
                if x.op == "O" and x.a[0] == "node":
                    return x.a[1]
        raise AnalysisError("%s: a sentence node that is not followed" % I.where(c.node))

    def model(self, I, st, c):
        q = c.q or ""
        n = base_name(q)
        a = [I.resolve(st, x) for x in c.args]
        if q.startswith(GRID + "::Node::"):
            i = self.node(I, st, c)
            if n == "value":
                return [(st, self.val(i))]
            if n == "spanningLength":
                return [(st, const(self.nodes[i][0]))]
            raise AnalysisError("%s: %s of a sentence node" % (I.where(c.node), n))
        if n in ("CodePointCount", "SubstringToCodePoints"):
            ps = self.norm(I, st, self.text(I, st, a[0]))
            if any(isinstance(x, T) for x in ps):
                raise AnalysisError("%s: %s of a text that is not followed" % (I.where(c.node), n))
            if n == "CodePointCount":
                r = const(sum(x[2] - x[1] for x in ps if x != "pending"))
                return [(st, lin_add(r, mk("m", "characters", mk("pending"))) if "pending" in ps else r)]
            left, out = I.resolve(st, a[1]), []
            if not isc(left):
                raise AnalysisError("%s: %s of a number of characters that is not followed" % (I.where(c.node), n))
            left = cval(left)
            for x in ps:
                if left and x == "pending":
                    raise AnalysisError("%s: %s of a text that is not followed" % (I.where(c.node), n))
                if left:
                    i, b, e = x[0], x[1], min(x[2], x[1] + left)
                    o = self.off(I, st, i, b)
                    out.append(self.part(i, e) if not b else mk("sub", self.val(i), o, lin_add(self.off(I, st, i, e), o, -1)))
                    left -= e - b
            return [(st, const(b"") if not out else out[0] if len(out) == 1 else mk("cat", *out))]
        if q.startswith(RDBUF + "::") and n == "composedString":
            return [(st, mk("pending"))]
        if n == "hasUnigrams":
            return [(st, FALSE)]
        if n == "getUnigrams":
            return [(st, mk("vec", ()))]
        if "Localized" in q:
            return [(st, mk("m", q, *a))]
        return None

    def text(self, I, st, v):
        while v.op in ("lref", "p"):
            v = I.resolve(st, I.load(st, v.a[0]))
        return eng.strip_copy(v)

    # -- pieces: (phrase, from character, to character), "pending", or a foreign term
    def off(self, I, st, i, k):
        return models.size_of(I, st, self.part(i, k)) if k else ZERO

    def norm(self, I, st, t):
        t = eng.strip_copy(I.resolve(st, t))
        if t.op == "val":
            r = [(t.a[0], 0, self.nodes[t.a[0]][1])]
        elif t.op == "prefix":
            r = [(t.a[0].a[0], 0, t.a[1])]
        elif t.op == "pending":
            r = ["pending"]
        elif t.op == "c" and t.a[0] in (b"", ""):
            r = []
        elif t.op == "cat":
            r = [x for y in t.a for x in self.norm(I, st, y)]
        elif t.op == "sub":
            r = self.cut(I, st, self.norm(I, st, t.a[0]), I.resolve(st, t.a[1]), I.resolve(st, t.a[2]))
        else:
            r = [t]
        out = []
        for x in r:
            if isinstance(x, tuple) and x[1] == x[2]:
                continue
            if out and isinstance(x, tuple) and isinstance(out[-1], tuple) and out[-1][0] == x[0] and out[-1][2] == x[1]:
                out[-1] = (x[0], out[-1][1], x[2])
            else:
                out.append(x)
        return out

    def places(self, I, st, ps):
        """Every character boundary of a sequence of pieces with its byte offset."""
        at = ZERO
        out = [(0, None, at)]
        for j, x in enumerate(ps):
            if isinstance(x, tuple):
                i, a, b = x
                for k in range(a + 1, b + 1):
                    out.append((j, k, lin_add(at, lin_add(self.off(I, st, i, k), self.off(I, st, i, a), -1))))
                at = lin_add(at, lin_add(self.off(I, st, i, b), self.off(I, st, i, a), -1))
            else:
                at = lin_add(at, models.size_of(I, st, mk("pending") if x == "pending" else x))
                out.append((j, "end", at))
        return out

    def cut(self, I, st, ps, start, length):
        places = self.places(I, st, ps)
        ends = []
        for v in (start, lin_add(start, length)):
            hit = [p for p in places if p[2] is v]
            if not hit:
                return [mk("sub", mk("pieces", str(ps)), start, length)]
            ends.append(hit[0])

        def upto(e):
            j, k, _ = e
            if k is None:
                return []
            out = list(ps[:j])
            x = ps[j]
            out.append((x[0], x[1], k) if isinstance(x, tuple) and k != "end" else x)
            return out
        a, b = upto(ends[0]), upto(ends[1])
        if len(a) > len(b):
            return [mk("sub", mk("pieces", str(ps)), start, length)]
        out = list(b)
        for j, x in enumerate(a):
            y = out[j]
            if y == x:
                out[j] = None
            elif isinstance(y, tuple) and isinstance(x, tuple) and y[0] == x[0] and y[1] == x[1] and x[2] <= y[2]:
                out[j] = (y[0], x[2], y[2])
            else:
                return [mk("sub", mk("pieces", str(ps)), start, length)]
        return [x for x in out if x is not None]


class Sized(Interp):
    """A text is at least as long as what it begins with."""

    def proves_le(self, st, a, b, c=0):
        k, parts = lin_parts(lin_add(self.resolve(st, b), self.resolve(st, a), -1))
        by = {}
        for x, n in parts.items():
            y = x.a[1] if x.op == "m" and x.a[0] == "size" else None
            if y is None or y.op not in ("val", "prefix"):
                by.setdefault(x, []).append((0, n))
            else:
                by.setdefault(y if y.op == "val" else y.a[0], []).append((self.C.nodes[y.a[0]][1] if y.op == "val" else y.a[1], n))
        if k + c >= 0:
            for x, l in by.items():
                t = 0
                for _, n in sorted(l, reverse=True):
                    t += n
                    if t < 0:
                        break
                if t < 0 or x.op != "val" and not (x.op == "m" and x.a[0] == "size"):
                    break
            else:
                return True
        return Interp.proves_le(self, st, a, b, c)


def shapes(tier):
    one = [(r, m) for r in (1, 2, 3) for m in ((1, 2, 3) if r > 1 else (1, 2))]
    out = [()] + [(a,) for a in one] + [(a, b) for a in one for b in one]
    if tier == "thorough":
        out += [(a, b, c) for a in one for b in one for c in one]
    else:
        out += [((1, 1), a, (2, 2)) for a in one] + [((2, 1), a, (1, 1)) for a in one]
    return out


def split(nodes, c):
    """(pieces before the reading position c, pieces after, is a shortened phrase cut)"""
    before, after, at, short = [], [], 0, False
    for i, (r, m) in enumerate(nodes):
        if at + r <= c:
            before.append((i, 0, m))
        elif at >= c:
            after.append((i, 0, m))
        else:
            k = min(c - at, m)
            before.append((i, 0, k))
            after.append((i, k, m))
            short = m < r
        at += r
    return before, [x for x in after if x[1] != x[2]], short


def say(ps):
    f = lambda x: x if isinstance(x, str) else "phrase %d[%d,%d)" % x if isinstance(x, tuple) else show(x, 0, 4)
    return " + ".join(f(x) for x in ps) or "nothing"


def joined(ps):
    out = []
    for x in ps:
        if out and isinstance(x, tuple) and isinstance(out[-1], tuple) and out[-1][0] == x[0] and out[-1][2] == x[1]:
            out[-1] = (x[0], out[-1][1], x[2])
        else:
            out.append(x)
    return out


def builder(P, kind, what):
    fs = [f for f in P.functions.values() if f.get("cls") == KH and f.get("body") is not None and f["rt"].replace(" ", "").startswith("std::unique_ptr<" + ST + kind) and what(f)]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: the function building %s states (%d candidates)" % (kind, len(fs)))
    return fs[0]


def run(P, rep, tier):
    rep.rule("a composing state shows the phrases of the sentence in order, each whole and once, with the pending syllable at the cursor, and the cursor right behind it")
    rep.rule("inside a phrase the cursor stands after as many of its characters as readings of it precede the cursor, or at its end if it has fewer")
    rep.rule("a tooltip is shown exactly when the phrase the cursor is inside has fewer characters than readings; it names the readings before and after the cursor")
    rep.rule("a marking state splits the same text at the two ends of the mark and puts the cursor at the moving end")
    inp = builder(P, "Inputting", lambda f: not f["params"])
    mark = builder(P, "Marking", lambda f: len(f["params"]) == 1)
    fields = {k: {f["n"]: f["q"] for c in (ST + "NotEmpty", ST + k) for f in P.records[c]["fields"]} for k in ("Inputting", "Marking")}
    steps = 0
    fgrid = kh.field_of(P, KH, lambda t: t == GRID)
    fwalk = kh.field_of(P, KH, lambda t: t.endswith("ReadingGrid::WalkResult"))
    for nodes in shapes(tier):
        n = sum(r for r, _ in nodes)
        for cur in range(n + 1):
            for beg in [None] + list(range(n + 1)):
                if beg == cur or beg is not None and len(nodes) > 2 and tier != "thorough" and abs(beg - cur) > 3:
                    continue
                f = inp if beg is None else mark
                kind = "Inputting" if beg is None else "Marking"
                C = Text(P, nodes)
                I = Sized(P, C)
                rds = [mk("rd", i) for i in range(n)]

                def prep(I, st, c):
                    g = mk("F", mk("S", THIS), fgrid)
                    I.storev(st, mk("F", g, GRID + "::readings_"), mk("vec", tuple(rds)))
                    I.storev(st, mk("F", g, GRID + "::cursor_"), const(cur))
                    I.storev(st, mk("F", mk("F", mk("S", THIS), fwalk), WR + "::nodes"), mk("vec", tuple(mk("p", mk("O", "node", i)) for i in range(len(nodes)))))
                    I.storev(st, mk("F", mk("F", mk("S", THIS), fwalk), WR + "::totalReadings"), const(n))
                    for i, (r, m) in enumerate(nodes):
                        at = [C.off(I, st, i, k) for k in range(m + 1)]
                        for a, b in zip(at, at[1:]):
                            I.assume(st, I.mklt(a, b), True)
                    if beg is not None:
                        c.args = (const(beg),) + tuple(c.args[1:])
                where = "src/%s %s" % (f["l"], f["q"].split("(")[0].split("::")[-1])
                what = "phrases of %s readings with %s characters, cursor at %d%s" % (
                    ",".join(str(r) for r, _ in nodes) or "no", ",".join(str(m) for _, m in nodes) or "no", cur, "" if beg is None else ", mark from %d" % beg)
                res = eng.run_fn(I, C, f, prep, this=THIS)
                steps += I.steps
                if not res:
                    raise AnalysisError("%s is not evaluated for %s" % (f["q"], what))
                for s, v in res:
                    rep.count("states judged")
                    p = I.resolve(s, v)
                    if p.op != "p" or I.dynclass(s, p) != ST + kind:
                        raise AnalysisError("%s gives something else: %s" % (f["q"], show(p, 0, 3)))
                    o = I.load(s, p.a[0])
                    g = {k: I.resolve(s, I.fld(s, o, q)) for k, q in fields[kind].items()}

                    def judge(key, name, got, want):
                        if got != want:
                            rep.violation("%s:%s" % (kind, key), where, "%s: %s is %s; it must be %s" % (what, name, say(got), say(want)), trace_list(s, 10))

                    def place(t):
                        ps = C.norm(I, s, g["composingBuffer"])
                        hit = [x for x in C.places(I, s, ps) if x[2] is t]
                        if not hit:
                            return ["byte " + show(t, 0, 5)]
                        j, k, _ = hit[0]
                        if k is None:
                            return []
                        x = ps[j]
                        return ps[:j] + ([(x[0], x[1], k)] if isinstance(x, tuple) and k != "end" else [x])
                    before, after, short = split(nodes, cur)
                    text = C.norm(I, s, g["composingBuffer"])
                    if kind == "Inputting":
                        judge("text", "the text", text, before + ["pending"] + after)
                        if text == before + ["pending"] + after:
                            judge("cursor", "the text before the cursor", place(g["cursorIndex"]), before + ["pending"])
                        tip = g["tooltip"]
                        want = [rds[cur - 1], rds[cur]] if short else []
                        got = [x for x in subterms_in_order(tip) if x.op == "rd"]
                        empty = tip.op == "c" and tip.a[0] == b""
                        if got != want or empty != (not short):
                            rep.violation("tooltip", where, "%s: the tooltip is %s; it must %s" % (what, show(tip, 0, 4), "name readings %d and %d" % (cur - 1, cur) if short else "be empty"), trace_list(s, 10))
                    else:
                        lo, hi = sorted((cur, beg))
                        whole = [(i, 0, m) for i, (r, m) in enumerate(nodes)]
                        judge("text", "the text", text, whole)
                        if text == whole:
                            judge("cursor", "the text before the cursor", place(g["cursorIndex"]), before)
                        b, a = split(nodes, lo)[0], split(nodes, hi)
                        judge("head", "the text before the mark", C.norm(I, s, g["head"]), b)
                        judge("tail", "the text after the mark", C.norm(I, s, g["tail"]), a[1])
                        judge("whole", "head, marked text and tail together", joined(C.norm(I, s, g["head"]) + C.norm(I, s, g["markedText"]) + C.norm(I, s, g["tail"])), whole)
    rep.need("states judged", 500)
    return {"steps": steps}


def subterms_in_order(t):
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            out.append(x)
            for y in x.a:
                go(y)
    go(t)
    return out
