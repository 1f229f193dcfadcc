"""P16: only a valid new phrase can be added by marking."""
import eng, kh, shape
from kh import KH, ST, GRID, NS
from common import TRUSTED
from interp import *
from terms import *
from program import AnalysisError
TECHNIQUE = "path-sensitive analysis of every caller of the user-phrase adder, and partial evaluation of the construction of marking states for every pair of positions with symbolic contents"
ASSUMPTIONS = TRUSTED + ["marks are examined on compositions of up to 9 readings (a mark of more than six is refused whatever its length)"]
RETURN = 13


class AddClient(kh.KHClient):
    def __init__(self, P, rep, want):
        kh.KHClient.__init__(self, P, rep, want)
        self.made = set()
        F = {f["n"]: f["q"] for f in P.records[ST + "Marking"]["fields"]}
        self.f_ok, self.f_reading, self.f_text = F["acceptable"], F["reading"], F["markedText"]

    def state_param(self):
        ps = [p for p in self.params if p.op == "param" and p.a[1] == "state"]
        return ps[0] if ps else (self.params[0] if self.params else None)

    def marked(self, I, st):
        """The state parameter proved to be a Marking state on this path."""
        for f, v in st.facts.items():
            if v is True and f.op == "isa" and f.a[1] == ST + "Marking" and f.a[0] in self.params:
                return f.a[0]
        return None

    def ret_key(self, I, st):
        for f, v in st.facts.items():
            if v is True and f.op == "==" and const(RETURN) in f.a and any(
                    x.op == "fld" and x.a[1] == NS + "Key::ascii" for x in f.a):
                return True
        return False

    def fieldv(self, I, st, p, q):
        return I.resolve(st, I.fld(st, mk("obj", p), q))

    def on_add(self, I, st, c):
        self.rep.inst("phrases added", I.where(c.node))
        p = self.marked(I, st)

        def bad(t):
            self.v("add", I, st, c.node, t, self.entry)
        if p is None:
            bad("a phrase is added outside the marking state")
        else:
            if I.decide(st, I.truth(self.fieldv(I, st, p, self.f_ok))) is not True:
                bad("a phrase is added although the marked range was not found acceptable")
            if not self.ret_key(I, st):
                bad("a phrase is added on another key than Enter")
            a = [eng.strip_copy(I.resolve(st, x)) for x in c.args]
            if len(a) != 2 or a[0] is not self.fieldv(I, st, p, self.f_reading) or a[1] is not self.fieldv(I, st, p, self.f_text):
                bad("the phrase added is not the marked reading and text: " + ", ".join(show(x) for x in a))
        if st.ts.added:
            bad("a phrase is added twice")
        st.ts = st.ts._replace(added=True)

    def key(self, I, st):
        p = self.marked(I, st)
        a = I.decide(st, I.truth(self.fieldv(I, st, p, self.f_ok))) if p is not None else None
        return kh.KHClient.key(self, I, st) + (p, a, self.ret_key(I, st) if p is not None else None)

    def finish(self, I, st, v, fn):
        kh.KHClient.finish(self, I, st, v, fn)
        p = self.marked(I, st)
        if p is None or not self.ret_key(I, st):
            return
        a = I.decide(st, I.truth(self.fieldv(I, st, p, self.f_ok)))
        node = {"l": fn["l"]}
        if a is False:
            self.rep.inst("refused marks", fn["q"])
            if not st.ts.err:
                self.v("add", I, st, node, "Enter on a mark that cannot be added signals no error", "refuse")
            if st.ts.added:
                self.v("add", I, st, node, "Enter on a mark that cannot be added stores it", "refuse")
        if a is True:
            self.rep.inst("accepted marks", fn["q"])


class MarkClient(shape.Shape):
    def __init__(self, P):
        shape.Shape.__init__(self, P, self.follow)
        self.f_unigram = "Formosa::Gramambular2::LanguageModel::Unigram"

    def on_assume(self, I, st, cond, val):
        return not shape.emptied(cond, val)

    def follow(self, f):
        q = f["q"]
        if q.startswith(GRID):
            return base_name(q) in ("cursor", "readings", "length")
        if "Localized" in q or base_name(q) == "getComposedString" or f["rt"].endswith("ComposedString"):
            return False
        return q.startswith(NS) and "LM::" not in q or "(anon" in q or "lambda" in q

    def model(self, I, st, c):
        n = base_name(c.q or "")
        a = [I.resolve(st, x) for x in c.args]
        if n == "getUnigrams":
            return [(st, mk("vec", (mk("ug", 0, *a), mk("ug", 1, *a))))]
        if n == "value" and "Unigram" in (c.q or "") and c.objloc is not None:
            return [(st, mk("m", "val", I.load(st, c.objloc)))]
        if n == "hasUnigrams" or "Localized" in (c.q or "") or (c.rt or "").endswith("ComposedString"):
            return [(st, mk("m", c.q, *a))]
        return None


def builder(P):
    fs = [f for f in P.functions.values() if f.get("cls") == KH and f.get("body") is not None and ST + "Marking" in f["rt"] and "unique_ptr" in f["rt"]]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: the function building marking states (%d candidates)" % len(fs))
    return fs[0]


def marks(P, rep, N):
    fn = builder(P)
    M = {f["n"]: f["q"] for f in P.records[ST + "Marking"]["fields"]}
    gq = kh.field_of(P, KH, lambda t: t == GRID)
    steps = 0
    for cur in range(N + 1):
        for beg in range(N + 1):
            C = MarkClient(P)
            I = Interp(P, C)

            def prep(I, st, c):
                g = mk("F", mk("S", mk("this")), gq)
                I.storev(st, mk("F", g, GRID + "::readings_"), mk("vec", tuple(mk("rd", i) for i in range(N))))
                I.storev(st, mk("F", g, GRID + "::cursor_"), const(cur))
                c.args = (const(beg),) + tuple(c.args[1:])
            lo, hi = min(cur, beg), max(cur, beg)
            d = hi - lo
            parts = []
            for i in range(lo, hi):
                if parts:
                    parts.append(const(b"-"))
                parts.append(mk("rd", i))
            want = shape.flat(shape.cat_of(parts))
            what = "mark from %d to %d" % (beg, cur)

            def bad(t, s):
                rep.violation("mark@" + t.split(":")[0], fn["l"], "%s (%s of %d readings)" % (t, what, N), trace_list(s, 10))
            res = eng.run_fn(I, C, fn, prep)
            steps += I.steps
            for s, v in res:
                o = I.load(s, I.ptr_loc(v))
                rep.count("marks built")
                g = {n: I.resolve(s, I.fld(s, o, q)) for n, q in M.items()}
                if shape.flat(g["reading"]) != want:
                    bad("the reading stored for the mark is not that of the marked range: " + show(g["reading"]), s)
                if g["markStartGridCursorIndex"] is not const(beg):
                    bad("the start of the mark is not kept", s)
                t = g["markedText"]
                comp = [x for x in subterms(t) if x.op in ("m", "r") and base_name(str(x.a[0])) != "size" and len(x.a) > 1]
                heads = set()
                if t.op == "sub":
                    H = lambda k: [x for x in subterms(t) if x.op == "fld" and x.a[1].endswith("::head") and x.a[0].op in ("m", "r") and x.a[0].a[-1] is const(k)]
                    a, b = H(hi), H(lo)
                    if len(t.a) >= 2 and a and b and t.a[0] in a and t.a[1] is I.resolve(s, mk("m", "size", b[0])) or (
                            a and b and t.a[0] in a and b[0] in set(subterms(t.a[1])) and not any(
                                x in set(subterms(t.a[1])) for x in a if x not in b)):
                        heads.add("ok")
                if d and not heads:
                    bad("the marked text is not the text between the two cursors: " + show(t), s)
                ok = I.decide(s, I.truth(g["acceptable"]))
                if ok is None:
                    raise AnalysisError("acceptable is not decided for " + what)
                exists = known(I, s, g["reading"], t)
                if ok is True:
                    rep.count("acceptable marks")
                    if not 2 <= d <= 6:
                        bad("a mark of %d readings is acceptable" % d, s)
                    elif exists is not False:
                        bad("a mark is acceptable without the phrase being looked up under its reading and found missing", s)
                elif 2 <= d <= 6:
                    rep.count("refused known phrases")
                    if exists is not True:
                        bad("a new phrase of %d readings is refused" % d, s)
    return steps


def known(I, s, reading, text):
    """Does the path establish that the phrase exists for that reading?"""
    rd = shape.flat(reading)
    seen = {}
    for f, v in s.facts.items():
        if f.op in ("m", "r") and base_name(str(f.a[0])) == "hasUnigrams" and shape.flat(f.a[-1]) == rd:
            if v is False:
                return False
        if f.op == "==" and len(f.a) == 2:
            for x, y in (f.a, f.a[::-1]):
                if x is text:
                    ug = [z for z in subterms(y) if z.op == "ug" and shape.flat(z.a[1]) == rd]
                    if ug:
                        seen[ug[0].a[0]] = v
    if any(v is True for v in seen.values()):
        return True
    if seen.get(0) is False and seen.get(1) is False:
        return False
    return None


def run(P, rep, tier):
    rep.rule("the phrase adder is called only for an acceptable Marking state on Enter, with that state's reading and marked text; a refused mark signals an error and stores nothing")
    rep.rule("a marking state is acceptable only if its range spans 2..6 readings and the language model was asked for exactly its reading and has no entry with exactly its text")
    rep.rule("the reading of a mark is the join of exactly the readings between the two positions; its text is what is composed between them")
    # who may call the adder
    add = {m["u"] for q, r in P.records.items() for m in r["methods"] if m["n"] == "addUserPhrase"}
    if not add:
        raise AnalysisError("anchor vanished: addUserPhrase")
    st = kh.analyse(P, rep, {"add"}, cls=AddClient)
    for f in P.functions.values():
        if f.get("body") is None or f.get("cls") == KH:
            continue
        for n in walk_nodes(f["body"]):
            if n.get("callee") in add or n.get("u") in add:
                rep.violation("caller@" + f["q"], f["l"], "%s stores a user phrase outside key handling" % f["q"])
    rep.need("phrases added", 1)
    rep.need("refused marks", 1)
    rep.need("accepted marks", 1)
    st["abstract_steps_marks"] = marks(P, rep, 9 if tier == "thorough" else 8)
    rep.need("marks built", 81)
    rep.need("acceptable marks", 30)
    return st


def walk_nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk_nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk_nodes(v)
