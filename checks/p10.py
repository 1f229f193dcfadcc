"""P10: the readers of phrase data and the text decoders read only inside the text they were given."""
import eng, models
from program import walk
from terms import *
from interp import *
from common import TRUSTED, judged_at_callers
TECHNIQUE = "abstract interpretation in a relational (difference-bound) domain: text is a buffer of unknown content and unknown length, pointers and iterators are positions in it; every loop is solved to a fixed point and each dereference, comparison and view must be proved to lie inside its text"
ASSUMPTIONS = TRUSTED + ["a text's length is below 2^62, so positions do not wrap"]
NOTE = "Static: every reader and decoder, texts of every length and content; one obligation per read, view and range."

N = "McBopomofo::"
KV = N + "KeyValueBlobReader"
DB = N + "ParselessPhraseDB"
THIS = mk("this")
BUF = mk("S", mk("buf", "text"))
LEN = mk("param", "length of the text")


def pos(i):
    return mk("p", mk("E", BUF, i))


class Text(Client):
    num = True
    positions = True
    merge_limit = 12
    unroll = 0

    def __init__(self, P, rep, follow):
        self.P, self.rep, self.follow = P, rep, follow
        self.thresholds = {0}
        self.seen = {}                       # (line, what) -> all proved
        self.bad = {}

    def init_ts(self):
        return ()

    def key(self, I, st):
        return st.ts

    def opaque(self, I, fn):
        return not self.follow(fn)

    def on_alloc(self, I, st, *a):
        pass

    # ---- obligations
    def size(self, I, st, cont):
        if cont is BUF:
            return LEN
        v = I.resolve(st, I.load(st, cont))
        n = I.resolve(st, models.size_of(I, st, v))
        if n.op not in ("c", "lin"):
            I.utype.add(n)
        return n

    def must(self, I, st, node, what, *les):
        """les: (a, b, c): a - b <= c."""
        k = (I.where(node), what)
        self.seen.setdefault(k, True)
        for a, b, c in les:
            if not self.le(I, st, a, b, c):
                self.seen[k] = False
                if k not in self.bad:
                    self.bad[k] = ("%s <= %s%s is not assured" % (show(I.resolve(st, a)), show(I.resolve(st, b)), "%+d" % c if c else ""), trace_list(st, 12))
                return False
        return True

    def le(self, I, st, a, b, c):
        if I.proves_le(st, a, b, c):
            return True
        if st.num is None:
            return False
        d = lin_add(I.resolve(st, a), I.resolve(st, b), -1)
        return self.sum_le(I, st, d, c)

    def sum_le(self, I, st, d, c):
        """d <= c through one known bound on a sum s - y <= w."""
        for s, r in list(st.num.d.items()):
            if s.op != "lin":
                continue
            for y, w in list(r.items()):
                if y is s:
                    continue
                rest = lin_add(d, lin_add(s, y, -1), -1)
                u = I.upper(st, rest) if lin_parts(rest)[1] else lin_parts(rest)[0]
                if u is not None and u + w <= c:
                    return True
        return False

    def at(self, I, st, node, cont, i, what):
        n = self.size(I, st, cont)
        self.must(I, st, node, what, (ZERO, i, 0), (i, n, -1))

    def chars(self, node):
        return (node.get("t") or "").replace("const ", "").strip(" &") == "char"

    def on_deref(self, I, st, v, node):
        if self.chars(node) and v.op == "p" and v.a[0].op == "E":
            self.at(I, st, node, v.a[0].a[0], v.a[0].a[1], "read")

    def on_index(self, I, st, cont, i, node, kind):
        if kind not in ("substr", "replace", "erase", "insert", "pop") and self.chars(node):
            self.at(I, st, node, cont, i, "read")

    def span(self, I, st, node, p, n, what):
        """n bytes from p."""
        p = I.resolve(st, p)
        if p.op == "p" and p.a[0].op == "E":
            cont, i = p.a[0].a
            self.must(I, st, node, what, (ZERO, i, 0), (lin_add(i, I.resolve(st, n)), self.size(I, st, cont), 0), (ZERO, n, 0))
            return True
        if p.op == "c" and isinstance(p.a[0], bytes):
            self.must(I, st, node, what, (n, const(len(p.a[0])), 0))
            return True
        return False

    def on_call(self, I, st, c):
        q = models.canon(c.q)
        a = [I.resolve(st, x) for x in c.args]
        b = q.split("::")[-1]
        if q in ("memcmp", "std::memcmp", "strncmp"):
            self.span(I, st, c.node, a[0], a[2], "comparison")
            self.span(I, st, c.node, a[1], a[2], "comparison")
            t = mk("r", q, I.at(c.node) if hasattr(I, "at") else mk("site", I.where(c.node)), *a)
            return [(st, t)]
        view = c.ctor and (q.startswith("std::string"))
        if (view or b in ("emplace_back", "push_back")) and len(a) >= 2:
            if a[0].op == "p" and a[0].a[0].op == "E":
                if a[1].op == "p" and a[1].a[0].op == "E":
                    if a[0].a[0].a[0] is not a[1].a[0].a[0]:
                        self.must(I, st, c.node, "range of two texts", (const(1), ZERO, 0))
                    else:
                        i, j = a[0].a[0].a[1], a[1].a[0].a[1]
                        self.must(I, st, c.node, "range", (ZERO, i, 0), (i, j, 0), (j, self.size(I, st, a[0].a[0].a[0]), 0))
                else:
                    self.span(I, st, c.node, a[0], a[1], "view")
        return None


def fields(I, st, cls, **kw):
    for n, v in kw.items():
        I.storev(st, mk("F", mk("S", THIS), cls + "::" + n), v)


def assume_le(I, st, a, b, c=0):
    I.add_le(st, lin_add(lin_add(a, b, -1), const(-c)))


def base_facts(I, st):
    I.utype.add(LEN)
    assume_le(I, st, ZERO, LEN)


def find(P, q, pred=None):
    for f in P.functions.values():
        if f["q"] == q and f.get("body") is not None and (pred is None or pred(f)):
            return f
    raise AnalysisError("anchor vanished: " + q)


def analyse(P, rep, f, follow, prep=None):
    C = Text(P, rep, follow)
    I = Interp(P, C)
    C.I = I

    def pre(I, st, c):
        base_facts(I, st)
        st.facts[mk("==", THIS, NULL)] = False
        if prep:
            prep(I, st, c)
    out = eng.run_fn(I, C, f, pre)
    return I, C, out


def conclude(rep, C, name):
    for (where, what), ok in sorted(C.seen.items()):
        rep.inst("reads", "%s %s" % (where, what))
        rep.count("obligations")
        if not ok:
            why, tr = C.bad[(where, what)]
            rep.violation("%s@%s" % (what.split(" ")[0], name), where, "%s: this %s can leave its text: %s" % (name, what, why), tr)


def texts(f):
    """How many accesses to characters the function makes itself."""
    n_ = 0
    for n in walk([f["body"], f.get("inits") or []]):
        k, t = n.get("k"), (n.get("t") or "").replace("const ", "").strip(" &")
        if t == "char" and (k == "ArraySubscriptExpr" or k == "UnaryOperator" and n.get("op") == "*"):
            n_ += 1
        fn = n.get("fn")
        if isinstance(fn, dict):
            q = models.canon(fn.get("q") or "")
            b = q.split("::")[-1]
            if t == "char" and b in ("operator[]", "at", "front", "back", "operator*"):
                n_ += 1
            elif q in ("memcmp", "std::memcmp", "strncmp", "memcpy", "std::memcpy") or b in VIEW and n.get("args"):
                n_ += 1
    return n_


VIEW = ("emplace_back", "basic_string", "basic_string_view", "string", "string_view")


def bounded(*names):
    """0 <= names[0] <= names[1] <= ... <= LEN"""
    ps = [mk("param", n) for n in names]

    def prep(I, st):
        I.utype.update(ps)
        last = ZERO
        for p in ps:
            assume_le(I, st, last, p)
            last = p
        assume_le(I, st, last, LEN)
    return ps, prep


def invariant(P, rep, cls, names, tier):
    """Every method starts and leaves the object with 0 <= field 1 <= field 2 <= length of its text."""
    steps = 0
    qs = [cls + "::" + n for n in names]
    ps, prep = bounded(*names)
    fns = [f for f in P.functions.values() if f.get("cls") == cls and f.get("body") is not None and not f.get("lambda")]
    if not any(f.get("ctor") for f in fns):
        raise AnalysisError("no constructor of %s" % cls)
    later = judged_at_callers(P)
    for f in fns:
        if f["key"] in later and not f.get("ctor"):
            continue
        name = f["q"].split("::")[-1]
        ptrs = [i for i, p in enumerate(f["params"][:-1]) if spanned(f, i)]

        C = Text(P, rep, lambda g: g["repo"])
        I = Interp(P, C)
        C.I = I
        over = {}
        for i in ptrs:
            over[f["params"][i]["n"]], over[f["params"][i + 1]["n"]] = pos(ZERO), LEN

        def base(I, st, c):
            base_facts(I, st)
            st.facts[mk("==", THIS, NULL)] = False
            prep(I, st)
            if not f.get("ctor"):
                fields(I, st, cls, **{n: pos(p) for n, p in zip(names, ps)})
        out = eng.run_fn(I, C, f, base, over)
        steps += I.steps
        conclude(rep, C, name)
        if f.get("static"):
            continue
        for r in out:
            st = r[0] if isinstance(r, tuple) else r
            rep.count("exits")
            idx = []
            for q in qs:
                v = I.resolve(st, I.load(st, mk("F", mk("S", THIS), q)))
                ok = v.op == "p" and v.a[0].op == "E" and v.a[0].a[0] is BUF
                idx.append(v.a[0].a[1] if ok else None)
                if not ok:
                    rep.violation("%s@%s" % (q.split("::")[-1], name), f["l"], "%s leaves %s as something other than a position in its text: %s" % (name, q.split("::")[-1], show(v)), trace_list(st, 12))
            if None in idx:
                continue
            last = ZERO
            for q, i in list(zip(qs, idx)) + [("the end of the text", LEN)]:
                if not C.le(I, st, last, i, 0):
                    rep.violation("order@%s" % name, f["l"], "%s leaves its positions out of order or outside the text: %s <= %s (%s) is not assured" % (name, show(last), show(i), q.split("::")[-1]), trace_list(st, 12))
                    break
                last = i
        rep.inst("methods", "%s: %s" % (f["l"], f["q"]))
    return steps


SIZES = ("size_t", "unsigned long", "std::size_t")


def spanned(f, i):
    """Do parameters i and i+1 give a text and its length?"""
    ps = f["params"]
    return (ps[i]["t"].replace(" ", "") == "constchar*" and i + 1 < len(ps) and ps[i + 1]["t"].replace("const ", "") in SIZES)


class Spans(Text):
    """Whoever hands over a text with a length hands over that text's length."""

    def __init__(self, P, rep, f, targets):
        super().__init__(P, rep, lambda g: g.get("cls") == N + "MemoryMappedFile")
        self.f, self.targets = f, targets

    def must(self, *a):
        return True

    def on_call(self, I, st, c):
        fn = c.fn if isinstance(getattr(c, "fn", None), dict) else None
        for f, i in self.targets.get(c.q, []):
            if fn is not None and fn.get("u") != f["u"] or len(c.args) < i + 2:
                continue
            a, n = I.resolve(st, c.args[i]), I.resolve(st, c.args[i + 1])
            if fn is None and not self.pointer(a):
                continue
            k = (I.where(c.node), c.q)
            self.seen.setdefault(k, True)
            if not self.pair(I, st, a, n):
                self.seen[k] = False
                self.bad.setdefault(k, ("%s with length %s" % (show(a), show(n)), trace_list(st, 12)))
        return super().on_call(I, st, c)

    def pointer(self, a):
        return a.op in ("param", "r", "p", "m", "c")

    def pair(self, I, st, a, n):
        if a is NULL:
            return True
        if a.op == "r" and a.a[0] == "mmap":
            return a.a[2] is n
        if a.op == "param" and n.op == "param":
            ps = self.f["params"]
            return any(spanned(self.f, i) and a.a[-1] == ps[i]["n"] and n.a[-1] == ps[i + 1]["n"] for i in range(len(ps)))
        if a.op == "p" and a.a[0].op == "E" and a.a[0].a[1] is ZERO:
            return n is self.size(I, st, a.a[0].a[0])
        if a.op == "c" and isinstance(a.a[0], bytes):
            return n.op == "c" and isinstance(n.a[0], int) and 0 <= n.a[0] <= len(a.a[0])
        return False


def spans(P, rep):
    targets = {}
    for f in P.functions.values():
        if f["repo"]:
            for i in range(len(f["params"])):
                if spanned(f, i):
                    targets.setdefault(f["q"], []).append((f, i))
                    rep.inst("takes a text with its length", f["q"])
    us = {f["u"]: f for l in targets.values() for f, _ in l}
    steps = 0
    ctors = {q.rsplit("::", 1)[0] for q, l in targets.items() if any(f.get("ctor") for f, _ in l)}
    for f in list(P.functions.values()):
        if not f["repo"] or f.get("body") is None or f.get("lambda"):
            continue
        sites = 0
        for n in walk([f["body"], f.get("inits") or []]):
            fn = n.get("fn")
            if isinstance(fn, dict) and (fn.get("u") in us or "make_unique" in (fn.get("q") or "") and any(c.split("::")[-1] + ">" in str(fn.get("rt")) or c.split("::")[-1] + "," in str(fn.get("rt")) for c in ctors)):
                sites += 1
        if not sites:
            continue
        C = Spans(P, rep, f, targets)
        I = Interp(P, C)
        C.I = I

        def pre(I, st, c):
            base_facts(I, st)
            st.facts[mk("==", THIS, NULL)] = False
        eng.run_fn(I, C, f, pre)
        steps += I.steps
        for (where, q), ok in sorted(C.seen.items()):
            rep.inst("hands over a text with its length", "%s %s" % (where, q))
            rep.count("obligations")
            if not ok:
                why, tr = C.bad[(where, q)]
                rep.violation("length@%s" % f["q"].split("::")[-1], where, "%s gives %s a text with a length that is not known to be that text's: %s" % (f["q"], q, why), tr)
    return steps


HAND = (KV, DB)
MODULES = ("src/Engine/",)


def run(prog, rep, tier):
    P = prog
    rep.rule("every caller that hands a reader a text and a length hands over a mapped file with the mapped length, or its own (text, length) parameters")
    rep.rule("constructors establish and every method keeps 0 <= position <= end <= length of the text")
    rep.rule("every dereference, comparison, view and range over characters lies inside its text, for every content and length")
    steps = spans(P, rep)
    steps += invariant(P, rep, KV, ("current_", "end_"), tier)
    steps += invariant(P, rep, DB, ("begin_", "end_"), tier)
    fs = [f for f in P.functions.values() if f["repo"] and f.get("body") is not None and not f.get("lambda")
          and any(m in f["l"] or m in "src/" + f["l"] for m in MODULES) and f.get("cls") not in HAND and texts(f)]
    keys = {f["key"] for f in fs}
    later = judged_at_callers(P)
    for f in fs:
        if f["key"] in later:
            continue
        I, C, out = analyse(P, rep, f, lambda g: g["key"] in keys or g.get("lambda"))
        steps += I.steps
        conclude(rep, C, f["q"].split("::")[-1])
        rep.inst("functions", "%s %s" % (f["l"], f["q"]))
    rep.need("functions", 10)
    rep.need("hands over a text with its length", 8)
    rep.need("reads", 30)
    return {"steps": steps}
