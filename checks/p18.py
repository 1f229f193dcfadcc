"""P18: number entry accepts only what conversion supports."""
import eng, models, kh
from kh import KH, ST, NS
from program import walk, AnalysisError
from terms import *
from interp import *
from shape import *
from models import NPOS
from common import TRUSTED
TECHNIQUE = "reachability over the shapes of the number being typed (length and place of the point; digits and the key symbolic) by partial evaluation of key handling, then evaluation of the converters for every reachable shape with symbolic digits, bounding every table index"
ASSUMPTIONS = TRUSTED + ["a converter's memory reads are judged for one digit string per length and position of the point, with unknown digits"]
NOTE = "Static: digits and keys stay symbolic; only lengths are enumerated, up to the limit the code itself enforces."
LIMIT = 64
STYLES = ("LOWER", "UPPER", "SUZHOU")


def where_of(fn):
    return {"l": fn["l"]}


class Chars(Shape):
    """Strings and string streams as exact sequences of characters, each known or symbolic."""
    def init_ts(self):
        return ((), ())              # events, errors

    def ev(self, st, *e):
        st.ts = (st.ts[0] + (e,),) + st.ts[1:]

    def err(self, st, what):
        if what not in st.ts[1]:
            st.ts = (st.ts[0], st.ts[1] + (what,)) + st.ts[2:]

    def cs(self, I, st, v):
        v = I.resolve(st, v)
        if v.op == "c" and isinstance(v.a[0], bytes):
            return tuple(const(b if b < 128 else b - 256) for b in v.a[0])
        if v.op == "vec":
            return v.a[0]
        if v.op == "chr":
            return (v.a[0],)
        if v.op == "cat":
            r = ()
            for x in v.a:
                y = self.cs(I, st, x)
                if y is None:
                    return None
                r += y
            return r
        return None

    def mk(self, cs):
        if all(isc(c) for c in cs):
            return const(bytes(cval(c) & 255 for c in cs))
        return mk("vec", tuple(cs))

    def arg(self, I, st, c, i):
        """Argument i as characters: a text or a single character."""
        if norm_t(c, i) in ("char", "signed char"):
            return (I.resolve(st, c.args[i]),)
        return self.cs(I, st, c.args[i])

    def same(self, I, st, x, y):
        if len(x) != len(y):
            return FALSE
        ts = [I.mkeq(a, b) for a, b in zip(x, y)]
        ds = [I.decide(st, t) if t not in (TRUE, FALSE) else t is TRUE for t in ts]
        if any(d is False for d in ds):
            return FALSE
        ts = [t for t, d in zip(ts, ds) if d is None]
        return TRUE if not ts else ts[0] if len(ts) == 1 else mk("and", *ts)

    def split(self, I, st, x, y, node):
        """[(state, whether the texts are equal)]"""
        if len(x) != len(y):
            return [(st, FALSE)]
        live, out = [st], []
        for a, b in zip(x, y):
            nxt = []
            for s in live:
                for s2, t in I.branch(s, I.mkeq(a, b), node):
                    (nxt if t else out).append(s2 if t else (s2, FALSE))
            live = nxt
        return out + [(s, TRUE) for s in live]

    def model(self, I, st, c):
        q = models.canon(c.q)
        n = q.split("::")[-1]
        a = c.args
        if c.q.startswith("std::char_traits"):
            return None
        if q == "std::operator+" and len(a) == 2:
            x, y = self.arg(I, st, c, 0), self.arg(I, st, c, 1)
            if x is not None and y is not None:
                return [(st, self.mk(x + y))]
            return [(st, mk("r", "text"))]
        if q in ("std::operator==", "std::operator!=") and len(a) == 2:
            x, y = self.cs(I, st, a[0]), self.cs(I, st, a[1])
            if x is not None and y is not None:
                return [(s, r if n == "operator==" else I.mknot(r)) for s, r in self.split(I, st, x, y, c.node)]
            return None
        if q == "std::operator<<" and len(a) == 2 and c.alocs[0] is not None:
            return self.put(I, st, c, c.alocs[0], a[0], 1)
        if q == "std::reverse":
            r = models.span(I, st, a[0], a[1]) if a[0].op == "p" and a[1].op == "p" else None
            l = a[0].a[0].a[0] if r is not None else None
            x = self.cs(I, st, I.load(st, l)) if l is not None else None
            if x is not None and len(self.cs(I, st, r)) == len(x):
                I.wr(st, l, self.mk(x[::-1]), c.node)
                return [(st, VOID)]
            return None
        if q in ("std::ceil", "ceil", "std::floor", "floor") and len(a) == 1:
            x = I.resolve(st, a[0])
            if isc(x) and isinstance(cval(x), (int, float)):
                import math
                return [(st, const(int(getattr(math, n)(cval(x)))))]
            return None
        if q.startswith(("std::stringstream::", "std::ostream::")) and not c.ctor and c.objloc is not None:
            if n == "operator<<":
                l, v = models.obj(I, st, c)
                return self.put(I, st, c, l, v, 0)
            l, v = models.obj(I, st, c)
            if n == "str" and not a:
                x = self.cs(I, st, v.a[0]) if v.op == "ss" else None
                return [(st, self.mk(x) if x is not None else mk("r", "text"))]
        if q.startswith("std::string::") and not c.ctor and c.objloc is not None:
            return self.string(I, st, c, n, a)
        return None

    def put(self, I, st, c, l, v, i):
        v = I.load(st, l)
        if v.op == "ref":
            l = v.a[0]
            v = I.load(st, l)
        if v.op != "ss":
            return None
        x, y = self.cs(I, st, v.a[0]), self.arg(I, st, c, i)
        I.wr(st, l, mk("ss", self.mk(x + y) if x is not None and y is not None and not self.text(c.args[i]) else mk("r", "text")), c.node)
        return [(st, mk("lref", l))]

    def text(self, v):
        """Characters beyond ASCII: their content does not matter here."""
        return v.op == "c" and isinstance(v.a[0], bytes) and any(b > 127 for b in v.a[0])

    def string(self, I, st, c, n, a):
        l, v = models.obj(I, st, c)
        x = self.cs(I, st, v)
        if x is None:
            if v.op in ("r", "m") and n in ("append", "operator+=", "push_back"):
                return [(st, mk("lref", l))]
            return None

        def cint(t, d=None):
            t = I.resolve(st, t)
            if isc(t) and isinstance(cval(t), int):
                return cval(t)
            raise AnalysisError("%s: a position that is not evaluated: %s" % (I.where(c.node), show(t, 0, 4)))

        def put(y):
            I.wr(st, l, self.mk(y), c.node)
        if n in ("push_back", "append", "operator+=") and len(a) == 1:
            y = self.arg(I, st, c, 0)
            if y is None:
                I.wr(st, l, mk("r", "text"), c.node)
            else:
                put(x + y)
            return [(st, mk("lref", l))]
        if n == "append" and len(a) == 2 and norm_t(c, 1) == "char":
            put(x + (I.resolve(st, a[1]),) * cint(a[0]))
            return [(st, mk("lref", l))]
        if n == "pop_back":
            if not x:
                self.err(st, "%s: a character is removed from an empty text" % I.where(c.node))
            put(x[:-1])
            return [(st, VOID)]
        if n in ("front", "back", "at", "operator[]"):
            i = 0 if n == "front" else len(x) - 1 if n == "back" else cint(a[0])
            if not 0 <= i < len(x) + (n == "operator[]"):
                self.err(st, "%s: character %d of a text of %d is read" % (I.where(c.node), i, len(x)))
                return [(st, mk("r", "beyond", self.k()))]
            return [(st, mk("lref", mk("E", l, const(i))))] if i < len(x) else [(st, ZERO)]
        if n == "substr":
            p = cint(a[0]) if a else 0
            k = cint(a[1]) if len(a) > 1 else NPOS
            if p > len(x):
                self.err(st, "%s: a part from %d of a text of %d is taken" % (I.where(c.node), p, len(x)))
                p = len(x)
            return [(st, self.mk(x[p:] if k >= len(x) else x[p:p + k]))]
        if n == "erase" and all(norm_t(c, i) in ("unsigned long", "size_t") for i in range(len(a))):
            p, k = cint(a[0]) if a else 0, cint(a[1]) if len(a) > 1 else NPOS
            if p > len(x):
                self.err(st, "%s: a part from %d of a text of %d is removed" % (I.where(c.node), p, len(x)))
                p = len(x)
            put(x[:p] + (x[p + k:] if k < len(x) else ()))
            return [(st, mk("lref", l))]
        if n == "insert" and len(a) == 3 and norm_t(c, 2) == "char":
            p = cint(a[0])
            put(x[:p] + (I.resolve(st, a[2]),) * cint(a[1]) + x[p:])
            return [(st, mk("lref", l))]
        if n == "resize":
            k = cint(a[0])
            put(x[:k] + ((I.resolve(st, a[1]) if len(a) > 1 else ZERO),) * (k - len(x)))
            return [(st, VOID)]
        if n in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
            y = self.arg(I, st, c, 0)
            if y is not None and (len(y) == 1 or n in ("find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of")) and len(a) <= 2:
                return self.find(I, st, c, n, x, y, cint(a[1]) if len(a) > 1 else None)
        return None

    def find(self, I, st, c, n, x, y, p):
        back, neg = n.startswith(("rfind", "find_last")), "not" in n
        if back:
            idx = range(min(len(x) - 1, NPOS if p is None else p), -1, -1)
        else:
            idx = range(p or 0, len(x))
        live, out = [st], []
        for i in idx:
            nxt = []
            for s in live:
                sub = [s]
                hit = []
                for ch in y:
                    keep = []
                    for t in sub:
                        for t2, b in I.branch(t, I.mkeq(x[i], ch), c.node):
                            (hit if b else keep).append(t2)
                    sub = keep
                if neg:
                    hit, sub = sub, hit
                out += [(t, const(i)) for t in hit]
                nxt += sub
            live = nxt
        return out + [(s, const(NPOS)) for s in live]

    def k(self):
        self.n += 1
        return self.n


def norm_t(c, i):
    t = c.atypes[i] if i < len(c.atypes) else ""
    return t.replace("const", "").replace("&", "").strip()


def digit(i):
    return mk("param", "digit", i)


def number(I, st, shape, tag=0):
    """The characters of a number of this shape, digits symbolic."""
    out = []
    for i, ch in enumerate(shape):
        if ch == ".":
            out.append(const(46))
        else:
            d = digit((tag, i))
            I.assume(st, I.mklt(d, const(48)), False)
            I.assume(st, I.mklt(const(57), d), False)
            out.append(d)
    return tuple(out)


def is_digit(I, st, t):
    return I.decide(st, I.mklt(t, const(48))) is False and I.decide(st, I.mklt(const(57), t)) is False


def shape_of(I, st, cs):
    """The shape of a number, or None when some character is neither a digit nor a point."""
    r = ""
    for t in cs:
        t = I.resolve(st, t)
        if t is const(46) or I.decide(st, I.mkeq(t, const(46))) is True:
            r += "."
        elif is_digit(I, st, t):
            r += "D"
        else:
            return None
    return r


class Entry(Chars):
    """Key handling in number entry: callbacks are recorded, conversion and the grid stay outside."""
    def __init__(self, P):
        Chars.__init__(self, P, lambda f: f["repo"])
        self.conv = {f["u"] for f in P.functions.values() if "ChineseNumbers/" in f["l"] and f.get("body") is not None}

        self.entered = set()

    def on_enter(self, I, st, fn, call):
        self.entered.add(fn["key"])

    def opaque(self, I, fn):
        rt = fn["rt"]
        return Chars.opaque(self, I, fn) or fn.get("cls", "").startswith("Formosa::Gramambular2") or "unique_ptr<McBopomofo::InputStates" in rt and fn.get("cls") == KH or "buildInputting" in fn["q"]

    def model(self, I, st, c):
        n = base_name(c.q or "")
        if c.fn is not None and c.fn.get("u") in self.conv:
            a = tuple(I.resolve(st, x) for x in c.args)
            self.ev(st, "convert", c.fn["u"], a, I.where(c.node))
            return [(st, mk("m", "converted", c.fn["u"], *a))]
        if n in ("hasUnigrams", "getUnigrams") and len(c.args) == 1:
            x = self.cs(I, st, c.args[0])
            self.ev(st, "ask", x, I.where(c.node))
            return [(st, mk("m", n, *[I.resolve(st, y) for y in c.args]))]
        return Chars.model(self, I, st, c)

    def on_unknown_callee(self, I, st, f, call):
        if call.args and len(call.args) == 1:
            p = I.resolve(st, call.args[0])
            self.ev(st, "state", I.load(st, p.a[0]) if p.op == "p" else p, I.where(call.node))
            return [(st, VOID)]
        if not call.args:
            self.ev(st, "error", I.where(call.node))
            return [(st, VOID)]
        return None


def entry(P, rep, kind, style, C, seen):
    """Shapes reachable in one kind of number entry, with every step judged."""
    fn = eng.method(P, KH, "handle")
    F = {f["n"]: f["q"] for f in P.records[kind]["fields"]}
    if "number" not in F:
        raise AnalysisError("anchor vanished: the number of %s" % kind)
    NUM, STY = F["number"], F.get("style")
    label = kind.split("::")[-1]
    todo, done = [""], set()
    while todo:
        sh = todo.pop()
        if sh in done:
            continue
        done.add(sh)
        if len(sh) > LIMIT:
            rep.violation("limit:" + label, I.where(where_of(fn)), "the number being typed may grow beyond %d characters" % LIMIT, tr)
            break
        I = Interp(P, C)
        old = [None]

        def prep(I, st, c):
            old[0] = number(I, st, sh)
            fs = [(NUM, C.mk(old[0]))]
            if STY:
                fs.append((STY, const(style)))
            loc = mk("O", mk("ctx"), mk("site", "state", kind))
            st.store[loc] = mk("s", kind, tuple(sorted(fs)), mk("dynobj", kind, "cur"))
            i = next(i for i, t in enumerate(fn["pt"]) if "InputState" in t and t.endswith("*"))
            c.args = c.args[:i] + (mk("p", loc),) + c.args[i + 1:]
        ascii_ = None
        for s, v in eng.run_fn(I, C, fn, prep):
            rep.count("key paths in number entry")
            tr = trace_list(s)
            w = I.where(where_of(fn))
            evs, errs = s.ts[0], s.ts[1]
            for e in errs:
                rep.violation("entry:" + label, w, "with a number of %d characters: %s" % (len(sh), e), tr)
            if I.resolve(s, v) is not TRUE:
                rep.violation("absorb:" + label, w, "a key typed in number entry is not absorbed", tr)
            if not any(e[0] in ("state", "error") for e in evs):
                rep.violation("absorb:" + label, w, "a key typed in number entry neither changes it nor signals an error", tr)
            for e in evs:
                if e[0] == "state":
                    nx = step(P, rep, I, s, C, e, kind, NUM, STY, style, old[0], sh, label, tr)
                    if nx is not None and nx not in done:
                        todo.append(nx)
                elif e[0] == "convert":
                    seen.setdefault((e[1], style), {}).setdefault(sh, e[2])
                    conversion(P, rep, I, s, C, e, old[0], sh, tr)
                elif e[0] == "ask":
                    want = tuple(const(b) for b in b"_number_") + old[0]
                    if e[1] is None or C.same(I, s, e[1], want) is not TRUE:
                        rep.violation("ask:" + label, e[2], "the numbers looked up are not those of the number typed", tr)
    rep.count("shapes reached (%s)" % label, len(done))
    return done


def step(P, rep, I, s, C, e, kind, NUM, STY, style, old, sh, label, tr):
    v = I.resolve(s, e[1])
    cls = v.a[0] if v.op in ("s", "dynobj") else None
    while v.op == "s" and not cls:
        v = v.a[2]
        cls = v.a[0]
    if cls is None:
        if v.op in ("r", "m", "any", "obj", "ctor"):
            return None
        raise AnalysisError("%s: a state that is not evaluated: %s" % (e[2], show(v, 0, 4)))
    if cls != kind:
        return None
    x = C.cs(I, s, I.fld(s, e[1], NUM))
    if x is None:
        raise AnalysisError("%s: a number that is not evaluated: %s" % (e[2], show(I.fld(s, e[1], NUM), 0, 5)))
    nx = shape_of(I, s, x)
    w = e[2]
    if nx is None:
        rep.violation("chars:" + label, w, "something other than a digit or a point can enter the number", tr)
        return None
    if STY is None and "." in nx:
        rep.violation("chars:" + label, w, "a point can enter an enclosed number", tr)
        return None
    if nx.count(".") > 1:
        rep.violation("chars:" + label, w, "a second point can enter the number", tr)
        return None
    if nx.startswith("."):
        rep.violation("chars:" + label, w, "a point can enter before any digit", tr)
        return None
    if STY is not None and I.resolve(s, I.fld(s, e[1], STY)) is not const(style):
        rep.violation("chars:" + label, w, "typing changes the kind of number", tr)
    shorter = len(x) == len(old) - 1 and C.same(I, s, x, old[:-1]) is TRUE
    longer = len(x) == len(old) + 1 and C.same(I, s, x[:-1], old) is TRUE and typed(x[-1])
    if not shorter and not longer:
        rep.violation("chars:" + label, w, "a key does something else to a number of %d characters than adding itself or removing the last one" % len(old), tr)
        return None
    rep.count("steps of number entry")
    return nx


def typed(t):
    return isc(t) and t is const(46) or any(x.op == "fld" and x.a[1].endswith("Key::ascii") or x.op == "param" and "digit" not in x.a for x in subterms(t))


def conversion(P, rep, I, s, C, e, old, sh, tr):
    i, _, d = sh.partition(".")
    want = [old[:len(i)], old[len(i) + 1:]]
    got = [C.cs(I, s, x) for x in e[2][:2]]
    if None in got or len(got) < 2 or any(C.same(I, s, g, w) is not TRUE for g, w in zip(got, want)):
        rep.violation("split", e[3], "what is converted is not the digits before and after the point", tr)
    rep.count("conversions started")


class Conv(Chars):
    """One converter, table indices judged; the text it makes does not matter."""
    merge_limit = 6
    split_unroll = True

    def __init__(self, P, rep, label):
        Chars.__init__(self, P, lambda f: f["repo"])
        self.rep, self.label = rep, label

    def init_ts(self):
        return ((), (), ())

    def key(self, I, st):
        return (st.ts, tuple(sorted((l.id, v.id) for l, v in st.store.items() if v.op in ("vec", "ss", "c"))))

    def on_index(self, I, st, loc, idx, node, kind):
        if kind != "array":
            return
        v = I.load(st, loc)
        n = size_known(I, st, v)
        if n is None:
            n = self.P_extent(loc)
        if n is None:
            raise AnalysisError("%s: a table of unknown size is read" % I.where(node))
        self.rep.count("table reads judged")
        i = I.resolve(st, idx)
        if not (I.decide(st, I.mklt(i, ZERO)) is False and I.decide(st, I.mklt(i, const(n))) is True):
            self.rep.violation("table:" + str(I.where(node)), I.where(node), "%s: entry %s of a table of %d may be read" % (self.label, show(i, 0, 3), n), trace_list(st))

    def P_extent(self, loc):
        return None


def size_known(I, st, v):
    t = models.size_of(I, st, v)
    return cval(t) if isc(t) else None


def convert(P, rep, u, style, shapes, tier):
    fs = [f for f in P.functions.values() if f.get("u") == u and f.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: a converter without a body")
    fn = fs[0]
    name = fn["q"].split("::")[-2] + "::" + fn["q"].split("::")[-1]
    most = {}
    for sh in shapes:
        i, _, d = sh.partition(".")
        most[len(i)] = max(most.get(len(i), 0), len(d))
    for sh, a in sorted(shapes.items(), key=lambda e: (-len(e[0].partition(".")[0]), len(e[0]))):
        i, _, d = sh.partition(".")
        if rep.violations:
            break
        if sh.endswith(".") or len(d) not in (0, 1, most[len(i)]) or tier == "quick" and d and len(i) > 2:
            continue
        C = Conv(P, rep, "a number of %d digits and %d decimals" % (len(i), len(d)))
        I = Interp(P, C)

        def prep(I, st, c):
            vals = [C.mk(number(I, st, i, 0)), C.mk(number(I, st, d, 1))] + list(a[2:])
            for k, v in enumerate(vals):
                if c.alocs[k] is not None:
                    st.store[c.alocs[k]] = v
            c.args = tuple(vals)
        for s, v in eng.run_fn(I, C, fn, prep):
            rep.count("conversion paths")
            for e in s.ts[1]:
                rep.violation("convert:" + name, I.where(where_of(fn)), "%s: %s" % (C.label, e), trace_list(s))
    rep.inst("converters followed", name)


def started(P, rep, kinds, follow):
    """Number entry begins empty."""
    for f in P.functions.values():
        if not f.get("repo") or f.get("body") is None or f["key"] in follow:
            continue
        for x in walk([f["body"], f.get("inits") or []]):
            fn = x.get("fn")
            if not isinstance(fn, dict):
                continue
            for k in kinds:
                made = base_name(fn["q"]) in ("make_unique", "make_shared") and k in fn["rt"]
                ctor = fn.get("cls") == k and x.get("k") in ("CXXConstructExpr", "CXXTemporaryObjectExpr")
                if not made and not ctor:
                    continue
                rep.count("number entries started")
                args = [y for y in x.get("args") or [] if y.get("k") != "CXXDefaultArgExpr"]
                if args and k not in (args[0].get("t") or "") and literal_of(args[0]) != "":
                    rep.violation("start", "src/" + x["l"], "number entry starts with something already typed", [])


def literal_of(n):
    while isinstance(n, dict):
        if "s" in n:
            return n["s"]
        c = n.get("c") or n.get("args") or []
        if len([x for x in c if isinstance(x, dict) and x.get("k") != "CXXDefaultArgExpr"]) != 1:
            return None
        n = next(x for x in c if isinstance(x, dict) and x.get("k") != "CXXDefaultArgExpr")
    return None


def run(P, rep, tier):
    rep.rule("starting from nothing, whatever keys are typed, a number holds digits only and, where decimals are possible, at most one point that follows a digit; a key adds itself, removes the last character, or changes nothing; its length is bounded")
    rep.rule("every key in number entry is absorbed and either changes it or signals an error")
    rep.rule("what is converted is exactly the digits before and after the point; what is looked up is the number typed")
    rep.rule("for every length the entry allows, and any digits, the converters read every table inside its bounds and take no part of a text beyond its end")
    seen = {}
    enum = next((e for q, e in P.enums.items() if q.endswith("ChineseNumberStyle")), None)
    if enum is None:
        raise AnalysisError("anchor vanished: the kinds of numbers")
    vals = {x["n"]: x["v"] for x in enum["consts"]} if isinstance(enum, dict) and "consts" in enum else dict(enum)
    C = Entry(P)
    for n in STYLES:
        if rep.violations:
            return {}
        entry(P, rep, ST + "ChineseNumber", int(vals[n]), C, seen)
    entry(P, rep, ST + "EnclosingNumber", None, C, seen)
    started(P, rep, [ST + "ChineseNumber", ST + "EnclosingNumber"], C.entered)
    if rep.violations:
        return {}
    for (u, style), shapes in sorted(seen.items(), key=str):
        convert(P, rep, u, style, shapes, tier)
    rep.need("key paths in number entry", 50)
    rep.need("conversion paths", 100)
    rep.need("table reads judged", 100)
    rep.need("number entries started", 4)
    return {}
