"""P05: choosing a keyboard layout takes full effect."""
import acts, eng, kh, shape
from kh import KH, NS, RDBUF, ST
from common import TRUSTED
from interp import *
from terms import *
from program import AnalysisError
TECHNIQUE = "value-flow analysis from the option to the reading buffer for every option value, with the buffer's previous mode left unknown"
ASSUMPTIONS = TRUSTED
LAY = "Formosa::Mandarin::BopomofoKeyboardLayout"
# option label -> layout accessor, name used for layout-specific punctuation
LAYOUTS = {"standard": ("StandardLayout", "Standard"), "eten": ("ETenLayout", "ETen"), "hsu": ("HsuLayout", "Hsu"),
           "et26": ("ETen26Layout", "ETen26"), "hanyupinyin": ("HanyuPinyinLayout", "HanyuPinyin"), "ibm": ("IBMLayout", "IBM")}


def lay(n):
    return mk("layout", n)


class BufClient(shape.Shape):
    """The reading buffer: which layout or pinyin conversion does each operation consult?"""

    def __init__(self, P):
        shape.Shape.__init__(self, P, lambda f: f["q"].startswith((RDBUF, KH)) or "(anon" in f["q"] or (f.get("repo") and not f.get("cls") and LAY in " ".join(f["pt"])))

    def init_ts(self):
        return ()

    def model(self, I, st, c):
        q = c.q or ""
        n = base_name(q)
        if q.startswith(LAY + "::"):
            if n.endswith("Layout") and not c.args and c.fn.get("static"):
                return [(st, lay(n))]
            this = I.resolve(st, c.this) if c.this is not None else None
            st.ts = st.ts + (("layout", n, this),)
            return [(st, mk("r", q, *c.args))]
        if n in ("FromHanyuPinyin", "HanyuPinyinString"):
            st.ts = st.ts + (("pinyin", n),)
            return [(st, mk("r", q, *c.args))]
        if q.startswith("Formosa::Mandarin::BopomofoSyllable"):
            return [(st, mk("m", q, *( [c.this] if c.this is not None else []), *c.args))] if not c.fn.get("ctor") else None
        return None


def pinyin_field(P):
    return kh.field_of(P, RDBUF, lambda t: t == "std::string" or t.startswith("std::basic_string"))


def run(P, rep, tier):
    rep.rule("activation hands key handling the layout named by the option, for every value of the option")
    rep.rule("after the buffer is given a layout, whatever it was before, typing uses pinyin exactly if that layout is Hanyu Pinyin, and otherwise exactly that layout's tables")
    rep.rule("the name used for layout-specific punctuation is that of the layout in the buffer")
    steps = 0
    ev = acts.enum_values(P, NS + "BopomofoKeyboardLayout")
    names = acts.labels(P, "BopomofoKeyboardLayout")
    if sorted(ev.values()) != list(range(len(names))) or set(names) != set(LAYOUTS):
        raise AnalysisError("the layout option's values changed: %s" % names)
    for v, label in enumerate(names):
        fn, I, res = acts.activation(P, {"bopomofoKeyboardLayout": v})
        steps += I.steps
        for s, _ in res:
            last = [e for e in s.ts if e[0] == "kh" and e[1] == "setKeyboardLayout"]
            rep.count("activation paths")
            got = last[-1][2][0] if last else None
            ok = got is not None and got.op in ("m", "r") and base_name(got.a[0]) == LAYOUTS[label][0] and got.a[0].startswith(LAY)
            rep.inst("layout options", label)
            if not ok:
                rep.violation("option@" + label, fn["l"], "the layout option '%s' selects %s" % (label, show(got) if got is not None else "no layout"), trace_list(s, 8))
    accs = {l for l, _ in LAYOUTS.values()}
    # key handling hands the layout to its buffer
    f = [m for m in P.functions.values() if m.get("cls") == KH and m["n"] == "setKeyboardLayout" and m.get("body") is not None]
    if len(f) != 1:
        raise AnalysisError("anchor vanished: KeyHandler::setKeyboardLayout")
    frd = kh.field_of(P, KH, lambda t: t == RDBUF)
    L = mk("F", mk("S", mk("this")), frd)
    ops = {m["n"]: m for m in P.functions.values() if m.get("cls") == RDBUF and m.get("body") is not None and m["n"] in (
        "isValidKey", "combineKey", "backspace", "composedString", "keyboardLayout")}
    if len(ops) != 5:
        raise AnalysisError("anchor vanished: reading buffer operations")
    fseq = pinyin_field(P)
    for acc in sorted(accs):
        C = BufClient(P)
        I = Interp(P, C)

        def prep(I, st, c):
            c.args = (lay(acc),)
            for a in accs:
                st.facts[mk("==", lay(a), NULL)] = False
                for b in accs:
                    if a < b:
                        st.facts[I.mkeq(lay(a), lay(b))] = False
        for s0, _ in eng.run_fn(I, C, f[0], prep):
            for n, op in sorted(ops.items()):
                s = s0.copy()
                s.ts = ()
                s.trace = s0.trace if hasattr(s0, "trace") else None
                c = Call()
                c.fn, c.q, c.node = op, op["q"], {"k": "probe", "_i": -17, "l": op["l"]}
                c.this, c.objloc = mk("p", L), L
                c.args = tuple(mk("param", op["q"], p["n"]) for p in op["params"])
                c.alocs = tuple(None for _ in c.args)
                c.atypes, c.ctor, c.op, c.rt = op["pt"], None, None, op["rt"]
                rep.count("buffer operations")
                rep.inst("layouts set", acc)
                for s1, v in I.inline(s, op, c, c.node):
                    check_op(P, rep, I, s1, v, op, n, acc, fseq, L)
        # the constructor of the buffer too
        steps += I.steps
        for ct in [m for m in P.functions.values() if m.get("cls") == RDBUF and m.get("ctor") and len(m["params"]) == 1 and LAY in m["pt"][0] and m.get("body") is not None]:
            C = BufClient(P)
            I = Interp(P, C)
            b = mk("S", mk("buf"))

            def prep3(I, st, c):
                prep(I, st, c)
                st.facts[mk("==", mk("buf"), NULL)] = False
            for s0, _ in eng.run_fn(I, C, ct, prep3, this=mk("buf")):
                for n, op in sorted(ops.items()):
                    c = Call()
                    c.fn, c.q, c.node = op, op["q"], {"k": "probe", "_i": -17, "l": op["l"]}
                    c.this, c.objloc = mk("buf"), b
                    c.args = tuple(mk("param", op["q"], p["n"]) for p in op["params"])
                    c.alocs = tuple(None for _ in c.args)
                    c.atypes, c.ctor, c.op, c.rt = op["pt"], None, None, op["rt"]
                    s = s0.copy()
                    s.ts = ()
                    rep.inst("buffers constructed", acc)
                    for s1, v in I.inline(s, op, c, c.node):
                        check_op(P, rep, I, s1, v, op, n, acc, fseq, b)
            steps += I.steps
    steps += names_in_keys(P, rep, accs, frd, L)
    rep.need("layout options", 6)
    rep.need("layouts set", 6)
    rep.need("buffer operations", 30)
    rep.need("layout names looked up", 2)
    return {"abstract_steps": steps}


def check_op(P, rep, I, s1, v, op, n, acc, fseq, L):
    pin = [e for e in s1.ts if e[0] == "pinyin"]
    lays = [e for e in s1.ts if e[0] == "layout"]
    v = I.resolve(s1, v)
    where = op["l"]

    def bad(t):
        rep.violation("mode@%s/%s" % (n, acc), where, "after choosing %s, %s %s" % (acc, n, t), trace_list(s1, 10))
    if n == "keyboardLayout":
        if v is not lay(acc):
            bad("reports " + show(v))
        return
    wrong = [e for e in lays if e[2] is not lay(acc)]
    if wrong:
        bad("uses another layout's tables: " + show(wrong[0][2]))
    if acc == "HanyuPinyinLayout":
        if lays:
            bad("types by key tables instead of pinyin letters")
        if n == "composedString" and not any(x.op == "fld" and x.a[1] == fseq for x in subterms(v)) and v is not I.resolve(s1, I.load(s1, mk("F", L, fseq))):
            bad("does not show the pinyin letters: " + show(v))
        if n in ("combineKey", "backspace"):
            if not pin and not (n == "combineKey" and I.decide(s1, I.truth(v)) is False):
                bad("does not convert pinyin")
    else:
        if pin:
            bad("types pinyin letters")
        if n == "composedString" and (any(x.op == "fld" and x.a[1] == fseq for x in subterms(v)) or v is I.resolve(s1, I.load(s1, mk("F", L, fseq)))):
            bad("shows pinyin letters")
        if n == "isValidKey" and not lays and I.decide(s1, I.truth(v)) is not False:
            bad("accepts keys without asking the layout")


class NameClient(kh.KHClient):
    seen = None

    def namer(self, fn):
        return fn.get("repo") and fn.get("cls") is None and not fn.get("ctor") and len(fn["pt"]) == 1 and LAY in fn["pt"][0] and (
            "char" in fn["rt"] or "string" in fn["rt"])

    def opaque(self, I, fn):
        return True if self.namer(fn) else kh.KHClient.opaque(self, I, fn)

    def on_call(self, I, st, c):
        if self.namer(c.fn):
            return [(st, mk("m", "layoutname", I.resolve(st, c.args[0])))]
        if base_name(c.q or "") == "hasUnigrams":
            a = shape.flat(eng.strip_copy(I.resolve(st, c.args[0])))
            if a and isinstance(a[0], bytes) and b"punctuation" in a[0]:
                self.seen.setdefault(a, I.where(c.node))
        return kh.KHClient.on_call(self, I, st, c)


def names_in_keys(P, rep, accs, frd, L):
    """Punctuation is looked up under the layout's own name."""
    steps = 0
    C0 = NameClient(P, rep, set())
    fns = [f for f in P.functions.values() if C0.namer(f) and f.get("body") is not None]
    seen = {}
    ents = [f for f in kh.entries(P) if any("Key" == base_name(t) for t in f["pt"])]
    lname = None
    for f in ents:
        C = NameClient(P, rep, set())
        C.seen = seen
        I = Interp(P, C)
        kh.run_entry(I, C, f)
        steps += I.steps
        g = I.new_state()
    cur = None
    for a, where in sorted(seen.items(), key=str):
        nm = [x for x in a if isinstance(x, T) and x.op == "m" and x.a[0] == "layoutname"]
        if not nm:
            if len([x for x in a if isinstance(x, bytes)]) and a[0].rstrip(b"_").endswith(tuple(n.encode() for _, n in LAYOUTS.values())):
                rep.violation("name@fixed", where, "punctuation is looked up under a fixed layout name %r" % a[0])
            continue
        rep.inst("layout names looked up", "%s %s" % (where, a[0].decode()))
        for t in nm:
            src = t.a[1]
            if not any(x.op == "fld" and x.a[1].startswith(RDBUF) or x.op == "m" and str(x.a[0]).endswith("keyboardLayout") for x in subterms(src)):
                rep.violation("name@source", where, "punctuation is looked up under the name of %s, not of the layout in use" % show(src))
        if a.index(nm[0]) != 1 or len(a) < 3 or not (isinstance(a[2], bytes) and a[2].startswith(b"_")) or not a[0].endswith(b"_"):
            rep.violation("name@form", where, "the layout-specific punctuation key is not prefix, layout name, separator, character: %s" % (a,))
    # each layout's name
    for f in fns:
        for label, (acc, want) in sorted(LAYOUTS.items()):
            C = BufClient(P)
            I = Interp(P, C)

            def prep(I, st, c):
                c.args = (lay(acc),)
                for a in accs:
                    st.facts[mk("==", lay(a), NULL)] = False
                    for b in accs:
                        if a < b:
                            st.facts[I.mkeq(lay(a), lay(b))] = False
            for s, v in eng.run_fn(I, C, f, prep):
                v = I.resolve(s, v)
                got = models_text(I, s, v)
                rep.inst("layout names", "%s %s" % (acc, got))
                if got != want:
                    rep.violation("name@" + acc, f["l"], "punctuation of %s is looked up under '%s' instead of '%s'" % (acc, got, want), trace_list(s, 8))
            steps += I.steps
    if not fns:
        raise AnalysisError("no function from a layout to its name found")
    return steps


def models_text(I, s, v):
    for _ in range(4):
        if v.op == "c":
            b = v.a[0]
            return b.decode() if isinstance(b, bytes) else b
        if v.op == "p":
            v = I.resolve(s, I.load(s, v.a[0]))
            continue
        break
    return show(v)
