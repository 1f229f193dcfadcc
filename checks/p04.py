"""P04: the keyboard layout tables, the symbols of a syllable and the order they are shown in."""
import eng
from terms import *
from interp import *
from models import base_name
from shape import *
from common import TRUSTED
TECHNIQUE = "abstract evaluation of the construction of every layout table and of the symbol table (constants propagated through the maps), compared with the published layouts; the syllable's bit-field operations evaluated over symbolic fields, every presence pattern followed"
ASSUMPTIONS = TRUSTED + ["a static local is initialised once, by its initialiser"]
NOTE = "Static: tables come from abstract evaluation of the source's constructors; nothing is compiled or run."

M = "Formosa::Mandarin::"
SYL = M + "BopomofoSyllable"
LAYOUT = M + "BopomofoKeyboardLayout"
MAP = M + "BopomofoCharacterMap"
THIS = mk("this")

CONS = "ㄅㄆㄇㄈㄉㄊㄋㄌㄍㄎㄏㄐㄑㄒㄓㄔㄕㄖㄗㄘㄙ"
MED = "ㄧㄨㄩ"
VOWEL = "ㄚㄛㄜㄝㄞㄟㄠㄡㄢㄣㄤㄥㄦ"
TONE = "ˊˇˋ˙"
KINDS = (("ConsonantMask", CONS), ("MiddleVowelMask", MED), ("VowelMask", VOWEL), ("ToneMarkerMask", TONE))

# the published layouts: for each key its symbols
ALL = CONS + MED + VOWEL + TONE
TABLES = {
    "Standard": dict(zip("1qaz2wsxedcrfv5tgbyhn" "ujm" "8ik,9ol.0p;/-" "6347", ALL)),
    "IBM": dict(zip("1234567890-qwertyuiop" "asd" "fghjkl;zxcvbn" "m,./", ALL)),
    "ETen": dict(zip("bpmfdtnlvkhg7c,./j;'s" "exu" "aorwiqzy890-=" "2341", ALL)),
    "Hsu": {"b": "ㄅ", "p": "ㄆ", "m": "ㄇㄢ", "f": "ㄈˇ", "d": "ㄉˊ", "t": "ㄊ", "n": "ㄋㄣ", "l": "ㄌㄥㄦ", "g": "ㄍㄜ", "k": "ㄎㄤ",
            "h": "ㄏㄛ", "j": "ㄐㄓˋ", "v": "ㄑㄔ", "c": "ㄒㄕ", "r": "ㄖ", "z": "ㄗ", "a": "ㄘㄟ", "s": "ㄙ˙", "e": "ㄧㄝ", "x": "ㄨ",
            "u": "ㄩ", "y": "ㄚ", "i": "ㄞ", "w": "ㄠ", "o": "ㄡ"},
    "ETen26": {"b": "ㄅ", "p": "ㄆㄡ", "m": "ㄇㄢ", "f": "ㄈˊ", "d": "ㄉ˙", "t": "ㄊㄤ", "n": "ㄋㄣ", "l": "ㄌㄥ", "v": "ㄍㄑ", "k": "ㄎˋ",
               "h": "ㄏㄦ", "g": "ㄓㄐ", "c": "ㄕㄒ", "y": "ㄔ", "j": "ㄖˇ", "q": "ㄗㄟ", "w": "ㄘㄝ", "s": "ㄙ", "e": "ㄧ", "x": "ㄨ",
               "u": "ㄩ", "a": "ㄚ", "o": "ㄛ", "r": "ㄜ", "i": "ㄞ", "z": "ㄠ"},
}


def any_order(syms):
    """Pairs the composition rules treat alike in either order (ㄝ with another, ㄐㄑㄒ with another consonant)."""
    return len(syms) == 2 and (("ㄝ" in syms) or any(x in "ㄐㄑㄒ" for x in syms))


class Eval(Shape):
    exact_sets = True

    def __init__(self, P):
        Shape.__init__(self, P, lambda f: f["repo"])


class Bits(Shape):
    """The four symbols of a syllable are disjoint bit fields; a masked syllable is its fields under the mask."""

    def __init__(self, P, masks):
        Shape.__init__(self, P, lambda f: f["repo"] and f["q"] != MAP + "::SharedInstance")
        self.masks = masks
        self.fieldof = {}

    def atom(self, who, k):
        a = mk("param", who, k)
        self.fieldof[a] = k
        return a

    def syllable(self, who):
        return mk("bv", tuple((k, self.atom(who, k)) for k, _ in KINDS))

    def fits(self, I, s, v, typ):
        return typ in ("unsigned short", "unsigned int") and v.op != "ucast" and self.fields(I, s, v) is not None

    def fields(self, I, s, t):
        t = I.resolve(s, t)
        while t.op == "ucast" and t.a[1] in ("unsigned short", "int"):      # the fields fit in either type
            t = I.resolve(s, t.a[0])
        if isinstance(t.a[0], int) and t.op == "c":
            if t.a[0] == 0:
                return ()
            for k, _ in KINDS:
                if t.a[0] & ~self.masks[k] == 0:
                    return ((k, t),)
            return None
        if t.op == "bv":
            return tuple((k, x) for k, x in ((k, I.resolve(s, x)) for k, x in t.a[0]) if x is not ZERO)
        if t in self.fieldof:
            return ((self.fieldof[t], t),)
        return None

    def pack(self, fs):
        if not fs:
            return ZERO
        if len(fs) == 1:
            return fs[0][1]
        return mk("bv", tuple(sorted(fs, key=lambda e: self.masks[e[0]])))

    def bitwise(self, I, s, op, a, b):
        for x, y in ((a, b), (b, a)):
            if op == "&" and y.op == "c" and isinstance(y.a[0], int):
                fs = self.fields(I, s, x)
                if fs is None:
                    return None
                keep = []
                for k, v in fs:
                    m = self.masks[k] & y.a[0]
                    if m == self.masks[k]:
                        keep.append((k, v))
                    elif m:
                        return None
                return self.pack(tuple(keep))
        if op == "|":
            fa, fb = self.fields(I, s, a), self.fields(I, s, b)
            if fa is None or fb is None:
                return None
            d = dict(fa)
            for k, v in fb:
                if k in d and d[k] is not v:
                    return None
                d[k] = v
            return self.pack(tuple(d.items()))
        return None


def const_of(P, name):
    q = SYL + "::" + name
    f = P.globals.get("G:" + q)
    if f is None or not f.get("init"):
        raise AnalysisError("%s is gone" % q)
    for x in _walk(f["init"]):
        if "v" in x:
            return int(x["v"])
    raise AnalysisError("%s is not a constant" % q)


def _walk(n):
    import program
    return program.walk(n)


def chars(P, rep):
    f = eng.method(P, MAP, "SharedInstance")
    C = Eval(P)
    I = Interp(P, C)
    rs = eng.run_fn(I, C, f)
    if len(rs) != 1:
        raise AnalysisError("the symbol table is not evaluated to one result")
    s, v = rs[0]
    o = v.a[0] if v.op == "lref" else None
    if o is None:
        raise AnalysisError("the symbol table is not evaluated: %s" % show(v, 0, 4))
    out = []
    for fld in ("characterToComponent", "componentToCharacter"):
        m = I.resolve(s, I.load(s, mk("F", o, MAP + "::" + fld)))
        if m.op != "map" or not all(k.op == "c" and x.op == "c" for k, x in m.a[0]):
            raise AnalysisError("%s is not evaluated: %s" % (fld, show(m, 0, 3)))
        out.append({k.a[0]: x.a[0] for k, x in m.a[0]})
    return "src/" + f["l"], out[0], out[1]


def layout(P, name):
    f = eng.method(P, LAYOUT, name + "Layout")
    C = Eval(P)
    I = Interp(P, C)
    rs = eng.run_fn(I, C, f)
    if len(rs) != 1:
        raise AnalysisError("%s: the layout is not evaluated to one result" % name)
    s, v = rs[0]
    v = I.resolve(s, v)
    if v.op != "p":
        raise AnalysisError("%s: the layout is not evaluated: %s" % (name, show(v, 0, 4)))
    out = []
    for fld in ("keyToComponent_", "componentToKey_"):
        m = I.resolve(s, I.load(s, mk("F", v.a[0], LAYOUT + "::" + fld)))
        if m.op != "map":
            raise AnalysisError("%s: %s is not evaluated: %s" % (name, fld, show(m, 0, 3)))
        d = {}
        for k, x in m.a[0]:
            x = I.resolve(s, x)
            d[k.a[0]] = [I.resolve(s, y).a[0] for y in x.a[0]] if x.op == "vec" else x.a[0]
        out.append(d)
    return "src/" + f["l"], out[0], out[1]


def algebra(P, rep, masks):
    """+, += and composedString over symbolic symbols."""
    C = Bits(P, masks)
    for name in ("operator+", "operator+="):
        f = eng.method(P, SYL, name)
        I = Interp(P, C)
        a, b = C.syllable("held"), C.syllable("typed")
        other = mk("S", mk("param", "ghost", "typed"))

        def prep(I, st, c):
            I.storev(st, mk("F", mk("S", THIS), SYL + "::syllable_"), a)
            I.storev(st, mk("F", other, SYL + "::syllable_"), b)
            if c.alocs[0] is not None:
                st.store[c.alocs[0]] = mk("ref", other)
            c.alocs = (other,) + tuple(c.alocs[1:])
        for s, v in eng.run_fn(I, C, f, prep, over=None, this=THIS):
            rep.count("ways through the syllable operations")
            if name == "operator+=":
                r = I.load(s, mk("F", mk("S", THIS), SYL + "::syllable_"))
            else:
                r = I.fld(s, v, SYL + "::syllable_") if v.op != "s" else dict(v.a[1]).get(SYL + "::syllable_", v)
            fs = C.fields(I, s, r)
            if fs is None:
                raise AnalysisError("%s: %s is not evaluated: %s" % (f["l"], name, show(I.resolve(s, r), 0, 5)))
            fs = dict(fs)
            for k, _ in KINDS:
                t, h = C.atom("typed", k), C.atom("held", k)
                has = I.decide(s, I.mkeq(t, ZERO))
                got = fs.get(k, ZERO)
                ok = got is I.resolve(s, t) if has is False else got is I.resolve(s, h) if has is True else False
                if has is None and got is I.resolve(s, t) is I.resolve(s, h):
                    ok = True
                if not ok:
                    rep.violation("algebra:%s" % name, I.where({"l": f["l"]}), "adding a symbol to a syllable does not leave %s the added symbol, or the held one if none was added: %s" % (k.replace("Mask", ""), show(got, 0, 4)), trace_list(s))
    # the text
    f = eng.method(P, SYL, "composedString")
    I = Interp(P, C)
    a = C.syllable("held")

    def prep(I, st, c):
        I.storev(st, mk("F", mk("S", THIS), SYL + "::syllable_"), a)
    for s, v in eng.run_fn(I, C, f, prep, this=THIS):
        ps = flat(I.resolve(s, v))
        want, known = [], True
        for k, _ in KINDS:
            x = C.atom("held", k)
            z = I.decide(s, I.mkeq(x, ZERO))
            known = known and z is not None
            if z is False:
                want.append(x)
        got = []
        missing = False
        for p in ps:
            if isinstance(p, T) and p.op == "m" and p.a[0] == "map::get":
                fs = C.fields(I, s, p.a[2])
                got.append(fs[0][1] if fs and len(fs) == 1 else p)
                src = show(p.a[1], 0, 8)
                if not src.endswith("componentToCharacter"):
                    missing = True
            else:
                missing = True
        if any(not b and t.op == "m" and t.a[0] == "map::contains" for t, b in s.facts.items()):
            continue                    # every symbol of a syllable is in the table (checked above)
        rep.count("ways through the syllable's text")
        if missing or not known or got != want:
            rep.violation("text", I.where({"l": f["l"]}), "a syllable is not shown as its consonant, medial, vowel and tone in that order: %s" % " ".join(show(p, 0, 4) if isinstance(p, T) else repr(p) for p in ps), trace_list(s))


def run(P, rep, tier):
    rep.rule("each layout's key table is the published one and its component table is the inverse, so every symbol and tone is typed by exactly one key")
    rep.rule("the symbol table is one-to-one between the 41 symbols and components; the four kinds are disjoint bit fields")
    rep.rule("adding symbols to a syllable replaces each kind that is added and keeps the others; its text is consonant, medial, vowel, tone")
    masks = {k: const_of(P, k) for k, _ in KINDS}
    w, c2k, k2c = chars(P, rep)
    code = {}
    for kind, syms in KINDS:
        for o, _ in KINDS:
            if o != kind and masks[o] & masks[kind]:
                rep.violation("masks", "src/Engine/Mandarin/Mandarin.h", "%s and %s overlap" % (kind, o), [])
        for x in syms:
            rep.inst("symbols", x)
            c = c2k.get(x.encode())
            if c is None:
                rep.violation("symbol:" + x, w, "%s is not in the symbol table" % x, [])
                continue
            if c == 0 or c & ~masks[kind]:
                rep.violation("symbol:" + x, w, "%s stands for component 0x%04x, which is no %s" % (x, c, kind), [])
            if k2c.get(c) != x.encode():
                rep.violation("symbol:" + x, w, "component 0x%04x of %s is shown as %s" % (c, x, (k2c.get(c) or b"nothing").decode("utf-8", "replace")), [])
            if c in code.values():
                rep.violation("symbol:" + x, w, "%s shares its component with another symbol" % x, [])
            code[x] = c
    for x in c2k:
        if x.decode("utf-8", "replace") not in ALL:
            rep.violation("symbol:extra", w, "%s is no Bopomofo symbol" % x.decode("utf-8", "replace"), [])
    name = {c: x for x, c in code.items()}
    for n, want in TABLES.items():
        w, k2s, s2k = layout(P, n)
        keys = {chr(k): "".join(name.get(c, "?") for c in v) for k, v in k2s.items()}
        for k in sorted(set(keys) | set(want)):
            rep.inst("keys compared", n + " " + k)
            g, x = keys.get(k, ""), want.get(k, "")
            if g != x and not (any_order(x) and sorted(g) == sorted(x)):
                rep.violation("%s:%s" % (n, k), w, "key %s of the %s layout types %s, not %s" % (k, n, g or "nothing", x or "nothing"), [])
        for k, syms in want.items():
            for x in syms:
                if x in code and s2k.get(code[x]) != ord(k):
                    g = s2k.get(code[x])
                    rep.violation("%s:%s" % (n, x), w, "%s is looked up at key %s of the %s layout, not %s" % (x, chr(g) if g else "none", n, k), [])
        rep.count("layouts")
    algebra(P, rep, masks)
    rep.need("layouts", 5)
    rep.need("keys compared", 41 * 3 + 25 + 26)
    rep.need("ways through the syllable operations", 2)
    rep.need("ways through the syllable's text", 1)
    return {}
