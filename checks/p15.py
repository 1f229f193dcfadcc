"""P15: every date/time macro offered is known under its own name and computes what the name states."""
import os, re
import common, eng, models
from terms import *
from interp import *
from models import base_name
from shape import *
from program import REPO
from common import TRUSTED
TECHNIQUE = "abstract evaluation of the macro table's construction and of each entry, with ICU modelled as an algebra of locales, calendars, offsets and formats; the resulting term is compared with the one the name states"
ASSUMPTIONS = TRUSTED + ["ICU formats a time by the pattern or styles it is given, in the locale it is given, and has the data of zh_Hant_TW and ja_JP"]
NOTE = "Static: construction and each macro's replacement are evaluated abstractly from the source; the time is symbolic. Sexagenary names are folded for every year of a full cycle of 60 years."

CTL = "McBopomofo::InputMacroController"
THIS = mk("this")
TABLE = mk("F", mk("S", THIS), CTL + "::macros_")
YEAR, DATE = 1, 5                       # UCAL_YEAR, UCAL_DATE
FULL, LONG, MEDIUM, SHORT, NONE = 0, 1, 2, 3, -1
LONG_GENERIC, SHORT_GENERIC = 4, 3


def icu(*a):
    return mk("icu", *a)


class Icu(Shape):
    exact_sets = True

    def __init__(self, P, year=None):
        Shape.__init__(self, P, lambda f: f["repo"])
        self.year = year

    def at(self, I, st, t):
        t = I.resolve(st, t)
        return t.a[0] if t.op == "p" else mk("S", t)

    def val(self, I, st, t):
        """The ICU value an argument stands for."""
        t = I.resolve(st, t)
        if t.op == "p":
            t = I.resolve(st, I.load(st, t.a[0]))
        while t.op == "ctor" and len(t.a) >= 2 and isinstance(t.a[1], T):
            t = I.resolve(st, t.a[1])
            if t.op == "p":
                t = I.resolve(st, I.load(st, t.a[0]))
        return t

    def out(self, I, st, c, i, v):
        l = c.alocs[i]
        if l is None:
            t = I.resolve(st, c.args[i])
            if t.op != "p":
                raise AnalysisError("%s: an output that cannot be followed" % I.where(c.node))
            l = t.a[0]
        st.store[l] = v

    def fresh(self, I, st, c, v):
        l = mk("O", I.ctx, mk("site", "icu", I.site(c.node)))
        st.store[l] = v
        return [(st, mk("p", l))]

    def model(self, I, st, c):
        q = c.q.split("(")[0]
        if not re.match(r"icu(_\d+)?::", q):
            return None
        cls, n = q.split("::")[-2:]
        a = c.args
        if c.ctor or cls == n:
            if cls == "UnicodeString":
                v = self.val(I, st, a[0]) if a else const(b"")
            elif cls == "SimpleDateFormat":
                v = icu("pattern", self.val(I, st, a[0]), self.val(I, st, a[1]))
            elif cls == "GregorianCalendar":
                v = icu("calendar", icu("gregorian"), const(0), ())
            elif cls == "Locale" and a:
                v = self.val(I, st, a[0])
                v = v if v.op == "icu" else icu("locale", v)
            elif cls in ("Formattable", "FieldPosition", "Locale", "UnicodeString"):
                v = self.val(I, st, a[0]) if a else icu("none")
            else:
                raise AnalysisError("%s: %s is not modelled" % (I.where(c.node), q))
            if c.this is not None:
                st.store[self.at(I, st, c.this)] = v
                return [(st, v)]
            return [(st, v)]
        if n.startswith("~"):
            return [(st, VOID)]
        if cls == "Locale" and n.startswith("create"):
            return [(st, icu("locale", self.val(I, st, a[0])))]
        if cls == "TimeZone" and n in ("createDefault", "createTimeZone"):
            return self.fresh(I, st, c, icu("zone"))
        if n == "getNow":
            return [(st, icu("now"))]
        if cls == "Calendar" and n == "createInstance":
            loc = [self.val(I, st, x) for x, t in zip(a, c.atypes) if "Locale" in t]
            return self.fresh(I, st, c, icu("calendar", loc[0] if loc else icu("default"), const(0), ()))
        if cls in ("Calendar", "GregorianCalendar"):
            l = self.at(I, st, c.this)
            v = I.load(st, l)
            if v.op != "icu" or v.a[0] != "calendar":
                raise AnalysisError("%s: a calendar that cannot be followed: %s" % (I.where(c.node), show(v, 0, 4)))
            if n == "setTime":
                st.store[l] = icu("calendar", v.a[1], self.val(I, st, a[0]), ())
                return [(st, VOID)]
            if n == "add":
                f, k = I.resolve(st, a[0]), I.resolve(st, a[1])
                if not (isc(f) and isc(k)):
                    raise AnalysisError("%s: an offset that is not constant" % I.where(c.node))
                offs = dict(v.a[3])
                offs[cval(f)] = offs.get(cval(f), 0) + cval(k)
                st.store[l] = icu("calendar", v.a[1], v.a[2], tuple(sorted((x, y) for x, y in offs.items() if y)))
                return [(st, VOID)]
            if n == "getTime":
                return [(st, icu("time", v.a[2], v.a[3]))]
            if n == "get":
                f = I.resolve(st, a[0])
                self.note(st, ("get", v, f))
                return [(st, const(self.year) if self.year is not None else icu("field", f, v))]
        if cls == "DateFormat" and n in ("createDateTimeInstance", "createDateInstance", "createTimeInstance"):
            k = [I.resolve(st, x) for x in a]
            loc = [self.val(I, st, x) for x, t in zip(a, c.atypes) if "Locale" in t]
            st_ = [x for x, t in zip(k, c.atypes) if "EStyle" in t]
            ds, ts = (st_ + [const(NONE)] * 2)[:2] if n != "createTimeInstance" else (const(NONE), st_[0])
            return self.fresh(I, st, c, icu("style", ds, ts, loc[0] if loc else icu("default")))
        if n == "format" and c.this is not None:
            v = I.load(st, self.at(I, st, c.this))
            if v.op != "icu" or v.a[0] not in ("style", "pattern"):
                raise AnalysisError("%s: a format that cannot be followed: %s" % (I.where(c.node), show(v, 0, 4)))
            what = self.val(I, st, a[0])
            if what.op == "icu" and what.a[0] == "calendar":
                what = icu("time in", what.a[1], what.a[2], what.a[3])
            outs = [i for i, t in enumerate(c.atypes) if "UnicodeString" in t]
            self.out(I, st, c, outs[0], icu("text", v, what))
            return [(st, mk("lref", c.alocs[outs[0]]))] if c.alocs[outs[0]] is not None else [(st, VOID)]
        if cls == "TimeZone" and n == "getDisplayName":
            k = [self.val(I, st, x) for x in a]
            outs = [i for i, t in enumerate(c.atypes) if "UnicodeString" in t]
            t = icu("zone name", *[x for i, x in enumerate(k) if i != outs[0]])
            self.out(I, st, c, outs[0], t)
            return [(st, VOID)]
        if cls == "UnicodeString" and n == "toUTF8String":
            v = I.load(st, self.at(I, st, c.this))
            l = c.alocs[0]
            st.store[l] = models.cat(I.load(st, l), v)
            return [(st, mk("lref", l))]
        raise AnalysisError("%s: %s is not modelled" % (I.where(c.node), q))

    def note(self, st, e):
        st.ts = (st.ts or ()) + (e,)

    def init_ts(self):
        return ()


# ---------------------------------------------------------------- what the names state
WHEN = {"TODAY": 0, "YESTERDAY": -1, "TOMORROW": 1, "THIS": 0, "LAST": -1, "NEXT": 1}
STYLE = {"SHORT": SHORT, "MEDIUM": MEDIUM}
CAL = {None: "", "ROC": "roc", "CHINESE": "chinese", "JAPANESE": "japanese"}


def names():
    out = []
    for d in ("TODAY", "YESTERDAY", "TOMORROW"):
        out += ["DATE_%s_SHORT" % d, "DATE_%s_MEDIUM" % d] + ["DATE_%s_MEDIUM_%s" % (d, c) for c in ("ROC", "CHINESE", "JAPANESE")]
        out += ["DATE_%s_WEEKDAY_SHORT" % d, "DATE_%s_WEEKDAY" % d, "DATE_%s2_WEEKDAY" % d, "DATE_%s_WEEKDAY_JAPANESE" % d]
    for y in ("THIS", "LAST", "NEXT"):
        out += ["%s_YEAR_%s" % (y, k) for k in ("PLAIN", "PLAIN_WITH_ERA", "ROC", "JAPANESE", "GANZHI", "CHINESE_ZODIAC")]
    return ["MACRO@" + n for n in out + ["TIME_NOW_SHORT", "TIME_NOW_MEDIUM", "TIMEZONE_STANDARD", "TIMEZONE_GENERIC_SHORT"]]


def locale(cal):
    s = "ja_JP" if cal == "japanese" else "zh_Hant_TW"
    return icu("locale", const((s + ("@calendar=" + cal if cal else "")).encode()))


def offs(field, n):
    return ((field, n),) if n else ()


def same_time(t, loc, o):
    """Now with the offsets, taken as a plain time or as fields of the calendar of that locale."""
    if t.op != "icu":
        return False
    if t.a[0] == "time":
        return t.a[1] is icu("now") and t.a[2] == o
    if t.a[0] == "time in":
        return t.a[1] is loc and t.a[2] is icu("now") and t.a[3] == o
    return t is icu("now") and not o


def text(v, fmt, loc, o, tail=b""):
    ps = flat(v)
    if tail:
        if len(ps) != 2 or ps[1] != tail:
            return False
        ps = ps[:1]
    if len(ps) != 1:
        return False
    t = ps[0]
    return isinstance(t, T) and t.op == "icu" and t.a[0] == "text" and t.a[1] is fmt and same_time(t.a[2], loc, o)


def states(name, v):
    """Whether the text computed is what the name states; None if the name is judged elsewhere."""
    m = re.match(r"MACRO@DATE_(TODAY|YESTERDAY|TOMORROW)_(SHORT|MEDIUM)(?:_(ROC|CHINESE|JAPANESE))?$", name)
    if m:
        loc = locale(CAL[m.group(3)])
        return text(v, icu("style", const(STYLE[m.group(2)]), const(NONE), loc), loc, offs(DATE, WHEN[m.group(1)]))
    m = re.match(r"MACRO@DATE_(TODAY|YESTERDAY|TOMORROW)(2?)_WEEKDAY(?:_(SHORT|JAPANESE))?$", name)
    if m:
        loc = locale("japanese" if m.group(3) == "JAPANESE" else "")
        fmt = icu("pattern", const(b"E" if m.group(3) == "SHORT" else b"EEEE"), loc)
        o = offs(DATE, WHEN[m.group(1)])
        if m.group(2):
            src, dst = "星期".encode(), "禮拜".encode()
            if v.op == "m" and v.a[0] == "replace":
                return text(v.a[1], fmt, loc, o) and v.a[2].op == "m" and "find" in v.a[2].a[0] and v.a[2].a[1] is v.a[1] and v.a[2].a[2] is const(src) and v.a[3] is const(len(src)) and v.a[4] is const(dst)
            return "other"
        return text(v, fmt, loc, o)
    m = re.match(r"MACRO@(THIS|LAST|NEXT)_YEAR_(PLAIN|PLAIN_WITH_ERA|ROC|JAPANESE)$", name)
    if m:
        loc = locale(CAL.get(m.group(2), ""))
        return text(v, icu("pattern", const(b"y" if m.group(2) == "PLAIN" else b"Gy"), loc), loc, offs(YEAR, WHEN[m.group(1)]), "年".encode())
    m = re.match(r"MACRO@TIME_NOW_(SHORT|MEDIUM)$", name)
    if m:
        return text(v, icu("style", const(NONE), const(STYLE[m.group(1)]), locale("")), locale(""), ())
    m = re.match(r"MACRO@TIMEZONE_(STANDARD|GENERIC_SHORT)$", name)
    if m:
        return v is icu("zone name", const(0), const(LONG_GENERIC if m.group(1) == "STANDARD" else SHORT_GENERIC), locale(""))
    return None


STEMS, BRANCHES = "甲乙丙丁戊己庚辛壬癸", "子丑寅卯辰巳午未申酉戌亥"
ELEMENTS, ANIMALS = "木火土金水", "鼠牛虎兔龍蛇馬羊猴雞狗豬"


def cycle(name, year):
    m = re.match(r"MACRO@(THIS|LAST|NEXT)_YEAR_(GANZHI|CHINESE_ZODIAC)$", name)
    if not m:
        return None
    y = year + WHEN[m.group(1)] - 4
    s = STEMS[y % 10] + BRANCHES[y % 12] if m.group(2) == "GANZHI" else ELEMENTS[y % 10 // 2] + ANIMALS[y % 12]
    return (s + "年").encode()


def call(I, st, f, arg):
    c = eng.bind(I, f, THIS, st, None)
    if c.alocs[0] is not None:
        st.store[c.alocs[0]] = arg
    c.args = (arg,)
    return I.inline(st, f, c, c.node)


def table(P, C, I, rep):
    f = [x for x in P.functions.values() if x["q"] == CTL + "::InputMacroController" and x["ctor"] and not x["params"]]
    if len(f) != 1:
        raise AnalysisError("the macro table's constructor is gone")
    rs = eng.run_fn(I, C, f[0], this=THIS)
    if len(rs) != 1:
        raise AnalysisError("the macro table is not evaluated to one result")
    m = I.resolve(rs[0][0], I.load(rs[0][0], TABLE))
    if m.op != "map" or not all(strval(k) for k, _ in m.a[0]):
        raise AnalysisError("the macro table is not evaluated: %s" % show(m, 0, 3))
    return f[0], rs[0][0], m


def strval(t):
    return t.op == "c" and isinstance(t.a[0], bytes)


def run(P, rep, tier):
    rep.rule("the macro table holds each documented macro under its own name; an entry's text is the one its name states: day or year offset, calendar, locale, pattern or style")
    rep.rule("every macro in the date menu and in the shipped phrase data is in the table, the menu lists none twice, other texts come back unchanged")
    rep.rule("the dictionary and the menu expand macros with this table")
    C = Icu(P)
    I = Interp(P, C)
    f, st, m = table(P, C, I, rep)
    w = I.where({"l": f["l"]})
    have = [k.a[0].decode() for k, _ in m.a[0]]
    for n in names():
        if n not in have:
            rep.violation("table:%s" % n, w, "%s is not in the macro table" % n, [])
    handle = eng.method(P, CTL, "handle")
    hw = I.where({"l": handle["l"]})
    for n in have:
        rep.inst("macros evaluated", n)
        if cycle(n, 2000) is not None:
            continue
        s = st.copy()
        s.ts = ()
        for s2, v in call(I, s, handle, const(n.encode())):
            v = I.resolve(s2, v)
            ok = states(n, v)
            if ok == "other":
                ok = weekday2(I, s2, n, v)
            if ok is None:
                rep.count("undocumented macros")
            elif not ok:
                rep.violation("entry:%s" % n, hw, "%s does not compute what its name states but %s" % (n, show(v, 0, 9)), trace_list(s2))
    for year in range(1984, 2044) if tier == "quick" else list(range(1900, 2101)):
        C2 = Icu(P, year)
        I2 = Interp(P, C2)
        f2, st2, m2 = table(P, C2, I2, rep)
        for n in have:
            want = cycle(n, year)
            if want is None:
                continue
            s = st2.copy()
            s.ts = ()
            for s2, v in call(I2, s, handle, const(n.encode())):
                rep.count("years folded")
                v = I2.resolve(s2, v)
                if v is not const(want):
                    rep.violation("entry:%s" % n, hw, "%s in %d does not give %s but %s" % (n, year, want.decode(), show(v, 0, 6)), trace_list(s2))
                for e in s2.ts:
                    if e[0] == "get" and not (e[2] is const(YEAR) and e[1].a[1] is icu("gregorian") and e[1].a[2] is icu("now") and not e[1].a[3]):
                        rep.violation("entry:%s" % n, hw, "%s does not start from the current year" % n, trace_list(s2))
                if not any(e[0] == "get" for e in s2.ts):
                    rep.violation("entry:%s" % n, hw, "%s does not look at the current year" % n, trace_list(s2))
    # other texts
    s = st.copy()
    s.ts = ()
    other = mk("param", "ghost", "another text")
    for n in have:
        I.assume(s, I.mkeq(const(n.encode()), other), False)
        I.assume(s, I.mkeq(other, const(n.encode())), False)
    for s2, v in call(I, s, handle, other):
        rep.count("other texts")
        if I.resolve(s2, v) is not other:
            rep.violation("other", hw, "a text that is no macro comes back as %s" % show(I.resolve(s2, v), 0, 5), trace_list(s2))
    menu(P, rep, have)
    data(rep, have)
    wiring(P, rep)
    rep.need("macros evaluated", 1)
    rep.need("other texts", 1)
    rep.need("menu entries", 10)
    rep.need("converters followed", 2)
    return {}


def weekday2(I, s, n, v):
    """The other forms of the weekday with 禮拜 for 星期: unchanged where the name has no 星期."""
    plain = n.replace("2_", "_")
    if v.op == "m" and v.a[0] == "replace" or not states(plain, v):
        return False
    src = "星期".encode()

    def absent(t):
        return t.op == "m" and "find" in str(t.a[0]) and len(t.a) > 2 and t.a[1] is v and t.a[2] is const(src)
    return any(b and t.op == "==" and any(absent(x) for x in t.a) or not b and t.op == "m" and t.a[0] in ("contains", "starts") and v in t.a
               for t, b in s.facts.items())


class Menu(Shape):
    def __init__(self, P):
        Shape.__init__(self, P, lambda f: f["repo"])

    def model(self, I, st, c):
        if base_name(c.q) == "operator()" and c.q.startswith("std::function"):
            return [(st, mk("m", "expanded", I.resolve(st, c.args[0])))]
        return None


def menu(P, rep, have):
    cls = "McBopomofo::InputStates::SelectingDateMacro"
    fs = [x for x in P.functions.values() if x["q"] == cls + "::SelectingDateMacro" and x["ctor"] and len(x["params"]) == 1 and "function" in x["pt"][0] and x.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisError("the date menu's constructor is gone")
    C = Menu(P)
    C.unroll = 64
    I = Interp(P, C)
    for s, _ in eng.run_fn(I, C, fs[0], this=THIS):
        v = I.resolve(s, I.load(s, mk("F", mk("S", THIS), cls + "::menu")))
        w = I.where({"l": fs[0]["l"]})
        if v.op != "vec":
            raise AnalysisError("the date menu is not evaluated: %s" % show(v, 0, 3))
        seen = set()
        for x in v.a[0]:
            x = I.resolve(s, x)
            if x.op != "m" or x.a[0] != "expanded" or not strval(x.a[1]):
                rep.violation("menu", w, "the date menu offers %s, which is no expanded macro" % show(x, 0, 4), trace_list(s))
                continue
            n = x.a[1].a[0].decode()
            rep.inst("menu entries", n)
            if n not in have:
                rep.violation("menu:" + n, w, "the date menu offers %s, which is not in the macro table" % n, trace_list(s))
            if n in seen:
                rep.violation("menu:" + n, w, "the date menu offers %s twice" % n, trace_list(s))
            seen.add(n)


def data(rep, have):
    d = os.path.join(REPO, "data")
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if n.endswith(".txt") and os.path.isfile(p):
            rep.inst("data files scanned", n)
            with open(p, "rb") as f:
                for m in sorted(set(re.findall(rb"MACRO@\S+", f.read()))) if not n.startswith("CMake") else ():
                    if m.decode("utf-8", "replace") not in have:
                        rep.violation("data:" + m.decode("utf-8", "replace"), "data/" + n, "the shipped data has %s, which is not in the macro table" % m.decode("utf-8", "replace"), [])


class Wire(Shape):
    """Finds the converter handed on and follows it up to the macro table."""

    def __init__(self, P, follow, target):
        near = common.reaching(P, lambda fn: fn["q"].endswith(target) and "function" in (fn["pt"] or [""])[0])
        Shape.__init__(self, P, lambda f: f["key"] in near or f["q"] in follow)
        self.target = target
        self.got = []

    def init_ts(self):
        return ()

    def key(self, I, st):
        return st.ts

    def model(self, I, st, c):
        q = c.q.split("(")[0]
        if q == CTL + "::handle":
            return [(st, mk("m", "table", I.resolve(st, c.args[0])))]
        if q.endswith("McBopomofoLM::convertMacro"):
            return [(st, mk("m", "dictionary", I.resolve(st, c.args[0])))]
        if q.endswith(self.target) and c.args and "function" in (c.atypes or [""])[0]:
            st.ts = ("handed",)
            self.got.append((I.where(c.node), c.node, st.copy(), I.resolve(st, c.args[0])))
        return None


def wiring(P, rep):
    """The callable handed to setMacroConverter ends in the table, the one handed to the feature menu in the dictionary."""
    loader = [f for f in P.functions.values() if f["q"] == "McBopomofo::LanguageModelLoader::LanguageModelLoader" and f["ctor"] and f.get("body") is not None]
    kh = [f for f in P.functions.values() if f["q"] == "McBopomofo::KeyHandler::handle" and f.get("body") is not None]
    for fs, follow, target, ends in ((loader, ("McBopomofo::LanguageModelLoader::LanguageModelLoader",), "McBopomofoLM::setMacroConverter", "table"),
                                     (kh, ("McBopomofo::KeyHandler::handle",), "SelectingFeature::SelectingFeature", "dictionary")):
        if not fs:
            raise AnalysisError("%s: nothing to follow" % follow)
        C = Wire(P, follow, target)
        I = Interp(P, C)
        for f in fs:
            for s, _ in eng.run_fn(I, C, f, this=THIS):
                if ends == "table" and "handed" not in s.ts:
                    rep.violation("wire:" + target, I.where({"l": fs[0]["l"]}), "a way through the construction leaves the dictionary without its macro converter", trace_list(s))
        if not C.got:
            rep.violation("wire:" + target, I.where({"l": fs[0]["l"]}), "no macro converter is handed to %s" % target, [])
        text_ = mk("param", "ghost", "text")
        done = set()
        for w, node, st, lam in C.got:
            if (w, lam) in done:
                continue
            done.add((w, lam))
            body = P.functions.get(lam.a[0]) if lam.op == "lam" else None
            if body is None:
                raise AnalysisError("%s: the converter handed on cannot be followed: %s" % (w, show(lam, 0, 4)))
            rep.inst("converters followed", w)
            C2 = Wire(P, (), "no such function")
            I2 = Interp(P, C2)
            C2.I, C2.entry = I2, body["q"]
            for s, v in models.call_unknown(I2, st.copy(), lam, body, node, [text_]):
                if any(t.op == "isa" and not b and show(t).endswith("McBopomofoLM)") for t, b in s.facts.items()):
                    continue                    # the handler's dictionary is the loader's McBopomofoLM
                if I2.resolve(s, v) is not mk("m", ends, text_):
                    rep.violation("wire:" + target, w, "macros are not expanded by the %s but give %s" % ("macro table" if ends == "table" else ends, show(I2.resolve(s, v), 0, 5)), trace_list(s))
    # the dictionary's own conversion
    f = eng.method(P, "McBopomofo::McBopomofoLM", "convertMacro")
    C = Menu(P)
    I = Interp(P, C)

    def prep(I, st, c):
        if c.alocs[0] is not None:
            st.store[c.alocs[0]] = text_
        c.args = (text_,)
        I.storev(st, mk("F", mk("S", THIS), "McBopomofo::McBopomofoLM::macroConverter_"), mk("param", "ghost", "converter"))
        I.assume(st, I.mkeq(mk("param", "ghost", "converter"), NULL), False)
    for s, v in eng.run_fn(I, C, f, prep, this=THIS):
        if I.resolve(s, v) is not mk("m", "expanded", text_):
            rep.violation("wire:convertMacro", I.where({"l": f["l"]}), "the dictionary does not expand a macro with its converter", trace_list(s))
