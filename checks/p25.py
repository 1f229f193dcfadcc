"""P25: lookup menu entry and opened service agree."""
import eng, kh, shape, p13, models
from kh import KH, ST, NS
from common import TRUSTED
from interp import *
from terms import *
from program import AnalysisError
TECHNIQUE = "value-flow analysis of menu construction, candidate list, selection and service lookup, with the number of services enumerated and all texts symbolic"
ASSUMPTIONS = TRUSTED
DS = NS + "DictionaryServices"
SV = NS + "DictionaryService"


class Cl(shape.Shape):
    def __init__(self, P, transparent):
        shape.Shape.__init__(self, P, transparent)
        self.calls = []

    def init_ts(self):
        return ()

    def model(self, I, st, c):
        n = base_name(c.q or "")
        cls = c.fn.get("cls") or ""
        if cls == SV and c.this is not None:
            a = [eng.strip_copy(I.resolve(st, x)) for x in c.args]
            this = I.resolve(st, c.this)
            if n == "textForMenu":
                return [(st, mk("m", "textForMenu", this, *a))]
            st.ts = st.ts + ((n, this) + tuple(a),)
            return [(st, VOID if strip_type(c.rt) == "void" else mk("m", n, this, *a))]
        if cls == DS and not self.transparent(c.fn):
            a = [eng.strip_copy(I.resolve(st, x)) for x in c.args]
            if strip_type(c.rt) == "void":
                st.ts = st.ts + ((n,) + tuple(a),)
                return [(st, VOID)]
            return [(st, mk("m", n, *a))]
        return None


def method(P, cls, name):
    fs = [f for f in P.functions.values() if f.get("cls") == cls and f["n"] == name and f.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: %s::%s" % (cls, name))
    return fs[0]


def run(P, rep, tier):
    rep.rule("the menu has one entry per service, in the order of the services, made from the looked-up phrase")
    rep.rule("looking up entry n calls the service at position n, with the phrase, and nothing for a position that does not exist")
    rep.rule("the selecting state carries the looked-up phrase and the menu of that same phrase; the list shows that menu in order and entry n passes n")
    fq = kh.field_of(P, DS, lambda t: "DictionaryService" in t)
    local = lambda f: f.get("cls") == DS or "lambda" in f["q"] or "(anon" in f["q"]
    L = mk("F", mk("S", mk("this")), fq)
    steps = 0
    fmenu, flook = method(P, DS, "menuForPhrase"), method(P, DS, "lookup")
    N = 5 if tier == "thorough" else 4

    def services(n):
        return tuple(mk("svc", i) for i in range(n))

    for n in range(N + 1):
        C = Cl(P, local)
        I = Interp(P, C)

        def prep(I, st, c):
            I.storev(st, L, mk("vec", services(n)))
            for s in services(n):
                st.facts[mk("==", s, NULL)] = False
        ph = mk("obj", mk("param", fmenu["q"], "&phrase"))
        for s, v in eng.run_fn(I, C, fmenu, prep):
            v = I.resolve(s, v)
            rep.count("menus built")
            got = [I.resolve(s, x) for x in v.a[0]] if v.op == "vec" else None
            bad = got is None or len(got) != n
            for i, t in enumerate(got or ()):
                t = eng.strip_copy(t)
                if not bad and not (t.op == "m" and t.a[0] == "textForMenu" and t.a[1] is mk("svc", i)):
                    bad = True
                elif not bad and not is_param(t.a[2], fmenu, 0):
                    rep.violation("menu@phrase", fmenu["l"], "a menu entry is not made from the looked-up phrase: " + show(t))
            if bad:
                rep.violation("menu", fmenu["l"], "with %d services the menu is %s" % (n, show(v)), trace_list(s, 8))
        steps += I.steps
        for k in range(N + 2):
            C = Cl(P, local)
            I = Interp(P, C)

            def prep2(I, st, c):
                prep(I, st, c)
                c.args = tuple(const(k) if i == 1 else a for i, a in enumerate(c.args))
            for s, v in eng.run_fn(I, C, flook, prep2):
                rep.count("lookups")
                ev = [e for e in s.ts if e[0] == "lookup"]
                if k >= n:
                    if ev:
                        rep.violation("lookup", flook["l"], "looking up entry %d of %d performs a service" % (k, n))
                    continue
                if len(ev) != 1 or ev[0][1] is not mk("svc", k):
                    rep.violation("lookup", flook["l"], "looking up entry %d of %d performs %s" % (
                        k, n, ", ".join(show(e[1]) for e in ev) or "nothing"), trace_list(s, 8))
                elif not is_param(ev[0][2], flook, 0):
                    rep.violation("lookup@phrase", flook["l"], "another phrase is looked up: " + show(ev[0][2]))
                elif not is_param(ev[0][3], flook, 2):
                    rep.violation("lookup@state", flook["l"], "another state is passed to the service: " + show(ev[0][3]))
            steps += I.steps
    # key handling: index and phrase handed on, and the state carries the menu of its phrase
    local2 = lambda f: f["q"].startswith((KH, NS + "InputState")) or "lambda" in f["q"]
    fsel = method(P, KH, "dictionaryServiceSelected")
    C = Cl(P, local2)
    I = Interp(P, C)
    for s, v in eng.run_fn(I, C, fsel):
        ev = [e for e in s.ts if e[0] == "lookup"]
        rep.inst("selections handed on", fsel["q"])
        if len(ev) != 1 or not is_param(ev[0][1], fsel, 0) or not is_param(ev[0][2], fsel, 1) or not is_param(ev[0][3], fsel, 2):
            rep.violation("handed", fsel["l"], "a selected service is looked up as %s" % [[show(x) for x in e[1:4]] for e in ev])
    steps += I.steps
    S = {f["n"]: f["q"] for f in P.records[ST + "SelectingDictionary"]["fields"]}
    for fb in [f for f in P.functions.values() if f.get("cls") == KH and f.get("body") is not None and f["rt"].startswith("std::unique_ptr<" + ST + "SelectingDictionary")]:
        C = Cl(P, local2)
        I = Interp(P, C)
        for s, v in eng.run_fn(I, C, fb):
            rep.inst("menus stored", fb["q"])
            if v is NULL:
                continue
            o = I.load(s, I.ptr_loc(v))
            phrase = eng.strip_copy(I.resolve(s, I.fld(s, o, S["selectedPhrase"])))
            menu = eng.strip_copy(I.resolve(s, I.fld(s, o, S["menu"])))
            if not (menu.op == "m" and menu.a[0] == "menuForPhrase" and menu.a[1] is phrase):
                rep.violation("stored@menu", fb["l"], "the selecting state's menu is %s but its phrase is %s" % (show(menu), show(phrase)))
            if not is_param(phrase, fb, 1):
                rep.violation("stored@phrase", fb["l"], "the selecting state's phrase is %s" % show(phrase))
        steps += I.steps
    steps += addresses(P, rep)
    steps += loaded(P, rep)
    # the list and its entries
    facts = eng.show_states(P, rep, {"wiring"})
    steps += eng.drive(P, rep, {"wiring"}, facts)
    rep.need("menus built", N)
    rep.need("lookups", 12)
    rep.need("menus stored", 1)
    rep.need("entry selections", 7)
    return {"abstract_steps": steps}


def addresses(P, rep):
    """A service opens its own address with the phrase in the marked place, and closes the list."""
    rep.rule("a service opens its own address with the marked place replaced by the encoded phrase and everything else kept, whatever the address looks like")
    steps = 0
    M = p13.PLACE
    for tpl in (b"https://a.example/" + M, b"https://a.example/?q=" + M + b"&x=1#top", M, M + b"/x", b"https://a.example/none", b"x"):
        runs, n, _ = p13.lookups(P, rep, tpl)
        steps += n
        some = False
        for q, f, s, procs, I in runs:
            if not [x for x in P.records[q]["fields"] if models.is_string_type(x["t"])]:
                continue
            some = True
            rep.inst("addresses opened", tpl.decode())
            ph = p13.phrase(f)
            if len(procs) != 1:
                rep.violation("address@count", f["l"], "looking up with address '%s' opens %d pages" % (tpl.decode(), len(procs)), trace_list(s, 8))
                continue
            v = I.resolve(s, procs[0][1][0])
            el = [p13.text(I, s, x) for x in v.a[0]] if v.op == "vec" else []
            url = el[-1] if el else ()
            got = tuple(M if isinstance(p, T) and p.op == "m" and p.a[0] == "encode" and eng.strip_copy(p.a[2]) is ph else p for p in url)
            if any(isinstance(p, T) for p in got) or b"".join(got) != tpl:
                rep.violation("address@kept", f["l"], "the address '%s' is opened as '%s'" % (
                    tpl.decode(), "".join(show(p) if isinstance(p, T) else p.decode() for p in got)), trace_list(s, 8))
            elif M in tpl and not any(isinstance(p, T) for p in url):
                rep.violation("address@phrase", f["l"], "the address '%s' is opened without the phrase" % tpl.decode(), trace_list(s, 8))
        if not some:
            rep.violation("address@lost", "src/DictionaryService.cpp", "looking up with address '%s' can only fail" % tpl.decode())
    return steps


class LoadClient(shape.Shape):
    """Reading the service file: which name is paired with which address."""
    merge_limit = 4

    def __init__(self, P):
        shape.Shape.__init__(self, P, lambda f: f.get("cls") == DS or f.get("ctor") and (f.get("cls") or "").endswith("Service"))
        self.made = []

    def init_ts(self):
        return ()

    def key(self, I, st):
        return st.ts

    def on_alloc(self, I, st, *a):
        pass

    def model(self, I, st, c):
        q = c.q or ""
        if q == "json_object_object_get_ex":
            r = I.resolve(st, c.args[2])
            k = eng.strip_copy(I.resolve(st, c.args[1]))
            s2 = st.copy()
            v = mk("json", eng.strip_copy(I.resolve(st, c.args[0])), k)
            I.storev(st, I.ptr_loc(r), v)
            return [(st, TRUE), (s2, FALSE)]
        if q.startswith(("json_object_", "array_list_", "json_tokener")):
            return [(st, VOID if strip_type(c.rt) == "void" else mk("m", q, *[eng.strip_copy(I.resolve(st, x)) for x in c.args]))]
        cls = c.fn.get("cls") or ""
        if cls and base_name(q) == base_name(cls) and len(c.args) == 2 and SV in self.P.bases_of(cls):
            self.made.append((c.fn["cls"], tuple(text_of(I, st, x) for x in c.args), I.where(c.node), st.copy()))
        return None


def text_of(I, st, x):
    x = eng.strip_copy(I.resolve(st, x))
    while x.op in ("lref", "p") or x.op == "m" and len(x.a) == 2 and "basic_string" in str(x.a[0]):
        x = eng.strip_copy(I.resolve(st, I.load(st, x.a[0]))) if x.op in ("lref", "p") else x.a[1]
    return x


def loaded(P, rep):
    rep.rule("a service read from the file takes its name and its address from the same entry")
    f = method(P, DS, "load")
    C = LoadClient(P)
    I = Interp(P, C)
    eng.run_fn(I, C, f)
    for cls, a, where, s in C.made:
        rep.inst("services loaded", where)
        js = [[t for t in subterms(x) if t.op == "json"] for x in a]
        keys = [{t.a[1].a[0] for t in j if t.a[1].op == "c"} for j in js]
        own = [next((t for t in j if t.a[1].op == "c" and t.a[1].a[0] in (b"name", b"url_template", "name", "url_template")), None) for j in js]
        if own[0] is None or own[1] is None or own[0].a[1].a[0] not in (b"name", "name") or own[1].a[1].a[0] not in (b"url_template", "url_template"):
            rep.violation("load@fields", where, "a service is made from %s and %s" % (show(a[0]), show(a[1])), trace_list(s, 8))
        elif own[0].a[0] is not own[1].a[0]:
            rep.violation("load@entry", where, "a service takes its name and address from different entries", trace_list(s, 8))
    rep.need("services loaded", 1)
    # the constructor keeps them apart: the menu text comes from the first, the address from the second (checked with addresses above)
    return I.steps


def is_param(t, fn, i):
    """t is the i-th parameter of fn (or a copy of it)."""
    t = eng.strip_copy(t)
    n = fn["params"][i]["n"]
    while t.op in ("obj", "copy", "mv") or (t.op == "m" and len(t.a) == 2 and isinstance(t.a[1], T)):
        t = t.a[-1]
    return t.op == "param" and t.a[0] == fn["q"] and t.a[1] in (n, "&" + n)
