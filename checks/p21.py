"""P21: no library call throws out of the input method."""
import eng, models, p10, p25
from program import walk
from terms import *
from interp import *
from common import TRUSTED, at_callers
TECHNIQUE = "abstract interpretation in a relational (difference-bound) domain for the positions handed to throwing text operations (with inferred summaries for the helpers they depend on), and path-sensitive rules over every call site of a conversion, file-system query, C string or stored callback that can fail"
ASSUMPTIONS = TRUSTED + [
    "a text's length is below 2^62, so positions do not wrap",
    "memory allocation does not fail",
    "the composed sentence split at an earlier cursor has a head no longer than one split at a later cursor",
    "a phrase that AssociatedPhrasesV2 returns for a prefix value has a value at least as long as that prefix (values in the phrase data contain neither '-' nor blanks, so the data line's prefix is the value's prefix)",
]
NOTE = "Static: every call site of a throwing text, conversion, file-system and callback operation in the input method."
THIS = mk("this")
PLACES = ("substr", "replace", "erase", "insert", "at", "compare", "copy")
N = "McBopomofo::"


class Throws(p10.Text):
    merge_limit = 40
    sums = {}

    def on_deref(self, I, st, v, node):
        pass

    def on_index(self, I, st, cont, i, node, kind):
        if kind in PLACES:
            self.must(I, st, node, kind, (ZERO, i, 0), (i, self.size(I, st, cont), -1 if kind == "at" else 0))

    def on_call(self, I, st, c):
        q = models.canon(c.q)
        pt = (c.fn.get("pt") or [""])[0] if isinstance(getattr(c, "fn", None), dict) else ""
        if q in ("std::string::erase", "std::string::insert", "std::string::copy") and c.args and pt in ("unsigned long", "size_type", "std::size_t", "size_t"):
            i = I.resolve(st, c.args[1 if q.endswith("copy") and len(c.args) > 2 else 0])
            self.must(I, st, c.node, q.split("::")[-1], (ZERO, i, 0), (i, self.own(I, st, c), 0))
        if q.endswith("map::at") and q.startswith("std::"):
            l, v = models.obj(I, st, c)
            k = I.resolve(st, c.args[0])
            has = v.op == "map" and any(kk is k for kk, _ in v.a[0]) or I.decide(st, mk("m", "map::contains", v, k)) is True or I.decide(st, I.mkeq(mk("m", "map::contains", v, k), ZERO)) is False
            self.must(I, st, c.node, "at", (ZERO, ZERO if has else const(-1), 0))
        if q == "std::string::compare" and len(c.args) >= 3:
            self.must(I, st, c.node, "compare", (ZERO, I.resolve(st, c.args[0]), 0), (I.resolve(st, c.args[0]), self.own(I, st, c), 0))
        f = c.fn if isinstance(getattr(c, "fn", None), dict) else None
        s = f and self.sums.get(f.get("u"))
        if s is not None:
            t = mk("m", f["q"], mk("site", I.where(c.node)), *[I.resolve(st, x) for x in c.args])
            n = models.size_of(I, st, t)
            I.utype.add(n)
            p10.assume_le(I, st, ZERO, n)
            p10.assume_le(I, st, n, self.length(I, st, c.args[s]))
            return [(st, t)]
        return None

    def own(self, I, st, c):
        l, v = models.obj(I, st, c)
        return self.length(I, st, v)

    def length(self, I, st, v):
        v = I.resolve(st, v)
        while v.op in ("lref", "p"):
            v = I.resolve(st, I.load(st, v.a[0]))
        n = I.resolve(st, models.size_of(I, st, v))
        if n.op not in ("c", "lin"):
            I.utype.add(n)
        return n

    def on_assume(self, I, st, cond, val):
        # a found position leaves room for what was found
        if cond.op == "==" and not val:
            for a, b in (cond.a, cond.a[::-1]):
                if b.op == "c" and b.a[0] == models.NPOS and a.op == "m" and a.a[0] in ("string::find", "string::rfind", "string::find_first_of", "string::find_last_of", "string::find_first_not_of", "string::find_last_not_of"):
                    x = a.a[2]
                    n = self.length(I, st, x) if a.a[0] in ("string::find", "string::rfind") and x.op not in ("chr",) and not (x.op == "c" and isinstance(x.a[0], int)) else const(1)
                    p10.assume_le(I, st, ZERO, a)
                    p10.assume_le(I, st, lin_add(a, n), self.length(I, st, a.a[1]))
                if b.op == "c" and b.a[0] == models.NPOS and a.op == "phi":
                    for f, v in list(st.facts.items()):
                        if v and f.op == "found" and f.a[0] is a:
                            p10.assume_le(I, st, ZERO, a)
                            p10.assume_le(I, st, lin_add(a, const(1)), self.length(I, st, f.a[1]))
        return True

    def le(self, I, st, a, b, c):
        if super().le(I, st, a, b, c):
            return True
        # the named assumption about associated phrases
        a, b = I.resolve(st, a), I.resolve(st, b)
        if c >= 0 and a.op == "m" and a.a[0] == "size" and b.op == "m" and b.a[0] == "size":
            for t in subterms(b):
                if t.op in ("m", "r") and "findAssociatedPhrases" in str(t.a[0]) and any(x is a.a[1] or eng.strip_copy(x) is a.a[1] for x in subterms(t)):
                    return True
            # one sentence split at an earlier and at a later place: the first head is not the longer one
            x, y = split_at(a.a[1]), split_at(b.a[1])
            if x is not None and y is not None and x[0] is y[0] and super().le(I, st, x[1], y[1], 0):
                return True
        return False


def split_at(t):
    """(object, position) when the text is the head of the composed string split at a position."""
    if t.op == "fld" and t.a[1].endswith("ComposedString::head"):
        t = t.a[0]
        if t.op in ("m", "r") and "getComposedString" in str(t.a[0]):
            return t.a[1] if len(t.a) > 2 else None, t.a[-1]
    return None


def sites(f):
    out = []
    for n in walk([f["body"], f.get("inits") or []]):
        fn = n.get("fn")
        if isinstance(fn, dict):
            q = models.canon(fn.get("q") or "")
            b = q.split("::")[-1]
            if b in PLACES and q.startswith("std::string::") or b == "at" and q.startswith("std::"):
                out.append(n)
    return out


def free(g):
    return g.get("lambda") or (not g.get("cls") or g.get("static")) and g["repo"]


def run_one(P, f, cls=Throws, follow=free):
    C = cls(P, None, follow)
    I = Interp(P, C)
    C.I = I

    def pre(I, st, c):
        p10.base_facts(I, st)
        st.facts[mk("==", THIS, NULL)] = False
    out = eng.run_fn(I, C, f, pre)
    return I, C, out


def is_string(t):
    return models.canon(t.replace("const ", "").strip(" &")) == "std::string"


def summaries(P, rep, fs):
    """Free functions whose text result is never longer than one of their text arguments."""
    called = set()
    for f in fs:
        for n in walk([f["body"], f.get("inits") or []]):
            fn = n.get("fn")
            if isinstance(fn, dict):
                called.add(fn.get("u"))
    sums, steps = {}, 0
    for f in P.functions.values():
        if f["u"] not in called or not f["repo"] or f.get("body") is None or f.get("cls") or f.get("lambda") or not is_string(f["rt"]):
            continue
        ps = [i for i, p in enumerate(f["params"]) if is_string(p["t"])]
        if not ps:
            continue
        try:
            I, C, out = run_one(P, f)
        except AnalysisError:
            continue
        steps += I.steps
        for i in ps:
            ok = bool(out) and not C.bad
            for r in out:
                st, v = r
                v = I.resolve(st, v)
                p = f["params"][i]
                loc = p10.mk("param", f["q"], ("&" if "&" in p["t"] else "") + p["n"])
                src = I.load(st, mk("S", loc)) if "&" in p["t"] else loc
                a, b = C.length(I, st, v), C.length(I, st, src)
                if not C.le(I, st, a, b, 0):
                    ok = False
                    break
            if ok:
                sums[f["u"]] = i
                rep.inst("summaries: the result is no longer than the argument", "%s %s" % (f["l"], f["q"]))
                break
    return sums, steps


class Settler:
    """Obligations of a helper that its callers establish are looked for in every caller."""

    def __init__(self, P, fs, run):
        self.P, self.run = P, run
        self.fs = {f["key"]: f for f in fs}
        self.res = {}
        self.up = {}
        self.steps = 0
        for f in P.functions.values():
            if not f["repo"] or f.get("body") is None:
                continue
            for n in walk([f["body"], f.get("inits") or []]):
                fn = n.get("fn")
                if isinstance(fn, dict) and fn.get("u"):
                    self.up.setdefault(fn["u"], {})[f["key"]] = f
                if n.get("k") == "LambdaExpr":
                    self.up.setdefault("lambda " + str(n.get("fnkey")), {})[f["key"]] = f

    def callers(self, f):
        if f.get("lambda"):
            return list(self.up.get("lambda " + str(f["key"]), {}).values())
        return [g for k, g in self.up.get(f["u"], {}).items() if k != f["key"]]

    def judge(self, f, extra=frozenset()):
        k = (f["key"], extra)
        if k not in self.res:
            I, C, out = self.run(f, lambda g: free(g) or g["key"] in extra)
            self.steps += I.steps
            self.res[k] = C
        return self.res[k]

    def held(self, f, place, path=()):
        """Is the obligation at `place` established wherever f is called?"""
        if len(path) > 2 or f["key"] in path or f.get("virtual"):
            return False
        cs = self.callers(f)
        if not cs:
            return False
        path = path + (f["key"],)
        for g in cs:
            try:
                C = self.judge(g, frozenset(path))
            except AnalysisError:
                return False
            if place not in C.seen:
                return False
            if not C.seen[place] and not self.held(g, place, path):
                return False
        return True


def positions(P, rep):
    fs = [f for f in P.functions.values() if f["repo"] and f.get("body") is not None and sites(f)]
    Throws.sums, steps = summaries(P, rep, fs)
    S = Settler(P, fs, lambda f, follow: run_one(P, f, Throws, follow))
    done = set()
    for f in fs:
        C = S.judge(f)
        rep.inst("functions with text positions", "%s %s" % (f["l"], f["q"]))
        for (where, what), ok in sorted(C.seen.items()):
            if ok:
                rep.inst("positions", "%s %s" % (where, what))
                rep.count("obligations")
                continue
            if S.held(f, (where, what)):
                rep.inst("positions", "%s %s (established by every caller)" % (where, what))
                rep.count("obligations")
                continue
            if (where, what) in done:
                continue
            done.add((where, what))
            why, tr = C.bad[(where, what)]
            name = f["q"].split("::")[-1]
            rep.violation("%s@%s" % (what, name), where, "%s: this %s throws when its position is behind the end of the text: %s" % (f["q"], what, why), tr)
        lines = {w for w, _ in C.seen}
        for n in sites(f):
            if "src/" + I_where(n) not in lines and I_where(n) not in lines:
                rep.count("sites never reached or of constant text")
    rep.need("positions", 10)
    return steps + S.steps


def I_where(n):
    return n.get("l") or ""


CATCH = {
    "sto": ("...", "std::exception", "std::logic_error"),
    "fs": ("...", "std::exception", "std::system_error", "std::runtime_error", "std::filesystem::filesystem_error"),
    "get": ("...", "std::exception"),
}


def visit(n, caught, fn):
    """Every node with the exception types caught around it (not inside a lambda built there)."""
    if isinstance(n, list):
        for x in n:
            visit(x, caught, fn)
        return
    if not isinstance(n, dict):
        return
    k = n.get("k")
    if k:
        fn(n, caught)
    if k == "CXXTryStmt":
        hs = tuple((h.get("t") or "...").replace("const ", "").replace("class ", "").strip(" &") for h in n.get("handlers") or [])
        for key, v in n.items():
            if key == "handlers":
                for h in v:
                    visit(h.get("body"), caught, fn)
            elif key != "fn":
                visit(v, caught + hs, fn)
        return
    for key, v in n.items():
        if key != "fn" and isinstance(v, (dict, list)):
            visit(v, caught, fn)


STO = ("stoi", "stol", "stoul", "stoll", "stoull", "stof", "stod", "stold")
GET = {"std::optional::value": "value of an empty optional", "std::any_cast": "any_cast to another type"}


def calls(P, rep):
    for f in P.functions.values():
        if not f["repo"] or f.get("body") is None:
            continue

        def at(n, caught, f=f):
            k, name = n.get("k"), f["q"].split("::")[-1]
            if k == "CXXThrowExpr":
                rep.inst("throw expressions", n.get("l") or f["l"])
                if not caught:
                    rep.violation("throw@" + name, n.get("l") or f["l"], "%s throws" % f["q"], [])
                return
            if k == "CXXDynamicCastExpr" and "&" in (n.get("t") or ""):
                if not set(caught) & {"...", "std::exception", "std::bad_cast"}:
                    rep.violation("cast@" + name, n.get("l") or f["l"], "%s casts a reference, which throws for an object of another class" % f["q"], [])
            fn = n.get("fn")
            if not isinstance(fn, dict):
                return
            q = models.canon(fn.get("q") or "")
            b = q.split("::")[-1]
            where = n.get("l") or f["l"]
            if q.startswith("std::") and b in STO and q.count("::") <= 2 + q.count("__cxx11"):
                rep.inst("numeric conversions", where)
                bad = not (set(caught) & set(CATCH["sto"]) or {"std::invalid_argument", "std::out_of_range"} <= set(caught))
                if bad:
                    rep.violation("%s@%s" % (b, name), where, "%s: std::%s throws for a text that is not a number or does not fit, and nothing here catches it" % (f["q"], b), [])
            elif q in GET and GET[q] and not set(caught) & set(CATCH["get"]):
                rep.violation("%s@%s" % (b, name), where, "%s: %s throws, and nothing here catches it" % (f["q"], GET[q]), [])
            elif q in ("std::strtod", "strtod", "strtol", "std::strtol", "atoi", "atof", "std::atoi", "strtoul", "std::strtof", "strtof"):
                rep.inst("numeric conversions", where)
            elif "filesystem::" in q and (fn.get("cls") or "").find("filesystem::") < 0 and not b.startswith("operator"):
                rep.inst("file-system queries", "%s %s" % (where, b))
                if not any("error_code" in t for t in fn.get("pt") or []) and not set(caught) & set(CATCH["fs"]):
                    rep.violation("%s@%s" % (b, name), where, "%s: this form of std::filesystem::%s throws when the query fails, and nothing here catches it" % (f["q"], b), [])
            elif "filesystem::" in (fn.get("cls") or "") and ("iterator" in (fn.get("cls") or "") or "directory_entry" in fn["cls"]) and (b in ("refresh", "exists", "is_directory", "file_size", "last_write_time", "operator++", "increment") or n.get("k") == "CXXConstructExpr" and len(n.get("args") or []) >= 1 and any("path" in t for t in fn.get("pt") or [])):
                rep.inst("file-system queries", "%s %s" % (where, b))
                if not any("error_code" in t for t in fn.get("pt") or []) and not set(caught) & set(CATCH["fs"]):
                    rep.violation("%s@%s" % (b, name), where, "%s: walking a directory this way throws when it cannot be read, and nothing here catches it" % f["q"], [])
        visit([f["body"], f.get("inits") or []], (), at)
        rep.count("functions scanned")
    rep.need("numeric conversions", 2)
    rep.need("file-system queries", 4)


# ---- a text built from a C string that may be missing
NULLABLE = ("json_object_get_string", "getenv", "std::getenv", "secure_getenv", "strchr", "strstr", "strrchr", "std::strchr", "std::strstr")


def has_nullable(f):
    return any(isinstance(n.get("fn"), dict) and n["fn"].get("q") in NULLABLE for n in walk([f["body"], f.get("inits") or []]))


class Missing(p25.LoadClient):
    def __init__(self, P):
        super().__init__(P)
        self.seen = {}
        self.bad = {}

    def model(self, I, st, c):
        q = c.q or ""
        cq = models.canon(q)
        if c.ctor and cq.startswith("std::string") and c.args or cq in ("std::string::operator=", "std::string::append", "std::string::operator+=", "std::operator+"):
            for x in c.args:
                x = eng.strip_copy(I.resolve(st, x))
                if x.op == "m" and x.a[0] in NULLABLE:
                    w = I.where(c.node)
                    self.seen.setdefault(w, True)
                    arg = x.a[1] if len(x.a) > 1 else NULL
                    safe = self.nonnull(I, st, x) or x.a[0] == "json_object_get_string" and self.nonnull(I, st, arg)
                    if not safe:
                        self.seen[w] = False
                        self.bad.setdefault(w, ("%s may be missing" % show(x), trace_list(st, 10)))
        if q in NULLABLE and not q.startswith("json_"):
            return [(st, mk("m", q, *[eng.strip_copy(I.resolve(st, x)) for x in c.args]))]
        if q == "json_object_get_array":
            w = I.where(c.node)
            x = eng.strip_copy(I.resolve(st, c.args[0]))
            self.seen.setdefault(w, True)
            if not any(val and t.op == "m" and "json_object_is_type" in str(t.a) and any(y is x for y in subterms(t)) for t, val in self.known(st)):
                self.seen[w] = False
                self.bad.setdefault(w, ("%s is not known to be an array" % show(x), trace_list(st, 10)))
        return super().model(I, st, c)

    def known(self, st):
        out = []
        for t, v in st.facts.items():
            if t.op == "==":
                a, b = t.a
                for x, y in ((a, b), (b, a)):
                    if y.op == "c" and isinstance(y.a[0], int):
                        out.append((x, (y.a[0] != 0) if v else (y.a[0] == 0)))
            out.append((t, v))
        for t, v in st.eq.items():
            if v.op == "c":
                out.append((t, bool(v.a[0])))
        return out

    def nonnull(self, I, st, x):
        if x.op == "c" and x is not NULL and isinstance(x.a[0], bytes):
            return True
        return I.decide(st, I.mkeq(x, NULL)) is False or st.facts.get(mk("==", x, NULL)) is False or st.facts.get(mk("==", NULL, x)) is False


def missing(P, rep):
    steps = 0
    for f in at_callers(P, [f for f in P.functions.values() if f["repo"] and f.get("body") is not None and has_nullable(f)]):
        C = Missing(P)
        I = Interp(P, C)
        C.I = I
        eng.run_fn(I, C, f)
        steps += I.steps
        rep.inst("functions using C strings that may be missing", "%s %s" % (f["l"], f["q"]))
        for w, ok in sorted(C.seen.items()):
            rep.inst("C strings that may be missing", w)
            rep.count("obligations")
            if not ok:
                why, tr = C.bad[w]
                rep.violation("missing@" + f["q"].split("::")[-1], w, "%s: making a text of a missing string or reading a value of another type fails: %s" % (f["q"], why), tr)
    return steps


# ---- stored callbacks
class Stored(p10.Text):
    num = False

    def __init__(self, P, follow):
        super().__init__(P, None, follow)

    def must(self, *a):
        return True

    def on_call(self, I, st, c):
        q = c.q or ""
        if "std::function" in q and q.endswith("operator()"):
            l, v = models.obj(I, st, c)
            if l is not None and l.op == "F":
                k = (I.where(c.node), l.a[1])
                self.seen.setdefault(k, True)
                v = I.resolve(st, v)
                ok = any(not val and f.op == "==" and NULL in f.a and (v in f.a or mk("p", l) in f.a or any(x.op in ("m", "r") and l in x.a for x in f.a)) for f, val in st.facts.items())
                ok = ok or I.decide(st, I.mkeq(v, NULL)) is False or I.decide(st, v) is True
                if not ok:
                    self.seen[k] = False
                    self.bad.setdefault(k, ("%s may be unset" % show(v), trace_list(st, 10)))
        return super().on_call(I, st, c)


def member(n):
    """The field of `this` a callback is called through."""
    o = n.get("obj") or (n.get("args") or [{}])[0]
    for x in walk([o]):
        if x.get("k") == "MemberExpr" and "std::function" in models.canon(x.get("t") or ""):
            return x
    return None


def always_set(P, field):
    """Every constructor of the class (but those copying an object) gives the field a value."""
    cls = field.rsplit("::", 1)[0]
    cls = cls.split("<")[0]
    cs = [f for f in P.functions.values() if (f.get("cls") or "").split("<")[0] == cls and f.get("ctor") and f.get("body") is not None
          and not (len(f["params"]) == 1 and base_name(cls) in f["params"][0]["t"])]
    return bool(cs) and all(any(i.get("field") == field and any(x.get("dk") == "parm" or x.get("k") == "LambdaExpr" for x in walk([i.get("init")])) for i in f.get("inits") or []) for f in cs)


def assigns(f, field):
    """Does the function always assign the field (a top-level statement)?"""
    for n in (f.get("body") or {}).get("c") or []:
        while n.get("k") in ("ExprWithCleanups",) and n.get("e"):
            n = n["e"]
        fn = n.get("fn")
        if isinstance(fn, dict) and fn["q"].endswith("::operator="):
            o = n.get("obj") or (n.get("args") or [{}])[0]
            if any(x.get("k") == "MemberExpr" and x.get("q") == field for x in walk([o])):
                return True
    return False


def set_up(P, field):
    """The engine's constructor calls (as one of its own statements, or in a helper's) a method that stores a callback in the field."""
    setters = {f["u"] for f in P.functions.values() if f["repo"] and not f.get("ctor") and f.get("body") is not None and assigns(f, field)}

    def calls(f, depth):
        found = []

        def at(n, caught):
            fn = n.get("fn")
            if isinstance(fn, dict):
                if fn.get("u") in setters:
                    found.append(n)
                elif depth and fn.get("cls") == eng.ENG:
                    g = P.by_u(fn["u"]) if hasattr(P, "by_u") else next((g for g in P.functions.values() if g["u"] == fn["u"] and g.get("body") is not None), None)
                    if g is not None and calls(g, depth - 1):
                        found.append(n)
        for n in f["body"].get("c") or []:
            if n.get("k") not in ("IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt", "SwitchStmt", "LambdaExpr"):
                visit(n, (), at)
        return bool(found)
    return any(calls(f, 1) for f in P.functions.values() if f.get("cls") == eng.ENG and f.get("ctor") and f.get("body") is not None)


def stored(P, rep):
    def held_calls(f):
        return [m for n in walk([f["body"], f.get("inits") or []]) if isinstance(n.get("fn"), dict)
                and "std::function" in models.canon(n["fn"].get("q") or "") and n["fn"]["q"].endswith("operator()") for m in [member(n)] if m]

    used = [f for f in P.functions.values() if f["repo"] and f.get("body") is not None and held_calls(f)]
    inside = {f["u"]: held_calls(f) for f in used}
    steps = 0
    for f in at_callers(P, used):
        ms = held_calls(f) or [m for x in walk(f["body"]) if isinstance(x.get("fn"), dict) for m in inside.get(x["fn"].get("u"), ())]
        C = Stored(P, free)
        I = Interp(P, C)
        C.I = I

        def pre(I, st, c):
            st.facts[mk("==", THIS, NULL)] = False
        eng.run_fn(I, C, f, pre)
        steps += I.steps
        for (w, field), ok in sorted(C.seen.items()):
            rep.inst("stored callbacks called", "%s %s" % (w, field))
            rep.count("obligations")
            if ok or always_set(P, field) or set_up(P, field):
                continue
            why, tr = C.bad[(w, field)]
            rep.violation("unset@" + f["q"].split("::")[-1], w, "%s calls %s, which may be unset: calling an empty std::function throws" % (f["q"], field), tr)
    rep.need("stored callbacks called", 3)
    return steps


def run(prog, rep, tier):
    P = prog
    rep.rule("every position handed to substr, replace, compare, insert, erase or at is proved to be at most the length of its text, on every path and for every content; a helper's obligation may be established by all its callers")
    rep.rule("no std::sto* conversion outside a handler that catches both of its exceptions")
    rep.rule("every std::filesystem query takes an error_code or is inside a handler")
    rep.rule("a stored callback is called only where it is known to be set, or is set by every constructor of its class or by the engine's constructor")
    rep.rule("a text is made from a C string that may be missing only where it is known to be present; a JSON array is read only after its type was tested")
    calls(P, rep)
    steps = positions(P, rep)
    steps += missing(P, rep)
    steps += stored(P, rep)
    return {"steps": steps}
