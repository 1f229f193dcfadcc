"""P24: each data file feeds its own model; a changed user file is reloaded, an unchanged one is not."""
import eng, models
from terms import *
from interp import *
from loader import *
import parts
from common import TRUSTED
TECHNIQUE = "abstract interpretation of the loader against a finite file-system domain (absent, present, changed, time stamp unreadable, per file), explored to a fixed point over sequences of loader calls; the open and close events per model slot are compared with the specified ones"
ASSUMPTIONS = TRUSTED + ["a change of a file changes its modification time", "a locate() result and a user directory are opaque strings; file contents do not influence the loader", "the parts of the language model release the old data in close() and read the given path in open()"]
NOTE = "Static: every reachable abstract loader state x every combination of changes to the user files."

FILES = (USER, EXCL, REPL)


def check_slots(rep, key, where, text, sl, want, only=None):
    """want: slot -> path that must be (re)loaded, None that nothing may happen."""
    for slot, path in want.items():
        evs = sl.get(slot, [])
        rep.count("slots judged")
        if path is None:
            if evs:
                rep.violation(key + ":" + slot, where, "%s: %s is touched (%s), although nothing calls for it" % (text, slot, ev_text(evs)))
        elif not reloaded(evs, path):
            rep.violation(key + ":" + slot, where, "%s: %s must be closed and opened from %s; it is: %s" % (
                text, slot, path_text(path), ev_text(evs) or "left as it was"))


def ev_text(evs):
    return ", ".join(e if isinstance(e, str) else "%s %s" % (e[0], path_text(e[1])) for e in evs)


def path_text(p):
    return p.decode() if isinstance(p, bytes) else show(p)


def situation(fs, p):
    f = fs.get(p) or File()
    return "%s: %s" % (p.decode().split("/")[-1], "missing" if not f.kind else "time unreadable" if f.err else "present")


class World:
    """A loader state with what it must have recorded about each file."""

    def __init__(self, st, fs, rec, enabled):
        self.st, self.fs, self.rec, self.enabled = st, fs, rec, enabled


def after(fs0, st):
    return {p: f for p, f in st.ts[1]}


def expect(w, fs):
    """What a reload must do on this file system: (slots to load, new recorded stamps, replacement enabled)."""
    def changed(p):
        f = fs.get(p)
        return bool(f and f.kind and (f.err or f.mtime != w.rec[p]))
    u, x, r = changed(USER), changed(EXCL), changed(REPL)
    want = {"userPhrases_": USER if u or x else None, "excludedPhrases_": EXCL if u or x else None,
            "phraseReplacement_": REPL if r else None, "languageModel_": None, "associatedPhrasesV2_": None}
    rec = dict(w.rec)
    for p, c in ((USER, u), (EXCL, x), (REPL, r)):
        if c:
            rec[p] = None if fs[p].err else fs[p].mtime
    en = w.enabled
    if not (fs.get(REPL) and fs[REPL].kind):
        en, rec[REPL] = False, None
    elif r:
        en = True
    return want, rec, en


def replacing(I, st):
    vals = [v for l, v in st.store.items() if v.op == "s" and v.a[0] == LM]
    if len(vals) != 1:
        raise AnalysisError("the language model object is not found")
    return I.resolve(st, I.fld(st, vals[0], fld(LM, "phraseReplacementEnabled_")))


def judge(rep, I, w, fs, st, want, rec, en, where, text, key):
    sl = slots(st.ts[0])
    loose = dict(want)
    f = fs.get(USER)
    if want["userPhrases_"] and not (f and f.kind):
        del loose["userPhrases_"]                 # only the exclusions changed; there is nothing to read here
    g = fs.get(EXCL)
    if want["excludedPhrases_"] and not (g and g.kind):
        del loose["excludedPhrases_"]
    check_slots(rep, key, where, text, sl, loose)
    got = replacing(I, st)
    if got is not (TRUE if en else FALSE):
        rep.violation(key + ":replacement", where, "%s: phrase replacement is %s afterwards; it must be %s" % (
            text, "on" if got is TRUE else "off" if got is FALSE else show(got), "on" if en else "off"))
    rep.count("loader runs judged")


CLOCK = [1000]


def variants(fs, p, w):
    """The situations file p can be in at the next call."""
    f = fs.get(p) or File()

    def now():
        CLOCK[0] += 1
        return CLOCK[0] * 10
    out = [f.copy(err=False, mtime=f.mtime or now()) if f.kind else f]
    out.append(File("f", now()))
    if f.kind:
        out.append(File("f", 10 + CLOCK[0] % 7 + FRESH))       # replaced by an older one
        out.append(File(None, 0 if f.err else f.mtime))
        out.append(File("f", now(), err=True))
    elif f.mtime:
        out.append(File("f", f.mtime))                         # put back as it was
    return out


def explore(rep, P, L, tier, verdict):
    """Fixed point over the loader's abstract states; verdict(world, fs, end state, function, kind) judges each run."""
    start = []
    for present in range(8):
        fs = {ROOT: File("d"), DIR: File("d")}
        for i, p in enumerate(FILES):
            if present >> i & 1:
                fs[p] = File("f", 1000 * (i + 1))
        w = World(None, fs, {p: None for p in FILES}, False)
        for st in L.all(L.created(fs)):
            fs2 = after(fs, st)
            verdict(w, fs, fs2, st, None, "created")
            want, rec, en = expect(w, fs2)
            start.append(World(st, fs2, rec, en))
    seen, work = set(), start
    while work:
        w = work.pop()
        k = (L.key(w.st, w.fs), tuple(sorted((p, m is not None and w.fs.get(p) is not None and w.fs[p].mtime == m, m is None) for p, m in w.rec.items())), w.enabled)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > (400 if tier == "thorough" else 150):
            raise AnalysisError("the loader's states do not settle")
        vs = [variants(w.fs, p, w) for p in FILES]
        combos = []
        for i, a in enumerate(vs[0]):
            for j, b in enumerate(vs[1]):
                for m, c in enumerate(vs[2]):
                    if tier == "thorough" or m == 0 or i == 0 and j == 0 or i == 1 and j == 1:
                        combos.append((a, b, c))
        for abc in combos:
            fs = dict(w.fs)
            fs.update(zip(FILES, abc))
            st, f = L.step(w.st, fs, "reloadUserModelsIfNeeded")
            for st in L.all(st):
                fs2 = after(fs, st)
                verdict(w, fs, fs2, st, f, "reload")
                want, rec, en = expect(w, fs)
                work.append(World(st, fs2, rec, en))
        for a in vs[0]:
            for tail, size in (("\n", 10), ("x", 10), (None, 0)):
                if a.err and tail != "\n":
                    continue
                fs = dict(w.fs)
                fs[USER] = a.copy(tail=tail, size=size) if a.kind else a
                st, f = L.step(w.st, fs, "addUserPhrase")
                for st in L.all(st):
                    fs2 = after(fs, st)
                    verdict(w, fs, fs2, st, f, "add")
                    want, rec, en = expect(w, fs2 if a.kind else fs)
                    if not a.kind:
                        rec, en = w.rec, w.enabled
                    work.append(World(st, fs2, rec, en))
    return len(seen)


def run(prog, rep, tier):
    P = prog
    L = Loader(P)
    rep.rule("a reload loads the user and exclusion files iff one of them is present and changed, the replacement file iff it changed, each into its own slot")
    rep.rule("phrase replacement is on after a reload iff its file is present")
    rep.rule("an added phrase's file is reloaded after it has been written and closed")
    rep.rule("a mode's dictionary and the associated phrases are loaded from that mode's own file into their own slot")
    rep.rule("activation leaves the key handler in the activated mode with that mode's dictionary loaded, and asks for a reload")
    nm = {}

    def verdict(w, fs, fs2, st, f, kind):
        if kind == "created":
            where = "src/LanguageModelLoader.cpp LanguageModelLoader::LanguageModelLoader"
            want, rec, en = expect(w, fs2)
            want["languageModel_"] = mk("m", "locate", DATA)
            want["associatedPhrasesV2_"] = mk("m", "locate", ASSOC)
            text = "a new loader with " + ", ".join(situation(fs, p) for p in FILES)
            judge(rep, L.I, w, fs2, st, want, rec, en, where, text, "create")
            return
        where = "src/%s %s" % (f["l"], f["q"].split("::")[-1])
        if kind == "reload":
            want, rec, en = expect(w, fs)
            ch = [p.decode().split("/")[-1] for p in FILES if fs.get(p) and fs[p].kind and (fs[p].err or fs[p].mtime != w.rec[p])]
            text = "reload with %s; changed since the last time: %s" % (", ".join(situation(fs, p) for p in FILES), ", ".join(ch) or "none")
            judge(rep, L.I, w, fs, st, want, rec, en, where, text, "reload")
            return
        if not (fs.get(USER) and fs[USER].kind):
            rep.count("additions without a file")
            return
        wr = [i for i, e in enumerate(st.ts[0]) if e[0] == "write" and e[1] == USER]
        op = [i for i, e in enumerate(st.ts[0]) if e[0] == "open" and e[1] == "userPhrases_" and e[2] == USER]
        cl = [i for i, e in enumerate(st.ts[0]) if e[0] == "close" and e[1] == "userPhrases_"]
        rep.count("additions judged")
        if not wr or not op or op[-1] < wr[-1] or not any(wr[-1] < i < op[-1] for i in cl):
            rep.violation("add:reload", where, "a phrase is added (%s): the user phrases are not read again after the record has been written" % situation(fs, USER))
    rep.count("abstract loader states", explore(rep, P, L, tier, verdict))

    # no user directory: nothing but the built-in data
    for fs, ud, text in (({}, b"", "no user data directory is provided"),
                         ({ROOT: File(None, may_create=False)}, ROOT, "the user data directory cannot be created"),
                         ({ROOT: File("d"), DIR: File(None, may_create=False)}, ROOT, "the mcbopomofo directory cannot be created")):
        st = L.created(fs, ud)
        sl = slots(st.ts[0])
        check_slots(rep, "nodir", "src/LanguageModelLoader.cpp LanguageModelLoader::LanguageModelLoader", text, sl,
                    {"languageModel_": mk("m", "locate", DATA), "associatedPhrasesV2_": mk("m", "locate", ASSOC)})
        st2, f = L.step(st, after(fs, st), "reloadUserModelsIfNeeded")
        for s in ("userPhrases_", "excludedPhrases_", "phraseReplacement_"):
            if any(isinstance(e, tuple) for e in slots(st2.ts[0]).get(s, [])):
                rep.violation("nodir:" + s, "src/LanguageModelLoader.cpp", "%s: %s is still loaded: %s" % (text, s, ev_text(slots(st2.ts[0])[s])))
    # the dictionary of each mode
    modes = modes_of(P)
    st = L.created({ROOT: File("d"), DIR: File("d")})
    for name, v, data in modes:
        st2, f = L.step(st, after({}, st), "loadModelForMode", {f_param(P): const(v)})
        where = "src/%s loadModelForMode" % f["l"]
        want = {s: None for s in ("userPhrases_", "excludedPhrases_", "phraseReplacement_", "associatedPhrasesV2_")}
        want["languageModel_"] = mk("m", "locate", data)
        check_slots(rep, "mode:" + name, where, "loading the dictionary for mode " + name, slots(st2.ts[0]), want)
    replaced(P, rep)
    activation(P, rep, modes)
    rep.need("loader runs judged", 100)
    rep.need("additions judged", 10)
    rep.need("activations judged", 4)
    return {"functions": sorted(f for f in L.I.stats["functions"]), "runs": L.steps}


def replaced(P, rep):
    """Closing a slot and opening a file leaves exactly that file's content; when it does not open, nothing."""
    rep.rule("after close() and open(file) a slot holds exactly what that file holds, and nothing if it does not open")
    for q, (r, mf) in sorted(parts.owners(P).items()):
        if q not in PARTS:
            continue
        vf = parts.view_fields(P, r, mf)
        short = q.split("::")[-1]
        for loaded in (True, False):
            for opens in (True, False):
                rs, I, f = parts.run_part(P, q, "close", opens, loaded)
                for s, v in rs:
                    rs2, I2, f2 = parts.run_part(P, q, "open", opens, nparam=1, first="char", start=(s, I))
                    for s2, v2 in rs2:
                        rep.count("reopened slots judged")
                        where = "src/%s %s::open" % (f2["l"], short)
                        text = "%s is closed and opened again" % short
                        path = mk("param", f2["q"], f2["params"][0]["n"])
                        ops = [e for e in s2.ts[3] if e[0] == "open"]
                        if not ops or ops[-1][1] is not path:
                            rep.violation("slot:path:" + q, where, "%s: the file mapped is %s, not the one given" % (text, show(ops[-1][1]) if ops else "none"))
                        got = [x for fd in vf for x in parts.content(I2, s2, fd)]
                        new = parts.mk("bytes", s2.ts[0])
                        if opens and s2.ts[0] is None:
                            rep.violation("slot:kept:" + q, where, "%s: the file is not mapped although it opens" % text)
                        elif opens and (not got or any(new not in subterms(x) for y in got for x in (y if isinstance(y, tuple) else (y,)) for x in parts_of(x))):
                            rep.violation("slot:content:" + q, where, "%s: it then holds %s, not the content of the file" % (text, parts.text(tuple(got))))
                        elif not opens and got:
                            rep.violation("slot:old:" + q, where, "%s, the file cannot be read: it still holds %s" % (text, parts.text(tuple(got))))
    rep.need("reopened slots judged", 16)


def parts_of(x):
    return x if isinstance(x, tuple) else (x,)


def modes_of(P):
    e = P.enums.get("McBopomofo::McBopomofo::InputMode") or next((x for q, x in P.enums.items() if q.endswith("::InputMode")), None)
    if e is None:
        raise AnalysisError("anchor vanished: the input modes")
    v = {c["n"]: int(c["v"]) for c in e["consts"]}
    return [("McBopomofo", v["McBopomofo"], DATA), ("PlainBopomofo", v["PlainBopomofo"], PLAIN)]


def f_param(P):
    return eng.method(P, LML, "loadModelForMode")["params"][0]["n"]


class Activate(Client):
    """McBopomofoEngine::activate: the mode bookkeeping, everything else opaque."""
    num = True
    merge_limit = 6

    def __init__(self, P, eng_cls):
        self.P = P
        self.cls = eng_cls

    def init_ts(self):
        return ()

    def key(self, I, st):
        return st.ts

    def opaque(self, I, fn):
        if not fn["repo"]:
            return True
        if fn.get("cls") == self.cls:
            return False
        return not (fn.get("cls") == KH and fn["q"].split("::")[-1] in ("inputMode", "setInputMode"))

    def on_call(self, I, st, c):
        n = c.q.split("::")[-1]
        if c.q.startswith(LML + "::") and n in ("loadModelForMode", "reloadUserModelsIfNeeded"):
            a = I.resolve(st, c.args[0]) if c.args else None
            st.ts = st.ts + ((n, cval(a) if a is not None and isc(a) else show(a) if a is not None else None),)
            return [(st, VOID)]
        if n == "setInputMode" and c.q.startswith(KH):
            a = I.resolve(st, c.args[0])
            st.ts = st.ts + (("set", cval(a) if isc(a) else show(a)),)
            return None
        if n == "inputMode" and c.q.startswith(KH):
            return [(st, self.current(st))]
        if n == "uniqueName":
            t = mk("Tmp", "unique name")
            st.store[t] = const(self.name)
            return [(st, mk("lref", t))]
        return None

    def current(self, st):
        v = self.mode
        for e in st.ts:
            if e[0] == "set":
                v = e[1]
        return const(v) if isinstance(v, int) else mk("r", "mode")


def activation(P, rep, modes):
    ec = eng.engine_class(P)
    ec = ec if isinstance(ec, str) else ec[0]
    f = eng.method(P, ec, "activate")
    where = "src/%s activate" % f["l"]
    by = {"PlainBopomofo": b"mcbopomofo-plain", "McBopomofo": b"mcbopomofo"}
    for cur, cv, _ in modes:
        for new, nv, _ in modes:
            C = Activate(P, ec)
            C.name, C.mode = by[new], cv
            I = Interp(P, C)
            for st, v in eng.run_fn(I, C, f):
                rep.count("activations judged")
                loads = [e[1] for e in st.ts if e[0] == "loadModelForMode"]
                text = "switching from %s to %s" % (cur, new)
                if cv != nv and (not loads or loads[-1] != nv) or loads and loads[-1] != nv:
                    rep.violation("activate:load", where, "%s: the dictionary loaded is %s" % (text, loads or "the old one"))
                if C.current(st) is not const(nv):
                    rep.violation("activate:mode", where, "%s leaves the key handler in the other mode" % text)
                if not any(e[0] == "reloadUserModelsIfNeeded" for e in st.ts):
                    rep.violation("activate:reload", where, "%s: changed user files are not looked for" % text)
    # the mode before the first activation is the one whose dictionary the loader starts with
    r = P.records[KH]
    init = [x for x in r["fields"] if x["q"].endswith("::inputMode_")]
    ok = False
    if init and init[0].get("init"):
        n = init[0]["init"]
        from program import walk
        vals = [x.get("v") for x in walk(n) if x.get("v") is not None]
        ok = str(dict((m[0], m[1]) for m in modes)["McBopomofo"]) in [str(v) for v in vals]
        if not ok:
            rep.violation("activate:initial", "src/KeyHandler.h inputMode_", "the key handler starts in a mode whose dictionary is not the one the loader starts with")
    rep.inst("initial mode", "src/KeyHandler.h")
