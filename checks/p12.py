"""P12: the user's files are only appended to or created when missing; records are complete and in the reader's order."""
import eng, models
from program import walk, AnalysisError
from terms import *
from interp import *
from loader import *
from shape import Shape, flat
import p24
from common import TRUSTED
TECHNIQUE = "abstract interpretation of the loader against a finite file-system domain, explored to a fixed point: every open for writing, its mode, and the symbolic content written are compared with the specified ones; an effect scan of every function of the library for other calls that change files; abstract evaluation of the reader of the same records"
ASSUMPTIONS = TRUSTED + ["phrases and readings contain neither blanks nor newlines of their own", "an output file opened in append mode writes at its end, whole on flush or close", "nothing else writes the files between the check for a missing file and its creation"]
NOTE = "Static: every reachable abstract loader state x presence, ending and time stamp of the user files; contents symbolic."

MUTATING = {"std::filesystem::remove": 0, "std::filesystem::remove_all": 0, "std::filesystem::rename": 0, "std::filesystem::resize_file": 0,
            "std::filesystem::copy": 0, "std::filesystem::copy_file": 0, "std::filesystem::last_write_time": 2, "std::filesystem::permissions": 0,
            "std::filesystem::create_symlink": 0, "std::filesystem::create_hard_link": 0,
            "remove": 0, "rename": 0, "unlink": 0, "unlinkat": 0, "truncate": 0, "ftruncate": 0, "creat": 0, "mkstemp": 0, "tmpfile": 0,
            "std::remove": 0, "std::rename": 0, "fwrite": 0, "fputs": 0, "fputc": 0, "fprintf": 0, "write": 0, "pwrite": 0, "freopen": 0,
            "std::fwrite": 0, "std::fputs": 0, "std::fprintf": 0, "std::freopen": 0, "rmdir": 0, "std::system": 0, "sendfile": 0}
O_ACCMODE, O_CREAT, O_TRUNC = 3, 0o100, 0o1000


def open_for_writing(n):
    """(does this call open a file for writing or change one, what it is)"""
    fn = n.get("fn")
    if not fn or not fn.get("q"):
        return None
    q = fn["q"]
    a = n.get("args", [])
    b = q.split("::")[-1].split("<")[0]
    if q in MUTATING:
        if q.endswith("last_write_time") and not any("file_time" in p or "time_point" in p for p in fn.get("pt", [])):
            return None
        return q
    if q in ("fopen", "std::fopen", "fopen64", "fdopen", "freopen") and len(a) > 1:
        lits = [x["s"] for x in walk(a[1]) if x.get("s") is not None]
        if lits and all(not set(s) & set("wa+") for s in lits):
            return None
        return q
    if q in ("open", "open64", "openat") and len(a) > 1:
        v = a[1 if q != "openat" else 2].get("v")
        if v is not None and not int(v) & (O_ACCMODE | O_CREAT | O_TRUNC):
            return None
        return q
    if ("basic_ofstream" in q or "basic_fstream" in q) and (b in ("basic_ofstream", "basic_fstream", "open")):
        return q
    if "basic_filebuf" in q and b == "open":
        return q
    return None


class Reader(Shape):
    """UserPhrasesLM::load over records whose two columns are symbols."""
    exact_sets = True
    split_unroll = True

    def __init__(self, P, k):
        Shape.__init__(self, P, lambda f: f["repo"])
        self.k = k

    def init_ts(self):
        return 0

    def model(self, I, st, c):
        q, n = c.q, c.q.split("::")[-1]
        if q.startswith("McBopomofo::KeyValueBlobReader::"):
            if c.ctor:
                return [(st, mk("r", "reader"))]
            if n == "Next":
                i = st.ts
                st.ts = i + 1
                names = {x["n"]: int(x["v"]) for x in self.P.enums["McBopomofo::KeyValueBlobReader::State"]["consts"]}
                if i >= self.k:
                    return [(st, const(names["END"]))]
                p = I.resolve(st, c.args[0])
                l = p.a[0] if p.op == "p" else mk("S", p)
                kv = "McBopomofo::KeyValueBlobReader::KeyValue::"
                I.wr(st, mk("F", l, kv + "key"), mk("m", "column", 1, i), c.node)
                I.wr(st, mk("F", l, kv + "value"), mk("m", "column", 2, i), c.node)
                return [(st, const(names["HAS_PAIR"]))]
        return None


def read_order(P, rep):
    """The reader of user phrase files finds the first column (the phrase) under the second (the reading)."""
    q = "McBopomofo::UserPhrasesLM"
    f = eng.method(P, q, "load")
    where = "src/%s UserPhrasesLM::load" % f["l"]
    C = Reader(P, 1)
    I = Interp(P, C)
    this = mk("this")

    def prep(I, st, c):
        st.facts[mk("==", c.args[0], NULL)] = False
        for fd in P.records[q]["fields"]:
            if "map<" in fd["t"]:
                I.storev(st, mk("F", mk("S", this), fd["q"]), mk("map", ()))
    n = 0
    for st, v in eng.run_fn(I, C, f, prep, over={f["params"][1]["n"]: const(10)}):
        maps = [x for k, x in st.store.get(mk("S", this), mk("s", q, (), None)).a[1] if x.op == "map"]
        n += 1
        got = [(k, flat_items(x)) for m in maps for k, x in m.a[0]]
        want = [(mk("m", "column", 2, 0), (mk("m", "column", 1, 0),))]
        if got != want:
            rep.violation("reader", where, "a line of the user's file is stored as %s; the phrase (first column) must be found under the reading (second column)" % (
                ", ".join("%s -> %s" % (show(k), ", ".join(show(y) for y in x)) for k, x in got) or "nothing"))
    rep.count("reader evaluations", n)
    rep.need("reader evaluations", 1)


def flat_items(v):
    return tuple(v.a[0]) if v.op == "vec" else (v,)


def is_header(parts, name):
    return len(parts) == 1 and isinstance(parts[0], T) and name in show(parts[0], 0, 3).split(",")[0]


def param(f, i):
    return mk("param", f["q"], "&" + f["params"][i]["n"])


def run(prog, rep, tier):
    P = prog
    L = Loader(P)
    rep.rule("a file is opened for writing only to append, or when it does not exist")
    rep.rule("an addition appends exactly phrase, blank, reading, newline, on a line of its own")
    rep.rule("a file is written only by an addition (the user phrases) or to create it with its header")
    rep.rule("after an addition the file is closed and the user phrases are read again")
    rep.rule("no other function opens a file for writing, renames, truncates or removes one")
    rep.rule("the reader finds the first column under the second")
    seen_writers = set()

    def where_of(e):
        return e[-1] if isinstance(e[-1], str) and ":" in e[-1] else "src/LanguageModelLoader.cpp"

    def verdict(w, fs, fs2, st, f, kind):
        ev = st.ts[0]
        rep.count("loader runs judged")
        what = {"created": "creating the loader", "reload": "a reload", "add": "adding a phrase"}[kind]
        text = "%s (%s)" % (what, ", ".join(p24.situation(fs, p) for p in FILES))
        for e in ev:
            if e[0] == "damage":
                rep.violation("damage:" + kind, where_of(e), "%s: %s on %s" % (text, e[1], e[2] if not isinstance(e[2], bytes) else e[2].decode()))
            if e[0] == "wopen":
                seen_writers.add(e[4])
                if e[1] not in (USER, EXCL) or kind == "reload" or kind == "add" and e[1] != USER:
                    rep.violation("wrong file:" + kind, where_of(e), "%s: %s is opened for writing" % (text, e[1].decode()))
        writes = [e for e in ev if e[0] == "write"]
        if kind == "created":
            for p, name in ((USER, "userPhraseFileHeader"), (EXCL, "excludedPhraseFileHeader")):
                mine = [e for e in writes if e[1] == p]
                if fs.get(p) and fs[p].kind:
                    if mine:
                        rep.violation("create:exists", where_of(mine[0]), "%s: %s already exists and is written to" % (text, p.decode()))
                    continue
                rep.count("files created")
                parts = tuple(x for e in mine for x in e[2])
                if not is_header(parts, name):
                    rep.violation("create:header", "src/LanguageModelLoader.cpp", "%s: the missing %s is created with %s; it must hold its header" % (
                        text, p.decode(), ", ".join(show(x) if isinstance(x, T) else repr(x) for x in parts) or "nothing"))
        if kind == "add":
            where = "src/%s addUserPhrase" % f["l"]
            u = fs.get(USER)
            if not (u and u.kind):
                if any(e[0] in ("wopen", "write") for e in ev):
                    rep.count("additions that create the file")
                else:
                    rep.count("additions without a file")
                    return
            rep.count("additions judged")
            parts = []
            for e in writes:
                if e[1] == USER:
                    for x in e[2]:
                        if isinstance(x, bytes) and parts and isinstance(parts[-1], bytes):
                            parts[-1] += x
                        else:
                            parts.append(x)
            ph, rd = [mk("obj", param(f, i)) for i in (1, 0)]
            want = [ph, b" ", rd, b"\n"]
            if u and u.kind and u.tail not in (None, "\n"):
                want = [b"\n"] + want
            if parts != want:
                rep.violation("record", where, "%s, the file %s: what is appended is %s; it must be %s" % (
                    text, "ends in the middle of a line" if len(want) == 5 else "ends with a complete line", text_of(parts), text_of(want)))
            o = [i for i, e in enumerate(ev) if e[0] == "open" and e[1] == "userPhrases_"]
            wi = [i for i, e in enumerate(ev) if e[0] == "write"]
            if wi and (not o or o[-1] < wi[-1]):
                rep.violation("reload", where, "%s: the phrase is not available afterwards: the user phrases are not read again once the record is in the file" % text)

    def text_of(parts):
        return "nothing" if not parts else " + ".join(repr(x.decode()) if isinstance(x, bytes) else show(x).split("&")[-1] for x in parts)

    rep.count("abstract loader states", p24.explore(rep, P, L, tier, verdict))
    # where the directories are missing they are made, and the files with them
    full = {ROOT: File("d"), DIR: File("d")}
    for fs, text, ok in (({}, "neither directory exists", True), ({ROOT: File("d")}, "the mcbopomofo directory does not exist", True),
                         (full, "both directories exist", True),
                         ({ROOT: File(None, may_create=False)}, "the user data directory cannot be created", False),
                         ({ROOT: File("d"), DIR: File(None, may_create=False)}, "the mcbopomofo directory cannot be created", False),
                         (dict(full, **{}), "the files cannot be created", None)):
        if ok is None:
            fs = dict(full)
            fs[USER] = File(None, may_open=False)
            fs[EXCL] = File(None, may_open=False)
        for st in L.all(L.created(fs)):
            ev = st.ts[0]
            rep.count("directory situations judged")
            made = {e[1] for e in ev if e[0] == "write"}
            if ok and made != {USER, EXCL}:
                rep.violation("missing:files", "src/LanguageModelLoader.cpp LanguageModelLoader::LanguageModelLoader", "%s: the files created are %s; the user phrase and exclusion files must be" % (
                    text, ", ".join(sorted(p.decode() for p in made)) or "none"))
            if not ok and made:
                rep.violation("missing:other", "src/LanguageModelLoader.cpp LanguageModelLoader::LanguageModelLoader", "%s, yet %s is written" % (text, ", ".join(p.decode() for p in made)))
            if ok is not True:
                st2, f = L.step(st, after(st), "addUserPhrase")
                if any(e[0] in ("wopen", "damage") for s2 in L.all(st2) for e in s2.ts[0]):
                    rep.violation("missing:add", "src/%s addUserPhrase" % f["l"], "%s: an addition still opens a file for writing" % text)
    # nobody else changes files
    for f in P.functions.values():
        if not f["repo"] or not f.get("body"):
            continue
        for n in walk([f.get("body"), f.get("inits")]):
            w = open_for_writing(n)
            rep.counts["calls scanned"] = rep.counts.get("calls scanned", 0) + (1 if n.get("fn") else 0)
            if w is None:
                continue
            where = "src/%s" % n.get("l", f["l"])
            if where in seen_writers or n.get("l") in {x.split("src/")[-1] for x in seen_writers}:
                rep.inst("writers of files", "%s %s" % (where, f["q"]))
                continue
            rep.violation("writer:%s:%s" % (f["q"].split("(")[0], w), where, "%s calls %s, which can change a file, outside the evaluated additions and creations" % (f["q"].split("(")[0], w))
    read_order(P, rep)
    rep.need("additions judged", 10)
    rep.need("files created", 4)
    rep.need("writers of files", 1)
    rep.need("directory situations judged", 6)
    return {"functions": sorted(L.I.stats["functions"]), "runs": L.steps}


FILES = (USER, EXCL, REPL)


def after(st):
    return {p: f for p, f in st.ts[1]}
