"""The language model loader evaluated against a finite abstraction of the file system: which files exist, whether their
time stamp can be read, whether it differs from the recorded one, how their content ends.  Contents stay symbolic."""
import eng, models
from terms import *
from interp import *
from shape import *

LML = "McBopomofo::LanguageModelLoader"
TSP = "McBopomofo::TimestampedPath"
LM = "McBopomofo::McBopomofoLM"
KH = "McBopomofo::KeyHandler"
PARTS = ("McBopomofo::ParselessLM", "McBopomofo::UserPhrasesLM", "McBopomofo::PhraseReplacementMap",
         "McBopomofo::AssociatedPhrasesV2")
OPAQUE = PARTS + ("McBopomofo::InputMacroController",)
APP, ATE, BINARY, IN, OUT, TRUNC = 1, 2, 4, 8, 16, 32
ROOT, DIR = b"/U", b"/U/mcbopomofo"
STREAMS = ("std::basic_ofstream<", "std::basic_fstream<", "std::basic_ifstream<", "std::ofstream", "std::fstream",
           "std::ifstream", "std::basic_ostream<", "std::basic_istream<", "std::basic_ios<", "std::ostream", "std::istream")
FRESH = 90                                   # time stamps of files written during the run


class File:
    """What the run knows about one path: kind 'f' file, 'd' directory, None absent."""
    def __init__(self, kind=None, mtime=0, err=False, tail="\n", size=10, may_create=True, may_open=True):
        self.kind, self.mtime, self.err, self.tail, self.size = kind, mtime, err, tail, size
        self.may_create, self.may_open = may_create, may_open

    def copy(self, **kw):
        f = File(self.kind, self.mtime, self.err, self.tail, self.size, self.may_create, self.may_open)
        for k, v in kw.items():
            setattr(f, k, v)
        return f


class Files(Shape):
    """st.ts = (events, files): files is a tuple of (path, File)."""
    scope_end = True

    def __init__(self, P, fs, userdir=ROOT, transparent=None):
        Shape.__init__(self, P, transparent or (lambda f: f["repo"] and f.get("cls") not in OPAQUE))
        self.fs = fs
        self.userdir = userdir

    def init_ts(self):
        return ((), tuple(sorted(self.fs.items(), key=lambda x: x[0])))

    WRITES = [0]

    def now(self):
        self.WRITES[0] += 1
        return FRESH + 10 * self.WRITES[0] + 5

    # ---- the file system
    def file(self, st, p):
        for k, f in st.ts[1]:
            if k == p:
                return f
        return File()

    def change(self, st, p, **kw):
        fs = dict(st.ts[1])
        fs[p] = self.file(st, p).copy(**kw)
        st.ts = (st.ts[0], tuple(sorted(fs.items(), key=lambda x: x[0])))

    def ev(self, st, *e):
        st.ts = (st.ts[0] + (e,), st.ts[1])

    def path(self, I, st, v, node):
        v = I.resolve(st, v)
        if v.op in ("lref", "ref"):
            v = I.resolve(st, I.load(st, v.a[0]))
        if v.op == "p":
            v = I.resolve(st, self.at(I, st, v.a[0]))
        if v.op == "s":
            for k, x in v.a[1]:
                if k.endswith("path_"):
                    v = x
        if v is NULL or v.op == "m" and v.a[0] == "locate":
            return v
        if v.op == "c" and isinstance(v.a[0], (bytes, str)):
            return v.a[0] if isinstance(v.a[0], bytes) else v.a[0].encode()
        raise AnalysisError("%s: a path that is not evaluated: %s" % (I.where(node), show(v, 0, 4)))

    def at(self, I, st, l):
        if l.op == "E" and isc(l.a[1]) and cval(l.a[1]) == 0:
            l = l.a[0]
        return I.load(st, l)

    def set_err(self, I, st, c, i, on):
        if len(c.args) > i and c.alocs[i] is not None:
            I.wr(st, c.alocs[i], mk("errcode", TRUE if on else FALSE), c.node)

    # ---- library calls
    def model(self, I, st, c):
        q, n, a = models.canon(c.q), models.canon(c.q).split("::")[-1], c.args
        if c.q.startswith("std::filesystem::") and "path::" not in c.q:
            return self.fs_call(I, st, c, n, a)
        if c.q.startswith("std::error_code::") or c.q.startswith("std::error_condition::"):
            if c.ctor:
                return None
            v = I.load(st, c.objloc)
            v = v.a[0] if v.op == "errcode" else FALSE
            if n in ("operator bool",):
                return [(st, v)]
            if n == "value":
                return [(st, const(1) if v is TRUE else ZERO)]
            if n == "clear":
                I.wr(st, c.objloc, mk("errcode", FALSE), c.node)
                return [(st, VOID)]
            return None
        if c.q.startswith("std::chrono::operator") and len(a) == 2:
            x, y = self.time(I, st, a[0]), self.time(I, st, a[1])
            if x is not None and y is not None:
                r = {"operator==": x == y, "operator!=": x != y, "operator<": x < y, "operator>": x > y,
                     "operator<=": x <= y, "operator>=": x >= y}.get(n.split("<std")[0])
                if r is not None:
                    return [(st, TRUE if r else FALSE)]
            raise AnalysisError("%s: a comparison of times that is not evaluated: %s %s" % (I.where(c.node), show(a[0]), show(a[1])))
        if c.q.startswith("std::chrono::time_point<"):
            if c.ctor:
                return [(st, a[0] if a else ZERO)]
            if n in ("min", "time_since_epoch"):
                return [(st, ZERO if n == "min" else I.load(st, c.objloc))]
        if q.startswith("std::string_path::"):
            if c.ctor:
                return [(st, I.resolve(st, a[0]))] if a else [(st, const(b""))]
            l, v = models.obj(I, st, c)
            if n in ("string", "u8string", "native", "generic_string", "operator basic_string", "c_str"):
                return [(st, v)]
            if n == "empty":
                return [(st, TRUE if self.path(I, st, v, c.node) == b"" else FALSE)]
            if n in ("operator/=", "append", "operator+=", "concat"):
                x = self.path(I, st, v, c.node)
                y = self.path(I, st, a[0], c.node)
                I.wr(st, l, const(x + (b"/" if n in ("operator/=", "append") and x and not x.endswith(b"/") else b"") + y), c.node)
                return [(st, mk("lref", l))]
            if n in ("parent_path", "filename"):
                x = self.path(I, st, v, c.node)
                i = x.rfind(b"/")
                return [(st, const(x[:i] if n == "parent_path" else x[i + 1:]))]
        if q == "std::filesystem::operator/" and len(a) == 2:
            return [(st, const(self.path(I, st, a[0], c.node) + b"/" + self.path(I, st, a[1], c.node)))]
        if c.q.startswith(("fcitx::LogMessageBuilder", "fcitx::Log::", "mcbopomofo_log")):
            return [(st, mk("r", "log"))]
        if c.q == "fcitx::StandardPath::locate":
            x = [self.path(I, st, v, c.node) for v in a[1:2]]
            r = mk("m", "locate", x[0])
            st.facts[mk("==", r, NULL)] = False
            return [(st, r)]
        if c.q == "fcitx::StandardPath::userDirectory":
            return [(st, const(self.userdir))]
        if (c.fn.get("cls") or "") in PARTS and not c.ctor:
            return self.part(I, st, c, n, a)
        if c.q.startswith(STREAMS):
            return self.stream(I, st, c, n, a)
        if q == "std::operator<<" and len(a) == 2 and c.alocs[0] is not None:
            v = I.load(st, c.alocs[0])
            if v.op in ("ofs", "ref"):
                return self.put(I, st, c, c.alocs[0], a[1], c.atypes[1])
        if q in ("std::endl", "std::flush"):
            l = c.alocs[0]
            if l is not None and I.load(st, l).op == "ofs":
                if n == "endl":
                    self.add(I, st, l, const(b"\n"), c.node)
                self.flush(I, st, l, c.node)
                return [(st, mk("lref", l))]
        if q == "std::remove" and len(a) == 1 or q in ("remove", "unlink", "rename", "truncate"):
            self.ev(st, "damage", c.q, tuple(show(x) for x in a), I.where(c.node))
            return [(st, ZERO)]
        return None

    def time(self, I, st, v):
        v = I.resolve(st, v)
        if v.op in ("lref", "ref"):
            v = I.resolve(st, I.load(st, v.a[0]))
        if v.op in ("c",) and isinstance(v.a[0], int):
            return v.a[0]
        if v.op in ("ctor", "s", "default", "list") or v is VOID:
            return 0
        return None

    def fs_call(self, I, st, c, n, a):
        if n == "operator/":
            return [(st, const(self.path(I, st, a[0], c.node) + b"/" + self.path(I, st, a[1], c.node)))]
        if n in ("operator==", "operator!="):
            return None
        if n in ("exists", "is_directory", "is_regular_file", "last_write_time", "create_directory", "create_directories",
                 "file_size", "is_empty") and len(a) <= 2:
            p = self.path(I, st, a[0], c.node)
            f = self.file(st, p)
            if len(a) == 1:
                self.ev(st, "throws", n, p, I.where(c.node))
            self.set_err(I, st, c, 1, False)
            if n == "exists":
                return [(st, TRUE if f.kind else FALSE)]
            if n in ("is_directory", "is_regular_file"):
                return [(st, TRUE if f.kind == ("d" if n == "is_directory" else "f") else FALSE)]
            if n == "last_write_time":
                self.set_err(I, st, c, 1, f.err or not f.kind)
                return [(st, const(-999999 if f.err or not f.kind else f.mtime))]
            if n in ("create_directory", "create_directories"):
                if f.kind:
                    return [(st, FALSE)]
                i = p.rfind(b"/")
                up = p[:i] and p[:i] != b"" and self.file(st, p[:i])
                ok = f.may_create and (n == "create_directories" or not up or p[:i] in (b"",) or up.kind == "d")
                if p == ROOT:
                    ok = f.may_create
                self.set_err(I, st, c, 1, not ok)
                if ok:
                    self.change(st, p, kind="d")
                self.ev(st, "mkdir", p, ok)
                return [(st, TRUE if ok else FALSE)]
            if n == "file_size":
                return [(st, const(f.size if f.tail is not None else 0))]
            return [(st, TRUE if not f.size else FALSE)]
        if n in ("is_symlink", "is_other", "is_fifo", "is_socket", "equivalent", "hard_link_count", "status", "symlink_status",
                 "read_symlink", "space", "absolute", "canonical", "weakly_canonical", "relative", "type", "permissions_of"):
            # a query: whatever it answers
            self.set_err(I, st, c, len(a) - 1, False) if len(a) > 1 and n not in ("equivalent", "relative") else None
            return [(st, mk("r", c.q, I.site(c.node)))]
        self.ev(st, "damage", c.q, tuple(show(I.resolve(st, x)) for x in a), I.where(c.node))
        return None

    def part(self, I, st, c, n, a):
        slot = c.objloc.a[1].split("::")[-1] if c.objloc is not None and c.objloc.op == "F" else None
        if n in ("open", "close", "load") and slot:
            if n == "open" and (c.atypes[0] or "").startswith("const char *"):
                self.ev(st, n, slot, self.path(I, st, a[0], c.node))
                return [(st, mk("r", "opened", slot))]
            self.ev(st, n, slot)
            return [(st, VOID if n == "close" else mk("r", "opened", slot))]
        if n == "isLoaded":
            return [(st, mk("r", "loaded", slot or "?"))]
        return None

    # ---- file streams
    def is_stream(self, v):
        return v.op in ("ofs", "ifs")

    def open_stream(self, I, st, c, kind, a, loc):
        """kind: 'o' or 'i'.  The value of the stream."""
        p = self.path(I, st, a[0], c.node)
        mode = 0
        if len(a) > 1:
            m = I.resolve(st, a[1])
            if not (isc(m) and isinstance(cval(m), int)):
                raise AnalysisError("%s: an open mode that is not evaluated: %s" % (I.where(c.node), show(m, 0, 4)))
            mode = cval(m)
        f = self.file(st, p)
        if kind == "i":
            return mk("ifs", p, const(0), TRUE if f.kind == "f" else FALSE)
        up = p[:p.rfind(b"/")]
        ok = f.may_open and (f.kind == "f" or not f.kind and self.file(st, up).kind == "d" and not (mode & IN and not mode & (OUT | TRUNC)))
        existed = f.kind
        extends = bool(mode & APP) or bool(mode & IN and mode & ATE and not mode & TRUNC)
        if existed and not extends:
            self.ev(st, "damage", "opening for writing without append", p, I.where(c.node))
        if ok:
            self.ev(st, "wopen", p, mode, existed, I.where(c.node))
            if not existed:
                self.change(st, p, kind="f", mtime=self.now(), tail=None, size=0)
        return mk("ofs", p, (), TRUE if ok else FALSE)

    def stream(self, I, st, c, n, a):
        if c.ctor:
            kind = "i" if "ifstream" in c.ctor or "istream" in c.ctor else "o"
            if "fstream" not in c.ctor:
                return None
            if not a:
                return [(st, mk("ifs" if kind == "i" else "ofs", NULL, const(0) if kind == "i" else (), FALSE))]
            return [(st, self.open_stream(I, st, c, kind, a, None))]
        if c.objloc is None:
            return None
        l = c.objloc
        v = I.load(st, l)
        if v.op in ("ref", "lref"):
            l = v.a[0]
            v = I.load(st, l)
        if not self.is_stream(v):
            return None
        ok = v.a[2]
        if n in ("operator bool", "good", "is_open", "operator!", "fail", "bad", "eof"):
            return [(st, ok if n in ("operator bool", "good", "is_open") else I.mknot(ok))]
        if n == "open":
            I.wr(st, l, self.open_stream(I, st, c, "i" if v.op == "ifs" else "o", a, l), c.node)
            return [(st, VOID)]
        if n in ("close", "flush"):
            if v.op == "ofs":
                self.flush(I, st, l, c.node, n == "close")
            return [(st, VOID if n == "close" else mk("lref", l))]
        if v.op == "ofs":
            if n == "operator<<":
                if "(*" in c.atypes[0]:
                    x = I.resolve(st, a[0])
                    if "endl" in show(x):
                        self.add(I, st, l, const(b"\n"), c.node)
                    self.flush(I, st, l, c.node)
                    return [(st, mk("lref", l))]
                return self.put(I, st, c, l, a[0], c.atypes[0])
            if n == "put":
                return self.put(I, st, c, l, a[0], "char")
            if n == "write":
                x = self.chars(I, st, a[0], a[1])
                if x is not None:
                    self.add(I, st, l, x, c.node)
                    return [(st, mk("lref", l))]
            raise AnalysisError("%s: an operation on an output file that is not modelled: %s" % (I.where(c.node), n))
        p, pos, ok = v.a
        f = self.file(st, p) if p is not NULL else File()
        size = 0 if f.tail is None else f.size
        if n in ("seekg", "tellg") and ok is FALSE:
            return [(st, mk("lref", l) if n == "seekg" else const(-1))]
        if n == "seekg":
            o = [I.resolve(st, x) for x in a]
            if not all(isc(x) and isinstance(cval(x), int) for x in o):
                raise AnalysisError("%s: a file position that is not evaluated" % I.where(c.node))
            base = 0 if len(o) == 1 else {0: 0, 1: cval(pos), 2: size}.get(cval(o[1]), 0)
            to = base + cval(o[0])
            I.wr(st, l, mk("ifs", p, const(max(to, 0)), FALSE if to < 0 else TRUE), c.node)
            return [(st, mk("lref", l))]
        if n == "tellg":
            return [(st, pos)]
        if n in ("get", "peek", "read"):
            i = cval(pos)
            if ok is FALSE or i >= size:
                I.wr(st, l, mk("ifs", p, pos, FALSE), c.node)
                return [(st, mk("lref", l) if a else const(-1))]
            ch = const(ord(f.tail)) if i == size - 1 else mk("m", "byte", p, pos)
            if n != "peek":
                I.wr(st, l, mk("ifs", p, const(i + 1), ok), c.node)
            if a and n == "get" and len(a) == 1 and c.alocs[0] is not None:
                I.wr(st, c.alocs[0], ch, c.node)
                return [(st, mk("lref", l))]
            if n == "read" and I.resolve(st, a[0]).op == "p" and I.resolve(st, a[1]) is const(1):
                I.wr(st, I.resolve(st, a[0]).a[0], ch, c.node)
                return [(st, mk("lref", l))]
            if not a:
                return [(st, ch)]
        raise AnalysisError("%s: an operation on an input file that is not modelled: %s" % (I.where(c.node), n))

    def chars(self, I, st, p, k):
        p = I.resolve(st, p)
        v = self.at(I, st, p.a[0]) if p.op == "p" else p
        return v

    def put(self, I, st, c, l, x, t):
        v = I.load(st, l)
        if v.op in ("ref", "lref"):
            l = v.a[0]
            v = I.load(st, l)
        x = I.resolve(st, x)
        if x.op in ("lref", "ref"):
            x = I.resolve(st, I.load(st, x.a[0]))
        if x.op == "p":
            x = I.resolve(st, self.at(I, st, x.a[0]))
        t = models.norm(t)
        if t == "char" and isc(x):
            x = const(bytes([cval(x) & 255]))
        self.add(I, st, l, x, c.node)
        return [(st, mk("lref", l))]

    def add(self, I, st, l, x, node):
        v = I.load(st, l)
        if v.op != "ofs":
            raise AnalysisError("%s: writing to a file that cannot be followed" % I.where(node))
        if v.a[2] is TRUE:
            I.wr(st, l, mk("ofs", v.a[0], v.a[1] + flat(x), TRUE), node)

    def flush(self, I, st, l, node, close=False):
        v = I.load(st, l)
        if v.op != "ofs" or v.a[2] is not TRUE:
            return
        if v.a[1]:
            parts = []
            for x in v.a[1]:
                if isinstance(x, bytes) and parts and isinstance(parts[-1], bytes):
                    parts[-1] += x
                else:
                    parts.append(x)
            self.ev(st, "write", v.a[0], tuple(parts), I.where(node))
            t = parts[-1]
            self.change(st, v.a[0], mtime=self.now(), err=False,
                        tail=chr(t[-1]) if isinstance(t, bytes) else "?", size=20)
        if close:
            self.ev(st, "wclose", v.a[0])
        I.storev(st, l, mk("ofs", v.a[0], (), FALSE if close else TRUE))

    def on_scope_end(self, I, st, loc, v, node):
        if v.op == "ofs":
            self.flush(I, st, loc, node, True)
            I.storev(st, loc, mk("ofs", v.a[0], (), FALSE))

    def on_opaque(self, I, st, c):
        if c.q.startswith(("std::filesystem", "std::basic_ofstream", "std::basic_fstream", "std::basic_ifstream")):
            raise AnalysisError("%s: a call that is not modelled: %s" % (I.where(c.node), c.q))


def slots(events):
    """slot -> the events in it, in order: 'close' or ('open', path)."""
    out = {}
    for e in events:
        if e[0] in ("open", "close", "load"):
            out.setdefault(e[1], []).append(e[0] if e[0] != "open" else ("open", e[2]))
    return out


def reloaded(evs, path):
    """The slot ends up holding exactly the content of path: closed, then opened once."""
    return "close" in evs and evs[-1] == ("open", path) and "close" in evs[:-1] and evs.count(("open", path)) >= 1 and \
        not any(isinstance(e, tuple) for e in evs[len(evs) - 1 - evs[::-1].index("close"):-1])


THIS = mk("this")
BASE = mk("S", THIS)
USER, EXCL, REPL = DIR + b"/data.txt", DIR + b"/exclude-phrases.txt", DIR + b"/phrases-replacement.txt"
DATA, PLAIN, ASSOC = b"data/mcbopomofo-data.txt", b"data/mcbopomofo-data-plain-bpmf.txt", b"data/mcbopomofo-associated-phrases-v2.txt"


def fld(cls, n):
    return cls + "::" + n


class Loader:
    """Runs the loader's public methods one after another, the file system changing in between."""

    def __init__(self, P):
        self.P = P
        self.n = 0
        self.I = None
        self.steps = 0

    def interp(self, userdir):
        C = Files(self.P, {}, userdir)
        C.entry = LML
        self.I = I = Interp(self.P, C)
        C.I = I
        return I, C

    def created(self, fs, userdir=ROOT):
        """The states a newly made loader can be in."""
        I, C = self.interp(userdir)
        C.fs = fs
        ctors = [f for f in self.P.functions.values() if f.get("ctor") and f.get("cls") == LML and f.get("body") is not None
                 and len(f["params"]) == 1 and "LocalizedStrings" in f["pt"][0]]
        if len(ctors) != 1:
            raise AnalysisError("anchor vanished: the constructor of the language model loader")
        st = I.new_state()
        st.ts = C.init_ts()
        c = eng.bind(I, ctors[0], THIS, st)
        return self.one(I.inline(st, ctors[0], c, c.node), ctors[0])

    def one(self, rs, f):
        self.steps += 1
        ends = {}
        for s, v in rs:
            ends.setdefault(s.ts[0], s)
        if not ends or len(ends) > 16:
            raise AnalysisError("%s: %d different courses of events for one file system" % (f["q"], len(ends)))
        ends = list(ends.values())
        # what the code asks beyond the modelled facts (is it a symbolic link, ...) may go either way: all are judged
        self.others = ends[1:]
        return ends[0]

    def step(self, st, fs, name, over=None):
        I = self.I
        s = st.copy()
        s.ts = ((), tuple(sorted(fs.items(), key=lambda x: x[0])))
        f = eng.method(self.P, LML, name)
        c = eng.bind(I, f, THIS, s, over)
        return self.one(I.inline(s, f, c, c.node), f), f

    def all(self, st):
        """The end states of the last run, all of which are judged."""
        return [st] + self.others

    def key(self, st, fs):
        """The loader's own state, time stamps seen relative to the files' present ones."""
        names = {}
        for p, f in sorted(fs.items(), key=lambda x: x[0]):
            if f.mtime:
                names.setdefault(f.mtime, (p, f.kind))

        def f(x):
            if x.op == "c" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool) and x.a[0] >= FRESH:
                n = names.get(x.a[0])
                return mk("stamp", *(n or ("old",)))
            return None
        vals = []
        for l, v in st.store.items():
            if l is BASE or v.op == "s" and v.a[0] == LM:
                vals.append((show(l), show(rename(v, f), 0, 60)))
        return (tuple(sorted(vals)), tuple(sorted((p, f.kind, f.err) for p, f in fs.items())))
