"""P11: files, descriptors, mappings and parsed documents are released exactly once on every path, and only if acquired."""
import eng, models, shape
from program import walk
from terms import *
from interp import *
from shape import *
from common import TRUSTED
TECHNIQUE = "typestate of system resources: the mapping owner is abstractly evaluated over every success/failure outcome of open, fstat and mmap for all sequences of its operations up to a fixed point; every other acquisition site is found in the source and each path from it followed to its release"
ASSUMPTIONS = TRUSTED + ["close, fclose and munmap release their resource whatever they return", "mmap of length 0 fails (POSIX)"]
NOTE = "Static: MemoryMappedFile {open, close, move construction, move assignment (also to itself), destruction} on two objects x outcomes to a fixed point; each other acquisition site along all paths."

MMF = "McBopomofo::MemoryMappedFile"
OPEN = {"open": "fd", "open64": "fd", "openat": "fd", "creat": "fd", "fopen": "file", "fopen64": "file", "fdopen": "file", "freopen": "file",
        "popen": "file", "tmpfile": "file", "opendir": "dir", "json_tokener_parse": "json", "json_tokener_parse_verbose": "json",
        "json_object_from_file": "json", "json_object_from_fd": "json", "json_tokener_new": "tok", "mmap": "map", "mmap64": "map"}
FREE = {"close": "fd", "fclose": "file", "pclose": "file", "closedir": "dir", "json_object_put": "json", "json_tokener_free": "tok", "munmap": "map"}
NAMES = {"fd": "file descriptor", "file": "file", "dir": "directory", "json": "parsed document", "tok": "parser", "map": "mapping"}
FD, SIZE = 3000000, 1000000
OBS = (mk("ob", "A"), mk("ob", "B"))
MAPF = const(-1)


def strip(q):
    return (q or "").lstrip(":")


class Maps(Shape):
    """ts = (open descriptors ((n, size)...), mappings ((n, length)...), next number, events)"""
    split_unroll = True
    exact_sets = True

    def __init__(self, P):
        Shape.__init__(self, P, lambda f: f["repo"])

    def init_ts(self):
        return ((), (), 0, ())

    def ev(self, st, *e):
        st.ts = st.ts[:3] + (st.ts[3] + (e,),)

    def model(self, I, st, c):
        q = strip(c.q)
        fds, maps, n, ev = st.ts
        w = I.where(c.node)
        a = lambda i: I.resolve(st, c.args[i])
        if q in ("open", "open64", "openat", "creat"):
            s2 = st.copy()
            self.ev(s2, "fail", "open fails", w)
            out = [(s2, const(-1))]
            for size in (0, SIZE + n):
                s = st.copy()
                s.ts = (fds + ((n, size),), maps, n + 1, ev)
                self.ev(s, "note", "open succeeds (%s)" % ("empty file" if not size else "file with content"), w)
                out.append((s, const(FD + n)))
            return out
        if q in ("fstat", "fstat64"):
            d = self.fd(st, a(0))
            if d is None:
                self.ev(st, "bad", "fstat of %s" % self.what(st, a(0), "fd"), w)
                return [(st, const(-1))]
            s2 = st.copy()
            self.ev(s2, "fail", "fstat fails", w)
            p = a(1)
            l = I.ptr_loc(p)
            I.wr(st, mk("F", l, "stat::st_size"), const(d[1]), c.node)
            return [(st, const(0)), (s2, const(-1))]
        if q in ("lseek", "lseek64"):
            d = self.fd(st, a(0))
            if d is None:
                self.ev(st, "bad", "lseek of %s" % self.what(st, a(0), "fd"), w)
                return [(st, const(-1))]
            s2 = st.copy()
            self.ev(s2, "fail", "lseek fails", w)
            return [(st, const(d[1])), (s2, const(-1))]
        if q in ("mmap", "mmap64"):
            d = self.fd(st, a(4))
            s2 = st.copy()
            self.ev(s2, "fail", "mmap fails", w)
            out = [(s2, MAPF)]
            if d is None:
                self.ev(s2, "bad", "mmap of %s" % self.what(st, a(4), "fd"), w)
                return out
            ln = a(1)
            if ln.op != "c":
                raise AnalysisError("%s: the length given to mmap is not known: %s" % (w, show(ln)))
            if ln.a[0] != d[1]:
                self.ev(st, "bad", "a mapping of another length than the file's", w)
                self.ev(s2, "bad", "a mapping of another length than the file's", w)
            if ln.a[0] > 0:
                m = mk("map", n)
                st.facts[mk("==", m, NULL)] = st.facts[mk("==", NULL, m)] = False
                st.facts[mk("==", m, MAPF)] = st.facts[mk("==", MAPF, m)] = False
                st.ts = (fds, maps + ((n, ln.a[0]),), n + 1, st.ts[3])
                self.ev(st, "note", "mmap succeeds", w)
                out.append((st, m))
            return out
        if q == "close":
            d = self.fd(st, a(0))
            if d is None:
                self.ev(st, "bad", "close of %s" % self.what(st, a(0), "fd"), w)
            else:
                st.ts = (tuple(x for x in fds if x != d), maps, n, ev)
            return [(st, const(0))]
        if q == "munmap":
            m, ln = a(0), a(1)
            d = next((x for x in maps if m.op == "map" and x[0] == m.a[0]), None)
            if d is None:
                self.ev(st, "bad", "munmap of %s" % self.what(st, m, "map"), w)
            else:
                if ln is not const(d[1]):
                    self.ev(st, "bad", "munmap with another length than was mapped", w)
                st.ts = (fds, tuple(x for x in maps if x != d), n, st.ts[3])
            return [(st, const(0))]
        if q in ("madvise", "posix_madvise", "posix_fadvise", "mlock", "munlock", "fcntl", "flock", "__errno_location", "perror", "strerror"):
            return [(st, mk("m", q, const(n)))]
        return None

    def fd(self, st, v):
        if v.op == "c" and isinstance(v.a[0], int):
            for x in st.ts[0]:
                if FD + x[0] == v.a[0]:
                    return x
        return None

    def what(self, st, v, kind):
        if kind == "fd" and v is const(-1) or kind == "map" and v is MAPF:
            return "a %s that was never opened" % NAMES[kind]
        if v is NULL or v is ZERO:
            return "null"
        return "a %s that is no longer open" % NAMES[kind]


def fields_of(P):
    r = P.records.get(MMF)
    if r is None:
        raise AnalysisError("anchor vanished: " + MMF)
    return r["fields"]


def canon_state(vals, ts):
    """Renumber the resources of a state."""
    ren = {}

    def num(n):
        return ren.setdefault(n, len(ren))

    def val(v):
        if v.op == "map":
            return mk("map", num(v.a[0]))
        if v.op == "c" and type(v.a[0]) is int:
            x = v.a[0]
            if FD <= x < FD + 100000:
                return const(FD + num(x - FD))
            if SIZE <= x < SIZE + 100000:
                return const(SIZE + num(x - SIZE))
        return v
    vals = tuple(tuple(val(v) for v in o) for o in vals)

    def size(s):
        return s if s < SIZE else SIZE + num(s - SIZE)
    fds = tuple(sorted((num(n), size(s)) for n, s in sorted(ts[0])))
    maps = tuple(sorted((num(n), size(s)) for n, s in sorted(ts[1])))
    return vals, fds, maps, len(ren)


class Explore:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.fields = fields_of(P)
        self.fns = {}
        for f in P.functions.values():
            if f.get("cls") != MMF or f.get("body") is None and not f.get("ctor"):
                continue
            n = base_name(f["q"])
            if f.get("ctor"):
                n = "ctor%d" % len(f["params"])
            self.fns.setdefault(n, []).append(f)
        self.steps = 0

    def pick(self, n, nparam=None):
        for f in self.fns.get(n, ()):
            if nparam is None or len(f["params"]) == nparam:
                return f
        raise AnalysisError("anchor vanished: %s::%s" % (MMF, n))

    def fresh(self):
        """The values of a default-constructed object."""
        out = []
        for f in self.fields:
            t, i = f["t"], f.get("init")
            v = None
            if i is not None:
                v = const_of(i)
            if v is None:
                raise AnalysisError("%s is not initialised where it is declared" % f["q"])
            out.append(NULL if is_ptr(t) and v is ZERO else v)
        return tuple(out)

    def run(self, fn, vals, fds, maps, nxt, this, arg=None):
        C = Maps(self.P)
        I = Interp(self.P, C)
        C.I = I
        st = I.new_state()
        st.ts = (fds, maps, nxt, ())
        for k in (0, 1):
            for f, v in zip(self.fields, vals[k]):
                I.storev(st, mk("F", mk("S", OBS[k]), f["q"]), v)
            st.facts[mk("==", OBS[k], NULL)] = False
        st.facts[mk("==", OBS[0], OBS[1])] = st.facts[mk("==", OBS[1], OBS[0])] = False
        for n, _ in maps:
            m = mk("map", n)
            for x, y in ((m, NULL), (NULL, m), (m, MAPF), (MAPF, m)):
                st.facts[mk("==", x, y)] = False
        for x in (OBS[0], OBS[1]):
            for k in (0, 1):
                p = mk("p", mk("S", OBS[k]))
                if x is not OBS[k]:
                    st.facts[mk("==", x, p)] = st.facts[mk("==", p, x)] = False
        C.entry = fn["q"].split("(")[0]
        c = eng.bind(I, fn, OBS[this], st)
        if arg is not None:
            loc = mk("S", OBS[arg])
            c.alocs = (loc,)
            c.args = (I.load(st, loc),)
        elif fn["params"]:
            c.args = (mk("param", fn["q"], "path"),)
        out = []
        for s, v in I.inline(st, fn, c, c.node):
            nv = tuple(tuple(I.resolve(s, I.load(s, mk("F", mk("S", OBS[k]), f["q"]))) for f in self.fields) for k in (0, 1))
            out.append((nv, s.ts, I.resolve(s, v) if v is not None else VOID))
        self.steps += I.steps
        return out

    def go(self):
        rep = self.rep
        start = (self.fresh(), self.fresh())
        first = canon_state(start, ((), ()))
        todo, seen, how = [first], {first}, {first: ()}
        op = self.pick("open")
        cl = self.pick("close")
        mv = self.pick("operator=", 1)
        ct = self.pick("ctor1")
        dt = self.pick("~MemoryMappedFile")
        rep.count("functions analysed", 5)
        data = self.pick("data")
        length = self.pick("length")
        while todo:
            cur = todo.pop(0)
            vals, fds, maps, n = cur
            rep.count("states of two mappings", 1)
            path = how[cur]
            ops = [("open %s" % "AB"[i], op, i, None) for i in (0, 1)]
            ops += [("close %s" % "AB"[i], cl, i, None) for i in (0, 1)]
            ops += [("%s = move(%s)" % ("AB"[i], "AB"[j]), mv, i, j) for i in (0, 1) for j in (0, 1)]
            for name, fn, i, j in ops:
                for nv, ts, ret in self.run(fn, vals, fds, maps, n, i, j):
                    self.step(cur, name, fn, i, nv, ts, ret, todo, seen, how, op is fn, vals, data, length)
            # destruction of one, then a new one made from the other
            for nv, ts, ret in self.run(dt, vals, fds, maps, n, 0):
                self.events(path + ("destroy A",), ts, dt)
                v2 = (self.fresh(), nv[1])
                for nv2, ts2, _ in self.run(ct, v2, ts[0], ts[1], ts[2], 0, 1):
                    self.step(cur, "destroy A; A(move(B))", ct, 0, nv2, ts2, VOID, todo, seen, how, False, vals, data, length)
                for nv2, ts2, _ in self.run(dt, nv, ts[0], ts[1], ts[2], 1):
                    self.events(path + ("destroy A", "destroy B"), ts2, dt)
                    left = ["%s" % NAMES["fd"] for _ in ts2[0]] + [NAMES["map"] for _ in ts2[1]]
                    if left:
                        rep.violation("leak@%s" % left[0], "src/Engine/MemoryMappedFile.cpp", "after %s a %s is still open with no object left to release it" % (
                            ", ".join(path + ("the destruction of both objects",)), left[0]), None)
            if len(seen) > 400:
                raise AnalysisError("the states of MemoryMappedFile do not converge")
        rep.need("states of two mappings", 3)
        return self.steps

    def events(self, path, ts, fn):
        for e in ts[3]:
            if e[0] == "bad":
                self.rep.violation("misuse@" + e[1].split(" of ")[0], e[2], "%s, after %s" % (e[1], ", ".join(path)), [" ".join(x) for x in ts[3]])

    def step(self, cur, name, fn, i, nv, ts, ret, todo, seen, how, opening, old, data, length):
        rep = self.rep
        path = how[cur] + (name,)
        rep.count("operations evaluated", 1)
        self.events(path, ts, fn)
        where = "src/%s" % fn["l"] if ":" in str(fn["l"]) else "src/Engine/MemoryMappedFile.cpp:%s" % fn["l"]
        if opening:
            fresh = len([e for e in ts[3] if e[0] in ("note", "fail")]) > 0
            new = [m for m in ts[1] if m not in cur[2]]
            if ret is TRUE and fresh:
                if not new:
                    rep.violation("open@true", where, "open() reports success but nothing is mapped, after " + ", ".join(path), [" ".join(x) for x in ts[3]])
            elif ret is FALSE or ret is ZERO:
                if new or len(ts[0]) > len(cur[1]):
                    rep.violation("open@kept", where, "open() reports failure but keeps what it opened, after " + ", ".join(path), [" ".join(x) for x in ts[3]])
            elif ret is TRUE:
                if not cur[2] or not any(mk("map", m[0]) in nv[i] for m in cur[2]):
                    rep.violation("open@true", where, "open() reports success but nothing is mapped, after " + ", ".join(path), [" ".join(x) for x in ts[3]])
            else:
                raise AnalysisError("%s: the result of open() is not known: %s" % (where, show(ret)))
        # what the accessors say
        for k in (0, 1):
            d = self.run(data, nv, ts[0], ts[1], ts[2], k)[0][2]
            ln = self.run(length, nv, ts[0], ts[1], ts[2], k)[0][2]
            rep.count("accessor results", 1)
            if d is NULL or d is ZERO:
                if ln is not ZERO and ln is not const(0):
                    rep.violation("length@closed", where, "%s has no data but the length %s, after %s" % ("AB"[k], self.text(ln), ", ".join(path)), [" ".join(x) for x in ts[3]])
                continue
            m = next((x for x in ts[1] if d.op == "map" and x[0] == d.a[0]), None)
            if m is None:
                rep.violation("data@dead", where, "data() of %s is not an open mapping but %s, after %s" % (
                    "AB"[k], "MAP_FAILED" if d is MAPF else "the address of one that was unmapped", ", ".join(path)), [" ".join(x) for x in ts[3]])
            elif ln is not const(m[1]):
                rep.violation("length@other", where, "length() of %s is not that of its mapping, after %s" % ("AB"[k], ", ".join(path)), [" ".join(x) for x in ts[3]])
        nxt = canon_state(nv, ts)
        if any(m.op == "map" and sum(m in o for o in nxt[0]) > 1 for o in nxt[0] for m in o):
            rep.violation("shared", where, "two objects hold the same mapping, after " + ", ".join(path), [" ".join(x) for x in ts[3]])
            return
        if nxt not in seen:
            seen.add(nxt)
            how[nxt] = path
            todo.append(nxt)

    def text(self, t):
        return "of a mapping" if t.op == "c" and isinstance(t.a[0], int) and SIZE <= t.a[0] < SIZE + 100000 else show(t)


def const_of(n):
    """The constant value of an initialiser."""
    while isinstance(n, dict):
        if "v" in n and n["v"] is not None:
            try:
                return const(int(n["v"]))
            except (TypeError, ValueError):
                return None
        if n.get("k") in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL
        if n.get("k") == "UnaryOperator" and n.get("op") == "-":
            v = const_of((n.get("c") or [n.get("e")])[0])
            return const(-v.a[0]) if v is not None else None
        c = [x for x in (n.get("c") or [n.get("e")]) if x]
        if len(c) != 1:
            return None
        n = c[0]
    return None


# ---------------------------------------------------------------- every other acquisition
class Res(Shape):
    """ts = (outstanding resources, released ones, events)"""
    merge_limit = 4
    scope_end = True

    def __init__(self, P, fns):
        Shape.__init__(self, P, lambda f: f["key"] in fns or f["repo"] and f.get("lambda"))
        self.sites = set()

    def init_ts(self):
        return (frozenset(), frozenset(), ())

    def key(self, I, st):
        return st.ts

    def on_alloc(self, I, st, *a):
        pass

    def bad(self, st, what, where):
        if (what, where) not in st.ts[2]:
            st.ts = st.ts[:2] + (st.ts[2] + ((what, where),),)

    def fresh(self, I, st, kind, c, site):
        o, r, e = st.ts
        v = mk("res", kind, site, I.where(c.node))
        if v in o:      # acquired again in a loop while the first is open
            self.bad(st, "a %s is acquired again while the first is still open" % NAMES[kind], I.where(c.node))
        st.ts = (o | {v}, r - {v}, st.ts[2])
        for x, y in ((v, NULL), (NULL, v), (v, const(-1)), (const(-1), v), (v, ZERO), (ZERO, v)):
            st.facts[mk("==", x, y)] = False
        return v

    def model(self, I, st, c):
        q = strip(c.q)
        w = I.where(c.node)
        if q in OPEN:
            self.sites.add((q, w))
            kind = OPEN[q]
            for a in c.args:
                self.use(I, st, q, a, w)
            s2 = st.copy()
            fail = const(-1) if kind in ("fd", "map") else NULL
            return [(s2, fail), (st, self.fresh(I, st, kind, c, I.site(c.node) if hasattr(I, "site") else w))]
        if q in FREE:
            return self.free(I, st, q, c.args[0], w, c)
        if q.startswith(("json_", "array_list_")) or q in STDIO:
            for a in c.args:
                self.use(I, st, q, a, w)
            if q == "json_object_object_get_ex":
                s2 = st.copy()
                I.storev(st, I.ptr_loc(I.resolve(st, c.args[2])), mk("json", eng.strip_copy(I.resolve(st, c.args[0])), eng.strip_copy(I.resolve(st, c.args[1]))))
                return [(st, TRUE), (s2, FALSE)]
            if q.startswith(("json_", "array_list_")):
                return [(st, VOID if strip_type(c.rt) == "void" else mk("m", q, *[eng.strip_copy(I.resolve(st, x)) for x in c.args]))]
        return None

    def use(self, I, st, q, a, w):
        v = eng.strip_copy(I.resolve(st, a))
        rs = [t for t in subterms(v) if t.op == "res"]
        for t in rs:
            if t in st.ts[1]:
                self.bad(st, "%s of a %s that has been released" % (q, NAMES[t.a[0]]), w)
        if v is NULL and (q in STDIO):
            self.bad(st, "%s of a file that could not be opened" % q, w)

    def free(self, I, st, q, a, w, c):
        v = eng.strip_copy(I.resolve(st, a))
        o, r, e = st.ts
        if v in o:
            st.ts = (o - {v}, r | {v}, e)
        elif v in r:
            self.bad(st, "%s releases a %s a second time" % (q, NAMES[v.a[0]]), w)
        elif v is NULL:
            if FREE[q] in ("file", "dir"):
                self.bad(st, "%s of a %s that could not be opened" % (q, NAMES[FREE[q]]), w)
        elif v.op == "c":
            self.bad(st, "%s of a %s that could not be opened" % (q, NAMES[FREE[q]]), w)
        elif any(t.op == "res" for t in subterms(v)) and FREE[q] == "json":
            self.bad(st, "%s releases a part of a document it does not own" % q, w)
        return [(st, mk("m", q, mk("site", w)) if strip_type(c.rt) != "void" else VOID)]

    def on_scope_end(self, I, st, loc, v, node):
        """A smart pointer with a deleter of its own releases what it holds."""
        v = I.resolve(st, v)
        if v in st.ts[0] and v.op == "res":
            t = I.ltype.get(loc) if hasattr(I, "ltype") else None
            t = t or self.types.get(loc.a[1] if loc.op == "L" else None, "")
            if "unique_ptr" in t or "shared_ptr" in t:
                o, r, e = st.ts
                st.ts = (o - {v}, r | {v}, e)


STDIO = {"fseek", "ftell", "fread", "fgets", "fgetc", "getc", "fwrite", "fputs", "fprintf", "feof", "ferror", "fflush", "rewind", "fscanf",
         "fileno", "fseeko", "ftello", "fputc", "ungetc", "getline", "read", "write", "readdir", "fstat", "lseek"}


def sites_of(P):
    """Acquisitions outside the mapping owner: function key -> [(callee, line)]"""
    out = {}
    for f in P.functions.values():
        if not f["repo"] or f.get("body") is None or f.get("cls") == MMF:
            continue
        for n in walk([f["body"], f.get("inits") or []]):
            fn = n.get("fn")
            if isinstance(fn, dict) and strip(fn.get("q")) in OPEN and not fn.get("cls"):
                out.setdefault(f["key"], []).append((strip(fn["q"]), n.get("l")))
    return out


def local_types(P, f, out):
    for n in walk([f["body"]]):
        for d in n.get("decls") or ():
            if isinstance(d, dict) and "d" in d:
                out[d["d"]] = d.get("t") or ""


def escapes(I, st, v, ret):
    """Does an object, or the result, keep this resource?"""
    if ret is not None and any(t is v for t in subterms(I.resolve(st, ret))):
        return "result"
    for l, x in st.store.items():
        root = l
        while root.op == "F":
            root = root.a[0]
        if root.op == "L":
            continue
        if isinstance(x, T) and any(t is v for t in subterms(x)):
            return "object"
    return None


def others(P, rep):
    rep.rule("an acquired file or document is released once on every path from its acquisition, and not used afterwards")
    rep.rule("what could not be opened is neither used nor released")
    sites = sites_of(P)
    by = {f["key"]: f for f in P.functions.values()}
    callers = {}
    for f in P.functions.values():
        if not f["repo"] or f.get("body") is None:
            continue
        for n in walk([f["body"], f.get("inits") or []]):
            fn = n.get("fn")
            if isinstance(fn, dict):
                callers.setdefault(fn.get("u"), set()).add(f["key"])
    steps, done, inl = 0, set(), set(sites)
    todo = sorted(sites)
    for k in todo:
        for q, l in sites[k]:
            rep.inst("acquisition sites", "%s %s" % (l, q))
    while todo:
        k = todo.pop(0)
        if k in done:
            continue
        done.add(k)
        f = by[k]
        # helpers given the resource are followed
        helpers = {g["key"] for g in P.functions.values() if g["repo"] and g.get("body") is not None and
                   any(h in (p.get("t") or "") for p in g["params"] for h in ("FILE", "json_object", "DIR", "_IO_FILE"))}
        C = Res(P, inl | helpers | {k})
        C.types = {}
        for kk in inl | helpers | {k}:
            local_types(P, by[kk], C.types)
        I = Interp(P, C)
        C.I = I
        this = mk("this")
        rep.count("functions analysed", 1)
        for st, v in eng.run_fn(I, C, f):
            rep.count("paths", 1)
            for what, where in st.ts[2]:
                rep.violation("misuse@%s@%s" % (base_name(f["q"]), what.split(" ")[0]), where, what, trace_list(st, 10))
            for r in st.ts[0]:
                e = escapes(I, st, r, v)
                if e == "result":
                    for ck in callers.get(f.get("u"), ()):
                        if ck not in done:
                            todo.append(ck)
                            inl.add(k)
                elif e is None:
                    rep.violation("leak@%s@%s" % (base_name(f["q"]), r.a[0]), r.a[2], "the %s acquired here is not released on a path through %s" % (
                        NAMES[r.a[0]], f["q"]), trace_list(st, 10))
        steps += I.steps
    return steps


def run(prog, rep, tier):
    rep.rule("MemoryMappedFile: each descriptor is closed once and each mapping unmapped once with its own address and length; after destruction nothing is open")
    rep.rule("MemoryMappedFile: open() returns true exactly when a file was mapped; otherwise data() is null and length() 0 and nothing stays open")
    X = Explore(prog, rep)
    s = X.go()
    s += others(prog, rep)
    rep.need("acquisition sites", 1)
    return {"states": rep.counts.get("states of two mappings", 0), "steps": s}
