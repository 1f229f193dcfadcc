"""Abstract interpreter over the extracted program.

Path-sensitive forward dataflow in the style of property simulation: abstract
states carry a functional store of hash-consed terms, a set of branch facts,
optional difference constraints, and the client's typestate; states are merged
when the client's typestate agrees.  Repo functions are inlined, everything
else is a term constructor or an opaque effect.
"""
from terms import *
from program import AnalysisError
import re

MAX_DEPTH = 40
DEBUG_LOOP = False


class St:
    __slots__ = ("store", "facts", "eq", "num", "ts", "ret", "trace", "types", "exc")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.eq = {}
        self.num = None
        self.ts = None
        self.ret = None
        self.trace = None
        self.exc = None

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.eq = dict(self.eq)
        s.num = self.num.copy() if self.num is not None else None
        s.ts = self.ts
        s.ret = self.ret
        s.trace = self.trace
        s.exc = self.exc
        return s


def trace_list(st, n=30):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        out.append(t[1])
        t = t[0]
    return list(reversed(out))


class Call:
    __slots__ = ("q", "fn", "node", "this", "objloc", "args", "alocs", "atypes", "ctor", "rt", "op")

    def __repr__(self):
        return "Call(%s)" % self.q


def sum_terms(t):
    """The terms of a floating-point sum, zeros left out."""
    if t.op == "op" and t.a[0] == "+":
        return sum_terms(t.a[1]) + sum_terms(t.a[2])
    return [] if t.op == "c" and t.a[0] == 0 else [t]


def sum_of(ts):
    r = None
    for t in sorted(ts, key=lambda t: t.id):
        r = t if r is None else mk("op", "+", r, t)
    return mk("c", 0.0) if r is None else r


def known_functions():
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.txt")) as f:
        return frozenset(f.read().split("\n"))


KNOWN = known_functions()


class Client:
    """Overridable hooks. `ts` of a state must stay hashable."""
    num = False
    thresholds = None                         # a set: upper bounds that widening may stop at
    positions = False                         # merged iterators into one container stay positions in it
    merge_limit = 24

    def fits(self, I, st, v, typ):
        """Is the value known to the client to be representable in the (unsigned) type?"""
        return False

    def merged(self, I, st, key):
        """A state joined from states that all have this key."""

    unroll = 300
    split_unroll = False         # unroll decided loops even when their body splits the state

    scope_end = False                     # call on_scope_end for each local variable whose block ends

    def on_scope_end(self, I, st, loc, v, node):
        pass

    def init_ts(self):
        return ()

    def opaque(self, I, fn):
        return False

    def on_call(self, I, st, call):
        return None

    def after_call(self, I, st, call, val):
        pass

    def on_enter(self, I, st, fn, call):
        pass

    def on_exit(self, I, st, fn, call):
        pass

    def on_read(self, I, st, loc, node):
        pass

    def on_write(self, I, st, loc, val, node):
        pass

    def on_deref(self, I, st, ptr, node):
        pass

    def on_index(self, I, st, loc, idx, node, kind):
        pass

    def on_usub(self, I, st, a, b, node):
        pass

    def key(self, I, st):
        return st.ts

    def virtual_targets(self, I, st, call):
        return None

    def on_opaque(self, I, st, call):
        """An external or opaque call is about to be applied."""
        pass


_phis = {}


def phis(t):
    r = t.u
    if r is None:
        s = set()
        if t.op in ("phi", "it"):
            s.add(t)
        for x in t.a:
            if isinstance(x, T):
                s |= phis(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        s |= phis(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                s |= phis(z)
        r = frozenset(s)
        t.u = r
    return r


def base_name(q):
    return q.split("::")[-1]


def strip_type(t):
    t = t.strip()
    while True:
        o = t
        for suf in ("&&", "&"):
            if t.endswith(suf):
                t = t[:-len(suf)].strip()
        if t.startswith("const "):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6]
        if t == o:
            return t


def strip_ptr(t):
    t = strip_type(t)
    if t.endswith("*const"):
        t = t[:-5]
    if t.endswith("*"):
        return strip_type(t[:-1])
    return t


def is_ref(t):
    return t.endswith("&")


def is_ptr(t):
    return strip_type(t).rstrip().endswith("*") or strip_type(t).endswith("*const")


def nonconst_ref(t):
    """Whether a parameter of this type lets the callee modify the argument."""
    t = t.strip()
    if t.endswith("&&"):
        return True
    if t.endswith("&"):
        inner = t[:-1].strip()
        return not (inner.startswith("const ") or inner.endswith(" const") or inner.endswith("*const"))
    return False


def nonconst_ptr(t):
    t = t.strip()
    if t.endswith("*const"):
        t = t[:-5].strip()
    if t.endswith("*"):
        inner = t[:-1].strip()
        return not (inner.startswith("const ") or inner.endswith("const"))
    return False


UNSIGNED = {"unsigned long", "unsigned int", "unsigned short", "unsigned char", "unsigned long long", "size_t",
            "char16_t", "char32_t", "std::size_t"}
INTS = UNSIGNED | {"int", "long", "short", "char", "signed char", "long long", "wchar_t"}
WIDTH = {"unsigned long": 64, "unsigned int": 32, "unsigned short": 16, "unsigned char": 8, "unsigned long long": 64,
         "int": 32, "long": 64, "short": 16, "char": 8, "signed char": 8, "long long": 64, "char16_t": 16, "char32_t": 32, "wchar_t": 32}


class Interp:
    def __init__(self, prog, client):
        self.P = prog
        self.C = client
        self.ctx = mk("ctx", "root")
        self.stack = []
        self.nid = {}
        self.steps = 0
        self.utype = set()       # terms known unsigned
        self.stats = {"functions": set(), "calls": 0, "branches": 0, "states": 0, "derefs": 0}
        self.max_steps = 3_000_000
        self.gcache = {}
        self.unknown = {}
        import models
        self.models = models
        import purity
        self.purity = prog.__dict__.setdefault("_purity", purity.Purity(prog))

    # ------------------------------------------------------------ utilities
    def site(self, node):
        i = node.get("_i")
        if i is None:
            i = node["_i"] = len(self.nid)
            self.nid[i] = node
        return i

    def where(self, node):
        l = node.get("l") if node else None
        if l:
            return "src/" + l
        return "?"

    def new_state(self):
        s = St()
        s.ts = self.C.init_ts()
        if self.C.num:
            s.num = Num()
        return s

    def note(self, st, text):
        st.trace = (st.trace, text)

    # ------------------------------------------------------------ store
    def load(self, st, loc):
        op = loc.op
        if op == "F":
            return self.fld(st, self.load(st, loc.a[0]), loc.a[1])
        if op == "E":
            return self.idx(st, self.load(st, loc.a[0]), loc.a[1])
        v = st.store.get(loc)
        if v is not None:
            return v
        if op == "S":
            p = loc.a[0]
            return mk("obj", p)
        if op == "G":
            return self.load_global(st, loc)
        return mk("init", loc)

    def load_global(self, st, loc):
        if loc in self.gcache:
            return self.gcache[loc]
        g = self.P.globals.get(loc.a[0])
        v = mk("glob", loc.a[0])
        q = str(loc.a[0])[2:] if str(loc.a[0]).startswith("G:") else str(loc.a[0])
        for k, n in self.models.CONSTANTS.items():
            if q == k or q.endswith("::npos") and k == "npos":
                v = const(n)
        if g is not None and "init" in g and g.get("const"):
            self.gcache[loc] = v
            s = self.new_state()
            try:
                r = self.ev(g["init"], s)
                if len(r) == 1:
                    v = r[0][1]
            except AnalysisError:
                pass
        self.gcache[loc] = v
        return v

    def fld(self, st, v, f):
        if v.op == "s":
            for k, x in v.a[1]:
                if k == f:
                    return x
            b = v.a[2]
            if b is None:
                return mk("fld", mk("undefobj", v.a[0]), f)
            return self.fld(st, b, f)
        if v.op == "pair":
            n = f.split("::")[-1]
            if n == "first":
                return v.a[0]
            if n == "second":
                return v.a[1]
        if v.op == "ref":
            return self.fld(st, self.load(st, v.a[0]), f)
        return mk("fld", v, f)

    def idx(self, st, v, i):
        if i.op == "c" and isinstance(i.a[0], int):
            n = i.a[0]
            if v.op == "vec" and 0 <= n < len(v.a[0]):
                return v.a[0][n]
            if v.op == "c" and isinstance(v.a[0], bytes):
                b = v.a[0]
                if 0 <= n < len(b):
                    return const(b[n] if b[n] < 128 else b[n] - 256)
                if n == len(b):
                    return const(0)
        if v.op == "map":
            i2 = self.resolve(st, i)
            for k, x in v.a[0]:
                if k is i2:
                    return x
        return mk("idx", v, i)

    def setf(self, v, f, x):
        if v.op == "s":
            fs = dict(v.a[1])
            fs[f] = x
            return mk("s", v.a[0], tuple(sorted(fs.items())), v.a[2])
        return mk("s", "", ((f, x),), v)

    def storev(self, st, loc, val):
        op = loc.op
        if op == "F":
            b = self.load(st, loc.a[0])
            if b.op == "pair":
                n = loc.a[1].split("::")[-1]
                nv = mk("pair", val, b.a[1]) if n == "first" else mk("pair", b.a[0], val)
                self.storev(st, loc.a[0], nv)
                return
            self.storev(st, loc.a[0], self.setf(b, loc.a[1], val))
            return
        if op == "E":
            b = self.load(st, loc.a[0])
            i = self.resolve(st, loc.a[1])
            if b.op == "vec" and isc(i) and isinstance(cval(i), int) and 0 <= cval(i) < len(b.a[0]):
                l = list(b.a[0])
                l[cval(i)] = val
                nv = mk("vec", tuple(l))
            elif b.op == "map" and not isc(i) and any(k is i for k, _ in b.a[0]):
                nv = mk("map", tuple((k, val if k is i else x) for k, x in b.a[0]))
            elif b.op == "map" and isc(i):
                l = [(k, x) for k, x in b.a[0] if k is not i]
                l.append((i, val))
                nv = mk("map", tuple(sorted(l, key=lambda kv: kv[0].id)))
            else:
                nv = mk("upd", b, i, val)
            self.storev(st, loc.a[0], nv)
            return
        st.store[loc] = val

    def root(self, loc):
        while loc.op in ("F", "E"):
            loc = loc.a[0]
        return loc

    def ptr_loc(self, v):
        """Location a pointer value points to."""
        if v.op == "p":
            return v.a[0]
        return mk("S", v)

    # ------------------------------------------------------------ numbers and facts
    def resolve(self, st, v):
        if v.op == "c":
            return v
        e = st.eq.get(v)
        if e is not None:
            return e
        if v.op == "lin":
            c, d = lin_parts(v)
            for k in list(d):
                e = st.eq.get(k)
                if e is not None and isinstance(cval(e), int):
                    c += cval(e) * d.pop(k)
            return lin_make(c, d)
        if v.op in ("==", "<", "not", "isa", "or", "and"):
            r = self.decide(st, v)
            if r is not None:
                return const(r)
        if st.num is not None:
            lo, hi = self.nrange(st, v)
            if lo is not None and lo == hi:
                return const(lo)
        return v

    def nrange(self, st, v):
        c, d = lin_parts(v)
        if not d:
            return c, c
        if len(d) == 1 and st.num is not None:
            (t, k), = d.items()
            if abs(k) == 1:
                self.axioms(st, t)
                up = st.num.get(t, ZERO)
                lo = st.num.get(ZERO, t)
                lo = None if lo is None else -lo
                if k == 1:
                    return (None if lo is None else lo + c), (None if up is None else up + c)
                return (None if up is None else c - up), (None if lo is None else c - lo)
        return None, None

    def axioms(self, st, t):
        """Make sure basic facts about a term are in the difference constraints."""
        if st.num is None:
            return
        if t in st.num.d:
            return
        st.num.ensure(t)
        if t in self.utype or (t.op == "m" and t.a[0] in ("size", "length")) or t.op == "ucast":
            st.num.add(ZERO, t, 0)
        if t.op == "m" and t.a[0] == "found" and len(t.a) >= 3 and t.a[-3].op == "pos" and t.a[-2].op == "pos" and t.a[-3].a[0] is t.a[-2].a[0]:
            # std::find in [a, b): the place found is in [a, b]
            for x, y in ((t.a[-3].a[1], t), (t, t.a[-2].a[1])):
                kx, px = lin_parts(x)
                ky, py = lin_parts(y)
                if len(px) <= 1 and len(py) <= 1 and all(k == 1 for k in list(px.values()) + list(py.values())):
                    vx, vy = (next(iter(p), ZERO) for p in (px, py))
                    for v in (vx, vy):
                        if v is not t and v is not ZERO:
                            self.axioms(st, v)
                    st.num.add(vx, vy, ky - kx)
        if t.op in ("lin",):
            # composite of two variables
            c, d = lin_parts(t)
            items = list(d.items())
            for i, (x, kx) in enumerate(items):
                if kx != 1 or len(items) != 2:
                    continue
                y, ky = items[1 - i]
                if ky != 1:
                    continue
                self.axioms(st, y)
                lo = st.num.get(ZERO, y)
                hi = st.num.get(y, ZERO)
                if lo is not None:
                    st.num.add(x, t, lo)
                if hi is not None:
                    st.num.add(t, x, hi)
            for y, ky in items:
                # x + (z - x) / k lies between x and z
                if ky == 1 and len(items) == 2 and y.op == "op" and y.a[0] in ("/", ">>") and isc(y.a[2]) and isinstance(y.a[2].a[0], int) and y.a[2].a[0] >= (2 if y.a[0] == "/" else 1):
                    x = next(k for k, _ in items if k is not y)
                    z = lin_add(y.a[1], x)
                    zc, zd = lin_parts(z)
                    if d.get(x) == 1 and len(zd) == 1 and list(zd.values()) == [1]:
                        v = next(iter(zd))
                        for lo in (1, 0):
                            u = self.upper(st, lin_add(x, z, -1))
                            if u is not None and u <= -lo:
                                st.num.add(x, t, 0)
                                st.num.add(t, v, zc - lo)
                                break
        if t.op == "op" and t.a[0] == "/" and isc(t.a[2]) and isinstance(t.a[2].a[0], int) and t.a[2].a[0] >= 1:
            u = self.upper(st, lin_scale(t.a[1], -1))
            if u is not None and u <= 0:
                st.num.add(ZERO, t, 0)
        self.models.axioms(self, st, t)

    def diffs(self, v):
        """Normalise a linear form <= c test to (x, y, k): x - y + k, or None."""
        c, d = lin_parts(v)
        most = 8 if self.C.positions else 3
        pos = [t for t, k in d.items() for _ in range(k)] if all(isinstance(k, int) for k in d.values()) and all(0 < k <= most for k in d.values() if k > 0) else None
        if pos is None:
            return None
        neg = []
        for t, k in d.items():
            if k < 0:
                if k < -most:
                    return None
                neg += [t] * (-k)

        def comp(l):
            if not l:
                return ZERO
            if len(l) == 1:
                return l[0]
            m = {}
            for t in l:
                m[t] = m.get(t, 0) + 1
            return lin_make(0, m)
        return comp(pos), comp(neg), c

    def upper(self, st, v):
        """Best known upper bound of the linear form v, or None."""
        if st.num is None:
            c, d = lin_parts(v)
            return c if not d else None
        r = self.diffs(v)
        if r is None:
            return None
        x, y, c = r
        if x is y:
            return c
        self.axioms(st, x)
        self.axioms(st, y)
        b = st.num.get(x, y)
        best = None if b is None else b + c
        # x = p+q, y: try p - y + hi(q)
        xc, xd = lin_parts(x)
        if x.op == "lin" and len(xd) == 2 and xc == 0:
            p, q = list(xd)
            for p, q in ((p, q), (q, p)):
                self.axioms(st, p)
                self.axioms(st, q)
                a = st.num.get(p, y)
                h = st.num.get(q, ZERO)
                if a is not None and h is not None:
                    w = a + h + c
                    best = w if best is None else min(best, w)
                if y.op == "lin":
                    yc, yd = lin_parts(y)
                    if len(yd) == 2:
                        m, n = list(yd)
                        for m, n in ((m, n), (n, m)):
                            self.axioms(st, m)
                            self.axioms(st, n)
                            a = st.num.get(p, m)
                            b2 = st.num.get(q, n)
                            if a is not None and b2 is not None:
                                w = a + b2 + c
                                best = w if best is None else min(best, w)
        elif y.op == "lin":
            yc, yd = lin_parts(y)
            if len(yd) == 2 and yc == 0:
                m, n = list(yd)
                for m, n in ((m, n), (n, m)):
                    self.axioms(st, m)
                    self.axioms(st, n)
                    a = st.num.get(x, m)
                    lo = st.num.get(ZERO, n)
                    if a is not None and lo is not None:
                        w = a + lo + c
                        best = w if best is None else min(best, w)
        return best

    def proves_le(self, st, a, b, c=0):
        """a - b <= c entailed?"""
        v = lin_add(self.resolve(st, a), self.resolve(st, b), -1)
        u = self.upper(st, v)
        if (u is None or u > c) and self.refresh(st):
            u = self.upper(st, v)
        return u is not None and u <= c

    def refresh(self, st):
        """What was learnt about the parts of a sum since it was first named also bounds the sum."""
        return self.refresh2(st)[0]

    def feasible(self, st):
        return self.refresh2(st)[1]

    def refresh2(self, st):
        if st.num is None:
            return False, True
        changed = False
        for t in [t for t in st.num.d if t.op == "lin"]:
            c, d = lin_parts(t)
            if c or len(d) != 2 or any(k != 1 for k in d.values()):
                continue
            x, y = d
            for x, y in ((x, y), (y, x)):
                lo, hi = st.num.get(ZERO, y), st.num.get(y, ZERO)
                for p, q, b in ((x, t, lo), (t, x, hi)):
                    if b is not None:
                        o = st.num.get(p, q)
                        if o is None or o > b:
                            if not st.num.add(p, q, b):
                                return True, False
                            changed = True
        if self.C.positions:
            # sums that share a part differ as their other parts do
            sums = [(t, list(lin_parts(t)[1])) for t in st.num.d if t.op == "lin" and not lin_parts(t)[0]
                    and len(lin_parts(t)[1]) == 2 and all(k == 1 for k in lin_parts(t)[1].values())]
            for t, ps in sums:
                for u, qs in sums:
                    if t is u:
                        continue
                    for x in ps:
                        if x not in qs:
                            continue
                        y, z = ps[ps[0] is x], qs[qs[0] is x]
                        b, o = st.num.get(y, z), st.num.get(t, u)
                        if b is not None and (o is None or o > b):
                            if not st.num.add(t, u, b):
                                return True, False
                            changed = True
        return changed, True

    def add_le(self, st, v):
        """Assume linear form v <= 0. False if infeasible."""
        c, d = lin_parts(v)
        if not d:
            return c <= 0
        if st.num is None:
            return True
        r = self.diffs(v)
        if r is None:
            return True
        x, y, c = r
        self.axioms(st, x)
        self.axioms(st, y)
        ok = st.num.add(x, y, -c)
        if ok:
            # known equal -> constant
            pass
        return ok

    def is_num(self, v):
        return (v.op == "c" and isinstance(v.a[0], int)) or v.op == "lin" or v.op in (
            "m", "fld", "param", "phi", "obj", "idx", "init", "r", "undef", "ucast", "it", "op", "begin", "glob", "wrap", "any", "ptrbase", "item")

    def mkeq(self, a, b):
        if a is b:
            return TRUE
        if isc(a) and isc(b):
            x, y = cval(a), cval(b)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return const(x == y)
            return const(x == y and type(x) == type(y))
        for x, y in ((a, b), (b, a)):
            if y.op == "c":
                if x.op in ("p", "lam") and cval(y) is None:
                    return FALSE
                if x.op == "vec" or x.op == "map":
                    return FALSE
                if x.op in ("==", "<", "isa", "not", "or", "and"):
                    if cval(y) == 0:
                        return self.mknot(x)
                    if cval(y) == 1:
                        return x
        if a.op == "p" and b.op == "p" and a.a[0].op == "E" and b.a[0].op == "E" and a.a[0].a[0] is b.a[0].a[0]:
            return self.mkeq(a.a[0].a[1], b.a[0].a[1])
        if a.op == "rit" and b.op == "rit":
            return self.mkeq(a.a[0], b.a[0])
        if {a.op, b.op} == {"mapit", "mapend"}:
            return FALSE
        if a.op == "p" and b.op == "p":
            if a.a[0].op in ("L", "O", "Tmp", "G") and b.a[0].op in ("L", "O", "Tmp", "G"):
                return FALSE
        d = lin_add(a, b, -1) if (self.is_num(a) and self.is_num(b)) else None
        if d is not None:
            c, ds = lin_parts(d)
            if not ds:
                return const(c == 0)
        if a.op == "c" or (b.op != "c" and a.id > b.id):
            a, b = b, a
        return mk("==", a, b)

    def mklt(self, a, b):
        if isc(a) and isc(b):
            try:
                return const(cval(a) < cval(b))
            except TypeError:
                return mk("<", a, b)
        if a.op == "p" and b.op == "p" and a.a[0].op == "E" and b.a[0].op == "E" and a.a[0].a[0] is b.a[0].a[0]:
            return self.mklt(a.a[0].a[1], b.a[0].a[1])
        if getattr(self.C, "finite", False):
            # sums of finite scores
            if a.op == "c" and a.a[0] in (float("-inf"), -1.7976931348623157e308) or b.op == "c" and b.a[0] == float("inf"):
                return TRUE
            if b.op == "c" and b.a[0] in (float("-inf"), -1.7976931348623157e308) or a.op == "c" and a.a[0] == float("inf"):
                return FALSE
            # exact sums: what both sides have cancels
            x, y = sum_terms(a), sum_terms(b)
            if len(x) + len(y) > 2:
                for t in list(x):
                    if t in y:
                        x.remove(t)
                        y.remove(t)
                if not x and not y:
                    return FALSE
                return mk("<", sum_of(x), sum_of(y))
        c, ds = lin_parts(lin_add(a, b, -1))
        if not ds:
            return const(c < 0)
        return mk("<", a, b)

    def mknot(self, v):
        if isc(v):
            x = cval(v)
            if x is None:
                return TRUE
            if isinstance(x, bytes):
                return FALSE
            return const(not x)
        if v.op == "not":
            return v.a[0]
        if v.op in ("p", "lam"):
            return FALSE
        return mk("not", v)

    def decide(self, st, cond):
        op = cond.op
        if op == "c":
            x = cval(cond)
            if x is None:
                return False
            if isinstance(x, bytes):
                return True
            return bool(x)
        if op in ("p", "lam"):
            return True
        if op == "not":
            r = self.decide(st, cond.a[0])
            return None if r is None else not r
        if op == "or":
            rs = [self.decide(st, x) for x in cond.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if op == "and":
            rs = [self.decide(st, x) for x in cond.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        f = st.facts.get(cond)
        if f is not None:
            return f
        if op == "==":
            a, b = cond.a
            ra, rb = st.eq.get(a, a), st.eq.get(b, b)
            if ra is not a or rb is not b:
                e = self.mkeq(ra, rb)
                if isc(e):
                    return bool(cval(e))
                f = st.facts.get(e)
                if f is not None:
                    return f
            if self.is_num(a) and self.is_num(b):
                d = lin_add(self.resolve_l(st, a), self.resolve_l(st, b), -1)
                c, ds = lin_parts(d)
                if not ds:
                    return c == 0
                if st.num is not None:
                    u = self.upper(st, d)
                    if u is not None and u < 0:
                        return False
                    l = self.upper(st, lin_scale(d, -1))
                    if l is not None and l < 0:
                        return False
                    if u is not None and l is not None and u <= 0 and l <= 0:
                        return True
            return None
        if op == "<":
            a, b = cond.a
            d = lin_add(self.resolve_l(st, a), self.resolve_l(st, b), -1)
            c, ds = lin_parts(d)
            if not ds:
                return c < 0
            if st.num is not None:
                u = self.upper(st, d)
                if u is not None and u < 0:
                    return True
                l = self.upper(st, lin_scale(d, -1))
                if l is not None and l <= 0:
                    return False
            return None
        if op == "isa":
            return self.decide_isa(st, cond.a[0], cond.a[1])
        e = st.eq.get(cond)
        if e is not None:
            return self.decide(st, e)
        return None

    def resolve_l(self, st, v):
        e = st.eq.get(v)
        if e is not None:
            return e
        if v.op == "lin":
            c, d = lin_parts(v)
            for k in list(d):
                e = st.eq.get(k)
                if e is not None and isinstance(cval(e), int):
                    c += cval(e) * d.pop(k)
            return lin_make(c, d)
        return v

    def dynclass(self, st, p):
        """Exact dynamic class of the object a pointer value refers to, if known."""
        if p.op == "p":
            v = self.load(st, p.a[0])
            while v.op == "s":
                if v.a[0]:
                    return v.a[0]
                v = v.a[2]
                if v is None:
                    return None
            if v.op == "dynobj":
                return v.a[0]
        return None

    def decide_isa(self, st, p, cls):
        if p.op == "c":
            return False
        dc = self.dynclass(st, p)
        if dc is not None:
            return self.P.derives(dc, cls)
        n = st.facts.get(mk("==", p, NULL))
        if n is True:
            return False
        neg = False
        for f, val in st.facts.items():
            if f.op == "isa" and f.a[0] is p:
                k = f.a[1]
                if val:
                    if self.P.derives(k, cls):
                        return True
                    if not self.P.derives(cls, k):
                        return False
                else:
                    if self.P.derives(cls, k):
                        return False
        return None

    def assume(self, st, cond, val):
        """Add a branch fact; False when the path becomes infeasible."""
        d = self.decide(st, cond)
        if d is not None:
            return d == val
        op = cond.op
        if op == "not":
            return self.assume(st, cond.a[0], not val)
        if op == "or":
            if not val:
                return all(self.assume(st, x, False) for x in cond.a)
            return True
        if op == "and":
            if val:
                return all(self.assume(st, x, True) for x in cond.a)
            return True
        st.facts[cond] = val
        if op == "==":
            a, b = cond.a
            if self.C.thresholds and b.op == "c" and isinstance(b.a[0], int):
                self.C.thresholds.add(int(b.a[0]))
            if val:
                if b.op == "c":
                    st.eq[a] = b
                    # a fact "a is falsy/truthy"
                if self.is_num(a) and self.is_num(b) and not (b.op == "c" and not isinstance(b.a[0], int)):
                    dd = lin_add(a, b, -1)
                    if not (self.add_le(st, dd) and self.add_le(st, lin_scale(dd, -1))):
                        return False
            else:
                if self.is_num(a) and self.is_num(b) and st.num is not None and not (b.op == "c" and not isinstance(b.a[0], int)):
                    if not self.tighten(st, a, b):
                        return False
        elif op == "<":
            a, b = cond.a
            dd = lin_add(a, b, -1)
            if val:
                ok = self.add_le(st, lin_add(dd, const(1)))
                if ok and st.num is not None and b.op == "m":
                    pass
            else:
                ok = self.add_le(st, lin_scale(dd, -1))
            if not ok:
                return False
            if st.num is not None and not self.retighten(st):
                return False
        elif op == "isa":
            pass
        else:
            st.eq[cond] = const(val)
        return self.C_assume(st, cond, val)

    def C_assume(self, st, cond, val):
        h = getattr(self.C, "on_assume", None)
        if h:
            return h(self, st, cond, val) is not False
        return True

    def tighten(self, st, a, b):
        """a != b is known: strengthen a <= b to a < b and so on."""
        dd = lin_add(self.resolve_l(st, a), self.resolve_l(st, b), -1)
        u = self.upper(st, dd)
        if u == 0:
            return self.add_le(st, lin_add(dd, const(1)))
        l = self.upper(st, lin_scale(dd, -1))
        if l == 0:
            return self.add_le(st, lin_add(lin_scale(dd, -1), const(1)))
        return True

    def retighten(self, st):
        for f, val in list(st.facts.items()):
            if f.op == "==" and not val:
                a, b = f.a
                if self.is_num(a) and self.is_num(b) and not (b.op == "c" and not isinstance(b.a[0], int)):
                    if not self.tighten(st, a, b):
                        return False
        return True

    def branch(self, st, v, node=None):
        """[(state, bool)] for a boolean-valued term."""
        d = self.decide(st, v)
        if d is not None:
            return [(st, d)]
        self.stats["branches"] += 1
        out = []
        s2 = st.copy()
        if self.assume(st, v, True):
            if node is not None and node.get("l"):
                self.note(st, "%s: %s is true" % (self.where(node), show(v)[:90]))
            out.append((st, True))
        if self.assume(s2, v, False):
            if node is not None and node.get("l"):
                self.note(s2, "%s: %s is false" % (self.where(node), show(v)[:90]))
            out.append((s2, False))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """[(state, bool)] of a condition expression."""
        e = self.skipc(e)
        k = e["k"]
        if k == "BinaryOperator" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(e["c"][0], st):
                if e["op"] == "&&":
                    if b:
                        out += self.cond(e["c"][1], s)
                    else:
                        out.append((s, False))
                else:
                    if b:
                        out.append((s, True))
                    else:
                        out += self.cond(e["c"][1], s)
            return out
        if k == "UnaryOperator" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["c"][0], st)]
        if k == "BinaryOperator" and e["op"] == ",":
            out = []
            for s, _ in self.ev(e["c"][0], st):
                out += self.cond(e["c"][1], s)
            return out
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(s, self.truth(v, e), e)
        return out

    def skipc(self, e):
        while e["k"] in ("ImplicitCastExpr",) and e.get("ck") in ("NoOp", "LValueToRValue_x"):
            e = e["c"][0]
        return e

    def truth(self, v, e=None):
        t = strip_type(e.get("t", "")) if e else ""
        if v.op == "c" or v.op in ("p", "lam", "==", "<", "not", "isa", "or", "and"):
            return v
        if t and is_ptr(t):
            return self.mknot(self.mkeq(v, NULL))
        if t in INTS:
            return self.mknot(self.mkeq(v, ZERO))
        return v

    # ------------------------------------------------------------ locations
    def lv(self, e, st):
        """[(state, location)] of an expression used as an object."""
        self.tick()
        k = e["k"]
        h = getattr(self, "lv_" + k, None)
        if h is not None:
            r = h(e, st)
            if r is not None:
                return r
        # prvalue (or unknown glvalue): materialise
        out = []
        for s, v in self.ev(e, st):
            if v.op == "lref":
                out.append((s, v.a[0]))
                continue
            if e.get("lv"):
                out.append((s, mk("S", v)))
                continue
            loc = mk("Tmp", self.ctx, self.site(e))
            s.store[loc] = v
            out.append((s, loc))
        return out

    def lv_MaterializeTemporaryExpr(self, e, st):
        out = []
        for s, v in self.ev(e["c"][0], st):
            loc = mk("Tmp", self.ctx, self.site(e))
            s.store[loc] = v
            out.append((s, loc))
        return out

    def var_loc(self, st, d):
        if d.startswith("G:"):
            return mk("G", d)
        loc = mk("L", self.ctx, d)
        if loc in st.store:
            return loc
        # captured by an enclosing lambda frame?
        cap = mk("L", self.ctx, "cap:" + d)
        v = st.store.get(cap)
        if v is not None:
            return v.a[0] if v.op == "ref" else cap
        return loc

    def lv_DeclRefExpr(self, e, st):
        dk = e.get("dk")
        if dk in ("var", "parm", "global", "binding"):
            loc = self.var_loc(st, e["d"])
            v = st.store.get(loc)
            if v is not None and v.op == "ref":
                loc = v.a[0]
            elif v is None and loc.op == "L" and is_ref(e.get("dt", "")):
                pass
            return [(st, loc)]
        if dk == "func":
            return [(st, mk("G", "fn:" + e["fn"]["u"]))]
        return [(st, mk("G", "x:" + e.get("q", e.get("n", "?"))))]

    def lv_MemberExpr(self, e, st):
        if e.get("method"):
            return None
        if "d" in e:
            return [(st, mk("G", e["d"]))]
        out = []
        base = e["c"][0]
        if e.get("arrow"):
            for s, p in self.ev(base, st):
                self.C.on_deref(self, s, p, e)
                if s.exc == "dead":
                    continue
                b = self.ptr_loc(p)
                out.append((s, mk("F", b, e["q"])))
        else:
            for s, b in self.lv(base, st):
                out.append((s, mk("F", b, e["q"])))
        # reference members
        res = []
        for s, l in out:
            if is_ref(e.get("t", "")):
                pass
            v = None
            r = self.load(s, l) if l.a[0].op != "S" or True else None
            if r is not None and r.op == "ref":
                l = r.a[0]
            res.append((s, l))
        return res

    def lv_UnaryOperator(self, e, st):
        op = e["op"]
        if op == "*":
            out = []
            for s, p in self.ev(e["c"][0], st):
                self.C.on_deref(self, s, p, e)
                if s.exc == "dead":
                    continue
                out.append((s, self.deref(s, p)))
            return out
        if op in ("++", "--") and not e.get("post"):
            return self.incdec(e, st, want="lv")
        return None

    def deref(self, st, p):
        if p.op == "p":
            return p.a[0]
        if p.op == "c" and isinstance(p.a[0], bytes):
            loc = mk("Tmp", "strlit", p.id)
            st.store[loc] = p
            return mk("E", loc, ZERO)
        r = self.models.iter_deref(self, st, p)
        if r is not None:
            return r
        return mk("S", p)

    def lv_ArraySubscriptExpr(self, e, st):
        out = []
        for s, b in self.ev(e["c"][0], st):
            for s2, i in self.ev(e["c"][1], s):
                i = self.resolve(s2, i)
                if b.op == "p" and b.a[0].op == "E":
                    cont, off = b.a[0].a
                    ni = lin_add(off, i)
                    self.C.on_index(self, s2, cont, ni, e, "array")
                    out.append((s2, mk("E", cont, ni)))
                elif b.op == "c" and isinstance(b.a[0], bytes):
                    loc = mk("Tmp", "strlit", b.id)
                    s2.store[loc] = b
                    out.append((s2, mk("E", loc, i)))
                else:
                    p = self.ptr_add(s2, b, i, 1)
                    self.C.on_deref(self, s2, p, e)
                    out.append((s2, self.deref(s2, p)))
        return out

    def lv_ImplicitCastExpr(self, e, st):
        ck = e["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "Dynamic"):
            if e.get("lv"):
                return self.lv(e["c"][0], st)
            c = e["c"][0]
            if c.get("lv"):
                return self.lv(c, st)
        return None

    lv_CXXStaticCastExpr = lv_ImplicitCastExpr
    lv_CXXConstCastExpr = lv_ImplicitCastExpr
    lv_CStyleCastExpr = lv_ImplicitCastExpr
    lv_CXXFunctionalCastExpr = lv_ImplicitCastExpr

    def lv_CXXReinterpretCastExpr(self, e, st):
        if e.get("lv"):
            return self.lv(e["c"][0], st)
        return None

    def lv_BinaryOperator(self, e, st):
        if e["op"] == "=":
            return self.assign(e, st)
        if e["op"] == ",":
            out = []
            for s, _ in self.ev(e["c"][0], st):
                out += self.lv(e["c"][1], s)
            return out
        return None

    def lv_CompoundAssignOperator(self, e, st):
        return self.compound(e, st)

    def lv_ConditionalOperator(self, e, st):
        if not e.get("lv"):
            return None
        out = []
        for s, b in self.cond(e["c"][0], st):
            out += self.lv(e["c"][1] if b else e["c"][2], s)
        return out

    def lv_StringLiteral(self, e, st):
        v = self.strlit(e)
        loc = mk("Tmp", "strlit", v.id)
        st.store[loc] = v
        return [(st, loc)]

    # ------------------------------------------------------------ values
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("step budget exceeded")

    def rd(self, st, loc, node):
        self.C.on_read(self, st, loc, node)
        v = self.load(st, loc)
        if v.op == "ref":
            v = self.load(st, v.a[0])
        if node is not None:
            t = strip_type(node.get("t", ""))
            if t in UNSIGNED:
                self.mark_unsigned(v)
        return v

    def mark_unsigned(self, v):
        if v.op not in ("c", "lin"):
            self.utype.add(v)

    def wr(self, st, loc, val, node):
        self.C.on_write(self, st, loc, val, node)
        self.storev(st, loc, val)

    def ev(self, e, st):
        """[(state, value)] of an expression."""
        self.tick()
        if e is None:
            return [(st, VOID)]
        k = e["k"]
        if "v" in e and k not in ("CXXConstructExpr",):
            if self.pure_const(e):
                return [(st, const(int(e["v"])))]
        h = getattr(self, "ev_" + k, None)
        if h is None:
            if e.get("lv"):
                return [(s, self.rd(s, l, e)) for s, l in self.lv(e, st)]
            self.unknown[k] = self.unknown.get(k, 0) + 1
            # evaluate children for effects
            sts = [st]
            for c in e.get("c", []) or []:
                if isinstance(c, dict) and "k" in c:
                    sts = [s2 for s in sts for s2, _ in self.ev(c, s)]
            return [(s, mk("unk", k, self.site(e))) for s in sts]
        return h(e, st)

    def pure_const(self, e):
        p = e.get("_pc")
        if p is None:
            p = True
            st = [e]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get("k") in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "LambdaExpr") and False:
                        p = False
                        break
                    if x.get("k") in ("CompoundAssignOperator",) or (x.get("k") == "BinaryOperator" and x.get("op") == "="):
                        p = False
                        break
                    st.extend(v for kk, v in x.items() if isinstance(v, (dict, list)) and kk != "fn")
                elif isinstance(x, list):
                    st.extend(x)
            e["_pc"] = p
        return p

    def strlit(self, e):
        if "s" in e:
            return const(e["s"].encode("utf-8"))
        return const(bytes(e.get("sb", [])))

    def ev_StringLiteral(self, e, st):
        return [(st, self.strlit(e))]

    def ev_IntegerLiteral(self, e, st):
        return [(st, const(int(e["v"])))]

    def ev_CharacterLiteral(self, e, st):
        return [(st, const(int(e.get("v", 0))))]

    def ev_CXXBoolLiteralExpr(self, e, st):
        return [(st, const(int(e["v"])))]

    def ev_FloatingLiteral(self, e, st):
        return [(st, mk("c", float(e["f"])))]

    def ev_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, NULL)]

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_CXXThisExpr(self, e, st):
        loc = mk("L", self.ctx, "this")
        v = st.store.get(loc)
        return [(st, v if v is not None else mk("this"))]

    def ev_DeclRefExpr(self, e, st):
        if e.get("dk") == "enum":
            return [(st, const(int(e["v"])) if "v" in e else mk("enum", e["q"]))]
        if e.get("dk") == "func":
            return [(st, mk("func", e["fn"]["u"], e["fn"]["q"]))]
        return [(s, self.rd(s, l, e)) for s, l in self.lv_DeclRefExpr(e, st)]

    def ev_MemberExpr(self, e, st):
        if e.get("method"):
            return [(st, mk("func", e["fn"]["u"], e["fn"]["q"]))]
        return [(s, self.rd(s, l, e)) for s, l in self.lv_MemberExpr(e, st)]

    def ev_ArraySubscriptExpr(self, e, st):
        return [(s, self.rd(s, l, e)) for s, l in self.lv_ArraySubscriptExpr(e, st)]

    def ev_MaterializeTemporaryExpr(self, e, st):
        return self.ev(e["c"][0], st)

    def ev_CXXStdInitializerListExpr(self, e, st):
        return self.ev(e["c"][0], st)

    def ev_ImplicitCastExpr(self, e, st):
        return self.cast(e, st)

    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    ev_CXXReinterpretCastExpr = ev_CXXFunctionalCastExpr = ev_BuiltinBitCastExpr = ev_ImplicitCastExpr

    def cast(self, e, st):
        ck = e["ck"]
        c = e["c"][0]
        if ck == "LValueToRValue":
            return [(s, self.rd(s, l, e)) for s, l in self.lv(c, st)]
        if ck == "ArrayToPointerDecay":
            out = []
            for s, l in self.lv(c, st):
                v = self.load(s, l)
                if v.op == "c" and isinstance(v.a[0], bytes):
                    out.append((s, v))
                else:
                    out.append((s, mk("p", mk("E", l, ZERO))))
            return out
        if ck == "FunctionToPointerDecay" or ck == "BuiltinFnToFnPtr":
            return self.ev(c, st)
        if ck == "NullToPointer":
            return [(s, NULL) for s, _ in self.ev(c, st)]
        if ck in ("UserDefinedConversion", "ConstructorConversion", "NoOp", "DerivedToBase", "UncheckedDerivedToBase",
                  "BitCast", "BaseToDerived", "NonAtomicToAtomic", "AtomicToNonAtomic"):
            if e.get("lv"):
                return [(s, self.rd(s, l, e)) for s, l in self.lv(c, st)]
            return self.ev(c, st)
        if ck == "ToVoid":
            return [(s, VOID) for s, _ in self.ev(c, st)]
        if ck == "PointerToBoolean":
            return [(s, self.mknot(self.mkeq(v, NULL))) for s, v in self.ev(c, st)]
        if ck == "MemberPointerToBoolean":
            return self.ev(c, st)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return [(s, self.mknot(self.mkeq(v, ZERO))) for s, v in self.ev(c, st)]
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            out = []
            dt = strip_type(e["t"])
            stp = strip_type(c.get("t", ""))
            for s, v in self.ev(c, st):
                out.append((s, self.icast(s, v, stp, dt)))
            return out
        if ck in ("IntegralToFloating", "FloatingCast"):
            out = []
            for s, v in self.ev(c, st):
                if v.op == "c" and isinstance(v.a[0], (int, float)):
                    out.append((s, mk("c", float(v.a[0]))))
                else:
                    out.append((s, v))
            return out
        if ck == "FloatingToIntegral":
            out = []
            for s, v in self.ev(c, st):
                if v.op == "c" and isinstance(v.a[0], float):
                    out.append((s, const(int(v.a[0]))))
                else:
                    out.append((s, const(int(cval(v))) if isc(v) and isinstance(cval(v), (int, float)) else mk("f2i", v)))
            return out
        return self.ev(c, st)

    def icast(self, s, v, src, dst):
        v = self.resolve(s, v)
        if v.op == "c" and isinstance(v.a[0], int):
            w = WIDTH.get(dst)
            if w:
                x = v.a[0] & ((1 << w) - 1)
                if dst not in UNSIGNED and x >= 1 << (w - 1):
                    x -= 1 << w
                return const(x)
            return v
        if dst in UNSIGNED and src in INTS and src not in UNSIGNED:
            # signed to unsigned: equal only when known non-negative
            if v.op == "ucast" or v in self.utype or self.C.fits(self, s, v, dst):
                return v
            lo, _ = self.nrange(s, v) if s.num is not None else (None, None)
            if lo is not None and lo >= 0 or s.num is not None and v.op == "lin" and self.proves_le(s, ZERO, v, 0):
                return v
            if s.num is not None:
                u = mk("ucast", v, dst)
                return u
            return v
        if v.op == "ucast" and dst in INTS and dst not in UNSIGNED and WIDTH.get(dst, 0) <= WIDTH.get(v.a[1], 64):
            return v.a[0]
        if s.num is not None and src in INTS and WIDTH.get(dst, 64) < WIDTH.get(src, 64) and WIDTH.get(dst) == 8:
            return mk("trunc8", v, dst)
        return v

    def ev_CXXDynamicCastExpr(self, e, st):
        c = e["c"][0]
        if not is_ptr(e.get("t", "")):
            return [(s, self.rd(s, l, e)) for s, l in self.lv(c, st)]
        cls = strip_ptr(e["t"])
        out = []
        for s, p in self.ev(c, st):
            src = strip_ptr(c.get("t", ""))
            if self.P.derives(src, cls):
                out.append((s, p))
                continue
            if p.op == "c":
                out.append((s, NULL))
                continue
            self.C.on_deref(self, s, p, e)
            for s2, b in self.branch(s, mk("isa", p, cls), e):
                if b:
                    # non-null as well
                    s2.facts[mk("==", p, NULL)] = False
                    out.append((s2, p))
                else:
                    out.append((s2, NULL))
        return out

    def ev_UnaryOperator(self, e, st):
        op = e["op"]
        c = e["c"][0]
        if op == "&":
            if c.get("k") == "DeclRefExpr" and c.get("dk") == "func":
                return self.ev(c, st)
            if c.get("k") == "MemberExpr" and c.get("method"):
                return self.ev(c, st)
            out = []
            for s, l in self.lv(c, st):
                if l.op == "S":
                    out.append((s, l.a[0]))
                elif l.op == "E" and l.a[1].op != "c" and False:
                    pass
                else:
                    out.append((s, mk("p", l)))
            return out
        if op == "*":
            return [(s, self.rd(s, l, e)) for s, l in self.lv_UnaryOperator(e, st)]
        if op == "!":
            return [(s, self.mknot(self.truth(v, c))) for s, v in self.ev(c, st)]
        if op in ("++", "--"):
            if e.get("post"):
                return self.incdec(e, st, want="old")
            return [(s, self.load(s, l)) for s, l in self.incdec(e, st, want="lv")]
        out = []
        for s, v in self.ev(c, st):
            v = self.resolve(s, v)
            if op == "-":
                if v.op == "c" and isinstance(v.a[0], (int, float)):
                    out.append((s, mk("c", -v.a[0])))
                else:
                    out.append((s, lin_scale(v, -1)))
            elif op == "~" and v.op == "c":
                out.append((s, self.icast(s, const(~v.a[0]), "", strip_type(e["t"]))))
            elif op == "+":
                out.append((s, v))
            else:
                out.append((s, mk("op", op, v)))
        return out

    def incdec(self, e, st, want):
        out = []
        d = 1 if e["op"] == "++" else -1
        t = strip_type(e["c"][0].get("t", ""))
        for s, l in self.lv(e["c"][0], st):
            v = self.resolve(s, self.rd(s, l, e["c"][0]))
            if is_ptr(t):
                nv = self.ptr_add(s, v, const(1), d)
            elif d < 0 and t in UNSIGNED:
                nv = self.usub(s, v, const(1), e)
            else:
                nv = lin_add(v, const(d))
            self.wr(s, l, nv, e)
            out.append((s, v if want == "old" else l))
        return out

    def usub(self, s, a, b, node):
        self.C.on_usub(self, s, a, b, node)
        r = lin_add(a, b, -1)
        if isc(r) and isinstance(cval(r), int):
            if cval(r) < 0:
                return const(cval(r) + (1 << 64))
            return r
        if s.num is not None and not self.proves_le(s, b, a):
            w = mk("wrap", r)
            self.utype.add(w)
            return w
        return r

    def ptr_add(self, s, p, i, sign):
        if p.op == "p" and p.a[0].op == "E":
            return mk("p", mk("E", p.a[0].a[0], lin_add(p.a[0].a[1], i, sign)))
        if p.op == "c" and isinstance(p.a[0], bytes) and isc(i) and sign > 0:
            return const(p.a[0][cval(i):])
        if p.op == "c" or p.op == "p":
            return mk("op", "+", p, i)
        return lin_add(p, i, sign)

    def assign(self, e, st):
        out = []
        lhs, rhs = e["c"]
        for s, v in self.ev(rhs, st):
            for s2, l in self.lv(lhs, s):
                self.wr(s2, l, v, e)
                out.append((s2, l))
        return out

    def compound(self, e, st):
        out = []
        lhs, rhs = e["c"]
        op = e["op"][:-1]
        for s, b in self.ev(rhs, st):
            for s2, l in self.lv(lhs, s):
                a = self.rd(s2, l, lhs)
                v = self.arith(s2, op, a, b, lhs.get("t", ""), e)
                self.wr(s2, l, v, e)
                out.append((s2, l))
        return out

    def ev_CompoundAssignOperator(self, e, st):
        return [(s, self.load(s, l)) for s, l in self.compound(e, st)]

    def ev_BinaryOperator(self, e, st):
        op = e["op"]
        if op == "=":
            return [(s, self.load(s, l)) for s, l in self.assign(e, st)]
        if op == ",":
            out = []
            for s, _ in self.ev(e["c"][0], st):
                out += self.ev(e["c"][1], s)
            return out
        if op in ("&&", "||"):
            # value context: keep symbolic when both sides are effect free
            if self.effect_free(e["c"][1]):
                out = []
                for s, a in self.ev(e["c"][0], st):
                    a = self.truth(a, e["c"][0])
                    d = self.decide(s, a)
                    if d is not None and d == (op == "||"):
                        out.append((s, const(d)))
                        continue
                    if d is None:
                        for s1, bb in self.branch(s, a, e):
                            if bb == (op == "||"):
                                out.append((s1, const(bb)))
                            else:
                                for s2, b in self.ev(e["c"][1], s1):
                                    out.append((s2, self.truth(b, e["c"][1])))
                        continue
                    for s2, b in self.ev(e["c"][1], s):
                        out.append((s2, self.truth(b, e["c"][1])))
                return out
            return [(s, const(b)) for s, b in self.cond(e, st)]
        out = []
        for s, a in self.ev(e["c"][0], st):
            for s2, b in self.ev(e["c"][1], s):
                out.append((s2, self.binop(s2, op, a, b, e)))
        return out

    def effect_free(self, e):
        return True

    def binop(self, s, op, a, b, e):
        lt = e["c"][0].get("t", "") if "c" in e else ""
        if op == "==":
            return self.mkeq(self.resolve(s, a), self.resolve(s, b))
        if op == "!=":
            return self.mknot(self.mkeq(self.resolve(s, a), self.resolve(s, b)))
        if op == "<":
            return self.mklt(self.resolve_l(s, a), self.resolve_l(s, b))
        if op == ">":
            return self.mklt(self.resolve_l(s, b), self.resolve_l(s, a))
        if op == "<=":
            return self.mknot(self.mklt(self.resolve_l(s, b), self.resolve_l(s, a)))
        if op == ">=":
            return self.mknot(self.mklt(self.resolve_l(s, a), self.resolve_l(s, b)))
        return self.arith(s, op, a, b, e.get("t", ""), e)

    def arith(self, s, op, a, b, t, node):
        t = strip_type(t)
        a = self.resolve(s, a)
        b = self.resolve(s, b)
        ca = a.op == "c" and isinstance(a.a[0], (int, float)) and a.a[0] is not None
        cb = b.op == "c" and isinstance(b.a[0], (int, float)) and b.a[0] is not None
        if ca and cb:
            x, y = a.a[0], b.a[0]
            r = None
            try:
                if op == "+":
                    r = x + y
                elif op == "-":
                    r = x - y
                elif op == "*":
                    r = x * y
                elif op == "/":
                    if y != 0:
                        r = x / y if isinstance(x, float) or isinstance(y, float) else int(x / y)
                elif op == "%":
                    if y != 0:
                        r = x - y * int(x / y)
                elif op == "&":
                    r = x & y
                elif op == "|":
                    r = x | y
                elif op == "^":
                    r = x ^ y
                elif op == "<<":
                    r = x << y
                elif op == ">>":
                    r = x >> y
            except (TypeError, ValueError, OverflowError):
                r = None
            if r is not None:
                if isinstance(r, int) and not isinstance(r, bool):
                    if op == "-" and r < 0 and t in UNSIGNED:
                        self.C.on_usub(self, s, a, b, node)
                    return self.icast(s, const(r), "", t)
                return mk("c", r)
        if op in ("&", "|", "^"):
            h = getattr(self.C, "bitwise", None)
            r = h(self, s, op, a, b) if h else None
            if r is not None:
                return r
        if op in ("+", "-") and is_ptr(t):
            if op == "+" and isc(a) and isinstance(cval(a), int):
                a, b = b, a
            return self.ptr_add(s, a, b, 1 if op == "+" else -1)
        if op == "+" or op == "-":
            if a.op == "p" and b.op == "p" and op == "-":
                la, lb = a.a[0], b.a[0]
                if la.op == "E" and lb.op == "E" and la.a[0] is lb.a[0]:
                    return lin_add(la.a[1], lb.a[1], -1)
            if getattr(self.C, "finite", False):
                for x, y in ((a, b), (b, a)):
                    if x.op == "c" and x.a[0] in (float("inf"), float("-inf")) and (op == "+" or x is a):
                        return x
            if a.op == "c" and not isinstance(a.a[0], int) or b.op == "c" and not isinstance(b.a[0], int):
                return mk("op", op, a, b)
            if t in ("double", "float", "long double"):
                return mk("op", op, a, b)
            if op == "-" and t in UNSIGNED:
                return self.usub(s, a, b, node)
            return lin_add(a, b, 1 if op == "+" else -1)
        if op == "*":
            if a.op == "c" and isinstance(a.a[0], int):
                return lin_scale(b, a.a[0])
            if b.op == "c" and isinstance(b.a[0], int):
                return lin_scale(a, b.a[0])
        r = mk("op", op, a, b)
        if t in UNSIGNED:
            self.utype.add(r)
        return r

    def ev_ConditionalOperator(self, e, st):
        out = []
        for s, b in self.cond(e["c"][0], st):
            br = e["c"][1] if b else e["c"][2]
            out += self.ev(br, s)
        return out

    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if "v" in e:
            return [(st, const(int(e["v"])))]
        return [(st, mk("unk", "sizeof", self.site(e)))]

    ev_TypeTraitExpr = ev_UnaryExprOrTypeTraitExpr

    def ev_CXXScalarValueInitExpr(self, e, st):
        t = strip_type(e.get("t", ""))
        if is_ptr(t):
            return [(st, NULL)]
        return [(st, ZERO)]

    def ev_ImplicitValueInitExpr(self, e, st):
        t = strip_type(e.get("t", ""))
        if is_ptr(t):
            return [(st, NULL)]
        if t in INTS or t == "bool":
            return [(st, ZERO)]
        return [(st, mk("ctor", t))]

    def ev_PredefinedExpr(self, e, st):
        return [(st, const(b"__func__"))]

    def ev_InitListExpr(self, e, st):
        sts = [(st, ())]
        for c in e["c"]:
            sts = [(s2, vs + (v,)) for s, vs in sts for s2, v in self.ev(c, s)]
        t = strip_type(e.get("t", ""))
        if "fields" in e:
            nb = e.get("nb", 0)
            out = []
            for s, vs in sts:
                if nb:
                    vs = vs[nb:]
                out.append((s, mk("s", t, tuple(sorted(zip(e["fields"], vs))), None)))
            return out
        if t.endswith("]"):
            m = re.search(r"\[(\d+)\]$", t)
            n = int(m.group(1)) if m else len(e["c"])
            out = []
            for s, vs in sts:
                if len(vs) == 1 and vs[0].op == "c" and isinstance(vs[0].a[0], bytes) and "char" in t:
                    out.append((s, vs[0]))
                    continue
                if len(vs) < n <= 4096:
                    vs = vs + (ZERO,) * (n - len(vs))
                out.append((s, mk("vec", vs)))
            return out
        if len(e["c"]) == 1 and not t.startswith("std::initializer_list"):
            return [(s, vs[0]) for s, vs in sts]
        if len(e["c"]) == 0:
            if t in INTS or t == "bool":
                return [(s, ZERO) for s, vs in sts]
            if is_ptr(t):
                return [(s, NULL) for s, vs in sts]
        return [(s, mk("vec", vs)) for s, vs in sts]

    def ev_LambdaExpr(self, e, st):
        caps = []
        sts = [(st, ())]
        for c in e["caps"]:
            if c.get("this"):
                tl = st.store.get(mk("L", self.ctx, "this"))
                sts = [(s, cs + (("this", "v", tl if tl is not None else mk("this")),)) for s, cs in sts]
            elif "d" in c:
                new = []
                for s, cs in sts:
                    if c.get("ref"):
                        loc = self.var_loc(s, c["d"])
                        v = s.store.get(loc)
                        if v is not None and v.op == "ref":
                            loc = v.a[0]
                        new.append((s, cs + ((c["d"], "r", loc),)))
                    elif "init" in c and c["init"] is not None:
                        for s2, v in self.ev(c["init"], s):
                            new.append((s2, cs + ((c["d"], "v", v),)))
                    else:
                        loc = self.var_loc(s, c["d"])
                        new.append((s, cs + ((c["d"], "v", self.load(s, loc)),)))
                sts = new
        return [(s, mk("lam", e["fnkey"], cs)) for s, cs in sts]

    def ev_CXXNewExpr(self, e, st):
        init = e["c"][0]
        out = []
        if init is None:
            loc = mk("O", self.ctx, self.site(e))
            st.store[loc] = mk("dynobj", strip_type(e["at"]))
            self.C.on_alloc(self, st, loc, e) if hasattr(self.C, "on_alloc") else None
            return [(st, mk("p", loc))]
        if init["k"] == "CXXConstructExpr":
            loc = mk("O", self.ctx, self.site(e))
            for s, _ in self.construct(init, st, loc):
                out.append((s, mk("p", loc)))
            return out
        for s, v in self.ev(init, st):
            loc = mk("O", self.ctx, self.site(e))
            s.store[loc] = v
            out.append((s, mk("p", loc)))
        return out

    def ev_CXXDeleteExpr(self, e, st):
        out = []
        for s, p in self.ev(e["c"][0], st):
            h = getattr(self.C, "on_delete", None)
            if h:
                h(self, s, p, e)
            out.append((s, VOID))
        return out

    def ev_CXXThrowExpr(self, e, st):
        sts = [st]
        for c in e.get("c", []):
            if c:
                sts = [s2 for s in sts for s2, _ in self.ev(c, s)]
        h = getattr(self.C, "on_throw", None)
        for s in sts:
            if h:
                h(self, s, e)
        return []

    def ev_CXXTemporaryObjectExpr(self, e, st):
        return self.ev_CXXConstructExpr(e, st)

    def ev_ArrayInitLoopExpr(self, e, st):
        return [(st, mk("unk", "arrayinit", self.site(e)))]

    # ------------------------------------------------------------ construction
    def ev_CXXConstructExpr(self, e, st):
        loc = mk("Tmp", self.ctx, self.site(e))
        out = []
        for s, _ in self.construct(e, st, loc):
            v = s.store.get(loc)
            out.append((s, v if v is not None else mk("init", loc)))
        return out

    def construct(self, e, st, loc):
        """Construct an object of the expression's class at loc."""
        fn = e["fn"]
        cls = fn.get("cls") or strip_type(e["t"])
        pts = fn["pt"]
        if e.get("cm") and len(e["args"]) >= 1:
            rec = self.P.records.get(cls)
            user = self.P.functions.get(fn["u"])
            if user is None or user.get("defaulted"):
                out = []
                a = e["args"][0]
                for s, l in self.lv(a, st):
                    self.C.on_read(self, s, l, e)
                    v = self.load(s, l)
                    if v.op == "ref":
                        v = self.load(s, v.a[0])
                    if e["cm"] == "move" or e.get("elid"):
                        self.moved_from(s, l, v, cls, e)
                    s.store[loc] = v
                    out.append((s, v))
                return out
        out = []
        for s, call in self.eval_args(e, st, fn, e["args"]):
            call.q = fn["q"]
            call.ctor = cls
            call.this = mk("p", loc)
            call.objloc = loc
            out += self.do_construct(s, call, cls, loc, e)
        return out

    def moved_from(self, s, l, v, cls, node):
        if l.op == "Tmp":
            return
        if cls.startswith(("std::unique_ptr", "std::shared_ptr")):
            self.wr(s, l, NULL, node)
        elif cls.startswith(("std::basic_string", "std::vector", "std::function", "std::map", "std::unordered_map")) or cls in self.P.records:
            h = getattr(self.C, "on_move", None)
            if h:
                h(self, s, l, node)

    def do_construct(self, s, call, cls, loc, e):
        r = self.C.on_call(self, s, call)
        if r is not None:
            for s2, v in r:
                s2.store[loc] = v
            return r
        body = self.P.functions.get(call.fn["u"])
        if body is not None and not body.get("defaulted") and not self.opaque(body):
            s.store[loc] = mk("s", cls, (), None)
            out = []
            for s2, _ in self.inline(s, body, call, e):
                out.append((s2, self.load(s2, loc)))
            return out
        m = self.models.construct(self, s, call, cls, e)
        if m is not None:
            for s2, v in m:
                s2.store[loc] = v
            return m
        if cls in self.P.records and (body is None or body.get("defaulted") or not call.args):
            v = self.default_obj(s, cls, e)
            s.store[loc] = v
            return [(s, v)]
        v = mk("ctor", cls, *call.args)
        self.havoc_args(s, call)
        s.store[loc] = v
        return [(s, v)]

    def default_obj(self, s, cls, e):
        rec = self.P.records.get(cls)
        fs = []
        if rec:
            for q in [cls] + self.P.bases_of(cls):
                r = self.P.records.get(q)
                for f in (r["fields"] if r else []):
                    if f.get("init"):
                        r2 = self.ev(f["init"], s)
                        fs.append((f["q"], r2[0][1] if len(r2) == 1 else mk("unk", "fieldinit", f["q"])))
                    else:
                        fs.append((f["q"], self.default_val(f["t"])))
        return mk("s", cls, tuple(sorted(fs)), None)

    def default_val(self, t):
        t = strip_type(t)
        if t in INTS or t == "bool" or is_ptr(t) or t in ("double", "float"):
            return UNDEF
        m = self.models.default_value(self, t)
        return m if m is not None else mk("ctor", t)

    # ------------------------------------------------------------ calls
    def eval_args(self, e, st, fn, args, first=None):
        """[(state, Call)] with evaluated arguments."""
        pts = fn["pt"] if fn else []
        sts = [(st, (), ())]
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else a.get("t", "")
            new = []
            for s, vs, ls in sts:
                if is_ref(pt) or (i >= len(pts) and a.get("lv")):
                    for s2, l in self.lv(a, s):
                        v = self.load(s2, l)
                        if v.op == "ref":
                            l = v.a[0]
                            v = self.load(s2, l)
                        self.C.on_read(self, s2, l, a) if not nonconst_ref(pt) or pt.endswith("&&") else None
                        new.append((s2, vs + (v,), ls + (l,)))
                else:
                    for s2, v in self.ev(a, s):
                        new.append((s2, vs + (v,), ls + (None,)))
            sts = new
        out = []
        for s, vs, ls in sts:
            c = Call()
            c.fn = fn
            c.q = fn["q"] if fn else None
            c.node = e
            c.this = None
            c.objloc = None
            c.args = vs
            c.alocs = ls
            c.atypes = pts
            c.ctor = None
            c.rt = fn["rt"] if fn else e.get("t", "")
            c.op = None
            out.append((s, c))
        return out

    def ev_CallExpr(self, e, st):
        return [(s, self.unref(s, v, e)) for s, v in self.call(e, st)]

    ev_CXXMemberCallExpr = ev_CXXOperatorCallExpr = ev_UserDefinedLiteral = ev_CallExpr

    def unref(self, s, v, e):
        if v.op == "lref":
            return self.rd(s, v.a[0], e)
        t = strip_type(e.get("t", ""))
        if t in UNSIGNED:
            self.mark_unsigned(v)
        return v

    def lv_CallExpr(self, e, st):
        out = []
        for s, v in self.call(e, st):
            if v.op == "lref":
                out.append((s, v.a[0]))
            elif e.get("lv"):
                out.append((s, mk("S", v)))
            else:
                loc = mk("Tmp", self.ctx, self.site(e))
                s.store[loc] = v
                out.append((s, loc))
        return out

    lv_CXXMemberCallExpr = lv_CXXOperatorCallExpr = lv_CallExpr

    def call(self, e, st):
        self.stats["calls"] += 1
        k = e["k"]
        fn = e.get("fn")
        out = []
        if k == "CXXMemberCallExpr":
            if fn is None:
                sts = [st]
                for a in e["args"]:
                    sts = [s2 for s in sts for s2, _ in self.ev(a, s)]
                return [(s, mk("unk", "memptrcall", self.site(e))) for s in sts]
            obj = e["obj"]
            for s, l, p in self.obj_loc(e, obj, st):
                for s2, c in self.eval_args(e, s, fn, e["args"]):
                    c.objloc = l
                    c.this = p
                    out += self.invoke(s2, c)
            return out
        if k == "CXXOperatorCallExpr" and fn is not None and fn.get("m"):
            op = e["op"]
            if op == "=":
                # right operand first
                for s, c in self.eval_args(e, st, fn, e["args"][1:]):
                    for s2, l in self.lv(e["args"][0], s):
                        c2 = Call()
                        for f in Call.__slots__:
                            setattr(c2, f, getattr(c, f))
                        c2.objloc = l
                        c2.this = l.a[0] if l.op == "S" else mk("p", l)
                        c2.op = op
                        # re-read by-reference arguments after evaluating the left side
                        out += self.invoke(s2, c2)
                return out
            for s, l in self.lv(e["args"][0], st):
                v = s.store.get(l)
                for s2, c in self.eval_args(e, s, fn, e["args"][1:]):
                    c.objloc = l
                    c.this = l.a[0] if l.op == "S" else mk("p", l)
                    c.op = op
                    out += self.invoke(s2, c)
            return out
        if fn is None:
            # call through a function value
            for s, f in self.ev(e["callee"], st):
                for s2, c in self.eval_args(e, s, None, e["args"]):
                    out += self.call_value(s2, f, c)
            return out
        for s, c in self.eval_args(e, st, fn, e["args"]):
            c.op = e.get("op")
            out += self.invoke(s, c)
        return out

    def obj_loc(self, e, obj, st):
        out = []
        if e.get("arrow"):
            for s, p in self.ev(obj, st):
                self.C.on_deref(self, s, p, e)
                out.append((s, self.deref(s, p), p))
        else:
            for s, l in self.lv(obj, st):
                v = s.store.get(l)
                if v is not None and v.op == "ref":
                    l = v.a[0]
                out.append((s, l, l.a[0] if l.op == "S" else mk("p", l)))
        return out

    def call_value(self, st, f, call):
        """Call a function value (lambda, std::function, function pointer)."""
        if f.op == "lam":
            body = self.P.functions.get(f.a[0])
            if body is not None:
                call.fn = body
                call.q = body["q"]
                call.atypes = body["pt"]
                r = self.C.on_call(self, st, call)
                if r is not None:
                    return r
                return self.inline(st, body, call, call.node, lam=f)
        if f.op == "func":
            body = self.P.functions.get(f.a[0])
            if body is not None:
                call.fn = body
                call.q = f.a[1]
                call.atypes = body["pt"]
                return self.invoke(st, call)
            call.q = f.a[1]
        h = getattr(self.C, "on_unknown_callee", None)
        if h:
            r = h(self, st, f, call)
            if r is not None:
                return r
        self.havoc_args(st, call)
        return [(st, mk("r", "call", f, *call.args))]

    def invoke(self, st, call):
        fn = call.fn
        # fix operands that are references to freshly changed objects
        r = self.C.on_call(self, st, call)
        if r is None:
            r = self.invoke2(st, call)
        for s, v in r:
            self.C.after_call(self, s, call, v)
        return r

    def invoke2(self, st, call):
        fn = call.fn
        q = call.q
        if fn.get("noret"):
            h = getattr(self.C, "on_noreturn", None)
            if h and h(self, st, call):
                return [(st, VOID)]
            return []
        if q.startswith("std::function<") and q.endswith("::operator()"):
            f = self.load(st, call.objloc)
            if f.op == "ref":
                f = self.load(st, f.a[0])
            return self.call_value(st, self.resolve(st, f), call)
        if fn.get("lambdacall") and call.objloc is not None:
            f = self.load(st, call.objloc)
            if f.op == "lam":
                return self.call_value(st, f, call)
        target = self.P.functions.get(fn["u"])
        if fn.get("virt") and not call.node.get("qual"):
            t = self.resolve_virtual(st, call)
            if t is not None:
                res = []
                for i, body in enumerate(t):
                    s = st.copy() if i + 1 < len(t) else st
                    if body is None:
                        res += self.opaque_call(s, call)
                    else:
                        res += self.inline(s, body, call, call.node)
                return res
        m = self.models.call(self, st, call)
        if m is not None:
            return m
        if target is not None and not target.get("defaulted") and not self.opaque(target):
            if self.stack.count(target["key"]) < 1 and len(self.stack) < MAX_DEPTH:
                return self.inline(st, target, call, call.node)
        if call.op == "=" and call.objloc is not None and len(call.args) == 1 and (
                fn.get("defaulted") or fn.get("implicit") or target is None):
            # memberwise or library assignment
            v = call.args[0]
            pt = fn["pt"][0] if fn["pt"] else ""
            self.wr(st, call.objloc, v, call.node)
            if pt.endswith("&&") and call.alocs[0] is not None:
                self.moved_from(st, call.alocs[0], v, fn.get("cls", ""), call.node)
            return [(st, mk("lref", call.objloc))]
        return self.opaque_call(st, call)

    def resolve_virtual(self, st, call):
        fn = call.fn
        dc = self.dynclass(st, call.this) if call.this is not None else None
        if dc:
            for q in [dc] + self.P.bases_of(dc):
                rec = self.P.records.get(q)
                if not rec:
                    continue
                for m in rec["methods"]:
                    if m["u"] == fn["u"] or fn["u"] in m.get("over", []) or (
                            m["n"] == base_name(fn["q"]) and m["pt"] == fn["pt"] and m.get("virt")):
                        b = self.P.functions.get(m["u"])
                        if b is not None:
                            if self.opaque(b):
                                return [None]
                            return [b]
        t = self.C.virtual_targets(self, st, call)
        if t is not None:
            return t
        # only one implementation and none in the base: still a choice
        own = self.P.functions.get(fn["u"])
        ov = self.P.overriders(fn["u"])
        if own is not None and not ov:
            return None
        if own is None or ov:
            return [None]
        return None

    def havoc_args(self, st, call):
        for i, l in enumerate(call.alocs):
            pt = call.atypes[i] if call.atypes and i < len(call.atypes) else ""
            if l is not None and nonconst_ref(pt) and not pt.endswith("&&"):
                v = self.load(st, l)
                self.wr(st, l, mk("m!", call.q or "?", i, v, *call.args), call.node)
            elif l is None and i < len(call.args) and nonconst_ptr(pt):
                p = call.args[i]
                if p.op == "p":
                    pl = p.a[0]
                    if pl.op == "E":
                        pl = pl.a[0]
                    v = self.load(st, pl)
                    self.wr(st, pl, mk("m!", call.q or "?", i, v, *[x for x in call.args if x is not p]), call.node)

    def opaque(self, fn):
        # helpers extracted after the checks were written are always looked into
        if fn["repo"] and not fn.get("lambda") and fn["q"] not in KNOWN and fn.get("body") is not None:
            return False
        return self.C.opaque(self, fn)

    def opaque_call(self, st, call):
        fn = call.fn
        self.C.on_opaque(self, st, call)
        q = call.q or "?"
        args = call.args
        objv = None
        if call.objloc is not None:
            objv = self.load(st, call.objloc)
            if objv.op == "ref":
                objv = self.load(st, objv.a[0])
        name = self.models.canon(q)
        if call.objloc is not None:
            if not (fn.get("const") or fn.get("static")) and self.purity.leaves(fn["u"]):
                r = mk("r", name, objv, *args)
                self.havoc_args(st, call)
            elif fn.get("const") or fn.get("static"):
                self.havoc_args(st, call)
                r = mk("m", name, objv, *args)
            else:
                r = mk("r", name, objv, *args)
                self.havoc_args(st, call)
                self.wr(st, call.objloc, mk("m!", name, objv, *args), call.node)
        else:
            self.havoc_args(st, call)
            r = mk("m", name, *args) if self.models.is_pure(q) else mk("r", name, *args, mk("at", self.ctx, self.site(call.node)))
        t = strip_type(call.rt or "")
        if t in UNSIGNED:
            self.mark_unsigned(r)
        return [(st, r)]

    def inline(self, st, fn, call, node, lam=None):
        if self.stack.count(fn["key"]) >= 1 and lam is None:
            return self.opaque_call(st, call)
        if len(self.stack) > MAX_DEPTH:
            raise AnalysisError("call depth exceeded in " + fn["q"])
        self.stats["functions"].add(fn["key"])
        old = self.ctx
        new = mk("ctx", old, self.site(node), fn["key"])
        # bind
        store = st.store
        if call.this is not None and not (fn.get("static")) and lam is None:
            store[mk("L", new, "this")] = call.this
        for i, p in enumerate(fn["params"]):
            loc = mk("L", new, p["d"])
            if i < len(call.args):
                if is_ref(p["t"]):
                    l = call.alocs[i] if i < len(call.alocs) else None
                    if l is None:
                        l = mk("Tmp", new, "arg%d" % i)
                        store[l] = call.args[i]
                    store[loc] = mk("ref", l)
                else:
                    store[loc] = call.args[i]
            elif p.get("def") is not None:
                self.ctx = new
                rr = self.ev(p["def"], st)
                self.ctx = old
                if is_ref(p["t"]):
                    l = mk("Tmp", new, "def%d" % i)
                    store[l] = rr[0][1]
                    store[loc] = mk("ref", l)
                else:
                    store[loc] = rr[0][1]
            else:
                store[loc] = mk("param", fn["q"], p["n"])
        if lam is not None:
            for d, mode, v in lam.a[1]:
                if d == "this":
                    store[mk("L", new, "this")] = v
                elif mode == "r":
                    store[mk("L", new, "cap:" + d)] = mk("ref", v)
                else:
                    store[mk("L", new, "cap:" + d)] = v
        self.ctx = new
        self.stack.append(fn["key"])
        try:
            self.C.on_enter(self, st, fn, call)
            states = [st]
            if fn.get("ctor"):
                states = self.run_inits(fn, states)
            flows = self.exec(fn["body"], states)
        finally:
            self.ctx = old
            self.stack.pop()
        back = [k for k, v in flows.items() if k.startswith("goto ") and v]
        if back:
            raise AnalysisError("backward goto in %s is not supported" % fn["q"])
        outs = []
        for s in flows.get("next", []):
            s.ret = VOID
            outs.append(s)
        outs += flows.get("ret", [])
        res = []
        for s in outs:
            v = s.ret if s.ret is not None else VOID
            s.ret = None
            self.C.on_exit(self, s, fn, call)
            self.drop_frame(s, new)
            res.append((s, v))
        if len(res) > 1:
            res = self.merge_results(res, mk("site", new, "ret"))
        return res

    def merge_results(self, res, site):
        # bring the return value into the store for merging
        rl = mk("L", self.ctx, ("ret", site.id))
        sts = []
        for s, v in res:
            s.store[rl] = v
            sts.append(s)
        lim = self.C.merge_limit
        sts = self.merge(sts, site, lim)
        out = []
        for s in sts:
            v = s.store.pop(rl)
            out.append((s, v))
        return out

    def drop_frame(self, s, ctx):
        dead = [l for l in s.store if l.op in ("L", "Tmp") and l.a[0] is ctx]
        if dead:
            keep = set()
            for l in dead:
                if l.op == "Tmp":
                    continue
                del s.store[l]
            # temporaries may still be referred to by a returned reference
            for l in dead:
                if l.op == "Tmp" and l in s.store and len(s.store) > 2000:
                    del s.store[l]

    def run_inits(self, fn, states):
        tl = mk("L", self.ctx, "this")
        for i in fn.get("inits", []):
            new = []
            for s in states:
                this = s.store.get(tl)
                base = self.ptr_loc(this) if this is not None else mk("S", mk("this"))
                init = i["init"]
                if init is None:
                    new.append(s)
                    continue
                if "field" in i:
                    loc = mk("F", base, i["field"])
                    if is_ref(i.get("ft", "")):
                        for s2, l in self.lv(init, s):
                            self.storev(s2, loc, mk("ref", l))
                            new.append(s2)
                        continue
                    if init["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        tmp = mk("Tmp", self.ctx, self.site(init))
                        for s2, v in self.construct(init, s, tmp):
                            self.wr(s2, loc, self.load(s2, tmp), init)
                            new.append(s2)
                        continue
                    for s2, v in self.ev(init, s):
                        self.wr(s2, loc, v, init)
                        new.append(s2)
                elif "base" in i or i.get("deleg"):
                    if init["k"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr"):
                        new += self.run_base_ctor(init, s, base, this)
                    else:
                        new += [s2 for s2, _ in self.ev(init, s)]
                else:
                    new += [s2 for s2, _ in self.ev(init, s)]
            states = new
        return states

    def run_base_ctor(self, init, s, base, this):
        fn = init["fn"]
        body = self.P.functions.get(fn["u"])
        out = []
        if init.get("cm") and (body is None or body.get("defaulted")):
            for s2, l in self.lv(init["args"][0], s):
                src = self.load(s2, l)
                dst = self.load(s2, base)
                # copy the base's fields
                cls = fn.get("cls")
                for q in [cls] + self.P.bases_of(cls):
                    r = self.P.records.get(q)
                    for f in (r["fields"] if r else []):
                        self.storev(s2, mk("F", base, f["q"]), self.fld(s2, src, f["q"]))
                out.append(s2)
            return out
        for s2, c in self.eval_args(init, s, fn, init["args"]):
            c.this = this if this is not None else mk("this")
            c.objloc = base
            c.ctor = fn.get("cls")
            r = self.C.on_call(self, s2, c)
            if r is not None:
                out += [x for x, _ in r]
            elif body is not None and not body.get("defaulted"):
                out += [x for x, _ in self.inline(s2, body, c, init)]
            else:
                if fn.get("cls") in self.P.records:
                    d = self.default_obj(s2, fn["cls"], init)
                    for k, v in d.a[1]:
                        self.storev(s2, mk("F", base, k), v)
                else:
                    self.storev(s2, mk("F", base, "base:" + (fn.get("cls") or "?")), mk("ctor", fn.get("cls") or "?", *c.args))
                out.append(s2)
        return out

    # ------------------------------------------------------------ statements
    def exec(self, n, states):
        """Flows: dict of next/ret/brk/cont -> states."""
        if n is None or not states:
            return {"next": states}
        k = n["k"]
        h = getattr(self, "ex_" + k, None)
        if h is not None:
            return h(n, states)
        # expression statement
        out = []
        for s in states:
            for s2, v in self.ev(n, s):
                out.append(s2)
        return {"next": self.limit(out, n)}

    def limit(self, states, n):
        states = self.alive(states)
        if len(states) <= 1:
            return states
        if len(states) > self.C.merge_limit:
            return self.merge(states, mk("site", self.ctx, self.site(n)), self.C.merge_limit)
        return states

    def alive(self, states):
        return [s for s in states if s.exc != "dead"]

    def ex_NullStmt(self, n, states):
        return {"next": states}

    def ex_CompoundStmt(self, n, states):
        flows = {}
        cur = states
        for c in n["c"]:
            if c and c["k"] == "LabelStmt":          # where a forward goto lands
                cur = cur + flows.pop("goto " + c["n"], [])
                if len(cur) > 1:
                    cur = self.limit(cur, c)
            if not cur:
                continue
            f = self.exec(c, cur)
            cur = f.pop("next", [])
            for k, v in f.items():
                if v:
                    flows.setdefault(k, []).extend(v)
            if len(cur) > 1:
                cur = self.limit(cur, c)
        for k in ("ret", "brk", "cont"):
            if k in flows and len(flows[k]) > self.C.merge_limit:
                flows[k] = self.merge_flow(flows[k], mk("site", self.ctx, self.site(n), k))
        flows["next"] = cur
        if self.C.scope_end:
            locs = [mk("L", self.ctx, d["d"]) for c in n["c"] if c and c["k"] == "DeclStmt" for d in c["decls"]
                    if "d" in d and not d.get("static")]
            for l in reversed(locs):
                for sts in flows.values():
                    for s in sts:
                        v = s.store.get(l)
                        if v is not None:
                            self.C.on_scope_end(self, s, l, v, n)
        return flows

    def merge_flow(self, states, site):
        rl = mk("L", self.ctx, "retval")
        for s in states:
            if s.ret is not None:
                s.store[rl] = s.ret
        states = self.merge(states, site, self.C.merge_limit)
        for s in states:
            v = s.store.pop(rl, None)
            if v is not None:
                s.ret = v
        return states

    def ex_DeclStmt(self, n, states):
        for d in n["decls"]:
            if "d" not in d:
                continue
            states = self.decl(d, states, n)
        return {"next": self.limit(states, n)}

    def decl(self, d, states, n):
        out = []
        for s in states:
            loc = mk("L", self.ctx, d["d"])
            if d.get("static"):
                sl = mk("G", "static:" + d["d"])
                s.store[loc] = mk("ref", sl)
                if sl in s.store:
                    out.append(s)
                    continue
                init = d.get("init")
                if init is None:
                    s.store[sl] = self.default_val(d["t"])
                    out.append(s)
                    continue
                for s2, v in self.ev(init, s):
                    s2.store[sl] = v
                    out.append(s2)
                continue
            init = d.get("init")
            s.store.pop(loc, None)
            if init is None:
                s.store[loc] = self.default_val(d["t"])
                out.append(s)
                continue
            if is_ref(d["t"]):
                for s2, l in self.lv(init, s):
                    v = s2.store.get(l)
                    if v is not None and v.op == "ref":
                        l = v.a[0]
                    if l.op == "Tmp" and l.a[0] is self.ctx:
                        # lifetime extension: give it the variable's identity
                        nl = mk("L", self.ctx, d["d"] + "!t")
                        s2.store[nl] = self.load(s2, l)
                        l = nl
                    s2.store[loc] = mk("ref", l)
                    self.bindings(d, s2, l)
                    out.append(s2)
                continue
            if init["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                for s2, v in self.construct(init, s, loc):
                    if loc not in s2.store:
                        s2.store[loc] = v
                    self.C.on_write(self, s2, loc, s2.store[loc], d)
                    self.bindings(d, s2, loc)
                    out.append(s2)
                continue
            for s2, v in self.ev(init, s):
                self.C.on_write(self, s2, loc, v, d)
                s2.store[loc] = v
                self.bindings(d, s2, loc)
                out.append(s2)
        return out

    def bindings(self, d, s, loc):
        for i, b in enumerate(d.get("bindings", [])):
            bl = mk("L", self.ctx, b["d"])
            e = b.get("e")
            if e is not None and e["k"] == "MemberExpr":
                s.store[bl] = mk("ref", mk("F", loc, e["q"]))
            else:
                # tuple-like (pair, map entry)
                s.store[bl] = mk("ref", mk("F", loc, "std::pair::" + ("first" if i == 0 else "second")))
            hv = b.get("hv")
            if hv is not None:
                s.store[mk("L", self.ctx, hv["d"])] = s.store[bl]

    def ex_IfStmt(self, n, states):
        if n.get("init"):
            f = self.exec(n["init"], states)
            states = f["next"]
        if n.get("cv"):
            states = self.decl(n["cv"], states, n)
        flows = {}
        thens, elses = [], []
        for s in states:
            for s2, b in self.cond(n["cond"], s):
                (thens if b else elses).append(s2)
        thens = self.limit(thens, n["cond"])
        elses = self.limit(elses, n)
        nxt = []
        if thens:
            f = self.exec(n["then"], thens)
            nxt += f.pop("next", [])
            for k, v in f.items():
                flows.setdefault(k, []).extend(v)
        if elses:
            if n.get("else"):
                f = self.exec(n["else"], elses)
                nxt += f.pop("next", [])
                for k, v in f.items():
                    flows.setdefault(k, []).extend(v)
            else:
                nxt += elses
        flows["next"] = nxt
        return flows

    def ex_ReturnStmt(self, n, states):
        out = []
        fnrt = self.P.functions.get(self.stack[-1], {}).get("rt", "") if self.stack else ""
        for s in states:
            e = n.get("e")
            if e is None:
                s.ret = VOID
                out.append(s)
            elif is_ref(fnrt):
                for s2, l in self.lv(e, s):
                    v = s2.store.get(l)
                    if v is not None and v.op == "ref":
                        l = v.a[0]
                    s2.ret = mk("lref", l)
                    out.append(s2)
            else:
                for s2, v in self.ev(e, s):
                    s2.ret = v
                    out.append(s2)
        h = getattr(self.C, "on_return", None)
        if h:
            for s in out:
                h(self, s, n)
        return {"ret": self.alive(out)}

    def ex_BreakStmt(self, n, states):
        return {"brk": states}

    def ex_ContinueStmt(self, n, states):
        return {"cont": states}

    def ex_LabelStmt(self, n, states):
        return self.exec(n["sub"], states)

    def ex_GotoStmt(self, n, states):
        return {"goto " + n["n"]: states}

    def ex_CXXTryStmt(self, n, states):
        entry = [s.copy() for s in states]
        self.trydepth = getattr(self, "trydepth", 0) + 1
        self.tryhandlers = getattr(self, "tryhandlers", [])
        self.tryhandlers.append([h["t"] for h in n["handlers"]])
        flows = self.exec(n["body"], states)
        self.trydepth -= 1
        self.tryhandlers.pop()
        for h in n["handlers"]:
            hs = [s.copy() for s in entry]
            # anything the body may have changed is unknown in the handler
            for s in hs:
                for f in flows.values():
                    for t in f:
                        for l, v in t.store.items():
                            if l in s.store and s.store[l] is not v:
                                s.store[l] = mk("phi", mk("site", self.ctx, self.site(n)), l)
                if h.get("var"):
                    s.store[mk("L", self.ctx, h["var"]["d"])] = mk("unk", "exception")
            f = self.exec(h["body"], hs)
            for k, v in f.items():
                flows.setdefault(k, []).extend(v)
        return flows

    def ex_SwitchStmt(self, n, states):
        if n.get("init"):
            states = self.exec(n["init"], states)["next"]
        if n.get("cv"):
            states = self.decl(n["cv"], states, n)
        items = []   # flattened: ("case", node) / ("default",) / ("stmt", node)

        def flat(x):
            if x is None:
                return
            if x["k"] == "CaseStmt":
                items.append(("case", x["lo"], x.get("hi")))
                flat(x["sub"])
            elif x["k"] == "DefaultStmt":
                items.append(("default",))
                flat(x["sub"])
            else:
                items.append(("stmt", x))
        body = n["body"]
        for c in (body["c"] if body["k"] == "CompoundStmt" else [body]):
            flat(c)
        starts = {}
        flows = {}
        for s in states:
            for s2, v in self.ev(n["cond"], s):
                cur = [s2]
                default = None
                for i, it in enumerate(items):
                    if it[0] == "default":
                        default = i
                    if it[0] != "case":
                        continue
                    nxt = []
                    for s3 in cur:
                        lo = const(int(it[1]["v"])) if "v" in it[1] else self.ev(it[1], s3)[0][1]
                        for s4, b in self.branch(s3, self.mkeq(self.resolve(s3, v), lo), it[1]):
                            if b:
                                starts.setdefault(i, []).append(s4)
                            else:
                                nxt.append(s4)
                    cur = nxt
                    if not cur:
                        break
                if cur:
                    if n.get("all") and default is None and not getattr(self.C, "enum_open", False):
                        pass  # every enumerator is covered
                    else:
                        starts.setdefault(default if default is not None else len(items), []).extend(cur)
        run = []
        for i in range(len(items) + 1):
            run += starts.get(i, [])
            if i == len(items):
                break
            if items[i][0] == "stmt" and run:
                run = self.limit(run, items[i][1])
                f = self.exec(items[i][1], run)
                run = f.pop("next", [])
                for k, v in f.items():
                    flows.setdefault(k, []).extend(v)
        run = run + flows.pop("brk", [])
        flows["next"] = self.limit(run, n)
        return flows

    # ---- loops
    def same(self, a, b):
        return (a.ts == b.ts and a.store == b.store and a.facts == b.facts and a.eq == b.eq and
                (a.num is None or a.num.key() == b.num.key()))

    def dump_diff(self, m, old):
        print("---- ts", m.ts == old.ts, len(m.store), len(old.store))
        for l in set(m.store) | set(old.store):
            a, b = m.store.get(l), old.store.get(l)
            if a is not b:
                print("  store", show(l), "\n     ", show(b, lim=12) if b else b, "\n   -> ", show(a, lim=12) if a else a)
        for n in ("facts", "eq"):
            x, y = getattr(m, n), getattr(old, n)
            for l in set(x) | set(y):
                if x.get(l) is not y.get(l):
                    print("  ", n, show(l), y.get(l), x.get(l))
        if m.num is not None and m.num.key() != old.num.key():
            for q in list(m.num.key() ^ old.num.key())[:20]:
                print("   num", show(q[0]), show(q[1]), q[2])

    def loop(self, states, site, step):
        heads = {}
        hexits = {}
        hflows = {}
        pending = states
        for it in range(60):
            changed = []
            for s in pending:
                k = self.C.key(self, s)
                old = heads.get(k)
                if old is None:
                    heads[k] = s.copy()
                    if k not in changed:
                        changed.append(k)
                else:
                    m = self.merge2([old.copy(), s], site, widen=old if it >= 3 else None)
                    self.C.merged(self, m, k)
                    if not self.same(m, old):
                        if it > 50 and DEBUG_LOOP:
                            self.dump_diff(m, old)
                        heads[k] = m
                        if k not in changed:
                            changed.append(k)
            if not changed:
                break
            pending = []
            for k in changed:
                ex, back, fl = step([heads[k].copy()])
                hexits[k] = ex
                hflows[k] = fl
                pending += back
        else:
            raise AnalysisError("loop does not stabilise at %s" % show(site))
        flows = {}
        nxt = []
        for k in heads:
            nxt += hexits[k]
            for kk, v in hflows[k].items():
                flows.setdefault(kk, []).extend(v)
        flows["next"] = nxt
        return flows

    def gen_loop(self, n, states, cond, body, inc, cv=None, post=False):
        site = mk("site", self.ctx, self.site(n), "loop")

        def run_body(ss):
            f = self.exec(body, ss)
            back = f.pop("next", []) + f.pop("cont", [])
            brk = f.pop("brk", [])
            if inc is not None:
                out = []
                for s in back:
                    out += [s2 for s2, _ in self.ev(inc, s)]
                back = out
            return back, brk, f

        def test(ss):
            ins, outs = [], []
            for s in ss:
                cur = [s]
                if cv is not None:
                    cur = self.decl(cv, cur, n)
                for c in cur:
                    if cond is None:
                        ins.append(c)
                    else:
                        for s2, b in self.cond(cond, c):
                            (ins if b else outs).append(s2)
            return ins, outs

        def step(ss):
            if post:
                back, brk, fl = run_body(ss)
                ins, outs = test(back)
                return outs + brk, ins, fl
            ins, outs = test(ss)
            ins = self.limit(ins, n)
            back, brk, fl = run_body(ins)
            return outs + brk, back, fl

        # concrete unrolling while the condition is decided
        total = {"next": []}
        todo = []
        literal = cond is None or (cond.get("k") == "CXXBoolLiteralExpr") or ("v" in cond and cond["k"] not in ("BinaryOperator",))
        if post or literal:
            todo = states
        elif self.C.split_unroll:
            cur = states
            for _ in range(self.C.unroll):
                go = []
                for s in cur:
                    probe = s.copy()
                    b0 = self.stats["branches"]
                    ins, outs = test([probe])
                    if self.stats["branches"] != b0 or len(ins) + len(outs) != 1:
                        todo.append(s)
                        continue
                    total["next"] += outs
                    go += ins
                if not go:
                    cur = []
                    break
                back, brk, fl = run_body(go)
                total["next"] += brk
                for kk, v in fl.items():
                    total.setdefault(kk, []).extend(v)
                cur = self.limit(back, n)
            todo += cur
        else:
            for s in states:
                cur = [s]
                ok = True
                for _ in range(self.C.unroll):
                    if not cur:
                        break
                    if len(cur) != 1:
                        ok = False
                        break
                    probe = cur[0].copy()
                    b0 = self.stats["branches"]
                    ins, outs = test([probe])
                    if self.stats["branches"] != b0 or len(ins) + len(outs) != 1:
                        ok = False
                        break
                    if outs:
                        total["next"] += outs
                        cur = []
                        break
                    back, brk, fl = run_body(ins)
                    total["next"] += brk
                    for kk, v in fl.items():
                        total.setdefault(kk, []).extend(v)
                    cur = back
                else:
                    ok = False
                if not ok or cur:
                    todo += cur
        if todo:
            f = self.loop(todo, site, step)
            for kk, v in f.items():
                total.setdefault(kk, []).extend(v)
        total["next"] = self.limit(total["next"], n)
        return total

    def ex_WhileStmt(self, n, states):
        return self.gen_loop(n, states, n["cond"], n["body"], None, n.get("cv"))

    def ex_DoStmt(self, n, states):
        return self.gen_loop(n, states, n["cond"], n["body"], None, None, post=True)

    def ex_ForStmt(self, n, states):
        if n.get("init"):
            f = self.exec(n["init"], states)
            states = f["next"]
        return self.gen_loop(n, states, n.get("cond"), n["body"], n.get("inc"), n.get("cv"))

    def ex_CXXForRangeStmt(self, n, states):
        if n.get("init"):
            states = self.exec(n["init"], states)["next"]
        flows = {"next": []}
        var = n["var"]
        generic = []
        for s in states:
            for s2, l in self.lv(n["range"], s):
                v = self.load(s2, l)
                if v.op == "ref":
                    l = v.a[0]
                    v = self.load(s2, l)
                items = self.models.exact_items(self, v)
                if items is not None and len(items) <= self.C.unroll:
                    cur = [s2]
                    for i, itv in enumerate(items):
                        if not cur:
                            break
                        nxt = []
                        for s3 in cur:
                            nxt += self.bind_loop_var(s3, var, l, itv, const(i), v)
                        f = self.exec(n["body"], nxt)
                        cur = f.pop("next", []) + f.pop("cont", [])
                        flows["next"] += f.pop("brk", [])
                        for kk, x in f.items():
                            flows.setdefault(kk, []).extend(x)
                        cur = self.limit(cur, n)
                    flows["next"] += cur
                else:
                    generic.append((s2, l))
        for s2, l in generic:
            site = mk("site", self.ctx, self.site(n), "loop")
            itn = mk("it", site)

            il = mk("L", self.ctx, ("itx", site.id)) if self.C.num else None

            def step(ss, l=l):
                outs, ins = [], []
                for s in ss:
                    v = self.load(s, l)
                    if il is not None:
                        # a counted loop over the elements
                        i = self.load(s, il)
                        sz = self.models.size_of(self, s, v)
                        o = s.copy()
                        if self.assume(o, self.mkeq(self.resolve(o, i), self.resolve(o, sz)), True):
                            self.add_le(o, lin_add(i, sz, -1))
                            self.add_le(o, lin_add(sz, i, -1))
                            del o.store[il]
                            outs.append(o)
                        if not self.assume(s, self.mklt(self.resolve(s, i), self.resolve(s, sz)), True):
                            continue
                        ins += self.bind_loop_var(s, var, l, None, i, v)
                        continue
                    outs.append(s.copy())
                    s.facts = {f: b for f, b in s.facts.items() if itn not in phis(f)}
                    s.eq = {f: b for f, b in s.eq.items() if itn not in phis(f)}
                    ins += self.bind_loop_var(s, var, l, None, itn, v)
                f = self.exec(n["body"], ins)
                back = f.pop("next", []) + f.pop("cont", [])
                brk = f.pop("brk", [])
                if il is not None:
                    for s in back:
                        s.store[il] = lin_add(self.resolve(s, self.load(s, il)), const(1))
                    for s in brk:
                        s.store.pop(il, None)
                return outs + brk, back, f
            if il is not None:
                s2.store[il] = ZERO
            f = self.loop([s2], site, step)
            for kk, v in f.items():
                flows.setdefault(kk, []).extend(v)
        flows["next"] = self.limit(flows["next"], n)
        return flows

    def bind_loop_var(self, s, var, cloc, itv, i, cv):
        loc = mk("L", self.ctx, var["d"])
        if itv is not None:
            if is_ref(var["t"]):
                if cv.op == "vec":
                    s.store[loc] = mk("ref", mk("E", cloc, i))
                else:
                    tl = mk("L", self.ctx, var["d"] + "!t")
                    s.store[tl] = itv
                    s.store[loc] = mk("ref", tl)
            else:
                s.store[loc] = itv
        else:
            el = mk("E", cloc, i)
            if is_ref(var["t"]):
                s.store[loc] = mk("ref", el)
            else:
                s.store[loc] = self.load(s, el)
        if var.get("bindings"):
            l = s.store[loc]
            l = l.a[0] if l.op == "ref" else loc
            self.bindings(var, s, l)
        return [s]

    # ------------------------------------------------------------ merging
    def flagkey(self, s):
        return tuple(sorted(((l.id, v.a[0] if not isinstance(v.a[0], bytes) else 0) for l, v in s.store.items()
                             if l.op == "L" and v.op == "c" and not isinstance(v.a[0], (bytes, float))), key=str))

    def merge(self, states, site, limit):
        if len(states) <= 1:
            return states
        # exact duplicates first
        uniq = []
        seen = {}
        for s in states:
            k = (self.C.key(self, s), len(s.store), len(s.facts))
            dup = False
            for o in seen.get(k, []):
                if self.same(s, o) and s.ret is o.ret:
                    dup = True
                    break
            if not dup:
                seen.setdefault(k, []).append(s)
                uniq.append(s)
        if len(uniq) <= limit:
            return uniq
        groups = {}
        for s in uniq:
            groups.setdefault((self.C.key(self, s), self.flagkey(s)), []).append(s)
        if len(groups) > limit:
            groups = {}
            for s in uniq:
                groups.setdefault(self.C.key(self, s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            k = self.C.key(self, g[0])
            out.append(self.merge2(g, site))
            self.C.merged(self, out[-1], k)
        return out

    def merge2(self, states, site, widen=None):
        """Join states with equal client keys."""
        first = states[0]
        locs = set(first.store)
        for s in states[1:]:
            locs &= set(s.store)
        # which S/G/O roots are only present in some: others hold their default
        allr = set()
        for s in states:
            allr |= {l for l in s.store if l.op in ("S", "G", "O", "F")}
        for l in allr - locs:
            for s in states:
                if l not in s.store:
                    if l.op == "S":
                        s.store[l] = mk("obj", l.a[0])
                    elif l.op == "G":
                        s.store[l] = self.load_global(s, l)
            if all(l in s.store for s in states):
                locs.add(l)
        newstore = {}
        phimap = {}   # phi -> list of values per state

        def mv(vals, path):
            v0 = vals[0]
            if all(v is v0 for v in vals):
                return v0
            if self.C.positions and all(v.op == "p" and v.a[0].op == "E" and v.a[0].a[0] is vals[0].a[0].a[0] for v in vals):
                # positions in the same container
                return mk("p", mk("E", vals[0].a[0].a[0], mv([v.a[0].a[1] for v in vals], path + ("pos",))))
            if self.C.positions and all(v.op == "ss" and len(v.a) == 1 for v in vals):
                return mk("ss", mv([v.a[0] for v in vals], path + ("ss",)))
            cls = {v.a[0] for v in vals if v.op == "s"}
            ss = [v for v in vals if v.op == "s"]
            if ss and mk("phi", site, path) not in vals:
                bases = {v.a[2] if v.op == "s" else v for v in vals}
                if len(bases) == 1 and len(cls) == 1:
                    base = bases.pop()
                    fields = set()
                    for v in vals:
                        if v.op == "s":
                            fields |= {k for k, _ in v.a[1]}
                    fs = []
                    for f in sorted(fields):
                        fs.append((f, mv([self.fld(s, v, f) for s, v in zip(states, vals)], path + (f,))))
                    return mk("s", cls.pop(), tuple(fs), base)
            p = mk("phi", site, path)
            for v in vals:
                if v in self.utype or (v.op == "c" and isinstance(v.a[0], int) and v.a[0] >= 0):
                    continue
                break
            else:
                if any(v in self.utype for v in vals):
                    self.utype.add(p)
            phimap[p] = vals
            return p
        for l in locs:
            newstore[l] = mv([s.store[l] for s in states], (l,))
        # stale phis: a phi redefined here whose old meaning is still mentioned
        if phimap:
            stale = [{p for p, vals in phimap.items() if vals[i] is not p} for i in range(len(states))]
            anystale = set().union(*stale)
            fresh_phis = set(phimap)

            def clean(v, vals, path):
                """v holds only values that mean the same after the phis were redefined."""
                if v in fresh_phis or not (phis(v) & anystale):
                    return v
                if self.C.positions and v.op == "p" and v.a[0].op == "E" and all(w.op == "p" and w.a[0].op == "E" and w.a[0].a[0] is v.a[0].a[0] for w in vals):
                    if phis(v.a[0].a[0]) & anystale:
                        return mk("phi", site, path + ("place",))
                    return mk("p", mk("E", v.a[0].a[0], clean(v.a[0].a[1], [w.a[0].a[1] for w in vals], path + ("pos",))))
                if self.C.positions and all(w.op == "ss" and len(w.a) == 1 for w in [v] + list(vals)):
                    return mk("ss", clean(v.a[0], [w.a[0] for w in vals], path + ("ss",)))
                if v.op == "s" and not (v.a[2] is not None and phis(v.a[2]) & anystale and v.a[2] not in fresh_phis):
                    fs = []
                    for f, x in v.a[1]:
                        fs.append((f, clean(x, [self.fld(s, w, f) for s, w in zip(states, vals)], path + (f,))))
                    return mk("s", v.a[0], tuple(fs), v.a[2])
                if not any(phis(w) & stale[i] for i, w in enumerate(vals)):
                    return v
                p = mk("phi", site, path + ("stale",))
                phimap[p] = vals
                return p
            for l in list(newstore):
                if phis(l) & anystale:
                    # the name of this place has changed its meaning: whatever it holds now is unknown
                    newstore[l] = mk("phi", site, (l, "place"))
                    continue
                newstore[l] = clean(newstore[l], [s.store[l] for s in states], (l,))
        else:
            stale = [set() for _ in states]
        facts = {}
        for f, b in first.facts.items():
            if all(s.facts.get(f) == b for s in states[1:]):
                if phimap and any(phis(f) & st for st in stale):
                    continue
                facts[f] = b
        eq = {}
        for f, b in first.eq.items():
            if all(s.eq.get(f) is b for s in states[1:]):
                if phimap and any(phis(f) & st for st in stale):
                    continue
                eq[f] = b
        out = first
        num = None
        if first.num is not None:
            for p, vals in phimap.items():
                text = self.found_in(states, vals)
                if text is not None and not phis(text) & set().union(*stale, phimap):
                    facts[mk("found", p, text)] = True
            num = self.merge_num(states, phimap, stale, widen)
        out.store = newstore
        out.facts = facts
        out.eq = eq
        out.num = num
        return out

    FIND = ("string::find", "string::rfind", "string::find_first_of", "string::find_last_of", "string::find_first_not_of", "string::find_last_not_of")

    def found_in(self, states, vals):
        """The text in which each of the values is where a search found at least one byte, or npos, if it is one text."""
        text = None
        for s, v in zip(states, vals):
            if v.op == "c" and v.a[0] == self.models.NPOS:
                continue
            if v.op == "m" and v.a[0] in self.FIND and (v.a[0].endswith("_of") or v.a[2].op == "chr" or v.a[2].op == "c" and v.a[2].a[0] != b""):
                t = v.a[1]
            elif v.op == "phi":
                t = next((f.a[1] for f, b in s.facts.items() if b and f.op == "found" and f.a[0] is v), None)
            else:
                return None
            if t is None or text is not None and t is not text:
                return None
            text = t
        return text

    def merge_num(self, states, phimap, stale, widen):
        ms = []
        sizes = []
        if self.C.positions:
            for p, vals in phimap.items():
                if any(v.op in ("cat", "chr", "fill", "sub") or v.op == "c" and isinstance(v.a[0], bytes) for v in vals) or any(
                        mk("m", "size", x) in s.num.d for s, v in zip(states, vals) for x in (p, v)):
                    sizes.append((p, self.models.size_of(self, states[0], p)))
        lengths = {n for _, n in sizes}
        for i, s in enumerate(states):
            tmp = {}
            known = {}
            todo = [(p, vals[i]) for p, vals in phimap.items()]
            for p, n in sizes:
                v = self.resolve_l(s, phimap[p][i])
                if v is not p:
                    self.axioms(s, n)
                    todo.append((n, self.models.size_of(self, s, v)))
            for p, v in todo:
                v = self.resolve_l(s, v)
                if v is p:
                    continue
                known[p] = v
                c, d = lin_parts(v)
                if v.op == "c" and not isinstance(v.a[0], int):
                    continue
                t = mk("phi*", p)
                if not d:
                    s.num.add(t, ZERO, c)
                    s.num.add(ZERO, t, -c)
                    tmp[t] = p
                elif len(d) == 1 and list(d.values()) == [1]:
                    x = next(iter(d))
                    self.axioms(s, x)
                    s.num.add(t, x, c)
                    s.num.add(x, t, -c)
                    tmp[t] = p
                elif len(d) == 2 and all(k == 1 for k in d.values()) or self.C.positions and len(d) == 1 and 1 < next(iter(d.values())) <= 8:
                    x = lin_make(0, d)
                    self.axioms(s, x)
                    self.refresh(s)
                    s.num.add(t, x, c)
                    s.num.add(x, t, -c)
                    tmp[t] = p
                elif len(d) <= 4:
                    # a sum or difference: keep what is known of it against either part and in itself
                    for y in [ZERO] + list(d):
                        u = self.upper(s, v if y is ZERO else lin_add(v, y, -1))
                        if u is not None:
                            s.num.add(t, y, u)
                        u = self.upper(s, lin_add(y, v, -1))
                        if u is not None:
                            s.num.add(y, t, u)
                    if t in s.num.d:
                        tmp[t] = p
                if p in lengths:
                    s.num.add(ZERO, t, 0)
                    tmp[t] = p
            for _, a in sizes:
                # how the merged lengths compare with the merged numbers
                if a not in known:
                    continue
                for b, w in known.items():
                    ta, tb = mk("phi*", a), mk("phi*", b)
                    if b is a or ta not in tmp or tb not in tmp:
                        continue
                    u = self.upper(s, lin_add(known[a], w, -1))
                    if u is not None:
                        s.num.add(ta, tb, u)
                    u = self.upper(s, lin_add(w, known[a], -1))
                    if u is not None:
                        s.num.add(tb, ta, u)
            n = s.num
            st_ = stale[i] if stale else set()
            if st_:
                n.forget(lambda x: bool(phis(x) & st_) and x.op != "phi*")
            if tmp:
                n._own()
                d2 = {}
                for x, r in n.d.items():
                    d2[tmp.get(x, x)] = {tmp.get(y, y): c for y, c in r.items()}
                n.d = d2
            ms.append(n)
        base = ms[0]
        # make sure variables present in one but not others keep their axioms
        allv = set()
        for m in ms:
            allv |= set(m.d)
        for i, m in enumerate(ms):
            for x in allv:
                if x not in m.d:
                    s = states[i]
                    s.num = m
                    self.axioms(s, x)
        res = Num()
        for x in allv:
            res.d[x] = {}
            for y in ms[0].d.get(x, {}):
                best = None
                for m in ms:
                    c = m.get(x, y)
                    if c is None:
                        best = None
                        break
                    best = c if best is None else max(best, c)
                if best is not None:
                    if widen is not None and x is not y:
                        o = widen.num.get(x, y)
                        if o is None or best > o:
                            ts = [t for t in self.C.thresholds or () if t >= best] if y is ZERO else ()
                            if not ts:
                                continue
                            best = min(ts)
                    res.d[x][y] = best
            res.d[x][x] = 0
        if ZERO not in res.d:
            res.d[ZERO] = {ZERO: 0}
        return res
