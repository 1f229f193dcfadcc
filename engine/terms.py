"""Hash-consed terms: the abstract values and locations of the interpreter."""


class T:
    __slots__ = ("op", "a", "id", "u")

    def __repr__(self):
        return show(self)


_tab = {}


def _key(x):
    # bools, ints and floats that compare equal must not be confused
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return ("f", x)
    return x


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.u = None
        _tab[k] = t
    return t


def const(v):
    if isinstance(v, bool):
        v = int(v)
    return mk("c", v)


TRUE = const(1)
FALSE = const(0)
NULL = mk("c", None)
ZERO = const(0)
UNDEF = mk("undef")
VOID = mk("void")


def isc(t):
    return t.op == "c"


def cval(t):
    return t.a[0]


def show(t, depth=0, lim=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1, lim) for x in t) + ")"
        return repr(t) if isinstance(t, (bytes,)) else str(t)
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, bytes):
            return repr(v.decode("utf-8", "replace"))
        return "null" if v is None else str(v)
    if depth > lim:
        return ".."
    if t.op in ("ctx", "site", "at"):
        return "#%d" % t.id
    if t.op == "fld":
        return show(t.a[0], depth + 1, lim) + "." + t.a[1].split("::")[-1]
    if t.op == "obj":
        return "*" + show(t.a[0], depth + 1, lim)
    if t.op in ("param", "this"):
        return "/".join(str(x) for x in t.a) or "this"
    if t.op == "m":
        return "%s(%s)" % (t.a[0].split("::")[-1], ",".join(show(x, depth + 1, lim) for x in t.a[1:]))
    if t.op == "lin":
        parts = []
        for v, c in t.a[1]:
            parts.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + show(v, depth + 1, lim))
        if t.a[0]:
            parts.append(str(t.a[0]))
        return "+".join(parts)
    return "%s(%s)" % (t.op, ",".join(show(x, depth + 1, lim) for x in t.a))


def contains(t, pred, _seen=None):
    """Whether some subterm satisfies pred."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                return True
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return False


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


# ---- linear forms -------------------------------------------------------

def lin_parts(t):
    """(constant, {term: coef}) for an integer-like term."""
    if t.op == "c":
        v = t.a[0]
        if isinstance(v, int):
            return v, {}
        return 0, {t: 1}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin_make(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def lin_add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sign * v
    return lin_make(ca + sign * cb, da)


def lin_scale(a, k):
    c, d = lin_parts(a)
    return lin_make(c * k, {t: v * k for t, v in d.items()})


class Num:
    """Difference constraints x - y <= c, kept transitively closed."""
    __slots__ = ("d", "shared")

    def __init__(self):
        self.d = {}       # x -> {y: c}
        self.shared = False

    def copy(self):
        n = Num()
        n.d = self.d
        n.shared = True
        self.shared = True
        return n

    def _own(self):
        if self.shared:
            self.d = {k: dict(v) for k, v in self.d.items()}
            self.shared = False

    def vars(self):
        return self.d.keys()

    def get(self, x, y):
        if x is y:
            return 0
        r = self.d.get(x)
        if r is None:
            return None
        return r.get(y)

    def ensure(self, x):
        if x in self.d:
            return
        self._own()
        self.d[x] = {x: 0}
        if x is not ZERO:
            if ZERO not in self.d:
                self.d[ZERO] = {ZERO: 0}

    def add(self, x, y, c):
        """x - y <= c. Returns False if inconsistent."""
        self.ensure(x)
        self.ensure(y)
        if x is y:
            return c >= 0
        cur = self.get(x, y)
        if cur is not None and cur <= c:
            return True
        back = self.get(y, x)
        if back is not None and back + c < 0:
            return False
        self._own()
        d = self.d
        ins = [(u, r[x]) for u, r in d.items() if x in r]
        outs = list(d[y].items())
        for u, a in ins:
            ru = d[u]
            for v, b in outs:
                w = a + c + b
                o = ru.get(v)
                if o is None or w < o:
                    if u is v:
                        if w < 0:
                            return False
                        continue
                    ru[v] = w
        return True

    def forget(self, pred):
        dead = [x for x in self.d if x is not ZERO and pred(x)]
        if not dead:
            return
        self._own()
        ds = set(dead)
        for x in dead:
            del self.d[x]
        for r in self.d.values():
            for x in ds:
                r.pop(x, None)

    def key(self):
        return frozenset((x, y, c) for x, r in self.d.items() for y, c in r.items() if x is not y)
