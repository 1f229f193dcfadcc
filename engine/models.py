"""Models of the library types and functions the repository uses.

Smart pointers are their raw pointer, std::function its callable, iterators of
vectors and strings pointers into the container, string constants byte strings.
Everything without a model stays an opaque (pure or effectful) term.
"""
import re
from terms import *
from program import AnalysisError


def base_name(q):
    return q.split("::")[-1]

_canon = {}


def strip_targs(q):
    out = []
    d = 0
    i = 0
    n = len(q)
    while i < n:
        c = q[i]
        if c == "<" and q[max(0, i - 8):i] != "operator" and not q.startswith("operator<", i - 8):
            d += 1
        elif c == ">" and d > 0 and q[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def canon(q):
    r = _canon.get(q)
    if r is not None:
        return r
    r = q
    m = re.search(r"(operator(?:<<|<=>|<=|<|>>|->\*|->|>=|>)=?)$", q)
    tail = ""
    if m:
        tail = m.group(1)
        r = q[:m.start()]
    r = strip_targs(r) + tail
    r = r.replace("std::__cxx11::", "std::")
    for a, b in (("std::basic_string_view", "std::string"), ("std::basic_string", "std::string"),
                 ("std::__shared_ptr_access", "std::shared_ptr"), ("std::__shared_ptr", "std::shared_ptr"),
                 ("std::unordered_map", "std::map"), ("std::unordered_set", "std::set"),
                 ("__gnu_cxx::__normal_iterator", "iter"),
                 ("std::basic_ostringstream", "std::stringstream"), ("std::basic_stringstream", "std::stringstream"),
                 ("std::basic_istringstream", "std::stringstream"),
                 ("std::basic_ostream", "std::ostream"), ("std::basic_ofstream", "std::ofstream"),
                 ("std::_Rb_tree_const_iterator", "mapiter"), ("std::_Rb_tree_iterator", "mapiter"),
                 ("std::__detail::_Node_iterator_base", "mapiter"), ("std::__detail::_Node_const_iterator", "mapiter"),
                 ("std::__detail::_Node_iterator", "mapiter"), ("std::_List_iterator", "mapiter"),
                 ("std::_List_const_iterator", "mapiter"), ("std::reverse_iterator", "riter"),
                 ("std::filesystem::path", "std::string_path")):
        if r.startswith(a) and (len(r) == len(a) or r[len(a)] == ":"):
            r = b + r[len(a):]
            break
    _canon[q] = r
    return r


PURE_FREE = {
    "toupper", "tolower", "isalnum", "isalpha", "isdigit", "isprint", "islower", "isupper", "ispunct", "isspace",
    "std::toupper", "std::tolower", "std::isalnum", "std::isalpha", "std::isdigit", "std::isprint", "std::islower",
    "std::isupper", "std::ispunct", "std::to_string", "fmt::format", "fmt::vformat", "strcmp", "strlen", "strncmp",
    "memcmp", "fcitx::translate", "fcitx::translateDomain", "fcitx::utf8::length", "std::operator==", "std::operator!=",
    "std::operator<", "std::stoi", "std::stod", "std::abs", "std::pow", "std::log", "std::log10", "log10", "pow",
    "std::setw", "std::setfill", "std::next", "std::prev", "std::chrono::operator-", "std::distance",
    "fcitx::utf8::lengthValidated", "fcitx::utf8::validate", "std::numeric_limits::lowest", "std::numeric_limits::max",
    "std::numeric_limits::min", "std::numeric_limits::infinity", "std::operator>", "std::operator<=", "std::operator>=",
    "fcitx::stringutils::trim", "std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::find", "std::count_if",
}


def is_pure(q):
    return canon(q) in PURE_FREE


CONT = {"std::vector", "std::string", "std::deque", "std::array", "std::stack", "std::list"}
SEQ_OPS = ("vec", "push", "ins", "ers", "pop", "rsz", "upd", "cat", "perm")


def is_string_type(t):
    t = t.strip()
    t = re.sub(r"^const ", "", t)
    t = re.sub(r"( const)?\s*&{0,2}$", "", t)
    return t.startswith(("std::basic_string", "std::string", "std::__cxx11::basic_string"))


def type_head(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    return canon(t.rstrip("& "))


def conv(v):
    return v


def cat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "cat" else (p,)
        for x in ps:
            if x.op == "c" and isinstance(x.a[0], bytes):
                if not x.a[0]:
                    continue
                if out and out[-1].op == "c" and isinstance(out[-1].a[0], bytes):
                    out[-1] = const(out[-1].a[0] + x.a[0])
                    continue
            out.append(x)
    if not out:
        return const(b"")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def chr_term(I, st, c):
    c = I.resolve(st, c)
    if c.op == "c" and isinstance(c.a[0], int):
        return const(bytes([c.a[0] & 255]))
    return mk("chr", c)


def iter_deref(I, st, p):
    if p.op == "mapit":
        loc = mk("Tmp", "mapit", p.id)
        st.store[loc] = mk("pair", p.a[1], p.a[2])
        return loc
    return None


def axioms(I, st, t):
    h = getattr(I.C, "axioms", None)
    if h:
        h(I, st, t)


def exact_items(I, v):
    if v.op == "vec":
        return list(v.a[0])
    if v.op == "map":
        return [mk("pair", k, x) for k, x in v.a[0]]
    if v.op == "c" and isinstance(v.a[0], bytes):
        return [const(b if b < 128 else b - 256) for b in v.a[0]]
    return None


def removed(I, st, v, i, n):
    """v without the n entries from i."""
    if v.op == "vec":
        k, m = cval(I.resolve(st, i)), cval(I.resolve(st, n))
        if isinstance(k, int) and isinstance(m, int) and 0 <= k and 0 <= m and k + m <= len(v.a[0]):
            return mk("vec", v.a[0][:k] + v.a[0][k + m:])
    return mk("ers", v, i, n)


def inserted(I, st, v, i, x):
    """v with x before entry i."""
    if v.op == "vec":
        k = cval(I.resolve(st, i))
        if isinstance(k, int) and 0 <= k <= len(v.a[0]):
            return mk("vec", v.a[0][:k] + (x,) + v.a[0][k:])
    return mk("ins", v, i, const(1), x)


def size_of(I, st, v):
    op = v.op
    if op == "c":
        if isinstance(v.a[0], bytes):
            return const(len(v.a[0]))
    elif op == "vec" or op == "map":
        return const(len(v.a[0]))
    elif op == "push":
        return lin_add(size_of(I, st, v.a[0]), const(1))
    elif op == "pop":
        return lin_add(size_of(I, st, v.a[0]), const(-1))
    elif op == "ins":
        return lin_add(size_of(I, st, v.a[0]), v.a[2])
    elif op == "ers":
        return lin_add(size_of(I, st, v.a[0]), v.a[2], -1)
    elif op == "rsz":
        return v.a[1]
    elif op in ("upd", "perm"):
        return size_of(I, st, v.a[0])
    elif op == "chr":
        return const(1)
    elif op == "cat":
        r = ZERO
        for x in v.a:
            r = lin_add(r, size_of(I, st, x))
        return r
    elif op == "sv":
        return v.a[1]
    elif op == "fill":
        return v.a[0]
    elif op == "sub" :
        return v.a[2]
    elif op == "s" and v.a[2] is not None and not v.a[0]:
        return size_of(I, st, v.a[2])
    t = mk("m", "size", v)
    I.utype.add(t)
    return t


def default_value(I, t):
    h = type_head(t)
    if h == "std::string" or h == "std::string_path":
        return const(b"")
    if h in ("std::vector", "std::deque", "std::list", "std::stack"):
        return mk("vec", ())
    if h in ("std::map", "std::set"):
        return mk("map", ())
    if h in ("std::unique_ptr", "std::shared_ptr", "std::function", "std::optional"):
        return NULL
    if h == "std::stringstream":
        return mk("ss", const(b""))
    if h == "std::pair":
        return mk("pair", UNDEF, UNDEF)
    return None


def null_moved(I, st, call, i=0):
    l = call.alocs[i]
    pt = call.atypes[i] if call.atypes else ""
    if l is not None and pt.endswith("&&") and l.op != "Tmp":
        I.wr(st, l, NULL, call.node)


def construct(I, st, call, cls, e):
    h = type_head(cls)
    a = call.args
    n = len(a)
    if h in ("std::function", "std::unique_ptr", "std::shared_ptr"):
        if n == 0:
            return [(st, NULL)]
        v = a[0]
        if h != "std::function":
            null_moved(I, st, call)
        return [(st, v)]
    if h == "std::string" or h == "std::string_path":
        return [(st, mk_string(I, st, call, e))]
    if h == "std::stack" and n == 0:
        return [(st, mk("vec", ()))]
    if h in ("std::vector", "std::deque", "std::list"):
        if n == 0 or (n == 1 and "allocator" in (call.atypes[0] if call.atypes else "")):
            return [(st, mk("vec", ()))]
        pt = call.atypes[0]
        if "initializer_list" in pt:
            return [(st, a[0])]
        if pt.startswith("unsigned long") or pt == "size_type" or pt.endswith("size_type"):
            k = I.resolve(st, a[0])
            x = a[1] if n >= 2 and "allocator" not in call.atypes[1] else ZERO
            if isc(k) and 0 <= cval(k) <= 256:
                return [(st, mk("vec", (x,) * cval(k)))]
            return [(st, mk("fill", k, x))]
        if n >= 2 and a[0].op == "rit" and a[1].op == "rit":
            r = span(I, st, a[1].a[0], a[0].a[0])
            if r is not None:
                return [(st, mk("vec", r.a[0][::-1]) if r.op == "vec" else mk("m", "reversed", r))]
        if n >= 2 and a[0].op == "p" and a[1].op == "p":
            r = span(I, st, a[0], a[1])
            if r is not None:
                return [(st, r)]
        return None
    if h in ("std::map", "std::set"):
        if n == 0:
            return [(st, mk("map", ()))]
        if a[0].op == "vec":
            items = []
            for x in a[0].a[0]:
                if h == "std::set":
                    items.append((x, x))
                    continue
                if x.op == "pair":
                    items.append((x.a[0], x.a[1]))
                elif x.op == "vec" and len(x.a[0]) == 2:
                    items.append((x.a[0][0], x.a[0][1]))
                else:
                    return None
            d = {}
            for k, x in items:
                d.setdefault(k, x)
            return [(st, mk("map", tuple(sorted(d.items(), key=lambda kv: kv[0].id))))]
        return None
    if h == "std::pair":
        if n == 2:
            return [(st, mk("pair", a[0], a[1]))]
        if n == 0:
            return [(st, mk("pair", UNDEF, UNDEF))]
        if n == 1:
            return [(st, a[0])]
    if h == "std::optional":
        if n == 0 or (a[0].op == "ctor" and "nullopt" in str(a[0].a[0])) or "nullopt" in (call.atypes[0] if call.atypes else ""):
            return [(st, NULL)]
        if a[0].op == "some":
            return [(st, a[0])]
        if call.atypes and "optional" in call.atypes[0]:
            return [(st, a[0])]
        return [(st, mk("some", a[0]))]
    if h == "std::stringstream":
        if n and is_string_type(call.atypes[0]):
            return [(st, mk("ss", a[0]))]
        return [(st, mk("ss", const(b"")))]
    if h in ("iter", "mapiter", "riter") and n == 1:
        return [(st, a[0])]
    if h == "std::initializer_list":
        return [(st, a[0])]
    if h == "std::allocator":
        return [(st, VOID)]
    return None


def as_view(v):
    return v


def mk_string(I, st, call, e):
    a = [x for x, t in zip(call.args, list(call.atypes) + [""] * 9) if "allocator" not in t]
    ts = [t for t in call.atypes if "allocator" not in t]
    if not a:
        return const(b"")
    if len(a) == 1:
        v = a[0]
        if v.op == "p" and v.a[0].op == "E" and v.a[0].a[1] is ZERO:
            b = I.load(st, v.a[0].a[0])
            return mk("m", "cstr", b)
        if "filesystem" in ts[0] and False:
            return v
        return v
    if len(a) == 2:
        v, w = a
        if v.op == "p" and w.op == "p":
            r = span(I, st, v, w)
            if r is not None:
                return r
            return mk("m", "range", v, w)
        k = I.resolve(st, w)
        if v.op == "c" and isinstance(v.a[0], bytes) and isc(k):
            return const(v.a[0][:cval(k)])
        if ts[0].startswith("unsigned long") or ts[0].endswith("size_type"):
            v = I.resolve(st, v)
            c = chr_term(I, st, w)
            if isc(v) and c.op == "c" and cval(v) <= 64:
                return const(cval(c) * cval(v))
            return mk("fill", v, c)
        if is_string_type(ts[0]):
            return substr(I, st, v, w, None)
        return mk("sv", v, k)
    if len(a) >= 3 and is_string_type(ts[0]):
        return substr(I, st, a[0], a[1], a[2])
    return mk("m", "string", *a)


NPOS = (1 << 64) - 1
# constants of the standard library, where they are read through a reference
CONSTANTS = {"std::ios_base::app": 1, "std::ios_base::ate": 2, "std::ios_base::binary": 4, "std::ios_base::in": 8,
             "std::ios_base::out": 16, "std::ios_base::trunc": 32, "npos": NPOS}


def substr(I, st, v, pos, n):
    pos = I.resolve(st, pos)
    n = I.resolve(st, n) if n is not None else const(NPOS)
    if isc(pos) and cval(pos) == 0 and isc(n) and cval(n) == NPOS:
        return v
    if v.op == "c" and isc(pos) and isc(n):
        return const(v.a[0][cval(pos):cval(pos) + cval(n)])
    if isc(n) and cval(n) == NPOS:
        return mk("sub", v, pos, lin_add(I.resolve(st, size_of(I, st, v)), pos, -1))
    if getattr(I.C, "exactsub", False):          # the client checks that the cut lies inside the text
        return const(b"") if n is ZERO else v if pos is ZERO and n is I.resolve(st, size_of(I, st, v)) else mk("sub", v, pos, n)
    return mk("m", "substr", v, pos, n)


def span(I, st, p, q):
    """Sequence between two pointers into one container."""
    lp, lq = p.a[0], q.a[0]
    if lp.op == "E" and lq.op == "E" and lp.a[0] is lq.a[0]:
        v = I.load(st, lp.a[0])
        i, j = I.resolve(st, lp.a[1]), I.resolve(st, lq.a[1])
        sz = size_of(I, st, v)
        if isc(i) and cval(i) == 0 and I.resolve(st, lin_add(j, sz, -1)) is ZERO:
            return v
        if isc(i) and isc(j):
            if v.op == "c":
                return const(v.a[0][cval(i):cval(j)])
            if v.op == "vec":
                return mk("vec", v.a[0][cval(i):cval(j)])
        return mk("sub", v, i, lin_add(j, i, -1))
    return None


def strval(v):
    return v.op == "c" and isinstance(v.a[0], bytes)


def str_eq(I, st, a, b):
    if strval(a) and strval(b):
        return const(a.a[0] == b.a[0])
    for x, y in ((a, b), (b, a)):
        if strval(y) and not y.a[0]:
            return I.mkeq(I.resolve(st, size_of(I, st, x)), ZERO)
        if strval(y) and x.op == "cat" and any(strval(z) for z in x.a):
            if strval(x.a[0]) and not y.a[0].startswith(x.a[0].a[0][:len(y.a[0])]):
                return FALSE
        if strval(y) and getattr(I.C, "prefixes", False) and x.op == "m" and x.a[0] == "substr" and x.a[2] is ZERO and x.a[3] is const(len(y.a[0])):
            return mk("m", "starts", x.a[1], y)
    return I.mkeq(a, b)


def argtypes_of(call):
    return [a.get("t", "") for a in call.node.get("args", [])]


def norm(t):
    t = t.strip()
    if t.endswith("&&"):
        t = t[:-2].strip()
    if t.endswith("&"):
        t = t[:-1].strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith(" const"):
        t = t[:-6]
    return t.strip()


def pick_ctor(I, cls, atypes):
    rec = I.P.records.get(cls)
    best = None
    for m in rec["methods"]:
        if not m.get("ctor") or m.get("deleted"):
            continue
        pts = m["pt"]
        body = I.P.functions.get(m["u"])
        nd = 0
        if body is not None:
            nd = sum(1 for p in body["params"] if p.get("def") is not None)
        if not (len(pts) - nd <= len(atypes) <= len(pts)):
            continue
        score = 0
        for a, p in zip(atypes, pts):
            na, np_ = norm(a), norm(p)
            if na == np_:
                score += 3
            elif I.P.derives(na, np_) and na in I.P.records:
                score += 2
            elif is_string_type(np_) and ("char" in na):
                score += 2
            elif np_ in I.P.records or na in I.P.records:
                score -= 5
        if m.get("cm") == "move" and not (atypes and not True):
            score -= 0.1
        if best is None or score > best[0]:
            best = (score, m)
    return best[1] if best else None


def make_object(I, st, call, cls, loc):
    """Construct class cls from forwarded arguments at loc: [(state)]"""
    rec = I.P.records.get(cls)
    if rec is None:
        st.store[loc] = mk("ctor", cls, *call.args)
        return [st]
    ats = argtypes_of(call)
    m = pick_ctor(I, cls, ats)
    if m is None or m.get("cm") and not m.get("user"):
        if m is not None and m.get("cm") or (len(call.args) == 1 and I.P.derives(norm(ats[0]), cls)):
            st.store[loc] = call.args[0]
            return [st]
        if not call.args:
            st.store[loc] = I.default_obj(st, cls, call.node)
            return [st]
        st.store[loc] = mk("ctor", cls, *call.args)
        return [st]
    body = I.P.functions.get(m["u"])
    from interp import Call
    c = Call()
    c.fn = {"q": cls + "::" + cls.split("::")[-1], "u": m["u"], "pt": m["pt"], "rt": "void", "cls": cls, "m": True}
    c.q = c.fn["q"]
    c.node = call.node
    c.args = call.args
    c.alocs = call.alocs
    c.atypes = m["pt"]
    c.ctor = cls
    c.this = mk("p", loc)
    c.objloc = loc
    c.rt = "void"
    c.op = None
    # by-value parameters take the value; moved-from sources are emptied
    for i, pt in enumerate(m["pt"]):
        if i < len(call.alocs) and not pt.endswith("&") and call.alocs[i] is not None:
            fw = call.node["args"][i]
            if fw.get("lv") == 2:
                I.moved_from(st, call.alocs[i], call.args[i], norm(pt), call.node)
    if body is None or body.get("defaulted"):
        if m.get("cm"):
            st.store[loc] = call.args[0]
            return [st]
        st.store[loc] = I.default_obj(st, cls, call.node)
        return [st]
    out = []
    for s, _ in I.do_construct(st, c, cls, loc, call.node):
        out.append(s)
    return out


def targ(t):
    """First template argument of a type string."""
    i = t.find("<")
    if i < 0:
        return ""
    d = 0
    for j in range(i, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">":
            d -= 1
            if d == 0:
                return t[i + 1:j]
        elif t[j] == "," and d == 1:
            return t[i + 1:j]
    return ""


def obj(I, st, call):
    l = call.objloc
    v = st.store.get(l)
    if v is not None and v.op == "ref":
        l = v.a[0]
    v = I.load(st, l)
    if v.op == "ref":
        l = v.a[0]
        v = I.load(st, l)
    return l, v


def call(I, st, c):
    q = c.q
    if q is None:
        return None
    name = canon(q)
    if name.startswith("__gnu_cxx::operator"):
        name = "std::" + name[11:]
    elif name.startswith("std::__detail::operator"):
        name = "std::" + name[15:]
    f = FREE.get(name)
    if f is not None:
        return f(I, st, c)
    i = name.rfind("::")
    if i < 0:
        return None
    cls, meth = name[:i], name[i + 2:]
    if name.endswith(("operator<<", "operator->", "operator<", "operator>", "operator<=", "operator>=")):
        i = name.rfind("::operator")
        cls, meth = name[:i], name[i + 2:]
    if c.objloc is None:
        return None
    h = CLS.get(cls)
    if h is None:
        return None
    return h(I, st, c, meth)


# ------------------------------------------------------------------ free functions
def f_move(I, st, c):
    return [(st, mk("lref", c.alocs[0]) if c.alocs[0] is not None else c.args[0])]


def f_make(I, st, c):
    cls = targ(c.rt)
    if cls.endswith("[]"):
        loc = mk("O", I.ctx, I.site(c.node))
        st.store[loc] = mk("fill", I.resolve(st, c.args[0]), ZERO)
        return [(st, mk("p", mk("E", loc, ZERO)))]
    loc = mk("O", I.ctx, I.site(c.node))
    out = []
    for s in make_object(I, st, c, cls, loc):
        h = getattr(I.C, "on_alloc", None)
        if h:
            h(I, s, loc, c.node)
        out.append((s, mk("p", loc)))
    return out


def f_eq(I, st, c):
    a, b = c.args
    ta, tb = (norm(x) for x in (c.atypes + ["", ""])[:2])
    if is_string_type(ta) or is_string_type(tb) or type_head(ta) == "std::string":
        return [(st, str_eq(I, st, a, b))]
    if "nullopt" in tb or "nullopt" in ta:
        b = NULL
    return [(st, I.mkeq(I.resolve(st, a), I.resolve(st, b)))]


def f_ne(I, st, c):
    return [(s, I.mknot(v)) for s, v in f_eq(I, st, c)]


def f_lt(I, st, c):
    a, b = c.args
    if strval(a) and strval(b):
        return [(st, const(a.a[0] < b.a[0]))]
    return [(st, I.mklt(a, b))]


def f_plus(I, st, c):
    ts = [norm(t) for t in c.atypes]
    if any(is_string_type(t) for t in ts):
        ps = []
        for v, t in zip(c.args, ts):
            ps.append(chr_term(I, st, v) if t == "char" else v)
        return [(st, cat(*ps))]
    return None


def f_shl(I, st, c):
    l = c.alocs[0]
    if l is None:
        return None
    v = I.load(st, l)
    if v.op == "ss":
        I.wr(st, l, ss_put(I, st, v, c.args[1], norm(c.atypes[1])), c.node)
        return [(st, mk("lref", l))]
    I.C.on_opaque(I, st, c)
    I.wr(st, l, mk("m!", "<<", v, c.args[1]), c.node)
    return [(st, mk("lref", l))]


def ss_put(I, st, v, x, t):
    """One insertion into a string stream; formatting flags are kept with the text."""
    x = I.resolve(st, x)
    fl = dict(v.a[1].a[0]) if len(v.a) > 1 else {}
    txt = v.a[0]
    if x.op == "func":
        n = base_name(str(x.a[-1]))
        if n in ("hex", "dec", "oct"):
            fl["base"] = n
        elif n in ("uppercase", "nouppercase"):
            fl["upper"] = n == "uppercase"
        elif n in ("left", "right", "internal"):
            fl["adjust"] = n
        elif n in ("endl",):
            txt = cat(txt, const(b"\n"))
        elif n in ("flush", "ends", "boolalpha", "fixed"):
            fl[n] = True
        else:
            txt = cat(txt, mk("m", "manip", x))
    elif x.op == "m" and base_name(str(x.a[0])) in ("setw", "setfill"):
        fl[base_name(str(x.a[0]))] = x.a[1]
    else:
        if t in ("char", "unsigned char", "signed char"):
            y = chr_term(I, st, x)
        elif is_string_type(t) or t.endswith("*"):
            y = x
        elif x.op == "c" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
            b = fl.get("base", "dec")
            y = const((("%x" if b == "hex" else "%o" if b == "oct" else "%d") % x.a[0]).encode())
            if b == "hex" and fl.get("upper"):
                y = const(y.a[0].upper())
        else:
            y = mk("m", "str", x) if not fl.get("base") else mk("m", "str", x, const(fl["base"]))
        w = fl.pop("setw", None)
        if w is not None:
            f = fl.get("setfill", const(32))
            if w.op == "c" and y.op == "c" and f.op == "c":
                pad = bytes([f.a[0] & 255]) * max(0, w.a[0] - len(y.a[0]))
                y = const(y.a[0] + pad if fl.get("adjust") == "left" else pad + y.a[0])
            else:
                y = mk("m", "pad", y, w, f)
        txt = cat(txt, y)
    if not fl:
        return mk("ss", txt)
    return mk("ss", txt, mk("flags", tuple(sorted(fl.items()))))


def f_ctype(I, st, c):
    n = base_name(c.q)
    v = I.resolve(st, c.args[0])
    if v.op == "c" and isinstance(v.a[0], int) and 0 <= v.a[0] < 128:
        ch = chr(v.a[0])
        t = {"isalnum": ch.isalnum(), "isalpha": ch.isalpha(), "isdigit": ch.isdigit(), "isprint": 32 <= v.a[0] < 127, "islower": ch.islower(),
             "isupper": ch.isupper(), "ispunct": 32 < v.a[0] < 127 and not ch.isalnum(), "isspace": ch in " \t\n\v\f\r"}.get(n)
        if t is not None:
            return [(st, const(1 if t else 0))]
        if n in ("toupper", "tolower"):
            return [(st, const(ord(ch.upper() if n == "toupper" else ch.lower())))]
    return [(st, mk("m", canon(c.q), v))]


def f_to_string(I, st, c):
    v = I.resolve(st, c.args[0])
    if v.op == "c" and isinstance(v.a[0], int):
        return [(st, const(str(v.a[0]).encode()))]
    return [(st, mk("m", "std::to_string", v))]


def f_minmax(which):
    def f(I, st, c):
        if len(c.args) != 2:
            return None
        out = []
        a, b = I.resolve(st, c.args[0]), I.resolve(st, c.args[1])
        for s, x in I.branch(st, I.mklt(b, a)):
            take_b = x if which == "min" else not x
            v, l = (b, c.alocs[1]) if take_b else (a, c.alocs[0])
            if not norm_ref(c.rt):
                out.append((s, v))
                continue
            if l is None:
                l = mk("Tmp", I.ctx, mk("site", I.site(c.node), which))
                s.store[l] = v
            out.append((s, mk("lref", l)))
        return out
    return f


def norm_ref(t):
    return bool(t) and t.rstrip().endswith("&")


def f_swap(I, st, c):
    la, lb = c.alocs
    va, vb = I.load(st, la), I.load(st, lb)
    I.wr(st, la, vb, c.node)
    I.wr(st, lb, va, c.node)
    return [(st, VOID)]


def f_exchange(I, st, c):
    l = c.alocs[0]
    v = I.load(st, l)
    I.wr(st, l, c.args[1], c.node)
    return [(st, v)]


def f_advance(I, st, c):
    l = c.alocs[0]
    I.wr(st, l, I.ptr_add(st, I.load(st, l), c.args[1], 1), c.node)
    return [(st, VOID)]


def f_next(sign):
    def f(I, st, c):
        n = c.args[1] if len(c.args) > 1 else const(1)
        return [(st, I.ptr_add(st, c.args[0], n, sign))]
    return f


def f_distance(I, st, c):
    return [(st, lin_add(c.args[1], c.args[0], -1) if c.args[0].op != "p" else
             I.arith(st, "-", c.args[1], c.args[0], "long", c.node))]


def f_minus(I, st, c):
    if len(c.args) == 2 and all(I.resolve(st, a).op == "p" for a in c.args):
        return [(st, I.arith(st, "-", c.args[0], c.args[1], "long", c.node))]
    return None


def cont_of(v):
    if v.op == "p" and v.a[0].op == "E":
        return v.a[0].a[0]
    return None


def f_inserter(I, st, c):
    return [(st, mk("inserter", c.alocs[0] if c.alocs[0] is not None else mk("L", "?")))]


def known_range(I, st, p, q):
    """The elements of a range whose ends and contents are known: [location]."""
    p, q = I.resolve(st, p), I.resolve(st, q)
    l = cont_of(p)
    if l is None or cont_of(q) is not l:
        return None
    v = I.load(st, l)
    i, j = I.resolve(st, p.a[0].a[1]), I.resolve(st, q.a[0].a[1])
    if v.op != "vec" or not (isc(i) and isc(j)) or not 0 <= cval(i) <= cval(j) <= min(len(v.a[0]), 12):
        return None
    return [mk("E", l, const(n)) for n in range(cval(i), cval(j))]


def put(I, st, dst, x, n, node):
    """Write x to the n-th place of an output."""
    if dst.op == "inserter":
        l = dst.a[0]
        v = I.load(st, l)
        if v.op == "vec":
            I.wr(st, l, mk("vec", v.a[0] + (x,)), node)
            return [st]
        if v.op == "map":
            class K:
                pass
            k = K()
            k.node = node
            out = []
            for s, m in map_hits(I, st, k, v, x):
                w = I.load(s, l)
                if m is None:
                    I.wr(s, l, mk("map", w.a[0] + ((I.resolve(s, x), I.resolve(s, x)),)), node)
                out.append(s)
            return out
        return None
    if dst.op == "p":
        I.wr(st, I.deref(st, I.ptr_add(st, dst, const(n), 1)), x, node)
        return [st]
    return None


def f_each(I, st, c):
    """std::transform, for_each, copy and copy_if over known elements."""
    name = canon(c.q)
    els = known_range(I, st, c.args[0], c.args[1]) if len(c.args) >= 3 else None
    fn = c.args[-1] if name != "std::copy" else None
    dst = c.args[2] if name != "std::for_each" else None
    ok = els is not None and len(c.args) == (4 if name in ("std::transform", "std::copy_if") else 3)
    if ok and fn is not None and not (fn.op == "lam" and fn.a[0] in I.P.functions):
        ok = False
    if ok and dst is not None and not (dst.op == "inserter" and I.load(st, dst.a[0]).op in ("vec", "map") or dst.op == "p" and dst.a[0].op == "E"):
        ok = False
    if ok and dst is not None and dst.op == "inserter" and I.load(st, dst.a[0]).op == "map" and not getattr(I.C, "exact_sets", False):
        ok = False
    if not ok:
        return f_algo_mut(I, st, c)
    live = [(st, 0)]
    for el in els:
        nxt = []
        for s, n in live:
            rr = [(s, None)]
            if fn is not None:
                rr = call_unknown(I, s, fn, I.P.functions[fn.a[0]], c.node, locs=[el])
            for s1, v in rr:
                if name == "std::for_each":
                    nxt.append((s1, n))
                elif name == "std::transform":
                    for s2 in put(I, s1, dst, I.conv_ref(s1, v) if hasattr(I, "conv_ref") else (I.load(s1, v.a[0]) if v.op == "lref" else v), n, c.node):
                        nxt.append((s2, n + 1))
                elif name == "std::copy":
                    for s2 in put(I, s1, dst, I.load(s1, el), n, c.node):
                        nxt.append((s2, n + 1))
                else:
                    for s2, b in I.branch(s1, I.truth(v), c.node):
                        if not b:
                            nxt.append((s2, n))
                            continue
                        for s3 in put(I, s2, dst, I.load(s2, el), n, c.node):
                            nxt.append((s3, n + 1))
        live = nxt
    return [(s, dst if dst is not None and dst.op == "inserter" else I.ptr_add(s, dst, const(n), 1) if dst is not None else VOID) for s, n in live]


def f_extreme(I, st, c):
    """std::max_element and std::min_element over known elements."""
    name = canon(c.q)
    els = known_range(I, st, c.args[0], c.args[1])
    if not els or len(c.args) == 3 and not (c.args[2].op == "lam" and c.args[2].a[0] in I.P.functions):
        if els == []:
            return [(st, c.args[1])]
        return f_algo_pure(I, st, c)
    live = [(st, els[0])]
    for el in els[1:]:
        nxt = []
        for s, best in live:
            x, y = (best, el) if name == "std::max_element" else (el, best)
            if len(c.args) == 3:
                rr = call_unknown(I, s, c.args[2], I.P.functions[c.args[2].a[0]], c.node, locs=[x, y])
            else:
                rr = [(s, I.mklt(I.resolve(s, I.load(s, x)), I.resolve(s, I.load(s, y))))]
            for s1, v in rr:
                for s2, b in I.branch(s1, I.truth(v), c.node):
                    nxt.append((s2, el if b else best))
        live = nxt
    return [(s, mk("p", e)) for s, e in live]


def f_algo_mut(I, st, c):
    I.C.on_opaque(I, st, c)
    done = set()
    for v in c.args:
        l = cont_of(v)
        if l is not None and l not in done:
            done.add(l)
            old = I.load(st, l)
            new = sorted_known(I, st, c, l, old) if canon(c.q) in ("std::sort", "std::stable_sort") else reversed_known(I, st, c, old) if canon(c.q) == "std::reverse" else None
            if new is not None:
                I.wr(st, l, new, c.node)
                return [(st, VOID)]
            I.wr(st, l, mk("perm", old, canon(c.q)), c.node)
    run_predicates(I, st, c)
    return [(st, mk("r", canon(c.q), *c.args))]


def reversed_known(I, st, c, v):
    if v.op != "vec":
        return None
    a, b = I.resolve(st, c.args[0]), I.resolve(st, c.args[1])
    if not (a.op == b.op == "p" and a.a[0].op == b.a[0].op == "E" and isc(I.resolve(st, a.a[0].a[1])) and isc(I.resolve(st, b.a[0].a[1]))):
        return None
    i, j = cval(I.resolve(st, a.a[0].a[1])), cval(I.resolve(st, b.a[0].a[1]))
    return mk("vec", v.a[0][:i] + v.a[0][i:j][::-1] + v.a[0][j:])


def sorted_known(I, st, c, l, v):
    """A whole vector of known entries whose comparisons are all decided, stably sorted."""
    if v.op != "vec" or len(c.args) != 3 or c.args[2].op != "lam":
        return None
    a, b = I.resolve(st, c.args[0]), I.resolve(st, c.args[1])
    if not (a.op == b.op == "p" and a.a[0].op == b.a[0].op == "E" and cval(I.resolve(st, a.a[0].a[1])) == 0 and
            cval(I.resolve(st, b.a[0].a[1])) == len(v.a[0])):
        return None
    body = I.P.functions.get(c.args[2].a[0])
    if body is None:
        return None

    def less(x, y):
        s = st.copy()
        locs = []
        for k, z in enumerate((x, y)):
            t = mk("Tmp", I.ctx, mk("site", I.site(c.node), "cmp%d" % k))
            s.store[t] = z
            locs.append(t)
        rs = call_unknown(I, s, c.args[2], body, c.node, [x, y], locs)
        ds = {I.decide(q, I.truth(r)) for q, r in rs} if rs else {None}
        return ds.pop() if len(ds) == 1 else None
    out = []
    for x in v.a[0]:
        k = len(out)
        while k > 0:
            d = less(x, out[k - 1])
            if d is None:
                return None
            if not d:
                break
            k -= 1
        out.insert(k, x)
    return mk("vec", tuple(out))


def run_predicates(I, st, c):
    """Evaluate callable arguments once on unknown elements, for their reads."""
    for v in c.args:
        if v.op == "lam":
            body = I.P.functions.get(v.a[0])
            if body is None:
                continue
            call_unknown(I, st.copy(), v, body, c.node)


def call_unknown(I, st, lam, body, node, args=None, locs=None):
    from interp import Call, is_ref
    k = Call()
    k.fn = body
    k.q = body["q"]
    k.node = node
    k.this = None
    k.objloc = None
    k.ctor = None
    k.rt = body["rt"]
    k.op = None
    a, ls = [], []
    for i, p in enumerate(body["params"]):
        v = args[i] if args and i < len(args) else mk("param", "elem", "%s%d" % (body["key"], i))
        if locs and i < len(locs):
            v = I.load(st, locs[i])
            a.append(v)
            ls.append(locs[i])
            continue
        a.append(v)
        if is_ref(p["t"]):
            l = mk("Tmp", "elem", body["key"], i)
            st.store[l] = v
            ls.append(l)
        else:
            ls.append(None)
    k.args = tuple(a)
    k.alocs = tuple(ls)
    k.atypes = body["pt"]
    return I.inline(st, body, k, node, lam=lam)


def f_algo_pure(I, st, c):
    name = canon(c.q)
    args = []
    for v in c.args:
        l = cont_of(v)
        args.append(mk("pos", I.load(st, l), v.a[0].a[1]) if l is not None else v)
    t = mk("m", name, *args)
    l = cont_of(c.args[0]) if c.args else None
    whole = (l is not None and len(c.args) == 3 and cont_of(c.args[1]) is l and c.args[0].a[0].a[1] is ZERO)
    if whole and name in ("std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::find"):
        # one arbitrary element satisfies (or fails) the predicate, or none does
        end = c.args[1].a[0].a[1]
        i = mk("m", "found", mk("at", I.ctx, I.site(c.node)), *args)
        I.utype.add(i)
        want = name != "std::all_of"
        if end.op == "c" and 0 <= end.a[0] <= 8 and I.load(st, l).op == "vec":
            # few elements: one after the other
            live, outs = [st], []
            for n in range(end.a[0]):
                el = mk("E", l, const(n))
                nxt = []
                for s in live:
                    if name == "std::find":
                        rr = [(s, I.mkeq(I.resolve(s, I.load(s, el)), I.resolve(s, c.args[2])))]
                    elif c.args[2].op == "lam" and c.args[2].a[0] in I.P.functions:
                        rr = call_unknown(I, s, c.args[2], I.P.functions[c.args[2].a[0]], c.node, locs=[el])
                    else:
                        rr = [(s, mk("m", "pred", c.args[2], I.load(s, el)))]
                    for s1, v in rr:
                        for s2, b in I.branch(s1, I.truth(v), c.node):
                            if b != want:
                                nxt.append(s2)
                            elif name in ("std::find_if", "std::find"):
                                outs.append((s2, mk("p", el)))
                            else:
                                outs.append((s2, const(name == "std::any_of")))
                live = nxt
            for s in live:
                outs.append((s, c.args[1] if name in ("std::find_if", "std::find") else const(name != "std::any_of")))
            return outs
        yes = st.copy()
        outs = []
        if I.assume(yes, I.mklt(i, end), True):
            el = mk("E", l, i)
            if name == "std::find":
                rr = [(yes, I.mkeq(I.resolve(yes, I.load(yes, el)), I.resolve(yes, c.args[2])))]
            elif c.args[2].op == "lam" and c.args[2].a[0] in I.P.functions:
                rr = call_unknown(I, yes, c.args[2], I.P.functions[c.args[2].a[0]], c.node, locs=[el])
            else:
                rr = [(yes, mk("m", "pred", c.args[2], I.load(yes, el)))]
            for s, v in rr:
                for s2, b in I.branch(s, I.truth(v), c.node):
                    if b == want:
                        if name in ("std::find_if", "std::find"):
                            outs.append((s2, mk("p", el)))
                        else:
                            outs.append((s2, const(name == "std::any_of")))
        if name in ("std::find_if", "std::find"):
            outs.append((st, c.args[1]))
        else:
            outs.append((st, const(name != "std::any_of")))
        return outs
    run_predicates(I, st, c)
    if l is not None and name in ("std::find_if", "std::find"):
        # an iterator into the same container
        i = mk("m", "found", *args)
        I.utype.add(i)
        return [(st, mk("p", mk("E", l, i)))]
    return [(st, t)]


def f_make_pair(I, st, c):
    return [(st, mk("pair", c.args[0], c.args[1]))]


def f_get(I, st, c):
    return None


FREE = {
    "std::move": f_move, "std::forward": f_move, "std::as_const": f_move, "std::make_unique": f_make,
    "std::make_shared": f_make, "std::operator==": f_eq, "std::operator!=": f_ne, "std::operator<": f_lt,
    **{p + n: f_ctype for p in ("", "std::") for n in ("isalnum", "isalpha", "isdigit", "isprint", "islower", "isupper", "ispunct", "isspace", "toupper", "tolower")},
    "std::operator+": f_plus, "std::operator<<": f_shl, "std::to_string": f_to_string,
    "std::min": f_minmax("min"), "std::max": f_minmax("max"), "std::swap": f_swap, "std::exchange": f_exchange,
    "std::advance": f_advance, "std::next": f_next(1), "std::prev": f_next(-1), "std::distance": f_distance, "std::operator-": f_minus,
    "std::sort": f_algo_mut, "std::stable_sort": f_algo_mut, "std::reverse": f_algo_mut, "std::replace": f_algo_mut,
    "std::transform": f_each, "std::for_each": f_each, "std::copy": f_each, "std::copy_if": f_each,
    "std::inserter": f_inserter, "std::back_inserter": f_inserter, "std::max_element": f_extreme, "std::min_element": f_extreme,
    "std::any_of": f_algo_pure, "std::all_of": f_algo_pure, "std::none_of": f_algo_pure, "std::find_if": f_algo_pure,
    "std::find": f_algo_pure, "std::count_if": f_algo_pure, "std::make_pair": f_make_pair,
}


# ------------------------------------------------------------------ classes
def c_smart(I, st, c, m):
    l, v = obj(I, st, c)
    if m in ("get", "operator->"):
        I.C.on_read(I, st, l, c.node)
        return [(st, v)]
    if m == "operator*":
        I.C.on_read(I, st, l, c.node)
        I.C.on_deref(I, st, v, c.node)
        if st.exc == "dead":
            return []
        return [(st, mk("lref", I.deref(st, v)))]
    if m == "operator bool":
        I.C.on_read(I, st, l, c.node)
        return [(st, I.mknot(I.mkeq(I.resolve(st, v), NULL)))]
    if m == "operator=":
        if "nullptr" in (c.atypes[0] if c.atypes else ""):
            I.wr(st, l, NULL, c.node)
        else:
            x = c.args[0]
            if c.alocs[0] is not l:
                null_moved(I, st, c)
            I.wr(st, l, x, c.node)
        return [(st, mk("lref", l))]
    if m == "reset":
        I.wr(st, l, c.args[0] if c.args else NULL, c.node)
        return [(st, VOID)]
    if m == "release":
        I.wr(st, l, NULL, c.node)
        return [(st, v)]
    if m == "operator[]":
        p = I.ptr_add(st, v, c.args[0], 1)
        I.C.on_deref(I, st, p, c.node)
        return [(st, mk("lref", I.deref(st, p)))]
    if m == "swap":
        x = I.load(st, c.alocs[0])
        I.wr(st, l, x, c.node)
        I.wr(st, c.alocs[0], v, c.node)
        return [(st, VOID)]
    return None


def at(I, st, c, l, v, i, kind):
    i = I.resolve(st, i)
    I.C.on_index(I, st, l, i, c.node, kind)
    if st.exc == "dead":
        return []
    return [(st, mk("lref", mk("E", l, i)))]


def c_seq(I, st, c, m):
    """vector, string, deque, array, list, stack"""
    l, v = obj(I, st, c)
    a = c.args
    isstr = canon(c.q).startswith("std::string")
    rd = lambda: I.C.on_read(I, st, l, c.node)
    if m in ("size", "length"):
        rd()
        return [(st, I.resolve(st, size_of(I, st, v)))]
    if m == "empty":
        rd()
        return [(st, I.mkeq(I.resolve(st, size_of(I, st, v)), ZERO))]
    if m in ("begin", "cbegin"):
        rd()
        return [(st, mk("p", mk("E", l, ZERO)))]
    if m in ("end", "cend"):
        rd()
        return [(st, mk("p", mk("E", l, size_of(I, st, v))))]
    if m in ("rbegin", "crbegin"):
        rd()
        return [(st, mk("rit", mk("p", mk("E", l, size_of(I, st, v)))))]
    if m in ("rend", "crend"):
        rd()
        return [(st, mk("rit", mk("p", mk("E", l, ZERO))))]
    if m == "operator[]":
        rd()
        return at(I, st, c, l, v, a[0], "[]")
    if m == "at":
        rd()
        return at(I, st, c, l, v, a[0], "at")
    if m == "front":
        rd()
        return at(I, st, c, l, v, ZERO, "front")
    if m in ("back", "top"):
        rd()
        return at(I, st, c, l, v, lin_add(size_of(I, st, v), const(-1)), "back")
    if m in ("push_back", "emplace_back", "push", "emplace"):
        if isstr:
            I.wr(st, l, cat(v, chr_term(I, st, a[0])), c.node)
            return [(st, VOID)]
        out = []
        for s, x in elem_value(I, st, c):
            nv = mk("vec", v.a[0] + (x,)) if v.op == "vec" and len(v.a[0]) < 200 else mk("push", v, x)
            I.wr(s, l, nv, c.node)
            out.append((s, mk("lref", mk("E", l, lin_add(size_of(I, s, nv), const(-1))))))
        return out
    if m == "clear":
        I.wr(st, l, const(b"") if isstr else mk("vec", ()), c.node)
        return [(st, VOID)]
    if m in ("pop_back", "pop"):
        I.C.on_index(I, st, l, lin_add(size_of(I, st, v), const(-1)), c.node, "pop")
        nv = mk("vec", v.a[0][:-1]) if v.op == "vec" and v.a[0] else mk("pop", v)
        I.wr(st, l, nv, c.node)
        return [(st, VOID)]
    if m in ("reserve", "shrink_to_fit"):
        return [(st, VOID)]
    if m in ("resize", "assign"):
        I.wr(st, l, mk("rsz", mk("any", v), I.resolve(st, a[0])), c.node)
        return [(st, VOID)]
    if m == "operator=":
        x = a[0]
        I.wr(st, l, x, c.node)
        if c.atypes[0].endswith("&&") and c.alocs[0] is not None and c.alocs[0] is not l:
            I.moved_from(st, c.alocs[0], x, norm(c.atypes[0]), c.node)
        return [(st, mk("lref", l))]
    if m == "erase":
        n = len(a)
        if a and a[0].op == "p" and a[0].a[0].op == "E":
            i = a[0].a[0].a[1]
            if n == 1:
                I.C.on_index(I, st, l, i, c.node, "erase")
                I.wr(st, l, removed(I, st, v, i, const(1)), c.node)
                return [(st, mk("p", mk("E", l, i)))]
            if a[1].op == "p" and a[1].a[0].op == "E":
                j = a[1].a[0].a[1]
                if isc(I.resolve(st, i)) and cval(I.resolve(st, i)) == 0 and j is size_of(I, st, v):
                    I.wr(st, l, const(b"") if isstr else mk("vec", ()), c.node)
                else:
                    I.wr(st, l, removed(I, st, v, i, lin_add(j, i, -1)), c.node)
                return [(st, mk("p", mk("E", l, i)))]
        return None
    if m == "insert":
        if a and a[0].op == "p" and a[0].a[0].op == "E":
            i = a[0].a[0].a[1]
            if len(a) == 2:
                I.C.on_index(I, st, l, i, c.node, "insert")
                I.wr(st, l, inserted(I, st, v, i, a[1]), c.node)
                return [(st, mk("p", mk("E", l, i)))]
            if len(a) == 3 and a[1].op == "p" and a[2].op == "p":
                r = span(I, st, a[1], a[2])
                if r is not None:
                    I.C.on_index(I, st, l, i, c.node, "insert")
                    k = I.resolve(st, i)
                    if v.op == "vec" and not v.a[0]:
                        I.wr(st, l, r, c.node)
                    elif v.op == "vec" and r.op == "vec" and isc(k) and 0 <= cval(k) <= len(v.a[0]):
                        I.wr(st, l, mk("vec", v.a[0][:cval(k)] + r.a[0] + v.a[0][cval(k):]), c.node)
                    else:
                        I.wr(st, l, mk("ins", v, i, size_of(I, st, r), r), c.node)
                    return [(st, mk("p", mk("E", l, i)))]
        return None
    if m in ("append", "operator+="):
        x = a[0]
        t = norm(c.atypes[0])
        if isstr and len(a) == 1:
            if t == "char":
                x = chr_term(I, st, x)
            I.wr(st, l, cat(v, x), c.node)
            return [(st, mk("lref", l))]
        return None
    if m == "substr":
        rd()
        I.C.on_index(I, st, l, I.resolve(st, a[0]), c.node, "substr")
        n = a[1] if len(a) > 1 else None
        return [(st, substr(I, st, v, a[0], n))]
    if m in ("c_str", "data"):
        rd()
        if v.op == "c":
            return [(st, v)]
        if v.op == "sv":
            return [(st, v.a[0])]
        if isstr and m == "c_str":
            return [(st, v)]
        return [(st, mk("p", mk("E", l, ZERO)))]
    if m in ("find", "rfind", "compare", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "starts_with", "ends_with"):
        rd()
        if m == "find" and v.op == "c" and strval(a[0]) and (len(a) == 1 or isc(a[1])):
            r = v.a[0].find(a[0].a[0], cval(a[1]) if len(a) > 1 else 0)
            return [(st, const(r if r >= 0 else NPOS))]
        if getattr(I.C, "prefixes", False):
            # the question whether the text starts with a given literal, however it is asked
            lit = None
            if m in ("rfind",) and len(a) == 2 and a[1] is ZERO or m == "starts_with":
                lit = a[0]
            elif m == "compare" and len(a) == 3 and a[0] is ZERO and strval(a[2]) and a[1] is const(len(a[2].a[0])):
                lit = a[2]
            if lit is not None and strval(lit) and not strval(v):
                has = mk("m", "starts", v, lit)
                if m == "starts_with":
                    return [(st, has)]
                return [(s, ZERO if b else const(NPOS) if m == "rfind" else const(1)) for s, b in I.branch(st, has, c.node)]
        t = mk("m", "string::" + m, v, *a)
        I.utype.add(t)
        return [(st, t)]
    if m == "replace":
        I.C.on_index(I, st, l, I.resolve(st, a[0]), c.node, "replace")
        if len(a) == 3 and v.op == "c" and isc(a[0]) and isc(a[1]) and is_string_type(c.atypes[2]):
            k, n = cval(a[0]), cval(a[1])
            if k > len(v.a[0]):
                st.exc = "dead"
                return []
            I.wr(st, l, cat(const(v.a[0][:k]), a[2], const(v.a[0][k + n:])), c.node)
            return [(st, mk("lref", l))]
        I.wr(st, l, mk("m", "replace", v, *a), c.node)
        return [(st, mk("lref", l))]
    if m in ("operator basic_string_view", "operator basic_string", "operator std::string_view", "native", "string") or m.startswith("operator basic_string"):
        rd()
        return [(st, v)]
    if m in ("operator/=",):
        I.wr(st, l, cat(v, const(b"/"), a[0]), c.node)
        return [(st, mk("lref", l))]
    if m == "fill":
        if v.op == "vec" and len(a) == 1:
            I.wr(st, l, mk("vec", tuple(I.resolve(st, a[0]) for _ in v.a[0])), c.node)
        else:
            I.wr(st, l, mk("any", v), c.node)
        return [(st, VOID)]
    if m == "swap":
        x = I.load(st, c.alocs[0])
        I.wr(st, l, x, c.node)
        I.wr(st, c.alocs[0], v, c.node)
        return [(st, VOID)]
    return None


def elem_value(I, st, c):
    """Value emplaced from forwarded arguments: [(state, value)]."""
    cls = None
    q = c.q
    i = q.find("<")
    if i >= 0:
        cls = targ(q[:q.rfind("::")] if False else q)
    a = c.args
    if len(a) == 1:
        ats = argtypes_of(c)
        if not cls or norm(ats[0]) == cls or cls not in I.P.records:
            if cls and type_head(cls) in ("std::unique_ptr", "std::shared_ptr"):
                l = c.alocs[0]
                if l is not None and l.op != "Tmp" and c.node["args"][0].get("lv") == 2:
                    v = a[0]
                    I.wr(st, l, NULL, c.node)
                    return [(st, v)]
            return [(st, a[0])]
    if cls in I.P.records:
        loc = mk("Tmp", I.ctx, ("elem", I.site(c.node)))
        return [(s, I.load(s, loc)) for s in make_object(I, st, c, cls, loc)]
    if cls and type_head(cls) == "std::pair" and len(a) == 2:
        return [(st, mk("pair", a[0], a[1]))]
    if cls and type_head(cls) == "std::string":
        if len(a) == 2 and a[0].op == "p" and a[1].op == "p":
            r = span(I, st, a[0], a[1])
            if r is not None:
                return [(st, r)]
        if len(a) == 2:
            return [(st, mk("sv", a[0], a[1]))]
    return [(st, mk("ctor", cls or "elem", *a))]


def map_hits(I, st, c, v, k):
    """Every way the key can relate to the entries: (state, entry index or None)."""
    k = I.resolve(st, k)
    for n, (kk, _) in enumerate(v.a[0]):
        if kk is k:
            return [(st, n)]
    live, out = [st], []
    for n, (kk, _) in enumerate(v.a[0]):
        nxt = []
        for s in live:
            for s2, b in I.branch(s, I.truth(str_eq(I, s, kk, k)), c.node):
                if b:
                    out.append((s2, n))
                else:
                    nxt.append(s2)
        live = nxt
    return out + [(s, None) for s in live]


def map_order(q, v):
    """The entries in iteration order: ascending keys for the ordered containers."""
    ks = [k.a[0] for k, _ in v.a[0] if isc(k) or strval(k)]
    if "unordered" in q or "_Node_" in q or len(ks) != len(v.a[0]) or len({type(k) for k in ks}) > 1:
        return list(v.a[0])
    return sorted(v.a[0], key=lambda e: e[0].a[0])


def value_init(I, s, node):
    """The value a map makes for an absent key (the node is the operator[] call)."""
    import interp
    t = interp.strip_type(node.get("t", ""))
    if interp.is_ptr(t):
        return NULL
    if t in interp.INTS or t in ("bool", "double", "float"):
        return ZERO
    if t in I.P.records:
        return I.default_obj(s, t, node)
    v = default_value(I, t)
    return UNDEF if v is None else v


def map_exact(I, st, c, m, l, v):
    """A map or set whose entries are all known, with keys that may or may not be equal to others."""
    a = c.args
    isset = canon(c.q).startswith("std::set")
    if m in ("begin", "cbegin"):
        es = map_order(c.q, v)
        return [(st, mk("mapit", l, es[0][0], es[0][1]) if es else mk("mapend", l))]
    k = x = None
    if m == "erase":
        if a[0].op == "mapit":
            I.wr(st, l, mk("map", tuple(e for e in v.a[0] if e[0] is not a[0].a[1])), c.node)
            return [(st, VOID)]
        k = a[0]
    elif m in ("find", "count", "contains", "at", "operator[]"):
        k = a[0]
    elif len(a) == 1 and a[0].op == "pair":
        k, x = a[0].a
    elif len(a) == 1 and isset:
        k = x = a[0]
    elif len(a) == 2 and a[0].op in ("mapend", "mapit") and isset:
        k = x = a[1]
    elif len(a) == 2 and a[0].op in ("mapend", "mapit") and a[1].op == "pair":
        k, x = a[1].a
    elif len(a) == 2 and m != "insert":
        k, x = a
    elif len(a) == 2 and a[0].op == "p" and isset:
        r = span(I, st, a[0], a[1])
        if r is None or r.op != "vec":
            raise AnalysisError("%s: entries that cannot be followed" % I.where(c.node))
        live = [st]
        for x in r.a[0]:
            nxt = []
            for s in live:
                w = I.load(s, l)
                for s2, n in map_hits(I, s, c, w, x):
                    if n is None:
                        I.wr(s2, l, mk("map", w.a[0] + ((I.resolve(s2, x), I.resolve(s2, x)),)), c.node)
                    nxt.append(s2)
            live = nxt
        return [(s, VOID) for s in live]
    if k is None:
        raise AnalysisError("%s: a map operation that cannot be followed: %s" % (I.where(c.node), m))
    out = []
    for s, n in map_hits(I, st, c, v, k):
        w = I.load(s, l)
        if m in ("count", "contains"):
            out.append((s, TRUE if n is not None else FALSE))
        elif m == "find":
            out.append((s, mk("mapend", l) if n is None else mk("mapit", l, w.a[0][n][0], w.a[0][n][1])))
        elif m == "erase":
            if n is not None:
                I.wr(s, l, mk("map", w.a[0][:n] + w.a[0][n + 1:]), c.node)
            out.append((s, const(int(n is not None))))
        elif m in ("at", "operator[]"):
            if n is None and m == "at":
                continue
            if n is None:
                k1 = I.resolve(s, k)
                I.wr(s, l, mk("map", w.a[0] + ((k1, value_init(I, s, c.node)),)), c.node)
            else:
                k1 = w.a[0][n][0]
            out.append((s, mk("lref", mk("E", l, k1))))
        else:
            k1, x1 = I.resolve(s, k), x
            if n is None:
                I.wr(s, l, mk("map", w.a[0] + ((k1, x1),)), c.node)
            elif m == "insert_or_assign":
                k1 = w.a[0][n][0]
                I.wr(s, l, mk("map", w.a[0][:n] + ((k1, x1),) + w.a[0][n + 1:]), c.node)
            else:
                k1, x1 = w.a[0][n]
            it = mk("mapit", l, k1, x1)
            out.append((s, it if len(a) == 2 and a[0].op in ("mapend", "mapit") and isset else mk("pair", it, TRUE if n is None else FALSE)))
    return out


def c_map(I, st, c, m):
    l, v = obj(I, st, c)
    a = c.args
    I.C.on_read(I, st, l, c.node)
    exact = getattr(I.C, "exact_sets", False) and v.op == "map"
    if exact and m in ("find", "count", "contains", "at", "operator[]", "insert", "emplace", "try_emplace", "insert_or_assign", "erase", "begin", "cbegin"):
        return map_exact(I, st, c, m, l, v)
    if m in ("find", "count", "contains"):
        k = I.resolve(st, a[0])
        if v.op == "map":
            for kk, x in v.a[0]:
                if kk is k:
                    return [(st, mk("mapit", l, k, x) if m == "find" else TRUE)]
            if isc(k) and all(isc(kk) for kk, _ in v.a[0]):
                return [(st, mk("mapend", l) if m == "find" else FALSE)]
        if m == "find":
            out = []
            has = mk("m", "map::contains", v, k)
            for s, b in I.branch(st, has, c.node):
                out.append((s, mk("mapit", l, k, mk("m", "map::get", v, k)) if b else mk("mapend", l)))
            return out
        return [(st, mk("m", "map::contains", v, k))]
    if m in ("end", "cend"):
        return [(st, mk("mapend", l))]
    if m in ("begin", "cbegin"):
        return [(st, mk("m", "map::begin", v))]
    if m in ("size",):
        return [(st, size_of(I, st, v))]
    if m == "empty":
        return [(st, I.mkeq(size_of(I, st, v), ZERO))]
    if m in ("at", "operator[]"):
        k = I.resolve(st, a[0])
        if m == "operator[]" and v.op == "map" and isc(k) and not any(kk is k for kk, _ in v.a[0]):
            nv = mk("map", tuple(sorted(v.a[0] + ((k, UNDEF),), key=lambda kv: kv[0].id)))
            st.store[l] = nv if l.op not in ("F", "E") else st.store.get(l, nv)
            if l.op in ("F", "E"):
                st.store.pop(l, None)
                I.storev(st, l, nv)
        return [(st, mk("lref", mk("E", l, k)))]
    if m == "clear":
        I.wr(st, l, mk("map", ()), c.node)
        return [(st, VOID)]
    if m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        k = x = None
        if len(a) == 1 and a[0].op == "pair":
            k, x = a[0].a
        elif len(a) == 1 and canon(c.q).startswith("std::set"):
            k = x = a[0]
        elif len(a) == 2 and m != "insert":
            k, x = a
        if k is not None:
            k = I.resolve(st, k)
            if v.op == "map" and isc(k) and all(isc(kk) for kk, _ in v.a[0]):
                if not any(kk is k for kk, _ in v.a[0]) or m == "insert_or_assign":
                    items = [(kk, xx) for kk, xx in v.a[0] if kk is not k] + [(k, x)]
                    I.wr(st, l, mk("map", tuple(sorted(items, key=lambda kv: kv[0].id))), c.node)
            else:
                I.wr(st, l, mk("m!", "map::insert", v, k, x), c.node)
            return [(st, mk("pair", mk("mapit", l, k, x), mk("r", "inserted", v, k)))]
        return None
    if m == "operator=":
        I.wr(st, l, a[0], c.node)
        return [(st, mk("lref", l))]
    return None


def c_iter(I, st, c, m):
    l, v = obj(I, st, c)
    a = c.args
    if m == "operator*":
        I.C.on_deref(I, st, v, c.node)
        if st.exc == "dead":
            return []
        if v.op == "p" and v.a[0].op == "E":
            I.C.on_index(I, st, v.a[0].a[0], v.a[0].a[1], c.node, "*it")
        return [(st, mk("lref", I.deref(st, v)))]
    if m == "operator->":
        if v.op == "p" and v.a[0].op == "E":
            I.C.on_index(I, st, v.a[0].a[0], v.a[0].a[1], c.node, "it->")
        d = iter_deref(I, st, v)
        if d is not None:
            return [(st, mk("p", d))]
        return [(st, v)]
    if m in ("operator++", "operator--"):
        d = 1 if m == "operator++" else -1
        nv = I.ptr_add(st, v, const(1), d)
        I.wr(st, l, nv, c.node)
        if c.args:
            return [(st, v)]
        return [(st, mk("lref", l))]
    if m in ("operator+", "operator-"):
        if a[0].op == "p" and m == "operator-":
            return [(st, I.arith(st, "-", v, a[0], "long", c.node))]
        return [(st, I.ptr_add(st, v, I.resolve(st, a[0]), 1 if m == "operator+" else -1))]
    if m in ("operator+=", "operator-="):
        nv = I.ptr_add(st, v, I.resolve(st, a[0]), 1 if m == "operator+=" else -1)
        I.wr(st, l, nv, c.node)
        return [(st, mk("lref", l))]
    if m == "operator=":
        I.wr(st, l, a[0], c.node)
        return [(st, mk("lref", l))]
    return None


def c_riter(I, st, c, m):
    l, v = obj(I, st, c)
    if v.op == "lref":
        v = I.load(st, v.a[0])
    if v.op != "rit":
        return None
    a = c.args
    p = v.a[0]
    if m in ("operator*", "operator->"):
        q = I.ptr_add(st, p, const(1), -1)
        I.C.on_deref(I, st, q, c.node)
        if st.exc == "dead":
            return []
        if q.op == "p" and q.a[0].op == "E":
            I.C.on_index(I, st, q.a[0].a[0], q.a[0].a[1], c.node, "*it" if m == "operator*" else "it->")
        return [(st, mk("lref", I.deref(st, q)) if m == "operator*" else q)]
    if m in ("operator++", "operator--"):
        nv = mk("rit", I.ptr_add(st, p, const(1), -1 if m == "operator++" else 1))
        I.wr(st, l, nv, c.node)
        return [(st, v)] if a else [(st, mk("lref", l))]
    if m in ("operator+", "operator-") and a and a[0].op != "rit":
        return [(st, mk("rit", I.ptr_add(st, p, I.resolve(st, a[0]), -1 if m == "operator+" else 1)))]
    if m in ("operator+=", "operator-="):
        nv = mk("rit", I.ptr_add(st, p, I.resolve(st, a[0]), -1 if m == "operator+=" else 1))
        I.wr(st, l, nv, c.node)
        return [(st, mk("lref", l))]
    if m == "operator=":
        I.wr(st, l, a[0], c.node)
        return [(st, mk("lref", l))]
    if m == "base":
        return [(st, p)]
    return None


def c_mapiter(I, st, c, m):
    l, v = obj(I, st, c)
    if m in ("operator*", "operator->"):
        if v.op == "mapend":
            h = getattr(I.C, "on_end_deref", None)
            if h:
                h(I, st, v, c.node)
        d = iter_deref(I, st, v)
        if d is None:
            d = mk("S", v)
        return [(st, mk("lref", d) if m == "operator*" else mk("p", d))]
    w = I.load(st, v.a[0]) if v.op == "mapit" and getattr(I.C, "exact_sets", False) else None
    if m == "operator++" and w is not None and w.op == "map":
        es = map_order(c.q, w)
        n = [i for i, e in enumerate(es) if e[0] is v.a[1]]
        if n:
            e = es[n[0] + 1] if n[0] + 1 < len(es) else None
            I.wr(st, l, mk("mapit", v.a[0], e[0], e[1]) if e else mk("mapend", v.a[0]), c.node)
            return [(st, v if c.args else mk("lref", l))]
    if m in ("operator++", "operator--"):
        I.wr(st, l, mk("m", "mapnext", v), c.node)
        return [(st, mk("lref", l))]
    if m == "operator=":
        I.wr(st, l, c.args[0], c.node)
        return [(st, mk("lref", l))]
    return None


def c_ss(I, st, c, m):
    l, v = obj(I, st, c)
    if v.op != "ss":
        return None
    if m == "str" and not c.args:
        return [(st, v.a[0])]
    if m == "operator<<":
        I.wr(st, l, ss_put(I, st, v, c.args[0], norm(c.atypes[0]) if c.atypes else ""), c.node)
        return [(st, mk("lref", l))]
    return None


def c_fn(I, st, c, m):
    l, v = obj(I, st, c)
    if m == "operator bool":
        return [(st, I.mknot(I.mkeq(I.resolve(st, v), NULL)))]
    if m == "operator=":
        I.wr(st, l, NULL if "nullptr" in c.atypes[0] else c.args[0], c.node)
        return [(st, mk("lref", l))]
    return None


def c_opt(I, st, c, m):
    l, v = obj(I, st, c)
    if m in ("has_value", "operator bool"):
        if v.op == "some":
            return [(st, TRUE)]
        return [(st, I.mknot(I.mkeq(I.resolve(st, v), NULL)))]
    if m in ("value", "operator*"):
        return [(st, v.a[0] if v.op == "some" else mk("fld", v, "optional::value"))]
    if m == "operator->":
        x = v.a[0] if v.op == "some" else mk("fld", v, "optional::value")
        t = mk("Tmp", I.ctx, ("opt", I.site(c.node)))
        st.store[t] = x
        return [(st, mk("p", t))]
    if m == "operator=":
        x = c.args[0]
        if "nullopt" in c.atypes[0]:
            x = NULL
        elif "optional" not in c.atypes[0]:
            x = mk("some", x)
        I.wr(st, l, x, c.node)
        return [(st, mk("lref", l))]
    return None


CLS = {
    "std::unique_ptr": c_smart, "std::shared_ptr": c_smart, "std::vector": c_seq, "std::string": c_seq,
    "std::string_path": c_seq, "std::deque": c_seq, "std::array": c_seq, "std::stack": c_seq, "std::list": c_seq,
    "std::map": c_map, "std::set": c_map, "iter": c_iter, "riter": c_riter, "mapiter": c_mapiter, "std::stringstream": c_ss,
    "std::ostream": c_ss, "std::function": c_fn, "std::optional": c_opt,
}
