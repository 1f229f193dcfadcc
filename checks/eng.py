"""Analysis of the fcitx engine (McBopomofo.cpp).

Two views, both flow- and path-sensitive over the inlined call graph:
 * drive: keyEvent / reset / activate / menu actions, where entering a state is
   one event that replaces the current state object and the shown list;
 * show:  the function(s) that enter a state, for every concrete state class,
   recording what is shown and committed.
"""
from collections import namedtuple
from terms import *
from interp import *
from program import AnalysisError
import models
import kh
from kh import NS, ST, KH

ENG = NS + "McBopomofoEngine"
CB = "std::unique_ptr<McBopomofo::InputState"
ES = namedtuple("ES", "dead lst acc hres used dirty replaced reset log special")


def is_state_cb(t):
    return "std::function<void (" in t and CB in t


def state_kinds(P):
    """Concrete state classes."""
    out = []
    for q, r in P.records.items():
        if q.startswith(ST) and P.derives(q, NS + "InputState") and q != ST + "NotEmpty":
            out.append(q)
    return sorted(out)


def engine_class(P):
    c = [q for q in P.records if P.derives(q, "fcitx::InputMethodEngine") and q.startswith(NS)]
    if len(c) != 1:
        raise AnalysisError("anchor vanished: the input method engine class")
    return c[0]


def word_classes(P):
    return sorted(q for q in P.records if P.derives(q, "fcitx::CandidateWord") and q.startswith(NS))


def tainted(t, dead):
    """The pointer term was loaded from, or is, a dead object."""
    while True:
        if t in dead:
            return True
        if t.op in ("fld", "obj", "idx") or t.op == "p":
            t = t.a[0]
        elif t.op in ("F", "E", "S"):
            t = t.a[0]
        else:
            return False


class EngClient(Client):
    merge_limit = 32

    def __init__(self, P, rep, want, inline_enter=False):
        self.P = P
        self.rep = rep
        self.want = want
        self.inline_enter = inline_enter
        self.cls = engine_class(P)
        fs = P.records[self.cls]["fields"]

        def one(pred, what):
            m = [f["q"] for f in fs if pred(f["t"])]
            if len(m) != 1:
                raise AnalysisError("anchor vanished: engine field " + what)
            return m[0]
        self.f_state = one(lambda t: t.startswith("std::unique_ptr<McBopomofo::InputState"), "state")
        self.f_kh = one(lambda t: "KeyHandler>" in t, "key handler")
        self.f_cfg = one(lambda t: t == NS + "McBopomofoConfig", "configuration")
        self.this = mk("this")
        self.LS = mk("F", mk("S", self.this), self.f_state)
        self.enter_fns = {m["u"] for m in P.records[self.cls]["methods"] if any(p.startswith(CB) for p in m["pt"])}
        if not self.enter_fns:
            raise AnalysisError("anchor vanished: engine method entering a state")
        self.entry = self.cls

    def init_ts(self):
        return ES(frozenset(), mk("list0"), False, None, False, False, False, False, (), False)

    def opaque(self, I, fn):
        q = fn["q"]
        if q.startswith(KH + "::") or q.startswith(NS + "LanguageModelLoader") or q.startswith(NS + "KeyHandlerLocalized"):
            return True
        if q.startswith((self.cls, NS + "InputState", NS + "Key::")) or q.endswith("Word::select"):
            return fn["q"].endswith(("::chttrans", "::notifications"))
        if "lambda" in q or "(anonymous" in q:
            return False
        if fn.get("ctor") and fn.get("cls", "").endswith("Word"):
            return False
        if q == NS + "CodePointCount":
            return True
        # other helpers of the same file
        return not fn["l"].split(":")[0].endswith("McBopomofo.cpp") or fn["rt"] == NS + "Key"

    # -- reports
    def v(self, rule, I, st, node, text, key=None):
        if rule not in self.want:
            return
        where = I.where(node) if node else self.cls
        f = self.P.functions[I.stack[-1]]["q"] if I.stack else self.entry
        self.rep.violation(key or "%s@%s" % (rule, f.split("(")[0]), where, text + " (in %s)" % self.entry, trace_list(st, 14))

    # -- death
    def dead_loc(self, st, loc):
        d = st.ts.dead
        if not d:
            return None
        r = loc
        while r.op in ("F", "E"):
            r = r.a[0]
        if r in d:
            return r
        if r.op == "S" and tainted(r.a[0], d):
            return r.a[0]
        return None

    def on_read(self, I, st, loc, node):
        d = self.dead_loc(st, loc)
        if d is not None:
            self.v("dead", I, st, node, "%s is used after it was freed by entering another state" % show(loc))

    def on_write(self, I, st, loc, val, node):
        self.on_read(I, st, loc, node)

    def on_deref(self, I, st, ptr, node):
        if ptr.op == "c" and ptr.a[0] is None:
            st.exc = "dead"
            return
        if ptr.op == "p":
            self.on_read(I, st, ptr.a[0], node)
        elif tainted(ptr, st.ts.dead):
            self.v("dead", I, st, node, "%s is followed after it was freed by entering another state" % show(ptr))

    def replace(self, I, st, node, new=None, why=""):
        """The current state object and the list shown for it are gone."""
        old = I.resolve(st, I.load(st, self.LS))
        dead = set(st.ts.dead)
        if old.op == "p":
            dead.add(old.a[0])
        elif old.op != "c":
            dead.add(old)
        if st.ts.lst is not None:
            dead.add(st.ts.lst)
        for t in self.extra_dead:
            dead.add(t)
        k = mk("at", I.ctx, I.site(node))
        kind = None
        if new is None:
            new = mk("newstate", k)
        else:
            kind = I.dynclass(st, new)
            if kind is not None and P_settles(kind):
                if new.op == "p":
                    dead.add(new.a[0])
                new = mk("newstate", k)
                st.facts[mk("isa", new, ST + "Empty")] = True
        st.facts[mk("==", new, NULL)] = False
        I.storev(st, self.LS, new)
        lst = mk("list", k)
        st.ts = st.ts._replace(dead=frozenset(dead), lst=lst, replaced=True, dirty=False)
        self.on_replace(I, st, node, new, kind)

    extra_dead = ()

    def on_key(self, I, st, c, n, k):
        """What composition is told was pressed."""
        if "keymap" not in self.want:
            return
        self.rep.inst("keys handed to composition", "%s %s" % (n, I.where(c.node)))
        src = {base_name(x.a[0]) for x in subterms(k) if x.op in ("m", "r") and isinstance(x.a[0], str)}
        made = k.op in ("m", "r") and any(f["q"] == k.a[0] and f["rt"] == NS + "Key" for f in self.P.functions.values())
        if not made or "key" not in src or "rawKey" in src:
            self.v("keymap", I, st, c.node, "%s is not given the translation of the key that was pressed" % n, "keymap@" + n)

    def on_replace(self, I, st, node, new, kind):
        pass

    def log(self, st, *ev):
        if ev not in st.ts.log:
            st.ts = st.ts._replace(log=st.ts.log + (ev,))

    # -- calls
    def on_call(self, I, st, c):
        fn = c.fn
        q = models.canon(c.q or "")
        n = base_name(q)
        cls = fn.get("cls") or ""
        if c.this is not None and c.this.op == "p" or c.objloc is not None:
            l = c.objloc
            if l is not None:
                d = self.dead_loc(st, l)
                if d is not None and not (cls.startswith("std::") and False):
                    self.v("dead", I, st, c.node, "%s is called on %s, which was freed by entering another state" % (n, show(l)))
        if fn["u"] in self.enter_fns and not self.inline_enter:
            if c.this is not None and I.resolve(st, c.this) is self.this:
                p = [a for a, t in zip(c.args, c.atypes) if t.startswith(CB)][0]
                self.replace(I, st, c.node, I.resolve(st, p), "enters a state")
                return [(st, VOID)]
        if cls == KH or q.startswith(KH + "::"):
            return self.kh_call(I, st, c, n)
        if cls.startswith("fcitx::") or q.startswith("fcitx::"):
            return self.fcitx_call(I, st, c, cls, n, q)
        return None

    def kh_call(self, I, st, c, n):
        for i, l in enumerate(c.alocs):
            if l is not None and is_ref(c.atypes[i]):
                self.on_read(I, st, l, c.node)
        cbs = [i for i, t in enumerate(c.atypes) if is_state_cb(t)]
        for i, t in enumerate(c.atypes):
            if t.replace("const ", "").rstrip(" &") == NS + "Key":
                self.on_key(I, st, c, n, strip_copy(I.resolve(st, c.args[i])))
        if n == "reset" and not c.args:
            st.ts = st.ts._replace(reset=True)
        self.on_kh(I, st, c, n)
        if cbs:
            late = getattr(self, "late", ())
            for i in cbs:
                l = c.alocs[i]
                if (c.fn["u"], i) in late and l is not None:
                    r = l
                    while r.op in ("F", "E"):
                        r = r.a[0]
                    if r in self.extra_dead or r.op == "S" and tainted(r.a[0], frozenset(self.extra_dead)):
                        self.v("dead", I, st, c.node, "%s keeps calling its callback after the first state change, but the callback belongs to an object that change frees" % n)
            k = mk("at", I.ctx, I.site(c.node))
            if strip_type(c.rt) == "bool":
                s2 = st.copy()
                # the selection lambda passed along may already run
                self.replace(I, st, c.node)
                if n == "handle":
                    st.ts = st.ts._replace(hres=True)
                    s2.ts = s2.ts._replace(hres=False)
                return [(st, TRUE), (s2, FALSE)]
            self.replace(I, st, c.node)
            return [(st, VOID)]
        r = mk("r", c.q, *c.args, mk("at", I.ctx, I.site(c.node)))
        if c.fn.get("const") or n == "inputMode":
            r = mk("m", c.q, *c.args)
        if strip_type(c.rt).startswith("std::unique_ptr<" + ST):
            k = strip_type(c.rt)[len("std::unique_ptr<"):].rstrip(">").split(",")[0].strip()
            st.facts[mk("isa", r, k)] = True
        return [(st, r)]

    def on_kh(self, I, st, c, n):
        pass

    CONST_CTX = {"capabilityFlags", "program", "display", "uuid"}

    def cur_list(self, st, l):
        """Is location l the list now on screen?"""
        t = st.ts.lst
        if t is None:
            return False
        return l is mk("S", t) or (t.op == "p" and l is t.a[0])

    def fcitx_call(self, I, st, c, cls, n, q):
        if n == "inputPanel":
            return [(st, mk("lref", mk("S", mk("panel"))))]
        if cls == "fcitx::InputPanel":
            if n == "candidateList":
                st.ts = st.ts._replace(used=True)
                return [(st, st.ts.lst if st.ts.lst is not None else NULL)]
            if n == "reset":
                self.log(st, "reset", I.where(c.node))
                if st.ts.lst is not None:
                    st.ts = st.ts._replace(dead=st.ts.dead | {st.ts.lst}, lst=None)
                return [(st, VOID)]
            if n == "setCandidateList":
                p = I.resolve(st, c.args[0])
                models.null_moved(I, st, c)
                self.log(st, "list", p)
                st.ts = st.ts._replace(lst=p)
                self.on_set_list(I, st, c, p)
                return [(st, VOID)]
            if n.startswith("set"):
                self.log(st, n, c.args[0])
                return [(st, VOID)]
        if cls == "fcitx::InputContext":
            if n in ("commitString", "updatePreedit", "updateUserInterface", "forwardKey", "deleteSurroundingText"):
                if n == "updateUserInterface":
                    st.ts = st.ts._replace(dirty=False)
                self.log(st, n, *[I.resolve(st, a) for a in c.args] + ([I.where(c.node)] if n == "commitString" else []))
                return [(st, VOID)]
            if n in self.CONST_CTX:
                return [(st, mk("m", q, mk("ctxobj")))]
        if n in ("filter", "accept", "filterAndAccept") and cls in ("fcitx::KeyEvent", "fcitx::Event", "fcitx::InputContextEvent", "fcitx::KeyEventBase"):
            st.ts = st.ts._replace(acc=True)
            self.on_accept(I, st, c)
            return [(st, VOID)]
        if n in ("toCursorMovable", "toPageable", "toCursorModifiable", "toModifiable", "toBulk", "toBulkCursor"):
            return [(st, c.this)]
        if c.objloc is not None and ("CandidateList" in cls):
            if self.cur_list(st, c.objloc):
                st.ts = st.ts._replace(used=True)
            r = self.list_call(I, st, c, n)
            if r is not None:
                return r
            if not c.fn.get("const") and n != "operator=":
                if self.cur_list(st, c.objloc):
                    st.ts = st.ts._replace(dirty=True)
        if n == "select" and ("CandidateWord" in cls):
            dc = None
            st.ts = st.ts._replace(used=True)
            self.replace(I, st, c.node, None, "a candidate is selected")
            return [(st, VOID)]
        return None

    def list_call(self, I, st, c, n):
        return None

    def on_set_list(self, I, st, c, p):
        pass

    def on_accept(self, I, st, c):
        pass

    def on_unknown_callee(self, I, st, f, call):
        if call.args and len(call.args) == 1 and call.atypes and CB in call.atypes[0]:
            self.replace(I, st, call.node, I.resolve(st, call.args[0]))
            self.on_callback(I, st, call)
            return [(st, VOID)]
        return None

    def on_callback(self, I, st, call):
        pass

    def key(self, I, st):
        return (st.ts, I.load(st, self.LS))


_settles = {}


def P_settles(kind):
    return kind == ST + "EmptyIgnoringPrevious"


def bind(I, fn, this, st, over=None):
    """Call frame for a root function: references and pointers become symbolic objects."""
    over = over or {}
    c = Call()
    c.fn = fn
    c.q = fn["q"]
    c.node = {"k": "root", "l": fn["l"]}
    c.this = this
    c.objloc = None
    c.ctor = c.op = None
    c.rt = fn["rt"]
    a, ls = [], []
    for p in fn["params"]:
        t = mk("param", fn["q"], p["n"])
        if p["n"] in over:
            a.append(over[p["n"]])
            ls.append(None)
        elif is_ref(p["t"]):
            t = mk("param", fn["q"], "&" + p["n"])
            a.append(mk("obj", t))
            ls.append(mk("S", t))
            st.facts[mk("==", t, NULL)] = False
        else:
            a.append(t)
            ls.append(None)
            if is_ptr(p["t"]):
                st.facts[mk("==", t, NULL)] = False
    c.args, c.alocs, c.atypes = tuple(a), tuple(ls), fn["pt"]
    if this is not None:
        st.facts[mk("==", this, NULL)] = False
    return c


def run_fn(I, C, fn, prep=None, over=None, this=None):
    C.entry = fn["q"].split("(")[0]
    st = I.new_state()
    C.I = I
    c = bind(I, fn, this if this is not None else mk("this"), st, over)
    if prep:
        prep(I, st, c)
    return I.inline(st, fn, c, c.node)


def method(P, cls, name):
    for f in P.functions.values():
        if f["q"] == cls + "::" + name and f.get("body") is not None:
            return f
    raise AnalysisError("anchor vanished: %s::%s" % (cls, name))


def state_object(I, st, kind, tag="cur"):
    """A symbolic object of exactly this state class."""
    loc = mk("O", mk("ctx"), mk("site", tag, kind))
    st.store[loc] = mk("dynobj", kind, tag)
    return mk("p", loc)


# ---------------------------------------------------------------- show: entering a state, per kind
GHOST = mk("L", "ghost", "appended")


def strip_copy(v):
    """A copied object stands for its source."""
    while v.op == "ctor" and len(v.a) == 2:
        v = v.a[1]
    return v


class ShowClient(EngClient):
    num = True

    def __init__(self, P, rep, want, kind, facts):
        EngClient.__init__(self, P, rep, want, True)
        self.kind = kind
        self.res = facts            # what other properties may rely on
        self.selecting = None

    def choice_fields(self):
        return [f["q"] for f in self.fields(self.kind) if f["t"].replace("const ", "").startswith("std::vector<")]

    def fields(self, k):
        out = []
        for q in [k] + self.P.bases_of(k):
            r = self.P.records.get(q)
            if r:
                out += r["fields"]
        return out

    def obj(self, st):
        return self.O

    def key(self, I, st):
        return (st.ts, I.load(st, self.LS))

    def list_call(self, I, st, c, n):
        if n in ("append", "insert", "replace", "remove", "clear"):
            self.appended(I, st, c, n)
        return None

    def appended(self, I, st, c, n):
        short = base_name(self.kind)
        if n != "append":
            self.v("show", I, st, c.node, "the candidate list of %s is changed by %s" % (short, n))
            return
        self.rep.inst("candidate list entries", "%s %s" % (short, I.where(c.node)))
        p = I.resolve(st, c.args[0])
        if c.args and len(c.args) == 1 and p.op == "p":
            w = I.load(st, p.a[0])
        else:
            self.v("show", I, st, c.node, "an entry without a known action is put on the candidate list of " + short)
            return
        text = None
        for t in subterms(w):
            if t.op == "ctor" and t.a[0] == "fcitx::CandidateWord":
                text = t
        n0 = I.resolve(st, I.load(st, GHOST))
        cf = self.choice_fields()
        elem = None
        self_t = [t for t in subterms(text if text is not None else w) if t.op == "idx" and t.a[0].op == "fld" and t.a[0].a[0] is self.O and t.a[0].a[1] in cf]
        if cf:
            if not self_t:
                self.v("show", I, st, c.node, "an entry on the candidate list of %s does not show one of its choices" % short)
                return
            elem = self_t[0]
            self.vec = elem.a[0]
            if any(t is not elem for t in self_t):
                self.v("show", I, st, c.node, "an entry on the candidate list of %s mixes different choices" % short)
            i = elem.a[1]
            if not (I.proves_le(st, i, n0) and I.proves_le(st, n0, i)):
                self.v("show", I, st, c.node, "entry and choice positions differ on the candidate list of %s" % short)
        else:
            ok = text is not None and contains(text, lambda t: t.op == "fld" and t.a[0] is self.O)
            if not ok and text is not None:
                # a menu built from the state's own text
                ok = contains(I.load(st, p.a[0]), lambda t: t is self.O)
            if not ok and text is not None and any(t.op in ("phi", "it") for t in subterms(text)):
                ok = True
            if not ok:
                self.v("show", I, st, c.node, "an entry on the candidate list of %s does not come from that state" % short)
        I.storev(st, GHOST, lin_add(n0, const(1)))
        if "wiring" in self.want or "dead" in self.want:
            self.select(I, st.copy(), c, p, elem, n0)

    # run the entry's own select() as the user would
    def select(self, I, st, c, p, elem, pos):
        dc = I.dynclass(st, p)
        f = None
        for q in [dc] + self.P.bases_of(dc) if dc else []:
            r = self.P.records.get(q)
            for m in (r or {}).get("methods", []):
                if m["n"] == "select" and f is None:
                    f = self.P.functions.get(m["u"])
        if f is None:
            raise AnalysisError("select() of the entries of %s not found" % self.kind)
        self.selecting = (elem, pos)
        self.inline_enter = False
        old = st.ts
        st.ts = self.init_ts()
        try:
            cc = Call()
            cc.fn, cc.q, cc.node = f, f["q"], {"k": "sel", "_i": -9, "l": f["l"]}
            cc.this = p
            cc.objloc = p.a[0]
            cc.args = (mk("param", "ic"),)
            cc.alocs = (None,)
            cc.atypes = f["pt"]
            cc.ctor = cc.op = None
            cc.rt = f["rt"]
            self.extra_dead = (p.a[0],)
            res = I.inline(st, f, cc, cc.node)
            for s, _ in res:
                self.selected(I, s, c, elem, pos, [e for e in s.ts.log if e[0] in ("kh", "enter")], f)
        finally:
            self.selecting = None
            self.inline_enter = True
            self.extra_dead = ()

    def on_kh(self, I, st, c, n):
        if self.selecting:
            cbs = [i for i, t in enumerate(c.atypes) if is_state_cb(t)]
            self.log(st, "kh", n, tuple(strip_copy(I.resolve(st, a)) for a in c.args))
            for i in cbs:
                self.wired(I, st, c, c.args[i])

    def wired(self, I, st, c, f):
        """The callback handed out must enter exactly the state it is given."""
        s = st.copy()
        s.ts = self.init_ts()
        nx = mk("param", "next")
        cc = Call()
        cc.fn = {"q": "callback", "pt": [CB + ">"], "rt": "void"}
        cc.q, cc.node, cc.this, cc.objloc = "callback", {"k": "cb", "_i": -11}, None, None
        l = mk("Tmp", I.ctx, "next")
        s.store[l] = nx
        cc.args, cc.alocs, cc.atypes, cc.ctor, cc.op, cc.rt = (nx,), (l,), [CB + ">"], None, None, "void"
        try:
            res = I.call_value(s, I.resolve(s, f), cc)
        except AnalysisError:
            res = []
        if not res:
            self.v("wiring", I, st, c.node, "the callback given to %s cannot be followed" % base_name(c.q))
        for s2, _ in res:
            ent = [e for e in s2.ts.log if e[0] == "enter"]
            if len(ent) != 1 or ent[0][1] is not nx:
                self.v("wiring", I, st, c.node, "the callback given to %s does not enter exactly the state it receives" % base_name(c.q))
            self.rep.inst("callbacks followed", "%s %s" % (base_name(self.kind), I.where(c.node)))

    def on_call(self, I, st, c):
        if c.fn["u"] in self.enter_fns and not self.inline_enter:
            p = [a for a, t in zip(c.args, c.atypes) if t.startswith(CB)]
            if p:
                self.log(st, "enter", I.resolve(st, p[0]), I.dynclass(st, p[0]), I.load(st, I.ptr_loc(p[0])))
        return EngClient.on_call(self, I, st, c)

    def on_unknown_callee(self, I, st, f, call):
        if not call.args:
            r = mk("r", "called", f)
            st.facts[mk("==", r, NULL)] = False
            return [(st, r)]
        return EngClient.on_unknown_callee(self, I, st, f, call)

    def is_elem(self, I, st, a, elem):
        a = strip_copy(a)
        return a is elem or (a.op == "idx" and a.a[0] is elem.a[0] and self.same_pos(I, st, a.a[1], elem.a[1]))

    def fld_of(self, name):
        fs = [f["q"] for f in self.fields(self.kind) if f["n"] == name]
        if not fs:
            raise AnalysisError("anchor vanished: field %s of %s" % (name, self.kind))
        return mk("fld", self.O, fs[0])

    def same_pos(self, I, st, a, pos):
        a = I.resolve(st, a)
        return I.proves_le(st, a, pos) and I.proves_le(st, pos, a)

    def selected(self, I, st, c, elem, pos, ev, f):
        k = base_name(self.kind)
        self.rep.inst("entry selections", "%s %s" % (k, base_name(f["cls"] if "cls" in f else f["q"])))

        def bad(t):
            self.v("wiring", I, st, c.node, "choosing an entry of the %s list %s" % (k, t), "wiring@%s" % k)
        def one(kind):
            if len(ev) != 1 or ev[0][0] != kind:
                bad("does not do exactly one thing: " + ", ".join("%s %s" % (e[0], e[1] if e[0] == "kh" else e[2]) for e in ev))
                return None
            return ev[0]
        if k == "ShowingCharInfo":
            if ev:
                bad("has an effect")
            return
        if k in ("ChoosingCandidate", "AssociatedPhrasesPlain"):
            e = one("kh")
            if e is None:
                return
            if e[1] != "candidateSelected" or not self.is_elem(I, st, e[2][0], elem):
                bad("does not select that candidate")
            elif k == "ChoosingCandidate" and e[2][1] is not self.fld_of("originalCursor"):
                bad("passes another cursor than the one the list was opened at")
        elif k == "AssociatedPhrases":
            e = one("kh")
            if e is None:
                return
            if e[1] != "candidateAssociatedPhraseSelected" or not self.is_elem(I, st, e[2][1], elem):
                bad("does not select that phrase")
            elif (e[2][0], strip_copy(e[2][2]), strip_copy(e[2][3])) != (
                    self.fld_of("prefixCursorIndex"), self.fld_of("prefixReading"), self.fld_of("prefixValue")):
                bad("does not pass the prefix the list was opened for")
        elif k == "SelectingDictionary":
            e = one("kh")
            if e is None:
                return
            if e[1] != "dictionaryServiceSelected" or strip_copy(e[2][0]) is not self.fld_of("selectedPhrase"):
                bad("does not look up the selected phrase")
            elif not self.same_pos(I, st, e[2][1], pos):
                bad("performs the service of another entry")
            elif e[2][2] is not self.p:
                bad("passes another state")
        elif k == "SelectingFeature":
            e = one("enter")
            if e is None:
                return
            t = e[1]
            if not (t.op == "r" and t.a[0] == "called" and t.a[1].op == "fld" and self.is_elem(I, st, t.a[1].a[0], elem)):
                bad("does not enter the state of that entry")
        elif k == "SelectingDateMacro":
            e = one("enter")
            if e is None:
                return
            txt = I.fld(st, e[3], ST + "Committing::text")
            if e[2] != ST + "Committing" or not self.is_elem(I, st, txt, elem):
                bad("does not commit exactly that text")
        else:
            raise AnalysisError("no rule for the list of " + self.kind)

    # -- exits
    LISTING = {"ChoosingCandidate", "SelectingDictionary", "ShowingCharInfo", "AssociatedPhrases", "AssociatedPhrasesPlain",
               "SelectingFeature", "SelectingDateMacro"}
    NUMBERS = {"ChineseNumber", "EnclosingNumber"}

    def finish(self, I, st):
        k = base_name(self.kind)
        log = st.ts.log
        names = [e[0] for e in log]
        self.rep.count("show paths")
        self.rep.inst("state kinds shown", k)
        node = None

        def bad(t):
            self.v("show", I, st, node, "entering %s %s" % (k, t), "show@" + k)
        shows = [i for i, n in enumerate(names) if n == "list" or n.startswith("set")]
        if "reset" not in names:
            bad("does not clear the input panel")
        elif shows and min(shows) < max(i for i, n in enumerate(names) if n == "reset"):
            bad("clears what it has just shown")
        if "updateUserInterface" not in names:
            bad("does not refresh the panel")
        # lists
        lists = [e for e in log if e[0] == "list"]
        if k in self.LISTING:
            if len(lists) != 1 or st.ts.lst is None or lists[0][1] is not st.ts.lst:
                bad("does not show exactly one candidate list")
            n = I.resolve(st, I.load(st, GHOST))
            cf = self.choice_fields()
            if cf:
                sz = models.size_of(I, st, mk("fld", self.O, cf[0]))
                if not (I.proves_le(st, n, sz) and I.proves_le(st, sz, n)):
                    bad("does not list every choice exactly once")
                self.res.setdefault("choices", {})[self.kind] = cf[0]
            self.res.setdefault("listing", set()).add(self.kind)
        else:
            if lists:
                bad("shows a candidate list")
        # commit
        com = [e for e in log if e[0] == "commitString"]
        prev = self.prev
        if k == "Committing":
            txt = mk("fld", self.O, ST + "Committing::text")
            d = I.decide(st, I.mkeq(I.resolve(st, models.size_of(I, st, txt)), ZERO))
            if d is False or com:
                if len(com) != 1 or strip_copy(com[0][1]) is not txt:
                    bad("does not commit its text exactly once")
            elif d is None:
                bad("can leave its text uncommitted")
        elif k == "Empty":
            isn = I.decide(st, mk("isa", prev, ST + "NotEmpty"))
            nul = I.decide(st, I.mkeq(prev, NULL))
            buf = mk("fld", mk("obj", prev), ST + "NotEmpty::composingBuffer")
            if com:
                if isn is not True or len(com) != 1 or strip_copy(com[0][1]) is not buf:
                    bad("commits something else than the text composed before, once")
            elif isn is not False and nul is not True:
                d = I.decide(st, I.mkeq(I.resolve(st, models.size_of(I, st, buf)), ZERO))
                if d is not True:
                    bad("can drop the text composed before")
        elif com:
            bad("commits text")
        # preedit
        pre = [e for e in log if e[0] in ("setClientPreedit", "setPreedit")]
        if self.P.derives(self.kind, ST + "NotEmpty") or k in self.NUMBERS:
            if len(pre) != 1:
                bad("does not show its text exactly once")
            else:
                self.check_text(I, st, pre[0], k, bad)
                if "updatePreedit" not in names[names.index(pre[0][0]):]:
                    bad("does not refresh the pre-edit")
            aux = [e for e in log if e[0] == "setAuxDown"]
            if k not in self.NUMBERS:
                tip = mk("fld", self.O, ST + "NotEmpty::tooltip")
                if len(aux) != 1 or not contains(aux[0][1], lambda t: t is tip):
                    bad("does not show its tooltip")
        else:
            if pre:
                bad("shows a pre-edit")
        if k not in self.LISTING and "updatePreedit" not in names:
            bad("does not refresh the pre-edit")
        # the discard state settles
        fin = I.resolve(st, I.load(st, self.LS))
        want = ST + "Empty" if k == "EmptyIgnoringPrevious" else self.kind
        if I.dynclass(st, fin) != want or (k != "EmptyIgnoringPrevious" and fin is not self.p):
            bad("leaves another state behind")

    def check_text(self, I, st, e, k, bad):
        flag = None
        for f, val in st.facts.items():
            if contains(f, lambda t: t.op in ("m", "r") and isinstance(t.a[0], str) and t.a[0].endswith("capabilityFlags")):
                flag = val if f.op != "not" else not val
                if f.op == "==" and any(x is ZERO for x in f.a):
                    flag = not val
        if flag is None:
            bad("shows its text without looking at the application's capability")
        elif flag != (e[0] == "setClientPreedit"):
            bad("shows its text in the place the application does not support")
        parts, cur = [], []
        t = e[1]
        chain = []
        while t.op == "m!":
            chain.append(t)
            t = t.a[1]
        for x in reversed(chain):
            n = base_name(x.a[0])
            if n == "append":
                parts.append(strip_copy(x.a[2]))
            elif n == "setCursor":
                cur.append(x.a[2])
            elif n == "clear":
                parts = []
        if t.op == "ctor" and len(t.a) > 1:
            parts.insert(0, t.a[1])
        F = lambda n: self.fld_of(n)
        if k == "Marking":
            want = [F("head"), F("markedText"), F("tail")]
        elif k in self.NUMBERS:
            want = None
        else:
            want = [F("composingBuffer")]
        if want is None:
            num = F("number")
            if len(parts) != 1 or not contains(parts[0], lambda t: t is num):
                bad("does not show the number typed so far")
                return
            sz = models.size_of(I, st, parts[0])
            if not cur or not (I.proves_le(st, cur[-1], sz) and I.proves_le(st, sz, cur[-1])):
                bad("does not put the cursor behind the number")
            return
        if parts != want:
            bad("shows another text than its own")
        if not cur or cur[-1] is not F("cursorIndex"):
            bad("shows the cursor at another place than its own")


def show_states(P, rep, want, cls=ShowClient, late=frozenset()):
    facts = {}
    steps = 0
    funcs = set()
    for k in state_kinds(P):
        for u in sorted({f["key"] for f in P.functions.values() if f.get("cls") == engine_class(P) and any(t.startswith(CB) for t in f["pt"])}):
            C = cls(P, rep, want, k, facts)
            C.late = late
            I = Interp(P, C)

            def prep(I, st, c):
                p = state_object(I, st, k)
                C.p = p
                C.O = I.load(st, p.a[0])
                C.prev = I.load(st, C.LS)
                I.storev(st, GHOST, ZERO)
                c.args = tuple(p if t.startswith(CB) else a for a, t in zip(c.args, c.atypes))
            for s, _ in run_fn(I, C, P.functions[u], prep):
                C.finish(I, s)
            steps += I.steps
            funcs |= I.stats["functions"]
    rep.samples["functions analysed"] = sorted(set(rep.samples.get("functions analysed", [])) | {P.functions[k]["q"].split("(")[0] for k in funcs})
    facts["steps"] = steps
    return facts


# ---------------------------------------------------------------- drive: handling one event, per current state
# kinds entered only with nothing composed (obligations: KeyHandler part of P07 and the engine part here)
SETTLED = {ST + k for k in ("Empty", "EmptyIgnoringPrevious", "Committing", "AssociatedPhrasesPlain", "SelectingFeature",
                            "SelectingDateMacro", "ChineseNumber", "EnclosingNumber")}


class DriveClient(EngClient):
    num = True
    listing = frozenset()
    choices = {}
    late = frozenset()
    kind = None

    def start(self, I, st):
        self.p = None
        if self.kind is not None:
            self.p = state_object(I, st, self.kind)
            self.O = I.load(st, self.p.a[0])
            I.storev(st, self.LS, self.p)
            l0 = mk("list0")
            if self.kind in self.listing:
                st.facts[mk("isa", l0, "fcitx::CommonCandidateList")] = True
                st.facts[mk("==", l0, NULL)] = False
                cf = self.choices.get(self.kind)
                if cf:
                    st.store[mk("L", "ghost", "total")] = models.size_of(I, st, mk("fld", self.O, cf))
            else:
                st.ts = st.ts._replace(lst=None)

    def key(self, I, st):
        if "back" in self.want or "pos" in self.want:
            return (st.ts, I.load(st, self.LS),
                    frozenset((f, v) for f, v in st.facts.items() if f.op == "isa" and contains(f, lambda t: t is self.O)))
        return (st.ts, I.load(st, self.LS))


    # -- the list's own arithmetic
    def total(self, I, st):
        t = st.store.get(mk("L", "ghost", "total"))
        return t

    def axioms(self, I, st, t):
        if t.op == "lm":
            n, o = t.a[0], t.a[1]
            if n == "size":
                st.num.add(ZERO, t, 0)
            elif n == "cursorIndex":
                st.num.add(ZERO, t, 1)
                sz = mk("lm", "size", o)
                g = mk("lm", "globalCursorIndex", o, self.total(I, st))
                I.axioms(st, sz)
                I.axioms(st, g)
                st.num.add(t, sz, -1)
                st.num.add(t, g, 0)
            elif n == "globalCursorIndex":
                st.num.add(ZERO, t, 1)
                if t.a[2] is not None:
                    I.add_le(st, lin_add(lin_add(t, t.a[2], -1), const(1)))
            elif n in ("currentPage", "totalPages", "totalSize", "pageSize"):
                st.num.add(ZERO, t, 0)
        if t.op == "m" and t.a[0].endswith("Key::keyListIndex"):
            st.num.add(ZERO, t, 1)
        if t.op == "fld" and t.a[1].endswith("::selectedCandidateIndex") and t.a[0].op == "dynobj":
            # construction obligation (see on_kh): position in the list it was opened from
            k = t.a[0].a[0]
            pf = [f["q"] for f in self.P.records[k]["fields"] if "unique_ptr" in f["t"]]
            prev = mk("fld", t.a[0], pf[0])
            cs = models.size_of(I, st, mk("fld", mk("obj", prev), ST + "ChoosingCandidate::candidates"))
            st.num.add(ZERO, t, 0)
            I.add_le(st, lin_add(lin_add(t, cs, -1), const(1)))

    def list_call(self, I, st, c, n):
        if not self.cur_list(st, c.objloc):
            return None
        lp = st.ts.lst
        ov = I.load(st, c.objloc)
        if n in ("size", "cursorIndex", "currentPage", "totalPages", "pageSize"):
            return [(st, mk("lm", n, ov))]
        if n in ("globalCursorIndex", "totalSize"):
            t = self.total(I, st)
            if n == "totalSize" and t is not None:
                return [(st, t)]
            return [(st, mk("lm", n, ov, t))]
        if n in ("candidate", "candidateFromAll", "setGlobalCursorIndex", "setCursorIndex", "remove", "label"):
            i = I.resolve(st, c.args[0])
            if n in ("candidateFromAll", "setGlobalCursorIndex", "remove"):
                hi = self.total(I, st)
            else:
                hi = mk("lm", "size", ov)
            lo_ok = I.proves_le(st, ZERO, i) if n != "setGlobalCursorIndex" else I.proves_le(st, const(-1), i)
            hi_ok = hi is not None and I.proves_le(st, i, hi, -1)
            self.rep.inst("position obligations", "%s %s" % (I.where(c.node), n))
            if not (lo_ok and hi_ok):
                self.v("pos", I, st, c.node, "%s(%s) is not proved to be %s" % (n, show(i, 0, 3), "at least zero" if hi_ok else "below the number of entries" if lo_ok else "a position in the list"))
            if n == "candidate" or n == "candidateFromAll":
                return [(st, mk("lref", mk("S", mk("word", ov, i))))]
        return None

    def on_index(self, I, st, loc, idx, node, kind):
        if kind not in ("[]", "at"):
            return
        v = I.load(st, loc)
        r = loc
        while r.op in ("F", "E"):
            r = r.a[0]
        if loc.op == "F" and loc.a[1].startswith(ST):
            self.rep.inst("position obligations", "%s %s" % (I.where(node), base_name(loc.a[1])))
            sz = models.size_of(I, st, v)
            i = I.resolve(st, idx)
            if not (I.proves_le(st, ZERO, i) and I.proves_le(st, i, sz, -1)):
                self.v("pos", I, st, node, "%s is indexed with %s, which is not proved to be a position in it" % (base_name(loc.a[1]), show(i, 0, 3)))

    def on_replace(self, I, st, node, new, kind):
        st.store.pop(mk("L", "ghost", "total"), None)
        if kind is not None and new.op == "p":
            cf = self.choices.get(kind)
            if cf:
                st.store[mk("L", "ghost", "total")] = models.size_of(I, st, I.fld(st, I.load(st, new.a[0]), cf))
            if kind in self.listing:
                lst = st.ts.lst
                st.facts[mk("isa", lst, "fcitx::CommonCandidateList")] = True
                st.facts[mk("==", lst, NULL)] = False
        self.log(st, "entered", kind, new, I.load(st, new.a[0]) if new.op == "p" else None)
        # nothing composed may survive
        old_kind = self.kind if not any(e[0] == "entered" for e in st.ts.log[:-1]) else None
        if kind in SETTLED:
            self.rep.inst("clearing entries by the engine", "%s %s" % (I.where(node), base_name(kind)))
            prev = [e for e in st.ts.log if e[0] == "entered"]
            pk = self.kind if len(prev) == 1 else prev[-2][1]
            if not (st.ts.reset or pk in SETTLED):
                self.v("leftover", I, st, node, "the engine enters %s from %s without resetting key handling" % (base_name(kind), base_name(pk or "?")))

    def on_kh(self, I, st, c, n):
        self.log(st, "kh", n, I.where(c.node))
        if n == "handle" and self.kind in self.listing and not st.ts.used:
            self.v("route", I, st, c.node, "a key reaches composition before the candidate list of %s was offered it" % base_name(self.kind))
        # positions stored for later
        for i, t in enumerate(c.atypes):
            if t == "size_t" or t == "unsigned long":
                cand = [j for j, u in enumerate(c.atypes) if u.startswith("std::unique_ptr<") and ("NotEmpty" in u or "ChoosingCandidate" in u)]
                pn = self.P.functions.get(c.fn["u"], {}).get("params", [])
                if cand and i < len(pn) and self.is_sel_index(pn[i]["n"], c.fn["u"], i):
                    pv = I.resolve(st, c.args[cand[0]])
                    if pv.op == "p" and I.dynclass(st, pv) == ST + "ChoosingCandidate":
                        sz = models.size_of(I, st, I.fld(st, I.load(st, pv.a[0]), ST + "ChoosingCandidate::candidates"))
                        v = I.resolve(st, c.args[i])
                        self.rep.inst("position obligations", "%s stored position" % I.where(c.node))
                        w = v
                        while w.op in ("ucast", "cast") and isinstance(w.a[0], T):
                            w = w.a[0]
                        if not (w.op == "lm" and w.a[0] == "globalCursorIndex"):
                            self.v("back", I, st, c.node, "the position kept for coming back to the list is not that of the highlighted candidate")
                        if not (I.proves_le(st, ZERO, v) and I.proves_le(st, v, sz, -1)):
                            self.v("pos", I, st, c.node, "the position kept for coming back to the list is not proved to be in it")
        # nested calls the key handler may make
        for i, t in enumerate(c.atypes):
            f = I.resolve(st, c.args[i])
            if "std::function<void ()>" in t and f.op == "lam":
                s = st.copy()
                cc = Call()
                cc.fn = {"q": "callback", "pt": [], "rt": "void"}
                cc.q, cc.node, cc.this, cc.objloc = "callback", {"k": "cb", "_i": -12 - i}, None, None
                cc.args, cc.alocs, cc.atypes, cc.ctor, cc.op, cc.rt = (), (), [], None, None, "void"
                I.call_value(s, f, cc)
                self.rep.inst("callbacks followed", I.where(c.node))
            if is_state_cb(t) and f.op == "lam":
                self.wired(I, st, c, f)

        # what a list is opened from
        rk = strip_ptr_type(c.rt)
        if rk in kh.KEPT:
            for i, t in enumerate(c.atypes):
                if t.startswith("std::unique_ptr<" + ST):
                    pk = I.dynclass(st, I.resolve(st, c.args[i]))
                    self.rep.inst("lists opened", "%s %s from %s" % (I.where(c.node), base_name(rk), base_name(pk or "?")))
                    pv = I.resolve(st, c.args[i])
                    if pk == self.kind and pv.op == "p":
                        d = same_state(self.P, I, st, I.load(st, pv.a[0]), self.O, pk)
                        if d:
                            self.v("back", I, st, c.node, "what is kept of %s differs in %s" % (base_name(pk), ", ".join(base_name(x) for x in d)))
                    elif pv.op == "p":
                        self.v("back", I, st, c.node, "%s is opened with something else than the current state" % base_name(rk))
                    if pk not in kh.KEPT[rk]:
                        self.v("back", I, st, c.node, "%s is opened from %s, which leaving it does not go back to" % (base_name(rk), pk))

    def is_sel_index(self, name, u, i):
        return (u, i) in self.sel_params

    sel_params = frozenset()

    def wired(self, I, st, c, f):
        s = st.copy()
        s.ts = self.init_ts()
        nx = mk("param", "next")
        cc = Call()
        cc.fn = {"q": "callback", "pt": [CB + ">"], "rt": "void"}
        cc.q, cc.node, cc.this, cc.objloc = "callback", {"k": "cb", "_i": -11}, None, None
        l = mk("Tmp", I.ctx, "next")
        s.store[l] = nx
        cc.args, cc.alocs, cc.atypes, cc.ctor, cc.op, cc.rt = (nx,), (l,), [CB + ">"], None, None, "void"
        for s2, _ in I.call_value(s, f, cc):
            ent = [e for e in s2.ts.log if e[0] == "entered"]
            if len(ent) != 1 or ent[0][2] is not nx:
                self.v("wiring", I, st, c.node, "the callback given to %s does not enter exactly the state it receives" % base_name(c.q))
            self.rep.inst("callbacks followed", I.where(c.node))

    def on_call(self, I, st, c):
        return EngClient.on_call(self, I, st, c)

    def fcitx_call(self, I, st, c, cls, n, q):
        if n == "type" and self.evtype is not None and "Event" in cls and not c.args:
            return [(st, const(self.evtype))]
        r = EngClient.fcitx_call(self, I, st, c, cls, n, q)
        if n == "setGlobalCursorIndex" and c.objloc is not None:
            self.log(st, "highlight", I.resolve(st, c.args[0]))
        if q == "fcitx::startProcess":
            self.log(st, "process")
        return r

    def on_write(self, I, st, loc, val, node):
        EngClient.on_write(self, I, st, loc, val, node)
        if loc is self.LS:
            # assigning the owner destroys what it held
            old = I.resolve(st, I.load(st, self.LS))
            if old is not val and old.op != "c":
                st.ts = st.ts._replace(dead=st.ts.dead | {old.a[0] if old.op == "p" else old})
                self.log(st, "assigned", I.dynclass(st, I.resolve(st, val)))

    # -- key event exits
    GUARDS = (("isInputContextEvent", True), ("isRelease", False))

    def guard_bits(self, st):
        """Modifier bits proved absent on this path, and the two event guards."""
        bits = 0
        g = {}
        for f, val in st.facts.items():
            neg = False
            t = f
            while t.op == "not":
                t = t.a[0]
                neg = not neg
            if t.op == "==" and any(x is ZERO for x in t.a):
                neg = not neg
            names = {base_name(x.a[0]) for x in subterms(t) if x.op in ("m", "r") and isinstance(x.a[0], str)}
            truth = val != neg
            for n, w in self.GUARDS:
                if n in names:
                    g[n] = truth
            if "states" in names and not truth:
                for x in subterms(t):
                    if x.op == "c" and isinstance(x.a[0], int) and x.a[0] > 0:
                        bits |= x.a[0]
        return bits, g

    ALT, SUPER, CAPS = 1 << 3, 1 << 6, 1 << 1      # fcitx::KeyState

    def finish_key(self, I, st):
        ts = st.ts
        k = base_name(self.kind)
        bits, g = self.guard_bits(st)
        effects = ts.acc or ts.replaced or any(e[0] not in ("reset",) for e in ts.log) or ts.dirty
        self.rep.count("key event paths")
        self.rep.inst("state kinds driven", k)
        if effects:
            miss = [n for n, w in self.GUARDS if g.get(n) is not w]
            if not bits & self.ALT:
                miss.append("Alt")
            if not bits & self.SUPER:
                miss.append("Super")
            if not bits & self.CAPS:
                miss.append("Caps Lock")
            if miss:
                self.v("pass", I, st, None, "keyEvent has an effect on keys not excluded by %s" % ", ".join(miss), "pass@keyEvent")
            if ts.hres is True and not ts.acc:
                self.v("pass", I, st, None, "keyEvent consumes a key without accepting it", "pass@accept")
            if ts.acc and ts.hres is not True and self.kind not in self.listing:
                self.v("pass", I, st, None, "keyEvent accepts a key that was not consumed (state %s)" % k, "pass@accept")
            if ts.replaced and not ts.acc:
                self.v("pass", I, st, None, "keyEvent changes the state without accepting the key (state %s)" % k, "pass@accept")
        else:
            if not ts.special:
                self.v("pass", I, st, None, "keyEvent ignores a key it should handle (state %s)" % k, "pass@ignored")
        if self.kind in self.listing:
            if effects and not ts.acc:
                self.v("route", I, st, None, "a key is not absorbed while the list of %s is shown" % k, "route@" + k)
            if effects and not ts.used:
                self.v("route", I, st, None, "a key is not offered to the list of %s" % k, "route@" + k)
            if ts.dirty:
                self.v("route", I, st, None, "the panel is not refreshed after the list of %s changed" % k, "route@refresh " + k)
        else:
            if ts.used:
                self.v("route", I, st, None, "candidate list handling is entered in state %s" % k, "route@" + k)
            if effects and ts.hres is None:
                self.v("route", I, st, None, "a key in state %s is not given to composition" % k, "route@" + k)
        self.back_out(I, st, k)

    SILENT = {0x1004: "losing focus", 0x1006: "a reset by the application"}     # fcitx::EventType
    OTHER = 0x100a                                                              # InputContextSwitchInputMethod
    evtype = None

    def finish_other(self, I, st):
        """After McBopomofoEngine::reset."""
        k = base_name(self.kind)
        ts = st.ts
        self.rep.count("reset paths")
        self.rep.inst("state kinds reset", k)
        ent = [e for e in ts.log if e[0] == "entered"]
        if not ts.reset:
            self.v("leftover", I, st, None, "resetting the context in state %s keeps what was composed" % k, "leftover@reset")
        p = I.resolve(st, I.load(st, self.LS))
        now = ent[-1][1] if ent else I.dynclass(st, p)
        if now != ST + "Empty":
            self.v("leftover", I, st, None, "resetting the context in state %s does not settle in the empty state" % k, "leftover@reset")
        elif self.evtype in self.SILENT:
            self.rep.inst("silent resets", "%s %s" % (k, self.SILENT[self.evtype]))
            bad = [e for e in ent if e[1] == ST + "Empty"] or [e for e in ts.log if e[0] == "commitString"]
            if bad:
                self.v("show", I, st, None, "%s commits text (state %s)" % (self.SILENT[self.evtype], k), "show@reset")

    def on_assume(self, I, st, cond, val):
        if "back" in self.want and val:
            if self.is_check(cond, self.ESC) and st.ts.special != "shift":
                st.ts = st.ts._replace(special="esc")
            elif cond is mk("fld", self.O, ST + "AssociatedPhrases::useShiftKey"):
                st.ts = st.ts._replace(special="shift")
        neg = False
        t = cond
        while t.op == "not":
            t = t.a[0]
            neg = not neg
        if t.op == "==" and any(x is ZERO for x in t.a):
            neg = not neg
        names = {base_name(x.a[0]) for x in subterms(t) if x.op in ("m", "r") and isinstance(x.a[0], str)}
        truth = val != neg
        for n, w in self.GUARDS:
            if n in names and truth is not w:
                st.ts = st.ts._replace(special=True)
        if "states" in names and truth:
            bits = 0
            for x in subterms(t):
                if x.op == "c" and isinstance(x.a[0], int) and x.a[0] > 0:
                    bits |= x.a[0]
            if bits & (self.ALT | self.SUPER | self.CAPS):
                st.ts = st.ts._replace(special=True)
        return True

    # -- cancelling
    def is_check(self, f, sym):
        """Is the term 'the key pressed is sym'?"""
        if f.op in ("m", "r") and isinstance(f.a[0], str) and f.a[0].endswith("Key::check"):
            for x in f.a[1:]:
                if x is const(sym):
                    return True
                if isinstance(x, T) and x.op == "ctor" and x.a[0].endswith("Key") and any(y is const(sym) for y in x.a[1:]):
                    return True
        return False

    ESC = 0xff1b

    def back_out(self, I, st, k):
        if "back" not in self.want or k not in ("ShowingCharInfo", "SelectingDictionary", "AssociatedPhrases"):
            return
        if st.ts.special != "esc":
            return
        ent = [e for e in st.ts.log if e[0] == "entered"]
        if any(e[0] == "word" for e in st.ts.log):
            return
        self.rep.inst("lists backed out of", k)
        pf = [f["q"] for f in self.P.records[self.kind]["fields"] if "unique_ptr" in f["t"]]
        prev = mk("fld", self.O, pf[0])

        def bad(t):
            self.v("back", I, st, None, "Esc in %s %s" % (k, t), "back@" + k)
        kinds = {"ShowingCharInfo": ["SelectingDictionary"], "SelectingDictionary": ["ChoosingCandidate", "Marking"],
                 "AssociatedPhrases": ["ChoosingCandidate", "Inputting"]}[k]
        known = [x for x in kinds if I.decide(st, mk("isa", prev, ST + x)) is True] if len(kinds) > 1 else kinds
        if len(kinds) > 1 and not known:
            if all(I.decide(st, mk("isa", prev, ST + x)) is False for x in kinds):
                return          # no other kind is ever kept (obligation of construction)
            bad("does not look at the state it was opened from")
            return
        if len(ent) != 1 or ent[0][1] is None or base_name(ent[0][1]) != known[0]:
            bad("does not go back to the state it was opened from (%s)" % known[0])
            return
        d = same_state(self.P, I, st, ent[0][3], mk("obj", prev), ent[0][1])
        if d:
            bad("goes back to a state that differs in %s" % ", ".join(base_name(x) for x in d))
        hl = [e for e in st.ts.log if e[0] == "highlight"]
        if known[0] == "ChoosingCandidate":
            if not hl or hl[-1][1] is not mk("fld", self.O, self.kind + "::selectedCandidateIndex"):
                bad("does not highlight the candidate it was opened for")


def strip_ptr_type(t):
    if t and t.startswith("std::unique_ptr<"):
        return t[len("std::unique_ptr<"):].split(">")[0].split(",")[0].strip()
    return t


SELIDX = "::selectedCandidateIndex"


def find_sel_params(P, rep):
    """(function, parameter) pairs of key handling whose value becomes the remembered list position."""
    out = set()
    for f in kh.entries(P):
        rk = strip_ptr_type(f["rt"])
        q = rk + SELIDX
        if not any(x["q"] == q for x in P.records.get(rk, {"fields": []})["fields"]):
            continue
        C = kh.KHClient(P, rep, set())
        I = Interp(P, C)
        C.finish = lambda *a: None
        for s, v in kh.run_entry(I, C, f):
            v = I.resolve(s, v)
            if v.op != "p":
                continue
            x = I.resolve(s, I.fld(s, I.load(s, v.a[0]), q))
            hit = [i for i, p in enumerate(f["params"]) if x is mk("param", f["q"], p["n"])]
            for i in hit:
                out.add((f["u"], i))
            if not hit and x.op != "c":
                raise AnalysisError("%s: the remembered position is not a parameter (%s)" % (f["q"], show(x, 0, 3)))
    if not out:
        raise AnalysisError("anchor vanished: remembered list position")
    return frozenset(out)


_tl = {}


def ctors_of(P, k):
    return [f for f in P.functions.values() if f.get("ctor") and f.get("cls") == k and not f.get("implicit")]


class CtorClient(EngClient):
    """Nothing but constructors and standard library models."""
    def key(self, I, st):
        return (frozenset((f, v) for f, v in st.facts.items() if f.op == "isa"),)

    def on_call(self, I, st, c):
        return None


def run_ctor(P, rep, f, want):
    C = CtorClient(P, rep, want)
    C.cls = f["cls"]
    I = Interp(P, C)
    loc = mk("O", mk("ctx"), mk("site", "new", f["cls"]))
    out = []
    C.entry = f["q"]
    st = I.new_state()
    C.I = I
    c = bind(I, f, mk("p", loc), st)
    c.objloc = loc
    c.ctor = True
    st.store[loc] = I.default_obj(st, f["cls"], c.node)
    for s, _ in I.inline(st, f, c, c.node):
        out.append((I, s, I.load(s, loc), c))
    return out


def tooltipless(P, rep):
    """Kinds whose every non-copying constructor leaves the tooltip empty."""
    if "r" in _tl:
        return _tl["r"]
    out = set()
    for k in state_kinds(P):
        t = [q for q in [k] + P.bases_of(k) for x in P.records.get(q, {"fields": []})["fields"] if x["n"] == "tooltip"]
        if not t:
            continue
        ok = True
        n = 0
        for f in ctors_of(P, k):
            if f["pt"] and f["pt"][0].replace("const ", "").rstrip(" &") == k:
                continue
            n += 1
            for I, s, v, c in run_ctor(P, rep, f, set()):
                x = I.resolve(s, I.fld(s, v, t[0] + "::tooltip"))
                if not (x.op == "c" and x.a[0] in (b"", 0)):
                    ok = False
        if ok and n:
            out.add(k)
    _tl["r"] = frozenset(out)
    return _tl["r"]


def copies(P, rep, want):
    """Copying a state preserves everything it shows."""
    n = 0
    for k in state_kinds(P):
        for f in ctors_of(P, k):
            if not (len(f["pt"]) == 1 and f["pt"][0].replace("const ", "").rstrip(" &") == k and not f["pt"][0].endswith("&&")):
                continue
            if f.get("body") is None and not f.get("inits"):
                continue
            rep.inst("copy constructors", "%s %s" % (f["l"], base_name(k)))
            C = None
            for I, s, v, c in run_ctor(P, rep, f, want):
                d = same_state(P, I, s, v, c.args[0], k)
                if d:
                    rep.violation("copy@" + k, f["l"], "copying %s does not preserve %s" % (base_name(k), ", ".join(base_name(x) for x in d)), trace_list(s, 14))
                n += 1
    return n


def same_state(P, I, st, new, old, kind, depth=0):
    """Fields of a copied state that differ from the original."""
    out = []
    fs = []
    for q in [kind] + P.bases_of(kind):
        fs += P.records.get(q, {"fields": []})["fields"]
    for f in fs:
        a = strip_copy(I.resolve(st, I.fld(st, new, f["q"])))
        b = I.resolve(st, I.fld(st, old, f["q"]))
        if a is b:
            continue
        if a.op == "c" and a.a[0] in (b"", 0) and f["n"] == "tooltip" and kind in tooltipless(P, None):
            continue
        if "unique_ptr" in f["t"]:
            from_ = kh.KEPT.get(kind, ())
            if a.op == "p" and depth < 4:
                k2 = I.dynclass(st, a)
                if k2 is not None and I.decide(st, mk("isa", b, k2)) is not False:
                    d = same_state(P, I, st, I.load(st, a.a[0]), mk("obj", b), k2, depth + 1)
                    out += d
                    continue
            elif a is NULL and len(from_) > 1 and all(I.decide(st, mk("isa", b, x)) is False for x in from_):
                continue        # never kept (obligation of opening the list)
        # what a list shows while it is open is what the state it was opened from shows
        up = [g["q"] for g in fs if "unique_ptr" in g["t"]]
        if len(up) == 1 and f["q"].startswith(ST + "NotEmpty::"):
            o = mk("obj", I.resolve(st, I.fld(st, old, up[0])))
            if a is I.resolve(st, I.fld(st, o, f["q"])) and shown_from_previous(P, kind):
                continue
        out.append(f["q"])
    return out


def shown_from_previous(P, k):
    """Every non-copying constructor of k takes the shown text, cursor and tooltip from the kept state."""
    key = "p" + k
    if key in _tl:
        return _tl[key]
    ok = True
    up = [g["q"] for g in P.records[k]["fields"] if "unique_ptr" in g["t"]]
    ne = P.records[ST + "NotEmpty"]["fields"]
    for f in ctors_of(P, k):
        if f["pt"] and f["pt"][0].replace("const ", "").rstrip(" &") == k:
            continue
        for I, s, v, c in run_ctor(P, None, f, set()):
            o = mk("obj", I.resolve(s, I.fld(s, v, up[0])))
            for g in ne:
                if I.resolve(s, I.fld(s, v, g["q"])) is not I.resolve(s, I.fld(s, o, g["q"])):
                    ok = False
    _tl[key] = ok
    return ok


def drive(P, rep, want, facts, entry="keyEvent", cls=DriveClient, late=frozenset(), sel=frozenset()):
    steps = 0
    funcs = set()
    fn = method(P, engine_class(P), entry)
    types = [None] if entry != "reset" else [DriveClient.OTHER] + sorted(DriveClient.SILENT)
    for k, et in [(k, et) for k in state_kinds(P) for et in types]:
        C = cls(P, rep, want)
        C.evtype = et
        C.listing = frozenset(facts["listing"])
        C.choices = facts["choices"]
        C.kind = k
        C.late = late
        C.sel_params = sel
        I = Interp(P, C)
        for s, _ in run_fn(I, C, fn, lambda I, st, c: C.start(I, st)):
            if entry == "keyEvent":
                C.finish_key(I, s)
            else:
                C.finish_other(I, s)
        steps += I.steps
        funcs |= I.stats["functions"]
    rep.samples["functions analysed"] = sorted(set(rep.samples.get("functions analysed", [])) | {P.functions[k]["q"].split("(")[0] for k in funcs})
    return steps
