"""Typestate analysis of KeyHandler: every public entry point, all paths.

Tracks, per path: whether the sentence (latestWalk_) is up to date with the
grid, whether text was committed/discarded while something was still composed,
whether the caller's state has been replaced, and whether anything changed.
"""
from collections import namedtuple
from terms import *
from interp import *
from program import AnalysisError
import models

NS = "McBopomofo::"
KH = NS + "KeyHandler"
ST = NS + "InputStates::"
GRID = "Formosa::Gramambular2::ReadingGrid"
RDBUF = "Formosa::Mandarin::BopomofoReadingBuffer"
# states that mean "nothing is being composed any more"
CLEARING = {ST + k for k in ("Committing", "Empty", "EmptyIgnoringPrevious", "SelectingFeature", "SelectingDateMacro",
                             "ChineseNumber", "EnclosingNumber", "AssociatedPhrasesPlain")}
# states that are only ever entered with an empty composition (proved by the CLEARING obligation)
NUMBER = {ST + "ChineseNumber", ST + "EnclosingNumber"}

# states a dictionary list can be opened from
DICT_FROM = (ST + "ChoosingCandidate", ST + "Marking")
# the states a list can be opened from, i.e. those leaving it goes back to
KEPT = {ST + "SelectingDictionary": DICT_FROM,
        ST + "AssociatedPhrases": (ST + "ChoosingCandidate", ST + "Inputting"),
        ST + "ShowingCharInfo": (ST + "SelectingDictionary",)}

TS = namedtuple("TS", "fresh pend rep touched entered err added")


def field_of(P, cls, pred):
    r = P.records.get(cls)
    if r is None:
        raise AnalysisError("anchor vanished: class " + cls)
    fs = [f for f in r["fields"] if pred(f["t"])]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: field of %s (%d candidates)" % (cls, len(fs)))
    return fs[0]["q"]


def field_type(P, q):
    for f in P.records[q.rsplit("::", 1)[0]]["fields"]:
        if f["q"] == q:
            m = f["t"]
            if m.startswith("std::unique_ptr<"):
                m = m[len("std::unique_ptr<"):].split(">")[0].split(",")[0].strip() + " *"
            return m
    return ""


class KHClient(Client):
    merge_limit = 24

    def __init__(self, P, rep, want):
        self.P = P
        self.rep = rep
        self.want = want          # rule ids to report
        self.f_grid = field_of(P, KH, lambda t: t == GRID)
        self.f_rd = field_of(P, KH, lambda t: t == RDBUF)
        self.f_walk = field_of(P, KH, lambda t: t.endswith("ReadingGrid::WalkResult"))
        self.this = mk("this")
        self.LG = mk("F", mk("S", self.this), self.f_grid)
        self.LR = mk("F", mk("S", self.this), self.f_rd)
        self.LW = mk("F", mk("S", self.this), self.f_walk)
        self.entry = None
        self.params = ()
        self.select_cbs = ()
        self.events = 0

    def init_ts(self):
        return TS(True, None, False, False, False, False, False)

    # ---- what is inlined
    OPAQUE_GRID = {"insertReading", "deleteReadingBeforeCursor", "deleteReadingAfterCursor", "overrideCandidate", "walk",
                   "candidatesAt"}
    OPAQUE_RD = {"combineKey", "backspace", "isValidKey", "composedString", "standardLayoutQueryString", "setKeyboardLayout"}

    def opaque(self, I, fn):
        q = fn["q"]
        if q.startswith((KH, NS + "InputState", NS + "Key::", NS + "DictionaryService")) or "(anonymous" in q or "lambda" in q:
            if q.startswith(NS + "DictionaryServices::load"):
                return True
            return False
        n = base_name(q)
        if q.startswith((GRID + "::WalkResult", GRID + "::Candidate::")):
            return False
        if q.startswith(GRID + "::"):
            return not (n in ("length", "cursor", "readings", "clear", "setCursor", "spans"))
        if q.startswith(RDBUF + "::"):
            return n in self.OPAQUE_RD
        if q.startswith("Formosa::Mandarin::BopomofoSyllable::"):
            return not (n.startswith(("is", "has", "clear", "operator==", "operator!=")) or n == "BopomofoSyllable")
        return True

    def virtual_targets(self, I, st, call):
        if call.fn["q"] == NS + "DictionaryService::lookup":
            t = [f for f in self.P.overriders(call.fn["u"]) if f.get("body")]
            return t or None
        return None

    # ---- emptiness
    def empty(self, I, st):
        g = I.load(st, self.LG)
        n = self.grid_len(I, st, g)
        a = I.decide(st, I.mkeq(I.resolve(st, n), ZERO))
        b = self.rd_empty(I, st)
        return a is True and b is True, a, b

    def grid_len(self, I, st, g):
        r = I.fld(st, g, GRID + "::readings_")
        return models.size_of(I, st, r)

    def rd_empty(self, I, st):
        fn = self.P.fn(RDBUF + "::isEmpty")
        s = st.copy()
        h = (self.on_read, self.on_deref)
        c = Call()
        c.fn = fn
        c.q = fn["q"]
        c.node = {"k": "probe", "_i": -7}
        c.this = mk("p", self.LR)
        c.objloc = self.LR
        c.args = c.alocs = ()
        c.atypes = []
        c.ctor = c.op = None
        c.rt = "bool"
        self.quiet = True
        try:
            r = I.inline(s, fn, c, c.node)
        finally:
            self.quiet = False
        if len(r) != 1:
            return None
        return I.decide(r[0][0], I.truth(r[0][1]))

    quiet = False

    def key(self, I, st):
        e = self.empty(I, st)
        return (st.ts, e[1], e[2])

    def merged(self, I, st, key):
        # what all the joined states agree on stays known
        if key[1] is not None:
            I.assume(st, I.mkeq(I.resolve(st, self.grid_len(I, st, I.load(st, self.LG))), ZERO), key[1])
        if key[2] is True:
            self.assume_rd_empty(I, st)

    # ---- reporting
    def v(self, rule, I, st, node, text, fn=None):
        if rule not in self.want or self.quiet:
            return
        where = I.where(node) if node else "src/KeyHandler.cpp"
        f = fn or (self.P.functions[I.stack[-1]]["q"] if I.stack else self.entry)
        self.rep.violation("%s@%s" % (rule, f), where, text + " (entry point %s)" % self.entry, trace_list(st, 14))

    def ob(self, rule, I, node):
        if rule in self.want and not self.quiet:
            self.rep.inst("obligations " + rule, "%s in %s" % (I.where(node), base_name(self.P.functions[I.stack[-1]]["q"]) if I.stack else ""))

    # ---- events
    def mutated(self, I, st, node, what):
        ts = st.ts
        if ts.pend:
            if not self.empty(I, st)[0]:
                self.v("leftover", I, st, node, "%s while text committed or discarded at %s is still composed" % (what, ts.pend))
            ts = ts._replace(pend=None)
        st.ts = ts._replace(touched=True)

    def on_call(self, I, st, c):
        if c.objloc is None:
            return None
        q = c.q
        n = base_name(q)
        if c.fn.get("cls") == GRID and self.is_grid(I, st, c):
            if n == "walk":
                g = I.load(st, self.LG)
                return [(st, mk("walkres", I.fld(st, g, GRID + "::readings_"), I.fld(st, g, GRID + "::spans_")))]
            if n == "candidatesAt":
                self.ob("stale", I, c.node)
                return [(st, mk("r", "candidatesAt", I.load(st, self.LG), *c.args))]
            if n == "clear":
                self.ob("stale", I, c.node)
                st.ts = st.ts._replace(touched=True, fresh=False)
                return None
            if n == "setCursor":
                st.ts = st.ts._replace(touched=True)
                return None
            if not c.fn.get("const") and not c.fn.get("static") and n not in ("length", "cursor", "readings", "spans", "readingSeparator"):
                # a mutator: it may refuse
                self.ob("stale", I, c.node)
                self.mutated(I, st, c.node, "composition changes")
                if strip_type(c.rt) == "bool":
                    s2 = st.copy()
                    self.apply_mut(I, st, c)
                    return [(st, TRUE), (s2, FALSE)]
                self.apply_mut(I, st, c)
                return [(st, VOID)]
        if c.fn.get("cls") == RDBUF and self.at(I, st, c, self.LR):
            if not c.fn.get("const"):
                if n == "clear":
                    st.ts = st.ts._replace(touched=True)
                elif n not in ("setKeyboardLayout",):
                    self.mutated(I, st, c.node, "a key is combined into the pending syllable")
            return None
        if n == "addUserPhrase" and not q.startswith(KH):
            self.on_add(I, st, c)
        return None

    def on_add(self, I, st, c):
        pass

    def apply_mut(self, I, st, c):
        g = I.load(st, self.LG)
        k = mk("at", I.ctx, I.site(c.node))
        cur = I.fld(st, g, GRID + "::cursor_")
        I.storev(st, self.LG, mk("m!", base_name(c.q), g, k, *c.args))
        if base_name(c.q) == "overrideCandidate":
            I.storev(st, mk("F", self.LG, GRID + "::cursor_"), cur)
            I.storev(st, mk("F", self.LG, GRID + "::readings_"), I.fld(st, g, GRID + "::readings_"))
        st.ts = st.ts._replace(fresh=False)

    def at(self, I, st, c, loc):
        l = c.objloc
        v = st.store.get(l)
        if v is not None and v.op == "ref":
            l = v.a[0]
        return l is loc

    def is_grid(self, I, st, c):
        return self.at(I, st, c, self.LG)

    def under(self, loc, top):
        while True:
            if loc is top:
                return True
            if loc.op in ("F", "E"):
                loc = loc.a[0]
            else:
                return False

    def on_write(self, I, st, loc, val, node):
        if self.quiet:
            return
        if self.under(loc, self.LW):
            g = I.load(st, self.LG)
            cur = mk("walkres", I.fld(st, g, GRID + "::readings_"), I.fld(st, g, GRID + "::spans_"))
            if loc is self.LW and val.op == "walkres":
                st.ts = st.ts._replace(fresh=(val is cur))
            elif loc is self.LW and self.is_default_walk(I, st, val):
                e = self.empty(I, st)
                st.ts = st.ts._replace(fresh=e[1] is True)
            else:
                nodes = I.fld(st, I.load(st, self.LW), GRID + "::WalkResult::nodes")
                e = self.empty(I, st)
                if nodes.op == "vec" and not nodes.a[0] and e[1] is True:
                    st.ts = st.ts._replace(fresh=True)
        elif self.under(loc, self.LG) or self.under(loc, self.LR):
            st.ts = st.ts._replace(touched=True)

    def is_default_walk(self, I, st, v):
        n = I.fld(st, v, GRID + "::WalkResult::nodes")
        return n.op == "vec" and not n.a[0]

    def on_read(self, I, st, loc, node):
        if self.quiet:
            return
        self.check_dead(I, st, loc, node)
        if not st.ts.fresh and self.under(loc, self.LW):
            if loc is self.LW and node is not None and node.get("k") == "CXXConstructExpr":
                return
            self.v("stale", I, st, node, "the previous sentence (%s) is used after the composition changed and before it is recomputed" % base_name(self.f_walk))

    def on_deref(self, I, st, ptr, node):
        if self.quiet:
            return
        if ptr.op == "c" and ptr.a[0] is None:
            self.v("dead", I, st, node, "a null or moved-from pointer is followed")
            st.exc = "dead"
            return
        self.check_dead(I, st, mk("S", ptr), node)

    def dead_term(self, t):
        return t in self.params or (t.op in ("fld", "obj", "idx", "lin") and any(self.dead_term(x) for x in t.a if isinstance(x, T)))

    def check_dead(self, I, st, loc, node):
        if not st.ts.rep:
            return
        r = I.root(loc)
        if r.op == "S" and self.dead_term(r.a[0]):
            self.v("dead", I, st, node, "%s is used after the state it belongs to was replaced" % show(r.a[0]))

    late = None

    def on_unknown_callee(self, I, st, f, call):
        if self.late is not None and st.ts.rep and f.op == "param":
            self.late.add(f)
        if call.args and len(call.args) == 1 and call.atypes and "unique_ptr<McBopomofo::InputState" in call.atypes[0]:
            self.enter(I, st, call, call.args[0])
            return [(st, VOID)]
        if not call.args and f.op in ("param", "obj", "init", "fld"):
            if f in self.select_cbs or (f.op in ("obj",) and f.a[0] in self.select_cbs):
                self.external_selection(I, st, call.node)
            else:
                st.ts = st.ts._replace(err=True)
            return [(st, VOID)]
        return None

    def external_selection(self, I, st, node):
        """The caller's selection callback: it may re-enter this object through its public interface."""
        self.mutated(I, st, node, "the selection callback runs")
        if not st.ts.fresh:
            self.v("stale", I, st, node, "the selection callback runs before the sentence is recomputed")
        k = mk("at", I.ctx, I.site(node))
        for l in (self.LG, self.LR):
            I.storev(st, l, mk("havoc", l, k))
        g = I.load(st, self.LG)
        I.storev(st, self.LW, mk("walkres", I.fld(st, g, GRID + "::readings_"), I.fld(st, g, GRID + "::spans_")))
        st.ts = st.ts._replace(fresh=True, rep=True, entered=True)

    def enter(self, I, st, call, p):
        node = call.node
        ts = st.ts
        kind = I.dynclass(st, p)
        if p.op == "c":
            self.v("dead", I, st, node, "a null or moved-from state is entered")
            st.exc = "dead"
            return
        if kind is None:
            t = strip_ptr(call.atypes[0])
            kind = "?"
        self.rep.inst("state entries", "%s %s" % (I.where(node), base_name(kind)))
        if kind in KEPT:
            pv = [f["q"] for f in self.P.records[kind]["fields"] if "unique_ptr" in f["t"]]
            o = I.load(st, I.ptr_loc(p))
            pp = I.resolve(st, I.fld(st, o, pv[0])) if len(pv) == 1 else None
            pk = I.dynclass(st, pp) if pp is not None else None
            self.rep.inst("lists opened", "%s %s from %s" % (I.where(node), base_name(kind), base_name(pk or "?")))
            if pk is None and pp is not None and strip_ptr(field_type(self.P, pv[0])) in KEPT[kind] and pp.op != "c":
                pk = KEPT[kind][0]
            if pk not in KEPT[kind]:
                for r in ("dead", "kept"):
                    self.v(r, I, st, node, "%s is opened from %s, which leaving it does not go back to" % (base_name(kind), pk))
        self.on_enter_state(I, st, node, kind, p)
        pend = ts.pend
        if kind in CLEARING or kind == "?":
            self.ob("leftover", I, node)
            if not self.empty(I, st)[0]:
                if kind == "?":
                    raise AnalysisError("state kind unknown at " + I.where(node))
                pend = pend or I.where(node)
        st.ts = st.ts._replace(rep=True, entered=True, pend=pend)

    def on_enter_state(self, I, st, node, kind, p):
        pass

    def prev_kinds(self, I, st, p):
        """A dictionary list is only ever opened from one of these (obligation below)."""
        return p.op == "fld" and p.a[1].startswith(ST + "SelectingDictionary::")

    def on_assume(self, I, st, cond, val):
        if cond.op == "isa" and not val and cond.a[1] in DICT_FROM and self.prev_kinds(I, st, cond.a[0]):
            if all(k == cond.a[1] or st.facts.get(mk("isa", cond.a[0], k)) is False for k in DICT_FROM):
                return False
        if cond.op == "isa" and val and cond.a[1] in NUMBER and cond.a[0] in self.params:
            g = I.load(st, self.LG)
            n = self.grid_len(I, st, g)
            if not I.assume(st, I.mkeq(I.resolve(st, n), ZERO), True):
                return False
            fn = self.P.fn(RDBUF + "::clear")
            self.assume_rd_empty(I, st)
        return True

    def assume_rd_empty(self, I, st):
        fn = self.P.fn(RDBUF + "::isEmpty")
        c = Call()
        c.fn, c.q, c.node, c.this, c.objloc = fn, fn["q"], {"k": "probe", "_i": -7}, mk("p", self.LR), self.LR
        c.args = c.alocs = ()
        c.atypes, c.ctor, c.op, c.rt = [], None, None, "bool"
        self.quiet = True
        try:
            r = I.inline(st, fn, c, c.node)
        finally:
            self.quiet = False
        if len(r) == 1:
            I.assume(r[0][0], I.truth(r[0][1]), True)

    def finish(self, I, st, v, fn):
        node = {"l": "%s" % fn["l"]}
        ts = st.ts
        name = fn["q"]
        if not ts.fresh:
            self.v("stale", I, st, node, "%s can return with the composition changed but the sentence not recomputed" % name, name)
        if ts.pend and not self.empty(I, st)[0]:
            self.v("leftover", I, st, node, "%s can return with composed text or a pending syllable left after the commit/discard at %s" % (name, ts.pend), name)
        if strip_type(fn["rt"]) == "bool":
            d = I.decide(st, I.truth(v))
            if d is not True and (ts.touched or ts.entered):
                self.v("unhandled", I, st, node, "%s can report a key as not handled after it %s" % (
                    name, "entered a new state" if ts.entered else "changed the composition"), name)
            if d is False:
                self.rep.count("unhandled exits")
        self.rep.inst("exits analysed", "%s" % name)
        self.rep.count("exit states")


def run_entry(I, C, fn, prep=None):
    C.entry = fn["q"]
    st = I.new_state()
    c = Call()
    c.fn = fn
    c.q = fn["q"]
    c.node = {"k": "root", "l": fn["l"]}
    c.this = mk("this")
    c.objloc = None
    c.ctor = c.op = None
    c.rt = fn["rt"]
    a, ls, ps = [], [], []
    for p in fn["params"]:
        t = mk("param", fn["q"], p["n"])
        if is_ref(p["t"]) and "function" not in p["t"]:
            t = mk("param", fn["q"], "&" + p["n"])
            a.append(mk("obj", t))
            ls.append(mk("S", t))
            ps.append(t)
        else:
            a.append(t)
            ls.append(None)
            if is_ptr(p["t"]):
                ps.append(t)
    C.params = tuple(ps)
    # callbacks without arguments: the last one signals an error, any earlier one performs the caller's selection
    nullary = [i for i, p in enumerate(fn["params"]) if "std::function<void ()>" in p["t"]]
    if hasattr(C, "select_cbs"):
        C.select_cbs = tuple(a[i] for i in nullary[:-1])
    c.args, c.alocs, c.atypes = tuple(a), tuple(ls), fn["pt"]
    st.facts[mk("==", mk("this"), NULL)] = False
    for t in ps:
        st.facts[mk("==", t, NULL)] = False
    # the sentence is up to date on entry
    if hasattr(C, "LW"):
        g = I.load(st, C.LG)
        I.storev(st, C.LW, mk("walkres", I.fld(st, g, GRID + "::readings_"), I.fld(st, g, GRID + "::spans_")))
    if prep:
        prep(st)
    res = I.inline(st, fn, c, c.node)
    for s, v in res:
        C.finish(I, s, v, fn)
    return res


def entries(P):
    out = []
    rec = P.records[KH]
    for m in rec["methods"]:
        if m.get("ctor") or m.get("dtor") or m.get("acc") not in ("public", 0, None):
            continue
        f = P.functions.get(m["u"])
        if f is not None and f.get("body") is not None and not f.get("static"):
            out.append(f)
    return out


def analyse(P, rep, want, cls=KHClient, late=None):
    """late: collects the by-reference callbacks called after a state was already entered."""
    tot = 0
    names = []
    funcs = set()
    for f in entries(P):
        C = cls(P, rep, want)
        C.late = set()
        I = Interp(P, C)
        run_entry(I, C, f)
        if late is not None:
            for t in C.late:
                for i, p in enumerate(f["params"]):
                    if p["n"] == t.a[1] and f["q"] == t.a[0] and is_ref(p["t"]):
                        late.add((f["u"], i))
        tot += I.steps
        names.append(f["q"])
        funcs |= I.stats["functions"]
    rep.samples["entry points"] = names
    rep.samples["functions analysed"] = sorted({P.functions[k]["q"] for k in funcs})
    return {"abstract_steps": tot}
