"""P06: every stored preference reaches the behaviour it names."""
from collections import namedtuple
import acts, eng, kh, shape
from kh import KH, ST, GRID, RDBUF, NS
from common import TRUSTED
from interp import *
from terms import *
from program import AnalysisError
TECHNIQUE = ("value-flow analysis of activation and of the menu closures for every option value, and partial evaluation of key handling "
             "with the setter's value and one concrete key while everything else stays symbolic")
ASSUMPTIONS = TRUSTED + ["the keys Esc, Enter, Space, ',' , '`' and capital letters are not part of a keyboard layout's syllable keys (P04)",
                         "behaviours are followed for compositions of up to 3 readings at every cursor position"]
LOG = namedtuple("LOG", kh.TS._fields + ("log", "rd"))
MODE = NS + "InputMode"


class Pref(kh.KHClient):
    """Key handling over a small concrete composition, recording what it does in order."""
    merge_limit = 2000
    num = True

    def __init__(self, P, rep, rd):
        kh.KHClient.__init__(self, P, rep, set())
        self.rd0 = rd
        self.n = 0

    def init_ts(self):
        t = kh.KHClient.init_ts(self)
        return LOG(*(tuple(t) + ((), self.rd0)))

    def key(self, I, st):
        return st.ts

    def opaque(self, I, fn):
        if fn["rt"].endswith("ComposedString") or "Localized" in fn["q"]:
            return True
        if fn["q"].startswith(GRID) and base_name(fn["q"]) == "findNodeAt":
            return True
        if base_name(fn["q"]).startswith("getHTML"):
            return True
        return kh.KHClient.opaque(self, I, fn)

    def log(self, st, *e):
        st.ts = st.ts._replace(log=st.ts.log + (e,))

    def empty(self, I, st):
        g = I.load(st, self.LG)
        a = I.decide(st, I.mkeq(I.resolve(st, self.grid_len(I, st, g)), ZERO))
        b = st.ts.rd == "empty"
        return a is True and b, a, b

    def on_call(self, I, st, c):
        n = base_name(c.q or "")
        cls = c.fn.get("cls") or ""
        a = [I.resolve(st, x) for x in c.args]
        if cls == RDBUF and c.objloc is not None and self.at(I, st, c, self.LR):
            if n == "isValidKey":
                return [(st, TRUE if st.ts.rd == "tone" else FALSE)]
            if n == "combineKey":
                return [(st, TRUE)]
            if n == "isEmpty":
                return [(st, TRUE if st.ts.rd == "empty" else FALSE)]
            if n == "hasToneMarker":
                return [(st, TRUE if st.ts.rd == "tone" else FALSE)]
            if n == "hasToneMarkerOnly":
                return [(st, FALSE)]
            if n == "clear":
                st.ts = st.ts._replace(rd="empty")
                return [(st, VOID)]
            if c.fn.get("const") and strip_type(c.rt) != "void":
                return [(st, mk("m", n))]
        if cls == GRID and c.objloc is not None and self.is_grid(I, st, c):
            if n == "candidatesAt":
                self.log(st, "list", a[0])
                return [(st, mk("r", "candidatesAt", const(len(st.ts.log))))]
            if n == "insertReading":
                self.log(st, "insert", shape.flat(eng.strip_copy(a[0])))
            elif n in ("clear", "setCursor", "overrideCandidate"):
                self.log(st, n, *a)
        if n == "hasUnigrams":
            k = shape.flat(eng.strip_copy(a[0]))
            self.log(st, "ask", k)
            return [(st, mk("m", "hasUnigrams", eng.strip_copy(a[0])))]
        if cls == KH and base_name(c.q).startswith("getHTML"):
            return [(st, mk("m", "ruby", const(base_name(c.q))))]
        if (c.rt or "").endswith("ComposedString"):
            return [(st, mk("m", "composed"))]
        return kh.KHClient.on_call(self, I, st, c)

    def apply_mut(self, I, st, c):
        if base_name(c.q) == "insertReading":
            g = I.load(st, self.LG)
            r = I.resolve(st, I.fld(st, g, GRID + "::readings_"))
            cur = I.resolve(st, I.fld(st, g, GRID + "::cursor_"))
            if r.op == "vec" and cur.op == "c":
                k = cur.a[0]
                I.storev(st, mk("F", self.LG, GRID + "::readings_"), mk("vec", r.a[0][:k] + (eng.strip_copy(I.resolve(st, c.args[0])),) + r.a[0][k:]))
                I.storev(st, mk("F", self.LG, GRID + "::cursor_"), const(k + 1))
                I.storev(st, mk("F", self.LG, GRID + "::spans_"), mk("havoc", "spans", mk("at", I.ctx, I.site(c.node))))
                return
        kh.KHClient.apply_mut(self, I, st, c)

    def on_enter_state(self, I, st, node, kind, p):
        text = None
        if kind == ST + "Committing":
            o = I.load(st, I.ptr_loc(p))
            fs = [f["q"] for f in self.P.records[kind]["fields"]]
            text = shape.flat(eng.strip_copy(I.resolve(st, I.fld(st, o, fs[0]))))
        self.log(st, "enter", base_name(kind), text)

    def enter(self, I, st, call, p):
        if p.op != "c" and I.dynclass(st, p) is not None:
            kh.KHClient.enter(self, I, st, call, p)
        else:
            self.log(st, "enter", "?", None)

    def on_unknown_callee(self, I, st, f, call):
        if not call.args:
            self.log(st, "error")
            return [(st, VOID)]
        return kh.KHClient.on_unknown_callee(self, I, st, f, call)


def call_of(fn, this, args, objloc=None):
    c = Call()
    c.fn, c.q, c.node = fn, fn["q"], {"k": "root", "l": fn["l"], "_i": -19}
    c.this, c.objloc = this, objloc
    c.args = tuple(args)
    c.alocs = tuple(None for _ in args)
    c.atypes, c.ctor, c.op, c.rt = list(fn["pt"]), None, None, fn["rt"]
    return c


class World:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.steps = 0
        m = acts.enum_values(P, MODE)
        self.modes = m
        self.methods = {}

    def method(self, name):
        if name not in self.methods:
            self.methods[name] = eng.method(self.P, KH, name)
        return self.methods[name]

    def run(self, prefs, entry, args, n=1, cur=None, rd="empty", state="Inputting"):
        """All paths of one entry after the given preferences were set: [(state, value, log)]"""
        P = self.P
        C = self.client(P, self.rep, rd)
        C.entry = entry
        I = Interp(P, C)
        self.I = I
        st = I.new_state()
        st.facts[mk("==", mk("this"), NULL)] = False
        this = mk("this")
        cur = n if cur is None else cur
        I.storev(st, mk("F", C.LG, GRID + "::readings_"), mk("vec", tuple(mk("rd", i) for i in range(n))))
        I.storev(st, mk("F", C.LG, GRID + "::cursor_"), const(cur))
        g = I.load(st, C.LG)
        I.storev(st, C.LW, mk("walkres", I.fld(st, g, GRID + "::readings_"), I.fld(st, g, GRID + "::spans_")))
        for name, v in prefs:
            f = self.method(name)
            r = I.inline(st, f, call_of(f, this, [v]), {"k": "root", "l": f["l"], "_i": -18})
            if len(r) != 1:
                raise AnalysisError("%s has %d outcomes" % (name, len(r)))
            st = r[0][0]
        st.ts = C.init_ts()
        f = self.method(entry)
        a = []
        for i, p in enumerate(f["params"]):
            t = strip_type(p["t"])
            if i < len(args) and args[i] is not None:
                a.append(args[i])
            elif base_name(t.split("<")[0]) == "Key" or t.endswith("Key"):
                a.append(self.keyv(I, st))
            elif is_ptr(p["t"]) and "InputState" in p["t"]:
                pp = eng.state_object(I, st, ST + state)
                C.params = (pp,)
                self.setup(I, st, pp)
                a.append(pp)
            else:
                a.append(mk("obj", mk("param", f["q"], "&" + p["n"])) if is_ref(p["t"]) else mk("param", f["q"], p["n"]))
        c = call_of(f, this, a)
        c.alocs = tuple(mk("S", mk("param", f["q"], "&" + p["n"])) if is_ref(p["t"]) and v.op == "obj" else None for p, v in zip(f["params"], a))
        res = I.inline(st, f, c, c.node)
        self.steps += I.steps
        self.C = C
        self.rep.count("scenarios")
        self.rep.count("paths followed", len(res))
        return [(s, v, s.ts.log) for s, v in res]

    keyspec = None
    client = Pref

    def setup(self, I, st, p):
        """What is known of the state the event arrives in."""

    def keyv(self, I, st):
        """The key as key handling receives it."""
        loc = mk("L", "probe", "key")
        ch, shift, ctrl = self.keyspec
        names = acts.enum_values(self.P, NS + "Key::KeyName")
        for f, v in (("ascii", const(ch)), ("name", const(names["ASCII"])), ("shiftPressed", TRUE if shift else FALSE),
                     ("ctrlPressed", TRUE if ctrl else FALSE), ("isFromNumberPad", FALSE)):
            I.storev(st, mk("F", loc, NS + "Key::" + f), v)
        return I.load(st, loc)

    def key(self, ch, shift=False, ctrl=False):
        self.keyspec = (ord(ch) if isinstance(ch, str) else ch, shift, ctrl)
        return self


def enters(log):
    return [e for e in log if e[0] == "enter"]


def behaviours(P, rep):
    W = World(P, rep)
    PLAIN, MCB = const(W.modes["PlainBopomofo"]), const(W.modes["McBopomofo"])
    MODES = ((MCB, "McBopomofo"), (PLAIN, "Plain"))
    ON, OFF = TRUE, FALSE

    def bad(setting, fn, s, t):
        rep.violation("behaviour@" + setting, W.method(fn)["l"], t, trace_list(s, 12))

    # Esc
    for F in (ON, OFF):
        for n in range(3):
            for rd in ("empty", "part"):
                if n == 0 and rd == "empty":
                    continue
                for s, v, log in W.key(27).run([("setEscKeyClearsEntireComposingBuffer", F)], "handle", (), n=n, rd=rd):
                    es = enters(log)
                    rep.inst("settings followed", "Esc clears=%s" % (F is ON))
                    last = es[-1][1] if es else None
                    wiped = any(e[0] == "clear" for e in log) or any(e[1] in ("Empty", "EmptyIgnoringPrevious", "Committing") for e in es)
                    if F is ON and (last != "EmptyIgnoringPrevious" or not W.C.empty(W.I, s)[0]):
                        bad("Esc", "handle", s, "with 'Esc clears the entire composing buffer' on, Esc leaves something composed (%d readings, pending syllable %s)" % (n, rd))
                    if F is OFF and n and (wiped or last != "Inputting"):
                        bad("Esc", "handle", s, "with 'Esc clears the entire composing buffer' off, Esc discards or commits the composition (%d readings)" % n)
    # Shift+letter, Shift+Space
    for F in (ON, OFF):
        for mode, mn in MODES:
            for state, n in (("Empty", 0), ("Inputting", 2)):
                pr = [("setInputMode", mode), ("setPutLowercaseLettersToComposingBuffer", F), ("setAssociatedPhrasesEnabled", OFF), ("setHalfWidthPunctuationEnabled", OFF)]
                got = set()
                for s, v, log in W.key("G").run(pr, "handle", (), n=n, state=state):
                    rep.inst("settings followed", "letters to buffer=%s" % (F is ON))
                    typed = [e for e in enters(log) if e[1] == "Committing" and e[2] == (b"G",)]
                    ins = [e for e in log if e[0] == "insert"]
                    asked = [e for e in log if e[0] == "ask" and e[1] == (b"_letter_G",)]
                    punct = [e for e in ins if e[1] != (b"_letter_G",)]
                    if punct:
                        continue        # the language model offers punctuation under this key
                    if F is ON:
                        if typed or not asked:
                            bad("ShiftLetter", "handle", s, "with 'put lowercase letters to buffer', a capital letter is %s" % ("committed directly" if typed else "not looked up as a letter"))
                        if ins:
                            got.add("insert")
                    else:
                        if asked or ins:
                            bad("ShiftLetter", "handle", s, "with 'directly output uppercase', a capital letter is put into the composing buffer")
                        d = W.I.decide(s, W.I.truth(v))
                        if state == "Empty" and (d is not False or enters(log)):
                            bad("ShiftLetter", "handle", s, "with 'directly output uppercase' and nothing composed, a capital letter is taken instead of left to the application")
                        if state != "Empty" and not typed:
                            bad("ShiftLetter", "handle", s, "with 'directly output uppercase', a capital letter is not output")
                if F is ON and "insert" not in got:
                    rep.violation("behaviour@ShiftLetter", W.method("handle")["l"], "with 'put lowercase letters to buffer', no capital letter ever reaches the composing buffer (%s, %s)" % (mn, state))
                for s, v, log in W.key(32, shift=True).run(pr, "handle", (), n=n, state=state):
                    typed = [e for e in enters(log) if e[1] == "Committing" and e[2] == (b" ",)]
                    ins = [e for e in log if e[0] == "insert"]
                    if (F is ON) != bool(ins) or (F is ON) == bool(typed):
                        bad("ShiftSpace", "handle", s, "Shift+Space with letters to buffer=%s: %s" % (F is ON, "put into the buffer" if ins else "committed" if typed else "neither composed nor committed"))
    # Ctrl+Enter
    for name, val in sorted(acts.enum_values(P, NS + "KeyHandlerCtrlEnter").items()):
        for n in (1, 2, 3):
            for s, v, log in W.key(13, ctrl=True).run([("setInputMode", MCB), ("setCtrlEnterKeyBehavior", const(val))], "handle", (), n=n):
                rep.inst("settings followed", "Ctrl+Enter " + name)
                com = [e[2] for e in enters(log) if e[1] == "Committing"]
                if name == "OutputBpmfReadings":
                    parts = []
                    for i in range(n):
                        parts += ([const(b"-")] if i else []) + [mk("rd", i)]
                    if com != [shape.flat(shape.cat_of(parts))]:
                        bad("CtrlEnter", "handle", s, "Ctrl+Enter set to output the readings outputs %s" % (com,))
                elif name == "OutputHTMLRubyText":
                    if len(com) != 1 or len(com[0]) != 1 or not isinstance(com[0][0], T) or com[0][0].op != "m" or com[0][0].a[0] != "ruby":
                        bad("CtrlEnter", "handle", s, "Ctrl+Enter set to output HTML ruby text outputs %s" % (com,))
                elif name == "Disabled":
                    if enters(log) or W.I.decide(s, W.I.truth(v)) is not False:
                        bad("CtrlEnter", "handle", s, "Ctrl+Enter set to do nothing does something")
                else:
                    raise AnalysisError("Ctrl+Enter behaviour %s is not specified here" % name)
    # half-width punctuation
    for F in (ON, OFF):
        for mode, mn in MODES:
            pr = [("setInputMode", mode), ("setHalfWidthPunctuationEnabled", F), ("setAssociatedPhrasesEnabled", OFF)]
            hit = False
            for s, v, log in W.key(",").run(pr, "handle", (), n=1):
                asks = [e[1] for e in log if e[0] == "ask"]
                half = [i for i, a in enumerate(asks) if a and isinstance(a[0], bytes) and a[0].startswith(b"_half_punctuation_")]
                full = [i for i, a in enumerate(asks) if a and isinstance(a[0], bytes) and a[0].startswith(b"_punctuation_")]
                rep.inst("settings followed", "half width=%s" % (F is ON))
                if F is OFF and half:
                    bad("HalfWidth", "handle", s, "with full-width punctuation, half-width punctuation is looked up")
                if F is ON and (not half or full and min(full) < max(half)):
                    bad("HalfWidth", "handle", s, "with half-width punctuation on, it is %s" % ("looked up after full-width punctuation" if half else "not looked up"))
                if F is ON and half and not any(a[-1].endswith(b",") and len(a) == 1 for a in asks if isinstance(a[-1], bytes) and a[0].startswith(b"_half")) and not any(
                        e[0] == "insert" for e in log):
                    bad("HalfWidth", "handle", s, "the layout-independent half-width punctuation is not looked up")
                hit |= any(e[0] == "insert" and e[1] and e[1][0].startswith(b"_half_punctuation_") for e in log)
            if F is ON and not hit:
                rep.violation("behaviour@HalfWidth", W.method("handle")["l"], "with half-width punctuation on, no half-width punctuation is ever inserted")
    # associated phrases
    for mode, mn in MODES:
        want = "AssociatedPhrasesPlain" if mode is PLAIN else "AssociatedPhrases"
        for F in (ON, OFF):
            pr = [("setInputMode", mode), ("setAssociatedPhrasesEnabled", F)]
            for what, entry, k, kw in (("choosing a candidate", "candidateSelected", None, {}),
                                       ("completing a syllable", "handle", "3", {"rd": "tone"}),
                                       ("punctuation", "handle", ",", {})):
                if k:
                    W.key(k)
                args = ()
                if entry == "candidateSelected":
                    args = (None, const(1))
                seen = set()
                for s, v, log in W.run(pr, entry, args, n=2, **kw):
                    rep.inst("settings followed", "associated=%s %s %s" % (F is ON, mn, what))
                    k2 = {e[1] for e in enters(log) if e[1].startswith("Associated")}
                    seen |= k2
                    if F is OFF and k2:
                        bad("Associated", entry, s, "with associated phrases off, %s in %s mode opens them" % (what, mn))
                    if mode is PLAIN and k2 - {want} or mode is MCB and "AssociatedPhrasesPlain" in k2:
                        bad("Associated", entry, s, "%s in %s mode opens %s" % (what, mn, sorted(k2)))
                if F is ON and want not in seen and not (mode is PLAIN and what == "punctuation"):
                    rep.violation("behaviour@Associated", W.method(entry)["l"], "with associated phrases on, %s in %s mode never opens them" % (what, mn))
    # candidate side
    for F in (ON, OFF):
        for move in (ON, OFF):
            for n in (1, 2, 3):
                for cur in range(n + 1):
                    pr = [("setInputMode", MCB), ("setSelectPhraseAfterCursorAsCandidate", F), ("setMoveCursorAfterSelection", move), ("setAssociatedPhrasesEnabled", OFF)]
                    pos = (n - 1 if cur == n else cur) if F is ON else max(cur - 1, 0)
                    side = "after" if F is ON else "before"
                    for s, v, log in W.key(32).run(pr, "handle", (), n=n, cur=cur):
                        rep.inst("settings followed", "candidates %s cursor" % side)
                        ls = [e[1] for e in log if e[0] == "list"]
                        if not ls or any(x is not const(pos) for x in ls):
                            bad("CandidateSide", "handle", s, "with candidates %s the cursor, position %s is offered at cursor %d of %d instead of %d" % (
                                side, "/".join(show(x) for x in ls) or "none", cur, n, pos))
                    for s, v, log in W.run(pr, "candidateSelected", (None, const(cur)), n=n, cur=cur):
                        ov = [e[1] for e in log if e[0] == "overrideCandidate"]
                        if ov != [const(pos)]:
                            bad("CandidateSide", "candidateSelected", s, "with candidates %s the cursor, choosing at cursor %d of %d fixes position %s instead of %d" % (
                                side, cur, n, "/".join(show(x) for x in ov), pos))
                        sc = [e[1] for e in log if e[0] == "setCursor"]
                        found = any(fv is False and f.op == "==" and any(x.op in ("r", "m") and "findNodeAt" in show(x) for x in subterms(f)) for f, fv in s.facts.items())
                        moved = [x for x in sc if x.op != "c"]
                        rep.inst("settings followed", "cursor moves=%s" % (move is ON))
                        if move is OFF and (moved or sc and sc[-1] is not const(cur)):
                            bad("MoveCursor", "candidateSelected", s, "with 'move cursor after selection' off, choosing a candidate moves the cursor")
                        if moved:
                            rep.count("moves after selection")
    if not rep.counts.get("moves after selection"):
        rep.violation("behaviour@MoveCursor", W.method("candidateSelected")["l"], "with 'move cursor after selection' on, choosing a candidate never moves the cursor past it")
    # punctuation and number lists offer what was just inserted
    for F in (ON, OFF):
        for n in (0, 1, 2):
            for cur in range(n + 1):
                pr = [("setInputMode", MCB), ("setSelectPhraseAfterCursorAsCandidate", F)]
                for s, v, log in W.key("`").run(pr, "handle", (), n=n, cur=cur):
                    ins = [i for i, e in enumerate(log) if e[0] == "insert"]
                    if not ins or log[ins[0]][1] != (b"_punctuation_list",):
                        continue
                    if any(e[0] == "list" for e in log):
                        rep.inst("settings followed", "punctuation list")
                    ls = [e[1] for e in log if e[0] == "list"]
                    refused = not any(x.op == "vec" and len(x.a[0]) == n + 1 for x in [W.I.resolve(s, W.I.fld(s, W.I.load(s, W.C.LG), GRID + "::readings_"))])
                    if not refused and ls != [const(cur)]:
                        bad("PunctuationList", "handle", s, "the punctuation list is offered for position %s instead of the punctuation just inserted at %d" % ("/".join(show(x) for x in ls), cur))
    # plain mode commits what is chosen; the other one keeps composing
    for mode, mn in MODES:
        for s, v, log in W.run([("setInputMode", mode), ("setAssociatedPhrasesEnabled", OFF)], "candidateSelected", (None, const(1)), n=1):
            rep.inst("settings followed", "mode " + mn)
            com = [e for e in enters(log) if e[1] == "Committing"]
            if mode is PLAIN and len(com) != 1 or mode is MCB and com:
                bad("InputMode", "candidateSelected", s, "choosing a candidate in %s mode %s" % (mn, "commits" if com else "commits nothing"))
    return W.steps


def activation(P, rep):
    """What activation hands over, for every option value."""
    steps = 0
    side = acts.enum_values(P, NS + "SelectPhrase")
    letters = acts.enum_values(P, NS + "ShiftLetterKeys")
    ce = acts.enum_values(P, NS + "KeyHandlerCtrlEnter")
    B = [(0, 0), (1, 1)]
    TABLE = [("selectPhrase", "setSelectPhraseAfterCursorAsCandidate", [(side[k], int(k == "AfterCursor")) for k in sorted(side)]),
             ("moveCursorAfterSelection", "setMoveCursorAfterSelection", B),
             ("escKeyClearsEntireComposingBuffer", "setEscKeyClearsEntireComposingBuffer", B),
             ("shiftLetterKeys", "setPutLowercaseLettersToComposingBuffer", [(letters[k], int(k == "PutLowercaseToBuffer")) for k in sorted(letters)]),
             ("ctrlEnterKeys", "setCtrlEnterKeyBehavior", [(v, v) for v in sorted(ce.values())]),
             ("associatedPhrasesEnabled", "setAssociatedPhrasesEnabled", B),
             ("halfWidthPunctuationEnable", "setHalfWidthPunctuationEnabled", B)]
    fields = {f["n"] for f in P.records[acts.CFG]["fields"]}
    for opt, setter, pairs in TABLE:
        if opt not in fields:
            raise AnalysisError("anchor vanished: option " + opt)
        for val, want in pairs:
            cv = bool(val) if pairs is B else val
            fn, I, res = acts.activation(P, {opt: cv})
            steps += I.steps
            for s, _ in res:
                rep.inst("option values activated", "%s=%s" % (opt, val))
                got = [e[2] for e in s.ts if e[0] == "kh" and e[1] == setter]
                g = I.resolve(s, got[-1][0]) if got else None
                if g is None:
                    rep.violation("activate@" + opt, fn["l"], "activation can finish without handing '%s' to key handling" % opt, trace_list(s, 10))
                    continue
                ok = g.op == "c" and int(g.a[0]) == want or I.decide(s, I.mkeq(g, const(want))) is True
                if pairs is B or setter != "setCtrlEnterKeyBehavior":
                    d = I.decide(s, I.truth(g))
                    ok = ok or d is not None and int(d) == want
                if not ok:
                    rep.violation("activate@" + opt, fn["l"], "with %s stored as %s, activation calls %s(%s)" % (opt, val, setter, show(g)), trace_list(s, 10))
    # mode, user dictionaries
    modes = acts.enum_values(P, MODE)
    fn, I, res = acts.activation(P)
    steps += I.steps
    seen = set()
    for s, _ in res:
        plain = None
        for f, v in s.facts.items():
            if f.op == "==" and any(x.op == "c" and x.a[0] in (b"mcbopomofo-plain", "mcbopomofo-plain") for x in f.a):
                if not any("uniqueName" in show(x) for x in f.a):
                    raise AnalysisError("activation decides the mode from something else than the input method's name")
                plain = v
        if plain is None:
            raise AnalysisError("activation does not decide between the two input methods")
        want = modes["PlainBopomofo"] if plain else modes["McBopomofo"]
        seen.add(want)
        got = [I.resolve(s, e[2][0]) for e in s.ts if e[0] == "kh" and e[1] == "setInputMode"]
        if not got or got[-1] is not const(want):
            rep.violation("activate@mode", fn["l"], "activating %s sets mode %s" % ("plain Bopomofo" if plain else "McBopomofo", show(got[-1]) if got else "nothing"), trace_list(s, 10))
        ld = [I.resolve(s, e[2][0]) for e in s.ts if e[0] == "lm" and e[1] == "loadModelForMode"]
        same = I.decide(s, I.mkeq(mk("m", "inputMode"), const(want)))
        if same is not True and (not ld or ld[-1] is not const(want)):
            rep.violation("activate@model", fn["l"], "changing to %s mode does not load that mode's dictionary" % ("plain" if plain else "McBopomofo"), trace_list(s, 10))
        if ld and ld[-1] is not const(want):
            rep.violation("activate@model", fn["l"], "the dictionary of the other mode is loaded", trace_list(s, 10))
        # the mode is compared before it is set
        names = [e[1] for e in s.ts if e[0] in ("kh", "lm")]
        if "reloadUserModelsIfNeeded" not in names:
            rep.violation("activate@user", fn["l"], "activation can finish without refreshing the user dictionaries", trace_list(s, 10))
        rep.count("activation paths")
    if len(seen) != 2:
        raise AnalysisError("only one input method is activated")
    return steps


def menus(P, rep):
    C = acts.CfgClient(P)
    fn, I, res = acts.run_ctor(P, C)
    steps = I.steps
    reg, conn = {}, {}
    for h in C.handlers:
        if h[0] == "registerAction":
            nm, act = h[1][0], h[1][1]
            reg[act.a[0]] = nm.a[0].decode() if isinstance(nm.a[0], bytes) else nm.a[0]
        elif h[0] == "connect":
            conn.setdefault(h[1], []).append(h)
    path = None
    read = [e for s, _ in res for e in s.ts if e[0] == "readAsIni"]
    reload_ = eng.method(P, C.eng, "reloadConfig")
    C3 = acts.CfgClient(P)
    I3 = Interp(P, C3)
    for s, _ in eng.run_fn(I3, C3, reload_):
        r = [e for e in s.ts if e[0] == "readAsIni"]
        if not r:
            rep.violation("config@reload", reload_["l"], "reloading the configuration can finish without reading it", trace_list(s, 8))
        read += r
    steps += I3.steps
    if not read:
        raise AnalysisError("the configuration is never read")
    loc, path = read[0][2][0], read[0][1][1]

    def saved(log):
        return [i for i, e in enumerate(log) if e[0] == "safeSaveAsIni" and e[1][1] == path and e[2][0] is loc]
    for e in read:
        if e[1][1] != path or e[2][0] is not loc:
            rep.violation("config@read", fn["l"], "the configuration is read from different places")
    for s, _ in res:
        if not [e for e in s.ts if e[0] == "readAsIni"]:
            rep.violation("config@start", fn["l"], "the engine can start without reading its configuration", trace_list(s, 8))
    for act, opt, setter in (("mcbopomofo-half-width-punctuation", "halfWidthPunctuationEnable", "setHalfWidthPunctuationEnabled"),
                             ("mcbopomofo-associated-phrases", "associatedPhrasesEnabled", "setAssociatedPhrasesEnabled")):
        hs = [h for o, n in reg.items() if n == act for h in conn.get(o, [])]
        if not hs:
            rep.violation("toggle@" + act, fn["l"], "the menu action %s is not connected to anything" % act)
        for h in hs:
            for v in (0, 1):
                C2 = acts.CfgClient(P, {opt: bool(v)})
                I2, rs = acts.run_lambda(P, C2, h[2], None)
                steps += I2.steps
                for s, _ in rs:
                    rep.inst("toggles followed", "%s from %d" % (act, v))
                    where = P.functions[h[2].a[0]]["l"]

                    def bad(t):
                        rep.violation("toggle@" + act, where, t, trace_list(s, 10))

                    def flip(x):
                        d = I2.decide(s, I2.truth(I2.resolve(s, x)))
                        return d is not None and int(d) == 1 - v
                    sets = [(i, e) for i, e in enumerate(s.ts) if e[0] == "set"]
                    mine = [(i, e) for i, e in sets if e[1] == opt]
                    if not mine or not flip(mine[-1][1][2]):
                        bad("toggling %s from %d does not store the opposite" % (opt, v))
                        continue
                    if any(e[1] != opt for i, e in sets):
                        bad("toggling %s changes another option" % opt)
                    k = [e for e in s.ts if e[0] == "kh" and e[1] == setter]
                    if not k or not flip(k[-1][2][0]):
                        bad("toggling %s from %d does not apply the new value to key handling" % (opt, v))
                    if any(e[0] == "kh" and e[1] != setter for e in s.ts):
                        bad("toggling %s changes something else in key handling" % opt)
                    if not [i for i in saved(s.ts) if i > mine[-1][0]]:
                        bad("toggling %s does not save the configuration afterwards" % opt)
    sc = eng.method(P, C.eng, "setConfig")
    C4 = acts.CfgClient(P)
    I4 = Interp(P, C4)
    for s, _ in eng.run_fn(I4, C4, sc):
        l = [i for i, e in enumerate(s.ts) if e[0] == "load"]
        if not l or not [i for i in saved(s.ts) if i > l[-1]]:
            rep.violation("config@set", sc["l"], "a configuration change is not loaded and then saved", trace_list(s, 8))
        rep.count("configuration changes")
    steps += I4.steps
    return steps


class ListClient(eng.ShowClient):
    """What the candidate list is given, with the list options fixed."""
    cfg = {}
    events = None

    def on_call(self, I, st, c):
        n = base_name(c.q or "")
        opt, l = acts.CfgClient.option(self, I, st, c)
        if opt in self.cfg and n in ("value", "operator*", "operator->", "get"):
            slot = mk("F", l, "value")
            I.storev(st, slot, const(self.cfg[opt]))
            return [(st, mk("lref", slot))]
        if n == "keyListFromString":
            return [(st, mk("keys", I.resolve(st, c.args[0])))]
        if "CandidateList" in (c.fn.get("cls") or "") and n in ("setSelectionKey", "setLayoutHint", "setLabels"):
            self.log(st, n, eng.strip_copy(I.resolve(st, c.args[0])))
        return eng.ShowClient.on_call(self, I, st, c)

    def on_set_list(self, I, st, c, p):
        keys = [e[1] for e in st.ts.log if e[0] == "setSelectionKey"]
        hint = [e[1] for e in st.ts.log if e[0] == "setLayoutHint"]
        held = [I.resolve(st, I.load(st, mk("F", mk("S", mk("this")), f["q"]))) for f in self.P.records[eng.engine_class(self.P)]["fields"]
                if f["t"] == "std::vector<fcitx::Key>"]
        self.events.append((self.kind, keys[-1] if keys else None, hint[-1] if hint else None, tuple(held), st, c))


def lists(P, rep):
    """The selection keys and the direction of the list."""
    sel = acts.enum_values(P, NS + "SelectionKeys")
    lab = acts.labels(P, "SelectionKeys")
    lay = acts.enum_values(P, NS + "CandidateLayoutHint")
    hints = {"NotSet": 0, "Vertical": 1, "Horizontal": 2}     # fcitx/candidatelist.h
    menu = {"SelectingDictionary", "ShowingCharInfo", "SelectingFeature", "SelectingDateMacro"}
    steps = 0
    for i, (kn, kv) in enumerate(sorted(sel.items())):
        for ln, lv in sorted(lay.items()):
            if (kv + lv) % len(lay) == 1 and kv and lv:
                continue
            ev = []

            class Cl(ListClient):
                cfg = {"selectionKeys": kv, "candidateLayout": lv}
                events = ev
            steps += eng.show_states(P, rep, set(), Cl)["steps"]
            want = " ".join(lab[kv]).encode()
            direct = False
            for kind, keys, hint, held, st, c in ev:
                k = base_name(kind)
                rep.inst("lists built", "%s keys=%s direction=%s" % (k, kn, ln))
                where = c.node.get("l", "src/McBopomofo.cpp")
                if not k.startswith("Associated"):
                    if keys is None or keys is not mk("keys", const(want)):
                        rep.violation("list@keys", where, "with selection keys %s, the list of %s shows %s" % (lab[kv], k, show(keys) if keys is not None else "none"), trace_list(st, 8))
                    elif keys not in held:
                        rep.violation("list@keys", where, "the selection keys shown on the list of %s are not the ones the engine listens to" % k, trace_list(st, 8))
                if hint is None or hint.op != "c":
                    if hint is None:
                        rep.violation("list@direction", where, "the list of %s is given no direction" % k, trace_list(st, 8))
                    continue
                if k in menu:
                    if hint is not const(hints["Vertical"]):
                        rep.violation("list@direction", where, "the menu of %s is not vertical" % k, trace_list(st, 8))
                elif hint is const(hints[ln]):
                    direct |= k == "ChoosingCandidate"
                elif hint is not const(hints["Vertical"]) or k != "ChoosingCandidate":
                    rep.violation("list@direction", where, "with the direction set to %s, the list of %s is given direction %s" % (ln, k, show(hint)), trace_list(st, 8))
            if not direct:
                rep.violation("list@direction", "src/McBopomofo.cpp", "with the direction set to %s, the candidate list never has it" % ln)
    return steps


def run(P, rep, tier):
    rep.rule("activation hands every typing option to key handling with the meaning of its stored value, on every path, sets the mode of the activated input method and refreshes the user dictionaries")
    rep.rule("a menu toggle stores the opposite value, applies the same value and saves afterwards; a configuration change is loaded and saved where it is read")
    rep.rule("with each value of each setting, every path of the keys and selections it names behaves as that value says and not as the other")
    a = activation(P, rep)
    b = menus(P, rep)
    c = behaviours(P, rep)
    d = lists(P, rep)
    rep.rule("every candidate list is given the chosen selection keys (the same the engine listens to) and the chosen direction; menus are vertical")
    rep.need("lists built", 20)
    rep.need("option values activated", 15)
    rep.need("toggles followed", 4)
    rep.need("configuration changes", 1)
    rep.need("scenarios", 60)
    rep.need("settings followed", 26)
    return {"abstract_steps": a + b + c + d}
