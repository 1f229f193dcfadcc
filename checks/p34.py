"""P34: editing keys change exactly what they name."""
import acts, eng, kh, p06
from common import TRUSTED
from gridshape import Edit, RG, THIS, OBJ, READ, SPANS, CUR, SEP
from interp import *
from kh import GRID, KH, NS, RDBUF, ST
from program import AnalysisError
from terms import *
TECHNIQUE = ("partial evaluation of key handling for each editing key over compositions of known size with symbolic readings, every cursor and "
             "mark position, every path followed; the lattice operations it uses are evaluated themselves for every size and position")
ASSUMPTIONS = TRUSTED + ["key handling is followed for compositions of up to 3 readings, the lattice operations for up to 7 (thorough: 12)",
                         "Backspace, Delete, the cursor keys are not part of a keyboard layout's syllable keys (P04)"]
MARK = ST + "Marking"
START = MARK + "::markStartGridCursorIndex"


class Editing(p06.Pref):
    def on_call(self, I, st, c):
        n = base_name(c.q or "")
        cls = c.fn.get("cls") or ""
        if cls == GRID and c.objloc is not None and self.is_grid(I, st, c) and n in ("insertReading", "deleteReadingBeforeCursor", "deleteReadingAfterCursor"):
            a = [I.resolve(st, x) for x in c.args]
            g = I.load(st, self.LG)
            r = I.resolve(st, I.fld(st, g, GRID + "::readings_"))
            cur = I.resolve(st, I.fld(st, g, GRID + "::cursor_"))
            if r.op != "vec" or not isc(cur):
                raise AnalysisError("%s: the composition is not followed" % I.where(c.node))
            k, rs = cur.a[0], r.a[0]
            if n == "deleteReadingAfterCursor":
                if k == len(rs):
                    return [(st, FALSE)]
                rs = rs[:k] + rs[k + 1:]
            elif n == "deleteReadingBeforeCursor":
                if k == 0:
                    return [(st, FALSE)]
                rs, k = rs[:k - 1] + rs[k:], k - 1
            else:
                rs, k = rs[:k] + (mk("new", eng.strip_copy(a[0])),) + rs[k:], k + 1
            I.storev(st, mk("F", self.LG, GRID + "::readings_"), mk("vec", tuple(rs)))
            I.storev(st, mk("F", self.LG, GRID + "::cursor_"), const(k))
            I.storev(st, mk("F", self.LG, GRID + "::spans_"), mk("havoc", "spans", mk("at", I.ctx, I.site(c.node))))
            st.ts = st.ts._replace(touched=True, fresh=False)
            return [(st, TRUE)]
        if cls == RDBUF and c.objloc is not None and self.at(I, st, c, self.LR):
            if n == "backspace":
                self.log(st, "back")
                if st.ts.rd == "empty":
                    return [(st, VOID)]
                s2 = st.copy()
                s2.ts = s2.ts._replace(rd="empty")
                return [(st, VOID), (s2, VOID)]
            if n == "hasToneMarkerOnly":
                return [(st, TRUE if st.ts.rd == "toneonly" else FALSE)]
        return p06.Pref.on_call(self, I, st, c)

    def on_enter_state(self, I, st, node, kind, p):
        start = None
        if kind == MARK:
            v = I.resolve(st, I.fld(st, I.load(st, I.ptr_loc(p)), START))
            start = v.a[0] if isc(v) else show(v, 0, 3)
        self.log(st, "enter", base_name(kind), start)


class Desk(p06.World):
    client = Editing
    start = 0
    named = None

    def setup(self, I, st, p):
        if I.dynclass(st, p) == MARK:
            I.storev(st, mk("F", I.ptr_loc(p), START), const(self.start))

    def press(self, name=None, ch=0, shift=False):
        self.keyspec, self.named = (ch, shift, False), name
        return self

    def keyv(self, I, st):
        p06.World.keyv(self, I, st)
        loc = mk("L", "probe", "key")
        if self.named:
            I.storev(st, mk("F", loc, NS + "Key::name"), const(acts.enum_values(self.P, NS + "Key::KeyName")[self.named]))
        return I.load(st, loc)

    def outcome(self, s):
        C, I = self.C, self.I
        g = I.load(s, C.LG)
        r = I.resolve(s, I.fld(s, g, GRID + "::readings_"))
        k = I.resolve(s, I.fld(s, g, GRID + "::cursor_"))
        rs = [I.resolve(s, x) for x in r.a[0]] if r.op == "vec" else None
        return rs, cval(k) if isc(k) else k


def text(rs):
    if rs is None:
        return "a composition that is not followed"
    return "(" + " ".join("new" if r.op == "new" else str(r.a[0]) if r.op == "rd" else show(r, 0, 2) for r in rs) + ")"


def keys(P, rep, tier):
    W = Desk(P, rep)
    MCB = const(W.modes["McBopomofo"])
    BS, DEL = 8, 127
    pr = [("setInputMode", MCB), ("setAssociatedPhrasesEnabled", FALSE)]
    where = "src/KeyHandler.cpp KeyHandler::handle"

    def judge(what, s, v, log, want, cur, err, last, rd, rdwant):
        """err: True must, False must not, None either."""
        rep.count("outcomes judged")
        rs, k = W.outcome(s)
        if v is not TRUE and W.I.resolve(s, v) is not TRUE:
            rep.violation("unhandled", where, "%s is not reported as handled" % what, trace_list(s, 12))
        if rs is None or [x.a[0] if x.op == "rd" else "new" for x in rs] != want:
            rep.violation("readings", where, "%s leaves the readings %s; they must be (%s)" % (what, text(rs), " ".join(map(str, want))), trace_list(s, 12))
        elif k != cur:
            rep.violation("cursor", where, "%s leaves the cursor at %s; it must be at %s" % (what, k if isinstance(k, int) else show(k, 0, 3), cur), trace_list(s, 12))
        errs = sum(e[0] == "error" for e in log)
        if err is True and not errs:
            rep.violation("silent", where, "%s cannot do anything, yet no error is signalled" % what, trace_list(s, 12))
        if err is False and errs:
            rep.violation("error", where, "%s signals an error" % what, trace_list(s, 12))
        es = [e for e in log if e[0] == "enter"]
        got = es[-1][1:] if es else None
        if got is None or (got[0] != last[0] or last[0] == "Marking" and got[1] != last[1]):
            f = lambda x: "no state" if x is None else x[0] if x[0] != "Marking" else "Marking from %s" % x[1]
            rep.violation("state", where, "%s enters %s; it must enter %s" % (what, f(got), f(last)), trace_list(s, 12))
        if rdwant is not None and s.ts.rd not in rdwant:
            rep.violation("pending", where, "%s leaves the pending syllable %s; it was %s" % (what, s.ts.rd, rd), trace_list(s, 12))

    for state in ("Inputting", "Marking"):
        for n in range(1, 4):
            for cur in range(n + 1):
                ids = list(range(n))
                for start in range(n + 1) if state == "Marking" else (None,):
                    if start == cur:
                        continue
                    W.start = start
                    at = "with the cursor at %d of %d readings%s" % (cur, n, "" if start is None else " and a mark from %d" % start)
                    begin = cur if start is None else start
                    rds = ("empty", "part") if state == "Inputting" else ("empty",)
                    for rd in rds:
                        syl = "" if rd == "empty" else " and a pending syllable"
                        for name, to in (("LEFT", cur - 1), ("RIGHT", cur + 1), ("HOME", 0), ("END", n)):
                            for shift in (False, True):
                                ok = 0 <= to <= n and rd == "empty"
                                new = to if ok else cur
                                last = ("Marking", begin) if shift and new != begin and rd == "empty" else ("Inputting",)
                                what = "%s%s %s%s" % ("Shift+" if shift else "", name, at, syl)
                                for s, v, log in W.press(name, 0, shift).run(pr, "handle", (), n=n, cur=cur, rd=rd, state=state):
                                    judge(what, s, v, log, ids, new, not ok, last, rd, (rd,))
                        for name, ch in (("Backspace", BS), ("Delete", DEL)):
                            what = "%s %s%s" % (name, at, syl)
                            i = cur - 1 if ch == BS else cur
                            for s, v, log in W.press(None, ch).run(pr, "handle", (), n=n, cur=cur, rd=rd, state=state):
                                if rd == "part":
                                    backs = sum(e[0] == "back" for e in log)
                                    if backs != (1 if ch == BS else 0):
                                        rep.violation("symbol", where, "%s takes back %d steps of the pending syllable" % (what, backs), trace_list(s, 12))
                                    judge(what, s, v, log, ids, cur, ch == DEL, ("Inputting",), rd, ("part", "empty") if ch == BS else ("part",))
                                    continue
                                ok = 0 <= i < n
                                want = ids[:i] + ids[i + 1:] if ok else ids
                                judge(what, s, v, log, want, i if ok and ch == BS else cur, not ok,
                                      ("Inputting",) if want else ("EmptyIgnoringPrevious",), rd, ("empty",))
    # a syllable alone
    for rd in ("part", "toneonly"):
        for s, v, log in W.press(None, BS).run(pr, "handle", (), n=0, cur=0, rd=rd):
            gone = s.ts.rd == "empty"
            judge("Backspace with only %s" % ("a tone" if rd == "toneonly" else "a pending syllable"), s, v, log, [], 0, False,
                  ("EmptyIgnoringPrevious",) if gone else ("Inputting",), rd, ("empty",) if rd == "toneonly" else None)
    # completing a syllable
    for n in range(4):
        for cur in range(n + 1):
            for s, v, log in W.press(None, ord("3")).run(pr, "handle", (), n=n, cur=cur, rd="tone"):
                known = [x for f, x in s.facts.items() if f.op == "m" and f.a[0] == "hasUnigrams"]
                ids = list(range(n))
                what = "completing a syllable with the cursor at %d of %d readings" % (cur, n)
                if not known or not known[0]:
                    judge(what + " the dictionary does not know", s, v, log, ids, cur, True, ("Inputting",) if n else ("EmptyIgnoringPrevious",), "tone", ("empty",))
                else:
                    judge(what, s, v, log, ids[:cur] + ["new"] + ids[cur:], cur + 1, False, ("Inputting",), "tone", ("empty",))
    rep.need("outcomes judged", 300)
    return W.steps


def lattice(P, rep, tier):
    """The operations themselves."""
    for n in ("insertReading", "deleteReadingBeforeCursor", "deleteReadingAfterCursor"):
        f = next((f for f in P.functions.values() if f["q"] == RG + "::" + n and f.get("body") is not None), None)
        if f is None:
            raise AnalysisError("anchor vanished: " + n)
        for size in range(13 if tier == "thorough" else 8):
            for cur in range(size + 1):
                old = [mk("param", "ghost", "reading%d" % i) for i in range(size)]
                C = Edit(P)
                I = Interp(P, C)

                def prep(I, st, c):
                    I.storev(st, mk("F", OBJ, READ), mk("vec", tuple(old)))
                    I.storev(st, mk("F", OBJ, SPANS), mk("vec", tuple(mk("param", "ghost", "span%d" % i) for i in range(size))))
                    I.storev(st, mk("F", OBJ, CUR), const(cur))
                    I.storev(st, mk("F", OBJ, SEP), mk("param", "ghost", "separator"))
                rep.count("lattice operations evaluated")
                for s, v in eng.run_fn(I, C, f, prep, this=THIS):
                    ok = I.resolve(s, v)
                    r = I.resolve(s, I.load(s, mk("F", OBJ, READ)))
                    k = I.resolve(s, I.load(s, mk("F", OBJ, CUR)))
                    if ok not in (TRUE, FALSE) or r.op != "vec" or not isc(k):
                        raise AnalysisError("%s is not evaluated at %d of %d" % (n, cur, size))
                    rs = [eng.strip_copy(I.resolve(s, x)) for x in r.a[0]]
                    new = list(old)
                    at = cur
                    x = mk("obj", mk("param", f["q"], "&" + f["params"][0]["n"])) if f["params"] else None
                    if n == "insertReading":
                        can = True
                        new.insert(cur, x)
                        at = cur + 1
                    elif n == "deleteReadingBeforeCursor":
                        can = cur > 0
                        if can:
                            del new[cur - 1]
                            at = cur - 1
                    else:
                        can = cur < size
                        if can:
                            del new[cur]
                    if ok is FALSE:
                        if can and n != "insertReading":
                            rep.violation("%s:refused" % n, "src/" + f["l"], "%s refuses at %d of %d" % (n, cur, size), trace_list(s, 8))
                        new, at = old, cur
                    elif not can:
                        rep.violation("%s:done" % n, "src/" + f["l"], "%s reports success at %d of %d, where there is nothing to delete" % (n, cur, size), trace_list(s, 8))
                    if rs != new or cval(k) != at:
                        rep.violation("%s:result" % n, "src/" + f["l"], "%s at %d of %d leaves the readings %s and the cursor at %s" % (
                            n, cur, size, " ".join(show(y).split("/")[-1] for y in rs), cval(k)), trace_list(s, 8))
    rep.need("lattice operations evaluated", 60)


def run(P, rep, tier):
    rep.rule("a cursor key moves the cursor by exactly its step (one reading, to the beginning, to the end) and changes no reading; with Shift and away from where the mark began, a mark from there is shown")
    rep.rule("Backspace and Delete remove exactly the reading before and after the cursor; with a pending syllable Backspace takes back one step of it and Delete nothing")
    rep.rule("a key that can do nothing signals an error and changes nothing; when nothing is left the composition is discarded")
    rep.rule("a completed syllable is inserted at the cursor, which then stands behind it; an unknown one is refused with an error")
    rep.rule("the lattice operations used insert, remove and move exactly that")
    lattice(P, rep, tier)
    return {"steps": keys(P, rep, tier)}
