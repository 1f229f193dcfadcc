"""P17: physical keys are translated faithfully."""
import re
import eng
from common import TRUSTED
from interp import *
from terms import *
from program import AnalysisError
TECHNIQUE = "constant propagation through the key mapping for every fcitx key symbol and every Shift/Ctrl combination, compared with a reference table"
ASSUMPTIONS = TRUSTED + ["fcitx::Key::isSimple() is: no modifier and a printable ASCII symbol"]
NS = "McBopomofo::"
SHIFT, CTRL = 1, 4          # fcitx::KeyState
HDR = "/usr/include/Fcitx5/Utils/fcitx-utils/keysymgen.h"


def syms():
    out = {}
    for l in open(HDR):
        m = re.match(r"\s*FcitxKey_(\w+)\s*=\s*(0x[0-9a-fA-F]+)", l)
        if m:
            out[m.group(1)] = int(m.group(2), 16)
    if len(out) < 1000:
        raise AnalysisError("fcitx key symbols not found")
    return out


class MapClient(Client):
    sym = states = 0

    def opaque(self, I, fn):
        return not fn["q"].startswith(NS) and "(anonymous" not in fn["q"] and "lambda" not in fn["q"]

    def on_call(self, I, st, c):
        cls = c.fn.get("cls") or ""
        n = base_name(c.q or "")
        if cls == "fcitx::Key" or (c.q or "").startswith("fcitx::Key::"):
            a = [I.resolve(st, x) for x in c.args]
            simple = self.states == 0 and 0x20 <= self.sym <= 0x7e
            if n == "isSimple":
                return [(st, TRUE if simple else FALSE)]
            if n == "sym":
                return [(st, const(self.sym))]
            if n == "states":
                return [(st, const(self.states))]
            if n == "isKeyPad":
                return [(st, TRUE if 0xff80 <= self.sym <= 0xffbd else FALSE)]
            if n == "check" and len(a) <= 2 and all(x.op == "c" for x in a):
                s = a[1].a[0] if len(a) == 2 else 0
                return [(st, TRUE if a[0].a[0] == self.sym and s == self.states else FALSE)]
            if n in ("hasModifier",):
                return [(st, TRUE if self.states else FALSE)]
        if (c.q or "").startswith("fcitx::Flags<"):
            l = c.objloc if c.objloc is not None else I.ptr_loc(c.this) if c.this is not None else None
            v = I.resolve(st, I.load(st, l)) if l is not None else None
            a = [I.resolve(st, x) for x in c.args]
            if v is not None and v.op == "c" and all(x.op == "c" for x in a):
                x = v.a[0]
                y = [int(t.a[0]) for t in a]
                if n == "operator&":
                    return [(st, const(x & y[0]))]
                if n == "operator|":
                    return [(st, const(x | y[0]))]
                if n == "operator==":
                    return [(st, TRUE if x == y[0] else FALSE)]
                if n == "operator!=":
                    return [(st, TRUE if x != y[0] else FALSE)]
                if n in ("test", "testAny"):
                    return [(st, TRUE if ((x & y[0]) == y[0] if n == "test" else x & y[0]) else FALSE)]
                if n.startswith("operator bool"):
                    return [(st, TRUE if x else FALSE)]
                if not a and (n.startswith("operator ") or n == "toInteger"):
                    return [(st, const(x))]
        return None


def reference():
    """(symbol name) -> (character or name, from the number pad)"""
    t = {"BackSpace": (8, 0), "Return": (13, 0), "KP_Enter": (13, 1), "Escape": (27, 0), "Delete": (127, 0), "KP_Delete": (127, 1), "Tab": (9, 0),
         "space": (32, 0)}
    for k in ("Left", "Right", "Home", "End", "Up", "Down"):
        t[k] = (k.upper(), 0)
        t["KP_" + k] = (k.upper(), 1)
    for i in range(10):
        t["KP_%d" % i] = (ord("0") + i, 1)
    t.update({"KP_Decimal": (ord("."), 1), "KP_Add": (ord("+"), 1), "KP_Subtract": (ord("-"), 1), "KP_Multiply": (ord("*"), 1),
              "KP_Divide": (ord("/"), 1)})
    return t


CTRL_PUNCT = {ord(c): ord(c) for c in ",./;'\\"}
CTRL_PUNCT[ord("1")] = ord("!")


def run(P, rep, tier):
    rep.rule("for every key symbol and Shift/Ctrl combination the translated key has the reference character or name, the pressed modifiers, and the number-pad mark exactly for number-pad keys")
    fns = [f for f in P.functions.values() if f.get("body") is not None and f["rt"] == NS + "Key" and f["n"] not in ("asciiKey", "namedKey") and
           len(f["pt"]) >= 1 and "fcitx::Key" in f["pt"][0] and not f.get("ctor")]
    if len(fns) != 1:
        raise AnalysisError("anchor vanished: the function translating fcitx keys (%d candidates)" % len(fns))
    fn = fns[0]
    names = P.enums.get(NS + "Key::KeyName")
    if not names:
        raise AnalysisError("anchor vanished: Key::KeyName")
    enum = {c["n"]: int(c["v"]) for c in names["consts"]}
    allsym = syms()
    ref = reference()
    rev = {}
    for n, v in allsym.items():
        rev.setdefault(v, n)
    K = {f["n"]: f["q"] for f in P.records[NS + "Key"]["fields"]}
    fields = [K[n] for n in ("ascii", "name", "shiftPressed", "ctrlPressed", "isFromNumberPad")]
    C = MapClient()
    I = Interp(P, C)
    steps = 0
    wanted = {allsym[n]: v for n, v in ref.items()}
    todo = sorted(set(allsym.values()) | {0x1000000 + 0x4f60, 0})
    for s in todo:
        for m in (0, SHIFT, CTRL, SHIFT | CTRL):
            C.sym, C.states = s, m
            sh, ct = int(bool(m & SHIFT)), int(bool(m & CTRL))
            if m == 0 and 0x20 <= s <= 0x7e:
                exp = (s, enum["ASCII"], 0, 0, 0)
            elif m == CTRL and s in CTRL_PUNCT:
                exp = (CTRL_PUNCT[s], enum["ASCII"], 0, 1, 0)
            elif s in wanted:
                w, pad = wanted[s]
                exp = (w, enum["ASCII"], sh, ct, pad) if isinstance(w, int) else (0, enum[w], sh, ct, pad)
            else:
                exp = None
            got = set()
            for st, v in eng.run_fn(I, C, fn):
                r = []
                for q in fields:
                    t = I.resolve(st, I.fld(st, v, q))
                    d = t.a[0] if t.op == "c" else I.decide(st, I.truth(t))
                    if d is None:
                        raise AnalysisError("translated key not constant for %s: %s" % (rev.get(s, hex(s)), show(t)))
                    r.append(int(d))
                got.add(tuple(r))
            rep.count("key and modifier combinations")
            nm = rev.get(s, hex(s))
            what = "%s%s%s" % ("Ctrl+" if ct else "", "Shift+" if sh else "", nm)
            if exp is not None:
                rep.inst("keys in the reference table", nm)
                if got != {exp}:
                    rep.violation("map@" + what, fn["l"], "%s is translated to %s instead of %s (character, name, shift, ctrl, number pad)" % (
                        what, sorted(got), exp))
            elif any(g[0] != 0 or g[1] != enum["UNKNOWN"] for g in got):
                rep.violation("map@" + what, fn["l"], "%s, which has no meaning here, is translated to %s" % (what, sorted(got)))
    rep.rule("every key the engine hands to key handling is the translation of the pressed key event")
    facts = eng.show_states(P, rep, set())
    eng.drive(P, rep, {"keymap"}, facts)
    rep.need("keys handed to composition", 1)
    rep.need("keys in the reference table", 120)
    rep.need("key and modifier combinations", 4000)
    return {"abstract_steps": I.steps}
