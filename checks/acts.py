"""The engine's configuration, activation and menu actions: what they hand to key handling, store, save and start."""
from terms import *
from interp import *
from program import AnalysisError
import models, eng, kh
from kh import NS, KH

CFG = NS + "McBopomofoConfig"
LOADER = NS + "LanguageModelLoader"


class CfgClient(Client):
    """Logs (in order, per path) what happens; option values are fixed constants or symbols."""
    num = False
    merge_limit = 64

    def __init__(self, P, cfg=None, follow=None):
        self.P = P
        self.cfg = dict(cfg or {})
        self.eng = eng.engine_class(P)
        self.follow = follow
        self.handlers = []          # (call, object, closure, state) handed out during the run
        self.this = mk("this")
        self.started = set()

    def init_ts(self):
        return ()

    def opaque(self, I, fn):
        q = fn["q"]
        if self.follow is not None:
            r = self.follow(fn)
            if r is not None:
                return not r
        if q.startswith((KH, LOADER, NS + "KeyHandlerLocalized")) or q.endswith(("::chttrans", "::notifications")):
            return True
        if q.startswith((self.eng, NS + "InputState", NS + "DictionaryService")) or "lambda" in q or "(anon" in q:
            return False
        f = fn["l"].split(":")[0]
        return not (fn.get("repo") and f.endswith(".cpp") and not fn.get("cls"))

    def log(self, st, *ev):
        st.ts = st.ts + (ev,)

    def option(self, I, st, c):
        l = c.objloc
        while l is not None and l.op == "F":
            if l.a[1].startswith(CFG + "::"):
                return base_name(l.a[1]), l
            l = l.a[0]
        return None, None

    def on_call(self, I, st, c):
        q = models.canon(c.q or "")
        n = base_name(q)
        cls = c.fn.get("cls") or ""
        opt, l = self.option(I, st, c)
        if opt is not None:
            slot = mk("F", l, "value")
            if n in ("value", "operator*", "operator->", "get"):
                v = I.resolve(st, I.load(st, slot))
                v = None if v.op == "fld" else v
                if v is None:
                    v = self.cfg.get(opt)
                    v = const(v) if v is not None else mk("cfg", opt)
                    I.storev(st, slot, v)
                return [(st, mk("lref", slot))]
            if n in ("setValue", "operator="):
                v = eng.strip_copy(I.resolve(st, c.args[0]))
                I.storev(st, slot, v)
                self.log(st, "set", opt, v)
                return [(st, TRUE if strip_type(c.rt) == "bool" else VOID)]
        if cls == KH or q.startswith(KH + "::"):
            a = tuple(eng.strip_copy(I.resolve(st, x)) for x in c.args)
            if any(x.op == "lam" for x in a):
                self.handlers.append((n, None, [x for x in a if x.op == "lam"][0], st.copy(), c))
            if n == "KeyHandler":
                return None
            if c.fn.get("const") or strip_type(c.rt) != "void":
                return [(st, mk("m", n, *a))]
            self.log(st, "kh", n, a)
            return [(st, VOID)]
        if cls == LOADER or q.startswith(LOADER + "::"):
            if c.fn.get("ctor"):
                return None
            a = tuple(eng.strip_copy(I.resolve(st, x)) for x in c.args)
            if strip_type(c.rt) != "void":
                return [(st, mk("m", n, *a))]
            self.log(st, "lm", n, a)
            return [(st, VOID)]
        if n in ("chttrans", "notifications") and not c.args:
            return [(st, mk("m", n))]
        if n == "connect":
            lam = [x for x in (I.resolve(st, y) for y in c.args) if x.op == "lam"]
            if lam:
                self.handlers.append((n, c.objloc if c.objloc is not None else c.this, lam[0], st.copy(), c))
                return [(st, mk("r", "connection", I.site(c.node)))]
        if n == "registerAction":
            a = [eng.strip_copy(I.resolve(st, x)) for x in c.args]
            self.log(st, "register", a)
            self.handlers.append((n, a, None, None, c))
            return [(st, TRUE)]
        if q in ("fcitx::startProcess",):
            self.started.add(id(c.node))
            self.log(st, "process", tuple(I.resolve(st, x) for x in c.args), I.where(c.node))
            return [(st, VOID)]
        if n in ("safeSaveAsIni", "readAsIni", "load", "safeSave"):
            self.log(st, n, tuple(show(x) for x in c.args), tuple(x for x in c.alocs))
            return [(st, TRUE if strip_type(c.rt) == "bool" else VOID)]
        return None

    def on_unknown_callee(self, I, st, f, call):
        return [(st, mk("r", "called", f, *call.args) if strip_type(call.rt or "void") != "void" else VOID)]


def run_ctor(P, C):
    fs = [f for f in P.functions.values() if f.get("ctor") and f.get("cls") == C.eng and f.get("body") is not None and f["params"]]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: the engine's constructor")
    I = Interp(P, C)
    res = eng.run_fn(I, C, fs[0])
    return fs[0], I, res


def run_lambda(P, C, lam, st0, params=None):
    """Run a stored closure later, from a state where everything but its captures is unknown."""
    I = Interp(P, C)
    st = I.new_state()
    st.facts[mk("==", mk("this"), NULL)] = False
    # what the closure captured by value (the engine's own address) is part of the closure itself
    c = Call()
    body = P.functions[lam.a[0]]
    c.fn = {"q": "callback", "pt": body["pt"], "rt": body["rt"]}
    c.q, c.node, c.this, c.objloc = "callback", {"k": "cb", "_i": -13}, None, None
    c.args = tuple(params or [mk("param", "cb", p["n"]) for p in body["params"]])
    c.alocs = tuple(None for _ in c.args)
    c.atypes, c.ctor, c.op, c.rt = list(body["pt"]), None, None, body["rt"]
    st.ts = C.init_ts()
    return I, I.call_value(st, lam, c)


def activation(P, cfg=None):
    """All paths of activate(): [(state, log)]"""
    C = CfgClient(P, cfg)
    I = Interp(P, C)
    fn = eng.method(P, C.eng, "activate")
    return fn, I, eng.run_fn(I, C, fn)


def enum_values(P, q):
    e = P.enums.get(q)
    if e is None:
        raise AnalysisError("anchor vanished: enumeration " + q)
    return {c["n"]: int(c["v"]) for c in e["consts"]}


def labels(P, name):
    """The names stored in the configuration file, by enumerator value."""
    g = P.globals.get("G:%s_%s_Names" % (NS, name))
    if g is None:
        raise AnalysisError("anchor vanished: configuration names of " + name)
    out = []

    def go(n):
        if isinstance(n, dict):
            if n.get("k") == "StringLiteral":
                out.append(n["s"])
                return
            for v in n.get("c", []):
                go(v)
    go(g["init"])
    return out
