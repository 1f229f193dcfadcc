"""P13: typed text can never be run as a command."""
import acts, eng, kh, shape, models
from kh import KH, NS
from common import TRUSTED
from interp import *
from terms import *
from program import AnalysisError
TECHNIQUE = ("call-graph scan for program-starting functions, value-flow analysis of every start of a program over all paths of the closures and services that "
             "contain it, and constant propagation of the address encoder for every byte value")
ASSUMPTIONS = TRUSTED + ["fcitx::startProcess executes its argument vector directly, without a shell", "the encoder treats bytes independently of where they stand (checked for every pair of byte classes)"]
STARTERS = {"system", "popen", "execl", "execlp", "execle", "execv", "execvp", "execvpe", "execve", "fexecve", "posix_spawn", "posix_spawnp",
            "fork", "vfork", "wordexp", "dlopen", "g_spawn_command_line_async", "g_spawn_command_line_sync"}
SHELLS = (b"sh", b"bash", b"dash", b"zsh", b"ksh", b"env", b"xargs", b"eval")
SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~")
PLACE = b"(encoded)"


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def scan(P, rep):
    sites = []
    n = 0
    for f in P.functions.values():
        if not f.get("repo") or f.get("body") is None:
            continue
        rep.count("functions scanned")
        called = set()
        for x in walk([f["body"], f.get("inits")]):
            q = x.get("q")
            if isinstance(x.get("fn"), dict):
                called.add(id(x["fn"]))
                if models.canon(x["fn"].get("q") or "") == "fcitx::startProcess":
                    sites.append((f, x))
            if not q:
                continue
            n += 1
            b = models.canon(q)
            if b in STARTERS or b.startswith("::") and b[2:] in STARTERS or b.startswith("std::") and b[5:] in STARTERS:
                rep.violation("starter@" + f["q"], x.get("l") or f["l"], "%s calls %s, which runs a command line or replaces the process" % (f["q"], q))
            if b == "fcitx::startProcess" and id(x) not in called:
                sites.append((f, x))
    rep.count("calls and references scanned", n)
    return sites


def text(I, st, t):
    t = eng.strip_copy(I.resolve(st, t))
    while t.op == "lref" or t.op == "p":
        t = eng.strip_copy(I.resolve(st, I.load(st, t.a[0])))
    return shape.flat(t)


class UrlClient(shape.Shape):
    """A lookup with a given address template and an unknown phrase."""

    def init_ts(self):
        return ()

    def __init__(self, P, encoders):
        shape.Shape.__init__(self, P, lambda f: f.get("repo") and f["key"] not in encoders)
        self.encoders = encoders
        self.started = set()

    def model(self, I, st, c):
        q = models.canon(c.q or "")
        if q == "fcitx::startProcess":
            self.started.add(id(c.node))
            st.ts = st.ts + (("process", tuple(I.resolve(st, x) for x in c.args), I.where(c.node)),)
            return [(st, VOID)]
        if c.fn.get("key") in self.encoders or (c.fn.get("u") and any(self.P.functions[k]["u"] == c.fn["u"] for k in self.encoders)):
            return [(st, mk("m", "encode", const(c.q), eng.strip_copy(I.resolve(st, c.args[0]))))]
        return None


def encoders_of(P):
    """Free functions from a string to a string next to the services."""
    out = {}
    for f in P.functions.values():
        if f.get("repo") and f.get("body") is not None and not f.get("cls") and len(f["params"]) == 1 and "DictionaryService" in f["l"] and \
                models.is_string_type(f["rt"]) and "string" in f["pt"][0] and "lambda" not in f["q"] and "LAM" not in f["key"]:
            out[f["key"]] = f
    return out


def services(P):
    """The dictionary services that start a program."""
    out = []
    base = NS + "DictionaryService"
    for q in P.subclasses(base):
        for f in P.functions.values():
            if f.get("cls") == q and f["n"] == "lookup" and f.get("body") is not None:
                out.append((q, f))
    if not out:
        raise AnalysisError("anchor vanished: dictionary services")
    return out


def lookups(P, rep, template):
    """Every start of a program by a service's lookup, with this address template: [(fn, state, args, where, I)]"""
    enc = encoders_of(P)
    out = []
    steps = 0
    started = set()
    for q, f in services(P):
        C = UrlClient(P, enc)
        I = Interp(P, C)
        strs = [x["q"] for x in P.records[q]["fields"] if models.is_string_type(x["t"])]
        ctors = [g for g in P.functions.values() if g.get("ctor") and g.get("cls") == q and len(g["params"]) == 2 and g.get("body") is not None]
        if not strs:
            res = eng.run_fn(I, C, f)
        else:
            if len(ctors) != 1:
                raise AnalysisError("anchor vanished: constructor of " + q)
            res = []

            def prep(I, st, c):
                for p in c.alocs:
                    if p is not None:
                        I.storev(st, p, mk("fresh"))
                c.args = (mk("svcname"), const(template))
            for s, _ in eng.run_fn(I, C, ctors[0], prep):
                s.ts = ()
                c2 = eng.bind(I, f, mk("this"), s)
                res += I.inline(s, f, c2, c2.node)
        steps += I.steps
        started |= C.started
        for s, v in res:
            out.append((q, f, s, [e for e in s.ts if e[0] == "process"], I))
    return out, steps, started


def phrase(f):
    return mk("param", f["q"], f["params"][0]["n"])


def encode_bytes(P, rep):
    steps = 0

    def ev(fn, b):
        nonlocal steps
        C = shape.Shape(P, lambda f: f.get("repo"))
        C.init_ts = lambda: ()
        I = Interp(P, C)

        def prep(I, st, c):
            if c.alocs[0] is not None:
                I.storev(st, c.alocs[0], const(b))
            c.args = (const(b),)
        r = [(s, eng.strip_copy(I.resolve(s, v))) for s, v in eng.run_fn(I, C, fn, prep)]
        steps += I.steps
        return r

    def want(b):
        return b"".join(bytes([x]) if x in SAFE else b"%%%02X" % x for x in b)
    n = 0
    for fn in encoders_of(P).values():
        rep.inst("address encoders", fn["q"])
        n += 1
        tests = [bytes([i]) for i in range(256)]
        reps = [b"A", b"-", b" ", b"\x05", b"\xe4", b"%", b"&"]
        tests += [a + b for a in reps for b in reps] + [b""]
        for b in tests:
            for s, v in ev(fn, b):
                rep.count("byte values encoded")
                got = v.a[0] if v.op == "c" else None
                if got != want(b):
                    rep.violation("encode@" + fn["q"], fn["l"], "the byte sequence %s is written into an address as %s instead of %s" % (
                        b.hex() or "(none)", got if got is not None else "something undetermined: " + show(v), want(b)), trace_list(s, 6))
    if not n:
        raise AnalysisError("anchor vanished: the address encoder")
    return steps


def argv(P, rep, I, s, args, where, what, typed):
    v = I.resolve(s, args[0])
    if v.op != "vec":
        rep.violation("argv@" + what, where, "%s starts a program with arguments that cannot be told apart: %s" % (what, show(v)), trace_list(s, 8))
        return None
    el = [text(I, s, x) for x in v.a[0]]
    rep.inst("program starts", "%s %s" % (where, what))
    lits = [b"".join(e) if all(isinstance(p, bytes) for p in e) else None for e in el]
    if typed(el[0]):
        rep.violation("argv@" + what, where, "%s lets typed text choose the program" % what, trace_list(s, 8))
    prog = lits[0]
    if prog is not None and prog.rsplit(b"/", 1)[-1] in SHELLS:
        if len(el) < 2 or typed(el[1]) or lits[1] is not None and lits[1].startswith(b"-"):
            rep.violation("argv@" + what, where, "%s passes %s to a shell as a command line" % (what, "typed text" if len(el) > 1 and typed(el[1]) else "text"), trace_list(s, 8))
    return el


def run(P, rep, tier):
    rep.rule("no function calls anything that interprets a command line or replaces the process; programs start only through fcitx::startProcess with a separate-argument vector")
    rep.rule("the hook starts only when enabled: the shell with the configured (or default) script and the new phrase as one argument of its own")
    rep.rule("the editor is started with exactly the file of the chosen menu entry")
    rep.rule("the browser is started with one address in which the phrase occurs only as the encoder's output; the encoder writes every byte but unreserved characters as %XX")
    sites = scan(P, rep)
    seen = set()
    steps = 0
    # closures of the engine
    C = acts.CfgClient(P)
    fn, I0, res = acts.run_ctor(P, C)
    steps += I0.steps
    reg = {}
    for h in C.handlers:
        if h[0] == "registerAction":
            nm = h[1][0].a[0]
            reg[h[1][1].a[0]] = nm.decode() if isinstance(nm, bytes) else nm
    FILES = {"mcbopomofo-user-phrases-edit": "userPhrasesPath", "mcbopomofo-user-excluded-phrases-edit": "excludedPhrasesPath"}
    hook = edits = 0
    for h in C.handlers:
        if h[2] is None:
            continue
        C2 = acts.CfgClient(P)
        I, rs = acts.run_lambda(P, C2, h[2], None)
        steps += I.steps
        who = "the new-phrase hook" if h[0] == "setOnAddNewPhrase" else reg.get(h[1], "a callback")
        body = P.functions[h[2].a[0]]
        prm = {mk("param", "cb", p["n"]) for p in body["params"]}
        typed = lambda e: any(isinstance(p, T) and any(x in prm for x in subterms(p)) for p in e)
        got = 0
        seen |= C2.started
        for s, _ in rs:
            rep.count("closure paths")
            for e in s.ts:
                if e[0] != "process":
                    continue
                got += 1
                el = argv(P, rep, I, s, e[1], e[2], who, typed)
                if el is None:
                    continue
                if h[0] == "setOnAddNewPhrase":
                    hook += 1
                    if I.decide(s, I.truth(mk("cfg", "addScriptHookEnabled"))) is not True and not any(
                            f is mk("cfg", "addScriptHookEnabled") and v for f, v in s.facts.items()):
                        rep.violation("hook@enabled", e[2], "the hook script is started although it is not enabled", trace_list(s, 8))
                    path = (mk("cfg", "addScriptHookPath"),)
                    ok = len(el) == 3 and el[0] == (b"/bin/sh",) and (el[1] == path or len(el[1]) == 1 and isinstance(el[1][0], bytes) and el[1][0].startswith(b"/"))
                    if not ok or len(el[2]) != 1 or el[2][0] not in prm:
                        rep.violation("hook@argv", e[2], "the hook is started as %s instead of shell, script, phrase" % ([[show(p) if isinstance(p, T) else p for p in x] for x in el],), trace_list(s, 8))
                elif who in FILES:
                    edits += 1
                    if len(el) != 2 or not (len(el[1]) == 1 and isinstance(el[1][0], T) and FILES[who] == base_name(str(el[1][0].a[0]))):
                        rep.violation("edit@" + who, e[2], "the menu entry %s opens %s" % (who, [[show(p) if isinstance(p, T) else p for p in x] for x in el[1:]]), trace_list(s, 8))
                    if el[0] != (mk("cfg", "openUserPhraseFilesWith"),) and not (len(el[0]) == 1 and isinstance(el[0][0], bytes)):
                        rep.violation("edit@" + who, e[2], "the menu entry %s starts %s" % (who, el[0]), trace_list(s, 8))
                else:
                    rep.violation("start@" + who, e[2], "%s starts a program" % who, trace_list(s, 8))
        if who in FILES and not got:
            rep.violation("edit@" + who, fn["l"], "the menu entry %s opens nothing" % who)
    # services
    for tpl in (b"https://a.example/" + PLACE, b"https://a.example/?q=" + PLACE + b"&x=1", PLACE, b"https://a.example/none", b"a" + PLACE + b"b" + PLACE + b"c", b""):
        runs, n, st_ = lookups(P, rep, tpl)
        steps += n
        seen |= st_
        for q, f, s, procs, I in runs:
            ph = phrase(f)
            for e in procs:
                raw = lambda el: any(isinstance(p, T) and not (p.op == "m" and p.a[0] == "encode" and eng.strip_copy(p.a[2]) is ph) and ph in set(subterms(p)) for p in el)
                typed = lambda el: any(isinstance(p, T) and ph in set(subterms(p)) for p in el)
                el = argv(P, rep, I, s, e[1], e[2], q, typed)
                for x in el or ():
                    if raw(x):
                        rep.violation("address@" + q, e[2], "the looked-up phrase is put into the address without being encoded", trace_list(s, 8))
                    if any(isinstance(p, T) and not typed((p,)) for p in x):
                        rep.violation("address@" + q, e[2], "the address contains something undetermined: %s" % [show(p) if isinstance(p, T) else p for p in x], trace_list(s, 8))
                if el is not None and len(el) != 2:
                    rep.violation("address@" + q, e[2], "the browser is started with %d arguments" % (len(el) - 1), trace_list(s, 8))
    steps += encode_bytes(P, rep)
    rep.need("program starts", 4)
    rep.need("byte values encoded", 300)
    if not hook or not edits:
        raise AnalysisError("the hook or the editor is never started")
    for f, x in sites:
        rep.inst("program start sites", "%s in %s" % (x.get("l") or f["l"], f["q"]))
        if id(x) not in seen:
            rep.violation("start@" + f["q"], x.get("l") or f["l"], "%s starts a program at a place no known action, hook or service reaches" % f["q"])
    return {"abstract_steps": steps}
