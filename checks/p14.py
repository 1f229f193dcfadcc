"""P14: every formatted message is well formed, in the original and in each shipped translation."""
import ast, glob, os, re
import eng, models
from program import REPO, walk
from terms import *
from interp import *
from shape import *
from common import TRUSTED
TECHNIQUE = "every call of the formatting library is resolved to the format texts that reach it (through translation, conditionals, locals, parameters and returned values); the placeholders of each original and of each shipped translation are checked against the arguments' number and types; the message functions are evaluated abstractly for which value goes where"
ASSUMPTIONS = TRUSTED + ["translations come from the po files the repository ships", "fmt 9 format syntax"]
NOTE = "Static: the source's calls and the po files are read; nothing is formatted."

TR = {"fcitx::translateDomain": 1, "fcitx::translate": 0, "fcitx::translateCtx": 1, "fcitx::translateDomainCtx": 2}
SKIP = ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ParenExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr",
        "CStyleCastExpr", "CXXStaticCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")


def po(path):
    """msgid -> msgstr of the entries that are in use (msgfmt leaves out fuzzy and empty ones)."""
    out, mid, mode, fuzzy = {}, None, None, False
    for l in open(path, encoding="utf-8"):
        l = l.rstrip("\n")
        if l.startswith("#~"):
            continue
        if l.startswith("#,"):
            fuzzy = fuzzy or "fuzzy" in l
            continue
        m = re.match(r'(msgctxt|msgid|msgstr)\s+(".*")\s*$', l)
        if m:
            mode, s = m.group(1), ast.literal_eval(m.group(2))
            if mode == "msgid":
                mid = s
            elif mode == "msgstr":
                use = not fuzzy
                fuzzy = False
                if use:
                    out[mid] = s
        elif l.startswith('"') and mode:
            s = ast.literal_eval(l)
            if mode == "msgid":
                mid += s
            elif mode == "msgstr" and use:
                out[mid] += s
    return {k: v for k, v in out.items() if k and v}


def holes(text):
    """[(index, spec)] of a format text, or the reason why it is malformed; with the literal pieces between."""
    out, lits, cur, i, auto, manual = [], [], "", 0, 0, False
    while i < len(text):
        ch = text[i]
        if text[i:i + 2] in ("{{", "}}"):
            cur += ch
            i += 2
            continue
        if ch == "}":
            return None, "a single }", None
        if ch == "{":
            m = re.match(r"\{(\d*)(?::([^{}]*))?\}", text[i:])
            if not m:
                return None, "a placeholder that is no position", None
            if m.group(1):
                n, manual = int(m.group(1)), True
            else:
                n, auto = auto, auto + 1
            if auto and manual:
                return None, "numbered and unnumbered placeholders together", None
            out.append((n, m.group(2) or ""))
            lits.append(cur)
            cur = ""
            i += m.end()
            continue
        cur += ch
        i += 1
    return out, None, lits + [cur]


def fits(spec, t):
    if not spec:
        return True
    m = re.match(r"(?:.?[<>^])?([-+ ]?)(#?)(0?)(\d*)(?:\.(\d+))?(L?)([a-zA-Z?]?)$", spec)
    if not m:
        return False
    sign, alt, zero, width, prec, loc, ty = m.groups()
    t = models.norm(t.replace("const ", "").rstrip("& "))
    if "string" in t or "char *" in t or "char[" in t:
        return ty in ("", "s") and not (sign or alt or zero or loc)
    if "double" in t or "float" in t:
        return ty in ("", "a", "A", "e", "E", "f", "F", "g", "G")
    return ty in ("", "b", "B", "c", "d", "o", "x", "X") and not prec


class Resolve:
    def __init__(self, P):
        self.P = P
        self.callers = {}
        for f in P.functions.values():
            if not f.get("repo") or f.get("body") is None:
                continue
            for x in walk([f["body"], f.get("inits") or []]):
                fn = x.get("fn")
                if isinstance(fn, dict) and fn.get("u"):
                    self.callers.setdefault(fn["u"], []).append((f, x))

    def texts(self, n, f, depth=0):
        """The (text, translated) that can reach this expression; None in the list if something else can."""
        if depth > 40 or not isinstance(n, dict):
            return [None]
        k = n.get("k")
        if k == "StringLiteral":
            return [(n["s"], False)]
        if k == "ConditionalOperator":
            return self.texts(n["c"][1], f, depth + 1) + self.texts(n["c"][2], f, depth + 1)
        if k in SKIP:
            return self.texts(n["c"][0], f, depth + 1)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [x for x in n.get("args") or [] if x.get("k") != "CXXDefaultArgExpr" and "allocator" not in (x.get("t") or "")[:24]]
            return self.texts(a[0], f, depth + 1) if len(a) == 1 else [None]
        if k == "DeclRefExpr" or k == "MemberExpr":
            d = n.get("d")
            out = []
            if n.get("dk") == "parm":
                for i, p in enumerate(f["params"]):
                    if p["d"] == d:
                        cs = self.callers.get(f.get("u"), [])
                        for g, x in cs:
                            a = x.get("args") or []
                            if "obj" not in x and x.get("k") == "CXXOperatorCallExpr":
                                return [None]
                            out += self.texts(a[i], g, depth + 1) if i < len(a) else [None]
                        return out or [None]
                return [None]
            for x in walk([f["body"]]):
                if x.get("d") == d and x.get("k") == "VarDecl" or x.get("k") == "DeclStmt":
                    for v in x.get("decls") or ([x] if x.get("k") == "VarDecl" else []):
                        if v.get("d") == d:
                            out += self.texts(v.get("init"), f, depth + 1) if v.get("init") else []
                if x.get("k") == "BinaryOperator" and x.get("op") == "=" and _ref(x["c"][0]) == d:
                    out += self.texts(x["c"][1], f, depth + 1)
                if x.get("k") == "CXXOperatorCallExpr" and (x.get("fn") or {}).get("q", "").endswith("::operator=") and _ref((x.get("args") or [None])[0]) == d:
                    out += self.texts(x["args"][1], f, depth + 1)
            g = self.P.globals.get(d)
            if g is not None:
                out += self.texts(g.get("init"), f, depth + 1) if g.get("const") and g.get("init") else [None]
            return out or [None]
        fn = n.get("fn")
        if isinstance(fn, dict):
            q = models.canon(fn["q"])
            if q in TR:
                return [None if t is None else (t[0], True) for t in self.texts(n["args"][TR[q]], f, depth + 1)]
            if q in ("fmt::runtime", "std::move", "std::forward"):
                return self.texts(n["args"][0], f, depth + 1)
            if n.get("k") == "CXXMemberCallExpr" and q.split("::")[-1] in ("c_str", "data") and n.get("obj"):
                return self.texts(n["obj"], f, depth + 1)
            out = []
            for g in self.P.functions.values():
                if g.get("u") == fn.get("u") and g.get("repo") and g.get("body") is not None:
                    for x in walk([g["body"]]):
                        if x.get("k") == "ReturnStmt":
                            out += self.texts(x.get("e"), g, depth + 1)
            return out or [None]
        return [None]


def _ref(n):
    while isinstance(n, dict) and n.get("k") in SKIP:
        n = n["c"][0]
    return n.get("d") if isinstance(n, dict) else None


def run(P, rep, tier):
    rep.rule("only the program's own messages are used as format texts")
    rep.rule("every placeholder of a message and of each shipped translation names a supplied argument and suits its type; a translation uses no placeholder its original lacks")
    rep.rule("the tooltip messages contain each value they are given once, in the order of the message")
    pos = {os.path.basename(p): po(p) for p in sorted(glob.glob(os.path.join(REPO, "po", "*.po")))}
    for n, d in pos.items():
        rep.inst("translations read", "%s: %d" % (n, len(d)))
    R = Resolve(P)
    by_node = {}
    for f in list(P.functions.values()):
        if not f.get("repo") or f.get("body") is None:
            continue
        for x in walk([f["body"], f.get("inits") or []]):
            fn = x.get("fn")
            if not isinstance(fn, dict):
                continue
            q = models.canon(fn["q"])
            if not re.match(r"(fmt|std)::(v?format(_to|_to_n)?|v?print|vprint_unicode)$", q):
                continue
            first = {"format_to": 1, "vformat_to": 1, "format_to_n": 2}.get(q.split("::")[1], 0)
            pt = fn["pt"]
            if first == 0 and pt and "FILE" in pt[0]:
                first = 1
            where = "src/" + x["l"]
            types = pt[first + 1:]
            if q.split("::")[1].startswith("v"):
                packed = [y for y in walk(x["args"][first + 1:]) if isinstance(y.get("fn"), dict) and y["fn"]["q"].split("<")[0].endswith("make_format_args")]
                if len(packed) != 1:
                    rep.violation("format@%s" % f["q"], where, "a message is formatted with arguments that do not come with the call", [])
                    continue
                types = packed[0]["fn"]["pt"]
            rep.inst("format calls", "%s %s" % (where, f["q"].split("::")[-1]))
            ts = R.texts(x["args"][first], f)
            by_node[id(x)] = [t for t in ts if t]
            for t in ts:
                if t is None:
                    rep.violation("format@%s" % f["q"], where, "a text that is no message of the program is used as a format text", [])
                    continue
                rep.count("format texts")
                check(rep, f, where, "the message", t[0], types, None)
                if t[1]:
                    own, bad, _ = holes(t[0])
                    for n, d in pos.items():
                        if t[0] in d:
                            rep.count("translated format texts")
                            check(rep, f, where, "po/%s: the translation" % n, d[t[0]], types, None if bad else {i for i, _ in own})
    messages(P, rep, by_node)
    rep.need("format calls", 3)
    rep.need("messages evaluated", 4)
    return {}


def check(rep, f, where, what, text, types, own):
    hs, bad, _ = holes(text)
    key = "%s:%s" % (f["q"], "po" if own is not None else "src")
    if bad:
        rep.violation(key, where, "%s \"%s\" has %s" % (what, text, bad), [])
        return
    for i, spec in hs:
        if i >= len(types):
            rep.violation(key, where, "%s \"%s\" refers to argument %d of %d" % (what, text, i, len(types)), [])
        elif not fits(spec, types[i]):
            rep.violation(key, where, "%s \"%s\" formats argument %d, a %s, as '%s'" % (what, text, i, types[i], spec), [])
        elif own is not None and i not in own:
            rep.violation(key, where, "%s \"%s\" refers to a placeholder its original lacks" % (what, text), [])


class Msg(Shape):
    def __init__(self, P, by_node):
        Shape.__init__(self, P, lambda f: f["repo"])
        self.by_node = by_node

    def model(self, I, st, c):
        q = models.canon(c.q)
        if q in TR:
            return [(st, mk("m", "message", I.resolve(st, c.args[TR[q]])))]
        if q.endswith("::make_format_args"):
            return [(st, mk("m", "packed", tuple(I.resolve(st, a) for a in c.args)))]
        if q in ("fmt::format", "fmt::vformat", "std::format", "std::vformat"):
            ts = self.by_node.get(id(c.node), [])
            args = tuple(I.resolve(st, a) for a in c.args[1:])
            if "::v" in q:
                args = next((x.a[1] for a in args for x in subterms(a) if x.op == "m" and x.a[0] == "packed"), ())
            return [(st, mk("m", "formatted", tuple(t[0] for t in ts), args))]
        if q == "std::to_string":
            return [(st, mk("m", "digits", I.resolve(st, c.args[0])))]
        return None


def messages(P, rep, by_node):
    base = "McBopomofo::KeyHandler::LocalizedStrings"
    for cls in P.subclasses(base):
        for f in P.functions.values():
            if f.get("cls") != cls or f.get("ctor") or f.get("body") is None or "basic_string" not in (f.get("rt") or ""):
                continue
            C = Msg(P, by_node)
            I = Interp(P, C)
            ps = [mk("param", "ghost", p["n"] or str(i)) for i, p in enumerate(f["params"])]
            name = f["q"].split("::")[-1]

            def prep(I, st, c):
                for i, p in enumerate(ps):
                    if i < len(c.alocs) and c.alocs[i] is not None:
                        st.store[c.alocs[i]] = p
                c.args = tuple(ps)
            for s, v in eng.run_fn(I, C, f, prep, this=mk("this")):
                v = I.resolve(s, v)
                rep.inst("messages evaluated", name)
                got = rendered(v)
                if got is None:
                    raise AnalysisError("%s: the message is not evaluated: %s" % (I.where({"l": f["l"]}), show(v, 0, 5)))
                if not any(isinstance(x, str) and x.strip() for x in got):
                    rep.violation("message:" + name, I.where({"l": f["l"]}), "the message has no text", trace_list(s))
                order = [x for x in got if not isinstance(x, str)]
                want = [p for p in ps]
                order = [x.a[1] if x.op == "m" and x.a[0] == "digits" else x for x in order]
                if len(order) != len(want) or any(a is not b for a, b in zip(order, want)):
                    rep.violation("message:" + name, I.where({"l": f["l"]}), "the message shows %s, not %s" % (", ".join(show(x, 0, 3) for x in order) or "no value", ", ".join(show(x, 0, 3) for x in want) or "no value"), trace_list(s))


def rendered(v):
    """A message as its text pieces and values, in order."""
    out = []
    for p in flat(v):
        if isinstance(p, bytes):
            out.append(p.decode("utf-8", "replace"))
        elif p.op == "m" and p.a[0] == "message" and p.a[1].op == "c":
            out.append(p.a[1].a[0].decode("utf-8", "replace"))
        elif p.op == "m" and p.a[0] == "formatted":
            if len(p.a[1]) != 1:
                return None
            hs, bad, lits = holes(p.a[1][0])
            if bad:
                continue
            for (i, _), l in zip(hs, lits):
                out.append(l)
                if i < len(p.a[2]):
                    out.append(p.a[2][i])
            out.append(lits[-1])
        else:
            out.append(p)
    return out
