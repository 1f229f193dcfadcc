"""P19: candidates pass every filter, in the documented order."""
import eng
from terms import *
from interp import *
from shape import *
import models
from gridchoice import elements
from gridwalk import at_most, total
from common import TRUSTED
TECHNIQUE = "abstract evaluation of the candidate pipeline over every small mix of user, built-in and excluded entries with symbolic texts and scores: every outcome of its comparisons is followed and each result is compared with the documented pipeline under the comparisons made on that path"
ASSUMPTIONS = TRUSTED + ["longer candidate lists are treated like the evaluated ones: the pipeline handles one candidate after the other",
                         "a conversion (macro, replacement, external) is a function of the text it is given; scores are finite",
                         "a dictionary that reports entries for a reading lists at least one (their own lookups)"]
NOTE = "Static: getUnigrams and hasUnigrams are evaluated abstractly for up to 2 user, 2 built-in and 2 excluded entries (thorough: 3/3/2 in part), with each conversion on, off and unset."

LM = "McBopomofo::McBopomofoLM"
U = "Formosa::Gramambular2::LanguageModel::Unigram"
THIS = mk("this")
OBJ = mk("S", THIS)
PREFIX = const(b"MACRO@")
BIG = 1.7976931348623157e308
SEP = "-"


def fld(n):
    return mk("F", OBJ, LM + "::" + n)


class Cand(Shape):
    finite = True
    exact_sets = True
    prefixes = True

    def __init__(self, P, sizes):
        Shape.__init__(self, P, lambda f: f["q"].startswith((LM + "::", U + "::")) or "(anonymous" in f["q"])
        self.sizes = sizes
        self.asked = set()

    def entries(self, who):
        return [(mk("param", "ghost", "%s text %d" % (who, i)), mk("param", "ghost", "%s score %d" % (who, i)) if who == "built-in" else const(0.0)) for i in range(self.sizes[who])]

    def model(self, I, st, c):
        n = base_name(c.q)
        if c.q.startswith("std::numeric_limits<double>"):
            return [(st, mk("c", {"lowest": -BIG, "max": BIG, "infinity": float("inf")}.get(n, 0.0)))]
        t = I.resolve(st, c.this) if c.this is not None else None
        l = t.a[0] if t is not None and t.op == "p" else mk("S", t) if t is not None else None
        who = {fld("userPhrases_"): "user", fld("excludedPhrases_"): "excluded", fld("languageModel_"): "built-in"}.get(l)
        if n in ("hasUnigrams", "getUnigrams") and who:
            k = I.resolve(st, c.args[0])
            if k is not self.reading:
                self.asked.add((I.where(c.node), show(k, 0, 4)))
            if n == "hasUnigrams":
                return [(st, const(self.sizes[who] > 0))]
            return [(st, mk("vec", tuple(unigram(*e) for e in self.entries(who))))]
        if l is fld("phraseReplacement_") and n == "valueForKey":
            return [(st, mk("m", "replacement", I.resolve(st, c.args[0])))]
        if n == "operator()" and l in (fld("macroConverter_"), fld("externalConverter_")):
            return [(st, mk("m", "macro" if l is fld("macroConverter_") else "converted", I.resolve(st, c.args[0])))]
        return None


def unigram(text, score):
    return mk("s", U, ((U + "::score_", score), (U + "::value_", text)), None)


class Need(Exception):
    pass


class Oracle:
    """What the documented pipeline gives, under what a path has found out."""

    def __init__(self, I, s, C, conf, assumed):
        self.I, self.s, self.C, self.conf, self.assumed = I, s, C, conf, assumed
        self.cl = None

    def closure(self):
        """Facts with texts known to be equal made one."""
        if self.cl is None:
            sub = {}

            def rep(t):
                return rename(t, lambda x: find(x))

            def find(x):
                y = x
                while y in sub:
                    y = sub[y]
                return y if y is not x else None
            facts = dict(self.s.facts)
            facts.update(self.assumed)
            for _ in range(4):
                for t, b in facts.items():
                    if t.op == "==" and b and isinstance(t.a[1], T):
                        x, y = rep(t.a[0]), rep(t.a[1])
                        if x is not y and x.op != "c":
                            sub[x] = y
                        elif x is not y and y.op != "c":
                            sub[y] = x
            out = {}
            for t, b in facts.items():
                if t.op in ("==", "starts", "m"):
                    x, y = (rep(t.a[0]), rep(t.a[1])) if t.op == "==" else (None, None)
                    out[self.I.mkeq(x, y) if x is not None else rep(t)] = b
                    if x is not None:
                        out[self.I.mkeq(y, x)] = b
            self.cl = rep, out
        return self.cl

    def ask(self, *ts):
        rep, facts = self.closure()
        for t in ts:
            if t.op == "==":
                t = self.I.mkeq(rep(t.a[0]), rep(t.a[1]))
            else:
                t = rep(t)
            if t in facts:
                return facts[t]
            if isc(t):
                return bool(cval(t))
        for t in ts:
            if isc(t):
                return bool(cval(t))
            d = self.I.decide(self.s, t)
            if d is not None:
                return d
            if t in self.assumed:
                return self.assumed[t]
        raise Need(ts[0])

    def same(self, a, b):
        return self.ask(self.I.mkeq(a, b), self.I.mkeq(b, a))

    def filtered(self, entries, inserted):
        I, out = self.I, []
        gone = [t for t, _ in self.C.entries("excluded")]
        for text, score in entries:
            if any(self.same(text, g) for g in gone):
                continue
            v = text
            if self.conf["replace"]:
                r = mk("m", "replacement", v)
                if not self.ask(models.str_eq(I, self.s, r, const(b""))):
                    v = r
            if self.conf["macro"]:
                v = mk("m", "macro", v)
            if score.op != "c" and self.same(score, mk("c", -8.0)):
                if self.ask(mk("m", "starts", v, PREFIX)):
                    n = I.decide(self.s, I.mklt(const(len(PREFIX.a[0])), models.size_of(I, self.s, v)))
                    if n is not False:
                        continue
            if self.conf["convert"] == "on":
                v = mk("m", "converted", v)
            if any(self.same(v, x) for x in inserted):
                continue
            inserted.append(v)
            out.append((v, score))
        return out

    def result(self):
        inserted = []
        user = self.filtered(self.C.entries("user"), inserted)
        return user, self.filtered(self.C.entries("built-in"), inserted)


def equal(I, s, a, b):
    return a is b or I.decide(s, I.mkeq(a, b)) is True or I.decide(s, I.mkeq(b, a)) is True


def completions(I, s, C, conf):
    todo = [{}]
    while todo:
        a = todo.pop()
        try:
            yield a, Oracle(I, s, C, conf, a).result()
        except Need as e:
            if len(a) >= 14:
                raise AnalysisError("the documented pipeline asks too much that the code does not")
            for b in (True, False):
                todo.append(dict(a, **{}) | {e.args[0]: b})


def judge(rep, I, C, conf, s, v, f, name):
    w = I.where({"l": f["l"]})
    v = I.resolve(s, v)
    if v.op == "push":
        v = mk("vec", tuple(elements(I, s, v, f)))
    if v.op != "vec":
        raise AnalysisError("the candidates are not evaluated: %s" % show(v, 0, 3))
    got = []
    for x in v.a[0]:
        x = I.resolve(s, x)
        got.append((I.resolve(s, I.fld(s, x, U + "::value_")), I.resolve(s, I.fld(s, x, U + "::score_"))))
    facts = []
    for t, b in s.facts.items():
        if t.op == "<":
            lo, hi = total(t.a[0]), total(t.a[1])
            facts.append((lo, hi) if b else (hi, lo))

    def say(key, text):
        rep.violation(key, w, "%s: %s" % (name, text), trace_list(s))
    for a, (user, built) in completions(I, s, C, conf):
        rep.count("candidate lists compared")
        want = [t for t, _ in user + built]
        if [t for t, _ in got] != want:
            cond = ", when " + " and ".join("%s is %s" % (show(t, 0, 5), str(b).lower()) for t, b in a.items()) if a else ""
            say("pipeline", "the candidates are [%s], and the documented ones are [%s]%s" % (", ".join(show(t, 0, 6) for t, _ in got), ", ".join(show(t, 0, 6) for t in want), cond))
            return
        for (t, have), (_, score) in zip(got[len(user):], built):
            if not equal(I, s, have, score):
                say("score", "the built-in candidate %s is given the score %s" % (show(t, 0, 6), show(have, 0, 5)))
                return
        for t, have in got[:len(user)]:
            if built and not conf["multi"]:
                def plain(x):
                    return mk("c", -8.0) if equal(I, s, x, mk("c", -8.0)) else x

                def over(x):
                    """have - x if it is a constant."""
                    t, u = total(have), total(plain(x))
                    num = lambda ts: sum(y.a[0] for y in ts if y.op == "c")
                    rest = lambda ts: [y for y in ts if y.op != "c"]
                    return num(t) - num(u) if rest(t) == rest(u) else None
                tops = [x for _, x in built if over(x) is not None and 0 < over(x) < 1e-6]
                if not any(all(at_most(facts, total(plain(y)), total(plain(x))) for _, y in built) for x in tops):
                    say("score", "a one-syllable user phrase does not score just above the best built-in candidate but %s" % show(have, 0, 6))
                    return
            elif total(have) != ():
                say("score", "a user phrase is given the score %s" % show(have, 0, 5))
                return


def put_ref(I, st, c, v):
    l = c.alocs[0]
    if l is None:
        c.args = (v,)
    else:
        st.store[l] = v
        c.args = (v,)


def evaluate(P, rep, sizes, conf):
    get, has = eng.method(P, LM, "getUnigrams"), eng.method(P, LM, "hasUnigrams")
    key = const("\u3123\u02cb".encode() + (SEP.encode() + "\u3127".encode() if conf["multi"] else b""))
    name = "%d user, %d built-in and %d excluded entries%s" % (sizes["user"], sizes["built-in"], sizes["excluded"], "".join(" with " + t for t, k in (("replacement", "replace"), ("macros", "macro"), ("several syllables", "multi")) if conf[k]) + ("" if conf["convert"] != "on" else " with conversion"))

    def prep(I, st, c):
        put_ref(I, st, c, key)
        I.storev(st, fld("phraseReplacementEnabled_"), const(conf["replace"]))
        I.storev(st, fld("externalConverterEnabled_"), const(conf["convert"] in ("on", "unset")))
        I.storev(st, fld("macroConverter_"), mk("param", "ghost", "macro converter") if conf["macro"] else NULL)
        I.storev(st, fld("externalConverter_"), mk("param", "ghost", "external converter") if conf["convert"] in ("on", "off") else NULL)
        for who in ("macro", "external"):
            I.assume(st, I.mkeq(mk("param", "ghost", who + " converter"), NULL), False)
    for f in (get, has):
        C = Cand(P, sizes)
        C.reading = key
        I = Interp(P, C)
        rs = eng.run_fn(I, C, f, prep, this=THIS)
        if not rs:
            raise AnalysisError("%s is not evaluated" % f["q"])
        rep.count("outcomes of " + base_name(f["q"].split("(")[0]), len(rs))
        for w, k in C.asked:
            rep.violation("asked", w, "the dictionaries are asked for %s instead of the reading" % k, [])
        for s, v in rs:
            if f is get:
                judge(rep, I, C, conf, s, v, f, name)
                continue
            d = I.decide(s, I.truth(I.resolve(s, v)))
            for a, (user, built) in completions(I, s, C, conf):
                rep.count("knownness compared")
                if d is None or d != bool(user or built):
                    cond = ", when " + " and ".join("%s is %s" % (show(t, 0, 5), str(b).lower()) for t, b in a.items()) if a else ""
                    rep.violation("known", I.where({"l": f["l"]}), "%s: the reading is reported as %s, and it has %d candidates%s" % (name, {True: "known", False: "unknown", None: "?"}[d], len(user + built), cond), trace_list(s))
                    break


def space(P, rep):
    for n in ("getUnigrams", "hasUnigrams"):
        f = eng.method(P, LM, n)
        C = Cand(P, {"user": 1, "built-in": 1, "excluded": 1})
        C.reading = const(b" ")
        I = Interp(P, C)

        def prep(I, st, c):
            put_ref(I, st, c, const(b" "))
        for s, v in eng.run_fn(I, C, f, prep, this=THIS):
            v = I.resolve(s, v)
            ok = v is TRUE if n == "hasUnigrams" else v.op == "vec" and len(v.a[0]) == 1 and I.resolve(s, I.fld(s, v.a[0][0], U + "::value_")) is const(b" ")
            if not ok:
                rep.violation("space", I.where({"l": f["l"]}), "the blank is not its own only candidate", trace_list(s))
            rep.count("blank evaluated")


def run(P, rep, tier):
    rep.rule("for every mix of entries, settings and outcomes of the comparisons made: the candidates are the user's then the built-in ones, each dropped if excluded by its original text, replaced, macro-expanded, dropped if an unexpanded macro, converted and dropped if already listed, in that order")
    rep.rule("a reading is reported as known exactly if it has a candidate then")
    mixes = [(u, b, e) for u in range(3) for b in range(3) for e in range(3) if u + b + e <= 3]
    if tier != "quick":
        mixes = [(u, b, e) for u in range(3) for b in range(3) for e in range(3)] + [(3, 0, 1), (0, 3, 1), (3, 1, 0), (1, 3, 0)]
    for u, b, e in mixes:
        for replace in (False, True):
            for macro in (False, True):
                for convert in ("none", "on", "off", "unset"):
                    for multi in (False, True):
                        small = u + b + e <= 2
                        if not small and (convert in ("off", "unset") or multi and (replace or macro)) and tier == "quick":
                            continue
                        evaluate(P, rep, {"user": u, "built-in": b, "excluded": e}, {"replace": replace, "macro": macro, "convert": convert, "multi": multi})
    space(P, rep)
    rep.need("candidate lists compared", 200)
    rep.need("knownness compared", 100)
    return {}
