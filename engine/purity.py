"""Member functions that are not declared const but cannot change the object they are called on.

A body is accepted only if every write it contains goes to a local variable it owns by value
(or a parameter of its own), and every function it calls is const, takes nothing by writable
reference other than such locals, or is itself accepted."""
from program import walk

CASTS = ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr")


def writable(t):
    t = (t or "").strip()
    if t.endswith("&&"):
        return False
    if t.endswith("&") or t.endswith("*"):
        i = t[:-1].strip()
        return not (i.startswith("const ") or i.endswith(" const"))
    return False


class Purity:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def leaves(self, u, depth=0):
        if u in self.memo:
            return self.memo[u]
        self.memo[u] = False
        fs = [self.P.functions.get(u)] + list(self.P.overriders(u) or [])
        fs = [f for f in fs if f is not None and f.get("body") is not None]
        if any("~" in f["n"] for f in fs):
            return False
        ok = bool(fs) and depth < 6 and all(f.get("repo") and self.body(f, depth) for f in fs)
        self.memo[u] = ok
        return ok

    def body(self, f, depth):
        own = set()
        for p in f["params"]:
            if not writable(p["t"]) and not p["t"].strip().endswith("&"):
                own.add(p["d"])
        nodes = list(walk(f["body"]))
        for n in nodes:
            k = n.get("k")
            if k == "LambdaExpr" or k in ("CXXDeleteExpr", "CXXNewExpr"):
                return False
            for v in (n.get("decls") or []) if k == "DeclStmt" else [n.get("var")] if k == "CXXForRangeStmt" else []:
                if not isinstance(v, dict) or "d" not in v:
                    continue
                if v.get("static") or writable(v["t"]):
                    return False
                if not v["t"].strip().endswith("&"):
                    own.add(v["d"])

        def local(e):
            while isinstance(e, dict):
                k = e.get("k")
                if k == "DeclRefExpr":
                    return e.get("d") in own and not e.get("dt", "").strip().endswith(("&", "*")) or e.get("n", "").startswith("__")
                if k in CASTS or k == "ArraySubscriptExpr":
                    e = (e.get("c") or [None])[0]
                elif k == "MemberExpr" and not e.get("arrow"):
                    e = (e.get("c") or [None])[0]
                elif k == "CXXOperatorCallExpr" and e.get("op") in ("<<", "=", "+=", "++"):
                    e = (e.get("args") or [None])[0]
                elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    return True
                elif k == "CallExpr" and not e.get("lv"):
                    return True
                else:
                    return False
            return False
        for n in nodes:
            k = n.get("k")
            if k == "CompoundAssignOperator" or k == "BinaryOperator" and n.get("op") == "=":
                if not local(n["c"][0]):
                    return False
            elif k == "UnaryOperator" and n.get("op") in ("++", "--", "&"):
                if not local(n["c"][0]):
                    return False
            fn = n.get("fn")
            if not isinstance(fn, dict) or k == "DeclRefExpr":
                continue
            if "filesystem" in fn["q"]:
                return False
            args = n.get("args") or []
            obj = n.get("obj")
            if k == "CXXOperatorCallExpr" and fn.get("m"):
                obj, args = (args[0] if args else None), args[1:]
            if fn.get("m") and not fn.get("const") and not fn.get("static") and k != "CXXConstructExpr" and k != "CXXTemporaryObjectExpr":
                if not local(obj) and not self.leaves(fn["u"], depth + 1) and not fn["q"].endswith(("::begin", "::end")):
                    return False
            for i, a in enumerate(args):
                t = fn["pt"][i] if i < len(fn.get("pt") or []) else ""
                if writable(t) and not local(a):
                    return False
        return True
