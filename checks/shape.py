"""Partial evaluation of one function for every small shape of its inputs: sizes and positions are constants, contents
stay symbolic, every branch that the contents decide is followed both ways and no paths are merged."""
from terms import *
from interp import *
import eng


class Shape(Client):
    num = True

    def __init__(self, P, transparent, pure=()):
        self.P = P
        self.transparent = transparent        # fn -> bool: follow the body
        self.pure = pure                      # callable(call) -> bool: a function of its arguments
        self.n = 0

    def opaque(self, I, fn):
        return not self.transparent(fn)

    def on_call(self, I, st, c):
        r = self.model(I, st, c)
        if r is not None:
            return r
        if c.q.startswith("fcitx::LogCategory::fatalWrapper"):      # the logging macros: one pass over their text
            return [(st, FALSE if c.q.startswith("fcitx::LogCategory::fatalWrapper2") else TRUE)]
        if self.pure and self.pure(c):
            return [(st, mk("m", c.q, *[I.resolve(st, a) for a in c.args]))]
        return None

    def model(self, I, st, c):
        return None

    def key(self, I, st):
        self.n += 1
        return (st.ts, self.n)


def rename(t, f):
    """t with every subterm mapped by f (bottom-up, f may return None to keep)."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        y = x
        if x.op != "c":
            a = tuple(go(z) for z in x.a)
            if any(p is not q for p, q in zip(a, x.a)):
                y = mk(x.op, *a)
        r = f(y)
        memo[x] = y if r is None else r
        return memo[x]
    return go(t)


def cat_of(parts):
    """The term of a concatenation, as the string models build it."""
    parts = [p for p in parts if not (p.op == "c" and p.a[0] in (b"", ""))]
    if not parts:
        return const(b"")
    if len(parts) == 1:
        return parts[0]
    return mk("cat", *parts)


def flat(t):
    """A string term as a tuple of its pieces (adjacent literals joined)."""
    out = []

    def go(x):
        if x.op == "cat":
            for y in x.a:
                go(y)
        elif x.op == "c" and isinstance(x.a[0], (bytes, str)):
            b = x.a[0] if isinstance(x.a[0], bytes) else x.a[0].encode()
            if not b:
                return
            if out and isinstance(out[-1], bytes):
                out[-1] += b
            else:
                out.append(b)
        else:
            out.append(x)
    go(t)
    return tuple(out)


def emptied(cond, val):
    """Would this outcome make a reading (or a text that holds one) empty?  Readings are never empty: a key is only
    inserted for a composed syllable or a punctuation name."""
    if not val or cond.op != "==":
        return False
    for x, y in (cond.a, cond.a[::-1]):
        if x.op == "c" and x.a[0] == 0:
            c, d = lin_parts(y)
            if d and all(k > 0 and t.op == "m" and t.a[0] == "size" for t, k in d.items()):
                if c > 0 or any(t.a[1].op == "rd" or t.a[1].op == "cat" and any(z.op == "rd" for z in t.a[1].a) for t in d):
                    return True
            continue
        elif not (x.op == "c" and x.a[0] == b""):
            continue
        if y.op == "rd" or y.op == "cat" and any(z.op == "rd" for z in y.a):
            return True
    return False
