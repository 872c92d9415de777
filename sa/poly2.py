"""Sums over containers in algebraic normal form."""
from terms import *
import math


def subst_map(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return subst_map(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = mk(t.op, *[go(x) for x in t.a])
    memo[t] = r
    return r


class Sums(object):
    """mu(index, accumulator, init, alternatives) -> init + sum over all elements of the increment"""
    def __init__(self):
        self.idx = mk("sym", "#i")
        self.memo = {}

    def element(self, t):
        """the generic element of the container a sum in t runs over"""
        n = self.norm(t)
        for s in sub(n):
            if s.op == "elem" and any(x is self.idx for x in s.a):
                return s
        return None

    def total(self, inc):
        return mk("sum", canon(poly(inc)))

    def norm(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._norm(t)
        self.memo[t] = r
        return r

    def _norm(self, t):
        if t.op == "mu":
            i, lv, init, alts = t.a[0], t.a[1], t.a[2], t.a[3]
            incs = set()
            for facts, val in alts:
                if lv not in sub(val) and val is not lv:
                    return mk("mu?", *[x for x in t.a[:3]])
                d = padd(poly(val), poly(lv), -1)
                if any(at is lv or lv in sub(at) for m in d for at, e in m):
                    return mk("mu?", *[x for x in t.a[:3]])
                # conditions other than the range of the index make the sum partial
                cond = [f for f, p in facts if not (f.op in ("<", "<=", "==") and any(x.op in ("idx", "num", "size", "end", "begin") for x in f.a) and i in f.a)]
                if cond:
                    return mk("mu?", *[x for x in t.a[:3]])
                incs.add(mk("#", canon(d)))
            if len(incs) != 1:
                return mk("mu?", *[x for x in t.a[:3]])
            inc = incs.pop().a[0]
            inc = subst_map(inc, {i: self.idx})
            s = mk("sum", self._renorm(inc))
            if init.op == "num" and init.a[0] == 0:
                return s
            return mk("+", self.norm(init), s)
        out = []
        for x in t.a:
            out.append(self.norm(x) if isinstance(x, T) else x)
        return mk(t.op, *out)

    def _renorm(self, t):
        # canonical order after the substitution of the index
        if t.op == "poly":
            p = {}
            for m, c in t.a[0]:
                q = pconst(c)
                for a, e in m:
                    f = poly(a)
                    if e > 0:
                        for _ in range(e):
                            q = pmul(q, f)
                    else:
                        q = pmul(q, {((a, e),): Fraction(1)})
                p = padd(p, q)
            return canon(p)
        return canon(poly(t))

    def equal(self, a, b):
        return pequal(a, b)
