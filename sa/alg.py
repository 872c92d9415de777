"""Exact algebra over value-number terms: rational functions of atoms modulo sqrt(x)^2 = x, sin^2 + cos^2 = 1, |x|^2 = x^2.

Real arithmetic (rounding is not modelled).  zero(t) decides t == 0 as a formal identity; a False answer means
"not an identity under the relations known here"."""
from fractions import Fraction
from terms import T, mk, num, sub, show, padd, pmul, pconst, _mono_mul, _exact

ONE = {(): Fraction(1)}


def lead(p):
    """monomial order: total degree, then atom ids (lex)"""
    return max(p, key=lambda m: (sum(e for _, e in m), tuple(sorted(((-a.id, e) for a, e in m), reverse=True))))


def pscale(p, c):
    return {m: v * c for m, v in p.items()}


def mono_div(m, d):
    r = dict(m)
    for a, e in d:
        if r.get(a, 0) < e:
            return None
        r[a] -= e
        if r[a] == 0:
            del r[a]
    return tuple(sorted(r.items(), key=lambda x: x[0].id))


def pdiv(p, q):
    """exact quotient or None"""
    if not q:
        return None
    if len(q) == 1:
        (d, c), = q.items()
        r = {}
        for m, v in p.items():
            x = mono_div(m, d)
            if x is None:
                return None
            r[x] = v / c
        return r
    atoms = sorted({a for m in q for a, _ in m}, key=lambda x: x.id)
    x = atoms[0]

    def key(m):
        d = dict(m)
        return (d.get(x, 0),) + tuple(d.get(a, 0) for a in atoms[1:])
    # lexicographic division, all atoms of both
    alla = sorted({a for m in list(q) + list(p) for a, _ in m}, key=lambda z: z.id)

    def lx(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in alla)
    lq = max(q, key=lx)
    r, out = dict(p), {}
    for _ in range(400):
        if not r:
            return out
        lr = max(r, key=lx)
        d = mono_div(lr, lq)
        if d is None:
            return None
        c = r[lr] / q[lq]
        out[d] = out.get(d, 0) + c
        r = padd(r, pmul(q, {d: c}), -1)
    return None


def psqrt(p):
    """polynomial whose square is p, or None"""
    if not p:
        return {}
    alla = sorted({a for m in p for a, _ in m}, key=lambda z: z.id)

    def lx(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in alla)
    l = max(p, key=lx)
    c = fsqrt(p[l])
    if c is None or any(e % 2 for _, e in l):
        return None
    root = {tuple((a, e // 2) for a, e in l): c}
    lr = list(root)[0]
    r = padd(p, pmul(root, root), -1)
    for _ in range(60):
        if not r:
            return root
        m = max(r, key=lx)
        d = mono_div(m, lr)
        if d is None or lx(d) >= lx(lr):
            return None
        t = {d: r[m] / (2 * c)}
        nr = padd(root, t)
        r = padd(p, pmul(nr, nr), -1)
        root = nr
    return None


def fsqrt(v):
    if v < 0:
        return None
    from math import isqrt
    n, d = v.numerator, v.denominator
    if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
        return Fraction(isqrt(n), isqrt(d))
    return None


class Alg(object):
    def __init__(self, subst=None, positive=(), clamp=True, value=None):
        """subst: term -> term applied before reading a term; positive: terms known to be >= 0;
        clamp: max(x, 0) is x (the clamped quantity is non-negative in exact arithmetic); value: named constants -> number"""
        self.subst = subst or {}
        self.memo = {}
        self.clamp = clamp
        self.value = value or (lambda t: None)
        self.factors = []       # non-negative polynomials met under a root or in a denominator
        self.positive = set()
        for t in positive:
            self.assume_nonneg(t)

    def assume_nonneg(self, t):
        P, Q = self.rat(t)
        if len(Q) == 1 and () in Q:
            self.positive.add(self.pcanon(P))

    def assume_nonpos(self, t):
        self.assume_nonneg(mk("neg", t))

    # ------------------------------------------------------------------ canonical terms
    def pcanon(self, p):
        if not p:
            return num(0)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
            if m == ():
                return num(int(c)) if c.denominator == 1 else mk("q", c.numerator, c.denominator)
        return mk("poly", tuple(sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))))

    def canon(self, t):
        P, Q = self.rat(t)
        return self.rcanon(P, Q)

    def rcanon(self, P, Q):
        if Q == ONE:
            return self.pcanon(P)
        return mk("ratio", self.pcanon(P), self.pcanon(Q))

    def unp(self, t):
        """polynomial of a canonical term"""
        if t.op == "poly":
            return dict(t.a[0])
        if t.op == "num":
            return pconst(_exact(t.a[0]))
        if t.op == "q":
            return pconst(Fraction(t.a[0], t.a[1]))
        return {((t, 1),): Fraction(1)}

    # ------------------------------------------------------------------ reduction
    def reduce(self, p):
        for _ in range(40):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a.op in ("sqrt", "sin", "abs"):
                        hit = (a, a.op)
                        break
                if hit:
                    break
            if not hit:
                return p
            a, op = hit
            inner = self.unp(a.a[0]) if op != "sin" else None
            if op == "sqrt":
                rep = inner
            elif op == "abs":
                rep = pmul(inner, inner)
            else:
                c = mk("cos", a.a[0])
                rep = {(): Fraction(1), ((c, 2),): Fraction(-1)}
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(a, 0)
                if e < 2:
                    out = padd(out, {m: c})
                    continue
                d.pop(a)
                if e % 2:
                    d[a] = 1
                q = {tuple(sorted(d.items(), key=lambda x: x[0].id)): c}
                for _i in range(e // 2):
                    q = pmul(q, rep)
                out = padd(out, q)
            p = out
        return p

    def norm(self, P, Q):
        P, Q = self.reduce(P), self.reduce(Q)
        if not P:
            return {}, dict(ONE)
        # common monomial
        com = None
        for m in list(P) + list(Q):
            d = dict(m)
            com = d if com is None else {a: min(e, d.get(a, 0)) for a, e in com.items() if a in d}
            if not com:
                break
        if com:
            cm = tuple(sorted(((a, e) for a, e in com.items() if e), key=lambda x: x[0].id))
            if cm:
                P = {mono_div(m, cm): c for m, c in P.items()}
                Q = {mono_div(m, cm): c for m, c in Q.items()}
        # rationalise a single root in the denominator
        for _ in range(4):
            if len(Q) == 1:
                (m, c), = Q.items()
                rt = [a for a, e in m if a.op == "sqrt"]
                if rt:
                    f = {((rt[0], 1),): Fraction(1)}
                    P, Q = self.reduce(pmul(P, f)), self.reduce(pmul(Q, f))
                    q = pdiv(P, Q)
                    if q is not None:
                        P, Q = q, dict(ONE)
                    continue
            break
        if len(Q) >= 1 and Q != ONE:
            q = pdiv(P, Q)
            if q is not None:
                P, Q = self.reduce(q), dict(ONE)
            elif len(P) > 1:
                q = pdiv(Q, P)
                if q is not None:
                    P, Q = dict(ONE), q
        if len(Q) > 1:
            self.factor(Q)
            for f in self.factors:
                while len(Q) >= len(f) or len(Q) > 1:
                    q = pdiv(Q, f)
                    r = pdiv(P, f) if q is not None else None
                    if r is None:
                        break
                    P, Q = r, q
                    if Q == ONE:
                        break
        c = Q[lead(Q)]
        if c != 1:
            P, Q = pscale(P, 1 / c), pscale(Q, 1 / c)
        return P, Q

    def factor(self, p):
        if 1 < len(p) <= 12 and p not in self.factors and len(self.factors) < 24:
            self.factors.append(dict(p))
            self.factors.sort(key=len)

    # ------------------------------------------------------------------ terms
    def rat(self, t):
        r = self.memo.get(t)
        if r is None:
            if t in self.subst:
                r = self.rat(self.subst[t])
            else:
                r = self.norm(*self._rat(t))
            self.memo[t] = r
        return r

    def atom(self, t):
        return {((t, 1),): Fraction(1)}, dict(ONE)

    def add(self, a, b, s=1):
        (P, Q), (R, S) = a, b
        if Q == S:
            return padd(P, R, s), Q
        q = pdiv(S, Q)
        if q is not None:
            return padd(pmul(P, q), R, s), S
        q = pdiv(Q, S)
        if q is not None:
            return padd(P, pmul(R, q), s), Q
        return padd(pmul(P, S), pmul(R, Q), s), pmul(Q, S)

    def mul(self, a, b):
        return pmul(a[0], b[0]), pmul(a[1], b[1])

    def root(self, p):
        """sqrt of a polynomial -> (P, Q)"""
        p = self.reduce(p)
        if not p:
            return {}, dict(ONE)
        # numeric content
        c = p[lead(p)]
        s = fsqrt(abs(c)) if c > 0 else None
        if s is not None and c != 1:
            P, Q = self.root(pscale(p, 1 / c))
            return pscale(P, s), Q
        r = psqrt(p)
        if r is not None:
            return self.absolute(r)
        # even monomial content
        com = None
        for m in p:
            d = dict(m)
            com = d if com is None else {a: min(e, d.get(a, 0)) for a, e in com.items() if a in d}
        ev = {a: e - e % 2 for a, e in (com or {}).items() if e >= 2}
        if ev:
            cm = tuple(sorted(ev.items(), key=lambda x: x[0].id))
            rest = {mono_div(m, cm): c for m, c in p.items()}
            P, Q = self.absolute({tuple((a, e // 2) for a, e in cm): Fraction(1)})
            R, S = self.root(rest)
            return pmul(P, R), pmul(Q, S)
        for f in self.factors:
            if len(p) > len(f) and f != p:
                q = pdiv(p, f)
                if q is not None and q[lead(q)] > 0 and f[lead(f)] > 0:
                    P, Q = self.root(q)
                    R, S = self.root(f)
                    return pmul(P, R), pmul(Q, S)
        self.factor(p)
        return self.atom(mk("sqrt", self.pcanon(p)))

    def absolute(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            P, Q = {(): abs(c)}, dict(ONE)
            for a, e in m:
                if e % 2 == 0 or self.nonneg({((a, 1),): Fraction(1)}):
                    f = {((a, e),): Fraction(1)}
                elif self.nonneg({((a, 1),): Fraction(-1)}):
                    f = {((a, e),): Fraction(-1) ** e}
                else:
                    f = {((a, e - 1),) if e > 1 else (): Fraction(1)}
                    f = pmul(f, {((mk("abs", a), 1),): Fraction(1)})
                P = pmul(P, f)
            return P, Q
        if self.nonneg(p):
            return p, dict(ONE)
        if self.nonneg(pscale(p, -1)):
            return pscale(p, -1), dict(ONE)
        if p[lead(p)] < 0:
            p = pscale(p, -1)
        return self.atom(mk("abs", self.pcanon(p)))

    def nonneg(self, p):
        """certainly >= 0 (sufficient conditions)"""
        if not p:
            return True
        if self.pcanon(p) in self.positive:
            return True
        for m, c in p.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 == 0 or a.op in ("sqrt", "abs", "exp") or self.pcanon({((a, 1),): Fraction(1)}) in self.positive:
                    continue
                return False
        return True

    def _rat(self, t):
        o, a = t.op, t.a
        v = self.value(t)
        if v is not None:
            return pconst(Fraction(v)), dict(ONE)
        if o == "num":
            e = _exact(a[0])
            if e is not None:
                return pconst(e), dict(ONE)
        elif o == "q":
            return pconst(Fraction(a[0], a[1])), dict(ONE)
        elif o == "poly":
            P, Q = {}, dict(ONE)
            for m, c in a[0]:
                R, S = pconst(c), dict(ONE)
                for x, e in m:
                    y = self.rat(x)
                    for _ in range(abs(e)):
                        R, S = (pmul(R, y[0]), pmul(S, y[1])) if e > 0 else (pmul(R, y[1]), pmul(S, y[0]))
                P, Q = self.add((P, Q), (R, S))
            return P, Q
        elif o == "ratio":
            n, d = self.rat(a[0]), self.rat(a[1])
            return pmul(n[0], d[1]), pmul(n[1], d[0])
        elif o == "+":
            return self.add(self.rat(a[0]), self.rat(a[1]))
        elif o == "-":
            return self.add(self.rat(a[0]), self.rat(a[1]), -1)
        elif o == "neg":
            P, Q = self.rat(a[0])
            return pscale(P, -1), Q
        elif o == "*":
            return self.mul(self.rat(a[0]), self.rat(a[1]))
        elif o == "/":
            (P, Q), (R, S) = self.rat(a[0]), self.rat(a[1])
            if R:
                return pmul(P, S), pmul(Q, R)
            return self.atom(mk("div0", self.canon(a[0])))
        elif o == "pow":
            E = self.rat(a[1])
            if E[1] == ONE and (not E[0] or list(E[0]) == [()]):
                ex = E[0].get((), Fraction(0))
                if ex.denominator == 1 and abs(ex) <= 8:
                    P, Q = self.rat(a[0])
                    R, S = dict(ONE), dict(ONE)
                    for _ in range(abs(int(ex))):
                        R, S = pmul(R, P), pmul(S, Q)
                    if ex < 0:
                        R, S = S, R
                        if not S:
                            return self.atom(mk("div0", num(1)))
                    return R, S
                if ex.denominator == 2 and abs(ex) <= 4:
                    P, Q = self._rat(mk("sqrt", a[0]))
                    k = int(abs(ex) - Fraction(1, 2))
                    x = self.rat(a[0])
                    for _ in range(k):
                        P, Q = pmul(P, x[0]), pmul(Q, x[1])
                    return (P, Q) if ex > 0 else (Q, P)
            return self.atom(mk("pow", self.canon(a[0]), self.canon(a[1])))
        elif o == "sqrt":
            P, Q = self.rat(a[0])
            n, d = self.root(P), self.root(Q)
            return pmul(n[0], d[1]), pmul(n[1], d[0])
        elif o == "abs":
            P, Q = self.rat(a[0])
            n, d = self.absolute(P), self.absolute(Q)
            return pmul(n[0], d[1]), pmul(n[1], d[0])
        elif o in ("max", "min") and len(a) == 2:
            x, y = self.rat(a[0]), self.rat(a[1])
            if x == y:
                return x
            if self.clamp and o == "max":
                if not x[0]:
                    return y
                if not y[0]:
                    return x
            cs = sorted([self.rcanon(*x), self.rcanon(*y)], key=lambda z: z.id)
            return self.atom(mk(o, *cs))
        elif o in ("sin", "cos") and len(a) == 1:
            x = a[0]
            if x in self.subst:
                x = self.subst[x]
            if x.op == "neg":
                r = self.rat(mk(o, x.a[0]))
                return (pscale(r[0], -1), r[1]) if o == "sin" else r
            if x.op == "acos":
                if o == "cos":
                    return self.rat(x.a[0])
                return self._rat(mk("sqrt", mk("-", num(1), mk("*", x.a[0], x.a[0]))))
            if x.op == "asin":
                if o == "sin":
                    return self.rat(x.a[0])
                return self._rat(mk("sqrt", mk("-", num(1), mk("*", x.a[0], x.a[0]))))
            if x.op == "atan2":
                y, z = x.a
                r = mk("sqrt", mk("+", mk("*", y, y), mk("*", z, z)))
                return self._rat(mk("/", y if o == "sin" else z, r))
            P, Q = self.rat(x)
            if not P:
                return pconst(Fraction(0 if o == "sin" else 1)), dict(ONE)
            if P[lead(P)] < 0:
                r = self.atom(mk(o, self.rcanon(pscale(P, -1), Q)))
                return (pscale(r[0], -1), r[1]) if o == "sin" else r
            return self.atom(mk(o, self.rcanon(P, Q)))
        elif o == "tan" and len(a) == 1:
            return self._rat(mk("/", mk("sin", a[0]), mk("cos", a[0])))
        elif o == "glob":
            pass
        # any other function: arguments in normal form
        if any(isinstance(x, T) and x.op in ("+", "-", "*", "/", "neg", "num", "sqrt", "pow") for x in a):
            n = mk(o, *[self.canon(x) if isinstance(x, T) else x for x in a])
            if n in self.subst:
                return self.rat(self.subst[n])
            return self.atom(n)
        return self.atom(t)

    def zero(self, t):
        return not self.rat(t)[0]

    def equal(self, a, b):
        return self.zero(mk("-", a, b))

    def show(self, t):
        P, Q = self.rat(t)
        s = pshow(P)
        return s if Q == ONE else "(%s)/(%s)" % (s, pshow(Q))


def pshow(p):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:12]:
        s = "*".join(show(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
        out.append(("%s*%s" % (c, s)) if s and c != 1 else (s or str(c)))
    return " + ".join(out)
