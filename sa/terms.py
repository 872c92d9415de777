"""Interned terms (value numbers) and their algebraic normal forms."""
from fractions import Fraction

_TAB = {}


class T(object):
    __slots__ = ("op", "a", "id", "_s", "_c")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __reduce__(self):
        return (mk, (self.op,) + self.a)


def mk(op, *a):
    key = (op,) + tuple((type(x) is bool, x) if not isinstance(x, T) else x for x in a)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_TAB)
        t._s = None
        t._c = None
        _TAB[key] = t
    return t


def num(v):
    if isinstance(v, str):
        f = float(v)
        v = int(v) if v.lstrip("-").isdigit() else f
    if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
        v = int(v)
    return mk("num", v)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
NULL = mk("null")
VOID = mk("void")


def boolt(b):
    return TRUE if b else FALSE


def isnum(t, v=None):
    return t.op == "num" and (v is None or t.a[0] == v)


def sub(t):
    """All subterms (DAG order, each once)."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                st = [y]
                while st:
                    z = st.pop()
                    for w in z:
                        if isinstance(w, T):
                            todo.append(w)
                        elif isinstance(w, tuple):
                            st.append(w)


def rewrite(t, f, memo=None):
    """Bottom-up rewriting; f(term) -> term or None (keep)."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is not None:
                return r
            na = tuple(go(y) for y in x.a)
            n = x if all(p is q for p, q in zip(na, x.a)) else mk(x.op, *na)
            r = f(n)
            if r is None:
                r = n
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def subst(t, m):
    return rewrite(t, lambda x: m.get(x))


_BIN = {"+", "-", "*", "/", "<", "<=", "==", "%", "idiv", "&&", "||"}


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    if depth > 12:
        return "..."
    o, a = t.op, t.a
    d = depth + 1
    if o == "num":
        s = repr(a[0])
    elif o == "str":
        s = '"%s"' % a[0]
    elif o == "bool":
        s = "true" if a[0] else "false"
    elif o in ("null", "this", "void"):
        s = o
    elif o == "sym":
        s = a[0]
    elif o == "glob":
        s = a[0].split("@")[0].replace("PROPOSAL::", "")
    elif o == "enum":
        s = a[0].replace("PROPOSAL::", "")
    elif o == "fld":
        s = "%s.%s" % (show(a[0], d), a[1])
    elif o == "elem":
        s = "%s[%s]" % (show(a[0], d), show(a[1], d))
    elif o == "deref":
        s = "*%s" % show(a[0], d)
    elif o in _BIN and len(a) == 2:
        s = "(%s %s %s)" % (show(a[0], d), o, show(a[1], d))
    elif o == "call":
        s = "%s(%s)" % (short(a[0]), ", ".join(show(x, d) for x in a[1:]))
    elif o == "idx":
        s = "i%s" % a[0]
    elif o == "rec":
        s = "%s{%s}" % (short(a[0]), ", ".join(
            ([] if a[1] is None else ["..." + show(a[1], d)]) + ["%s=%s" % (k if isinstance(k, str) else show(k, d), show(v, d)) for k, v in a[2]]))
    else:
        s = "%s(%s)" % (o, ", ".join(show(x, d) for x in a))
    if len(s) > 400:
        s = s[:390] + "...."
    if depth == 0:
        t._s = s
    return s


def short(n):
    n = str(n)
    n = n.split("(")[0].replace("PROPOSAL::", "").replace("std::", "")
    return n.split("<")[0] if "<" in n and not n.startswith("operator") else n


# ------------------------------------------------------------------ algebra
# Polynomials over atoms: {monomial: coefficient}; monomial = sorted tuple of
# (atom, exponent), exponents may be negative integers.

def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def pconst(c):
    return {(): c} if c else {}


def _exact(v):
    if isinstance(v, int):
        return Fraction(v)
    if v != v or v in (float("inf"), float("-inf")):
        return None
    return Fraction(repr(v))


SQRT = "sqrt"
_PM = {}


def poly(t):
    """Normal form of an arithmetic term."""
    r = _PM.get(t)
    if r is not None:
        return r
    r = _poly(t)
    _PM[t] = r
    return r


def _poly(t):
    o, a = t.op, t.a
    if o == "num":
        e = _exact(a[0])
        if e is not None:
            return pconst(e)
    elif o == "+":
        return padd(poly(a[0]), poly(a[1]))
    elif o == "-":
        return padd(poly(a[0]), poly(a[1]), -1)
    elif o == "neg":
        return pmul(pconst(Fraction(-1)), poly(a[0]))
    elif o == "*":
        p, q = poly(a[0]), poly(a[1])
        if len(p) * len(q) <= 4000:
            return pmul(p, q)
    elif o == "/":
        p, q = poly(a[0]), poly(a[1])
        if len(q) == 1:
            (m, c), = q.items()
            return pmul(p, {tuple((x, -e) for x, e in m): 1 / c})
        if q:
            c0 = sorted(q.items(), key=lambda x: tuple((z.id, e) for z, e in x[0]))[0][1]
            d = unpoly({m: c / c0 for m, c in q.items()})
            return pmul(p, {((d, -1),): 1 / c0})
    elif o == "pow":
        e = a[1]
        ex = e.a[0] if e.op == "num" else (-e.a[0].a[0] if e.op == "neg" and e.a[0].op == "num" else None)
        if isinstance(ex, int) and abs(ex) <= 8:
            p = poly(a[0])
            if ex >= 0:
                if len(p) ** max(ex, 1) <= 3000:
                    r = pconst(Fraction(1))
                    for _ in range(ex):
                        r = pmul(r, p)
                    return r
            elif len(p) == 1:
                (m, c), = p.items()
                return {tuple((x, ex * k) for x, k in m): c ** ex}
            else:
                return poly(mk("/", num(1), mk("pow", a[0], num(-ex))))
        if ex == 0.5:
            return poly(mk("sqrt", a[0]))
        return {((mk("pow", canon(poly(a[0])), canon(poly(a[1]))), 1),): Fraction(1)}
    elif o == "sqrt":
        p = poly(a[0])
        at = mk("sqrt", canon(p))
        return {((at, 1),): Fraction(1)}
    if o in ("sin", "cos", "exp", "log", "abs", "tan", "acos", "asin", "atan") and len(a) == 1:
        return {((mk(o, canon(poly(a[0]))), 1),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def unpoly(p):
    return mk("poly", tuple(sorted(((m, c) for m, c in p.items()), key=lambda x: tuple((q.id, e) for q, e in x[0]))))


def canon(p):
    """A term that identifies the polynomial."""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
        if m == ():
            return num(float(c)) if c.denominator != 1 else num(int(c))
    if not p:
        return num(0)
    return unpoly(p)


def pequal(a, b):
    return pzero(padd(poly(a), poly(b), -1))


def pzero(p):
    """p == 0 after clearing polynomial denominators and squares of roots."""
    for _ in range(12):
        p = reduce_sqrt(p)
        if not p:
            return True
        den = {}
        for m in p:
            for at, e in m:
                if at.op == "poly" and e < 0:
                    den[at] = min(den.get(at, 0), e)
        if not den:
            return False
        at = sorted(den, key=lambda x: -x.id)[0]
        k = -den[at]
        inner = dict(at.a[0])
        r = {}
        for m, c in p.items():
            e = dict(m).get(at, 0)
            rest = tuple(x for x in m if x[0] is not at)
            q = {rest: c}
            for _i in range(k + e):
                q = pmul(q, inner)
            r = padd(r, q)
        p = r
    return not p


def reduce_sqrt(p):
    """sqrt(x)^2 -> x"""
    for _ in range(8):
        hit = False
        r = {}
        for m, c in p.items():
            q = {(): c}
            for at, e in m:
                if at.op == "sqrt" and abs(e) >= 2:
                    hit = True
                    inner = poly_of_canon(at.a[0])
                    k = e // 2 if e > 0 else -((-e) // 2)
                    rem = e - 2 * k
                    if k > 0:
                        for _i in range(k):
                            q = pmul(q, inner)
                    else:
                        q = pmul(q, {((at.a[0], k),): Fraction(1)} if len(inner) != 1 else _pinv(inner, -k))
                    if rem:
                        q = pmul(q, {((at, rem),): Fraction(1)})
                else:
                    q = pmul(q, {((at, e),): Fraction(1)})
            r = padd(r, q)
        p = r
        if not hit:
            break
    return p


def _pinv(p, k):
    (m, c), = p.items()
    return {tuple((x, -e * k) for x, e in m): c ** -k}


def poly_of_canon(t):
    if t.op == "poly":
        return dict(t.a[0])
    return poly(t)


def pshow(p):
    if not p:
        return "0"
    out = []
    for m, c in p.items():
        s = "*".join(("%s" % show(a)) + ("" if e == 1 else "^%s" % e) for a, e in m)
        out.append(("%s*%s" % (c, s)) if s and c != 1 else (s or str(c)))
    return " + ".join(out)
