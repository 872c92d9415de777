"""Decides whether an expression extracted from the source is identically zero on a path.

First the exact normal form of alg.py.  Where that does not settle it, identity testing of the extracted expression: its
value at sampled points that satisfy the branch conditions of the path (functions that are not elementary are uninterpreted,
with congruence).  A non-zero value at such a point is a witness that the identity fails; vanishing at all of them is accepted."""
import hashlib
import os
import math
from terms import *
from evalt import evalt, FN, Unknown
from alg import Alg
from ir import AnalysisBroken


def _mp():
    try:
        import mpmath
    except ImportError:
        import glob
        import sys
        for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
            sys.path.append(d)
        try:
            import mpmath
        except ImportError:
            return None
    mpmath.mp.dps = 60
    return mpmath


MP = _mp()


def mpfn(f):
    if f == "fmod":
        return lambda a, b: a - b * (MP.floor(a / b) if a / b >= 0 else MP.ceil(a / b))
    m = {"abs": "fabs", "pow": "power", "neg": None, "sq": None, "max": None, "min": None, "tgamma": "gamma", "lgamma": "loggamma", "log2": None}
    if f in m and m[f] is None:
        return FN[f] if f in ("neg", "sq", "max", "min") else None
    g = getattr(MP, m.get(f, f), None) if f not in ("round", "fmod", "floor", "ceil", "trunc", "copysign", "signbit", "isnan", "isinf", "isfinite") else None
    if g is None:
        return None

    def h(*a):
        v = g(*a)
        if isinstance(v, MP.mpc):
            return MP.nan
        return v
    return h


NUMOPS = set(FN) | {"+", "-", "*", "/", "<", "<=", "==", "idiv", "%", "num", "bool", "enum", "null", "not", "tobool", "&&", "||", "ite", "cases", "trunc", "int", "str"}
COND = {"<", "<=", "==", "not", "&&", "||", "tobool", "bool", "isnan", "isinf", "isfinite", "signbit"}
SPECIAL = (0.0, 1.0, -1.0)


_DIG = {}
SALT = os.environ.get("SA_SALT", "")      # development aid: other sample points


def digest(t):
    """of the content of a term: the sample points do not depend on the order in which terms were created"""
    todo = [t]
    while todo:
        x = todo[-1]
        if x in _DIG:
            todo.pop()
            continue
        n = [y for y in x.a if isinstance(y, T) and y not in _DIG]
        if n:
            todo += n
            continue
        _DIG[x] = hashlib.md5(repr((x.op,) + tuple(_DIG[y] if isinstance(y, T) else flatten(y) for y in x.a)).encode()).hexdigest()
        todo.pop()
    return _DIG[t]


def flatten(y):
    if isinstance(y, T):
        return digest(y)
    if isinstance(y, (tuple, list)):
        return tuple(flatten(z) for z in y)
    if isinstance(y, (frozenset, set)):
        return tuple(sorted(str(flatten(z)) for z in y))
    return str(y)


def h01(*key):
    d = hashlib.md5((SALT + repr(key)).encode()).digest()
    return int.from_bytes(d[:8], "big") / 2.0 ** 64


class Ident(object):
    def __init__(self, db=None, subst=None, positive=(), domain=None, points=40, tries=1500, tol=1e-12, value=None, budget=1500):
        """subst: term -> term parametrising constrained quantities; domain(t) -> (lo, hi) or None for an atom"""
        self.db, self.sub, self.positive, self.domain = db, subst or {}, list(positive), domain
        self.points, self.tries, self.tol = points, tries, tol
        self.valuefn = value
        self.budget = budget        # larger terms go to identity testing at once
        self.proved = self.tested = 0
        self.cache = {}

    def base(self, t):
        return subst(t, self.sub) if self.sub else t

    def dom(self, t):
        d = self.domain(t) if self.domain else None
        return d or (-3.0, 3.0)

    def point(self, k, exact=False):
        """evaluator at the k-th sampled point; exact: 60 digits"""
        scale = 1.0
        if k % 3 == 1:
            scale = 10.0 ** (-1 - (k // 3) % 12)
        elif k % 9 == 6:
            scale = 10.0 ** (1 + (k // 9) % 8)
        special = (0, 0, 0.4, 0, 0, 0.7, 0, 0, 1.0)[k % 9]
        atoms = {}

        def hook(x, go):
            o = x.op
            if exact and o in ("num", "+", "-", "*", "/") or exact and o in FN:
                if o == "num":
                    if x.a[0] == math.pi:
                        return +MP.pi
                    return MP.mpf(x.a[0]) if isinstance(x.a[0], (int, float)) else None
                if o in FN:
                    g = mpfn(o)
                    return g(*[go(y) for y in x.a]) if g else None
                if len(x.a) == 2:
                    p, q = go(x.a[0]), go(x.a[1])
                    if isinstance(p, bool) or isinstance(q, bool):
                        return None
                    p, q = MP.mpf(p), MP.mpf(q)
                    if o == "/":
                        return p / q if q else (MP.nan if not p else MP.inf * MP.sign(p))
                    return p + q if o == "+" else p - q if o == "-" else p * q
            if o in NUMOPS:
                return None
            if o == "glob" and self.db is not None:
                g = self.db.globals.get(x.a[0])
                if g is not None and "cv" in g:
                    return None
            if o == "poly":
                s = 0.0
                for m, c in x.a[0]:
                    v = float(c)
                    for a, e in m:
                        v *= go(a) ** e
                    s += v
                return s
            if o == "q":
                return x.a[0] / x.a[1]
            if o == "ratio":
                return go(mk("/", x.a[0], x.a[1]))
            if x in atoms:
                return atoms[x]
            key = [o]
            for y in x.a:
                if isinstance(y, T):
                    if y.op in NUMOPS and y.op != "str" or y.op in ("call", "elem") and o == "call":
                        try:
                            key.append("%.9g" % go(y))
                            continue
                        except (Unknown, TypeError):
                            pass
                    key.append(digest(y))
                else:
                    key.append(str(flatten(y)))
            u = h01(k, *key)
            if special and h01(k, "s", *key) < special:
                v = SPECIAL[int(h01(k, "t", *key) * 3)] if k % 18 != 8 else 0.0
                if k // 9 % 2:      # close to the special value
                    v += (2 * u - 1) * 10.0 ** (-3 - (k // 18) % 9)
                lo, hi = self.dom(x)
                if not lo <= v <= hi:
                    v = lo + (hi - lo) * u
            else:
                lo, hi = self.dom(x)
                v = lo + (hi - lo) * u
                if scale != 1.0 and h01(k, "z", *key) < 0.75 and lo <= v * scale <= hi:
                    v = v * scale
                elif scale > 1.0 and h01(k, "z", *key) < 0.75 and (lo, hi) == (-3.0, 3.0):
                    v = v * scale
            if exact:
                v = MP.mpf(v)
            atoms[x] = v
            return v
        memo = {}
        return lambda t: evalt(t, None, self.db, hook, memo)

    def satisfied(self, ev, facts):
        for f, p in facts:
            if f.op not in COND or f.op == "==" and any(isinstance(y, T) and y.op in ("end", "begin") for y in f.a):
                continue
            try:
                if bool(ev(f)) != p:
                    return False
            except (Unknown, TypeError, ValueError, OverflowError, ZeroDivisionError):
                continue
        return True

    def pts(self, facts):
        key = tuple((f.id, p) for f, p in facts)
        r = self.cache.get(key)
        if r is None:
            r = []
            for k in range(self.tries):
                ev = self.point(k)
                if self.satisfied(ev, facts):
                    r.append((k, ev))
                    if len(r) >= self.points:
                        break
            self.cache[key] = r
        return r

    def feasible(self, facts):
        facts = [(self.base(f), p) for f, p in (facts.items() if isinstance(facts, dict) else facts)]
        return bool(self.pts(facts))

    def zero(self, t, facts=(), scale=None):
        """True, or a text describing the witness"""
        fl = [(self.base(f), p) for f, p in (facts.items() if isinstance(facts, dict) else facts)]
        t = self.base(t)
        pos = list(self.positive)
        for f, p in fl:
            # f < 0 or f <= 0 known on the path
            if f.op in ("<", "<=") and len(f.a) == 2:
                d = mk("-", f.a[0], f.a[1]) if p else mk("-", f.a[1], f.a[0])
                pos.append(mk("neg", d))
        try:
            if self.small(t) and Alg(positive=[self.base(x) for x in pos], value=self.valuefn or (lambda x: None)).zero(t):
                self.proved += 1
                return True
        except (RecursionError, ZeroDivisionError, OverflowError):
            pass
        ps = self.pts(fl)
        n = 0
        for k, ev in ps:
            try:
                v = ev(t)
                s = self.size(t, ev)
            except (Unknown, TypeError, ZeroDivisionError, OverflowError) as e:
                raise AnalysisBroken("value of %s: %s" % (show(t)[:120], e))
            if v != v or abs(v) == math.inf:
                continue
            n += 1
            if abs(v) > 0.1 * self.tol * max(s, 1e-300) and self.confirm(t, k, fl):
                return "off by %.4g at a point that satisfies the path conditions" % v
        if n < 1:
            raise AnalysisBroken("no sample points for %s" % show(t)[:160])
        self.tested += 1
        return True

    def small(self, t):
        n, seen, todo = 0, set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > self.budget:
                return False
            todo.extend(y for y in x.a if isinstance(y, T))
        return True

    def confirm(self, t, k, fl):
        """the witness is not a rounding effect"""
        if MP is None:
            return True
        old, seen = MP.mp.dps, []
        try:
            for dps in (60, 200):       # rounding shrinks with the precision, a difference does not
                MP.mp.dps = dps
                ev = self.point(k, True)
                if not self.satisfied(ev, fl):
                    return False
                v, s = ev(t), self.size(t, ev)
                if not (abs(v) > self.tol * s and abs(v) > MP.mpf(10) ** -40):
                    return False
                seen.append(v)
        finally:
            MP.mp.dps = old
        return bool(abs(seen[1]) > abs(seen[0]) * MP.mpf(10) ** -6)

    def size(self, t, ev, memo=None):
        """magnitude of the terms that are summed"""
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is None:
            r = memo[t] = self._size(t, ev, memo)
        return r

    def _size(self, t, ev, memo):
        o = t.op
        if o in ("+", "-") and len(t.a) == 2:
            return self.size(t.a[0], ev, memo) + self.size(t.a[1], ev, memo)
        if o == "neg":
            return self.size(t.a[0], ev, memo)
        if o == "*" and len(t.a) == 2:
            return self.size(t.a[0], ev, memo) * self.size(t.a[1], ev, memo)
        if o == "/" and len(t.a) == 2:
            d = ev(t.a[1])
            return self.size(t.a[0], ev, memo) / abs(d) if d else math.inf
        v = ev(t)
        return abs(v) if v == v else 0.0

    def equal(self, a, b, facts=()):
        return self.zero(mk("-", a, b), facts)
