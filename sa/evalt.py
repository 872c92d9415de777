"""Value of a term in a finite abstraction: constants of the program and one representative per region of the input domain."""
import math
from terms import *


class Unknown(Exception):
    pass


LIMITS = {"mu", "mut", "call", "callv", "lambda", "out", "unknown", "vpush", "begin", "end", "iter", "lam", "fresh", "construct", "hash1", "bind", "deref"}


def limit(err):
    """the value could not be followed (as opposed to: it is something the property excludes)"""
    return str(err).split(" in ")[0] in LIMITS


class NoCase(Unknown):
    """none of the joined paths of a value is taken"""


def _div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return float("nan")
        neg = (a < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf
    return a / b


def _f(fn):
    def g(*a):
        try:
            return fn(*a)
        except (ValueError, OverflowError):
            return float("nan")
    return g


def _log(x):
    return -math.inf if x == 0 else math.log(x)


FN = {"sqrt": _f(math.sqrt), "exp": _f(math.exp), "log": _f(_log), "sin": _f(math.sin), "cos": _f(math.cos), "tan": _f(math.tan),
      "acos": _f(math.acos), "asin": _f(math.asin), "atan": _f(math.atan), "atan2": _f(math.atan2), "pow": _f(lambda a, b: math.pow(a, b)),
      "abs": abs, "log10": _f(math.log10), "log2": _f(math.log2), "floor": _f(math.floor), "ceil": _f(math.ceil),
      "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3.), x),
      "log1p": _f(math.log1p), "expm1": _f(math.expm1), "erf": math.erf, "sinh": _f(math.sinh), "cosh": _f(math.cosh), "tanh": math.tanh,
      "hypot": math.hypot, "fmod": _f(math.fmod), "copysign": math.copysign, "isnan": lambda x: x != x, "isinf": lambda x: x in (math.inf, -math.inf),
      "isfinite": lambda x: x == x and x not in (math.inf, -math.inf), "signbit": lambda x: math.copysign(1, x) < 0, "trunc": _f(math.trunc),
      "max": lambda a, b: b if a < b else a, "min": lambda a, b: b if b < a else a, "tgamma": _f(math.gamma), "lgamma": _f(math.lgamma),
      "erfc": math.erfc, "neg": lambda a: -a, "asinh": math.asinh, "acosh": _f(math.acosh), "atanh": _f(math.atanh), "sq": lambda a: a * a}


def evalt(t, env=None, db=None, hook=None, memo=None):
    """env: term -> value"""
    if memo is None:
        memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = ev(x)
        memo[x] = r
        return r

    def ev(x):
        if env is not None and x in env:
            return env[x]
        if hook is not None:
            r = hook(x, go)
            if r is not None:
                return r
        o, a = x.op, x.a
        if o in ("num", "bool", "str"):
            return a[0]
        if o == "enum":
            return a[1]
        if o == "null":
            return 0
        if o == "glob" and db is not None:
            g = db.globals.get(a[0])
            if g is not None and "cv" in g:
                return float(g["cv"])
        if o == "not":
            return not go(a[0])
        if o == "tobool":
            return bool(go(a[0]))
        if o in ("&&", "||"):
            p = bool(go(a[0]))
            if (o == "&&") != p:
                return p
            return bool(go(a[1]))
        if o in ("+", "-", "*", "/", "<", "<=", "==", "idiv", "%") and len(a) == 2:
            p, q = go(a[0]), go(a[1])
            if o == "+":
                return p + q
            if o == "-":
                return p - q
            if o == "*":
                return p * q
            if o == "/":
                return _div(float(p), float(q))
            if o == "<":
                return p < q
            if o == "<=":
                return p <= q
            if o == "==":
                return p == q
            if o == "idiv":
                if q == 0:
                    raise Unknown("division by zero")
                return int(p / q)
            if q == 0:
                raise Unknown("modulo by zero")
            return int(math.fmod(p, q))
        if o == "-" and len(a) == 1:
            return -go(a[0])
        if o == "ite":
            return go(a[1]) if go(a[0]) else go(a[2])
        if o == "cases":
            for facts, v in a[0]:
                if all(bool(go(f)) == p for f, p in facts):
                    return go(v)
            raise NoCase("no case applies")
        if o in ("trunc", "int"):
            return int(go(a[0]))
        if o in FN:
            return FN[o](*[go(y) for y in a])
        raise Unknown("%s in %s" % (o, show(x)[:80]))
    return go(t)


def consistent(facts, env, db=None, memo=None, hook=None):
    """do the branch conditions of a path hold for this representative? Unknown conditions are left open (True)."""
    for f, p in facts.items() if isinstance(facts, dict) else facts:
        try:
            if bool(evalt(f, env, db, hook, memo)) != p:
                return False
        except Unknown:
            pass
    return True
