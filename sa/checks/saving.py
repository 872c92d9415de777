"""P24: what a table, a spline or the random number generator writes is what its reader restores."""
import fractions
import functools
import math
import re
from absint import *
from common import AnalysisBroken
from data import N
from kinematics import S, where
from tree import fnodes
from expose import Expose
from ir import rel

RULE = ("Abstract interpretation of the writer followed by the reader against an abstract file: every operation on a stream (<<, >>, write, read, open, ignore, precision, "
        "str) appends to or consumes from a sequence of typed items, separators and path names. A number written as text keeps its value only if the stream's precision "
        "carries all digits of its type; a read must meet an item of a compatible type (the same type and size in binary form), separated from its neighbours. The object read "
        "back must then hold, in every field the evaluation reads before it writes it, the term the written object holds.")

FILES = ("o", S("files"))
DIGITS = {"double": 17, "float": 9, "long double": 21}
INTS = {"bool", "int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long", "unsigned long long"}
SIZES = {"bool": 1, "char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8, "long long": 8,
         "unsigned long long": 8}


def plain(t):
    return strip_type(t).replace("const ", "").strip(" &")


def tape(path, prec, pos, good, items):
    return mk("tape", path, num(prec), num(pos), boolt(good), mk("list", *items))


NOPATH = S("no file")


class Streams(Engine):
    """streams as sequences of typed items"""

    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.bad = []

    def fault(self, fr, e, text):
        w = self.where(fr, e)
        if (w, text) not in self.bad:
            self.bad.append((w, text))

    def tape(self, st, l):
        v = self.load(st, l)
        if v.op != "tape":
            v = tape(NOPATH, 6, 0, True, ())
        return v

    def settape(self, st, l, t, fr, e):
        self.save(st, l, t, fr, e)
        if t.a[0] is not NOPATH:
            st.store[("o", mk("file", t.a[0]))] = t.a[4]

    def isstream(self, t):
        b = plain(t or "")
        return b.startswith("std::") and ("stream<" in b or "basic_ios<" in b or b.endswith("stream"))

    def e_Ref(self, e, st, fr):
        if e.get("cv") is not None and e.get("q", "").startswith("std::") and plain(e.get("t", "")) in INTS:
            v = int(e["cv"])
            return [(st, boolt(v != 0) if plain(e["t"]) == "bool" else num(v))]
        return Engine.e_Ref(self, e, st, fr)

    # --- writing ---
    def put(self, st, l, items, fr, e):
        t = self.tape(st, l)
        st = st.copy()
        self.settape(st, l, tape(t.a[0], int(t.a[1].a[0]), int(t.a[2].a[0]), t.a[3] is TRUE, t.a[4].a + tuple(items)), fr, e)
        return st

    def text_of(self, st, l, v, typ):
        """items for a value written as text"""
        if v.op == "str":
            return [mk("txt", v.a[0])]
        if v.op == "text":
            return list(v.a)
        p = int(self.tape(st, l).a[1].a[0])
        if typ in DIGITS and p < DIGITS[typ]:
            v = mk("rounded", v, num(p))
        return [mk("num", S(typ), v)]

    def manip(self, n):
        while n["k"] in ("Cast", "Paren") or (n["k"] == "Un" and n.get("op") == "&"):
            n = n["c"][0]
        if n["k"] == "Ref" and n.get("dk") in ("func", "fn", "function") or (n["k"] == "Ref" and "(" in n.get("t", "")):
            return n["n"]
        return None

    def e_OpCall(self, e, st, fr):
        op, a = e["op"], e["c"]
        cal = e["callee"]
        if op in ("<<", ">>") and len(a) == 2 and not cal.get("repo") and self.isstream(a[0].get("t")):
            out = []
            for s, l in self.lv(a[0], st, fr):
                out += (self.insert if op == "<<" else self.extract)(e, a[1], s, l, fr)
            return [(s, mk("lvref", l[0], l[1])) for s, l in out]
        if op == "!" and len(a) == 1 and self.isstream(a[0].get("t")):
            return [(s, lnot(self.tape(s, l).a[3])) for s, l in self.lv(a[0], st, fr)]
        return Engine.e_OpCall(self, e, st, fr)

    def insert(self, e, n, st, l, fr):
        m = self.manip(n)
        if m is not None:
            if m == "endl":
                return [(self.put(st, l, [mk("txt", "\n")], fr, e), l)]
            if m in ("flush", "dec"):
                return [(st, l)]
            raise AnalysisBroken("unknown stream manipulator %s at %s" % (m, self.where(fr, e)))
        out = []
        if n["k"] == "Call" and n["callee"]["name"] == "setprecision":
            for s, v in self.ev(n["c"][0], st, fr):
                out.append((self.precision(s, l, v, fr, e), l))
            return out
        typ = plain(n.get("t", ""))
        for s, v in self.ev(n, st, fr):
            if typ == "char":
                items = [mk("txt", chr(int(v.a[0])))] if v.op == "num" else [mk("num", S("char"), v)]
            else:
                items = self.text_of(s, l, self.reify(v, s, fr), typ)
            out.append((self.put(s, l, items, fr, e), l))
        return out

    def precision(self, st, l, v, fr, e):
        m = re.match(r"std::numeric_limits<([\w ]+)>::(max_)?digits10$", show(v))
        if m and m.group(1) in DIGITS:
            v = num(DIGITS[m.group(1)] - (0 if m.group(2) else {"double": 2, "float": 3, "long double": 3}[m.group(1)]))
        if v.op != "num":
            raise AnalysisBroken("stream precision %s is not known" % show(v)[:60])
        t = self.tape(st, l)
        st = st.copy()
        self.settape(st, l, mk("tape", t.a[0], num(int(v.a[0])), *t.a[2:]), fr, e)
        return st

    # --- reading ---
    def skip(self, items, pos):
        """position of the next item that is not white space, and whether anything separates it"""
        sep = pos == 0
        while pos < len(items) and items[pos].op == "txt" and not items[pos].a[0].strip():
            sep = sep or bool(items[pos].a[0])
            pos += 1
        return pos, sep

    def extract(self, e, n, st, l, fr):
        m = self.manip(n)
        if m is not None:
            if m == "ws":
                return [(st, l)]
            raise AnalysisBroken("unknown stream manipulator %s at %s" % (m, self.where(fr, e)))
        typ = plain(n.get("t", ""))
        out = []
        for s, tl in self.lv(n, st, fr):
            s = s.copy()
            t = self.tape(s, l)
            items = t.a[4].a
            good = t.a[3] is TRUE
            pos, sep = self.skip(items, int(t.a[2].a[0]))
            v = mk("unread")
            if not good:
                self.fault(fr, e, "reads on after the stream failed")
            elif pos >= len(items):
                self.fault(fr, e, "reads a value beyond the last one written")
                good = False
            else:
                v, ok = self.fits(items[pos], typ, sep, fr, e)
                pos += 1
                good = ok and pos < len(items)       # a number that ends the stream sets the end-of-file state
            self.save(s, tl, v, fr, e)
            self.save(s, l, mk("tape", t.a[0], t.a[1], num(pos), boolt(good), t.a[4]), fr, e)
            out.append((s, l))
        return out

    def fits(self, it, typ, sep, fr, e):
        what = {"txt": "the text '%s'" % (it.a[0].strip() if it.op == "txt" else ""), "raw": "binary data", "num": "a value of type %s" % (it.a[0].a[0] if it.op == "num" else "")}[it.op]
        if it.op != "num":
            self.fault(fr, e, "reads a value of type %s where %s was written" % (typ, what))
            return mk("unread"), False
        w = it.a[0].a[0]
        if not sep:
            self.fault(fr, e, "the value read is not separated from the one before it")
            return mk("unread"), False
        if w == typ or (w in INTS and typ in INTS and typ != "bool") or (typ in DIGITS and w in INTS) or (typ == "double" and w == "float"):
            return it.a[1], True
        self.fault(fr, e, "reads a value of type %s where %s was written" % (typ, what))
        return mk("unread"), False

    # --- methods ---
    def pointee_lv(self, n):
        while n["k"] in ("Cast", "Paren"):
            n = n["c"][0]
        return plain(pointee(n.get("t", "")))

    def e_MCall(self, e, st, fr):
        cal = e["callee"]
        if not cal.get("repo") and self.isstream(cal.get("cls")) or (not cal.get("repo") and self.isstream(e["obj"].get("t"))):
            objs = self.ptr_lv(e["obj"], st, fr) if e.get("arrow") else self.obj(e["obj"], st, fr)
            out = []
            for s, l in objs:
                out += self.method(cal["name"], e, s, l, fr)
            return out
        return Engine.e_MCall(self, e, st, fr)

    def method(self, name, e, st, l, fr):
        t = self.tape(st, l)
        ref = mk("lvref", l[0], l[1])
        a = e["c"]
        if name in ("<<", "operator<<", ">>", "operator>>"):
            return [(s, mk("lvref", x[0], x[1])) for s, x in (self.insert if "<<" in name else self.extract)(e, a[0], st, l, fr)]
        if name == "precision":
            if not a:
                return [(st, t.a[1])]
            return [(self.precision(s, l, v, fr, e), t.a[1]) for s, v in self.ev(a[0], st, fr)]
        if name in ("good", "operator bool", "is_open", "fail", "bad", "eof"):
            g = t.a[3]
            return [(st, g if name in ("good", "operator bool", "is_open") else lnot(g) if name != "bad" else FALSE)]
        if name == "str":
            if a:
                return [(s, VOID) for s, v in self.ev(a[0], st, fr) for s in [self.reset(s, l, v, fr, e)]]
            return [(st, mk("text", *t.a[4].a))]
        if name == "open":
            out = []
            for s, vs in self.evs(a, st, fr):
                s = s.copy()
                path = self.reify(vs[0], s, fr)
                modes = self.modes(a[1:])
                old = s.store.get(("o", mk("file", path)))
                kind = plain(e["obj"].get("t", ""))
                writes = "basic_ofstream" in kind or "out" in modes
                if writes and "in" in modes:
                    raise AnalysisBroken("file opened for reading and writing")
                items = old.a if old is not None and (not writes or "app" in modes) else ()
                if not writes and old is None:
                    self.fault(fr, e, "opens a file the writer did not write: %s" % show(path)[:80])
                good = writes or old is not None
                nt = tape(path, 6, 0, good, items)
                self.save(s, l, nt, fr, e)
                if writes:
                    s.store[("o", mk("file", path))] = nt.a[4]
                out.append((s, VOID))
            return out
        if name in ("close", "flush", "sync", "clear", "exceptions"):
            return [(st, ref if name == "flush" else VOID)]
        if name == "seekg":
            return [(self.reset(s, l, None, fr, e), ref) for s, vs in self.evs(a, st, fr)]
        if name == "ignore":
            items, pos = t.a[4].a, int(t.a[2].a[0])
            out = []
            for s, vs in self.evs(a, st, fr):
                if len(vs) != 2 or vs[0].op != "num" or vs[1].op != "num":
                    raise AnalysisBroken("ignore() with unknown arguments")
                s = s.copy()
                p, left = self.ignore(items, pos, int(vs[0].a[0]), chr(int(vs[1].a[0])), fr, e)
                its = items[:p] + ((mk("txt", " " + left),) if left is not None else ()) + items[p + (1 if left is not None else 0):]
                self.save(s, l, mk("tape", t.a[0], t.a[1], num(p), t.a[3], mk("list", *its)), fr, e)
                out.append((s, ref))
            return out
        if name in ("write", "read"):
            typ = self.pointee_lv(a[0])
            out = []
            for s, vs in self.evs(a, st, fr):
                p, n = vs
                if p.op != "ptr" or n.op != "num" or typ not in SIZES:
                    raise AnalysisBroken("binary %s of %s (%s bytes)" % (name, typ, show(n)[:20]))
                if int(n.a[0]) != SIZES[typ]:
                    self.fault(fr, e, "%s %d bytes of an object of type %s" % (name + "s", int(n.a[0]), typ))
                pl = (p.a[0], p.a[1])
                if name == "write":
                    s = self.put(s, l, [mk("raw", S(typ), self.load(s, pl))], fr, e)
                else:
                    s = self.binary(s, l, pl, typ, fr, e)
                out.append((s, ref))
            return out
        raise AnalysisBroken("stream operation %s at %s is not modelled" % (name, self.where(fr, e)))

    def reset(self, st, l, v, fr, e):
        t = self.tape(st, l)
        st = st.copy()
        items = t.a[4] if v is None else mk("list", *(v.a if v.op == "text" else [mk("txt", v.a[0])]))
        self.save(st, l, mk("tape", t.a[0], t.a[1], num(0), TRUE, items), fr, e)
        return st

    def ignore(self, items, pos, n, stop, fr, e):
        """(position, rest of the text there or None) after skipping up to the stop character"""
        while pos < len(items):
            it = items[pos]
            if it.op != "txt":
                self.fault(fr, e, "skips a written value")
                n -= 30
            elif stop in it.a[0]:
                head, left = it.a[0].split(stop, 1)
                if len(head) + 1 > n:
                    self.fault(fr, e, "a skipped line is longer than the reader allows")
                return pos, left
            else:
                n -= len(it.a[0])
            pos += 1
        return pos, None

    def modes(self, nodes):
        got, todo = set(), list(nodes)
        while todo:
            n = todo.pop()
            if n is None:
                continue
            if n["k"] in ("Ref", "Member") and n.get("n"):
                got.add(n["n"])
            todo += [x for x in n.get("c", ())]
            if n.get("obj"):
                todo.append(n["obj"])
        return got

    def binary(self, st, l, pl, typ, fr, e):
        t = self.tape(st, l)
        items, pos = t.a[4].a, int(t.a[2].a[0])
        st = st.copy()
        good, v = t.a[3] is TRUE, mk("unread")
        if not good:
            self.fault(fr, e, "reads on after the stream failed")
        elif pos >= len(items):
            self.fault(fr, e, "reads a value beyond the last one written")
            good = False
        elif items[pos].op != "raw" or items[pos].a[0].a[0] != typ:
            it = items[pos]
            self.fault(fr, e, "reads a value of type %s where %s was written" % (typ, "text" if it.op != "raw" else "a value of type " + it.a[0].a[0]))
            good = False
            pos += 1
        else:
            v = items[pos].a[1]
            pos += 1
        self.save(st, pl, v, fr, e)
        self.save(st, l, mk("tape", t.a[0], t.a[1], num(pos), boolt(good), t.a[4]), fr, e)
        return st

    def e_SizeOf(self, e, st, fr):
        t = plain(e["ty"])
        return [(st, num(SIZES[t]) if t in SIZES else mk("sizeof", e["ty"]))]

    def lib_construct(self, t, cal, vs, st, fr, e):
        if self.isstream(t):
            if not vs:
                return tape(NOPATH, 6, 0, True, ())
            if "stringstream" in t or "stringbuf" in t:
                v = self.reify(vs[0], st, fr)
                return tape(NOPATH, 6, 0, True, v.a if v.op == "text" else (mk("txt", v.a[0]),) if v.op == "str" else (mk("num", S("text"), v),))
            if "fstream" in t and t != "std::fstream" and "basic_fstream" not in t:
                path = self.reify(vs[0], st, fr)
                old = st.store.get(("o", mk("file", path)))
                if "ofstream" in t:
                    return tape(path, 6, 0, True, ())
                if old is None:
                    self.fault(fr, e, "opens a file the writer did not write: %s" % show(path)[:80])
                return tape(path, 6, 0, old is not None, old.a if old is not None else ())
            raise AnalysisBroken("construction of %s" % t)
        return Engine.lib_construct(self, t, cal, vs, st, fr, e)

    def lib_method(self, e, cal, olv, st, fr):
        if cal["name"] == "resize" and len(e["c"]) == 1 and olv is not None:
            out = []
            for s, v in self.ev(e["c"][0], st, fr):
                old = self.load(s, olv)
                if old.op == "list" and v.op == "num":
                    s = s.copy()
                    n = int(v.a[0])
                    el = strip_type(cal.get("cls", "")).split("<", 1)[1]
                    zero = mk("list") if el.startswith("std::vector<") else NULL if "*" in el.split(",")[0] else num(0)
                    self.save(s, olv, mk("list", *(old.a[:n] + (zero,) * (n - len(old.a)))), fr, e)
                    out.append((s, VOID))
                else:
                    break
            else:
                return out
        return Engine.lib_method(self, e, cal, olv, st, fr)


TABLE = N + "Interpolant"
EVAL = ("Interpolate", "InterpolateArray", "FindLimit")
WRITTEN, READ = ("o", S("written")), ("o", S("read"))


def same_number(t):
    return rewrite(t, lambda x: x.a[0].a[0] if x.op == "exp" and x.a[0].op == "log" else None)


class Machine(Streams):
    def e_OpCall(self, e, st, fr):
        if e["op"] == "()" and not e["callee"].get("repo") and re.search(r"^std::(\w+_engine<|mt19937|minstd)", plain(e["c"][0].get("t", ""))):
            out = []
            for s, l in self.lv(e["c"][0], st, fr):
                s = s.copy()
                v = self.load(s, l)
                self.save(s, l, mk("drawn from", v), fr, e)
                out.append((s, mk("draw", v)))
            return out
        return Streams.e_OpCall(self, e, st, fr)

    def can_inline(self, fn):
        return fn is not None and "body" in fn and fn.get("cls") != "PROPOSAL::Logging" and self.stack.count(fn["fn"]) < 3 and len(self.stack) < 30 and self.inline(fn)

    def math(self, op, vs):
        if op == "log" and isnum(vs[0]) and vs[0].a[0] > 0:
            return num(fractions.Fraction(math.log(vs[0].a[0])).limit_denominator(10 ** 9))
        return Streams.math(self, op, vs)

    def text_of(self, st, l, v, typ):
        return Streams.text_of(self, st, l, same_number(v), typ)

    def put(self, st, l, items, fr, e):
        return Streams.put(self, st, l, [mk(x.op, x.a[0], same_number(x.a[1])) if x.op == "raw" else x for x in items], fr, e)


def machine(db, classes, unroll=8):
    def opq(name):
        b = name.split("(")[0]
        if b == TABLE + "::Log":
            return lambda eng, name, cal, olv, av, st, fr, node: [(st, mk("call", "Log", *[eng.aval(st, a) for a in av]))]
        return None
    e = Machine(db, inline=lambda f: "Logging" not in f["fn"] and (f.get("cls") in classes or "stream" in f["fn"] or (f["file"].endswith((".cxx", ".h")) and not f.get("cls"))),
                opaque=opq, unroll=unroll)
    e.limit = 4000
    return e


def numbers(st, name, k):
    """k increasing symbols"""
    xs = [S("%s%d" % (name, i)) for i in range(k)]
    for i in range(k):
        for j in range(i + 1, k):
            st.facts[mkcmp("<", xs[i], xs[j])] = True
            st.facts[mkcmp("==", xs[i], xs[j])] = False
    return xs


def arguments(f, st, tag, sizes=(3, 2)):
    """values for a constructor of a table: int followed by two numbers is a number of nodes"""
    ps = f["params"]
    out, k, r = [], 0, 0
    dims = 0
    for i, p in enumerate(ps):
        t = plain(p["t"])
        v = None
        if t == "int":
            if [plain(q["t"]) for q in ps[i + 1:i + 3]] == ["double", "double"]:
                v = num(sizes[k % 2])
                k += 1
            else:
                v = num(1 + r % 2)
                r += 1
        elif t == "double":
            lo = i > 0 and plain(ps[i - 1]["t"]) == "int"
            a, b = S("%slo%d" % (tag, k)), S("%shi%d" % (tag, k))
            v = a if lo else b
            for x in (mkcmp("<", num(0), a), mkcmp("<", num(0), b), mkcmp("<", a, b)):
                st.facts[x] = True
            st.facts[mkcmp("==", a, b)] = False
        elif t == "bool":
            v = S("%s%s" % (tag, p["n"]))
        elif t.startswith("std::function<"):
            v = S(tag + "f")
        elif t.startswith("std::vector<std::vector<"):
            v = mk("list", *[mk("list", *numbers(st, "%s%s%d_" % (tag, p["n"], j), sizes[1])) for j in range(sizes[0])])
        elif t.startswith("std::vector<double"):
            v = mk("list", *numbers(st, "%s%s" % (tag, p["n"]), sizes[min(dims, 1)]))
            dims += 1
            if len([q for q in ps if plain(q["t"]).startswith("std::vector<double")]) == 2 and not any("vector<std::vector" in q["t"] for q in ps):
                dims = 0
        if v is None:
            raise AnalysisBroken("constructor parameter of type %s" % t)
        out.append(("val", v))
    return out


def tables(db):
    """every way to build a table: (name, function)"""
    out = []
    for fn, f in sorted(db.functions.items()):
        if f.get("cls") == TABLE and f.get("ctor") and "body" in f and not f.get("copyctor") and not f.get("movector") and f["params"] and not any(TABLE in p["t"] for p in f["params"]):
            out.append(("(" + ", ".join(p["n"] for p in f["params"][:4]) + ("..." if len(f["params"]) > 4 else "") + ")", f))
    return out


def evaluated(db):
    """the fields an evaluation of a one- and of a two-dimensional table may read before writing them"""
    X = Expose(db, TABLE)
    one, two, fns = set(), set(), []
    for fn, f in sorted(db.functions.items()):
        if f.get("cls") == TABLE and f["name"] in EVAL and "body" in f:
            fns.append(fn)
            if all(plain(p["t"]) == "double" for p in f["params"]):
                if len(f["params"]) == 1:
                    one |= set(X.sum[fn][1])
                else:
                    # the inversion exchanges the nodes with the row values, which it fills for the given argument
                    two |= {x for x in X.sum[fn][1] if x not in X.arrays or f["name"] != "FindLimit"}
    return (one, two), fns


def differ(db, e, s1, l1, s2, l2, cls, fields, out, path=""):
    """fields in which two objects differ"""
    names = fields
    if isinstance(fields, tuple):
        rows = e.load(s1, (l1[0], l1[1] + ("Interpolant_",)))
        names = fields[1] if rows.op == "list" and rows.a else fields[0] | {"Interpolant_"}
    for f in db.fields(cls):
        if f["n"] not in names:
            continue
        a = e.load(s1, (l1[0], l1[1] + (f["n"],)))
        b = e.load(s2, (l2[0], l2[1] + (f["n"],)))
        compare(db, e, s1, a, s2, b, fields, out, path + f["n"])
    return out


def compare(db, e, s1, a, s2, b, fields, out, name):
    if a.op == "list" and b.op == "list":
        if len(a.a) != len(b.a):
            out.append("%s: %d elements written, %d restored" % (name, len(a.a), len(b.a)))
            return
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            compare(db, e, s1, x, s2, y, fields, out, "%s[%d]" % (name, i))
        return
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0] and a is not b:
        for f in db.fields(a.a[0]):
            compare(db, e, s1, rget(a, f["n"]), s2, rget(b, f["n"]), fields, out, name + "." + f["n"])
        return
    if a.op == "ptr" and b.op == "ptr" and a is not b:
        x, y = e.load(s1, (a.a[0], a.a[1])), e.load(s2, (b.a[0], b.a[1]))
        if x.op == "list" and y.op == "list":
            compare(db, e, s1, x, s2, y, fields, out, name)
            return
        differ(db, e, s1, (a.a[0], a.a[1]), s2, (b.a[0], b.a[1]), TABLE, fields, out, name + "->")
        return
    if same_number(a) is not same_number(b):
        out.append("%s: %s was written, %s is restored" % (name, show(a)[:120], show(b)[:120]))


def file_of(e, st, l):
    t = e.tape(st, l)
    return tape(NOPATH, 6, 0, True, t.a[4].a)


def roundtrip(db, e, st, save, load, binary, stream):
    """runs save on WRITTEN and load on READ; [(state after load, result)] and problems"""
    outs = []
    st = st.copy()
    b = boolt(binary)
    if stream:
        w, r = ("o", S("out")), ("o", S("in"))
        st.store[w] = tape(NOPATH, 6, 0, True, ())
        first = e.run(save, this=(WRITTEN, ()), args=[("lv", (w, ())), ("val", b)], dyn=TABLE, st=st)
    else:
        first = e.run(save, this=(WRITTEN, ()), args=[("val", S("path")), ("val", b)], dyn=TABLE, st=st)
    for o in first:
        if o.kind != "return" or o.value is not TRUE:
            outs.append((o.st, "the writer returns %s" % (show(o.value) if o.kind == "return" else "by an exception")))
            continue
        s = o.st.copy()
        if stream:
            s.store[r] = file_of(e, s, (w, ()))
            second = e.run(load, this=(READ, ()), args=[("lv", (r, ())), ("val", b)], dyn=TABLE, st=s)
        else:
            second = e.run(load, this=(READ, ()), args=[("val", S("path")), ("val", b)], dyn=TABLE, st=s)
        for q in second:
            if q.kind != "return" or q.value is not TRUE:
                outs.append((q.st, "the reader returns %s" % (show(q.value) if q.kind == "return" else "by an exception")))
            else:
                if stream:
                    t = e.tape(q.st, (r, ()))
                    left = [x for x in t.a[4].a[int(t.a[2].a[0]):] if x.op != "txt" or x.a[0].strip()]
                    if left:
                        outs.append((q.st, "the reader leaves %d written values behind" % len(left)))
                        continue
                outs.append((q.st, None))
    return outs


def method(db, name, streamtype):
    out = [f for fn, f in db.functions.items() if f.get("cls") == TABLE and f["name"] == name and "body" in f and len(f["params"]) == 2
           and (("stream" in f["params"][0]["t"]) == streamtype)]
    if len(out) != 1:
        raise AnalysisBroken("%d functions Interpolant::%s on a %s" % (len(out), name, "stream" if streamtype else "path"))
    return out[0]


def judge(c, key, w, e, problems, what):
    c.ob(key, not problems and not e.bad, w if not e.bad else "%s:%d" % e.bad[0][0], "%s: %s" % (what, "; ".join([t for _w, t in e.bad[:2]] + sorted(problems)[:3])))


def one_table(db, c, name, f, names, sizes):
    default = [x for fn, x in db.functions.items() if x.get("cls") == TABLE and x.get("ctor") and not x["params"] and "body" in x]
    if len(default) != 1:
        raise AnalysisBroken("no default constructor of the interpolation table")
    before = [("a new table", default[0])] + [("a table with other content", g) for n, g in tables(db) if n == name or len(g["params"]) == 5]
    seen = set()
    for binary in (False, True):
        for stream in (False, True):
            for bname, g in before:
                key = "table %s %s %s into %s" % (name, "binary" if binary else "text", "stream" if stream else "file", bname if g is not f else "a table of the same kind")
                if key in seen:
                    continue
                seen.add(key)
                e = machine(db, (TABLE,))
                st = St()
                problems, n = set(), 0
                save, load = method(db, "Save", stream), method(db, "Load", stream)
                for o in e.run(f, this=(WRITTEN, ()), args=arguments(f, st, "w", sizes), dyn=TABLE, st=st):
                    if o.kind != "return":
                        continue
                    s = o.st.copy()
                    a = arguments(g, s, "r", (2, 2))
                    for o2 in e.run(g, this=(READ, ()), args=a, dyn=TABLE, st=s)[:1 if c.tier == "quick" else 8]:
                        if o2.kind != "return":
                            continue
                        for s2, err in roundtrip(db, e, o2.st, save, load, binary, stream):
                            n += 1
                            if err:
                                problems.add(err)
                            else:
                                # the written object as it was when it was saved: Save does not change what is evaluated
                                problems |= set(differ(db, e, o.st, (WRITTEN, ()), s2, (READ, ()), TABLE, names, []))
                c.need("executions of the round trip " + key, n, 1)
                judge(c, key, where(load), e, problems, "an interpolation table built by the constructor %s, saved and loaded again" % name)
                c.saw("round trip", key)


def interpolants(db, c):
    names, fns = evaluated(db)
    for fn in fns:
        c.saw("evaluation", fn)
    c.need("fields read by the evaluation of a table", min(map(len, names)), 8)
    ts = tables(db)
    c.need("ways to build a table", len(ts), 4)
    for name, f in ts:
        full = "(" + ", ".join(p["n"] for p in f["params"]) + ")"
        for sizes in ((3, 2),) if c.tier == "quick" else ((1, 1), (3, 2), (2, 3), (5, 4)):
            c.part("table %s of %dx%d nodes" % (full, sizes[0], sizes[1]), one_table, db, c, name, f, names, sizes)


SPLINE, POLY = N + "Spline", N + "Polynom"


def polynomials(db, e, st, degrees):
    ct = [f for fn, f in db.functions.items() if f.get("cls") == POLY and f.get("ctor") and "body" in f and len(f["params"]) == 1 and plain(f["params"][0]["t"]).startswith("std::vector<double")]
    if len(ct) != 1:
        raise AnalysisBroken("%d constructors of a polynomial from its coefficients" % len(ct))
    out = []
    for i, d in enumerate(degrees):
        p = ("o", S("poly%d" % i))
        os = e.run(ct[0], this=(p, ()), args=[("val", mk("list", *[S("p%d_%d" % (i, j)) for j in range(d + 1)]))], dyn=POLY, st=st)
        if len(os) != 1 or os[0].kind != "return":
            raise AnalysisBroken("construction of a polynomial has %d outcomes" % len(os))
        st = os[0].st
        v = e.load(st, (p, ()))
        out.append(rec(POLY, None, {f["n"]: rget(v, f["n"]) for f in db.fields(POLY)}))
    return st, out


def one_spline(db, c, reader, build, save, fields, degrees, binary):
    e = Machine(db, inline=lambda f: "Logging" not in f["fn"], unroll=10)
    e.limit = 4000
    st, ps = polynomials(db, e, St(), degrees)
    xs = numbers(st, "node", len(degrees) + 1)
    problems, n = set(), 0
    for o in e.run(build, this=(WRITTEN, ()), args=[("val", mk("list", *ps)), ("val", mk("list", *xs))], dyn=SPLINE, st=st):
        if o.kind != "return":
            continue
        for o2 in e.run(save, this=(WRITTEN, ()), args=[("val", S("path")), ("val", boolt(binary))], dyn=SPLINE, st=o.st):
            if o2.kind != "return" or o2.value not in (TRUE, num(1)):
                problems.add("the writer returns %s" % (show(o2.value) if o2.kind == "return" else "by an exception"))
                continue
            for o3 in e.run(reader, this=(READ, ()), args=[("val", S("path")), ("val", boolt(binary))], dyn=reader["cls"], st=o2.st):
                n += 1
                if o3.kind != "return":
                    problems.add("the reader ends by an exception")
                    continue
                problems |= set(differ(db, e, o.st, (WRITTEN, ()), o3.st, (READ, ()), SPLINE, fields, []))
    key = "spline %s %s" % (reader["cls"].split("::")[-1], "binary" if binary else "text")
    c.need("executions of the round trip " + key, n + len(problems), 1)
    judge(c, "%s degrees %s" % (key, " ".join(map(str, degrees))), where(reader), e, problems, "a spline with segments of degree %s, saved and read by %s" % (" ".join(map(str, degrees)), reader["cls"].split("::")[-1]))
    c.saw("round trip", key)


def splines(db, c):
    save = [f for fn, f in db.functions.items() if f.get("cls") == SPLINE and f["name"] == "save" and "body" in f]
    build = [f for fn, f in db.functions.items() if f.get("cls") == SPLINE and f.get("ctor") and "body" in f and len(f["params"]) == 2 and "Polynom" in f["params"][0]["t"]]
    readers = [f for fn, f in sorted(db.functions.items()) if f.get("ctor") and "body" in f and SPLINE in db.bases(f["cls"]) and [plain(p["t"]) for p in f["params"]] == ["std::string", "bool"]]
    if len(save) != 1 or len(build) != 1:
        raise AnalysisBroken("writer or constructor of a spline not found")
    c.need("constructors that read a spline", len(readers), 2)
    X = Expose(db, SPLINE)
    PX = Expose(db, POLY)
    names = set()
    for x, fns in ((X, ("evaluate", "GetDomain", "GetSplineContainer", "Derivative", "Antiderivative")), (PX, ("evaluate",))):
        for fn, r in x.sum.items():
            if db.functions[fn]["name"] in fns and r:
                names |= set(r[1])
    c.need("fields read by the evaluation of a spline", len(names), 4)
    for r in readers:
        for binary in (False, True):
            for degrees in ((1, 3, 2),) if c.tier == "quick" else ((1,), (1, 1), (3, 3, 3), (0, 2, 1, 4), (1, 3, 2)):
                c.part("spline %s" % r["cls"], one_spline, db, c, r, build[0], save[0], names, degrees, binary)


def generator(db, c):
    """the state of the random number generator"""
    G = N + "RandomGenerator"
    sv = [f for fn, f in db.functions.items() if f.get("cls") == G and "body" in f and len(f["params"]) == 1 and "ostream" in f["params"][0]["t"]]
    ld = [f for fn, f in db.functions.items() if f.get("cls") == G and "body" in f and len(f["params"]) == 1 and "istream" in f["params"][0]["t"]]
    if len(sv) != 1 or len(ld) != 1:
        raise AnalysisBroken("Serialize and Deserialize of the random number generator not found")
    draw = db.fn(G + "::DefaultRandomDouble")
    engines = set()
    for n, _a in fnodes(draw):
        if n["k"] in ("Ref", "Member") and n.get("dk") in ("global", None) and re.search(r"mersenne_twister_engine|linear_congruential|subtract_with_carry|_engine", n.get("t", "")):
            engines.add((n["n"], plain(n["t"])))
    c.need("engines behind the random numbers", len(engines), 1)
    e = Machine(db, inline=lambda f: f.get("cls") == G, unroll=4)
    w, r = ("o", S("out")), ("o", S("in"))
    st = St()
    st.store[w] = tape(NOPATH, 6, 0, True, ())
    outs = e.run(sv[0], this=(WRITTEN, ()), args=[("lv", (w, ()))], dyn=G, st=st)
    for o in outs:
        s = o.st.copy()
        s.store[r] = file_of(e, s, (w, ()))
        items = s.store[r].a[4].a
        s.store[r] = tape(NOPATH, 6, 0, True, items + (mk("txt", "\n"),))
        before = {k: v for k, v in s.store.items() if k[0] == "g"}
        # numbers drawn in between change the engine
        for k in list(s.store):
            if k[0] == "g":
                s.store[k] = S("later state")
        for q in e.run(ld[0], this=(READ, ()), args=[("lv", (r, ()))], dyn=G, st=s):
            got = set()
            for it in items:
                if it.op == "num":
                    got.add((show(it.a[1]), it.a[0].a[0]))
            for name, t in sorted(engines):
                v = [x for x in got if x[0].split("::")[-1] == name]
                now = [x for k, x in q.st.store.items() if k[0] == "g" and str(k[1]).split("@")[0].split("::")[-1] == name]
                ok = bool(v) and bool(now) and show(now[0]) == v[0][0]
                c.ob("generator " + name, ok and not e.bad, where(ld[0]), "the state of %s is %s" % (name, "not written" if not v else "not restored to the state written"))
    c.saw("round trip", "random number generator")


def p24(db, c):
    c.part("interpolation tables", interpolants, db, c)
    c.part("splines", splines, db, c)
    c.part("random number generator", generator, db, c)


CHECKS = {"P24": (RULE, p24)}
