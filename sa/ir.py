"""Program database: runs the extractor on /repo's current sources and indexes
the type-checked program (functions, records, enums, globals)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse error...)."""


def build_extractor():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    stamp = EXTRACT + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return EXTRACT
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w",
           "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build:\n" + r.stdout[-2000:])
    os.replace(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(h)
    return EXTRACT


def sources():
    fs = sorted(glob.glob(os.path.join(SRC, "PROPOSAL", "detail", "**", "*.cxx"), recursive=True))
    if not fs:
        raise AnalysisBroken("no sources under " + SRC)
    return fs


def tree_digest():
    h = hashlib.sha256()
    for base in (SRC, os.path.join(VERIF, "stubs")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cxx", ".h", ".hpp", ".icc", ".in")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, base).encode())
                    h.update(open(p, "rb").read())
    for p in (os.path.join(VERIF, "extractor", "extract.cpp"), os.path.abspath(__file__)):
        h.update(open(p, "rb").read())
    return h.hexdigest()


FLAGS = ["-std=c++14", "-x", "c++", "-DNDEBUG", "-w", "-resource-dir", RES]


def _version_header(d):
    """version.h is generated by the build; give the parser one of its own."""
    os.makedirs(os.path.join(d, "PROPOSAL"), exist_ok=True)
    tpl = os.path.join(SRC, "PROPOSAL", "PROPOSAL", "version.h.in")
    txt = open(tpl).read()
    import re
    txt = re.sub(r"@PROPOSAL_VERSION@", "0.0.0", txt)
    txt = re.sub(r"@[A-Z_]+@", "0", txt)
    with open(os.path.join(d, "PROPOSAL", "version.h"), "w") as f:
        f.write(txt)


TUCACHE = os.environ.get("SA_TUCACHE")     # development only: reuse unchanged translation units


def _headers_digest():
    h = hashlib.sha256(open(os.path.join(VERIF, "extractor", "extract.cpp"), "rb").read())
    for base in (SRC, os.path.join(VERIF, "stubs")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".icc", ".in")):
                    h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def _extract(args):
    f, out, inc = args
    if TUCACHE:
        global _HD
        try:
            _HD
        except NameError:
            _HD = _headers_digest()
        os.makedirs(TUCACHE, exist_ok=True)
        k = os.path.join(TUCACHE, hashlib.sha256((_HD + (os.path.basename(f) if f.endswith("headers.cxx") else os.path.relpath(f, REPO))).encode() + open(f, "rb").read()).hexdigest())
        if os.path.exists(k):
            d = json.loads(open(k).read().replace("@REPO@/", REPO + "/"))
            return f, d, d["errors"]
        r = _extract1(args)
        if r[1] is not None:
            with open(k + ".%d" % os.getpid(), "w") as fh:
                fh.write(json.dumps(r[1]).replace(REPO + "/", "@REPO@/"))
            os.replace(k + ".%d" % os.getpid(), k)
        return r
    return _extract1(args)


def _extract1(args):
    f, out, inc = args
    cmd = [EXTRACT, SRC, out, f, "--"] + FLAGS + [
        "-I" + os.path.join(SRC, "PROPOSAL"), "-I" + os.path.join(VERIF, "stubs"), "-I" + inc]
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd="/")
    if r.returncode or not os.path.exists(out):
        return f, None, ["extractor failed on %s: %s" % (f, r.stderr[-500:])]
    with open(out) as fh:
        d = json.load(fh)
    os.unlink(out)
    return f, d, d["errors"]


def orphan_headers():
    """public headers that no translation unit of the library includes (users include them directly)"""
    import re
    base = os.path.join(SRC, "PROPOSAL")

    def inc(p):
        return re.findall(r'^\s*#\s*include\s*[<"](PROPOSAL/[^">]+)[">]', open(p, errors="replace").read(), re.M)
    todo, seen = list(sources()), set()
    while todo:
        for i in inc(todo.pop()):
            q = os.path.join(base, i)
            if q not in seen and os.path.exists(q):
                seen.add(q)
                todo.append(q)
    allh = set(glob.glob(base + "/PROPOSAL/**/*.h", recursive=True))
    return [h[len(base) + 1:] for h in sorted(allh - seen)]


class DB:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []

    def add(self, unit, d):
        self.units.append(unit)
        for f in d["functions"]:
            o = self.functions.get(f["fn"])
            if o is None or ("body" not in o and "body" in f):
                self.functions[f["fn"]] = f
        for r in d["records"]:
            o = self.records.get(r["name"])
            if o is None:
                self.records[r["name"]] = r
            else:  # implicit members are declared lazily: unite the method lists
                have = {m["fn"] for m in o["methods"]}
                for m in r["methods"]:
                    if m["fn"] not in have:
                        o["methods"].append(m)
        for e in d["enums"]:
            self.enums.setdefault(e["name"], e)
        for g in d["globals"]:
            o = self.globals.get(g["name"])
            if o is None or ("init" not in o and "init" in g):
                self.globals[g["name"]] = g

    def finish(self):
        self.by_name = {}
        for f in self.functions.values():
            if not f.get("dep"):
                self.by_name.setdefault(f["fn"].split("(")[0], []).append(f)
        self.overriders = {}
        for f in self.functions.values():
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, []).append(f["fn"])
        self.derived = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.derived.setdefault(b, []).append(r["name"])

    # ---- queries
    def fn(self, qualified, npar=None, const=None, optional=False):
        """The unique definition with this qualified name."""
        c = self.by_name.get(qualified, [])
        c = [f for f in c if "body" in f or f.get("defaulted")]
        if npar is not None:
            c = [f for f in c if len(f["params"]) == npar]
        if const is not None:
            c = [f for f in c if bool(f.get("const")) == const]
        if len(c) != 1:
            if optional and not c:
                return None
            raise AnalysisBroken("anchor %s: %d definitions" % (qualified, len(c)))
        return c[0]

    def fns(self, qualified):
        return [f for f in self.by_name.get(qualified, []) if "body" in f or f.get("defaulted")]

    def record(self, name):
        r = self.records.get(name)
        if r is None:
            raise AnalysisBroken("anchor class %s not found" % name)
        return r

    def bases(self, name):
        """name and all its bases inside the tree, most derived first."""
        out, todo = [], [name]
        while todo:
            n = todo.pop(0)
            if n in self.records and n not in out:
                out.append(n)
                todo += self.records[n]["bases"]
        return out

    def all_derived(self, name):
        out, todo = [], [name]
        while todo:
            n = todo.pop(0)
            for d in self.derived.get(n, []):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def fields(self, name):
        out = []
        for b in reversed(self.bases(name)):
            for f in self.records[b]["fields"]:
                out.append(dict(f, owner=b))
        return out

    def resolve(self, fn, cls):
        """Final overrider of virtual method fn in dynamic class cls."""
        chain = self.bases(cls)
        cand = {fn}
        changed = True
        allov = {fn}
        # all transitive overriders
        todo = [fn]
        while todo:
            x = todo.pop()
            for o in self.overriders_of(x):
                if o not in allov:
                    allov.add(o)
                    todo.append(o)
        for b in chain:
            for m in self.records[b]["methods"]:
                if m["fn"] in allov:
                    return m["fn"], m
        return None, None

    def overriders_of(self, fn):
        if not hasattr(self, "_ov"):
            self._ov = {}
            for r in self.records.values():
                for m in r["methods"]:
                    for o in m.get("overrides", []):
                        self._ov.setdefault(o, []).append(m["fn"])
        return self._ov.get(fn, [])


_LOADED = None


def load(verbose=True):
    global _LOADED
    if _LOADED is not None:
        return _LOADED
    sys.setrecursionlimit(20000)
    t0 = time.time()
    build_extractor()
    dig = hashlib.sha256((tree_digest() + REPO).encode()).hexdigest()
    cache = os.path.join(TUCACHE or os.path.join(BUILD, "cache"), dig + ".pickle")
    if os.path.exists(cache) and not os.environ.get("SA_NOCACHE"):
        try:
            with open(cache, "rb") as f:
                db = pickle.load(f)
            db.finish()
            db.load_s = time.time() - t0
            _LOADED = db
            return db
        except Exception:
            pass
    db = DB()
    errors = []
    with tempfile.TemporaryDirectory(prefix="sa_") as tmp:
        _version_header(tmp)
        jobs = [(f, os.path.join(tmp, "%d.json" % i), tmp) for i, f in enumerate(sources())]
        orphans = orphan_headers()
        hu = os.path.join(tmp, "headers.cxx")

        def header_unit(hs):
            with open(hu, "w") as f:
                f.write("".join('#include "%s"\n' % h for h in hs))
            return _extract((hu, hu + ".json", tmp))
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            fut = ex.submit(header_unit, orphans) if orphans else None
            for f, d, e in ex.map(_extract, jobs):
                if e:
                    errors += e
                if d is not None:
                    db.add(os.path.relpath(f, REPO), d)
            if fut:
                f, d, e = fut.result()
                for h in orphans if e else ():      # one at a time; a header that cannot be parsed by itself is left out
                    f, d, e = header_unit([h])
                    if not e:
                        db.add("header " + h, d)
                if not e and d is not None:
                    db.add("headers included by no library source", d)
    if errors:
        raise AnalysisBroken("%d parse errors, first: %s" % (len(errors), errors[0]))
    if TUCACHE and REPO != "/repo":
        db.finish()
        db.load_s = time.time() - t0
        _LOADED = db
        return db
    os.makedirs(os.path.dirname(cache), exist_ok=True)
    if not TUCACHE:
        for old in glob.glob(os.path.join(BUILD, "cache", "*.pickle")):
            try:
                os.unlink(old)
            except OSError:
                pass
    tmpc = cache + ".%d" % os.getpid()
    with open(tmpc, "wb") as f:
        pickle.dump(db, f, protocol=4)
    os.replace(tmpc, cache)
    db.finish()
    db.load_s = time.time() - t0
    _LOADED = db
    return db


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path
