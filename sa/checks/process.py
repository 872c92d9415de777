"""P29 (host process), P13 (determinism)."""
import re
from ir import AnalysisBroken, rel
from terms import *
from tree import *
from absint import Engine
from data import N

ENDS = set("""abort exit _exit _Exit quick_exit terminate std::abort std::exit std::_Exit std::quick_exit std::terminate std::unexpected raise std::raise kill killpg
 pthread_kill tgkill signal std::signal sigaction longjmp std::longjmp siglongjmp __builtin_trap __builtin_abort __builtin_unreachable __builtin_debugtrap __assert_fail __assert err errx verr
 verrx error pthread_exit thrd_exit alarm ualarm setitimer execve execv execvp execl execlp execle fork vfork atexit std::atexit at_quick_exit std::at_quick_exit std::set_terminate
 std::set_unexpected set_terminate reboot syscall""".split())
PRINTS = set("""printf vprintf puts putchar fputs fputc putc fprintf vfprintf fwrite write perror std::printf std::vprintf std::puts std::putchar std::fputs std::fputc std::putc
 std::fprintf std::vfprintf std::fwrite std::perror dprintf vdprintf psignal putchar_unlocked puts_unlocked system std::system popen freopen std::freopen fdopen std::print std::println
 fmt::print fmt::println fmt::v9::print fmt::v9::vprint fmt::v10::print open creat pwrite dup dup2 std::fopen fopen warn warnx vwarn vwarnx""".split())
STREAMS = set("std::cout std::cerr std::clog std::wcout std::wcerr std::wclog stdout stderr ::stdout ::stderr".split())
ENTROPY = set("""time std::time clock std::clock clock_gettime gettimeofday timespec_get std::timespec_get getpid getppid gettid pthread_self rand std::rand srand std::srand random srandom
 rand_r drand48 lrand48 mrand48 erand48 srand48 arc4random arc4random_uniform getrandom getentropy getenv std::getenv secure_getenv gethostname gethostid times getrusage sysconf tmpnam std::tmpnam
 mkstemp mktemp uname sched_getcpu __builtin_readcyclecounter __builtin_ia32_rdtsc __rdtsc _rdrand32_step _rdrand64_step __builtin_frame_address __builtin_return_address
 std::random_shuffle localtime gmtime std::localtime std::gmtime mktime ctime std::ctime dladdr backtrace""".split())
ENT_RE = re.compile(r"^std::(chrono::.*::now|random_device\b|this_thread::|thread::(get_id|hardware_concurrency|thread)|async\b|hash<(?!std::basic_string|std::string)[^>]*\*>::|filesystem::)"
                    r"|^std::chrono::.*clock|^std::__detail::.*now|random_device")
ENGINE = re.compile(r"mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|independent_bits_engine|shuffle_order_engine|std::mt19937|minstd_rand|"
                    r"ranlux|knuth_b|default_random_engine|std::random_device")
DIST = re.compile(r"std::\w+_distribution")


def qual(fn):
    """qualified name without template arguments and parameters"""
    out, d = [], 0
    i = 0
    fn = fn.replace("(anonymous namespace)", "@anon").replace("operator<<", "operator@ll").replace("operator<", "operator@l").replace("operator>>", "operator@gg").replace("operator->", "operator@ar").replace("operator>", "operator@g").replace("operator()", "operator@call")
    for ch in fn:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            if ch == "(":
                break
            out.append(ch)
    q = "".join(out).strip()
    return q.lstrip(":")


def sources(db):
    """(name, file, tree root) of everything that is executed: function bodies and global initialisers"""
    for fn, f in sorted(db.functions.items()):
        yield fn, f, list(fnodes(f))
    for g, v in sorted(db.globals.items()):
        if v.get("init"):
            yield g, v, list(nodes(v["init"]))


def guarded(n, anc):
    """inside the protected part of a try block that catches everything of std::exception or everything"""
    for i, a in enumerate(anc):
        if a["k"] == "Lambda":
            pass
        if a["k"] == "Try":
            nxt = anc[i + 1] if i + 1 < len(anc) else n
            hs = a.get("handlers", [])
            if any(nxt is h for h in hs):
                continue
            if all(rethrows(h) for h in hs):
                continue
            return True
    return False


def rethrows(h):
    return any(x["k"] == "Throw" and not x.get("c") for x, _ in nodes(h))


def short(fn):
    return fn.split("(")[0].replace("PROPOSAL::", "")


def derives_exception(db, t):
    t = t.replace("const ", "").strip(" &")
    t = t.replace("class ", "").replace("struct ", "")
    if t in ("std::exception", "std::logic_error", "std::invalid_argument", "std::domain_error", "std::length_error", "std::out_of_range", "std::runtime_error", "std::range_error",
             "std::overflow_error", "std::underflow_error", "std::bad_alloc", "std::bad_cast", "std::bad_function_call", "std::system_error", "std::ios_base::failure",
             "std::bad_variant_access", "std::bad_optional_access", "std::bad_weak_ptr", "std::regex_error", "std::future_error"):
        return True
    if t.startswith("nlohmann::"):
        return True
    names = [t, N + t]
    for x in names:
        if x in db.records:
            return any(derives_exception(db, b) for b in raw_bases(db, x))
    return False


def raw_bases(db, cls):
    r = db.records[cls]
    out = []
    for b in r.get("bases", []):
        out.append(b if isinstance(b, str) else b.get("t") or b.get("n") or b.get("q") or "")
    return out


def p29(db, c):
    G = Graph(db)
    nfun = ncalls = 0
    for name, f, ns in sources(db):
        nfun += 1
        c.saw("functions and initialisers", name)
        if rel(f["file"]).startswith("/"):
            continue
        for n, anc in ns:
            w = (rel(f["file"]), n.get("l") or f.get("line"))
            k = n["k"]
            cal = callee_of(n)
            if cal and not cal.get("repo"):
                ncalls += 1
                q = qual(cal.get("fn", ""))
                bad = q in ENDS or cal.get("noreturn") and not q.startswith(("std::__throw", "nlohmann", "std::rethrow"))
                c.ob("%s ends the process by calling %s" % (short(name), q), not bad, w, "no function of the library may end the host process") if bad else None
                pr = q in PRINTS or q.startswith(("fmt::", "std::")) and q.split("::")[-1] in ("print", "println", "vprint")
                c.ob("%s writes past the logger with %s" % (short(name), q), not pr, w, "output goes to the configurable logger only") if pr else None
                lg = re.match(r"spdlog::(trace|debug|info|warn|error|critical|log|default_logger\w*|set_default_logger|stdout_\w+|stderr_\w+|get|shutdown|drop\w*|set_level|set_pattern)$", q) \
                    and "Logging" not in name
                c.ob("%s uses the process-wide logger with %s" % (short(name), q), not lg, w, "the library logs through PROPOSAL::Logging only") if lg else None
            elif k == "Call" and not cal:
                pass
            if k in ("Ref", "Member") and n.get("dk") not in ("CXXMethod",):
                q = (n.get("q") or n.get("n") or "").lstrip(":")
                b = q in STREAMS and n.get("id") not in local_ids(ns)
                c.ob("%s uses the stream %s" % (short(name), q), not b, w, "no output to the streams of the host process") if b else None
                # function pointers: &std::abort, std::terminate as handler
                if n.get("dk") == "Function" and not anc_call(anc, n):
                    b = q in ENDS or q in PRINTS
                    c.ob("%s refers to %s" % (short(name), q), not b, w, "") if b else None
            if k == "Throw":
                ops = n.get("c") or []
                if ops:
                    t = ops[0].get("t", "")
                    c.ob("%s throws %s" % (short(name), t), derives_exception(db, t), w, "thrown objects derive from std::exception")
                else:
                    inc = any(a["k"] == "Catch" for a in anc)
                    c.ob("%s rethrows with an active exception" % short(name), inc, w, "a rethrow outside a handler terminates the process")
            if k in ("Asm", "GCCAsm"):
                c.ob("%s contains assembler" % short(name), False, w, "")
        c.ob("%s neither ends the process nor prints" % short(name), True, (rel(f["file"]), f.get("line", 0)))
    # exceptions never leave noexcept functions and destructors
    may = {}
    for fn, f in db.functions.items():
        for n, anc in fnodes(f):
            if n["k"] == "Throw" and not guarded(n, anc) and not any(a["k"] == "Lambda" for a in anc):
                may[fn] = [fwhere(f, n)]
                break
    ch = True
    while ch:
        ch = False
        for fn, f in db.functions.items():
            if fn in may or f.get("noexcept"):
                continue
            for t, n, anc in G.calls(fn):
                if t in may and not guarded(n, anc) and not db.functions[t].get("noexcept") and not any(a["k"] == "Lambda" for a in anc):
                    may[fn] = [t] + may[t]
                    ch = True
                    break
    for fn, f in sorted(db.functions.items()):
        if not (f.get("noexcept") or "~" in f["name"]):
            continue
        c.saw("functions that must not throw", fn)
        p = None
        for n, anc in fnodes(f):
            if n["k"] == "Throw" and not guarded(n, anc):
                p = ["throw at line %s" % n.get("l")]
        for t, n, anc in G.calls(fn):
            if t in may and not guarded(n, anc) and not db.functions[t].get("noexcept"):
                p = [short(x) if isinstance(x, str) else str(x) for x in [t] + may[t]]
        c.ob("no exception leaves %s" % short(fn), p is None, fwhere(f), "an exception leaving a noexcept function or destructor terminates the process: %s" % " -> ".join(p or []))
    c.need("functions", nfun, 900)
    c.notes.append("%d calls to library functions outside the repository inspected" % ncalls)


def local_ids(ns):
    return {n.get("id") for n, _ in ns if n["k"] == "Var"}


def anc_call(anc, n):
    a = anc[-1] if anc else None
    while a is not None and a["k"] == "Cast":
        anc = anc[:-1]
        a = anc[-1] if anc else None
    return a is not None and a["k"] in ("Call",)


# ------------------------------------------------------------------------------------------------------------ P13
def p13(db, c):
    G = Graph(db)
    rg = N + "RandomGenerator"
    allowed_static = {rg + "::rng_", rg + "::uniform_distribution"}
    resets = {"SetSeed", "Deserialize", "SetRandomNumberGenerator", "SetDefaultRandomNumberGenerator", "SetI3RandomNumberGenerator"}
    draws = set()
    for fn in db.functions:
        if qual(fn) in (rg + "::RandomDouble", rg + "::DefaultRandomDouble"):
            draws.add(fn)
    # functions that may draw a number
    drawing = set(draws)
    ch = True
    while ch:
        ch = False
        for fn in db.functions:
            if fn not in drawing and any(t in drawing and n["k"] != "Ref" and not any(x["k"] == "Lambda" for x in a) for t, n, a in G.calls(fn)):
                drawing.add(fn)
                ch = True
    nf = 0
    for name, f, ns in sources(db):
        nf += 1
        c.saw("functions and initialisers", name)
        inrg = qual(name).startswith(rg + "::")
        for n, anc in ns:
            w = (rel(f["file"]), n.get("l") or f.get("line"))
            k = n["k"]
            cal = callee_of(n)
            if cal:
                q = qual(cal.get("fn", ""))
                full = cal.get("fn", "")
                b = not cal.get("repo") and (q in ENTROPY or ENT_RE.search(full) or q.split("::")[-1] == "now" and "chrono" in full)
                if b:
                    c.ob("%s draws on %s" % (short(name), q), False, w, "results may depend on arguments and the library-wide random stream only")
                # the library never reseeds or replaces its own stream
                last = q.split("::")[-1]
                if cal.get("repo") and q.startswith(rg + "::"):
                    if last in resets:
                        c.ob("%s changes the random stream through %s" % (short(name), last), inrg, w, "only the user reseeds or replaces the library's random numbers")
                    if last == "RandomGenerator" and k == "Construct":
                        c.ob("%s creates a second generator" % short(name), qual(name) == rg + "::Get", w, "")
                # two draws inside the arguments of one call: the order is unspecified
                if k in ("Call", "MCall", "OpCall", "Construct") and not n.get("list"):
                    ops = (n.get("c") or [])
                    k_ops = [o for o in ops if drawn(o, drawing, G)]
                    if len(k_ops) > 1 and cal.get("name") not in ("operator<<", "operator>>", "operator=", "operator&&", "operator||", "operator,"):
                        c.ob("%s draws several random numbers in the arguments of %s" % (short(name), last), False, w, "the order of evaluation, hence the result, is unspecified")
            if k == "Bin" and n.get("op") in ("+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "%"):
                if all(drawn(o, drawing, G) for o in n["c"]):
                    commut = n["op"] in ("+", "*", "==", "!=")
                    same = same_shape(n["c"][0], n["c"][1])
                    c.ob("%s draws random numbers on both sides of '%s'" % (short(name), n["op"]), commut and same, w, "the order of evaluation, hence the result, is unspecified")
            if k == "Var" and n.get("static") and n.get("init") and drawn(n["init"], drawing, G):
                c.ob("%s keeps a drawn number in the static variable %s" % (short(name), n["n"]), False, w, "the number survives a reseed or a restored generator state")
            # engines and distributions
            if k == "Var" and ENGINE.search(n.get("t", "")) and not n["t"].rstrip().endswith(("&", "*")):
                c.saw("local random engines", "%s:%s" % w)
                dev = "random_device" in n["t"]
                static = n.get("static")
                ini = n.get("init")
                args = engine_args(ini)
                c.ob("%s: the local engine is a function of its arguments" % short(name), not dev and not static and (bool(args) or inrg), w,
                     "a private random engine has to be created per call and be seeded from values that derive from arguments or the library's stream")
            if k == "Var" and n.get("static") and DIST.search(n.get("t", "")):
                b = re.search(r"std::uniform_(real|int)_distribution", n["t"])
                c.ob("%s keeps a stateless distribution" % short(name), bool(b), w, "a static distribution with memory carries state over a reseed")
            if k == "New" and ENGINE.search(n.get("t", "")):
                c.ob("%s creates an engine on the heap" % short(name), False, w, "")
            if k == "Cast" and n.get("ck") == "PointerToIntegral":
                c.ob("%s uses an address as a number" % short(name), False, w, "addresses differ from run to run")
            if k in ("Var", "Construct") and re.search(r"std::(map|set|unordered_map|unordered_set|multimap|multiset|hash|less)<[^,<>]*\*", n.get("t", "")):
                c.ob("%s orders or hashes by address" % short(name), False, w, "addresses differ from run to run")
            # direct use of the engine past RandomDouble
            if k in ("Ref", "Member") and (n.get("q") or "").startswith(rg + "::") and (n.get("q") in allowed_static) and not inrg:
                c.ob("%s uses the engine of the library past the generator" % short(name), False, w,
                     "all random numbers come from RandomGenerator::RandomDouble, so that a replaced generator is the only source")
        c.ob("%s is free of hidden entropy" % short(name), True, (rel(f["file"]), f.get("line", 0)))
    for g, v in sorted(db.globals.items()):
        t = v.get("t", "")
        if ENGINE.search(t):
            ok = g.split("@")[0] in allowed_static and "random_device" not in t
            c.ob("global random engine %s" % g, ok, (rel(v["file"]), v["line"]), "the only random engine is RandomGenerator::rng_")
            ini = v.get("init")
            c.ob("global random engine %s starts from a fixed seed" % g, not ini or all(x["k"] in ("Construct", "Int", "Cast", "InitList") for x, _ in nodes(ini)), (rel(v["file"]), v["line"]), "")
    for cls, r in sorted(db.records.items()):
        for fl in db.fields(cls):
            t = fl.get("t", "")
            if ENGINE.search(t):
                c.ob("%s::%s is an engine" % (cls, fl["n"]), False, "", "the only random engine is RandomGenerator::rng_")
            if re.search(r"std::(map|set|unordered_map|unordered_set|multimap|multiset)<[^,<>]*\*", t):
                c.ob("%s::%s orders or hashes by address" % (cls, fl["n"]), False, "", "addresses differ from run to run")
    # what the generator itself does
    generator(db, c, rg)
    c.need("functions", nf, 900)
    c.need("functions drawing random numbers", len(drawing), 10)


def engine_args(ini):
    """the seed expressions of an engine initialiser"""
    if not ini:
        return []
    x = ini
    while x["k"] in ("Cast", "Paren") and x.get("c"):
        x = x["c"][0]
    return [a for a in (x.get("c") or []) if a["k"] != "Default"]


def drawn(n, drawing, G):
    for x, anc in nodes(n):
        cal = callee_of(x)
        if any(a["k"] == "Lambda" for a in anc) or x["k"] == "Lambda":
            continue
        if x["k"] != "Ref" and cal and any(t in drawing for t in G.targets(cal, x)):
            return True
        if x["k"] == "OpCall" and x.get("op") == "()" and "std::function<double ()>" in ((x.get("c") or [{}])[0].get("t") or ""):
            return True
    return False


def same_shape(a, b):
    def s(x):
        if isinstance(x, dict):
            return tuple(sorted((k, s(v)) for k, v in x.items() if k not in ("l", "id")))
        if isinstance(x, list):
            return tuple(s(v) for v in x)
        return x
    return s(a) == s(b)


def generator(db, c, rg):
    """what the functions of the generator do to its state, on every path"""
    RNG = ("g", rg + "::rng_")
    UNI = ("g", rg + "::uniform_distribution")
    THIS = ("o", mk("this"))

    def run(name):
        fs = [fn for fn in db.functions if qual(fn) == rg + "::" + name and not db.functions[fn].get("implicit")
              and not (name == "RandomGenerator" and db.functions[fn]["params"])]
        if len(fs) != 1:
            raise AnalysisBroken("RandomGenerator::%s not found" % name)
        f = db.functions[fs[0]]
        e = Engine(db, inline=lambda x: qual(x["fn"]).startswith(rg + "::"))
        return f, e, e.run(f)

    def plain(t):
        while isinstance(t, T) and t.op in ("cast", "conv") and t.a:
            t = t.a[-1]
        return t

    def state(st, cell):
        return st.store.get(cell)

    def others(st, allowed):
        """state outside the frame that the path wrote, apart from the allowed cells"""
        out = []
        for ev in st.ev:
            if ev[0] == "write" and ev[1][0][0] in ("g", "o") and ev[1][0] not in allowed:
                out.append(str(ev[1]))
        return out

    def ob(name, f, ok, detail):
        c.ob("RandomGenerator::%s" % name, ok, (rel(f["file"]), f["line"]), detail)

    def seed():
        f, e, outs = run("SetSeed")
        p = mk("sym", f["params"][0]["n"])
        for o in outs:
            v = state(o.st, RNG)
            ok = False
            if o.kind == "return" and v is not None:
                if v.op == "mut" and str(v.a[0]).endswith("::seed"):
                    ok = len(v.a) == 3 and plain(v.a[2]) == p
                elif v.op == "construct":
                    ok = len(v.a) == 2 and plain(v.a[1]) == p
            ob("SetSeed seeds the engine with the given number", f, ok, "engine after the call: %s" % (v,))
            ob("SetSeed touches the engine only", f, not others(o.st, {RNG, UNI}), "writes %s" % others(o.st, {RNG, UNI}))

    def ser():
        f, e, outs = run("Serialize")
        for o in outs:
            w = [plain(x[2]) for x in o.st.ev if x[0] == "out"]
            ok = o.kind == "return" and len(w) == 1 and str(w[0]) == "RandomGenerator::rng_"
            ob("Serialize writes the engine", f, ok, "writes %s" % (w,))
            ob("Serialize leaves the generator as it is", f, RNG not in o.st.store and THIS not in o.st.store, "")

    def deser():
        f, e, outs = run("Deserialize")
        for o in outs:
            v = state(o.st, RNG)
            n = [x for x in o.st.ev if x[0] == "in"]
            ob("Deserialize restores the engine", f, o.kind == "return" and v is not None and v.op == "streamed" and len(n) == 1, "engine after the call: %s, %d values read" % (v, len(n)))

    def setf():
        f, e, outs = run("SetRandomNumberGenerator")
        p = mk("sym", f["params"][0]["n"])
        for o in outs:
            v = e.load(o.st, (THIS, ("random_function",)))
            ob("SetRandomNumberGenerator installs the given generator", f, o.kind == "return" and plain(v) == p, "installed: %s" % (v,))
            ob("SetRandomNumberGenerator leaves the engine as it is", f, RNG not in o.st.store, "")

    def default(name):
        f, e, outs = run(name)
        for o in outs:
            v = plain(e.load(o.st, (THIS, ("random_function",))))
            if v.op == "lambda" or v.op == "closure":
                raise AnalysisBroken("default generator is a closure")
            ok = o.kind == "return" and v.op == "fnptr" and qual(str(v.a[0])) == rg + "::DefaultRandomDouble"
            ob("%s installs the library's engine" % name, f, ok, "installed: %s" % (v,))
            ob("%s leaves the engine as it is" % name, f, RNG not in o.st.store, "engine after the call: %s" % (state(o.st, RNG),))

    def draw():
        f, e, outs = run("RandomDouble")
        for o in outs:
            calls = [x for x in o.st.ev if x[0] == "callv"]
            v = plain(o.value)
            ok = o.kind == "return" and len(calls) == 1 and str(calls[0][1]) == "this.random_function" and str(v) == "callv(this.random_function)"
            ob("RandomDouble returns one number of the installed generator", f, ok, "returns %s after %d draws" % (v, len(calls)))
            ob("RandomDouble writes nothing", f, not others(o.st, ()), "writes %s" % others(o.st, ()))
        f, e, outs = run("DefaultRandomDouble")
        for o in outs:
            calls = [x for x in o.st.ev if x[0] == "callv"]
            ok = o.kind == "return" and len(calls) == 1 and "uniform" in str(calls[0][1]) and [str(x) for x in calls[0][2]] == ["RandomGenerator::rng_"] \
                and getattr(o.value, "op", "") in ("fresh", "callv")
            ob("DefaultRandomDouble returns one number of the engine", f, ok, "returns %s after %d draws" % (o.value, len(calls)))

    c.part("SetSeed", seed)
    c.part("Serialize", ser)
    c.part("Deserialize", deser)
    c.part("SetRandomNumberGenerator", setf)
    c.part("SetDefaultRandomNumberGenerator", default, "SetDefaultRandomNumberGenerator")
    c.part("constructor", default, "RandomGenerator")
    c.part("draws", draw)


CHECKS = {
    "P29": ("Effect query over the whole program: no function or initialiser calls a process-ending or printing library function, refers to a standard stream or the process-wide logger; every thrown "
            "object derives from std::exception; no exception reaches the boundary of a noexcept function or destructor through the call graph (virtual calls reach all overriders).", p29),
    "P13": ("Source query over the whole program for entropy other than RandomGenerator, reseeding from inside the library, private engines not seeded from arguments, address-dependent order, draws in "
            "unsequenced positions; dataflow over the generator's own functions.", p13),
}
