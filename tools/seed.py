#!/usr/bin/env python3
"""seed.py make ID...   : writes seeded/ID from tools/seeds/ID.py (edits, demonstration, meta)
seed.py test ID...   : applies it in /repo, builds, runs the tests, the demonstration and the property's check, undoes it"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DFMT_SHARED -I/repo/src/PROPOSAL -I/repo/_build \\
    "$here/demo.cxx" -o "$w/demo" /repo/_build/libPROPOSAL.a -lspdlog -lfmt || exit 2
cd "$w" && ./demo
'''


def spec(i):
    d = {}
    exec(open(V + "/tools/seeds/%s.py" % i).read(), d)
    return d


def make(i):
    d = spec(i)
    out = V + "/seeded/" + i
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
    try:
        for f, a, b in d["edits"]:
            p = w + "/r/src/PROPOSAL/" + f
            s = open(p).read()
            assert s.count(a) >= 1, (f, a)
            if s.count(a) > 1 and not d.get("first"):
                print("warning: pattern occurs %d times, replacing the first" % s.count(a))
            open(p, "w").write(s.replace(a, b, 1))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO.replace("-lspdlog -lfmt", "-lspdlog -lfmt" + d.get("flags", "")))
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.cxx", "w").write(d["demo"].lstrip())
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def test(ids):
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    sh("bash", "/opt/vp/build.sh")
    base = {i: sh("bash", V + "/seeded/%s/demo.sh" % i, cwd="/repo") for i in ids}
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for i in ids:
        d = json.load(open(V + "/seeded/%s/meta.json" % i))
        r = [i, d["property"], "demo-clean=%d" % base[i].returncode]
        try:
            a = sh("git", "-C", "/repo", "apply", V + "/seeded/%s/patch.diff" % i)
            if a.returncode:
                r.append("APPLY FAILED")
            else:
                b = sh("bash", "/opt/vp/test.sh", "/tmp/seed_t.json")
                t = json.load(open("/tmp/seed_t.json"))
                miss = [x for x in stable if x not in t["passed"]]
                r.append("tests-missing=%d" % len(miss))
                if miss:
                    r.append(str(miss[:3]))
                if not t["passed"]:
                    print(b.stdout[-1500:])
                dm = sh("bash", V + "/seeded/%s/demo.sh" % i, cwd="/repo")
                r.append("demo-bug=%d" % dm.returncode)
                env = dict(os.environ, SA_EVIDENCE="/tmp/mut_evidence")
                c = sh(sys.executable, V + "/sa/run.py", d["property"], env=env)
                r.append("check=%d" % c.returncode)
                r.append(c.stdout.strip().splitlines()[0][:200] if c.stdout.strip() else "")
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        good = base[i].returncode == 0 and not miss and dm.returncode not in (0, 2)
        print("GOOD" if good else "BAD ", "CAUGHT" if c.returncode == 1 else "MISSED", *r)
        if not good:
            print(base[i].stdout[-600:], dm.stdout[-300:])
    sh("bash", "/opt/vp/build.sh")


if sys.argv[1] == "make":
    for i in sys.argv[2:]:
        make(i)
else:
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    test(ids)
