#!/usr/bin/env python3
"""Development aid: run checks on a mutated scratch copy of the sources.
mut.py PIDS FILE OLD NEW [FILE OLD NEW ...]   (FILE relative to src/PROPOSAL; OLD must occur; NEW replaces its first occurrence)
mut.py PIDS --patch FILE"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut_")
try:
    shutil.copytree("/repo/src", d + "/src")
    a = sys.argv[2:]
    if a[0] == "--patch":
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.abspath(a[1])], cwd="/")
    else:
        while a:
            p = d + "/src/PROPOSAL/" + a[0]
            s = open(p).read()
            if a[1] not in s:
                print("PATTERN NOT FOUND", a[0], a[1]); sys.exit(9)
            open(p, "w").write(s.replace(a[1], a[2], 1))
            a = a[3:]
    env = dict(os.environ, SA_REPO=d, SA_TUCACHE="/tmp/tucache", SA_EVIDENCE="/tmp/mut_evidence")
    rc = 0
    for p in pids:
        r = subprocess.run([sys.executable, V + "/sa/run.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("[%s] rc=%d" % (p, r.returncode))
        print("\n".join(x[:260] for x in r.stdout.splitlines()[-8:]))
finally:
    shutil.rmtree(d)
