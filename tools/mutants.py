#!/usr/bin/env python3
"""Runs checks against small mechanical changes of /repo, in scratch copies.

  mutants.py FILE PROPS SECONDS [REGEX] [-j N] >> LOG

FILE: a source file of /repo; PROPS: C07,C10; REGEX: on the description.
Prints one line per change that builds and passes the stable tests.
Not used by any check; needs the mutate tool at /tmp/mutate.
"""
import concurrent.futures as cf
import os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from trial import *

a = sys.argv[1:]
jobs = 4
if "-j" in a:
    i = a.index("-j"); jobs = int(a[i + 1]); del a[i:i + 2]
FILE, PROPS, SECS = a[0], a[1].split(","), a[2]
RX = re.compile(a[3] if len(a) > 3 else "")


def one(line):
    k, pos, what = line.split("\t", 2)
    top = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = os.path.join(top, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        if subprocess.run(["/tmp/mutate", "/repo/" + FILE, k, os.path.join(repo, FILE)], capture_output=True).returncode:
            return
        c, o = sh(["go", "build", "./..."], repo)
        if c:
            return
        c, o = sh(["go", "test", "-failfast", "-vet=off", "-count=1", "-timeout", "60s", "./..."], repo)
        if c and tests(repo):
            return
        res = []
        for p in PROPS:
            e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.path.join(top, "b"), VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=top,
                     VERIF_GOCACHE=os.path.join(HERE, ".build", "gocache"), VERIF_SECONDS=SECS, VERIF_WORKERS="2")
            c, o = sh(["python3", os.path.join(HERE, "check.py"), p], HERE, e)
            w = [l for l in o.splitlines() if l.strip()][-2:]
            res.append("%s: %s" % (p, "quiet" if c == 0 else "caught (%s)" % w[0][:90] if c == 1 else "NO ANSWER " + o[-300:]))
            if c == 1:
                break
        print("%s #%s %s | %s | %s" % (FILE, k, pos.split(":", 1)[1], what, "; ".join(res)), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


ls = subprocess.run(["/tmp/mutate", "/repo/" + FILE], capture_output=True, text=True).stdout.splitlines()
with cf.ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, [l for l in ls if RX.search(l)]))
