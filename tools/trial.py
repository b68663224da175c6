#!/usr/bin/env python3
"""Tries planted bugs (seeded/<id>) in scratch copies of /repo.

  trial.py [-p] [-j N] [-t SECONDS] ID...     -p: only validate (tests and demo), no check

For each: the patch applies, the tree builds, the stable tests pass, demo.sh
passes without and fails with the patch, and whether the property's check
reports it.  Not used by any check.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"


def tests(repo):
    p = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=repo, env=ENV, capture_output=True, text=True)
    ok = set()
    for l in p.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add(d["Package"] + "/" + d["Test"])
    return sorted(STABLE - ok)


def main():
    a = sys.argv[1:]
    only = "-p" in a
    props = None
    a = [x for x in a if x != "-p"]
    if a and a[0] == "-c":
        props = a[1].split(",")
        a = a[2:]
    for i in a or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        top = tempfile.mkdtemp(prefix="trial-")
        try:
            repo = os.path.join(top, "repo")
            shutil.copytree("/repo", repo, symlinks=True)
            demo = os.path.join(top, "demo")
            shutil.copytree(d, demo)
            c0, o0 = sh(["bash", os.path.join(demo, "demo.sh")], repo, timeout=300)
            c, o = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
            if c:
                print(i, "PATCH DOES NOT APPLY", o); continue
            c, o = sh(["go", "build", "./..."], repo)
            if c:
                print(i, "DOES NOT BUILD", o); continue
            miss = tests(repo)
            t1 = time.time()
            c1, o1 = sh(["bash", os.path.join(demo, "demo.sh")], repo, timeout=300)
            t1 = time.time() - t1
            valid = c0 == 0 and c1 != 0 and not miss
            msg = "valid (demo %.0fs)" % t1 if valid else "INVALID demo unchanged=%d patched=%d tests missing=%d %s" % (c0, c1, len(miss), miss[:3])
            if c0:
                msg += "\n" + o0[-1500:]
            if not valid and not c1:
                msg += "\n" + o1[-500:]
            res = ""
            if not only:
                for p in props or [meta["property"]]:
                    e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.path.join(top, "b"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", VERIF_OUT=top, VERIF_GOCACHE=os.path.join(HERE, ".build", "gocache"))
                    t = time.time()
                    c, o = sh(["python3", os.path.join(HERE, "check.py"), p], HERE, e)
                    what = [l for l in o.splitlines() if l.strip()][-2:]
                    res += "  %s: %s %.0fs %s" % (p, {0: "MISSED", 1: "caught"}.get(c, "NO ANSWER"), time.time() - t, (what[0] if c == 1 else o[-600:] if c != 0 else "")[:170])
            print(i, meta["property"], msg, res, flush=True)
        finally:
            shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()
