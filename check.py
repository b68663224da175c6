#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py C01            search (VERIF_SEED, VERIF_TIER), exit 0 or 1
  check.py replay FILE    run a replay file again, exit 1 if it still fails
  check.py setup          build everything once
"""
import concurrent.futures as cf
import json, os, random, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
sys.dont_write_bytecode = True
import build as B

SITES = os.path.join(B.BUILD, "sites.json")
FIX = os.path.join(B.REPO, "testdata", "test-pages")
OUT = os.environ.get("VERIF_OUT", HERE)
REPLAYS = os.path.join(OUT, "replays")
EVID = os.path.join(OUT, "evidence")
LIB = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12"]
CLI = ["C08", "C09", "C13"]
QUICK = {p: 85 for p in LIB + CLI}
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
STACK = "the standard library (replaced: random source, wall clock, select order, the devices behind stdout and stderr)"

LEVEL = "exploration"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def worker_env(extra=None):
    e = {"PATH": os.environ.get("PATH", ""), "GOMAXPROCS": "1", "GOGC": "off", "GOMEMLIMIT": "3GiB",
         "GORACE": "atexit_sleep_ms=0 halt_on_error=0", "GOTRACEBACK": "single"}
    e.update(extra or {})
    return e


def batch_env(prop, seed, batch):
    """The part of a process's surroundings that must not matter."""
    r = random.Random("%s/%d/%d" % (prop, seed, batch))
    e = {"VERIF_BOOT": "%d" % r.randrange(1, 10**9)}
    if r.random() < 0.5:
        e["TZ"] = r.choice(["UTC", "America/New_York", "Asia/Kolkata", ":bogus"])
    if r.random() < 0.5:
        e["LANG"] = r.choice(["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.SJIS"])
    if r.random() < 0.3:
        e["HOME"] = "/nonexistent"
    if r.random() < 0.3:
        e["DEBUG"] = "1"
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_mem():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def call(cmd, env, timeout, cwd, mem=True):
    """-> (code, stdout, stderr); code None on timeout."""
    env = dict(env)
    env.setdefault("TMPDIR", cwd)
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits_mem if mem else limits, start_new_session=True)
    with LOCK:
        PROCS.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    finally:
        with LOCK:
            PROCS.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


LOCK = threading.Lock()
PROCS = set()


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                if rest.startswith("match="):
                    m, _, d = rest[6:].partition(" :: ")
                    out.append((m, d))
    except OSError:
        pass
    return out


class Search:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.secs = float(os.environ.get("VERIF_SECONDS") or (QUICK[prop] if tier == "quick" else 780))
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        self.next = 0
        self.stop = False
        self.found = None
        self.stats = []
        self.skipped = 0
        self.unrepro = []
        self.known = {}
        self.batches = 0

    def rel(self):
        return time.time() - self.t1

    def left(self):
        return self.secs - self.rel()

    # ---- library simulator -------------------------------------------------

    def binary(self, b):
        if self.prop == "C01" and b % 2 == 1:
            return self.race
        return self.lib

    def nworlds(self, b):
        if self.binary(b) == getattr(self, "race", None):
            return [10, 30][b // 2 % 2]
        if self.prop == "C12":
            return 12
        return [10, 30, 60, 20, 10, 200, 40, 100][b % 8]

    def lib_batch(self, b):
        exe = self.binary(b)
        out = os.path.join(self.tmp, "b%d" % b)
        env = worker_env(batch_env(self.prop, self.seed, b))
        n = self.nworlds(b)
        common = ["-prop", self.prop, "-seed", str(self.seed), "-batch", str(b), "-sites", SITES, "-fixtures", FIX, "-ref", self.lib]
        cmd = [exe, "run", "-worlds", str(n), "-out", out, "-progress", out + ".p", "-stop", "%ds" % max(1, int(self.left()))] + common
        code, so, se = call(cmd, env, max(60, self.left() + 60), self.tmp, exe == self.lib)
        if self.stop:
            return
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            d = None
        if code == 0 and d:
            self.keep(d["stats"])
            return
        if code == 3 and d and d["violation"]:
            self.keep(d["stats"])
            self.candidate(b, out + ".batch", d["violation"]["kind"], d["violation"]["what"], exe, env, se)
            return
        # the process died or was stuck: which world was it in?
        try:
            w = int(open(out + ".p").read())
        except (OSError, ValueError):
            raise RuntimeError("simulator did not start: exit %s\n%s" % (code, se[-2000:]))
        code2, _, se2 = call([exe, "gen", "-worlds", str(w + 1), "-out", out + ".batch"] + common, env, 60, self.tmp)
        if self.stop:
            return
        if code2 != 0:
            raise RuntimeError("cannot regenerate batch %d: %s" % (b, se2[-2000:]))
        kind = "stuck" if code is None else "fatal"
        self.candidate(b, out + ".batch", kind, ("no end within the time limit" if code is None else fatal_text(se)), exe, env, se)

    def replay_lib(self, f, exe, env, timeout=150):
        code, so, se = call([exe, "replay", "-sites", SITES, "-ref", self.lib, f], env, timeout, self.tmp, exe == self.lib)
        if code is None:
            return "stuck", "no end within the time limit", se
        if code == 0:
            return "", "", se
        if code == 3:
            v = json.loads(so.strip().splitlines()[-1])
            return v["kind"], v["what"], se
        if code == 4 and not self.stop:
            raise RuntimeError("replay failed: " + se[-500:])
        return "fatal", fatal_text(se), se

    def candidate(self, b, f, kind, what, exe, env, se):
        with LOCK:
            if self.stop:
                return
            for m, d in known_findings(self.prop):
                if m in what:
                    self.known[d] = self.known.get(d, 0) + 1
                    return
            self.confirming = getattr(self, "confirming", 0) + 1
        # does it happen again?
        for attempt in range(3):
            k2, w2, se2 = self.replay_lib(f, exe, env)
            if k2 == kind:
                break
        else:
            if self.stop:
                return
            self.unrepro.append("batch %d: %s: %s" % (b, kind, what))
            return
        if kind in ("fatal", "stuck") and self.prop != "C07":
            code, _, _ = call([self.lib, "alone", "-ref", self.lib, f], env, 600, self.tmp)
            if self.stop:
                return
            if code != 0:
                self.skipped += 1
                return
        with LOCK:
            if self.stop:
                return
            self.stop = True
        for p in list(PROCS):
            kill(p)
        self.found = (b, f, kind, what, exe, env, se2 or se)

    def report_lib(self):
        b, f, kind, what, exe, env, se = self.found
        os.makedirs(REPLAYS, exist_ok=True)
        final = os.path.join(REPLAYS, "%s-seed%d-batch%d.json" % (self.prop, self.seed, b))
        small = f + ".small"
        if kind != "stuck":
            secs = 25 if self.tier == "quick" else 120
            code, so, _ = call([exe, "shrink", "-limit", "%ds" % secs, "-sites", SITES, "-ref", self.lib, f, small], env, secs + 120, self.tmp, exe == self.lib)
            if code == 0 and os.path.exists(small):
                k2, w2, se2 = self.replay_lib(small, exe, env)
                if k2 == kind:
                    f, what, se = small, w2, se2 or se
        d = json.load(open(f))
        d["how"] = {"kind": kind, "what": what, "binary": os.path.basename(exe), "env": {k: v for k, v in env.items() if k not in ("PATH",)},
                    "replay": "python3 /verif/check.py replay " + final}
        if kind == "race":
            d["how"]["report"] = se[:6000].splitlines()
        json.dump(d, open(final, "w"), indent=1)
        return final, kind, what

    # ---- command line simulator ---------------------------------------------

    def cli_batch(self, b):
        out = os.path.join(self.tmp, "b%d" % b)
        n = 40
        cmd = [self.cli, "-prop", self.prop, "-seed", str(self.seed), "-from", str(b * n), "-n", str(n), "-fixtures", FIX, "-out", out]
        env = worker_env({"VERIF_CLI": "batch", "TMPDIR": self.tmp})
        env["GOGC"] = "100"
        code, so, se = call(cmd, env, 600, self.tmp)
        if self.stop:
            return
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            raise RuntimeError("command line simulator: exit %s\n%s" % (code, se[-2000:]))
        self.keep(d["stats"])
        if code == 0:
            return
        if code != 3:
            raise RuntimeError("command line simulator: exit %s\n%s" % (code, se[-2000:]))
        v = d["violation"]
        for m, desc in known_findings(self.prop):
            if m in v["what"]:
                self.known[desc] = self.known.get(desc, 0) + 1
                return
        for attempt in range(3):
            k2, w2 = self.replay_cli(out + ".scn")
            if k2 == v["kind"]:
                break
        else:
            if self.stop:
                return
            self.unrepro.append("batch %d: %s: %s" % (b, v["kind"], v["what"]))
            return
        with LOCK:
            if self.stop:
                return
            self.stop = True
        self.found = (b, out + ".scn", v["kind"], v["what"], self.cli, env, "")
        for p in list(PROCS):
            kill(p)

    def replay_cli(self, f):
        env = worker_env({"VERIF_CLI": "replay", "TMPDIR": self.tmp})
        env["GOGC"] = "100"
        code, so, se = call([self.cli, f], env, 300, self.tmp)
        if code == 0:
            return "", ""
        if code == 3:
            v = json.loads(so.strip().splitlines()[-1])
            return v["kind"], v["what"]
        if self.stop:
            return "", ""  # ended because another batch had a result
        raise RuntimeError("replay failed: exit %s %s" % (code, se[-500:]))

    def report_cli(self):
        b, f, kind, what, exe, env, se = self.found
        os.makedirs(REPLAYS, exist_ok=True)
        final = os.path.join(REPLAYS, "%s-seed%d-batch%d.json" % (self.prop, self.seed, b))
        small = f + ".small"
        secs = 25 if self.tier == "quick" else 120
        e = dict(env, VERIF_CLI="shrink")
        code, so, _ = call([exe, "-limit", "%ds" % secs, f, small], e, secs + 200, self.tmp)
        if code == 0 and os.path.exists(small):
            k2, w2 = self.replay_cli(small)
            if k2 == kind:
                f, what = small, w2
        d = json.load(open(f))
        d["how"] = {"kind": kind, "what": what, "binary": "sim-cli", "replay": "python3 /verif/check.py replay " + final}
        json.dump(d, open(final, "w"), indent=1)
        return final, kind, what

    # ---- the search ----------------------------------------------------------

    def keep(self, st):
        with LOCK:
            self.stats.append(st)
            self.batches += 1

    def loop(self):
        while not self.stop and self.left() > 0.5:
            with LOCK:
                b = self.next
                self.next += 1
            (self.cli_batch if self.prop in CLI else self.lib_batch)(b)

    def determinism(self):
        """One batch, twice, in fresh processes: the logs must be identical."""
        if self.prop in CLI:
            cmd = [self.cli, "-prop", self.prop, "-seed", str(self.seed), "-from", "0", "-n", "12", "-fixtures", FIX, "-dump", "-out", os.path.join(self.tmp, "det")]
            env = worker_env({"VERIF_CLI": "batch", "TMPDIR": self.tmp})
            env["GOGC"] = "100"
        else:
            cmd = [self.lib, "run", "-prop", self.prop, "-seed", str(self.seed), "-batch", "0", "-worlds", "10", "-sites", SITES, "-fixtures", FIX, "-ref", self.lib, "-dump"]
            env = worker_env()
        a = call(cmd, env, 120, self.tmp)[:2]
        b = call(cmd, env, 120, self.tmp)[:2]
        return {"runs_compared": a[1].count("\n"), "identical": a == b}

    def run(self):
        try:
            if self.prop in CLI:
                self.cli = B.build("cli")
            else:
                self.lib = B.build("lib")
                if self.prop == "C01":
                    self.race = B.build("race")
        except B.BuildError as e:
            log("build failed:\n" + str(e))
            return 2
        self.t1 = time.time()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            fs = [ex.submit(self.loop) for _ in range(WORKERS)]
            for f in fs:
                f.result()
        searched = self.rel()
        final = None
        if self.found:
            final, kind, what = (self.report_cli if self.prop in CLI else self.report_lib)()
        det = None if self.found else self.determinism()
        self.evidence(searched, det)
        for d, n in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        for u in self.unrepro:
            log("not reproduced: " + u)
        if self.found:
            print("%s: %s" % (kind, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, final), flush=True)
            return 1
        if self.unrepro:
            log("a deviation could not be reproduced: the simulator does not control something")
            return 2
        print("property %s held in %d batches (%.0f s)" % (self.prop, self.batches, searched))
        return 0

    def evidence(self, searched, det):
        os.makedirs(EVID, exist_ok=True)
        c = {}
        tot = {}
        faults, kinds = {}, {}
        hashes, traces, sites, swsites = set(), set(), set(), set()
        samples = []
        for s in self.stats:
            for k, v in s.items():
                if isinstance(v, (int, float)):
                    tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
            for k, v in (s.get("faults") or {}).items():
                faults[k] = faults.get(k, 0) + v
            for k, v in (s.get("kinds") or {}).items():
                kinds[k] = kinds.get(k, 0) + v
            hashes.update(s.get("interleavings") or s.get("hashes") or [])
            traces.update(s.get("traces") or [])
            sites.update(s.get("sites") or [])
            swsites.update(s.get("switch_sites") or [])
            if len(samples) < 4:
                samples += s.get("samples") or []
        hour = 3600 / max(searched, 1e-9)
        if self.prop in CLI:
            c["evaluations"] = tot.get("runs", 0)
            c["distinct_nontrivial"] = len(hashes)
            c["rule"] = ("one evaluation is one run of the real tool in its own process against a scripted network, clock and output device; "
                         "distinct: the event log (simulated times, connections, faults), exit status and output differ from those of every other run")
            c["runs_per_hour"] = int(tot.get("runs", 0) * hour)
            c["runs_with_complete_page"] = tot.get("complete", 0)
            c["runs_exit_0"] = tot.get("articles", 0)
            c["simulated_hours"] = round(tot.get("simulated_ms", 0) / 3.6e6, 1)
            c["longest_run_simulated_hours"] = round(tot.get("max_simulated_ms", 0) / 3.6e6, 1)
            c["scenario_kinds"] = kinds
            c["components_real"] = ["cmd/readability main", "the library", "net/http client, compress/gzip, bufio, flag, slog"]
            c["components_simulated"] = ["name resolution and TCP connections", "origin servers", "wall clock and timers (synctest bubble)", "devices behind stdout and stderr", "runtime random source"]
        else:
            c["evaluations"] = tot.get("ops", 0)
            c["distinct_nontrivial"] = len(traces)
            c["rule"] = ("one evaluation is one call (open, extract, probe) made by a session inside a simulated world; distinct: sessions whose whole record "
                         "(results, errors, panics, callback arguments) differs from that of every other session; sessions without a result, error or verdict count once at most")
            for k in ("worlds", "sessions", "results", "nontrivial", "switches", "blocked", "children", "reference_processes", "repetitions", "dom_ops", "dom_refused_ops", "size_refusals"):
                if tot.get(k):
                    c[k] = tot[k]
            c["steps"] = tot.get("steps", 0)
            c["max_steps_of_one_call"] = tot.get("max_op_steps", 0)
            c["worlds_per_hour"] = int(tot.get("worlds", 0) * hour)
            c["seeds_per_hour"] = int(self.batches * hour)
            c["simulated_seconds"] = round(tot.get("simulated_us", 0) / 1e6, 1)
            c["distinct_interleavings"] = len(hashes)
            c["interleaving_measure"] = "hash of the sequence of (task, statement, next task) at every switch of a world"
            nsites = len(json.load(open(SITES))) if os.path.exists(SITES) else 0
            c["statements_reached"] = "%d of %d" % (len(sites), nsites)
            c["statements_switched_at"] = len(swsites)
            c["components_real"] = ["the whole library, every statement (instrumented with a yield point)", "golang.org/x/net/html", STACK]
            c["components_simulated"] = ["goroutine scheduling among callers", "callers and their callbacks", "log handler", "wall clock", "random source and map order", "garbage collection moments"]
        c["faults_injected"] = faults
        c["batches"] = self.batches
        c["search_seconds"] = round(searched, 1)
        c["workers"] = WORKERS
        c["samples"] = samples[:4]
        if det is not None:
            c["determinism_recheck"] = det
        if self.skipped:
            c["worlds_skipped"] = "%d: a session failed by itself, which is another property" % self.skipped
        if self.known:
            c["known_findings"] = self.known
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": c,
              "assumptions": ["one processor: reordering below the level of statements is covered only by the race detector (C01)",
                              "sampling: a clean run is evidence, not proof"],
              "wall_s": round(time.time() - self.t0, 1), "violations": 1 if self.found else 0}
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)


def fatal_text(se):
    for l in se.splitlines():
        if l.startswith(("fatal error:", "panic:", "runtime:", "SIG")):
            return "the process died: " + l
    return "the process died"


def replay(f):
    f = os.path.abspath(f)
    d = json.load(open(f))
    prop = d["property"]
    s = Search(prop, "quick", d.get("seed", 1))
    try:
        if prop in CLI:
            s.cli = B.build("cli")
            kind, what = s.replay_cli(f)
        else:
            s.lib = B.build("lib")
            exe = s.lib
            if d.get("how", {}).get("binary") == "sim-race":
                exe = B.build("race")
            env = worker_env({k: v for k, v in d.get("how", {}).get("env", {}).items()})
            kind, what, se = s.replay_lib(os.path.abspath(f), exe, env)
            if kind == "race":
                print(se[:4000])
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)
    if kind:
        print("%s: %s" % (kind, what))
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    print("the replay runs clean")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        try:
            for k in ("lib", "race", "cli"):
                B.build(k)
        except B.BuildError as e:
            log(str(e))
            return 2
        return 0
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) < 1 or a[0] not in LIB + CLI:
        log(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    s = Search(a[0], tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1")))
    try:
        return s.run()
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
