#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree.

Nothing is written in /repo: instrumented copies of its files, the simulator
runtime and patched copies of a few standard library files live in the build
directory and are handed to the go command through -overlay.
"""
import hashlib, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class BuildError(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", os.path.join(BUILD, "gocache")),
             GOWORK="off", CGO_ENABLED="1")
    e.pop("GODEBUG", None)
    if extra:
        e.update(extra)
    return e


def run(cmd, cwd=None, check=True, extra=None):
    p = subprocess.run(cmd, cwd=cwd, env=env(extra), capture_output=True, text=True)
    if check and p.returncode != 0:
        raise BuildError("%s\n%s%s" % (" ".join(cmd), p.stdout, p.stderr))
    return p


def patch(src, edits):
    s = open(src).read()
    for old, new in edits:
        if s.count(old) != 1:
            raise BuildError("standard library seam not found in %s: %r" % (src, old))
        s = s.replace(old, new)
    return s


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def std_overlay(goroot, race):
    """Patched standard library files -> {original: replacement}."""
    d = os.path.join(BUILD, "std")
    src = os.path.join(goroot, "src")
    o = {}

    def add(rel, edits, suffix=""):
        dst = os.path.join(d, rel.replace("/", "_") + suffix)
        put(dst, patch(os.path.join(src, rel), edits))
        o[os.path.join(src, rel)] = dst

    o[os.path.join(src, "runtime/verif.go")] = os.path.join(HERE, "std", "runtime_verif.go")
    add("runtime/rand.go", [
        ("\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"),
        ("\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif verifRandOn {\n\t\treturn verifRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"),
        ("\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = uint32(mp.id)*77 + 1\n\tmp.cheaprand64 = uint64(mp.id)*77 + 1\n"),
    ])
    add("runtime/proc.go", [("\tgoargs()\n\tgoenvs()\n\tsecure()\n", "\tgoargs()\n\tgoenvs()\n\tverifBoot()\n\tsecure()\n"),
                            ("const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 60")])
    add("runtime/select.go", [("cheaprandn(uint32(norder + 1))", "verifSelectRand(uint32(norder + 1))")])
    add("internal/sync/mutex.go", [("starvationThresholdNs = 1e6", "starvationThresholdNs = 1 << 60")])
    o[os.path.join(src, "time/verif.go")] = os.path.join(HERE, "std", "time_verif.go")
    o[os.path.join(src, "os/verif.go")] = os.path.join(HERE, "std", "os_verif.go")
    add("time/time.go", [
        ("func Now() Time {\n", "func Now() Time {\n\tif t, ok := verifNow(); ok {\n\t\treturn t\n\t}\n"),
    ])
    add("runtime/time.go", [("//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.realSleep\n")])
    add("time/sleep.go", [
        ("\treturn stopTimer(t)\n", "\treturn verifStop(t)\n"),
        ("func Sleep(d Duration)\n", "func Sleep(d Duration) {\n\tif d > 0 && VerifTimers != nil && VerifTimers.On() {\n\t\t<-NewTimer(d).C\n\t\treturn\n\t}\n\trealSleep(d)\n}\n\nfunc realSleep(d Duration)\n"
         "\n// VerifTimers, when set, runs the timers on a simulated clock.\nvar VerifTimers interface {\n\tOn() bool\n\tAdd(t *Timer, d, period Duration, fire func()) bool\n\tReset(t *Timer, d, period Duration) (active, handled bool)\n\tStop(t *Timer) (active, handled bool)\n}\n"
         "\nfunc verifNewTimer(d, period Duration, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *Timer {\n\tif VerifTimers != nil {\n\t\tt := &Timer{initTimer: true}\n\t\tif VerifTimers.Add(t, d, period, func() { f(arg, 0, 0) }) {\n\t\t\treturn t\n\t\t}\n\t}\n\treturn newTimer(when(d), int64(period), f, arg, cp)\n}\n"
         "\nfunc verifStop(t *Timer) bool {\n\tif VerifTimers != nil {\n\t\tif a, ok := VerifTimers.Stop(t); ok {\n\t\t\tselect {\n\t\t\tcase <-t.C:\n\t\t\t\ta = true\n\t\t\tdefault:\n\t\t\t}\n\t\t\treturn a\n\t\t}\n\t}\n\treturn stopTimer(t)\n}\n"
         "\nfunc verifReset(t *Timer, d, period Duration) bool {\n\tif VerifTimers != nil {\n\t\tif a, ok := VerifTimers.Reset(t, d, period); ok {\n\t\t\tselect {\n\t\t\tcase <-t.C:\n\t\t\t\ta = true\n\t\t\tdefault:\n\t\t\t}\n\t\t\treturn a\n\t\t}\n\t}\n\treturn resetTimer(t, when(d), int64(period))\n}\n"),
        ("newTimer(when(d), 0, sendTime, c, syncTimer(c))", "verifNewTimer(d, 0, sendTime, c, syncTimer(c))"),
        ("\tw := when(d)\n\treturn resetTimer(t, w, 0)\n", "\treturn verifReset(t, d, 0)\n"),
        ("return newTimer(when(d), 0, goFunc, f, nil)", "return verifNewTimer(d, 0, goFunc, f, nil)"),
    ])
    add("time/tick.go", [
        ("newTimer(when(d), int64(d), sendTime, c, syncTimer(c))", "verifNewTimer(d, d, sendTime, c, syncTimer(c))"),
        ("\tstopTimer((*Timer)(unsafe.Pointer(t)))\n", "\tverifStop((*Timer)(unsafe.Pointer(t)))\n"),
        ("resetTimer((*Timer)(unsafe.Pointer(t)), when(d), int64(d))", "verifReset((*Timer)(unsafe.Pointer(t)), d, d)"),
    ])
    add("os/file.go", [
        ("func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n\tname = verifPath(name, true)\n"),
        ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\tname = verifPath(name, flag&O_CREATE != 0)\n"),
        ("\treturn rename(oldpath, newpath)\n", "\treturn rename(verifPath(oldpath, false), verifPath(newpath, true))\n"),
        ("func (f *File) Write(b []byte) (n int, err error) {\n",
         "// VerifWrite, when set, is the simulated device behind a file.\nvar VerifWrite func(f *File, b []byte) (n int, err error, handled bool)\n\nfunc (f *File) Write(b []byte) (n int, err error) {\n\tif VerifWrite != nil {\n\t\tif n, err, ok := VerifWrite(f, b); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"),
    ])
    add("os/stat.go", [
        ("\treturn statNolog(name)\n", "\treturn statNolog(verifPath(name, false))\n"),
        ("\treturn lstatNolog(name)\n", "\treturn lstatNolog(verifPath(name, false))\n"),
    ])
    add("os/dir.go", [("func ReadDir(name string) ([]DirEntry, error) {\n", "func ReadDir(name string) ([]DirEntry, error) {\n\tname = verifPath(name, false)\n")])
    add("os/path.go", [("\treturn removeAll(path)\n", "\treturn removeAll(verifPath(path, false))\n")])
    add("os/file_unix.go", [("func Remove(name string) error {\n", "func Remove(name string) error {\n\tname = verifPath(name, false)\n")])
    add("os/getwd.go", [("func Getwd() (dir string, err error) {\n", "func Getwd() (dir string, err error) {\n\tif v, _, ok := verifEnv(\"#wd\"); ok {\n\t\treturn \"/home/u\" + v, nil\n\t}\n")])
    add("os/env.go", [
        ("func Getenv(key string) string {\n", "func Getenv(key string) string {\n\tif v, _, ok := verifEnv(key); ok {\n\t\treturn v\n\t}\n"),
        ("func LookupEnv(key string) (string, bool) {\n", "func LookupEnv(key string) (string, bool) {\n\tif v, f, ok := verifEnv(key); ok {\n\t\treturn v, f\n\t}\n"),
        ("func Environ() []string {\n", "func Environ() []string {\n\tif v, _, ok := verifEnv(\"#environ\"); ok {\n\t\treturn []string{\"PATH=/bin\", \"LANG=\" + v}\n\t}\n"),
    ])
    add("os/sys.go", [
        ("func Hostname() (name string, err error) {\n", "func Hostname() (name string, err error) {\n\tif v, _, ok := verifEnv(\"#hostname\"); ok {\n\t\treturn \"host\" + v, nil\n\t}\n"),
    ])
    add("os/exec.go", [("func Getpid() int { return syscall.Getpid() }", "func Getpid() int { return verifPid() }")])
    add("runtime/mstats.go", [("\t\treadmemstats_m(m)\n\t})\n\n\tstartTheWorld(stw)\n", "\t\treadmemstats_m(m)\n\t})\n\n\tstartTheWorld(stw)\n\tverifMem(m)\n")])
    add("runtime/debug.go", [
        ("\treturn int(gcount(false))\n", "\treturn int(gcount(false)) + verifGoroutines\n"),
        ("func NumCPU() int {\n", "func NumCPU() int {\n\tif verifCPUs > 0 {\n\t\treturn verifCPUs\n\t}\n"),
        ("func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif n <= 0 && verifCPUs > 0 {\n\t\treturn verifCPUs\n\t}\n"),
    ])
    if race:
        # A pool hands values from goroutine to goroutine and thereby orders
        # them for the race detector; regexp and fmt do so all the time, which
        # would hide races of the code under test. Its own pools work.
        add("sync/pool.go", [
            ("func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif race.Enabled && !verifOwn() {\n\t\treturn\n\t}\n"),
            ("func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif race.Enabled && !verifOwn() {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"),
            ("\t\tif runtime_randn(4) == 0 {\n", "\t\tif false {\n"),
            ("var poolRaceHash [128]uint64\n", """var poolRaceHash [128]uint64

// verifOwn reports whether the pool is used by the code under test.
func verifOwn() bool {
	var pc [1]uintptr
	if runtime.Callers(3, pc[:]) == 0 {
		return false
	}
	const own = "github.com/giulianopz/go-readability"
	f := runtime.FuncForPC(pc[0] - 1)
	if f == nil {
		return false
	}
	n := f.Name()
	return len(n) > len(own) && n[:len(own)] == own
}
"""),
        ], ".race")
    return o


def cli_overlay(goroot):
    d = os.path.join(BUILD, "std")
    src = os.path.join(goroot, "src")
    o = {}

    def add(rel, edits, suffix=".cli"):
        dst = os.path.join(d, rel.replace("/", "_") + suffix)
        put(dst, patch(os.path.join(src, rel), edits))
        o[os.path.join(src, rel)] = dst

    add("net/dial.go", [
        ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
         "// VerifDial, when set, is the simulated network.\nvar VerifDial func(ctx context.Context, network, address string) (Conn, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif VerifDial != nil {\n\t\treturn VerifDial(ctx, network, address)\n\t}\n"),
    ])
    return o


def goroot():
    return run(["go", "env", "GOROOT"]).stdout.strip()


def module():
    p = run(["go", "list", "-m"], cwd=REPO)
    return p.stdout.strip().splitlines()[0]


def packages():
    p = run(["go", "list", "-json", "./..."], cwd=REPO)
    dec = json.JSONDecoder()
    s, i, out = p.stdout, 0, []
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        v, i = dec.raw_decode(s, i)
        out.append(v)
    return out


def build_instr():
    exe = os.path.join(BUILD, "bin", "instr")
    run(["go", "build", "-o", exe, "."], cwd=os.path.join(HERE, "instr"), extra={"GOFLAGS": ""})
    return exe


def instrument(exe, mod, outdir, level):
    """Instruments every library package; returns the overlay entries."""
    files = []
    for p in packages():
        if p["Name"] == "main":
            continue
        for f in p.get("GoFiles", []):
            files.append(os.path.join(p["Dir"], f))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    spec = {"out": outdir, "rt": mod + "/internal/verifrt", "files": files, "level": level}
    p = subprocess.run([exe], input=json.dumps(spec), capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("instrumenter: " + p.stderr)
    return json.loads(p.stdout)


def literals():
    """The string, character and integer literals of the current tree, counted."""
    files = []
    for p in packages():
        for f in p.get("GoFiles", []):
            files.append(os.path.join(p["Dir"], f))
    p = subprocess.run([build_instr()], input=json.dumps({"lits": True, "files": files}), capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("literals: " + p.stderr)
    return json.loads(p.stdout)


def words(strings):
    """What of a literal a page might say: short ones as they are, and their words."""
    out = {}
    for s, n in strings.items():
        ws = set()
        if 0 < len(s) <= 48:
            ws.add(s)
        ws.update(w for w in re.findall(r"[A-Za-z0-9_@][A-Za-z0-9_:@/.-]{1,38}", s) if len(w) > 2 or len(s) < 8)
        ws.update(w for w in re.findall(r"[A-Za-z]{3,24}", s))
        for w in ws:
            out[w] = out.get(w, 0) + n
    return out


def dictionary(pkg):
    """Go source of the dictionary for the generators."""
    base = {"strings": {}, "ints": {}}
    bf = os.path.join(HERE, "lits.json")
    if os.path.exists(bf):
        base = json.load(open(bf))
    cur = literals()
    new_s = {s: n - base["strings"].get(s, 0) for s, n in cur["strings"].items() if n > base["strings"].get(s, 0)}
    new_i = sorted(int(i) for i, n in cur["ints"].items() if n > base["ints"].get(i, 0) and 1 < int(i) <= 1 << 24)
    if len(new_i) > 40:
        new_i = []
    nw = sorted(words(new_s))
    if len(nw) > 400:
        nw = []
    aw = sorted(words(cur["strings"]))
    ints = sorted(int(i) for i in cur["ints"] if 1 < int(i) <= 1 << 24)
    esc = lambda x: '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\U%08x" % ord(c) for c in x) + '"'
    q = lambda l: "[]string{%s}" % ", ".join(esc(x) for x in l if not any(0xd800 <= ord(c) < 0xe000 for c in x))
    qi = lambda l: "[]int{%s}" % ", ".join(map(str, l))
    return "package %s\n\nvar dictNew = %s\nvar dictAll = %s\nvar intNew = %s\nvar dictInts = %s\n" % (pkg, q(nw), q(aw), qi(new_i), qi(ints))


def build(kind):
    """kind: lib, race or cli -> path of the binary."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    gr = goroot()
    mod = module()
    exe = os.path.join(BUILD, "bin", "sim-" + kind)
    if os.path.exists(exe):
        os.remove(exe)
    if kind == "cli":
        ov = std_overlay(gr, False)
        ov.update(cli_overlay(gr))
        cmddir = [p["Dir"] for p in packages() if p["Name"] == "main" and p["ImportPath"].endswith("cmd/readability")]
        if not cmddir:
            raise BuildError("cmd/readability not found")
        ov[os.path.join(gr, "src/testing/synctest/verif.go")] = os.path.join(HERE, "std", "synctest_verif.go")
        ov[os.path.join(cmddir[0], "zz_verif.go")] = os.path.join(HERE, "climain", "zz_verif.go")
        ov[os.path.join(REPO, "internal", "verifrt", "rt.go")] = os.path.join(HERE, "rt", "rt.go")
        pk = os.path.join(REPO, "internal", "verifcli")
        dd = os.path.join(BUILD, "cli", "dict_data.go")
        put(dd, dictionary("verifcli"))
        ov[os.path.join(pk, "dict_data.go")] = dd
        for f in ("prng.go", "gen.go", "dict.go"):
            dst = os.path.join(BUILD, "cli", f)
            put(dst, open(os.path.join(HERE, "lib", f)).read().replace("package main\n", "package verifcli\n", 1))
            ov[os.path.join(pk, f)] = dst
        for f in sorted(os.listdir(os.path.join(HERE, "cli"))):
            if f.endswith(".go"):
                ov[os.path.join(pk, f)] = os.path.join(HERE, "cli", f)
        oj = os.path.join(BUILD, "overlay-cli.json")
        put(oj, json.dumps({"Replace": ov}, indent=1))
        run(["go", "build", "-overlay", oj, "-o", exe, cmddir[0]], cwd=REPO)
        return exe
    instr = build_instr()
    dd = os.path.join(BUILD, "dict_data.go")
    put(dd, dictionary("main"))
    err = None
    for level in (2, 1):
        res = instrument(instr, mod, os.path.join(BUILD, "instr-" + kind), level)
        ov = dict(std_overlay(gr, kind == "race"))
        ov.update(res["files"])
        put(os.path.join(BUILD, "sites.json"), json.dumps(res["sites"]))
        ov[os.path.join(REPO, "internal", "verifsim", "dict_data.go")] = dd
        for d, name in (("rt", "verifrt"), ("lib", "verifsim")):
            for f in sorted(os.listdir(os.path.join(HERE, d))):
                if not f.endswith(".go"):
                    continue
                if f.startswith("race_on") and kind != "race" or f.startswith("race_off") and kind == "race":
                    continue
                ov[os.path.join(REPO, "internal", name, f)] = os.path.join(HERE, d, f)
        oj = os.path.join(BUILD, "overlay-%s.json" % kind)
        put(oj, json.dumps({"Replace": ov}, indent=1))
        args = ["go", "build", "-overlay", oj, "-o", exe]
        if kind == "race":
            args.append("-race")
        try:
            run(args + ["./internal/verifsim"], cwd=REPO)
            return exe
        except BuildError as e:
            err = err or e
    raise err


if __name__ == "__main__":
    try:
        for k in sys.argv[1:]:
            if k == "lits":  # records what the tree holds now
                put(os.path.join(HERE, "lits.json"), json.dumps(literals(), indent=0, sort_keys=True))
                continue
            print(build(k))
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
