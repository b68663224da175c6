package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	readability "github.com/giulianopz/go-readability"
	rt "github.com/giulianopz/go-readability/internal/verifrt"
)

// World is one simulated run: callers, their sessions and the schedule.
type World struct {
	Seed     uint64    `json:"seed"`    // runtime randomness
	Clock    int64     `json:"clock"`   // simulated wall clock at start, ns
	Ballast  int       `json:"ballast"` // heap disturbance
	Sched    rt.Sched  `json:"sched"`
	Sessions []Session `json:"sessions"`
	Tasks    [][]int   `json:"tasks"` // per task: whose next operation runs
	Finished bool      `json:"finished,omitempty"`
	rep      int
	Reps     int `json:"reps,omitempty"` // C12: the world happens over and over, with other pages
}

// Batch is the life of one process: worlds in sequence.
type Batch struct {
	Prop   string  `json:"property"`
	Seed   uint64  `json:"seed"`
	Batch  uint64  `json:"batch"`
	Worlds []World `json:"worlds"`
}

// Violation is a broken property.
type Violation struct {
	Prop  string `json:"property"`
	Kind  string `json:"kind"`
	World int    `json:"world"`
	Sess  int    `json:"session"`
	What  string `json:"what"`
	Got   string `json:"got,omitempty"`
	Want  string `json:"want,omitempty"`
}

type worldRun struct {
	w          *World
	ref        bool
	budget     uint64
	checkTrees bool
	runs       []*run
	stack      [1024][]*run
	groups     map[int][]readability.Option
	owns       []*owned
	ownOf      map[int]*owned
	leak       int
	leakText   []byte
	out        rt.Outcome
	finished   bool // watch the tree given to a serializer until Parse returns
}

func (w *worldRun) push(r *run) {
	if id := rt.ID(); id >= 0 && id < len(w.stack) {
		w.stack[id] = append(w.stack[id], r)
	}
}

func (w *worldRun) pop(r *run) {
	if id := rt.ID(); id >= 0 && id < len(w.stack) {
		st := w.stack[id]
		for len(st) > 0 {
			top := st[len(st)-1]
			st = st[:len(st)-1]
			if top == r {
				break
			}
		}
		w.stack[id] = st
	}
}

// nested runs a whole session inside another one's callback.
func (w *worldRun) nested(i int) {
	if i < 0 || i >= len(w.runs) {
		return
	}
	r := w.runs[i]
	if !r.s.Nested {
		return
	}
	for r.pc < len(r.s.Ops) {
		r.step()
	}
}

// scribble overwrites the caller's own class lists.
func (w *worldRun) scribble(r *run) {
	ow := w.ownOf[r.idx]
	if ow == nil {
		return
	}
	for i, l := range ow.lists {
		for j := range l {
			l[j] = "scribbled"
			ow.copies[i][j] = "scribbled"
		}
	}
}

var ballast [][]byte

// Run executes the world. ref: fault-free reference conditions.
func runWorld(w *World, ref bool, budget uint64, checkTrees bool) *worldRun {
	wr := &worldRun{w: w, ref: ref, budget: budget, checkTrees: checkTrees, groups: map[int][]readability.Option{}, ownOf: map[int]*owned{}}
	wr.finished = w.Finished
	ballast = nil
	if !ref && w.rep%16 == 0 { // a fresh process has nothing to collect
		runtime.GC()
		runtime.GC()
	}
	for i := 0; i < w.Ballast; i++ {
		ballast = append(ballast, make([]byte, 24+(i*37)%900))
	}
	rt.SeedRuntime(w.Seed)
	rt.SetClock(w.Clock)
	for i := range w.Sessions {
		s := &w.Sessions[i]
		r := &run{idx: i, s: s, w: wr, calls: map[string]int{}}
		if s.Group > 0 && !ref {
			if wr.groups[s.Group] == nil {
				o, ow := buildOpts(&s.Opts, wr, nil)
				wr.groups[s.Group] = o
				wr.owns = append(wr.owns, ow)
			}
			r.opt = wr.groups[s.Group]
		} else {
			o, ow := buildOpts(&s.Opts, wr, r)
			r.opt = o
			wr.owns = append(wr.owns, ow)
			wr.ownOf[i] = ow
		}
		wr.runs = append(wr.runs, r)
	}
	installed, astray = &simLog{wr}, 0
	slog.SetDefault(slog.New(installed))
	time.VerifNow = rt.Now
	time.VerifTimers = rt.Timers{}
	if !ref {
		rt.SetCPUs([]int{1, 2, 4, 64}[w.Seed>>8%4])
		rt.SetLoad([]int{0, 0, 100, 20000}[w.Seed>>10%4], []uint64{0, 0, 1 << 30, 1 << 36}[w.Seed>>12%4])
	}
	os.VerifEnv = wr.getenv
	os.VerifPath = wr.path
	os.VerifWrite = wr.write
	bodies := make([]func(), len(w.Tasks))
	for t := range w.Tasks {
		bodies[t] = func() { wr.task(w.Tasks[t], 0) }
	}
	wr.out = rt.Run(&w.Sched, bodies)
	rt.SetCPUs(0)
	rt.SetLoad(0, 0)
	os.VerifEnv = nil
	os.VerifPath = nil
	os.VerifWrite = nil
	time.VerifNow = nil
	time.VerifTimers = nil
	return wr
}

var fsRoot string

// path is the file system of the simulated process: whatever file is asked for
// may exist and say anything; what is written stays in a directory of the
// real process.
func (w *worldRun) path(name string, create bool) string {
	if rt.ID() < 0 {
		return name
	}
	if fsRoot == "" {
		os.VerifPath = nil
		t, _ := syscall.Getenv("TMPDIR")
		if t == "" {
			t = "/tmp"
		}
		fsRoot, _ = os.MkdirTemp(t, "verif-fs-")
		os.VerifPath = w.path
	}
	if name == fsRoot || strings.HasPrefix(name, fsRoot+"/") {
		return name
	}
	os.VerifPath = nil
	defer func() { os.VerifPath = w.path }()
	p := filepath.Join(fsRoot, filepath.Clean("/"+name))
	if _, err := os.Lstat(p); err == nil {
		return p
	}
	if create {
		os.MkdirAll(filepath.Dir(p), 0o755)
		return p
	}
	if v, found, _ := w.getenv("#file:" + name); found {
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(v+" "+strings.Join(positiveNames, "\n")+"\n"), 0o644)
	}
	return p
}

var envVals = []string{"", "0", "1", "true", "debug", "off", "/tmp", "de_DE.UTF-8"}

// getenv is the environment of the simulated process: every variable may be
// set to anything.
func (w *worldRun) getenv(key string) (string, bool, bool) {
	if rt.ID() < 0 {
		return "", false, false
	}
	if w.ref {
		return "", false, true
	}
	h := w.w.Seed
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	if h>>20%3 == 0 {
		return "", false, true
	}
	return envVals[h>>24%uint64(len(envVals))], true, true
}

// write sees what the code under test prints behind the log handler's back.
func (w *worldRun) write(f *os.File, b []byte) (int, error, bool) {
	if rt.ID() < 0 || f != os.Stdout && f != os.Stderr {
		return 0, nil, false
	}
	w.leak++
	if len(w.leakText) < 200 {
		w.leakText = append(w.leakText, b...)
	}
	return len(b), nil, true
}

// task is the life of one caller. An operation that exits the goroutine is
// followed by the rest of the program in a new goroutine of the same task.
func (w *worldRun) task(steps []int, from int) {
	i := from
	done := false
	defer func() {
		if !done {
			rt.Continue(func() { w.task(steps, i+1) })
		}
	}()
	for ; i < len(steps); i++ {
		rt.Point()
		k := steps[i]
		if k >= 0 && k < len(w.runs) {
			w.runs[k].step()
		}
	}
	done = true
}

func (r *run) trace() string {
	b, err := json.Marshal(r.rec)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// ---- reference ------------------------------------------------------------

var refBin = os.Args[0]

type refInput struct {
	Session Session `json:"session"`
	Budget  uint64  `json:"budget"`
}

type refOutput struct {
	Trace string `json:"trace"`
	Steps uint64 `json:"steps"`
	Find  int    `json:"find"`
	Dead  bool   `json:"dead"`
}

// refKey: the part of a session the reference depends on.
func refSession(s *Session) Session {
	c := *s
	c.Group = 0
	c.Nested = false
	c.Faults = nil
	c.Damage = nil
	log := false
	for _, f := range s.Faults {
		if !f.benign() {
			c.Faults = append(c.Faults, f)
			if f.Cb == "log" {
				log = true
			}
		}
	}
	if !log {
		c.Log = LogSpec{}
	}
	return c
}

var refCache = map[string]*refOutput{}
var refRuns int

// reference runs the session as the only activity of a fresh process.
func reference(s *Session, budget uint64) *refOutput {
	rs := refSession(s)
	in, _ := json.Marshal(refInput{rs, budget})
	if o, ok := refCache[string(in)]; ok {
		return o
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, refBin, "ref")
	t, _ := syscall.Getenv("TMPDIR")
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "VERIF_BOOT=0", "TMPDIR=" + t}
	cmd.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	refRuns++
	var o *refOutput
	if err := cmd.Run(); err == nil {
		var x refOutput
		if json.Unmarshal(out.Bytes(), &x) == nil {
			o = &x
		}
	}
	refCache[string(in)] = o
	return o
}

func refMain() {
	var in refInput
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		os.Exit(4)
	}
	steps := make([]int, len(in.Session.Ops))
	w := &World{Seed: 12345, Clock: 1700000000e9, Sessions: []Session{in.Session}, Tasks: [][]int{steps}, Sched: rt.Sched{Mode: "seq"}}
	wr := runWorld(w, true, in.Budget, false)
	o := refOutput{Trace: wr.runs[0].trace(), Steps: wr.out.Steps, Find: len(wr.runs[0].find), Dead: wr.out.Dead}
	json.NewEncoder(os.Stdout).Encode(o)
}

// ---- verdict --------------------------------------------------------------

// which findings decide which property
var findKinds = map[string][]string{
	"C05": {"contract"},
	"C07": {"crash", "hang", "outcome"},
	"C10": {"tree"},
	"C11": {"owner"},
	"C06": {"leak"},
}

// properties decided by comparing with the reference
var refProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C06": true, "C11": true}

func (w *worldRun) verdict(prop string, wi int) *Violation {
	if w.out.Deadlock || w.out.Dead {
		// a call that blocks for good all by itself is not the fault of others
		if prop != "C07" && !alone(prop, w.w, w.budget) {
			return nil
		}
		what := "callers are blocked for good"
		if w.out.Deadlock && !w.out.Dead {
			what = "callers were blocked until a stalled caller went on"
		}
		return &Violation{Prop: prop, Kind: "deadlock", World: wi, Sess: -1, What: what}
	}
	if prop == "C11" {
		for _, ow := range w.owns {
			if m := ow.changed(); m != "" {
				return &Violation{Prop: prop, Kind: "owner", World: wi, Sess: -1, What: m}
			}
		}
	}
	// things handed out must stay as they were
	if prop == "C11" || prop == "C01" || prop == "C03" {
		for _, r := range w.runs {
			for _, k := range r.keptRes {
				if *recOf(k.res) != k.cp {
					return &Violation{Prop: prop, Kind: "owner", World: wi, Sess: r.idx, What: fmt.Sprintf("the result of operation %d changed after it was returned", k.op), Got: mustJSON(recOf(k.res)), Want: mustJSON(k.cp)}
				}
			}
		}
	}
	if prop == "C11" {
		for _, r := range w.runs {
			parses := 0
			for _, o := range r.rec {
				if o.Op == "parse" {
					parses++
				}
			}
			if parses > 1 {
				continue // extracting again works on the same tree
			}
			for _, k := range r.kept {
				if fp := fingerprint(k.n, r.blind()); fp != k.fp {
					return &Violation{Prop: prop, Kind: "owner", World: wi, Sess: r.idx, What: "a tree kept from the serializer changed later", Got: fp, Want: k.fp}
				}
			}
		}
	}
	if prop == "C06" && w.leak > 0 {
		return &Violation{Prop: prop, Kind: "leak", World: wi, Sess: -1, What: fmt.Sprintf("the library wrote to stdout or stderr: %q", clip(string(w.leakText)))}
	}
	if prop == "C06" && astray > 0 {
		return &Violation{Prop: prop, Kind: "leak", World: wi, Sess: -1, What: fmt.Sprintf("log output went %d times to a handler that is not the installed one", astray)}
	}
	for _, kind := range findKinds[prop] {
		for _, r := range w.runs {
			for _, f := range r.find {
				if f.Kind == kind {
					return &Violation{Prop: prop, Kind: kind, World: wi, Sess: f.Sess, What: f.Op + ": " + f.What}
				}
			}
		}
	}
	if prop == "C05" {
		for i, r := range w.runs {
			s := w.w.Sessions[i]
			if s.Opts.Ser != "inner" || r.pc == 0 || len(s.Doc)%3 != 0 {
				continue
			}
			// a serializer that returns the HTML of the tree it is given must
			// make no difference
			k := 0
			for k < len(r.rec) && r.rec[k].Panic == "" && !r.rec[k].Goexit && k < r.pc {
				k++
			}
			s.Ops, s.Faults, s.Opts.Ser = s.Ops[:k], nil, ""
			o := reference(&s, w.budget)
			if o == nil {
				continue
			}
			var ref []OpRec
			json.Unmarshal([]byte(o.Trace), &ref)
			for j := 0; j < k && j < len(ref); j++ {
				a, b := r.rec[j].Res, ref[j].Res
				if (a == nil) != (b == nil) || a != nil && *a != *b {
					return &Violation{Prop: prop, Kind: "contract", World: wi, Sess: i, What: fmt.Sprintf("operation %d: the serializer was not given the finished article: %s", j, firstDiff(mustJSON(a), mustJSON(b)))}
				}
			}
		}
	}
	if refProps[prop] {
		for i, r := range w.runs {
			if r.pc == 0 {
				continue
			}
			s := w.w.Sessions[i]
			if r.pc < len(s.Ops) {
				s.Ops = s.Ops[:r.pc]
			}
			o := reference(&s, w.budget)
			if o == nil {
				continue
			}
			if got := r.trace(); got != o.Trace {
				return &Violation{Prop: prop, Kind: "mismatch", World: wi, Sess: i, What: firstDiff(got, o.Trace), Got: got, Want: o.Trace}
			}
		}
	}
	return nil
}

// alone is true when every session of the world, stripped of what the property
// is about, ends when it is the only activity of a process.
func alone(prop string, w *World, budget uint64) bool {
	for i := range w.Sessions {
		s := w.Sessions[i]
		if len(s.Ops) == 0 {
			continue
		}
		s.Dom = nil
		switch prop {
		case "C05", "C10":
			s.Faults = nil
			s.Opts.Ser, s.Opts.H2T, s.Opts.Vis, s.Opts.Custom = "", "", "", false
		}
		if o := reference(&s, budget); o == nil || o.Dead {
			return false
		}
	}
	return true
}

func mustJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-60), min(len(s), i+60)
		if lo > len(s) {
			lo = len(s)
		}
		return strings.ToValidUTF8(s[lo:hi], "?")
	}
	return fmt.Sprintf("outcome differs from that of the same call alone in a fresh process: ...%s... instead of ...%s...", cut(a), cut(b))
}
