// The library simulator. Modes:
//
//	run      generate and run worlds from a seed
//	replay   run the worlds of a file
//	shrink   minimise a failing file
//	ref      run one session alone (stdin) and print what its owner saw
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"syscall"
	"time"
	"unsafe"

	rt "github.com/giulianopz/go-readability/internal/verifrt"
)

var siteNames []string

func siteName(i int) string {
	if i >= 0 && i < len(siteNames) {
		return siteNames[i]
	}
	return fmt.Sprint("site ", i)
}

// Stats of a batch.
type Stats struct {
	Worlds      int            `json:"worlds"`
	Sessions    int            `json:"sessions"`
	Ops         int            `json:"ops"`
	Results     int            `json:"results"`
	Steps       uint64         `json:"steps"`
	MaxSteps    uint64         `json:"max_op_steps"`
	Switches    int            `json:"switches"`
	Blocked     int            `json:"blocked"`
	Children    int            `json:"children"`
	Refs        int            `json:"reference_processes"`
	Reps        int            `json:"repetitions"`
	DomOps      int            `json:"dom_ops"`
	DomRefused  int            `json:"dom_refused_ops"`
	Refused     int            `json:"size_refusals"`
	Faults      map[string]int `json:"faults"`
	Hashes      []uint64       `json:"interleavings"`
	Traces      []uint64       `json:"traces"`
	Nontrivial  int            `json:"nontrivial"`
	SimulatedUS uint64         `json:"simulated_us"`
	Hit         []int          `json:"sites"`
	SwitchedAt  []int          `json:"switch_sites"`
	Samples     []string       `json:"samples"`
}

func main() {
	// package initialisation is over: see VERIF_BOOT in build.py
	os.VerifEnv, time.VerifBooted = nil, true
	rt.SetCPUs(0)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		os.Exit(4)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	batch := fs.Uint64("batch", 0, "")
	nworlds := fs.Int("worlds", 10, "")
	sites := fs.String("sites", "", "")
	out := fs.String("out", "", "")
	refb := fs.String("ref", "", "")
	pages := fs.String("fixtures", "", "")
	budget := fs.Uint64("budget", 60_000_000, "")
	limit := fs.Duration("limit", 30*time.Second, "")
	dump := fs.Bool("dump", false, "")
	progress := fs.String("progress", "", "")
	stop := fs.Duration("stop", 0, "start no world after this time")
	fix := fs.Bool("fix", false, "write the worlds with their schedules as lists of switches")
	fs.Parse(os.Args[2:])
	if *refb != "" {
		refBin = *refb
	} else if e, err := os.Executable(); err == nil {
		refBin = e
	}
	if b, err := os.ReadFile(*sites); err == nil {
		json.Unmarshal(b, &siteNames)
	}
	switch mode {
	case "ref":
		refMain()
	case "run":
		loadFixtures(*pages)
		b := genBatch(*prop, *seed, *batch, *nworlds, max(len(siteNames), 1), raceOn)
		os.Exit(execBatch(b, *budget, *out, *dump, *progress, *fix, *stop))
	case "gen":
		loadFixtures(*pages)
		b := genBatch(*prop, *seed, *batch, *nworlds, max(len(siteNames), 1), raceOn)
		data, _ := json.Marshal(b)
		if os.WriteFile(*out, data, 0o644) != nil {
			os.Exit(4)
		}
	case "alone":
		b := readBatch(fs.Arg(0))
		for i := range b.Worlds {
			if !alone(b.Prop, &b.Worlds[i], *budget) {
				os.Exit(7)
			}
		}
	case "replay":
		b := readBatch(fs.Arg(0))
		os.Exit(execBatch(b, *budget, *out, *dump, *progress, *fix, *stop))
	case "shrink":
		shrinkMain(fs.Arg(0), fs.Arg(1), *budget, *limit)
	default:
		os.Exit(4)
	}
}

func readBatch(f string) *Batch {
	data, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var b Batch
	if err := json.Unmarshal(data, &b); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	return &b
}

// realNow is used only to end a batch in time, never inside a world.
func realNow() time.Duration {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

// execBatch runs all worlds; 0 fine, 3 violation.
func execBatch(b *Batch, budget uint64, out string, dump bool, progress string, fix bool, stop time.Duration) int {
	t0 := realNow()
	st := Stats{Faults: map[string]int{}}
	hashes := map[uint64]bool{}
	traces := map[uint64]bool{}
	var v *Violation
	races := raceErrors()
	for i := range b.Worlds {
		w := &b.Worlds[i]
		if stop > 0 && i > 0 && realNow()-t0 > stop {
			break
		}
		if progress != "" {
			os.WriteFile(progress, []byte(fmt.Sprint(i)), 0o644)
		}
		if w.Reps > 0 {
			wr, m := repeat(w, budget)
			st.add(wr, hashes, traces)
			st.Reps += m.reps
			if dump {
				fmt.Printf("world %d steps %d reps %d\n", i, wr.out.Steps, m.reps)
			}
			if len(st.Samples) < 2 {
				st.Samples = append(st.Samples, describe(b, i, wr)+" "+m.String())
			}
			if v = m.verdict(b.Prop, i); v != nil {
				b.Worlds = b.Worlds[:i+1]
				break
			}
			if wr.out.Dead {
				break
			}
			continue
		}
		wr := runWorld(w, false, budget, b.Prop == "C10")
		st.add(wr, hashes, traces)
		if len(st.Samples) < 2 && (wr.out.Switches > 1 || i > 3) {
			st.Samples = append(st.Samples, describe(b, i, wr))
		}
		if dump {
			for _, r := range wr.runs {
				fmt.Printf("world %d session %d %s %d\n", i, r.idx, digest(r.trace()), r.maxSteps)
			}
			fmt.Printf("world %d steps %d switches %d hash %x pre %s\n", i, wr.out.Steps, wr.out.Switches, wr.out.Hash, digest(mustJSON(wr.out.Pre)+mustJSON(wr.out.Next)))
		}
		if fix {
			w.Sched = rt.Sched{Mode: "replay", Pre: wr.out.Pre, Next: wr.out.Next}
		}
		v = wr.verdict(b.Prop, i)
		if v == nil && raceErrors() > races {
			v = &Violation{Prop: b.Prop, Kind: "race", World: i, Sess: -1, What: "data race between concurrent callers (report on stderr)"}
		}
		if v != nil {
			b.Worlds = b.Worlds[:i+1]
			// fix the schedule of the failing world as a list of switches
			if w.Sched.Mode != "replay" {
				w.Sched = rt.Sched{Mode: "replay", Pre: wr.out.Pre, Next: wr.out.Next}
			}
			break
		}
		if wr.out.Dead {
			break // stuck tasks survive: the process cannot go on
		}
	}
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	for h := range traces {
		st.Traces = append(st.Traces, h)
	}
	sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
	sort.Slice(st.Traces, func(i, j int) bool { return st.Traces[i] < st.Traces[j] })
	st.Refs = refRuns
	for i := range rt.Hit {
		if rt.Hit[i] {
			st.Hit = append(st.Hit, i)
		}
		if rt.SwitchedAt[i] {
			st.SwitchedAt = append(st.SwitchedAt, i)
		}
	}
	if out != "" {
		data, _ := json.Marshal(map[string]any{"stats": st, "violation": v})
		os.WriteFile(out, data, 0o644)
		if v != nil || fix {
			data, _ := json.Marshal(b)
			os.WriteFile(out+".batch", data, 0o644)
		}
	}
	if v != nil {
		data, _ := json.Marshal(v)
		fmt.Println(string(data))
		return 3
	}
	return 0
}

// describe writes one world out for the evidence.
func describe(b *Batch, i int, wr *worldRun) string {
	w := &b.Worlds[i]
	s := fmt.Sprintf("seed %d batch %d world %d: %d callers, schedule %s, %d steps, %d switches;", b.Seed, b.Batch, i, len(w.Tasks), w.Sched.Mode, wr.out.Steps, wr.out.Switches)
	for j, r := range wr.runs {
		if j == 4 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" session %d: page of %d bytes, ops %v", j, len(r.s.page()), r.s.Ops)
		if len(r.s.Faults) > 0 {
			s += fmt.Sprintf(", faults %+v", r.s.Faults)
		}
		if len(r.s.Dom) > 0 {
			s += fmt.Sprintf(", %d edits", len(r.s.Dom))
		}
		s += ", outcome " + digest(r.trace()) + ";"
	}
	return s
}

func (st *Stats) add(wr *worldRun, hashes, traces map[uint64]bool) {
	st.Worlds++
	st.Steps += wr.out.Steps
	st.SimulatedUS += wr.out.Steps
	st.Switches += wr.out.Switches
	st.Blocked += wr.out.Blocked
	st.Children += wr.out.Children
	if wr.out.Switches > 0 {
		hashes[wr.out.Hash] = true
	}
	for _, r := range wr.runs {
		if r.pc == 0 {
			continue
		}
		st.Sessions++
		st.Ops += len(r.rec)
		st.DomOps += r.domOps
		st.DomRefused += r.domBad
		st.Refused += r.refusedOps
		st.MaxSteps = max(st.MaxSteps, r.maxSteps)
		nt := false
		for _, o := range r.rec {
			if o.Res != nil {
				st.Results++
				nt = true
			}
			if o.Err != "" || o.Panic != "" || o.Goexit || o.Bool != nil && *o.Bool {
				nt = true
			}
		}
		if nt {
			st.Nontrivial++
		}
		h := uint64(14695981039346656037)
		t := r.trace()
		for i := 0; i < len(t); i++ {
			h = (h ^ uint64(t[i])) * 1099511628211
		}
		traces[h] = true
		for _, d := range r.s.Damage {
			st.Faults["page "+d]++
		}
		if r.s.Flood > 0 {
			st.Faults["page flood"]++
		}
		for k, n := range r.fired {
			if n > 0 && k < len(faultKinds) {
				st.Faults[faultKinds[k]] += n
			}
		}
	}
}
