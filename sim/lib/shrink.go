package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	rt "github.com/giulianopz/go-readability/internal/verifrt"
)

type shrinker struct {
	self   string
	tmp    string
	kind   string
	budget uint64
	end    time.Time
	tries  int
	best   *Batch
}

func clone(b *Batch) *Batch {
	data, _ := json.Marshal(b)
	var c Batch
	json.Unmarshal(data, &c)
	return &c
}

// kindOf replays a batch in a fresh process and names how it fails.
func (s *shrinker) kindOf(b *Batch) string {
	data, _ := json.Marshal(b)
	f := s.tmp + ".cand"
	if err := os.WriteFile(f, data, 0o644); err != nil {
		return ""
	}
	cmd := exec.Command(s.self, "replay", "-budget", fmt.Sprint(s.budget), "-ref", refBin, f)
	cmd.Env = os.Environ()
	out, err := cmd.Output()
	s.tries++
	if err == nil {
		return ""
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		var v Violation
		lines := strings.Split(strings.TrimSpace(string(out)), "\n")
		if json.Unmarshal([]byte(lines[len(lines)-1]), &v) == nil {
			return v.Kind
		}
	}
	return "fatal"
}

func (s *shrinker) try(b *Batch) bool {
	if time.Now().After(s.end) {
		return false
	}
	if s.kindOf(b) == s.kind {
		s.best = b
		return true
	}
	return false
}

// ddmin removes chunks of a list of n items; mk builds the candidate that
// keeps the given items.
func (s *shrinker) ddmin(n int, mk func(keep []int) *Batch) {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	if n == 0 {
		return
	}
	if s.try(mk(nil)) {
		return
	}
	for c := (len(keep) + 1) / 2; c >= 1 && time.Now().Before(s.end); {
		shrunk := false
		for i := 0; i < len(keep); {
			j := min(i+c, len(keep))
			cand := append(append([]int(nil), keep[:i]...), keep[j:]...)
			if s.try(mk(cand)) {
				keep = cand
				shrunk = true
			} else {
				i = j
			}
			if time.Now().After(s.end) {
				return
			}
		}
		if c == 1 && !shrunk {
			return
		}
		if !shrunk || c > len(keep) {
			c /= 2
		}
	}
}

func shrinkMain(in, out string, budget uint64, limit time.Duration) {
	b := readBatch(in)
	self, _ := os.Executable()
	s := &shrinker{self: self, tmp: out, budget: budget, end: time.Now().Add(limit), best: b}
	defer os.Remove(out + ".cand")
	s.kind = s.kindOf(b)
	if s.kind == "" {
		fmt.Println("not reproduced")
		os.Exit(5)
	}
	// only the last world, else as few as possible
	last := len(b.Worlds) - 1
	if last > 0 {
		c := clone(b)
		c.Worlds = c.Worlds[last:]
		if !s.try(c) {
			s.ddmin(last, func(keep []int) *Batch {
				c := clone(b)
				ws := c.Worlds
				c.Worlds = nil
				for _, k := range keep {
					c.Worlds = append(c.Worlds, ws[k])
				}
				c.Worlds = append(c.Worlds, ws[last])
				return c
			})
		}
	}
	for round := 0; round < 2; round++ {
		for w := len(s.best.Worlds) - 1; w >= 0; w-- {
			s.world(w, round)
		}
	}
	data, _ := json.MarshalIndent(s.best, "", " ")
	os.WriteFile(out, data, 0o644)
	fmt.Printf("{\"kind\":%q,\"tries\":%d}\n", s.kind, s.tries)
}

func (s *shrinker) world(w, round int) {
	// whole callers
	base := s.best
	if n := len(base.Worlds[w].Tasks); n > 1 {
		s.ddmin(n, func(keep []int) *Batch {
			c := clone(base)
			in := map[int]bool{}
			for _, k := range keep {
				in[k] = true
			}
			for t := range c.Worlds[w].Tasks {
				if !in[t] {
					c.Worlds[w].Tasks[t] = nil
				}
			}
			return c
		})
	}
	// whole sessions
	base = s.best
	s.ddmin(len(base.Worlds[w].Sessions), func(keep []int) *Batch {
		c := clone(base)
		in := map[int]bool{}
		for _, k := range keep {
			in[k] = true
		}
		for t := range c.Worlds[w].Tasks {
			var st []int
			for _, x := range c.Worlds[w].Tasks[t] {
				if in[x] {
					st = append(st, x)
				}
			}
			c.Worlds[w].Tasks[t] = st
		}
		for i := range c.Worlds[w].Sessions {
			if !in[i] {
				c.Worlds[w].Sessions[i] = Session{}
			}
		}
		return c
	})
	// preemptions
	base = s.best
	if base.Worlds[w].Sched.Mode != "replay" {
		c := clone(base)
		c.Worlds[w].Sched = rt.Sched{Mode: "seq"}
		s.try(c)
	} else {
		c := clone(base)
		c.Worlds[w].Sched.Next = nil
		s.try(c)
		base = s.best
		s.ddmin(len(base.Worlds[w].Sched.Pre), func(keep []int) *Batch {
			c := clone(base)
			var p []rt.Pre
			for _, k := range keep {
				p = append(p, base.Worlds[w].Sched.Pre[k])
			}
			c.Worlds[w].Sched.Pre = p
			return c
		})
	}
	// world settings
	for _, f := range []func(x *World){
		func(x *World) { x.Ballast = 0 },
		func(x *World) { x.Clock = 0 },
		func(x *World) { x.Seed = 12345 },
	} {
		c := clone(s.best)
		f(&c.Worlds[w])
		s.try(c)
	}
	for i := range s.best.Worlds[w].Sessions {
		if len(s.best.Worlds[w].Sessions[i].Ops) == 0 {
			continue
		}
		s.session(w, i)
	}
	if round == 0 {
		s.docs(w)
	}
}

func (s *shrinker) session(w, i int) {
	get := func(b *Batch) *Session { return &b.Worlds[w].Sessions[i] }
	base := s.best
	s.ddmin(len(get(base).Faults), func(keep []int) *Batch {
		c := clone(base)
		var f []Fault
		for _, k := range keep {
			f = append(f, get(base).Faults[k])
		}
		get(c).Faults = f
		return c
	})
	base = s.best
	s.ddmin(len(get(base).Dom), func(keep []int) *Batch {
		c := clone(base)
		var f []DomOp
		for _, k := range keep {
			f = append(f, get(base).Dom[k])
		}
		get(c).Dom = f
		return c
	})
	for _, f := range []func(x *Session){
		func(x *Session) { x.Opts = OptSpec{} },
		func(x *Session) { x.Opts.MaxElems = nil },
		func(x *Session) { x.Opts.NTop = nil },
		func(x *Session) { x.Opts.CharThr = nil },
		func(x *Session) { x.Opts.Classes = nil },
		func(x *Session) { x.Opts.Keep = nil },
		func(x *Session) { x.Opts.NoJSONLD = nil },
		func(x *Session) { x.Opts.Video = "" },
		func(x *Session) { x.Opts.MinLen = nil },
		func(x *Session) { x.Opts.MinScore = nil },
		func(x *Session) { x.Opts.Ser = "" },
		func(x *Session) { x.Opts.H2T = "" },
		func(x *Session) { x.Opts.Vis = "" },
		func(x *Session) { x.Opts.Custom = false },
		func(x *Session) { x.Log = LogSpec{} },
		func(x *Session) { x.Group = 0 },
	} {
		c := clone(s.best)
		f(get(c))
		if mustJSON(get(c)) == mustJSON(get(s.best)) {
			continue
		}
		s.try(c)
	}
	for len(get(s.best).Ops) > 1 {
		c := clone(s.best)
		get(c).Ops = get(c).Ops[:len(get(c).Ops)-1]
		if !s.try(c) {
			break
		}
	}
}

// docs shrinks page texts, all sessions with the same page together.
func (s *shrinker) docs(w int) {
	done := map[Text]bool{}
	for i := range s.best.Worlds[w].Sessions {
		doc := s.best.Worlds[w].Sessions[i].Doc
		if doc == "" || done[doc] {
			continue
		}
		set := func(b *Batch, from, to Text) {
			for x := range b.Worlds {
				for j := range b.Worlds[x].Sessions {
					if b.Worlds[x].Sessions[j].Doc == from {
						b.Worlds[x].Sessions[j].Doc = to
					}
				}
			}
		}
		for c := len(doc) / 2; c >= 1 && time.Now().Before(s.end); {
			shrunk := false
			for a := 0; a+c <= len(doc); {
				cand := doc[:a] + doc[a+c:]
				b := clone(s.best)
				set(b, doc, cand)
				if s.try(b) {
					doc = cand
					shrunk = true
				} else {
					a += c
				}
				if time.Now().After(s.end) {
					return
				}
			}
			if !shrunk || c > len(doc) {
				if c == 1 {
					break
				}
				c /= 2
			}
		}
		done[doc] = true
	}
}
