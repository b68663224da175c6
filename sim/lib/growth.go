package main

import (
	"fmt"
	"math"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"

	rt "github.com/giulianopz/go-readability/internal/verifrt"
)

// mark is replaced by something else in every repetition of a world, so that
// whatever is remembered about a page is remembered anew.
const mark = "@@@@@@"

func token(rep int) string {
	t := strconv.FormatInt(int64(rep)+36*36*36*36*36, 36)
	return t[len(t)-6:]
}

// instance is the world's rep-th repetition.
func instance(w *World, rep int) *World {
	c := *w
	c.rep = rep
	c.Seed += uint64(rep)
	c.Sched.Seed += uint64(rep)
	c.Sessions = make([]Session, len(w.Sessions))
	tok := token(rep)
	put := func(s string) string { return strings.ReplaceAll(s, mark, tok) }
	for i, s := range w.Sessions {
		s.Doc = Text(put(string(s.Doc)))
		s.URL = put(s.URL)
		s.Opts.Video = put(s.Opts.Video)
		var cl [][]string
		for _, l := range s.Opts.Classes {
			var n []string
			for _, c := range l {
				n = append(n, put(c))
			}
			cl = append(cl, n)
		}
		s.Opts.Classes = cl
		c.Sessions[i] = s
	}
	return &c
}

// holding is what the process holds while nothing is going on.
type holding struct{ objects, bytes, routines, tickers int }

type growth struct {
	reps    int
	moments [][][]int // stage, window: when it was looked
	all     []holding // by repetition; made in advance, not to grow itself
	stage   int       // stages done
	grows   string
	done    bool
}

// hold lets everything that can still happen happen and counts what is left.
func hold() holding {
	rt.SetClock(0)
	ballast = nil
	for i := 0; i < 4; i++ {
		runtime.GC()
		for j := 0; j < 20; j++ {
			runtime.Gosched()
		}
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return holding{int(m.HeapObjects), int(m.HeapAlloc), runtime.NumGoroutine(), 0}
}

// longer: a world that seems to make the process grow is repeated that many
// times as often, twice if need be, before anything is said about it.
var longer = []int{1, 4, 32}

// The process grows if it holds more in every moment of a window than in any
// moment of the window before. The windows are parts of the run, far enough
// apart for containers that double their size, and are looked at in irregular
// moments, since what is bounded may go up and down.
var windows = [][2]float64{{0.015, 0.03}, {0.15, 0.25}, {0.8, 1}}

func moments(w *World, end int) [][]int {
	r := newRng(w.Seed^0x6d6f6d656e7473, uint64(end))
	var ms [][]int
	for _, f := range windows {
		lo, hi := max(1, int(f[0]*float64(end))), int(f[1]*float64(end))
		m := []int{lo}
		for i := 0; i < 10 && i < (hi-lo)/2; i++ {
			m = append(m, r.Range(lo, hi))
		}
		sort.Ints(m)
		ms = append(ms, slices.Compact(m))
	}
	return ms
}

// repeat runs the world over and over. Where the first repetitions look as if
// the process grew, many more follow: what is kept may be bounded after all.
func repeat(w *World, budget uint64) (*worldRun, growth) {
	g := growth{all: make([]holding, w.Reps*longer[len(longer)-1]+1)}
	due := map[int]bool{}
	for _, l := range longer {
		ms := moments(w, w.Reps*l)
		g.moments = append(g.moments, ms)
		for _, m := range ms {
			for _, x := range m {
				due[x] = true
			}
		}
	}
	var first *worldRun
	tickers := 0
	for rep := 0; ; rep++ {
		if due[rep] {
			h := hold()
			h.tickers = tickers
			g.all[rep] = h
		}
		if rep == w.Reps*longer[g.stage] {
			g.stage++
			g.grows = g.what()
			if g.grows == "" || g.stage == len(longer) || g.stage == 2 && g.much() {
				g.done = true
				break
			}
		}
		g.reps++
		wr := runWorld(instance(w, rep), false, budget, false)
		if wr.out.Dead {
			g.grows = ""
			return wr, g
		}
		tickers += wr.out.Tickers
		if rep == 0 {
			first = wr
			for _, r := range wr.runs { // only what the statistics need
				r.rd, r.opt, r.kept, r.keptRes, r.keptLog, r.tree, r.saved = nil, nil, nil, nil, nil, nil, nil
			}
			wr.groups, wr.owns, wr.ownOf = nil, nil, nil
		}
	}
	return first, g
}

type metric struct {
	name string
	of   func(h holding) int
	rate float64 // less than this much for one repetition is not growth
}

var metrics = []metric{
	{"goroutines", func(h holding) int { return h.routines }, 0.2},
	{"timers", func(h holding) int { return h.tickers }, 0.2},
	{"objects", func(h holding) int { return h.objects }, 0.2},
	{"bytes", func(h holding) int { return h.bytes }, 6},
}

// what has been growing in the stages so far.
func (g *growth) what() string {
	for _, m := range metrics {
		up := true
		for _, ms := range g.moments[:g.stage] {
			for i := 1; i < len(ms); i++ {
				hi, lo := math.MinInt, math.MaxInt
				for _, x := range ms[i-1] {
					hi = max(hi, m.of(g.all[x]))
				}
				for _, x := range ms[i] {
					lo = min(lo, m.of(g.all[x]))
				}
				up = up && float64(lo-hi) >= m.rate*float64(ms[i][0]-ms[i-1][len(ms[i-1])-1])
			}
		}
		if up {
			return m.name
		}
	}
	return ""
}

// much: the process keeps so much that one should not go on for long. Nothing
// bounded grows for hundreds of repetitions at this rate.
func (g *growth) much() bool {
	ms := g.moments[1]
	b, c := ms[1][0], ms[2][0]
	return g.all[c].bytes-g.all[b].bytes > 50_000*(c-b)
}

func (g *growth) String() string {
	var sb strings.Builder
	for _, ms := range g.moments[:g.stage] {
		for _, m := range ms {
			h := g.all[m[0]]
			fmt.Fprintf(&sb, "after %d repetitions %d goroutines, %d timers, %d objects, %d bytes; ", m[0], h.routines, h.tickers, h.objects, h.bytes)
		}
	}
	return strings.TrimSuffix(sb.String(), "; ")
}

func (g *growth) verdict(prop string, wi int) *Violation {
	if g.grows == "" || !g.done {
		return nil
	}
	return &Violation{Prop: prop, Kind: "growth", World: wi, Sess: -1, What: "the process holds ever more " + g.grows + ": " + g.String()}
}

// decorate puts the mark wherever a page, an address or an option may differ.
func decorate(r *Rng, s *Session) {
	d := string(s.Doc)
	for _, x := range [][2]string{
		{`class="`, `class="c` + mark + ` `}, {`id="`, `id="i` + mark}, {`href="`, `href="` + mark + `/`}, {`src="`, `src="` + mark + `/`}, {`<p>`, `<p>` + mark + ` `},
		{`<title>`, `<title>` + mark + ` `}, {`content="`, `content="` + mark + ` `}, {`<h1>`, `<h1>` + mark}, {`<h2>`, `<h2>` + mark}, {`<div>`, `<div data-x` + mark + `="1">`},
		{`"headline":"`, `"headline":"` + mark}, {`"name":"`, `"name":"` + mark}, {`<span>`, `<s` + mark + `>`}, {`style="`, `style="x:` + mark + `;`}, {`dir="`, `dir="` + mark},
		{`lang="`, `lang="` + mark}, {`rel="`, `rel="` + mark + ` `}, {`alt="`, `alt="` + mark}, {`itemprop="`, `itemprop="` + mark + ` `}, {`&amp;`, `&x` + mark + `;`}, {`srcset="`, `srcset="` + mark + `/`},
	} {
		if r.P(3, 5) {
			d = strings.ReplaceAll(d, x[0], x[1])
		}
	}
	// any attribute at all, in front or behind
	for _, name := range attrNames(d) {
		switch r.N(6) {
		case 0:
			d = strings.ReplaceAll(d, " "+name+`="`, " "+name+`="`+mark)
		case 1:
			d = attrBehind(d, " "+name+`="`)
		case 2:
			d = strings.ReplaceAll(d, " "+name+`="`, " "+name+mark+`="x" `+name+`="`)
		}
	}
	for _, x := range [][2]string{{`":"`, `":"` + mark}, {`{"`, `{"k` + mark + `":1,"`}, {`{"`, `{` + mark + `"`}, {`base64,`, `base64,` + mark}, {`<!--`, `<!--` + mark}, {`</a>`, mark + `</a>`},
		{`<td>`, `<td>` + mark}, {`<li>`, `<li>` + mark + ` `}, {`<br/>`, `<br/>` + mark}, {`<noscript>`, `<noscript><i>` + mark + `</i>`}, {`. `, `. ` + mark + ` `}} {
		if r.P(1, 8) {
			d = strings.ReplaceAll(d, x[0], x[1])
		}
	}
	s.Doc = Text(d)
	if r.P(3, 5) {
		s.URL = strings.TrimRight(s.URL, "/") + "/" + mark + "/"
	}
	if len(s.Opts.Classes) > 0 && r.P(2, 3) {
		s.Opts.Classes = append(append([][]string(nil), s.Opts.Classes...), []string{"c" + mark, "k" + mark})
	}
	if s.Opts.Video != "" && r.P(1, 2) {
		s.Opts.Video += "|" + mark
	}
}

// attrNames lists the names of the attributes of a page.
func attrNames(d string) []string {
	var names []string
	seen := map[string]bool{}
	for {
		i := strings.Index(d, `="`)
		if i < 0 {
			return names
		}
		j := strings.LastIndexAny(d[:i], " \t\n<>\"'=")
		if n := d[j+1 : i]; j >= 0 && d[j] == ' ' && n != "" && !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
		d = d[i+2:]
	}
}

// attrBehind puts the mark at the end of the values that follow pre.
func attrBehind(d, pre string) string {
	var sb strings.Builder
	for {
		i := strings.Index(d, pre)
		if i < 0 {
			return sb.String() + d
		}
		i += len(pre)
		j := strings.IndexByte(d[i:], '"')
		if j < 0 {
			return sb.String() + d
		}
		sb.WriteString(d[:i+j] + mark)
		d = d[i+j:]
	}
}
