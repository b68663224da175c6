package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"

	rt "github.com/giulianopz/go-readability/internal/verifrt"
)

// universe is the small, heavily correlated set of pages, addresses and
// options the callers of one process work with: the same page under several
// addresses and options, near-identical pages, pages sharing titles, class
// names and metadata. State that leaks from call to call shows where two calls
// are alike in one respect and differ in another.
type universe struct {
	docs []string
	urls []string
	opts []OptSpec
}

var fixtures []string

func loadFixtures(dir string) {
	ms, _ := filepath.Glob(filepath.Join(dir, "*", "source.html"))
	sort.Strings(ms)
	for _, m := range ms {
		if fi, err := os.Stat(m); err == nil && fi.Size() < 24<<10 {
			if b, err := os.ReadFile(m); err == nil {
				fixtures = append(fixtures, string(b))
			}
		}
	}
}

var allURLs = []string{"http://fakehost/test/page.html", "http://fakehost/test/other.html", "https://other.example/a/b/c?q=1#frag", "http://fakehost/", "http://FakeHost/test/page.html", "", "http://fakehost/test/page.html?x=2", "http://[bad", "/relative/only"}

func ip(i int) *int          { return &i }
func bp(b bool) *bool        { return &b }
func fp(f float64) *float64  { return &f }
func logU(r *Rng, n int) int { return 1 + r.N(1<<r.N(bits(n)+1))%n }
func bits(n int) int {
	b := 0
	for n > 1 {
		n >>= 1
		b++
	}
	return b
}

func classList(r *Rng) []string {
	var l []string
	for k := r.Range(1, 4); k > 0; k-- {
		switch r.N(3) {
		case 0:
			l = append(l, pick(r, positiveNames))
		case 1:
			l = append(l, pick(r, neutralNames))
		default:
			l = append(l, pick(r, negativeNames))
		}
	}
	return l
}

func genOpts(r *Rng) OptSpec {
	var o OptSpec
	if r.P(2, 3) {
		o.CharThr = ip(pick(r, []int{0, 1, 25, 100, 200, 500, 500, 2000, 100000, -5}))
	}
	if r.P(1, 4) {
		o.NTop = ip(pick(r, []int{0, 1, 2, 3, 5, 10, 50}))
	}
	if r.P(1, 2) {
		for k := r.Range(1, 2); k > 0; k-- {
			o.Classes = append(o.Classes, classList(r))
		}
	}
	if r.P(1, 5) {
		o.Keep = bp(r.P(2, 3))
	}
	if r.P(1, 5) {
		o.NoJSONLD = bp(r.P(2, 3))
	}
	if r.P(1, 8) {
		o.MaxElems = ip(pick(r, []int{1, 2, 10, 20, 40, 80, 1000}))
	}
	if r.P(1, 4) {
		o.MinLen = ip(pick(r, []int{0, 20, 80, 140, 400}))
	}
	if r.P(1, 4) {
		o.MinScore = fp(pick(r, []float64{0, 5, 20, 21, 60}))
	}
	if r.P(1, 6) {
		o.Video = pick(r, []string{`//(www\.)?(?:youtube|youtube\.com/embed)`, `x`, `videos?|videos\.example`, `(?:vimeo|player\.vimeo\.com)`})
	}
	if r.P(1, 3) {
		o.Ser = pick(r, []string{"inner", "text", "const", "odd", "inner", "wreck", "deface"})
	}
	if r.P(1, 3) {
		o.H2T = pick(r, []string{"strip", "const", "odd", "echo", "empty"})
	}
	if r.P(1, 3) {
		o.Vis = pick(r, []string{"true", "attr", "hash", "false"})
	}
	return o
}

// parts of a page that say something about it on their own
var parts = [][2]string{{"<title>", "</title>"}, {"<script type=\"application/ld+json\">", "</script>"}, {"<base", "/>"}, {"<html", ">"}, {"<meta", "/>"}, {"<body", "</body>"}, {"<h1", "</h1>"}, {"<h2", "</h2>"}, {"<img", "/>"}, {"<a ", "</a>"}, {"<table", "</table>"}, {"<noscript", "</noscript>"}, {"<p", "</p>"}}

func part(d string, p [2]string) (int, int) {
	i := strings.Index(d, p[0])
	if i < 0 {
		return -1, -1
	}
	j := strings.Index(d[i:], p[1])
	if j < 0 {
		return -1, -1
	}
	return i, i + j + len(p[1])
}

// splice gives d one part of e.
func splice(r *Rng, d, e string) string {
	for try := 0; try < 6; try++ {
		p := pick(r, parts)
		if r.P(1, 2) {
			p = parts[r.N(6)]
		}
		i, j := part(d, p)
		k, l := part(e, p)
		if i >= 0 && k >= 0 && d[i:j] != e[k:l] {
			return d[:i] + e[k:l] + d[j:]
		}
	}
	return d
}

// retitle gives the page a title its own metadata mention.
func retitle(r *Rng, d string) string {
	i, j := part(d, parts[0])
	if i < 0 {
		return d
	}
	var c []string
	for _, k := range []string{`"name":"`, `"headline":"`, `content="`, "<h1>", "<h2>"} {
		if x := strings.Index(d, k); x >= 0 {
			v := d[x+len(k):]
			if y := strings.IndexAny(v, "\"<"); y > 0 {
				c = append(c, v[:y])
			}
		}
	}
	if len(c) == 0 {
		return d
	}
	t := pick(r, c)
	switch r.N(4) {
	case 0:
		t += " | The Site"
	case 1:
		t = "The Site: " + t
	}
	return d[:i] + "<title>" + t + "</title>" + d[j:]
}

func tweak(r *Rng, d string, docs []string) string {
	switch r.N(8) {
	case 5, 6:
		return splice(r, d, pick(r, docs))
	case 7:
		return retitle(r, d)
	case 0: // other words, same structure
		for k := r.Range(1, 6); k > 0; k-- {
			d = strings.ReplaceAll(d, " "+pick(r, words)+" ", " "+pick(r, words)+" ")
		}
	case 1: // other class names
		for k := r.Range(1, 3); k > 0; k-- {
			d = strings.ReplaceAll(d, `"`+pick(r, positiveNames)+`"`, `"`+pick(r, unlikelyNames)+`"`)
		}
	case 2: // other title
		if i := strings.Index(d, "<title>"); i >= 0 {
			if j := strings.Index(d[i:], "</title>"); j >= 0 {
				d = d[:i] + "<title>" + pick(r, titleVals) + d[i+j:]
			}
		}
	case 3:
		d = applyDamage(d, genDamage(r, len(d)))
	case 4: // same head, other body
		if i := strings.Index(d, "<body"); i >= 0 {
			e := genPage(r, r.Range(4, 40))
			if j := strings.Index(e, "<body"); j >= 0 {
				d = d[:i] + e[j:]
			}
		}
	}
	return d
}

func genUniverse(r *Rng, maxSize int) *universe {
	u := &universe{}
	for k := r.Range(2, 4); k > 0; k-- {
		var d string
		if len(fixtures) > 0 && r.P(1, 8) {
			d = pick(r, fixtures)
		} else {
			d = genPage(r, r.Range(4, maxSize))
		}
		u.docs = append(u.docs, d)
		for j := r.N(3); j > 0; j-- {
			if t := tweak(r, d, u.docs); t != "" {
				u.docs = append(u.docs, t)
			}
		}
	}
	if r.P(1, 6) {
		u.docs = append(u.docs, pick(r, []string{"", " ", "<p>no body", "<html></html>", "<html><body></body></html>", "plain text"}))
	}
	hot := directed(r)
	if hot {
		for k := r.Range(1, len(u.docs)); k > 0; k-- {
			i := r.N(len(u.docs))
			d := season(r, u.docs[i])
			if r.P(1, 2) && len(u.docs) < 12 {
				u.docs = append(u.docs, d)
			} else {
				u.docs[i] = d
			}
		}
	}
	u.urls = []string{allURLs[0]}
	if hot && r.P(1, 2) {
		t := dictWord(r)
		u.urls = append(u.urls, pick(r, []string{"http://fakehost/" + t, "http://fakehost/test/" + t + "/page.html", "http://fakehost/test/page.html?" + t + "=1", "http://fakehost/test/page.html#" + t, "http://" + t + ".example/test/page.html", "http://" + t + "/test/page.html", "http://fakehost/test/page." + t, t + "://fakehost/test/page.html", "http://fakehost/" + prose(r, min(4096, dictInt(r)))}))
	}
	for k := r.N(3); k > 0; k-- {
		u.urls = append(u.urls, pick(r, allURLs))
	}
	u.opts = []OptSpec{{}}
	for k := r.Range(1, 4); k > 0; k-- {
		o := genOpts(r)
		if hot {
			switch r.N(8) {
			case 0:
				o.CharThr = ip(dictInt(r))
			case 1:
				o.NTop = ip(dictInt(r))
			case 2:
				o.MaxElems = ip(max(1, dictInt(r)))
			case 3:
				o.MinLen = ip(dictInt(r))
			case 4:
				o.Classes = append(o.Classes, []string{dictWord(r), pick(r, positiveNames)})
			case 5:
				o.MinScore = fp(float64(dictInt(r)))
			}
		}
		u.opts = append(u.opts, o)
	}
	return u
}

var opMenus = [][]string{
	{"new", "parse"}, {"new", "parse"}, {"new", "parse"}, {"new", "parse"}, {"new", "parse"},
	{"readerable"}, {"readerable", "new", "parse"}, {"new", "parse", "parse"}, {"new"}, {"new", "readerable", "parse"}, {"new", "parse", "readerable", "readerable"},
}

func genSession(r *Rng, u *universe) Session {
	s := Session{Doc: Text(pick(r, u.docs)), URL: pick(r, u.urls), Opts: pick(r, u.opts), Ops: pick(r, opMenus)}
	return s
}

func genSched(r *Rng, nsites int) rt.Sched {
	s := rt.Sched{Seed: r.U64()}
	switch r.N(7) {
	case 0:
		s.Mode = "op"
	case 1, 2:
		s.Mode = "rand"
		s.Gap = uint64(logU(r, 8192))
	case 3, 4:
		s.Mode = "hot"
		s.Gap = uint64(2000 + logU(r, 1<<17))
		for k := r.Range(1, 5); k > 0; k-- {
			s.Hot = append(s.Hot, r.N(nsites))
		}
	default:
		s.Mode = "pct"
		s.Points = r.Range(1, 8)
		s.Len = uint64(1000 + logU(r, 1<<21))
	}
	return s
}

// cbs lists the callbacks a session really has.
func cbsOf(s *Session) []string {
	var c []string
	if s.Opts.Ser != "" {
		c = append(c, "ser")
	}
	if s.Opts.H2T != "" {
		c = append(c, "h2t")
	}
	if s.Opts.Vis != "" {
		for _, o := range s.Ops {
			if o == "readerable" {
				c = append(c, "vis")
				break
			}
		}
	}
	if s.Opts.Custom {
		c = append(c, "opt")
	}
	if s.Log.On {
		c = append(c, "log")
	}
	return c
}

func genFault(r *Rng, s *Session, kinds []string) (Fault, bool) {
	cs := cbsOf(s)
	if len(cs) == 0 {
		return Fault{}, false
	}
	f := Fault{Cb: pick(r, cs), Kind: pick(r, kinds)}
	switch f.Cb {
	case "log":
		f.N = logU(r, 4096)
	case "vis":
		f.N = logU(r, 8)
	case "opt":
		f.N = r.Range(1, 2)
	default:
		f.N = 1
		if r.P(1, 6) {
			f.N = 2
		}
	}
	switch f.Kind {
	case "slow":
		f.Arg = pick(r, slowMS)
		if len(intNew) > 0 && r.P(1, 2) {
			f.Arg = min(1+dictInt(r), 90000) * pick(r, []int{1, 1000})
		}
	case "clock":
		f.Arg = pick(r, []int{1, -1, 3600, -86400, 1 << 28, -(1 << 28)})
	case "reseed":
		f.Arg = r.N(1 << 30)
	}
	return f, true
}

// addCallbacks makes sure the session has user code to run.
func addCallbacks(r *Rng, s *Session) {
	if s.Opts.Ser == "" && r.P(2, 3) {
		s.Opts.Ser = pick(r, []string{"inner", "text", "const"})
	}
	if s.Opts.H2T == "" && r.P(1, 2) {
		s.Opts.H2T = pick(r, []string{"strip", "const", "echo"})
	}
	if s.Opts.Vis == "" && r.P(1, 2) {
		s.Opts.Vis = pick(r, []string{"true", "attr", "hash"})
	}
	if r.P(1, 3) {
		s.Opts.Custom = true
	}
	if r.P(1, 3) {
		s.Log = LogSpec{On: true, Level: -4}
	}
}

// deal distributes sessions over tasks and merges their operations.
func deal(r *Rng, w *World, ntask int, inter bool) {
	per := make([][]int, ntask)
	k := 0
	for i := range w.Sessions {
		if w.Sessions[i].Nested {
			continue
		}
		per[k%ntask] = append(per[k%ntask], i)
		k++
	}
	for _, ss := range per {
		var steps []int
		left := map[int]int{}
		for _, i := range ss {
			left[i] = len(w.Sessions[i].Ops)
		}
		if !inter {
			for _, i := range ss {
				for ; left[i] > 0; left[i]-- {
					steps = append(steps, i)
				}
			}
		} else {
			open := append([]int(nil), ss...)
			for len(open) > 0 {
				win := min(len(open), 3)
				x := r.N(win)
				i := open[x]
				steps = append(steps, i)
				if left[i]--; left[i] == 0 {
					open = append(open[:x:x], open[x+1:]...)
				}
			}
		}
		w.Tasks = append(w.Tasks, steps)
	}
}

func (g *gen) group(w *World) {
	r := g.r
	// some sessions share option values
	for k := r.N(3); k > 0 && len(w.Sessions) > 1; k-- {
		a, b := r.N(len(w.Sessions)), r.N(len(w.Sessions))
		if a == b || w.Sessions[a].Group != 0 || w.Sessions[b].Group != 0 || len(w.Sessions[a].Dom)+len(w.Sessions[b].Dom) > 0 {
			continue
		}
		w.Sessions[b].Opts = w.Sessions[a].Opts
		// faults were drawn for the callbacks a session had before
		w.Sessions[b].Faults = nil
		w.Sessions[a].Group = a + 1
		w.Sessions[b].Group = a + 1
		if r.P(1, 2) {
			w.Sessions[b].Doc = w.Sessions[a].Doc
		}
		if r.P(1, 2) {
			w.Sessions[b].Ops = w.Sessions[a].Ops
		}
	}
}

// vandals: callers that spoil what they were given once they are done.
func (g *gen) vandals(w *World, den int) {
	for i := range w.Sessions {
		if s := &w.Sessions[i]; g.r.P(1, den) {
			s.Ops = append(append([]string(nil), s.Ops...), "vandal")
			if s.Group == 0 {
				s.Opts.Custom = true
			}
		}
	}
}

// nest adds sessions that run inside callbacks of others.
func (g *gen) nest(w *World, den int) {
	r := g.r
	n := len(w.Sessions)
	for i := 0; i < n; i++ {
		if !r.P(1, den) {
			continue
		}
		f, ok := genFault(r, &w.Sessions[i], []string{"reenter"})
		if !ok {
			continue
		}
		s := genSession(r, g.u)
		s.Nested = true
		if r.P(1, 3) { // the very same work, inside itself
			s.Doc, s.URL, s.Opts = w.Sessions[i].Doc, w.Sessions[i].URL, w.Sessions[i].Opts
		}
		f.Arg = len(w.Sessions)
		w.Sessions[i].Faults = append(w.Sessions[i].Faults, f)
		w.Sessions = append(w.Sessions, s)
	}
}

// slowMS: how long a callback takes, in milliseconds.
var slowMS = []int{1, 50, 1000, 6000, 31000, 600_000, 90_000_000}

var stallKinds = []string{"stall", "stall", "stall", "die", "panic", "panicerr", "goexit"}

// crowd: a great many callers, most of them stuck for good.
func (g *gen) crowd(w *World) {
	r := g.r
	nt := r.Range(6, 40)
	if r.P(1, 2) {
		g.queue(w)
		return
	}
	big := 0
	for i, d := range g.u.docs {
		if len(d) > len(g.u.docs[big]) {
			big = i
		}
	}
	for k := 0; k < nt; k++ {
		s := genSession(r, g.u)
		if len(s.Doc) == len(g.u.docs[big]) && r.P(2, 3) {
			s.Doc = Text(pick(r, g.u.docs))
		}
		s.Ops = pick(r, [][]string{{"new", "parse"}, {"new", "parse"}, {"readerable"}, {"readerable", "new", "parse"}})
		addCallbacks(r, &s)
		s.Log = LogSpec{}
		if k < nt-1 && r.P(5, 6) || k == 0 {
			if f, ok := genFault(r, &s, stallKinds); ok {
				if f.Cb != "log" {
					f.N = 1
				}
				s.Faults = append(s.Faults, f)
			}
		}
		w.Sessions = append(w.Sessions, s)
	}
	deal(r, w, nt, false)
	w.Sched = genSched(r, g.nsites)
	if w.Sched.Mode == "rand" && w.Sched.Gap < 200 {
		w.Sched.Gap += 200
	}
}

// tiny pages are cheap and have an article.
func tiny(r *Rng) string {
	d := tinyPage(r)
	if directed(r) && r.P(1, 2) {
		d = mention(r, d, dictWord(r))
	}
	return d
}

func tinyPage(r *Rng) string {
	return "<html><head><title>" + pick(r, titleVals) + `</title></head><body><article class="x"><p class="y">` + genText(r, false) + ` and so on, <a href="u">on</a>.</p><p>` + genText(r, true) + "</p></article></body></html>"
}

// queue: a long row of callers with small pages, stuck at the same place.
func (g *gen) queue(w *World) {
	r := g.r
	nt := pick(r, []int{5, 9, 12, 17, 20, 33, 48, 65, 80, 120, 150})
	if len(intNew) > 0 && r.P(1, 3) {
		nt = max(5, min(150, dictInt(r)+4))
	}
	doc := Text(tiny(r))
	cb := pick(r, []string{"ser", "ser", "h2t", "h2t", "vis", "opt"})
	kind := pick(r, []string{"stall", "stall", "stall", "die"})
	for k := 0; k < nt; k++ {
		s := Session{Doc: doc, URL: allURLs[0], Ops: []string{"new", "parse"}, Opts: OptSpec{CharThr: ip(0)}}
		if r.P(1, 4) {
			s.Doc = Text(tiny(r))
		}
		if cb == "vis" {
			s.Opts.Vis, s.Ops = "true", []string{"readerable"}
		}
		s.Opts.Ser, s.Opts.H2T, s.Opts.Custom = "inner", "strip", cb == "opt"
		if k < nt-2 {
			s.Faults = []Fault{{Cb: cb, N: 1, Kind: kind}}
		}
		w.Sessions = append(w.Sessions, s)
	}
	deal(r, w, nt, false)
	w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op", "op"}), Seed: r.U64()}
}

// burst puts a long history in front of some session.
func (g *gen) burst(w *World) {
	r := g.r
	s := &w.Sessions[r.N(len(w.Sessions))]
	if s.Nested || s.Group > 0 {
		return
	}
	b := &Burst{N: logU(r, 2000), How: pick(r, []string{"ok", "ok", "panic", "panic", "panicopt", "panicvis", "refuse", "fail", "abandon", "hold", "probe"}), Page: Text(tiny(r))}
	if len(intNew) > 0 && r.P(1, 2) {
		b.N = max(1, min(4000, dictInt(r)))
	}
	if b.N < 60 && r.P(1, 2) {
		b.Page = Text(pick(r, g.u.docs))
	}
	s.Burst = b
	at := 0
	if r.P(1, 2) {
		at = r.N(len(s.Ops) + 1)
	}
	s.Ops = append(append(append([]string(nil), s.Ops[:at]...), "burst"), s.Ops[at:]...)
}

// round: the same page again from another address, after as many calls as make
// a small counter come round.
func (g *gen) round(w *World) {
	r := g.r
	doc := Text(pick(r, g.u.docs))
	n := pick(r, []int{15, 31, 63, 127, 255, 255, 255, 255}) + pick(r, []int{-1, 0, 0, 0, 0, 1})
	how := pick(r, []string{"ok", "ok", "ok", "ok", "fail", "abandon", "probe", "refuse", "panic"})
	for k := 0; k < 2; k++ {
		s := genSession(r, g.u)
		s.Doc, s.Flood = doc, 0
		s.Ops = []string{"new", "parse"}
		if k == 0 {
			s.Ops = append(s.Ops, "burst")
			s.Burst = &Burst{N: n, How: how, Page: "<html><head><title>t</title></head><body><article><p>" + Text(genText(r, false)) + "</p></article></body></html>"}
		}
		w.Sessions = append(w.Sessions, s)
	}
	deal(r, w, 1, false)
	w.Sched = rt.Sched{Mode: "seq", Seed: r.U64()}
}

// chain nests sessions inside one another, depth deep.
func (g *gen) chain(w *World, at, depth int) {
	r := g.r
	for ; depth > 0; depth-- {
		o := &w.Sessions[at]
		if o.Group > 0 {
			return
		}
		if o.Opts.Ser == "" {
			o.Opts.Ser = "inner"
		}
		f, ok := genFault(r, o, []string{"reenter"})
		if !ok {
			return
		}
		s := genSession(r, g.u)
		s.Nested = true
		s.Ops = pick(r, [][]string{{"new", "parse"}, {"new", "parse"}, {"readerable", "new", "parse"}})
		f.Arg = len(w.Sessions)
		o.Faults = append(o.Faults, f)
		at = f.Arg
		w.Sessions = append(w.Sessions, s)
	}
}

type gen struct {
	r      *Rng
	u      *universe
	nsites int
	race   bool
}

func genBatch(prop string, seed, batch uint64, nworlds, nsites int, race bool) *Batch {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	r := newRng(seed, h, batch)
	size := 50
	if race {
		size = 25
	}
	g := &gen{r: r, nsites: nsites, race: race}
	b := &Batch{Prop: prop, Seed: seed, Batch: batch}
	for i := 0; i < nworlds; i++ {
		if i%8 == 0 {
			g.u = genUniverse(r, size)
		}
		b.Worlds = append(b.Worlds, g.world(prop))
	}
	return b
}

func (g *gen) world(prop string) World {
	r := g.r
	w := World{Seed: r.U64(), Clock: int64(r.N(1<<31)) * 1e9, Ballast: r.N(200)}
	switch prop {
	case "C01":
		nt := r.Range(2, 5)
		for k := nt * r.Range(1, 2); k > 0; k-- {
			s := genSession(r, g.u)
			if r.P(1, 5) {
				addCallbacks(r, &s)
				if f, ok := genFault(r, &s, []string{"panic", "panicerr", "panicrt", "goexit", "goexit", "gc", "slow"}); ok {
					s.Faults = append(s.Faults, f)
				}
			}
			w.Sessions = append(w.Sessions, s)
		}
		g.group(&w)
		g.vandals(&w, 5)
		deal(r, &w, nt, r.P(1, 3))
		w.Sched = genSched(r, g.nsites)
	case "C02":
		for k := r.Range(2, 4); k > 0; k-- {
			s := genSession(r, g.u)
			s.Doc = pick(r, []Text{s.Doc, Text(genPage(r, r.Range(4, 60)))})
			for rep := r.Range(2, 3); rep > 0; rep-- {
				c := s
				if r.P(1, 2) {
					c.Log = LogSpec{On: true, Level: -4}
				}
				for j := r.N(4); j > 0; j-- {
					if f, ok := genFault(r, &c, []string{"reseed", "reseed", "clock", "slow", "gc"}); ok {
						c.Faults = append(c.Faults, f)
					}
				}
				w.Sessions = append(w.Sessions, c)
			}
		}
		deal(r, &w, r.Range(1, 2), r.P(1, 3))
		w.Sched = rt.Sched{Mode: "op", Seed: r.U64()}
	case "C03":
		if r.P(1, 10) {
			g.round(&w)
			break
		}
		n := r.Range(3, 12)
		for k := 0; k < n; k++ {
			s := genSession(r, g.u)
			if r.P(1, 3) {
				addCallbacks(r, &s)
				if f, ok := genFault(r, &s, []string{"panic", "panicerr", "panicstr", "panicrt", "goexit", "goexit"}); ok {
					s.Faults = append(s.Faults, f)
				}
			}
			w.Sessions = append(w.Sessions, s)
		}
		g.nest(&w, 8)
		g.group(&w)
		if r.P(1, 10) {
			g.burst(&w)
		}
		if r.P(1, 12) {
			g.chain(&w, r.N(len(w.Sessions)), logU(r, 12))
		}
		g.vandals(&w, 4)
		deal(r, &w, pick(r, []int{1, 1, 1, 2, 3}), r.P(1, 2))
		w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op"}), Seed: r.U64()}
	case "C04":
		if r.P(1, 12) {
			g.crowd(&w)
			break
		}
		nt := r.Range(2, 5)
		for k := nt * r.Range(1, 2); k > 0; k-- {
			s := genSession(r, g.u)
			addCallbacks(r, &s)
			if r.P(1, 2) {
				if f, ok := genFault(r, &s, stallKinds); ok {
					s.Faults = append(s.Faults, f)
				}
			}
			w.Sessions = append(w.Sessions, s)
		}
		g.nest(&w, 3)
		if r.P(1, 6) {
			g.chain(&w, r.N(len(w.Sessions)), logU(r, 24))
		}
		deal(r, &w, nt, r.P(1, 3))
		w.Sched = genSched(r, g.nsites)
	case "C05":
		w.Finished = true
		n := r.Range(2, 6)
		for k := 0; k < n; k++ {
			s := genSession(r, g.u)
			s.Opts.Ser = pick(r, []string{"inner", "text", "const", "empty", "odd"})
			if r.P(3, 4) {
				s.Opts.H2T = pick(r, []string{"strip", "const", "empty", "odd", "echo"})
			}
			addCallbacks(r, &s)
			if r.P(1, 4) {
				s.Opts.MaxElems = ip(r.Range(1, 2))
				if n, ok := s.elements(); ok && n > 1 && r.P(3, 4) { // around the limit
					s.Opts.MaxElems = ip(max(1, n+r.Range(-2, 1)))
				}
				s.Ops = pick(r, [][]string{{"new", "parse", "parse"}, {"new", "parse", "parse", "parse", "parse"}})
			}
			for j := r.N(3); j > 0; j-- {
				if f, ok := genFault(r, &s, []string{"panic", "panicerr", "panicstr", "panicrt", "goexit", "goexit", "gc", "clock", "slow"}); ok {
					s.Faults = append(s.Faults, f)
				}
			}
			w.Sessions = append(w.Sessions, s)
		}
		g.nest(&w, 5)
		g.group(&w)
		deal(r, &w, r.Range(1, 3), r.P(1, 2))
		w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op"}), Seed: r.U64()}
	case "C06":
		n := r.Range(2, 6)
		for k := 0; k < n; k++ {
			s := genSession(r, g.u)
			s.Log = LogSpec{On: true, Level: pick(r, []int{-8, -4, -4, -4, 0, 4, 8, 12})}
			if r.P(1, 3) {
				s.Log.Flip = logU(r, 512)
			}
			s.Log.Fail = r.P(1, 3)
			s.Log.Keep = r.P(1, 4)
			s.Log.Render = r.P(1, 3)
			for j := r.N(3); j > 0; j-- {
				f := Fault{Cb: "log", N: logU(r, 4096), Kind: pick(r, []string{"gc", "clock", "reseed", "stall", "slow"})}
				if f.Kind == "slow" {
					f.Arg = pick(r, slowMS)
				}
				if f.Kind == "clock" {
					f.Arg = pick(r, []int{1, -3600, 1 << 28})
				}
				s.Faults = append(s.Faults, f)
			}
			w.Sessions = append(w.Sessions, s)
		}
		g.nest(&w, 4)
		deal(r, &w, r.Range(1, 3), r.P(1, 2))
		w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op", "rand"}), Seed: r.U64(), Gap: uint64(logU(r, 4096))}
	case "C07":
		n := r.Range(3, 8)
		for k := 0; k < n; k++ {
			var d string
			switch {
			case len(fixtures) > 0 && r.P(1, 12):
				d = pick(r, fixtures)
			case r.P(1, 4):
				d = pick(r, g.u.docs)
			default:
				d = genPage(r, r.Range(3, 70))
				if directed(r) {
					d = season(r, d)
				}
			}
			if d == "" {
				continue
			}
			var dam []string
			for j := r.Range(0, 4); j > 0 && len(d) > 0; j-- {
				x := genDamage(r, len(d))
				d = applyDamage(d, x)
				dam = append(dam, x.Kind)
			}
			s := Session{Doc: Text(d), URL: pick(r, allURLs), Ops: []string{"readerable", "new", "parse", "parse"}, Damage: dam}
			if r.P(1, 40) { // a piece of the page repeated many times
				s.FloodBy = Text(pick(r, floodBits))
				if len(d) > 4 && r.P(1, 3) {
					a := r.N(len(d) - 3)
					s.FloodBy = Text(d[a : a+1+r.N(min(60, len(d)-a-1))])
				}
				s.Flood = logU(r, 300)
				s.Ops = []string{"readerable", "new", "parse"}
			} else if r.P(1, 1500) { // so many that the stack shows
				s.FloodBy = Text(pick(r, floodBits))
				s.Flood = r.Range(1<<19, 1<<20)
				s.Ops = []string{"new"}
			}
			s.Opts = genOpts(r)
			s.Opts.Ser, s.Opts.H2T, s.Opts.Vis, s.Opts.Video = "", "", "", ""
			if r.P(1, 3) && s.Flood == 0 {
				s.Ops = append(s.Ops, "parse", "readerable")
			}
			if r.P(1, 4) {
				s.Log = LogSpec{On: true, Level: -4, Render: true}
			}
			w.Sessions = append(w.Sessions, s)
		}
		deal(r, &w, 1, false)
		w.Sched = rt.Sched{Mode: "seq"}
	case "C10":
		n := r.Range(2, 5)
		for k := 0; k < n; k++ {
			s := genSession(r, g.u)
			s.Opts.Ser = "dom"
			s.Opts.MaxElems = nil
			s.Ops = pick(r, [][]string{{"new", "parse"}, {"new", "parse", "parse"}})
			m := r.Range(1, 60)
			if r.P(1, 3) {
				m = r.Range(1, 6)
			}
			for j := 0; j < m; j++ {
				s.Dom = append(s.Dom, genDomOp(r))
			}
			if r.P(1, 5) {
				s.Log = LogSpec{On: true, Level: -4, Render: true}
			}
			w.Sessions = append(w.Sessions, s)
		}
		deal(r, &w, r.Range(1, 2), r.P(1, 2))
		w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op"}), Seed: r.U64()}
	case "C12":
		w.Reps = 128
		for k := r.Range(1, 3); k > 0; k-- {
			s := genSession(r, g.u)
			if r.P(1, 2) {
				s.Doc = Text(tiny(r))
			}
			if r.P(2, 3) {
				addCallbacks(r, &s)
				if f, ok := genFault(r, &s, []string{"panic", "panicerr", "panicstr", "panicrt", "goexit", "goexit", "gc", "slow", "clock"}); ok {
					s.Faults = append(s.Faults, f)
				}
			}
			if r.P(1, 6) {
				s.Opts.MaxElems = ip(1)
			}
			if r.P(1, 8) {
				s.Opts.CharThr = ip(1 << 30)
			}
			decorate(r, &s)
			w.Sessions = append(w.Sessions, s)
		}
		g.nest(&w, 6)
		deal(r, &w, pick(r, []int{1, 1, 2}), r.P(1, 2))
		w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op", "rand"}), Seed: r.U64(), Gap: uint64(logU(r, 4096))}
	case "C11":
		nt := r.Range(1, 3)
		n := r.Range(2, 7)
		for k := 0; k < n; k++ {
			s := genSession(r, g.u)
			s.Ops = []string{"new", "parse"}
			for j := r.Range(0, 2); j > 0; j-- {
				s.Opts.Classes = append(append([][]string(nil), s.Opts.Classes...), classList(r))
			}
			if r.P(1, 2) {
				s.Opts.Ser = pick(r, []string{"keep", "keep", "keep", "sever", "deface"})
			}
			if r.P(1, 2) {
				s.Opts.Video = pick(r, []string{`//(www\.)?(?:youtube|youtube\.com/embed)`, `videos?|videos\.example`, `(?:vimeo|player\.vimeo\.com)`, `//(?:player|player\.vimeo)`})
			}
			if len(s.Opts.Classes) > 0 && r.P(1, 2) {
				s.Ops = []string{"new", "scribble", "parse"}
			}
			if r.P(1, 5) {
				s.Ops = append([]string{"readerable"}, s.Ops...)
			}
			if r.P(1, 6) {
				s.Opts.Ser = "keep"
				s.Faults = append(s.Faults, Fault{Cb: "ser", N: 1, Kind: pick(r, []string{"panic", "gc", "scribble"})})
			}
			w.Sessions = append(w.Sessions, s)
		}
		g.nest(&w, 6)
		g.group(&w)
		if r.P(1, 15) {
			g.burst(&w)
		}
		for i := range w.Sessions {
			if w.Sessions[i].Group > 0 {
				for j, o := range w.Sessions[i].Ops {
					if o == "scribble" {
						w.Sessions[i].Ops = append(append([]string(nil), w.Sessions[i].Ops[:j]...), w.Sessions[i].Ops[j+1:]...)
						break
					}
				}
			}
		}
		g.vandals(&w, 4)
		deal(r, &w, nt, r.P(2, 3))
		w.Sched = rt.Sched{Mode: pick(r, []string{"seq", "op", "op", "rand"}), Seed: r.U64(), Gap: uint64(logU(r, 4096))}
	}
	return w
}

var floodBits = []string{"<div>", "<p>", "<b>", "<br>", "<span>", "<table>", "<a>", "<", "&", "</div>", "<li>", "<noscript>", "<img>", "<!--", "\x00", " ", "x ", "<a b=c ", "<td>", "<svg>", "<![CDATA[", "<h1>", "<section><div>"}

func genDomOp(r *Rng) DomOp {
	return DomOp{K: pick(r, []string{"append", "append", "appendkid", "remove", "remove", "badremove", "replace", "replace", "replacesib", "badreplace", "settext", "sethtml", "setattr", "setclass", "setid", "rmattr", "rmattr", "read", "read", "find"}), A: r.N(1 << 20), B: r.N(1 << 20), C: r.N(1 << 20)}
}
