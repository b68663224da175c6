package verifcli

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	readability "github.com/giulianopz/go-readability"
)

var fixtures []string

func loadFixtures(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*", "source.html"))
	sort.Strings(fs)
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil && len(b) < 200_000 {
			fixtures = append(fixtures, string(b))
		}
	}
}

// Start takes the process over when the simulator asks for it.
func Start(mainFn func()) {
	switch os.Getenv("VERIF_CLI") {
	case "":
		return
	case "child":
		child(mainFn)
		os.Exit(98)
	default:
		driver(os.Getenv("VERIF_CLI"))
	}
}

// Obs is what was seen of one run of the tool.
type Obs struct {
	Code    int
	Signal  string
	Out     []byte
	Err     []byte
	Events  string
	Timeout bool
	Files   []string
}

func execScn(s *Scn, tmp string, limit time.Duration) *Obs {
	data, _ := json.Marshal(s)
	f := filepath.Join(tmp, "scn.json")
	os.WriteFile(f, data, 0o644)
	self, _ := os.Executable()
	cmd := exec.Command(self, s.Args...)
	home := filepath.Join(tmp, "home")
	os.RemoveAll(home)
	os.Mkdir(home, 0o755)
	cmd.Dir = home
	cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "VERIF_CLI=child", "VERIF_SCN=" + f, "GOTRACEBACK=single",
		"HOME=" + home, "TMPDIR=" + home, "XDG_CACHE_HOME=" + home, "XDG_CONFIG_HOME=" + home, "XDG_DATA_HOME=" + home, "XDG_RUNTIME_DIR=" + home}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	ev, err := os.OpenFile(filepath.Join(tmp, "events"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	defer ev.Close()
	cmd.ExtraFiles = []*os.File{ev}
	o := &Obs{}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	t := time.AfterFunc(limit, func() { o.Timeout = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		o.Signal = ws.Signal().String()
		o.Code = -1
	} else {
		o.Code = ws.ExitStatus()
	}
	o.Out, o.Err = out.Bytes(), errb.Bytes()
	e, _ := os.ReadFile(filepath.Join(tmp, "events"))
	o.Events = string(e)
	filepath.WalkDir(home, func(p string, d os.DirEntry, err error) error {
		if rest, ok := strings.CutPrefix(p, home+"/root"); ok && err == nil && d.IsDir() {
			if x, e := os.Stat(rest + "/"); e == nil && x.IsDir() {
				return nil // where the real one is
			}
		}
		if err == nil && p != home {
			o.Files = append(o.Files, strings.TrimPrefix(p, home+"/"))
		}
		return nil
	})
	return o
}

// expect is what the library says about the page.
func expect(page, url string, html bool) (out string, ok bool) {
	defer func() {
		if recover() != nil {
			out, ok = "", false
		}
	}()
	rd, err := readability.New(page, url)
	if err != nil {
		return "", false
	}
	res, err := rd.Parse()
	if err != nil {
		return "", false
	}
	if html {
		return res.HTMLContent, true
	}
	return res.TextContent, true
}

// freshExpect asks a process that has done nothing else.
func freshExpect(page, url string, html bool, tmp string) (string, bool, bool) {
	data, _ := json.Marshal([]any{Text(page), url, html})
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = []string{"GOMAXPROCS=1", "VERIF_CLI=expect"}
	cmd.Stdin = bytes.NewReader(data)
	out, err := cmd.Output()
	if err != nil {
		return "", false, false
	}
	var a struct {
		Out Text
		OK  bool
	}
	if json.Unmarshal(out, &a) != nil {
		return "", false, false
	}
	return string(a.Out), a.OK, true
}

// judge returns "" or what is wrong, with the kind of violation.
func judge(s *Scn, o *Obs, tmp string) (kind, what string) {
	crash := o.Signal != "" && !o.Timeout || bytes.Contains(o.Err, []byte("\ngoroutine ")) && (bytes.Contains(o.Err, []byte("panic: ")) || bytes.Contains(o.Err, []byte("fatal error: ")))
	page, complete := s.delivered()
	want, art := "", false
	if complete {
		want, art = expect(page, s.URL, s.HTML)
		match := func() bool {
			if !art {
				return o.Code > 0 && !crash
			}
			return o.Code == 0 && string(o.Out) == want
		}
		if !match() {
			w, a, ok := freshExpect(page, s.URL, s.HTML, tmp)
			if !ok {
				return "", "" // the library itself fails on this page
			}
			want, art = w, a
		}
	}
	outFault := strings.Contains(o.Events, " out fault ")
	switch s.Prop {
	case "C08":
		if o.Timeout || bytes.Contains(o.Err, []byte("deadlock: ")) {
			return "hang", "the tool did not end"
		}
		if crash {
			return "crash", "the tool crashed: " + clip(firstPanic(o.Err))
		}
		if o.Code == 0 {
			switch {
			case !complete:
				return "exit0", fmt.Sprintf("exit status 0 although the page was not received completely (%s)", s.Kind)
			case !art:
				return "exit0", "exit status 0 although there is no article"
			case outFault && string(o.Out) != want:
				return "exit0", fmt.Sprintf("exit status 0 although only %d of %d bytes were written", len(o.Out), len(want))
			case !strings.HasPrefix(string(o.Out), want):
				return "exit0", fmt.Sprintf("exit status 0 although standard output does not hold the article: %s", diff(string(o.Out), want))
			}
			return "", ""
		}
		if complete && art && !outFault {
			return "exit1", fmt.Sprintf("exit status %d although the page was received completely, has an article and all output was accepted: %q", o.Code, clip(string(o.Out)))
		}
		if (!complete || !art) && bytes.Contains(o.Out, []byte(marker)) {
			return "leak", fmt.Sprintf("the run failed before output began, but text of the page is on standard output: %q", clip(string(o.Out)))
		}
	case "C13":
		if o.Timeout || crash {
			return "", "" // another property
		}
		if what := s.manners(o.Events); what != "" {
			return "requests", what
		}
		if len(o.Files) > 0 {
			return "files", fmt.Sprintf("the tool left %d files behind", len(o.Files))
		}
	case "C09":
		if complete && !art && o.Code == 0 && bytes.Contains(o.Out, []byte(marker)) {
			return "output", fmt.Sprintf("the library extracts no article from the received bytes, but text of the page is on standard output: %q", clip(string(o.Out)))
		}
		if !complete || !art || outFault {
			return "", ""
		}
		if o.Timeout {
			return "hang", "the tool did not end"
		}
		if string(o.Out) != want {
			return "output", fmt.Sprintf("exit status %d, standard output is not what the library extracts: %s", o.Code, diff(string(o.Out), want))
		}
		if o.Code != 0 || crash {
			return "exit1", fmt.Sprintf("exit status %d although everything was received and printed", o.Code)
		}
	}
	return "", ""
}

// way is the row of pages a client that does as it is told asks for.
func (s *Scn) way() []string {
	var w []string
	if s.First == "none" {
		return w
	}
	for k := s.First; len(w) < 10; {
		w = append(w, k)
		r, ok := s.Routes[k]
		if !ok || r.Next == "" || r.Next == "nowhere" {
			break
		}
		k = r.Next
	}
	return w
}

// manners compares the requests the servers saw with those that were due.
func (s *Scn) manners(events string) string {
	way := s.way()
	at := 0
	served := map[string]bool{} // connections that answered before
	again := false
	for _, l := range strings.Split(events, "\n") {
		f := strings.Fields(l)
		if len(f) < 5 || f[1] != "conn" || f[3] != "request" {
			continue
		}
		id, key := f[2], f[4]
		for _, m := range f[5:] {
			if m == "auth" {
				if host(key) != host(s.First) {
					return "the credentials of " + host(s.First) + " were sent to " + host(key)
				}
				continue
			}
			return fmt.Sprintf("the request for %s was not a plain GET: %s", key, m)
		}
		switch {
		case at < len(way) && key == way[at]:
			at++
		case again && at > 0 && key == way[at-1]: // the connection was stale
		case at > 0 && key == way[at-1]:
			return "asked again for " + key
		default:
			return fmt.Sprintf("asked for %s, which is not on the way to the page", key)
		}
		// a reused connection that dies before it answers is the one reason to ask again
		again = served[id] && s.Routes[key].Cut == 1
		served[id] = true
	}
	return ""
}

func host(key string) string {
	h, _, _ := strings.Cut(key, "/")
	return h
}

func firstPanic(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			return l
		}
	}
	return "killed"
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return strings.ToValidUTF8(s[max(0, min(len(s), i)-20):min(len(s), i+60)], "?") }
	return fmt.Sprintf("at byte %d of %d, %q instead of %q (of %d)", i, len(a), cut(a), cut(b), len(b))
}

// Stats of a batch of runs.
type Stats struct {
	Runs     int            `json:"runs"`
	Kinds    map[string]int `json:"kinds"`
	Faults   map[string]int `json:"faults"`
	Complete int            `json:"complete"`
	Articles int            `json:"articles"`
	Bytes    int            `json:"bytes"`
	SimMS    int64          `json:"simulated_ms"`
	MaxSimMS int64          `json:"max_simulated_ms"`
	Events   int            `json:"events"`
	Hashes   []uint64       `json:"hashes"`
	Samples  []string       `json:"samples"`
}

func (st *Stats) add(s *Scn, o *Obs) uint64 {
	st.Runs++
	st.Kinds[s.Kind]++
	if _, c := s.delivered(); c {
		st.Complete++
	}
	if o.Code == 0 {
		st.Articles++
	}
	st.Bytes += len(o.Out)
	var last int64
	h := fnv.New64a()
	for _, l := range strings.Split(strings.TrimSpace(o.Events), "\n") {
		st.Events++
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		if us, err := strconv.ParseInt(f[0], 10, 64); err == nil {
			last = max(last, us/1000)
		}
		t := strings.Join(f[1:], " ")
		switch {
		case strings.Contains(t, " fault "):
			st.Faults[f[1]+" "+f[3]]++
		case strings.HasSuffix(t, " slow") && f[1] != "dial":
			st.Faults[f[1]+" slow"]++
		case f[1] == "dial":
			st.Faults["dial "+f[3]]++
		case strings.HasSuffix(t, "killed on reuse"):
			st.Faults["reset on reuse"]++
		case strings.HasSuffix(t, " rst"):
			st.Faults["connection reset"]++
		case strings.HasSuffix(t, " fin"):
			st.Faults["connection closed by server"]++
		}
	}
	if s.Kind == "cut" || s.Kind == "gzip" || s.Kind == "malformed" || s.Kind == "chunk" || s.Kind == "loop" {
		st.Faults["reply "+s.Kind]++
	}
	h.Write([]byte(o.Events))
	h.Write([]byte(strconv.Itoa(o.Code)))
	h.Write(o.Out)
	st.SimMS += last
	st.MaxSimMS = max(st.MaxSimMS, last)
	return h.Sum64()
}

func driver(mode string) {
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	n := fs.Uint64("n", 10, "")
	pages := fs.String("fixtures", "", "")
	out := fs.String("out", "", "")
	dump := fs.Bool("dump", false, "")
	limit := fs.Duration("limit", 30*time.Second, "")
	wall := fs.Duration("wall", 60*time.Second, "")
	fs.Parse(os.Args[1:])
	tmp, err := os.MkdirTemp("", "verifcli")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	code := 0
	switch mode {
	case "expect":
		var a []json.RawMessage
		var page Text
		var url string
		var html bool
		if json.NewDecoder(os.Stdin).Decode(&a) != nil || len(a) != 3 {
			code = 4
			break
		}
		json.Unmarshal(a[0], &page)
		json.Unmarshal(a[1], &url)
		json.Unmarshal(a[2], &html)
		w, ok := expect(string(page), url, html)
		json.NewEncoder(os.Stdout).Encode(map[string]any{"Out": Text(w), "OK": ok})
	case "batch":
		loadFixtures(*pages)
		st := &Stats{Kinds: map[string]int{}, Faults: map[string]int{}}
		seen := map[uint64]bool{}
		var kind, what string
		for i := *from; i < *from+*n; i++ {
			s := genScn(*prop, *seed, i)
			o := execScn(s, tmp, *wall)
			h := st.add(s, o)
			seen[h] = true
			if *dump {
				fmt.Printf("run %d %s code %d %x\n", i, s.Kind, o.Code, h)
			}
			if len(st.Samples) < 2 {
				st.Samples = append(st.Samples, fmt.Sprintf("run %d (%s): args %q, exit %d, %d bytes out; %s", i, s.Kind, s.Args, o.Code, len(o.Out), clip(strings.ReplaceAll(o.Events, "\n", "; "))))
			}
			if kind, what = judge(s, o, tmp); kind != "" {
				data, _ := json.MarshalIndent(s, "", " ")
				os.WriteFile(*out+".scn", data, 0o644)
				code = 3
				break
			}
		}
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		var v any
		if kind != "" {
			v = map[string]string{"kind": kind, "what": what}
		}
		data, _ := json.Marshal(map[string]any{"stats": st, "violation": v})
		if *out != "" {
			os.WriteFile(*out, data, 0o644)
		}
	case "replay":
		s := readScn(fs.Arg(0))
		o := execScn(s, tmp, *wall)
		kind, what := judge(s, o, tmp)
		fmt.Print(o.Events)
		fmt.Printf("exit status %d, %d bytes on standard output, %d on the error stream\n", o.Code, len(o.Out), len(o.Err))
		if kind != "" {
			data, _ := json.Marshal(map[string]string{"kind": kind, "what": what})
			fmt.Println(string(data))
			code = 3
		}
	case "shrink":
		s := readScn(fs.Arg(0))
		code = shrink(s, tmp, *limit, *wall, fs.Arg(1))
	default:
		code = 4
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func readScn(f string) *Scn {
	data, err := os.ReadFile(f)
	var s Scn
	if err == nil {
		err = json.Unmarshal(data, &s)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	return &s
}

func cloneScn(s *Scn) *Scn {
	data, _ := json.Marshal(s)
	var c Scn
	json.Unmarshal(data, &c)
	return &c
}

// shrink keeps making the scenario simpler while it fails the same way.
func shrink(s *Scn, tmp string, limit, wall time.Duration, out string) int {
	end := time.Now().Add(limit)
	tries := 0
	fails := func(c *Scn) string {
		tries++
		k, _ := judge(c, execScn(c, tmp, wall), tmp)
		return k
	}
	kind := fails(s)
	if kind == "" {
		fmt.Println("not reproduced")
		return 5
	}
	best := s
	try := func(f func(c *Scn) bool) bool {
		if time.Now().After(end) {
			return false
		}
		c := cloneScn(best)
		if !f(c) {
			return false
		}
		if fails(c) == kind {
			best = c
			return true
		}
		return false
	}
	for pass := 0; pass < 3; pass++ {
		before := tries
		changed := false
		t := func(f func(c *Scn) bool) { changed = try(f) || changed }
		t(func(c *Scn) bool { ok := len(c.Err) > 0; c.Err = nil; return ok })
		t(func(c *Scn) bool { ok := len(c.Dials) > 0; c.Dials = nil; return ok })
		for i := len(best.Out) - 1; i >= 0; i-- {
			t(func(c *Scn) bool { c.Out = append(c.Out[:i], c.Out[i+1:]...); return true })
		}
		t(func(c *Scn) bool {
			ok := len(c.Args) > 1
			c.Args = nil
			if c.HTML {
				c.Args = append(c.Args, "-o=html")
				ok = ok && len(best.Args) > 2
			}
			c.Args = append(c.Args, c.URL)
			return ok && c.Kind != "nourl"
		})
		keys := make([]string, 0)
		for k := range best.Routes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			edit := func(f func(r *Route) bool) {
				t(func(c *Scn) bool {
					r, ok := c.Routes[k]
					if !ok || !f(&r) {
						return false
					}
					c.Routes[k] = r
					return true
				})
			}
			// skip this hop
			t(func(c *Scn) bool {
				r, ok := c.Routes[k]
				if !ok || r.Next == "" || c.First != k {
					return false
				}
				if _, ok := c.Routes[r.Next]; !ok || r.Next == k {
					return false
				}
				delete(c.Routes, k)
				old := c.URL
				c.First = r.Next
				c.URL = "http://" + c.First
				for i, a := range c.Args {
					if a == old {
						c.Args[i] = c.URL
					}
				}
				return true
			})
			edit(func(r *Route) bool { ok := len(r.Segs) > 0; r.Segs = nil; return ok })
			edit(func(r *Route) bool {
				ok := false
				for i := range r.Segs {
					ok = ok || r.Segs[i].Ms > 0
					r.Segs[i].Ms = 0
				}
				return ok
			})
			for len(best.Routes[k].Segs) > 1 {
				was := len(best.Routes[k].Segs)
				edit(func(r *Route) bool { r.Segs = r.Segs[:len(r.Segs)/2]; return true })
				if len(best.Routes[k].Segs) == was {
					break
				}
			}
			edit(func(r *Route) bool { ok := len(r.Interim) > 0; r.Interim = nil; return ok })
			edit(func(r *Route) bool {
				var h [][2]string
				for _, x := range r.Headers {
					if x[0] == "Location" {
						h = append(h, x)
					}
				}
				ok := len(h) < len(r.Headers)
				r.Headers = h
				return ok && r.Cut == 0
			})
			edit(func(r *Route) bool { ok := len(r.Chunks) > 0; r.Chunks = nil; return ok && r.Cut == 0 })
			edit(func(r *Route) bool {
				ok := r.Gzip && r.GzCut == 0 && r.GzFlip == 0
				r.Gzip = false
				return ok && r.Cut == 0
			})
			edit(func(r *Route) bool {
				ok := r.Frame != "len" && r.Chunk0 == ""
				r.Frame = "len"
				return ok && r.Cut == 0
			})
			edit(func(r *Route) bool { ok := r.Status != 200 && r.Next == ""; r.Status = 200; return ok })
			edit(func(r *Route) bool { ok := r.After != ""; r.After = ""; return ok })
			edit(func(r *Route) bool { ok := r.Pad > 0; r.Pad = 0; return ok && r.Cut == 0 })
			for best.Routes[k].Pad > 1 {
				was := best.Routes[k].Pad
				edit(func(r *Route) bool { r.Pad /= 2; return r.Cut == 0 })
				if best.Routes[k].Pad == was {
					break
				}
			}
			if best.Routes[k].Cut == 0 && best.Routes[k].Raw == "" {
				body := best.Routes[k].Body
				for n := len(body) / 2; n >= 1 && time.Now().Before(end); {
					shr := false
					for a := 0; a+n <= len(body) && time.Now().Before(end); {
						cand := body[:a] + body[a+n:]
						hit := try(func(c *Scn) bool { r := c.Routes[k]; r.Body = cand; c.Routes[k] = r; return true })
						if hit {
							body = cand
							shr, changed = true, true
						} else {
							a += n
						}
					}
					if !shr || n > len(body) {
						if n == 1 {
							break
						}
						n /= 2
					}
				}
			}
		}
		if !changed || before == tries {
			break
		}
	}
	data, _ := json.MarshalIndent(best, "", " ")
	os.WriteFile(out, data, 0o644)
	fmt.Printf("{\"kind\":%q,\"tries\":%d}\n", kind, tries)
	return 0
}
