package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"log/slog"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	readability "github.com/giulianopz/go-readability"
	rt "github.com/giulianopz/go-readability/internal/verifrt"
	"golang.org/x/net/html"
)

// OptSpec is one caller's choice of options.
type OptSpec struct {
	MaxElems *int       `json:"maxElems,omitempty"`
	NTop     *int       `json:"nTop,omitempty"`
	CharThr  *int       `json:"charThr,omitempty"`
	Classes  [][]string `json:"classes,omitempty"`
	Keep     *bool      `json:"keep,omitempty"`
	NoJSONLD *bool      `json:"noJSONLD,omitempty"`
	Video    string     `json:"video,omitempty"`
	MinLen   *int       `json:"minLen,omitempty"`
	MinScore *float64   `json:"minScore,omitempty"`
	Ser      string     `json:"ser,omitempty"`
	H2T      string     `json:"h2t,omitempty"`
	Vis      string     `json:"vis,omitempty"`
	Custom   bool       `json:"custom,omitempty"` // an option written by the caller
}

// LogSpec is the behaviour of the process's log handler during a session.
type LogSpec struct {
	On     bool `json:"on,omitempty"`     // handler enabled at Level
	Level  int  `json:"level,omitempty"`  // slog level
	Flip   int  `json:"flip,omitempty"`   // every Flip calls the level changes
	Fail   bool `json:"fail,omitempty"`   // Handle returns an error
	Keep   bool `json:"keep,omitempty"`   // keeps records and reads them again later
	Render bool `json:"render,omitempty"` // formats every attribute
}

// Fault is something that happens inside a callback of a session.
type Fault struct {
	Cb   string `json:"cb"`   // ser, h2t, vis, log, opt
	N    int    `json:"n"`    // n-th call of that callback in the session
	Kind string `json:"kind"` // panic, panicerr, panicstr, panicrt, goexit, reenter, stall, gc, clock, reseed, scribble
	Arg  int    `json:"arg,omitempty"`
}

// benign faults must not change what the session's owner sees.
func (f Fault) benign() bool {
	return !strings.HasPrefix(f.Kind, "panic") && f.Kind != "goexit" && f.Kind != "die"
}

// Session is one caller working on one reader.
type Session struct {
	Doc     Text     `json:"doc"`
	URL     string   `json:"url"`
	Opts    OptSpec  `json:"opts"`
	Group   int      `json:"group,omitempty"` // >0: shares option values with its group
	Ops     []string `json:"ops"`             // new, parse, readerable
	Faults  []Fault  `json:"faults,omitempty"`
	Log     LogSpec  `json:"log,omitempty"`
	Dom     []DomOp  `json:"dom,omitempty"` // edits made by the serializer
	Nested  bool     `json:"nested,omitempty"`
	Flood   int      `json:"flood,omitempty"` // this many copies of FloodBy follow the page's first half
	FloodBy Text     `json:"floodBy,omitempty"`
	Damage  []string `json:"damage,omitempty"` // what the transport did to the page, for the statistics
	Burst   *Burst   `json:"burst,omitempty"`  // what the operation "burst" does
}

// Burst is a long history in short: many calls that end in the same way.
type Burst struct {
	N    int    `json:"n"`
	How  string `json:"how"`  // ok, panic, panicopt, panicvis, refuse, fail, abandon, hold, probe
	Page Text   `json:"page"` // varied from call to call
}

// vary makes the k-th page of a burst.
func (b *Burst) vary(k int) string {
	id := strconv.Itoa(k)
	p := strings.ReplaceAll(string(b.Page), "class=\"", "class=\"v"+id+" ")
	p = strings.Replace(p, "<title>", "<title>Number "+id+" ", 1)
	p = strings.Replace(p, "href=\"", "href=\"v"+id+"/", 2)
	return p
}

func (b *Burst) run(url string, limit uint64) {
	var held []*readability.Readability
	for k := 0; k < b.N; k++ {
		rt.Budget(limit)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(rt.Hang); ok {
						panic(e)
					}
				}
			}()
			page := b.vary(k)
			var opts []readability.Option
			switch b.How {
			case "ok":
				opts = append(opts, readability.ClassesToPreserve("v"+strconv.Itoa(k)))
			case "panic":
				opts = append(opts, readability.Serializer(func(*readability.Node) string { panic("burst") }))
			case "panicopt":
				opts = append(opts, func(*readability.Options) { panic("burst") })
			case "panicvis":
				opts = append(opts, readability.VisibilityChecker(func(*html.Node) bool { panic("burst") }))
			case "refuse":
				opts = append(opts, readability.MaxElemsToParse(1))
			case "fail":
				page = "<html><body><p></p></body></html>"
			}
			if b.How == "probe" || b.How == "panicvis" {
				readability.IsProbablyReaderable(page, opts...)
				return
			}
			rd, err := readability.New(page, url, opts...)
			if err != nil || b.How == "abandon" {
				return
			}
			if b.How == "hold" {
				held = append(held, rd)
				return
			}
			rd.Parse()
		}()
	}
	runtime.KeepAlive(held)
}

func (s *Session) page() string {
	if s.Flood <= 0 {
		return string(s.Doc)
	}
	h := len(s.Doc) / 2
	return string(s.Doc[:h]) + strings.Repeat(string(s.FloodBy), s.Flood) + string(s.Doc[h:])
}

// Text is a string that survives JSON whatever bytes it holds.
type Text string

func (t Text) MarshalJSON() ([]byte, error) { return json.Marshal(q(string(t))) }

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if h, ok := strings.CutPrefix(s, "\x00hex:"); ok {
		d, err := hex.DecodeString(h)
		if err != nil {
			return err
		}
		s = string(d)
	}
	*t = Text(s)
	return nil
}

// ResRec and OpRec record what the caller saw.
type ResRec struct {
	Title, HTML, Text string
	Len               int
	Excerpt, Byline   string
	Dir, Site, Lang   string
	Published         string
}

type OpRec struct {
	Op     string
	Err    string   `json:",omitempty"`
	Panic  string   `json:",omitempty"`
	Goexit bool     `json:",omitempty"`
	Res    *ResRec  `json:",omitempty"`
	Bool   *bool    `json:",omitempty"`
	Cbs    []string `json:",omitempty"`
}

// Finding is a broken rule seen directly, without a reference.
type Finding struct {
	Kind string // contract, crash, hang, outcome, tree, owner, leak
	Sess int
	Op   string
	What string
}

// injected is a panic raised by a callback; val is what it panics with.
type injected struct {
	sess int
	cb   string
	n    int
	val  any
}

type injectedErr struct{ in *injected }

func (e *injectedErr) Error() string { return "callback failed" }

// same reports whether a recovered value is the one that was raised.
func (in *injected) same(v any) bool {
	if re, ok := in.val.(runtime.Error); ok {
		e, ok := v.(runtime.Error)
		return ok && e.Error() == re.Error()
	}
	return v == in.val
}

// run is the state of one session during a world.
type run struct {
	idx   int
	s     *Session
	w     *worldRun
	pc    int
	rd    *readability.Readability
	rec   []OpRec
	cur   *OpRec
	calls map[string]int
	opt   []readability.Option
	// contract bookkeeping for the running operation
	serN, h2tN, visN  int
	serRet, h2tArg    string
	h2tRet            string
	order             []string
	thrown            *injected
	exited            bool
	find              []Finding
	kept              []keptTree
	keptRes           []keptRes
	keptLog           []slog.Record
	fired             [24]int // faults fired, by kind
	maxSteps          uint64
	logN              int
	inLog             bool
	domDone           bool
	domOps, domBad    int
	refusedOps        int
	ran               bool
	tree              *readability.Node
	treeFP            string
	visFalse, visTrue int
	saved             []*readability.Options // seen by the caller's own option
}

type keptTree struct {
	n  *readability.Node
	fp string
}

type keptRes struct {
	res *readability.Result
	cp  ResRec
	op  int
}

var faultKinds = []string{"panic", "goexit", "reenter", "stall", "gc", "clock", "reseed", "scribble", "logfail", "logflip", "die", "panicerr", "panicstr", "panicrt", "burst", "slow", "vandal"}

func faultIdx(k string) int {
	for i, x := range faultKinds {
		if x == k {
			return i
		}
	}
	return 23
}

func q(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, "\x00hex:") {
		return strings.Clone(s)
	}
	return "\x00hex:" + hex.EncodeToString([]byte(s))
}

func digest(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 16) + ":" + strconv.Itoa(len(s))
}

func recOf(r *readability.Result) *ResRec {
	return &ResRec{Title: q(r.Title), HTML: q(r.HTMLContent), Text: q(r.TextContent), Len: r.Length, Excerpt: q(r.Excerpt), Byline: q(r.Byline), Dir: q(r.Dir), Site: q(r.SiteName), Lang: q(r.Lang), Published: q(r.PublishedTime)}
}

// ---- callbacks ------------------------------------------------------------

// curRun returns the session the calling task is working on.
func (w *worldRun) curRun() *run {
	id := rt.ID()
	if id < 0 || id >= len(w.stack) || len(w.stack[id]) == 0 {
		return nil
	}
	st := w.stack[id]
	return st[len(st)-1]
}

// faultAt fires the faults due at the n-th call of a callback.
func (r *run) faultAt(cb string) {
	n := r.calls[cb] + 1
	r.calls[cb] = n
	for i := range r.s.Faults {
		f := &r.s.Faults[i]
		if f.Cb != cb || f.N != n {
			continue
		}
		if r.w.ref && f.benign() {
			continue
		}
		r.fired[faultIdx(f.Kind)]++
		switch f.Kind {
		case "panic":
			t := &injected{sess: r.idx, cb: cb, n: n}
			t.val = t
			r.thrown = t
			panic(t)
		case "panicerr":
			t := &injected{sess: r.idx, cb: cb, n: n}
			t.val = &injectedErr{t}
			r.thrown = t
			panic(t.val)
		case "panicstr":
			t := &injected{sess: r.idx, cb: cb, n: n}
			t.val = "callback failed: " + strconv.Itoa(r.idx) + "/" + cb + "/" + strconv.Itoa(n)
			r.thrown = t
			panic(t.val)
		case "panicrt":
			t := &injected{sess: r.idx, cb: cb, n: n}
			func() {
				defer func() { t.val = recover() }()
				boom(n + 7)
			}()
			r.thrown = t
			boom(n + 7)
		case "goexit":
			r.exited = true
			runtime.Goexit()
		case "die": // the goroutine dies while stalled: stall, then exit
			rt.Stall()
			r.exited = true
			runtime.Goexit()
		case "reenter":
			r.w.nested(f.Arg)
		case "stall":
			rt.Stall()
		case "gc":
			rt.GC()
		case "slow":
			rt.Slow(int64(f.Arg) * 1e6)
		case "clock":
			rt.JumpClock(int64(f.Arg) * 1e9)
		case "reseed":
			rt.SeedRuntime(uint64(f.Arg))
		case "scribble":
			r.w.scribble(r)
		}
	}
}

// boom fails the way careless callbacks do.
func boom(n int) int {
	var a []int
	return a[n]
}

func (r *run) serialize(n *readability.Node) string {
	r.serN++
	r.order = append(r.order, "ser")
	rt.Point()
	if n == nil {
		r.findf("contract", "serializer called with no tree")
		return ""
	}
	if r.w.checkTrees {
		if m := checkTree(n); m != "" {
			r.findf("tree", "tree given to the serializer: "+m)
			return ""
		}
	}
	if r.w.finished && len(r.s.Dom) == 0 && r.s.Opts.Ser != "wreck" && r.s.Opts.Ser != "sever" && r.s.Opts.Ser != "deface" {
		r.tree, r.treeFP = n, fingerprint(n, r.blind())
	}
	if r.s.Opts.Ser == "dom" { // reading nothing first
		r.faultAt("ser")
		r.runDom(n)
		r.serRet = "dom"
		return r.serRet
	}
	in := n.GetInnerHTML()
	if r.blind() {
		r.cur.Cbs = append(r.cur.Cbs, "ser:"+digest(in))
	} else {
		r.cur.Cbs = append(r.cur.Cbs, "ser:"+digest(in)+":"+digest(n.GetTextContent()))
	}
	r.faultAt("ser")
	if len(r.s.Dom) > 0 {
		r.runDom(n)
	}
	var out string
	switch r.s.Opts.Ser {
	case "inner":
		out = in
	case "text":
		out = n.GetTextContent()
	case "const":
		out = "<p>constant</p>"
	case "empty":
		out = ""
	case "wreck":
		out = in
		n.SetTextContent("wrecked")
		n.SetInnerHTML(`<p class="wrecked"><a href="wrecked">wrecked</a></p>`)
		n.SetAttribute("wrecked", "1")
	case "keep":
		r.kept = append(r.kept, keptTree{n, fingerprint(n, r.blind())})
		out = in
	case "sever": // takes parts out of the tree and holds on to them
		out = in
		r.sever(n)
	case "deface": // writes over whatever is in the tree
		out = in
		deface(n, 0)
	case "odd":
		out = "\xff<b>" + strconv.Itoa(len(in)) + "\u00e9\U0001F600"
	default:
		out = in
	}
	r.serRet = out
	rt.Point()
	return out
}

// defaced attributes: those pages have.
var defaced = []string{"lang", "class", "id", "href", "src", "srcset", "dir", "rel", "alt", "title", "style", "itemprop", "width", "height", "data-src", "role", "hidden", "itemtype", "property", "name", "content", "colspan", "poster", "type", "datetime", "data-x", "aria-hidden", "color", "face", "size"}

func deface(n *readability.Node, depth int) {
	if n.NodeType == textType {
		n.SetTextContent("defaced")
		return
	}
	if n.NodeType != elemType || depth > 200 {
		return
	}
	for _, c := range n.ChildNodes {
		deface(c, depth+1)
	}
	for _, a := range defaced {
		if n.HasAttribute(a) {
			n.SetAttribute(a, "defaced-"+a)
		}
	}
	n.SetAttribute("data-defaced", "1")
}

func (r *run) sever(n *readability.Node) {
	var elems []*readability.Node
	var walk func(x *readability.Node)
	walk = func(x *readability.Node) {
		if len(elems) < 60 && x.NodeType == elemType {
			elems = append(elems, x)
			for _, c := range x.ChildNodes {
				walk(c)
			}
		}
	}
	walk(n)
	for i := len(elems) - 1; i > 0; i-- {
		e := elems[i]
		if i%3 == 1 || len(e.ChildNodes) == 0 {
			continue
		}
		kids := slices.Clone(e.ChildNodes)
		if kids[0].NodeType == textType && i%2 == 0 {
			kids[0].SetInnerHTML("held")
		}
		switch i % 4 {
		case 0:
			e.SetInnerHTML("<i>put in place</i>")
		case 1:
			e.SetTextContent("put in place")
		default:
			for _, k := range kids {
				e.RemoveChild(k)
			}
		}
		if len(r.kept) < 40 {
			for _, k := range kids[:min(2, len(kids))] {
				r.kept = append(r.kept, keptTree{k, fingerprint(k, r.blind())})
			}
		}
	}
}

// blind callers do not look at the texts of the tree they are given.
func (r *run) blind() bool { return len(r.s.Doc)%2 == 1 }

var tagRx = regexp.MustCompile(`<[^>]*>`)

func (r *run) toText(src string) string {
	r.h2tN++
	r.h2tArg = src
	r.order = append(r.order, "h2t")
	rt.Point()
	r.cur.Cbs = append(r.cur.Cbs, "h2t:"+digest(src))
	r.faultAt("h2t")
	var out string
	switch r.s.Opts.H2T {
	case "strip":
		out = tagRx.ReplaceAllString(src, "")
	case "const":
		out = "constant text"
	case "empty":
		out = ""
	case "odd":
		out = "\xfe\xff\u65e5\u672c\U0001F600e\u0301 x"
	case "echo":
		out = src
	}
	r.h2tRet = out
	rt.Point()
	return out
}

func (r *run) visible(n *html.Node) bool {
	r.visN++
	if r.visN <= 4 || r.visN%16 == 0 {
		rt.Point()
	}
	var b strings.Builder
	b.WriteString(n.Data)
	hid := false
	for _, a := range n.Attr {
		b.WriteString(" " + a.Key + "=" + a.Val)
		if a.Key == "hidden" || a.Key == "style" && strings.Contains(a.Val, "none") {
			hid = true
		}
	}
	s := b.String()
	r.cur.Cbs = append(r.cur.Cbs, "vis:"+digest(s))
	r.faultAt("vis")
	v := true
	switch r.s.Opts.Vis {
	case "false":
		v = false
	case "attr":
		v = !hid
	case "hash":
		h := fnv.New32a()
		h.Write([]byte(s))
		v = h.Sum32()%3 != 0
	}
	if v {
		r.visTrue++
	} else {
		r.visFalse++
	}
	return v
}

// simLog is the process-wide log handler.
type simLog struct{ w *worldRun }

// installed is the handler in force.
var installed *simLog

// astray is how often a handler was used that is no longer installed.
var astray int

//go:norace
func noteAstray() {
	if rt.ID() >= 0 {
		astray++
	}
}

func (h *simLog) Enabled(_ context.Context, l slog.Level) bool {
	if h != installed {
		noteAstray()
		return false
	}
	r := h.w.curRun()
	if r == nil || !r.s.Log.On || h.w.ref && !r.logMatters() {
		return false
	}
	lv := slog.Level(r.s.Log.Level)
	if r.s.Log.Flip > 0 {
		r.logN++
		if (r.logN/r.s.Log.Flip)%2 == 1 {
			r.fired[faultIdx("logflip")]++
			return false
		}
	}
	return l >= lv
}

// logMatters: the session's own aborts are tied to log calls, so the reference
// has to make them as well.
func (r *run) logMatters() bool {
	for _, f := range r.s.Faults {
		if f.Cb == "log" && !f.benign() {
			return true
		}
	}
	return false
}

func (h *simLog) Handle(_ context.Context, rec slog.Record) error {
	r := h.w.curRun()
	if r == nil {
		return nil
	}
	if r.s.Log.Render {
		n := 0
		rec.Attrs(func(a slog.Attr) bool {
			n += len(a.Value.Resolve().String())
			return true
		})
	}
	if r.s.Log.Keep && len(r.keptLog) < 400 {
		r.keptLog = append(r.keptLog, rec.Clone())
	}
	if !r.inLog {
		r.inLog = true
		func() {
			defer func() { r.inLog = false }()
			r.faultAt("log")
		}()
	}
	if r.s.Log.Fail {
		r.fired[faultIdx("logfail")]++
		return errors.New("log device full")
	}
	return nil
}

func (h *simLog) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h *simLog) WithGroup(string) slog.Handler      { return h }

// ---- options --------------------------------------------------------------

// owned is what the caller passed in and still owns.
type owned struct {
	lists  [][]string // with their full capacity
	copies [][]string
	rx     *regexp.Regexp
	rxSrc  string
	probe  string
}

const videoProbe = "x//www.youtube.com/embed/abc?x//player.vimeo.com"

func buildOpts(o *OptSpec, w *worldRun, self *run) ([]readability.Option, *owned) {
	var opts []readability.Option
	ow := &owned{}
	get := func() *run {
		if self != nil {
			return self
		}
		return w.curRun()
	}
	if o.MaxElems != nil {
		opts = append(opts, readability.MaxElemsToParse(*o.MaxElems))
	}
	if o.NTop != nil {
		opts = append(opts, readability.NTopCandidates(*o.NTop))
	}
	if o.CharThr != nil {
		opts = append(opts, readability.CharThreshold(*o.CharThr))
	}
	for _, c := range o.Classes {
		l := make([]string, 0, len(c)+6)
		for _, x := range c {
			l = append(l, strings.Clone(x))
		}
		full := l[:cap(l)]
		for i := len(l); i < len(full); i++ {
			full[i] = "spare" + strconv.Itoa(i)
		}
		ow.lists = append(ow.lists, full)
		ow.copies = append(ow.copies, append([]string(nil), full...))
		opts = append(opts, readability.ClassesToPreserve(l...))
	}
	if o.Keep != nil {
		opts = append(opts, readability.KeepClasses(*o.Keep))
	}
	if o.NoJSONLD != nil {
		opts = append(opts, readability.DisableJSONLD(*o.NoJSONLD))
	}
	if o.Video != "" {
		ow.rx = regexp.MustCompile(o.Video)
		ow.rxSrc = ow.rx.String()
		ow.probe = fmt.Sprint(ow.rx.FindAllStringIndex(videoProbe, -1))
		opts = append(opts, readability.AllowedVideoRegex(ow.rx))
	}
	if o.MinLen != nil {
		opts = append(opts, readability.MinContentLength(*o.MinLen))
	}
	if o.MinScore != nil {
		opts = append(opts, readability.MinScore(*o.MinScore))
	}
	if o.Ser != "" {
		opts = append(opts, readability.Serializer(func(n *readability.Node) string {
			if r := get(); r != nil {
				return r.serialize(n)
			}
			return ""
		}))
	}
	if o.H2T != "" {
		opts = append(opts, readability.Html2Text(func(s string) string {
			if r := get(); r != nil {
				return r.toText(s)
			}
			return ""
		}))
	}
	if o.Vis != "" {
		opts = append(opts, readability.VisibilityChecker(func(n *html.Node) bool {
			if r := get(); r != nil {
				return r.visible(n)
			}
			return true
		}))
	}
	if o.Custom {
		opts = append(opts, func(o *readability.Options) {
			if r := get(); r != nil {
				r.saved = append(r.saved, o)
				rt.Point()
				r.faultAt("opt")
			}
		})
	}
	return opts, ow
}

func (ow *owned) changed() string {
	for i, l := range ow.lists {
		for j := range l {
			if l[j] != ow.copies[i][j] {
				return fmt.Sprintf("class list %d was changed at position %d: %q became %q", i, j, ow.copies[i][j], l[j])
			}
		}
	}
	if ow.rx != nil {
		if ow.rx.String() != ow.rxSrc {
			return "regular expression changed"
		}
		if p := fmt.Sprint(ow.rx.FindAllStringIndex(videoProbe, -1)); p != ow.probe {
			return "regular expression matches differently after use: " + ow.probe + " became " + p
		}
	}
	return ""
}

// ---- operations -----------------------------------------------------------

func (r *run) findf(kind, f string, a ...any) {
	op := ""
	if r.cur != nil {
		op = fmt.Sprintf("%s#%d", r.cur.Op, len(r.rec))
	}
	if len(r.find) < 8 {
		r.find = append(r.find, Finding{kind, r.idx, op, fmt.Sprintf(f, a...)})
	}
}

// begin and end bracket one operation; end also judges the callback contract.
func (r *run) begin(op string) {
	r.rec = append(r.rec, OpRec{Op: op})
	r.cur = &r.rec[len(r.rec)-1]
	r.serN, r.h2tN, r.visN = 0, 0, 0
	r.serRet, r.h2tArg, r.h2tRet = "", "", ""
	r.order = r.order[:0]
	r.thrown, r.exited = nil, false
	r.visTrue, r.visFalse = 0, 0
	r.tree, r.treeFP = nil, ""
}

// limit is the number of steps after which an operation counts as stuck: a
// constant, and for pages with very many tags their square (the real cost is
// about a tenth of that).
func (r *run) limit() uint64 {
	n := uint64(strings.Count(string(r.s.Doc), "<") + r.s.Flood*strings.Count(string(r.s.FloodBy), "<"))
	if n > 1<<20 {
		n = 1 << 20
	}
	return r.w.budget + 400*n*n
}

// step runs the session's next operation. It returns normally unless the
// goroutine is exiting.
func (r *run) step() {
	if r.pc >= len(r.s.Ops) {
		return
	}
	op := r.s.Ops[r.pc]
	r.pc++
	r.begin(op)
	r.w.push(r)
	nested := r.s.Nested
	var s0 uint64
	if !nested {
		s0 = rt.Budget(r.limit())
	}
	done := false
	defer func() {
		var pv any
		if !done {
			pv = recover()
		}
		if !nested {
			if s1 := rt.Budget(0); s1-s0 > r.maxSteps {
				r.maxSteps = s1 - s0
			}
		}
		r.w.pop(r)
		r.judge(done, pv)
	}()
	switch op {
	case "new":
		rd, err := readability.New(r.s.page(), r.s.URL, r.opt...)
		r.rd = rd
		if err != nil {
			r.cur.Err = q(err.Error())
		}
		if (rd == nil) == (err == nil) {
			r.findf("outcome", "New returned reader=%v and error=%v", rd != nil, err)
		}
	case "parse":
		if r.rd == nil {
			break
		}
		res, err := r.rd.Parse()
		if (res == nil) == (err == nil) {
			r.findf("outcome", "Parse returned result=%v and error=%v", res != nil, err)
		}
		if err != nil {
			r.cur.Err = q(err.Error())
		}
		if res != nil {
			r.cur.Res = recOf(res)
			r.keptRes = append(r.keptRes, keptRes{res, *r.cur.Res, len(r.rec)})
		}
		r.contract(res, err)
	case "burst": // a long history
		if !r.w.ref && r.s.Burst != nil {
			r.fired[faultIdx("burst")] += r.s.Burst.N
			r.w.push(nil) // log calls of the burst are not the session's
			r.s.Burst.run(r.s.URL, r.limit())
			r.w.pop(nil)
		}
	case "scribble": // the caller reuses its own lists
		if !r.w.ref {
			r.fired[faultIdx("scribble")]++
			r.w.scribble(r)
		}
	case "vandal": // the caller changes everything it was given; its own now
		if !r.w.ref {
			r.fired[faultIdx("vandal")]++
			r.vandal()
		}
	case "readerable":
		b := readability.IsProbablyReaderable(r.s.page(), r.opt...)
		r.cur.Bool = &b
		if r.serN+r.h2tN > 0 {
			r.findf("contract", "readability probe called serializer %d and text converter %d times", r.serN, r.h2tN)
		}
		if b && r.s.Opts.Vis != "" && r.visTrue == 0 {
			r.findf("contract", "page reported readable although the visibility checker accepted no node")
		}
	}
	done = true
}

// vandal changes what the session was given: results, trees, options. It is the
// session's last operation; nobody else may notice.
func (r *run) vandal() {
	for _, k := range r.keptRes {
		*k.res = readability.Result{Title: "vandal", HTMLContent: "vandal", TextContent: "vandal", Length: -1, Byline: "vandal", Excerpt: "vandal", Dir: "vandal", SiteName: "vandal", Lang: "vandal", PublishedTime: "vandal"}
	}
	r.keptRes = nil
	for _, k := range r.kept {
		k.n.SetAttribute("class", "vandal")
		k.n.SetTextContent("vandal")
		k.n.SetInnerHTML("<i>vandal</i>")
	}
	r.kept = nil
	for _, o := range r.saved {
		for _, f := range []readability.Option{readability.ClassesToPreserve("vandal", "x", "y"), readability.CharThreshold(1 << 30), readability.KeepClasses(true), readability.MaxElemsToParse(1), readability.DisableJSONLD(true), readability.NTopCandidates(1), readability.MinScore(1e9),
			readability.Serializer(func(*readability.Node) string { return "vandal" }), readability.Html2Text(func(string) string { return "vandal" })} {
			f(o)
		}
	}
	r.saved = nil
}

func (r *run) contract(res *readability.Result, err error) {
	o := &r.s.Opts
	if o.MaxElems != nil && *o.MaxElems > 0 && !r.ran {
		// until a Parse gets past the limit the page is as it was opened
		if n, ok := r.s.elements(); ok && n > *o.MaxElems {
			r.refusedOps++
			if err == nil {
				r.findf("contract", "document of %d elements was not refused by the limit %d", n, *o.MaxElems)
			}
		} else {
			r.ran = true
		}
	}
	if err != nil {
		if r.serN+r.h2tN > 0 {
			r.findf("contract", "Parse returned an error after calling serializer %d and text converter %d times", r.serN, r.h2tN)
		}
		return
	}
	if res == nil {
		return
	}
	if o.Ser != "" {
		if r.serN != 1 {
			r.findf("contract", "serializer called %d times by a successful Parse", r.serN)
		} else if res.HTMLContent != r.serRet {
			r.findf("contract", "HTML content is not what the serializer returned: %q instead of %q", clip(res.HTMLContent), clip(r.serRet))
		}
	}
	if o.H2T != "" {
		if r.h2tN != 1 {
			r.findf("contract", "text converter called %d times by a successful Parse", r.h2tN)
		} else {
			if r.h2tArg != res.HTMLContent {
				r.findf("contract", "text converter was not given the HTML content: %q instead of %q", clip(r.h2tArg), clip(res.HTMLContent))
			}
			if res.TextContent != r.h2tRet {
				r.findf("contract", "text content is not what the text converter returned: %q instead of %q", clip(res.TextContent), clip(r.h2tRet))
			}
		}
	}
	if o.Ser != "" && o.H2T != "" && r.serN == 1 && r.h2tN == 1 && r.order[0] != "ser" {
		r.findf("contract", "text converter called before the serializer")
	}
	if r.tree != nil {
		if fp := fingerprint(r.tree, r.blind()); fp != r.treeFP {
			r.findf("contract", "the serializer was given a tree that was not finished: it changed before Parse returned")
		}
	}
	if n := utf8.RuneCountInString(res.TextContent); n != res.Length {
		r.findf("contract", "length is %d but the text has %d characters", res.Length, n)
	}
}

// elements is a model of how many elements the page has: start tags, nested
// until the matching end tag comes. ok is false for pages whose root is not
// plain.
func (s *Session) elements() (n int, ok bool) {
	z := html.NewTokenizer(strings.NewReader(s.page()))
	z.AllowCDATA(true)
	stack := []string{""}
	root, all := 0, 0
	for {
		switch z.Next() {
		case html.ErrorToken:
			if root > 1 {
				return 0, false
			}
			if root == 1 {
				return n, true
			}
			return all, true
		case html.StartTagToken, html.SelfClosingTagToken:
			t := z.Token()
			all++
			if t.Data == "html" {
				if len(stack) > 1 {
					return 0, false
				}
				root++
				n++
			} else if len(stack) > 1 && stack[1] == "html" {
				n++
			}
			if t.Type == html.StartTagToken {
				if t.Data == "script" || t.Data == "noscript" {
					z.NextIsNotRawText()
				}
				stack = append(stack, t.Data)
			}
		case html.EndTagToken:
			if t := z.Token(); len(stack) > 1 && t.Data == stack[len(stack)-1] {
				stack = stack[:len(stack)-1]
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

// judge settles an operation that returned, panicked or exited.
func (r *run) judge(done bool, pv any) {
	switch {
	case done:
		if r.thrown != nil {
			r.findf("contract", "panic raised by callback %s was swallowed", r.thrown.cb)
		}
		if r.exited {
			r.findf("contract", "goroutine exit raised by a callback was swallowed")
		}
	case pv != nil:
		r.cur.Res, r.cur.Bool = nil, nil
		if r.thrown != nil && r.thrown.same(pv) {
			r.cur.Panic = "injected:" + r.thrown.cb + ":" + strconv.Itoa(r.thrown.n)
			return
		}
		if in, ok := pv.(*injected); ok {
			r.cur.Panic = "injected:" + in.cb + ":" + strconv.Itoa(in.n)
			r.findf("contract", "panic of another call surfaced here: %s %d", in.cb, in.n)
			return
		}
		if h, ok := pv.(rt.Hang); ok {
			r.cur.Panic = "hang"
			r.findf("hang", "no end after %d steps, at %s", r.limit(), siteName(h.Site))
			return
		}
		msg := fmt.Sprint(pv)
		if re, ok := pv.(runtime.Error); ok {
			msg = re.Error()
		}
		r.cur.Panic = q("panic: " + msg)
		if r.thrown != nil {
			r.findf("contract", "panic raised by callback %s reached the caller as %q", r.thrown.cb, clip(msg))
		} else {
			r.findf("crash", "panic: %s", clip(msg))
		}
	default: // goroutine exit
		r.cur.Goexit = true
		if !r.exited {
			r.findf("crash", "goroutine exited without a callback asking for it")
		}
	}
}
