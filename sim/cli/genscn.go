package verifcli

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"slices"
	"strings"
)

const marker = "zqmark"

// genBody writes a page that usually holds an article with the marker in it.
func genBody(r *Rng) string {
	var d string
	if len(fixtures) > 0 && r.P(1, 10) {
		d = pick(r, fixtures)
	} else {
		d = genPage(r, r.Range(3, 60))
	}
	if directed(r) {
		d = season(r, d)
	}
	if i := strings.Index(d, "<body"); i >= 0 {
		if j := strings.Index(d[i:], ">"); j >= 0 {
			art := "\n<p>" + marker + " " + genText(r, true) + ", " + genText(r, true) + " " + marker + " <a href=\"rel/" + marker + ".html\">" + genText(r, false) + "</a> and <img src=\"pic.png\"/>.</p>\n"
			if r.P(1, 2) { // enough of it to be an article for certain
				for k := r.Range(2, 12); k > 0; k-- {
					art += "<p>" + genText(r, true) + ", " + marker + ", " + genText(r, true) + ", " + genText(r, true) + ". <a href=\"" + pick(r, []string{"x", "../y", "/z", "#frag", "?q=1", "//h/p", "http://abs/"}) + "\">" + genText(r, false) + "</a></p>\n"
				}
				art = "<div class=\"article\">" + art + "</div>"
			}
			d = d[:i+j+1] + art + d[i+j+1:]
		}
	}
	if r.P(1, 12) { // an article larger than any buffer
		var b strings.Builder
		for k := r.Range(50, 700); k > 0; k-- {
			b.WriteString("<p>" + genText(r, true) + ", " + marker + ", " + genText(r, true) + "</p>\n")
		}
		d = "<html><head><title>" + marker + " title</title></head><body><div>" + b.String() + "</div></body></html>"
	}
	if r.P(1, 4) { // something the library logs an error about
		d = strings.Replace(d, "<body", "<script type=\"application/ld+json\">{\"@type\": </script><body", 1)
	}
	if r.P(1, 15) { // nothing to extract
		d = pick(r, []string{"", " ", "<html></html>", "<html><body></body></html>", "<html><head><title>" + marker + "</title></head></html>", "<html><body><script>" + marker + "</script></body></html>", "plain " + marker})
	}
	if r.P(1, 3) { // other places the page speaks of
		to := pick(r, []string{"http://other.example/y", "http://www.site.example/", "/other", "other", "//other.example/z", "http://site.example/a/b/"})
		x := fmt.Sprintf(pick(r, []string{`<meta http-equiv="refresh" content="0; url=%s"/>`, `<meta http-equiv="refresh" content="0;URL='%s'"/>`, `<META HTTP-EQUIV=Refresh CONTENT="5; URL=%s">`, `<link rel="canonical" href="%s"/>`, `<link rel="amphtml" href="%s"/>`, `<link rel="next" href="%s"/>`, `<link rel="shortcut icon" href="%s"/>`,
			`<link rel="alternate" type="application/rss+xml" href="%s"/>`, `<meta property="og:url" content="%s"/>`, `<meta property="og:image" content="%s"/>`, `<a rel="next" class="next" href="%s">Next page</a>`, `<iframe src="%s"></iframe>`, `<script>location.href="%s"</script>`, `<link rel="stylesheet" href="%s"/>`, `<link rel="preload" href="%s"/>`, `<frameset><frame src="%s"/></frameset>`}), to)
		if i := strings.Index(d, "<body"); i >= 0 && r.P(2, 3) {
			d = d[:i] + x + d[i:]
		} else {
			d = x + d
		}
	}
	if len(dictNew) > 0 && r.P(1, 4) {
		d = mention(r, d, dictWord(r))
	}
	if r.P(1, 10) { // bytes that are no UTF-8, or that other encodings read otherwise
		x := pick(r, []string{"caf\xe9", "\x93quoted\x94", "na\u00efve \u65e5\u672c", "\x82\xa0", "\u00a0", "\r\n", "\ufeff"})
		d = strings.ReplaceAll(d, marker+",", marker+" "+x+",")
	}
	if r.P(1, 30) {
		d = "\xef\xbb\xbf" + d
	}
	if r.P(1, 12) && d != "" {
		d = applyDamage(d, genDamage(r, len(d)))
	}
	if r.P(1, 40) { // compressed, and nobody says so
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write([]byte(d))
		z.Close()
		d = b.String()
	}
	return d
}

func logN(r *Rng, n int) int {
	b := 0
	for x := n; x > 1; x >>= 1 {
		b++
	}
	return 1 + r.N(1<<r.N(b+1))%n
}

func genSegs(r *Rng, total int) []Seg {
	var s []Seg
	ms := func() int {
		switch r.N(6) {
		case 0, 1, 2:
			return 0
		case 3:
			return r.N(50)
		case 4:
			return r.N(5000)
		}
		return r.N(1000 * logN(r, 36000))
	}
	switch r.N(5) {
	case 0: // all at once
		if r.P(1, 2) {
			s = append(s, Seg{total, ms()})
		}
	case 1: // byte by byte, at least at the start
		for k := min(total, r.Range(1, 600)); k > 0; k-- {
			s = append(s, Seg{1, pick(r, []int{0, 0, 0, 1, 20})})
		}
	case 2: // even pieces
		n := logN(r, 65536)
		for left, k := total, 0; left > 0 && k < 400; left, k = left-n, k+1 {
			s = append(s, Seg{n, ms()})
		}
	default:
		for left, k := total, 0; left > 0 && k < 100; k++ {
			n := logN(r, 40000)
			s = append(s, Seg{n, ms()})
			left -= n
		}
	}
	return s
}

func (rt *Route) dress(r *Rng) {
	rt.Frame = pick(r, []string{"len", "len", "chunked", "chunked", "close"})
	rt.Gzip = r.P(1, 3)
	if rt.Frame == "chunked" {
		for k := r.Range(1, 4); k > 0; k-- {
			rt.Chunks = append(rt.Chunks, logN(r, 65536))
		}
		for len(rt.Body) > 100000 && rt.Chunks[0] < 16 {
			rt.Chunks[0] *= 16
		}
	}
	if r.P(1, 6) {
		rt.Interim = append(rt.Interim, pick(r, []int{100, 102, 103, 103}))
	}
	ct := pick(r, []string{"text/html", "text/html; charset=utf-8", "text/html; charset=iso-8859-1", "text/html;charset=shift_jis", "TEXT/HTML", "application/xhtml+xml", "text/plain", ""})
	if ct != "" {
		rt.Headers = append(rt.Headers, [2]string{"Content-Type", ct})
	}
	for k := r.N(3); k > 0; k-- {
		rt.Headers = append(rt.Headers, [2]string{fmt.Sprintf("X-H%d", r.N(9)), strings.Repeat("v", logN(r, 3000))})
	}
	if len(dictNew) > 0 && r.P(1, 3) {
		if t := pathLike(dictWord(r)); t != "" {
			switch v := pathLike(dictWord(r)) + "1"; r.N(3) {
			case 0:
				rt.Headers = append(rt.Headers, [2]string{"X-" + strings.ReplaceAll(t, ".", "-"), v})
			case 1:
				if t = strings.ToLower(strings.ReplaceAll(t, ".", "-")); !slices.Contains([]string{"content-encoding", "content-length", "transfer-encoding", "connection", "location", "trailer", "upgrade", "content-type"}, t) {
					rt.Headers = append(rt.Headers, [2]string{t, pick(r, []string{"1", "0", "nosniff", "utf-8", "inline", "attachment", v})})
				}
			default:
				rt.Headers = append(rt.Headers, [2]string{"X-H", t})
			}
		}
	}
	if r.P(1, 2) {
		for k := r.Range(1, 4); k > 0; k-- {
			rt.Headers = append(rt.Headers, pick(r, webHeaders))
		}
	}
	if r.P(1, 8) {
		rt.Headers = append(rt.Headers, [2]string{"Set-Cookie", "a=b; Path=/"})
	}
}

// webHeaders are what servers say about a page besides its type.
var webHeaders = [][2]string{
	{"Accept-Ranges", "bytes"}, {"Accept-Ranges", "bytes"}, {"Accept-Ranges", "none"}, {"ETag", "\"abc\""}, {"ETag", "W/\"1\""}, {"Last-Modified", "Mon, 02 Jan 2006 15:04:05 GMT"},
	{"Retry-After", "1"}, {"Retry-After", "120"}, {"Retry-After", "Mon, 02 Jan 2006 15:04:05 GMT"}, {"Refresh", "0; url=/other"}, {"Refresh", "5"}, {"Link", "</other>; rel=\"canonical\""},
	{"Link", "</amp>; rel=amphtml"}, {"X-Robots-Tag", "noindex, noarchive"}, {"Content-Disposition", "attachment; filename=\"page.html\""}, {"Content-Disposition", "inline"}, {"Vary", "User-Agent, Accept-Encoding"},
	{"Vary", "*"}, {"Cache-Control", "no-store"}, {"Cache-Control", "max-age=31536000, immutable"}, {"Expires", "0"}, {"Age", "10"}, {"Content-Language", "it"}, {"Content-Location", "/other"}, {"Location", "/other"},
	{"Server", "nginx"}, {"Via", "1.1 proxy"}, {"Alt-Svc", "h3=\":443\"; ma=86400"}, {"Strict-Transport-Security", "max-age=63072000"}, {"Content-Security-Policy", "default-src 'none'"}, {"X-Frame-Options", "DENY"},
	{"X-Content-Type-Options", "nosniff"}, {"Content-Range", "bytes 0-99/200"}, {"WWW-Authenticate", "Basic realm=\"x\""}, {"Keep-Alive", "timeout=1"}, {"Warning", "110 - \"stale\""}, {"Content-MD5", "AAAA"},
	{"Digest", "sha-256=AAAA"}, {"Clear-Site-Data", "\"*\""}, {"Date", "Mon, 02 Jan 2006 15:04:05 GMT"}, {"Pragma", "no-cache"}, {"Status", "404"}, {"X-Cache", "HIT"}, {"Timing-Allow-Origin", "*"},
}

// pathLike keeps what can stand in an address.
func pathLike(t string) string {
	t = strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' || c == '_' {
			return c
		}
		return -1
	}, t)
	if strings.Trim(t, ".") == "" {
		return "d" // no dot segments
	}
	return t
}

var hosts = []string{"site.example", "www.site.example", "site.example:8080", "other.example", "site.example:80", "Site.Example", "[::1]:8080", "127.0.0.1"}
var paths = []string{"/", "/a/b/page.html", "/a/b/", "/page?x=1&y=2", "/deep/er/and/deeper/page", "/p%20q"}

func genScn(prop string, seed, run uint64) *Scn {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	r := newRng(seed, h, run)
	s := &Scn{Prop: prop, Seed: seed, Run: run, Kind: "plain", Routes: map[string]Route{}}
	key := func(tag string) string {
		k := pick(r, hosts) + pick(r, paths)
		if directed(r) && r.P(1, 2) {
			k = pick(r, hosts) + "/" + pathLike(dictWord(r)) + pick(r, []string{"", "/", "/x.html", "x"})
			if r.P(1, 4) {
				k = pick(r, hosts) + "/x?" + pathLike(dictWord(r))
			}
		}
		if tag != "" {
			if strings.Contains(k, "?") {
				k += "&" + tag
			} else {
				k += "?" + tag
			}
		}
		return k
	}
	first := key("")
	s.First = first
	s.URL = "http://" + first
	if h, p, _ := strings.Cut(first, "/"); p == "" && r.P(1, 3) {
		s.URL = "http://" + h
	}
	plain := s.URL
	if r.P(1, 6) {
		s.URL += pick(r, []string{"#frag", "#frag", "#", "#a%20b", "#\u00e9", "#a?b"})
	}
	if r.P(1, 12) {
		s.URL = "HTTP" + s.URL[4:]
	}
	if prop == "C13" && r.P(1, 4) {
		s.URL = s.URL[:7] + pick(r, []string{"u:secret@", "u@", "u:p%40ss@"}) + s.URL[7:]
	}
	// the page
	page := Route{Status: 200, Body: Text(genBody(r))}
	if r.P(1, 4) { // where links lead
		_, own, _ := strings.Cut(first, "/")
		b := pick(r, []string{plain, s.URL, "/" + own, "/" + own, "", "#", "other/", "/x/", "http://other.example/y/z", "//h.example", "%zz"})
		page.Body = Text(strings.Replace(string(page.Body), "<body", "<base href=\""+b+"\"/><body", 1))
	}
	if r.P(1, 12) {
		page.Status = pick(r, []int{201, 202, 203, 206, 226, 299, 300, 400, 401, 403, 404, 410, 416, 429, 451, 500, 502, 503, 504})
	}
	if r.P(1, 10) {
		page.Pad = logN(r, 6<<20)
		page.PadTop = r.P(2, 3)
	}
	huge := prop == "C09" && r.P(1, 100)
	if huge {
		page.Pad = pick(r, []int{9, 12, 17, 33, 66, 130}) << 20
		page.PadTop = true
	}
	page.dress(r)
	last := first
	// the way to it
	if r.P(1, 3) {
		n := logN(r, 9)
		for i := 0; i < n; i++ {
			nk := key(fmt.Sprintf("hop=%d", i))
			loc := "http://" + nk
			a, b := strings.IndexByte(last, '/'), strings.IndexByte(nk, '/')
			if last[:a] == nk[:b] && r.P(2, 3) {
				loc = nk[b:]
			}
			red := Route{Status: pick(r, []int{301, 302, 303, 307, 308}), Frame: pick(r, []string{"len", "len", "chunked", "close"}), Next: nk, Body: Text(pick(r, []string{"", "moved", "<a href=x>moved</a>"}))}
			if r.P(1, 8) {
				red.Body = Text(strings.ReplaceAll(genBody(r), marker, "elsewhere"))
			}
			red.Headers = append(red.Headers, [2]string{"Location", loc})
			red.After = pick(r, []string{"keep", "keep", "close", "idleclose", "killnext"})
			if r.P(1, 2) {
				w, _ := red.wire(true)
				red.Segs = genSegs(r, len(w))
			}
			s.Routes[last] = red
			last = nk
		}
		s.Kind = "redirect"
	}
	fault := prop == "C08" && r.P(4, 5) || prop == "C13" && r.P(1, 2)
	if fault {
		genNetFault(r, s, &page, last)
	}
	w, _ := page.wire(true)
	page.Segs = genSegs(r, len(w))
	if huge && len(page.Segs) > 0 && len(page.Chunks) > 0 {
		page.Chunks[0] += 30000
	}
	if s.Routes[last].Status == 0 && s.Kind != "unrouted" {
		s.Routes[last] = page
	}
	if r.P(1, 10) && len(s.Dials) == 0 {
		s.Dials = append(s.Dials, DialFault{1, "slow"})
	}
	// arguments
	if r.P(1, 2) {
		s.HTML = true
		s.Args = append(s.Args, pick(r, [][]string{{"-o", "html"}, {"-o=html"}, {"-output", "html"}, {"--output=html"}, {"-o", "text", "-o", "html"}})...)
	} else if r.P(1, 2) {
		s.Args = append(s.Args, pick(r, [][]string{{"-o", "text"}, {"-o=text"}, {"--output", "text"}})...)
	}
	if r.P(1, 3) {
		s.Args = append(s.Args, pick(r, []string{"-v", "-verbose", "--v=true", "-v=false"}))
	}
	if s.Kind != "nourl" {
		s.Args = append(s.Args, s.URL)
	}
	if r.P(1, 4) {
		for k := r.Range(1, 2); k > 0; k-- {
			s.Err = append(s.Err, genIO(r, 200))
		}
	}
	return s
}

func genIO(r *Rng, n int) IOFault {
	f := IOFault{Off: logN(r, n) - 1, Kind: pick(r, []string{"enospc", "eio", "epipe", "short", "slow"}), Once: r.P(1, 3)}
	if f.Kind == "slow" {
		f.Delay = r.N(3600_000)
	}
	return f
}

func genNetFault(r *Rng, s *Scn, page *Route, last string) {
	switch r.N(12) {
	case 0: // the name or the connection fails, maybe only after some hops
		s.Kind = "dial"
		n := 1
		if s.Routes[s.First].Next != "" {
			// only hops on connections that cannot be reused dial again
			for k, x := range s.Routes {
				x.After = "close"
				s.Routes[k] = x
				n++
			}
			n = r.Range(1, n)
		}
		s.Dials = append(s.Dials, DialFault{n, pick(r, []string{"refused", "nohost", "timeout", "unreach", "wrfail"})})
	case 1, 2, 3, 4: // the reply breaks off
		s.Kind = "cut"
		w, at := page.wire(true)
		lim := len(w)
		if page.Frame == "chunked" {
			lim -= 5
		}
		page.CutBy = pick(r, []string{"fin", "rst"})
		c := 0
		switch r.N(4) {
		case 0:
			c = r.N(at)
		case 1:
			c = at + r.N(max(1, lim-at))
		case 2:
			c = max(at, lim-logN(r, 64))
		default:
			c = r.N(max(1, lim))
		}
		if c >= lim {
			c = lim - 1
		}
		page.Cut = max(0, c) + 1
	case 5: // the compressed stream breaks off inside a complete body
		s.Kind = "gzip"
		page.Gzip = true
		w, at := page.wire(true)
		if page.Body == "" {
			page.Body = "<html><body><p>" + marker + "</p></body></html>"
		}
		if r.P(1, 2) {
			page.GzCut = logN(r, max(1, len(w)-at))
		} else {
			// inside the checksum and length at the end, or the data
			page.GzFlip = 1 + 80 + r.N(1<<20)
			var b = *page
			b.Frame = "close"
			bw, bat := b.wire(true)
			n := (len(bw) - bat) * 8
			page.GzFlip = 1 + 80 + r.N(n-80)
			if r.P(1, 2) {
				page.GzFlip = n - r.N(64)
			}
		}
	case 6: // not HTTP
		s.Kind = "malformed"
		tail := "\r\n\r\n" + string(page.Body)
		page.Raw = Text(pick(r, []string{
			"garbage\r\n",
			"HTTP/1.1\r\n" + tail,
			"HTTP/9.x 200 OK" + tail,
			"HTTP/1.1 abc OK" + tail,
			"HTTP/1.1 20 OK" + tail,
			"HTTP/1.1 200 OK\r\nNoColonHere" + tail,
			"HTTP/1.1 200 OK\r\nContent-Length: -5" + tail,
			"HTTP/1.1 200 OK\r\nContent-Length: 12x" + tail,
			"HTTP/1.1 200 OK\r\nContent-Length: 10\r\nContent-Length: 20" + tail,
			"HTTP/1.1 200 OK\r\nTransfer-Encoding: bogus" + tail,
			"HTTP/1.1 200 OK\r\nContent-Length: 999999999" + tail,
			"\x00\x01\x02\x03\r\n",
			"\r\n\r\n",
			"HTTP/1.1 103 Early\r\n\r\n",
		}))
		page.CutBy = pick(r, []string{"fin", "rst"})
	case 7: // endless redirects
		s.Kind = "loop"
		loop := Route{Status: pick(r, []int{301, 302, 307}), Frame: "len", Next: last, After: pick(r, []string{"keep", "close", "idleclose", "killnext"})}
		loop.Headers = append(loop.Headers, [2]string{"Location", "http://" + last})
		if r.P(1, 2) { // two pages pointing at each other
			other := last + "x"
			if !strings.Contains(last, "?") {
				other = last + "?loop"
			}
			back := loop
			if r.P(1, 2) {
				back.Body = page.Body
			}
			loop.Next = other
			loop.Headers = [][2]string{{"Location", "http://" + other}}
			s.Routes[other] = back
		}
		if r.P(1, 2) {
			loop.Body = page.Body
		}
		s.Routes[last] = loop
	case 8: // redirect to nowhere
		s.Kind = "badredirect"
		bad := Route{Status: 302, Frame: "len", Next: "nowhere", Body: "moved"}
		if r.P(1, 2) {
			bad.Body = page.Body
		}
		bad.Headers = append(bad.Headers, [2]string{"Location", pick(r, []string{"ftp://site.example/", "http://[bad", "mailto:a@b", "http://a b/"})})
		s.Routes[last] = bad
	case 9: // broken chunk framing
		s.Kind = "chunk"
		page.Frame = "chunked"
		if page.Body == "" {
			page.Body = "<html><body><p>" + marker + "</p></body></html>"
		}
		page.Chunk0 = pick(r, []string{"xyz", "-5", "", "ffffffffffffffffff", "5 5"})
		page.CutBy = pick(r, []string{"fin", "rst"})
	case 10:
		if r.P(1, 2) {
			s.Kind = "nourl"
			s.First = "none"
		} else {
			s.Kind = "badurl"
			s.First = "none"
			s.URL = pick(r, []string{"http://[bad", "noscheme", "://x", "ftp://site.example/x", "http://", "http://a b/", "\x7f"})
		}
	default: // the page arrives, the output device fails
		s.Kind = "output"
		for k := r.Range(1, 2); k > 0; k-- {
			s.Out = append(s.Out, genIO(r, 4000))
		}
		if r.P(1, 4) {
			s.Out[0].Off = r.N(100000)
		}
	}
	if s.Kind != "output" && r.P(1, 8) {
		s.Out = append(s.Out, genIO(r, 4000))
	}
}
