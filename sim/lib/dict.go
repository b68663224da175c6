package main

import (
	"encoding/json"
	"strconv"
	"strings"
)

// The dictionary holds the words and numbers the code under test compares
// things with (dict_data.go, written by the build from the literals of the
// current tree): dictNew and intNew are those it did not hold, or held less
// often, when the checks were written. It only steers what the simulated
// callers and servers say; no check judges by it.

var dictTag = []string{"div", "p", "span", "section", "a", "img", "table", "li", "h2", "figure", "iframe"}
var dictAttr = []string{"class", "id", "href", "src", "style", "rel", "itemprop", "type", "lang", "dir", "role", "alt", "name", "title", "srcset", "data-src", "property", "content", "width", "aria-hidden", "summary", "align"}

func dictWord(r *Rng) string {
	if len(dictNew) > 0 && !r.P(1, 6) {
		return pick(r, dictNew)
	}
	if len(dictAll) == 0 {
		return "x"
	}
	return pick(r, dictAll)
}

func dictInt(r *Rng) int {
	n := pick(r, []int{10, 25, 64, 100, 128, 250, 256, 500, 512, 1000, 1024})
	if len(dictInts) > 0 {
		n = pick(r, dictInts)
	}
	if len(intNew) > 0 && !r.P(1, 6) {
		n = pick(r, intNew)
	}
	return max(0, n+pick(r, []int{0, 0, 1, 1, -1, 2, n}))
}

func nameLike(t string) bool {
	for i, c := range t {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '-' || c == '_' || c == ':')) {
			return false
		}
	}
	return t != ""
}

func attrSafe(t string) string {
	return strings.NewReplacer("&", "&amp;", `"`, "&quot;", "<", "&lt;").Replace(t)
}

// vary writes a word another way, now and then.
func vary(r *Rng, t string) string {
	switch r.N(12) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		if len(t) > 0 {
			return strings.ToUpper(t[:1]) + t[1:]
		}
	case 2:
		return t + strconv.Itoa(r.N(20))
	case 3:
		return pick(r, words) + t
	case 4:
		return t + " " + pick(r, words)
	case 5:
		return pick(r, words) + " " + t + " " + pick(r, words)
	}
	return t
}

// inTag puts s into a start tag of the page.
func inTag(r *Rng, d, s string) string {
	for try := 0; try < 8; try++ {
		at := r.N(len(d) + 1)
		i := strings.IndexByte(d[at:], '<')
		if i < 0 {
			continue
		}
		at += i + 1
		j := at
		for j < len(d) && (d[j] >= 'a' && d[j] <= 'z' || d[j] >= '1' && d[j] <= '6') {
			j++
		}
		if j == at {
			continue
		}
		return d[:j] + " " + s + d[j:]
	}
	return d
}

// inText puts s into the text of the page's body.
func inText(r *Rng, d, s string) string {
	lo := max(0, strings.Index(d, "<body"))
	for try := 0; try < 8; try++ {
		at := lo + r.N(len(d)-lo+1)
		i := strings.IndexByte(d[at:], '>')
		if i < 0 {
			continue
		}
		at += i + 1
		if k := strings.IndexByte(d[at:], '<'); k > 1 {
			k = r.N(k)
			if sp := strings.IndexByte(d[at+k:], ' '); sp >= 0 && !strings.Contains(d[at+k:at+k+sp], "<") {
				at += k + sp + 1
			}
		}
		return d[:at] + s + " " + d[at:]
	}
	return d + s
}

func inHead(d, s string) string {
	for _, k := range []string{"<head>", "<html>", "<body>"} {
		if i := strings.Index(d, k); i >= 0 {
			return d[:i+len(k)] + s + d[i+len(k):]
		}
	}
	return s + d
}

// season makes the page mention words and meet numbers of the dictionary.
func season(r *Rng, d string) string {
	for k := r.Range(1, 4); k > 0; k-- {
		if (len(intNew) > 0 || len(dictNew) == 0) && r.P(1, 3) || len(dictNew) == 0 && len(intNew) > 0 && r.P(1, 2) {
			d = measure(r, d, dictInt(r))
		} else {
			d = mention(r, d, dictWord(r))
		}
	}
	return d
}

func mention(r *Rng, d, t string) string {
	v := vary(r, t)
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch r.N(16) {
	case 0, 1: // in the title
		if i, j := between(d, "<title>", "</title>"); i >= 0 {
			if r.P(1, 2) {
				return d[:i] + attrSafe(v) + d[j:]
			}
			return d[:i] + attrSafe(v) + " " + d[i:]
		}
		return inHead(d, "<title>"+attrSafe(v)+" of the page</title>")
	case 2, 3: // in the text, escaped or as it is
		for k := logD(r, 6); k > 0; k-- {
			if r.P(1, 3) {
				d = inText(r, d, v)
			} else {
				d = inText(r, d, attrSafe(v))
			}
		}
		return d
	case 4, 5: // as an attribute's value
		for k := logD(r, 4); k > 0; k-- {
			d = inTag(r, d, pick(r, dictAttr)+`="`+attrSafe(v)+`"`)
		}
		return d
	case 6: // as a class or id
		return inTag(r, d, pick(r, []string{"class", "id"})+`="`+attrSafe(v)+`"`)
	case 7: // as an attribute
		if nameLike(t) {
			return inTag(r, d, t+pick(r, []string{"", `=""`, `="true"`, `="1"`, `="a.jpg"`, `="x y"`}))
		}
		return inTag(r, d, `data-x="`+attrSafe(v)+`"`)
	case 8: // as an element
		if nameLike(t) {
			return inText(r, d, "<"+t+" class=\"x\">"+genText(r, false)+"</"+t+">")
		}
		return inText(r, d, "<p>"+attrSafe(v)+"</p>")
	case 9: // as an element's whole text
		tag := pick(r, []string{"p", "div", "span", "h1", "h2", "h3", "a", "li", "figcaption", "td", "code", "pre"})
		return inText(r, d, "<"+tag+">"+attrSafe(v)+"</"+tag+">")
	case 10: // in the metadata
		if r.P(1, 2) {
			return inHead(d, `<meta `+pick(r, []string{"name", "property"})+`="`+attrSafe(v)+`" content="`+genTextPlain(r)+`"/>`)
		}
		return inHead(d, `<meta `+pick(r, []string{"name", "property"})+`="`+pick(r, metaNames)+`" content="`+attrSafe(v)+`"/>`)
	case 11: // in JSON-LD
		if i := strings.Index(d, `{"@context"`); i >= 0 {
			if r.P(1, 2) {
				return d[:i+1] + q(t) + ":" + pick(r, []string{`"x"`, "1", "[]", "{}", "null", q(v)}) + "," + d[i+1:]
			}
		}
		o := map[string]string{"@context": "https://schema.org", "@type": "Article", "headline": "A headline of some sort", "name": "Another name for it", "author": "x", "description": "y", "datePublished": "2020"}
		o[pick(r, []string{"@context", "@type", "headline", "name", "author", "description", "datePublished"})] = v
		b, _ := json.Marshal(o)
		return inHead(d, `<script type="application/ld+json">`+string(b)+"</script>")
	case 12, 13: // as an address, or inside one
		u := pick(r, []string{t, "/" + t, "http://other.example/" + t, "http://" + t + "/x", "#" + t, "?" + t + "=1", "x." + t, t + "x", t + ":x", "//" + t})
		if r.P(1, 2) {
			return inText(r, d, `<a href="`+attrSafe(u)+`">`+genText(r, false)+"</a>")
		}
		return inText(r, d, "<"+pick(r, []string{"img", "iframe", "embed", "source", "video"})+` src="`+attrSafe(u)+`"/>`)
	case 14: // around the page
		if r.P(1, 2) {
			return t + d
		}
		return d + t
	}
	at := r.N(len(d) + 1)
	return d[:at] + t + d[at:]
}

func genTextPlain(r *Rng) string {
	n := r.Range(1, 8)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(r, words))
	}
	return strings.Join(w, " ")
}

func between(d, a, b string) (int, int) {
	i := strings.Index(d, a)
	if i < 0 {
		return -1, -1
	}
	i += len(a)
	j := strings.Index(d[i:], b)
	if j < 0 {
		return -1, -1
	}
	return i, i + j
}

func logD(r *Rng, n int) int {
	k := 1
	for k < n && r.P(1, 2) {
		k *= 2
	}
	return min(k, n)
}

func prose(r *Rng, n int) string {
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(pick(r, words))
		if r.P(1, 8) {
			b.WriteByte(',')
		}
		b.WriteByte(' ')
	}
	return b.String()[:n]
}

// measure makes something of the page n long, wide, deep or many.
func measure(r *Rng, d string, n int) string {
	if n > 1<<16 {
		return d
	}
	switch r.N(10) {
	case 0, 1: // a text of that length
		tag := pick(r, []string{"p", "p", "div", "span", "h1", "a", "li", "td", "pre"})
		return inText(r, d, "<"+tag+">"+prose(r, n)+"</"+tag+">")
	case 2: // a title
		if i, j := between(d, "<title>", "</title>"); i >= 0 && n < 4096 {
			return d[:i] + prose(r, n) + d[j:]
		}
	case 3: // an attribute
		return inTag(r, d, pick(r, dictAttr)+`="`+prose(r, n)+`"`)
	case 4: // the page itself
		if pad := n - len(d) - 7; pad > 0 {
			return d + "<!--" + prose(r, pad) + "-->"
		}
	case 5, 6: // so many
		if n <= 600 {
			x := pick(r, []string{"<p>word, word.</p>", "<a href=\"#a\">w</a>", "<br>", "<img src=\"a.jpg\"/>", "<li>w</li>", "<div></div>", "<span>w</span>", ", ", "<h2>w</h2>", "<td>w</td>", "<tr><td>w</td></tr>", "<!--c-->", "&amp;", "<b>", "<input>", "<embed src=\"x\">"})
			if r.P(1, 3) {
				x = "<" + pick(r, dictTag) + ">" + pick(r, words) + "</" + pick(r, dictTag) + ">"
			}
			return inText(r, d, strings.Repeat(x, n))
		}
	case 7: // so deep
		if n <= 300 {
			x := pick(r, []string{"div", "span", "section", "b", "p", "ul", "blockquote"})
			return inText(r, d, strings.Repeat("<"+x+">", n)+prose(r, 30)+strings.Repeat("</"+x+">", n))
		}
	case 8: // so many in the head
		if n <= 300 {
			return inHead(d, strings.Repeat(pick(r, []string{`<meta name="author" content="x"/>`, `<script type="application/ld+json">{"@context":"https://schema.org","@type":"Article","headline":"h"}</script>`, `<script type="application/ld+json">{</script>`, "<style>x</style>"}), n))
		}
	default: // so many attributes or classes
		if n <= 300 {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString("d" + strconv.Itoa(i) + pick(r, []string{" ", "=\"1\" "}))
			}
			if r.P(1, 2) {
				return inTag(r, d, b.String())
			}
			return inTag(r, d, `class="`+strings.ReplaceAll(b.String(), "=\"1\"", "")+`"`)
		}
	}
	return inText(r, d, "<p>"+prose(r, min(n, 4096))+"</p>")
}

// directed says whether to use the dictionary for the next piece of work.
func directed(r *Rng) bool {
	if len(dictNew)+len(intNew) > 0 {
		return r.P(1, 2)
	}
	return r.P(1, 10)
}
