package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
)

// The page generator is the workload of the simulated origin server: it writes
// web pages that steer every stage of the extractor (metadata, JSON-LD,
// unlikely-candidate stripping, scoring, sibling joining, conditional cleaning,
// lazy images, URL fixing, retry passes).

type pageGen struct {
	r     *Rng
	b     *strings.Builder
	quota int // remaining element budget
	// swarm switches, fixed per page
	messy    bool // unbalanced tags, unclosed void elements
	hidden   bool // hidden / dialog / role attributes
	longText bool
	rich     bool // media
	tables   bool
	odd      bool // odd attribute values, odd tag names
	unlikely bool
	links    bool
}

var words = strings.Fields(`time year people way day man thing woman life child world school state family student group country problem hand part place case week company system program question work government number night point home water room mother area money story fact month lot right study book eye job word business issue side kind head house service friend father power hour game line end member law car city community name president team minute idea kid body information back parent face others level office door health person art war history party result change morning reason research girl guy moment air teacher force education`)

var unlikelyNames = []string{"comment", "sidebar", "footer-links", "header-top", "menu", "social", "sponsor", "banner", "related", "pagination", "popup", "-ad-", "ad-break", "disqus", "breadcrumbs", "extra", "gdpr", "rss", "shoutbox", "agegate"}
var positiveNames = []string{"article", "article-body", "content", "main-content", "entry", "hentry", "post", "text", "story", "blog-post", "page", "body-text", "column", "main"}
var negativeNames = []string{"hidden", "hid", "foot", "meta", "outbrain", "promo", "scroll", "share", "sharedaddy", "share_box", "shopping", "tags", "tool", "widget", "contact", "com-x", "masthead", "media", "footnote"}
var neutralNames = []string{"x", "caption", "a1", "wrap", "box", "lazy", "Lazyload", "fallback-image", "byline", "author", "dateline", "p-author", "writtenby", "foo bar", "page caption", " ", "page  x", "row", "readability-page-1", "readability", "title", "big"}
var styleVals = []string{"display:none", "display: none;", "display", "display:", ";;", ":", "visibility:hidden", "visibility: hidden", "color:red;display:none", "color:red; width : 3px", "visibility", " display : none ", "color", "display:block;visibility", "a:b:c", "none"}
var urlVals = []string{"", " ", "\t\n", "#", "#top", "#a b", "javascript:void(0)", "javascript:alert('x')", "JavaScript:x", " javascript:x", "rel/path.html", "/abs/path", "../up", "./a/../b", "?q=1", "a?", "a#", "//other.example/p", "//", "http://other.example/x%20y?z=1#f%20g", "http://Other.EXAMPLE", "%zz", "a%zz", "http://[::1", "http://a b/", ":", "::", "a:b", "mailto:x@y.z", "data:text/plain,hi", "data:image/png;base64,iVBORw0KGgo=", "data:image/svg+xml;base64,PHN2Zy8+", "DATA: image/gif ; base64 ,R0lGODlhAQABAAAAACw=", "http://h/a,%20http://h/b", ",%20", "a,%20 ,%20b", "x,%20", "foo.jpg", "img.png 2x", "file:///C|/x", "file:///C:/a%20b", "/a%20b/c", "#é%20", "http://h:99999/", "http://h:x/", "\x00", "é/ü?ö#ä", "http://h/\x7f", "tel:+1", "//h/%41?b%20c", "%", "%4", "?", "??", "##", "/#?"}
var srcsetVals = []string{"", " ", "a.jpg", "a.jpg 1x, b.jpg 2x", "a.jpg 1x,b.jpg 2x", "a.jpg 100w, b.jpg 200w", ",", ", ,", "a.jpg 1.5x", "null", "data:image/png;base64,AAAA 1x", "a b c", "\u00a0", "/x.png  3x ,  /y.png", "\x00 1x", "# 1x", ", # , "}
var dataVals = []string{"a.jpg", "b.png?x=1", "pic.webp 2x", "pic.jpeg 300w, p.png 2x", "not an image", "http://h/z.jpg", "{\"a\":\"b.jpg\"}", " c.png "}
var titleVals = []string{"", " ", "Short", "A reasonably long page title here", "Site | The great article about things", "Foo - Bar", "One / Two / Three / Four » Five", "News: The thing that happened today in town", "A: B", ":", ": ", "a: ", "x » ", " - ", " | ", "- -", "The first part of the very long title: and", "Prefix words that are more than five here: rest", "Very \n spaced   title  text", "é: ü ö", "T\\U \\ V", "|", " / / ", "A &amp; B - C", "One two three four five six: seven eight nine", "\u00a0", "a: b: c", "Long " + strings.Repeat("word ", 40)}
var roleVals = []string{"menu", "menubar", "complementary", "navigation", "alert", "alertdialog", "dialog", "presentation", "main", ""}
var blockTags = []string{"div", "div", "div", "div", "section", "article", "p", "p", "p", "p", "pre", "blockquote", "main", "ul", "ol", "dl", "table", "form", "fieldset", "figure", "header", "footer", "aside", "nav", "h1", "h2", "h3", "h4", "h5", "h6", "address", "details", "center", "td", "tr", "tbody", "th", "li", "dd", "dt", "caption", "xmp", "noframes", "title", "frameset", "template"}
var inlineTags = []string{"a", "a", "a", "span", "b", "i", "em", "strong", "font", "code", "small", "time", "abbr", "label", "q", "sub", "sup", "del", "ins", "cite", "mark", "u", "tt", "svg", "math", "button", "textarea", "select", "option"}
var mediaTags = []string{"img", "img", "img", "picture", "video", "audio", "source", "iframe", "object", "embed", "figure", "canvas", "input", "link", "param"}
var oddTags = []string{"a0:div", "x:p", "svg:title", "a:", "b:c:", "custom-el", "body", "html", "head", "base", "meta", "script", "style", "noscript", "plaintext", "image", "o:p", "DIV", "P", "tbody:", "DiV", "frame", "isindex", "topcomment", "s\u212A", "di\u0130"}

func genText(r *Rng, long bool) string {
	var b strings.Builder
	n := 0
	switch r.N(8) {
	case 0:
		n = 0
	case 1:
		n = r.Range(1, 3)
	case 2, 3:
		n = r.Range(4, 12)
	case 4, 5:
		n = r.Range(10, 40)
	default:
		n = r.Range(20, 60)
		if long {
			n *= r.Range(1, 4)
		}
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(pick(r, words))
		switch r.N(30) {
		case 0, 1, 2:
			b.WriteByte(',')
		case 3, 4:
			b.WriteByte('.')
		case 5:
			b.WriteString(pick(r, []string{"&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&#65;", "&#x41;", "&#xD800;", "&#99999;", "&#0;", "&bogus;", "&", "&lt;script&gt;", "&#38;lt;", "&amp;#60;", "&#xfffff;", "&#99999999999999999999;", "%", "%d", "100%s", "&;", "&#;", "&#x;", "&ltx"}))
		case 6:
			b.WriteString(pick(r, []string{"，", "é", "日本語", "\u00a0", "\t", "\n", "  ", "\u2028", "\x00", "\xff", "\xc3", "😀", "''", "\"", "\r\n", "]]>", "-->", "\ufeff", "\u0130"}))
		}
	}
	if r.P(1, 10) {
		b.WriteString(pick(r, []string{" ", "\n", "  \n ", "\u00a0", "."}))
	}
	return b.String()
}

func escAttr(r *Rng, v string) string {
	if strings.Contains(v, `"`) {
		return "'" + strings.ReplaceAll(v, "'", "&#39;") + "'"
	}
	if r.P(1, 25) {
		return "'" + strings.ReplaceAll(v, "'", "&#39;") + "'"
	}
	return `"` + v + `"`
}

func (g *pageGen) attrs(tag string) string {
	r := g.r
	var b strings.Builder
	add := func(n, v string) {
		if g.odd && v != "" && r.P(1, 25) {
			v, _ = revalue(v, v, r.N(18), r.N(1<<20))
		}
		b.WriteByte(' ')
		b.WriteString(n)
		if v == "" && r.P(1, 4) {
			return
		}
		b.WriteByte('=')
		b.WriteString(escAttr(r, v))
	}
	name := func() string {
		switch r.N(8) {
		case 0, 1:
			if g.unlikely {
				return pick(r, unlikelyNames)
			}
			return pick(r, neutralNames)
		case 2, 3, 4:
			return pick(r, positiveNames)
		case 5:
			return pick(r, negativeNames)
		default:
			return pick(r, neutralNames)
		}
	}
	if r.P(1, 3) {
		c := name()
		if r.P(1, 4) {
			c += " " + name()
		}
		add("class", c)
	}
	if r.P(1, 6) {
		add("id", name())
	}
	if g.hidden || g.odd {
		if r.P(1, 12) {
			add("style", pick(r, styleVals))
		}
	}
	if g.hidden {
		if r.P(1, 30) {
			add("hidden", "")
		}
		if r.P(1, 20) {
			add("aria-hidden", pick(r, []string{"true", "false", ""}))
		}
		if r.P(1, 25) {
			add("role", pick(r, roleVals))
			if r.P(1, 2) {
				add("aria-modal", "true")
			}
		}
	}
	if g.odd {
		switch r.N(25) {
		case 0:
			add("rel", "author")
		case 1:
			add("itemprop", pick(r, []string{"author", "name author", "x"}))
		case 2:
			add("dir", pick(r, []string{"rtl", "ltr", ""}))
		case 3:
			add(pick(r, []string{"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "valign", "vspace", "width", "height"}), "1")
		case 4:
			add(pick(r, []string{"x\"y", "=", "a:b", "é", "on<x", "_", "data-x.jpg", "CLASS", "Style"}), pick(r, []string{"v", "a.jpg", "\"", "<b>", ""}))
		}
	}
	if r.P(1, 20) {
		switch r.N(5) {
		case 0, 1:
			add("lang", pick(r, []string{"en", "it", "fr", "de", "ja", "en-GB", "zh-Hant", "x"}))
		case 2:
			add("title", pick(r, titleVals))
		case 3:
			add("data-x", pick(r, []string{"1", "a b", "{}"}))
		default:
			add("tabindex", "0")
		}
	}
	switch tag {
	case "a":
		if !r.P(1, 8) {
			add("href", g.url())
		}
	case "img", "picture", "figure", "video", "audio", "source", "iframe", "embed", "object":
		if r.P(1, 8) { // a small picture in place of the one that comes later
			add("src", g.dataURL())
			if r.P(1, 2) {
				add(pick(r, []string{"data-src", "data-srcset", "alt", "data-x"}), pick(r, dataVals))
			}
		} else if r.P(2, 3) {
			add("src", g.url())
		}
		if r.P(1, 4) {
			add("srcset", pick(r, srcsetVals))
		}
		if r.P(1, 4) {
			add(pick(r, []string{"data-src", "data-srcset", "data-lazy", "alt", "data-x", "title"}), pick(r, dataVals))
		}
		if r.P(1, 8) {
			add("poster", g.url())
		}
		if r.P(1, 6) {
			add(pick(r, []string{"src", "data", "href"}), pick(r, []string{"https://www.youtube.com/embed/x", "//player.vimeo.com/v/1", "http://videos.example/x"}))
		}
	case "tr":
		if r.P(1, 5) {
			add("rowspan", pick(r, []string{"2", "x", "-1", "0", "99999999999999999999", "1.5", "12"}))
		}
	case "td", "th":
		if r.P(1, 5) {
			add("colspan", pick(r, []string{"2", "x", "-1", "0", "99999999999999999999", "1.5", "6"}))
		}
	case "table":
		if r.P(1, 5) {
			add(pick(r, []string{"summary", "datatable", "role"}), pick(r, []string{"x", "0", "presentation", ""}))
		}
	case "base":
		add("href", g.url())
	case "meta":
		name := pick(r, metaNames)
		if r.P(1, 2) {
			name = pick(r, []string{"", "dc:", "dcterm:", "og:", "twitter:", "weibo:article:", "weibo:webpage:", "article:", "weibo:article.", "dc."}) + pick(r, []string{"author", "creator", "description", "title", "site_name", "published_time"})
		}
		add(pick(r, []string{"name", "property"}), name)
		add("content", g.metaContent())
	}
	return b.String()
}

func (g *pageGen) dataURL() string {
	r := g.r
	return pick(r, []string{"data:", "data:", "data:", "DATA:", "Data: ", " data:"}) + pick(r, []string{"image/gif", "image/png", "image/png", "image/svg+xml", "IMAGE/JPEG", "text/plain", "", "image/webp;charset=x"}) +
		pick(r, []string{";", ";", ";", " ; ", ",", ""}) + pick(r, []string{"base64", "base64", "base64", "BASE64", "Base64", "ba\u017fe64", "base 64", ""}) + pick(r, []string{",", ",", ",", " ,", ", ", ""}) + strings.Repeat("iVBORw0K", r.N(24))
}

func (g *pageGen) url() string {
	if g.odd || g.r.P(1, 4) {
		return pick(g.r, urlVals)
	}
	return pick(g.r, []string{"/a/b.html", "http://other.example/x", "img/p.jpg", "#sec", "page2.html?x=1", "//cdn.example/i.png"})
}

var metaNames = []string{"og:title", "og:description", "og:site_name", "twitter:title", "twitter:description", "author", "description", "title", "dc:title", "DC.title", "dcterm:creator", "dc.creator", "article:published_time", "article:author", " og:title  twitter:title ", "weibo:article:title", "weibo:webpage:description", "dc:description", "site_name", "x", "", "OG:Title", "og : title", "dcterm.description", "twitter:creator"}

func (g *pageGen) metaContent() string {
	return pick(g.r, []string{"", " ", "Meta title of the page", "John &amp;amp; Jane", "&amp;lt;b&amp;gt;", "2020-01-02T03:04:05Z", "&#x26;#x41;", genText(g.r, false), "x", "&amp;#99999;", "Example Site", "&amp;#99999999999999999999;", "&amp;#xfffffffffffffffffff;", genText(g.r, false), "Value " + strconv.Itoa(g.r.N(100))})
}

// jsonVal writes a random JSON value, biased to what JSON-LD holds.
func (g *pageGen) jsonVal(depth int) string {
	r := g.r
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch r.N(9) {
	case 0:
		return pick(r, []string{"null", "true", "false", "0", "-1.5e3", "[]", "{}", `""`})
	case 1:
		if depth > 2 {
			return "1"
		}
		var xs []string
		for i := r.N(4); i > 0; i-- {
			xs = append(xs, g.jsonVal(depth+1))
		}
		return "[" + strings.Join(xs, ",") + "]"
	case 2, 3:
		if depth > 2 {
			return "{}"
		}
		var xs []string
		for i := r.N(4); i > 0; i-- {
			xs = append(xs, q(pick(r, []string{"name", "@type", "headline", "url", "x", "@context"}))+":"+g.jsonVal(depth+1))
		}
		return "{" + strings.Join(xs, ",") + "}"
	default:
		return q(pick(r, []string{"Article", "NewsArticle", "https://schema.org", "http://schema.org/", "schema.org", "Jane Doe", " Name ", "", "A headline of some sort", "2020-02-03", "WebPage", "Person", "BlogPosting", genText(r, false)}))
	}
}

func (g *pageGen) jsonLD() string {
	r := g.r
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	tame := r.P(1, 2)
	wild := func(normal string) string {
		if !tame && r.P(1, 5) {
			return g.jsonVal(0)
		}
		return normal
	}
	title := func(s ...string) string {
		if r.P(2, 5) {
			return pick(r, titleVals)
		}
		return pick(r, s)
	}
	obj := func(ctx bool) string {
		var f []string
		put := func(k, v string, num, den int) {
			if r.P(num, den) {
				f = append(f, q(k)+":"+v)
			}
		}
		if ctx {
			put("@context", wild(q(pick(r, []string{"https://schema.org", "http://schema.org/", "https://schema.org/x", "schema.org"}))), 9, 10)
		}
		put("@type", wild(q(pick(r, []string{"Article", "NewsArticle", "BlogPosting", "WebPage", "Report", "Person", "LiveBlogPosting"}))), 9, 10)
		put("name", wild(q(title("Site Name", "A headline of some sort", " padded "))), 2, 3)
		put("headline", wild(q(title("A headline of some sort", "Another headline", ""))), 2, 3)
		author := pick(r, []string{`{"name":"Jane Doe"}`, `[{"name":"A"},{"name":"B"}]`, `"Bob"`, `[{"name":"A"},"B"]`, `[{"name":"A"},{"x":1}]`, `[]`, `[1]`, `{"name":3}`, `[{"name":"A"},null]`, `[{"name":"A"},{"name":null}]`, `null`})
		put("author", wild(author), 2, 3)
		put("description", wild(q("Described &amp; so")), 1, 2)
		put("publisher", wild(pick(r, []string{`{"name":"Pub"}`, `{"name":1}`, `"Pub"`, `[]`, `null`})), 1, 2)
		put("datePublished", wild(q("2021-03-04")), 1, 2)
		if ctx && r.P(1, 4) {
			var xs []string
			for i := r.N(4); i > 0; i-- {
				if r.P(1, 3) {
					xs = append(xs, g.jsonVal(1))
				} else {
					xs = append(xs, `{"@type":`+wild(q(pick(r, []string{"Article", "WebSite", "NewsArticle"})))+`,"headline":"Graph headline of note"}`)
				}
			}
			f = append(f, `"@graph":`+wild("["+strings.Join(xs, ",")+"]"))
		}
		for k := r.N(3); k > 0 && len(f) > 0 && r.P(1, 3); k-- { // the same key again, or nearly
			key, v, _ := strings.Cut(pick(r, f), ":")
			switch r.N(4) {
			case 0:
				key = strings.ToUpper(key)
			case 1:
				key = `"` + strings.ToUpper(key[1:2]) + key[2:]
			case 2:
				key = `" ` + key[1:]
			}
			if r.P(3, 4) {
				v = q(title("Other name", "Other words", "2022-01-01"))
			}
			f = append(f, key+":"+v)
		}
		return "{" + strings.Join(f, ",") + "}"
	}
	s := obj(true)
	if tame {
		return s
	}
	switch r.N(12) {
	case 0:
		s = "[" + s + "]"
	case 1:
		s = g.jsonVal(0)
	case 2:
		s = s[:r.N(len(s)+1)]
	case 3:
		s = "<![CDATA[" + s + "]]>"
	case 4:
		s = " \n" + s + "\n"
	}
	return s
}

func (g *pageGen) w(s string) { g.b.WriteString(s) }

func (g *pageGen) closeTag(tag string) {
	if g.messy && g.r.P(1, 15) {
		switch g.r.N(3) {
		case 0:
			return
		case 1:
			g.w("</" + pick(g.r, blockTags) + ">")
		}
	}
	g.w("</" + tag + ">")
}

func (g *pageGen) void(tag string) {
	g.quota--
	g.w("<" + tag + g.attrs(tag))
	if g.messy && g.r.P(1, 6) {
		g.w(">")
		return
	}
	g.w("/>")
}

func (g *pageGen) inline(depth int) {
	r := g.r
	n := r.Range(1, 4)
	for i := 0; i < n && g.quota > 0; i++ {
		switch r.N(12) {
		case 0, 1, 2, 3, 4:
			g.w(genText(r, g.longText))
		case 5, 6:
			if !g.links && r.P(2, 3) {
				g.w(genText(r, g.longText))
				continue
			}
			fallthrough
		case 7:
			if depth > 6 {
				g.w(genText(r, false))
				continue
			}
			tag := pick(r, inlineTags)
			g.quota--
			g.w("<" + tag + g.attrs(tag) + ">")
			if !r.P(1, 8) {
				g.inline(depth + 1)
			}
			g.closeTag(tag)
		case 8:
			for k := r.Range(1, 4); k > 0; k-- {
				g.void("br")
				if r.P(1, 2) {
					g.w(pick(r, []string{" ", "\n", "", "<!--c-->"}))
				}
			}
		case 9:
			if g.rich {
				g.media(depth)
			}
		case 10:
			g.w(pick(r, []string{"<!-- comment -->", "<![CDATA[some cdata]]>", "<![CDATA[", "<?pi x?>", "<!doctype x>", "<", "< b", "</>", "<![CDATA[<b>]]>", "<!--", " ", "\n", "<![CDATA[x]]>y]]>"}))
		default:
			g.w(genText(r, g.longText))
		}
	}
}

func (g *pageGen) media(depth int) {
	r := g.r
	switch r.N(8) {
	case 0, 1, 2:
		g.void("img")
	case 3:
		tag := pick(r, []string{"picture", "figure", "video", "audio", "object"})
		g.quota--
		g.w("<" + tag + g.attrs(tag) + ">")
		for k := r.N(3); k > 0; k-- {
			g.void(pick(r, []string{"source", "img", "param", "embed"}))
		}
		if tag == "object" && r.P(1, 2) {
			g.w("//www.youtube.com/x")
		}
		if r.P(1, 3) {
			g.w("<figcaption>" + genText(r, false) + "</figcaption>")
		}
		g.closeTag(tag)
	case 4:
		// lazy image with its noscript twin
		if r.P(2, 3) {
			pre := pick(r, []string{"<img%s/>", "<span><img%s/></span>", "<div><p><img%s/></p></div>", "<div>t<img%s/></div>", "<p></p>"})
			if strings.Contains(pre, "%s") {
				pre = fmt.Sprintf(pre, g.attrs("img"))
			}
			g.w(pre)
		}
		g.w("<noscript>")
		switch r.N(8) {
		case 0:
			g.w("no script text")
		case 1:
			g.w("<p><img" + g.attrs("img") + "/></p>")
		case 2:
			g.w("<noscript><img" + g.attrs("img") + "/></noscript>")
		case 3:
			g.w("<img" + g.attrs("img") + "/><img/>")
		case 4:
			g.w("<img" + g.attrs("img") + ">")
		case 5:
			g.w("&lt;img src=&quot;a.jpg&quot;/&gt;")
		default:
			g.w("<img" + g.attrs("img") + "/>")
		}
		g.closeTag("noscript")
	default:
		tag := pick(r, mediaTags)
		if r.P(1, 2) {
			g.void(tag)
		} else {
			g.quota--
			g.w("<" + tag + g.attrs(tag) + ">")
			if r.P(1, 2) {
				g.inline(depth + 2)
			}
			g.closeTag(tag)
		}
	}
}

func (g *pageGen) table(depth int) {
	r := g.r
	g.quota--
	g.w("<table" + g.attrs("table") + ">")
	if r.P(1, 6) {
		g.w("<caption>" + genText(r, false) + "</caption>")
	}
	if r.P(1, 6) {
		g.w("<thead><tr><th>h</th></tr></thead>")
	}
	body := r.P(1, 2)
	if body {
		g.w("<tbody>")
	}
	rows := pick(r, []int{0, 1, 1, 1, 2, 3, 12})
	for i := 0; i < rows; i++ {
		g.w("<tr" + g.attrs("tr") + ">")
		for c := pick(r, []int{1, 1, 1, 2, 3, 6, 0}); c > 0; c-- {
			g.quota--
			g.w("<td" + g.attrs("td") + ">")
			if depth < 6 && r.P(1, 5) && g.quota > 0 {
				g.block(depth + 2)
			} else {
				g.inline(depth + 2)
			}
			g.w("</td>")
		}
		g.w("</tr>")
	}
	if body {
		g.w("</tbody>")
	}
	g.closeTag("table")
}

func (g *pageGen) block(depth int) {
	r := g.r
	if g.quota <= 0 {
		return
	}
	if g.tables && r.P(1, 8) {
		g.table(depth)
		return
	}
	if g.rich && r.P(1, 8) {
		g.media(depth)
		return
	}
	tag := pick(r, blockTags[:26])
	if r.P(1, 8) {
		tag = pick(r, blockTags)
	}
	if g.odd && r.P(1, 12) {
		tag = pick(r, oddTags)
	}
	g.quota--
	g.w("<" + tag + g.attrs(tag) + ">")
	switch tag {
	case "p", "h1", "h2", "h3", "h4", "h5", "h6", "pre":
		g.inline(depth + 1)
	case "ul", "ol":
		for k := r.N(5); k > 0; k-- {
			g.w("<li>")
			g.inline(depth + 2)
			g.w("</li>")
		}
	case "form", "fieldset":
		for k := r.N(4); k > 0; k-- {
			g.w(pick(r, []string{"<input type=\"text\"/>", "<button>go</button>", "<select><option>1</option></select>", "<textarea>t</textarea>", "<label>l</label>"}))
		}
		for k := r.N(3); k > 0; k-- { // embeds that are no videos, or that hold one
			g.w(pick(r, []string{"<object></object>", "<object><param name=\"x\"/>//www.youtube.com/x</object>", "<embed src=\"a.swf\"/>", "<iframe></iframe>", "<iframe src=\"frame.html\"></iframe>", "<object data=\"//player.vimeo.com/v/1\"></object>"}))
		}
		if r.P(1, 2) {
			g.inline(depth + 1)
		}
		for k := r.N(4); k > 0; k-- {
			g.w("<p>" + genText(r, g.longText) + "</p>")
		}
	default:
		n := r.N(5)
		if depth < 2 {
			n = r.Range(1, 6)
		}
		if depth > 9 {
			n = 0
		}
		for k := 0; k < n; k++ {
			if r.P(2, 3) {
				g.block(depth + 1)
			} else {
				g.inline(depth + 1)
			}
			if r.P(1, 3) {
				g.w("\n")
			}
		}
	}
	g.closeTag(tag)
}

// genPage writes one page.  size is roughly the number of elements.
func genPage(r *Rng, size int) string {
	g := &pageGen{r: r, b: &strings.Builder{}, quota: size}
	g.messy = r.P(1, 3)
	g.hidden = r.P(1, 3)
	g.longText = r.P(1, 2)
	g.rich = r.P(1, 2)
	g.tables = r.P(1, 3)
	g.odd = r.P(2, 5)
	g.unlikely = r.P(1, 2)
	g.links = r.P(1, 2)

	if r.P(1, 2) {
		g.w("<!DOCTYPE html>")
	}
	noHTML := g.odd && r.P(1, 10)
	title := ""
	if !noHTML {
		g.w("<html")
		if r.P(1, 2) {
			g.w(` lang="` + pick(r, []string{"en", "it", "", "x"}) + `"`)
		}
		if r.P(1, 8) {
			g.w(` dir="rtl"`)
		}
		if g.hidden && r.P(1, 8) {
			g.w(g.attrs("html"))
		}
		g.w(">")
	}
	if !(g.odd && r.P(1, 10)) {
		g.w("<head>")
		if r.P(9, 10) {
			title = pick(r, titleVals)
			g.w("<title>" + title + "</title>")
		}
		for k := pick(r, []int{0, 1, 2, 3, 4, 5, 6, 12}); k > 0; k-- {
			g.void("meta")
		}
		if r.P(1, 5) {
			g.w("<base" + g.attrs("base") + "/>")
		}
		for k := pick(r, []int{0, 0, 1, 1, 2}); k > 0; k-- {
			g.w(`<script type="application/ld+json">` + g.jsonLD() + "</script>")
		}
		if r.P(1, 4) {
			g.w("<style>p{color:red}</style>")
		}
		if r.P(1, 5) {
			g.w("<script>if (a < b && c > d) { x('</p>') }</script>")
		}
		if g.messy && r.P(1, 5) {
			g.block(3)
		}
		if g.hidden && r.P(1, 10) {
			g.block(2)
		}
		g.w("</head>")
	}
	if g.odd && r.P(1, 12) {
		g.block(3)
	}
	nobody := g.odd && r.P(1, 30)
	if !nobody {
		g.w("<body")
		if r.P(1, 3) {
			g.w(g.attrs("body"))
		}
		g.w(">")
	}
	if title != "" && r.P(1, 4) {
		h := pick(r, []string{"h1", "h1", "h2", "h2", "h3", "p", "div"})
		g.w("<" + h + ">" + title + "</" + h + ">")
	}
	for g.quota > 0 {
		q := g.quota
		if r.P(1, 6) {
			g.inline(1)
		} else {
			g.block(1)
		}
		if g.quota == q {
			g.quota--
		}
	}
	if !nobody {
		g.w("</body>")
	}
	if g.odd && r.P(1, 12) {
		g.w("<div>" + genText(r, true) + "</div>")
	}
	if !noHTML {
		g.w("</html>")
	}
	return g.b.String()
}

// ---- delivery faults ------------------------------------------------------

// Damage is one fault of the simulated transport on a page in flight.
type Damage struct {
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	C    int    `json:"c"`
}

var damageKinds = []string{"truncate", "bitflip", "drop", "dup", "swap", "garbage", "prefix", "zero", "case", "value", "value", "value"}

func genDamage(r *Rng, n int) Damage {
	k := pick(r, damageKinds)
	d := Damage{Kind: k, A: r.N(n + 1), B: r.Range(1, 1+n/pick(r, []int{2, 8, 40, 200, 1000})), C: r.N(n + 1)}
	if k == "bitflip" {
		d.B = 1 << r.N(8)
	}
	if k == "value" {
		d.B, d.C = r.N(1<<16), r.N(1<<20)
	}
	if k == "garbage" {
		d.B = r.N(1 << 16)
	}
	return d
}

var garbageBits = []string{"<", ">", "</", "\"", "'", "&", "\x00", "\xff\xfe", "<div>", "</div>", "<br>", "</body>", "</html>", "<body>", "<html>", "<p>", "</p>", "<table>", "<img>", "<noscript>", "</noscript>", "<script>", "</script>", "<![CDATA[", "]]>", "<!--", "-->", "<style>", "<a href=' '>", "<h1>", "<title>", "<base href='%zz'>", "<p style='display'>", "=", "<input>", " hidden ", "<textarea>", "<plaintext>", "<body hidden>", "<a:>"}

var foldLike = strings.NewReplacer("s", "\u017f", "k", "\u212a", "S", "\u017f", "K", "\u212a", "i", "\u0131", "I", "\u0130")

// respell writes letters in another way.
func respell(s string, how int) string {
	switch how {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return foldLike.Replace(s)
	}
	b := []byte(s)
	for i, c := range b {
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

var spread = strings.NewReplacer(";", " ; ", ",", " , ", ":", " : ", "=", " = ", "/", " / ", "-", " - ", ".", " . ", "#", " # ")
var unpunct = strings.NewReplacer(";", "", ",", "", ":", "", "=", "", "/", "", "-", "", ".", "", "#", "", "%", "")
var unspace = strings.NewReplacer(" ", "\t\n")
var digitRx = regexp.MustCompile(`[0-9]+`)
var bareVals = []string{"5", "null", "[]", "{}", "true", "-1e400", "[null]", "[\"a\",5]", "{\"name\":5}", "[{\"name\":\"x\"},null]", "''", ""}
var numVals = []string{"0", "-1", "1", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "65536", "1114112", "55296", "0x10", "1e9", "٣"}

// revalue changes a value of the page; bare ones take the quotes along.
func revalue(doc, v string, b, c int) (string, bool) {
	switch b % 18 {
	case 0, 1:
		return respell(v, c%4), false
	case 2:
		return spread.Replace(v), false
	case 3:
		return unpunct.Replace(v), false
	case 4:
		return "", false
	case 5:
		return strings.Repeat(" ", 1+c%3), false
	case 6:
		return v + v, false
	case 7:
		r := []rune(v)
		slices.Reverse(r)
		return string(r), false
	case 8, 9: // the value of another
		c %= len(doc)
		p := strings.IndexByte(doc[c:], '"')
		if p < 0 {
			return v, false
		}
		p += c + 1
		q := strings.IndexByte(doc[p:], '"')
		if q < 0 || q > 4000 {
			return v, false
		}
		return doc[p : p+q], false
	case 10, 11:
		return digitRx.ReplaceAllString(v, numVals[c%len(numVals)]), false
	case 12:
		return numVals[c%len(numVals)], false
	case 13, 14:
		return bareVals[c%len(bareVals)], true
	case 15:
		return unspace.Replace(v) + "\n", false
	case 16:
		if len(v) > 0 {
			i := c % len(v)
			return v[:i] + pickStr(c, []string{"\xff", "%", "%zz", "&", "&#", "&#x;", "\x00", "\u2028", "'", "\\", "{", "#", "?"}) + v[i:], false
		}
	case 17:
		if len(v) > 0 {
			return v[:c%len(v)], false
		}
	}
	return v, false
}

func pickStr(c int, l []string) string { return l[c%len(l)] }

func applyDamage(s string, d Damage) string {
	n := len(s)
	a := d.A
	if a > n {
		a = n
	}
	end := a + d.B
	if end > n || end < a {
		end = n
	}
	switch d.Kind {
	case "truncate":
		return s[:a]
	case "prefix":
		return s[a:]
	case "bitflip":
		if a < n {
			b := []byte(s)
			b[a] ^= byte(d.B)
			return string(b)
		}
	case "drop":
		return s[:a] + s[end:]
	case "dup":
		return s[:end] + s[a:end] + s[end:]
	case "swap":
		c := d.C
		if c > n {
			c = n
		}
		seg := s[a:end]
		rest := s[:a] + s[end:]
		if c > len(rest) {
			c = len(rest)
		}
		return rest[:c] + seg + rest[c:]
	case "case": // letters written differently
		return s[:a] + respell(s[a:end], d.C%4) + s[end:]
	case "value": // what stands in quotes
		p := strings.IndexByte(s[a:], '"')
		if p < 0 {
			return s
		}
		p += a + 1
		q := strings.IndexByte(s[p:], '"')
		if q < 0 {
			return s
		}
		q += p
		if v, bare := revalue(s, s[p:q], d.B, d.C); bare {
			return s[:p-1] + v + s[q+1:]
		} else {
			return s[:p] + v + s[q:]
		}
	case "garbage":
		return s[:a] + garbageBits[d.B%len(garbageBits)] + s[a:]
	case "zero":
		b := []byte(s)
		for i := a; i < end; i++ {
			b[i] = 0
		}
		return string(b)
	}
	return s
}
