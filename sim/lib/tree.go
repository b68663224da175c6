package main

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	readability "github.com/giulianopz/go-readability"
	rt "github.com/giulianopz/go-readability/internal/verifrt"
	"golang.org/x/net/html"
)

const elemType = 1
const textType = 3

// checkTree verifies that the redundant links of a tree describe one ordered
// tree; it returns "" or what is wrong.
func checkTree(root *readability.Node) string {
	seen := map[*readability.Node]bool{}
	var walk func(n *readability.Node, depth int) string
	walk = func(n *readability.Node, depth int) string {
		if seen[n] {
			return "a node is reached twice"
		}
		seen[n] = true
		if depth > 5000 {
			return "too deep"
		}
		if m := checkLinks(n, n.ChildNodes); m != "" {
			return m
		}
		for _, c := range n.ChildNodes {
			if m := walk(c, depth+1); m != "" {
				return m
			}
		}
		return ""
	}
	return walk(root, 0)
}

// checkLinks verifies every link between n and the child list it should have.
func checkLinks(n *readability.Node, kids []*readability.Node) string {
	if len(n.ChildNodes) != len(kids) {
		return fmt.Sprintf("%s has %d children instead of %d", nm(n), len(n.ChildNodes), len(kids))
	}
	var elems []*readability.Node
	for i, c := range kids {
		if c == nil {
			return "nil child"
		}
		if n.ChildNodes[i] != c {
			return fmt.Sprintf("child %d of %s is %s instead of %s", i, nm(n), nm(n.ChildNodes[i]), nm(c))
		}
		if c.ParentNode != n {
			return fmt.Sprintf("parent of %s, child of %s, is %s", nm(c), nm(n), nm(c.ParentNode))
		}
		var prev, next *readability.Node
		if i > 0 {
			prev = kids[i-1]
		}
		if i+1 < len(kids) {
			next = kids[i+1]
		}
		if c.PreviousSibling != prev {
			return fmt.Sprintf("previous sibling of child %d (%s) of %s is %s instead of %s", i, nm(c), nm(n), nm(c.PreviousSibling), nm(prev))
		}
		if c.NextSibling != next {
			return fmt.Sprintf("next sibling of child %d (%s) of %s is %s instead of %s", i, nm(c), nm(n), nm(c.NextSibling), nm(next))
		}
		if c.NodeType == elemType {
			elems = append(elems, c)
		}
	}
	if len(elems) != len(n.Children) {
		return fmt.Sprintf("%s has %d element children instead of %d", nm(n), len(n.Children), len(elems))
	}
	for i, c := range elems {
		if n.Children[i] != c {
			return fmt.Sprintf("element child %d of %s is %s instead of %s", i, nm(n), nm(n.Children[i]), nm(c))
		}
		var prev, next *readability.Node
		if i > 0 {
			prev = elems[i-1]
		}
		if i+1 < len(elems) {
			next = elems[i+1]
		}
		if c.PreviousElementSibling != prev || c.NextElementSibling != next {
			return fmt.Sprintf("element siblings of %s, element child %d of %s, are %s and %s instead of %s and %s", nm(c), i, nm(n), nm(c.PreviousElementSibling), nm(c.NextElementSibling), nm(prev), nm(next))
		}
	}
	var first, last, firstEl *readability.Node
	if len(kids) > 0 {
		first, last = kids[0], kids[len(kids)-1]
	}
	if len(elems) > 0 {
		firstEl = elems[0]
	}
	if n.FirstChild() != first || n.LastChild() != last || n.FirstElementChild() != firstEl {
		return "first or last child of " + nm(n) + " is wrong"
	}
	return ""
}

func nm(n *readability.Node) string {
	if n == nil {
		return "nothing"
	}
	if n.NodeType == textType {
		return "text " + strconv.Quote(clip2(n.GetTextContent()))
	}
	if n.TagName == "" {
		return "node"
	}
	return "<" + strings.ToLower(n.TagName) + ">"
}

func clip2(s string) string {
	if len(s) > 20 {
		return s[:20] + "..."
	}
	return s
}

// fingerprint is everything a holder of the tree can see through the exported
// surface; blind: without asking for any text, because reading is an event too.
func fingerprint(n *readability.Node, blind bool) string {
	var b strings.Builder
	count := 0
	var walk func(n *readability.Node)
	walk = func(n *readability.Node) {
		count++
		if count > 20000 {
			return
		}
		fmt.Fprintf(&b, "(%d %s %d %s|%s", n.NodeType, n.TagName, len(n.Children), n.GetClassName(), n.GetId())
		for i := 0; i < n.GetAttributeLen(); i++ {
			fmt.Fprintf(&b, " %v", *n.GetAttributeByIndex(i))
		}
		if n.NodeType == textType && !blind {
			b.WriteString(strconv.Quote(n.GetTextContent()))
		}
		for _, c := range n.ChildNodes {
			walk(c)
		}
		b.WriteByte(')')
	}
	walk(n)
	b.WriteString(digest(n.GetInnerHTML()))
	if !blind {
		b.WriteString(digest(n.GetTextContent()))
	}
	if m := checkTree(n); m != "" {
		b.WriteString(m)
	}
	return b.String()
}

// ---- edit histories against a model ----------------------------------------

// DomOp is one edit; its numbers select nodes and values modulo what exists.
type DomOp struct {
	K string `json:"k"`
	A int    `json:"a"`
	B int    `json:"b"`
	C int    `json:"c"`
}

type mnode struct {
	n      *readability.Node
	elem   bool
	mute   bool // neither element nor text: comments have no part in the text
	tag    string
	attrs  map[string]string
	kids   []*mnode
	parent *mnode
	text   string
	known  bool // text was set or read before; until then it is not looked at
	extra  int  // attributes of the page the edits never name
}

type domSim struct {
	r     *run
	all   []*mnode
	of    map[*readability.Node]*mnode
	htmls map[string]string
}

func (d *domSim) adopt(n *readability.Node, parent *mnode) *mnode {
	m := &mnode{n: n, elem: n.NodeType == elemType, mute: n.NodeType != elemType && n.NodeType != textType, parent: parent, attrs: map[string]string{}}
	if m.elem {
		m.tag = strings.ToLower(n.TagName)
		for _, k := range domNames {
			if n.HasAttribute(k) {
				m.attrs[k] = n.GetAttribute(k)
			}
		}
		m.extra = n.GetAttributeLen() - len(m.attrs)
	}
	d.all = append(d.all, m)
	d.of[n] = m
	for _, c := range n.ChildNodes {
		m.kids = append(m.kids, d.adopt(c, m))
	}
	return m
}

func (m *mnode) ancestorOf(x *mnode) bool {
	for ; x != nil; x = x.parent {
		if x == m {
			return true
		}
	}
	return false
}

func (m *mnode) idx() int {
	for i, k := range m.parent.kids {
		if k == m {
			return i
		}
	}
	return -1
}

func (m *mnode) detach() {
	if m.parent == nil {
		return
	}
	i := m.idx()
	p := m.parent
	p.kids = append(append([]*mnode(nil), p.kids[:i]...), p.kids[i+1:]...)
	m.parent = nil
}

func (m *mnode) textOf(b *strings.Builder) {
	if !m.elem && !m.mute {
		b.WriteString(m.read())
	}
	for _, k := range m.kids {
		k.textOf(b)
	}
}

// read is the text of a text node.
func (m *mnode) read() string {
	if !m.known {
		m.text, m.known = m.n.GetTextContent(), true
	}
	return m.text
}

func (m *mnode) byID(id string) *mnode {
	if m.elem && m.attrs["id"] == id {
		return m
	}
	for _, k := range m.kids {
		if k.elem {
			if f := k.byID(id); f != nil {
				return f
			}
		}
	}
	return nil
}

// agree compares the real forest with the model; texts only if deep.
func (d *domSim) agree(deep bool) string {
	for _, m := range d.all {
		kids := make([]*readability.Node, len(m.kids))
		for i, k := range m.kids {
			kids[i] = k.n
		}
		if msg := checkLinks(m.n, kids); msg != "" {
			return msg
		}
		if m.parent == nil {
			n := m.n
			if n.ParentNode != nil || n.NextSibling != nil || n.PreviousSibling != nil || m.elem && (n.NextElementSibling != nil || n.PreviousElementSibling != nil) {
				return "detached " + nm(n) + " keeps links to where it was"
			}
		}
		if m.elem {
			if m.n.GetAttributeLen() != len(m.attrs)+m.extra {
				return fmt.Sprintf("%s has %d attributes instead of %d", nm(m.n), m.n.GetAttributeLen(), len(m.attrs)+m.extra)
			}
			for _, k := range domNames {
				v, ok := m.attrs[k]
				if m.n.HasAttribute(k) != ok || m.n.GetAttribute(k) != v {
					return fmt.Sprintf("attribute %q of %s is %q (present: %v) instead of %q (%v)", k, nm(m.n), m.n.GetAttribute(k), m.n.HasAttribute(k), v, ok)
				}
			}
		} else if !deep || m.mute {
			continue
		} else if want := m.read(); m.n.GetTextContent() != want {
			got := m.n.GetTextContent()
			return fmt.Sprintf("text is %q instead of %q", clip(got), clip(want))
		}
	}
	return ""
}

var domTexts = []string{"plain", "a b c", "x < y & z > w", "\"quoted\" 'text'", "&amp; literal", "", "caf\u00e9 \u65e5\u672c", "  spaces  "}
var domNames = []string{"id", "class", "href", "data-x", "title", "style", "Data-X", "viewbox", "viewBox"}
var domVals = []string{"v", "", "a b", "x\"y'z", "<&>", "one", "two", "three"}
var domHTML = []struct {
	src  string
	want []*mnode
}{
	{"", nil},
	{"hello", []*mnode{{text: "hello"}}},
	{"<b>bold</b>", []*mnode{{elem: true, tag: "b", kids: []*mnode{{text: "bold"}}}}},
	{"one<i id=\"two\">two</i>three<u></u>", []*mnode{{text: "one"}, {elem: true, tag: "i", attrs: map[string]string{"id": "two"}, kids: []*mnode{{text: "two"}}}, {text: "three"}, {elem: true, tag: "u"}}},
	{"<div class=\"a b\"><p>x</p><p>y</p></div><span>z</span>", []*mnode{{elem: true, tag: "div", attrs: map[string]string{"class": "a b"}, kids: []*mnode{{elem: true, tag: "p", kids: []*mnode{{text: "x"}}}, {elem: true, tag: "p", kids: []*mnode{{text: "y"}}}}}, {elem: true, tag: "span", kids: []*mnode{{text: "z"}}}}},
}

func sameShape(got, want []*mnode) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		g, w := got[i], want[i]
		if !g.elem && !g.known { // what it will have to read as
			g.text, g.known = w.text, true
		}
		if g.elem != w.elem || g.tag != w.tag || g.text != w.text || len(g.attrs) != len(w.attrs) || g.extra != 0 || !sameShape(g.kids, w.kids) {
			return false
		}
		for k, v := range w.attrs {
			if g.attrs[k] != v {
				return false
			}
		}
	}
	return true
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (d *domSim) elems() []*mnode {
	var out []*mnode
	for _, m := range d.all {
		if m.elem {
			out = append(out, m)
		}
	}
	return out
}

// apply performs one edit on the tree and on the model; "" or what went wrong.
func (d *domSim) apply(op DomOp) string {
	es := d.elems()
	if len(es) == 0 {
		return ""
	}
	a := es[abs(op.A)%len(es)]
	b := d.all[abs(op.B)%len(d.all)]
	c := d.all[abs(op.C)%len(d.all)]
	d.r.domOps++
	switch op.K {
	case "append", "appendkid":
		if op.K == "appendkid" { // move within the same parent
			if len(a.kids) == 0 {
				return ""
			}
			b = a.kids[abs(op.B)%len(a.kids)]
		}
		if b.ancestorOf(a) {
			return ""
		}
		a.n.AppendChild(b.n)
		b.detach()
		a.kids = append(a.kids, b)
		b.parent = a
	case "remove":
		if len(a.kids) == 0 {
			return ""
		}
		k := a.kids[abs(op.B)%len(a.kids)]
		got, err := a.n.RemoveChild(k.n)
		if err != nil {
			return "removing a child was refused: " + err.Error()
		}
		if got != k.n {
			return "removing a child returned another node"
		}
		k.detach()
	case "badremove":
		if b.parent == a {
			return ""
		}
		d.r.domBad++
		if _, err := a.n.RemoveChild(b.n); err == nil {
			return "removing a node that is not a child was not refused"
		}
	case "replace", "replacesib":
		if len(a.kids) == 0 {
			return ""
		}
		old := a.kids[abs(op.B)%len(a.kids)]
		if op.K == "replacesib" {
			c = a.kids[abs(op.C)%len(a.kids)]
		}
		if c.ancestorOf(a) {
			return ""
		}
		if got := a.n.ReplaceChild(c.n, old.n); got != old.n {
			return "replacing a child did not return the old child"
		}
		if c != old {
			c.detach()
			i := old.idx()
			a.kids = append([]*mnode(nil), a.kids...)
			a.kids[i] = c
			c.parent = a
			old.parent = nil
		}
	case "badreplace":
		if b.parent == a || c.ancestorOf(a) {
			return ""
		}
		d.r.domBad++
		var ret *readability.Node
		panicked := func() (p bool) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(rt.Hang); ok {
						panic(e)
					}
					p = true
				}
			}()
			ret = a.n.ReplaceChild(c.n, b.n)
			return false
		}()
		if !panicked && ret != nil {
			return "replacing a node that is not a child was not refused"
		}
	case "settext":
		t := domTexts[abs(op.C)%len(domTexts)]
		if !b.elem {
			b.n.SetTextContent(t)
			b.text, b.known = t, true
			break
		}
		for _, k := range b.kids {
			k.parent = nil
		}
		b.kids = nil
		b.n.SetTextContent(t)
		got := ""
		for _, k := range b.n.ChildNodes {
			if d.of[k] != nil || k.NodeType != textType {
				return "setting text left something else behind"
			}
			m := d.adopt(k, b)
			b.kids = append(b.kids, m)
			if len(b.n.ChildNodes) > 1 || op.A%2 == 0 {
				got += m.read()
			} else { // do not ask now, but this is what it will have to say
				m.text, m.known = t, true
				got = t
			}
		}
		if got != t {
			return fmt.Sprintf("text set to %q reads %q", t, got)
		}
	case "sethtml":
		h := domHTML[abs(op.C)%len(domHTML)]
		for _, k := range a.kids {
			k.parent = nil
		}
		a.kids = nil
		a.n.SetInnerHTML(h.src)
		for _, k := range a.n.ChildNodes {
			if d.of[k] != nil {
				return "setting HTML left an old child behind"
			}
			a.kids = append(a.kids, d.adopt(k, a))
		}
		if !sameShape(a.kids, h.want) {
			return fmt.Sprintf("HTML set to %q gives other children", h.src)
		}
	case "setattr":
		k, v := domNames[abs(op.B)%len(domNames)], domVals[abs(op.C)%len(domVals)]
		old := a.attrNames()
		a.n.SetAttribute(k, v)
		if _, found := a.attrs[k]; !found && old != nil {
			old = append(old, strings.ToLower(k))
		}
		a.attrs[k] = v
		if m := a.orderIs(old); m != "" {
			return m
		}
	case "setclass":
		v := domVals[abs(op.C)%len(domVals)]
		a.n.SetClassName(v)
		a.attrs["class"] = v
	case "setid":
		v := domVals[abs(op.C)%len(domVals)]
		a.n.SetId(v)
		a.attrs["id"] = v
	case "rmattr":
		k := domNames[abs(op.B)%len(domNames)]
		old := a.attrNames()
		a.n.RemoveAttribute(k)
		if _, found := a.attrs[k]; !found {
		} else if i := slices.Index(old, strings.ToLower(k)); i >= 0 {
			old = slices.Delete(old, i, i+1)
		}
		delete(a.attrs, k)
		if m := a.orderIs(old); m != "" {
			return m
		}
	case "read":
		var sb strings.Builder
		a.textOf(&sb)
		if got := a.n.GetTextContent(); got != sb.String() {
			return fmt.Sprintf("text content is %q instead of %q", clip(got), clip(sb.String()))
		}
		// equal content must serialise equally, whatever its history
		h := a.n.GetInnerHTML()
		if h2 := a.n.GetInnerHTML(); h2 != h {
			return "reading the HTML twice gives different answers"
		}
		if m := a.orderKey(); m != "" {
			if old, ok := d.htmls[m]; ok && old != h {
				return fmt.Sprintf("the same content serialises as %q and as %q", clip(old), clip(h))
			}
			d.htmls[m] = h
		}
	case "find":
		v := domVals[abs(op.C)%len(domVals)]
		if v == "" {
			return ""
		}
		got := a.n.GetElementById(v)
		want := a.byID(v)
		if want == nil && got != nil || want != nil && got != want.n {
			return fmt.Sprintf("element with id %q: found %s instead of another", v, nm(got))
		}
	}
	return ""
}

var plainTag = regexp.MustCompile(`^(?:div|p|span|a|section|article|h[1-6]|em|strong|b|i|ul|ol|li|blockquote|figure|table|tbody|tr|td|pre|code|img)$`)
var plainAttr = regexp.MustCompile(`^[a-z][a-z-]*$`)

// attrNames (in small letters) are the node's attributes in the order in which its parent's HTML
// shows them, nil if that cannot be seen: the HTML is read only where a plain
// element with plain attributes is the first thing in it.
func (m *mnode) attrNames() []string {
	if !m.elem || m.parent == nil || len(m.parent.kids) > 40 || m.parent.kids[0] != m || !plainTag.MatchString(m.tag) {
		return nil
	}
	z := html.NewTokenizer(strings.NewReader(m.parent.n.GetInnerHTML()))
	if t := z.Next(); t != html.StartTagToken && t != html.SelfClosingTagToken {
		return nil
	}
	tok := z.Token()
	if tok.Data != m.tag || len(tok.Attr) != m.n.GetAttributeLen() {
		return nil
	}
	names := []string{}
	for _, a := range tok.Attr {
		if !plainAttr.MatchString(a.Key) || slices.Contains(names, a.Key) {
			return nil
		}
		names = append(names, a.Key)
	}
	return names
}

func (m *mnode) orderIs(want []string) string {
	if want == nil {
		return ""
	}
	if got := m.attrNames(); got != nil && len(got) == len(want) && !slices.Equal(got, want) {
		return fmt.Sprintf("attributes of %s are in the order %q instead of %q", nm(m.n), got, want)
	}
	return ""
}

// orderKey identifies content including attribute order, "" if too large.
func (m *mnode) orderKey() string {
	var sb strings.Builder
	var walk func(x *mnode)
	walk = func(x *mnode) {
		if !x.elem {
			sb.WriteString(strconv.Quote(x.n.GetInnerHTML()))
			return
		}
		sb.WriteString("<" + x.tag)
		for i := 0; i < x.n.GetAttributeLen(); i++ {
			fmt.Fprintf(&sb, " %q", *x.n.GetAttributeByIndex(i))
		}
		sb.WriteString(">")
		for _, k := range x.kids {
			walk(k)
		}
		sb.WriteString("</>")
	}
	for _, k := range m.kids {
		walk(k)
	}
	return sb.String()
}

// runDom plays the session's edit history on the article tree.
func (r *run) runDom(root *readability.Node) {
	if r.domDone {
		return
	}
	r.domDone = true
	if checkTree(root) != "" {
		return // reported by the tree check
	}
	n := 0
	var cnt func(x *readability.Node)
	cnt = func(x *readability.Node) {
		n++
		for _, c := range x.ChildNodes {
			cnt(c)
		}
	}
	cnt(root)
	if n > 3000 {
		return
	}
	d := &domSim{r: r, of: map[*readability.Node]*mnode{}, htmls: map[string]string{}}
	d.adopt(root, nil)
	if m := d.agree(false); m != "" {
		r.findf("tree", "before any edit: %s", m)
		return
	}
	for i, op := range r.s.Dom {
		rt.Point()
		msg := d.apply(op)
		if msg == "" {
			msg = d.agree(op.C%3 == 0 || i == len(r.s.Dom)-1)
		}
		if msg != "" {
			r.findf("tree", "after edit %d (%s): %s", i, op.K, msg)
			return
		}
	}
}
