From ce6754f6a4eb3ea11c83f3e0f1ba65546900c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:50 +0000
Subject: [PATCH 01/12] fix: do not panic on blank link or media URLs

A blank href, src, poster or srcset entry became an empty string after
trimming and indexing its first rune panicked.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1045860..5b4e434 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
-- 
2.43.0


From c4af2e96b6685d93d9472264806bc25b4015bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:50 +0000
Subject: [PATCH 02/12] fix: do not panic on style declarations without a value

style="display" made the visibility check index past the end of the
split declaration.
---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..a503681 100644
--- a/domparser.go
+++ b/domparser.go
@@ -807,7 +807,7 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName {
+		if name == cssName && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
-- 
2.43.0


From af61de922b1ba599e6807cdd28c3452034d9fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:51 +0000
Subject: [PATCH 03/12] fix: do not panic on JSON-LD values of an unexpected
 type

@context and @type may legally be arrays or objects, and an author list
may hold entries without a textual name: skip what is not a string
instead of asserting it is.
---
 readability.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/readability.go b/readability.go
index 5b4e434..12c5c90 100644
--- a/readability.go
+++ b/readability.go
@@ -1328,8 +1328,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				continue
 			}
 
-			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctx, isStr := parsed["@context"].(string)
+			if !isStr || !schemaUrl.MatchString(ctx) {
 				continue
 			}
 
@@ -1354,7 +1354,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			articleType, isStr := parsed["@type"].(string)
+			if !isStr || !jsonLdArticleTypes.MatchString(articleType) {
 				continue
 			}
 
@@ -1402,8 +1403,10 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
+										auth, _ := a.(map[string]interface{})
+										if n, isStr := auth["name"].(string); isStr {
+											authorNames = append(authorNames, strings.TrimSpace(n))
+										}
 									}
 									meta.byline = strings.Join(authorNames, ", ")
 								}
-- 
2.43.0


From 9e96112be550f6e280d195e5ce5f46ffa7dd15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:43 +0000
Subject: [PATCH 04/12] fix: do not panic when a hidden root element is met
 again by a later pass

The first pass detaches a hidden <html>; the next one found it without a
parent and dereferenced nil while removing it a second time.
---
 readability.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/readability.go b/readability.go
index 12c5c90..6329f5c 100644
--- a/readability.go
+++ b/readability.go
@@ -720,6 +720,10 @@ func (r *Readability) initializeNode(n *Node) {
 
 func (r *Readability) removeAndGetNext(n *Node) *Node {
 	var nextNode = r.getNextNode(n, true)
+	if n.ParentNode == nil {
+		// already detached, e.g. a hidden root element removed by a previous pass
+		return nextNode
+	}
 	if _, err := n.ParentNode.RemoveChild(n); err != nil {
 		slog.Error("cannot remove child", slog.String("err", err.Error()))
 	}
-- 
2.43.0


From ad972457e9b3f8754e7538ce505c6b567f42fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:02 +0000
Subject: [PATCH 05/12] fix: do not walk past the document root when the
 candidate lies outside the body

When the top candidate had no BODY ancestor (content in the head, or
misnested markup) the searches for a better ancestor ran off the top of
the tree and dereferenced nil.
---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 6329f5c..1a7cd55 100644
--- a/readability.go
+++ b/readability.go
@@ -1076,7 +1076,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate.TagName != "BODY" {
+				for parentOfTopCandidate.TagName != "BODY" && parentOfTopCandidate.ParentNode != nil {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1108,7 +1108,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate.TagName != "BODY" {
+			for parentOfTopCandidate.TagName != "BODY" && parentOfTopCandidate.ParentNode != nil {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1130,7 +1130,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
+			for parentOfTopCandidate.TagName != "BODY" && parentOfTopCandidate.ParentNode != nil && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
-- 
2.43.0


From 3e95e63b63ac31e153fec0d3528ada6e887a25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:15 +0000
Subject: [PATCH 06/12] fix: do not replace a root element that has no parent

When an earlier pass used the root element itself as the article it is a
detached DIV by the time the next pass starts from it; unwrapping its
single paragraph dereferenced its missing parent.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1a7cd55..a4f75ff 100644
--- a/readability.go
+++ b/readability.go
@@ -937,7 +937,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
+				if n.ParentNode != nil && r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
-- 
2.43.0


From 662882aa0fb15b29a77f0c4d31d887d3d576d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:18 +0000
Subject: [PATCH 07/12] fix: do not recurse forever on an empty text node

---
 domparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index a503681..e0db379 100644
--- a/domparser.go
+++ b/domparser.go
@@ -628,7 +628,7 @@ func newText() *Node {
 
 func (t *Node) getTextContentFromTextNode() string {
 	if t.textContent == "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
+		decoded, err := decodeHTML(t.innerHTML)
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
 			return ""
@@ -640,7 +640,7 @@ func (t *Node) getTextContentFromTextNode() string {
 
 func (t *Node) getInnerHTMLFromTextNode() string {
 	if t.innerHTML == "" {
-		t.innerHTML = encodeTextContentHTML(t.GetTextContent())
+		t.innerHTML = encodeTextContentHTML(t.textContent)
 	}
 	return t.innerHTML
 }
-- 
2.43.0


From fa491e35658857a99fcb49ac804a1ee2256a4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:45 +0000
Subject: [PATCH 08/12] fix: exit with an error when the article cannot be
 written to stdout

---
 cmd/readability/readability.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/readability/readability.go b/cmd/readability/readability.go
index 1750df4..28f98f4 100644
--- a/cmd/readability/readability.go
+++ b/cmd/readability/readability.go
@@ -57,8 +57,9 @@ func main() {
 	handle(err)
 
 	if output == "html" {
-		fmt.Print(res.HTMLContent)
+		_, err = fmt.Print(res.HTMLContent)
 	} else {
-		fmt.Print(res.TextContent)
+		_, err = fmt.Print(res.TextContent)
 	}
+	handle(err)
 }
-- 
2.43.0


From 5206ab025a8b86e4b960aecea1ff6e3d0629a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:46 +0000
Subject: [PATCH 09/12] fix: keep the child list consistent when a node
 replaces its own sibling

---
 domparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domparser.go b/domparser.go
index e0db379..4c6f875 100644
--- a/domparser.go
+++ b/domparser.go
@@ -486,12 +486,17 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childIndex := indexOf(oldNode, childNodes)
 	if childIndex == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
 			if _, err := newNode.ParentNode.RemoveChild(newNode); err != nil {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
+			// the new node may have been a sibling of the old one
+			childNodes = n.ChildNodes
+			childIndex = indexOf(oldNode, childNodes)
 		}
 		childNodes[childIndex] = newNode
 
-- 
2.43.0


From 792825949dad3b55172562066ded71474b5f7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:47 +0000
Subject: [PATCH 10/12] fix: unlink the children dropped by SetInnerHTML and
 SetTextContent

---
 domparser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 4c6f875..230763c 100644
--- a/domparser.go
+++ b/domparser.go
@@ -481,6 +481,13 @@ func (n *Node) RemoveChild(child *Node) (*Node, error) {
 	}
 }
 
+// detach clears the relations of a node that is dropped along with its siblings.
+func (n *Node) detach() {
+	n.ParentNode = nil
+	n.PreviousSibling, n.NextSibling = nil, nil
+	n.PreviousElementSibling, n.NextElementSibling = nil, nil
+}
+
 func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childNodes := n.ChildNodes
 	childIndex := indexOf(oldNode, childNodes)
@@ -948,7 +955,7 @@ func (n *Node) SetInnerHTML(html string) {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
@@ -968,7 +975,7 @@ func (n *Node) SetTextContent(text string) {
 	} else if n.NodeType == elementNode {
 		// clear parentNodes for existing children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 
 		var t = newText()
-- 
2.43.0


From b6407876ac2009ed1fd43ee33eaede2d87debcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:32 +0000
Subject: [PATCH 11/12] fix: bound the nesting depth of the parsed tree

---
 domparser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 230763c..7c8951d 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1020,9 +1020,15 @@ type domParser struct {
 	html    string
 	z       *html.Tokenizer
 	doc     *Node
+	depth   int
 	options *Options
 }
 
+// Elements nested deeper than this are kept without children, so that a page
+// made of unclosed tags cannot exhaust the stack of the functions that walk
+// the tree recursively.
+const maxDepth = 5000
+
 func newDOMParser(opts ...Option) *domParser {
 	p := &domParser{
 		options: defaultOpts(),
@@ -1110,11 +1116,13 @@ loop:
 
 				// If this isn't a void Element, read its child nodes
 				var localName = node.LocalName
-				if tt == html.StartTagToken {
+				if tt == html.StartTagToken && p.depth < maxDepth {
 					if slices.Contains([]string{"script", "noscript"}, localName) {
 						p.z.NextIsNotRawText()
 					}
+					p.depth++
 					p.readNode(node)
+					p.depth--
 				}
 
 				// Only use the first title, because SVG might have other
-- 
2.43.0


From 4f235ebc503ccab533b3729ce039cd8c097280d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:49 +0000
Subject: [PATCH 12/12] fix: find the base64 marker of a data URL in any case

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 34c0b95..1a2112e 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0

