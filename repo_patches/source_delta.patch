From 53a20d91b9d9ba41673bf66f6937d3628cf31078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 01/78] fix: tell the text '/>' after a start tag from an
 empty-element tag

---
 parserctx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index a11dde6..976239b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -683,6 +683,7 @@ func (ctx *parserCtx) parseElement() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.HasPrefixString("/>") {
+		cur.Advance(1) // '>'
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
@@ -728,7 +729,8 @@ func (ctx *parserCtx) parseStartTag() error {
 	for ctx.instate != psEOF {
 		ctx.skipBlanks()
 		if cur.Peek() == '>' {
-			cur.Advance(1)
+			// consumed by parseElement, which needs to tell "<a>"
+			// followed by the text "/>" from "<a/>"
 			break
 		}
 
-- 
2.43.0


From a525681bb360f2f593398397d9c85d0ff9e05cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 02/78] fix: allow white space before the '>' of an end tag

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 976239b..7033c48 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -898,6 +898,7 @@ func (ctx *parserCtx) parseEndTag() error {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
 
+		ctx.skipBlanks() // ETag ::= '</' Name S? '>'
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
 		}
-- 
2.43.0


From 62ada6a813b39f7504c58c7b56955ea658826621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 03/78] fix: report a missing '=' and missing quotes in
 attributes

---
 parserctx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 7033c48..7cc5b49 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -925,10 +925,13 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
+	_, qerr := ctx.parseQuotedText(func(qch rune) (string, error) {
 		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+		return "", err
 	})
+	if err == nil {
+		err = qerr // missing opening or closing quote
+	}
 	return
 }
 
@@ -1068,6 +1071,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
-- 
2.43.0


From 75d890673e0568c89e2ac0a27801e17e89a84432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 04/78] fix: require white space between attributes

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 7cc5b49..b5e93bd 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -814,6 +814,10 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 
 		attrs = append(attrs, attr)
+
+		if c := cur.Peek(); c != '>' && !isBlankCh(c) && !cur.HasPrefixString("/>") {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	// attributes defaulting
-- 
2.43.0


From e87e239ddf280361986b216d21c850f25ddeec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 05/78] fix: scope namespace declarations to the element that
 makes them

---
 parserctx.go |  9 ++++++++-
 stack.go     | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index b5e93bd..a79004c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -670,6 +670,9 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	// the namespaces declared on this element go out of scope with it
+	nbNs := ctx.nsTab.Len()
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -692,6 +695,7 @@ func (ctx *parserCtx) parseElement() error {
 	if err := ctx.parseEndTag(); err != nil {
 		return ctx.error(err)
 	}
+	ctx.nsTab.Pop(ctx.nsTab.Len() - nbNs)
 
 	return nil
 }
@@ -744,6 +748,9 @@ func (ctx *parserCtx) parseStartTag() error {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if ctx.nsTab.declares("", nbNs) {
+				return ctx.error(ErrDuplicateAttribute)
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
 			//    SkipDefaultNS:
@@ -786,7 +793,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
+			if ctx.nsTab.declares(attname, nbNs) {
 				return ctx.error(errors.New("duplicate attribute is not allowed"))
 			}
 			ctx.pushNS(attname, attvalue)
diff --git a/stack.go b/stack.go
index 6d57cf8..be9f0ce 100644
--- a/stack.go
+++ b/stack.go
@@ -37,8 +37,20 @@ func newNsStack() nsStack {
 	return nsStack{}
 }
 
+// Push declares a namespace. It hides a declaration of the same prefix by
+// an enclosing element until it is popped
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
+}
+
+// declares tells if one of the last n declarations is for the prefix
+func (s *nsStack) declares(prefix string, n int) bool {
+	for _, item := range s.Peek(n) {
+		if item.Key() == prefix {
+			return true
+		}
+	}
+	return false
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From 8e66a6e0f346b7c71c9d322166854d3d48a79cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 06/78] fix: do not report a default namespace declaration as
 an attribute too

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index a79004c..0b15bae 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -762,6 +762,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(ErrSpaceRequired)
 			}
 			ctx.skipBlanks()
+			continue
 		} else if aprefix == XMLNsPrefix {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
-- 
2.43.0


From bf61e7a51d3e29514785f490d4d0a2c34c11143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 07/78] fix: the xml prefix is bound without a declaration

---
 parserctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 0b15bae..d6f636f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -140,6 +140,9 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 }
 
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	if prefix == XMLPrefix { // bound by definition
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
-- 
2.43.0


From 6f73ca6f8cf6be2f4f1310574b443a26da68aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 08/78] fix: reject duplicate attributes with any SAX handler

---
 parserctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index d6f636f..257e92d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -824,6 +824,12 @@ func (ctx *parserCtx) parseStartTag() error {
 			value:     attvalue,
 		}
 
+		// [ WFC: Unique Att Spec ]
+		for _, other := range attrs {
+			if other.Name() == attr.Name() {
+				return ctx.error(ErrDuplicateAttribute)
+			}
+		}
 		attrs = append(attrs, attr)
 
 		if c := cur.Peek(); c != '>' && !isBlankCh(c) && !cur.HasPrefixString("/>") {
-- 
2.43.0


From c83ed073824e9484a0176f4fa8deefdebe0de1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 09/78] fix: reject attributes whose prefix is not bound to a
 namespace

---
 parserctx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 257e92d..b760e58 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -868,6 +868,11 @@ func (ctx *parserCtx) parseStartTag() error {
 	if nsuri != "" {
 		elem.SetNamespace(prefix, nsuri, true)
 	}
+	for _, attr := range attrs {
+		if p := attr.Prefix(); p != "" && ctx.lookupNamespace(p) == "" {
+			return ctx.error(errors.New("namespace '" + p + "' not found"))
+		}
+	}
 
 	if s := ctx.sax; s != nil {
 		var nslist []sax.Namespace
-- 
2.43.0


From ac812faf30ca8092efdedbfe4a4185e9baf27b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 10/78] fix: default an attribute only when it is not
 specified, in a fixed order

---
 attr.go      |  7 +++++++
 parserctx.go | 16 ++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/attr.go b/attr.go
index 080f304..3f7d72c 100644
--- a/attr.go
+++ b/attr.go
@@ -71,6 +71,13 @@ func (n *Attribute) IsDefault() bool {
 	return n.defaultAttr
 }
 
+func (n Attribute) Name() string {
+	if n.ns != nil && n.ns.Prefix() != "" {
+		return n.ns.Prefix() + ":" + n.name
+	}
+	return n.name
+}
+
 func (n Attribute) Value() string {
 	return string(n.Content())
 }
diff --git a/parserctx.go b/parserctx.go
index b760e58..467c71b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net/url"
+	"sort"
 	"strings"
 	"sync"
 	"unicode"
@@ -852,8 +853,19 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
-			for _, attr := range defaults {
-				attrs = append(attrs, attr)
+			names := make([]string, 0, len(defaults))
+			for name := range defaults {
+				names = append(names, name)
+			}
+			sort.Strings(names) // the order must not depend on the map
+		DEFAULTS:
+			for _, name := range names {
+				for _, attr := range attrs {
+					if attr.Name() == name {
+						continue DEFAULTS // it has been specified
+					}
+				}
+				attrs = append(attrs, defaults[name])
 			}
 		}
 	}
-- 
2.43.0


From 5946db47dd17d8755176e3768bc95f6f1b0486a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 11/78] fix: Prefix and URI of an attribute without a namespace

---
 attr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/attr.go b/attr.go
index 3f7d72c..57de47b 100644
--- a/attr.go
+++ b/attr.go
@@ -83,9 +83,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.Prefix()
 }
 
 func (n Attribute) URI() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.URI()
 }
-- 
2.43.0


From 6f64ae5e872d73c11c4ce9f4de0fc56c0b45306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 12/78] fix: apply and dump attribute defaults that are the
 empty string

---
 dump.go      | 2 +-
 parserctx.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 0e1983b..5a94b1e 100644
--- a/dump.go
+++ b/dump.go
@@ -571,7 +571,7 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
+	if n.defvalue != "" || n.def == AttrDefaultNone || n.def == AttrDefaultFixed {
 		io.WriteString(out, " ")
 		dumpQuotedString(out, n.defvalue)
 	}
diff --git a/parserctx.go b/parserctx.go
index 467c71b..2635c85 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3948,7 +3948,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			}
 		}
 
-		if defvalue != "" && def != AttrDefaultImplied && def != AttrDefaultRequired {
+		if def != AttrDefaultImplied && def != AttrDefaultRequired {
 			ctx.addAttributeDefault(elemName, attrName, defvalue)
 		}
 
-- 
2.43.0


From 9c2927023f8fabd24c12ae0ae056f52f50316a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 13/78] fix: ignore a repeated attribute declaration instead of
 rejecting the document

---
 parserctx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 2635c85..9fbb8b8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3690,6 +3690,9 @@ func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ Attribu
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
 	}
+	if _, ok := ctx.attsSpecial[key]; ok {
+		return // the first declaration is binding
+	}
 	ctx.attsSpecial[key] = typ
 }
 
@@ -3756,6 +3759,11 @@ func (ctx *parserCtx) addAttributeDecl(dtd *DTD, elem string, name string, prefi
 
 	// Validity Check: Search the DTD for previous declarations of the ATTLIST
 	// (RegisterAttribute should return error if this attr already exists)
+	if _, ok := dtd.LookupAttribute(name, prefix, elem); ok {
+		// not an error: the first declaration is binding, and later
+		// ones are ignored
+		return nil, nil
+	}
 	if err = dtd.RegisterAttribute(attr); err != nil {
 		attr = nil
 		return
-- 
2.43.0


From 7cccc3972be64a01275251e3313894493d467af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 14/78] fix: look up attribute types by qualified names

---
 parserctx.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 9fbb8b8..48a7ff7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -745,7 +745,11 @@ func (ctx *parserCtx) parseStartTag() error {
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
 			break
 		}
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		qname := local
+		if prefix != "" {
+			qname = prefix + ":" + local
+		}
+		attname, aprefix, attvalue, err := ctx.parseAttribute(qname)
 		if err != nil {
 			return ctx.error(err)
 		}
@@ -1094,7 +1098,11 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attrName := l
+	if p != "" {
+		attrName = p + ":" + l
+	}
+	attType, ok := ctx.lookupSpecialAttribute(elemName, attrName)
 	if pdebug.Enabled {
 		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
 	}
@@ -3685,7 +3693,7 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 }
 
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName // either may have a colon
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
@@ -3697,7 +3705,7 @@ func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ Attribu
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName // either may have a colon
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
-- 
2.43.0


From 8fca3cb2e0218a200bec97572ffd9a12c5d7a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 15/78] fix: keep the text of CDATA sections, which may be
 empty, and stop at the end of input in one

---
 parserctx.go | 7 +++++--
 tree.go      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 48a7ff7..4ef17fc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -606,8 +606,11 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 
 	i := 0
 	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
+		if !isChar(c) {
+			break
+		}
 		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
+			if c == '<' || c == '&' {
 				break
 			}
 		}
@@ -624,7 +627,7 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 		i++
 	}
 
-	if i <= 0 {
+	if i <= 0 && !cdata { // a CDATA section may be empty
 		pdebug.Dump(cur)
 		return errors.New("Invalid char data")
 	}
diff --git a/tree.go b/tree.go
index d1cfd2a..b8eae4d 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,15 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	if len(data) == 0 {
+		return nil
+	}
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From 295e1ff7a957024643dd6ffdda54fb585fa9cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 16/78] fix: normalise every kind of line ending on input

---
 parserctx.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 4ef17fc..6d848c5 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -368,12 +368,44 @@ func (ctx *parserCtx) switchEncoding() error {
 	}
 
 	b := enc.NewDecoder().Reader(cur)
+	if ctx.depth == 0 { // not in the replacement text of an entity
+		b = &eolReader{in: b}
+	}
 	ctx.popInput()
 	ctx.pushInput(strcursor.NewRuneCursor(b))
 
 	return nil
 }
 
+// eolReader translates "\r\n" and any other "\r" to "\n"
+// (XML 1.0, 2.11 End-of-Line Handling)
+type eolReader struct {
+	in io.Reader
+	cr bool // the last byte was '\r'
+}
+
+func (r *eolReader) Read(p []byte) (int, error) {
+	for {
+		n, err := r.in.Read(p)
+		out := 0
+		for _, c := range p[:n] {
+			if c == '\n' && r.cr {
+				r.cr = false
+				continue
+			}
+			r.cr = c == '\r'
+			if r.cr {
+				c = '\n'
+			}
+			p[out] = c
+			out++
+		}
+		if out > 0 || n == 0 || err != nil {
+			return out, err
+		}
+	}
+}
+
 var xmlDeclHint = []byte{'<', '?', 'x', 'm', 'l'}
 
 func (ctx *parserCtx) parseDocument() error {
-- 
2.43.0


From 232478b67a2dfe1bafb27d2f435d513a51adc7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 17/78] fix: report comments that are not closed

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 6d848c5..cd5a0b1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2079,6 +2079,10 @@ func (ctx *parserCtx) parseComment() error {
 		i++
 	}
 
+	if q != '-' || r != '-' || cur.PeekN(i+1) != '>' {
+		return ctx.error(ErrInvalidComment) // invalid character or end of input
+	}
+
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
 	str := buf.Bytes()
-- 
2.43.0


From 7eb94f2260e7fa988ff14e1b8589aa36562431f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 18/78] fix: white space before the end of the XML declaration,
 and errors in its encoding

---
 parserctx.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index cd5a0b1..7d828af 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1274,20 +1274,32 @@ func (ctx *parserCtx) parseXMLDecl() error {
 		return ctx.error(ErrSpaceRequired)
 	}
 
+	// white space may precede the end of the XML declaration
+	ctx.skipBlankBytes(cur)
+	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
+		cur.Advance(2)
+		return nil
+	}
+
 	// we *may* have encoding decl
-	v, err = ctx.parseEncodingDecl()
-	if err == nil {
+	if cur.HasPrefix(encodingBytes) {
+		v, err = ctx.parseEncodingDecl()
+		if err != nil {
+			return ctx.error(err)
+		}
 		// ctx.encoding contains the explicit encoding specified
 		ctx.encoding = v
 
 		// if the encoding decl is found, then we *could* have
 		// the end of the XML declaration
+		blank := ctx.skipBlankBytes(cur)
 		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
 			cur.Advance(2)
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
-		return ctx.error(err)
+		if !blank {
+			return ctx.error(ErrSpaceRequired)
+		}
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
@@ -1296,6 +1308,7 @@ func (ctx *parserCtx) parseXMLDecl() error {
 	}
 	ctx.standalone = vb
 
+	ctx.skipBlankBytes(cur)
 	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
 		cur.Advance(2)
 		return nil
-- 
2.43.0


From ff4fb1e6d8854d99ef1cec8c188cff57dd09900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 19/78] fix: tell the XML declaration from processing
 instructions whose target starts with 'xml'

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 7d828af..6b248d5 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -443,7 +443,7 @@ func (ctx *parserCtx) parseDocument() error {
 	}
 
 	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) {
+	if bcur.HasPrefix(xmlDeclHint) && isBlankCh(bcur.PeekN(len(xmlDeclHint)+1)) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -1926,7 +1926,7 @@ func (ctx *parserCtx) parsePITarget() (string, error) {
 		return "", ctx.error(err)
 	}
 
-	if name == "xml" {
+	if strings.EqualFold(name, "xml") {
 		return "", errors.New("XML declaration allowed only at the start of the document")
 	}
 
-- 
2.43.0


From 46c982be414a2fa0c4c4b4ec1e9ecee03d162d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 20/78] fix: overflow of character references, and ones that
 are not closed

---
 parserctx.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6b248d5..82f0d36 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4502,6 +4502,9 @@ func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid decimal CharRef")
 	}
+	if val > unicode.MaxRune { // before it overflows
+		return 0, ErrInvalidChar
+	}
 	return val, nil
 }
 
@@ -4515,6 +4518,9 @@ func accumulateHexCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid hex CharRef")
 	}
+	if val > unicode.MaxRune { // before it overflows
+		return 0, ErrInvalidChar
+	}
 	return val, nil
 }
 
@@ -4537,6 +4543,11 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 
 	width += 2
 	s = s[2:]
+	if bytes.IndexByte(s, ';') == -1 {
+		err = ErrSemicolonRequired
+		width = 0
+		return
+	}
 
 	var accumulator func(int32, rune) (int32, error)
 	if s[0] == 'x' {
@@ -4879,11 +4890,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid hex CharRef")
 				return
 			}
+			if val > unicode.MaxRune { // before it overflows
+				err = ErrInvalidChar
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else if cur.ConsumeString("&#") {
 		for !cur.Done() && cur.Peek() != ';' {
 			c := cur.Peek()
@@ -4893,11 +4910,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid decimal CharRef")
 				return
 			}
+			if val > unicode.MaxRune { // before it overflows
+				err = ErrInvalidChar
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else {
 		err = errors.New("invalid char ref")
 		return
-- 
2.43.0


From 2f40cd82b2be14a813ed82aaaffa2e469a11c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 21/78] fix: report undeclared entities instead of panicking

---
 parserctx.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 82f0d36..906c25c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4186,6 +4186,9 @@ func (ctx *parserCtx) parseReference() error {
 		return ctx.error(err)
 	}
 	// if !ctx.wellFormed { return } ??
+	if ent.entityType == 0 { // not found, and reported already
+		return nil
+	}
 
 	wasChecked := ent.checked
 
@@ -4627,10 +4630,13 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
+	if ctx.doc == nil { // no tree is being built
+		return nil, ErrEntityNotFound
+	}
 
 	var ret *Entity
 	var ok bool
@@ -4998,12 +5004,12 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		// ask the SAX2 handler nicely
 		var loadedEnt sax.Entity
 		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
-			ent = loadedEnt.(*Entity)
-			return
+		if e, ok := loadedEnt.(*Entity); ok && err == nil {
+			ent = e
 		}
+		err = nil
 
-		if loadedEnt == nil && ctx == ctx.userData {
+		if ent == nil && ctx == ctx.userData {
 			ent, _ = ctx.getEntity(name)
 		}
 	}
@@ -5028,10 +5034,10 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
+		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, ctx.error(ErrUndeclaredEntity)
 		} else {
-			if ctx.inSubset == 0 {
+			if ctx.inSubset == 0 && ctx.instate != psAttributeValue {
 				if s := ctx.sax; s != nil {
 					switch err := s.Reference(ctx.userData, name); err {
 					case nil, sax.ErrHandlerUnspecified:
@@ -5046,6 +5052,9 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 				return nil, ctx.error(err)
 			}
 			ctx.valid = false
+			// the declaration may be one that has not been read:
+			// stands for a reference that cannot be resolved
+			return &Entity{node: node{docnode: docnode{name: name}}}, nil
 		}
 	} else if ent.entityType == ExternalGeneralUnparsedEntity {
 		// [ WFC: Parsed Entity ]
-- 
2.43.0


From 882f8fd0ec05c8c7b5a2d0814c8eb1c5666573c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 22/78] fix: entity references in attribute values follow the
 rules for attribute values

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 906c25c..c1ce796 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1002,6 +1002,10 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
+	instate := ctx.instate
+	ctx.instate = psAttributeValue
+	defer func() { ctx.instate = instate }()
+
 	_, qerr := ctx.parseQuotedText(func(qch rune) (string, error) {
 		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
 		return "", err
-- 
2.43.0


From 1feb6f495a12dc7464fcd86677f29e84e67e531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 23/78] fix: build the content of entities referenced in
 content

---
 parserctx.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index c1ce796..1f2f833 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4113,6 +4113,11 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.doc = ctx.doc
 	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
+	newctx.attsSpecial = ctx.attsSpecial
+	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
+	newctx.standalone = ctx.standalone
+	newctx.hasExternalSubset = ctx.hasExternalSubset
+	newctx.hasPERefs = ctx.hasPERefs
 	newctx.depth = ctx.depth + 1
 
 	// create a dummy node
@@ -4122,10 +4127,14 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	}
 	newctx.pushNode(newRoot)
 	newctx.doc.AddChild(newRoot)
+	newctx.elem = newRoot
 	newctx.switchEncoding()
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
+	if cur := newctx.getCursor(); cur != nil && !cur.Done() { // an end tag
+		return nil, newctx.error(errors.New("entity is not well balanced"))
+	}
 
 	if child := newctx.doc.FirstChild(); child != nil {
 		if grandchild := child.FirstChild(); grandchild != nil {
@@ -4322,6 +4331,16 @@ func (ctx *parserCtx) parseReference() error {
 		       }
 		*/
 
+		if ent.firstChild == nil {
+			for n := parsedEnt; n != nil; n = n.NextSibling() {
+				if n == parsedEnt {
+					ent.setFirstChild(n)
+				}
+				n.SetParent(ent)
+				ent.setLastChild(n)
+			}
+		}
+
 		// Now that the entity content has been gathered
 		// provide it to the application, this can take different forms based
 		// on the parsing modes.
-- 
2.43.0


From a0d17f8db3cfc3a18a843d182838296b7606812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 24/78] fix: an entity reference stands for its own entity, not
 for the rest of the DTD

---
 node.go      |  6 +++++-
 reference.go | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 74c637c..81745e0 100644
--- a/node.go
+++ b/node.go
@@ -70,6 +70,10 @@ func Walk(n Node, f WalkFunc) error {
 	if err := f(n); err != nil {
 		return err
 	}
+	if n.Type() == EntityRefNode {
+		// what it refers to is a node of the DTD, not of the tree under n
+		return nil
+	}
 	for chld := n.FirstChild(); chld != nil; chld = chld.NextSibling() {
 		if err := Walk(chld, f); err != nil {
 			return err
@@ -265,7 +269,7 @@ func setTreeDoc(n Node, doc *Document) {
 			}
 		}
 	}
-	if child := n.FirstChild(); child != nil {
+	if child := n.FirstChild(); child != nil && n.Type() != EntityRefNode {
 		setListDoc(child, doc)
 	}
 	n.SetOwnerDocument(doc)
diff --git a/reference.go b/reference.go
index 1eb07e8..5eea2a0 100644
--- a/reference.go
+++ b/reference.go
@@ -6,6 +6,20 @@ func newEntityRef() *EntityRef {
 	return n
 }
 
+// Content returns the replacement text of the entity. The entity is linked
+// from the reference as its child, but is one of the nodes of the DTD, whose
+// next nodes are not children of the reference
+func (e *EntityRef) Content() []byte {
+	ent, ok := e.firstChild.(*Entity)
+	if !ok {
+		return e.docnode.Content()
+	}
+	if ent.firstChild == nil {
+		return ent.Content()
+	}
+	return ent.docnode.Content()
+}
+
 func (e *EntityRef) AddChild(cur Node) error {
 	return addChild(e, cur)
 }
-- 
2.43.0


From 7f5f940b78bd03c52d8415b38d2623ee9993aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 25/78] fix: entity references in attribute values: last child,
 predefined and recursive entities

---
 document.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..c1c353e 100644
--- a/document.go
+++ b/document.go
@@ -153,7 +153,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 			n.SetParent(attr)
 			x := n.NextSibling()
 			if x == nil {
-				n.setLastChild(x)
+				attr.setLastChild(n)
 			}
 			n = x
 		}
@@ -319,7 +319,11 @@ func (d *Document) IsMixedElement(name string) (bool, error) {
  * produce a flat tree with only TEXTs and ENTITY_REFs.
  * Returns a pointer to the first child
  */
-func (d *Document) stringToNodeList(value string) (ret Node, err error) {
+func (d *Document) stringToNodeList(value string) (Node, error) {
+	return d.stringToNodeListInternal(value, 0)
+}
+
+func (d *Document) stringToNodeListInternal(value string, depth int) (ret Node, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START document.stringToNodeList '%s'", value)
 		defer func() {
@@ -332,6 +336,9 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 			g.IRelease("END document.stringToNodeList '%s'", content)
 		}()
 	}
+	if depth > 40 {
+		return nil, errors.New("entity loop (depth > 40)")
+	}
 	rdr := strings.NewReader(value)
 	buf := bytes.Buffer{}
 	var last Node
@@ -404,6 +411,9 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 
 			val := entbuf.String()
 			ent, ok := d.GetEntity(val)
+			if predef, perr := resolvePredefinedEntity(val); perr == nil {
+				ent, ok = predef, true
+			}
 
 			// XXX I *believe* libxml2 SKIPS entities that it can't resolve
 			// at this point?
@@ -442,18 +452,14 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				if ok && ent.FirstChild() == nil {
 					// XXX WTF am I doing here...?
 					var refchildren Node
-					refchildren, err = d.stringToNodeList(string(node.Content()))
+					refchildren, err = d.stringToNodeListInternal(ent.content, depth+1)
 					if err != nil {
 						return
 					}
 					ent.setFirstChild(refchildren)
-					for n := refchildren; n != nil; {
+					for n := refchildren; n != nil; n = n.NextSibling() {
 						n.SetParent(ent)
-						if x := n.NextSibling(); x != nil {
-							n = x
-						} else {
-							n = nil
-						}
+						ent.setLastChild(n)
 					}
 				}
 
-- 
2.43.0


From 66537323f9efc0cf09622f02b608a0acec4c994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 26/78] fix: references to external entities, and limit what
 entities expand to

---
 parser_interface.go |  1 +
 parserctx.go        | 29 ++++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..8fd26bf 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -147,6 +147,7 @@ type parserCtx struct {
 	elemidx    int
 	nbentities int
 	inputTab   inputStack
+	expanded   *int // size of the entities expanded by other entities
 }
 
 type SubstitutionType int
diff --git a/parserctx.go b/parserctx.go
index 1f2f833..9a54ccc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4074,6 +4074,12 @@ func (ctx *parserCtx) parseExternalEntityPrivate(uri, externalID string) (Node,
 
 var ErrParseSucceeded = errors.New("parse succeeded")
 
+// how much the entities that are referenced by other entities may expand to
+const (
+	allowedExpansion             = 1000000
+	allowedExpansionPerReference = 1000
+)
+
 func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interface{}) (Node, error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseBalancedChunkInternal")
@@ -4087,7 +4093,19 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, errors.New("entity loop")
 	}
 
+	// References from the document cost what they say, but references from
+	// entities to entities may multiply
+	if ctx.expanded == nil {
+		ctx.expanded = new(int)
+	}
+	if ctx.depth == 1 {
+		*ctx.expanded -= allowedExpansionPerReference
+	} else if *ctx.expanded += len(chunk) + 20; *ctx.expanded > allowedExpansion {
+		return nil, errors.New("entity references expand to too much text")
+	}
+
 	newctx := &parserCtx{}
+	newctx.expanded = ctx.expanded
 	newctx.init(nil, bytes.NewReader(chunk))
 	defer newctx.release()
 
@@ -4519,7 +4537,16 @@ func (ctx *parserCtx) parseReference() error {
 		*/
 	}
 
-	return ErrUnimplemented{target: "parseReference"}
+	// an external entity, whose content is not read
+	if s := ctx.sax; s != nil && !ctx.replaceEntities {
+		switch err := s.Reference(ctx.userData, ent.name); err {
+		case nil, sax.ErrHandlerUnspecified:
+			// no op
+		default:
+			return err
+		}
+	}
+	return nil
 }
 
 func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
-- 
2.43.0


From b71fb014bda42fbd78fde50b8bc2903d1b8e2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 27/78] fix: check the entities that entities in attribute
 values refer to

---
 parserctx.go | 101 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 13 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 9a54ccc..d897dd3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1064,6 +1064,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 					err = ctx.error(err)
 					return
 				}
+				if err = ctx.checkAttributeEntity(ent, map[*Entity]bool{}); err != nil {
+					err = ctx.error(err)
+					return
+				}
 
 				if ent.entityType == InternalPredefinedEntity {
 					if ent.content == "&" && !ctx.replaceEntities {
@@ -1122,6 +1126,72 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 	return
 }
 
+// checkAttributeEntity applies the rules for entities referenced in attribute
+// values to the entities that such an entity references. In seen are the
+// entities already visited: true while what they reference is being visited
+func (ctx *parserCtx) checkAttributeEntity(ent *Entity, seen map[*Entity]bool) error {
+	if ent.entityType != InternalGeneralEntity {
+		return nil
+	}
+	seen[ent] = true
+	defer func() { seen[ent] = false }()
+
+	for s := []byte(ent.content); ; {
+		i := bytes.IndexByte(s, '&')
+		if i < 0 {
+			return nil
+		}
+		s = s[i:]
+		if bytes.HasPrefix(s, []byte{'&', '#'}) {
+			_, width, err := parseStringCharRef(s)
+			if err != nil {
+				return err
+			}
+			s = s[width:]
+			continue
+		}
+
+		name, width, err := parseStringName(s[1:])
+		if err != nil {
+			return ErrNameRequired
+		}
+		s = s[1+width:]
+		if len(s) == 0 || s[0] != ';' {
+			return ErrSemicolonRequired
+		}
+
+		if _, err := resolvePredefinedEntity(name); err == nil {
+			continue
+		}
+		ref := ctx.loadEntity(name)
+		if ref == nil {
+			if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
+				return ErrUndeclaredEntity
+			}
+			continue
+		}
+		switch ref.entityType {
+		case ExternalGeneralUnparsedEntity:
+			return errors.New("entity reference to unparsed entity")
+		case ExternalGeneralParsedEntity:
+			return errors.New("attribute references external entity")
+		}
+		if strings.IndexByte(ref.content, '<') > -1 {
+			return errors.New("'<' in entity is not allowed in attribute values")
+		}
+		visiting, done := seen[ref]
+		if visiting {
+			return errors.New("entity loop")
+		}
+		if done {
+			continue
+		}
+		if err := ctx.checkAttributeEntity(ref, seen); err != nil {
+			return err
+		}
+	}
+}
+
 func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix string, value string, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseAttribute")
@@ -4742,6 +4812,23 @@ func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	return ret, nil
 }
 
+// loadEntity looks up a general entity which is not a predefined one.
+// Returns nil if there is none.
+func (ctx *parserCtx) loadEntity(name string) (ent *Entity) {
+	if s := ctx.sax; s != nil {
+		// ask the SAX2 handler nicely
+		loadedEnt, err := s.GetEntity(ctx.userData, name)
+		if e, ok := loadedEnt.(*Entity); ok && err == nil {
+			ent = e
+		}
+
+		if ent == nil && ctx == ctx.userData {
+			ent, _ = ctx.getEntity(name)
+		}
+	}
+	return ent
+}
+
 func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseStringEntityRef ('%s')", s)
@@ -5050,19 +5137,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		return
 	}
 
-	if s := ctx.sax; s != nil {
-		// ask the SAX2 handler nicely
-		var loadedEnt sax.Entity
-		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if e, ok := loadedEnt.(*Entity); ok && err == nil {
-			ent = e
-		}
-		err = nil
-
-		if ent == nil && ctx == ctx.userData {
-			ent, _ = ctx.getEntity(name)
-		}
-	}
+	ent, err = ctx.loadEntity(name), nil
 
 	// [ WFC: Entity Declared ]
 	// In a document without any DTD, a document with only an
-- 
2.43.0


From ebf50124ec4579b78046942791a26d31d1a14f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 28/78] fix: report errors in entity values instead of dropping
 the declaration

---
 parserctx.go | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d897dd3..ad9c2c3 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3179,6 +3179,23 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
+
+	// every '&' starts a reference
+	for i := 0; i < len(literal); i++ {
+		if literal[i] != '&' || strings.HasPrefix(literal[i:], "&#") {
+			continue
+		}
+		_, width, err := parseStringName([]byte(literal[i+1:]))
+		if err != nil {
+			return "", "", ctx.error(ErrNameRequired)
+		}
+		if !strings.HasPrefix(literal[i+1+width:], ";") {
+			return "", "", ctx.error(ErrSemicolonRequired)
+		}
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3268,13 +3285,14 @@ func (ctx *parserCtx) parseEntityDecl() error {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
 
-			if err == nil {
-				switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return ctx.error(err)
-				}
+			if err != nil {
+				return ctx.error(err)
+			}
+			switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
+				return ctx.error(err)
 			}
 		} else {
 			if pdebug.Enabled {
@@ -3311,14 +3329,15 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
-			if err == nil {
-				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return ctx.error(err)
-					}
+			if err != nil {
+				return ctx.error(err)
+			}
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return ctx.error(err)
 				}
 			}
 		} else {
-- 
2.43.0


From 2a9c8d7e4ca7448861dab90c21b9f143ccd00c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 29/78] fix: the first declaration of an entity is binding

---
 dtd.go              |  6 ++++++
 parser_interface.go |  2 ++
 parserctx.go        | 13 +++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/dtd.go b/dtd.go
index 63e72b2..cd1b625 100644
--- a/dtd.go
+++ b/dtd.go
@@ -34,6 +34,12 @@ func (dtd *DTD) AddEntity(name string, typ EntityType, publicID, systemID, conte
 		return nil, errors.Errorf("invalid entity type: %d", typ)
 	}
 
+	// If the same entity is declared more than once, the first declaration
+	// is binding
+	if ent, ok := table[name]; ok {
+		return ent, nil
+	}
+
 	ent := newEntity(name, typ, publicID, systemID, content, "")
 	ent.doc = dtd.doc
 	table[name] = ent
diff --git a/parser_interface.go b/parser_interface.go
index 8fd26bf..1dc8cb5 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -148,6 +148,8 @@ type parserCtx struct {
 	nbentities int
 	inputTab   inputStack
 	expanded   *int // size of the entities expanded by other entities
+
+	entityDecls map[string]bool // names of the entities declared so far
 }
 
 type SubstitutionType int
diff --git a/parserctx.go b/parserctx.go
index ad9c2c3..201efe2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -208,6 +208,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string]map[string]*Attribute{}
+	ctx.entityDecls = map[string]bool{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -3438,6 +3439,18 @@ func (ctx *parserCtx) parseEntityDecl() error {
 	// Ugly mechanism to save the raw entity value.
 	// Note: This happens because the SAX interface doesn't have a way to
 	// pass this non-standard information to the handler
+	//
+	// If the same entity is declared more than once, the first declaration
+	// is binding
+	declKey := name
+	if isParameter {
+		declKey = "%" + name
+	}
+	if ctx.entityDecls[declKey] {
+		return nil
+	}
+	ctx.entityDecls[declKey] = true
+
 	var curent sax.Entity
 	if isParameter {
 		if s := ctx.sax; s != nil {
-- 
2.43.0


From 65fff31547e2e52f03891e435539a3b98d61f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 30/78] fix: parse external identifiers and notation
 declarations, reject unknown declarations

---
 parserctx.go | 201 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 150 insertions(+), 51 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 201efe2..5320dcf 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2204,7 +2204,9 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return ctx.error(ErrInvalidDTD)
 	}
 
-	ctx.skipBlanks()
+	if !ctx.skipBlanks() {
+		return ctx.error(ErrSpaceRequired)
+	}
 
 	name, err := ctx.parseName()
 	if err != nil {
@@ -2212,13 +2214,16 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 	}
 	ctx.intSubName = name
 
-	ctx.skipBlanks()
-	u, eid, err := ctx.parseExternalID()
-	if err != nil {
-		return ctx.error(err)
-	}
-
-	if u != "" || eid != "" {
+	blanks := ctx.skipBlanks()
+	var u, eid string
+	if c := cur.Peek(); c != '[' && c != '>' {
+		if !blanks {
+			return ctx.error(ErrSpaceRequired)
+		}
+		eid, u, err = ctx.parseExternalID(false)
+		if err != nil {
+			return ctx.error(err)
+		}
 		ctx.hasExternalSubset = true
 	}
 	ctx.extSubURI = u
@@ -2272,6 +2277,11 @@ func (ctx *parserCtx) parseInternalSubset() error {
 
 	for !cur.Done() && cur.Peek() != ']' {
 		ctx.skipBlanks()
+		if c := cur.Peek(); c == ']' || cur.Done() {
+			break
+		} else if c != '<' && c != '%' {
+			return ctx.error(ErrInvalidDTD)
+		}
 		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -2337,6 +2347,8 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					if err := ctx.parseEntityDecl(); err != nil {
 						return ctx.error(err)
 					}
+				} else {
+					return ctx.error(ErrInvalidDTD)
 				}
 			case 'A': // <!A...
 				if err := ctx.parseAttributeListDecl(); err != nil {
@@ -2351,10 +2363,12 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					return ctx.error(err)
 				}
 			default:
-				// no op: error detected later?
+				return ctx.error(ErrInvalidDTD)
 			}
 		} else if cur.PeekN(2) == '?' {
 			return ctx.parsePI()
+		} else {
+			return ctx.error(ErrInvalidDTD)
 		}
 	}
 
@@ -3269,6 +3283,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 
 	ctx.instate = psEntityDecl
 	var literal string
+	var publicID string
 	var value string
 	var uri string
 
@@ -3299,28 +3314,25 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if pdebug.Enabled {
 				pdebug.Printf("Attempting to parse external ID")
 			}
-			literal, uri, err = ctx.parseExternalID()
+			publicID, uri, err = ctx.parseExternalID(false)
 			if err != nil {
-				return ctx.error(ErrValueRequired)
+				return ctx.error(err)
 			}
 
-			if uri != "" {
-				u, err := url.Parse(uri)
-				if err != nil {
-					return ctx.error(err)
-				}
+			u, err := url.Parse(uri)
+			if err != nil {
+				return ctx.error(err)
+			}
 
-				if u.Fragment != "" {
-					return ctx.error(errors.New("err uri fragment"))
-				} else {
-					if s := ctx.sax; s != nil {
-						switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ""); err {
-						case nil, sax.ErrHandlerUnspecified:
-							// no op
-						default:
-							return ctx.error(err)
-						}
-					}
+			if u.Fragment != "" {
+				return ctx.error(errors.New("err uri fragment"))
+			}
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), publicID, uri, ""); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return ctx.error(err)
 				}
 			}
 		}
@@ -3342,29 +3354,18 @@ func (ctx *parserCtx) parseEntityDecl() error {
 				}
 			}
 		} else {
-			literal, uri, err = ctx.parseExternalID()
+			publicID, uri, err = ctx.parseExternalID(false)
 			if err != nil {
-				return ctx.error(ErrValueRequired)
+				return ctx.error(err)
 			}
 
-			if uri != "" {
-				u, err := url.Parse(uri)
-				if err != nil {
-					return ctx.error(err)
-				}
+			u, err := url.Parse(uri)
+			if err != nil {
+				return ctx.error(err)
+			}
 
-				if u.Fragment != "" {
-					return ctx.error(errors.New("err uri fragment"))
-				} else {
-					if s := ctx.sax; s != nil {
-						switch err := s.EntityDecl(ctx.userData, name, int(ExternalGeneralParsedEntity), literal, uri, ""); err {
-						case nil, sax.ErrHandlerUnspecified:
-							// no op
-						default:
-							return ctx.error(err)
-						}
-					}
-				}
+			if u.Fragment != "" {
+				return ctx.error(errors.New("err uri fragment"))
 			}
 
 			if c := cur.Peek(); c != '>' && !isBlankCh(c) {
@@ -3382,7 +3383,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 					return ctx.error(err)
 				}
 				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ndata); err {
+					switch err := s.EntityDecl(ctx.userData, name, int(ExternalGeneralUnparsedEntity), publicID, uri, ndata); err {
 					case nil, sax.ErrHandlerUnspecified:
 						// no op
 					default:
@@ -3394,7 +3395,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 					if pdebug.Enabled {
 						pdebug.Printf("Calling s.EntityDecl with %s -> %s", name, literal)
 					}
-					switch err := s.EntityDecl(ctx.userData, name, int(ExternalParameterEntity), literal, uri, ""); err {
+					switch err := s.EntityDecl(ctx.userData, name, int(ExternalGeneralParsedEntity), publicID, uri, ""); err {
 					case nil, sax.ErrHandlerUnspecified:
 						// no op
 					default:
@@ -3466,7 +3467,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			*/
 		}
 	}
-	if curent != nil {
+	if curent != nil && literal != "" {
 		curent.SetOrig(literal)
 	}
 
@@ -4150,15 +4151,113 @@ func (ctx *parserCtx) parseNotationDecl() error {
 		g := pdebug.IPrintf("START parseNotationDecl")
 		defer g.IRelease("END parseNotationDecl")
 	}
+
+	// [82] NotationDecl ::= '<!NOTATION' S Name S (ExternalID |  PublicID) S? '>'
+	cur := ctx.getCursor()
+	if cur == nil {
+		panic("did not get rune cursor")
+	}
+	if !cur.ConsumeString("<!NOTATION") {
+		return ctx.error(ErrInvalidDTD)
+	}
+	if !ctx.skipBlanks() {
+		return ctx.error(ErrSpaceRequired)
+	}
+	name, err := ctx.parseName()
+	if err != nil {
+		return ctx.error(err)
+	}
+	if strings.IndexByte(name, ':') > -1 {
+		return ctx.error(errors.New("colons are forbidden from notation names"))
+	}
+	if !ctx.skipBlanks() {
+		return ctx.error(ErrSpaceRequired)
+	}
+	publicID, systemID, err := ctx.parseExternalID(true)
+	if err != nil {
+		return ctx.error(err)
+	}
+	ctx.skipBlanks()
+	if cur.Peek() != '>' {
+		return ctx.error(errors.New("notation not terminated"))
+	}
+	cur.Advance(1)
+
+	if s := ctx.sax; s != nil {
+		switch err := s.NotationDecl(ctx.userData, name, publicID, systemID); err {
+		case nil, sax.ErrHandlerUnspecified:
+			// no op
+		default:
+			return ctx.error(err)
+		}
+	}
 	return nil
 }
 
-func (ctx *parserCtx) parseExternalID() (string, string, error) {
+/*
+ * [75] ExternalID ::= 'SYSTEM' S SystemLiteral
+ *                   | 'PUBLIC' S PubidLiteral S SystemLiteral
+ *
+ * [83] PublicID ::= 'PUBLIC' S PubidLiteral
+ *
+ * Returns the public and the system identifiers. Only in notation
+ * declarations may a public identifier come without a system identifier.
+ */
+func (ctx *parserCtx) parseExternalID(notation bool) (publicID, systemID string, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseExternalID")
 		defer g.IRelease("END parseExternalID")
 	}
-	return "", "", nil
+
+	cur := ctx.getCursor()
+	if cur == nil {
+		panic("did not get rune cursor")
+	}
+
+	literal := func(allowed func(rune) bool) (string, error) {
+		return ctx.parseQuotedText(func(qch rune) (string, error) {
+			buf := bytes.Buffer{}
+			for c := cur.Peek(); c != qch && allowed(c); c = cur.Peek() {
+				buf.WriteRune(c)
+				cur.Advance(1)
+			}
+			return buf.String(), nil
+		})
+	}
+
+	if cur.ConsumeString("PUBLIC") {
+		if !ctx.skipBlanks() {
+			return "", "", ErrSpaceRequired
+		}
+		if publicID, err = literal(isPubidChar); err != nil {
+			return "", "", err
+		}
+		blanks := ctx.skipBlanks()
+		if c := cur.Peek(); notation && c != '"' && c != '\'' {
+			return publicID, "", nil
+		}
+		if !blanks {
+			return "", "", ErrSpaceRequired
+		}
+	} else if cur.ConsumeString("SYSTEM") {
+		if !ctx.skipBlanks() {
+			return "", "", ErrSpaceRequired
+		}
+	} else {
+		return "", "", ErrValueRequired
+	}
+
+	if systemID, err = literal(isChar); err != nil {
+		return "", "", err
+	}
+	return publicID, systemID, nil
+}
+
+// [13] PubidChar ::= #x20 | #xD | #xA | [a-zA-Z0-9] | [-'()+,./:=?;!*#@$_%]
+func isPubidChar(r rune) bool {
+	return r == 0x20 || r == 0xd || r == 0xa ||
+		(r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') ||
+		(r > 0x20 && r < 0x80 && strings.IndexByte("-'()+,./:=?;!*#@$_%", byte(r)) > -1)
 }
 
 func (ctx *parserCtx) parseEpilogue() error {
-- 
2.43.0


From 0feeec25d1497ee23c75128f10739dc36f5afb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 31/78] fix: dump external identifiers of DTDs and entities

---
 dump.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dump.go b/dump.go
index 5a94b1e..b4b0fac 100644
--- a/dump.go
+++ b/dump.go
@@ -256,16 +256,18 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, " ")
 
 	if dtd.externalID != "" {
-		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		io.WriteString(out, "PUBLIC ")
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
-		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		io.WriteString(out, "SYSTEM ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
+	if dtd.FirstChild() == nil {
 		/* (dtd.notations == NULL) && */
 		io.WriteString(out, ">")
 		return nil
@@ -450,7 +452,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -493,6 +495,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
-- 
2.43.0


From 2dcb97f9ec8ab3a8723227f76ce7644f4a59f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 32/78] fix: dump processing instructions

---
 document.go |  7 +++++--
 dump.go     | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index c1c353e..b8e7cab 100644
--- a/document.go
+++ b/document.go
@@ -168,10 +168,13 @@ func (d *Document) CreateNamespace(prefix, uri string) (*Namespace, error) {
 }
 
 func (d *Document) CreatePI(target, data string) (*ProcessingInstruction, error) {
-	return &ProcessingInstruction{
+	pi := &ProcessingInstruction{
 		target: target,
 		data:   data,
-	}, nil
+	}
+	pi.etype = ProcessingInstructionNode
+	pi.doc = d
+	return pi, nil
 }
 
 func (d *Document) CreateDTD() (*DTD, error) {
diff --git a/dump.go b/dump.go
index b4b0fac..e220873 100644
--- a/dump.go
+++ b/dump.go
@@ -279,6 +279,10 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		if err := d.DumpNode(out, e); err != nil {
 			return err
 		}
+		switch e.Type() {
+		case CommentNode, ProcessingInstructionNode:
+			io.WriteString(out, "\n")
+		}
 	}
 
 	io.WriteString(out, "]>")
@@ -633,6 +637,16 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
+	case ProcessingInstructionNode:
+		pi := n.(*ProcessingInstruction)
+		io.WriteString(out, "<?")
+		io.WriteString(out, pi.target)
+		if pi.data != "" {
+			io.WriteString(out, " ")
+			io.WriteString(out, pi.data)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case EntityRefNode:
 		io.WriteString(out, "&")
 		io.WriteString(out, n.Name())
-- 
2.43.0


From 11b2bef5e4815e91bd5cac7bfb94aeb15c1808fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 33/78] fix: comments and processing instructions in the DTD
 belong to the DTD only

---
 tree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index b8eae4d..e31f033 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
@@ -203,6 +203,13 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
+	switch ctx.inSubset {
+	case 1:
+		return doc.IntSubset().AddChild(e)
+	case 2:
+		return doc.ExtSubset().AddChild(e)
+	}
+
 	n := ctx.elem
 	if n == nil {
 		doc.AddChild(e)
-- 
2.43.0


From 1b100b00ecd41f2275922a8a5c41ccad88181b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 34/78] fix: content models: groups, occurrence indicators,
 white space and missing parts

---
 parserctx.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 5320dcf..b029648 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2593,6 +2593,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 			return UndefinedElementType, ctx.error(err)
 		}
 	} else {
+		return UndefinedElementType, ctx.error(ErrInvalidElementDecl)
 		/*
 		   // [ WFC: PEs in Internal Subset ] error handling.
 		      if ((RAW == '%') && (ctxt->external == 0) &&
@@ -2719,6 +2720,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2772,7 +2774,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2808,6 +2810,8 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		                                    NULL, NULL);
 		   					}
 		*/
+	} else {
+		return nil, ctx.error(ErrElementContentNotFinished)
 	}
 	return retelem, nil
 }
@@ -2859,7 +2863,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
@@ -2989,6 +2994,9 @@ LOOP:
 		curelem.c2 = last
 		last.parent = curelem
 	}
+	if cur.Peek() != ')' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	}
 	cur.Advance(1)
 	/*
 	   	    if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
@@ -3003,7 +3011,7 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
@@ -3029,8 +3037,9 @@ LOOP:
 				curelem = curelem.c2
 			}
 		}
+		cur.Advance(1)
 	case '+':
-		if retelem.coccur == ElementContentOpt {
+		if retelem.coccur == ElementContentOpt || retelem.coccur == ElementContentMult {
 			retelem.coccur = ElementContentMult
 		} else {
 			retelem.coccur = ElementContentPlus
@@ -3057,6 +3066,7 @@ LOOP:
 		if found {
 			retelem.coccur = ElementContentMult
 		}
+		cur.Advance(1)
 	}
 
 	return retelem, nil
-- 
2.43.0


From 2b89191bc503e8de06ca7e10e9e10c4ce13cd9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 35/78] fix: look up element declarations by the key they are
 stored under

---
 dtd.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtd.go b/dtd.go
index cd1b625..6020310 100644
--- a/dtd.go
+++ b/dtd.go
@@ -172,8 +172,12 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	var prefix string
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix = name[:i]
+		name = name[i+1:]
+	}
+	return dtd.LookupElement(name, prefix)
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
-- 
2.43.0


From a216a120a5872c3734d1a24a8571cdf18c412cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 36/78] fix: name tokens in enumerations, empty attribute lists
 and default values that are not allowed

---
 parserctx.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index b029648..123a292 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1923,12 +1923,17 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
+	for c := cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
 		if !isNameChar(c) {
 			break
 		}
 		buf.WriteRune(c)
+		i++
+	}
+	if buf.Len() == 0 {
+		return "", ctx.error(ErrNmtokenRequired)
 	}
+	cur.Advance(i - 1)
 
 	return buf.String(), nil
 }
@@ -3763,10 +3768,7 @@ func (ctx *parserCtx) parseDefaultDecl() (deftype AttributeDefault, defvalue str
 	}
 
 	// XXX does AttValue always have a quote around it?
-	defvalue, err = ctx.parseQuotedText(func(qch rune) (string, error) {
-		s, _, err := ctx.parseAttributeValueInternal(qch, false)
-		return s, err
-	})
+	defvalue, _, err = ctx.parseAttributeValue(false)
 	if err != nil {
 		deftype = AttrDefaultInvalid
 		err = ctx.error(err)
@@ -4064,7 +4066,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.ConsumeString("<!ATTLIST") {
-		return nil
+		return ctx.error(ErrInvalidDTD)
 	}
 
 	if !isBlankCh(cur.Peek()) {
@@ -4149,10 +4151,13 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			                                NULL, NULL);
 			           }
 			*/
-			cur.Advance(1)
 			break
 		}
 	}
+	if cur.Peek() != '>' {
+		return ctx.error(ErrGtRequired)
+	}
+	cur.Advance(1)
 	return nil
 }
 
-- 
2.43.0


From ded4145f7e24dd0d9337647123096f5412d4f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 37/78] fix: option flags are distinct bits

---
 interface.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/interface.go b/interface.go
index 8c9fb1f..e599965 100644
--- a/interface.go
+++ b/interface.go
@@ -12,7 +12,7 @@ const (
 type LoadSubsetOption int
 
 const (
-	DetectIDs LoadSubsetOption = 1<<iota+1
+	DetectIDs LoadSubsetOption = 1 << (iota + 1)
 	CompleteAttrs
 	SkipIDs
 )
@@ -31,19 +31,19 @@ const (
 	ParsePedantic                          /* pedantic error reporting */
 	ParseNoBlanks                          /* remove blank nodes */
 	// gap here: ParseSAX1 is not implemented
-	ParseXInclude   ParseOption = 1<<iota + 10 /* Implement XInclude substitition  */
-	ParseNoNet                                 /* Forbid network access */
-	ParseNoDict                                /* Do not reuse the context dictionnary */
-	ParseNsClean                               /* remove redundant namespaces declarations */
-	ParseNoCDATA                               /* merge CDATA as text nodes */
-	ParseNoXIncNode                            /* do not generate XINCLUDE START/END nodes */
-	ParseCompact                               /* compact small text nodes; no modification of the tree allowed afterwards (will possibly crash if you try to modify the tree) */
+	ParseXInclude   ParseOption = 1 << (iota + 1) /* Implement XInclude substitition  */
+	ParseNoNet                                    /* Forbid network access */
+	ParseNoDict                                   /* Do not reuse the context dictionnary */
+	ParseNsClean                                  /* remove redundant namespaces declarations */
+	ParseNoCDATA                                  /* merge CDATA as text nodes */
+	ParseNoXIncNode                               /* do not generate XINCLUDE START/END nodes */
+	ParseCompact                                  /* compact small text nodes; no modification of the tree allowed afterwards (will possibly crash if you try to modify the tree) */
 	// ParseOld10 is not implemented
-	ParseNoBaseFix /* do not fixup XINCLUDE xml:base uris */
-	ParseHuge      /* relax any hardcoded limit from the parser */
+	ParseNoBaseFix ParseOption = 1 << (iota + 2) /* do not fixup XINCLUDE xml:base uris */
+	ParseHuge                                    /* relax any hardcoded limit from the parser */
 	// ParseOldSAX is not implemented
-	ParseIgnoreEnc ParseOption = 1<<iota + 21 /* ignore internal document encoding hint */
-	ParseBigLines  ParseOption = 1 << 22      /* Store big lines numbers in text PSVI field */
+	ParseIgnoreEnc ParseOption = 1 << (iota + 3) /* ignore internal document encoding hint */
+	ParseBigLines                                /* Store big lines numbers in text PSVI field */
 )
 
 type AttributeType int
-- 
2.43.0


From 9bf7ed2709baab20504da6a544e6ad0369cb8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 38/78] fix: hand the arguments of Error to the handler one by
 one

---
 sax/sax2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sax/sax2.go b/sax/sax2.go
index 54f2d7b..3f3a61e 100644
--- a/sax/sax2.go
+++ b/sax/sax2.go
@@ -132,7 +132,7 @@ func (s SAX2) EntityDecl(ctx Context, name string, typ int, publicID string, sys
 
 func (s SAX2) Error(ctx Context, message string, args ...interface{}) error {
 	if h := s.ErrorHandler; h != nil {
-		return h(ctx, message, args)
+		return h(ctx, message, args...)
 	}
 	return ErrHandlerUnspecified;
 }
-- 
2.43.0


From 2ebfd64f2c667b012bbb6757a3817a612c75886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 39/78] fix: comments do not share the bytes they are created
 from

---
 comment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comment.go b/comment.go
index eb00975..27a3b1b 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,7 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = append([]byte(nil), b...) // as newText, do not share the bytes
 	return &t
 }
 
-- 
2.43.0


From bb261e0d3dcf5e41cd6ac0d7b9f7dbe539da394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 40/78] fix: text added as sibling goes after the last sibling

---
 text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text.go b/text.go
index 6cfdf15..579962a 100644
--- a/text.go
+++ b/text.go
@@ -39,7 +39,7 @@ func (n *Text) AddSibling(cur Node) error {
 		g := pdebug.IPrintf("START Text.AddSibling '%s'", cur.Content())
 		defer g.IRelease("END Text.AddSibling")
 	}
-	if cur.Type() == TextNode {
+	if cur.Type() == TextNode && n.NextSibling() == nil {
 		return n.AddContent(cur.Content())
 	}
 	return addSibling(n, cur)
-- 
2.43.0


From d61b8c0f4e5557f87bc9e4e150e1841392220f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 41/78] fix: attributes are of type AttributeNode

---
 attr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attr.go b/attr.go
index 57de47b..93624ba 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
-- 
2.43.0


From 9d3ea6f07a10cf567ba90519f289f0077269df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 42/78] fix: a replaced node keeps no links to the tree it was
 in

---
 node.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node.go b/node.go
index 81745e0..19a2232 100644
--- a/node.go
+++ b/node.go
@@ -169,6 +169,10 @@ func (n *docnode) SetParent(cur Node) {
 }
 
 func replaceNode(n Node, cur Node) {
+	if n == cur {
+		return
+	}
+
 	if next := n.NextSibling(); next != nil {
 		cur.SetNextSibling(next) // cur.next = n.next
 		next.SetPrevSibling(cur) // n.next.prev = cur
@@ -188,6 +192,11 @@ func replaceNode(n Node, cur Node) {
 		}
 		cur.SetParent(parent)
 	}
+
+	// n is not part of the tree anymore
+	n.SetNextSibling(nil)
+	n.SetPrevSibling(nil)
+	n.SetParent(nil)
 }
 
 func (n node) Namespace() *Namespace {
-- 
2.43.0


From 788c498dad3c4751cccf309a3ea590af0d698e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 43/78] fix: dump text whose content is 'textnoenc'

---
 dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index e220873..71d0b3f 100644
--- a/dump.go
+++ b/dump.go
@@ -654,7 +654,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		return nil
 	case TextNode:
 		c := n.Content()
-		if string(c) == XMLTextNoEnc {
+		if n.Name() == XMLTextNoEnc {
 			panic("unimplemented")
 		} else {
 			escapeText(out, c, false)
-- 
2.43.0


From 7219f8467a1850a96b774c7e913d7545e4bbb2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 44/78] fix: keep the double quotes of strings with both kinds
 of quotes

---
 dump.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dump.go b/dump.go
index 71d0b3f..57baa3d 100644
--- a/dump.go
+++ b/dump.go
@@ -40,6 +40,7 @@ func dumpQuotedString(out io.Writer, s string) error {
 	out.Write(qch_dquote)
 	for len(s) > 0 && dqi > -1 {
 		io.WriteString(out, s[:dqi])
+		io.WriteString(out, "&quot;")
 		s = s[dqi+1:]
 		dqi = strings.IndexByte(s, qch_dquote[0])
 	}
-- 
2.43.0


From bb0a1080eefd71b9f3690106577d0a78291ca2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 45/78] fix: dump ENTITIES attributes and default values with
 special characters

---
 dump.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 57baa3d..7f41084 100644
--- a/dump.go
+++ b/dump.go
@@ -197,6 +197,11 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 
 type Dumper struct{}
 
+// attrLiteralEscaper escapes what is not allowed, or not preserved, in quoted
+// attribute values. References in the values are left as they are
+var attrLiteralEscaper = strings.NewReplacer(
+	"<", "&lt;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;")
+
 func (d *Dumper) writeString(out io.Writer, content string) error {
 	// punt all the magic for now
 	_, err := io.WriteString(out, content)
@@ -548,6 +553,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
@@ -581,7 +588,7 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 
 	if n.defvalue != "" || n.def == AttrDefaultNone || n.def == AttrDefaultFixed {
 		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+		dumpQuotedString(out, attrLiteralEscaper.Replace(n.defvalue))
 	}
 	io.WriteString(out, ">\n")
 	return nil
-- 
2.43.0


From a28205a0838f53e1d28853fbfb91cfd33e07ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 46/78] fix: dump xmlns="" and namespace names with special
 characters

---
 dump.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 7f41084..531df17 100644
--- a/dump.go
+++ b/dump.go
@@ -604,7 +604,7 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
+	if ns.href == "" && ns.prefix != "" {
 		// no op
 		return nil
 	}
@@ -618,7 +618,7 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, ns.prefix)
 	}
 	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	dumpQuotedString(out, attrLiteralEscaper.Replace(ns.href))
 	return nil
 }
 
-- 
2.43.0


From 87b807dfa97fc623a438ed18f83ef0d01ba8ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 47/78] fix: report the errors of the writer dumped to

---
 dump.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 531df17..1f71701 100644
--- a/dump.go
+++ b/dump.go
@@ -197,6 +197,25 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 
 type Dumper struct{}
 
+// dumpWriter remembers the first error of the writer dumped to. Nothing is
+// written after that
+type dumpWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *dumpWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.out.Write(b)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	w.err = err
+	return n, err
+}
+
 // attrLiteralEscaper escapes what is not allowed, or not preserved, in quoted
 // attribute values. References in the values are left as they are
 var attrLiteralEscaper = strings.NewReplacer(
@@ -214,6 +233,9 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
+	w := &dumpWriter{out: out}
+	out = w
+
 	if err := d.DumpNode(out, doc); err != nil {
 		return err
 	}
@@ -224,7 +246,7 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		}
 		io.WriteString(out, "\n")
 	}
-	return nil
+	return w.err
 }
 
 func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
@@ -623,6 +645,17 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 }
 
 func (d *Dumper) DumpNode(out io.Writer, n Node) error {
+	w, ok := out.(*dumpWriter)
+	if !ok {
+		w = &dumpWriter{out: out}
+	}
+	if err := d.dumpNode(w, n); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpNode(out io.Writer, n Node) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpNode '%s'", n.Name())
 		defer g.IRelease("END Dumper.DumpNode")
@@ -727,7 +760,9 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 				if achld.Type() == TextNode {
 					escapeAttrValue(out, achld.Content())
 				} else {
-					d.DumpNode(out, achld)
+					if err := d.DumpNode(out, achld); err != nil {
+						return err
+					}
 				}
 			}
 			io.WriteString(out, `"`)
-- 
2.43.0


From 26396b4e06fc9aa3c3ced5283deffd5946b0eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 48/78] fix: helium-lint: report files that can not be opened

---
 cmd/helium-lint/helium-lint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..e48e532 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -46,7 +46,7 @@ func _main() int {
 	}
 
 	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	errCh := make(chan error, 1) // read once inputCh is closed
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
-- 
2.43.0


From 5bdee9086249eee2fe063acec9fa6dc27aa5a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 49/78] fix: helium-lint: report errors writing the output

---
 cmd/helium-lint/helium-lint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index e48e532..5dedec1 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -84,7 +84,10 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
-- 
2.43.0


From 0af7fecfe25849baa93025ec4ca1d6ff9f0aa923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 50/78] fix: dump documents in the encoding they declare

---
 dump.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 1f71701..280ba6f 100644
--- a/dump.go
+++ b/dump.go
@@ -8,7 +8,10 @@ import (
 	"strings"
 	"unicode/utf8"
 
+	"github.com/lestrrat-go/helium/encoding"
 	"github.com/lestrrat-go/pdebug"
+	xenc "golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 var (
@@ -227,7 +230,7 @@ func (d *Dumper) writeString(out io.Writer, content string) error {
 	return err
 }
 
-func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
+func (d *Dumper) DumpDoc(out io.Writer, doc *Document) (err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpDoc")
 		defer g.IRelease("END Dumper.DumpDoc")
@@ -235,6 +238,17 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 
 	w := &dumpWriter{out: out}
 	out = w
+	if enc := encoding.Load(doc.encoding); enc != nil && enc != encoding.Load(encUTF8) {
+		// write the document in the encoding that it declares
+		tw := transform.NewWriter(w, xenc.HTMLEscapeUnsupported(enc.NewEncoder()))
+		defer func() {
+			if cerr := tw.Close(); err == nil {
+				err = cerr
+			}
+		}()
+		w = &dumpWriter{out: tw}
+		out = w
+	}
 
 	if err := d.DumpNode(out, doc); err != nil {
 		return err
-- 
2.43.0


From 0b8a72f9a11e719d80ad12aef01d731ef11b3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 51/78] fix: ISO-8859-1 is not windows-1252

---
 encoding/encoding.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9bce45e..dbc3994 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -72,7 +72,9 @@ func Load(name string) enc.Encoding {
 		return charmap.Windows1250
 	case "windows1251":
 		return charmap.Windows1251
-	case "iso-8859-1", "windows1252":
+	case "iso-8859-1":
+		return charmap.ISO8859_1
+	case "windows1252":
 		return charmap.Windows1252
 	case "windows1253":
 		return charmap.Windows1253
-- 
2.43.0


From 6442958461ff1dc507802e96f343d17b02847a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 52/78] fix: name of KOI8-U

---
 encoding/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/encoding.go b/encoding/encoding.go
index dbc3994..a3fe32a 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -62,7 +62,7 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_8
 	case "koi8r":
 		return charmap.KOI8R
-	case "koir8u":
+	case "koi8u", "koir8u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
-- 
2.43.0


From ff48590ed8c5f6cc8904c1dc5ca02ef1739ddf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 53/78] fix: attributes with the same local name and namespace
 are duplicates

---
 parserctx.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 123a292..1f8527c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -926,6 +926,16 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 	}
 
+	// [ NSC: Attributes Unique ]
+	for i, attr := range attrs {
+		for _, other := range attrs[:i] {
+			if attr.Prefix() != "" && other.Prefix() != "" && attr.LocalName() == other.LocalName() &&
+				ctx.lookupNamespace(attr.Prefix()) == ctx.lookupNamespace(other.Prefix()) {
+				return ctx.error(ErrDuplicateAttribute)
+			}
+		}
+	}
+
 	if s := ctx.sax; s != nil {
 		var nslist []sax.Namespace
 		if nbNs > 0 {
-- 
2.43.0


From 9c421ea4c1001f6f64e0e7dc93d402b44a61c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 54/78] fix: a second declaration of an element type does not
 make the document malformed

---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index e31f033..2944579 100644
--- a/tree.go
+++ b/tree.go
@@ -381,6 +381,12 @@ func (t *TreeBuilder) ElementDecl(ctxif sax.Context, name string, typ int, conte
 		return errors.New("sax.ElementDecl called while not in subset")
 	}
 
+	// [ VC: Unique Element Type Declaration ]
+	// does not concern a processor that does not validate
+	if decl, ok := dtd.GetElementDesc(name); ok && decl.decltype != UndefinedElementType {
+		return nil
+	}
+
 	_, err := dtd.AddElementDecl(name, ElementTypeVal(typ), content.(*ElementContent))
 	if err != nil {
 		return err
-- 
2.43.0


From 64f01d1f310b0c8563d108cfafb104517db1af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 55/78] fix: text and attributes are owned by the document they
 are created in

---
 document.go | 1 +
 node.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/document.go b/document.go
index b8e7cab..38697d3 100644
--- a/document.go
+++ b/document.go
@@ -141,6 +141,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 	}
 	var n Node
 	attr = newAttribute(name, ns)
+	attr.doc = d
 	if value != "" {
 		n, err = d.stringToNodeList(value)
 		if err != nil {
diff --git a/node.go b/node.go
index 19a2232..399536f 100644
--- a/node.go
+++ b/node.go
@@ -57,6 +57,7 @@ func (n docnode) Content() []byte {
 
 func addContent(n Node, b []byte) error {
 	t := newText(b)
+	t.doc = n.OwnerDocument()
 	return n.AddChild(t)
 }
 
-- 
2.43.0


From 4d4a2df92573a4cfae4ef76260392ff41bb1ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 56/78] fix: a NUL after a name is not part of the name

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 1f8527c..b46691e 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1804,7 +1804,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if c == ' ' || c == '>' || c == '/' { /* accelerator */
 			i--
 			break
@@ -1988,7 +1988,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// at this point we have at least 1 character name.
 	// see how much more we got here
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
 			i--
 			break
-- 
2.43.0


From 8409e64f3092be441426691977950a4de4a725d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 57/78] fix: a byte order mark may precede a document of 4
 bytes

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index b46691e..6facbc7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -444,7 +444,8 @@ func (ctx *parserCtx) parseDocument() error {
 	}
 
 	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) && isBlankCh(bcur.PeekN(len(xmlDeclHint)+1)) {
+	// (a ByteCursor loses what is left of the input if asked for more than that)
+	if bcur.HasPrefix(xmlDeclHint[:2]) && bcur.HasPrefix(xmlDeclHint) && isBlankCh(bcur.PeekN(len(xmlDeclHint)+1)) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
-- 
2.43.0


From 66fea36106beeaa6f6591d1eedf93e8180029c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 58/78] fix: there is no internal subset after the end of the
 document type declaration

---
 parser_interface.go | 1 +
 parserctx.go        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_interface.go b/parser_interface.go
index 1dc8cb5..f516998 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -126,6 +126,7 @@ type parserCtx struct {
 	hasExternalSubset bool
 	inSubset          int
 	intSubName        string
+	doctypeDone       bool // the document type declaration has ended (there is no internal subset)
 	external          bool // true if parsing external DTDs
 	extSubSystem      string
 	extSubURI         string
diff --git a/parserctx.go b/parserctx.go
index 6facbc7..7f00c89 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -482,7 +482,7 @@ func (ctx *parserCtx) parseDocument() error {
 			return ctx.error(err)
 		}
 
-		if cur.HasPrefixString("[") {
+		if !ctx.doctypeDone {
 			ctx.instate = psDTD
 			if err := ctx.parseInternalSubset(); err != nil {
 				return ctx.error(err)
@@ -2270,6 +2270,7 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return ctx.error(ErrDocTypeNotFinished)
 	}
 	cur.Advance(1)
+	ctx.doctypeDone = true
 
 	return nil
 }
-- 
2.43.0


From 67f930da9ea9d35fc5daaaf114bed35e66a82265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 59/78] fix: bytes after the document that are not valid UTF-8
 are not ignored

---
 parser_interface.go |  1 +
 parserctx.go        | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index f516998..dc02ad9 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -125,6 +125,7 @@ type parserCtx struct {
 	standalone        DocumentStandaloneType
 	hasExternalSubset bool
 	inSubset          int
+	eol               *eolReader
 	intSubName        string
 	doctypeDone       bool // the document type declaration has ended (there is no internal subset)
 	external          bool // true if parsing external DTDs
diff --git a/parserctx.go b/parserctx.go
index 7f00c89..0ad8bd1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -370,7 +370,8 @@ func (ctx *parserCtx) switchEncoding() error {
 
 	b := enc.NewDecoder().Reader(cur)
 	if ctx.depth == 0 { // not in the replacement text of an entity
-		b = &eolReader{in: b}
+		ctx.eol = &eolReader{in: b}
+		b = ctx.eol
 	}
 	ctx.popInput()
 	ctx.pushInput(strcursor.NewRuneCursor(b))
@@ -383,6 +384,23 @@ func (ctx *parserCtx) switchEncoding() error {
 type eolReader struct {
 	in io.Reader
 	cr bool // the last byte was '\r'
+
+	// a RuneCursor stops at what is not valid UTF-8, as if that was the end
+	invalid bool   // there is such a thing
+	partial []byte // start of a character
+}
+
+// validate looks for what is not valid UTF-8 in what has been read
+func (r *eolReader) validate(b []byte) {
+	b = append(r.partial, b...)
+	for len(b) > 0 && utf8.FullRune(b) {
+		c, w := utf8.DecodeRune(b)
+		if c == utf8.RuneError {
+			r.invalid = true
+		}
+		b = b[w:]
+	}
+	r.partial = append([]byte(nil), b...)
 }
 
 func (r *eolReader) Read(p []byte) (int, error) {
@@ -401,6 +419,7 @@ func (r *eolReader) Read(p []byte) (int, error) {
 			p[out] = c
 			out++
 		}
+		r.validate(p[:out])
 		if out > 0 || n == 0 || err != nil {
 			return out, err
 		}
@@ -524,7 +543,7 @@ func (ctx *parserCtx) parseDocument() error {
 		if err := ctx.parseMisc(); err != nil {
 			return ctx.error(err)
 		}
-		if !cur.Done() {
+		if !cur.Done() || ctx.eol.invalid || len(ctx.eol.partial) > 0 {
 			return ctx.error(ErrDocumentEnd)
 		}
 		ctx.instate = psEOF
-- 
2.43.0


From 371d9b2295a08b5438d2e76991c1be8da7bb8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 60/78] fix: white space is required between the name of an
 element and an attribute

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 0ad8bd1..b74187f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -788,6 +788,10 @@ func (ctx *parserCtx) parseStartTag() error {
 		return ctx.error(err)
 	}
 
+	if c := cur.Peek(); c != '>' && !isBlankCh(c) && !cur.HasPrefixString("/>") {
+		return ctx.error(ErrSpaceRequired)
+	}
+
 	nbNs := 0
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
-- 
2.43.0


From e1924713b6b282f7770f81954e61eab18b7710b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 61/78] fix: default values may refer to entities without a
 document tree

---
 document.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document.go b/document.go
index 38697d3..66af699 100644
--- a/document.go
+++ b/document.go
@@ -259,6 +259,9 @@ func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
 			}
 		}()
 	}
+	if d == nil { // the handler did not create a document
+		return
+	}
 	if ints := d.intSubset; ints != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Looking into internal subset...")
-- 
2.43.0


From aa6e746dc9d8b531d67f1d08d945a0c940a36001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 62/78] fix: attribute value of a tokenized type that is only
 blanks does not crash

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index b74187f..ea4eb36 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3872,7 +3872,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
-- 
2.43.0


From 38ef88892b5fa2d68606e74f705d4be18cc60144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 63/78] fix: XML declaration may contain any amount of white
 space

---
 parserctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ea4eb36..5164b4d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1335,12 +1335,12 @@ func (ctx *parserCtx) skipBlankBytes(cur *strcursor.ByteCursor) bool {
 			g.IRelease("END skipBlankBytes (skipped %d)", i)
 		}()
 	}
-	for c := cur.PeekN(i + 1); c != 0x0 && isBlankCh(rune(c)); c = cur.PeekN(i + 1) {
+	// the cursor can only look ahead as far as its buffer reaches
+	for c := cur.Peek(); c != 0x0 && isBlankCh(rune(c)); c = cur.Peek() {
+		cur.Advance(1)
 		i++
 	}
 	if i > 0 {
-		cur.Advance(i)
-
 		if cur.Peek() == '%' {
 			pdebug.Printf("Found possible parameter entity reference")
 			ctx.handlePEReference()
-- 
2.43.0


From 2ca8a72e5077529b175e382dc8b7321dba702754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 64/78] fix: insert the internal subset before the document
 element

---
 document.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 66af699..423c5f4 100644
--- a/document.go
+++ b/document.go
@@ -215,9 +215,25 @@ func (d *Document) CreateInternalSubset(name, externalID, systemID string) (*DTD
 	cur.parent = d
 	cur.doc = d
 
-	// there's an elaborate code in libxml2 to insert the node in
-	// the correct location...
-	d.AddChild(cur)
+	// as in libxml2, the node goes before the first element: it would not
+	// be a well-formed document otherwise
+	next := d.firstChild
+	for next != nil && next.Type() != ElementNode {
+		next = next.NextSibling()
+	}
+	if next == nil {
+		d.AddChild(cur)
+		return cur, nil
+	}
+
+	if prev := next.PrevSibling(); prev != nil {
+		prev.SetNextSibling(cur)
+		cur.SetPrevSibling(prev)
+	} else {
+		d.setFirstChild(cur)
+	}
+	cur.SetNextSibling(next)
+	next.SetPrevSibling(cur)
 
 	return cur, nil
 }
-- 
2.43.0


From 3408211ababd09cfff787356acd966928511e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 65/78] fix: characters that straddle short reads do not crash
 the parser

---
 parserctx.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 5164b4d..6f873f1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -374,7 +374,7 @@ func (ctx *parserCtx) switchEncoding() error {
 		b = ctx.eol
 	}
 	ctx.popInput()
-	ctx.pushInput(strcursor.NewRuneCursor(b))
+	ctx.pushInput(strcursor.NewRuneCursor(&runeReader{in: b}))
 
 	return nil
 }
@@ -426,6 +426,38 @@ func (r *eolReader) Read(p []byte) (int, error) {
 	}
 }
 
+// runeReader reads whole characters only: a RuneCursor that gets part of one
+// takes what its buffer held before for the rest
+type runeReader struct {
+	in   io.Reader
+	rest []byte // start of a character
+}
+
+func (r *runeReader) Read(p []byte) (int, error) {
+	for {
+		n := copy(p, r.rest)
+		r.rest = append([]byte(nil), r.rest[n:]...)
+		if n == len(p) {
+			return n, nil
+		}
+
+		m, err := r.in.Read(p[n:])
+		n += m
+		for i := n - 1; i >= 0 && i > n-utf8.UTFMax; i-- {
+			if utf8.RuneStart(p[i]) {
+				if !utf8.FullRune(p[i:n]) {
+					r.rest = append(r.rest, p[i:n]...)
+					n = i
+				}
+				break
+			}
+		}
+		if n > 0 || m == 0 || err != nil {
+			return n, err
+		}
+	}
+}
+
 var xmlDeclHint = []byte{'<', '?', 'x', 'm', 'l'}
 
 func (ctx *parserCtx) parseDocument() error {
-- 
2.43.0


From 53340b7dfbcf2432187eb230312a368e0af99cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 66/78] fix: line ends in the XML declaration count in the line
 numbers of errors

---
 parser_interface.go | 1 +
 parserctx.go        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_interface.go b/parser_interface.go
index dc02ad9..3ee3a45 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -126,6 +126,7 @@ type parserCtx struct {
 	hasExternalSubset bool
 	inSubset          int
 	eol               *eolReader
+	linesBefore       int // line ends before what the cursor was made for
 	intSubName        string
 	doctypeDone       bool // the document type declaration has ended (there is no internal subset)
 	external          bool // true if parsing external DTDs
diff --git a/parserctx.go b/parserctx.go
index 6f873f1..af3f8f9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -225,7 +225,7 @@ func (ctx *parserCtx) error(err error) error {
 	e := ErrParseError{Err: err}
 	if cur := ctx.getCursor(); cur != nil {
 		e.Column = cur.Column()
-		e.LineNumber = cur.LineNumber()
+		e.LineNumber = ctx.linesBefore + cur.LineNumber()
 		e.Line = cur.Line()
 	}
 	return e
@@ -375,6 +375,7 @@ func (ctx *parserCtx) switchEncoding() error {
 	}
 	ctx.popInput()
 	ctx.pushInput(strcursor.NewRuneCursor(&runeReader{in: b}))
+	ctx.linesBefore += cur.LineNumber() - 1 // of the XML declaration
 
 	return nil
 }
-- 
2.43.0


From 33559ba7e36b869ef07e7afe9401a49799138051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 67/78] fix: a byte order mark of UTF-16 before a document in
 UTF-8 is an error

---
 parserctx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index af3f8f9..b78b231 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -307,12 +307,12 @@ func (ctx *parserCtx) detectEncoding() (encoding string, err error) {
 	 * attempt an "auto-recognition" of UTF-16LE and
 	 * UTF-16BE encodings.
 	 */
-	if cur.Consume(patUTF16LE4B) {
+	if cur.HasPrefix(patUTF16LE4B) {
 		encoding = encUTF16LE
 		return
 	}
 
-	if cur.Consume(patUTF16BE4B) {
+	if cur.HasPrefix(patUTF16BE4B) {
 		encoding = encUTF16BE
 		return
 	}
@@ -322,12 +322,12 @@ func (ctx *parserCtx) detectEncoding() (encoding string, err error) {
 		return
 	}
 
-	if cur.Consume(patUTF16BE2B) {
+	if cur.HasPrefix(patUTF16BE2B) {
 		encoding = encUTF16BE
 		return
 	}
 
-	if cur.Consume(patUTF16LE2B) {
+	if cur.HasPrefix(patUTF16LE2B) {
 		encoding = encUTF16LE
 		return
 	}
-- 
2.43.0


From d16a31222fd6b668a2b93af39bc9f35cfa89a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 68/78] fix: a byte order mark of UCS-4 before a document in
 UTF-8 is an error

---
 parserctx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index b78b231..12a02c8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -270,22 +270,22 @@ func (ctx *parserCtx) detectEncoding() (encoding string, err error) {
 		return encNone, ErrByteCursorRequired
 	}
 
-	if cur.Consume(patUCS4BE) {
+	if cur.HasPrefix(patUCS4BE) {
 		encoding = encUCS4BE
 		return
 	}
 
-	if cur.Consume(patUCS4LE) {
+	if cur.HasPrefix(patUCS4LE) {
 		encoding = encUCS4LE
 		return
 	}
 
-	if cur.Consume(patUCS42143) {
+	if cur.HasPrefix(patUCS42143) {
 		encoding = encUCS42143
 		return
 	}
 
-	if cur.Consume(patUCS43412) {
+	if cur.HasPrefix(patUCS43412) {
 		encoding = encUCS43412
 		return
 	}
-- 
2.43.0


From 6d1d547efc88c5027bacf087a3345f77059c4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 69/78] fix: what is written for a content model such as
 (a*|b*|c)+ is normalised

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 12a02c8..47dcbcc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3124,6 +3124,7 @@ LOOP:
 		 * (a | b?)+ == (a | b)*
 		 */
 		found := false
+		curelem = retelem
 		for curelem != nil && curelem.ctype == ElementContentOr {
 			if curelem.c1 != nil && (curelem.c1.coccur == ElementContentOpt || curelem.c1.coccur == ElementContentMult) {
 				curelem.c1.coccur = ElementContentOnce
-- 
2.43.0


From 64ae8a2f96d76d2fc59f615620df32fe634915e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 70/78] fix: keep carriage returns that come from character
 references in entity values

The line ends of the document are normalised where it is read; what is left
are the characters that the author asked for.
---
 parserctx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 47dcbcc..6e95c39 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -721,8 +721,6 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	cur.Advance(i)
 	str := buf.String()
 
-	// XXX This is not right, but it's for now the best place to do this
-	str = strings.Replace(str, "\r\n", "\n", -1)
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
@@ -2250,7 +2248,6 @@ func (ctx *parserCtx) parseComment() error {
 	cur.Advance(i + 1)
 
 	if sh := ctx.sax; sh != nil {
-		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
 		switch err := sh.Comment(ctx, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
-- 
2.43.0


From 5ec88306ab555067feda1f9afc1da598252d8d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 71/78] fix: attributes of elements that are read have their
 namespaces in the tree

Attribute.Prefix and Attribute.URI were always empty, and LocalName gave the
whole name.
---
 element.go | 7 ++++++-
 tree.go    | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/element.go b/element.go
index a0af9ce..1c39cb6 100644
--- a/element.go
+++ b/element.go
@@ -96,10 +96,15 @@ func (n *Element) SetAttribute(name, value string) error {
 		defer g.IRelease("END Element.SetAttribute")
 	}
 
-	attr, err := n.doc.CreateAttribute(name, value, nil)
+	return n.setAttributeNS(name, value, nil)
+}
+
+func (n *Element) setAttributeNS(localname, value string, ns *Namespace) error {
+	attr, err := n.doc.CreateAttribute(localname, value, ns)
 	if err != nil {
 		return err
 	}
+	name := attr.Name()
 
 	p := n.properties
 	if p == nil {
diff --git a/tree.go b/tree.go
index 2944579..effec8b 100644
--- a/tree.go
+++ b/tree.go
@@ -110,7 +110,13 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 			}
 			continue
 		}
-		if err := e.SetAttribute(attr.Name(), attr.Value()); err != nil {
+		var ns *Namespace
+		if p := attr.Prefix(); p != "" {
+			if ns, err = doc.CreateNamespace(p, ctx.lookupNamespace(p)); err != nil {
+				return err
+			}
+		}
+		if err := e.setAttributeNS(attr.LocalName(), attr.Value(), ns); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 2c8ede228885a26de318ead676d36e535781b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 72/78] fix: white space in elements that may contain text is
 character data for every SAX handler

Without a document, which only the tree builder makes, declarations of
elements were ignored, and white space in mixed content was ignorable.
---
 parser_interface.go |  2 ++
 parserctx.go        | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/parser_interface.go b/parser_interface.go
index 3ee3a45..0e0b2ba 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -153,6 +153,8 @@ type parserCtx struct {
 	expanded   *int // size of the entities expanded by other entities
 
 	entityDecls map[string]bool // names of the entities declared so far
+
+	elementTypes map[string]ElementTypeVal // what elements are declared to contain
 }
 
 type SubstitutionType int
diff --git a/parserctx.go b/parserctx.go
index 6e95c39..3aca747 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -209,6 +209,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string]map[string]*Attribute{}
 	ctx.entityDecls = map[string]bool{}
+	ctx.elementTypes = map[string]ElementTypeVal{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -2118,6 +2119,11 @@ func (ctx *parserCtx) areBlanks(s string, blankChars bool) (ret bool) {
 		ret = false
 		return
 	}
+	// the handler need not keep the declarations
+	if typ, ok := ctx.elementTypes[ctx.peekNode().Name()]; ok {
+		ret = typ == ElementElementType
+		return
+	}
 	if ctx.doc != nil {
 		ok, _ := ctx.doc.IsMixedElement(ctx.peekNode().Name())
 		ret = !ok
@@ -2693,6 +2699,9 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 		return UndefinedElementType, ctx.error(ErrGtRequired)
 	}
 	cur.Advance(1)
+	if _, ok := ctx.elementTypes[name]; !ok {
+		ctx.elementTypes[name] = etype
+	}
 
 	/*
 	           if (input != ctxt->input) {
@@ -4414,6 +4423,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
 	newctx.attsSpecial = ctx.attsSpecial
+	newctx.elementTypes = ctx.elementTypes
 	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.standalone = ctx.standalone
 	newctx.hasExternalSubset = ctx.hasExternalSubset
-- 
2.43.0


From e4aee8fc2ed0c171e4af127dccb8dc4c4f596231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:14 +0000
Subject: [PATCH 73/78] fix: white space within xml:space="preserve" is
 character data

The state that areBlanks looks at was never set.
---
 parserctx.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 3aca747..fa0417b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -764,6 +764,7 @@ func (ctx *parserCtx) parseElement() error {
 
 	// the namespaces declared on this element go out of scope with it
 	nbNs := ctx.nsTab.Len()
+	space := ctx.space
 
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
@@ -788,6 +789,7 @@ func (ctx *parserCtx) parseElement() error {
 		return ctx.error(err)
 	}
 	ctx.nsTab.Pop(ctx.nsTab.Len() - nbNs)
+	ctx.space = space
 
 	return nil
 }
@@ -966,6 +968,17 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 	}
 
+	for _, attr := range attrs {
+		if attr.Name() == "xml:space" { // applies to the content, too
+			switch attr.Value() {
+			case "preserve":
+				ctx.space = 1
+			case "default":
+				ctx.space = 0
+			}
+		}
+	}
+
 	// we push the element first, because this way we get to
 	// query for the namespace declared on this node as well
 	// via lookupNamespace
@@ -4424,6 +4437,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.attsDefault = ctx.attsDefault
 	newctx.attsSpecial = ctx.attsSpecial
 	newctx.elementTypes = ctx.elementTypes
+	newctx.space = ctx.space
 	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.standalone = ctx.standalone
 	newctx.hasExternalSubset = ctx.hasExternalSubset
-- 
2.43.0


From 0a82c288f1d9b39ce237288bd1168cb6c1d5f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 74/78] fix: writing a content model without parts is an error,
 not a crash

---
 dump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dump.go b/dump.go
index 280ba6f..91059d9 100644
--- a/dump.go
+++ b/dump.go
@@ -375,6 +375,9 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 		}
 		io.WriteString(out, n.name)
 	case ElementContentSeq:
+		if n.c1 == nil || n.c2 == nil {
+			return errors.New("invalid ElementContent (sequence without parts)")
+		}
 		switch n.c1.ctype {
 		case ElementContentOr, ElementContentSeq:
 			if err := dumpElementContent(out, n.c1, true); err != nil {
@@ -397,6 +400,9 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 			}
 		}
 	case ElementContentOr:
+		if n.c1 == nil || n.c2 == nil {
+			return errors.New("invalid ElementContent (choice without parts)")
+		}
 		switch n.c1.ctype {
 		case ElementContentOr, ElementContentSeq:
 			if err := dumpElementContent(out, n.c1, true); err != nil {
-- 
2.43.0


From dc1b409ddfcc37df417d971a8eca1f415383958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 75/78] fix: refuse references to no character in attribute
 values that are set

---
 document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/document.go b/document.go
index 423c5f4..84039c1 100644
--- a/document.go
+++ b/document.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -413,6 +414,11 @@ func (d *Document) stringToNodeListInternal(value string, depth int) (ret Node,
 					return
 				}
 			}
+			// no digits, or not a number of a character
+			if !isChar(charval) && charval != utf8.RuneError {
+				err = ErrInvalidChar
+				return
+			}
 		} else {
 			rdr.UnreadRune()
 			entbuf := bytes.Buffer{}
-- 
2.43.0


From 8d026937d2ef73b729f229a9f6ecb58f4d4eda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 76/78] fix: write characters that no document can have as
 U+FFFD, not as references

---
 dump.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dump.go b/dump.go
index 91059d9..0b650d2 100644
--- a/dump.go
+++ b/dump.go
@@ -110,16 +110,17 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 		case '\t':
 			esc = esc_tab
 		default:
+			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
+				// not even a reference to such a character is allowed
+				esc = esc_fffd
+				break
+			}
 			if !(0x20 <= r && r < 0x80) {
 				if r < 0xE0 {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
 			}
-			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
-				esc = esc_fffd
-				break
-			}
 			continue
 		}
 
@@ -170,16 +171,17 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 		case '\r':
 			esc = esc_cr
 		default:
+			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
+				// not even a reference to such a character is allowed
+				esc = esc_fffd
+				break
+			}
 			if !(r == '\t' || (0x20 <= r && r < 0x80)) {
 				if r < 0xE0 {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
 			}
-			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
-				esc = esc_fffd
-				break
-			}
 			continue
 		}
 
-- 
2.43.0


From f1af440f40b7d6f52145f41316d3baaf8f3d9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:04 +0000
Subject: [PATCH 77/78] fix: look up the namespaces of attributes once, not for
 every pair

---
 parserctx.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index fa0417b..b0aa102 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -989,20 +989,21 @@ func (ctx *parserCtx) parseStartTag() error {
 	if nsuri != "" {
 		elem.SetNamespace(prefix, nsuri, true)
 	}
+	// [ NSC: Attributes Unique ]
+	expanded := map[[2]string]bool{}
 	for _, attr := range attrs {
-		if p := attr.Prefix(); p != "" && ctx.lookupNamespace(p) == "" {
+		p := attr.Prefix()
+		if p == "" {
+			continue
+		}
+		name := [2]string{ctx.lookupNamespace(p), attr.LocalName()}
+		if name[0] == "" {
 			return ctx.error(errors.New("namespace '" + p + "' not found"))
 		}
-	}
-
-	// [ NSC: Attributes Unique ]
-	for i, attr := range attrs {
-		for _, other := range attrs[:i] {
-			if attr.Prefix() != "" && other.Prefix() != "" && attr.LocalName() == other.LocalName() &&
-				ctx.lookupNamespace(attr.Prefix()) == ctx.lookupNamespace(other.Prefix()) {
-				return ctx.error(ErrDuplicateAttribute)
-			}
+		if expanded[name] {
+			return ctx.error(ErrDuplicateAttribute)
 		}
+		expanded[name] = true
 	}
 
 	if s := ctx.sax; s != nil {
-- 
2.43.0


From bd288ac152a489bbe22b6a6aa174df0ac7c7c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:31 +0000
Subject: [PATCH 78/78] fix: take the characters of names from the productions
 of XML 1.0

---
 parserctx.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index b0aa102..605c6a9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1867,7 +1867,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 
 	// first letter
 	c := cur.Peek()
-	if c == ' ' || c == '>' || c == '/' || /* accelerators */ (!unicode.IsLetter(c) && c != '_' && c != ':') {
+	if c == ' ' || c == '>' || c == '/' || /* accelerators */ !isNameStartChar(c) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
@@ -1879,7 +1879,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 			i--
 			break
 		}
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '.' && c != '-' && c != '_' && c != ':' /* && !isCombining(c) && !isExtender(c) */ {
+		if !isNameChar(c) {
 			i--
 			break
 		}
@@ -1970,14 +1970,28 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	return
 }
 
+// nameStartChars is [4] NameStartChar. U+FFFD is left out: it is what bytes
+// that cannot be decoded are read as
+var nameStartChars = &unicode.RangeTable{
+	R16: []unicode.Range16{
+		{':', ':', 1}, {'A', 'Z', 1}, {'_', '_', 1}, {'a', 'z', 1},
+		{0xC0, 0xD6, 1}, {0xD8, 0xF6, 1}, {0xF8, 0x2FF, 1},
+		{0x370, 0x37D, 1}, {0x37F, 0x1FFF, 1}, {0x200C, 0x200D, 1},
+		{0x2070, 0x218F, 1}, {0x2C00, 0x2FEF, 1}, {0x3001, 0xD7FF, 1},
+		{0xF900, 0xFDCF, 1}, {0xFDF0, 0xFFFC, 1},
+	},
+	R32:         []unicode.Range32{{0x10000, 0xEFFFF, 1}},
+	LatinOffset: 6,
+}
+
 func isNameStartChar(r rune) bool {
-	return unicode.IsLetter(r) || r == '_' || r == ':'
+	return unicode.Is(nameStartChars, r)
 }
 
+// isNameChar tells if r is [4a] NameChar
 func isNameChar(r rune) bool {
-	return r == '.' || r == '-' || r == '_' || r == ':' ||
-		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.Extender)
+	return isNameStartChar(r) || r == '.' || r == '-' || '0' <= r && r <= '9' ||
+		r == 0xB7 || 0x300 <= r && r <= 0x36F || 0x203F <= r && r <= 0x2040
 }
 
 /**
@@ -2059,7 +2073,7 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	// see how much more we got here
 	i := 2
 	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
+		if c == ':' || !isNameChar(c) {
 			i--
 			break
 		}
-- 
2.43.0

