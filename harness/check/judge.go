package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Judges of documents: what must hold when the implementation reads one

// refRead is what the model says of the document
func refRead(c *counter, doc string) ref.Result {
	r := modelOf(doc)
	switch r.V {
	case ref.WF:
		c.WF++
		c.outcome(strings.Join(refDocView(r.Doc), "\n") + strings.Join(declView(r.Doc), "\n"))
		if len(doc) > 25 {
			c.sample(doc)
		}
	case ref.Malformed:
		c.Malformed++
		c.outcome("malformed: " + r.Msg)
	default:
		c.Unknown++
	}
	return r
}

func modelOf(doc string) ref.Result {
	if strings.HasPrefix(doc, "\xef\xbb\xbf") {
		doc = doc[3:]
	}
	if !utf8.ValidString(doc) {
		// \x01 is not a character either
		r := ref.Parse(strings.ToValidUTF8(doc, "\x01"))
		if r.V == ref.Malformed && r.Doc != nil && r.Doc.Encoding != "" && !utf8Names[strings.ToLower(r.Doc.Encoding)] {
			r.V = ref.Unknown
		}
		return r
	}
	r := ref.Parse(doc)
	if r.Doc != nil && r.V != ref.Malformed && r.Doc.Encoding != "" && !utf8Names[strings.ToLower(r.Doc.Encoding)] {
		return ref.Result{V: ref.Unknown, Doc: r.Doc, Msg: "encoding"}
	}
	return r
}

var utf8Names = map[string]bool{"utf-8": true, "utf8": true}

// total: the parser returns, and returns either a document or an error; a
// document can be walked and dumped
func judgeTotal(c *counter, doc string) string {
	c.Traces++
	c.Evals++
	p := parseDOM([]byte(doc))
	if p.panic != "" {
		return p.panic
	}
	if (p.doc == nil) == (p.err == nil) {
		return fmt.Sprintf("document %v and error %v", p.doc != nil, p.err)
	}
	c.Evals++
	r := &recorder{next: helium.NewTreeBuilder(), noValues: true}
	q := parseSAX(r, []byte(doc))
	if q.panic != "" {
		return "SAX: " + q.panic
	}
	if (q.err == nil) != (p.err == nil) {
		return fmt.Sprintf("error %v as DOM, %v as SAX", p.err, q.err)
	}
	if p.err != nil {
		c.outcome(p.err.Error())
		c.Malformed++
		return ""
	}
	c.WF++
	if s := guard(func() { helium.Walk(p.doc, func(helium.Node) error { return nil }) }); s != "" {
		return "Walk: " + s
	}
	s, err, pan := xmlString(p.doc)
	if pan != "" {
		return "XMLString: " + pan
	}
	if err != nil {
		return "XMLString: " + err.Error()
	}
	c.outcome(s)
	return ""
}

// verdict: accepted if and only if well-formed
func judgeVerdict(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V == ref.Unknown {
		return ""
	}
	c.Traces++
	c.Evals++
	if s := verdict(r, parseDOM([]byte(doc))); s != "" {
		return s
	}
	if len(r.Doc.Entities) == 0 && !r.Doc.HasRefs && len(r.Doc.PEntities) == 0 {
		// a handler that rejects nothing by itself
		c.Evals++
		if s := verdict(r, parseSAX(&recorder{}, []byte(doc))); s != "" {
			return "with a handler that only records: " + s
		}
	}
	return ""
}

func verdict(r ref.Result, p parsed) string {
	if p.panic != "" {
		return p.panic
	}
	if r.V == ref.WF && p.err != nil {
		return fmt.Sprintf("well-formed, but rejected: %v", p.err)
	}
	if r.V == ref.Malformed && p.err == nil {
		return fmt.Sprintf("accepted, but not well-formed: %s (character %d)", r.Msg, r.Pos)
	}
	return ""
}

// tree: the tree of a well-formed document has the contents of the document
func judgeTree(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V != ref.WF {
		return ""
	}
	c.Traces++
	c.Evals++
	p := parseDOM([]byte(doc))
	if p.panic != "" {
		return p.panic
	}
	if p.err != nil {
		return fmt.Sprintf("well-formed, but rejected: %v", p.err)
	}
	return tree(r, p)
}

func tree(r ref.Result, p parsed) string {
	var v view
	if s := guard(func() { v = docView(p.doc) }); s != "" {
		return s
	}
	if s := diff(v, refDocView(r.Doc)); s != "" {
		return "tree: " + s
	}
	if s := guard(func() { v = links(p.doc) }); s != "" {
		return s
	}
	if len(v) > 0 {
		return "tree: " + v[0]
	}
	var s string
	if p := guard(func() { s = meaning(p.doc, r.Doc, p.built) }); p != "" {
		return p
	}
	return s
}

// meaning checks what the references of a tree stand for: the contents of
// entities that are referenced in content, and the values of attributes. The
// names of attributes that were set one by one are not divided
func meaning(d *helium.Document, m *ref.Doc, built bool) string {
	for _, name := range keys2(m.Entities) {
		e := m.Entities[name]
		if e.External || e.NData != "" {
			continue
		}
		x, ok := d.GetEntity(name)
		if !ok {
			return fmt.Sprintf("entity %q is not in the tree", name)
		}
		var got, want view
		domNodes(&got, x.FirstChild(), 0)
		if built && got == nil {
			continue // what is in contents was not read
		}
		if e.Referenced && !built {
			refNodes(&want, e.First)
		} else if e.InValue {
			refNodes(&want, e.Value)
		}
		if s := diff(got, want); s != "" {
			return fmt.Sprintf("tree: entity %q: %s", name, s)
		}
	}
	var got, want view
	values(&got, d.FirstChild(), !built)
	refValues(&want, m, m.Nodes, !built)
	if s := diff(got, want); s != "" {
		return "values of attributes: " + s
	}
	return ""
}

func values(v *view, n helium.Node, names bool) {
	for ; !isNil(n); n = n.NextSibling() {
		e, ok := n.(*helium.Element)
		if !ok {
			continue
		}
		for _, a := range e.Attributes() {
			if names {
				v.add("%q %q in %q", a.Prefix(), a.LocalName(), a.URI())
			}
			v.add("%s = %q", a.Name(), a.Value())
		}
		values(v, e.FirstChild(), names)
	}
}

func refValues(v *view, d *ref.Doc, nodes []*ref.Node, names bool) {
	for _, n := range nodes {
		if n.Kind == ref.Elem {
			for _, a := range n.Attrs {
				if names {
					v.add("%q %q in %q", a.Prefix, a.Local, a.URI)
				}
				v.add("%s = %q", a.Name, expand(d, a.Escaped))
			}
			refValues(v, d, n.Children, names)
		}
	}
}

func keys2(m map[string]*ref.Decl) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// links checks that the pointers of a tree agree with each other
func links(d *helium.Document) view {
	var v view
	seen := map[helium.Node]bool{}
	var rec func(n helium.Node)
	rec = func(n helium.Node) {
		if seen[n] {
			v.add("%s %q is in the tree twice", n.Type(), n.Name())
			return
		}
		seen[n] = true
		var prev helium.Node
		for c := n.FirstChild(); !isNil(c); c = c.NextSibling() {
			if len(v) > 0 {
				return
			}
			if p := c.Parent(); p != n {
				v.add("%s %q has parent %s, is a child of %s %q", c.Type(), c.Name(), nodeName(p), n.Type(), n.Name())
			}
			if q := c.PrevSibling(); isNil(q) != isNil(prev) || !isNil(prev) && q != prev {
				v.add("%s %q has previous sibling %s, expected %s", c.Type(), c.Name(), nodeName(q), nodeName(prev))
			}
			if c.OwnerDocument() != d {
				v.add("%s %q is owned by another document", c.Type(), c.Name())
			}
			if n.Type() != helium.EntityRefNode {
				// the child of a reference is the entity, which has its own place
				if c.Type() != helium.EntityRefNode {
					rec(c)
				} else if seen[c] {
					v.add("reference in the tree twice")
				} else {
					seen[c] = true
				}
			}
			prev = c
		}
		l := n.LastChild()
		if isNil(l) != isNil(prev) || !isNil(prev) && l != prev {
			v.add("%s %q has last child %s, expected %s", n.Type(), n.Name(), nodeName(l), nodeName(prev))
		}
		if e, ok := n.(*helium.Element); ok {
			var before *helium.Attribute
			for _, a := range e.Attributes() {
				if p := a.PrevSibling(); isNil(p) != (before == nil) || before != nil && p != helium.Node(before) {
					v.add("attribute %q is not linked to the one before it", a.Name())
				}
				if a.OwnerDocument() != d {
					v.add("attribute %q is owned by another document", a.Name())
				}
				rec(a)
				before = a
			}
		}
	}
	rec(d)
	return v
}

func nodeName(n helium.Node) string {
	if isNil(n) {
		return "nil"
	}
	return fmt.Sprintf("%s %q", n.Type(), n.Name())
}

// dump: the tree of a well-formed document is written as a document with the
// same contents, and what is written is read and written as it is
func judgeDump(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V != ref.WF {
		return ""
	}
	c.Traces++
	c.Evals += 2
	p := parseDOM([]byte(doc))
	if p.panic != "" {
		return p.panic
	}
	if p.err != nil {
		return fmt.Sprintf("well-formed, but rejected: %v", p.err)
	}
	return dump(r, p)
}

func dump(r ref.Result, p parsed) string {
	s, err, pan := xmlString(p.doc)
	if pan != "" {
		return "XMLString: " + pan
	}
	if err != nil {
		return "XMLString: " + err.Error()
	}
	m := modelOf(s)
	if m.V == ref.Malformed {
		return fmt.Sprintf("dump is not well-formed (%s): %q", m.Msg, s)
	}
	if m.V == ref.WF {
		want := refDocView(r.Doc)
		if d := diff(refDocView(m.Doc), want); d != "" {
			return fmt.Sprintf("dump: %s: %q", d, s)
		}
		if d := diff(declView(m.Doc), declView(r.Doc)); d != "" {
			return fmt.Sprintf("dump: %s: %q", d, s)
		}
	}
	q := parseDOM([]byte(s))
	if q.panic != "" {
		return "reading the dump: " + q.panic
	}
	if q.err != nil {
		return fmt.Sprintf("dump cannot be read (%v): %q", q.err, s)
	}
	t, err, pan := xmlString(q.doc)
	if pan != "" || err != nil {
		return fmt.Sprintf("dumping again: %v%v", pan, err)
	}
	if t != s {
		return fmt.Sprintf("dump %q is dumped as %q", s, t)
	}
	return ""
}

// events: the handler is told of the contents of a well-formed document, in
// document order; what it is told of others is well nested
func judgeEvents(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V == ref.Unknown {
		return ""
	}
	c.Traces++
	return events(c, r, doc)
}

func events(c *counter, r ref.Result, doc string) string {
	tee := &recorder{next: helium.NewTreeBuilder()}
	recs := []*recorder{tee}
	if len(r.Doc.Entities) == 0 && !r.Doc.HasRefs && len(r.Doc.PEntities) == 0 {
		recs = append(recs, &recorder{})
	}
	for i, h := range recs {
		kind := [...]string{"handler in front of TreeBuilder", "handler"}[i]
		c.Evals++
		p := parseSAX(h, []byte(doc))
		if p.panic != "" {
			return kind + ": " + p.panic
		}
		if s := verdict(r, p); s != "" {
			return kind + ": " + s
		}
		if h.ctxOdd && !r.Doc.HasRefs {
			return kind + ": context changes during the document"
		}
		if r.V == ref.WF {
			if s := diff(h.v, refEvents(r.Doc)); s != "" {
				return kind + ": " + s
			}
		}
		if s := nested(h, r.V == ref.WF); s != "" {
			return kind + ": " + s
		}
	}
	return ""
}

// nested checks that a sequence of events is (the start of) a well nested one
func nested(h *recorder, whole bool) string {
	var open []string
	ended := false
	for i, l := range h.v {
		k := strings.IndexByte(l, ' ')
		kind := l
		if k > 0 {
			kind = l[:k]
		}
		if ended {
			return fmt.Sprintf("event %d (%s) follows the end of the document", i, l)
		}
		if (i == 0) != (kind == "startdocument") {
			return fmt.Sprintf("event %d is %s", i, l)
		}
		switch kind {
		case "start":
			f := strings.SplitN(l, " ", 5)
			open = append(open, strings.Join(f[1:3], " "))
			if len(open) == 1 {
				_ = f
			}
		case "end":
			f := strings.SplitN(l, " ", 5)
			if len(open) == 0 || open[len(open)-1] != strings.Join(f[1:3], " ") {
				return fmt.Sprintf("event %d (%s) ends no open element", i, l)
			}
			open = open[:len(open)-1]
		case "enddocument":
			ended = true
			if len(open) > 0 {
				return "the document ends with elements open"
			}
		}
	}
	if whole && !ended {
		return "no end of document"
	}
	if !whole && ended {
		return "end of a document that is not well-formed"
	}
	return ""
}

// full is all of the above
func judgeFull(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V == ref.Unknown {
		return ""
	}
	c.Traces++
	c.Evals++
	p := parseDOM([]byte(doc))
	if s := verdict(r, p); s != "" {
		return s
	}
	if r.V == ref.WF {
		if s := tree(r, p); s != "" {
			return s
		}
		if s := dump(r, p); s != "" {
			return s
		}
	}
	return events(c, r, doc)
}

// decls is full, and what can be asked of the declarations
func judgeDecls(c *counter, doc string) string {
	if s := judgeFull(c, doc); s != "" {
		return s
	}
	r := modelOf(doc)
	if r.V != ref.WF {
		return ""
	}
	p := parseDOM([]byte(doc))
	if p.panic != "" || p.doc == nil {
		return "cannot be read again: " + p.panic
	}
	c.Evals++
	var got, want view
	if s := guard(func() { got = lookupView(p.doc, r.Doc) }); s != "" {
		return s
	}
	want = refLookups(r.Doc)
	if s := diff(got, want); s != "" {
		return "lookup: " + s
	}
	return ""
}

// names that may be declared as anything
func declNames(d *ref.Doc) []string {
	m := map[string]bool{"zz": true, "r": true, "p:r": true}
	for _, n := range d.Nodes {
		if n.Kind == ref.Doctype {
			for _, c := range n.DT.Decls {
				m[c.Name] = true
				if c.Att != "" {
					m[c.Att] = true
				}
			}
		}
	}
	delete(m, "")
	names := keys(m)
	if len(names) > 6 {
		names = names[:6]
	}
	return names
}

func lookupView(d *helium.Document, r *ref.Doc) view {
	var v view
	dtd := d.IntSubset()
	if dtd == nil {
		v.add("no DTD")
		return v
	}
	v.add("DTD %q", dtd.Name())
	split := func(n string) (string, string) {
		if k := strings.IndexByte(n, ':'); k >= 0 {
			return n[k+1:], n[:k]
		}
		return n, ""
	}
	names := declNames(r)
	for _, n := range names {
		local, prefix := split(n)
		e, ok := dtd.LookupElement(local, prefix)
		f, ok2 := dtd.GetElementDesc(n)
		if ok != ok2 || e != f {
			v.add("LookupElement and GetElementDesc disagree about %q", n)
		}
		mixed, err := d.IsMixedElement(n)
		if err != nil {
			v.add("element %q not declared", n)
		} else {
			v.add("element %q declared %v mixed %v", n, ok, mixed)
		}
		for _, a := range names {
			local, prefix := split(a)
			if x, ok := dtd.LookupAttribute(local, prefix, n); ok {
				v.add("attribute %q of %q declared %v", a, n, x.Name() == local)
			}
		}
		for i, f := range []func(string) (*helium.Entity, bool){dtd.LookupEntity, d.GetEntity, dtd.LookupParameterEntity, d.GetParameterEntity} {
			x, ok := f(n)
			if !ok {
				continue
			}
			v.add("%s %q %s %q", [...]string{"entity", "entity", "pentity", "pentity"}[i], x.Name(), entityKind(x.EntityType()), x.Content())
		}
	}
	return v
}

func refLookups(d *ref.Doc) view {
	var v view
	for _, n := range d.Nodes {
		if n.Kind != ref.Doctype {
			continue
		}
		v.add("DTD %q", n.DT.Name)
		names := declNames(d)
		for _, n := range names {
			if e := d.ElemDecls[n]; e == nil {
				v.add("element %q not declared", n)
			} else {
				// EMPTY and ANY count as mixed
				v.add("element %q declared true mixed %v", n, e.Model == "EMPTY" || e.Model == "ANY" || strings.HasPrefix(e.Model, "(#PCDATA"))
			}
			for _, a := range names {
				if d.AttDecls[n+" "+a] != nil {
					v.add("attribute %q of %q declared true", a, n)
				}
			}
			for i := 0; i < 4; i++ {
				kind, t := "entity", d.Entities
				if i > 1 {
					kind, t = "pentity", d.PEntities
				}
				e := t[n]
				if e == nil {
					continue
				}
				k, content := "internal", e.Text
				if e.External {
					k = "external"
				}
				if i > 1 {
					k = "p" + k
				}
				if e.NData != "" {
					k, content = "unparsed", e.NData
				}
				v.add("%s %q %s %q", kind, n, k, content)
			}
		}
		return v
	}
	v.add("no DTD")
	return v
}
