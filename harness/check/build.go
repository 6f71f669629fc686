package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
	"github.com/lestrrat-go/helium/sax"
)

// Documents built through the API, and what is done with whole trees

// buildable says whether all of the document can be made through the exported
// API: there is none for attribute declarations and content models
func buildable(d *ref.Doc) bool {
	for _, n := range d.Nodes {
		if hasEmpty(n) {
			return false
		}
		if n.Kind != ref.Doctype {
			continue
		}
		for _, c := range n.DT.Decls {
			switch c.Kind {
			case "attlist":
				return false
			case "element":
				if c.Model != "EMPTY" && c.Model != "ANY" {
					return false
				}
			case "entity", "pentity":
				// the API is given what is between the quotes, not the
				// replacement text
				if !c.External && (c.Text != c.Literal || strings.Contains(c.Text, "&#") || strings.Contains(c.Text, "\r")) {
					return false
				}
			}
		}
	}
	return true
}

// hasEmpty: a text without characters is not written
func hasEmpty(n *ref.Node) bool {
	if n.Kind == ref.Text && n.Data == "" {
		return true
	}
	for _, k := range n.Children {
		if hasEmpty(k) {
			return true
		}
	}
	return false
}

const buildModes = 5

var modeNames = [buildModes]string{"top down", "bottom up", "as siblings", "by replacement", "piece by piece"}

type builder struct {
	d    *helium.Document
	mode int
}

func (b *builder) must(err error) {
	if err != nil {
		panic(buildError{err})
	}
}

type buildError struct{ err error }

// build makes the document that the model describes
func build(r *ref.Doc, mode int) (d *helium.Document, err error, pan string) {
	pan = guard(func() {
		defer func() {
			if e := recover(); e != nil {
				if be, ok := e.(buildError); ok {
					err = be.err
					return
				}
				panic(e)
			}
		}()
		if r.HasDecl {
			s := helium.DocumentStandaloneType(helium.StandaloneImplicitNo)
			switch r.Standalone {
			case "yes":
				s = helium.StandaloneExplicitYes
			case "no":
				s = helium.StandaloneExplicitNo
			}
			d = helium.NewDocument(r.Version, r.Encoding, s)
		} else {
			d = helium.CreateDocument()
		}
		b := &builder{d, mode}
		b.children(d, r.Nodes)
	})
	return
}

func (b *builder) children(p helium.Node, nodes []*ref.Node) {
	switch b.mode {
	case 2:
		var first helium.Node
		for _, n := range nodes {
			if n.Kind == ref.Doctype {
				b.doctype(n.DT)
				first = p.FirstChild()
				continue
			}
			x := b.node(n)
			if first == nil {
				b.must(p.AddChild(x))
				first = x
			} else {
				b.must(first.AddSibling(x))
			}
		}
	case 3:
		var marks []helium.Node
		for _, n := range nodes {
			if n.Kind == ref.Doctype {
				b.doctype(n.DT)
				marks = append(marks, nil)
				continue
			}
			m, err := b.d.CreateComment([]byte("mark"))
			b.must(err)
			b.must(p.AddChild(m))
			marks = append(marks, m)
		}
		for i := len(nodes) - 1; i >= 0; i-- {
			if marks[i] != nil {
				marks[i].Replace(b.node(nodes[i]))
			}
		}
	default:
		for _, n := range nodes {
			if n.Kind == ref.Doctype {
				b.doctype(n.DT)
				continue
			}
			if b.mode == 4 && n.Kind == ref.Text {
				for _, c := range n.Data {
					b.must(p.AddContent([]byte(string(c))))
				}
				continue
			}
			if n.Kind == ref.Elem && b.mode != 1 {
				x, err := b.d.CreateElement(n.Local)
				b.must(err)
				if b.mode == 4 && p == helium.Node(b.d) {
					b.must(b.d.SetDocumentElement(x))
				} else {
					b.must(p.AddChild(x))
				}
				b.fill(x, n)
				continue
			}
			b.must(p.AddChild(b.node(n)))
		}
	}
}

func (b *builder) node(n *ref.Node) helium.Node {
	var x helium.Node
	var err error
	switch n.Kind {
	case ref.Text:
		data := []byte(n.Data)
		x, err = b.d.CreateText(data)
		scribble(data)
	case ref.Comment:
		data := []byte(n.Data)
		x, err = b.d.CreateComment(data)
		scribble(data)
	case ref.PI:
		x, err = b.d.CreatePI(n.Target, n.Data)
	case ref.EntRef:
		x, err = b.d.CreateReference(n.Data)
	case ref.Elem:
		var e *helium.Element
		e, err = b.d.CreateElement(n.Local)
		b.must(err)
		b.fill(e, n)
		return e
	}
	b.must(err)
	return x
}

// scribble over bytes that the implementation was given: it is to have copied
// them
func scribble(b []byte) {
	for i := range b {
		b[i] = '\x01'
	}
}

func (b *builder) fill(e *helium.Element, n *ref.Node) {
	if b.mode == 4 {
		b.children(e, n.Children)
	}
	for _, ns := range n.NSDecls {
		b.must(e.SetNamespace(ns.Prefix, ns.URI))
	}
	if n.URI != "" || n.Prefix != "" {
		b.must(e.SetNamespace(n.Prefix, n.URI, true))
	}
	for _, a := range n.Attrs {
		b.must(e.SetAttribute(a.Name, b.spell(a.Escaped)))
		if x := e.SetAttribute(a.Name, ""); x == nil {
			panic(buildError{fmt.Errorf("attribute %s can be set twice", a.Name)})
		}
	}
	if b.mode != 4 {
		b.children(e, n.Children)
	}
}

// spell writes an attribute value in another way that means the same: the
// characters are written as themselves and as references, in turns
func (b *builder) spell(s string) string {
	if b.mode == 0 {
		return s
	}
	var out strings.Builder
	for i := 0; len(s) > 0; i++ {
		if k := strings.IndexByte(s, ';'); s[0] == '&' && k > 0 {
			if s[:k] == "&#38" && b.mode > 2 {
				out.WriteString("&amp;")
			} else {
				out.WriteString(s[:k+1])
			}
			s = s[k+1:]
			continue
		}
		c, w := utf8.DecodeRuneInString(s)
		how := (i + b.mode) % 3
		if p := refTo[c]; p != "" && b.mode > 2 {
			out.WriteString(p)
		} else if how == 1 {
			fmt.Fprintf(&out, "&#%d;", c)
		} else if how == 2 {
			fmt.Fprintf(&out, "&#x%X;", c)
		} else {
			out.WriteString(s[:w])
		}
		s = s[w:]
	}
	return out.String()
}

var refTo = map[rune]string{'<': "&lt;", '>': "&gt;", '"': "&quot;", '\'': "&apos;"}

func (b *builder) doctype(dt *ref.DTD) {
	dtd, err := b.d.CreateInternalSubset(dt.Name, dt.Pub, dt.Sys)
	b.must(err)
	for _, c := range dt.Decls {
		if !c.Bound && c.Kind != "comment" && c.Kind != "pi" {
			continue
		}
		switch c.Kind {
		case "comment":
			x, err := b.d.CreateComment([]byte(c.Text))
			b.must(err)
			b.must(dtd.AddChild(x))
		case "pi":
			x, err := b.d.CreatePI(c.Name, c.Text)
			b.must(err)
			b.must(dtd.AddChild(x))
		case "element":
			t := helium.AnyElementType
			if c.Model == "EMPTY" {
				t = helium.EmptyElementType
			}
			_, err := dtd.AddElementDecl(c.Name, t, nil)
			b.must(err)
		case "entity", "pentity":
			t, text := helium.InternalGeneralEntity, c.Text
			if c.External {
				t = helium.ExternalGeneralParsedEntity
			}
			if c.NData != "" {
				t, text = helium.ExternalGeneralUnparsedEntity, c.NData
			}
			if c.Kind == "pentity" {
				t = helium.InternalParameterEntity
				if c.External {
					t = helium.ExternalParameterEntity
				}
			}
			var err error
			if b.mode == 0 {
				_, err = b.d.AddEntity(c.Name, t, c.Pub, c.Sys, text)
			} else {
				_, err = dtd.AddEntity(c.Name, t, c.Pub, c.Sys, text)
			}
			b.must(err)
		}
	}
}

// judgeBuilt: the document, built through the API in one of several ways, has
// the contents it was given, and is written with them
func judgeBuilt(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V != ref.WF || !buildable(r.Doc) {
		return ""
	}
	for mode := 0; mode < buildModes; mode++ {
		c.Traces++
		c.Evals++
		d, err, pan := build(r.Doc, mode)
		how := "built " + modeNames[mode] + ": "
		if pan != "" {
			return how + pan
		}
		if err != nil {
			return how + err.Error()
		}
		if s := tree(r, parsed{doc: d, built: true}); s != "" {
			return how + s
		}
		if s := dump(r, parsed{doc: d}); s != "" {
			return how + s
		}
	}
	return ""
}

// ---- walking and owners ----

// judgeWalk: Walk visits what can be reached, in document order, and stops at
// the first error; SetTreeDoc changes the owner of a subtree and nothing else
func judgeWalk(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V != ref.WF {
		return ""
	}
	c.Traces++
	c.Evals++
	p := parseDOM([]byte(doc))
	if p.panic != "" || p.err != nil {
		return fmt.Sprintf("cannot be read: %s%v", p.panic, p.err)
	}
	var msg string
	if s := guard(func() { msg = walkAll(c, p.doc) }); s != "" {
		return s
	}
	if msg == "" {
		if s := guard(func() { msg = ownAll(c, p.doc) }); s != "" {
			return s
		}
	}
	if msg == "" {
		// and the document is what it was
		if s := tree(r, p); s != "" {
			return "afterwards: " + s
		}
	}
	return msg
}

func subtree(n helium.Node) []helium.Node {
	out := []helium.Node{n}
	if n.Type() == helium.EntityRefNode {
		return out
	}
	for k := n.FirstChild(); !isNil(k); k = k.NextSibling() {
		out = append(out, subtree(k)...)
	}
	return out
}

// owned is the subtree with attributes and what they contain
func owned(n helium.Node) []helium.Node {
	var out []helium.Node
	for _, x := range subtree(n) {
		out = append(out, x)
		if e, ok := x.(*helium.Element); ok {
			for _, a := range e.Attributes() {
				out = append(out, subtree(a)...)
			}
		}
	}
	return out
}

func walkAll(c *counter, d *helium.Document) string {
	all := owned(d)
	if len(all) > 60 {
		all = all[:60]
	}
	for _, n := range all {
		want := subtree(n)
		for stop := 0; stop <= len(want); stop++ { // 0: never
			if stop > 20 && stop < len(want)-1 {
				continue
			}
			c.Transitions++
			fault := [...]error{errors.New("stop"), io.EOF, sax.ErrHandlerUnspecified, helium.ErrInvalidOperation, io.ErrUnexpectedEOF}[stop%5]
			i := 0
			odd := ""
			err := helium.Walk(n, func(x helium.Node) error {
				if i >= len(want) || x != want[i] {
					if odd == "" {
						odd = fmt.Sprintf("visit %d is to %s", i, nodeName(x))
					}
				}
				i++
				if i == stop {
					return fault
				}
				if i > 2*len(want)+10 {
					return fault
				}
				return nil
			})
			expect, wantErr := len(want), error(nil)
			if stop > 0 {
				expect, wantErr = stop, fault
			}
			if odd != "" || i != expect || err != wantErr {
				return fmt.Sprintf("walk of %s, to end after %d of %d visits: %d visits, error %v %s", nodeName(n), stop, len(want), i, err, odd)
			}
		}
	}
	if err := helium.Walk(nil, func(helium.Node) error { return nil }); err == nil {
		return "walk of no node returns no error"
	}
	return ""
}

func ownAll(c *counter, d *helium.Document) string {
	all := owned(d)
	other := helium.CreateDocument()
	nodes := all
	if len(nodes) > 40 {
		nodes = nodes[:40]
	}
	check := func(what string, in map[helium.Node]bool) string {
		for _, x := range all {
			want := d
			if in[x] {
				want = other
			}
			if x == helium.Node(d) {
				continue
			}
			if x.OwnerDocument() != want {
				return fmt.Sprintf("%s: the owner of %s is wrong", what, nodeName(x))
			}
		}
		return ""
	}
	set := func(n helium.Node) map[helium.Node]bool {
		m := map[helium.Node]bool{}
		for _, x := range owned(n) {
			m[x] = true
		}
		return m
	}
	for _, n := range nodes {
		c.Transitions++
		in := set(n)
		n.SetTreeDoc(other)
		if s := check("after SetTreeDoc of "+nodeName(n), in); s != "" {
			return s
		}
		if o := n.Parent(); !isNil(o) {
			o.SetTreeDoc(other)
			if s := check("after SetTreeDoc of "+nodeName(n)+" and its parent", set(o)); s != "" {
				return s
			}
			o.SetTreeDoc(d)
		}
		n.SetTreeDoc(d)
		if s := check("after SetTreeDoc of "+nodeName(n)+", and back", nil); s != "" {
			return s
		}
		d.SetOwnerDocument(nil)
	}
	for i, x := range owned(d) {
		if i >= len(all) || x != all[i] {
			return "SetTreeDoc changes the tree"
		}
	}
	return ""
}

// wideNames are names with prefixes, and values of all kinds, on nested elements
func treeSpaces(z size, j judge) []*Space {
	depth := pick(z, 3, 4, 5)
	leaves := []string{"x", "<!--c-->", "<?p d?>", "&lt;", "<b/>", "<![CDATA[y]]>", "&e;"}
	return []*Space{
		list("trees", fmt.Sprintf("all trees of at most %d nodes: elements, text, comments, processing instructions, references, with and without attributes, namespaces and comments around", depth+2), j, func(_ bool, emit func(string)) {
			var rec func(n int, f func(s string, rest int))
			rec = func(n int, f func(s string, rest int)) {
				f("", n)
				if n == 0 {
					return
				}
				for _, l := range leaves {
					l := l
					rec(n-1, func(s string, rest int) { f(l+s, rest) })
				}
				for _, open := range []string{"<a>", "<a k='v&amp;&e;w' l=''>", "<p:a xmlns:p='u' p:k='&#10;'>"} {
					open := open
					end := "</a>"
					if open[1] == 'p' {
						end = "</p:a>"
					}
					rec(n-1, func(in string, rest int) {
						if in == "" {
							return
						}
						rec(rest, func(s string, rest2 int) { f(open+in+end+s, rest2) })
					})
				}
			}
			rec(depth, func(s string, rest int) {
				emit("<!DOCTYPE r [<!ENTITY e '<i>z</i>'>]><r>" + strings.Replace(s, "&e;'", "&e;'", -1) + "</r>")
				if !strings.Contains(s, "&e;") {
					emit("<!--b--><r>" + s + "</r><?z?>")
				}
			})
		}),
	}
}

func init() {
	register(&Property{ID: "C12", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, small, medium)
		depth := 3
		if th {
			depth = 4
		}
		return join(textSpaces(depth), treeSpaces(z, judgeBuilt), everything(z, judgeBuilt))
	}})
	register(&Property{ID: "C13", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, small, medium)
		return join(treeSpaces(zoom(th, medium, large), judgeWalk), everything(z, judgeWalk))
	}})
}
