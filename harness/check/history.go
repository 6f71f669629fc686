package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

// Histories: what a parser was used for before, and what happens to the input
// and to other documents afterwards, makes no difference

var historyDocs = map[string]string{
	"a": `<r a="1">x</r>`,
	"b": `<p:r xmlns:p="u" xmlns="v" p:a="1"><e/></p:r>`,
	"c": `<p:r/>`,
	"d": `<!DOCTYPE r [<!ENTITY e "v"><!ATTLIST r a CDATA "d" i NMTOKENS "x"><!ELEMENT r ANY>]><r i=" 1  2 ">&e;</r>`,
	"e": `<r i=" 1  2 ">&e;</r>`,
	"f": `<?xml version="1.0" encoding="iso-8859-1" standalone="yes"?><r>` + "\xe9" + `</r>`,
	"g": `<r><a><b>`,
	"h": `<!DOCTYPE r [<!ENTITY e "<b>&f;</b>"><!ENTITY f "w">`,
	"i": ``,
	"j": `<r xmlns:q="u"><![CDATA[x]]><!--c--><?p d?></r><!--d-->`,
	"k": `<!DOCTYPE r SYSTEM "s" [<!ENTITY % p "<!ENTITY e 'w'>">%p;<!ENTITY e "z">]><r a="&e;"><q:b xmlns:q="w" q:i="2"/></r>`,
	"l": "<r>\r\n&#13;\r&lt;&amp;</r>",
	"m": `<r i=" 1  2 "><q:b q:a=""/></r>`,
	"n": `<!DOCTYPE r [<!ENTITY e "&e;">]><r>&e;</r>`,
}

func docOf(letter byte) string { return historyDocs[string(letter)] }

// result of parsing, all of it
func resultOf(doc *helium.Document, err error) string {
	var v view
	v.add("error %v", err)
	if doc != nil {
		v = append(v, docView(doc)...)
		s, err := doc.XMLString()
		v.add("written %q %v", s, err)
		if l := links(doc); len(l) > 0 {
			v = append(v, l...)
		}
	}
	return strings.Join(v, "\n")
}

// judgeHistory: the key is what one parser does: documents, and T, R or S to
// give it another tree builder, a recorder, or a recorder in front of a tree
// builder. The results are those of parsers that are used only once
func judgeHistory(c *counter, key string) string {
	c.Traces++
	var msg string
	if s := guard(func() { msg = history(c, key) }); s != "" {
		return s
	}
	return msg
}

func makeHandler(k byte) (sax.SAX2Handler, *recorder) {
	switch k {
	case 'R':
		r := &recorder{}
		return r, r
	case 'S':
		r := &recorder{next: helium.NewTreeBuilder()}
		return r, r
	}
	return helium.NewTreeBuilder(), nil
}

func history(c *counter, key string) string {
	p := helium.NewParser()
	var rec *recorder
	mode := byte('T')
	var docs []*helium.Document
	var results []string
	for i := 0; i < len(key); i++ {
		if strings.IndexByte("TRS", key[i]) >= 0 {
			mode = key[i]
			var h sax.SAX2Handler
			h, rec = makeHandler(mode)
			p.SetSAXHandler(h)
			continue
		}
		in := []byte(docOf(key[i]))
		if rec != nil {
			next := rec.next
			*rec = recorder{next: next}
		}
		c.Evals++
		d, err := p.Parse(in)
		if string(in) != docOf(key[i]) {
			return fmt.Sprintf("step %d: input is changed", i)
		}
		for k := range in {
			in[k] = '<'
		}
		got := resultOf(d, err)
		events := ""
		if rec != nil {
			events = strings.Join(rec.v, "\n")
		}

		// the same with a new parser
		h, r := makeHandler(mode)
		q := helium.NewParser()
		q.SetSAXHandler(h)
		e, err := q.Parse([]byte(docOf(key[i])))
		if want := resultOf(e, err); got != want {
			return fmt.Sprintf("step %d (%s): the parser returns %q, a new one %q", i, short(docOf(key[i])), got, want)
		}
		if r != nil && events != strings.Join(r.v, "\n") {
			return fmt.Sprintf("step %d (%s): events are %q, of a new parser %q", i, short(docOf(key[i])), events, strings.Join(r.v, "\n"))
		}
		c.outcome(got + events)
		if d != nil {
			docs = append(docs, d)
			results = append(results, got)
		}
	}
	for i, d := range docs {
		if got := resultOf(d, nil); got != results[i] {
			return fmt.Sprintf("document %d changed from %q to %q", i, results[i], got)
		}
	}
	return predefined()
}

// predefined entities are shared by all documents
func predefined() string {
	for _, x := range []struct {
		e       *helium.Entity
		name, s string
	}{{helium.EntityLT, "lt", "<"}, {helium.EntityGT, "gt", ">"}, {helium.EntityAmpersand, "amp", "&"}, {helium.EntityApostrophe, "apos", "'"}, {helium.EntityQuote, "quot", `"`}} {
		e := x.e
		if e.Name() != x.name || string(e.Content()) != x.s || !isNil(e.FirstChild()) || !isNil(e.NextSibling()) || !isNil(e.PrevSibling()) || !isNil(e.Parent()) || e.OwnerDocument() != nil || e.EntityType() != int(helium.InternalPredefinedEntity) {
			return "predefined entity " + x.name + " changed"
		}
	}
	return ""
}

// judgeInput: input is neither changed nor kept, parsing it again gives the
// same, and what is done to one document shows in no other
func judgeInput(c *counter, doc string) string {
	c.Traces++
	c.Evals += 3
	in := []byte(doc)
	p := parseDOM(in)
	if p.panic != "" {
		return p.panic
	}
	if string(in) != doc {
		return "input is changed"
	}
	var pkg parsed
	pkg.panic = guard(func() { pkg.doc, pkg.err = helium.Parse(in) })
	if pkg.panic != "" {
		return "Parse: " + pkg.panic
	}
	if (pkg.err == nil) != (p.err == nil) || p.err != nil && p.err.Error() != pkg.err.Error() {
		return fmt.Sprintf("a parser returns error %v, Parse %v", p.err, pkg.err)
	}
	if p.err != nil {
		c.outcome(p.err.Error())
		return predefined()
	}
	var msg string
	s := guard(func() {
		before := resultOf(pkg.doc, nil)
		first := resultOf(p.doc, nil)
		if first != before {
			msg = fmt.Sprintf("parsed twice: %q and %q", first, before)
			return
		}
		for i := range in {
			in[i] = 'z'
		}
		if got := resultOf(p.doc, nil); got != before {
			msg = fmt.Sprintf("the document changes with the bytes it was read from: %q, before %q", got, before)
			return
		}
		c.outcome(before)
		// change all of one document
		var nodes []helium.Node
		helium.Walk(p.doc, func(n helium.Node) error { nodes = append(nodes, n); return nil })
		for _, n := range nodes {
			switch n := n.(type) {
			case *helium.Text, *helium.Comment:
				n.AddContent([]byte("changed"))
			case *helium.Element:
				for _, a := range n.Attributes() {
					a.AddContent([]byte("changed"))
				}
				n.SetAttribute("changed", "z")
				n.SetNamespace("changed", "z")
				t, _ := p.doc.CreateElement("changed")
				n.AddChild(t)
			}
		}
		p.doc.SetTreeDoc(helium.CreateDocument())
		if got := resultOf(pkg.doc, nil); got != before {
			msg = fmt.Sprintf("a change of one document changes another: %q, before %q", got, before)
			return
		}
		// and the one that is parsed next
		third, err := helium.NewParser().Parse([]byte(doc))
		if got := resultOf(third, err); got != before {
			msg = fmt.Sprintf("a change of a document changes what is parsed: %q, before %q", got, before)
		}
	})
	if s != "" {
		return s
	}
	if msg != "" {
		return msg
	}
	return predefined()
}

func historySpaces(z size) []*Space {
	letters := keysOf(historyDocs)
	n := pick(z, 3, 4, 5)
	seqs := func(name string, n int, letters string) *Space {
		return list(name, "all sequences of at most "+itoa(n)+" of "+itoa(len(letters))+" steps of one parser: documents, well-formed and not, and changes of its handler", judgeHistory, func(_ bool, emit func(string)) {
			var rec func(s string)
			rec = func(s string) {
				for _, l := range letters {
					emit(s + string(l))
					if len(s)+1 < n {
						rec(s + string(l))
					}
				}
			}
			rec("")
		})
	}
	handlers := list("histories of handlers", "all sequences of at most "+itoa(n)+" documents with one recorder, with and without a tree builder", judgeHistory, func(_ bool, emit func(string)) {
		var rec func(s string)
		rec = func(s string) {
			for _, l := range letters {
				emit(s + string(l))
				if len(s) < n {
					rec(s + string(l))
				}
			}
		}
		rec("R")
		rec("S")
	})
	return []*Space{seqs("histories", n, letters), handlers, seqs("histories with changes of the handler", n+1, "TRSbdegk")}
}

func keysOf(m map[string]string) string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return strings.Join(keys(b), "")
}

func init() {
	register(&Property{ID: "C15", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, small, medium)
		return join(historySpaces(z), treeSpaces(z, judgeInput), everything(small, judgeInput))
	}})
}
