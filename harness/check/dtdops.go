package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Document types that are put together by programs: sequences of operations on
// the document type of a document, and on one that belongs to none

type dtdOp struct {
	what string // subset, element, remove, entity, docentity
	on   int    // 0: of the document, 1: detached
	name string
	typ  int
	con  string // content: "", "pcdata", a name, "seq" and "or" have no parts
	text string
}

func (o dtdOp) String() string {
	return fmt.Sprintf("%s(%d %q %d %q %q)", o.what, o.on, o.name, o.typ, o.con, o.text)
}

var dtdOps = func() []dtdOp {
	var l []dtdOp
	l = append(l, dtdOp{what: "subset"}, dtdOp{what: "subset", con: "sys"}, dtdOp{what: "subset", con: "sys", text: "pub"})
	for _, n := range []string{"e", "p:e", "f"} {
		for _, c := range []dtdOp{{typ: 1}, {typ: 2}, {typ: 3, con: "pcdata"}, {typ: 4, con: "a"}, {typ: 4, con: "p:a"}} {
			c.what, c.name = "element", n
			l = append(l, c)
			if n == "e" {
				c.on = 1
				l = append(l, c)
			}
		}
	}
	// refused
	for _, c := range []dtdOp{{typ: 1, con: "a"}, {typ: 2, con: "pcdata"}, {typ: 3}, {typ: 4}, {typ: 0}, {typ: 5}, {typ: -1, con: "a"}, {typ: 4, con: "seq"}, {typ: 4, con: "or"}} {
		c.what, c.name = "element", "e"
		l = append(l, c)
	}
	l = append(l, dtdOp{what: "remove", name: "e"}, dtdOp{what: "remove", name: "p:e"}, dtdOp{what: "remove", name: "e", on: 1})
	for _, n := range []string{"e", "f"} {
		for t := 0; t <= 7; t++ {
			l = append(l, dtdOp{what: "entity", name: n, typ: t, text: "v" + itoa(t)})
		}
	}
	l = append(l, dtdOp{what: "entity", name: "e", typ: 1, text: "w"}, dtdOp{what: "entity", name: "e", typ: 1, text: "w", on: 1}, dtdOp{what: "entity", name: "e", typ: 4, text: "w", on: 1}, dtdOp{what: "docentity", name: "e", typ: 1, text: "x"}, dtdOp{what: "docentity", name: "f", typ: 4, text: "x"})
	// texts that have to be quoted
	for _, t := range []string{"%", "a'b", "a\"b", "'\"'\"x", "\"%\"", "a%\"b\"%'", "\"", "%%x", "<x a='%'>\"</x>", "é%", ""} {
		l = append(l, dtdOp{what: "entity", name: "e", typ: 1, text: t}, dtdOp{what: "entity", name: "f", typ: 4, text: t})
	}
	for _, n := range []string{"e", "f"} {
		l = append(l, dtdOp{what: "orig", name: n, text: "o&#37;\"'"}, dtdOp{what: "orig", name: n, typ: 1, text: "&#x6f;"}, dtdOp{what: "check", name: n}, dtdOp{what: "check", name: n, typ: 1})
	}
	return l
}()

// dtdModel is what is expected of a document type
type dtdModel struct {
	elements map[string]*helium.ElementDecl // by qualified name
	models   map[string]string
	ents     [2]map[string]*helium.Entity
	children []helium.Node
	written  []string // as the model of documents has declarations
	removed  bool
	where    [2]map[string]int // entities in children
	checked  map[*helium.Entity]bool
	pub, sys string
}

func newDTDModel() *dtdModel {
	return &dtdModel{elements: map[string]*helium.ElementDecl{}, models: map[string]string{}, ents: [2]map[string]*helium.Entity{{}, {}}, where: [2]map[string]int{{}, {}}, checked: map[*helium.Entity]bool{}}
}

func (m *dtdModel) entity(o dtdOp) (known *helium.Entity, k int, ok bool) {
	switch o.typ {
	case 1, 2, 3:
		k = 0
	case 4, 5:
		k = 1
	default:
		return nil, 0, false
	}
	return m.ents[k][o.name], k, true
}

// judgeDTDOps: the key is a sequence of operations, by number
func judgeDTDOps(c *counter, key string) string {
	c.Traces++
	c.Evals++
	d := helium.CreateDocument()
	root, err := d.CreateElement("r")
	if err != nil {
		return err.Error()
	}
	if err := d.SetDocumentElement(root); err != nil {
		return err.Error()
	}
	x, err := d.CreateDTD()
	if err != nil {
		return err.Error()
	}
	contents := map[string]*helium.ElementContent{} // shared by all operations
	for n, t := range map[string]helium.ElementContentType{"pcdata": helium.ElementContentPCDATA, "seq": helium.ElementContentSeq, "or": helium.ElementContentOr, "a": helium.ElementContentElement, "p:a": helium.ElementContentElement} {
		name := n
		if t != helium.ElementContentElement {
			name = ""
		}
		if contents[n], err = d.CreateElementContent(name, t); err != nil {
			return err.Error()
		}
	}
	dtds := []*helium.DTD{nil, x}
	models := []*dtdModel{newDTDModel(), newDTDModel()}
	var log []string
	ops := strings.Fields(key)
	for _, f := range ops {
		var n int
		fmt.Sscan(f, &n)
		o := dtdOps[n]
		log = append(log, o.String())
		if s := guard(func() { err = dtdStep(d, dtds, models, contents, o) }); s != "" {
			return strings.Join(log, ", ") + ": " + s
		}
		if err != nil {
			return strings.Join(log, ", ") + ": " + err.Error()
		}
	}
	// after all operations (those before are checked by shorter sequences)
	msg := ""
	if s := guard(func() { msg = dtdState(d, dtds, models) }); s+msg != "" {
		return strings.Join(log, ", ") + ": " + s + msg
	}
	if dtds[0] != nil {
		out, err, p := xmlString(d)
		if p != "" {
			return strings.Join(log, ", ") + ": " + p
		}
		bad := false
		for _, w := range models[0].written {
			bad = bad || w == "bad"
		}
		if bad != (err != nil) {
			return fmt.Sprintf("%s: written as %q with error %v", strings.Join(log, ", "), out, err)
		}
		if err == nil && !models[0].removed {
			if s := dtdWritten(out, models[0]); s != "" {
				return fmt.Sprintf("%s: written as %q: %s", strings.Join(log, ", "), out, s)
			}
		}
		c.outcome(out)
	}
	return ""
}

func dtdStep(d *helium.Document, dtds []*helium.DTD, models []*dtdModel, contents map[string]*helium.ElementContent, o dtdOp) error {
	if o.what == "subset" {
		dtd, err := d.CreateInternalSubset("r", o.text, o.con)
		if dtds[0] != nil {
			if err == nil {
				return fmt.Errorf("a second internal subset is accepted")
			}
			return nil
		}
		dtds[0] = dtd
		models[0].pub, models[0].sys = o.text, o.con
		return err
	}
	dtd, m := dtds[o.on], models[o.on]
	if dtd == nil {
		if o.what == "docentity" {
			if e, err := d.AddEntity(o.name, helium.EntityType(o.typ), "", "s", o.text); err == nil || e != nil {
				return fmt.Errorf("an entity is added without document type")
			}
		}
		return nil
	}
	switch o.what {
	case "element":
		e, err := dtd.AddElementDecl(o.name, helium.ElementTypeVal(o.typ), contents[o.con])
		ok := (o.typ == 1 || o.typ == 2) && o.con == "" || (o.typ == 3 || o.typ == 4) && o.con != ""
		if m.elements[o.name] != nil {
			ok = false
		}
		if ok != (err == nil) {
			return fmt.Errorf("error is %v", err)
		}
		if !ok {
			if e != nil {
				return fmt.Errorf("a declaration is returned with the error")
			}
			return nil
		}
		m.elements[o.name] = e
		m.children = append(m.children, e)
		switch {
		case o.con == "seq" || o.con == "or":
			m.written = append(m.written, "bad")
		case o.typ == 1:
			m.models[o.name] = "EMPTY"
		case o.typ == 2:
			m.models[o.name] = "ANY"
		case o.typ == 3:
			m.models[o.name] = "(#PCDATA)"
		default:
			m.models[o.name] = "(" + o.con + ")"
		}
		if len(m.written) < len(m.children) {
			m.written = append(m.written, "element "+o.name+" "+m.models[o.name])
		}
	case "remove":
		local, prefix := o.name, ""
		if i := strings.IndexByte(o.name, ':'); i >= 0 {
			prefix, local = o.name[:i], o.name[i+1:]
		}
		dtd.RemoveElement(local, prefix)
		if m.elements[o.name] != nil {
			m.removed = true
		}
		delete(m.elements, o.name)
		delete(m.models, o.name)
	case "orig", "check":
		e := m.ents[o.typ][o.name]
		if e == nil {
			return nil
		}
		before := e.EntityType()
		if o.what == "check" {
			e.MarkChecked()
			m.checked[e] = true
		} else {
			if before == 3 {
				return nil // that would be the name of its notation
			}
			e.SetOrig(o.text)
			if before != 2 && before != 5 {
				w := strings.NewReplacer("&#37;", "%", "&#x6f;", "o").Replace(o.text)
				m.written[m.where[o.typ][o.name]] = fmt.Sprintf("entity %s %d %s", o.name, before, w)
			}
		}
	case "entity", "docentity":
		add := dtd.AddEntity
		if o.what == "docentity" {
			add = d.AddEntity
		}
		pub, sys := "", "s"
		if o.typ == 1 || o.typ == 4 {
			sys = ""
		}
		e, err := add(o.name, helium.EntityType(o.typ), pub, sys, o.text)
		known, k, ok := m.entity(o)
		if ok != (err == nil) {
			return fmt.Errorf("error is %v", err)
		}
		if !ok {
			if e != nil {
				return fmt.Errorf("an entity is returned with the error")
			}
			return nil
		}
		if known != nil {
			if e != known {
				return fmt.Errorf("it is not the first declaration that is returned")
			}
			return nil
		}
		if e.Name() != o.name || e.EntityType() != o.typ || string(e.Content()) != o.text {
			return fmt.Errorf("entity is %q %d %q", e.Name(), e.EntityType(), e.Content())
		}
		m.ents[k][o.name] = e
		m.where[k][o.name] = len(m.children)
		m.children = append(m.children, e)
		m.written = append(m.written, fmt.Sprintf("entity %s %d %s", o.name, o.typ, o.text))
	}
	return nil
}

// dtdState compares what can be looked up
func dtdState(d *helium.Document, dtds []*helium.DTD, models []*dtdModel) string {
	if s, err := d.InternalSubset(); (err == nil) != (dtds[0] != nil) || s != dtds[0] {
		return fmt.Sprintf("internal subset is %v %v", s, err)
	}
	if d.IntSubset() != dtds[0] || d.ExtSubset() != nil {
		return "subsets of the document are others"
	}
	for i, dtd := range dtds {
		m := models[i]
		for _, n := range []string{"e", "p:e", "f", "p:f", "p", ":e", "e:p", ""} {
			local, prefix := n, ""
			if k := strings.IndexByte(n, ':'); k >= 0 {
				prefix, local = n[:k], n[k+1:]
			}
			want := m.elements[n]
			if n == ":e" {
				want = m.elements["e"]
			}
			if dtd != nil {
				if e, ok := dtd.LookupElement(local, prefix); ok != (want != nil) || ok && e != want {
					return fmt.Sprintf("element %q is %v, %v", n, e, ok)
				}
				if e, ok := dtd.GetElementDesc(n); ok != (want != nil) || ok && e != want {
					return fmt.Sprintf("description of element %q is %v, %v", n, e, ok)
				}
				if e, ok := dtd.LookupAttribute(local, prefix, "e"); ok || e != nil {
					return "there is an attribute " + n
				}
				for k := range m.ents {
					if e := m.ents[k][n]; e != nil && e.Checked() != m.checked[e] {
						return fmt.Sprintf("entity %q is checked: %v", n, e.Checked())
					}
				}
				for k, f := range []func(string) (*helium.Entity, bool){dtd.LookupEntity, dtd.LookupParameterEntity} {
					if e, ok := f(n); ok != (m.ents[k][n] != nil) || ok && e != m.ents[k][n] {
						return fmt.Sprintf("entity %q is %v, %v", n, e, ok)
					}
				}
			}
			if i > 0 {
				continue
			}
			for k, f := range []func(string) (*helium.Entity, bool){d.GetEntity, d.GetParameterEntity} {
				if e, ok := f(n); ok != (m.ents[k][n] != nil) || ok && e != m.ents[k][n] {
					return fmt.Sprintf("entity %q of the document is %v, %v", n, e, ok)
				}
			}
			mixed, err := d.IsMixedElement(n)
			if (err == nil) != (want != nil) {
				return fmt.Sprintf("whether element %q is mixed: error %v", n, err)
			}
			if want != nil && n != ":e" {
				if model := m.models[n]; mixed != (model == "ANY" || model == "EMPTY" || strings.HasPrefix(model, "(#")) {
					return fmt.Sprintf("element %q, which is %s, is mixed: %v", n, model, mixed)
				}
			}
		}
		if dtd == nil || m.removed {
			continue
		}
		k := 0
		for n := dtd.FirstChild(); !isNil(n); n = n.NextSibling() {
			if k >= len(m.children) || n != m.children[k] {
				return fmt.Sprintf("child %d of the document type is %T %q", k, n, n.Name())
			}
			if n.Parent() != helium.Node(dtd) || n.OwnerDocument() != d {
				return fmt.Sprintf("child %d of the document type has parent %v, document %v", k, n.Parent(), n.OwnerDocument())
			}
			k++
		}
		if k != len(m.children) {
			return fmt.Sprintf("the document type has %d children, expected %d", k, len(m.children))
		}
	}
	return ""
}

// dtdWritten compares what was written with what was declared
func dtdWritten(out string, m *dtdModel) string {
	r := ref.Parse(out)
	if r.V == ref.Unknown {
		return ""
	}
	if r.V != ref.WF {
		return "it is not well-formed: " + r.Msg
	}
	var got []string
	for _, n := range r.Doc.Nodes {
		if n.Kind != ref.Doctype {
			continue
		}
		if n.DT.Name != "r" || n.DT.Pub != m.pub || n.DT.Sys != m.sys || n.DT.HasSys != (m.sys != "") || n.DT.HasPub != (m.pub != "") {
			return fmt.Sprintf("the document type is %q with identifiers %q and %q", n.DT.Name, n.DT.Pub, n.DT.Sys)
		}
		for _, x := range n.DT.Decls {
			switch x.Kind {
			case "element":
				got = append(got, "element "+x.Name+" "+x.Model)
			case "entity", "pentity":
				t, text := 1, x.Text
				switch {
				case x.NData != "":
					t, text = 3, x.NData
				case x.External:
					t, text = 2, "v2"
				}
				if x.Kind == "pentity" {
					if t++; t == 2 {
						t = 4
					} else {
						t, text = 5, "v5"
					}
				}
				got = append(got, fmt.Sprintf("entity %s %d %s", x.Name, t, strings.Replace(text, "&quot;", "\"", -1)))
			}
		}
	}
	if s := diff(got, m.written); s != "" {
		return s
	}
	p := parseDOM([]byte(out))
	if p.err != nil || p.panic != "" {
		return fmt.Sprint("it is not read: ", p.err, p.panic)
	}
	return ""
}

func dtdSpaces(depth int) []*Space {
	// programs of ops, of at most n after the first operation
	programs := func(first string, ops []int, n int, emit func(string)) {
		var rec func(n int, s string)
		rec = func(n int, s string) {
			emit(s)
			if n == 0 {
				return
			}
			for _, i := range ops {
				rec(n-1, s+" "+itoa(i))
			}
		}
		rec(n, first)
	}
	var all, core []int
	for i, o := range dtdOps {
		all = append(all, i)
		if o.what != "orig" && o.what != "check" && strings.ContainsAny(o.text, "%'\"") {
			continue
		}
		if o.what != "orig" && o.what != "check" && i > 0 {
			core = append(core, i)
		}
	}
	l := []*Space{
		list("operations on document types", fmt.Sprintf("all sequences of at most 3 of %d operations after the internal subset was made, without and with identifiers, and of 2 before", len(all)), judgeDTDOps, func(_ bool, emit func(string)) {
			programs("0", all, 3, emit)
			programs("1", all, 2, emit)
			programs("2", all, 2, emit)
			programs("", all, 2, emit)
		}),
	}
	if depth > 3 {
		l = append(l, list("longer programs on document types", fmt.Sprintf("all sequences of %d of %d operations after the internal subset was made", depth, len(core)), judgeDTDOps, func(_ bool, emit func(string)) {
			programs("0", core, depth, emit)
		}))
	}
	return l
}

func init() {
	register(&Property{ID: "C25", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return join(dtdSpaces(4), pairDeclSpaces(th))
		}
		return join(dtdSpaces(3), pairDeclSpaces(th))
	}})
}
