package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Sequences of operations on the nodes of a document, compared with a model
// of trees as nested lists

// mnode is a node of the model
type mnode struct {
	id      string
	kind    string // document element text comment pi ref dtd decls entity
	content string
	kids    *mlist // of documents, elements
	in      *mlist // the list it is in
	attrs   []string
	ns      []string // namespaces declared
	prefix  string
	away    bool // in another document
}

// mlist is a list of siblings. Nodes that are not part of a tree are in lists
// without an owner
type mlist struct {
	owner *mnode
	items []*mnode
}

type forest struct {
	nodes map[string]*mnode
	order []string
	fresh int
	more  bool // namespaces and documents, too
}

func (f *forest) add(id, kind, content string) *mnode {
	n := &mnode{id: id, kind: kind, content: content}
	n.in = &mlist{items: []*mnode{n}}
	n.kids = &mlist{owner: n}
	f.nodes[id] = n
	f.order = append(f.order, id)
	return n
}

var universe = []struct{ id, kind, content string }{
	{"d", "document", ""}, {"e", "element", "a"}, {"f", "element", "b"}, {"t", "text", "x"}, {"u", "text", "<]]>"}, {"c", "comment", "y"}, {"p", "pi", "q"}, {"r", "ref", "z"},
}

func newForest() *forest {
	f := &forest{nodes: map[string]*mnode{}}
	for _, u := range universe {
		f.add(u.id, u.kind, u.content)
	}
	return f
}

func (n *mnode) container() bool {
	return n.kind == "document" || n.kind == "element" || n.kind == "decls" || n.kind == "entity"
}
func (n *mnode) alone() bool { return n.in.owner == nil && len(n.in.items) == 1 }

// under says whether n is m or a descendant of m
func (n *mnode) under(m *mnode) bool {
	for ; n != nil; n = n.in.owner {
		if n == m {
			return true
		}
	}
	return false
}

func (n *mnode) last() *mnode {
	if k := len(n.kids.items); k > 0 {
		return n.kids.items[k-1]
	}
	return nil
}

func (n *mnode) at() int {
	for i, m := range n.in.items {
		if m == n {
			return i
		}
	}
	panic("not in its list")
}

func (l *mlist) push(n *mnode) {
	l.items = append(l.items, n)
	n.in = l
}

func (n *mnode) adopt() {
	n.away = !n.away
	for _, k := range n.kids.items {
		k.adopt()
	}
}

// ops that can be done now with all nodes but some
func (f *forest) ops(without string) []string {
	var out []string
	var ids []string
	for _, id := range f.order {
		if !strings.Contains(without, id) {
			ids = append(ids, id)
		}
	}
	for _, a := range ids {
		n := f.nodes[a]
		for _, b := range ids {
			m := f.nodes[b]
			if m.kind == "document" || !m.alone() || n.under(m) && n != m {
				continue
			}
			// a document type that is not in a document has no siblings and
			// is in nothing; entities are nowhere else
			if m.kind == "decls" || m.kind == "entity" && n.kind != "decls" && n.in.owner != f.nodes["g"] {
				continue
			}
			if n.away != m.away {
				continue // nodes are moved to a document first
			}
			if n.kind == "decls" {
				out = append(out, "child "+a+" "+b)
				continue
			}
			if n != m && m.kind != "entity" && n.kind != "pi" && n.kind != "ref" && n.kind != "dtd" {
				out = append(out, "child "+a+" "+b)
			}
			if n != m && n.kind != "document" {
				out = append(out, "sibling "+a+" "+b)
			}
			if n.kind != "document" {
				out = append(out, "replace "+a+" "+b)
			}
		}
		switch n.kind {
		case "element", "text", "comment", "entity":
			out = append(out, "content "+a+" +")
		}
		if n.kind == "element" {
			if n.alone() && !n.away {
				out = append(out, "root d "+a)
			}
			out = append(out, "attr "+a+" k", "attr "+a+" l")
			if f.more && len(n.ns) < 2 {
				out = append(out, "ns "+a+" "+[]string{"p", "q"}[len(n.ns)])
			}
			if f.more {
				for _, p := range n.ns {
					if p != n.prefix {
						out = append(out, "name "+a+" "+p)
					}
				}
			}
		}
		if f.more && n.in.owner == nil && n.kind != "document" {
			out = append(out, "adopt "+a+" "+a)
		}
	}
	out = append(out, "dtd d dt")
	return out
}

// do what an operation does in the model. fails: the operation is refused
func (f *forest) do(op string) (fails bool, fresh string) {
	w := strings.Fields(op)
	n := f.nodes[w[1]]
	m := f.nodes[w[2]]
	child := func(n, m *mnode) bool {
		l := n.last()
		if l != nil && l.kind == "text" && m.kind == "text" {
			l.content += m.content
			return false
		}
		n.kids.push(m)
		return true
	}
	switch w[0] {
	case "child":
		if !n.container() {
			if n.kind != m.kind {
				return true, ""
			}
			n.content += m.content
			return false, ""
		}
		child(n, m)
	case "sibling":
		if n.kind == "text" && m.kind == "text" && n.at() == len(n.in.items)-1 {
			n.content += m.content
			return false, ""
		}
		n.in.push(m)
	case "replace":
		if n == m {
			return false, ""
		}
		n.in.items[n.at()] = m
		m.in = n.in
		n.in = &mlist{items: []*mnode{n}}
	case "content":
		if !n.container() {
			n.content += w[2]
			return false, ""
		}
		f.fresh++
		id := fmt.Sprintf("n%d", f.fresh)
		m := f.add(id, "text", w[2])
		m.away = n.away
		if child(n, m) {
			return false, id
		}
		delete(f.nodes, id) // merged
		f.order = f.order[:len(f.order)-1]
	case "root":
		for _, x := range n.kids.items {
			if x.kind == "element" {
				f.do("replace " + x.id + " " + w[2])
				return false, ""
			}
		}
		child(n, m)
	case "attr":
		for _, a := range n.attrs {
			if a == w[2] {
				return true, ""
			}
		}
		n.attrs = append(n.attrs, w[2])
	case "more":
		f.more = true
	case "ns":
		n.ns = append(n.ns, w[2])
	case "name":
		n.prefix = w[2]
	case "adopt":
		n.adopt()
	case "decls":
		g, h := f.add("g", "decls", ""), f.add("h", "entity", "")
		h.in = g.kids
		g.kids.items = append(g.kids.items, h)
	case "dtd":
		if m != nil {
			return true, ""
		}
		m = f.add("dt", "dtd", "D")
		m.in = n.kids // before the first element
		i := 0
		for i < len(n.kids.items) && n.kids.items[i].kind != "element" {
			i++
		}
		n.kids.items = append(n.kids.items[:i], append([]*mnode{m}, n.kids.items[i:]...)...)
		return false, "dt"
	}
	return false, ""
}

// state of the forest, in a canonical form
func (f *forest) state() string {
	var b strings.Builder
	ids := append([]string{}, f.order...)
	sort.Strings(ids)
	for _, id := range ids {
		n := f.nodes[id]
		fmt.Fprintf(&b, "%s=%s,%s,%s,%s,%v", id, n.content, n.attrs, n.ns, n.prefix, n.away)
		for _, l := range []*mlist{n.kids, n.in} {
			b.WriteByte('(')
			for _, x := range l.items {
				b.WriteString(x.id + " ")
			}
			b.WriteByte(')')
		}
	}
	return b.String()
}

// actual is the implementation's side
type actual struct {
	doc   *helium.Document
	other *helium.Document
	nodes map[string]helium.Node
}

func newActual() *actual {
	d := helium.CreateDocument()
	a := &actual{doc: d, other: helium.CreateDocument(), nodes: map[string]helium.Node{"d": d}}
	for _, u := range universe[1:] {
		switch u.kind {
		case "element":
			a.nodes[u.id], _ = d.CreateElement(u.content)
		case "text":
			a.nodes[u.id], _ = d.CreateText([]byte(u.content))
		case "comment":
			a.nodes[u.id], _ = d.CreateComment([]byte(u.content))
		case "pi":
			a.nodes[u.id], _ = d.CreatePI(u.content, "")
		case "ref":
			a.nodes[u.id], _ = d.CreateReference(u.content)
		}
	}
	return a
}

func (a *actual) do(op string) error {
	w := strings.Fields(op)
	n, m := a.nodes[w[1]], a.nodes[w[2]]
	switch w[0] {
	case "child":
		return n.AddChild(m)
	case "sibling":
		return n.AddSibling(m)
	case "replace":
		n.Replace(m)
	case "content":
		b := []byte(w[2])
		err := n.AddContent(b)
		for i := range b { // what is added is a copy
			b[i] = '!'
		}
		return err
	case "root":
		return a.doc.SetDocumentElement(m)
	case "attr":
		return n.(*helium.Element).SetAttribute(w[2], "v")
	case "ns":
		return n.(*helium.Element).SetNamespace(w[2], "u"+w[2])
	case "name":
		return n.(*helium.Element).SetNamespace(w[2], "u"+w[2], true)
	case "adopt":
		if n.OwnerDocument() == a.doc {
			n.SetTreeDoc(a.other)
		} else {
			n.SetTreeDoc(a.doc)
		}
	case "decls":
		g, err := a.doc.CreateDTD()
		if err != nil {
			return err
		}
		h, err := g.AddEntity("h", helium.InternalGeneralEntity, "", "", "v")
		a.nodes["g"], a.nodes["h"] = g, h
		return err
	case "dtd":
		_, err := a.doc.CreateInternalSubset("D", "", "")
		return err
	}
	return nil
}

func judgeOps(c *counter, key string) string {
	c.Traces++
	c.Evals++
	f := newForest()
	a := newActual()
	var msg string
	if s := guard(func() { msg = runOps(c, key, f, a) }); s != "" {
		return s
	}
	return msg
}

func runOps(c *counter, key string, f *forest, a *actual) string {
	for _, op := range strings.Split(key, "; ") {
		fails, fresh := f.do(op)
		err := a.do(op)
		if (err != nil) != fails {
			return fmt.Sprintf("%s: error %v, expected one: %v", op, err, fails)
		}
		if fresh != "" {
			m := f.nodes[fresh]
			x := a.nodes[m.in.owner.id].LastChild()
			if m.kind == "dtd" {
				x = a.doc.IntSubset()
			}
			if isNil(x) {
				return op + ": adds nothing"
			}
			for id, y := range a.nodes {
				if x == y {
					return op + ": the last child is " + id
				}
			}
			a.nodes[fresh] = x
		}
		if s := compareForest(f, a); s != "" {
			return op + ": " + s
		}
	}
	c.outcome(f.state())

	// what the nodes contain, how they are walked, and what is written
	for _, id := range f.order {
		n := f.nodes[id]
		want, ok := contentOf(n)
		if got := string(a.nodes[id].Content()); ok && got != want {
			return fmt.Sprintf("the content of %s is %q, expected %q", id, got, want)
		}
		var names, wantNames []string
		err := helium.Walk(a.nodes[id], func(x helium.Node) error {
			name := "?"
			for k, y := range a.nodes {
				if x == y {
					name = k
				}
			}
			if len(names) > 100 {
				return errFault
			}
			names = append(names, name)
			return nil
		})
		preorder(n, &wantNames)
		if err != nil || strings.Join(names, " ") != strings.Join(wantNames, " ") {
			return fmt.Sprintf("walk of %s visits %v, expected %v (%v)", id, names, wantNames, err)
		}
		if n.in.owner == nil && n.kind != "dtd" && n.kind != "decls" && n.kind != "entity" {
			got, err := dumpNode(a.nodes[id])
			if n.kind == "document" {
				var pan string
				got, err, pan = xmlString(a.doc)
				if pan != "" {
					return "writing the document: " + pan
				}
				if i := strings.Index(got, "?>"); i >= 0 && strings.HasPrefix(got, "<?xml") {
					got = got[i+2:]
				}
				got = strings.Join(strings.Split(got, "\n"), "")
			}
			if err != nil {
				return fmt.Sprintf("writing %s: %v", id, err)
			}
			if s := sameMarkup(got, n); s != "" {
				return "writing " + id + ": " + s
			}
		}
	}
	return ""
}

func preorder(n *mnode, out *[]string) {
	*out = append(*out, n.id)
	for _, k := range n.kids.items {
		preorder(k, out)
	}
}

// contentOf a node: the text in it. How comments and references in it count is
// not defined
func contentOf(n *mnode) (string, bool) {
	switch n.kind {
	case "text", "comment":
		return n.content, true
	case "document", "element":
		s := ""
		for _, k := range n.kids.items {
			t, ok := contentOf(k)
			if !ok || k.kind == "comment" {
				return "", false
			}
			s += t
		}
		return s, true
	case "pi", "ref":
		return "", n.kind == "pi"
	}
	return "", false
}

func same(x helium.Node, y helium.Node) bool {
	if isNil(x) || isNil(y) {
		return isNil(x) && isNil(y)
	}
	return x == y
}

func compareForest(f *forest, a *actual) string {
	for _, id := range f.order {
		n, x := f.nodes[id], a.nodes[id]
		get := func(l *mlist, i int) helium.Node {
			if i < 0 || i >= len(l.items) {
				return nil
			}
			return a.nodes[l.items[i].id]
		}
		var parent helium.Node
		if o := n.in.owner; o != nil {
			parent = a.nodes[o.id]
		}
		i := n.at()
		for _, l := range []struct {
			what      string
			got, want helium.Node
		}{
			{"parent", x.Parent(), parent},
			{"previous sibling", x.PrevSibling(), get(n.in, i-1)},
			{"next sibling", x.NextSibling(), get(n.in, i+1)},
			{"first child", x.FirstChild(), get(n.kids, 0)},
			{"last child", x.LastChild(), get(n.kids, len(n.kids.items)-1)},
		} {
			if !same(l.got, l.want) {
				name := func(y helium.Node) string {
					if isNil(y) {
						return "none"
					}
					for k, z := range a.nodes {
						if z == y {
							return k
						}
					}
					return "another node"
				}
				return fmt.Sprintf("the %s of %s is %s, expected %s", l.what, id, name(l.got), name(l.want))
			}
		}
		doc := a.doc
		if n.away {
			doc = a.other
		}
		if id != "d" && x.OwnerDocument() != doc {
			return "the owner of " + id + " is another document"
		}
		if n.kind == "text" || n.kind == "comment" {
			if got := string(x.Content()); got != n.content {
				return fmt.Sprintf("the content of %s is %q, expected %q", id, got, n.content)
			}
		}
		if e, ok := x.(*helium.Element); ok {
			var got []string
			var prev *helium.Attribute
			for _, at := range e.Attributes() {
				got = append(got, at.Name())
				if at.Value() != "v" || at.OwnerDocument() != doc {
					return fmt.Sprintf("attribute %s of %s has value %q", at.Name(), id, at.Value())
				}
				if prev != nil && (prev.NextAttribute() != at || at.PrevSibling() != helium.Node(prev)) {
					return "attributes of " + id + " are not linked"
				}
				prev = at
			}
			if strings.Join(got, " ") != strings.Join(n.attrs, " ") {
				return fmt.Sprintf("attributes of %s are %v, expected %v", id, got, n.attrs)
			}
			var ns []string
			for _, d := range e.Namespaces() {
				ns = append(ns, d.Prefix())
				if d.URI() != "u"+d.Prefix() {
					return fmt.Sprintf("%s binds %q to %q", id, d.Prefix(), d.URI())
				}
			}
			if strings.Join(ns, " ") != strings.Join(n.ns, " ") {
				return fmt.Sprintf("namespaces of %s are %v, expected %v", id, ns, n.ns)
			}
			name, uri := n.content, ""
			if n.prefix != "" {
				name, uri = n.prefix+":"+name, "u"+n.prefix
			}
			if e.Prefix() != n.prefix || e.Name() != name || e.LocalName() != n.content || e.URI() != uri {
				return fmt.Sprintf("the name of %s is %q %q %q, expected %s", id, e.Prefix(), e.LocalName(), e.URI(), name)
			}
		}
	}
	return ""
}

// sameMarkup says how what was written for a node differs from what it is
func sameMarkup(got string, n *mnode) string {
	var want []*ref.Node
	add(n, &want)
	if n.kind == "document" {
		want = want[0].Children
	}
	r := ref.Parse("<!DOCTYPE zz [<!ENTITY z 'Z'>]><zz>" + strings.Replace(got, "<!DOCTYPE D >", "<doctype/>", 1) + "</zz>")
	if r.V != ref.WF {
		return fmt.Sprintf("it gives %q", got)
	}
	var v, w view
	for _, x := range r.Doc.Nodes {
		if x.Kind == ref.Elem {
			refNodes(&v, x.Children)
		}
	}
	refNodes(&w, want)
	if s := diff(v, w); s != "" {
		return fmt.Sprintf("it gives %q: %s", got, s)
	}
	return ""
}

func add(n *mnode, out *[]*ref.Node) {
	var x *ref.Node
	switch n.kind {
	case "document", "element":
		x = &ref.Node{Kind: ref.Elem, Local: n.content}
		for _, a := range n.attrs {
			x.Attrs = append(x.Attrs, ref.Attr{Name: a, Escaped: "v"})
		}
		for _, p := range n.ns {
			x.NSDecls = append(x.NSDecls, ref.NS{Prefix: p, URI: "u" + p})
		}
		if x.Prefix = n.prefix; x.Prefix != "" {
			x.URI = "u" + x.Prefix
		}
		for _, k := range n.kids.items {
			add(k, &x.Children)
		}
	case "text":
		x = &ref.Node{Kind: ref.Text, Data: n.content}
	case "comment":
		x = &ref.Node{Kind: ref.Comment, Data: n.content}
	case "pi":
		x = &ref.Node{Kind: ref.PI, Target: n.content}
	case "ref":
		x = &ref.Node{Kind: ref.EntRef, Data: n.content}
	case "dtd":
		x = &ref.Node{Kind: ref.Elem, Local: "doctype"}
	}
	*out = append(*out, x)
}

func replayForest(ops []string) *forest {
	f := newForest()
	for _, o := range ops {
		f.do(o)
	}
	return f
}

// opSpaces: every sequence of operations to a depth, and to a greater one
// those that lead to a state of the model that no shorter sequence, or none
// that was tried before, leads to
func opSpaces(full int, decls int, deep ...map[int]string) []*Space {
	out := []*Space{
		{Name: "operations", Bound: fmt.Sprintf("all sequences of at most %d operations on a document, 2 elements, 2 texts, a comment, a processing instruction and a reference", full), Judge: judgeOps, Enum: func(e *enum) {
			var rec func(ops []string)
			rec = func(ops []string) {
				f := replayForest(ops)
				for _, o := range f.ops("") {
					next := append(append([]string{}, ops...), o)
					if len(next) == 2 && !e.mine() {
						continue
					}
					if len(next) >= 2 || e.shard == 0 {
						e.c.States++
						e.c.Transitions++
						if !e.visit(strings.Join(next, "; ")) {
							return
						}
					}
					if len(next) < full {
						rec(next)
					}
				}
			}
			rec(nil)
		}},
	}
	for _, m := range deep {
		for d, w := range m {
			out = append(out, stateSpace(d, w, nil))
		}
	}
	declared := stateSpace(decls, "fpr", []string{"decls d g"})
	declared.Name = "states of operations with declarations"
	declared.Bound = fmt.Sprintf("all states of the nodes and of a document type with an entity, reached by fewer than %d operations", decls)
	more := stateSpace(decls, "pur", []string{"more d d"})
	more.Name = "states of operations with namespaces and documents"
	more.Bound = fmt.Sprintf("all states of the nodes and of two documents that they can be in, with namespaces, reached by fewer than %d operations", decls)
	return append(out, declared, more)
}

func stateSpace(deep int, without string, first []string) *Space {
	name := "states of operations"
	if without != "" {
		name += " without " + without
	}
	return &Space{Name: name, Bound: fmt.Sprintf("all states of the nodes reached by at most %d operations, each by one sequence of those that reach it", deep), Judge: judgeOps, Enum: func(e *enum) {
		seen := map[string]bool{}
		level := [][]string{first}
		for depth := 1 + len(first); depth <= deep && len(level) > 0; depth++ {
			var next [][]string
			for _, ops := range level {
				f := replayForest(ops)
				for _, o := range f.ops(without) {
					n := append(append([]string{}, ops...), o)
					if depth == 2 && !e.mine() {
						continue
					}
					if depth >= 2 {
						e.c.Transitions++
					}
					s := replayForest(n).state()
					if seen[s] {
						continue
					}
					seen[s] = true
					if depth > 2 {
						e.c.States++
						if !e.visit(strings.Join(n, "; ")) {
							return
						}
					}
					if depth < deep {
						next = append(next, n)
					}
				}
			}
			level = next
		}
	}}
}

func init() {
	register(&Property{ID: "C11", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return opSpaces(3, 6, map[int]string{4: ""}, map[int]string{5: "rp"}, map[int]string{6: "rpcu"})
		}
		return opSpaces(3, 5, map[int]string{4: "rp"}, map[int]string{5: "rpcu"})
	}})
}
