package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Attributes that are put together by programs: values with references, and
// changes to them afterwards

// a part of a value: text, or a reference to a declared entity
type valuePart struct{ text, ref string }

var valueTokens = []struct {
	spelled string
	part    valuePart
}{
	{"x", valuePart{text: "x"}},
	{" ", valuePart{text: " "}},
	{`"`, valuePart{text: `"`}},
	{"'", valuePart{text: "'"}},
	{"é]]>", valuePart{text: "é]]>"}},
	{"&lt;", valuePart{text: "<"}},
	{"&amp;", valuePart{text: "&"}},
	{"&quot;", valuePart{text: `"`}},
	{"&#65;", valuePart{text: "A"}},
	{"&#x26;", valuePart{text: "&"}},
	{"&#10;", valuePart{text: "\n"}},
	{"&#x1F600;", valuePart{text: "\U0001F600"}},
	{"&#xFFFD;", valuePart{text: "\uFFFD"}},
	{"&#xD7FF;&#xE000;", valuePart{text: "\uD7FF\uE000"}},
	{"&e;", valuePart{ref: "e"}},
	{"&f;", valuePart{ref: "f"}},
	{"&g;", valuePart{ref: "g"}},
	{"&h;", valuePart{ref: "h"}},
}

// entities of the document
var attrEntities = [][3]string{{"e", "v", "v"}, {"f", "&e;-&lt;&e;", "v-<v"}, {"g", "", ""}, {"h", "&amp;", "&"}}

func valueMeaning(parts []valuePart) string {
	s := ""
	for _, p := range parts {
		s += p.text
		for _, e := range attrEntities {
			if p.ref == e[0] && p.ref != "" {
				s += e[2]
			}
		}
	}
	return s
}

// joined has no text next to text
func joined(parts []valuePart) []valuePart {
	var out []valuePart
	for _, p := range parts {
		if p.ref == "" && p.text == "" {
			continue
		}
		if n := len(out); n > 0 && p.ref == "" && out[n-1].ref == "" {
			out[n-1].text += p.text
			continue
		}
		out = append(out, p)
	}
	return out
}

var badValues = []string{"&", "&e", "&#", "&#6", "&#x", "&#x;g;", "&#a;", "&#6a;", "&#x110000;", "&#99999999999;", "&#;", "&#x;", "&#0;", "&#x1;", "&#11;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#xFFFF;", "&;", "x&", "&e;&", "&k;", "a&l;"}

var attrNames = []struct{ local, prefix, uri string }{{"a", "", ""}, {"b", "p", "u"}, {"é-1", "q", "u"}}

type attrOp struct {
	what string // content, text, ref, default, nodefault
	arg  string
}

var attrOps = []attrOp{{"content", "y"}, {"content", "<&\""}, {"text", "z"}, {"text", "'\t>"}, {"ref", "e"}, {"ref", "&g;"}, {"default", ""}, {"nodefault", ""}, {"other", "&f;&e;"}}

func attrDoc(loop bool) (*helium.Document, *helium.DTD, *helium.Element, error) {
	d := helium.CreateDocument()
	dtd, err := d.CreateInternalSubset("r", "", "")
	if err != nil {
		return nil, nil, nil, err
	}
	for _, e := range attrEntities {
		if _, err := d.AddEntity(e[0], helium.InternalGeneralEntity, "", "", e[1]); err != nil {
			return nil, nil, nil, err
		}
	}
	if loop {
		for _, e := range []string{"k", "l"} {
			if _, err := d.AddEntity(e, helium.InternalGeneralEntity, "", "", map[string]string{"k": "&k;", "l": "x&k;"}[e]); err != nil {
				return nil, nil, nil, err
			}
		}
	}
	r, err := d.CreateElement("r")
	if err == nil {
		err = d.SetDocumentElement(r)
	}
	return d, dtd, r, err
}

// judgeAttribute: the key is how it is made (0: CreateAttribute, 1:
// SetAttribute), the number of the name, those of the tokens of the value, and
// those of the operations
func judgeAttribute(c *counter, key string) string {
	c.Traces++
	c.Evals++
	var msg string
	if s := guard(func() { msg = attribute(c, key) }); s != "" {
		return s
	}
	return msg
}

func attribute(c *counter, key string) string {
	f := strings.Split(key, "|")
	d, dtd, r, err := attrDoc(false)
	if err != nil {
		return err.Error()
	}
	before := entityState(dtd)
	var how, n int
	fmt.Sscan(f[0], &how)
	fmt.Sscan(f[1], &n)
	name := attrNames[n]
	var parts []valuePart
	value := ""
	for _, t := range strings.Fields(f[2]) {
		var i int
		fmt.Sscan(t, &i)
		value += valueTokens[i].spelled
		parts = append(parts, valueTokens[i].part)
	}
	log := fmt.Sprintf("%q", value)

	var a *helium.Attribute
	if how == 0 {
		var ns *helium.Namespace
		if name.prefix != "" {
			ns, err = d.CreateNamespace(name.prefix, name.uri)
			if err != nil || ns.Prefix() != name.prefix || ns.URI() != name.uri {
				return fmt.Sprint("namespace ", ns, err)
			}
		}
		if a, err = d.CreateAttribute(name.local, value, ns); err != nil {
			return fmt.Sprintf("%s: CreateAttribute: %v", log, err)
		}
		if a.Name() != qname(name.prefix, name.local) || a.LocalName() != name.local || a.Prefix() != name.prefix || a.URI() != name.uri {
			return fmt.Sprintf("attribute %q of %q is %q %q %q %q", name.local, name.prefix, a.Name(), a.LocalName(), a.Prefix(), a.URI())
		}
	} else {
		if err := r.SetAttribute(name.local, value); err != nil {
			return fmt.Sprintf("%s: SetAttribute: %v", log, err)
		}
		if err := r.SetAttribute("last", "&e;l&f;"); err != nil {
			return fmt.Sprintf("SetAttribute: %v", err)
		}
		l := r.Attributes()
		if len(l) != 2 || l[0].Name() != name.local || l[1].Name() != "last" || l[0].NextAttribute() != l[1] || l[1].NextAttribute() != nil {
			return "the element does not have its attributes"
		}
		a = l[0]
	}
	def := false
	check := func() string {
		want := joined(parts)
		if got := a.Value(); got != valueMeaning(want) {
			return fmt.Sprintf("%s: the value is %q, not %q", log, got, valueMeaning(want))
		}
		if a.Type() != helium.AttributeNode || a.OwnerDocument() != d || a.IsDefault() != def {
			return fmt.Sprintf("%s: type %s, owner %v, default %v", log, a.Type(), a.OwnerDocument() == d, a.IsDefault())
		}
		var prev helium.Node
		i := 0
		for x := a.FirstChild(); !isNil(x); x = x.NextSibling() {
			if i >= len(want) {
				return fmt.Sprintf("%s: more than %d children", log, len(want))
			}
			w := want[i]
			if w.ref != "" && (x.Type() != helium.EntityRefNode || x.Name() != w.ref) || w.ref == "" && (x.Type() != helium.TextNode || string(x.Content()) != w.text) {
				return fmt.Sprintf("%s: child %d is %s %q %q, not %q", log, i, x.Type(), x.Name(), x.Content(), w)
			}
			if x.Parent() != helium.Node(a) || !sameNode(x.PrevSibling(), prev) || x.OwnerDocument() != d {
				return fmt.Sprintf("%s: links of child %d", log, i)
			}
			prev = x
			i++
		}
		if i != len(want) || !sameNode(a.LastChild(), prev) {
			return fmt.Sprintf("%s: %d children of %d, last %v", log, i, len(want), sameNode(a.LastChild(), prev))
		}
		if got := entityState(dtd); got != before {
			return fmt.Sprintf("%s: declarations changed from %s to %s", log, before, got)
		}
		return ""
	}
	if s := check(); s != "" {
		return s
	}
	for _, t := range strings.Fields(f[3]) {
		var i int
		fmt.Sscan(t, &i)
		o := attrOps[i]
		log += fmt.Sprintf(", %s(%q)", o.what, o.arg)
		c.Transitions++
		switch o.what {
		case "content":
			b := []byte(o.arg)
			err = a.AddContent(b)
			scribble(b)
			parts = append(parts, valuePart{text: o.arg})
		case "text":
			var x *helium.Text
			if x, err = d.CreateText([]byte(o.arg)); err == nil {
				err = a.AddChild(x)
			}
			parts = append(parts, valuePart{text: o.arg})
		case "ref":
			var x *helium.EntityRef
			if x, err = d.CreateReference(o.arg); err == nil {
				err = a.AddChild(x)
			}
			parts = append(parts, valuePart{ref: strings.Trim(o.arg, "&;")})
		case "default", "nodefault":
			def = o.what == "default"
			a.SetDefault(def)
		case "other":
			var x *helium.Attribute
			if x, err = d.CreateAttribute("other", o.arg, nil); err == nil && (x.Value() != "v-<vv" || x.IsDefault() || !isNil(x.NextSibling())) {
				return log + ": another attribute has " + x.Value()
			}
		}
		if err != nil {
			return log + ": " + err.Error()
		}
		if s := check(); s != "" {
			return s
		}
	}
	c.outcome(f[0] + f[1] + valueMeaning(parts))
	if how == 0 || strings.Contains(value, "FFFD") { // helium does not read U+FFFD
		return ""
	}

	// as it is written, it has that value
	out, err := d.XMLString()
	if err != nil {
		return log + ": " + err.Error()
	}
	m := ref.Parse(out)
	if m.V != ref.WF {
		return fmt.Sprintf("%s: written as %q: %s", log, out, m.Msg)
	}
	p := parseDOM([]byte(out))
	if p.panic != "" || p.err != nil {
		return fmt.Sprintf("%s: written as %q, which is not read: %v%s", log, out, p.err, p.panic)
	}
	for _, nd := range m.Doc.Nodes {
		if nd.Kind != ref.Elem {
			continue
		}
		if len(nd.Attrs) != 2 || nd.Attrs[0].Name != name.local || flat(nd.Attrs[0].Val) != flatParts(parts) {
			return fmt.Sprintf("%s: written as %q", log, out)
		}
	}
	return ""
}

// flat has the text of a value, and its references
func flat(v ref.Value) string {
	s := ""
	for _, p := range v {
		if p.Ref != "" {
			s += "\x00" + p.Ref + "\x00"
		} else {
			s += p.Text
		}
	}
	return s
}

func flatParts(v []valuePart) string {
	s := ""
	for _, p := range v {
		if p.ref != "" {
			s += "\x00" + p.ref + "\x00"
		} else {
			s += p.text
		}
	}
	return s
}

func sameNode(a, b helium.Node) bool { return isNil(a) && isNil(b) || a == b }

// declarations is what can be seen of the entities
func entityState(dtd *helium.DTD) string {
	var b strings.Builder
	err := (&helium.Dumper{}).DumpNode(&b, dtd)
	s := fmt.Sprint(b.String(), err)
	for x := dtd.FirstChild(); !isNil(x); x = x.NextSibling() {
		s += fmt.Sprintf(";%s %q %v", x.Name(), x.Content(), x.Parent() == helium.Node(dtd))
	}
	return s
}

// judgeBadValue: values with broken references, and with entities that have no
// end, are refused
func judgeBadValue(c *counter, key string) string {
	c.Traces++
	c.Evals++
	var msg string
	if s := guard(func() {
		d, dtd, r, err := attrDoc(true)
		if err != nil {
			msg = err.Error()
			return
		}
		before := entityState(dtd)
		if a, err := d.CreateAttribute("a", key, nil); err == nil || a != nil {
			msg = fmt.Sprintf("CreateAttribute with %q: error %v, attribute %v", key, err, a != nil)
		}
		if err := r.SetAttribute("a", key); err == nil || len(r.Attributes()) > 0 {
			msg = fmt.Sprintf("SetAttribute with %q: error %v, %d attributes", key, err, len(r.Attributes()))
		}
		if got := entityState(dtd); got != before {
			msg = fmt.Sprintf("%q: declarations changed from %s to %s", key, before, got)
		}
		if err := r.SetAttribute("a", "&f;x"); err != nil || len(r.Attributes()) != 1 || r.Attributes()[0].Value() != "v-<vx" {
			msg = fmt.Sprintf("SetAttribute after a failure with %q: %v", key, err)
		}
	}); s != "" {
		return s
	}
	return msg
}

// judgeReference: the key is a name as it is given, and what is declared
func judgeReference(c *counter, key string) string {
	c.Traces++
	c.Evals++
	f := strings.Split(key, "|")
	d, _, _, err := attrDoc(false)
	if err != nil {
		return err.Error()
	}
	var msg string
	name := strings.Trim(f[0], "&;")
	if s := guard(func() {
		for i, make := range []func(string) (*helium.EntityRef, error){d.CreateReference, d.CreateCharRef} {
			x, err := make(f[0])
			if f[0] == "" {
				if err == nil {
					msg = "a reference to nothing"
				}
				continue
			}
			if err != nil {
				msg = fmt.Sprintf("%q: %v", f[0], err)
				return
			}
			if x.Name() != name || x.Type() != helium.EntityRefNode || x.OwnerDocument() != d || !isNil(x.Parent()) || !isNil(x.NextSibling()) || !isNil(x.PrevSibling()) {
				msg = fmt.Sprintf("reference %q is %s %q", f[0], x.Type(), x.Name())
				return
			}
			want := ""
			for _, e := range attrEntities {
				if e[0] == name && i == 0 {
					want = e[1]
					ent, ok := d.GetEntity(name)
					if !ok || !sameNode(x.FirstChild(), ent) || !sameNode(x.LastChild(), ent) {
						msg = fmt.Sprintf("reference %q does not lead to its entity", f[0])
					}
				}
			}
			if got := string(x.Content()); got != want {
				msg = fmt.Sprintf("reference %q has content %q, not %q", f[0], got, want)
			}
			var b strings.Builder
			if err := (&helium.Dumper{}).DumpNode(&b, x); err != nil || b.String() != "&"+name+";" {
				msg = fmt.Sprintf("reference %q is written %q (%v)", f[0], b.String(), err)
			}
			// names do not have to be declared first
			e, err := d.AddEntity("later", helium.InternalGeneralEntity, "", "", "w")
			if err != nil || string(e.Content()) != "w" {
				msg = fmt.Sprint(err)
			}
		}
	}); s != "" {
		return s
	}
	return msg
}

func attrSpaces(depth int) []*Space {
	return []*Space{
		list("attributes by programs", fmt.Sprintf("all values of at most %d of %d parts × %d names × sequences of at most 2 of %d operations (%d for values of one part), of attributes that are created or set", depth, len(valueTokens), len(attrNames), len(attrOps), depth), judgeAttribute, func(_ bool, emit func(string)) {
			var ops func(n int, s string, emit func(string))
			ops = func(n int, s string, emit func(string)) {
				emit(s)
				if n == 0 {
					return
				}
				for i := range attrOps {
					ops(n-1, s+" "+itoa(i), emit)
				}
			}
			var rec func(n int, s string)
			rec = func(n int, s string) {
				k := 2
				if n == depth {
					k = 1
				}
				if n < 2 {
					k = depth
				}
				for how := 0; how < 2; how++ {
					for name := range attrNames {
						if how == 1 && attrNames[name].prefix == "p" {
							continue
						}
						ops(k, "", func(o string) { emit(fmt.Sprintf("%d|%d|%s|%s", how, name, s, o)) })
					}
				}
				if n == depth {
					return
				}
				for i := range valueTokens {
					rec(n+1, s+" "+itoa(i))
				}
			}
			rec(0, "")
		}),
		list("broken values", "values with broken references, before and after all values of at most 2 parts", judgeBadValue, func(_ bool, emit func(string)) {
			for _, b := range badValues {
				emit(b)
				for _, t := range valueTokens {
					emit(t.spelled + b)
					if strings.HasSuffix(b, ";") {
						emit(b + t.spelled)
					}
					for _, u := range valueTokens {
						emit(t.spelled + u.spelled + b)
						if strings.HasSuffix(b, ";") {
							emit(t.spelled + b + u.spelled)
						}
					}
				}
			}
		}),
		list("references", "names of entities, declared or not, and numbers, with and without delimiters", judgeReference, func(_ bool, emit func(string)) {
			emit("")
			for _, n := range []string{"e", "f", "g", "h", "u", "lt", "#65", "#x41", "é", "a.b", "longer"} {
				emit(n)
				emit("&" + n + ";")
				emit("&" + n)
			}
		}),
	}
}

func init() {
	register(&Property{ID: "C26", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return join(attrSpaces(4), setSpaces(th))
		}
		return join(attrSpaces(3), setSpaces(th))
	}})
}

func qname(prefix, local string) string {
	if prefix == "" {
		return local
	}
	return prefix + ":" + local
}
