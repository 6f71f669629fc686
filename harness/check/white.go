package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

// White space: which of it is reported as character data, and which as
// ignorable

type whiteHandler struct {
	sax.SAX2Handler
	v view
}

func (h *whiteHandler) chars(kind string, ch []byte) {
	for _, r := range string(ch) {
		h.v.add("%s %q", kind, r)
	}
}

func (h *whiteHandler) Characters(ctx sax.Context, ch []byte) error {
	h.chars("characters", ch)
	return h.SAX2Handler.Characters(ctx, ch)
}

func (h *whiteHandler) IgnorableWhitespace(ctx sax.Context, ch []byte) error {
	h.chars("ignorable", ch)
	return h.SAX2Handler.IgnorableWhitespace(ctx, ch)
}

func (h *whiteHandler) CDataBlock(ctx sax.Context, ch []byte) error {
	h.chars("cdata", ch)
	return h.SAX2Handler.CDataBlock(ctx, ch)
}

func (h *whiteHandler) StartElementNS(ctx sax.Context, local, prefix, uri string, ns []sax.Namespace, attrs []sax.Attribute) error {
	h.v.add("start %s", local)
	return h.SAX2Handler.StartElementNS(ctx, local, prefix, uri, ns, attrs)
}

func (h *whiteHandler) EndElementNS(ctx sax.Context, local, prefix, uri string) error {
	h.v.add("end %s", local)
	return h.SAX2Handler.EndElementNS(ctx, local, prefix, uri)
}

// kinds of contents that an element is declared with: c may have elements
// only, m may have text, and of n nothing is said here
var whiteModels = []struct{ decl, kind string }{
	{"", "n"}, {"<!ELEMENT # EMPTY>", "n"}, {"<!ELEMENT # ANY>", "m"}, {"<!ELEMENT # (#PCDATA)>", "m"}, {"<!ELEMENT # (#PCDATA)*>", "m"}, {"<!ELEMENT # (#PCDATA|a)*>", "m"}, {"<!ELEMENT # (#PCDATA|a|p:r|r)*>", "m"},
	{"<!ELEMENT # (a)>", "c"}, {"<!ELEMENT # (a)*>", "c"}, {"<!ELEMENT # (a*)>", "c"}, {"<!ELEMENT # (a,r?,p:r?)>", "c"}, {"<!ELEMENT # ((a|r)+,p:r?)>", "c"}, {"<!ELEMENT # ((((a))))>", "c"},
}

// where xml:space is said: declarations, attributes of the elements around and
// before, attributes of the element, and whether it says to preserve
var whitePlaces = []struct {
	decl, before, attrs, after string
	preserve                   bool
}{
	{},
	{attrs: " xml:space='preserve'", preserve: true}, {attrs: ` b="c" xml:space = "preserve" c=""`, preserve: true}, {attrs: " xml:space='default'"},
	{before: "<o xml:space='preserve'>", after: "</o>", preserve: true}, {before: "<o xml:space='preserve'><q><q>", after: "</q></q></o>", preserve: true},
	{before: "<o xml:space='preserve'><q xml:space='default'>", after: "</q></o>"}, {before: "<o xml:space='preserve'>", attrs: " xml:space='default'", after: "</o>"},
	{before: "<o xml:space='default'>", attrs: " xml:space='preserve'", after: "</o>", preserve: true},
	{before: "<o><q xml:space='preserve'> </q>", after: "</o>"}, {before: "<o><q xml:space='preserve'/>", after: "</o>"}, {before: "<o><q xml:space='preserve'><q xml:space='default'/></q>", after: "</o>"},
	{before: "<o xml:space='preserve'><q xml:space='default'/>", after: "</o>", preserve: true}, {before: "<o xml:space='preserve'><q xml:space='default'><q/></q>", after: "</o>", preserve: true},
	{attrs: " space='preserve'"}, {attrs: " xml:spac='preserve'"}, {attrs: " p:space='preserve'"},
	{decl: "<!ATTLIST # xml:space (default|preserve) 'preserve'>", preserve: true}, {decl: "<!ATTLIST # xml:space (default|preserve) #FIXED 'preserve'>", preserve: true}, {decl: "<!ATTLIST # xml:space (default|preserve) 'default'>"}, {decl: "<!ATTLIST # xml:space (default|preserve) 'preserve'>", attrs: " xml:space='default'"}, {decl: "<!ATTLIST # xml:space (default|preserve) #IMPLIED>"},
	{decl: "<!ATTLIST o xml:space (default|preserve) 'preserve'>", before: "<o>", after: "</o>", preserve: true}, {decl: "<!ATTLIST a xml:space (default|preserve) 'preserve'>"},
}

var whiteItems = []string{" ", "\n\t", "{70}", "{400}", "x", " x", "x\n ", "&#32;", "&#xa;", "&lt;", "<a/>", "<a> </a>", "<a>y</a>", "<![CDATA[ ]]>", "<![CDATA[]]>", "<!--c-->", "<?p d?>", "\r\n", "\u00a0", "\u2003\n", " \u0085", "\n\u3000 ", "&#9;", "&#13;"}

var whiteNames = []string{"r", "p:r"}

// judgeWhite: the key is the numbers of the parts
func judgeWhite(c *counter, key string) string {
	f := strings.Fields(key)
	var n [4]int
	for i := range n {
		n[i] = int(f[i][0] - 'A')
	}
	model, place, name, amodel := whiteModels[n[0]], whitePlaces[n[1]], whiteNames[n[2]], whiteModels[n[3]]
	body := ""
	if len(f) > 4 {
		for _, x := range f[4] {
			body += whiteItems[x-'A']
		}
	}
	for _, k := range []int{70, 400} {
		body = strings.Replace(body, "{"+itoa(k)+"}", strings.Repeat(" ", k), -1)
	}
	sub := func(s, name string) string { return strings.Replace(s, "#"+" ", name+" ", -1) }
	decls := sub(model.decl, name) + sub(amodel.decl, "a") + sub(place.decl, name)
	doc := "<!DOCTYPE r [" + decls + "]>" + place.before + "<" + name + place.attrs + " xmlns:p='u'>" + body + "</" + name + ">" + place.after
	for _, tree := range []bool{true, false} {
		c.Traces++
		c.Evals++
		h := &whiteHandler{SAX2Handler: sax.SAX2{}}
		if tree {
			h.SAX2Handler = helium.NewTreeBuilder()
		}
		p := parseSAX(h, []byte(doc))
		if p.panic != "" || p.err != nil {
			return fmt.Sprintf("%q: %v%s", doc, p.err, p.panic)
		}
		got := strings.Join(h.v, "\n")
		want := whiteExpected(body, name, model.kind, amodel.kind, place.preserve, strings.HasPrefix(place.decl, "<!ATTLIST a"))
		// of what is before and after the element, nothing is said
		from := "start r"
		i := strings.Index(got, from)
		j := strings.LastIndex(got, "end r")
		if i < 0 || j < 0 {
			return fmt.Sprintf("%q: no element r in %s", doc, got)
		}
		lines := strings.Split(strings.TrimSpace(got[i+len(from):j]), "\n")
		if lines[0] == "" {
			lines = nil
		}
		if s := diffWhite(lines, want); s != "" {
			return fmt.Sprintf("%q (tree: %v): %s", doc, tree, s)
		}
		c.outcome(got)
	}
	return ""
}

// diffWhite compares; where text is expected of which it is not said whether it
// is ignorable, both will do, if all the same
func diffWhite(got, want []string) string {
	last := ""
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(end)", "(end)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if strings.HasPrefix(w, "either ") {
			kind := strings.Fields(g)[0]
			if (kind == "characters" || kind == "ignorable") && strings.HasSuffix(g, w[7:]) && (last == "" || kind == last) {
				last = kind
				continue
			}
		}
		last = ""
		if g != w {
			return fmt.Sprintf("item %d is %s, expected %s", i, g, w)
		}
	}
	return ""
}

// whiteExpected is what a handler is told about the content of an element
func whiteExpected(body, name, kind, akind string, preserve, apreserve bool) []string {
	var out []string
	kinds := []string{kind}
	blank := func(r byte) bool { return r == ' ' || r == '\n' || r == '\t' }
	body = strings.Replace(body, "\r\n", "\n", -1)
	for len(body) > 0 {
		switch {
		case strings.HasPrefix(body, "<a/>"):
			out = append(out, "start a", "end a")
			body = body[4:]
		case strings.HasPrefix(body, "<a>"):
			out = append(out, "start a")
			kinds = append(kinds, akind)
			body = body[3:]
		case strings.HasPrefix(body, "</a>"):
			out = append(out, "end a")
			kinds = kinds[:1]
			body = body[4:]
		case strings.HasPrefix(body, "<!--"):
			body = body[strings.Index(body, "-->")+3:]
		case strings.HasPrefix(body, "<?"):
			body = body[strings.Index(body, "?>")+2:]
		case strings.HasPrefix(body, "<![CDATA["):
			k := strings.Index(body, "]]>")
			for _, r := range body[9:k] {
				out = append(out, fmt.Sprintf("cdata %q", r))
			}
			body = body[k+3:]
		case body[0] == '&':
			k := strings.IndexByte(body, ';')
			r := map[string]rune{"&#32": ' ', "&#xa": '\n', "&#9": '\t', "&#13": '\r', "&lt": '<'}[body[:k]]
			out = append(out, fmt.Sprintf("characters %q", r))
			body = body[k+1:]
		default:
			k := strings.IndexAny(body, "<&")
			if k < 0 {
				k = len(body)
			}
			how := "ignorable"
			for i := 0; i < k; i++ {
				if !blank(body[i]) {
					how = "characters"
				}
			}
			in := kinds[len(kinds)-1]
			switch {
			case how == "characters":
			case preserve || len(kinds) > 1 && apreserve || in == "m":
				how = "characters"
			case in == "n":
				how = "either"
			}
			for _, r := range body[:k] {
				out = append(out, fmt.Sprintf("%s %q", how, r))
			}
			body = body[k:]
		}
	}
	return out
}

func whiteSpaces(depth int) []*Space {
	letter := func(i int) string { return string(rune('A' + i)) }
	return []*Space{
		list("white space in content", fmt.Sprintf("%d declarations × %d places of xml:space × %d names × declarations of the element within × all sequences of at most %d of %d items, with and without a tree", len(whiteModels), len(whitePlaces), len(whiteNames), depth, len(whiteItems)), judgeWhite, func(_ bool, emit func(string)) {
			var bodies []string
			var rec func(n int, s string)
			rec = func(n int, s string) {
				bodies = append(bodies, s)
				if n < depth {
					for i := range whiteItems {
						rec(n+1, s+letter(i))
					}
				}
			}
			rec(0, "")
			for m := range whiteModels {
				for p := range whitePlaces {
					for n := range whiteNames {
						for _, a := range []int{0, 3, 8} {
							for _, b := range bodies {
								if a > 0 && !strings.ContainsAny(b, "KLM") {
									continue
								}
								emit(letter(m) + " " + letter(p) + " " + letter(n) + " " + letter(a) + " " + b)
							}
						}
					}
				}
			}
		}),
	}
}

func init() {
	register(&Property{ID: "C24", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return whiteSpaces(3)
		}
		return whiteSpaces(2)
	}})
}
