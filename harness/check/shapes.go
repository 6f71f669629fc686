package main

import (
	"fmt"
	"strings"
)

// Spaces of documents made of whole constructs: what sequences of tokens reach
// only at depths that cannot be enumerated

// model is a content particle of a content model
type particle struct {
	leaf bool
	sep  string
	occ  string
	kids []*particle
}

func (p *particle) write(b *strings.Builder, leaves *int) {
	if p.leaf {
		b.WriteString(string(rune('a' + *leaves)))
		*leaves++
	} else {
		b.WriteByte('(')
		for i, k := range p.kids {
			if i > 0 {
				b.WriteString(p.sep)
			}
			k.write(b, leaves)
		}
		b.WriteByte(')')
	}
	b.WriteString(p.occ)
}

// particles emits all content particles of n nodes, without occurrence
// indicators. What is emitted is used again afterwards
func particles(n int, emit func(p *particle)) {
	if n == 1 {
		emit(&particle{leaf: true})
		return
	}
	groups(n, emit)
}

func groups(n int, emit func(p *particle)) {
	var kids []*particle
	var rec func(left int)
	rec = func(left int) {
		if left == 0 {
			seps := []string{",", "|"}
			if len(kids) == 1 {
				seps = seps[:1]
			}
			for _, s := range seps {
				emit(&particle{sep: s, kids: append([]*particle{}, kids...)})
			}
			return
		}
		for k := 1; k <= left; k++ {
			particles(k, func(p *particle) {
				kids = append(kids, p)
				rec(left - k)
				kids = kids[:len(kids)-1]
			})
		}
	}
	rec(n - 1)
}

// occurrences emits the group with all assignments of at most k occurrence
// indicators
func occurrences(g *particle, k int, emit func(string)) {
	var nodes []*particle
	var walk func(p *particle)
	walk = func(p *particle) {
		nodes = append(nodes, p)
		for _, x := range p.kids {
			walk(x)
		}
	}
	walk(g)
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == len(nodes) {
			var b strings.Builder
			n := 0
			g.write(&b, &n)
			emit(b.String())
			return
		}
		rec(i+1, left)
		if left > 0 {
			for _, o := range []string{"?", "*", "+"} {
				nodes[i].occ = o
				rec(i+1, left-1)
			}
			nodes[i].occ = ""
		}
	}
	rec(0, k)
}

// slots emits the text with its slots filled: in all ways, of which at most k
// are other than the first choice. A slot is one of the keys of choices
func slots(text string, choices map[rune][]string, k int, emit func(string)) {
	rs := []rune(text)
	var rec func(i, left int, out string)
	rec = func(i, left int, out string) {
		for ; i < len(rs) && choices[rs[i]] == nil; i++ {
			out += string(rs[i])
		}
		if i == len(rs) {
			emit(out)
			return
		}
		for n, c := range choices[rs[i]] {
			if n == 0 {
				rec(i+1, left, out+c)
			} else if left > 0 {
				rec(i+1, left-1, out+c)
			}
		}
	}
	rec(0, k, "")
}

// runs emits all concatenations of at most n parts
func runs(parts []string, n int, emit func(string)) {
	var rec func(n int, s string)
	rec = func(n int, s string) {
		emit(s)
		if n > 0 {
			for _, p := range parts {
				rec(n-1, s+p)
			}
		}
	}
	rec(n, "")
}

// documents in which white space is required (·) or allowed (°)
var spaced = []string{
	"<?xml·version°=°'1.0'·encoding°=°'utf-8'·standalone°=°'no'°?>°<r/>°",
	"<?xml·version°=°'1.0'·standalone°=°'yes'°?>°<!--c-->°<?p·d?>°<r/>°<!--c-->°<?p?>°",
	"<r°>x</r°>",
	"<r·a°=°'b'·c°=°\"d\"°/>",
	"<p:r·xmlns:p°=°'u'·p:a°=°'b'°><e·xmlns=''°/></p:r°>",
	"<r>°<a°>°x°</a>°<?p·d°e?>°&amp;°<![CDATA[°]]>°</r>",
	"<!DOCTYPE·r°>°<r/>",
	"<!DOCTYPE·r·SYSTEM·'s'°>°<r/>",
	"<!DOCTYPE·r·PUBLIC·'p'·\"s\"°[°]°>°<r/>",
	"<!DOCTYPE·r°[°<!ELEMENT·r·EMPTY°>°<!ELEMENT·a·ANY°>°]°><r/>",
	"<!DOCTYPE r [<!ELEMENT·r·(°a°,°b?°,°(°c°|°d+°)*°)°>]><r/>",
	"<!DOCTYPE r [<!ELEMENT·r·(°a°|°(°b°,°c°)°)+°>]><r/>",
	"<!DOCTYPE r [<!ELEMENT·r·(°#PCDATA°)°>°<!ELEMENT·s·(°#PCDATA°|°a°|°p:b°)*°>]><r/>",
	"<!DOCTYPE r [<!ATTLIST·r·a·CDATA·#IMPLIED·b·ID·#REQUIRED·c·NMTOKENS·#FIXED·'d e'°>]><r b='i'/>",
	"<!DOCTYPE r [<!ATTLIST·r·a·(°x°|°y°)·'x'·b·NOTATION·(°n°|°m°)·#IMPLIED°>°<!ATTLIST·s°>]><r/>",
	"<!DOCTYPE r [<!ENTITY·e·'v'°>°<!ENTITY·f·SYSTEM·'s'°>°<!ENTITY·g·PUBLIC·'p'·'s'°>]><r>&e;</r>",
	"<!DOCTYPE r [<!ENTITY·u·SYSTEM·'s'·NDATA·n°>°<!ENTITY·w·PUBLIC·'p'·'s'·NDATA·n°><!ENTITY·%·p·'v'°>]><r/>",
	"<!DOCTYPE r [<!NOTATION·n·SYSTEM·'s'°>°<!NOTATION·m·PUBLIC·'p'°>°<!NOTATION·o·PUBLIC·'p'·'s'°>°<?p·d?>°<!--c-->°]><r/>",
}

// declarations that may be in one document
var declarations = []string{
	`<!ELEMENT r (a|b)*>`, `<!ELEMENT a (#PCDATA)>`, `<!ELEMENT p:a EMPTY>`, `<!ATTLIST r x CDATA "1">`, `<!ATTLIST r x NMTOKENS " 2  3 " y ID #IMPLIED>`, `<!ATTLIST a y (u|v) "u">`, `<!ATTLIST p:a p:y CDATA #FIXED "w">`, `<!ENTITY e "v">`, `<!ENTITY e "<b>&f;</b>">`, `<!ENTITY f 'w&#38;&#34;'>`, `<!ENTITY g SYSTEM "s">`, `<!ENTITY h PUBLIC "p" "s" NDATA n>`, `<!NOTATION n PUBLIC "p">`, `<!ENTITY % e "q">`, `<!ENTITY % f SYSTEM "s">`, `<!--c-->`, `<?p d?>`,
}

func shapeSpaces(z size, j judge) []*Space {
	return []*Space{
		list("content models by shape", "all groups of at most "+itoa(pick(z, 7, 7, 8))+" names and groups, with at most "+itoa(pick(z, 1, 2, 2))+" occurrence indicators (3 if of at most "+itoa(pick(z, 5, 6, 7))+")", j, func(_ bool, emit func(string)) {
			for n := 2; n <= pick(z, 7, 7, 8); n++ {
				k := pick(z, 1, 2, 2)
				if n <= pick(z, 5, 6, 7) {
					k = 3
				}
				groups(n, func(g *particle) {
					occurrences(g, k, func(s string) { emit("<!DOCTYPE r [<!ELEMENT r " + s + ">]><r/>") })
				})
			}
		}),
		list("edits of content models", "all groups of at most "+itoa(pick(z, 5, 5, 6))+" names and groups, with one character inserted, deleted or replaced; of at most "+itoa(pick(z, 7, 7, 8))+", with one separator replaced", j, func(_ bool, emit func(string)) {
			for n := 2; n <= pick(z, 7, 7, 8); n++ {
				groups(n, func(g *particle) {
					occurrences(g, 0, func(s string) {
						if n > pick(z, 5, 5, 6) {
							for i, c := range s {
								if other := map[rune]string{',': "|", '|': ","}[c]; other != "" {
									emit("<!DOCTYPE r [<!ELEMENT r " + s[:i] + other + s[i+1:] + ">]><r/>")
								}
							}
							return
						}
						one(s, 0, []string{",", "|", "(", ")", "*", "?", "+", " ", "a", "#", "<", "&"}, func(s string, _ int) {
							emit("<!DOCTYPE r [<!ELEMENT r " + s + ">]><r/>")
						})
					})
				})
			}
		}),
		list("ends of elements", "all trees of at most "+itoa(pick(z, 3, 3, 4))+" elements of 4 names, three of which have the same expanded name, with all names in the end tags", j, func(_ bool, emit func(string)) {
			names := []string{"a", "p:a", "q:a", "b"}
			var rec func(n, open int, s string)
			rec = func(n, open int, s string) {
				if n == 0 && open == 0 {
					emit(`<r xmlns="u" xmlns:p="u" xmlns:q="u">` + s + "</r>")
					return
				}
				for _, x := range names {
					if n > 0 {
						rec(n-1, open+1, s+"<"+x+">")
					}
					if open > 0 {
						rec(n, open-1, s+"</"+x+">")
					}
				}
			}
			for n := 1; n <= pick(z, 3, 3, 4); n++ {
				rec(n, 0, "")
			}
		}),
		list("quotes", "all sequences of at most "+itoa(pick(z, 3, 4, 5))+" of 9 tokens, most of them quotes, in every literal", j, func(_ bool, emit func(string)) {
			for _, q := range []string{`"`, `'`} {
				for _, f := range []string{`<!DOCTYPE r [<!ENTITY e %>]><r>&e;</r>`, `<!DOCTYPE r [<!ENTITY e %>]><r a="&e;"/>`, `<!DOCTYPE r [<!ATTLIST r a CDATA %>]><r/>`, `<!DOCTYPE r [<!ATTLIST r a CDATA #FIXED %><!ELEMENT r ANY>]><r a=%/>`, `<r a=%/>`, `<r xmlns=%/>`, `<p:r xmlns:p=% p:a=%/>`, `<!DOCTYPE r SYSTEM %><r/>`, `<!DOCTYPE r PUBLIC % %><r/>`, `<!DOCTYPE r [<!ENTITY e PUBLIC % %>]><r/>`, `<!DOCTYPE r [<!NOTATION n PUBLIC %>]><r/>`, `<!DOCTYPE r [<!ENTITY % p %>]><r/>`} {
					runs([]string{"a", `'`, `"`, "&quot;", "&#39;", "&#34;", "&apos;", "&#37;", "&#38;"}, pick(z, 3, 4, 5), func(s string) {
						if strings.Contains(s, q) {
							return
						}
						// (a parameter entity is declared by " % ")
						g := strings.Replace(f, " % p ", " \x00 p ", 1)
						emit(strings.Replace(strings.Replace(g, "%", q+s+q, -1), "\x00", "%", 1))
					})
				}
			}
		}),
		list("white space", itoa(len(spaced))+" documents with all kinds of white space, or none, at every place where it is allowed or required; at most "+itoa(pick(z, 2, 3, 3))+" other than the least", j, func(_ bool, emit func(string)) {
			c := map[rune][]string{'·': {" ", "", "  ", "\n", "\t", "\r\n"}, '°': {"", " ", "\n", "\t", "\r \n", "x"}}
			for i, d := range spaced {
				k := pick(z, 2, 3, 3)
				if z == medium && strings.Count(d, "·")+strings.Count(d, "°") > 12 || i == 0 && k > 2 {
					k = 2
				}
				slots(d, c, k, emit)
			}
		}),
		list("items of content", "all sequences of at most "+itoa(pick(z, 4, 5, 6))+" of 12 whole items in an element, with and without declarations", j, func(_ bool, emit func(string)) {
			items := []string{"x", " ", "<a>y</a>", "<a b='c'/>", "<a> </a>", "<!--c-->", "<?p d?>", "<![CDATA[z]]>", "&amp;", "&e;", "&m;", "<p:a xmlns:p='u' p:b=''/>"}
			for _, pre := range []string{"", `<!ELEMENT r (a)*>`, `<!ELEMENT r (#PCDATA|a)*><!ELEMENT a (b)><!ATTLIST a b CDATA "d" e NMTOKENS " f  g ">`} {
				n := pick(z, 4, 5, 6)
				if pre != "" {
					n--
				}
				runs(items, n, func(s string) {
					emit(`<!DOCTYPE r [<!ENTITY e "v"><!ENTITY m "<b>w</b> "><!ELEMENT q ANY>` + pre + `]><r>` + s + `</r>`)
				})
			}
		}),
		list("items of a document", "all sequences of at most "+itoa(pick(z, 5, 6, 7))+" whole items", j, func(_ bool, emit func(string)) {
			runs([]string{"<?xml version='1.0'?>", "<!--c-->", "<?p d?>", "\n", "<!DOCTYPE r>", "<!DOCTYPE r [<!--d--><?q e?>]>", "<r/>", "<r>x</r>"}, pick(z, 5, 6, 7), emit)
		}),
		list("declarations in sequence", "all sequences of at most "+itoa(pick(z, 3, 4, 5))+" of "+itoa(len(declarations))+" declarations, and elements with what they declare", j, func(_ bool, emit func(string)) {
			runs(declarations, pick(z, 3, 4, 5), func(s string) {
				emit(`<!DOCTYPE r [` + s + `]><r xmlns:p="u"><a/> <p:a/><a y=" v "/></r>`)
				if strings.Contains(s, "<!ENTITY e") {
					emit(`<!DOCTYPE r [` + s + `]><r x="&e; "><a>&e;</a></r>`)
				}
			})
		}),
		list("attribute declarations in a list", "all pairs of attribute definitions by type and default, in one or two lists", j, func(_ bool, emit func(string)) {
			var defs []string
			for _, t := range []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(x)", "(x|y)", "NOTATION (x|y)"} {
				for _, d := range []string{"#IMPLIED", "#REQUIRED", `#FIXED "x"`, `" x "`} {
					defs = append(defs, t+" "+d)
				}
			}
			for i, a := range defs {
				for k, b := range defs {
					if z == small && (i+3*k)%4 != 0 {
						continue
					}
					emit("<!DOCTYPE r [<!ATTLIST r a " + a + " b " + b + ">]><r/>")
					emit("<!DOCTYPE r [<!ATTLIST r a " + a + "><!ATTLIST r b " + b + ">]><r a=' x  y ' b=' x  y '/>")
					emit("<!DOCTYPE r [<!ATTLIST r a " + a + " a " + b + ">]><r><s a=' z  w '/></r>")
				}
			}
		}),
		list("elements by shape", "all trees of at most "+itoa(pick(z, 6, 7, 8))+" elements, of two names", j, func(_ bool, emit func(string)) {
			for n := 1; n <= pick(z, 6, 7, 8); n++ {
				// all sequences of n starts and n ends that are balanced
				var rec func(open []string, starts int, s string)
				rec = func(open []string, starts int, s string) {
					if starts == n && len(open) == 0 {
						emit(s)
						return
					}
					if starts < n && (starts == 0 || len(open) > 0) {
						for _, e := range []string{"a", "ab"} {
							rec(append(open[:len(open):len(open)], e), starts+1, fmt.Sprintf("%s<%s>", s, e))
						}
					}
					if k := len(open); k > 0 && (k > 1 || starts == n) {
						rec(open[:k-1], starts, s+"</"+open[k-1]+">")
					}
				}
				rec(nil, 0, "")
			}
		}),
	}
}
