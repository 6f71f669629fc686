package main

import (
	"fmt"
	"strings"
)

// The spaces of documents that properties are decided over

type judge func(c *counter, key string) string

// toks splits an alphabet: tokens are separated by blanks, in which "_" is a
// blank, "^" a line feed and "~" a tab
func toks(s string) []string {
	var out []string
	for _, f := range strings.Fields(s) {
		f = strings.Replace(f, "_", " ", -1)
		f = strings.Replace(f, "^", "\n", -1)
		f = strings.Replace(f, "~", "\t", -1)
		out = append(out, f)
	}
	return out
}

type size int

const (
	small size = iota
	medium
	large
)

func pick(z size, s, m, l int) int {
	switch z {
	case small:
		return s
	case medium:
		return m
	}
	return l
}

// ---- content, tags ----

func contentSpaces(z size, j judge) []*Space {
	return []*Space{
		tokens{"content", "<r>", toks(`x <a> </a> <b/> <b_k="v"/> &amp; &#65; &#x3c; & ; <!--c--> <![CDATA[ ]]> ]] > <?p_d?> < </r> </ /> é <r> " _ ^`), []string{"", "AUTO"}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"start tag", "<r", toks(`a b = "v" 'v' " ' / > xmlns : < &lt; & - _ ^`), []string{"", "/>", "></r>"}, pick(z, 4, 5, 6), 1}.space(j),
		tokens{"nesting", "", toks(`<a> <b> </a> </b> <a/> </a_> <a_> x </_a> <_a> <a_c=""> </a_c=""> </ab> <!----> <a`), []string{"", "AUTO"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"names", "<", toks(`a Z xml . - : 1 é · _ / > ́ ə`), []string{"/>", "></a>", "AUTO", ">AUTO"}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"attribute names", "<r ", toks(`a b . - : 1 é = "v" _ xml lang`), []string{`=""/>`, "/>"}, pick(z, 4, 5, 6), 1}.space(j),
		tokens{"end tag", "<ab>", toks(`</ a b ab _ ^ > / < x " = &`), []string{"", ">", "</ab>"}, pick(z, 4, 5, 6), 1}.space(j),
	}
}

func attributeSpaces(z size, j judge) []*Space {
	return []*Space{
		tokens{"attribute value", `<r a="`, toks(`x _ ^ ~ < > &lt; &#10; &#x20; & ; ' " &#38; é ]]> &quot; -- />`), []string{`"/>`, `/>`, ` b='c'/>`}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"attribute value in apostrophes", `<r a='`, toks(`x _ ^ < > &apos; &#9; & ; ' " &#x26; é`), []string{`'/>`, `/>`, ` b="c"/>`}, pick(z, 3, 4, 5), 1}.space(j),
	}
}

// ---- markup other than elements ----

func markupSpaces(z size, j judge) []*Space {
	return []*Space{
		tokens{"comment", "<r><!-", toks(`- > x < & ^ ! é`), []string{"-->AUTO", ">AUTO", "</r>"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"processing instruction", "<r><?", toks(`x p ? > _ ^ xml XML < & : - " 1 é`), []string{"?>AUTO", ">AUTO", "</r>"}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"CDATA section", "<r><![CDATA", toks(`[ ] > x < &amp; ^ & é`), []string{"]]>AUTO", ">AUTO", "]>AUTO", "</r>"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"text", "<r>x", toks(`] > x < &amp; ^ & ; _ # é 😀`), []string{"</r>", "></r>"}, pick(z, 4, 5, 6), 1}.space(j),
		tokens{"markup", "<r><", toks(`! - [ CDATA ] > ? x / & _ DOCTYPE ELEMENT`), []string{"</r>", "></r>", "-->AUTO", "?></r>", "]]></r>", "/></r>"}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"character reference", "<r>&#", toks(`x X 0 1 9 a F ; _ - + D8 FFFF 110000 . é`), []string{";</r>", "</r>"}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"character reference in attribute", `<r a="&#`, toks(`x X 0 1 9 a F ; _ - + D8 FFFF 110000 . " '`), []string{`;"/>`, `"/>`}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"entity reference", "<r>&", toks(`l t lt gt amp apos quot ; & _ # : - 1 < é`), []string{";</r>", "</r>"}, pick(z, 3, 4, 5), 1}.space(j),
	}
}

func prologSpaces(z size, j judge) []*Space {
	return []*Space{
		tokens{"prolog", "", toks(`<?xml _ version="1.0" encoding="UTF-8" standalone="yes" ?> <r/> <!--c--> <?p_d?> <!DOCTYPE_r> ^ x < &amp; <?xml_version="1.0"?> <![CDATA[]]>`), []string{"", "<r/>", "?><r/>"}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"XML declaration", "<?xml", toks(`_ version = "1.0" '1.0' " 1 . encoding "utf-8" standalone "yes" 'no' ? > x ^`), []string{"?><r/>", `"?><r/>`, "><r/>"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"XML declaration, end", `<?xml version="1.0"`, toks(`_ version = "1.0" " encoding "utf-8" 'UTF-8' utf8 " standalone "yes" 'no' "YES" ' ? > x - ^`), []string{"?><r/>", `"?><r/>`, "><r/>"}, pick(z, 4, 5, 6), 1}.space(j),
		tokens{"epilog", "<r/>", toks(`_ ^ x <!--c--> <?p_d?> <a/> &#32; <![CDATA[]]> </r> < <! <!DOCTYPE_r> <?xml_version="1.0"?> &amp; ]]> <?`), []string{"", "-->", "?>"}, pick(z, 3, 4, 5), 1}.space(j),
	}
}

// ---- characters ----

// every character, in every kind of place
func characterSpaces(z size, j judge) []*Space {
	places := []string{"<r>%s</r>", `<r a="%s"/>`, "<r><!--%s--></r>", "<r><?p %s?></r>", "<r><![CDATA[%s]]></r>", "<r>x%s</r>", "<%s/>", "<a%s/>", "<r %s=''/>", "<r a%s=''/>", "<?p%s?><r/>", `<!DOCTYPE r [<!ENTITY e "%s">]><r/>`, `<!DOCTYPE r PUBLIC "%s" "x"><r/>`, `<!DOCTYPE r SYSTEM "%s"><r/>`, `<!DOCTYPE r [<!ATTLIST r a (x%s) #IMPLIED>]><r/>`, "%s<r/>", "<r/>%s", "<r%s/>", `<!DOCTYPE r [<!NOTATION n PUBLIC "%s">]><r/>`, "<r></r%s>", "<!DOCTYPE%sr><r/>"}
	bmp := 0x300
	if z == medium {
		bmp = 0x3000
	}
	if z == large {
		bmp = 0x110000
	}
	chars := func(n int, emit func(r int)) {
		for r := 0; r < n; r++ {
			if r < 0xD800 || r > 0xDFFF {
				emit(r)
			}
		}
		for _, r := range []int{0x2028, 0xD7FF, 0xE000, 0xFEFF, 0xFFFC, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x1FFFE, 0x10FFFD, 0x10FFFE, 0x10FFFF} {
			if r >= n {
				emit(r)
			}
		}
	}
	return []*Space{
		list("characters", fmt.Sprintf("every character up to U+%X, and the limits of the ranges beyond, in %d places", bmp-1, len(places)), j, func(_ bool, emit func(string)) {
			chars(bmp, func(r int) {
				for _, p := range places {
					emit(strings.Replace(p, "%s", string(rune(r)), 1))
				}
			})
		}),
		list("character references", fmt.Sprintf("decimal and hexadecimal references to every number up to 0x%X, and the limits of the ranges beyond, in content, attributes and entities", bmp-1), j, func(_ bool, emit func(string)) {
			chars(bmp, func(r int) {
				emit(fmt.Sprintf("<r>&#%d;</r>", r))
				emit(fmt.Sprintf("<r>&#x%x;</r>", r))
				emit(fmt.Sprintf("<r a='&#x%X;'/>", r))
				emit(fmt.Sprintf(`<!DOCTYPE r [<!ENTITY e "&#%d;">]><r>&e;</r>`, r))
				emit(fmt.Sprintf(`<!DOCTYPE r [<!ATTLIST r a CDATA "&#%d;">]><r/>`, r))
			})
			for _, n := range []string{"0", "00000000000065", "1114112", "4294967361", "18446744073709551681", "99999999999999999999", "xD800", "xDFFF", "x110000", "x100000041", "x10000000000000041", "55296", "x000000000000000000041", "-1", "x-1", "+65", "x+41", "0x41", "65 ", " 65"} {
				emit("<r>&#" + n + ";</r>")
				emit("<r a='&#" + n + ";'/>")
				emit(`<!DOCTYPE r [<!ENTITY e "&#` + n + `;">]><r>&e;</r>`)
				emit(`<!DOCTYPE r [<!ATTLIST r a CDATA "&#` + n + `;">]><r/>`)
			}
		}),
	}
}

// every code point, as reference and as it is, many to a document
func codePointSpaces(j judge) []*Space {
	const n = 64
	forms := []string{"&#%d;", "&#x%x;", "&#x%X;", "%c"}
	return []*Space{list("code points", "every code point up to U+110100 in four forms, by 64 in the content and an attribute of a document, or on its own if it is no character", j, func(_ bool, emit func(string)) {
		for c := 0; c < 0x110100; c += n {
			for _, f := range forms {
				all := ""
				for k := c; k < c+n; k++ {
					ok := k >= 0x20 && k < 0xD800 || k >= 0xE000 && k < 0xFFFD || k >= 0x10000 && k < 0x110000
					if k == '&' || k == '<' {
						ok = ok && f != "%c"
					}
					switch {
					case ok && (k != '\'' || f != "%c"):
						all += fmt.Sprintf(f, k)
					case f == "%c" && (k > 0x10FFFF || k >= 0xD800 && k < 0xE000):
						// not in UTF-8
					case k > 0xD820 && k < 0xDFE0 || k >= 0x110010:
						// as those around
					default:
						emit(fmt.Sprintf("<r>"+f+"</r>", k))
						emit(fmt.Sprintf("<r a=\""+f+"\"/>", k))
					}
				}
				if all != "" {
					emit("<r>" + all + "</r>")
					emit("<r a='" + all + "'/>")
					if f != "&#%d;" {
						continue
					}
					emit("<!DOCTYPE r [<!ENTITY e '" + strings.Replace(all, "%", "", -1) + "'>]><r>&e;</r>")
					emit("<!DOCTYPE r [<!ATTLIST r a CDATA '" + all + "'>]><r/>")
				}
			}
		}
	})}
}

// line ends, everywhere
func eolSpaces(z size, j judge) []*Space {
	t := []string{"\r", "\n", "x", " ", "\r\n", "&#13;", "&#10;"}
	d := pick(z, 3, 4, 5)
	var out []*Space
	for _, p := range [][3]string{
		{"content", "<r>", "</r>"}, {"attribute", "<r a='", "'/>"}, {"comment", "<r><!--", "--></r>"}, {"PI", "<r><?p ", "?></r>"}, {"CDATA", "<r><![CDATA[", "]]></r>"},
		{"entity", `<!DOCTYPE r [<!ENTITY e "`, `">]><r>&e;</r>`}, {"default", `<!DOCTYPE r [<!ATTLIST r a CDATA "`, `">]><r/>`},
	} {
		out = append(out, tokens{"line ends in " + p[0], p[1], t, []string{p[2]}, d, 1}.space(j))
	}
	out = append(out, tokens{"line ends in tags", "<r", []string{"\r", "\n", "\r\n", " ", "a", "=", "'v'", ">", "</r"}, []string{"/>", "></r>", ">"}, d + 1, 1}.space(j))
	return out
}

// ---- document type declarations ----

func doctypeSpaces(z size, j judge) []*Space {
	end := []string{">]><r/>", "]><r/>"}
	return []*Space{
		tokens{"doctype", "<!DOCTYPE", toks(`_ ^ r SYSTEM PUBLIC "x" 'y' " [ ] > <!--c--> : a`), []string{"><r/>", "<r/>", "]><r/>"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"element declaration", "<!DOCTYPE r [<!ELEMENT", toks(`_ r ( ) | , * + ? #PCDATA EMPTY ANY > ^`), append(end, ")>]><r/>", ")*>]><r/>"), pick(z, 4, 5, 6), 1}.space(j),
		tokens{"content model", "<!DOCTYPE r [<!ELEMENT r (", toks(`a b:c ( ) | , * + ? #PCDATA _`), []string{">]><r/>", ")>]><r/>", ")*>]><r/>"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"mixed content model", "<!DOCTYPE r [<!ELEMENT r (#PCDATA", toks(`a b | , ( ) * + ? _ #PCDATA`), []string{">]><r/>", ")>]><r/>", ")*>]><r/>"}, pick(z, 4, 5, 7), 1}.space(j),
		tokens{"attribute-list declaration", "<!DOCTYPE r [<!ATTLIST r", toks(`_ a b CDATA ID IDREFS ENTITY NMTOKENS ( | ) NOTATION #REQUIRED #IMPLIED #FIXED "x" "&lt;" > xml:lang`), append(end, ` "y">]><r/>`, ` CDATA "y">]><r/>`, ` #IMPLIED>]><r/>`), pick(z, 3, 4, 5), 1}.space(j),
		tokens{"attribute declaration", "<!DOCTYPE r [<!ATTLIST r a", toks(`_ b CDATA ID IDREFS ENTITY NMTOKENS NMTOKEN ( | ) NOTATION #REQUIRED #IMPLIED #FIXED "x" '_y_' "<" "&u;" > 1 ,`), append(end, ` "y">]><r/>`, ` #IMPLIED>]><r/>`), pick(z, 4, 5, 6), 1}.space(j),
		tokens{"attribute types", "<!DOCTYPE r [<!ATTLIST r a ", toks(`CDATA ID IDREF S ENTITY ENTITIES NMTOKEN NOTATION (x|1) _ ( x`), append(end, ` "y">]><r/>`, ` "y z">]><r a=" p  q "/>`, ` #IMPLIED>]><r/>`, `) #IMPLIED>]><r/>`), pick(z, 3, 4, 5), 1}.space(j),
		tokens{"entity declaration", "<!DOCTYPE r [<!ENTITY", toks(`_ % e f "v" '<a/>' "&#38;" SYSTEM PUBLIC NDATA > "&e;" "%p;" : " ^`), append(end, ` "y">]><r/>`, `>]><r>&e;</r>`), pick(z, 4, 5, 6), 1}.space(j),
		tokens{"entity value", `<!DOCTYPE r [<!ENTITY e "`, toks(`x & ; # 6 lt % p ' " < > &#60; &#38; &e; é ^`), []string{`">]><r/>`, `">]><r>&e;</r>`, `">]><r a="&e;"/>`, `>]><r/>`}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"notation declaration", "<!DOCTYPE r [<!NOTATION", toks(`_ n SYSTEM PUBLIC "x" " > % : ^`), append(end, ` "y">]><r/>`), pick(z, 4, 5, 6), 1}.space(j),
		tokens{"notation identifiers", "<!DOCTYPE r [<!NOTATION n ", toks(`_ n SYSTEM PUBLIC "x" 'y' " > % ^`), append(end, ` "y">]><r/>`, ` 'y' >]><r/>`), pick(z, 4, 5, 6), 1}.space(j),
		tokens{"declarations", "<!DOCTYPE r [", toks(`<!ELEMENT_r_(a)> <!ELEMENT_a_EMPTY> <!ATTLIST_r_x_ID_#IMPLIED> <!ATTLIST_r_y_CDATA_"d"> <!ENTITY_e_"v"> <!ENTITY_%_p_"v"> <!NOTATION_n_SYSTEM_"s"> <!ENTITY_u_SYSTEM_"s"_NDATA_n> <!--c--> <?p_d?> _ ^ x <! <!ELEMENT <!ATTLIST_r> %p; <![INCLUDE[ ]]> ] > & <!DOCTYPE_r>`), []string{"]><r/>", "><r/>", ">]><r/>"}, pick(z, 2, 3, 4), 1}.space(j),
		tokens{"in doctype", "<!DOCTYPE r", toks(`_ SYSTEM PUBLIC "x" [ <!ENTITY_e_"v"> ] > <r> &e; </r> <a_b="&e;"/> <!--c--> <?p?> <!DOCTYPE`), []string{"", "><r/>", "AUTO"}, pick(z, 4, 5, 6), 1}.space(j),
	}
}

// combinations of declarations of the same attributes and of elements that have or have not them
func defaultSpaces(z size, j judge) []*Space {
	types := []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(x|y)", "NOTATION (x|y)"}
	values := []string{"x", " x", "x  y ", "&#32;x&#32;", "\tx\ny", "x&#10;y", "&e;", "&e; &e;", "", "&#38;", "&lt;x", "&amp;", "&f;"}
	if z == small {
		values = values[:9]
	}
	pre := `<!ENTITY e " v  w "><!ENTITY f "&e;&#38;&e;">`
	val := toks(`_ x ^ &#32; &#65; &e; &f; &amp; &#10; é`)
	return []*Space{
		tokens{"normalised values", `<!DOCTYPE r [` + pre + `<!ATTLIST r a NMTOKENS #IMPLIED>]><r a="`, val, []string{`"/>`}, pick(z, 3, 5, 6), 1}.space(j),
		tokens{"normalised defaults", `<!DOCTYPE r [` + pre + `<!ATTLIST r a NMTOKENS "`, val, []string{`">]><r/>`}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"values of CDATA", `<!DOCTYPE r [` + pre + `<!ATTLIST r a CDATA "`, val, []string{`">]><r/>`, `">]><r a=" x&e;&#32; "/>`}, pick(z, 3, 4, 5), 1}.space(j),
		list("attribute values by type", "the attribute types and none × 13 values, specified or as default, before or after the declaration", j, func(_ bool, emit func(string)) {
			for _, t := range types {
				for _, v := range values {
					emit(`<!DOCTYPE r [` + pre + `<!ATTLIST r a ` + t + ` #IMPLIED>]><r a="` + v + `"/>`)
					emit(`<!DOCTYPE r [` + pre + `<!ATTLIST q a ` + t + ` #IMPLIED>]><r a="` + v + `"/>`)
					emit(`<!DOCTYPE r [` + pre + `<!ATTLIST r b ` + t + ` #IMPLIED>]><r a="` + v + `"/>`)
					for _, fixed := range []string{"", "#FIXED "} {
						emit(`<!DOCTYPE r [` + pre + `<!ATTLIST r a ` + t + ` ` + fixed + `"` + v + `">]><r/>`)
						emit(`<!DOCTYPE r [` + pre + `<!ATTLIST r a ` + t + ` ` + fixed + `"` + v + `">]><r a=" z "/>`)
						emit(`<!DOCTYPE r [<!ATTLIST r a ` + t + ` ` + fixed + `"` + v + `">` + pre + `]><r/>`)
					}
				}
			}
		}),
		list("defaults", "pairs of attribute declarations (same or other element, attribute, type and default) and elements that specify any of the attributes", j, func(_ bool, emit func(string)) {
			var decls []string
			for _, e := range []string{"r", "s", "p:r"} {
				for _, a := range []string{"a", "b", "p:a", "xml:lang"} {
					for _, d := range []string{`CDATA " d "`, `NMTOKENS " d  e "`, `CDATA #IMPLIED`, `CDATA #REQUIRED`, `CDATA #FIXED "f"`} {
						decls = append(decls, "<!ATTLIST "+e+" "+a+" "+d+">")
					}
				}
			}
			uses := []string{`<r xmlns:p="u"/>`, `<r xmlns:p="u" a="1"/>`, `<r b="1" xmlns:p="u"/>`, `<p:r xmlns:p="u"/>`, `<p:r xmlns:p="u" p:a=" 1  2 "/>`, `<r xmlns:p="u"><s/><r a=" 3 "/><r/></r>`}
			if z == small {
				uses = uses[3:]
			}
			for i, d := range decls {
				for k, e := range decls {
					if z == small && (i*7+k)%4 != 0 {
						continue
					}
					for _, u := range uses {
						emit("<!DOCTYPE r [" + d + e + "]>" + u)
					}
				}
			}
		}),
		list("attributes in order", "sequences of at most 4 declared attributes of one ATTLIST, with every subset specified in both orders", j, func(_ bool, emit func(string)) {
			names := []string{"a", "b", "c", "d"}
			defs := []string{`CDATA "x"`, `CDATA #IMPLIED`, `NMTOKENS " x  y "`}
			n := pick(z, 2, 3, 4)
			var rec func(i int, l string)
			rec = func(i int, l string) {
				if i == n {
					for m := 0; m < 1<<uint(n); m++ {
						f, b := "", ""
						for k := 0; k < n; k++ {
							if m>>uint(k)&1 == 1 {
								f += " " + names[k] + `=" 1  2"`
								b = " " + names[k] + `=" 1  2"` + b
							}
						}
						emit("<!DOCTYPE r [<!ATTLIST r" + l + ">]><r" + f + "/>")
						emit("<!DOCTYPE r [<!ATTLIST r" + l + ">]><r" + b + "><r/></r>")
					}
					return
				}
				for _, d := range defs {
					rec(i+1, l+" "+names[i]+" "+d)
					rec(i+1, " "+names[i]+" "+d+l)
				}
			}
			rec(0, "")
		}),
	}
}

// ---- entities ----

func entitySpaces(z size, j judge) []*Space {
	bodies := []string{"v", "", "<b/>", "<b>x</b>", "<b>", "</b>", "&e1;", "&e2;", "&e3;", "&lt;", "&#60;b/>", "&#38;#60;", "&#38;", "&amp;", "&#38;lt;", "<b a='&e2;'/>", "a&e2;b&e2;", "]]>", "]]&gt;", "<![CDATA[x]]>", "<!--c-->", "<?p d?>", "&e2;&e3;", "<b", "&u;", "&e2", "x\ny", "<r>", "&#x0;", "<x:b/>", "&#37;p;", "<"}
	uses := []string{"<r>&e1;</r>", `<r a="&e1;"/>`, "<r>x&e1;y&e1;z</r>", `<r a="x&e1;y">&e1;</r>`, "<r><c>&e1;</c>&e2;</r>", `<r a="&e2;" b='&e1;'/>`, "<r>&e2;&e1;</r>"}
	out := []*Space{
		list("entities", "every combination of replacement texts for 2 entities, and some for a third, with every use", j, func(_ bool, emit func(string)) {
			third := []string{"w"}
			if z >= medium {
				third = []string{"w", "&e1;", "<b/>", "&lt;"}
			}
			if z == large {
				third = bodies
			}
			for _, a := range bodies {
				for _, b := range bodies {
					for _, t := range third {
						for _, u := range uses {
							emit(`<!DOCTYPE r [<!ENTITY e1 "` + a + `"><!ENTITY e2 "` + b + `"><!ENTITY e3 "` + t + `">]>` + u)
						}
					}
				}
			}
		}),
		list("entities of entities", "chains and cycles of up to 12 entities, used in content, attributes and defaults", j, func(_ bool, emit func(string)) {
			for n := 1; n <= 12; n++ {
				for back := 0; back <= n; back++ { // the last refers to number back; 0: none
					for _, form := range []string{"&e%d;", "x&e%d;y", "<b>&e%d;</b>", "<b a='&e%d;'/>", "&e%d;&e%d;"} {
						if strings.Count(form, "%d") > 1 && n > 7 {
							continue
						}
						d := ""
						for i := 1; i <= n; i++ {
							body := strings.Replace(form, "%d", itoa(i+1), -1)
							if i == n {
								body = "end"
								if back > 0 {
									body = strings.Replace(form, "%d", itoa(back), -1)
								}
							}
							d += `<!ENTITY e` + itoa(i) + ` "` + body + `">`
						}
						emit("<!DOCTYPE r [" + d + "]><r>&e1;</r>")
						emit("<!DOCTYPE r [" + d + "]><r a='&e1;'/>")
						emit("<!DOCTYPE r [" + d + "<!ATTLIST r a CDATA '&e1;'>]><r/>")
						emit("<!DOCTYPE r [" + d + "]><r/>")
					}
				}
			}
		}),
		list("kinds of entities", "entities declared zero, one or two times, internal, external or unparsed, with and without external subset and standalone, with every use", j, func(_ bool, emit func(string)) {
			decls := []string{"", `<!ENTITY e "v">`, `<!ENTITY e "<b>x</b>">`, `<!ENTITY e SYSTEM "s">`, `<!ENTITY e PUBLIC "p" "s">`, `<!ENTITY e SYSTEM "s" NDATA n>`, `<!ENTITY % e "v">`, `<!ENTITY % e SYSTEM "s">`, `<!ENTITY % e PUBLIC "p" "s">`, `<!ENTITY e "&f;">`, `<!ENTITY f "w">`, `<!ENTITY f SYSTEM "s">`}
			uses := []string{"<r>&e;</r>", `<r a="&e;"/>`, "<r>&f;</r>", "<r/>", "<r>x&e;y</r>"}
			for _, x := range []string{"", `<?xml version="1.0" standalone="yes"?>`, `<?xml version="1.0" standalone="no"?>`} {
				for _, s := range []string{"", ` SYSTEM "x"`, ` PUBLIC "p" "x"`} {
					for _, a := range decls {
						for _, b := range decls {
							for _, t := range []string{"", "<!ATTLIST r a CDATA '&e;'>", "<!ENTITY % p 'v'>"} {
								for _, u := range uses {
									emit(x + "<!DOCTYPE r" + s + " [" + a + b + t + "]>" + u)
								}
							}
						}
					}
				}
			}
			for _, u := range uses {
				emit(u)
				emit("<!DOCTYPE r SYSTEM 'x'>" + u)
				emit("<!DOCTYPE r>" + u)
			}
		}),
		tokens{"contents of entities", `<!DOCTYPE r [<!ATTLIST b z CDATA " d "><!ATTLIST p:c p:z NMTOKENS " v  w "><!ENTITY f "w"><!ENTITY g "<p:g/>"><!ENTITY e "`, toks(`x _ &#13; &#10; &#13;&#10; &#38; &#60; &#62; &lt; &amp; ]] > <b/> <p:b/> <b> </b> <c_xmlns='v'/> <p:c_xmlns:p='w'> </p:c> <c_d='&#13;_&f;&lt;'/> <!-- --> <![CDATA[ ]]> <?t_ ?> &f; &g; ^`),
			[]string{`">]><r xmlns:p="1">x&e;y<s xmlns="2" xmlns:p="3">&e;</s></r>`, `">]><r xmlns="4" xmlns:p="5"><p:q/>&e;&e;</r>`}, pick(z, 3, 3, 4), 1}.space(j),
		tokens{"uses of entities", `<!DOCTYPE r [<!ENTITY e "v"><!ENTITY m "<b>x</b>y"><!ENTITY a "&#38;"><!ENTITY s SYSTEM "s">]><r`, toks(`_ > &e; &m; &a; &s; &amp; &u; x <b> </b> k=" " ' / &#65;`), []string{"</r>", "/>", "></r>", `"/>`, "AUTO"}, pick(z, 4, 5, 6), 1}.space(j),
	}
	return out
}

// ---- namespaces ----

func namespaceSpaces(z size, j judge) []*Space {
	return []*Space{
		tokens{"namespaces", "<", toks(`e p:e q:e _xmlns="u" _xmlns="" _xmlns:p="u" _xmlns:p="v" _xmlns:q="u" _xmlns:p="" _a="" _p:a="" _q:a="" _xml:a="" >< >`), []string{"/>AUTO", ">AUTO"}, pick(z, 4, 6, 7), 1}.space(j),
		tokens{"namespaces of siblings", `<r xmlns:p="u"`, toks(`_xmlns="d" _xmlns:q="u" ><e ><p:e ><q:e _xmlns:p="w" _xmlns="" _p:a="" _a="" /><p:f /><f /></p:e> </e> <g/>`), []string{"/>AUTO", ">AUTO", "AUTO"}, pick(z, 4, 5, 6), 1}.space(j),
		tokens{"names of namespaces", `<r xmlns:p="`, []string{"u", "A", "1", ":", "/", "//", "?", "#", "@", ".", "-", "%4", "%", "http:", "urn:", "mailto:", "!$", "'", "()*", "+,;", "=", "~", "_", "&amp;", "[::1]", "é"}, []string{`"/>`, `"><p:e/></r>`, `" p:a=""><e xmlns:p="w" p:b=""/></r>`}, pick(z, 3, 3, 4), 1}.space(j),
		tokens{"names of default namespaces", `<r xmlns="`, []string{"u", "A", "1", ":", "/", "//", "?", "#", "@", ".", "-", "%4", "%", "http:", "urn:", "mailto:", "!$", "'", "()*", "+,;", "=", "~", "_", "&amp;", "[::1]", "é"}, []string{`"/>`, `"><e/></r>`, `" a=""><e xmlns="w" b=""/></r>`}, pick(z, 3, 3, 4), 1}.space(j),
		tokens{"namespace declarations", "<r xmlns", toks(`: p xml xmlns = "u" "" "http://www.w3.org/XML/1998/namespace" "http://www.w3.org/2000/xmlns/" _xmlns:p="w" _p:a="" _xml:b='' _xmlns='d' "a&amp;b" " v "`), []string{"/>", `="z"/>`, "><p:e/></r>", "><e/></r>"}, pick(z, 4, 5, 6), 1}.space(j),
		list("namespaces of three levels", "every assignment of declaration sets and names to three nested elements, with attributes on the innermost", j, func(_ bool, emit func(string)) {
			decl := []string{"", ` xmlns="u"`, ` xmlns=""`, ` xmlns:p="u"`, ` xmlns:p="v"`, ` xmlns="v" xmlns:p="u"`}
			name := []string{"e", "p:e"}
			attr := []string{"", ` a="1"`, ` p:a="1"`, ` a="1" p:a="2"`, ` xml:space="default"`}
			for _, d1 := range decl {
				for _, d2 := range decl {
					for _, d3 := range decl {
						for _, n1 := range name {
							for _, n2 := range name {
								for _, n3 := range name {
									for _, a := range attr {
										emit("<" + n1 + d1 + "><" + n2 + d2 + "><" + n3 + a + d3 + "/><" + n3 + "/></" + n2 + "><" + n2 + a + "/></" + n1 + ">")
									}
								}
							}
						}
					}
				}
			}
		}),
		list("attributes of one expanded name", "pairs of attributes and namespace declarations, in every order", j, func(_ bool, emit func(string)) {
			parts := []string{` a="1"`, ` p:a="1"`, ` q:a="1"`, ` xmlns:p="u"`, ` xmlns:q="u"`, ` xmlns:q="v"`, ` xmlns="u"`, ` p:b="1"`, ` xml:a="1"`}
			var rec func(n int, s string)
			rec = func(n int, s string) {
				if n == 0 {
					return
				}
				for _, x := range parts {
					emit("<r" + s + x + "/>")
					emit(`<r xmlns:p="w" xmlns:q="w"><e` + s + x + "/></r>")
					rec(n-1, s+x)
				}
			}
			rec(pick(z, 3, 4, 5), "")
		}),
	}
}

// ---- neighbourhoods of documents ----

var seeds = []string{
	`<r/>`,
	`<r a="b">x</r>`,
	`<?xml version="1.0" encoding="UTF-8" standalone="yes"?><r/>`,
	"<?xml version='1.0'?>\n<!-- c -->\n<r>\n <a b='c'/>\n</r>\n<!-- d -->\n",
	`<a><b><c/></b><b>x<c>y</c>z</b></a>`,
	`<r>&lt;&amp;&gt;&#65;&#x42;&quot;&apos;</r>`,
	`<r><![CDATA[<x>&y;]]>z<!-- - c --><?pi data ?></r>`,
	`<p:r xmlns:p="u" xmlns="v" p:a="1" a="2"><e xmlns=""/><p:f xmlns:p="w"/></p:r>`,
	`<!DOCTYPE r><r/>`,
	`<!DOCTYPE r SYSTEM "s"><r/>`,
	`<!DOCTYPE r PUBLIC "-//p//EN" "s" []><r/>`,
	`<!DOCTYPE r [<!ELEMENT r (a,(b|c)*,d?)+><!ELEMENT a (#PCDATA|b)*><!ELEMENT b EMPTY><!ELEMENT c ANY>]><r/>`,
	`<!DOCTYPE r [<!ATTLIST r a CDATA "v" b (x|y) 'x' c ID #IMPLIED d NMTOKENS #FIXED " m  n ">]><r a=" 1 " d="2  3"/>`,
	`<!DOCTYPE r [<!ENTITY e "x&#38;y"><!ENTITY f '<b>&e;</b>'><!ENTITY % p "q">]><r a="&e;">&f; &e;</r>`,
	`<!DOCTYPE r [<!NOTATION n PUBLIC "p"><!ENTITY u SYSTEM "s" NDATA n><!ATTLIST r t NOTATION (n) #IMPLIED><!--c--><?p d?>]><r t="n"/>`,
	`<r xml:lang="en" xml:space='preserve' é="ü">日本</r>`,
}

var insertions = []string{"<", ">", "&", ";", "/", "\"", "'", "=", " ", "\n", "\t", "x", "!", "?", "-", "[", "]", ":", "#", "%", "1", "(", ")", "|", ",", "*", "é", "\x01", "\r", "<!--", "-->", "]]>", "&lt;", "&#x26;", "&e;", "<x>", "</x>"}

func editSpaces(z size, j judge) []*Space {
	return []*Space{edits("edits", seeds, insertions, j, pick(z, 0, 10, 20))}
}

// all spaces
func everything(z size, j judge) []*Space {
	var out []*Space
	for _, f := range []func(size, judge) []*Space{contentSpaces, attributeSpaces, markupSpaces, prologSpaces, characterSpaces, nameCharSpaces, eolSpaces, doctypeSpaces, defaultSpaces, entitySpaces, namespaceSpaces, scaleSpaces, byteSpaces, shapeSpaces, editSpaces, wordSpaces, similarSpaces, manySpaces, lateSpaces, withinSpaces} {
		out = append(out, f(z, j)...)
	}
	out = append(out, alignSpaces(z, j)[0])
	return out
}
