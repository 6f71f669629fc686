package main

import (
	"strings"
)

// One of many: which of n names is the one that another place means. Tables
// and linear searches that end early, and hashes of few bits, are wrong about
// some of them

// before, n times, after; # is the number of the item, $ that of the one
var manyForms = [][3]string{
	{"<r", " a#='v#'", " a$='w'/>"}, {"<r a$='w'", " a#='v#'", "/>"}, {"<r", " xmlns:p#='u#'", " xmlns:p$='w'/>"}, {"<r", " xmlns:p#='u#'", "><p$:a p$:b='c'/></r>"}, {"<r", " xmlns:p#='u#'", " xmlns:q='u$' q:a='1' p$:a='2'/>"}, {"<r xmlns:q='u$'", " xmlns:p#='u#'", " q:a='1' p$:b='2' p0:a='3'/>"}, {"<r", " xmlns:p#='u#' p#:a='v#'", " xmlns:q='u$' q:a='1'/>"},
	{"<!DOCTYPE r [", "<!ENTITY e# 'v#'>", "]><r a='&e$;'>&e$;</r>"}, {"<!DOCTYPE r [", "<!ENTITY e# 'v#'>", "<!ENTITY e$ 'w'>]><r>&e$;</r>"}, {"<!DOCTYPE r [<!ENTITY e$ 'w'>", "<!ENTITY e# 'v#'>", "]><r>&e$;&e0;</r>"}, {"<!DOCTYPE r [", "<!ENTITY % e# 'v#'>", "<!ENTITY % e$ 'w'>]><r/>"}, {"<!DOCTYPE r [", "<!ENTITY e# SYSTEM 's#'>", "<!ENTITY e$ 'w'>]><r>&e$;</r>"},
	{"<!DOCTYPE r [", "<!ELEMENT a# EMPTY>", "<!ELEMENT a$ ANY>]><r/>"}, {"<!DOCTYPE r [<!ELEMENT a$ ANY>", "<!ELEMENT a# EMPTY>", "]><r/>"}, {"<!DOCTYPE r [", "<!ELEMENT a# (b)>", "]><a$> <b/></a$>"},
	{"<!DOCTYPE r [", "<!ATTLIST r a# CDATA 'v#'>", "<!ATTLIST r a$ CDATA 'w'>]><r/>"}, {"<!DOCTYPE r [", "<!ATTLIST r a# CDATA 'v#'>", "]><r a$='w'/>"}, {"<!DOCTYPE r [<!ATTLIST r", " a# NMTOKENS 'v#'", "a$ CDATA 'w'>]><r a$=' w  x '/>"}, {"<!DOCTYPE r [<!ATTLIST r", " a# CDATA 'v#'", "><!ATTLIST r a$ NMTOKENS 'w' b CDATA 'c'>]><r a$=' w  x '/>"}, {"<!DOCTYPE r [", "<!ATTLIST e# a NMTOKENS 'v#'>", "]><r><e$/><e$ a=' w  x '/></r>"}, {"<!DOCTYPE r [", "<!ATTLIST e# a CDATA 'v#'>", "<!ATTLIST e$ a NMTOKENS 'w' b CDATA 'c'>]><e$ a=' w  x '/>"}, {"<!DOCTYPE r [<!ATTLIST e$ a NMTOKENS 'w'>", "<!ATTLIST e# a CDATA 'v#'>", "]><r><e$ a=' w  x '/><e0/></r>"},
	{"<!DOCTYPE r [", "<!NOTATION n# SYSTEM 's#'>", "<!ENTITY e SYSTEM 's' NDATA n$><!NOTATION m SYSTEM 's$'>]><r/>"}, {"<!DOCTYPE r [<!ATTLIST r a (x", "|y#", ") 'y$'>]><r/>"}, {"<!DOCTYPE r [<!ATTLIST r a NOTATION (x", "|y#", ") 'y$'>]><r/>"}, {"<!DOCTYPE r [<!ELEMENT r (#PCDATA", "|b#", "|c$)*>]><r> <b$/></r>"}, {"<!DOCTYPE r [<!ELEMENT r (a", ",b#", ",(c$|d))>]><r> <b$/></r>"},
	{"<!DOCTYPE r [<!ATTLIST r d CDATA 'x'>]><r", " a#='v#'", "/>"}, {"<!DOCTYPE r [<!ATTLIST r a$ NMTOKENS 'x  y'>]><r", " a#=' v  # '", "/>"}, {"<!DOCTYPE r [<!ATTLIST r a$ NMTOKENS 'x  y' b NMTOKEN 'z'>]><r", " a#=' v  # '", "><c/></r>"}, {"<!DOCTYPE r [<!ATTLIST r a$ CDATA 'x' e$ CDATA 'y'>]><r", " a#='v#'", " b='c'/>"}, {"<!DOCTYPE r [<!ENTITY e 'v'>]><r", " a#='&e;#'", " b='&e;'>&e;</r>"}, {"<r xmlns:q='w'", " a#='v#'", " q:a$='x'><q:b/></r>"}, {"<!DOCTYPE r [<!ATTLIST b c CDATA 'd'>]><r>", "<a/>", "<b/></r>"}, {"<!DOCTYPE r [<!ATTLIST b c NMTOKENS 'd'>]><r>", "<b c=' x  # '/>", "<b/></r>"},
	{"<r>", "&lt;", "<![CDATA[x]]>y</r>"}, {"<r>", "<a>x</a> ", "<!--c--> y</r>"}, {"<!DOCTYPE r [<!ELEMENT r (a|b)*>]><r>", " <a>x</a>", " <b> </b> </r>"}, {"<!DOCTYPE r [<!ENTITY e '<a xmlns=\"u\"/>'>]><r>", "&e;", "<b/>x&e;</r>"}, {"<!DOCTYPE r [<!ENTITY e 'v'><!ENTITY f '&e;&e;'>]><r>", "&f;", "<b a='&f;'/>&e;</r>"}, {"<!DOCTYPE r [", "<!--c#-->", "<!ENTITY e 'v'><!ATTLIST r a CDATA 'w'>]><r>&e;</r>"}, {"<!DOCTYPE r [", "<?p#?>", "<!ELEMENT r ANY>]><r> </r>"}, {"<!DOCTYPE r [<!ATTLIST r", " a# NMTOKENS #IMPLIED", ">]><r a$=' v  w ' a0$=' v  w '/>"}, {"<!DOCTYPE r [<!ATTLIST r", " p:a# CDATA #IMPLIED", ">]><r xmlns:p='u' p:a$=' v  w '/>"}, {"<!DOCTYPE r [", "<!ATTLIST p:e# p:a NMTOKENS #IMPLIED>", "]><p:e$ xmlns:p='u' p:a=' v  w '/>"},
	{"<r>", "<a#>v#</a#>", "<a$ b='c'>x</a$></r>"}, {"<r>", "<?p# d#?>", "<?p$ e?></r>"}, {"<r>", "<a b#='c#'/>", "<a b$='d'/></r>"}, {"<r>", "<p#:a xmlns:p#='u#'/>", "<p$:a xmlns:p$='w'/></r>"}, {"<r>", "<p#:a xmlns:p#='u#'/>", "<p$:a/></r>"},
}

func manySpaces(z size, j judge) []*Space {
	all, max := pick(z, 9, 20, 34), pick(z, 66, 258, 1026)
	each := func(emit func(n, i int)) {
		for n := 1; n <= all; n++ {
			for i := 0; i <= n; i++ { // n is none of them
				emit(n, i)
			}
		}
		for _, b := range []int{16, 32, 64, 128, 256, 512, 1024} {
			for n := b - 1; n <= b+2; n++ {
				if n <= all || n > max {
					continue
				}
				last := -1
				for _, i := range []int{0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, n / 2, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, n - 2, n - 1, n} {
					if i > last && i <= n {
						emit(n, i)
						last = i
					}
				}
			}
		}
	}
	return []*Space{
		list("one of many", itoa(len(manyForms))+" forms: up to "+itoa(max)+" names, and another place that has one of them", j, func(_ bool, emit func(string)) {
			for _, f := range manyForms {
				each(func(n, i int) {
					emit(strings.Replace(f[0]+numbered(f[1], n)+f[2], "$", itoa(i), -1))
				})
			}
			each(func(n, i int) { // the depth of what is named
				wrong := func(format string, by string) string {
					s := ""
					for k := n - 1; k >= 0; k-- {
						if k == i {
							s += strings.Replace(by, "#", itoa(k), -1)
						} else {
							s += strings.Replace(format, "#", itoa(k), -1)
						}
					}
					return s
				}
				emit(numbered("<a#>", n) + wrong("</a#>", "</b#>"))
				emit(numbered("<a>", n) + wrong("</a>", "</b>"))
				emit(numbered("<a>", n) + wrong("</a>", "</a><a/>"))
				emit(numbered("<a>", n) + wrong("</a>", "x<b c='d'/>\n</a>"))
				d := strings.Replace(numbered("<a xmlns:p#='u#'>", n)+"<p$:b p$:c='d'/>", "$", itoa(i), -1)
				emit(d + numbered("</a>", n))
				emit(numbered("<a xmlns:p='u#' xmlns='v#'>", n) + wrong("</a>", "<p:b p:c='d'/><c/></a>"))
				emit(numbered("<p:a xmlns:p='u#'>", n) + wrong("</p:a>", "<p:b/></p:a>"))
				emit(strings.Replace(numbered("<a#>", n)+"<p:b xmlns:p='u'>"+wrong("</a#>", "</a#>"), "$", itoa(i), -1))
				emit("<r>" + numbered("<a xmlns:p='u#'/>", n) + "<p:b/></r>")
				sp := ""
				for k := 0; k < n; k++ {
					sp += "<a" + map[bool]string{true: " xml:space='preserve'"}[k == i] + ">"
				}
				emit("<!DOCTYPE r [<!ELEMENT a (a|b)*>]>" + sp + " <b/>" + numbered(" </a>", n))
			})
		}),
	}
}

// A quote of the other kind, and other characters that are written with care,
// anywhere in long literals and texts
func lateSpaces(z size, j judge) []*Space {
	places := []string{"<r>%</r>", "<r a='%'/>", `<r a="%"/>`, "<r><!--%--></r>", "<r><?p %?></r>", "<r><![CDATA[%]]></r>", "<!DOCTYPE r SYSTEM '%'><r/>", `<!DOCTYPE r SYSTEM "%"><r/>`, `<!DOCTYPE r PUBLIC "%" 's'><r/>`, "<!DOCTYPE r [<!ENTITY e '%'>]><r>&e;</r>", `<!DOCTYPE r [<!ENTITY e "%">]><r a='&e;'/>`, "<!DOCTYPE r [<!ENTITY e SYSTEM '%'>]><r/>", `<!DOCTYPE r [<!ENTITY e PUBLIC 'p' "%">]><r/>`, "<!DOCTYPE r [<!ATTLIST r a CDATA '%'>]><r/>", `<!DOCTYPE r [<!ATTLIST r a NMTOKENS "%">]><r/>`, "<!DOCTYPE r [<!ATTLIST r a NMTOKENS #IMPLIED>]><r a='%'/>", "<!DOCTYPE r [<!NOTATION n SYSTEM '%'>]><r/>", "<!DOCTYPE r [<!--%-->]><r/>", "<!DOCTYPE r [<!ELEMENT r (a)>]><r>%<a/></r>"}
	units := []string{`"`, "'", `"'`, `'"`, "&lt;", "&#34;", "&#39;", "&#13;", "\r\n", "\n", "\t", "&amp;", "]]&gt;", "]]>", "--", "&#xe9;", "é", "日", "\u0085", "%", "  ", "<", "&", "&b;", "\x01"}
	return []*Space{
		list("late in a text", itoa(len(units))+" texts, after n and before m characters, in "+itoa(len(places))+" places", j, func(_ bool, emit func(string)) {
			for _, p := range places {
				for _, u := range units {
					for _, n := range []int{0, 1, 9, 63, 64, 127, 128, 129, 199, 200, 254, 255, 256, 257, 299, 300, 510, 511, 512, 513, 1022, 1023, 1024, 1025} {
						for _, m := range []int{0, 1, 255, 256, 300, 1024} {
							if z > small || m < 2 || n < 2 {
								emit(strings.Replace(p, "%", strings.Repeat("x", n)+u+strings.Repeat("y", m), 1))
							}
						}
					}
				}
			}
		}),
	}
}
