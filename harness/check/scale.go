package main

import (
	"strings"
)

// Spaces of documents of every size, and of bytes that are not UTF-8

// sizes are all numbers up to one, and those around the sizes of buffers
func sizes(all, max int, emit func(n int)) {
	for n := 0; n <= all; n++ {
		emit(n)
	}
	for _, b := range []int{64, 100, 128, 255, 300, 512, 1000, 1024, 2048, 4000, 4096, 5000, 8192, 10000, 16384, 32768, 65536} {
		for n := b - 3; n <= b+3; n++ {
			if n > all && n <= max {
				emit(n)
			}
		}
	}
}

// huge are sizes after those of the buffers that programs have
var huge = []int{4001, 4097, 8193}

func numbered(format string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.Replace(format, "#", itoa(i), -1))
	}
	return b.String()
}

func reverse(format string, n int) string {
	var b strings.Builder
	for i := n - 1; i >= 0; i-- {
		b.WriteString(strings.Replace(format, "#", itoa(i), -1))
	}
	return b.String()
}

// a family of documents: the string unit, n times, where % is in the frame
var longTexts = []string{
	"<r>%</r>", "<r a='%'/>", `<r a="%" b="c">d</r>`, "<r><!--%--></r>", "<r><?p %?></r>", "<r><![CDATA[%]]></r>", "<r>x<a/>%<a/>y</r>",
	"<!--%--><r/>", "<r/><!--%-->", "<?p %?><r/>", `<!DOCTYPE r [<!ENTITY e "%">]><r>&e;</r>`, `<!DOCTYPE r [<!ENTITY e "%">]><r a="&e;"/>`, `<!DOCTYPE r [<!ATTLIST r a CDATA "%">]><r/>`, `<!DOCTYPE r [<!ATTLIST r a NMTOKENS "%">]><r/>`,
	`<!DOCTYPE r [<!ATTLIST r a NMTOKENS #IMPLIED>]><r a="%"/>`, "<!DOCTYPE r [<!--%-->]><r/>", "<!DOCTYPE r [<?p %?>]><r/>", "<r xmlns='%'/>", `<!DOCTYPE r SYSTEM "%"><r/>`, `<!DOCTYPE r PUBLIC "%" ""><r/>`,
}

var longUnits = []string{"x", "é", "日", "😀", " ", "\n", "\r\n", "x ", "&lt;", "&#65;", "-", "]", "?", "&amp;&#x26;", "<", "\x01", "\xff"}

var longNames = []string{
	"<%/>", "<r %=''/>", "<%></%>", "<%>x</%><a/>", "<?% d?><r/>", "<r><%:e xmlns:%='u'/></r>", "<p:% xmlns:p='u'/>", "<!DOCTYPE %><r/>", `<!DOCTYPE r [<!ENTITY % "v">]><r>&%;</r>`, `<!DOCTYPE r [<!ENTITY % "v">]><r a="&%;"/>`, "<!DOCTYPE r [<!ELEMENT % EMPTY>]><r/>", "<!DOCTYPE r [<!ELEMENT r (%,a)>]><r/>", "<!DOCTYPE r [<!ELEMENT r (#PCDATA|%)*>]><r/>", "<!DOCTYPE r [<!ATTLIST % a CDATA 'v'>]><%/>", "<!DOCTYPE r [<!ATTLIST r % CDATA 'v'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a (%|x) 'x'>]><r/>", "<!DOCTYPE r [<!NOTATION % SYSTEM 's'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a NOTATION (%) #IMPLIED>]><r/>", "<r>&%;</r>", "<%></%x>", "<%x></%>",
}

// counts of things, and how they nest
var repeats = [][3]string{ // before, n times, after
	{"<r>", "<a/>", "</r>"}, {"<r>", "<a#>x</a#>", "</r>"}, {"<r", " a#='v'", "/>"}, {"<r", " a#='v#'", ">x</r>"}, {"<r", " xmlns:p#='u#'", "/>"}, {"<r", " xmlns:p#='u#' p#:a='v'", "/>"},
	{"<r>", "&lt;x", "</r>"}, {"<r>", "&#65;", "</r>"}, {"<r>", "<!--c-->", "</r>"}, {"<r>", "<?p d?>", "</r>"}, {"<r>", "<![CDATA[c]]>", "</r>"}, {"<r>", "x<a/>", "</r>"}, {"<r>", "\n<a b='c'/>", "\n</r>"},
	{"", "<!--c-->", "<r/>"}, {"", "<?p d?>\n", "<r/>"}, {"<r/>", "\n<!--c-->", ""}, {"<r", " ", "/>"}, {"<r", "\n", "a='b'/>"}, {"<r a", " ", "='b'/>"}, {"<r></r", " ", ">"}, {"<?xml", " ", "version='1.0'?><r/>"},
	{"<!DOCTYPE r [", "<!ELEMENT a# EMPTY>", "]><r/>"}, {"<!DOCTYPE r [<!ELEMENT r (a", ",a#", ")>]><r/>"}, {"<!DOCTYPE r [<!ELEMENT r (a", "|b#", ")*>]><r/>"}, {"<!DOCTYPE r [<!ELEMENT r (#PCDATA", "|b#", ")*>]><r/>"},
	{"<!DOCTYPE r [<!ATTLIST r", " a# CDATA #IMPLIED", ">]><r/>"}, {"<!DOCTYPE r [<!ATTLIST r", " a# CDATA 'v#'", ">]><r/>"}, {"<!DOCTYPE r [", "<!ATTLIST r a# CDATA 'v#'>", "]><r a1='w'/>"}, {"<!DOCTYPE r [", "<!ATTLIST e# a CDATA 'v#'>", "]><r/>"}, {"<!DOCTYPE r [<!ATTLIST r a (x", "|y#", ") 'x'>]><r/>"},
	{"<!DOCTYPE r [", "<!ENTITY e# 'v#'>", "]><r>&e0;</r>"}, {"<!DOCTYPE r [<!ENTITY e 'v'>]><r>", "&e;", "</r>"}, {"<!DOCTYPE r [<!ENTITY e '<b/>'>]><r>", "&e;x", "</r>"}, {"<!DOCTYPE r [<!ENTITY e 'v'>]><r a='", "&e;", "'/>"}, {"<!DOCTYPE r [", "<!NOTATION n# SYSTEM 's'>", "]><r/>"}, {"<!DOCTYPE r [", "<!--c--><?p d?>", "]><r/>"}, {"<!DOCTYPE r [", " ", "]><r/>"}, {"<!DOCTYPE r [<!ATTLIST r a NOTATION (x", "|y#", ") #IMPLIED>]><r/>"},
	{"<r>", "\n", "<a></b></r>"}, {"<r>", "<a>", "</r>"},
}

var nests = [][4]string{ // before, n times, middle, n times in reverse
	{"", "<a>", "x", "</a>"}, {"", "<a#>", "x", "</a#>"}, {"", "<a b='c'>", "<d/>", "</a>"}, {"", "<a>x", "<b/>", "y</a>"}, {"", "<p:a xmlns:p='u#'>", "<p:b/>", "</p:a>"}, {"", "<a xmlns='u#'>", "<b/>", "</a>"}, {"", "<a xmlns:p#='u#'>", "<p0:b xmlns:p0='w'/>", "</a>"}, {"", "<p#:a xmlns:p#='u'>", "<b/>", "</p#:a>"}, {"", "<a>\n", "<!--c-->", "\n</a>"},
	{"<!DOCTYPE r [<!ELEMENT r ", "(", "a", ")>]><r/>"}, {"", "<a>", "x", "</a>\n"}, {"", "<a xml:space='preserve'>", " <b/> ", "</a>"},
}

func scaleSpaces(z size, j judge) []*Space {
	all, max := pick(z, 40, 140, 300), pick(z, 1030, 4103, 10003)
	nest := pick(z, 130, 260, 520)
	count := pick(z, 50, 130, 300)
	return []*Space{
		list("long texts", "every kind of text × "+itoa(len(longUnits))+" units, repeated up to "+itoa(all)+" times, and around the sizes of buffers up to "+itoa(max)+"; of some units beyond", j, func(_ bool, emit func(string)) {
			for _, f := range longTexts {
				for i, u := range longUnits {
					max := max
					if i > 1 && i != 5 || z == small && f[0] != '<' {
						max = 515
					}
					sizes(all, max, func(n int) {
						s := strings.Repeat(u, n)
						emit(strings.Replace(f, "%", s, -1))
						if n == 0 && (i == 0 || i == 4) {
							for _, h := range huge {
								emit(strings.Replace(f, "%", strings.Repeat(u, h), -1))
							}
							if i == 0 && (f == longTexts[1] || strings.Contains(f, "SYSTEM") || strings.Contains(f, "CDATA \"")) { // these are read in linear time
								emit(strings.Replace(f, "%", strings.Repeat(u, 65539), -1))
							}
						}
						if u != "x" && n <= 100 {
							emit(strings.Replace(f, "%", strings.Repeat("x", n)+u, -1))
						}
					})
				}
			}
		}),
		list("long names", "every kind of name, of every length up to "+itoa(all)+", and around the sizes of buffers up to "+itoa(max/2)+"; some beyond", j, func(_ bool, emit func(string)) {
			for _, f := range longNames {
				for _, u := range []string{"x", "é", "日", "a-.", "a1"} {
					sizes(all, max/2, func(n int) { emit(strings.Replace(f, "%", strings.Repeat(u, n), -1)) })
					for _, h := range huge {
						if u == "x" || z > small {
							emit(strings.Replace(f, "%", strings.Repeat(u, h), -1))
							emit(strings.Replace(f, "%", strings.Repeat(u, h/4), -1))
						}
					}
				}
			}
		}),
		list("repetitions", "every number up to "+itoa(count)+" of "+itoa(len(repeats))+" kinds of items", j, func(_ bool, emit func(string)) {
			for _, r := range repeats {
				for n := 0; n <= count; n++ {
					emit(r[0] + numbered(r[1], n) + r[2])
				}
				for _, n := range []int{255, 256, 257, 511, 512, 513, 1000, 1024, 1025} {
					if n <= 1025 {
						emit(r[0] + numbered(r[1], n) + r[2])
					}
				}
				if strings.TrimSpace(r[1]) == "" {
					for _, n := range huge {
						emit(r[0] + numbered(r[1], n) + r[2])
					}
				}
			}
		}),
		list("deep nesting", "every depth up to "+itoa(nest)+" of "+itoa(len(nests))+" kinds of nesting", j, func(_ bool, emit func(string)) {
			for _, x := range nests {
				for n := 0; n <= nest; n++ {
					emit(x[0] + numbered(x[1], n) + x[2] + reverse(x[3], n))
				}
			}
		}),
		list("duplicates", "every pair of equal names among n attributes or namespace declarations", j, func(_ bool, emit func(string)) {
			for n := 2; n <= pick(z, 14, 24, 40); n++ {
				for a := 0; a < n; a++ {
					for b := a + 1; b < n; b++ {
						for _, f := range []string{" a#='v'", " xmlns:a#='u#'"} {
							s := ""
							for i := 0; i < n; i++ {
								k := i
								if i == b {
									k = a
								}
								s += strings.Replace(f, "#", itoa(k), -1)
							}
							emit("<r" + s + "/>")
							emit("<r" + s + "></r>")
						}
					}
				}
			}
		}),
	}
}

// sequences of bytes, most of them not UTF-8
func byteSpaces(z size, j judge) []*Space {
	bytes := []string{"a", "<", ">", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\xc1", "\xc2", "\xdf", "\xe0", "\xe1", "\xed", "\xef", "\xf0", "\xf1", "\xf4", "\xf5", "\xff", "\x00", "\xbb", "\xfe"}
	places := []string{"<r>%</r>", "<r a='%'/>", "<r><!--%--></r>", "<r><?p %?></r>", "<r><![CDATA[%]]></r>", "<%/>", "<r/>%", "%<r/>", `<!DOCTYPE r [<!ENTITY e "%">]><r>&e;</r>`, "<r>%"}
	n := pick(z, 2, 3, 4)
	if z == small {
		places = append(places[:3:3], places[6], places[7])
		n = 3
	}
	return []*Space{
		list("bytes", "every sequence of at most "+itoa(n)+" of "+itoa(len(bytes))+" bytes in "+itoa(len(places))+" places", j, func(_ bool, emit func(string)) {
			var rec func(n int, s string)
			rec = func(n int, s string) {
				for _, p := range places {
					emit(strings.Replace(p, "%", s, 1))
				}
				if n == 0 {
					return
				}
				for _, b := range bytes {
					rec(n-1, s+b)
				}
			}
			rec(n, "")
		}),
	}
}
