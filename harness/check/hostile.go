package main

import (
	"fmt"
	"strings"
	"unicode/utf16"
)

// Spaces of input that is outside of what the model knows: whatever it is,
// parsing it has to end with a document or an error

var encodingNames = []string{"UTF-8", "utf-8", "utf8", "UTF8", "UTF-16", "utf-16le", "UTF-16BE", "utf16", "ISO-8859-1", "iso-8859-15", "latin1", "windows-1252", "cp1252", "Shift_JIS", "sjis", "EUC-JP", "euc-jp", "ISO-2022-JP", "iso-2022-jp", "euc-kr", "gbk", "GB18030", "gb2312", "hz-gb-2312", "big5", "koi8-r", "KOI8-U", "ibm866", "macintosh", "x-user-defined", "us-ascii", "UCS-4", "utf-32", "ebcdic", "x", "none", "windows-31j", "cp437"}

func utf16Of(s string, big, bom bool) string {
	var b []byte
	u := utf16.Encode([]rune(s))
	if bom {
		u = append([]uint16{0xFEFF}, u...)
	}
	for _, x := range u {
		if big {
			b = append(b, byte(x>>8), byte(x))
		} else {
			b = append(b, byte(x), byte(x>>8))
		}
	}
	return string(b)
}

func utf32Of(s string, big, bom bool) string {
	var b []byte
	if bom {
		s = "\uFEFF" + s
	}
	for _, x := range s {
		if big {
			b = append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
		} else {
			b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		}
	}
	return string(b)
}

func hostileSpaces(z size, j judge) []*Space {
	peBodies := []string{"", "v", "<!ENTITY e 'x'>", "%p;", "%q;", "<!ELEMENT r ANY>", "<!ENTITY &#37; q '%p;'>", "&#37;q;", "]>", "<![INCLUDE[", "<!--", "<!ATTLIST r a CDATA 'd'", "&e;", "'", ">", "<r>", "<!ENTITY e '&e;'>", "<!ENTITY e '%p;'>", "&#0;", "&#x25;p;", "é"}
	return []*Space{
		tokens{"parameter entities", "<!DOCTYPE r [", toks(`<!ENTITY_%_p_"v"> <!ENTITY_%_q_"%p;"> <!ENTITY_%_d_"<!ENTITY_e_'x'>"> <!ENTITY_%_s_SYSTEM_"x"> %p; %q; %d; %s; %z; %d;; <!ENTITY_e_"%p;"> <!ELEMENT_r_%p;> <!ELEMENT_r_(%p;)> <![INCLUDE[ <![IGNORE[ <![%p;[ ]]> _ % <!ATTLIST_r_%p;> <!ATTLIST_r_a_%p;_'x'> <!--%p;--> <!ENTITY_%_p_"<!ENTITY_&#37;_p2_'%p2;'>%p2;"> ]`), []string{"]><r>&e;</r>", "]><r a='&e;'/>", ">", ""}, pick(z, 2, 3, 4), 5}.space(j),
		list("replacement texts of parameter entities", "every pair of replacement texts of two parameter entities, each with every use", j, func(_ bool, emit func(string)) {
			for _, a := range peBodies {
				for _, b := range peBodies {
					for _, u := range []string{"%p;", "%p; %q;", "%q;%p;", "<!ENTITY e '%p;'>", "<!ELEMENT r %p;>", "<!ATTLIST r a CDATA '%p;'>", "<!ATTLIST r a CDATA %p;>", "<![%p;[<!ENTITY f 'g'>]]>", "<!ENTITY % z SYSTEM '%p;'>%z;"} {
						for _, s := range []string{"", " SYSTEM 's'"} {
							emit("<!DOCTYPE r" + s + ` [<!ENTITY % p "` + a + `"><!ENTITY % q "` + b + `">` + u + "]><r a='&e;'>&e;</r>")
						}
					}
				}
			}
		}),
		list("encodings", fmt.Sprintf("%d encoding names × bytes and pairs of bytes in content", len(encodingNames)), j, func(_ bool, emit func(string)) {
			for _, e := range encodingNames {
				for _, q := range []string{"'", `"`} {
					emit("<?xml version='1.0' encoding=" + q + e + q + "?><r/>")
				}
				h := "<?xml version='1.0' encoding='" + e + "'?><r a='"
				for a := 0; a < 256; a++ {
					emit(h + string([]byte{byte(a)}) + "'/>")
					emit(h + "'>" + string([]byte{byte(a)}))
					for _, b := range []byte{0x21, 0x41, 0x80, 0xa1, 0xff, '<', 0x1b, '~'} {
						emit(h + "'>" + string([]byte{byte(a), b}) + "</r>")
						emit(h + "'>" + string([]byte{byte(a), b, 0x41, 0x42}) + "</r>")
					}
				}
			}
		}),
		list("UTF-16 and UTF-32", "the seed documents in UTF-16 and UTF-32, both byte orders, with and without byte order mark, cut off after every byte", j, func(_ bool, emit func(string)) {
			docs := seeds
			if z == small {
				docs = seeds[:3]
			}
			for _, d := range docs {
				for i := 0; i < 8; i++ {
					s := ""
					if i < 4 {
						s = utf16Of(d, i&1 == 1, i&2 == 2)
					} else {
						s = utf32Of(d, i&1 == 1, i&2 == 2)
					}
					for k := 0; k <= len(s); k++ {
						emit(s[:k])
					}
				}
			}
		}),
		list("first bytes", "every sequence of at most 4 of the bytes of byte order marks and the like, before three documents", j, func(_ bool, emit func(string)) {
			bytes := []string{"\x00", "<", "?", "\xef", "\xbb", "\xbf", "\xfe", "\xff", "\x4c", "\x6f", "\xa7", "\x94", "x", " ", "\n"}
			var rec func(n int, s string)
			rec = func(n int, s string) {
				emit(s)
				emit(s + "<r/>")
				if n == 0 {
					return
				}
				for _, b := range bytes {
					rec(n-1, s+b)
				}
			}
			rec(pick(z, 4, 4, 5), "")
		}),
		list("bytes replaced", "the seed documents with every byte replaced by every other, or the rest missing", j, func(_ bool, emit func(string)) {
			for _, d := range seeds {
				for i := 0; i < len(d); i++ {
					emit(d[:i])
					for b := 0; b < 256; b++ {
						if z == small && b >= 0x20 && b < 0x7f && (b*7+i)%4 != 0 {
							continue
						}
						emit(d[:i] + string([]byte{byte(b)}) + d[i+1:])
					}
				}
			}
		}),
		list("expansion", "entities that multiply: every fan-out up to 12 and depth up to 12, in content, attributes, defaults and parameter entities", j, func(_ bool, emit func(string)) {
			for fan := 1; fan <= 12; fan++ {
				for depth := 1; depth <= 12; depth++ {
					for _, kind := range []string{"&", "%"} {
						decl := "<!ENTITY "
						if kind == "%" {
							decl += "% "
						}
						d := decl + "e0 'xxxxxxxxxx'>"
						for i := 1; i <= depth; i++ {
							r := kind
							if r == "%" {
								r = "&#37;"
							}
							d += decl + "e" + itoa(i) + " '" + strings.Repeat(r+"e"+itoa(i-1)+";", fan) + "'>"
						}
						last := kind + "e" + itoa(depth) + ";"
						if kind == "%" {
							emit("<!DOCTYPE r [" + d + last + "]><r/>")
							continue
						}
						emit("<!DOCTYPE r [" + d + "]><r>" + last + "</r>")
						emit("<!DOCTYPE r [" + d + "]><r a='" + last + "'/>")
						emit("<!DOCTYPE r [" + d + "<!ATTLIST r a CDATA '" + last + "'>]><r><r/></r>")
					}
				}
			}
		}),
		list("nesting without end", "depths around powers of ten of every kind of nesting, closed or not", j, func(_ bool, emit func(string)) {
			for _, x := range nests {
				for _, n := range []int{1, 10, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, pick(z, 2000, 5000, 20000)} {
					emit(x[0] + numbered(x[1], n) + x[2] + reverse(x[3], n))
					emit(x[0] + numbered(x[1], n))
				}
			}
		}),
	}
}
