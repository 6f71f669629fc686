package main

import (
	"strings"
)

// Alignment: documents at every distance from the start of the input, so that
// every character of them comes first, last and in the middle of a buffer

// more has what is of several bytes, and what is looked for by several
// characters ahead
var alignSeeds = []string{
	"<r>é\u65e5\U0001F600x\r\ny\r\r\nz&#233;&#x65e5;</r>",
	"<é\u65e5 à='ü\u65e5\U0001F600\r\n '><!--é\r\n\u65e5--><?é \u65e5\r\n?><![CDATA[é]\u65e5]]]></é\u65e5>",
	"<r\r\na\r\n=\r\n'b'\r\n></r\r\n>\r\n<!--x-->\r\n<?p\r\nd?>\r\n",
	"<r>]]]&gt;]]&gt;-]-&amp;</r><!-- - -x- --><?p ??d??>",
	"<!DOCTYPE é PUBLIC 'p' \"é\u65e5\"\r\n[\r\n<!ELEMENT é (\u65e5\r\n|\u672c)*>\r\n<!ATTLIST é à\r\n(ü|\u65e5)\r\n'ü'>\r\n<!ENTITY é 'ü\r\n&#233;\u65e5<à>\U0001F600</à>'>]>\r\n<é>\r\n&é;</é>",
	"<r>x</s>", "<r>\r\n\u65e5&u;</r>", "<r>é<!-- -- --></r>", "<r a='é' a='é'/>", "<r>\xe9</r>", "<r>é\xc3</r>", "<r>\U0001F600\xf0\x9f</r>", "<r/>\r\né", "<r>é", "<r><![CDATA[\u65e5]]", "<r>]]\u200b]]></r>",
}

func alignSpaces(z size, j judge) []*Space {
	docs := append(append([]string{}, seeds...), alignSeeds...)
	pads := []string{"x", "é", "\u65e5", "\U0001F600", "\r\n", "\n", "\ré"}
	// padded puts n bytes and a few more in a comment before the document, or
	// after its XML declaration
	padded := func(d, unit string, n int) string {
		head := ""
		if strings.HasPrefix(d, "<?xml") {
			i := strings.Index(d, "?>") + 2
			head, d = d[:i], d[i:]
		}
		k := 0
		if n > len(head)+7 {
			k = (n - len(head) - 7) / len(unit)
		}
		rest := n - len(head) - 7 - k*len(unit)
		if rest < 0 {
			rest = 0
		}
		return head + "<!--" + strings.Repeat("x", rest) + strings.Repeat(unit, k) + "-->" + d
	}
	bounds := []int{512, 1024, 4096, 8192}
	if z == small {
		bounds = []int{4096}
	}
	near := func(d string, units []string, emit func(string)) {
		for _, b := range bounds {
			for _, u := range units {
				step := 1
				for at := b - len(d) - 2; at <= b+2; at += step {
					emit(padded(d, u, at))
				}
			}
		}
	}
	return []*Space{
		list("documents at every offset", itoa(len(docs))+" documents after every number of bytes from 7 to 130, of "+itoa(len(pads))+" kinds", j, func(_ bool, emit func(string)) {
			for _, d := range docs {
				for _, u := range pads {
					for n := 7; n <= pick(z, 90, 130, 210); n++ {
						emit(padded(d, u, n))
					}
				}
			}
		}),
		list("documents at the ends of large buffers", itoa(len(docs))+" documents, so that every byte of them is at the end of a buffer of 512, 1024, 4096 and 8192 bytes (quick: 4096)", j, func(_ bool, emit func(string)) {
			for i, d := range docs {
				units := pads[:5]
				if z == small {
					units = []string{pads[i%3], pads[4]}
				}
				near(d, units, emit)
			}
		}),
		list("text around every offset", "characters of one to four bytes and line ends, after every number of bytes up to 400 and around 4096 in text, attribute values, comments, processing instructions and CDATA sections", j, func(_ bool, emit func(string)) {
			for _, f := range longTexts[:13] {
				for _, u := range []string{"é", "\u65e5", "\U0001F600", "\r\n", "&lt;", "é\r\n\u65e5", "]]&gt;", "\xe9"} {
					f, u := f, u
					sizes(pick(z, 90, 170, 400), pick(z, 90, 4100, 8200), func(n int) {
						emit(strings.Replace(f, "%", strings.Repeat("x", n)+u+"y"+u, -1))
						emit(strings.Replace(f, "%", strings.Repeat("\n", n)+u+"y"+u, -1))
					})
				}
			}
		}),
	}
}

func init() {
	register(&Property{ID: "C17", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, small, medium)
		return join(alignSpaces(z, judgeFull)[1:], named(everything(z, judgeFull), "long", "bytes", "line ends", "repetitions", "offset", "one of many", "late in"))
	}})
}
