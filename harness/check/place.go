package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Places: where in its input a document is not well-formed

// placeOf returns the error of a document
func placeOf(doc string) (e helium.ErrParseError, accepted bool, msg string) {
	p := parseDOM([]byte(doc))
	if p.panic != "" {
		return e, false, p.panic
	}
	if p.err == nil {
		return e, true, ""
	}
	e, ok := p.err.(helium.ErrParseError)
	if !ok {
		if q, is := p.err.(*helium.ErrParseError); is {
			return *q, false, ""
		}
		return e, false, fmt.Sprintf("error without a place: %v", p.err)
	}
	return e, false, ""
}

var eolNormalizer = strings.NewReplacer("\r\n", "\n", "\r", "\n")

// nested places in messages
var nestedPlace = regexp.MustCompile(`(?s) at line \d+, column \d+\n -> '.*?' <-- around here`)

func plainMessage(err error) string { return nestedPlace.ReplaceAllString(err.Error(), "") }

// linesIn counts the line ends of a text
func linesIn(s string) int {
	return strings.Count(eolNormalizer.Replace(s), "\n")
}

// consistent says what is wrong with the place of an error: the line has to be
// what comes before the column, in the line of that number. In front of the
// first line (and of the XML declaration) there may be more.
func consistent(doc string, e helium.ErrParseError) string {
	lines := strings.Split(eolNormalizer.Replace(doc), "\n")
	if e.LineNumber < 1 || e.LineNumber > len(lines) {
		return fmt.Sprintf("error %q is on line %d of %d", e.Err, e.LineNumber, len(lines))
	}
	got := strings.TrimPrefix(e.Line, "\n")
	if utf8.RuneCountInString(got) != e.Column-1 {
		return fmt.Sprintf("error %q is in column %d, after %q", e.Err, e.Column, got)
	}
	if !strings.HasPrefix(lines[e.LineNumber-1], got) {
		return fmt.Sprintf("error %q is on line %d after %q, which is not the start of %q", e.Err, e.LineNumber, got, lines[e.LineNumber-1])
	}
	return ""
}

// plain documents have all of their errors in the document itself, and none in
// the XML declaration or the replacement text of an entity
func plain(doc string) bool {
	return doc != "" && utf8.ValidString(doc) && !strings.HasPrefix(doc, "<?xml") && !strings.HasPrefix(doc, "\ufeff") && !strings.Contains(doc, "<!ENTITY")
}

// judgePlace: the place of the error is in the document, and moves with the
// text that is put in front
func judgePlace(c *counter, doc string) string {
	if doc == "" || doc[0] == 0 || !utf8.ValidString(doc) || strings.HasPrefix(doc, "<?xml") || strings.HasPrefix(doc, "\ufeff") {
		return "" // the start says what encoding it is in
	}
	c.Traces++
	c.Evals++
	e, accepted, msg := placeOf(doc)
	if accepted || msg != "" {
		return msg
	}
	c.outcome(fmt.Sprintf("%v %d %d", e.Err, e.LineNumber, e.Column))
	if plain(doc) {
		if msg := consistent(doc, e); msg != "" {
			return msg
		}
	}
	if strings.Contains(doc, "<!ENTITY") && strings.Contains(doc, "&") {
		return "" // may be a place in a replacement text
	}
	for _, head := range []string{"\r\n\r\r\n\n", "<!--\n\r\n\r-->\n", "<?p é\n\u65e5?>\n"} {
		c.Evals++
		c.Transitions++
		f, accepted, msg := placeOf(head + doc)
		if msg != "" {
			return msg
		}
		if accepted {
			return fmt.Sprintf("accepted after %q, but not without: %v", head, e.Err)
		}
		if plainMessage(f.Err) != plainMessage(e.Err) || f.LineNumber != e.LineNumber+linesIn(head) || f.Column != e.Column {
			return fmt.Sprintf("error %q at %d:%d, but after %q it is %q at %d:%d", e.Err, e.LineNumber, e.Column, head, f.Err, f.LineNumber, f.Column)
		}
	}
	return ""
}

// judgeDefect: the key is a document in which "\x00" is in front of what is
// wrong, which is on one line. The error has to be on that line, and after or
// at that place
func judgeDefect(c *counter, key string) string {
	at := strings.IndexByte(key, 0)
	doc := key[:at] + key[at+1:]
	c.Traces++
	c.Evals++
	r := refRead(c, doc)
	if r.V == ref.WF {
		return ""
	}
	e, accepted, msg := placeOf(doc)
	if msg != "" {
		return msg
	}
	if accepted {
		if r.V == ref.Malformed {
			return "accepted, but not well-formed: " + r.Msg
		}
		return ""
	}
	c.outcome(fmt.Sprintf("%v %d", e.Err, e.LineNumber))
	if want := 1 + linesIn(key[:at]); e.LineNumber != want {
		return fmt.Sprintf("error %q is on line %d, but %q is on line %d", e.Err, e.LineNumber, short(key[at+1:]), want)
	}
	before := eolNormalizer.Replace(key[:at])
	line := before[strings.LastIndexByte(before, '\n')+1:]
	if i := strings.Index(line, "?>"); strings.HasPrefix(doc, "<?xml") && i >= 0 && strings.Index(before, "?>") == len(before)-len(line)+i || strings.HasPrefix(before, "\ufeff") {
		return "" // columns are counted from the end of the declaration
	}
	if e.Column < 1+utf8.RuneCountInString(line) {
		return fmt.Sprintf("error %q is in column %d, before %q in column %d", e.Err, e.Column, short(key[at+1:]), 1+utf8.RuneCountInString(line))
	}
	if plain(doc) {
		return consistent(doc, e)
	}
	return ""
}

// sequences emits all sequences of at most n pieces between a head and a tail
func sequences(head string, pieces []string, n int, tails []string, emit func(string)) {
	for _, t := range tails {
		emit(head + t)
	}
	if n == 0 {
		return
	}
	for _, p := range pieces {
		sequences(head+p, pieces, n-1, tails, emit)
	}
}

func placeSpaces(z size) []*Space {
	heads := []string{"", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"\n?>", "<?xml\nversion=\"1.0\"\r\nencoding='utf-8'\n?>\r\n", "<?xml version=\"1.0\"\n\nstandalone='no' ?>\n\n", "\n", "\ufeff"}
	defects := []string{"</s>", "<b></c>", "&u;", "&#0;", "<1", "<!x", "<p:x/>", "<b a=1/>", "<b a='1' a='2'/>", "<?xml?>", "<!-- -- -->", "<b", "<![CDATA", "&", "<b a='<'/>", "<b a='&u;'/>", "<?p", "<é:/>"}
	pieces := []string{"\n", "\r\n", "\r", "x\ny", "é\u65e5\n", "x", "<!--\n-->", "<!--a\n\r\nb-->", "<![CDATA[\n]]>", "<![CDATA[]\r]]>", "<?p\n?>", "<?p a\nb?>", "<a\n/>", "<a\nb=\"1\"\r\nc='2'/>", "<a b=\"\n\"/>", "<a b='\r\n&#10;'></a>", "<b>\n</b\n>", "&#10;", "&amp;", "<a xmlns=\n'u'/>", "<p:b xmlns:p\n=\n'u'/>"}
	// what is announced only at its end
	closed := []string{"</s>", "<b></c>", "<1", "<!x", "<p:x/>", "<b a=1/>", "<b a='1' a='2'/>", "<?xml?>", "<é:/>"}
	decls := []string{"\n", "\r\n", "<!--\n-->", "<?p\n?>", "<!ELEMENT\na\n(b\n|\nc)*>", "<!ELEMENT a EMPTY\n>", "<!ATTLIST a\nb CDATA\n#IMPLIED\n>", "<!ATTLIST a b (x\n|y) 'x'>", "<!ATTLIST a b CDATA '\n'>", "<!ENTITY e\n'x\r\ny'>", "<!ENTITY % p\n\"x\n\">", "<!ENTITY u SYSTEM 's'\nNDATA n>", "<!NOTATION n SYSTEM\n's'>", "<!ENTITY f PUBLIC 'x'\n's'>", "<!ELEMENT d (#PCDATA\r)>"}
	wrong := []string{"<!ELEMENT a>", "<!x>", "<!ENTITY e>", "<a/>", "<!ATTLIST a b x>", "<!ELEMENT a (b>", "x", "<!NOTATION>", "<!-- -- -->", "<!ATTLIST a b CDATA '<'>"}
	mark := func(l []string) []string {
		out := make([]string, len(l))
		for i, s := range l {
			out[i] = "\x00" + s
		}
		return out
	}
	n := pick(z, 2, 3, 3)
	return []*Space{
		list("defects in content", "XML declarations × sequences of at most "+itoa(n)+" pieces of content with and without line ends × defects", judgeDefect, func(_ bool, emit func(string)) {
			for i, h := range heads {
				m := n
				if i > 0 {
					m = n - 1
				}
				sequences(h+"<r>", pieces, m, mark(defects), emit)
			}
			sequences("<r\n>", pieces, n-1, mark(defects), emit)
			sequences("<!--\n--><!DOCTYPE\nr\n[\n]\n>\n<r>", pieces, n-1, mark(defects), emit)
			sequences("<!DOCTYPE r [<!ENTITY e 'x\ny'>]><r a='&e;'>&e;", pieces, n-1, mark(closed), emit)
			sequences("<!DOCTYPE r [<!ENTITY e '<a>\n</a>\n'>]><r>\n&e;&e;", pieces, n-1, mark(closed), emit)
		}),
		list("defects in the document type", "XML declarations × sequences of at most "+itoa(n)+" declarations with line ends × defects, in the document type and after it", judgeDefect, func(_ bool, emit func(string)) {
			for i, h := range heads {
				m := n
				if i > 0 {
					m = n - 1
				}
				sequences(h+"<!DOCTYPE r [", decls, m, mark(wrong), emit)
				sequences(h+"<!DOCTYPE r\nSYSTEM\n's'\n[", decls, m-1, mark(wrong), emit)
				for _, end := range []string{"]>", "]\n>\n", "]>\r\n"} {
					for _, x := range []string{"\x00</r>", "<r>\x00</s>", "<r\n>\x00</s>", "<r>\x00<p:s/>", "<r/>\x00x", "<r/>\n\x00<s/>"} {
						sequences(h+"<!DOCTYPE r [", decls, m-1, []string{end + x}, emit)
					}
				}
			}
		}),
		list("defects in prolog and epilog", "sequences of at most "+itoa(n+1)+" comments, processing instructions and line ends before and after the document element × defects", judgeDefect, func(_ bool, emit func(string)) {
			misc := []string{"\n", "\r\n", "\r", " ", "<!--\n-->", "<!--x-->", "<?p\n?>", "<?p a\nb\r\n?>"}
			for _, h := range heads {
				sequences(h, misc, n+1, mark([]string{"x", "</r>", "<1/>", "<!x>", "<r a='1' a='2'/>", "<![CDATA[x]]>", "<?xml version='1.0'?>"}), emit)
				sequences(h+"<r/>", misc, n, mark([]string{"x", "</r>", "<s/>", "<!DOCTYPE r>", "&amp;", "<?xml version='1.0'?>"}), emit)
			}
		}),
		list("many lines", "a thousand and more line ends of every kind in every construct", judgeDefect, func(th bool, emit func(string)) {
			for _, k := range []int{63, 64, 255, 256, 1000, 5000} {
				for _, eol := range []string{"\n", "\r\n", "\r", "x\n", "\ré\n"} {
					l := strings.Repeat(eol, k)
					for _, h := range []string{"<r>" + l + "<b/>", "<r><!--" + l + "-->", "<r><?p " + l + "?>", "<r><![CDATA[" + l + "]]>", "<r a='" + l + "'>"} {
						emit(h + "\x00</s>")
						emit(h + "<b>\x00</s>")
					}
					if !strings.ContainsAny(eol, "xé") {
						emit("<r" + l + ">\x00</s>")
						emit("<!DOCTYPE r" + l + ">\x00</s>")
						emit("<!DOCTYPE r [" + l + "<!ELEMENT a" + l + "(b" + l + ")>" + l + "\x00<!x>")
						emit("<r/>" + l + "\x00<s/>")
						emit(l + "\x00</s>")
						if eol == "\n" {
							emit("<?xml version='1.0'" + l + "?><!---->\x00</s>")
						}
					}
				}
			}
		}),
	}
}

func init() {
	register(&Property{ID: "C18", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, small, medium)
		return join(placeSpaces(z), everything(z, judgePlace))
	}})
}
