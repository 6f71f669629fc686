package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
	xenc "golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
)

// Encodings: documents in every encoding, read and written

var encodings = map[string]xenc.Encoding{
	"utf8": unicode.UTF8, "utf-8": unicode.UTF8,
	"euc-jp": japanese.EUCJP, "shift_jis": japanese.ShiftJIS, "shift-jis": japanese.ShiftJIS, "shiftjis": japanese.ShiftJIS, "cp932": japanese.ShiftJIS, "jis": japanese.ISO2022JP, "iso-2022-jp": japanese.ISO2022JP,
	"big5": traditionalchinese.Big5, "euc-kr": korean.EUCKR, "hz-gb2312": simplifiedchinese.HZGB2312,
	"cp437": charmap.CodePage437, "cp866": charmap.CodePage866,
	"iso-8859-1": charmap.ISO8859_1, "iso-8859-2": charmap.ISO8859_2, "iso-8859-3": charmap.ISO8859_3, "iso-8859-4": charmap.ISO8859_4, "iso-8859-5": charmap.ISO8859_5, "iso-8859-6": charmap.ISO8859_6, "iso-8859-7": charmap.ISO8859_7, "iso-8859-8": charmap.ISO8859_8, "iso-8859-10": charmap.ISO8859_10, "iso-8859-13": charmap.ISO8859_13, "iso-8859-14": charmap.ISO8859_14, "iso-8859-15": charmap.ISO8859_15, "iso-8859-16": charmap.ISO8859_16,
	"koi8r": charmap.KOI8R, "koi8u": charmap.KOI8U, "koir8u": charmap.KOI8U, "macintosh": charmap.Macintosh, "macintoshcyrillic": charmap.MacintoshCyrillic,
	"windows1250": charmap.Windows1250, "windows1251": charmap.Windows1251, "windows1252": charmap.Windows1252, "windows1253": charmap.Windows1253, "windows1254": charmap.Windows1254, "windows1255": charmap.Windows1255, "windows1256": charmap.Windows1256, "windows1257": charmap.Windows1257, "windows1258": charmap.Windows1258, "windows874": charmap.Windows874, "xuserdefined": charmap.XUserDefined,
}

func tableNames() []string {
	var names []string
	for n := range encodings {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

var encodingDecl = regexp.MustCompile(`^<\?xml version=['"]1\.0['"] encoding=['"]([^'"]*)['"]`)

// decoded is what a document is in UTF-8, and whether its bytes all are
// characters of the encoding that it declares. supported: there is one
func decoded(doc []byte) (s string, valid, supported bool) {
	e := xenc.Encoding(unicode.UTF8)
	if m := encodingDecl.FindSubmatch(doc); m != nil {
		e = encodings[strings.ToLower(string(m[1]))]
		if e == nil {
			return "", false, false
		}
	}
	if e == unicode.UTF8 {
		s := strings.TrimPrefix(string(doc), "\ufeff")
		return s, utf8.ValidString(s), true
	}
	b, err := e.NewDecoder().Bytes(doc)
	return string(b), err == nil && !bytes.ContainsRune(b, utf8.RuneError), true
}

// markup other than tags, in which there may be characters but no references
var markup = regexp.MustCompile(`<[!?]`)

// representable: the encoding that a document declares has every character of it
func representable(s string) bool {
	m := encodingDecl.FindStringSubmatch(s)
	if m == nil {
		return true
	}
	e := encodings[strings.ToLower(m[1])]
	for _, r := range s {
		if r >= 0x80 {
			if _, err := e.NewEncoder().String(string(r)); err != nil {
				return false
			}
		}
	}
	return true
}

func judgeEncoded(c *counter, doc string) string {
	s, valid, supported := decoded([]byte(doc))
	c.Traces++
	c.Evals++
	p := parseDOM([]byte(doc))
	if p.panic != "" {
		return p.panic
	}
	if !supported {
		c.outcome("not supported")
		if p.err == nil {
			return "accepted, in an encoding of no such name"
		}
		return ""
	}
	if !valid {
		c.Malformed++
		if p.err == nil {
			return "accepted, though not all of its bytes are characters"
		}
		return ""
	}
	r := ref.Parse(s)
	switch r.V {
	case ref.Unknown:
		c.Unknown++
		return ""
	case ref.Malformed:
		c.Malformed++
		c.outcome(r.Msg)
		return verdict(r, p)
	}
	c.WF++
	if msg := verdict(r, p); msg != "" {
		return msg
	}
	want := refDocView(r.Doc)
	c.outcome(strings.Join(want, "\n"))
	c.sample(doc)
	if msg := tree(r, p); msg != "" {
		return msg
	}
	if got, want := p.doc.Encoding(), r.Doc.Encoding; want != "" && got != want {
		return fmt.Sprintf("encoding of the document is %q, declared %q", got, want)
	}

	// what is written is in the same encoding
	if m := encodingDecl.FindStringIndex(s); m != nil && markup.MatchString(s[m[1]:]) && !representable(s) {
		// four characters of big5 are two code points that it does not have
		// alone, and there are no references in comments and the like
		c.Unknown++
		return ""
	}
	c.Evals += 2
	w, err, pan := xmlString(p.doc)
	if pan != "" || err != nil {
		return fmt.Sprintf("writing: %v%v", err, pan)
	}
	t, valid, supported := decoded([]byte(w))
	if !valid || !supported {
		return fmt.Sprintf("what is written is not in the encoding of the document: %q", w)
	}
	m := ref.Parse(t)
	if m.V == ref.Malformed {
		return fmt.Sprintf("what is written is not well-formed (%s): %q", m.Msg, w)
	}
	if m.V == ref.WF {
		if d := diff(refDocView(m.Doc), want); d != "" {
			return fmt.Sprintf("what is written has other contents: %s: %q", d, w)
		}
	}
	q := parseDOM([]byte(w))
	if q.panic != "" || q.err != nil {
		return fmt.Sprintf("what is written cannot be read: %v%v: %q", q.err, q.panic, w)
	}
	x, err, pan := xmlString(q.doc)
	if pan != "" || err != nil || x != w {
		return fmt.Sprintf("%q is written as %q (%v%v)", w, x, err, pan)
	}
	return ""
}

// judgeLoad: the encoding of a name is that encoding, and no other name has one
func judgeLoad(c *counter, name string) string {
	c.Traces++
	c.Evals++
	var e xenc.Encoding
	if s := guard(func() { e = encoding.Load(name) }); s != "" {
		return s
	}
	want := encodings[strings.ToLower(name)]
	if want == nil || e == nil {
		if want != nil || e != nil {
			return fmt.Sprintf("encoding is %v, expected %v", e, want)
		}
		c.outcome("none")
		return ""
	}
	all := make([]byte, 0, 512)
	for i := 0; i < 256; i++ {
		all = append(all, byte(i), '\n')
	}
	a, err := want.NewDecoder().Bytes(all)
	b, err2 := e.NewDecoder().Bytes(all)
	if string(a) != string(b) || (err == nil) != (err2 == nil) {
		return fmt.Sprintf("it decodes all bytes as %q (%v), expected %q (%v)", b, err2, a, err)
	}
	c.outcome(string(b))
	return ""
}

// judgeNewDocument: a document that is made in an encoding is written in it.
// The key is the name of the encoding and a text
func judgeNewDocument(c *counter, key string) string {
	i := strings.IndexByte(key, '|')
	name, text := key[:i], key[i+1:]
	c.Traces++
	c.Evals++
	var s string
	var err error
	if p := guard(func() {
		d := helium.NewDocument("1.0", name, helium.StandaloneImplicitNo)
		r, _ := d.CreateElement("r")
		d.AddChild(r)
		if err = r.SetAttribute("a", strings.Replace(text, "&", "&amp;", -1)); err != nil {
			return
		}
		r.AddContent([]byte(text))
		s, err = d.XMLString()
	}); p != "" {
		return p
	}
	if err != nil {
		return err.Error()
	}
	t, valid, supported := decoded([]byte(s))
	if !valid || !supported {
		return fmt.Sprintf("what is written is not in the encoding of the document: %q", s)
	}
	r := ref.Parse(t)
	if r.V == ref.Malformed {
		return fmt.Sprintf("what is written is not well-formed (%s): %q", r.Msg, s)
	}
	if r.V == ref.WF {
		esc := ref.Parse(`<?xml version="1.0" encoding="` + name + `"?><r a="` + charRefs(text) + `">` + charRefs(text) + `</r>`)
		if d := diff(refDocView(r.Doc), refDocView(esc.Doc)); d != "" {
			return fmt.Sprintf("what is written has other contents: %s: %q", d, s)
		}
		c.WF++
	}
	c.outcome(s)
	q := parseDOM([]byte(s))
	if q.panic != "" || q.err != nil {
		return fmt.Sprintf("what is written cannot be read: %v%v: %q", q.err, q.panic, s)
	}
	return ""
}

func charRefs(s string) string {
	t := ""
	for _, r := range s {
		t += fmt.Sprintf("&#%d;", r)
	}
	return t
}

// repertoire is all characters of the encodings of single bytes, and some of others
func repertoire(step int) []rune {
	seen := map[rune]bool{}
	for _, e := range encodings {
		for i := 0; i < 256; i++ {
			s, _ := e.NewDecoder().String(string([]byte{byte(i)}))
			if r, w := utf8.DecodeRuneInString(s); w == len(s) && r != utf8.RuneError && (r >= 0x20 || r == '\t' || r == '\n' || r == '\r') {
				seen[r] = true
			}
		}
	}
	for r := rune(0x100); r < 0x11000; r += rune(step) {
		if r < 0xd800 || r >= 0xe000 && r < 0xfffd || r > 0xffff {
			seen[r] = true
		}
	}
	var out []rune
	for r := range seen {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func encodingSpaces(z size) []*Space {
	names := tableNames()
	decl := func(name string) string { return `<?xml version="1.0" encoding="` + name + `"?>` }
	places := []string{"<r>%</r>", "<r a='%'/>", "<r><!--%--></r>", "<?p %?><r/>", "<r><![CDATA[%]]></r>", "<r%/>", `<!DOCTYPE r [<!ENTITY e "%">]><r a="&e;">&e;</r>`, `<!DOCTYPE r [<!ATTLIST r a CDATA "%">]><r/>`}
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	double := map[string][][2]int{ // ranges of first and second bytes
		"shift_jis": {{0x81, 0xfc}, {0x3f, 0xfe}}, "euc-jp": {{0x8e, 0xfe}, {0x9f, 0xff}}, "big5": {{0x81, 0xfe}, {0x3f, 0xff}}, "euc-kr": {{0x80, 0xff}, {0x40, 0xff}},
	}
	var doubles []string
	for n := range double {
		doubles = append(doubles, n)
	}
	sort.Strings(doubles)
	in := func(place, s string) string { return strings.Replace(place, "%", s, 1) }
	var out []*Space
	out = append(out, list("every byte in every encoding", "every byte from 1 to 255 × "+itoa(len(names))+" names of encodings × "+itoa(len(places))+" places", judgeEncoded, func(_ bool, emit func(string)) {
		for _, n := range names {
			for i, p := range places {
				for b := 1; b < 256; b++ {
					if i > 0 && b < 0x80 && n != "jis" && n != "hz-gb2312" {
						continue
					}
					emit(decl(n) + in(p, string([]byte{byte(b)})))
				}
			}
			for _, m := range []string{strings.ToUpper(n), title(n)} {
				for b := 0x80; b < 256; b++ {
					emit(decl(m) + in(places[0], string([]byte{byte(b)})))
				}
			}
		}
	}))
	out = append(out, list("every pair of bytes", "all pairs of bytes that may be a character of "+strings.Join(doubles, ", ")+"; all characters of EUC-JP of three bytes; all of iso-2022-jp and hz-gb2312", judgeEncoded, func(_ bool, emit func(string)) {
		pl := places[:pick(z, 3, 8, 8)]
		for _, p := range pl {
			for _, n := range doubles {
				r := double[n]
				for a := r[0][0]; a <= r[0][1]; a++ {
					for b := r[1][0]; b <= r[1][1]; b++ {
						if b != '&' && b != '<' {
							emit(decl(n) + in(p, string([]byte{byte(a), byte(b)})+"x"))
						}
					}
				}
			}
			for a := 0x21; a <= 0x7e; a++ {
				for b := 0x21; b <= 0x7e; b++ {
					emit(decl("euc-jp") + in(p, string([]byte{0x8f, byte(a | 0x80), byte(b | 0x80)})+"x"))
					emit(decl("iso-2022-jp") + in(p, "\x1b$B"+string([]byte{byte(a), byte(b)})+"\x1b(Bx"))
					emit(decl("hz-gb2312") + in(p, "~{"+string([]byte{byte(a), byte(b)})+"~}x"))
				}
			}
		}
	}))
	// characters of the encodings that are written back as they were
	some := map[string]string{"shift_jis": "\x93\xfa\xb1\x83\x5c", "euc-jp": "\xc6\xfc\x8e\xb1\x8f\xb0\xa1", "big5": "\xa4\xe9\xb3\x5c", "euc-kr": "\xc0\xcf\xa1\xa2", "iso-2022-jp": "\x1b$BF|K\\\x1b(B", "hz-gb2312": "~{HUN\x44~}", "iso-8859-1": "\xe9\xff\r\n", "windows1252": "\x80\xe9", "koi8r": "\xc1\r"}
	var someNames []string
	for n := range some {
		someNames = append(someNames, n)
	}
	sort.Strings(someNames)
	out = append(out, list("encoded text at every offset", "characters of "+itoa(len(some))+" encodings, after every number of bytes up to 130 and around 4096, and that many times", judgeEncoded, func(_ bool, emit func(string)) {
		for _, n := range someNames {
			for _, p := range places[:5] {
				sizes(pick(z, 50, 130, 300), pick(z, 515, 4103, 8200), func(k int) {
					emit(decl(n) + in(p, strings.Repeat("x", k)+some[n]+"y"))
					emit(decl(n) + in(p, strings.Repeat(some[n], k/3)+"y"))
				})
				for k := 4000; k < 4100; k++ {
					if p == places[0] {
						emit(decl(n) + in(p, strings.Repeat("x", k)+some[n]+"y"))
					}
				}
			}
		}
	}))
	chars := repertoire(pick(z, 307, 53, 17))
	out = append(out, list("every character written in every encoding", itoa(len(chars))+" characters × "+itoa(len(names))+" names of encodings, in text and attribute values, read as references, and put there", func(c *counter, key string) string {
		if strings.HasPrefix(key, "<") {
			return judgeEncoded(c, key)
		}
		return judgeNewDocument(c, key)
	}, func(_ bool, emit func(string)) {
		for _, n := range names {
			for _, r := range chars {
				x := charRefs(string(r))
				emit(decl(n) + `<r a="` + x + `">` + x + "</r>")
				if r >= 0x20 {
					emit(n + "|" + string(r) + "x")
				}
			}
			// neighbours of what is not in the encoding
			for _, s := range []string{"é\u65e5é", "\u65e5", "\u0416\u65e5\u0416<&", "\U0001F600x", "x\U0001F600", "\u20ac\u20ac"} {
				emit(n + "|" + s)
				emit(decl(n) + `<r a="` + charRefs(s) + `">` + charRefs(s) + "</r>")
			}
		}
	}))
	out = append(out, list("names of encodings", "the names of all encodings, in all of their edits by one character", func(c *counter, key string) string {
		if msg := judgeLoad(c, key); msg != "" {
			return "Load: " + msg
		}
		if ok, _ := regexp.MatchString(`^[A-Za-z][A-Za-z0-9._-]*$`, key); !ok {
			return ""
		}
		return judgeEncoded(c, decl(key)+"<r>x</r>")
	}, func(_ bool, emit func(string)) {
		emit("")
		for _, n := range append(names, "utf-16", "utf-16le", "ucs4be", "ebcdic", "ascii", "us-ascii", "latin1", "iso-8859-9", "iso-8859-11", "iso-8859-12", "gbk", "gb18030", "gb2312", "windows-1252", "koi8-r") {
			emit(strings.ToUpper(n))
			emit(title(n))
			one(n, 0, []string{"0", "1", "2", "5", "7", "8", "9", "x", "u", "r", "-", "_", "s", " ", "S", "é"}, func(x string, _ int) { emit(x) })
		}
	}))
	out = append(out, list("byte order marks", "a byte order mark before, after and in documents", judgeFull, func(_ bool, emit func(string)) {
		for _, d := range append(append([]string{}, seeds...), alignSeeds...) {
			emit("\ufeff" + d)
			emit("\ufeff\ufeff" + d)
			emit(" \ufeff" + d)
			emit(d + "\ufeff")
			emit("\ufeff" + strings.Replace(d, "UTF-8", "utf-8", -1))
			for i := range d {
				if i < 40 {
					emit("\ufeff" + d[:i])
					emit("\ufeff" + d[:i] + "\ufeff" + d[i:])
				}
			}
			for _, b := range []string{"\xef", "\xef\xbb", "\xfe\xff", "\xff\xfe", "\xef\xbb\xbe", "\xbf\xbb\xef", "\x00\x00\x00<", "<\x00\x00\x00", "\x00\x00<\x00", "\x00<\x00\x00", "<\x00?\x00", "\x00<\x00?", "\x4c\x6f\xa7\x94"} {
				emit(b + d)
			}
		}
	}))
	return out
}

func init() {
	register(&Property{ID: "C16", Level: "model_checking", Spaces: func(th bool) []*Space {
		return encodingSpaces(zoom(th, small, medium))
	}})
}
