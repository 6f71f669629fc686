package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Texts of any bytes that programs put into documents: what no document can
// have is written as U+FFFD

// readable is what can be written of b
func readable(b string) string {
	var s strings.Builder
	for i := 0; i < len(b); {
		r, n := utf8.DecodeRuneInString(b[i:])
		i += n
		if !ref.IsChar(r) {
			r = utf8.RuneError
		}
		s.WriteRune(r)
	}
	return s.String()
}

func judgeRawText(c *counter, key string) string {
	c.Traces++
	stand := "\U0010FFF0" // for U+FFFD, in what was written
	if strings.Contains(key, stand) {
		stand = "\U0010FFF1"
	}
	want := strings.Replace(readable(key), "\uFFFD", stand, -1)
	c.outcome(want)
	build := func(what string, make func(d *helium.Document, r *helium.Element) error) string {
		c.Evals++
		d := helium.CreateDocument()
		r, err := d.CreateElement("r")
		if err != nil {
			return err.Error()
		}
		if err := d.AddChild(r); err != nil {
			return err.Error()
		}
		var msg string
		if s := guard(func() {
			if err := make(d, r); err != nil {
				msg = fmt.Sprintf("%s: %v", what, err)
			}
		}); s != "" || msg != "" {
			return s + msg
		}
		attr := ""
		if as := r.Attributes(); len(as) == 1 {
			attr = "a"
			if as[0].Value() != key && (utf8.ValidString(key) || strings.ToValidUTF8(as[0].Value(), "\uFFFD") != as[0].Value()) {
				return fmt.Sprintf("%s: its value is %q", what, as[0].Value())
			}
		} else if len(as) > 1 {
			return what + ": two attributes"
		} else if got := string(r.Content()); got != key {
			return fmt.Sprintf("%s: its content is %q", what, got)
		}
		for _, write := range []func() (string, error, string){
			func() (string, error, string) { return xmlString(d) },
			func() (s string, err error, pan string) {
				pan = guard(func() { s, err = r.XMLString() })
				return
			},
		} {
			s, err, pan := write()
			if pan != "" || err != nil {
				return fmt.Sprintf("%s: writing it: %v%s", what, err, pan)
			}
			// the model cannot tell U+FFFD from what is not UTF-8
			if strings.Contains(s, stand) || !utf8.ValidString(s) {
				return fmt.Sprintf("%s: written as %q", what, s)
			}
			m := ref.Parse(strings.Replace(s, "\uFFFD", stand, -1))
			if m.V != ref.WF {
				return fmt.Sprintf("%s: written as %q, which is %v: %s", what, s, m.V, m.Msg)
			}
			for _, n := range m.Doc.Nodes {
				if n.Kind != ref.Elem {
					continue
				}
				got := ""
				for _, k := range n.Children {
					if k.Kind != ref.Text {
						return fmt.Sprintf("%s: written as %q", what, s)
					}
					got += k.Data
				}
				if attr != "" {
					if len(n.Attrs) != 1 || got != "" {
						return fmt.Sprintf("%s: written as %q", what, s)
					}
					for _, v := range n.Attrs[0].Val {
						got += v.Text
					}
				} else if len(n.Attrs) > 0 {
					return fmt.Sprintf("%s: written as %q", what, s)
				}
				if got != want {
					return fmt.Sprintf("%s: written as %q, which is %q, not %q", what, s, got, want)
				}
			}
		}
		return ""
	}
	for i := 0; i <= len(key); i++ {
		i := i
		if s := build(fmt.Sprintf("text %q, with %q added", key[:i], key[i:]), func(d *helium.Document, r *helium.Element) error {
			t, err := d.CreateText([]byte(key[:i]))
			if err == nil {
				err = r.AddChild(t)
			}
			if err == nil && i < len(key) {
				err = t.AddContent([]byte(key[i:]))
			}
			return err
		}); s != "" {
			return s
		}
		if s := build(fmt.Sprintf("content %q, and then %q", key[:i], key[i:]), func(d *helium.Document, r *helium.Element) error {
			err := r.AddContent([]byte(key[:i]))
			if err == nil {
				err = r.AddContent([]byte(key[i:]))
			}
			return err
		}); s != "" {
			return s
		}
	}
	if strings.IndexByte(key, '&') >= 0 {
		return "" // a reference, perhaps
	}
	return build(fmt.Sprintf("attribute %q", key), func(d *helium.Document, r *helium.Element) error {
		return r.SetAttribute("a", key)
	})
}

var rawBytes = "\x00\x01\x08\t\n\x0b\r\x1f A\"&<>]\x7f\x80\x85\x8f\x90\x9f\xa0\xbf\xc0\xc2\xc3\xe0\xed\xef\xf0\xf4\xf5\xff"

func textSpaces(depth int) []*Space {
	return []*Space{
		list("texts of bytes", fmt.Sprintf("all sequences of at most %d of %d bytes, as text, content (in one and in two pieces) and attribute value", depth, len(rawBytes)), judgeRawText, func(_ bool, emit func(string)) {
			var rec func(s string)
			rec = func(s string) {
				if s != "" {
					emit(s)
				}
				if len(s) < depth {
					for i := range []byte(rawBytes) {
						rec(s + rawBytes[i:i+1])
					}
				}
			}
			rec("")
		}),
		list("texts of characters", "every code point up to U+10FFFF, surrogates too, alone and between other characters", judgeRawText, func(_ bool, emit func(string)) {
			for r := 0; r <= 0x10ffff; r++ {
				if r > 0x3000 && r < 0xd700 && r%64 > 1 || r > 0x10100 && r%256 > 1 && r&0xffff < 0xfff0 {
					continue
				}
				s := string([]byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6)&0x3f, 0x80 | byte(r)&0x3f})
				if r < 0xd800 || r > 0xdfff {
					s = string(rune(r))
				}
				emit(s)
				emit("a" + s + "é")
			}
		}),
	}
}
