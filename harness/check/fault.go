package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
	"github.com/lestrrat-go/helium/sax"
)

// Faults: handlers that return an error at every event, and writers that fail
// at every byte

// causedBy says whether an error of the parser is, or wraps, another
func causedBy(err, cause error) bool {
	for i := 0; err != nil && i < 100; i++ {
		if err == cause {
			return true
		}
		switch e := err.(type) {
		case helium.ErrParseError:
			err = e.Err
		case *helium.ErrParseError:
			err = e.Err
		default:
			err = errors.Unwrap(err)
		}
	}
	return false
}

// handlerFaults: whichever call of the handler returns an error, parsing ends
// there, with that error
func judgeHandlerFaults(c *counter, doc string) string {
	r := refRead(c, doc)
	c.Traces++
	handlers := []func() *recorder{func() *recorder { return &recorder{next: helium.NewTreeBuilder(), noValues: true} }}
	if !strings.Contains(doc, "<!ENTITY") {
		handlers = append(handlers, func() *recorder { return &recorder{noValues: true} })
	}
	for i, mk := range handlers {
		kind := [...]string{"handler in front of TreeBuilder", "handler"}[i]
		h := mk()
		c.Evals++
		p := parseSAX(h, []byte(doc))
		if p.panic != "" {
			return kind + ": " + p.panic
		}
		if r.V == ref.WF && p.err != nil {
			return kind + ": well-formed, but rejected: " + p.err.Error()
		}
		for kk := 0; kk < 2*h.calls; kk++ {
			// an error of its own, and one that parsers may give a meaning
			k, fault := kk/2+1, [...]error{errFault, io.EOF}[kk%2]
			f := mk()
			f.fail, f.fault = k, fault
			c.Evals++
			c.Transitions++
			q := parseSAX(f, []byte(doc))
			what := fmt.Sprintf("%s: call %d (%s) returns the error %q", kind, k, h.names[k-1], fault)
			if q.panic != "" {
				return what + ": " + q.panic
			}
			if f.err == nil {
				return what + ": there is no such call now"
			}
			if q.err == nil {
				return what + ", and Parse returns none"
			}
			if q.doc != nil {
				return what + ", and Parse returns a document"
			}
			if !causedBy(q.err, fault) {
				return fmt.Sprintf("%s, and Parse returns another: %v", what, q.err)
			}
			if f.after > 0 {
				return fmt.Sprintf("%s, but %d calls follow (%s)", what, f.after, strings.Join(f.names[k:], ", "))
			}
			if n := len(f.v); n > 0 {
				if n > len(h.v) {
					return fmt.Sprintf("%s: %d events before it, of %d", what, n, len(h.v))
				}
				want := append(view{}, h.v[:n]...)
				if f.text && strings.HasPrefix(want[n-1], strings.TrimSuffix(f.v[n-1], `"`)) {
					want[n-1] = f.v[n-1] // a part of the text
				}
				if s := diff(f.v, want); s != "" {
					return what + ": events before it differ: " + s
				}
			}
			c.outcome(h.names[k-1] + " " + errKind(q.err))
		}
		if i == 1 { // a handler may leave any event unhandled
			for k := 1; k <= h.calls; k++ {
				f := mk()
				f.fail, f.fault = k, sax.ErrHandlerUnspecified
				c.Evals++
				c.Transitions++
				q := parseSAX(f, []byte(doc))
				what := fmt.Sprintf("%s: call %d (%s) is unhandled", kind, k, h.names[k-1])
				if q.panic != "" {
					return what + ": " + q.panic
				}
				if (q.err == nil) != (p.err == nil) {
					return fmt.Sprintf("%s: Parse returns %v, without that %v", what, q.err, p.err)
				}
				if s := diff(f.v, h.v); s != "" {
					return what + ": " + s
				}
			}
		}
	}
	return ""
}

// errKind is an error without the position
func errKind(err error) string {
	if e, ok := err.(helium.ErrParseError); ok {
		return e.Err.Error()
	}
	return err.Error()
}

func faultSpaces(z size, j judge) []*Space {
	prologs := []string{"", "<?xml version='1.0'?>", "<!--c-->", "<?p d?>", "\n"}
	dtds := []string{"", "<!DOCTYPE r>", "<!DOCTYPE r SYSTEM 's'>", "<!DOCTYPE r PUBLIC 'p' 's' []>", "<!DOCTYPE r [<!ELEMENT r ANY>]>", "<!DOCTYPE r [<!ATTLIST r a CDATA 'd' b ID #IMPLIED>]>", "<!DOCTYPE r [<!ENTITY e 'v'><!ENTITY f '<b/>'>]>", "<!DOCTYPE r [<!NOTATION n SYSTEM 's'><!ENTITY u SYSTEM 's' NDATA n>]>", "<!DOCTYPE r [<!--c--><?p d?>]>", "<!DOCTYPE r [<!ENTITY % p '<!ENTITY e \"v\">'>%p;<!ENTITY f SYSTEM 's'>]>", "<!DOCTYPE r [<!ELEMENT r (#PCDATA|a)*><!ATTLIST a x (y|z) 'y'>]>"}
	pieces := []string{"", "x", " ", "<a/>", "<a>y</a>", "<!--c-->", "<?p d?>", "<?p?>", "<![CDATA[d]]>", "&lt;", "&#65;", "<b k='v' xmlns='u'/>", "<a><b/>z</a>", "<![CDATA[]]>", "&", "</a>"}
	withEntities := append(append([]string{}, pieces...), "&e;", "&f;", "<a k='&e;'/>")
	depth := pick(z, 2, 3, 4)
	return []*Space{
		list("faults in documents", "prologs × document types × sequences of up to "+itoa(depth)+" pieces of content × epilogs; a fault at every call of the handler", j, func(_ bool, emit func(string)) {
			for _, p := range prologs {
				for _, d := range dtds {
					ps := pieces
					if strings.Contains(d, "ENTITY") {
						ps = withEntities
					}
					var rec func(n int, s string)
					rec = func(n int, s string) {
						for _, e := range []string{"", "<!--d-->", "<?q?>", "x"} {
							if (e == "x" || p != "") && n < depth-1 {
								continue
							}
							emit(p + d + "<r>" + s + "</r>" + e)
						}
						if n == depth {
							return
						}
						for _, q := range ps[1:] {
							rec(n+1, s+q)
						}
					}
					rec(0, "")
				}
			}
		}),
		tokens{"faults in declarations", "<!DOCTYPE r [", toks(`<!ELEMENT_r_(a)> <!ATTLIST_r_x_ID_#IMPLIED_y_CDATA_"d"> <!ENTITY_e_"v"> <!ENTITY_%_p_"v"> <!NOTATION_n_SYSTEM_"s"> <!ENTITY_u_SYSTEM_"s"_NDATA_n> <!ENTITY_x_PUBLIC_"s"_"t"> <!--c--> <?p_d?> %p; <!ENTITY_%_q_"<!--d-->"> %q; <!ELEMENT_`), []string{"]><r/>", "]><r>&e;</r>", ""}, pick(z, 3, 4, 5), 1}.space(j),
		tokens{"faults in content", "<r>", toks(`x <a> </a> <b/> <b_k="v"/> &amp; &#65; <!--c--> <![CDATA[d]]> <?p_d?> ^`), []string{"", "AUTO"}, pick(z, 3, 4, 5), 1}.space(j),
	}
}

// ---- writers ----

// faultyWriter takes budget bytes and then fails
type faultyWriter struct {
	b       bytes.Buffer
	budget  int
	short   bool // does not return an error, but a short count
	partial bool // takes what it can of the write that fails
	whole   bool // takes all of the write that fails
	err     error
	failed  int
	after   int
}

var errWriter = errors.New("writer is full")

func (w *faultyWriter) Write(b []byte) (int, error) {
	if w.failed > 0 {
		w.after++
	}
	if w.b.Len()+len(b) <= w.budget && w.failed == 0 {
		w.b.Write(b)
		return len(b), nil
	}
	w.failed++
	n := 0
	if w.partial && w.failed == 1 {
		n = w.budget - w.b.Len()
		w.b.Write(b[:n])
	}
	if w.whole && w.failed == 1 {
		n = len(b)
		w.b.Write(b)
	}
	if w.short {
		return n, nil
	}
	return n, w.err
}

// writerFaults: whichever byte the writer fails at, the error is returned, and
// nothing is written that is not a part of the whole
func judgeWriterFaults(c *counter, doc string) string {
	p := parseDOM([]byte(doc))
	if p.panic != "" {
		return p.panic
	}
	if p.err != nil {
		return ""
	}
	c.Traces++
	var nodes []helium.Node
	var names []string
	helium.Walk(p.doc, func(n helium.Node) error {
		nodes = append(nodes, n)
		names = append(names, n.Type().String()+" "+n.Name())
		return nil
	})
	d := &helium.Dumper{} // one for all: it keeps nothing
	for i := -1; i < len(nodes); i++ {
		ways := map[string]func(w io.Writer) error{"DumpDoc": func(w io.Writer) error { return d.DumpDoc(w, p.doc) }, "XML": p.doc.XML}
		what, order := "document", []string{"DumpDoc", "XML"}
		text := p.doc.XMLString
		if i >= 0 {
			what, order, text = names[i], []string{"DumpNode"}, nil
			ways = map[string]func(w io.Writer) error{"DumpNode": func(w io.Writer) error { return d.DumpNode(w, nodes[i]) }}
			if e, ok := nodes[i].(*helium.Element); ok {
				ways["XML"], text = e.XML, e.XMLString
				order = append(order, "XML")
			}
		}
		whole := ""
		for j, way := range order {
			out, msg := judgeWriter(c, what+": "+way, ways[way])
			if msg != "" {
				return msg
			}
			if j > 0 && out != whole {
				return fmt.Sprintf("%s: %s writes %q, %s writes %q", what, order[0], whole, way, out)
			}
			whole = out
		}
		if text != nil {
			var s string
			var err error
			if pan := guard(func() { s, err = text() }); pan != "" || err != nil || s != whole {
				return fmt.Sprintf("%s: %s writes %q, XMLString returns %q (%v %s)", what, order[0], whole, s, err, pan)
			}
		}
	}
	return ""
}

// judgeWriter tries one way to write, with faults everywhere
func judgeWriter(c *counter, what string, write func(io.Writer) error) (out, msg string) {
	var whole bytes.Buffer
	var err error
	c.Evals++
	if s := guard(func() { err = write(&whole) }); s != "" {
		return "", what + ": " + s
	}
	if err != nil {
		return "", fmt.Sprintf("%s fails: %v", what, err)
	}
	c.outcome(whole.String())
	for k := 0; k < whole.Len(); k++ {
		for mode := 0; mode < 5; mode++ {
			w := &faultyWriter{budget: k, partial: mode == 1 || mode == 2, short: mode == 2, whole: mode == 3, err: errWriter}
			if mode == 4 {
				w.err = io.EOF
			}
			c.Evals++
			c.Transitions++
			var err error
			at := fmt.Sprintf("%s: writer fails after %d of %d bytes (mode %d)", what, k, whole.Len(), mode)
			if s := guard(func() { err = write(w) }); s != "" {
				return "", at + ": " + s
			}
			if err == nil {
				return "", at + ", and no error is returned"
			}
			if mode != 2 && !causedBy(err, w.err) {
				return "", fmt.Sprintf("%s, and another error is returned: %v", at, err)
			}
			if !bytes.HasPrefix(whole.Bytes(), w.b.Bytes()) {
				return "", fmt.Sprintf("%s: it got %q of %q", at, w.b.String(), whole.String())
			}
			if w.after > 0 {
				return "", fmt.Sprintf("%s: %d writes follow", at, w.after)
			}
		}
	}
	// and nothing of that is left
	var again bytes.Buffer
	if err := write(&again); err != nil || again.String() != whole.String() {
		return "", fmt.Sprintf("%s: written again as %q (%v), before as %q", what, again.String(), err, whole.String())
	}
	return whole.String(), ""
}

func writerSpaces(z size, j judge) []*Space {
	heads := []string{"", "<?xml version='1.0' standalone='yes'?>", "<?xml version='1.0' encoding='iso-8859-1'?>", "<?xml version='1.0' encoding='utf-8'?>", "<?xml version='1.0' encoding='shift_jis'?>"}
	dtds := []string{"", "<!DOCTYPE r>", `<!DOCTYPE r PUBLIC "p" "s" [<!ELEMENT r (a?,(b|c)*)+>]>`, `<!DOCTYPE r [<!ELEMENT r EMPTY><!ELEMENT s ANY><!ELEMENT t (#PCDATA|x)*>]>`, `<!DOCTYPE r [<!ATTLIST r a CDATA "d'" b (x|y) #REQUIRED c NOTATION (n) #IMPLIED d ID #FIXED 'q"'>]>`, `<!DOCTYPE r SYSTEM "s" [<!ENTITY e "v&#34;'"><!ENTITY f SYSTEM "g"><!ENTITY % p PUBLIC "x" "y"><!ENTITY u SYSTEM "s" NDATA n>]>`, "<!DOCTYPE r [<!--c--><?p d?>]>"}
	contents := []string{"<r/>", "<r>x&lt;y</r>", "<r a='b' c=\"&amp;&quot;'\"/>", "<p:r xmlns:p='u' xmlns='v' p:a='w'><q/></p:r>", "<r><!--c--><?p d?>\n<![CDATA[<]]></r>", "<r>é&#233;\u65e5</r>", "<!--c--><r><a>x</a>y<a/>&#13;</r><?p?>", "<r a='&#9;&#10;'>]]&gt;\u00a0</r>"}
	return []*Space{
		list("writer faults", "XML declarations × document types × contents; the writer fails at every byte, in five ways, of the document and of every node", j, func(_ bool, emit func(string)) {
			for _, h := range heads {
				for _, d := range dtds {
					for _, x := range contents {
						if strings.Contains(h, "iso") || strings.Contains(h, "jis") {
							x = strings.Replace(strings.Replace(x, "é", "&#233;", -1), "\u00a0", "", -1)
							x = strings.Replace(x, "\u65e5", "&#26085;", -1)
						}
						emit(h + d + x)
						if strings.Contains(d, "ENTITY e") {
							emit(h + d + "<r a='&e;'>&e;&f;</r>")
						}
					}
				}
			}
		}),
		tokens{"writer faults in content", "<r>", toks(`x <a> </a> <b/> <b_k="v"/> &amp; <!--c--> <![CDATA[d]]> <?p_d?>`), []string{"AUTO"}, pick(z, 3, 3, 4), 0}.space(j),
	}
}

func init() {
	register(&Property{ID: "C06", Level: "fault_enumeration", Spaces: func(th bool) []*Space {
		return faultSpaces(zoom(th, small, medium), judgeHandlerFaults)
	}})
	register(&Property{ID: "C19", Level: "fault_enumeration", Spaces: func(th bool) []*Space {
		z := zoom(th, small, large)
		j := func(c *counter, doc string) string {
			if len(doc) > 200 {
				return ""
			}
			return judgeWriterFaults(c, doc)
		}
		return join(writerSpaces(z, judgeWriterFaults), named(everything(zoom(th, small, medium), j), "by shape", "quotes", "attribute-list", "entity decl", "notation", "content model", "doctype", "start tag", "references", "XML decl"))
	}})
}
