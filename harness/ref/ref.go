// Package ref is the reference model: a deliberately plain recursive descent
// reader of XML 1.0 + Namespaces in XML 1.0, written from the specifications
// and not from the code under test. It decides whether a document is
// well-formed and what it contains. Where helium documents or inherits (from
// libxml2) a behaviour that is outside of the modelled domain, the verdict is
// Unknown and nothing but termination is checked.
package ref

import (
	"fmt"
	"sort"
	"strings"
)

type Verdict int

const (
	WF Verdict = iota
	Malformed
	Unknown
)

func (v Verdict) String() string { return [...]string{"well-formed", "malformed", "unknown"}[v] }

type Kind int

const (
	Elem Kind = iota
	Text
	Comment
	PI
	EntRef
	Doctype
)

type Piece struct {
	Text string
	Ref  string // name of a general entity, if not ""
}

// Value of an attribute: text and references to entities that are not
// predefined
type Value []Piece

// Unexpanded is the form in which values are given to SAX handlers: references
// are kept, ampersands are written as "&#38;"
func (v Value) Unexpanded() string {
	var b strings.Builder
	for _, p := range v {
		if p.Ref != "" {
			b.WriteString("&" + p.Ref + ";")
		} else {
			b.WriteString(strings.Replace(p.Text, "&", "&#38;", -1))
		}
	}
	return b.String()
}

func (v Value) HasRef() bool {
	for _, p := range v {
		if p.Ref != "" {
			return true
		}
	}
	return false
}

type Attr struct {
	Name, Prefix, Local string
	Val                 Value
	Default             bool
	Escaped             string // Val.Unexpanded() after normalisation
	URI                 string
}

type NS struct{ Prefix, URI string }

type Node struct {
	Kind     Kind
	Prefix   string
	Local    string
	URI      string
	NSDecls  []NS
	Attrs    []Attr // specified ones
	Defaults []Attr // defaulted ones, by name
	Data     string // text, comment, PI data, entity name
	CData    bool   // text is a CDATA section
	Target   string
	Children []*Node
	DT       *DTD
	Line     int
	Empty    bool
}

func (n *Node) QName() string {
	if n.Prefix != "" {
		return n.Prefix + ":" + n.Local
	}
	return n.Local
}

type Decl struct {
	Kind string // element attlist entity pentity notation comment pi

	Name    string // element, entity or notation name; element of attribute
	Model   string // canonical content model
	Att     string // attribute name
	Type    string // attribute type
	Enum    []string
	Def     string // "", #REQUIRED, #IMPLIED, #FIXED
	Default Value
	DefForm string // default value in unexpanded form, normalised
	HasDef  bool
	Bound   bool // first declaration of its name (the binding one)

	External bool
	Pub, Sys string
	HasPub   bool
	HasSys   bool
	Text     string // entity: replacement text; comment/pi: data
	Literal  string // entity: the literal as written
	NData    string

	Referenced bool    // internal entity: in content
	First      []*Node // contents at the first reference
	InValue    bool    // internal entity: in an attribute value
	Value      []*Node // text and references
}

type DTD struct {
	Name     string
	Pub, Sys string
	HasPub   bool
	HasSys   bool
	Subset   bool
	Decls    []*Decl
}

type Doc struct {
	Version    string
	Encoding   string
	Standalone string // "", yes, no
	HasDecl    bool
	Nodes      []*Node
	Entities   map[string]*Decl
	PEntities  map[string]*Decl
	ElemDecls  map[string]*Decl
	AttDecls   map[string]*Decl // elem + " " + attr
	attOrder   map[string][]string
	HasRefs    bool // general entities are referenced in content
	Features   map[string]bool
	Open       []string // elements that were open when reading stopped
}

func (d *Doc) Root() *Node {
	for _, n := range d.Nodes {
		if n.Kind == Elem {
			return n
		}
	}
	return nil
}

type stop struct {
	v    Verdict
	msg  string
	pos  int
	line int
}

type scope struct {
	up       *scope
	prefix   string
	uri      string
	declared bool
}

func (s *scope) lookup(prefix string) (string, bool) {
	for ; s != nil; s = s.up {
		if s.prefix == prefix {
			return s.uri, s.uri != "" || prefix == ""
		}
	}
	if prefix == "xml" {
		return "http://www.w3.org/XML/1998/namespace", true
	}
	return "", prefix == ""
}

type parser struct {
	s      []rune
	i      int
	doc    *Doc
	open   []string // entities being expanded
	subs   bool     // document has an external subset or PE references
	deep   int
	work   *int // characters of replacement text read
	nested bool // replacement text of an entity
}

// Result of reading a document
type Result struct {
	V    Verdict
	Doc  *Doc
	Msg  string
	Pos  int // rune offset of the error
	Line int // line of the error
}

// Parse reads the document in s, which is UTF-8 and has no XML encoding other
// than those that are UTF-8 (see ParseDecoded for others)
func Parse(s string) Result { return ParseDecoded(s) }

// ParseDecoded reads a document already decoded to UTF-8
func ParseDecoded(s string) (res Result) {
	for _, r := range s {
		if r == 0xFFFD {
			return Result{V: Unknown, Msg: "U+FFFD or invalid UTF-8"}
		}
	}
	s = strings.Replace(s, "\r\n", "\n", -1)
	s = strings.Replace(s, "\r", "\n", -1)
	p := &parser{s: []rune(s), work: new(int)}
	p.doc = &Doc{
		Entities:  map[string]*Decl{},
		PEntities: map[string]*Decl{},
		ElemDecls: map[string]*Decl{},
		AttDecls:  map[string]*Decl{},
		attOrder:  map[string][]string{},
		Features:  map[string]bool{},
	}
	defer func() {
		if e := recover(); e != nil {
			st, ok := e.(stop)
			if !ok {
				panic(e)
			}
			res = Result{V: st.v, Msg: st.msg, Pos: st.pos, Line: st.line, Doc: p.doc}
		}
	}()
	p.document()
	return Result{V: WF, Doc: p.doc, Pos: p.i}
}

func (p *parser) where() int {
	n := 1
	for i := 0; i < p.i && i < len(p.s); i++ {
		if p.s[i] == '\n' {
			n++
		}
	}
	return n
}

func (p *parser) fail(format string, args ...interface{}) {
	panic(stop{Malformed, fmt.Sprintf(format, args...), p.i, p.where()})
}

func (p *parser) unknown(format string, args ...interface{}) {
	panic(stop{Unknown, fmt.Sprintf(format, args...), p.i, p.where()})
}

func (p *parser) eof() bool { return p.i >= len(p.s) }

func (p *parser) peek() rune {
	if p.eof() {
		return -1
	}
	return p.s[p.i]
}

func (p *parser) has(lit string) bool {
	r := []rune(lit)
	if p.i+len(r) > len(p.s) {
		return false
	}
	for k, c := range r {
		if p.s[p.i+k] != c {
			return false
		}
	}
	return true
}

func (p *parser) eat(lit string) bool {
	if p.has(lit) {
		p.i += len([]rune(lit))
		return true
	}
	return false
}

func (p *parser) need(lit string) {
	if !p.eat(lit) {
		p.fail("%q expected", lit)
	}
}

func IsS(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *parser) sp() bool {
	k := p.i
	for !p.eof() && IsS(p.s[p.i]) {
		p.i++
	}
	return p.i > k
}

func (p *parser) needS() {
	if !p.sp() {
		p.fail("white space expected")
	}
}

// IsChar is production [2]
func IsChar(c rune) bool {
	return c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000 && c <= 0x10FFFF
}

// nameStart is production [4] of the fifth edition, which allows what the
// others do
func nameStart(c rune) bool {
	switch {
	case c < 0x80:
		return c == ':' || c == '_' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
	case c < 0x300:
		return c >= 0xC0 && c != 0xD7 && c != 0xF7
	case c < 0x2000:
		return c >= 0x370 && c != 0x37E
	case c < 0x3001:
		return c == 0x200C || c == 0x200D || c >= 0x2070 && c < 0x2190 || c >= 0x2C00 && c < 0x2FF0
	}
	return c < 0xD800 || c >= 0xF900 && c < 0xFDD0 || c >= 0xFDF0 && c < 0xFFFD || c >= 0x10000 && c < 0xF0000
}

// nameChar is production [4a]
func nameChar(c rune) bool {
	return nameStart(c) || c == '-' || c == '.' || c >= '0' && c <= '9' || c == 0xB7 || c >= 0x300 && c < 0x370 || c == 0x203F || c == 0x2040
}

// peekName skips nothing; it complains about characters the model leaves to
// the implementation
func (p *parser) name() string {
	k := p.i
	if p.eof() || !nameStart(p.s[p.i]) {
		p.oddChar()
		p.fail("name expected")
	}
	for !p.eof() && nameChar(p.s[p.i]) {
		p.i++
	}
	p.oddChar()
	return string(p.s[k:p.i])
}

// the replacement character cannot be told from what cannot be decoded
func (p *parser) oddChar() {
	if p.peek() == 0xFFFD {
		p.unknown("name character U+FFFD")
	}
}

func (p *parser) nmtoken() string {
	k := p.i
	for !p.eof() && nameChar(p.s[p.i]) {
		p.i++
	}
	p.oddChar()
	if k == p.i {
		p.fail("name token expected")
	}
	return string(p.s[k:p.i])
}

func (p *parser) ncname() string {
	n := p.name()
	if strings.Contains(n, ":") {
		p.fail("colon in %q", n)
	}
	return n
}

func (p *parser) qname() (prefix, local string) {
	return p.splitQName(p.name())
}

func (p *parser) splitQName(n string) (prefix, local string) {
	k := strings.IndexByte(n, ':')
	if k < 0 {
		return "", n
	}
	prefix, local = n[:k], n[k+1:]
	if prefix == "" {
		p.unknown("name starts with a colon")
	}
	if local == "" {
		p.fail("no local name in %q", n)
	}
	if c := []rune(local)[0]; !nameStart(c) || c == ':' {
		p.unknown("local name %q", local)
	}
	if strings.Contains(local, ":") {
		p.fail("two colons in %q", n)
	}
	return prefix, local
}

// qnameDTD reads a name of an element or attribute in a declaration. What is
// not a QName is left to the implementation
func (p *parser) qnameDTD() string {
	n := p.name()
	if k := strings.IndexByte(n, ':'); k >= 0 {
		rest := n[k+1:]
		if k == 0 || rest == "" || strings.Contains(rest, ":") || !nameStart([]rune(rest)[0]) {
			p.unknown("%q is not a QName", n)
		}
	}
	return n
}

func (p *parser) char() rune {
	if p.eof() {
		p.fail("unexpected end")
	}
	c := p.s[p.i]
	if !IsChar(c) {
		p.fail("character U+%04X", c)
	}
	p.i++
	return c
}

func (p *parser) document() {
	p.xmlDecl()
	p.misc()
	if p.has("<!DOCTYPE") {
		p.doctype()
		p.misc()
	}
	if p.peek() != '<' {
		p.fail("document element expected")
	}
	p.doc.Nodes = append(p.doc.Nodes, p.element(nil, 0))
	p.misc()
	if !p.eof() {
		p.fail("extra content")
	}
}

func (p *parser) misc() {
	for {
		switch {
		case p.sp():
		case p.has("<!--"):
			p.doc.Nodes = append(p.doc.Nodes, p.comment())
		case p.has("<?"):
			p.doc.Nodes = append(p.doc.Nodes, p.pi())
		default:
			return
		}
	}
}

func (p *parser) eq() {
	p.sp()
	p.need("=")
	p.sp()
}

func (p *parser) quote() rune {
	q := p.peek()
	if q != '"' && q != '\'' {
		p.fail("quote expected")
	}
	p.i++
	return q
}

func (p *parser) xmlDecl() {
	if !p.has("<?xml") || len(p.s) == 5 || !IsS(p.s[5]) {
		return
	}
	p.i += 5
	p.needS()
	p.doc.HasDecl = true
	p.need("version")
	p.eq()
	q := p.quote()
	k := p.i
	for !p.eof() && (p.peek() == '.' || p.peek() >= '0' && p.peek() <= '9') {
		p.i++
	}
	v := string(p.s[k:p.i])
	if p.peek() != q {
		p.fail("version number")
	}
	p.i++
	p.doc.Version = v
	if v != "1.0" {
		if len(v) >= 3 && v[1] == '.' {
			if p.doc.Features["odd version"] = true; v[:2] != "1." || strings.Contains(v[2:], ".") {
				p.unknown("version %q", v)
			}
		} else {
			p.fail("version %q", v)
		}
	}
	s := p.sp()
	if s && p.eat("encoding") {
		p.eq()
		q := p.quote()
		k := p.i
		for !p.eof() && p.peek() != q && p.peek() < 0x80 {
			p.i++
		}
		e := string(p.s[k:p.i])
		for i, c := range e {
			alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			if !alpha && (i == 0 || !(c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')) {
				p.fail("encoding name %q", e)
			}
		}
		if e == "" {
			p.fail("no encoding name")
		}
		if p.peek() != q {
			p.fail("quote")
		}
		p.i++
		p.doc.Encoding = e
		s = p.sp()
	}
	if s && p.eat("standalone") {
		p.eq()
		q := p.quote()
		switch {
		case p.eat("yes"):
			p.doc.Standalone = "yes"
		case p.eat("no"):
			p.doc.Standalone = "no"
		default:
			p.fail("standalone")
		}
		if p.peek() != q {
			p.fail("quote")
		}
		p.i++
		p.sp()
	}
	p.need("?>")
}

func (p *parser) comment() *Node {
	line := p.where()
	p.need("<!--")
	k := p.i
	for {
		if p.has("--") {
			n := &Node{Kind: Comment, Data: string(p.s[k:p.i]), Line: line}
			p.i += 2
			if p.peek() != '>' {
				p.fail("-- in comment")
			}
			p.i++
			return n
		}
		p.char()
	}
}

func (p *parser) pi() *Node {
	line := p.where()
	p.need("<?")
	t := p.name()
	if strings.EqualFold(t, "xml") {
		p.fail("reserved target %q", t)
	}
	if strings.Contains(t, ":") {
		p.fail("colon in target %q", t)
	}
	n := &Node{Kind: PI, Target: t, Line: line}
	if p.eat("?>") {
		return n
	}
	p.needS()
	k := p.i
	for !p.has("?>") {
		p.char()
	}
	n.Data = string(p.s[k:p.i])
	p.i += 2
	return n
}

// element reads an element
func (p *parser) element(sc *scope, depth int) *Node {
	if depth > 1000 {
		p.unknown("deep nesting")
	}
	line := p.where()
	p.need("<")
	name := p.name()
	n := &Node{Kind: Elem, Line: line}
	n.Prefix, n.Local = p.splitQName(name)
	if n.Prefix == "xmlns" {
		p.unknown("element with prefix xmlns")
	}
	for {
		s := p.sp()
		if p.peek() == '>' || p.has("/>") {
			break
		}
		if !s {
			p.fail("white space expected in tag")
		}
		var a Attr
		a.Name = p.name()
		a.Prefix, a.Local = p.splitQName(a.Name)
		p.eq()
		typ := ""
		if d := p.doc.AttDecls[name+" "+a.Name]; d != nil {
			typ = d.Type
		}
		a.Val = p.attValue()
		a.Escaped = normalise(a.Val.Unexpanded(), typ)
		if a.Name == "xmlns" || a.Prefix == "xmlns" {
			ns := NS{URI: a.Escaped}
			if a.Prefix != "" {
				ns.Prefix = a.Local
			}
			for _, o := range n.NSDecls {
				if o.Prefix == ns.Prefix {
					p.fail("xmlns:%s declared twice", ns.Prefix)
				}
			}
			p.nsDecl(ns, a.Val)
			if ns.Prefix == "xml" {
				for _, o := range n.Attrs {
					if o.Name == a.Name {
						p.fail("duplicate attribute")
					}
				}
				p.doc.Features["xmlns:xml"] = true
				continue
			}
			n.NSDecls = append(n.NSDecls, ns)
			sc = &scope{up: sc, prefix: ns.Prefix, uri: ns.URI}
			continue
		}
		for _, o := range n.Attrs {
			if o.Name == a.Name {
				p.fail("attribute %s twice", a.Name)
			}
		}
		n.Attrs = append(n.Attrs, a)
	}
	for _, an := range p.doc.attOrder[name] {
		d := p.doc.AttDecls[name+" "+an]
		if !d.HasDef || d.Def == "#IMPLIED" || d.Def == "#REQUIRED" {
			continue
		}
		if an == "xmlns" || strings.HasPrefix(an, "xmlns:") {
			p.unknown("namespace declared by default attribute")
		}
		specified := false
		for _, o := range n.Attrs {
			specified = specified || o.Name == an
		}
		if specified {
			continue
		}
		a := Attr{Name: an, Default: true, Val: d.Default, Escaped: d.DefForm}
		a.Prefix, a.Local = p.splitQName(an)
		n.Defaults = append(n.Defaults, a)
	}
	sort.SliceStable(n.Defaults, func(i, j int) bool { return n.Defaults[i].Name < n.Defaults[j].Name })

	uri, ok := sc.lookup(n.Prefix)
	if !ok {
		p.fail("prefix %s of element", n.Prefix)
	}
	n.URI = uri
	all := append(append([]Attr{}, n.Attrs...), n.Defaults...)
	for i, a := range all {
		if a.Prefix == "" {
			continue
		}
		u, ok := sc.lookup(a.Prefix)
		if !ok {
			p.fail("prefix %s of attribute", a.Prefix)
		}
		if i < len(n.Attrs) {
			n.Attrs[i].URI = u
		}
		for _, o := range all[:i] {
			if o.Prefix == "" {
				continue
			}
			if ou, _ := sc.lookup(o.Prefix); ou == u && o.Local == a.Local {
				p.fail("attributes %s and %s", a.Name, o.Name)
			}
		}
	}

	if p.eat("/>") {
		n.Empty = true
		return n
	}
	p.need(">")
	if !p.nested {
		p.doc.Open = append(p.doc.Open, name)
	}
	n.Children = p.content(sc, depth+1)
	p.need("</")
	if end := p.name(); end != name {
		p.fail("end tag %s of %s", end, name)
	}
	p.sp()
	p.need(">")
	if !p.nested {
		p.doc.Open = p.doc.Open[:len(p.doc.Open)-1]
	}
	return n
}

const xmlURI = "http://www.w3.org/XML/1998/namespace"

// uriReference says whether s is certainly a URI reference (RFC 3986). User
// names, and addresses in brackets, are left out
func uriReference(s string) bool {
	alnum := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	if i := strings.IndexByte(s, '#'); i >= 0 {
		if strings.ContainsAny(s[i+1:], "#") || !uriReference(strings.Replace(s[:i]+"/"+s[i+1:], "#", "", 1)) {
			return false
		}
		s = s[:i]
	}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case alnum(c) || strings.IndexByte("-._~!$&'()*+,;=:@/?", c) >= 0:
		case c == '%' && i+2 < len(s) && isHex(s[i+1]) && isHex(s[i+2]):
		default:
			return false
		}
	}
	if i := strings.IndexAny(s, ":/?"); i >= 0 && s[i] == ':' {
		for j := 0; j < i; j++ {
			if c := s[j]; !alnum(c) && strings.IndexByte("+-.", c) < 0 || j == 0 && c <= '9' {
				return false
			}
		}
		if i == 0 {
			return false
		}
		s = s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		if i := strings.IndexAny(s, "/?"); i >= 0 {
			s = s[:i]
		}
		port := -1
		for i := 0; i < len(s); i++ {
			switch c := s[i]; {
			case c == ':' && port < 0:
				port = i
			case c >= '0' && c <= '9', port < 0 && (alnum(c) || c == '.' || c == '-'):
			default:
				return false
			}
		}
	}
	return true
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func (p *parser) nsDecl(ns NS, v Value) {
	if v.HasRef() {
		p.unknown("entity reference in namespace name")
	}
	if !uriReference(ns.URI) {
		p.doc.Features["odd uri"] = true
	}
	switch {
	case ns.Prefix == "xml":
		if ns.URI != xmlURI {
			p.fail("prefix xml")
		}
	case ns.Prefix == "xmlns":
		p.fail("prefix xmlns")
	case ns.URI == xmlURI:
		p.unknown("namespace of prefix xml")
	case ns.URI == "http://www.w3.org/2000/xmlns/":
		if ns.Prefix == "" {
			p.unknown("xmlns namespace as default")
		}
		p.fail("xmlns namespace")
	case ns.Prefix != "" && ns.URI == "":
		p.fail("xmlns:%s undeclared", ns.Prefix)
	}
	if p.doc.Features["odd uri"] && ns.Prefix != "" {
		p.unknown("namespace name may not be a URI")
	}
}

// normalise normalises a value according to its declared type
func normalise(s, typ string) string {
	if typ == "" || typ == "CDATA" {
		return s
	}
	var out []string
	for _, f := range strings.Split(s, " ") {
		if f != "" {
			out = append(out, f)
		}
	}
	return strings.Join(out, " ")
}

// attValue is production [10], with its well-formedness constraints
func (p *parser) attValue() Value {
	q := p.quote()
	var v Value
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			v = append(v, Piece{Text: b.String()})
			b.Reset()
		}
	}
	for {
		c := p.char()
		switch {
		case c == q:
			flush()
			return v
		case c == '<':
			p.i--
			p.fail("< in attribute value")
		case IsS(c):
			b.WriteByte(' ')
		case c == '&':
			p.i--
			if r, ok := p.charRef(); ok {
				b.WriteRune(r)
				break
			}
			n := p.entityName()
			if t, ok := predefined[n]; ok {
				b.WriteString(t)
				break
			}
			p.attEntity(n)
			flush()
			v = append(v, Piece{Ref: n})
		default:
			b.WriteRune(c)
		}
	}
}

var predefined = map[string]string{"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": "\""}

// charRef reads a character reference, if there is one
func (p *parser) charRef() (rune, bool) {
	if !p.eat("&#") {
		return 0, false
	}
	base := 10
	if p.eat("x") {
		base = 16
	}
	n, digits := 0, 0
	for {
		c := p.peek()
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case base == 16 && c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case base == 16 && c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d < 0 {
			break
		}
		digits++
		if n < 1<<24 {
			n = n*base + d
		}
		p.i++
	}
	if digits == 0 {
		p.fail("character reference")
	}
	p.need(";")
	if n > 0x10FFFF || !IsChar(rune(n)) {
		p.fail("reference to character U+%04X", n)
	}
	if n == 0xFFFD {
		p.unknown("U+FFFD")
	}
	return rune(n), true
}

func (p *parser) entityName() string {
	p.need("&")
	n := p.name()
	if strings.Contains(n, ":") {
		p.unknown("colon in entity name")
	}
	p.need(";")
	return n
}

// lookup of a general entity; nil if it need not be declared
func (p *parser) entity(n string) *Decl {
	d := p.doc.Entities[n]
	if d == nil {
		if !p.subs || p.doc.Standalone == "yes" {
			p.fail("entity %s not declared", n)
		}
		p.doc.Features["undeclared entity"] = true
	}
	return d
}

func (p *parser) enter(n string) {
	for _, o := range p.open {
		if o == n {
			p.fail("entity %s references itself", n)
		}
	}
	if len(p.open) > 15 {
		p.unknown("deeply nested entities")
	}
}

func (p *parser) sub(n, text string) *parser {
	*p.work += len(text) + 20
	if *p.work > 100000 {
		p.unknown("much replacement text")
	}
	return &parser{s: []rune(text), doc: p.doc, open: append(append([]string{}, p.open...), n), subs: p.subs, work: p.work, nested: true}
}

// attEntity checks an entity referenced in an attribute value
func (p *parser) attEntity(n string) {
	d := p.entity(n)
	if d == nil {
		return
	}
	if d.External {
		p.fail("external entity %s in attribute value", n)
	}
	p.enter(n)
	q := p.sub(n, d.Text)
	var out []*Node
	text := func(s string) {
		if k := len(out) - 1; k >= 0 && out[k].Kind == Text {
			out[k].Data += s
			return
		}
		out = append(out, &Node{Kind: Text, Data: s})
	}
	for !q.eof() {
		switch c := q.char(); c {
		case '<':
			p.fail("< in entity %s in attribute value", n)
		case '&':
			q.i--
			if r, ok := q.charRef(); ok {
				text(string(r))
				break
			}
			m := q.entityName()
			if t, ok := predefined[m]; ok {
				text(t)
			} else {
				q.attEntity(m)
				out = append(out, &Node{Kind: EntRef, Data: m})
			}
		default:
			text(string(c))
		}
	}
	if !d.InValue {
		d.InValue = true
		d.Value = out
	}
}

// content is production [43]
func (p *parser) content(sc *scope, depth int) []*Node {
	var out []*Node
	var text strings.Builder
	line := 0
	flush := func() {
		if text.Len() > 0 {
			out = append(out, &Node{Kind: Text, Data: text.String(), Line: line})
			text.Reset()
		}
	}
	for !p.eof() && !p.has("</") {
		switch {
		case p.has("<!--"):
			flush()
			out = append(out, p.comment())
		case p.has("<![CDATA["):
			flush()
			p.i += 9
			k := p.i
			for !p.has("]]>") {
				p.char()
			}
			out = append(out, &Node{Kind: Text, CData: true, Data: string(p.s[k:p.i])})
			p.i += 3
		case p.has("<?"):
			flush()
			out = append(out, p.pi())
		case p.peek() == '<':
			flush()
			out = append(out, p.element(sc, depth))
		case p.peek() == '&':
			if r, ok := p.charRef(); ok {
				text.WriteRune(r)
				break
			}
			n := p.entityName()
			if t, ok := predefined[n]; ok {
				text.WriteString(t)
				break
			}
			flush()
			out = append(out, &Node{Kind: EntRef, Data: n, Children: p.contentEntity(n, sc, depth)})
		default:
			if p.has("]]>") {
				p.fail("]]> in content")
			}
			if text.Len() == 0 {
				line = p.where()
			}
			text.WriteRune(p.char())
		}
	}
	flush()
	return out
}

// contentEntity checks an entity referenced in content. Its contents are those
// at this reference: namespaces are those in scope
func (p *parser) contentEntity(n string, sc *scope, depth int) []*Node {
	p.doc.HasRefs = true
	d := p.entity(n)
	if d == nil {
		return nil
	}
	if d.NData != "" {
		p.fail("reference to unparsed entity %s", n)
	}
	if d.External {
		p.doc.Features["external entity"] = true
		return nil
	}
	p.enter(n)
	q := p.sub(n, d.Text)
	out := q.content(sc, depth)
	if !q.eof() {
		p.fail("replacement text of %s is not balanced", n)
	}
	if !d.Referenced {
		d.Referenced = true
		d.First = out
	}
	return out
}
