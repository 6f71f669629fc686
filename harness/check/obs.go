package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/hook"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
	"github.com/lestrrat-go/helium/sax"
)

// This file is what is observed of the implementation, all of it through its
// exported API, and the same views of what the reference model says.

// ---- running the implementation ----

// Outcome of a call of the implementation
type Outcome struct {
	Panic string // it panicked, or ran away
}

// stepLimit is the number of statements of the implementation that a call may
// execute. The documents explored take a few thousand
var stepLimit uint64 = 30000000

// guard calls f and says how that ended
func guard(f func()) (panicked string) {
	hook.Steps = 0
	hook.Limit = stepLimit
	defer func() {
		hook.Limit = ^uint64(0)
		if e := recover(); e != nil {
			if o, ok := e.(hook.Overrun); ok {
				panicked = fmt.Sprintf("does not terminate (%d statements executed)", o.Steps)
				return
			}
			panicked = fmt.Sprintf("panic: %v at %s", e, where())
		}
	}()
	f()
	return ""
}

// where is the function of the module that panicked
func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "github.com/lestrrat-go/") && !strings.Contains(l, "zzverif") {
			if k := strings.LastIndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return "?"
}

// ---- document view ----

type view []string

func (v *view) add(format string, args ...interface{}) {
	*v = append(*v, fmt.Sprintf(format, args...))
}

// diff of two views: the first line that differs
func diff(got, want view) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(end)", "(end)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("item %d is %s, expected %s", i, g, w)
		}
	}
	return ""
}

// refDocView is what the tree of the document is expected to be. Adjacent
// text and CDATA sections are one text. Attributes that were defaulted are
// not part of the tree.
func refDocView(d *ref.Doc) view {
	var v view
	version := d.Version
	if version == "" {
		version = "1.0"
	}
	enc := d.Encoding
	if enc == "" {
		enc = "utf8"
	}
	v.add("document %q %q %q", version, enc, d.Standalone)
	refNodes(&v, d.Nodes)
	return v
}

func refNodes(v *view, nodes []*ref.Node) {
	text := ""
	flush := func() {
		if text != "" {
			v.add("text %q", text)
			text = ""
		}
	}
	for _, n := range nodes {
		if n.Kind == ref.Text {
			text += n.Data
			continue
		}
		flush()
		switch n.Kind {
		case ref.Comment:
			v.add("comment %q", n.Data)
		case ref.PI:
			v.add("pi %q %q", n.Target, n.Data)
		case ref.EntRef:
			v.add("ref %q", n.Data)
		case ref.Doctype:
			v.add("doctype %q", n.DT.Name)
		case ref.Elem:
			v.add("element %q %q %q", n.Prefix, n.Local, n.URI)
			for _, ns := range n.NSDecls {
				v.add("xmlns %q %q", ns.Prefix, ns.URI)
			}
			for _, a := range n.Attrs {
				v.add("attribute %q%s", a.Name, pieces(a.Escaped))
			}
			refNodes(v, n.Children)
			v.add("end %q", n.QName())
		}
	}
	flush()
}

// pieces of an attribute value given in unexpanded form
func pieces(esc string) string {
	var b strings.Builder
	text := ""
	flush := func() {
		if text != "" {
			fmt.Fprintf(&b, " %q", text)
			text = ""
		}
	}
	for len(esc) > 0 {
		if esc[0] != '&' {
			text += esc[:1]
			esc = esc[1:]
			continue
		}
		k := strings.IndexByte(esc, ';')
		if k < 0 {
			text += "&"
			esc = esc[1:]
			continue
		}
		name := esc[1:k]
		esc = esc[k+1:]
		if name == "#38" {
			text += "&"
			continue
		}
		flush()
		fmt.Fprintf(&b, " &%s;", name)
	}
	flush()
	return b.String()
}

// expand is the value of an attribute with all references replaced. White
// space that comes from entities is kept as it is.
func expand(d *ref.Doc, esc string) string {
	var b strings.Builder
	for len(esc) > 0 {
		if esc[0] != '&' {
			b.WriteByte(esc[0])
			esc = esc[1:]
			continue
		}
		k := strings.IndexByte(esc, ';')
		name := esc[1:k]
		esc = esc[k+1:]
		switch {
		case strings.HasPrefix(name, "#x"):
			var r rune
			fmt.Sscanf(name[2:], "%x", &r)
			b.WriteRune(r)
		case name[0] == '#':
			var r rune
			fmt.Sscanf(name[1:], "%d", &r)
			b.WriteRune(r)
		case predef[name] != "":
			b.WriteString(predef[name])
		default:
			if e := d.Entities[name]; e != nil {
				b.WriteString(expand(d, e.Text))
			}
		}
	}
	return b.String()
}

var predef = map[string]string{"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": "\""}

func standalone(s helium.DocumentStandaloneType) string {
	switch s {
	case helium.StandaloneExplicitYes:
		return "yes"
	case helium.StandaloneExplicitNo:
		return "no"
	}
	return ""
}

func dumpNode(n helium.Node) (string, error) {
	var b bytes.Buffer
	d := helium.Dumper{}
	err := d.DumpNode(&b, n)
	return b.String(), err
}

// docView is the tree of the document
func docView(d *helium.Document) view {
	var v view
	version := d.Version()
	if version == "" { // there is no XML declaration
		version = "1.0"
	}
	v.add("document %q %q %q", version, d.Encoding(), standalone(d.Standalone()))
	domNodes(&v, d.FirstChild(), 0)
	return v
}

func domNodes(v *view, n helium.Node, depth int) {
	text := ""
	flush := func() {
		if text != "" {
			v.add("text %q", text)
			text = ""
		}
	}
	count := 0
	for ; !isNil(n); n = n.NextSibling() {
		if count++; count > 100000 || depth > 2000 {
			v.add("endless")
			return
		}
		if n.Type() == helium.TextNode || n.Type() == helium.CDATASectionNode {
			text += string(n.Content())
			continue
		}
		flush()
		switch n := n.(type) {
		case *helium.Comment:
			v.add("comment %q", n.Content())
		case *helium.ProcessingInstruction:
			s, err := dumpNode(n)
			if err != nil || !strings.HasPrefix(s, "<?") || !strings.HasSuffix(s, "?>") {
				v.add("pi %q %v", s, err)
				continue
			}
			t, data := s[2:len(s)-2], ""
			if k := strings.IndexByte(t, ' '); k >= 0 {
				t, data = t[:k], t[k+1:]
			}
			v.add("pi %q %q", t, data)
		case *helium.EntityRef:
			v.add("ref %q", n.Name())
		case *helium.DTD:
			v.add("doctype %q", n.Name())
		case *helium.Element:
			elementView(v, n)
			domNodes(v, n.FirstChild(), depth+1)
			v.add("end %q", n.Name())
		default:
			v.add("%T", n)
		}
	}
	flush()
}

func elementView(v *view, n *helium.Element) {
	v.add("element %q %q %q", n.Prefix(), n.LocalName(), n.URI())
	for _, ns := range n.Namespaces() {
		v.add("xmlns %q %q", ns.Prefix(), ns.URI())
	}
	for _, a := range n.Attributes() {
		s := ""
		text := ""
		for c := a.FirstChild(); !isNil(c); c = c.NextSibling() {
			if c.Type() == helium.TextNode {
				text += string(c.Content())
				continue
			}
			if text != "" {
				s += fmt.Sprintf(" %q", text)
				text = ""
			}
			s += " &" + c.Name() + ";"
		}
		if text != "" {
			s += fmt.Sprintf(" %q", text)
		}
		v.add("attribute %q%s", a.Name(), s)
	}
}

func isNil(n interface{}) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// ---- declarations ----

// declView is the view of the declarations that the dump of a document has to
// preserve: notation declarations are not kept by the tree, and of repeated
// declarations only the first one is
func declView(d *ref.Doc) view {
	var v view
	for _, n := range d.Nodes {
		if n.Kind != ref.Doctype {
			continue
		}
		v.add("doctype %q public %q system %q", n.DT.Name, n.DT.Pub, n.DT.Sys)
		for _, c := range n.DT.Decls {
			switch c.Kind {
			case "comment":
				v.add("comment %q", c.Text)
			case "pi":
				v.add("pi %q %q", c.Name, c.Text)
			case "element":
				if c.Bound {
					v.add("element %q %s", c.Name, c.Model)
				}
			case "attlist":
				if c.Bound {
					v.add("attribute %q %q %s %q %q %v %q", c.Name, c.Att, c.Type, c.Enum, c.Def, c.HasDef, c.DefForm)
				}
			case "entity", "pentity":
				if c.Bound {
					v.add("%s %q %v %q public %q system %q ndata %q", c.Kind, c.Name, c.External, c.Text, c.Pub, c.Sys, c.NData)
				}
			}
		}
	}
	return v
}

// ---- SAX ----

// recorder is a SAX handler that writes down the calls it gets. Calls are
// passed on to next, if there is one. The call number fail returns errFault.
type recorder struct {
	v        view
	next     sax.SAX2Handler
	calls    int
	fail     int // 0: none
	err      error
	after    int  // calls after the one that failed
	query    bool // queries count as calls that may fail
	ctx      sax.Context
	ctxOdd   bool
	text     bool // last item is text
	names    []string
	kind     string
	onlyKind string // fail the call number fail of this kind
	kinds    int
	fault    error // what to return instead of errFault
	noValues bool  // do not ask for the values of attributes, which may expand to very much
}

var errFault = errors.New("handler says no")

func (r *recorder) call(kind string, ctx sax.Context) error {
	if r.err != nil {
		r.after++
	}
	if r.calls == 0 {
		r.ctx = ctx
	} else if ctx != r.ctx {
		r.ctxOdd = true
	}
	r.calls++
	r.names = append(r.names, kind)
	if r.onlyKind != "" {
		if kind != r.onlyKind {
			return nil
		}
		r.kinds++
		if r.kinds == r.fail {
			r.err, r.kind = errFault, kind
		}
		return r.err
	}
	if r.calls == r.fail {
		r.err = errFault
		if r.fault != nil {
			r.err = r.fault
		}
		r.kind = kind
		return r.err
	}
	return nil
}

func (r *recorder) event(kind string, ctx sax.Context, format string, args ...interface{}) error {
	err := r.call(kind, ctx)
	if err == errFault {
		return err
	}
	r.v.add(format, args...)
	r.text = false
	return err
}

func (r *recorder) chars(kind string, ctx sax.Context, b []byte) error {
	err := r.call(kind, ctx)
	if err == errFault {
		return err
	}
	if r.text {
		last := r.v[len(r.v)-1]
		r.v[len(r.v)-1] = last[:len(last)-1] + quoteInner(string(b)) + `"`
	} else {
		r.v.add("text \"%s\"", quoteInner(string(b)))
		r.text = true
	}
	return err
}

func quoteInner(s string) string {
	q := fmt.Sprintf("%q", s)
	return q[1 : len(q)-1]
}

func enumOf(e sax.Enumeration) []string {
	if e == nil {
		return []string{}
	}
	l, ok := e.(helium.Enumeration)
	if !ok {
		return []string{fmt.Sprintf("%T", e)}
	}
	return append([]string{}, l...)
}

func (r *recorder) AttributeDecl(ctx sax.Context, elem string, fullname string, typ int, def int, defaultValue string, tree sax.Enumeration) error {
	if err := r.event("AttributeDecl", ctx, "attdecl %q %q %s %q %s %q", elem, fullname, typeName(typ), enumOf(tree), defName(def), defaultValue); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.AttributeDecl(ctx, elem, fullname, typ, def, defaultValue, tree)
	}
	return nil
}

func typeName(t int) string {
	switch helium.AttributeType(t) {
	case helium.AttrCDATA:
		return "CDATA"
	case helium.AttrID:
		return "ID"
	case helium.AttrIDRef:
		return "IDREF"
	case helium.AttrIDRefs:
		return "IDREFS"
	case helium.AttrEntity:
		return "ENTITY"
	case helium.AttrEntities:
		return "ENTITIES"
	case helium.AttrNmtoken:
		return "NMTOKEN"
	case helium.AttrNmtokens:
		return "NMTOKENS"
	case helium.AttrEnumeration:
		return "ENUM"
	case helium.AttrNotation:
		return "NOTATION"
	}
	return fmt.Sprint(t)
}

func defName(t int) string {
	switch helium.AttributeDefault(t) {
	case helium.AttrDefaultNone:
		return `""`
	case helium.AttrDefaultRequired:
		return `"#REQUIRED"`
	case helium.AttrDefaultImplied:
		return `"#IMPLIED"`
	case helium.AttrDefaultFixed:
		return `"#FIXED"`
	}
	return fmt.Sprint(t)
}

func (r *recorder) CDataBlock(ctx sax.Context, value []byte) error {
	if err := r.event("CDataBlock", ctx, "cdata %q", value); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.CDataBlock(ctx, value)
	}
	return nil
}

func (r *recorder) Characters(ctx sax.Context, ch []byte) error {
	if err := r.chars("Characters", ctx, ch); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.Characters(ctx, ch)
	}
	return nil
}

func (r *recorder) IgnorableWhitespace(ctx sax.Context, ch []byte) error {
	if err := r.chars("IgnorableWhitespace", ctx, ch); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.IgnorableWhitespace(ctx, ch)
	}
	return nil
}

func (r *recorder) Comment(ctx sax.Context, value []byte) error {
	if err := r.event("Comment", ctx, "comment %q", value); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.Comment(ctx, value)
	}
	return nil
}

func (r *recorder) ElementDecl(ctx sax.Context, name string, typ int, content sax.ElementContent) error {
	if err := r.event("ElementDecl", ctx, "elemdecl %q %s", name, contentName(typ)); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.ElementDecl(ctx, name, typ, content)
	}
	return nil
}

func contentName(t int) string {
	switch helium.ElementTypeVal(t) {
	case helium.EmptyElementType:
		return "EMPTY"
	case helium.AnyElementType:
		return "ANY"
	case helium.MixedElementType:
		return "mixed"
	case helium.ElementElementType:
		return "children"
	}
	return fmt.Sprint(t)
}

func (r *recorder) EndDocument(ctx sax.Context) error {
	if err := r.event("EndDocument", ctx, "enddocument"); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.EndDocument(ctx)
	}
	return nil
}

func (r *recorder) EndElementNS(ctx sax.Context, localname string, prefix string, uri string) error {
	if err := r.event("EndElementNS", ctx, "end %q %q %q", prefix, localname, uri); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.EndElementNS(ctx, localname, prefix, uri)
	}
	return nil
}

func entityKind(t int) string {
	switch helium.EntityType(t) {
	case helium.InternalGeneralEntity:
		return "internal"
	case helium.ExternalGeneralParsedEntity:
		return "external"
	case helium.ExternalGeneralUnparsedEntity:
		return "unparsed"
	case helium.InternalParameterEntity:
		return "pinternal"
	case helium.ExternalParameterEntity:
		return "pexternal"
	}
	return fmt.Sprint(t)
}

func (r *recorder) EntityDecl(ctx sax.Context, name string, typ int, publicID string, systemID string, content string) error {
	if err := r.event("EntityDecl", ctx, "entdecl %q %s %q %q %q", name, entityKind(typ), publicID, systemID, content); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.EntityDecl(ctx, name, typ, publicID, systemID, content)
	}
	return nil
}

func (r *recorder) Error(ctx sax.Context, message string, args ...interface{}) error {
	if r.next != nil {
		return r.next.Error(ctx, message, args...)
	}
	return nil
}

func (r *recorder) ExternalSubset(ctx sax.Context, name string, externalID string, systemID string) error {
	if err := r.call("ExternalSubset", ctx); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.ExternalSubset(ctx, name, externalID, systemID)
	}
	return nil
}

func (r *recorder) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.next != nil {
		return r.next.GetEntity(ctx, name)
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.next != nil {
		return r.next.GetParameterEntity(ctx, name)
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) HasExternalSubset(ctx sax.Context) (bool, error) {
	if r.next != nil {
		return r.next.HasExternalSubset(ctx)
	}
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) HasInternalSubset(ctx sax.Context) (bool, error) {
	if r.next != nil {
		return r.next.HasInternalSubset(ctx)
	}
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) InternalSubset(ctx sax.Context, name string, externalID string, systemID string) error {
	if err := r.event("InternalSubset", ctx, "doctype %q %q %q", name, externalID, systemID); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.InternalSubset(ctx, name, externalID, systemID)
	}
	return nil
}

func (r *recorder) IsStandalone(ctx sax.Context) (bool, error) {
	if r.next != nil {
		return r.next.IsStandalone(ctx)
	}
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) NotationDecl(ctx sax.Context, name string, publicID string, systemID string) error {
	if err := r.event("NotationDecl", ctx, "notation %q %q %q", name, publicID, systemID); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.NotationDecl(ctx, name, publicID, systemID)
	}
	return nil
}

func (r *recorder) ProcessingInstruction(ctx sax.Context, target string, data string) error {
	if err := r.event("ProcessingInstruction", ctx, "pi %q %q", target, data); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.ProcessingInstruction(ctx, target, data)
	}
	return nil
}

func (r *recorder) Reference(ctx sax.Context, name string) error {
	if err := r.event("Reference", ctx, "ref %q", name); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.Reference(ctx, name)
	}
	return nil
}

func (r *recorder) ResolveEntity(ctx sax.Context, publicID string, systemID string) (sax.ParseInput, error) {
	if r.next != nil {
		return r.next.ResolveEntity(ctx, publicID, systemID)
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) SetDocumentLocator(ctx sax.Context, locator sax.DocumentLocator) error {
	if err := r.call("SetDocumentLocator", ctx); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.SetDocumentLocator(ctx, locator)
	}
	return nil
}

func (r *recorder) StartDocument(ctx sax.Context) error {
	if err := r.event("StartDocument", ctx, "startdocument"); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.StartDocument(ctx)
	}
	return nil
}

func (r *recorder) StartElementNS(ctx sax.Context, localname string, prefix string, uri string, namespaces []sax.Namespace, attrs []sax.Attribute) error {
	s := ""
	for _, n := range namespaces {
		s += fmt.Sprintf(" xmlns:%s=%q", n.Prefix(), n.URI())
	}
	for _, a := range attrs {
		if r.noValues {
			s += " " + a.Name()
			continue
		}
		s += fmt.Sprintf(" %s|%s|%s=%q", a.Name(), a.Prefix(), a.LocalName(), a.Value())
		if a.IsDefault() {
			s += "(default)"
		}
	}
	if err := r.event("StartElementNS", ctx, "start %q %q %q%s", prefix, localname, uri, s); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.StartElementNS(ctx, localname, prefix, uri, namespaces, attrs)
	}
	return nil
}

func (r *recorder) UnparsedEntityDecl(ctx sax.Context, name string, publicID string, systemID string, notationName string) error {
	if err := r.event("UnparsedEntityDecl", ctx, "unparsed %q %q %q %q", name, publicID, systemID, notationName); err != nil {
		return err
	}
	if r.next != nil {
		return r.next.UnparsedEntityDecl(ctx, name, publicID, systemID, notationName)
	}
	return nil
}

// refEvents is the sequence of SAX calls the document is expected to make
func refEvents(d *ref.Doc) view {
	v := &eventList{d: d}
	v.add("startdocument")
	v.nodes(d.Nodes)
	v.flush()
	v.add("enddocument")
	return v.view
}

// eventList is a list of events; pieces of text in succession are one
type eventList struct {
	view
	d    *ref.Doc
	text string
}

func (v *eventList) flush() {
	if v.text != "" {
		v.add("text %q", v.text)
		v.text = ""
	}
}

func (v *eventList) nodes(nodes []*ref.Node) {
	d := v.d
	for _, n := range nodes {
		if n.Kind == ref.Text && !n.CData {
			v.text += n.Data
			continue
		}
		if n.Kind == ref.EntRef { // what the entity stands for comes before the reference
			v.nodes(n.Children)
		}
		v.flush()
		switch n.Kind {
		case ref.Text:
			v.add("cdata %q", n.Data)
		case ref.Comment:
			v.add("comment %q", n.Data)
		case ref.PI:
			v.add("pi %q %q", n.Target, n.Data)
		case ref.EntRef:
			v.add("ref %q", n.Data)
		case ref.Doctype:
			v.add("doctype %q %q %q", n.DT.Name, n.DT.Pub, n.DT.Sys)
			refDeclEvents(&v.view, d, n.DT)
		case ref.Elem:
			s := ""
			for _, ns := range n.NSDecls {
				s += fmt.Sprintf(" xmlns:%s=%q", ns.Prefix, ns.URI)
			}
			for _, a := range n.Attrs {
				s += fmt.Sprintf(" %s|%s|%s=%q", a.Name, a.Prefix, a.Local, a.Escaped)
			}
			for _, a := range n.Defaults {
				s += fmt.Sprintf(" %s|%s|%s=%q(default)", a.Name, a.Prefix, a.Local, expand(d, a.Escaped))
			}
			v.add("start %q %q %q%s", n.Prefix, n.Local, n.URI, s)
			v.nodes(n.Children)
			v.flush()
			v.add("end %q %q %q", n.Prefix, n.Local, n.URI)
		}
	}
}

func refDeclEvents(v *view, d *ref.Doc, dt *ref.DTD) {
	for _, c := range dt.Decls {
		switch c.Kind {
		case "comment":
			v.add("comment %q", c.Text)
		case "pi":
			v.add("pi %q %q", c.Name, c.Text)
		case "element":
			t := c.Model
			switch {
			case t == "EMPTY", t == "ANY":
			case strings.HasPrefix(t, "(#PCDATA"):
				t = "mixed"
			default:
				t = "children"
			}
			v.add("elemdecl %q %s", c.Name, t)
		case "attlist":
			v.add("attdecl %q %q %s %q %q %q", c.Name, c.Att, c.Type, append([]string{}, c.Enum...), c.Def, c.DefForm)
		case "entity", "pentity":
			k := "internal"
			if c.External {
				k = "external"
			}
			if c.Kind == "pentity" {
				k = "p" + k
			}
			if c.NData != "" {
				v.add("entdecl %q unparsed %q %q %q", c.Name, c.Pub, c.Sys, c.NData)
				continue
			}
			v.add("entdecl %q %s %q %q %q", c.Name, k, c.Pub, c.Sys, c.Text)
		case "notation":
			v.add("notation %q %q %q", c.Name, c.Pub, c.Sys)
		}
	}
}

// ---- calling the parser ----

type parsed struct {
	doc   *helium.Document
	err   error
	panic string
	built bool // not read, but built from nodes
}

func parseDOM(b []byte) (r parsed) {
	r.panic = guard(func() { r.doc, r.err = helium.NewParser().Parse(b) })
	return
}

func parseSAX(h sax.SAX2Handler, b []byte) (r parsed) {
	r.panic = guard(func() {
		p := helium.NewParser()
		p.SetSAXHandler(h)
		r.doc, r.err = p.Parse(b)
	})
	return
}

func xmlString(d *helium.Document) (s string, err error, panicked string) {
	panicked = guard(func() { s, err = d.XMLString() })
	return
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
