package main

import (
	"fmt"
	"strconv"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// What nodes say they are

var kindNames = []struct {
	kind helium.ElementType
	name string
}{
	{helium.ElementNode, "ElementNode"}, {helium.AttributeNode, "AttributeNode"}, {helium.TextNode, "TextNode"}, {helium.CDATASectionNode, "CDATASectionNode"},
	{helium.EntityRefNode, "EntityRefNode"}, {helium.EntityNode, "EntityNode"}, {helium.ProcessingInstructionNode, "ProcessingInstructionNode"}, {helium.CommentNode, "CommentNode"},
	{helium.DocumentNode, "DocumentNode"}, {helium.DocumentTypeNode, "DocumentTypeNode"}, {helium.DocumentFragNode, "DocumentFragNode"}, {helium.NotationNode, "NotationNode"},
	{helium.HTMLDocumentNode, "HTMLDocumentNode"}, {helium.DTDNode, "DTDNode"}, {helium.ElementDeclNode, "ElementDeclNode"}, {helium.AttributeDeclNode, "AttributeDeclNode"},
	{helium.EntityDeclNode, "EntityDeclNode"}, {helium.NamespaceDeclNode, "NamespaceDeclNode"}, {helium.XIncludeStartNode, "XIncludeStartNode"}, {helium.XIncludeEndNode, "XIncludeEndNode"},
	{helium.NamespaceNode, "NamespaceNode"},
}

func judgeKindName(c *counter, key string) string {
	c.Traces++
	c.Evals++
	i, err := strconv.Atoi(key)
	if err != nil {
		return err.Error()
	}
	k := helium.ElementType(i)
	var got string
	if s := guard(func() { got = k.String() }); s != "" {
		return s
	}
	c.outcome(got)
	for _, n := range kindNames {
		if n.kind == k {
			if got != n.name {
				return fmt.Sprintf("kind %d is called %q, not %q", i, got, n.name)
			}
			return ""
		}
	}
	// kinds that do not exist are called by their number
	if want := "ElementType(" + key + ")"; got != want {
		return fmt.Sprintf("kind %d, which does not exist, is called %q, not %q", i, got, want)
	}
	return ""
}

// kindOf says what kind of node an object has to be
func kindOf(n helium.Node) (helium.ElementType, bool) {
	switch n.(type) {
	case *helium.Document:
		return helium.DocumentNode, true
	case *helium.Element:
		return helium.ElementNode, true
	case *helium.Attribute:
		return helium.AttributeNode, true
	case *helium.Text:
		return helium.TextNode, true
	case *helium.Comment:
		return helium.CommentNode, true
	case *helium.ProcessingInstruction:
		return helium.ProcessingInstructionNode, true
	case *helium.EntityRef:
		return helium.EntityRefNode, true
	case *helium.Entity:
		return helium.EntityNode, true
	case *helium.DTD:
		return helium.DTDNode, true
	case *helium.ElementDecl:
		return helium.ElementDeclNode, true
	case *helium.AttributeDecl:
		return helium.AttributeDeclNode, true
	}
	return 0, false
}

// kinds checks n, what is below it, and that it is of doc
func kinds(c *counter, n helium.Node, doc *helium.Document, depth int) string {
	if isNil(n) || depth > 1000 {
		return ""
	}
	c.Transitions++
	want, ok := kindOf(n)
	if !ok {
		return fmt.Sprintf("a %T is in the tree", n)
	}
	name := ""
	for _, k := range kindNames {
		if k.kind == want {
			name = k.name
		}
	}
	if n.Type() != want || n.Type().String() != name {
		return fmt.Sprintf("%T %q says that it is a %s, not a %s", n, n.Name(), n.Type(), name)
	}
	if n != helium.Node(doc) && n.OwnerDocument() != doc {
		return fmt.Sprintf("%s %q is of another document", name, n.Name())
	}
	if e, ok := n.(*helium.Element); ok {
		for _, a := range e.Attributes() {
			if s := kinds(c, a, doc, depth+1); s != "" {
				return s
			}
		}
	}
	if want == helium.EntityRefNode { // below it is the entity, which is not of the document if it is predefined
		return ""
	}
	for k := n.FirstChild(); !isNil(k); k = k.NextSibling() {
		if s := kinds(c, k, doc, depth+1); s != "" {
			return s
		}
	}
	return ""
}

func judgeKinds(c *counter, doc string) string {
	r := refRead(c, doc)
	if r.V != ref.WF {
		return ""
	}
	c.Traces++
	c.Evals++
	p := parseDOM([]byte(doc))
	if p.panic != "" || p.err != nil {
		return "" // C01, C02
	}
	var msg string
	if s := guard(func() { msg = kinds(c, p.doc, p.doc, 0) }); s != "" {
		return s
	}
	return msg
}

func kindSpaces(z size) []*Space {
	return append(everything(z, judgeKinds),
		list("names of kinds", "all numbers from -2000 to 2000, and those next to the powers of two", judgeKindName, func(_ bool, emit func(string)) {
			for i := -2000; i <= 2000; i++ {
				emit(strconv.Itoa(i))
			}
			for b := uint(11); b < 63; b++ {
				for d := -1; d <= 1; d++ {
					emit(strconv.Itoa(1<<b + d))
					emit(strconv.Itoa(-1<<b + d))
				}
			}
			emit(strconv.Itoa(-1 << 63))
			emit(strconv.Itoa(1<<63 - 1))
		}))
}

func init() {
	register(&Property{ID: "C20", Level: "model_checking", Spaces: func(th bool) []*Space {
		return kindSpaces(zoom(th, small, medium))
	}})
}
