package ref

import (
	"net/url"
	"strings"
)

func (p *parser) doctype() {
	line := p.where()
	p.need("<!DOCTYPE")
	p.needS()
	dt := &DTD{}
	p.doc.Nodes = append(p.doc.Nodes, &Node{Kind: Doctype, DT: dt, Line: line})
	dt.Name = p.qnameDTD()
	s := p.sp()
	if p.has("SYSTEM") || p.has("PUBLIC") {
		if !s {
			p.fail("white space")
		}
		dt.HasPub, dt.Pub, dt.HasSys, dt.Sys = p.externalID(false)
		p.subs = true
		p.sp()
	}
	if p.eat("[") {
		dt.Subset = true
		p.subset(dt)
		p.need("]")
		p.sp()
	}
	p.need(">")
}

// externalID is productions [75] and, for notations, [83]
func (p *parser) externalID(notation bool) (hasPub bool, pub string, hasSys bool, sys string) {
	literal := func(pubid bool) string {
		q := p.quote()
		k := p.i
		for p.peek() != q {
			c := p.char()
			if pubid && !(c == ' ' || c == '\n' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("-'()+,./:=?;!*#@$_%", c)) {
				p.i--
				p.fail("%q in public identifier", c)
			}
			if !pubid && c == '#' {
				p.unknown("fragment in system identifier")
			}
		}
		p.i++
		return string(p.s[k : p.i-1])
	}
	if p.eat("SYSTEM") {
		p.needS()
		return false, "", true, literal(false)
	}
	p.need("PUBLIC")
	p.needS()
	pub = literal(true)
	s := p.sp()
	if notation && !(p.peek() == '"' || p.peek() == '\'') {
		return true, pub, false, ""
	}
	if !s {
		p.fail("white space between identifiers")
	}
	return true, pub, true, literal(false)
}

func (p *parser) subset(dt *DTD) {
	for {
		switch {
		case p.sp():
		case p.has("<!--"):
			n := p.comment()
			dt.Decls = append(dt.Decls, &Decl{Kind: "comment", Text: n.Data})
		case p.has("<?"):
			n := p.pi()
			dt.Decls = append(dt.Decls, &Decl{Kind: "pi", Name: n.Target, Text: n.Data})
		case p.eat("<!ELEMENT"):
			p.elementDecl(dt)
		case p.eat("<!ATTLIST"):
			p.attlist(dt)
		case p.eat("<!ENTITY"):
			p.entityDecl(dt)
		case p.eat("<!NOTATION"):
			p.notation(dt)
		case p.has("%"):
			p.i++
			n := p.name()
			p.need(";")
			if strings.Contains(n, ":") {
				p.unknown("colon")
			}
			if p.doc.PEntities[n] == nil {
				if !p.subs || p.doc.Standalone == "yes" {
					p.fail("parameter entity %s not declared", n)
				}
			}
			p.unknown("parameter entity reference")
		default:
			return
		}
	}
}

func (p *parser) elementDecl(dt *DTD) {
	p.needS()
	d := &Decl{Kind: "element"}
	d.Name = p.qnameDTD()
	p.needS()
	switch {
	case p.eat("EMPTY"):
		d.Model = "EMPTY"
	case p.eat("ANY"):
		d.Model = "ANY"
	case p.peek() == '(':
		d.Model = p.contentModel()
	default:
		if p.peek() == '%' {
			p.fail("PE reference in declaration")
		}
		p.fail("content specification")
	}
	p.sp()
	p.need(">")
	if p.doc.ElemDecls[d.Name] == nil {
		p.doc.ElemDecls[d.Name] = d
		d.Bound = true
	}
	dt.Decls = append(dt.Decls, d)
}

func (p *parser) contentModel() string {
	k := p.i
	p.need("(")
	p.sp()
	if p.eat("#PCDATA") {
		names := []string{}
		for {
			p.sp()
			if p.eat(")") {
				break
			}
			p.need("|")
			p.sp()
			names = append(names, p.qnameDTD())
		}
		star := p.eat("*")
		if len(names) > 0 && !star {
			p.fail("mixed content model needs *")
		}
		m := "(#PCDATA"
		for _, n := range names {
			m += "|" + n
		}
		m += ")"
		if star {
			m += "*"
		}
		return m
	}
	p.i = k
	m := p.group(0).String()
	if m[0] != '(' {
		m = "(" + m + ")"
	}
	return m
}

func (p *parser) occur() string {
	switch c := p.peek(); c {
	case '?', '*', '+':
		p.i++
		return string(c)
	}
	return ""
}

// cp is a content particle in canonical form: a name, or a group of more than
// one particle
type cp struct {
	name string
	sep  string
	occ  string
	kids []*cp
}

// with applies an occurrence indicator: (a?)+ is a*
func (c *cp) with(occ string) *cp {
	switch {
	case occ == "" || c.occ == occ:
	case c.occ == "":
		c.occ = occ
	default:
		c.occ = "*"
	}
	return c.canon()
}

// canon: a group in a group with the same separator, and no indicator of its
// own, is part of the latter; (a*|b)+ is (a|b)*
func (c *cp) canon() *cp {
	for again := true; again; {
		again = false
		if c.sep == "|" && (c.occ == "*" || c.occ == "+") {
			for _, k := range c.kids {
				switch k.occ {
				case "?", "*":
					c.occ = "*"
				}
				k.occ = ""
			}
		}
		var kids []*cp
		for _, k := range c.kids {
			if k.sep == c.sep && k.occ == "" && k.name == "" {
				kids = append(kids, k.kids...)
				again = true
			} else {
				kids = append(kids, k)
			}
		}
		c.kids = kids
	}
	return c
}

func (c *cp) String() string {
	if c.name != "" {
		return c.name + c.occ
	}
	var parts []string
	for _, k := range c.kids {
		parts = append(parts, k.String())
	}
	return "(" + strings.Join(parts, c.sep) + ")" + c.occ
}

// group is productions [49] to [50]
func (p *parser) group(depth int) *cp {
	if depth > 60 {
		p.unknown("deep content model")
	}
	p.need("(")
	g := &cp{}
	for {
		p.sp()
		if p.peek() == '(' {
			g.kids = append(g.kids, p.group(depth+1))
		} else {
			n := p.qnameDTD()
			g.kids = append(g.kids, &cp{name: n, occ: p.occur()})
		}
		p.sp()
		c := p.peek()
		if c == ')' {
			p.i++
			break
		}
		if c != ',' && c != '|' {
			p.fail("content model")
		}
		if g.sep != "" && string(c) != g.sep {
			p.fail("mixed separators")
		}
		g.sep = string(c)
		p.i++
	}
	occ := p.occur()
	if len(g.kids) == 1 {
		return g.kids[0].with(occ)
	}
	return g.with(occ)
}

var attTypes = []string{"CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN"}

func (p *parser) attlist(dt *DTD) {
	p.needS()
	elem := p.qnameDTD()
	for {
		s := p.sp()
		if p.eat(">") {
			return
		}
		if !s {
			p.fail("white space in attlist")
		}
		d := &Decl{Kind: "attlist", Name: elem}
		d.Att = p.qnameDTD()
		p.needS()
		switch {
		case p.peek() == '(':
			d.Type = "ENUM"
			d.Enum = p.enum(p.nmtoken)
		case p.has("NOTATION"):
			p.eat("NOTATION")
			d.Type = "NOTATION"
			p.needS()
			d.Enum = p.enum(func() string {
				n := p.name()
				if strings.Contains(n, ":") {
					p.unknown("colon in notation name")
				}
				return n
			})
		default:
			for _, t := range attTypes {
				if p.eat(t) {
					d.Type = t
					break
				}
			}
			if d.Type == "" {
				p.fail("attribute type")
			}
		}
		p.needS()
		switch {
		case p.eat("#REQUIRED"):
			d.Def = "#REQUIRED"
		case p.eat("#IMPLIED"):
			d.Def = "#IMPLIED"
		default:
			if p.eat("#FIXED") {
				d.Def = "#FIXED"
				p.needS()
			}
			d.HasDef = true
			d.Default = p.attValue()
			d.DefForm = normalise(d.Default.Unexpanded(), d.Type)
		}
		if d.Att == "xml:id" && d.Type != "ID" {
			p.unknown("type of xml:id") // an error of another specification, which is fatal in helium
		}
		key := elem + " " + d.Att
		if p.doc.AttDecls[key] == nil {
			p.doc.AttDecls[key] = d
			p.doc.attOrder[elem] = append(p.doc.attOrder[elem], d.Att)
			d.Bound = true
		}
		dt.Decls = append(dt.Decls, d)
	}
}

func (p *parser) enum(item func() string) []string {
	p.need("(")
	var out []string
	for {
		p.sp()
		out = append(out, item())
		p.sp()
		if p.eat(")") {
			return out
		}
		p.need("|")
	}
}

func (p *parser) notation(dt *DTD) {
	p.needS()
	d := &Decl{Kind: "notation"}
	d.Name = p.ncname()
	p.needS()
	d.HasPub, d.Pub, d.HasSys, d.Sys = p.externalID(true)
	p.sp()
	p.need(">")
	dt.Decls = append(dt.Decls, d)
}

func (p *parser) entityDecl(dt *DTD) {
	p.needS()
	d := &Decl{Kind: "entity"}
	table := p.doc.Entities
	if p.eat("%") {
		p.needS()
		d.Kind = "pentity"
		table = p.doc.PEntities
	}
	d.Name = p.ncname()
	p.needS()
	if q := p.peek(); q == '"' || q == '\'' {
		p.entityValue(d)
	} else {
		d.External = true
		d.HasPub, d.Pub, d.HasSys, d.Sys = p.externalID(false)
		if _, err := url.Parse(d.Sys); err != nil {
			// whether that is an error is left to the implementation
			p.unknown("system identifier is not a URI reference")
		}
		s := p.sp()
		if d.Kind == "entity" && p.has("NDATA") {
			if !s {
				p.fail("white space before NDATA")
			}
			p.eat("NDATA")
			p.needS()
			d.NData = p.name()
			if strings.Contains(d.NData, ":") {
				p.unknown("colon in notation name")
			}
		}
	}
	p.sp()
	p.need(">")
	if _, ok := predefined[d.Name]; ok && d.Kind == "entity" {
		p.unknown("declaration of a predefined entity")
	}
	if table[d.Name] == nil {
		table[d.Name] = d
		d.Bound = true
	}
	dt.Decls = append(dt.Decls, d)
}

// entityValue is production [9] in the internal subset
func (p *parser) entityValue(d *Decl) {
	q := p.quote()
	k := p.i
	var b strings.Builder
	for {
		c := p.char()
		switch {
		case c == q:
			d.Literal = string(p.s[k : p.i-1])
			d.Text = b.String()
			return
		case c == '%':
			p.i--
			p.fail("%% in entity value")
		case c == '&':
			p.i--
			if r, ok := p.charRef(); ok {
				b.WriteRune(r)
				break
			}
			b.WriteString("&" + p.entityName() + ";")
		default:
			b.WriteRune(c)
		}
	}
}
