package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
)

// Names in tables of programs: what is declared, registered or set under one
// name is found under that name and no other

func splitName(n string) (local, prefix string) {
	if i := strings.IndexByte(n, ':'); i >= 0 {
		return n[i+1:], n[:i]
	}
	return n, ""
}

// judgeSimilarDecls: the key has the kind of declaration and two names, that
// are declared in this order
func judgeSimilarDecls(c *counter, key string) string {
	c.Traces++
	c.Evals++
	f := strings.Split(key, "|")
	kind, names := f[0], f[1:]
	d := helium.CreateDocument()
	dtd, err := d.CreateInternalSubset("r", "", "")
	if err != nil {
		return err.Error()
	}
	first := map[string]interface{}{}
	for i, n := range names {
		var got interface{}
		switch kind {
		case "element":
			e, err := dtd.AddElementDecl(n, helium.ElementTypeVal(1+i), nil)
			if (err != nil) != (first[n] != nil) {
				return fmt.Sprintf("%s: declaration %d: %v", key, i, err)
			}
			got = e
		default:
			t := helium.InternalGeneralEntity
			if kind == "parameter" {
				t = helium.InternalParameterEntity
			}
			e, err := dtd.AddEntity(n, t, "", "", "v"+itoa(i))
			if err != nil || first[n] != nil && first[n] != interface{}(e) {
				return fmt.Sprintf("%s: declaration %d: %v", key, i, err)
			}
			got = e
		}
		if first[n] == nil {
			first[n] = got
		}
	}
	for _, s := range similar {
		for _, n := range s {
			local, prefix := splitName(n)
			want := first[n]
			wants := map[string]interface{}{kind: want}
			e1, ok1 := dtd.LookupElement(local, prefix)
			e2, ok2 := dtd.GetElementDesc(n)
			g1, ok3 := dtd.LookupEntity(n)
			g2, ok4 := d.GetEntity(n)
			p1, ok5 := dtd.LookupParameterEntity(n)
			p2, ok6 := d.GetParameterEntity(n)
			for i, x := range []struct {
				kind string
				got  interface{}
				ok   bool
			}{{"element", e1, ok1}, {"element", e2, ok2}, {"general", g1, ok3}, {"general", g2, ok4}, {"parameter", p1, ok5}, {"parameter", p2, ok6}} {
				w := wants[x.kind]
				if x.ok != (w != nil) || x.ok && x.got != w {
					return fmt.Sprintf("%s: look up %q (%d): %v, %v", key, n, i, x.got, x.ok)
				}
			}
		}
	}
	out, err := d.XMLString()
	if err != nil {
		return key + ": " + err.Error()
	}
	c.outcome(out)
	return ""
}

// attribute declarations of a document, to be registered elsewhere
var regDecls = [][2]string{{"a", "r"}, {"A", "r"}, {"a", "R"}, {"p:a", "r"}, {"a", "p:r"}, {"p:a", "p:r"}, {"b", "r"}, {"r", "a"}, {"aa", "r"}, {"a", "rr"}, {"é", "r"}}

// judgeRegister: the key has the numbers of the declarations that are
// registered, in order
func judgeRegister(c *counter, key string) string {
	c.Traces++
	c.Evals++
	src := "<!DOCTYPE r ["
	for i, x := range regDecls {
		src += "<!ATTLIST " + x[1] + " " + x[0] + " CDATA 'd" + itoa(i) + "'>"
	}
	d, err := helium.Parse([]byte(src + "]><q/>"))
	if err != nil {
		return err.Error()
	}
	var decls []*helium.AttributeDecl
	for n := d.IntSubset().FirstChild(); !isNil(n); n = n.NextSibling() {
		if a, ok := n.(*helium.AttributeDecl); ok {
			decls = append(decls, a)
		}
	}
	if len(decls) != len(regDecls) {
		return fmt.Sprintf("%d declarations", len(decls))
	}
	dtd, err := helium.CreateDocument().CreateDTD()
	if err != nil {
		return err.Error()
	}
	in := map[int]bool{}
	check := func(t *helium.DTD, has func(int) bool) string {
		for i, x := range regDecls {
			local, prefix := splitName(x[0])
			a, ok := t.LookupAttribute(local, prefix, x[1])
			if ok != has(i) || ok && a != decls[i] {
				return fmt.Sprintf("registered %s: look up %q of %q: %v, %v", key, x[0], x[1], a, ok)
			}
		}
		return ""
	}
	for _, s := range strings.Fields(key) {
		var i int
		fmt.Sscan(s, &i)
		c.Transitions++
		if err := dtd.RegisterAttribute(decls[i]); (err != nil) != in[i] {
			return fmt.Sprintf("registered %s: error at %d: %v", key, i, err)
		}
		in[i] = true
		if err := d.IntSubset().RegisterAttribute(decls[i]); err == nil {
			return fmt.Sprintf("declaration %d is registered again", i)
		}
		if s := check(dtd, func(i int) bool { return in[i] }); s != "" {
			return s
		}
	}
	c.outcome(key)
	return check(d.IntSubset(), func(int) bool { return true })
}

func pairDeclSpaces(th bool) []*Space {
	n := 3
	if th {
		n = 4
	}
	return []*Space{
		list("similar names by programs", fmt.Sprintf("%d pairs of names that differ in little or not at all, in both orders, declared as elements, general and parameter entities, and all the names looked up", len(similar)), judgeSimilarDecls, func(_ bool, emit func(string)) {
			for _, s := range similar {
				for _, k := range []string{"element", "general", "parameter"} {
					emit(k + "|" + s[0] + "|" + s[1])
					emit(k + "|" + s[1] + "|" + s[0])
				}
			}
		}),
		list("attributes registered", fmt.Sprintf("all sequences of at most %d of %d attribute declarations that are registered", n, len(regDecls)), judgeRegister, func(_ bool, emit func(string)) {
			var rec func(n int, s string)
			rec = func(n int, s string) {
				emit(s)
				if n == 0 {
					return
				}
				for i := range regDecls {
					rec(n-1, s+" "+itoa(i))
				}
			}
			rec(n, "")
		}),
	}
}

// names of attributes that are set
var setNames = []string{"a", "A", "aa", "b", "é", "É", "_", "a.b"}

// judgeSet: the key has the numbers of the names that are set, in order
func judgeSet(c *counter, key string) string {
	c.Traces++
	c.Evals++
	d := helium.CreateDocument()
	r, err := d.CreateElement("r")
	if err == nil {
		err = d.SetDocumentElement(r)
	}
	if err != nil {
		return err.Error()
	}
	var want []string
	has := map[string]bool{}
	for k, s := range strings.Fields(key) {
		var i int
		fmt.Sscan(s, &i)
		n := setNames[i]
		c.Transitions++
		err := r.SetAttribute(n, "v"+itoa(k))
		if has[n] {
			if !errors.Is(err, helium.ErrDuplicateAttribute) {
				return fmt.Sprintf("%s: %q is set again: %v", key, n, err)
			}
		} else if err != nil {
			return key + ": " + err.Error()
		} else {
			want = append(want, n+"=v"+itoa(k))
		}
		has[n] = true
		var got []string
		var prev *helium.Attribute
		for _, a := range r.Attributes() {
			got = append(got, a.Name()+"="+a.Value())
			if p := a.PrevSibling(); isNil(p) != (prev == nil) || prev != nil && (p != helium.Node(prev) || prev.NextAttribute() != a) {
				return fmt.Sprintf("%s: links of %q", key, a.Name())
			}
			prev = a
		}
		if s := diff(got, want); s != "" {
			return key + ": " + s
		}
		if prev.NextAttribute() != nil {
			return key + ": there is an attribute behind the last"
		}
	}
	out, err := d.XMLString()
	if err != nil {
		return key + ": " + err.Error()
	}
	expect := "<r"
	for _, w := range want {
		expect += " " + strings.Replace(w, "=", `="`, 1) + `"`
	}
	if !strings.Contains(out, expect+"/>") {
		return fmt.Sprintf("%s: written as %q", key, out)
	}
	c.outcome(out)
	return ""
}

func setSpaces(th bool) []*Space {
	n := 4
	if th {
		n = 6
	}
	return []*Space{list("attributes set in sequence", fmt.Sprintf("all sequences of at most %d of %d names of attributes that are set", n, len(setNames)), judgeSet, func(_ bool, emit func(string)) {
		var rec func(n int, s string)
		rec = func(n int, s string) {
			emit(s)
			if n == 0 {
				return
			}
			for i := range setNames {
				rec(n-1, s+" "+itoa(i))
			}
		}
		rec(n, "")
	})}
}
