package main

import "strings"

// intoEntity moves the element of a document, and what follows it, into the
// replacement text of an entity that is used twice: what is in force at the
// reference (declarations, namespaces, states) has to be in force there.
func intoEntity(doc string) (string, bool) {
	decls := ""
	if strings.HasPrefix(doc, "<!DOCTYPE ") {
		i := strings.IndexByte(doc, '[')
		k := strings.Index(doc, "]><")
		if i < 0 || k < i || strings.ContainsAny(doc[:i], `"'>`) {
			return "", false
		}
		decls, doc = doc[i+1:k], doc[k+2:]
	}
	if len(doc) < 2 || doc[0] != '<' || strings.HasPrefix(doc, "<?xml") {
		return "", false
	}
	r := strings.NewReplacer("&#", "&#38;#", `"`, "&#34;", "%", "&#37;")
	return "<!DOCTYPE w [" + decls + `<!ENTITY zz "` + r.Replace(doc) + `">]><w>&zz;<w>&zz;</w></w>`, true
}

// within has the documents of other spaces in entities
func within(spaces []*Space) []*Space {
	var out []*Space
	for _, s := range spaces {
		j := s.Judge
		out = append(out, &Space{Name: "in an entity: " + s.Name, Level: s.Level, Bound: s.Bound + "; the element as replacement text of an entity that is used twice", Enum: s.Enum, Judge: func(c *counter, key string) string {
			doc, ok := intoEntity(key)
			if !ok {
				return ""
			}
			if msg := j(c, doc); msg != "" {
				return doc + ": " + msg
			}
			return ""
		}})
	}
	return out
}

func withinSpaces(z size, j judge) []*Space {
	return within(named(join(contentSpaces(z, j), attributeSpaces(z, j), markupSpaces(z, j), namespaceSpaces(z, j), defaultSpaces(z, j), eolSpaces(z, j)),
		"start tag", "attribute value", "attributes in order", "attributes of one", "attribute names", "normalised", "content", "CDATA", "comment", "processing", "nesting", "end tag", "text", "character reference", "namespaces", "defaults", "line ends in"))
}
