package main

import "strings"

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func zoom(th bool, quick, deep size) size {
	if th {
		return deep
	}
	return quick
}

func join(lists ...[]*Space) []*Space {
	var out []*Space
	for _, l := range lists {
		out = append(out, l...)
	}
	return out
}

// named picks the spaces whose names contain one of the words
func named(l []*Space, words ...string) []*Space {
	var out []*Space
	for _, s := range l {
		for _, w := range words {
			if strings.Contains(s.Name, w) {
				out = append(out, s)
				break
			}
		}
	}
	return out
}

// distinct leaves out spaces of the same name as one before
func distinct(l []*Space) []*Space {
	var out []*Space
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s.Name] {
			out = append(out, s)
		}
		seen[s.Name] = true
	}
	return out
}

func init() {
	register(&Property{ID: "C02", Level: "model_checking", Spaces: func(th bool) []*Space {
		return everything(zoom(th, small, medium), judgeVerdict)
	}})
	register(&Property{ID: "C03", Level: "model_checking", Spaces: func(th bool) []*Space {
		return join(everything(zoom(th, small, medium), judgeTree), codePointSpaces(judgeTree))
	}})
	register(&Property{ID: "C04", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return join(everything(medium, judgeDump), codePointSpaces(judgeDump))
		}
		return everything(small, judgeDump)
	}})
	register(&Property{ID: "C05", Level: "model_checking", Spaces: func(th bool) []*Space {
		return everything(zoom(th, small, medium), judgeEvents)
	}})
	register(&Property{ID: "C07", Level: "model_checking", Spaces: func(th bool) []*Space {
		return distinct(join(namespaceSpaces(zoom(th, medium, large), judgeFull),
			named(everything(zoom(th, small, medium), judgeFull), "names", "start tag", "nesting", "end tag", "duplicates", "repetitions", "white space", "by shape", "items of content", "ends of", "words as", "similar", "one of many", "late in")))
	}})
	register(&Property{ID: "C08", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, medium, large)
		return distinct(join(attributeSpaces(z, judgeFull), defaultSpaces(z, judgeFull),
			named(everything(zoom(th, small, medium), judgeFull), "attribute", "start tag", "line ends in", "duplicates", "long texts", "character", "quotes", "white space", "in sequence", "in a list", "words as", "similar", "one of many", "late in")))
	}})
	register(&Property{ID: "C09", Level: "model_checking", Spaces: func(th bool) []*Space {
		return distinct(join(entitySpaces(zoom(th, medium, large), judgeFull), codePointSpaces(judgeTree),
			named(everything(zoom(th, small, medium), judgeFull), "reference", "entity", "entities", "declarations", "in doctype", "long", "repetitions", "quotes", "items of content", "words as", "similar", "one of many", "late in")))
	}})
	register(&Property{ID: "C10", Level: "model_checking", Spaces: func(th bool) []*Space {
		return distinct(join(doctypeSpaces(zoom(th, small, medium), judgeDecls),
			named(everything(zoom(th, small, medium), judgeDecls), "default", "edits of content", "characters", "long", "repetitions", "by shape", "in sequence", "in a list", "quotes", "white space", "words as", "similar", "one of many", "late in")))
	}})
}

func init() {
	register(&Property{ID: "C01", Level: "model_checking", Spaces: func(th bool) []*Space {
		z := zoom(th, small, medium)
		return join(hostileSpaces(z, judgeTotal), everything(z, judgeTotal))
	}})
}
