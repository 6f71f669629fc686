package main

import "github.com/lestrrat-go/helium/internal/zzverif/ref"

// SELF is not a property: it checks that the framework works, by asking the
// model about documents whose well-formedness is not in doubt

var good = []string{`<r/>`, `<r></r >`, "<r a='1' b=\"'\">x&lt;&#65;<!-- - --><?p?><![CDATA[]]>]]&gt;</r>", `<?xml version="1.0"?><!DOCTYPE r [<!ENTITY e "<a/>">]><r>&e;</r>`, `<p:r xmlns:p="u"/>`, `<!DOCTYPE r SYSTEM "s"><r>&e;</r>`, `<!DOCTYPE r [<!ELEMENT r (a,(b|c)*,(d)?)>]><r/>`, `<!DOCTYPE r [<!ELEMENT r (#PCDATA|a)*>]><r/>`}

var bad = []string{``, `<r>`, `<r></s>`, `<r/><r/>`, `<r a="1" a="2"/>`, `<r a=1/>`, `<r a="<"/>`, `<r>&e;</r>`, `<r>]]></r>`, `<r><!-- -- --></r>`, `<r>&#0;</r>`, `<p:r/>`, `<!DOCTYPE r [<!ENTITY e "<a>">]><r>&e;</r>`, `<!DOCTYPE r [<!ENTITY e "&e;">]><r>&e;</r>`, `<!DOCTYPE r [<!ELEMENT r (a,b|c)>]><r/>`, `<!DOCTYPE r [<!ELEMENT r (#PCDATA|a)>]><r/>`, " <?xml version='1.0'?><r/>"}

func init() {
	register(&Property{ID: "SELF", Level: "other", Spaces: func(bool) []*Space {
		return []*Space{list("model", "documents known to be well-formed or not", func(c *counter, doc string) string {
			want := doc[0] == '+'
			if got := ref.Parse(doc[1:]).V; (got == ref.WF) != want || got == ref.Unknown {
				return "the model says " + got.String()
			}
			return ""
		}, func(_ bool, emit func(string)) {
			for _, d := range good {
				emit("+" + d)
			}
			for _, d := range bad {
				emit("-" + d)
			}
		})}
	}})
}
