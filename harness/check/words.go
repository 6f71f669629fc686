package main

import (
	"fmt"
	"strings"
)

// Names that mean something: to the grammar, to the specification of
// namespaces, or elsewhere in the document

var words = strings.Fields(`a r xml Xml XML xmlns xml:id xml:space xml:lang xml:base xml:x xmlns:a xmlns:xml id a:id a:space a:lang a:xml a:xmlns space lang xmlnsx xmlx xml-stylesheet x:xml:id
	CDATA ID IDREF IDREFS NMTOKEN NMTOKENS ENTITY ENTITIES NOTATION ELEMENT ATTLIST DOCTYPE PUBLIC SYSTEM EMPTY ANY PCDATA NDATA INCLUDE IGNORE REQUIRED IMPLIED FIXED
	version encoding standalone yes no amp lt gt apos quot Amp LT AMP GT APOS QUOT Quot ampx lt1 q quo pseudoroot (document) _ a. a- a-- CDATAx EMPTYx ANYx x`)

func wordSpaces(z size, j judge) []*Space {
	places := []string{"<%/>", "<%>t</%>", "<% %='v'/>", `<r %="v"/>`, `<r %="v" a='w'/>`, `<r a='w' %=" v "><a/></r>`, "<r><%/></r>", "<r><%>t</%></r>", "<r><a/></%></r>", "<r><%></r></%>",
		`<p:r xmlns:p="u" p:%="1"/>`, `<p:r xmlns:p="u" p:%="1" %='2'/>`, "<p:% xmlns:p='u'/>", "<r xmlns:%='u'/>", "<r xmlns:%=''/>", "<%:r xmlns:%='u'/>", "<r %:a='v' xmlns:%='u'/>", "<r xmlns='%'/>", "<r xmlns:p='%'/>",
		"<?% d?><r/>", "<r><?%?></r>", "<r/><?% %?>", "<?%d?><r/>", "<!DOCTYPE %><%/>", "<!DOCTYPE % SYSTEM 's'><r/>", "<!DOCTYPE % []><%/>", "<!DOCTYPE r %><r/>", "<!DOCTYPE r % 's'><r/>", "<!DOCTYPE r % 'p' 's'><r/>", "<!DOCTYPE r SYSTEM '%'><r/>", "<!DOCTYPE r PUBLIC '%' '%'><r/>",
		"<!DOCTYPE r [<!% r ANY>]><r/>", "<!DOCTYPE r [<!ELEMENT r %>]><r/>", "<!DOCTYPE r [<!ELEMENT r (#%)>]><r/>", "<!DOCTYPE r [<!ELEMENT r (#%|a)*>]><r/>", "<!DOCTYPE r [<![%[<!ELEMENT r ANY>]]>]><r/>",
		"<!DOCTYPE r [<!ATTLIST r a % 'd'>]><r a=' v  w '/>", "<!DOCTYPE r [<!ATTLIST r a % (a) 'a'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a CDATA #%>]><r/>", "<!DOCTYPE r [<!ATTLIST r a CDATA #% 'd'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a CDATA %>]><r/>",
		"<!DOCTYPE r [<!ATTLIST r a (%) '%'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a (%|x|y) #IMPLIED>]><r a=' % '/>", "<!DOCTYPE r [<!ATTLIST r a (x|%) '%'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a NOTATION (%) '%'>]><r/>", "<!DOCTYPE r [<!NOTATION % SYSTEM 's'><!ATTLIST r a NOTATION (%|y) #IMPLIED>]><r/>",
		"<!DOCTYPE r [<!ATTLIST % a NMTOKENS 'd'>]><% a=' v  w '/>", "<!DOCTYPE r [<!ATTLIST % a NMTOKENS ' d  e '>]><r><%/></r>", "<!DOCTYPE r [<!ATTLIST r a CDATA '%' b CDATA '%'>]><r/>",
		"<!DOCTYPE r [<!ENTITY % 'v'>]><r>&%;</r>", "<!DOCTYPE r [<!ENTITY % 'v'>]><r a='&%;'/>", "<!DOCTYPE r [<!ENTITY % '<a/>'>]><r>&%;&%;</r>", "<r>&%;</r>", "<r a='&%;'/>", "<!DOCTYPE r [<!ENTITY e '%'>]><r a='&e;'>&e;</r>", "<!DOCTYPE r [<!ENTITY e '&%;'>]><r>&e;</r>", "<!DOCTYPE r [<!ENTITY e '</%>'>]><%>&e;</%>", "<!DOCTYPE r [<!ENTITY e 'x</%><%>y'>]><%>&e;</%>",
		"<!DOCTYPE r [<!ENTITY % SYSTEM 's'>]><r>&%;</r>", "<!DOCTYPE r [<!ENTITY e % 's'>]><r/>", "<!DOCTYPE r [<!ENTITY e % 'p' 's'>]><r/>", "<!DOCTYPE r [<!ENTITY e SYSTEM 's' %>]><r/>", "<!DOCTYPE r [<!ENTITY e SYSTEM 's' % n>]><r/>", "<!DOCTYPE r [<!ENTITY e SYSTEM 's' NDATA %>]><r/>", "<!DOCTYPE r [<!ENTITY e SYSTEM 's' NDATA%>]><r/>",
		"<!DOCTYPE r [<!ENTITY \x00 % 'v'>]><r/>", "<!DOCTYPE r [<!ENTITY \x00 % SYSTEM 's'>]><r/>", "<!DOCTYPE r [<!ENTITY \x00 % 'v'><!ENTITY % 'w'>]><r>&%;</r>", "<!DOCTYPE r [<!NOTATION % SYSTEM 's'>]><r/>", "<!DOCTYPE r [<!NOTATION n % 's'>]><r/>", "<!DOCTYPE r [<!NOTATION n % 'p' 's'>]><r/>",
		"<!DOCTYPE r [<!--%--><?% %?>]><r/>", "<r>%</r>", "<r><!--%--></r>", "<r><![CDATA[%]]></r>", "<r><![%[t]]></r>", "<r a='%'/>", "<r><!%></r>", "<r><!% r></r>", "<r>&#%;</r>", "<r>&#x%;</r>",
		"<?xml %='1.0'?><r/>", "<?xml version='%'?><r/>", "<?xml version='1.0' %='utf-8'?><r/>", "<?xml version='1.0' %='yes'?><r/>", "<?xml version='1.0' standalone='%'?><r/>", "<?% version='1.0'?><r/>", "<?xml version='1.0' encoding='utf-8' %='no'?><r/>"}
	models := []string{"EMPTY", "ANY", "(#PCDATA)", "(%)", "(%?)", "(#PCDATA|%)*", "(#PCDATA|a|%|b)*", "(a,%)", "(%,a)+", "(%|b)*", "(a,(%|b)?,%)", "((%,a)|%)"}
	types := []string{"CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "(v|w)", "NOTATION (v|w)"}
	defaults := []string{"#IMPLIED", "#REQUIRED", "'v'", "#FIXED 'v'", "' v '"}
	return []*Space{
		list("words as names", fmt.Sprintf("%d words and names with a meaning in %d places, in %d content models, and as names of declared attributes of %d types with %d defaults", len(words), len(places), len(models), len(types), len(defaults)), j, func(_ bool, emit func(string)) {
			for _, w := range words {
				put := func(s string) {
					emit(strings.Replace(strings.Replace(s, "%", w, -1), "\x00", "%", -1))
				}
				for _, p := range places {
					put(p)
				}
				for _, m := range models {
					put("<!DOCTYPE r [<!ELEMENT r " + m + ">]><r/>")
					put("<!DOCTYPE r [<!ELEMENT % " + m + ">]><%/>")
				}
				for _, t := range types {
					for _, d := range defaults {
						put("<!DOCTYPE r [<!ATTLIST r % " + t + " " + d + ">]><r/>")
						put("<!DOCTYPE r [<!ATTLIST r % " + t + " " + d + ">]><r %=' w  v '/>")
						if z > small {
							put("<!DOCTYPE r [<!ATTLIST r a CDATA 'd' % " + t + " " + d + " b ID #IMPLIED>]><r/>")
							put("<!DOCTYPE r [<!ATTLIST % % " + t + " " + d + "><!ATTLIST % % CDATA 'z'>]><%/>")
						}
					}
				}
			}
		}),
	}
}

// Pairs of names that differ, but in little: to take them for one name, or
// one name for two, is what a table with a careless key does

var similar = [][2]string{{"a", "a"}, {"a", "A"}, {"aB", "ab"}, {"a", "aa"}, {"ab", "a"}, {"ab", "ba"}, {"a", "b"}, {"a", "_a"}, {"a", "a_"}, {"a", "a-"}, {"a.b", "a-b"}, {"a1", "a01"}, {"a1", "a10"}, {"é", "É"}, {"é", "é"}, {"k", "\u212a"}, {"ss", "ß"}, {"a", "à"}, {"Ā", "ā"}, {"a", "\u0430"}, {"aé", "aè"}, {"p:a", "p:a"}, {"p:a", "a"}, {"p:a", "p:A"}, {"p:a", "P:a"}, {"p:a", "q:a"}, {"p:a", "pa"}, {"p:a", "p.a"}, {"p:a", "p:b"}, {"p:a", "a:p"}, {"a", "p:p"}, {"xml:a", "a"}, {"xml:a", "Xml:a"}}

func similarSpaces(z size, j judge) []*Space {
	const ns = ` xmlns:p="u" xmlns:q="w" xmlns:P="x" xmlns:a="y" xmlns:Xml="z"`
	places := []string{"<\x01" + ns + "></\x02>", "<r" + ns + "><\x01><\x02></\x02></\x01></r>", "<r" + ns + "><\x01/><\x02/><\x01>t</\x01></r>", "<r" + ns + " \x01='1' \x02='2'/>", "<r" + ns + " \x01='1' b='' \x02='2' c=''/>", "<r" + ns + "><e \x01='1'/><e \x02='2'/></r>",
		"<r xmlns:\x01='u' xmlns:\x02='v'/>", "<r xmlns:\x01='u'><\x01:e/><\x02:e/></r>", "<r xmlns:\x01='u'><e xmlns:\x02='v'><\x01:e \x02:a=''/></e><\x02:e/></r>", "<r xmlns:\x01='u' xmlns:\x02='u' \x01:b='1' \x02:b='2'/>", "<r xmlns='\x01'><e xmlns='\x02'/></r>", "<r xmlns:f='\x01' xmlns:g='\x02' f:b='' g:b=''/>",
		"<?\x01 1?><?\x02 2?><r/>", "<!DOCTYPE \x01><\x02" + ns + "/>", "<!DOCTYPE \x01 [<!ELEMENT \x01 ANY><!ELEMENT \x02 EMPTY>]><\x02" + ns + "/>"}
	decls := []string{"<!ELEMENT \x01 EMPTY><!ELEMENT \x02 ANY>", "<!ELEMENT r (\x01|\x02)>", "<!ELEMENT r (#PCDATA|\x01|\x02)*>", "<!ELEMENT r (#PCDATA|\x01|b|\x02)*>", "<!ELEMENT r (\x01,(\x02|b)?)>",
		"<!ATTLIST r \x01 CDATA '1' \x02 CDATA '2'>", "<!ATTLIST r \x01 CDATA '1'><!ATTLIST r \x02 CDATA '2'>", "<!ATTLIST r \x01 NMTOKENS #IMPLIED \x02 CDATA #IMPLIED>", "<!ATTLIST r \x01 CDATA #IMPLIED><!ATTLIST r \x02 NMTOKENS ' 2  3 '>", "<!ATTLIST \x01 b CDATA '1'><!ATTLIST \x02 b CDATA '2'>", "<!ATTLIST \x01 b NMTOKENS #IMPLIED><!ATTLIST \x02 b CDATA #IMPLIED>", "<!ATTLIST \x01 b CDATA '1'><!ATTLIST \x02 c CDATA '2'>", "<!ATTLIST \x01 \x02 CDATA '1'><!ATTLIST \x02 \x01 CDATA '2'>", "<!ATTLIST \x01 b ID #IMPLIED><!ATTLIST \x02 c ID #IMPLIED>", "<!ATTLIST r \x01 ID #IMPLIED \x02 ID #IMPLIED>",
		"<!ATTLIST r b (\x01|\x02) '\x02'>", "<!ATTLIST r b NOTATION (\x01|\x02) '\x01'>", "<!ATTLIST r b (x|\x01|\x02) '\x02'>", "<!NOTATION \x01 SYSTEM '1'><!NOTATION \x02 SYSTEM '2'>", "<!NOTATION \x01 PUBLIC '1'><!NOTATION \x02 PUBLIC '2'>", "<?\x01 1?><?\x02 2?>",
		"<!ENTITY \x01 '1'><!ENTITY \x02 '2'>", "<!ENTITY % \x01 '1'><!ENTITY % \x02 '2'>", "<!ENTITY \x01 '1'><!ENTITY % \x02 '2'>", "<!ENTITY % \x01 '1'><!ENTITY \x02 '2'>", "<!ENTITY \x01 SYSTEM '1'><!ENTITY \x02 SYSTEM '2'>", "<!ENTITY \x01 '1'><!ENTITY \x02 SYSTEM '2'>", "<!ENTITY \x01 SYSTEM '1'><!ENTITY \x02 '2'>", "<!ENTITY \x01 SYSTEM '1' NDATA n><!ENTITY \x02 '2'>", "<!ENTITY \x01 'v'><!ENTITY \x02 '&\x01;'>", "<!ENTITY \x01 '&\x02;'>"}
	uses := []string{"<r" + ns + "/>", "<r" + ns + " \x01=' 3  4 ' \x02=' 5  6 '/>", "<r" + ns + " \x02=' 5  6 '/>", "<r" + ns + "><\x01/><\x02 b=' 3  4 '/></r>", "<r" + ns + "><\x01 b=' 3  4 '/><\x02/></r>", "<r" + ns + "><\x01 c=' 3  4 '/><\x02 \x01=' 5  6 '/></r>", "<r>&\x01;&\x02;</r>", "<r b='&\x02;&\x01;'/>", "<r>&\x02;</r>"}
	return []*Space{
		list("similar names", fmt.Sprintf("%d pairs of names that differ in little or not at all, in both orders, in %d places and %d pairs of declarations × %d uses", len(similar), len(places), len(decls), len(uses)), j, func(_ bool, emit func(string)) {
			for _, s := range similar {
				for k := 0; k < 2; k++ {
					put := func(t string) {
						emit(strings.Replace(strings.Replace(t, "\x01", s[k], -1), "\x02", s[1-k], -1))
					}
					for _, p := range places {
						put(p)
					}
					for _, d := range decls {
						for _, u := range uses {
							put("<!DOCTYPE r [" + d + "]>" + u)
						}
					}
				}
			}
		}),
	}
}
