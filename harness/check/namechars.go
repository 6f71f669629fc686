package main

import (
	"fmt"
	"strings"
)

// Characters of names: alone, as the first and as another, and by 64 in every
// place that has a name

func nameCharSpaces(z size, j judge) []*Space {
	long := []string{"<a%/>", "<a%>t</a%>", "<r a%='v'/>", "<p%:a% xmlns:p%='u' p%:b%='v'/>", "<?p% d?><r/>", "<r><?p%?></r>", "<!DOCTYPE r% [<!ELEMENT r% (a%|b%)>]><r%/>", "<!DOCTYPE r [<!ATTLIST e% a% CDATA 'v'>]><e%/>", "<!DOCTYPE r [<!ATTLIST r a (x%|%) '%'>]><r a='%'/>", "<!DOCTYPE r [<!ATTLIST r a NMTOKENS '% %'>]><r a=' %  % '/>", "<!DOCTYPE r [<!ENTITY e% 'v'>]><r b='&e%;'>&e%;</r>", "<!DOCTYPE r [<!ENTITY e '&e%;'><!ENTITY e% 'v'>]><r>&e;</r>", "<!DOCTYPE r [<!NOTATION n% SYSTEM 's'><!ATTLIST r a NOTATION (n%) #IMPLIED>]><r/>", "<!DOCTYPE r [<!ELEMENT r (#PCDATA|a%|p:b%)*>]><r/>"}
	each := func(emit func(c int)) {
		for c := 0x80; c < 0x10000; c++ {
			if z == small && c > 0x3100 && c%16 != 0 && c%16 != 15 {
				continue
			}
			if c < 0xD800 || c > 0xDFFF {
				emit(c)
			}
		}
		for p := 1; p <= 16; p++ {
			for _, k := range []int{0, 1, 0x8000, 0xFFFC, 0xFFFE, 0xFFFF} {
				emit(p<<16 + k)
			}
		}
	}
	return []*Space{list("characters of names", "characters beyond ASCII (all of the BMP, or the first and last of every 16 beyond U+3100, and the limits of the planes) as the first and as another character of an element, a prefix and a local name; 64 in "+itoa(len(long))+" places", j, func(_ bool, emit func(string)) {
		each(func(c int) {
			for _, f := range []string{"<%c/>", "<a%c/>", "<p:%c xmlns:p='u'/>", "<r p%c:a='' xmlns:p%[1]c='u'/>", "<!DOCTYPE r [<!ATTLIST r a (%c) #IMPLIED>]><r/>", "<!DOCTYPE r [<!ENTITY %c 'v'>]><r>&%[1]c;</r>"} {
				emit(fmt.Sprintf(f, c))
			}
		})
		for c := 0x80; c < 0xF0000; c += 64 {
			if z == small && c > 0x11000 && c%4096 != 0 && c%4096 != 4032 {
				continue
			}
			s := ""
			for k := c; k < c+64; k++ {
				if isNameChar(rune(k)) {
					s += string(rune(k))
				}
			}
			if s == "" {
				continue
			}
			for _, f := range long {
				emit(strings.Replace(f, "%", s, -1))
			}
		}
	})}
}

func isNameChar(c rune) bool {
	for _, r := range [][2]rune{{0xB7, 0xB7}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x203F, 0x2040}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFC}, {0x10000, 0xEFFFF}} {
		if r[0] <= c && c <= r[1] {
			return true
		}
	}
	return false
}
