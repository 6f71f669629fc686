package main

import (
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium/internal/zzverif/ref"
)

// Spaces of documents

// tokens is the space of all sequences of tokens, up to a depth, between a
// fixed start and each of a few ends. What the reference model says cannot be
// the start of a well-formed document is extended by at most extra tokens.
type tokens struct {
	name     string
	init     string
	alphabet []string
	suffixes []string // "...AUTO": then the end tags of the open elements
	depth    int
	extra    int
}

func alphabet(s string) []string { return strings.Fields(s) }

func (t tokens) space(judge func(c *counter, key string) string) *Space {
	s := &Space{Name: t.name, Judge: judge}
	s.Bound = "all sequences of at most " + itoa(t.depth) + " of " + itoa(len(t.alphabet)) + " tokens; " + itoa(t.extra) + " beyond the first that cannot be part of a document; " + itoa(len(t.suffixes)) + " ends"
	s.Enum = func(e *enum) {
		seen := map[string]bool{}
		t.walk(e, t.init, 0, 0, seen)
	}
	return s
}

func (t tokens) walk(e *enum, text string, depth, dead int, seen map[string]bool) {
	if e.stopped {
		return
	}
	if depth <= 2 && seen[text] {
		return // the same text made of other tokens
	}
	r := ref.Parse(text)
	own := depth >= 2 || e.shard == 0
	if depth <= 2 {
		seen[text] = true
	}
	if depth == 2 || depth == t.depth && depth < 2 {
		own = e.mine()
	}
	if own {
		e.c.States++
		if depth > 0 {
			e.c.Transitions++
		}
		for _, suf := range t.suffixes {
			if strings.HasSuffix(suf, "AUTO") {
				d := r.Doc
				suf = suf[:len(suf)-4]
				if suf != "" {
					d = ref.Parse(text + suf).Doc
				}
				if d == nil {
					continue
				}
				end := closers(d)
				if end == "" {
					continue
				}
				suf += end
			}
			if !e.visit(text + suf) {
				return
			}
		}
	}
	if depth == 2 && !own || depth == t.depth {
		return
	}
	if r.V == ref.Malformed && r.Pos+10 <= utf8.RuneCountInString(text) {
		if dead >= t.extra {
			return
		}
		dead++
	}
	for _, tok := range t.alphabet {
		t.walk(e, text+tok, depth+1, dead, seen)
	}
}

func closers(d *ref.Doc) string {
	s := ""
	for i := len(d.Open) - 1; i >= 0; i-- {
		s += "</" + d.Open[i] + ">"
	}
	return s
}

func itoa(n int) string {
	s := ""
	if n == 0 {
		return "0"
	}
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// list is the space of the documents that gen emits
func list(name, bound string, judge func(c *counter, key string) string, gen func(thorough bool, emit func(string))) *Space {
	s := &Space{Name: name, Bound: bound, Judge: judge}
	s.Enum = func(e *enum) {
		seen := map[string]bool{}
		stop := struct{}{}
		defer func() {
			if r := recover(); r != nil && r != stop {
				panic(r)
			}
		}()
		gen(e.thorough, func(doc string) {
			if seen[doc] {
				return
			}
			seen[doc] = true
			if !e.mine() {
				return
			}
			e.c.States++
			e.c.Transitions++
			if !e.visit(doc) {
				panic(stop)
			}
		})
	}
	return s
}

// edits is the space of the documents that are one edit away from the seeds
// (two, if pairs): every truncation, and every deletion, insertion and
// replacement of a character
func edits(name string, seeds []string, inserts []string, judge func(c *counter, key string) string, pairs int) *Space {
	bound := "all truncations, and all deletions, insertions and replacements of a character by " + itoa(len(inserts)) + " strings, in " + itoa(len(seeds)) + " documents"
	if pairs > 0 {
		bound += "; all pairs of edits in those of at most " + itoa(pairs) + " characters"
	}
	return list(name, bound, judge, func(th bool, emit func(string)) {
		for _, d := range seeds {
			emit(d)
		}
		for _, d := range seeds {
			one(d, 0, inserts, func(x string, at int) {
				emit(x)
				if len(d) <= pairs {
					one(x, at, inserts, func(y string, _ int) { emit(y) })
				}
			})
		}
	})
}

// one emits all edits at or after a position
func one(d string, from int, inserts []string, emit func(x string, at int)) {
	for i := from; i <= len(d); i++ {
		if i < len(d) && !utf8.RuneStart(d[i]) {
			continue
		}
		emit(d[:i], i)
		for _, s := range inserts {
			emit(d[:i]+s+d[i:], i)
		}
		if i == len(d) {
			break
		}
		_, w := utf8.DecodeRuneInString(d[i:])
		emit(d[:i]+d[i+w:], i)
		for _, s := range inserts {
			if s != d[i:i+w] {
				emit(d[:i]+s+d[i+w:], i)
			}
		}
	}
}

// product emits all concatenations of one string of every list
func product(lists [][]string, emit func(string)) {
	var rec func(i int, s string)
	rec = func(i int, s string) {
		if i == len(lists) {
			emit(s)
			return
		}
		for _, x := range lists[i] {
			rec(i+1, s+x)
		}
	}
	rec(0, "")
}
