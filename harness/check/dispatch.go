package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

// Dispatch: which handlers of sax.SAX2 are called, and with what

var saxType = reflect.TypeOf(sax.SAX2{})

// eventNames are the names of the methods of the SAX2 interface for which
// there is a field to set
func eventNames() []string {
	var names []string
	it := reflect.TypeOf((*sax.SAX2Handler)(nil)).Elem()
	for i := 0; i < it.NumMethod(); i++ {
		names = append(names, it.Method(i).Name)
	}
	sort.Strings(names)
	return names
}

var fakeError = errors.New("the error of a handler")

var callErrors = map[string]error{"end": io.EOF, "unspecified": sax.ErrHandlerUnspecified}

// fakeValue is a value of a type that is told from others by n
func fakeValue(t reflect.Type, n int) reflect.Value {
	s := "value " + strconv.Itoa(n)
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Int:
		v.SetInt(int64(n + 100))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(s))
			return v
		}
		for i := 0; i < 2; i++ {
			v.Set(reflect.Append(v, fakeValue(t.Elem(), 10*n+i)))
		}
	case reflect.Interface:
		for _, x := range []interface{}{fakeError, fakeEntity{s}, fakeAttribute{s}, s} {
			if xt := reflect.TypeOf(x); xt.Implements(t) && (t.NumMethod() > 0 || xt.Kind() == reflect.String) {
				v.Set(reflect.ValueOf(x))
				break
			}
		}
	}
	return v
}

type fakeEntity struct{ s string }

func (e fakeEntity) Name() string    { return e.s }
func (e fakeEntity) SetOrig(string)  {}
func (e fakeEntity) EntityType() int { return 1 }
func (e fakeEntity) Content() []byte { return []byte(e.s) }
func (e fakeEntity) Checked() bool   { return false }
func (e fakeEntity) MarkChecked()    {}

type fakeAttribute struct{ s string }

func (e fakeAttribute) Name() string      { return e.s }
func (e fakeAttribute) LocalName() string { return e.s }
func (e fakeAttribute) Prefix() string    { return e.s }
func (e fakeAttribute) URI() string       { return e.s }
func (e fakeAttribute) Value() string     { return e.s }
func (e fakeAttribute) IsDefault() bool   { return true }

func describeValues(l []reflect.Value) string {
	s := ""
	for _, v := range l {
		s += fmt.Sprintf("%T(%v) ", v.Interface(), v.Interface())
	}
	return s
}

// judgeCall: the key is the handlers that are set, the method that is called
// and whether handlers return an error
func judgeCall(c *counter, key string) string {
	f := strings.Split(key, "|")
	set, method, fails := f[0], f[1], f[2] != "none" && f[2] != "zero"
	c.Traces++
	c.Evals++
	s := sax.New()
	isSet := false
	var called []string
	var got []reflect.Value
	var returned []reflect.Value
	for _, name := range strings.Fields(set) {
		name := name
		fv := reflect.ValueOf(s).Elem().FieldByName(name + "Handler")
		if !fv.IsValid() {
			return "there is no " + name + "Handler"
		}
		ft := fv.Type()
		isSet = isSet || name == method
		fv.Set(reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			called = append(called, name)
			got = args
			returned = nil
			for i := 0; i < ft.NumOut(); i++ {
				if i == ft.NumOut()-1 && !fails {
					returned = append(returned, reflect.Zero(ft.Out(i)))
				} else if err, ok := callErrors[f[2]]; ok && i == ft.NumOut()-1 {
					returned = append(returned, reflect.ValueOf(&err).Elem())
				} else {
					returned = append(returned, fakeValue(ft.Out(i), 7+i))
				}
			}
			return returned
		}))
	}
	var results []reflect.Value
	var args []reflect.Value
	for _, by := range []reflect.Value{reflect.ValueOf(s), reflect.ValueOf(*s)} {
		called, got, returned = nil, nil, nil
		m := by.MethodByName(method)
		mt := m.Type()
		args = nil
		for i := 0; i < mt.NumIn(); i++ {
			if f[2] == "zero" {
				args = append(args, reflect.Zero(mt.In(i)))
				continue
			}
			args = append(args, fakeValue(mt.In(i), i+1))
		}
		if p := guard(func() {
			if mt.IsVariadic() {
				results = m.CallSlice(args)
			} else {
				results = m.Call(args)
			}
		}); p != "" {
			return p
		}
		err, _ := results[len(results)-1].Interface().(error)
		if !isSet {
			if len(called) > 0 {
				return "called " + strings.Join(called, ", ")
			}
			if err != sax.ErrHandlerUnspecified {
				return fmt.Sprintf("no handler, and the error is %v", err)
			}
			continue
		}
		if len(called) != 1 || called[0] != method {
			return "called " + strings.Join(called, ", ")
		}
		if g, w := describeValues(got), describeValues(args); g != w {
			return "arguments are " + g + ", expected " + w
		}
		if g, w := describeValues(results), describeValues(returned); g != w {
			return "results are " + g + ", expected " + w
		}
	}
	c.outcome(method + " " + describeValues(args) + f[2] + fmt.Sprint(isSet))
	return ""
}

var dispatchDocs = []string{
	`<r/>`,
	`<?xml version="1.0" standalone="yes"?><!--c--><?p d?><r a="b"> x <![CDATA[y]]><s><!--d--><?q?></s></r><!--e-->`,
	`<!DOCTYPE r SYSTEM "s" [<!ELEMENT r (a,b)*><!ATTLIST r a CDATA "d" b (x|y) #IMPLIED><!ENTITY e "v"><!ENTITY f PUBLIC "p" "s"><!NOTATION n SYSTEM "s"><!ENTITY u SYSTEM "s" NDATA n><?p d?><!--c-->]><r xmlns="u" xmlns:p="v" p:a="1" b="x"><p:q/>&#65;&lt;</r>`,
	`<!DOCTYPE r [<!ENTITY % p "<!ENTITY e 'v'>">%p;]><r>x</r>`,
	`<r><a></r>`,
	`<r>&u;</r>`,
	"<r>\r\nx\r\n </r>\n",
	`<!DOCTYPE r [<!ELEMENT r (a)>]><r> <a/> </r>`,
}

// describeArg is what an argument of a handler says
func describeArg(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return strconv.Quote(string(x))
	case []sax.Namespace:
		s := "["
		for _, n := range x {
			s += fmt.Sprintf("%q=%q ", n.Prefix(), n.URI())
		}
		return s + "]"
	case []sax.Attribute:
		s := "["
		for _, a := range x {
			s += fmt.Sprintf("%q=%q,%v ", a.Name(), a.Value(), a.IsDefault())
		}
		return s + "]"
	case string, int:
		return fmt.Sprintf("%q", fmt.Sprint(x))
	}
	return "."
}

func saxField(name string) reflect.Type {
	f, _ := saxType.FieldByName(name + "Handler")
	return f.Type
}

// saxOf is a SAX2 with handlers that keep a log of their calls
func saxOf(names []string, log *view) *sax.SAX2 {
	s := sax.New()
	for _, name := range names {
		name := name
		fv := reflect.ValueOf(s).Elem().FieldByName(name + "Handler")
		ft := fv.Type()
		fv.Set(reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			line := name
			for _, a := range args[1:] {
				line += " " + describeArg(a.Interface())
			}
			if k := len(*log); name == "Characters" && k > 0 && strings.HasPrefix((*log)[k-1], "Characters ") {
				a, _ := strconv.Unquote((*log)[k-1][len("Characters "):])
				(*log)[k-1] = "Characters " + strconv.Quote(a+string(args[1].Bytes()))
			} else {
				*log = append(*log, line)
			}
			var out []reflect.Value
			for i := 0; i < ft.NumOut(); i++ {
				out = append(out, reflect.Zero(ft.Out(i)))
			}
			if ft.NumOut() > 1 {
				out[1] = reflect.ValueOf(&sax.ErrHandlerUnspecified).Elem()
			}
			return out
		}))
	}
	return s
}

func mergeCharacters(v view) view {
	var out view
	for _, l := range v {
		if k := len(out); k > 0 && strings.HasPrefix(l, "Characters ") && strings.HasPrefix(out[k-1], "Characters ") {
			a, _ := strconv.Unquote(out[k-1][len("Characters "):])
			b, _ := strconv.Unquote(l[len("Characters "):])
			out[k-1] = "Characters " + strconv.Quote(a+b)
			continue
		}
		out = append(out, l)
	}
	return out
}

// judgeSubset: the handlers that are set see what they see if all are set.
// The key is the handlers and a document
func judgeSubset(c *counter, key string) string {
	i := strings.IndexByte(key, '|')
	doc := key[i+1:]
	var all view
	c.Evals++
	return subset(c, strings.Fields(key[:i]), doc, parseSAX(saxOf(eventNames(), &all), []byte(doc)), &all)
}

func subset(c *counter, names []string, doc string, p parsed, log *view) string {
	all := *log
	c.Traces++
	c.Evals++
	var some view
	q := parseSAX(saxOf(names, &some), []byte(doc))
	if p.panic != "" || q.panic != "" {
		return p.panic + q.panic
	}
	if fmt.Sprint(p.err) != fmt.Sprint(q.err) {
		return fmt.Sprintf("Parse returns %v, with all handlers %v", q.err, p.err)
	}
	var want view
	for _, l := range all {
		for _, n := range names {
			if l == n || strings.HasPrefix(l, n+" ") {
				want = append(want, l)
			}
		}
	}
	if s := diff(mergeCharacters(some), mergeCharacters(want)); s != "" {
		return s
	}
	c.outcome(strings.Join(want, "\n"))

	// and the same as a handler of another type
	if len(names) == len(eventNames()) {
		h := &recorder{noValues: true}
		c.Evals++
		r := parseSAX(h, []byte(doc))
		if fmt.Sprint(r.err) != fmt.Sprint(q.err) {
			return fmt.Sprintf("Parse returns %v, with another handler %v", q.err, r.err)
		}
		n, m := map[string]int{}, map[string]int{}
		for _, l := range some {
			n[strings.Fields(l)[0]]++
		}
		for k, l := range h.names {
			if l != "Characters" || k == 0 || h.names[k-1] != l {
				m[l]++
			}
		}
		for _, e := range names {
			if saxField(e).NumOut() == 1 && n[e] != m[e] {
				return fmt.Sprintf("%d calls of %s, %d with another handler", n[e], e, m[e])
			}
		}
	}
	return ""
}

// judgeSingles: every handler on its own, some with all but it, and all of them
func judgeSingles(c *counter, doc string) string {
	names := eventNames()
	var all view
	c.Evals++
	p := parseSAX(saxOf(names, &all), []byte(doc))
	for i, n := range names {
		rest := append(append([]string{}, names[:i]...), names[i+1:]...)
		sets := [][]string{{n}}
		if i%5 == len(doc)%5 {
			sets = append(sets, rest)
		}
		if i == 0 {
			sets = append(sets, names)
		}
		for _, set := range sets {
			if s := subset(c, set, doc, p, &all); s != "" {
				return "handlers " + strings.Join(set, " ") + ": " + s
			}
		}
	}
	return ""
}

func dispatchSpaces(n int, docs []string) []*Space {
	names := eventNames()
	// subsets of at most n names, and their complements
	subsets := func(emit func(string)) {
		var rec func(from int, s []string)
		rec = func(from int, s []string) {
			emit(strings.Join(s, " "))
			in := " " + strings.Join(s, " ") + " "
			var rest []string
			for _, x := range names {
				if !strings.Contains(in, " "+x+" ") {
					rest = append(rest, x)
				}
			}
			emit(strings.Join(rest, " "))
			if len(s) == n {
				return
			}
			for i := from; i < len(names); i++ {
				rec(i+1, append(s[:len(s):len(s)], names[i]))
			}
		}
		rec(0, nil)
	}
	return []*Space{
		list("calls", fmt.Sprintf("every set of at most %d handlers, and all but them, × every method, with and without errors of three kinds, and with zero values as arguments", n), judgeCall, func(_ bool, emit func(string)) {
			subsets(func(s string) {
				for _, m := range names {
					emit(s + "|" + m + "|none")
					emit(s + "|" + m + "|error")
					emit(s + "|" + m + "|end")
					emit(s + "|" + m + "|unspecified")
					emit(s + "|" + m + "|zero")
				}
			})
		}),
		list("parses", fmt.Sprintf("every set of at most %d handlers, and all but them, × %d documents", n, len(docs)), judgeSubset, func(_ bool, emit func(string)) {
			subsets(func(s string) {
				for _, d := range docs {
					emit(s + "|" + d)
				}
			})
		}),
	}
}

// ---- options ----

var parseOptions = map[string]helium.ParseOption{
	"ParseRecover": helium.ParseRecover, "ParseNoEnt": helium.ParseNoEnt, "ParseDTDLoad": helium.ParseDTDLoad, "ParseDTDAttr": helium.ParseDTDAttr, "ParseDTDValid": helium.ParseDTDValid, "ParseNoError": helium.ParseNoError, "ParseNoWarning": helium.ParseNoWarning, "ParsePedantic": helium.ParsePedantic, "ParseNoBlanks": helium.ParseNoBlanks, "ParseXInclude": helium.ParseXInclude, "ParseNoNet": helium.ParseNoNet, "ParseNoDict": helium.ParseNoDict, "ParseNsClean": helium.ParseNsClean, "ParseNoCDATA": helium.ParseNoCDATA, "ParseNoXIncNode": helium.ParseNoXIncNode, "ParseCompact": helium.ParseCompact, "ParseNoBaseFix": helium.ParseNoBaseFix, "ParseHuge": helium.ParseHuge, "ParseIgnoreEnc": helium.ParseIgnoreEnc, "ParseBigLines": helium.ParseBigLines,
}

var subsetOptions = map[string]helium.LoadSubsetOption{"DetectIDs": helium.DetectIDs, "CompleteAttrs": helium.CompleteAttrs, "SkipIDs": helium.SkipIDs}

func optionNames() (parse, subset []string) {
	for n := range parseOptions {
		parse = append(parse, n)
	}
	for n := range subsetOptions {
		subset = append(subset, n)
	}
	sort.Strings(parse)
	sort.Strings(subset)
	return parse, subset
}

// judgeOptions: the key is a set of options as bits, in hexadecimal; each bit
// group of 256 sets is one item
func judgeOptions(c *counter, key string) string {
	parse, _ := optionNames()
	from, _ := strconv.ParseUint(key, 16, 64)
	for set := from << 8; set < (from+1)<<8; set++ {
		c.Evals++
		for _, backward := range []bool{false, true} {
			var o helium.ParseOption
			for i := range parse {
				k := i
				if backward {
					k = len(parse) - 1 - i
				}
				if set&(1<<uint(k)) != 0 {
					o.Set(parseOptions[parse[k]])
				}
			}
			for k, n := range parse {
				if o.IsSet(parseOptions[n]) != (set&(1<<uint(k)) != 0) {
					return fmt.Sprintf("after setting %x, %s is %v", set, n, o.IsSet(parseOptions[n]))
				}
			}
		}
	}
	c.Traces++
	return ""
}

// judgeOptionSequence: the key is a sequence of names
func judgeOptionSequence(c *counter, key string) string {
	c.Traces++
	c.Evals++
	var o helium.ParseOption
	var l helium.LoadSubsetOption
	set := map[string]bool{}
	for _, n := range strings.Fields(key) {
		set[n] = true
		if x, ok := parseOptions[n]; ok {
			o.Set(x)
		} else {
			l.Set(subsetOptions[n])
		}
		for n, x := range parseOptions {
			if o.IsSet(x) != set[n] {
				return fmt.Sprintf("%s is %v", n, o.IsSet(x))
			}
		}
		for n, x := range subsetOptions {
			if l.IsSet(x) != set[n] {
				return fmt.Sprintf("%s is %v", n, l.IsSet(x))
			}
		}
	}
	c.outcome(fmt.Sprint(o, l))
	return ""
}

func optionSpaces() []*Space {
	parse, subset := optionNames()
	return []*Space{
		list("sets of options", fmt.Sprintf("all 2^%d sets of parse options, set in two orders, by 256", len(parse)), judgeOptions, func(_ bool, emit func(string)) {
			for i := 0; i < 1<<uint(len(parse)-8); i++ {
				emit(strconv.FormatUint(uint64(i), 16))
			}
		}),
		list("sequences of options", "all sequences of 3 options of both kinds", judgeOptionSequence, func(_ bool, emit func(string)) {
			all := append(append([]string{}, parse...), subset...)
			for _, a := range all {
				for _, b := range all {
					for _, d := range all {
						emit(a + " " + b + " " + d)
					}
				}
			}
		}),
	}
}

func init() {
	register(&Property{ID: "C21", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return append(dispatchSpaces(4, append(append([]string{}, dispatchDocs...), seeds...)), faultSpaces(medium, judgeSingles)...)
		}
		return append(dispatchSpaces(3, append(append([]string{}, dispatchDocs...), seeds...)), faultSpaces(small, judgeSingles)...)
	}})
	register(&Property{ID: "C22", Level: "model_checking", Spaces: func(bool) []*Space { return optionSpaces() }})
}
