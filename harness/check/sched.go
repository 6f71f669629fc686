package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/encoding"
	"github.com/lestrrat-go/helium/internal/zzverif/hook"
)

// Schedules: two tasks that share what may be shared, in every interleaving of
// their statements up to a number of preemptions, under a scheduler that lets
// one of them run at a time; and the same tasks at the same time, under the
// race detector

// env is what the tasks of a run share
type env struct {
	parser *helium.Parser
	doc    *helium.Document
}

const sharedDoc = `<?xml version="1.0" encoding="iso-8859-1"?><!DOCTYPE r [<!ENTITY e "<b>v</b>"><!ENTITY h '&#37;"k'><!ATTLIST r d CDATA "w" o (x|y) #IMPLIED><!ELEMENT r ANY><!ELEMENT q (x,(y|z)*)>]><r xmlns:p="u" p:a="&e;&lt;">x&amp;<p:c/>&e;<!--y--><?z w?></r>`

func newEnv(names ...string) *env {
	if !strings.Contains(strings.Join(names, ""), " shared") {
		return &env{parser: helium.NewParser()}
	}
	doc, err := helium.NewParser().Parse([]byte(sharedDoc))
	if err != nil {
		doc, _ = helium.NewParser().Parse([]byte("<r>x</r>"))
	}
	return &env{parser: helium.NewParser(), doc: doc}
}

// a job does something and returns how to see its result
type job func(e *env) func() string

func parseJob(doc string, shared bool) job {
	return func(e *env) func() string {
		p := e.parser
		if !shared {
			p = helium.NewParser()
		}
		d, err := p.Parse([]byte(doc))
		return func() string { return resultOf(d, err) }
	}
}

func text(s string) func() string { return func() string { return s } }

var jobs = map[string]job{
	"parse element":     parseJob(`<r/>`, false),
	"parse text":        parseJob(`<a>x</a>`, false),
	"parse attribute":   parseJob(`<a b="c"/>`, false),
	"parse namespaces":  parseJob(`<p:r xmlns:p="u" xmlns="v" p:a="1"><e xmlns="w"/></p:r>`, false),
	"parse rest":        parseJob("<r><![CDATA[x]]>é<!--c--><?p d?>&lt;&#65;&amp;\r\n</r>", false),
	"parse entities":    parseJob(`<!DOCTYPE r [<!ENTITY e "<b>&f;</b>"><!ENTITY f "w">]><r a="&f;">&e;&e;</r>`, false),
	"parse lists":       parseJob(`<!DOCTYPE r [<!ATTLIST r a CDATA "d" i NMTOKENS " x  y " b (x|y) "x"><!ELEMENT r (a,(b|c)*)>]><r i=" 1  2 "/>`, false),
	"parse other":       parseJob("<?xml version='1.1' standalone='yes'?><q:s xmlns:q='n' k='&#x42;'><![CDATA[longer section]]>ü<!--other comment--><?target data?>&gt;&#66;\r\n</q:s>", false),
	"parse koi8r":       parseJob(`<?xml version="1.0" encoding="koi8-r"?><t>`+"\xc1\xc2"+`</t>`, false),
	"parse other lists": parseJob(`<!DOCTYPE s [<!ATTLIST s a ID #IMPLIED h IDREFS "  k  l  " g NOTATION (m|n|o) "m"><!ENTITY % p 'q%r"'><!ELEMENT s (#PCDATA|k|l)*><!ENTITY f '&#37;"'>]><s h=" 3   4 " a="&f;"/>`, false),
	"parse external":    parseJob(`<!DOCTYPE r PUBLIC "p" "s" [<!NOTATION n SYSTEM "s"><!ENTITY u SYSTEM "s" NDATA n>]><r/>`, false),
	"parse iso-8859-1":  parseJob(`<?xml version="1.0" encoding="iso-8859-1"?><r>`+"\xe9"+`</r>`, false),
	"parse error":       parseJob(`<r><a b="c"></r>`, false),
	"parse loop":        parseJob(`<!DOCTYPE r [<!ENTITY e "&e;">]><r>&e;</r>`, false),
	"share text":        parseJob(`<a>x</a>`, true),
	"share namespaces":  parseJob(`<p:r xmlns:p="u" xmlns="v" p:a="1"><e xmlns="w"/></p:r>`, true),
	"share entities":    parseJob(`<!DOCTYPE r [<!ENTITY e "<b>&f;</b>"><!ENTITY f "w">]><r a="&f;">&e;</r>`, true),
	"share error":       parseJob(`<p:r/>`, true),
	"SAX": func(e *env) func() string {
		h := &recorder{}
		p := helium.NewParser()
		p.SetSAXHandler(h)
		_, err := p.Parse([]byte(`<!DOCTYPE r [<!ATTLIST r a CDATA "d">]><r b="c">x<![CDATA[y]]><?p d?></r>`))
		return func() string { return fmt.Sprint(err, "\n", strings.Join(h.v, "\n")) }
	},
	"package Parse": func(e *env) func() string {
		d, err := helium.Parse([]byte(`<a b="&gt;">&quot;x</a>`))
		return func() string { return resultOf(d, err) }
	},
	"write shared": func(e *env) func() string {
		s, err := e.doc.XMLString()
		return text(fmt.Sprint(s, err))
	},
	"write own": func(e *env) func() string {
		d := helium.NewDocument("1.0", "shift_jis", helium.StandaloneImplicitNo)
		r, _ := d.CreateElement("r")
		d.AddChild(r)
		r.SetAttribute("a", "b&lt;\"'")
		r.SetNamespace("p", "u")
		r.AddContent([]byte("x<\u65e5é"))
		s, err := d.XMLString()
		return text(fmt.Sprint(s, err))
	},
	"write declarations": func(e *env) func() string {
		d := helium.CreateDocument()
		dtd, err := d.CreateInternalSubset("s", "pub", "sys")
		s := fmt.Sprint(err)
		for _, v := range []string{"a%b\"c", "plain", "it's \"both\"", "%"} {
			_, err = dtd.AddEntity("e"+itoa(len(v)), helium.InternalGeneralEntity, "", "", v)
			s += fmt.Sprint(err)
		}
		_, err = dtd.AddEntity("p", helium.InternalParameterEntity, "", "", "x%y\"")
		s += fmt.Sprint(err)
		_, err = dtd.AddEntity("u", helium.ExternalGeneralParsedEntity, "pu", "su", "")
		s += fmt.Sprint(err)
		w, err := d.XMLString()
		return text(s + w + fmt.Sprint(err))
	},
	"walk shared": func(e *env) func() string {
		var b bytes.Buffer
		err := helium.Walk(e.doc, func(n helium.Node) error {
			fmt.Fprintf(&b, "%s %s %q\n", n.Type(), n.Name(), n.Content())
			return nil
		})
		return text(b.String() + fmt.Sprint(err))
	},
	"look up shared": func(e *env) func() string {
		s := ""
		if x, ok := e.doc.GetEntity("e"); ok {
			s += x.Name() + string(x.Content())
		}
		if x, ok := e.doc.GetEntity("f"); ok {
			s += x.Name()
		}
		m, err := e.doc.IsMixedElement("r")
		s += fmt.Sprint(m, err, e.doc.Encoding(), e.doc.Version())
		if r, ok := e.doc.FirstChild().NextSibling().(*helium.Element); ok {
			for _, a := range r.Attributes() {
				s += a.Name() + "=" + a.Value() + ";"
			}
			x, err := r.XMLString()
			s += x + fmt.Sprint(err)
		}
		return text(s)
	},
	"build": func(e *env) func() string {
		d := helium.CreateDocument()
		dtd, err := d.CreateInternalSubset("r", "", "s")
		s := fmt.Sprint(err)
		if dtd != nil {
			_, err = dtd.AddEntity("e", helium.InternalGeneralEntity, "", "", "v")
			s += fmt.Sprint(err)
		}
		r, _ := d.CreateElement("r")
		s += fmt.Sprint(d.AddChild(r))
		ref, err := d.CreateReference("e")
		s += fmt.Sprint(err)
		if err == nil {
			s += fmt.Sprint(r.AddChild(ref))
		}
		ref, err = d.CreateReference("lt")
		if err == nil {
			s += fmt.Sprint(r.AddChild(ref))
		}
		return func() string { return s + resultOf(d, nil) }
	},
	"load": func(e *env) func() string {
		s := ""
		for _, n := range []string{"shift_jis", "UTF-8", "koi8r", "none"} {
			s += fmt.Sprint(encoding.Load(n)) + ";"
		}
		return text(s)
	},
}

func jobNames() []string {
	m := map[string]bool{}
	for n := range jobs {
		m[n] = true
	}
	return keys(m)
}

// ---- scheduler ----

type scheduled struct {
	wake   [2]chan struct{}
	done   [2]bool
	cur    int
	points uint64
	at     []uint64 // points at which the other task goes on
	next   int
	stuck  chan struct{} // closed if the task that should run does not
	free   int32
	own    [2]uint64 // points of each
}

var theRun *scheduled

var progress uint64 // of monitor

// point is called before every statement
func (s *scheduled) point() {
	if atomic.LoadInt32(&s.free) != 0 {
		return
	}
	s.points++
	s.own[s.cur]++
	atomic.AddUint64(&progress, 1)
	if s.next < len(s.at) && s.points == s.at[s.next] {
		s.next++
		me := s.cur
		if s.done[1-me] {
			return
		}
		s.cur = 1 - me
		s.wake[1-me] <- struct{}{}
		s.wait(me)
	}
}

func (s *scheduled) wait(me int) {
	select {
	case <-s.wake[me]:
	case <-s.stuck:
	}
}

func (s *scheduled) finish(me int) {
	s.done[me] = true
	if atomic.LoadInt32(&s.free) != 0 || s.done[1-me] {
		return
	}
	s.cur = 1 - me
	s.wake[1-me] <- struct{}{}
}

// monitor frees the tasks of a run in which the one that should go on waits
// for something that the other one has to do
func monitor() {
	last, same := uint64(0), 0
	for {
		time.Sleep(20 * time.Millisecond)
		n := atomic.LoadUint64(&progress)
		if n != last {
			last, same = n, 0
			continue
		}
		if same++; same > 5 {
			monitorLock.Lock()
			if s := theRun; s != nil && atomic.CompareAndSwapInt32(&s.free, 0, 1) {
				close(s.stuck)
			}
			monitorLock.Unlock()
			same = 0
		}
	}
}

var monitorLock sync.Mutex
var monitorOnce sync.Once

// runJobs runs two jobs: first starts, and at every point of the schedule the
// other one goes on
func runJobs(names [2]string, first int, at []uint64) (results [2]string, s *scheduled) {
	monitorOnce.Do(func() { go monitor() })
	e := newEnv()
	s = &scheduled{at: at, cur: first, stuck: make(chan struct{})}
	s.wake = [2]chan struct{}{make(chan struct{}, 1), make(chan struct{}, 1)}
	var views [2]func() string
	var wg sync.WaitGroup
	wg.Add(2)
	hook.Steps, hook.Limit = 0, stepLimit
	for i := 0; i < 2; i++ {
		go func(i int) {
			defer wg.Done()
			s.wait(i)
			defer s.finish(i)
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprintf("panic: %v at %s", r, where())
					views[i] = func() string { return msg }
				}
			}()
			views[i] = jobs[names[i]](e)
		}(i)
	}
	monitorLock.Lock()
	theRun = s
	monitorLock.Unlock()
	hook.OnPoint = s.point
	s.wake[first] <- struct{}{}
	wg.Wait()
	hook.OnPoint = nil
	monitorLock.Lock()
	theRun = nil
	monitorLock.Unlock()
	hook.Limit = ^uint64(0)
	for i := range views {
		if views[i] == nil {
			results[i] = "no result"
			continue
		}
		if p := guard(func() { results[i] = views[i]() }); p != "" {
			results[i] = p
		}
	}
	return results, s
}

// judgeSchedules: the key is two jobs, the one that starts, and the point of
// the first preemption; deep: and all points of a second one
func judgeSchedules(deep bool) judge {
	type solo struct {
		results [2]string
		points  [2]uint64
	}
	solos := map[string]solo{}
	return func(c *counter, key string) string {
		var names [2]string
		var first int
		var p uint64
		f := strings.Split(key, "|")
		names[0], names[1] = f[0], f[1]
		fmt.Sscan(f[2], &first)
		fmt.Sscan(f[3], &p)
		id := f[0] + "|" + f[1]
		base, ok := solos[id]
		if !ok {
			// one after the other, in both orders
			r, s := runJobs(names, 0, nil)
			q, _ := runJobs(names, 1, nil)
			if r != q {
				return fmt.Sprintf("in one order the results are %q, in the other %q", r, q)
			}
			base = solo{r, s.own}
			solos[id] = base
		}
		check := func(at ...uint64) (string, *scheduled) {
			c.Evals++
			c.Transitions++
			r, s := runJobs(names, first, at)
			for i := range r {
				if r[i] != base.results[i] {
					return fmt.Sprintf("%q gives %q, but %q alone (%d starts, switches at %v)", names[i], short(r[i]), short(base.results[i]), first, at), s
				}
			}
			return "", s
		}
		c.Traces++
		if p == 0 {
			c.outcome(base.results[0] + base.results[1])
			msg, _ := check()
			return msg
		}
		if p > base.points[first] {
			return ""
		}
		msg, s := check(p)
		if msg != "" || !deep {
			return msg
		}
		for q := p + 1; q < p+base.points[1-first] && q < s.points; q++ {
			if msg, _ := check(p, q); msg != "" {
				return msg
			}
		}
		return predefined()
	}
}

// points is how many statements a job has, alone
func points(name string) uint64 {
	_, s := runJobs([2]string{name, "load"}, 0, nil)
	return s.own[0]
}

func scheduleSpaces(z size) []*Space {
	gen := func(names []string) func(e *enum) {
		return func(e *enum) {
			lengths := map[string]uint64{}
			for _, n := range names {
				lengths[n] = points(n)
			}
			for i, a := range names {
				for _, b := range names[i:] {
					for first := 0; first < 2; first++ {
						if first == 1 && a == b {
							continue
						}
						n := lengths[a]
						if first == 1 {
							n = lengths[b]
						}
						for p := uint64(0); p <= n; p++ {
							if !e.mine() {
								continue
							}
							e.c.States++
							if !e.visit(fmt.Sprintf("%s|%s|%d|%d", a, b, first, p)) {
								return
							}
						}
					}
				}
			}
		}
	}
	small := []string{"parse element", "share text", "load"}
	if z != size(0) {
		small = append(small, "parse text", "parse attribute", "package Parse", "look up shared", "build", "share error", "write own")
	}
	return []*Space{
		{Name: "one preemption", Bound: "all pairs of " + itoa(len(jobs)) + " jobs, with one preemption at every statement", Judge: judgeSchedules(false), Enum: gen(jobNames())},
		{Name: "two preemptions", Bound: "all pairs of " + itoa(len(small)) + " jobs, with two preemptions at all pairs of statements", Judge: judgeSchedules(true), Enum: gen(small)},
		list("data races", "all pairs of "+itoa(len(jobs))+" jobs, 25 times at the same time under the race detector", judgeRace, func(_ bool, emit func(string)) {
			names := jobNames()
			for i, a := range names {
				for _, b := range names[i:] {
					emit(a + "|" + b)
				}
			}
		}),
	}
}

// ---- data races ----

var (
	flagRace = flag.String("race", "", "this program, built with the race detector")
	flagPair = flag.String("pair", "", "run two jobs at the same time")
)

func judgeRace(c *counter, key string) string {
	c.Traces++
	if *flagRace == "" {
		return ""
	}
	c.Evals++
	cmd := exec.Command(*flagRace, "-pair", key)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var stderr tail
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err == nil {
		c.outcome(string(out))
		return ""
	}
	if e, ok := err.(*exec.ExitError); ok {
		var at []string
		for _, l := range strings.Split(string(stderr.b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/") && len(at) < 8 || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
				at = append(at, l)
			}
		}
		if e.ExitCode() == 66 {
			return "data race: " + strings.Join(at, " ")
		}
		return fmt.Sprintf("at the same time: %s %s %s", err, out, strings.Join(at, " "))
	}
	return ""
}

// pair runs two jobs at the same time, again and again
func pair(key string) int {
	runtime.GOMAXPROCS(4)
	f := strings.SplitN(key, "|", 2)
	var want [2]string
	for i, n := range f {
		want[i] = jobs[n](newEnv(n))()
	}
	for k := 0; k < 25; k++ {
		e := newEnv(f...)
		var views [2]func() string
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			i := (i + k) % 2
			go func() {
				defer wg.Done()
				views[i] = jobs[f[i]](e)
			}()
		}
		wg.Wait()
		for i := range views {
			if got := views[i](); got != want[i] {
				fmt.Printf("%q gives %q, but %q alone\n", f[i], short(got), short(want[i]))
				return 1
			}
		}
	}
	return 0
}

func init() {
	register(&Property{ID: "C14", Level: "model_checking", Spaces: func(th bool) []*Space {
		return scheduleSpaces(zoom(th, small, medium))
	}})
}
