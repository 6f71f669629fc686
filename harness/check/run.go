package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/lestrrat-go/helium/internal/zzverif/hook"
)

// This file runs explorations: a parent process shards the items of a
// property's spaces over worker processes, collects what they counted and the
// violations they saw, repeats each of those in fresh processes before it is
// believed, and writes the evidence.

// Item is one execution, or one small group of executions, to be judged. Key
// is all there is to know about it: judging a key again, in another process,
// gives the same result.
type Item struct {
	Space string `json:"space"`
	Key   string `json:"key"`
}

// Violation of a property by an item
type Violation struct {
	Item
	Msg     string   `json:"msg"`
	History []string `json:"history,omitempty"` // keys of the items before it, in the same process
	Shard   int      `json:"shard"`
	Index   int64    `json:"index"` // how many items of the space the process had judged before
}

// Space is a finite set of items. Enum calls visit for every item whose
// subtree belongs to the shard.
type Space struct {
	Name  string
	Level int // 0: always; 1: thorough only
	Bound string
	Enum  func(e *enum)
	Judge func(c *counter, key string) string
	// Fault spaces count executions under "evaluations"
}

// Property is what a check decides
type Property struct {
	ID     string
	Level  string
	Rule   string
	Assume []string
	Spaces func(thorough bool) []*Space
}

// procs is how many goroutines may run at once: schedules have to be the same
// every time
func (p *Property) procs() int {
	if p.ID == "C14" {
		return 1
	}
	return 2
}

// counter is what a worker counts
type counter struct {
	States      int64 // nodes of the explored tree or graph
	Transitions int64 // edges
	Traces      int64 // executions of the implementation compared
	Evals       int64 // executions of the implementation
	WF          int64
	Malformed   int64
	Unknown     int64
	outcomes    map[uint64]bool
	samples     []string
	MaxSteps    uint64
}

// outcome notes an observed outcome
func (c *counter) outcome(s string) {
	if len(c.outcomes) > 2000000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.outcomes[h.Sum64()] = true
}

func (c *counter) sample(s string) {
	if len(c.samples) < 3 && len(s) < 2000 {
		c.samples = append(c.samples, s)
	}
}

// enum is given to the enumerators of spaces
type enum struct {
	thorough bool
	shard, n int
	idx      int64
	c        *counter
	judge    func(key string) bool // false: stop
	stopped  bool
}

// mine says whether the next subtree belongs to this shard
func (e *enum) mine() bool {
	e.idx++
	return int(e.idx%int64(e.n)) == e.shard
}

func (e *enum) visit(key string) bool {
	if e.stopped {
		return false
	}
	if !e.judge(key) {
		e.stopped = true
	}
	return !e.stopped
}

type spaceReport struct {
	Name        string
	Bound       string
	States      int64
	Transitions int64
	Traces      int64
	Evals       int64
	WF          int64
	Malformed   int64
	Unknown     int64
	Outcomes    []uint64 `json:",omitempty"`
	Samples     []string
	MaxSteps    uint64
	Complete    bool
	Secs        float64
}

type message struct {
	Violation *Violation   `json:",omitempty"`
	Report    *spaceReport `json:",omitempty"`
}

const historyLength = 40
const maxViolations = 3 // per worker and space

var (
	flagProp     = flag.String("p", "", "property")
	flagTier     = flag.String("tier", "quick", "quick or thorough")
	flagWorker   = flag.String("worker", "", "k/n: run one shard")
	flagDeadline = flag.Int64("deadline", 0, "unix time")
	flagCur      = flag.String("cur", "", "file that holds the current item")
	flagReplay   = flag.String("replay", "", "judge the item in this file")
	flagHistory  = flag.Bool("history", false, "judge its history first")
	flagOut      = flag.String("out", "", "directory for evidence and replay files")
	flagKnown    = flag.String("known", "", "known findings")
	flagSpace    = flag.String("space", "", "only this space")
	flagStop     = flag.Int64("stop", 0, "stop after this many items of the space")
	flagWorkers  = flag.Int("n", 8, "workers")
	flagLint     = flag.String("lint", "", "helium-lint")
	flagProgress = flag.Bool("v", false, "list spaces")
)

func main() {
	flag.Parse()
	if *flagPair != "" {
		os.Exit(pair(*flagPair))
	}
	p := properties[*flagProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q\n", *flagProp)
		os.Exit(2)
	}
	switch {
	case *flagReplay != "":
		replay(p)
	case *flagWorker != "":
		worker(p)
	default:
		os.Exit(parent(p))
	}
}

func thorough() bool { return *flagTier == "thorough" }

func spaces(p *Property) []*Space {
	var out []*Space
	for _, s := range p.Spaces(thorough()) {
		if s.Level > 0 && !thorough() {
			continue
		}
		if *flagSpace != "" && s.Name != *flagSpace {
			continue
		}
		out = append(out, s)
	}
	return out
}

// ---- worker ----

// cur holds the item being judged, where the parent finds it if the worker
// dies
var cur []byte

func openCur() {
	if *flagCur == "" {
		return
	}
	f, err := os.OpenFile(*flagCur, os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		return
	}
	defer f.Close()
	const size = 1 << 20
	if f.Truncate(size) != nil {
		return
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err == nil {
		cur = m
	}
}

func setCur(space, key string, index int64) {
	if cur == nil {
		return
	}
	s := fmt.Sprintf("%s\x00%d\x00", space, index)
	n := len(s) + len(key)
	if n+8 > len(cur) {
		return
	}
	copy(cur[8:], s)
	copy(cur[8+len(s):], key)
	for i := uint(0); i < 8; i++ {
		cur[i] = byte(uint64(n) >> (8 * i))
	}
}

func readCur(name string) (space, key string, index int64, ok bool) {
	b, err := ioutil.ReadFile(name)
	if err != nil || len(b) < 8 {
		return
	}
	n := uint64(0)
	for i := uint(0); i < 8; i++ {
		n |= uint64(b[i]) << (8 * i)
	}
	if n == 0 || n+8 > uint64(len(b)) {
		return
	}
	f := strings.SplitN(string(b[8:8+n]), "\x00", 3)
	if len(f) != 3 {
		return
	}
	index, _ = strconv.ParseInt(f[1], 10, 64)
	return f[0], f[2], index, true
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// itemCPU is the processor time an item may take: items take milliseconds
const itemCPU = 90 * time.Second

// heapLimit is how much an item may allocate: items need kilobytes
const heapLimit = 3 << 30

var current struct {
	sync.Mutex
	serial int64
}

func limits() {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1200 << 20)
	go func() {
		last := int64(-1)
		var since time.Duration
		for {
			time.Sleep(250 * time.Millisecond)
			current.Lock()
			s := current.serial
			current.Unlock()
			if s != last {
				last, since = s, cpuTime()
			} else if cpuTime()-since > itemCPU {
				fmt.Fprintln(os.Stderr, "ZZ does not terminate (processor time limit)")
				os.Exit(3)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > heapLimit {
				fmt.Fprintln(os.Stderr, "ZZ memory limit")
				os.Exit(3)
			}
		}
	}()
}

// weight of the items since garbage was collected
var weight int

// tick is called before every item. Garbage is collected at fixed items and at
// no other time, so that what pools do is the same in every run
func tick(key string) {
	current.Lock()
	current.serial++
	current.Unlock()
	weight += 200 + len(key)
	if weight > 500000 {
		weight = 0
		runtime.GC()
	}
}

func worker(p *Property) {
	runtime.GOMAXPROCS(p.procs())
	openCur()
	limits()
	var k, n int
	fmt.Sscanf(*flagWorker, "%d/%d", &k, &n)
	known := readKnown(*flagKnown, p.ID)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for _, s := range spaces(p) {
		s := s
		c := &counter{outcomes: map[uint64]bool{}}
		start := time.Now()
		e := &enum{thorough: thorough(), shard: k, n: n, c: c}
		var index int64
		var history []string
		found := 0
		complete := true
		e.judge = func(key string) bool {
			if index%64 == 0 && *flagDeadline != 0 && time.Now().Unix() > *flagDeadline {
				complete = false
				return false
			}
			tick(key)
			setCur(s.Name, key, index)
			msg := s.Judge(c, key)
			if hook.Steps > c.MaxSteps {
				c.MaxSteps = hook.Steps
			}
			if msg != "" {
				if _, ok := known[s.Name+"\x00"+key]; ok {
					found-- // listed: the search goes on
				}
				enc.Encode(message{Violation: &Violation{Item: Item{s.Name, key}, Msg: msg, History: append([]string{}, history...), Shard: k, Index: index}})
				out.Flush()
				found++
				if found >= maxViolations {
					complete = false
					return false
				}
			}
			index++
			if len(history) == historyLength {
				copy(history, history[1:])
				history = history[:historyLength-1]
			}
			history = append(history, key)
			if *flagStop > 0 && index > *flagStop {
				return false
			}
			return true
		}
		s.Enum(e)
		r := &spaceReport{Name: s.Name, Bound: s.Bound, States: c.States, Transitions: c.Transitions, Traces: c.Traces, Evals: c.Evals, WF: c.WF, Malformed: c.Malformed, Unknown: c.Unknown, Samples: c.samples, MaxSteps: c.MaxSteps, Complete: complete, Secs: time.Since(start).Seconds()}
		for h := range c.outcomes {
			r.Outcomes = append(r.Outcomes, h)
		}
		sort.Slice(r.Outcomes, func(i, j int) bool { return r.Outcomes[i] < r.Outcomes[j] })
		enc.Encode(message{Report: r})
		out.Flush()
	}
}

// replay judges the item of a file: exit 0 if it is fine, 1 if not
func replay(p *Property) {
	runtime.GOMAXPROCS(p.procs())
	limits()
	b, err := ioutil.ReadFile(*flagReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	v.decode()
	for _, s := range p.Spaces(true) {
		if s.Name != v.Space {
			continue
		}
		c := &counter{outcomes: map[uint64]bool{}}
		if *flagHistory {
			for _, h := range v.History {
				tick(h)
				s.Judge(c, h)
			}
		}
		tick(v.Key)
		if msg := s.Judge(c, v.Key); msg != "" {
			fmt.Printf("item: %q\nviolation: %s\n", v.Key, msg)
			os.Exit(1)
		}
		fmt.Printf("item: %q\nfine\n", v.Key)
		return
	}
	fmt.Fprintf(os.Stderr, "no space %q\n", v.Space)
	os.Exit(2)
}

// keys may be any bytes, which JSON strings may not
func (v *Violation) encode() Violation {
	w := *v
	w.Key = strconv.QuoteToASCII(v.Key)
	w.History = nil
	for _, h := range v.History {
		w.History = append(w.History, strconv.QuoteToASCII(h))
	}
	return w
}

func (v *Violation) decode() {
	if k, err := strconv.Unquote(v.Key); err == nil {
		v.Key = k
	}
	for i, h := range v.History {
		if k, err := strconv.Unquote(h); err == nil {
			v.History[i] = k
		}
	}
}

// MarshalJSON and UnmarshalJSON keep keys intact
func (v *Violation) MarshalJSON() ([]byte, error) {
	type plain Violation
	w := plain(v.encode())
	return json.Marshal(&w)
}

// ---- parent ----

func self(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	all := []string{"-p", *flagProp, "-tier", *flagTier, "-lint", *flagLint, "-race", *flagRace, "-known", *flagKnown}
	return exec.Command(exe, append(all, args...)...)
}

type tail struct {
	b []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 4096 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func diedOf(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "ZZ ") {
			return l[3:]
		}
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "goroutine stack exceeds") {
			return "process died: " + l
		}
	}
	return "process died"
}

func parent(p *Property) int {
	start := time.Now()
	dir := *flagOut
	work, err := ioutil.TempDir("", "zzrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	n := *flagWorkers
	var mu sync.Mutex
	var violations []*Violation
	reports := map[string]*spaceReport{}
	outcomes := map[string]map[uint64]bool{}
	died := 0
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			curFile := filepath.Join(work, fmt.Sprintf("cur%d", k))
			cmd := self("-worker", fmt.Sprintf("%d/%d", k, n), "-deadline", fmt.Sprint(*flagDeadline), "-cur", curFile, "-space", *flagSpace)
			var stderr tail
			cmd.Stderr = &stderr
			pipe, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				mu.Lock()
				died++
				mu.Unlock()
				return
			}
			dec := json.NewDecoder(pipe)
			for {
				var m message
				if err := dec.Decode(&m); err != nil {
					break
				}
				mu.Lock()
				if m.Violation != nil {
					m.Violation.decode()
					violations = append(violations, m.Violation)
				}
				if r := m.Report; r != nil {
					t := reports[r.Name]
					if t == nil {
						t = &spaceReport{Name: r.Name, Bound: r.Bound, Complete: true}
						reports[r.Name] = t
						outcomes[r.Name] = map[uint64]bool{}
					}
					t.States += r.States
					t.Transitions += r.Transitions
					t.Traces += r.Traces
					t.Evals += r.Evals
					t.WF += r.WF
					t.Malformed += r.Malformed
					t.Unknown += r.Unknown
					if r.MaxSteps > t.MaxSteps {
						t.MaxSteps = r.MaxSteps
					}
					if len(t.Samples) < 3 {
						t.Samples = append(t.Samples, r.Samples...)
					}
					t.Complete = t.Complete && r.Complete
					if r.Secs > t.Secs {
						t.Secs = r.Secs
					}
					for _, h := range r.Outcomes {
						outcomes[r.Name][h] = true
					}
				}
				mu.Unlock()
			}
			if err := cmd.Wait(); err != nil {
				mu.Lock()
				died++
				space, key, index, ok := readCur(curFile)
				if ok {
					violations = append(violations, &Violation{Item: Item{space, key}, Msg: diedOf(string(stderr.b)), Shard: k, Index: index})
				} else {
					fmt.Fprintf(os.Stderr, "worker %d: %v\n%s\n", k, err, stderr.b)
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()

	// shortest first
	sort.SliceStable(violations, func(i, j int) bool {
		a, b := violations[i], violations[j]
		if len(a.Key) != len(b.Key) {
			return len(a.Key) < len(b.Key)
		}
		return a.Key < b.Key
	})
	known := readKnown(*flagKnown, p.ID)
	os.MkdirAll(filepath.Join(dir, "replay"), 0777)
	confirmed, unconfirmed := 0, 0
	knownSeen := map[string]bool{}
	status := 0
	if *flagProgress {
		per := map[string]int{}
		for _, v := range violations {
			if per[v.Space]++; per[v.Space] <= 4 {
				fmt.Fprintf(os.Stderr, "%s\t%q\n\t%s\n", v.Space, short(v.Key), v.Msg)
			}
		}
	}
	for _, v := range violations {
		if why, ok := known[v.Space+"\x00"+v.Key]; ok {
			if !knownSeen[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, why)
			}
			knownSeen[v.Key] = true
			continue
		}
		if confirmed >= 5 {
			break
		}
		file := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", p.ID, confirmed))
		b, _ := json.MarshalIndent(v, "", " ")
		if err := ioutil.WriteFile(file, b, 0666); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		how := believe(v, file)
		if how == "" {
			unconfirmed++
			fmt.Printf("not confirmed: property=%s space=%s item=%q: %s\n", p.ID, v.Space, v.Key, v.Msg)
			continue
		}
		confirmed++
		status = 1
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		fmt.Printf("  space %s, item %q (%s)\n  %s\n", v.Space, short(v.Key), how, v.Msg)
	}
	complete := died == 0
	sum := &spaceReport{}
	var list []map[string]interface{}
	var samples []interface{}
	var names []string
	for name := range reports {
		names = append(names, name)
	}
	sort.Strings(names)
	all := map[uint64]bool{}
	for _, name := range names {
		r := reports[name]
		complete = complete && r.Complete
		sum.States += r.States
		sum.Transitions += r.Transitions
		sum.Traces += r.Traces
		sum.Evals += r.Evals
		item := map[string]interface{}{"space": r.Name, "bound": r.Bound, "states": r.States, "transitions": r.Transitions, "traces": r.Traces, "evaluations": r.Evals, "distinct_outcomes": len(outcomes[name]), "complete": r.Complete, "secs": r.Secs, "max_steps": r.MaxSteps}
		if r.WF+r.Malformed+r.Unknown > 0 {
			item["model_wellformed"], item["model_malformed"], item["model_unknown"] = r.WF, r.Malformed, r.Unknown
		}
		list = append(list, item)
		for h := range outcomes[name] {
			all[h] = true
		}
		for i, s := range r.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, map[string]interface{}{"space": r.Name, "item": s})
			}
		}
		if *flagProgress {
			fmt.Fprintf(os.Stderr, "%-28s states %9d traces %9d wf %8d bad %8d unk %7d outcomes %8d steps %8d %6.1fs complete %v\n", r.Name, r.States, r.Traces, r.WF, r.Malformed, r.Unknown, len(outcomes[name]), r.MaxSteps, r.Secs, r.Complete)
		}
	}
	cov := map[string]interface{}{"spaces": list, "samples": samples, "exhaustive": complete && unconfirmed == 0, "distinct_outcomes": len(all), "instrumented": hook.Instrumented, "workers": n, "rule": p.Rule}
	if p.Level == "fault_enumeration" || p.Level == "exploration" {
		cov["evaluations"] = sum.Evals
		cov["distinct_nontrivial"] = len(all)
	} else {
		cov["states"] = sum.States
		cov["transitions"] = sum.Transitions
		cov["traces_validated_against_impl"] = sum.Traces
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": p.ID, "tier": *flagTier, "seed": seed, "level": p.Level, "coverage": cov, "assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": confirmed}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := ioutil.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d spaces, %d states, %d transitions, %d executions, %d distinct outcomes, complete %v, %.0fs\n", p.ID, len(reports), sum.States, sum.Transitions, sum.Evals, len(all), complete, time.Since(start).Seconds())
	if died > 0 && status == 0 && len(violations) == 0 {
		return 2
	}
	return status
}

func short(s string) string {
	if len(s) > 600 {
		return s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

// believe repeats a violation in fresh processes: alone, after the items that
// were judged before it, and by repeating all that the worker did
func believe(v *Violation, file string) string {
	try := func(times int, args ...string) bool {
		ok := make(chan bool, times)
		for i := 0; i < times; i++ {
			go func() {
				err := self(args...).Run()
				if e, is := err.(*exec.ExitError); is {
					// 1: violation; others: died, as it did before
					ok <- e.ExitCode() != 2 || strings.HasPrefix(v.Msg, "process died")
					return
				}
				ok <- false
			}()
		}
		all := true
		for i := 0; i < times; i++ {
			all = <-ok && all
		}
		return all
	}
	if try(5, "-replay", file) {
		return "repeated 5 times in fresh processes"
	}
	if len(v.History) > 0 && try(5, "-replay", file, "-history") {
		return fmt.Sprintf("repeated 5 times in fresh processes, after the %d items before it", len(v.History))
	}
	for i := 0; i < 2; i++ {
		cmd := self("-worker", fmt.Sprintf("%d/%d", v.Shard, *flagWorkers), "-space", v.Space, "-stop", fmt.Sprint(v.Index))
		b, _ := cmd.Output()
		seen := false
		dec := json.NewDecoder(strings.NewReader(string(b)))
		for {
			var m message
			if dec.Decode(&m) != nil {
				break
			}
			if m.Violation != nil {
				m.Violation.decode()
				seen = seen || m.Violation.Key == v.Key
			}
		}
		if !seen {
			return ""
		}
	}
	return fmt.Sprintf("repeated twice in fresh processes, after the %d items before it (shard %d/%d)", v.Index, v.Shard, *flagWorkers)
}

// readKnown reads the findings of a property that are listed:
// known: property=ID space=NAME item=QUOTED why
func readKnown(name, id string) map[string]string {
	out := map[string]string{}
	b, err := ioutil.ReadFile(name)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" space=") {
			continue
		}
		l = l[len("known: property="+id+" space="):]
		f := strings.SplitN(l, " item=", 2)
		if len(f) != 2 {
			continue
		}
		q := f[1]
		end := -1
		for i := 1; i < len(q); i++ {
			if q[i] == '\\' {
				i++
				continue
			}
			if q[i] == '"' {
				end = i
				break
			}
		}
		if end < 0 {
			continue
		}
		key, err := strconv.Unquote(q[:end+1])
		if err != nil {
			continue
		}
		out[f[0]+"\x00"+key] = strings.TrimSpace(q[end+1:]) + " (item " + q[:end+1] + ")"
	}
	return out
}
