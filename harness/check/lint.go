package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/lestrrat-go/helium"
)

// The command helium-lint: arguments, files, and ends of its output

// inputs of the command, and what they are
var lintFiles = map[string]string{
	"plain.xml":    `<r/>`,
	"text.xml":     "<?xml version=\"1.0\"?>\r\n<r a='b'>é &lt; \r\n<s/></r><!--c-->\n",
	"entities.xml": `<!DOCTYPE r [<!ENTITY e "<b>v</b>"><!ATTLIST r d CDATA "w">]><r>&e;</r>`,
	"latin.xml":    "<?xml version=\"1.0\" encoding=\"iso-8859-1\"?><r>\xe9</r>",
	"long.xml":     "<r>" + strings.Repeat("<s a='b'>text</s>\n", 9000) + "</r>",
	"tags.xml":     `<r></s>`,
	"entity.xml":   `<r>&u;</r>`,
	"latter.xml":   `<r/><r/>`,
	"bytes.xml":    "<r>\xe9</r>",
	"empty.xml":    ``,
	"no text.xml":  "\n",
	"-dash.xml":    `<dash/>`,
	"huge.xml":     "<r>" + strings.Repeat("<s a='b'>text</s>\n", 70000) + "</r>", // more than 1 MB
	"half.xml":     "<r>" + strings.Repeat("<s a='b'>text</s>\n", 9000),
}

// lintOutput is what the command is expected to write for a document
func lintOutput(doc string) (out string, ok bool) {
	d, err := helium.NewParser().Parse([]byte(doc))
	if err != nil {
		return "", false
	}
	s, err := d.XMLString()
	return s, err == nil
}

// runLint runs the command in the directory dir
func runLint(dir string, args []string, stdin io.Reader, stdout io.Writer) (code int, stderr string) {
	cmd := exec.Command(flag.Lookup("lint").Value.String(), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir}
	cmd.Stdin = stdin
	cmd.Stdout = stdout
	var e bytes.Buffer
	cmd.Stderr = &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	if x, ok := err.(*exec.ExitError); ok {
		if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 128 + int(ws.Signal()), e.String()
		}
		return x.ExitCode(), e.String()
	}
	if err != nil {
		return -1, err.Error()
	}
	return 0, e.String()
}

// lintDir is a directory with the files, of this process
func lintDir() (string, error) {
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("lint-%d", os.Getpid()))
	if _, err := os.Stat(filepath.Join(dir, "directory")); err == nil {
		return dir, nil
	}
	if err := os.MkdirAll(dir, 0777); err != nil {
		return dir, err
	}
	for n, s := range lintFiles {
		if err := ioutil.WriteFile(filepath.Join(dir, n), []byte(s), 0666); err != nil {
			return dir, err
		}
	}
	return dir, os.Mkdir(filepath.Join(dir, "directory"), 0777)
}

// terminal is one that nobody types at, nil if there are none here
func terminal() *os.File {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil
	}
	var n, zero uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		m.Close()
		return nil
	}
	t, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil
	}
	terminals = append(terminals, m) // it goes away with the process
	if len(terminals) > 8 {
		terminals[0].Close()
		terminals = terminals[1:]
	}
	return t
}

var terminals []*os.File

// judgeLint: the key is where the output goes, what is on standard input, and
// the arguments, separated by "|"
func judgeLint(c *counter, key string) string {
	f := strings.Split(key, "|")
	sink, input, args := f[0], f[1], f[2:]
	if len(args) == 1 && args[0] == "" {
		args = nil
	}
	dir, err := lintDir()
	if err != nil {
		return "" // no room: says nothing
	}
	c.Traces++
	c.Evals++

	// what is expected
	want, usage, version := "", false, false
	var files []string
	rest := false
	for _, a := range args {
		switch {
		case rest:
			files = append(files, a)
		case a == "--":
			rest = true
		case a == "--version":
			version = true
		case a == "--format" || a == "--noblanks":
		case strings.HasPrefix(a, "-"):
			usage = true
		default:
			files = append(files, a)
		}
	}
	ok := true
	switch {
	case usage:
		ok = false
	case version:
	case len(files) == 0:
		want, ok = lintOutput(lintFiles[input])
	default:
		for _, n := range files {
			s, is := lintFiles[n]
			if is {
				s, is = lintOutput(s)
			}
			if !is {
				ok = false
				break
			}
			want += s
		}
	}

	var in io.Reader
	switch input {
	case "": // an empty file
	case "tty":
		t := terminal()
		if t == nil {
			return ""
		}
		defer t.Close()
		in = t
		if len(files) == 0 && !version {
			usage, ok = true, false
		}
	default:
		in = strings.NewReader(lintFiles[input])
	}
	var b bytes.Buffer
	var out io.Writer = &b
	switch sink {
	case "full":
		w, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return ""
		}
		defer w.Close()
		out = w
		if len(files) > 0 && want != "" || len(files) == 0 && !version && !usage {
			ok = false
		}
	case "closed": // nobody reads it
		r, w, err := os.Pipe()
		if err != nil {
			return ""
		}
		r.Close()
		defer w.Close()
		out = w
		if want != "" {
			ok = false
		}
	}
	code, stderr := runLint(dir, args, in, out)
	if strings.Contains(stderr, "goroutine ") && strings.Contains(stderr, "[running]") {
		return "it crashed: " + stderr
	}
	if code < 0 {
		return "" // it cannot be run
	}
	c.outcome(fmt.Sprint(code, stderr, b.String()))
	if version && !usage && sink != "out" {
		return "" // whether it can say so does not matter
	}
	if (code == 0) != ok {
		return fmt.Sprintf("exit status is %d, %q", code, stderr)
	}
	if sink != "out" {
		if want == "" {
			return ""
		}
		if !usage && !version && sink == "full" && stderr == "" {
			return "it does not say why it failed"
		}
		return ""
	}
	got := b.String()
	switch {
	case usage:
		if got == "" && stderr == "" {
			return "it does not say why it failed"
		}
	case version:
		if !strings.Contains(got, helium.Version) {
			return fmt.Sprintf("it says %q, the version is %q", got, helium.Version)
		}
	default:
		if got != want {
			return fmt.Sprintf("output is %.200q, expected %.200q", got, want)
		}
		if !ok && stderr == "" {
			return "it does not say why it failed"
		}
		if ok && stderr != "" {
			return fmt.Sprintf("it complains: %q", stderr)
		}
	}
	return ""
}

func lintSpaces(n int) []*Space {
	args := []string{"plain.xml", "text.xml", "entities.xml", "latin.xml", "tags.xml", "latter.xml", "bytes.xml", "empty.xml", "missing.xml", "directory", "--format", "--noblanks", "--version", "--bad", "--", "-dash.xml"}
	var inputs []string
	for n := range lintFiles {
		if n != "huge.xml" {
			inputs = append(inputs, n)
		}
	}
	sort.Strings(inputs)
	return []*Space{list("commands", fmt.Sprintf("all sequences of at most %d of %d arguments with the output to a pipe, a full device and a closed pipe, and %d inputs", n, len(args), len(inputs)), judgeLint, func(_ bool, emit func(string)) {
		var rec func(l []string)
		rec = func(l []string) {
			if len(l) > 0 {
				// without arguments of files it reads what is there
				emit("out|" + "plain.xml|" + strings.Join(l, "|"))
				emit("out|" + "tags.xml|" + strings.Join(l, "|"))
				if len(l) < n {
					emit("full|" + "plain.xml|" + strings.Join(l, "|"))
					emit("closed|" + "plain.xml|" + strings.Join(l, "|"))
				}
			}
			if len(l) == n {
				return
			}
			for _, a := range args {
				rec(append(l[:len(l):len(l)], a))
			}
		}
		rec(nil)
		for _, s := range []string{"out", "full", "closed"} {
			emit(s + "|")
			for _, i := range []string{"", "--format", "--version", "--bad", "plain.xml", "tags.xml"} {
				emit(s + "|tty|" + i)
				emit(s + "||" + i)
			}
		}
		for _, a := range []string{"huge.xml|", "|huge.xml", "|plain.xml|huge.xml|plain.xml", "|huge.xml|tags.xml"} {
			emit("out|" + a)
		}
		for _, i := range inputs {
			for _, s := range []string{"out", "full", "closed"} {
				emit(s + "|" + i)
				emit(s + "||" + i)
				for _, k := range inputs {
					emit(s + "||" + i + "|" + k)
				}
				for _, o := range []string{"--format", "--noblanks", "--version"} {
					emit(s + "|" + i + "|" + o)
				}
			}
		}
	})}
}

func init() {
	register(&Property{ID: "C23", Level: "model_checking", Spaces: func(th bool) []*Space {
		if th {
			return lintSpaces(4)
		}
		return lintSpaces(3)
	}})
}
