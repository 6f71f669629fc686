// instr REPO OUT HARNESS writes instrumented copies of the Go sources in REPO
// (not tests, not commands) to OUT/src and an overlay for "go build -overlay"
// to OUT/overlay.json, which also puts the harness into the module. With "-plain" as
// first argument, the sources are left alone.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookPath = "github.com/lestrrat-go/helium/internal/zzverif/hook"

func main() {
	args := os.Args[1:]
	plain := false
	if args[0] == "-plain" {
		plain, args = true, args[1:]
	}
	repo, out, harness := args[0], args[1], args[2]
	replace := map[string]string{}
	for _, pkg := range []string{"hook", "ref", "check"} {
		files, _ := filepath.Glob(filepath.Join(harness, pkg, "*.go"))
		for _, f := range files {
			replace[filepath.Join(repo, "internal/zzverif", pkg, filepath.Base(f))] = f
		}
	}
	points := 0
	if !plain {
		err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(repo, path)
			if fi.IsDir() {
				b := fi.Name()
				if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || rel == "cmd" || b == "cliutil" || b == "zzverif") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			src, err := ioutil.ReadFile(path)
			if err != nil {
				return err
			}
			res, n, err := instrument(path, src)
			if err != nil {
				return err
			}
			if n == 0 {
				return nil
			}
			points += n
			dst := filepath.Join(out, "src", strings.Replace(rel, "/", "__", -1))
			os.MkdirAll(filepath.Dir(dst), 0777)
			replace[path] = dst
			return ioutil.WriteFile(dst, res, 0666)
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		hk, err := ioutil.ReadFile(filepath.Join(harness, "hook/hook.go"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		dst := filepath.Join(out, "src", "zzhook.go")
		os.MkdirAll(filepath.Dir(dst), 0777)
		ioutil.WriteFile(dst, []byte(strings.Replace(string(hk), "const Instrumented = false", "const Instrumented = true", 1)), 0666)
		replace[filepath.Join(repo, "internal/zzverif/hook/hook.go")] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := ioutil.WriteFile(filepath.Join(out, "overlay.json"), b, 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("%d points\n", points)
}

// instrument inserts a call before every statement, without changing lines
func instrument(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		return nil, 0, err
	}
	if f.Name.Name == "main" {
		return nil, 0, nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			at = append(at, off(s.Pos()))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
			if len(n.List) == 0 && n.Rbrace.IsValid() {
				at = append(at, off(n.Rbrace)) // empty loops count too
			}
		}
		return true
	})
	if len(at) == 0 {
		return src, 0, nil
	}
	sort.Ints(at)
	var b strings.Builder
	name := off(f.Name.End())
	b.Write(src[:name])
	b.WriteString(`; import zzhook "` + hookPath + `"`)
	last := name
	n := 0
	prev := -1
	for _, o := range at {
		if o == prev {
			continue
		}
		prev = o
		b.Write(src[last:o])
		b.WriteString("zzhook.Hit();")
		last = o
		n++
	}
	b.Write(src[last:])
	return []byte(b.String()), n, nil
}
