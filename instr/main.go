// Command instr makes an overlay for the Go build in which the code under test calls a hook before each of its
// statements, so that a harness can stop a thread at any of them. The lines and the meaning stay as they were.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	var repo, out = os.Args[1], os.Args[2]
	var rep = map[string]string{}
	for i, dir := range []string{".", "util"} {
		var d = filepath.Join(repo, dir)
		var files, _ = filepath.Glob(filepath.Join(d, "*.go"))
		var pkg string
		for j, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			var src, err = os.ReadFile(f)
			check(err)
			var b, name = instrument(f, src)
			if name == "main" {
				continue
			}
			pkg = name
			var to = filepath.Join(out, fmt.Sprintf("i%d_%d.go", i, j))
			check(os.WriteFile(to, b, 0o644))
			rep[f] = to
		}
		var hook = "package " + pkg + "\n\nimport \"github.com/schwarzlichtbezirk/wpk/util\"\n\n" +
			"func wpkVerifStep() {\n\tif f := util.VerifStep; f != nil {\n\t\tf()\n\t}\n}\n"
		if dir == "util" {
			hook = "package " + pkg + "\n\nvar VerifStep func()\n\n" +
				"func wpkVerifStep() {\n\tif f := VerifStep; f != nil {\n\t\tf()\n\t}\n}\n"
		}
		var to = filepath.Join(out, fmt.Sprintf("hook%d.go", i))
		check(os.WriteFile(to, []byte(hook), 0o644))
		rep[filepath.Join(d, "zz_wpkverifstep.go")] = to
	}
	var b, err = json.Marshal(map[string]any{"Replace": rep})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

// instrument puts a call of the hook before each statement of a block.
func instrument(name string, src []byte) ([]byte, string) {
	var fset = token.NewFileSet()
	var f, err = parser.ParseFile(fset, name, src, parser.ParseComments)
	check(err)
	var at []int
	var list = func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.PositionFor(s.Pos(), false).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.BlockStmt:
			list(s.List)
		case *ast.CaseClause:
			list(s.Body)
		case *ast.CommClause:
			list(s.Body)
		}
		return true
	})
	sort.Ints(at)
	var b []byte
	var prev = 0
	for _, p := range at {
		b = append(b, src[prev:p]...)
		b = append(b, "wpkVerifStep(); "...)
		prev = p
	}
	return append(b, src[prev:]...), f.Name.Name
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
