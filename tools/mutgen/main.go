// mutgen prints small changes of given Go files as JSON lines {file, from, to, text, what, line}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	var enc = json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		var src, err = os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		var fs = token.NewFileSet()
		var f, err1 = parser.ParseFile(fs, file, src, 0)
		if err1 != nil {
			panic(err1)
		}
		var off = func(p token.Pos) int { return fs.Position(p).Offset }
		var emit = func(from, to token.Pos, text, what string) {
			var line = fs.Position(from).Line
			enc.Encode(map[string]any{"file": file, "from": off(from), "to": off(to), "text": text, "what": what, "line": line, "old": string(src[off(from):off(to)])})
		}
		var bin = map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"},
			token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.REM: {"/"}, token.QUO: {"*"}}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range bin[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int")
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "bool")
					} else if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "bool")
					}
				case *ast.IfStmt:
					var c = string(src[off(n.Cond.Pos()):off(n.Cond.End())])
					emit(n.Cond.Pos(), n.Cond.End(), "!("+c+")", "negate")
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")", "never")
					emit(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")", "always")
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.ReturnStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "", "delete")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "delete")
							}
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), string(src[off(n.Low.Pos()):off(n.Low.End())])+"+1", "low")
					}
					if n.High != nil {
						emit(n.High.Pos(), n.High.End(), string(src[off(n.High.Pos()):off(n.High.End())])+"-1", "high")
					}
				}
				return true
			})
		}
	}
}
