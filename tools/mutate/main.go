// mutate lists small changes of Go files as JSON lines {File, From, To, New, Desc} (byte offsets)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	From, To int
	New      string
	Desc     string
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(from, to token.Pos, new, what string) {
			a, b := fs.Position(from), fs.Position(to)
			_ = enc.Encode(mutant{name, a.Offset, b.Offset, new, fmt.Sprintf("%s:%d %s: %s", name, a.Line, fn, what)})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range ops[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, text(x)+" : "+o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" + 1")
							if v > 0 {
								emit(x.Pos(), x.End(), strconv.Itoa(v-1), x.Value+" - 1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true : false")
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false : true")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "without "+text(x))
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "without "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "without "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "without "+text(x))
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit(x.Pos(), x.End(), "continue", "break : continue")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit(x.Pos(), x.End(), "break", "continue : break")
					}
				}
				return true
			})
		}
	}
}
