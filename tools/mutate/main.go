// Small changes to a Go file, for trying out the checks.
//
//	mutate FILE           lists the changes, one JSON object per line
//	mutate FILE N         prints the file with change N made
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	what     string
	line     int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text, what string) {
		es = append(es, edit{off(a), off(b), text, what, fs.Position(a).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	isErr := func(e ast.Expr) bool {
		b, ok := e.(*ast.BinaryExpr)
		if !ok {
			return false
		}
		x, ok := b.X.(*ast.Ident)
		return ok && x.Name == "err"
	}
	isLog := func(s string) bool { return len(s) > 4 && (s[:4] == "log." || s[:4] == "fmt.") }
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok != token.IMPORT
		case *ast.IfStmt:
			if n.Init == nil {
				c := text(n.Cond)
				leaves := false
				for _, s := range n.Body.List {
					switch s.(type) {
					case *ast.ReturnStmt, *ast.BranchStmt:
						leaves = true
					}
				}
				kind := "never"
				if isErr(n.Cond) {
					kind = "never-err"
				}
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")", kind)
				if !leaves {
					add(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")", "always")
				}
			}
		case *ast.BinaryExpr:
			m := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
				token.ADD: {"-"}, token.SUB: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="}}
			if isErr(n) {
				return true
			}
			for _, t := range m[n.Op] {
				if n.Op == token.ADD {
					if l, ok := n.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
					if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "op "+n.Op.String()+t)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n.Pos(), n.End(), text(n.X), "left only")
				add(n.Pos(), n.End(), text(n.Y), "right only")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n.Pos(), n.End(), "("+n.Value+"+1)", "plus one")
			}
		case *ast.ExprStmt:
			if !isLog(text(n)) {
				add(n.Pos(), n.End(), "", "drop statement")
			}
		case *ast.AssignStmt:
			if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN {
				add(n.Pos(), n.End(), "", "drop assignment")
			}
		case *ast.IncDecStmt:
			add(n.Pos(), n.End(), "", "drop step")
		case *ast.DeferStmt:
			add(n.Pos(), n.End(), "", "drop defer")
		case *ast.KeyValueExpr:
			if _, ok := n.Key.(*ast.Ident); ok {
				add(n.Pos(), n.End()+1, "", "drop field")
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				add(n.List[0].Pos(), n.List[1].Pos(), "", "drop case value")
			}
		case *ast.ForStmt:
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "false")
			} else if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "true")
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, e := range es {
			b, _ := json.Marshal(map[string]interface{}{"n": i, "line": e.line, "what": e.what, "old": string(src[e.from:e.to]), "new": e.text})
			fmt.Println(string(b))
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := es[k]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
