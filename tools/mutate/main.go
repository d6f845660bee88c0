// Command mutate writes mutants of a Go file, a development aid to find what
// the checks miss: mutate FILE OUTDIR writes OUTDIR/<n>.go and prints a line
// "<n>\t<line>\t<description>" for each.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

func main() {
	file, out := os.Args[1], os.Args[2]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	n := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(from, to token.Pos, repl, desc string) {
		a, b := off(from), off(to)
		m := string(src[:a]) + repl + string(src[b:])
		if err := os.WriteFile(filepath.Join(out, strconv.Itoa(n)+".go"), []byte(m), 0o644); err != nil {
			panic(err)
		}
		old := string(src[a:b])
		if len(old) > 60 {
			old = old[:60] + "..."
		}
		fmt.Printf("%d\t%d\t%s: %q -> %q\n", n, fset.Position(from).Line, desc, old, repl)
		n++
	}
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	swaps := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
				emit(s.Pos(), s.End(), "", "delete")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "", "delete")
				}
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
				emit(s.Pos(), s.End(), "", "delete")
			case *ast.ReturnStmt:
				if i < len(list) && len(s.Results) == 0 {
					emit(s.Pos(), s.End(), "", "delete")
				}
			}
			if i+1 < len(list) {
				t := list[i+1]
				switch s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
					switch t.(type) {
					case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
						emit(s.Pos(), t.End(), text(t)+"\n"+text(s), "swap")
					}
				}
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		// not the texts of errors
		if c, ok := x.(*ast.CallExpr); ok {
			switch text(c.Fun) {
			case "fmt.Errorf", "errors.New", "p.syntaxError", "panic":
				return false
			}
		}
		switch x := x.(type) {
		case *ast.BinaryExpr:
			for _, r := range swaps[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), "("+text(x.X)+")", "left only")
				emit(x.Pos(), x.End(), "("+text(x.Y)+")", "right only")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x.Pos(), x.End(), text(x.X), "drop not")
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
			emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "drop else")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.List) > 0 {
				emit(x.Pos(), x.End(), "", "drop case")
			}
			if len(x.List) > 1 {
				for i, e := range x.List {
					if i > 0 {
						emit(x.List[i-1].End(), e.End(), "", "drop of case list")
					}
				}
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				emit(x.Pos(), x.End(), "("+x.Value+"+1)", "int")
				if x.Value != "0" {
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", "int")
				}
			case token.STRING:
				if len(x.Value) > 2 {
					emit(x.Pos(), x.End(), `""`, "string")
				} else {
					emit(x.Pos(), x.End(), `"x"`, "string")
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				emit(x.Pos(), x.End(), "false", "bool")
			case "false":
				emit(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				r := x.Results[k-1]
				if id, ok := r.(*ast.Ident); !ok || id.Name != "nil" {
					emit(r.Pos(), r.End(), "nil", "return nil")
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 1 {
				emit(x.Pos(), x.End(), text(x.Args[0]), "no append")
			}
			if len(x.Args) > 1 {
				for i := 0; i+1 < len(x.Args); i++ {
					emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap args")
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil || x.High != nil {
				emit(x.Pos(), x.End(), text(x.X), "no slicing")
			}
			if x.Slice3 {
				emit(x.High.End(), x.Max.End(), "", "no cap")
			}
		}
		return true
	})
}
