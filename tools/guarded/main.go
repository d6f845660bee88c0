// Command guarded writes mutants of a Go file whose change takes effect only
// under a condition on the variables in scope (sizes, values, kinds of args),
// a development aid to find what the checks miss: guarded [-seed N] [-per N]
// DIR FILE OUTDIR writes OUTDIR/<n>.go and a line for each to OUTDIR/list.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	seed := flag.Int64("seed", 1, "")
	per := flag.Int("per", 1, "variants per place")
	flag.Parse()
	dir, base, out := flag.Arg(0), flag.Arg(1), flag.Arg(2)
	r := rand.New(rand.NewSource(*seed))
	fset := token.NewFileSet()
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		panic(err)
	}
	var files []*ast.File
	var f *ast.File
	for _, n := range bp.GoFiles {
		x, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, x)
		if n == base {
			f = x
		}
	}
	src, _ := os.ReadFile(filepath.Join(dir, base))
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
	pkg, _ := conf.Check(bp.ImportPath, fset, files, info)

	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	n := 0
	helper := fmt.Sprintf(`package %s

import "os"

var verifSeen bool

// verifG notes that the condition of the mutant was met.
func verifG(b bool) bool {
	if b && !verifSeen {
		verifSeen = true
		if f := os.Getenv("VERIF_MARK"); f != "" {
			os.WriteFile(f, nil, 0o644)
		}
	}
	return b
}
func verifInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
func verifCut(b bool, s string) string {
	if b && len(s) > 0 {
		return s[:len(s)-1]
	}
	return s
}
`, pkg.Name())
	os.WriteFile(filepath.Join(out, "helper.go"), []byte(helper), 0o644)
	list, _ := os.Create(filepath.Join(out, "list"))
	emit := func(from, to token.Pos, repl, desc string) {
		a, b := off(from), off(to)
		m := string(src[:a]) + repl + string(src[b:])
		if err := os.WriteFile(filepath.Join(out, strconv.Itoa(n)+".go"), []byte(m), 0o644); err != nil {
			panic(err)
		}
		old := string(src[a:b])
		if len(old) > 60 {
			old = old[:60] + "..."
		}
		if len(repl) > 160 {
			repl = repl[:160] + "..."
		}
		fmt.Fprintf(list, "%d\t%d\t%s: %q -> %q\n", n, fset.Position(from).Line, desc, old, repl)
		n++
	}
	ks := []int{1, 2, 3, 4, 5, 6, 8, 12, 16, 20, 33, 64}
	k := func() int { return ks[r.Intn(len(ks))] }
	var atom func(e string, t types.Type, depth int) string
	atom = func(e string, t types.Type, depth int) string {
		if t.String() == "error" || strings.HasSuffix(t.String(), "go-sqlf/v2.Context") && depth > 0 {
			return ""
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				switch r.Intn(5) {
				case 0:
					return fmt.Sprintf("len(%s) == %d", e, r.Intn(4))
				case 1:
					return fmt.Sprintf("(len(%s) > 0 && %s[len(%s)-1] >= 0x80)", e, e, e)
				case 2:
					return fmt.Sprintf("(len(%s) > 1 && %s[0] == %s[len(%s)-1])", e, e, e, e)
				}
				return fmt.Sprintf("len(%s) > %d", e, k())
			case u.Info()&types.IsInteger != 0:
				if _, named := t.(*types.Named); named {
					return fmt.Sprintf("%s == %d", e, r.Intn(4))
				}
				switch r.Intn(3) {
				case 0:
					return fmt.Sprintf("%s == %d", e, r.Intn(8))
				}
				return fmt.Sprintf("%s > %d", e, k()&127)
			case u.Info()&types.IsBoolean != 0:
				return []string{"", "!"}[r.Intn(2)] + e
			case u.Info()&types.IsFloat != 0:
				return fmt.Sprintf("%s > %d", e, k())
			}
		case *types.Slice, *types.Map:
			if r.Intn(3) == 0 {
				return fmt.Sprintf("len(%s) == %d", e, r.Intn(5))
			}
			return fmt.Sprintf("len(%s) > %d", e, k())
		case *types.Interface:
			if u.NumMethods() == 0 {
				ty := []string{"[]byte", "string", "float64", "bool", "int64", "uint64"}[r.Intn(6)]
				return fmt.Sprintf("func() bool { _, ok := any(%s).(%s); return ok }()", e, ty)
			}
			return e + []string{" == nil", " != nil"}[r.Intn(2)]
		case *types.Pointer:
			if s, ok := u.Elem().Underlying().(*types.Struct); ok && depth < 2 && s.NumFields() > 0 {
				var c []string
				for i := 0; i < s.NumFields(); i++ {
					fl := s.Field(i)
					if n := fl.Name(); n == "funcs" || n == "errors" || n == "argStore" || n == "touches" || n == "parent" {
						continue
					}
					if !fl.Exported() && fl.Pkg() != pkg || fl.Name() == "_" {
						continue
					}
					if g := atom(e+"."+fl.Name(), fl.Type(), depth+1); g != "" {
						c = append(c, "("+e+" != nil && "+g+")")
					}
				}
				if len(c) > 0 {
					return c[r.Intn(len(c))]
				}
			}
		case *types.Struct:
			if depth < 2 {
				var c []string
				for i := 0; i < u.NumFields(); i++ {
					fl := u.Field(i)
					if !fl.Exported() && fl.Pkg() != pkg || fl.Name() == "_" {
						continue
					}
					if g := atom(e+"."+fl.Name(), fl.Type(), depth+1); g != "" {
						c = append(c, g)
					}
				}
				if len(c) > 0 {
					return c[r.Intn(len(c))]
				}
			}
		}
		return ""
	}
	guards := func(pos token.Pos) []string {
		var gs []string
		seen := map[string]bool{}
		for s := pkg.Scope().Innermost(pos); s != nil && s != pkg.Scope(); s = s.Parent() {
			names := s.Names()
			sort.Strings(names)
			for _, nm := range names {
				v, ok := s.Lookup(nm).(*types.Var)
				if !ok || nm == "_" || seen[nm] {
					continue
				}
				if _, at := s.LookupParent(nm, pos); at == nil || at.Pos() >= pos {
					continue
				}
				seen[nm] = true
				for i := 0; i < 2; i++ {
					if g := atom(nm, v.Type(), 0); g != "" {
						gs = append(gs, g)
					}
				}
			}
		}
		return gs
	}
	guard := func(pos token.Pos) string {
		gs := guards(pos)
		if len(gs) == 0 {
			return ""
		}
		g := gs[r.Intn(len(gs))]
		if r.Intn(3) == 0 {
			g = "(" + g + " && " + gs[r.Intn(len(gs))] + ")"
		}
		return g
	}
	each := func(pos token.Pos, fn func(g string)) {
		for i := 0; i < *per; i++ {
			if g := guard(pos); g != "" {
				fn("verifG(" + g + ")")
			}
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			s := s
			drop := false
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				drop = true
			case *ast.AssignStmt:
				drop = s.Tok != token.DEFINE
			}
			if drop {
				each(s.Pos(), func(g string) {
					emit(s.Pos(), s.End(), "if !("+g+") {\n"+text(s)+"\n}", "drop")
				})
			}
		}
	}
	isErr := func(c *ast.CallExpr) bool {
		switch text(c.Fun) {
		case "fmt.Errorf", "errors.New", "p.syntaxError", "panic":
			return true
		}
		return false
	}
	ast.Inspect(f, func(x ast.Node) bool {
		if c, ok := x.(*ast.CallExpr); ok && isErr(c) {
			return false
		}
		switch x := x.(type) {
		case *ast.IfStmt:
			each(x.Cond.Pos(), func(g string) {
				op := []string{"(%s) != (%s)", "(%s) && !(%s)", "(%s) || (%s)"}[r.Intn(3)]
				emit(x.Cond.Pos(), x.Cond.End(), fmt.Sprintf(op, text(x.Cond), g), "cond")
			})
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.ForStmt:
			each(x.Body.Lbrace+1, func(g string) {
				kind := []string{"break", "continue"}[r.Intn(2)]
				if x.Cond == nil || x.Post == nil {
					kind = "break"
				}
				emit(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif "+g+" {\n"+kind+"\n}\n", "loop")
			})
		case *ast.RangeStmt:
			each(x.Body.Lbrace+1, func(g string) {
				emit(x.Body.Lbrace+1, x.Body.Lbrace+1, "\nif "+g+" {\n"+[]string{"break", "continue"}[r.Intn(2)]+"\n}\n", "loop")
			})
		case ast.Expr:
			// handled by the parents
		}
		var args []ast.Expr
		switch x := x.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); !ok || id.Name != "make" && id.Name != "len" && id.Name != "cap" {
				args = x.Args
			}
		case *ast.ReturnStmt:
			args = x.Results
		case *ast.IndexExpr:
			args = []ast.Expr{x.Index}
		case *ast.SliceExpr:
			for _, e := range []ast.Expr{x.Low, x.High} {
				if e != nil {
					args = append(args, e)
				}
			}
		case *ast.AssignStmt:
			args = x.Rhs
			if len(x.Rhs) != len(x.Lhs) {
				args = nil
			}
		}
		for _, e := range args {
			e := e
			tv, ok := info.Types[e]
			if !ok || tv.Type == nil || tv.IsType() {
				continue
			}
			b, ok := tv.Type.(*types.Basic)
			if !ok {
				continue
			}
			switch {
			case b.Kind() == types.Int || b.Kind() == types.UntypedInt:
				each(e.Pos(), func(g string) { emit(e.Pos(), e.End(), text(e)+" + verifInt("+g+")", "int") })
			case b.Kind() == types.String || b.Kind() == types.UntypedString:
				if l, ok := e.(*ast.BasicLit); ok && strings.HasPrefix(l.Value, "\"\"") {
					continue
				}
				each(e.Pos(), func(g string) { emit(e.Pos(), e.End(), "verifCut("+g+", "+text(e)+")", "cut") })
			case b.Kind() == types.Bool:
				each(e.Pos(), func(g string) { emit(e.Pos(), e.End(), "("+text(e)+") != ("+g+")", "bool") })
			}
		}
		return true
	})
	fmt.Println(base, n)
}
