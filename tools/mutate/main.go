// mutate makes small changes to a Go package, one at a time:
//
//	mutate DIR          lists them
//	mutate DIR N        makes the N-th in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file     string
	off, end int
	text     string
	what     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"},
}

func main() {
	dir := os.Args[1]
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(names)
	var all []mutant
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") || strings.Contains(name, "testing_utils") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(p, e token.Pos, text string) {
			all = append(all, mutant{name, off(p), off(e), text,
				fmt.Sprintf("%s:%d: %s -> %s", filepath.Base(name), fset.Position(p).Line, oneLine(string(src[off(p):off(e)])), oneLine(text))})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok == token.VAR || x.Tok == token.CONST
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1))
						if v > 0 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1))
						}
					}
				}
				if x.Kind == token.CHAR && x.Value != "' '" {
					add(x.Pos(), x.End(), "' '")
				}
			case *ast.IfStmt:
				c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
			case *ast.IncDecStmt:
				t := "++"
				if x.Tok == token.INC {
					t = "--"
				}
				add(x.TokPos, x.End(), t)
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						add(s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "")
						}
					case *ast.BranchStmt:
						add(s.Pos(), s.End(), "")
						if y.Tok == token.BREAK && y.Label == nil {
							add(s.Pos(), s.End(), "continue")
						}
						if y.Tok == token.CONTINUE && y.Label == nil {
							add(s.Pos(), s.End(), "break")
						}
					}
				}
			case *ast.SliceExpr:
				if x.High != nil && x.Max == nil {
					h := string(src[off(x.High.Pos()):off(x.High.End())])
					add(x.High.Pos(), x.High.End(), "("+h+")-1")
				}
				if x.Max != nil {
					add(x.High.End(), x.Max.End(), "")
				}
			case *ast.ReturnStmt:
				for _, e := range x.Results {
					if id, ok := e.(*ast.Ident); ok && id.Name == "err" {
						add(e.Pos(), e.End(), "nil")
					}
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, m := range all {
			fmt.Println(i, m.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := all[n]
	src, _ := os.ReadFile(m.file)
	out := string(src[:m.off]) + m.text + string(src[m.end:])
	if err := os.WriteFile(m.file, []byte(out), 0o644); err != nil {
		panic(err)
	}
	fmt.Println(m.what)
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60] + ".."
	}
	if s == "" {
		s = "(nothing)"
	}
	return s
}
