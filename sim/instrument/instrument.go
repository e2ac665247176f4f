// Package instrument rewrites the library's current sources into a build
// overlay: preemption points, and the seams behind which the simulator decides.
// The rewriting is textual (insertions at AST positions), so line numbers stay.
package instrument

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Site is one preemption point.
type Site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	// 1: touches state of the whole package, 2: fields of objects
	Shared int `json:"shared,omitempty"`
}

// Stats says what was rewritten.
type Stats struct {
	Files, Sites, MapRanges, SyncImports, FSCalls, GoStmts, Clocks int
	Weighed, Resets                                                int
	Channels, MapAccesses, SharedUpdates, RandImports              int
}

type edit struct {
	off, del int
	text     string
	prio     int
}

// Options of a rewriting.
type Options struct{ FS, Maps, Sync, Restart, Work bool }

var fsFuncs = map[string]string{"Open": "Open", "OpenFile": "OpenFile", "ReadFile": "ReadFile", "Stat": "Stat", "Lstat": "Lstat", "File": "File"}
var clockFuncs = map[string]string{"Now": "TimeNow", "Since": "TimeSince", "Sleep": "TimeSleep", "Until": "TimeUntil",
	"Timer": "Timer", "Ticker": "Ticker", "NewTimer": "NewTimer", "NewTicker": "NewTicker",
	"After": "After", "AfterFunc": "AfterFunc", "Tick": "Tick"}

// Run rewrites every package of the module at repo into out and writes
// out/overlay.json and out/sites.json.
func Run(repo, out string, opt Options) (*Stats, error) {
	st := &Stats{}
	overlay := map[string]string{}
	sites := []Site{{File: "(harness)"}}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return nil, err
	}
	var dirs []string
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		n := d.Name()
		if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "vendor" || n == "testdata") {
			return filepath.SkipDir
		}
		if p != repo {
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		dirs = append(dirs, p)
		return nil
	})
	if err != nil {
		return nil, err
	}
	ctx := build.Default
	for _, dir := range dirs {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
				continue
			}
			full := filepath.Join(dir, n)
			b, err := os.ReadFile(full)
			if err != nil {
				return nil, err
			}
			f, err := parser.ParseFile(fset, full, b, parser.ParseComments)
			if err != nil {
				return nil, fmt.Errorf("parse: %v", err)
			}
			if f.Name.Name == "main" {
				continue
			}
			files = append(files, f)
			names = append(names, full)
			srcs[full] = b
		}
		if len(files) == 0 {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		cfg := types.Config{Importer: &fallback{importer.Default()}, Error: func(error) {}, FakeImportC: true}
		cfg.Check(files[0].Name.Name, fset, files, info)
		live := liveVars(files, info)
		var resets map[*ast.File][]string
		if opt.Restart {
			resets = resetsOf(files, info, live, fset, srcs, st)
		}
		for i, f := range files {
			r := &rewriter{live: live, fset: fset, f: f, src: srcs[names[i]], info: info, opt: opt, st: st, sites: &sites, name: strings.TrimPrefix(names[i], repo+"/")}
			r.tail = resets[f]
			b := r.run()
			rel := strings.ReplaceAll(strings.TrimPrefix(names[i], repo+"/"), "/", "__")
			dst := filepath.Join(out, rel)
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				return nil, err
			}
			overlay[names[i]] = dst
			st.Files++
		}
	}
	st.Sites = len(sites)
	// the rewritten map ranges and pools use generics
	if gm, err := goMod(filepath.Join(repo, "go.mod")); err != nil {
		return nil, err
	} else if gm != nil {
		dst := filepath.Join(out, "go.mod.txt")
		if err := os.WriteFile(dst, gm, 0o644); err != nil {
			return nil, err
		}
		overlay[filepath.Join(repo, "go.mod")] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		return nil, err
	}
	b, _ = json.Marshal(sites)
	return st, os.WriteFile(filepath.Join(out, "sites.json"), b, 0o644)
}

// goMod returns go.mod with the language version raised to 1.21 (generics, but
// still one loop variable per loop), or nil if it is newer already.
func goMod(p string) ([]byte, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	lines := strings.Split(string(b), "\n")
	found := false
	for i, l := range lines {
		t := strings.Fields(l)
		if len(t) >= 2 && t[0] == "go" {
			found = true
			v := strings.Split(t[1], ".")
			if len(v) >= 2 {
				maj, _ := strconv.Atoi(v[0])
				min, _ := strconv.Atoi(v[1])
				if maj == 1 && min < 21 {
					lines[i] = "go 1.21"
				} else {
					return nil, nil
				}
			}
		}
	}
	if !found {
		lines = append(lines, "go 1.21")
	}
	return []byte(strings.Join(lines, "\n")), nil
}

type fallback struct{ i types.Importer }

func (f *fallback) Import(p string) (*types.Package, error) {
	if k, err := f.i.Import(p); err == nil {
		return k, nil
	}
	k := types.NewPackage(p, filepath.Base(p))
	k.MarkComplete()
	return k, nil
}

type rewriter struct {
	live  map[*types.Var]bool
	fset  *token.FileSet
	f     *ast.File
	src   []byte
	info  *types.Info
	opt   Options
	st    *Stats
	sites *[]Site
	name  string
	edits []edit
	fn    string
	used  map[string]bool
	tail  []string
	tmp   int
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) site(p token.Pos) int {
	*r.sites = append(*r.sites, Site{File: r.name, Line: r.fset.Position(p).Line, Func: r.fn})
	return len(*r.sites) - 1
}

func (r *rewriter) ins(p token.Pos, prio int, text string) {
	r.edits = append(r.edits, edit{r.off(p), 0, text, prio})
}

func (r *rewriter) repl(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to) - r.off(from), text, 5})
}

func (r *rewriter) importName(path string) string {
	for _, s := range r.f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if p == path {
			if s.Name != nil {
				return s.Name.Name
			}
			return filepath.Base(path)
		}
	}
	return ""
}

func (r *rewriter) y(s ast.Stmt) {
	if _, ok := s.(*ast.EmptyStmt); ok {
		return
	}
	if r.opt.Work {
		if w := r.work(s); w != "" {
			r.ins(s.Pos(), 9, w)
			r.st.Weighed++
		}
	}
	n := r.site(s.Pos())
	if k := r.sharedKind(s); k >= 0 {
		(*r.sites)[n].Shared = k + 1
		r.ins(s.Pos(), 9, fmt.Sprintf("simrt__.YS(%d, %d);", n, k))
		return
	}
	r.ins(s.Pos(), 9, fmt.Sprintf("simrt__.Y(%d);", n))
}

// work tells how much data a statement hands to functions that are not
// rewritten (append and copy, conversions, other packages), all in one step.
func (r *rewriter) work(s ast.Stmt) string {
	var roots []ast.Expr
	switch x := s.(type) {
	case *ast.ExprStmt:
		roots = append(roots, x.X)
	case *ast.AssignStmt:
		roots = append(roots, x.Rhs...)
	case *ast.ReturnStmt:
		roots = append(roots, x.Results...)
	case *ast.IfStmt:
		if x.Init == nil {
			roots = append(roots, x.Cond)
		}
	case *ast.SwitchStmt:
		if x.Init == nil && x.Tag != nil {
			roots = append(roots, x.Tag)
		}
	}
	var terms []string
	seen := map[string]bool{}
	sized := func(e ast.Expr) {
		y := e
		for {
			switch z := y.(type) {
			case *ast.SliceExpr:
				y = z.X
				continue
			case *ast.SelectorExpr:
				y = z.X
				continue
			case *ast.ParenExpr:
				y = z.X
				continue
			}
			break
		}
		id, ok := y.(*ast.Ident)
		if !ok {
			return
		}
		if _, ok := r.info.Uses[id].(*types.Var); !ok {
			return
		}
		simple := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.StarExpr:
				simple = false
			}
			return simple
		})
		t, ok := r.info.Types[e]
		if !ok || t.Type == nil || !simple {
			return
		}
		k := "len(" + r.text(e.Pos(), e.End()) + ")"
		switch u := t.Type.Underlying().(type) {
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Interface); !ok {
				if n := r.size(u.Elem()); n > 1 {
					k += "*" + strconv.Itoa(n)
				}
			}
		case *types.Map:
		case *types.Basic:
			if u.Kind() != types.String {
				return
			}
		default:
			return
		}
		if !seen[k] {
			seen[k] = true
			terms = append(terms, k)
		}
	}
	made := func(t types.Type, e ast.Expr) {
		s, ok := t.Underlying().(*types.Slice)
		if v := r.info.Types[e]; !ok || v.Value != nil || v.Type == nil || !types.Identical(v.Type, types.Typ[types.Int]) {
			return
		}
		simple := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				id, ok := x.Fun.(*ast.Ident)
				if !ok || id.Name != "len" && id.Name != "cap" {
					simple = false
				} else if _, ok := r.info.Uses[id].(*types.Builtin); !ok {
					simple = false
				}
			case *ast.FuncLit, *ast.UnaryExpr, *ast.StarExpr:
				simple = false
			}
			return simple
		})
		if simple {
			terms = append(terms, "("+r.text(e.Pos(), e.End())+")*"+strconv.Itoa(r.size(s.Elem())))
		}
	}
	for _, e := range roots {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				if x.Op == token.ADD {
					sized(x.X)
					sized(x.Y)
				}
			case *ast.CallExpr:
				if t, ok := r.info.Types[x.Fun]; ok && t.IsType() {
					for _, a := range x.Args {
						sized(a)
					}
					return true
				}
				switch f := x.Fun.(type) {
				case *ast.Ident:
					if _, ok := r.info.Uses[f].(*types.Builtin); ok && len(x.Args) > 1 && f.Name == "make" {
						if t, ok := r.info.Types[x.Args[0]]; ok && t.Type != nil {
							made(t.Type, x.Args[len(x.Args)-1])
						}
					} else if ok && len(x.Args) == 2 && (f.Name == "copy" || f.Name == "append" && x.Ellipsis.IsValid()) {
						sized(x.Args[1])
					}
				case *ast.SelectorExpr:
					fn, ok := r.info.Uses[f.Sel].(*types.Func)
					if !ok || fn.Pkg() == nil {
						return true
					}
					switch fn.Pkg().Path() {
					case "sync", "sync/atomic", "unsafe", "runtime":
						return true
					}
					if id, ok := f.X.(*ast.Ident); ok {
						if _, ok := r.info.Uses[id].(*types.PkgName); ok {
							for _, a := range x.Args {
								sized(a)
							}
						}
					}
				}
			}
			return true
		})
	}
	if len(terms) == 0 {
		return ""
	}
	return "if simrt__.Weigh { simrt__.W(func() int { return " + strings.Join(terms, "+") + " }) };"
}

// size is the number of bytes of a value, 1 if that is not fixed.
func (r *rewriter) size(t types.Type) (n int) {
	n = 1
	defer func() { recover() }()
	if _, ok := t.(*types.TypeParam); !ok {
		if k := int((&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(t)); k > 0 {
			n = k
		}
	}
	return n
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		r.y(s)
	}
}

func (r *rewriter) run() []byte {
	needRT := len(r.tail) > 0
	osN, ioN, tmN, rtN := r.importName("os"), r.importName("io/ioutil"), r.importName("time"), r.importName("runtime")
	needFS := false
	if r.opt.Sync {
		for _, s := range r.f.Imports {
			p, _ := strconv.Unquote(s.Path.Value)
			if p == "math/rand" || p == "math/rand/v2" {
				t := `"verif.local/sim/simrand"`
				if s.Name == nil {
					t = "rand " + t
				}
				r.repl(s.Path.Pos(), s.Path.End(), t)
				r.st.RandImports++
			}
			if p == "sync" {
				t := `"verif.local/sim/simsync"`
				if s.Name == nil {
					t = "sync " + t
				}
				r.repl(s.Path.Pos(), s.Path.End(), t)
				r.st.SyncImports++
			}
		}
	}
	usedKeep := map[string]bool{}
	two := map[*ast.UnaryExpr]bool{}
	skipSel := map[*ast.SelectStmt]bool{}
	written := map[*ast.IndexExpr]bool{}
	target := func(e ast.Expr) {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if x, ok := e.(*ast.IndexExpr); ok {
			written[x] = true
		}
	}
	for _, d := range r.f.Decls {
		r.fn = ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			r.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				r.fn = typeName(fd.Recv.List[0].Type) + "." + r.fn
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				if len(x.List) > 0 {
					needRT = true
				}
				r.list(x.List)
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					needRT = true
				}
				r.list(x.Body)
			case *ast.CommClause:
				if len(x.Body) > 0 {
					needRT = true
				}
				r.list(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					needRT = true
					r.ins(x.Body.Lbrace+1, 1, fmt.Sprintf("simrt__.Y(%d);", r.site(x.Body.Lbrace)))
				}
			case *ast.RangeStmt:
				if len(x.Body.List) == 0 {
					needRT = true
					r.ins(x.Body.Lbrace+1, 1, fmt.Sprintf("simrt__.Y(%d);", r.site(x.Body.Lbrace)))
				}
				if r.opt.Maps && r.isMap(x.X) {
					r.mapRange(x)
					needRT = true
				}
				if t, ok := r.info.Types[x.X]; ok && t.Type != nil {
					if _, ok := t.Type.Underlying().(*types.Chan); ok {
						r.chanRange(x)
						needRT = true
					}
				}
			case *ast.GoStmt:
				r.goStmt(x)
				needRT = true
			case *ast.LabeledStmt:
				if s, ok := x.Stmt.(*ast.SelectStmt); ok {
					skipSel[s] = true // its label would be lost
				}
			case *ast.SelectStmt:
				if !skipSel[x] {
					r.selectStmt(x)
					needRT = true
				}
			case *ast.SendStmt:
				// ch <- v  ->  simrt.Send(ch)(v)
				r.ins(x.Chan.Pos(), 2, "simrt__.Send(")
				r.repl(x.Arrow, x.Arrow+2, ")(")
				r.ins(x.Value.End(), 1, ")")
				r.st.Channels++
				needRT = true
			case *ast.IndexExpr:
				if r.opt.Maps && r.isMap(x.X) {
					r.mapAccess(x.X, written[x])
					needRT = true
				}
			case *ast.IncDecStmt:
				target(x.X)
				if r.shared(x.X) {
					op := map[token.Token]string{token.INC: "+", token.DEC: "-"}[x.Tok]
					r.repl(x.TokPos, x.TokPos+2, fmt.Sprintf(" = simrt__.Mid(%d, %d, %s) %s 1", r.site(x.Pos()), r.kindOf(x.X), r.text(x.X.Pos(), x.X.End()), op))
					r.st.SharedUpdates++
					needRT = true
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					target(l)
				}
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.shared(x.Lhs[0]) {
					l := r.text(x.Lhs[0].Pos(), x.Lhs[0].End())
					if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
						op := strings.TrimSuffix(x.Tok.String(), "=")
						r.repl(x.TokPos, x.TokPos+token.Pos(len(op)+1), fmt.Sprintf("= simrt__.Mid(%d, %d, %s) %s (", r.site(x.Pos()), r.kindOf(x.Lhs[0]), l, op))
						r.ins(x.Rhs[0].End(), 0, ")")
						r.st.SharedUpdates++
						needRT = true
					} else if c, ok := x.Rhs[0].(*ast.CallExpr); ok && x.Tok == token.ASSIGN && len(c.Args) > 0 {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && r.text(c.Args[0].Pos(), c.Args[0].End()) == l {
							r.ins(c.Args[0].Pos(), 2, fmt.Sprintf("simrt__.Mid(%d, %d, ", r.site(x.Pos()), r.kindOf(x.Lhs[0])))
							r.ins(c.Args[0].End(), 1, ")")
							r.st.SharedUpdates++
							needRT = true
						}
					}
				}
				if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
					if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						two[u] = true
					}
				}
			case *ast.ValueSpec:
				if len(x.Names) == 2 && len(x.Values) == 1 {
					if u, ok := x.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						two[u] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					f := "simrt__.Recv("
					if two[x] {
						f = "simrt__.Recv2("
					}
					r.repl(x.OpPos, x.OpPos+2, f)
					r.ins(x.X.End(), 1, ")")
					r.st.Channels++
					needRT = true
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(x.Args) > 0 && r.opt.Maps && r.isMap(x.Args[0]) {
					if t, ok := r.info.Types[x.Fun]; ok && t.IsBuiltin() {
						r.mapAccess(x.Args[0], true)
						needRT = true
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
					if t, ok := r.info.Types[x.Fun]; ok && t.IsBuiltin() {
						r.repl(id.Pos(), id.End(), "simrt__.Close")
						r.st.Channels++
						needRT = true
					}
				}
			case *ast.SelectorExpr:
				id, ok := x.X.(*ast.Ident)
				if !ok || id.Obj != nil {
					return true
				}
				if r.opt.FS && osN != "" && id.Name == osN {
					if t, ok := fsFuncs[x.Sel.Name]; ok {
						r.repl(x.Pos(), x.End(), "simfs__."+t)
						needFS = true
						usedKeep["var _ = "+osN+".ErrNotExist"] = true
						r.st.FSCalls++
					}
				}
				if r.opt.FS && ioN != "" && id.Name == ioN && x.Sel.Name == "ReadFile" {
					r.repl(x.Pos(), x.End(), "simfs__.ReadFile")
					needFS = true
					usedKeep["var _ = "+ioN+".Discard"] = true
					r.st.FSCalls++
				}
				if tmN != "" && id.Name == tmN {
					if t, ok := clockFuncs[x.Sel.Name]; ok {
						r.repl(x.Pos(), x.End(), "simrt__."+t)
						needRT = true
						usedKeep["var _ "+tmN+".Duration"] = true
						r.st.Clocks++
					}
				}
				if rtN != "" && id.Name == rtN && x.Sel.Name == "Gosched" {
					r.repl(x.Pos(), x.End(), "simrt__.Gosched")
					needRT = true
					usedKeep["var _ = "+rtN+".GOOS"] = true
				}
			}
			return true
		})
	}
	imp := ""
	if needRT {
		imp += `; import simrt__ "verif.local/sim/simrt"`
	}
	if needFS {
		imp += `; import simfs__ "verif.local/sim/simfs"`
	}
	if imp != "" {
		r.ins(r.f.Name.End(), 0, imp)
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		return r.edits[i].prio > r.edits[j].prio
	})
	var b bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.off < at {
			continue // inside a replaced span
		}
		b.Write(r.src[at:e.off])
		b.WriteString(e.text)
		at = e.off + e.del
	}
	b.Write(r.src[at:])
	for _, t := range r.tail {
		b.WriteString("\n" + t + "\n")
	}
	var keep []string
	for k := range usedKeep {
		keep = append(keep, k)
	}
	sort.Strings(keep)
	for _, k := range keep {
		b.WriteString("\n" + k + "\n")
	}
	return b.Bytes()
}

func typeName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return typeName(x.X)
	case *ast.Ident:
		return x.Name
	case *ast.IndexExpr:
		return typeName(x.X)
	}
	return ""
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t, ok := r.info.Types[e]
	if !ok || t.Type == nil {
		return false
	}
	_, ok = t.Type.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) kindOf(e ast.Expr) int {
	if _, ok := e.(*ast.Ident); ok {
		return 0
	}
	return 1
}

// sharedKind says what shared state the statement itself touches (not the
// blocks inside it): 0 variables of the package and locks, 1 fields reached
// through a pointer, -1 neither.
func (r *rewriter) sharedKind(s ast.Stmt) int {
	kind := -1
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectStmt, *ast.SendStmt, *ast.GoStmt:
			kind = 0
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				kind = 0
			}
		case *ast.Ident:
			if v, ok := r.info.Uses[x].(*types.Var); ok && r.live[v] {
				kind = 0
			}
		case *ast.SelectorExpr:
			if sel, ok := r.info.Selections[x]; ok {
				if sel.Kind() == types.FieldVal {
					if _, ok := sel.Recv().Underlying().(*types.Pointer); ok && kind < 0 {
						kind = 1
					}
				} else if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && (f.Pkg().Path() == "sync" || f.Pkg().Path() == "sync/atomic") {
					kind = 0
				}
			} else if f, ok := r.info.Uses[x.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" {
				kind = 0
			}
		}
		return true
	})
	return kind
}

// liveVars finds the variables of the package that may change: all but those
// that are only indexed, measured, ranged over or read as a plain value.
func liveVars(files []*ast.File, info *types.Info) map[*types.Var]bool {
	live := map[*types.Var]bool{}
	for _, f := range files {
		quiet := map[*ast.Ident]bool{}
		mark := func(e ast.Expr) {
			if id, ok := e.(*ast.Ident); ok {
				quiet[id] = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if i, ok := l.(*ast.IndexExpr); ok {
						if id, ok := i.X.(*ast.Ident); ok {
							quiet[id] = false
						}
					}
				}
			case *ast.IncDecStmt:
				if i, ok := x.X.(*ast.IndexExpr); ok {
					if id, ok := i.X.(*ast.Ident); ok {
						quiet[id] = false
					}
				}
			case *ast.UnaryExpr:
				if i, ok := x.X.(*ast.IndexExpr); ok && x.Op == token.AND {
					if id, ok := i.X.(*ast.Ident); ok {
						quiet[id] = false
					}
				}
			case *ast.IndexExpr:
				if id, ok := x.X.(*ast.Ident); ok {
					if _, set := quiet[id]; !set {
						quiet[id] = true
					}
				}
			case *ast.RangeStmt:
				mark(x.X)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" && len(x.Args) == 1 {
					mark(x.Args[0])
				}
			}
			return true
		})
		plain := map[*ast.Ident]bool{} // written or addressed
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						plain[id] = true
					}
				}
			case *ast.IncDecStmt:
				if id, ok := x.X.(*ast.Ident); ok {
					plain[id] = true
				}
			case *ast.UnaryExpr:
				if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND {
					plain[id] = true
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok {
					plain[id] = true
				}
			}
			return true
		})
		for id, o := range info.Uses {
			v, ok := o.(*types.Var)
			if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || id.Pos() < f.Pos() || id.Pos() > f.End() {
				continue
			}
			switch v.Type().Underlying().(type) {
			case *types.Map, *types.Chan:
				live[v] = true
			case *types.Basic, *types.Interface, *types.Signature:
				if plain[id] {
					live[v] = true
				}
			default:
				if !quiet[id] || plain[id] {
					live[v] = true
				}
			}
		}
	}
	return live
}

// resetsOf writes, for each file, what gives the variables of the package that
// may change the values they have when a process starts. A package with init
// functions gets none.
func resetsOf(files []*ast.File, info *types.Info, live map[*types.Var]bool, fset *token.FileSet, srcs map[string][]byte, st *Stats) map[*ast.File][]string {
	out := map[*ast.File][]string{}
	fileOf := func(p token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= p && p < f.FileEnd {
				return f
			}
		}
		return nil
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				return nil
			}
		}
	}
	n := 0
	add := func(f *ast.File, order int, text string) {
		out[f] = append(out[f], fmt.Sprintf("func init() { simrt__.OnRestart(%d, func() { %s }) }", order, text))
		n++
	}
	given := map[*types.Var]bool{}
	for i, in := range info.InitOrder {
		hot := false
		var lhs []string
		for _, v := range in.Lhs {
			given[v] = true
			hot = hot || live[v]
			lhs = append(lhs, v.Name())
		}
		f := fileOf(in.Rhs.Pos())
		if !hot || f == nil {
			continue
		}
		name := fset.Position(f.Pos()).Filename
		from, to := fset.Position(in.Rhs.Pos()).Offset, fset.Position(in.Rhs.End()).Offset
		add(f, 1000+i, strings.Join(lhs, ", ")+" = "+string(srcs[name][from:to]))
	}
	for id, o := range info.Defs {
		v, ok := o.(*types.Var)
		if !ok || !live[v] || given[v] || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || v.Name() == "_" {
			continue
		}
		if f := fileOf(id.Pos()); f != nil {
			add(f, 0, "simrt__.Zero(&"+v.Name()+")")
		}
	}
	for _, l := range out {
		sort.Strings(l)
	}
	st.Resets += n
	return out
}

// shared says that e is a variable other clients may reach: one of the package,
// or a field. Only names and chains of names, which may be evaluated twice.
func (r *rewriter) shared(e ast.Expr) bool {
	if !r.opt.Maps {
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.SelectorExpr:
		s, ok := r.info.Selections[x]
		if !ok || s.Kind() != types.FieldVal {
			return false
		}
		for e := x.X; ; {
			switch y := e.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				e = y.X
				continue
			}
			return false
		}
	}
	return false
}

// mapAccess marks the time during which a map is read or written.
func (r *rewriter) mapAccess(m ast.Expr, write bool) {
	f := "MR"
	if write {
		f = "MW"
	}
	r.ins(m.Pos(), 2, fmt.Sprintf("simrt__.%s(%d, ", f, r.site(m.Pos())))
	r.ins(m.End(), 1, ")")
	r.st.MapAccesses++
}

// mapRange turns "for k, v := range m {" into an iteration in simulator order.
func (r *rewriter) mapRange(x *ast.RangeStmt) {
	r.tmp++
	it := fmt.Sprintf("mapIt__%d", r.tmp)
	expr := string(r.src[r.off(x.X.Pos()):r.off(x.X.End())])
	bind := ""
	op := " = "
	if x.Tok == token.DEFINE {
		op = " := "
	}
	id := func(e ast.Expr) (string, bool) {
		if e == nil {
			return "", false
		}
		s := string(r.src[r.off(e.Pos()):r.off(e.End())])
		return s, s != "_"
	}
	if k, ok := id(x.Key); ok {
		bind += k + op + it + ".K;"
	}
	if v, ok := id(x.Value); ok {
		bind += v + op + it + ".V;"
	}
	r.edits = append(r.edits, edit{r.off(x.For), r.off(x.Body.Lbrace) + 1 - r.off(x.For), fmt.Sprintf("for %s := simrt__.MapRange(%s); %s.Next(); {%s", it, expr, it, bind), 5})
	r.st.MapRanges++
}

func (r *rewriter) text(from, to token.Pos) string { return string(r.src[r.off(from):r.off(to)]) }

// chanRange turns "for v := range ch {" into receives.
func (r *rewriter) chanRange(x *ast.RangeStmt) {
	r.tmp++
	r.st.Channels++
	ch, ok := fmt.Sprintf("chR__%d", r.tmp), fmt.Sprintf("chOK__%d", r.tmp)
	k := "_"
	if x.Key != nil {
		k = r.text(x.Key.Pos(), x.Key.End())
	}
	recv := fmt.Sprintf("%s, %s := simrt__.Recv2(%s); if !%s { break };", k, ok, ch, ok)
	if x.Key != nil && x.Tok == token.ASSIGN {
		recv = fmt.Sprintf("var %s bool; %s, %s = simrt__.Recv2(%s); if !%s { break };", ok, k, ok, ch, ok)
	}
	r.edits = append(r.edits, edit{r.off(x.For), r.off(x.Body.Lbrace) + 1 - r.off(x.For), fmt.Sprintf("for %s := %s; ; { %s", ch, r.text(x.X.Pos(), x.X.End()), recv), 5})
}

// selectStmt turns a select into a switch over the simulator's choice.
func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	r.tmp++
	r.st.Channels++
	sel := fmt.Sprintf("sel__%d", r.tmp)
	setup := fmt.Sprintf("{ %s := simrt__.NewSel(); ", sel)
	def := "false"
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		head := ""
		recv := func(e ast.Expr) string {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u := e.(*ast.UnaryExpr)
			return fmt.Sprintf("%s_%d := simrt__.SelRecv(%s, %s); _ = %s_%d; ", sel, n, sel, r.text(u.X.Pos(), u.X.End()), sel, n)
		}
		switch s := cc.Comm.(type) {
		case nil:
			def = "true"
			head = "default:"
		case *ast.SendStmt:
			setup += fmt.Sprintf("simrt__.SelSend(%s, %s)(%s); ", sel, r.text(s.Chan.Pos(), s.Chan.End()), r.text(s.Value.Pos(), s.Value.End()))
			head = fmt.Sprintf("case %d:", n)
			n++
		case *ast.ExprStmt:
			setup += recv(s.X)
			head = fmt.Sprintf("case %d:", n)
			n++
		case *ast.AssignStmt:
			setup += recv(s.Rhs[0])
			f := "Val"
			if len(s.Lhs) == 2 {
				f = "Val2"
			}
			head = fmt.Sprintf("case %d: %s %s %s_%d.%s();", n, r.text(s.Lhs[0].Pos(), s.Lhs[len(s.Lhs)-1].End()), s.Tok, sel, n, f)
			n++
		}
		r.edits = append(r.edits, edit{r.off(cc.Case), r.off(cc.Colon) + 1 - r.off(cc.Case), head, 5})
	}
	r.edits = append(r.edits, edit{r.off(x.Select), r.off(x.Body.Lbrace) + 1 - r.off(x.Select), setup + fmt.Sprintf("switch %s.Choose(%s) {", sel, def), 5})
	r.ins(x.Body.Rbrace, 0, "}")
}

// goStmt evaluates the call's function and arguments now and hands the call to
// the scheduler.
func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.st.GoStmts++
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		// go func() {...}()  ->  simrt.Go(func() {...})
		r.repl(x.Go, fl.Pos(), "simrt__.Go(")
		r.repl(fl.End(), x.End(), ")")
		return
	}
	var pre, args []string
	r.tmp++
	if len(x.Call.Args) > 0 {
		var vals []string
		for i, a := range x.Call.Args {
			n := fmt.Sprintf("goA__%d_%d", r.tmp, i)
			args = append(args, n)
			vals = append(vals, string(r.src[r.off(a.Pos()):r.off(a.End())]))
		}
		pre = append(pre, strings.Join(args, ",")+" := "+strings.Join(vals, ","))
	}
	ell := ""
	if x.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	// { args := ...; simrt.Go(func() { F(args) }) }
	r.repl(x.Go, x.Call.Fun.Pos(), "{"+strings.Join(pre, ";")+"; goF__ := ")
	r.repl(x.Call.Fun.End(), x.End(), "; simrt__.Go(func() { goF__("+strings.Join(args, ",")+ell+") }) }")
}
