// Package instr rewrites Go source for the simulator: it inserts a yield call
// before every statement and redirects the few calls that would leave the
// simulation (locks, goroutines, channel operations, clock, process exit).
// Text is inserted in place, so line numbers stay as they are.
package instr

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Options of a rewrite.
type Options struct {
	Yield string // "Y" or "D"
	Sync  bool   // redirect sync, goroutines and channels
	Calls bool   // redirect clock and process exit
}

// Site is one yield point.
type Site struct {
	ID   int
	Pos  string
	Func string
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

// File rewrites one file; next is the first free site number.
func File(path string, src []byte, opt Options, next int) ([]byte, []Site, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, FakeImportC: true}
	files := []*ast.File{f}
	if opt.Sync {
		sib, _ := filepath.Glob(filepath.Join(filepath.Dir(path), "*.go"))
		for _, n := range sib {
			if n == path || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if g, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution); err == nil && g.Name.Name == f.Name.Name {
				files = append(files, g)
			}
		}
	}
	conf.Check(f.Name.Name, fset, files, info) // best effort, for channel types

	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p token.Pos, text string) {
		edits = append(edits, edit{off(p), off(p), text, len(edits)})
	}
	repl := func(a, b token.Pos, text string) {
		edits = append(edits, edit{off(a), off(b), text, len(edits)})
	}
	var sites []Site
	base := filepath.Base(path)
	used := false

	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = p
		if opt.Sync && p == "sync" {
			if im.Name != nil {
				repl(im.Path.Pos(), im.Path.End(), `"verif.local/sim/simrt/ssync"`)
			} else {
				repl(im.Path.Pos(), im.Path.End(), `sync "verif.local/sim/simrt/ssync"`)
			}
		}
	}

	fn := ""
	isChan := func(e ast.Expr) bool {
		if tv, ok := info.Types[e]; ok && tv.Type != nil {
			_, c := tv.Type.Underlying().(*types.Chan)
			return c
		}
		return false
	}
	tmp := 0
	generic := false // the rewritten file uses type parameters
	timers := false
	var list func(l []ast.Stmt)
	list = func(l []ast.Stmt) {
		for _, st := range l {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			p := st.Pos()
			sites = append(sites, Site{next, fmt.Sprintf("%s:%d", base, fset.Position(p).Line), fn})
			ins(p, fmt.Sprintf("simrt.%s(%d);", opt.Yield, next))
			next++
			used = true
			if !opt.Sync {
				continue
			}
			inner := st
			if sd, ok := st.(*ast.SendStmt); ok {
				ins(p, "simrt.Send(")
				repl(sd.Arrow, sd.Arrow+2, ",")
				ins(sd.End(), ")")
				generic = true
			}
			if ls, ok := st.(*ast.LabeledStmt); ok {
				inner = ls.Stmt
			}
			switch x := inner.(type) {
			case *ast.SelectStmt:
				hasDefault := false
				for _, c := range x.Body.List {
					if c.(*ast.CommClause).Comm == nil {
						hasDefault = true
					}
				}
				if !hasDefault {
					tmp++
					ins(p, fmt.Sprintf("simT%d := simrt.Enter();", tmp))
					for _, c := range x.Body.List {
						ins(c.(*ast.CommClause).Colon+1, fmt.Sprintf("simrt.Leave(simT%d);", tmp))
					}
				}
			case *ast.RangeStmt:
				if isChan(x.X) {
					tmp++
					repl(x.For, x.X.Pos(), fmt.Sprintf("for simC%d := ", tmp))
					as := fmt.Sprintf("_, simO%d := simrt.Recv2(simC%d)", tmp, tmp)
					if x.Key != nil {
						k := string(src[off(x.Key.Pos()):off(x.Key.End())])
						as = fmt.Sprintf("%s, simO%d := simrt.Recv2(simC%d)", k, tmp, tmp)
						if x.Tok == token.ASSIGN {
							as = fmt.Sprintf("var simO%d bool; %s, simO%d = simrt.Recv2(simC%d)", tmp, k, tmp, tmp)
						}
					}
					repl(x.Body.Lbrace, x.Body.Lbrace+1, fmt.Sprintf("; ; {%s; if !simO%d { break }; ", as, tmp))
					generic = true
				}
			case *ast.GoStmt:
				var pre, args []string
				for i, a := range x.Call.Args {
					t := string(src[off(a.Pos()):off(a.End())])
					switch b := a.(type) {
					case *ast.BasicLit:
						args = append(args, t)
						continue
					case *ast.Ident:
						if b.Name == "nil" {
							args = append(args, t)
							continue
						}
					case *ast.FuncLit:
						args = append(args, t)
						continue
					}
					v := fmt.Sprintf("simA%d_%d", next, i)
					pre = append(pre, v+" := "+t+";")
					args = append(args, v)
				}
				ell := ""
				if x.Call.Ellipsis.IsValid() {
					ell = "..."
				}
				// keep the callee's text in place (it may hold a literal with yields)
				repl(x.Go, x.Call.Fun.Pos(), "{"+strings.Join(pre, "")+"simrt.Go(func(){")
				repl(x.Call.Lparen, x.Call.End(), "("+strings.Join(args, ",")+ell+")})}")
			}
		}
	}
	// a loop without statements still has to yield
	empty := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			ins(b.Lbrace+1, fmt.Sprintf("simrt.%s(%d);", opt.Yield, next))
			sites = append(sites, Site{next, fmt.Sprintf("%s:%d", base, fset.Position(b.Lbrace).Line), fn})
			next++
			used = true
		}
	}
	touched := map[string]string{}
	two, comm := map[ast.Expr]bool{}, map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && opt.Sync && !comm[x] {
				name := "simrt.Recv("
				if two[x] {
					name = "simrt.Recv2("
				}
				repl(x.OpPos, x.OpPos+2, name)
				ins(x.End(), ")")
				generic, used = true, true
			}
		case *ast.ForStmt:
			empty(x.Body)
		case *ast.RangeStmt:
			empty(x.Body)
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			// the operation itself stays
			switch c := x.Comm.(type) {
			case *ast.ExprStmt:
				comm[ast.Unparen(c.X)] = true
			case *ast.AssignStmt:
				comm[ast.Unparen(c.Rhs[0])] = true
			}
			list(x.Body)
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || !opt.Calls || id.Obj != nil {
				break
			}
			to := ""
			switch imports[id.Name] + "." + x.Sel.Name {
			case "time.Now":
				to, touched[id.Name] = "simrt.TimeNow", "Now"
			case "time.Since":
				to, touched[id.Name] = "simrt.TimeSince", "Now"
			case "time.Sleep":
				to, touched[id.Name] = "simrt.TimeSleep", "Now"
			case "time.After", "time.AfterFunc", "time.NewTimer", "time.Tick", "time.NewTicker", "context.WithTimeout", "context.WithDeadline":
				timers = true
			case "runtime.NumCPU":
				to, touched[id.Name] = "simrt.NumCPU", "GC"
			case "runtime.GOMAXPROCS":
				to, touched[id.Name] = "simrt.GOMAXPROCS", "GC"
			case "runtime.Gosched":
				to, touched[id.Name] = "simrt.Gosched", "GC"
			case "os.Exit":
				to, touched[id.Name] = "simrt.Exit", "Exit"
			case "log.Fatal":
				to, touched[id.Name] = "simrt.Fatal", "Fatal"
			case "log.Fatalf":
				to, touched[id.Name] = "simrt.Fatalf", "Fatal"
			case "log.Fatalln":
				to, touched[id.Name] = "simrt.Fatalln", "Fatal"
			}
			if to != "" {
				used = true
				repl(x.Pos(), x.End(), to)
			}
		}
		return true
	})
	if timers {
		used = true
	}
	if used {
		ins(f.Name.End(), `;import simrt "verif.local/sim/simrt"`)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var out strings.Builder
	at := 0
	for _, e := range edits {
		if e.pos < at {
			// inside replaced text (arguments of a go statement): drop
			continue
		}
		out.Write(src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	for name, sym := range touched {
		fmt.Fprintf(&out, "\nvar _ = %s.%s\n", name, sym)
	}
	if timers {
		out.WriteString("\nfunc init() { simrt.Timers = true }\n")
	}
	text := out.String()
	if generic {
		text = upgrade(text, base)
	}
	return []byte(text), sites, nil
}

// upgrade makes the file's language new enough for type parameters, whatever
// the module says.
func upgrade(text, base string) string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//go:build ") {
			lines[i] = "//go:build (" + strings.TrimPrefix(t, "//go:build ") + ") && go1.21"
			return strings.Join(lines, "\n")
		}
		if strings.HasPrefix(t, "package ") {
			break
		}
	}
	return "//go:build go1.21\n\n//line " + base + ":1\n" + text
}

// Dir rewrites the non-test Go files of a directory; it returns the new text by
// file name.
func Dir(dir string, opt Options, next int) (map[string][]byte, []Site, error) {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, nil, err
	}
	sort.Strings(names)
	out := map[string][]byte{}
	var all []Site
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			return nil, nil, err
		}
		t, sites, err := File(n, src, opt, next+len(all))
		if err != nil {
			return nil, nil, err
		}
		all = append(all, sites...)
		out[n] = t
	}
	return out, all, nil
}

// Random: do the files of the directory use something whose outcome the Go
// runtime chooses at random: select with several cases, iteration over maps,
// math/rand.
func Random(dir string) bool {
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	pkgs := map[string][]*ast.File{}
	found := false
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		pkgs[f.Name.Name] = append(pkgs[f.Name.Name], f)
		for _, im := range f.Imports {
			switch p, _ := strconv.Unquote(im.Path.Value); p {
			case "math/rand", "math/rand/v2", "maps", "hash/maphash":
				found = true
			}
		}
	}
	for name, files := range pkgs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Error: func(error) {}, FakeImportC: true}
		conf.Check(name, fset, files, info)
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SelectStmt:
					c := 0
					for _, cl := range x.Body.List {
						if cc, ok := cl.(*ast.CommClause); ok && cc.Comm != nil {
							c++
						}
					}
					found = found || c > 1
				case *ast.RangeStmt:
					t := info.Types[x.X].Type
					if t == nil {
						found = true
						break
					}
					switch t.Underlying().(type) {
					case *types.Slice, *types.Array, *types.Basic, *types.Chan, *types.Pointer, *types.Signature:
						if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
							found = true
						}
					default:
						found = true
					}
				}
				return true
			})
		}
	}
	return found
}
