// verifbuild compiles the model-checking harness (/verif/mc) against the
// current working tree of /repo without touching it: everything goes in
// through a `go build -overlay`.
//
//   - the harness packages appear as github.com/recolude/rap/zzverif/...
//   - cmd/rap-cli appears as package zzverif/cli (package clause rewritten)
//   - the library's own sources are replaced by instrumented copies:
//     mode maps:  `range` over a map goes through vsched.Entries, so that the
//     harness owns map iteration order;
//     mode sched: additionally a scheduling point before every statement, and
//     sync locks become cooperative.
//
// If an instrumented copy does not type-check or compile, the plain sources
// are used instead (and the fact is reported to the harness).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/recolude/rap"
const vsImport = modPath + "/zzverif/vsched"

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Name       string
}

type edit struct {
	off, end int
	text     string
	prio     int
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	src := flag.String("src", "/verif/mc", "")
	work := flag.String("work", "", "")
	mode := flag.String("mode", "maps", "plain|maps|sched")
	out := flag.String("out", "", "")
	race := flag.Bool("race", false, "")
	flag.Parse()
	if err := os.MkdirAll(*work, 0o755); err != nil {
		die("%v", err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(*work, f), b, 0o644)
	}
	base := map[string]string{}
	filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*src, p)
			base[filepath.Join(*repo, "zzverif", rel)] = p
		}
		return nil
	})
	stats := ""
	ov := map[string]string{}
	if *mode != "plain" {
		var err error
		ov, stats, err = instrument(*repo, *work, *mode)
		if err != nil {
			fmt.Fprintf(os.Stderr, "instrumentation unavailable: %v\n", err)
			ov, stats = nil, "plain (instrumentation failed)"
		}
	} else {
		stats = "plain"
	}
	if ov != nil {
		if err := build(*repo, *work, *out, *race, base, ov, stats); err == nil {
			return
		} else if *mode == "plain" {
			die("%v", err)
		} else {
			fmt.Fprintf(os.Stderr, "instrumented build failed, trying plain sources: %v\n", err)
		}
	}
	if err := build(*repo, *work, *out, *race, base, map[string]string{}, "plain (instrumentation failed)"); err != nil {
		die("%v", err)
	}
}

func build(repo, work, out string, race bool, base, ov map[string]string, stats string) error {
	m := map[string]string{}
	for k, v := range base {
		m[k] = v
	}
	for k, v := range ov {
		m[k] = v
	}
	// the command line tool, as an importable package
	cliDir := filepath.Join(repo, "cmd/rap-cli")
	ents, err := os.ReadDir(cliDir)
	if err != nil {
		return err
	}
	n := 0
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		from := filepath.Join(cliDir, e.Name())
		if r, ok := ov[from]; ok {
			from = r
		}
		b, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, from, b, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		o := fset.Position(f.Name.Pos()).Offset
		nb := append([]byte{}, b[:o]...)
		nb = append(nb, "cli"...)
		nb = append(nb, b[o+len(f.Name.Name):]...)
		dst := filepath.Join(work, "cli_"+e.Name())
		os.WriteFile(dst, nb, 0o644)
		m[filepath.Join(repo, "zzverif/cli", e.Name())] = dst
		n++
	}
	ex := filepath.Join(work, "cli_export_zz.go")
	os.WriteFile(ex, []byte("package cli\n\nvar ZZBuildApp = BuildApp\nvar ZZRecordingFromCSV = RecordingFromCSV\n"), 0o644)
	m[filepath.Join(repo, "zzverif/cli/export_zz.go")] = ex
	inf := filepath.Join(work, "buildinfo.go")
	os.WriteFile(inf, []byte(fmt.Sprintf("package vsched\n\nconst BuildInfo = %q\nconst Foreign = %d\n", stats, foreign)), 0o644)
	m[filepath.Join(repo, "zzverif/vsched/buildinfo.go")] = inf
	j, _ := json.Marshal(map[string]interface{}{"Replace": m})
	ovf := filepath.Join(work, "overlay.json")
	os.WriteFile(ovf, j, 0o644)
	args := []string{"build", "-overlay", ovf, "-modfile", filepath.Join(work, "go.mod"), "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/main")
	c := exec.Command("go", args...)
	c.Dir = repo
	var eb bytes.Buffer
	c.Stdout, c.Stderr = &eb, &eb
	if err := c.Run(); err != nil {
		return fmt.Errorf("go build: %v\n%s", err, eb.String())
	}
	return nil
}

func instrument(repo, work, mode string) (map[string]string, string, error) {
	c := exec.Command("go", "list", "-modfile", filepath.Join(work, "go.mod"), "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Standard,Name", "./format/...", "./internal/...", "./cmd/rap-cli")
	c.Dir = repo
	var eb bytes.Buffer
	c.Stderr = &eb
	o, err := c.Output()
	if err != nil {
		return nil, "", fmt.Errorf("go list: %v %s", err, eb.String())
	}
	exports := map[string]string{}
	var todo []pkg
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, "", err
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, modPath+"/") && !strings.Contains(p.ImportPath, "/mocks") {
			todo = append(todo, p)
		}
	}
	ov := map[string]string{}
	nmaps, npoints, nlocks, nhot := 0, 0, 0, 0
	foreign = 0
	for _, p := range todo {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			b, err := os.ReadFile(fn)
			if err != nil {
				return nil, "", err
			}
			f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, "", err
			}
			files, names, srcs = append(files, f), append(names, fn), append(srcs, b)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			if strings.HasSuffix(names[i], ".pb.go") {
				continue
			}
			src := srcs[i]
			off := func(ps token.Pos) int { return fset.Position(ps).Offset }
			var eds []edit
			ids := 0
			switchBodies := map[*ast.BlockStmt]bool{}
			addPoints := func(list []ast.Stmt) {
				if mode != "sched" {
					return
				}
				for _, s := range list {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					pt := "zzvs.P(); "
					if hot(s, info) {
						pt = "zzvs.H(); "
						nhot++
					}
					eds = append(eds, edit{off(s.Pos()), off(s.Pos()), pt, 0})
					npoints++
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SwitchStmt:
					switchBodies[x.Body] = true
				case *ast.TypeSwitchStmt:
					switchBodies[x.Body] = true
				case *ast.SelectStmt:
					switchBodies[x.Body] = true
					foreign++
				case *ast.BlockStmt:
					if !switchBodies[x] {
						addPoints(x.List)
					}
				case *ast.CaseClause:
					addPoints(x.Body)
				case *ast.CommClause:
					addPoints(x.Body)
				case *ast.CallExpr:
					se, ok := x.Fun.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					fn, ok := info.Uses[se.Sel].(*types.Func)
					if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync" {
						return true
					}
					to := ""
					switch fn.FullName() {
					case "(*sync.Pool).Get":
						to = "PoolGet"
					case "(*sync.Pool).Put":
						to = "PoolPut"
					}
					if mode == "sched" {
						switch fn.FullName() {
						case "(*sync.Once).Do":
							to = "OnceDo"
						case "(*sync.WaitGroup).Add":
							to = "WGAdd"
						case "(*sync.WaitGroup).Done":
							to = "WGDone"
						case "(*sync.WaitGroup).Wait":
							to = "WGWait"
						case "(*sync.WaitGroup).Go":
							to = "WGGo"
						case "(*sync.Cond).Wait", "(sync.Locker).Lock":
							foreign++
						}
					}
					recv := syncRecv(se, info, src, off)
					if to == "" || recv == "" {
						return true
					}
					txt := "zzvs." + to + "(" + recv
					if len(x.Args) > 0 {
						txt += ", "
					}
					eds = append(eds, edit{off(x.Pos()), off(x.Lparen) + 1, txt, 1})
					nlocks++
				case *ast.GoStmt:
					if mode != "sched" {
						return true
					}
					lit, ok := x.Call.Fun.(*ast.FuncLit)
					if !ok || len(x.Call.Args) > 0 {
						// evaluate function and arguments now
						var l, r []string
						if !ok {
							l, r = append(l, "zzgf"), append(r, string(src[off(x.Call.Fun.Pos()):off(x.Call.Fun.End())]))
						}
						var as []string
						for i, a := range x.Call.Args {
							n := fmt.Sprintf("zzga%d", i)
							l, r, as = append(l, n), append(r, string(src[off(a.Pos()):off(a.End())])), append(as, n)
						}
						f := "zzgf"
						if ok {
							// the body keeps its own points: only the ends are edited
							eds = append(eds, edit{off(x.Go), off(lit.Pos()), "func() { " + strings.Join(l, ", ") + " := " + strings.Join(r, ", ") + "; zzvs.Go(func() { ", 2})
							eds = append(eds, edit{off(x.Call.Lparen), off(x.Call.End()), "(" + strings.Join(as, ", ") + ") }) }()", 1})
						} else {
							dots := ""
							if x.Call.Ellipsis.IsValid() {
								dots = "..."
							}
							eds = append(eds, edit{off(x.Pos()), off(x.End()), "func() { " + strings.Join(l, ", ") + " := " + strings.Join(r, ", ") + "; zzvs.Go(func() { " + f + "(" + strings.Join(as, ", ") + dots + ") }) }()", 2})
						}
						nlocks++
						return true
					}
					eds = append(eds, edit{off(x.Go), off(lit.Pos()), "zzvs.Go(", 2}, edit{off(x.Call.Lparen), off(x.Call.End()), ")", 1})
					nlocks++
				case *ast.SendStmt:
					foreign++
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						foreign++
					}
				case *ast.ExprStmt:
					if mode != "sched" {
						return true
					}
					if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) == 0 {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok {
							if fn, ok := info.Uses[se.Sel].(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == "sync" {
								try := ""
								switch fn.FullName() {
								case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
									try = "TryLock"
								case "(*sync.RWMutex).RLock":
									try = "TryRLock"
								}
								if try != "" {
									eds = append(eds, edit{off(x.Pos()), off(x.End()), fmt.Sprintf("for !%s.%s() { zzvs.Block() }", src[off(se.X.Pos()):off(se.X.End())], try), 1})
									nlocks++
								}
							}
						}
					}
				case *ast.RangeStmt:
					tv, ok := info.Types[x.X]
					if !ok || tv.Type == nil {
						return true
					}
					if _, ok := tv.Type.Underlying().(*types.Chan); ok {
						foreign++
					}
					if _, ok := tv.Type.Underlying().(*types.Map); !ok {
						return true
					}
					// A three-clause loop, so that the loop variables are shared or
					// per iteration as the language version has it.
					zi, zl := fmt.Sprintf("zzI%d", ids), fmt.Sprintf("zzL%d", ids)
					ids++
					decl := []string{"_", "_"}
					var l, r []string
					for k, e := range []ast.Expr{x.Key, x.Value} {
						if e == nil {
							continue
						}
						if idt, ok := e.(*ast.Ident); ok && idt.Name == "_" {
							continue
						}
						t := string(src[off(e.Pos()):off(e.End())])
						if x.Tok == token.DEFINE {
							decl[k] = t
						}
						l = append(l, t)
						r = append(r, fmt.Sprintf("%s[%s].%s", zl, zi, []string{"K", "V()"}[k]))
					}
					txt := fmt.Sprintf("for %s, %s, %s, %s := zzvs.Begin(%s); %s < len(%s); %s++ { if !%s[%s].Live() { continue }; ",
						zi, zl, decl[0], decl[1], src[off(x.X.Pos()):off(x.X.End())], zi, zl, zi, zl, zi)
					if len(l) > 0 {
						txt += strings.Join(l, ", ") + " = " + strings.Join(r, ", ") + "; "
					}
					eds = append(eds, edit{off(x.For), off(x.Body.Lbrace) + 1, txt, 1})
					nmaps++
				}
				return true
			})
			if len(eds) == 0 {
				continue
			}
			pe := off(f.Name.End())
			eds = append(eds, edit{pe, pe, "; import zzvs \"" + vsImport + "\"", 0})
			sort.SliceStable(eds, func(a, b int) bool {
				if eds[a].off != eds[b].off {
					return eds[a].off < eds[b].off
				}
				return eds[a].prio < eds[b].prio
			})
			var nb bytes.Buffer
			pos := 0
			for _, e := range eds {
				if e.off < pos { // inside a replaced region
					continue
				}
				nb.Write(src[pos:e.off])
				nb.WriteString(e.text)
				pos = e.end
			}
			nb.Write(src[pos:])
			rel, _ := filepath.Rel(repo, names[i])
			dst := filepath.Join(work, "i_"+strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, nb.Bytes(), 0o644); err != nil {
				return nil, "", err
			}
			ov[names[i]] = dst
		}
	}
	return ov, fmt.Sprintf("%s: %d files instrumented, %d map loops, %d scheduling points (%d hot), %d synchronisations", mode, len(ov), nmaps, npoints, nhot, nlocks), nil
}

// foreign counts operations that block in a way the scheduler cannot follow.
var foreign int

// hot tells whether the statement itself (without nested blocks) touches a
// variable of the package, something of package sync, or changes something
// through a pointer, field or element.
func hot(s ast.Stmt, info *types.Info) (h bool) {
	shared := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				h = true
				return
			case *ast.StarExpr:
				h = true
				return
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.ParenExpr:
				e = x.X
				continue
			}
			return
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				shared(l)
			}
		case *ast.IncDecStmt:
			shared(x.X)
		case *ast.Ident:
			switch o := info.Uses[x].(type) {
			case *types.Var:
				if o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), modPath) && o.Parent() == o.Pkg().Scope() {
					h = true
				}
			case *types.Func:
				if o.Pkg() != nil && (o.Pkg().Path() == "sync" || o.Pkg().Path() == "sync/atomic") {
					h = true
				}
			}
		}
		return true
	})
	return
}

// syncRecv is the address of the object of package sync that a method is
// called on.
func syncRecv(se *ast.SelectorExpr, info *types.Info, src []byte, off func(token.Pos) int) string {
	sel := info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal {
		return ""
	}
	x := string(src[off(se.X.Pos()):off(se.X.End())])
	t := sel.Recv()
	ix := sel.Index()
	for _, i := range ix[:len(ix)-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		x += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return x
	}
	return "&" + x
}
