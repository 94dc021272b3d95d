// inst writes instrumented copies of the packages under ROOT/pkg and the overlay file which makes the go command use
// them. Three things are added, none of which changes what the code does:
//
//   - a yield point before every statement of every function body, and at every access to a package-level variable, at
//     which the scheduler of package verifsched may switch to another goroutine;
//   - in place of package sync, package verifsched/vsync, whose locks are known to the scheduler (not with -race);
//   - a function which gives all package-level variables their initial values again.
//
// usage: inst ROOT OUTDIR RUNTIMEDIR [-race]
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rt = "verifsched"

var (
	modPath      string
	race         bool
	uncontrolled int // statements at which goroutines wait, or start, without the scheduler knowing
	nYields      int
	nGlobals     int
)

type file struct {
	path string
	src  []byte
	ast  *ast.File
	fset *token.FileSet
	out  string
}

type varDecl struct {
	names []string
	expr  string // source of the value, empty: zero value
	deps  map[string]bool
	file  *file
	pos   int
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(1)
}

func main() {
	root, out, runtime := os.Args[1], os.Args[2], os.Args[3]
	race = len(os.Args) > 4 && os.Args[4] == "-race"
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		fatal(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	replace := map[string]string{}
	dirs := map[string][]string{}
	filepath.Walk(filepath.Join(root, "pkg"), func(p string, i os.FileInfo, e error) error {
		if e == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err == nil && !ok {
				return nil // not part of this build
			}
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	exported := map[string]map[string]bool{} // import path -> package-level variables
	pkgs := map[string][]*file{}
	var names []string
	for d, ps := range dirs {
		names = append(names, d)
		rel, _ := filepath.Rel(root, d)
		vars := map[string]bool{}
		exported[modPath+"/"+filepath.ToSlash(rel)] = vars
		sort.Strings(ps)
		for _, p := range ps {
			src, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			pkgs[d] = append(pkgs[d], &file{path: p, src: src, ast: f, fset: fset})
			for _, dc := range f.Decls {
				if g, ok := dc.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								vars[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(names)
	for i, d := range names {
		rel, _ := filepath.Rel(root, d)
		instrument(pkgs[d], modPath+"/"+filepath.ToSlash(rel), exported)
		for k, f := range pkgs[d] {
			o := filepath.Join(out, fmt.Sprintf("p%d_%d_%s", i, k, filepath.Base(f.path)))
			if err := os.WriteFile(o, []byte(f.out), 0o644); err != nil {
				fatal(err)
			}
			replace[f.path] = o
		}
	}
	for _, sub := range []string{rt, rt + "/vsync"} {
		fs, _ := filepath.Glob(filepath.Join(runtime, sub, "*.go"))
		for _, f := range fs {
			replace[filepath.Join(root, "pkg", sub, filepath.Base(f))] = f
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%d %d %d\n", uncontrolled, nYields, nGlobals)
}

type edit struct {
	at, end int
	text    string
	order   int
}

// instrument rewrites the files of one package.
func instrument(fs []*file, path string, exported map[string]map[string]bool) {
	vars := exported[path]
	var decls []*varDecl
	funcDeps := map[string]map[string]bool{}
	inits := 0
	edits := map[*file][]edit{}
	// references of a node to package-level names
	refs := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok {
				m[id.Name] = true
			}
			return true
		})
		return m
	}
	var initNames []string
	for _, f := range fs {
		f := f
		off := func(p token.Pos) int { return f.fset.Position(p).Offset }
		imports := map[string]string{}
		for _, im := range f.ast.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			name := p[strings.LastIndexByte(p, '/')+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			imports[name] = p
			if p == "sync" && !race {
				n := ""
				if im.Name == nil {
					n = "sync "
				}
				edits[f] = append(edits[f], edit{off(im.Path.Pos()), off(im.Path.End()), n + `"` + modPath + "/pkg/" + rt + `/vsync"`, 0})
			}
		}
		edits[f] = append(edits[f], edit{off(f.ast.Name.End()), off(f.ast.Name.End()), "; import " + rt + ` "` + modPath + "/pkg/" + rt + `"`, 0})
		for _, d := range f.ast.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					v := s.(*ast.ValueSpec)
					one := func(ns []*ast.Ident, e ast.Expr) {
						vd := &varDecl{file: f, deps: map[string]bool{}, pos: off(v.Pos())}
						blank := true
						for _, n := range ns {
							vd.names = append(vd.names, n.Name)
							blank = blank && n.Name == "_"
						}
						if blank {
							return
						}
						if e != nil {
							vd.expr = string(f.src[off(e.Pos()):off(e.End())])
							vd.deps = refs(e)
						}
						decls = append(decls, vd)
					}
					if len(v.Values) == len(v.Names) {
						for i := range v.Names {
							one(v.Names[i:i+1], v.Values[i])
						}
					} else if len(v.Values) == 0 {
						for i := range v.Names {
							one(v.Names[i:i+1], nil)
						}
					} else {
						one(v.Names, v.Values[0])
					}
				}
			case *ast.FuncDecl:
				if x.Body == nil {
					continue
				}
				if x.Recv == nil && x.Name.Name == "init" {
					inits++
					n := fmt.Sprintf("verifInit%d", inits)
					initNames = append(initNames, n)
					edits[f] = append(edits[f], edit{off(x.Name.Pos()), off(x.Name.End()), n, 0})
				} else {
					funcDeps[x.Name.Name] = merge(funcDeps[x.Name.Name], refs(x.Body))
				}
				edits[f] = append(edits[f], body(f, x, vars, imports, exported, off)...)
			}
		}
	}
	// order of the initial values: dependencies first, through functions as well
	done := map[*varDecl]bool{}
	byName := map[string]*varDecl{}
	for _, d := range decls {
		for _, n := range d.names {
			byName[n] = d
		}
	}
	var order []*varDecl
	var visit func(d *varDecl, seenF map[string]bool)
	var follow func(deps map[string]bool, seenF map[string]bool)
	follow = func(deps map[string]bool, seenF map[string]bool) {
		var ns []string
		for n := range deps {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if v := byName[n]; v != nil {
				visit(v, seenF)
			}
			if fd := funcDeps[n]; fd != nil && !seenF[n] {
				seenF[n] = true
				follow(fd, seenF)
			}
		}
	}
	visit = func(d *varDecl, seenF map[string]bool) {
		if done[d] {
			return
		}
		done[d] = true
		if d.expr != "" {
			follow(d.deps, map[string]bool{})
		}
		order = append(order, d)
	}
	for _, d := range decls {
		visit(d, map[string]bool{})
	}
	tail := map[*file]*strings.Builder{}
	for _, f := range fs {
		tail[f] = &strings.Builder{}
	}
	var calls []string
	for i, d := range order {
		n := fmt.Sprintf("verifSet%d", i)
		calls = append(calls, n)
		w := tail[d.file]
		if d.expr == "" {
			fmt.Fprintf(w, "\nfunc %s() { %s.Zero(&%s) }\n", n, rt, d.names[0])
		} else {
			fmt.Fprintf(w, "\nfunc %s() { %s = %s }\n", n, strings.Join(d.names, ", "), d.expr)
		}
	}
	if len(calls)+len(initNames) > 0 {
		w := tail[fs[0]]
		fmt.Fprintf(w, "\nfunc init() { ")
		for _, n := range initNames {
			fmt.Fprintf(w, "%s(); ", n)
		}
		fmt.Fprintf(w, "%s.OnReset(func() { ", rt)
		for _, n := range append(calls, initNames...) {
			fmt.Fprintf(w, "%s(); ", n)
		}
		fmt.Fprintf(w, "}) }\n")
	}
	for _, f := range fs {
		s := apply(f.src, edits[f]) + tail[f].String() + "\nvar _ = " + rt + ".Y\n"
		// the version of the language in which type parameters exist; a constraint of the file itself is satisfied
		for _, l := range strings.SplitAfter(string(f.src), "\n") {
			if strings.HasPrefix(l, "//go:build") {
				s = strings.Replace(s, l, "\n", 1)
			}
			if strings.HasPrefix(l, "package ") {
				break
			}
		}
		s = "//go:build go1.21\n\n" + s
		if _, err := format.Source([]byte(s)); err != nil {
			fatal(f.path, err)
		}
		f.out = s
	}
}

func merge(a, b map[string]bool) map[string]bool {
	if a == nil {
		return b
	}
	for k := range b {
		a[k] = true
	}
	return a
}

// body gives the edits of one function.
func body(f *file, fd *ast.FuncDecl, vars map[string]bool, imports map[string]string, exported map[string]map[string]bool, off func(token.Pos) int) []edit {
	var out []edit
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			case *ast.DeclStmt:
				if g := x.Decl.(*ast.GenDecl); g.Tok != token.VAR {
					continue
				}
			}
			nYields++
			out = append(out, edit{off(s.Pos()), off(s.Pos()), rt + ".Y(); ", 1})
		}
	}
	skip := map[*ast.Ident]bool{}
	// names which are not variables
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			skip[x.Sel] = true
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok {
				skip[id] = true
			}
		case *ast.Field:
			for _, i := range x.Names {
				skip[i] = true
			}
			ast.Inspect(x.Type, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					skip[id] = true
				}
				return true
			})
		case *ast.LabeledStmt:
			skip[x.Label] = true
		case *ast.BranchStmt:
			if x.Label != nil {
				skip[x.Label] = true
			}
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Obj != nil && id.Obj.Decl == x {
						skip[id] = true
					}
				}
			}
		case *ast.RangeStmt:
			if x.Tok == token.DEFINE {
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if id, ok := l.(*ast.Ident); ok {
						skip[id] = true
					}
				}
			}
		case *ast.ValueSpec:
			for _, i := range x.Names {
				skip[i] = true
			}
		case *ast.ArrayType:
			if x.Len != nil {
				ast.Inspect(x.Len, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok {
						skip[id] = true
					}
					return true
				})
			}
		}
		return true
	})
	skip[fd.Name] = true
	global := func(id *ast.Ident) bool {
		if skip[id] || !vars[id.Name] {
			return false
		}
		if id.Obj == nil {
			return true // declared in another file of the package
		}
		// declared at package level of this file
		if vs, ok := id.Obj.Decl.(*ast.ValueSpec); ok {
			return f.ast.Scope != nil && f.ast.Scope.Lookup(id.Name) == id.Obj && vs != nil
		}
		return false
	}
	// walk with knowledge of the receivers of selectors
	ast.Inspect(fd, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			uncontrolled++
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				uncontrolled++
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
				switch imports[id.Name] + "." + x.Sel.Name {
				case "sync.NewCond", "sync.Cond", "time.Sleep", "time.After":
					uncontrolled++
				}
			}
			if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil && !vars[id.Name] {
				if p, ok := imports[id.Name]; ok && exported[p] != nil && exported[p][x.Sel.Name] {
					nGlobals++
					out = append(out, edit{off(x.Pos()), off(x.Pos()), "(*" + rt + ".At(&", 2}, edit{off(x.End()), off(x.End()), "))", 3})
				}
			}
		case *ast.Ident:
			if global(x) {
				nGlobals++
				out = append(out, edit{off(x.Pos()), off(x.Pos()), "(*" + rt + ".At(&", 2}, edit{off(x.End()), off(x.End()), "))", 3})
			}
		}
		return true
	})
	return out
}

func apply(src []byte, es []edit) string {
	sort.SliceStable(es, func(a, b int) bool {
		if es[a].at != es[b].at {
			return es[a].at < es[b].at
		}
		return es[a].order < es[b].order
	})
	var b bytes.Buffer
	at := 0
	for _, e := range es {
		if e.at < at {
			fatal("overlapping edits")
		}
		b.Write(src[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	return b.String()
}
