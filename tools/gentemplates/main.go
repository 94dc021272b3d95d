// gentemplates extracts the shape of the text renderings (format and arguments of the ToString methods of structures)
// from the source tree. It was used once to draft mc/texts.json, which is then reviewed by hand and frozen: the checks
// read the frozen file, never the source.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type template struct {
	Format string   `json:"format"`
	Args   []string `json:"args"`
}

var fset = token.NewFileSet()

func src(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func str(e ast.Expr) (string, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		s, err := strconv.Unquote(x.Value)
		return s, err == nil
	case *ast.BinaryExpr:
		a, ok := str(x.X)
		b, ok2 := str(x.Y)
		return a + b, ok && ok2
	case *ast.ParenExpr:
		return str(x.X)
	}
	return "", false
}

func main() {
	out := map[string]template{}
	filepath.Walk(os.Args[1]+"/pkg", func(p string, i os.FileInfo, e error) error {
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, _ := parser.ParseFile(fset, p, nil, 0)
		scalar := map[string]bool{}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if t, ok := s.(*ast.TypeSpec); ok {
						if _, ok := t.Type.(*ast.Ident); ok {
							scalar[t.Name.Name] = true
						}
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || fd.Name.Name != "ToString" {
				continue
			}
			typ := strings.TrimPrefix(src(fd.Recv.List[0].Type), "*")
			if scalar[typ] {
				continue
			}
			rel, _ := filepath.Rel(os.Args[1]+"/pkg", filepath.Dir(p))
			key := rel + "." + typ
			recv := fd.Recv.List[0].Names[0].Name + "."
			if len(fd.Body.List) != 1 {
				fmt.Fprintln(os.Stderr, "by hand:", key)
				continue
			}
			call, ok := fd.Body.List[0].(*ast.ReturnStmt).Results[0].(*ast.CallExpr)
			format, ok2 := "", false
			if ok {
				format, ok2 = str(call.Args[0])
			}
			if !ok || !ok2 {
				fmt.Fprintln(os.Stderr, "by hand:", key)
				continue
			}
			t := template{Format: format}
			for _, a := range call.Args[1:] {
				s := src(a)
				pre := ""
				if strings.HasPrefix(s, "common.PrefixMultiLine(") {
					pre = ">"
					s = strings.TrimSuffix(strings.TrimPrefix(s, "common.PrefixMultiLine("), `, "    ")`)
				}
				if !strings.HasPrefix(s, recv) {
					fmt.Fprintln(os.Stderr, "argument by hand:", key, s)
				}
				s = strings.TrimPrefix(s, recv)
				if strings.HasSuffix(s, ".ToString()") {
					s = strings.TrimSuffix(s, ".ToString()") + "!"
				}
				t.Args = append(t.Args, pre+s)
			}
			out[key] = t
		}
		return nil
	})
	b, _ := json.MarshalIndent(out, "", " ")
	fmt.Println(string(b))
}
