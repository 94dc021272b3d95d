// mutate lists (mutate FILE) or applies (mutate FILE N) small changes to a Go source file; the changed file goes to stdout.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	line := func(p token.Pos) int { return fset.Position(p).Line }
	var cs []change
	add := func(n ast.Node, text, what string) {
		cs = append(cs, change{off(n.Pos()), off(n.End()), text, fmt.Sprintf("%d: %s", line(n.Pos()), what)})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	inErr := func(c *ast.CallExpr) bool {
		s := str(c.Fun)
		return s == "errors.New" || s == "fmt.Errorf" || strings.HasPrefix(s, "log.") || s == "make" || s == "panic"
	}
	ops := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if x.Tok == token.TYPE || x.Tok == token.IMPORT {
				return false
			}
		case *ast.CallExpr:
			if inErr(x) {
				return false
			}
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if str(a) != str(b) {
					cs = append(cs, change{off(a.Pos()), off(b.End()), str(b) + ", " + str(a), fmt.Sprintf("%d: swap %s, %s", line(a.Pos()), str(a), str(b))})
				}
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					vs := []int64{v + 1, v - 1}
					if strings.HasPrefix(x.Value, "0x") {
						vs = nil
						for b := int64(1); b <= v*2 && b < 1<<25; b <<= 1 {
							vs = append(vs, v^b)
						}
					}
					for _, w := range vs {
						if w >= 0 {
							f := "%d"
							if strings.HasPrefix(x.Value, "0x") {
								f = "0x%02X"
							}
							add(x, fmt.Sprintf(f, w), fmt.Sprintf("%s -> "+f, x.Value, w))
						}
					}
				}
			case token.FLOAT:
				v, err := strconv.ParseFloat(x.Value, 64)
				if err == nil {
					add(x, fmt.Sprint(v*1.01+0.001), fmt.Sprintf("%s -> %v", x.Value, v*1.01+0.001))
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 1 {
					i := len(s) / 2
					for i < len(s)-1 && !(s[i] >= 'a' && s[i] <= 'z' || s[i] >= '0' && s[i] <= '9') {
						i++
					}
					c := s[i] + 1
					if c < 0x7e && s[i] >= ' ' && s[i] != '%' && (i == 0 || s[i-1] != '%') {
						w := strconv.Quote(s[:i] + string(rune(c)) + s[i+1:])
						add(x, w, x.Value+" -> "+w)
					}
				}
			case token.CHAR:
				add(x, "'?'", x.Value+" -> '?'")
			}
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				p := off(x.OpPos)
				cs = append(cs, change{p, p + len(x.Op.String()), o, fmt.Sprintf("%d: %s -> %s in %s", line(x.Pos()), x.Op, o, str(x))})
			}
		case *ast.IfStmt:
			if x.Init == nil {
				add(x.Cond, "true || "+"("+str(x.Cond)+")", "if true")
				add(x.Cond, "false && "+"("+str(x.Cond)+")", "if false")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB {
				add(x, str(x.X), str(x)+" without its sign")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "true -> false")
			} else if x.Name == "false" {
				add(x, "true", "false -> true")
			}
		case *ast.CaseClause:
			if len(x.List) > 1 {
				for i, e := range x.List {
					if i == 0 {
						cs = append(cs, change{off(e.Pos()), off(x.List[1].Pos()), "", fmt.Sprintf("%d: drop case %s", line(e.Pos()), str(e))})
					} else {
						cs = append(cs, change{off(x.List[i-1].End()), off(e.End()), "", fmt.Sprintf("%d: drop case %s", line(e.Pos()), str(e))})
					}
				}
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(x, "", "drop "+str(x))
			}
		case *ast.KeyValueExpr:
			add(x, "", "") // placeholder, removed below: dropping a field
			cs = cs[:len(cs)-1]
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, visit)
	}
	if len(os.Args) < 3 {
		for i, c := range cs {
			fmt.Println(i, strings.ReplaceAll(c.what, "\n", " "))
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	c := cs[n]
	os.Stdout.Write(src[:c.from])
	os.Stdout.WriteString(c.text)
	os.Stdout.Write(src[c.to:])
}
