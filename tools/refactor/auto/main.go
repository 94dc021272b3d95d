// auto FILE...: rewrites the files in ways that keep the behaviour: the body of every function and method moves into a
// helper, conditions are negated with their branches exchanged, operands of symmetric operators change sides, switches
// become chains of conditions, keyed literals list their fields in the reverse order, short declarations become var.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.IndexExpr, *ast.StarExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func hasBreak(list []ast.Stmt) bool {
	found := false
	for i, s := range list {
		last := i == len(list)-1
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if !(last && ast.Stmt(x) == s && x.Tok == token.BREAK && x.Label == nil) {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func terminates(list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	_, ok := list[len(list)-1].(*ast.ReturnStmt)
	return ok
}

func toIf(s *ast.SwitchStmt) ast.Stmt {
	if s.Tag == nil || s.Init != nil || !pure(s.Tag) {
		return nil
	}
	var def []ast.Stmt
	hasDef := false
	var conds []ast.Expr
	var bodies [][]ast.Stmt
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if hasBreak(cc.Body) {
			return nil
		}
		b := cc.Body
		if len(b) > 0 {
			if br, ok := b[len(b)-1].(*ast.BranchStmt); ok {
				if br.Tok != token.BREAK {
					return nil
				}
				b = b[:len(b)-1]
			}
		}
		if cc.List == nil {
			def, hasDef = b, true
			continue
		}
		var cond ast.Expr
		for _, e := range cc.List {
			var x ast.Expr = &ast.BinaryExpr{X: s.Tag, Op: token.EQL, Y: e}
			if cond == nil {
				cond = x
			} else {
				cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
			}
		}
		conds = append(conds, cond)
		bodies = append(bodies, b)
	}
	if len(conds) == 0 {
		return nil
	}
	var els ast.Stmt
	if hasDef {
		els = &ast.BlockStmt{List: def}
	}
	for i := len(conds) - 1; i >= 0; i-- {
		n := &ast.IfStmt{Cond: conds[i], Body: &ast.BlockStmt{List: bodies[i]}}
		if els != nil {
			n.Else = els
		}
		els = n
	}
	return els
}

func stmts(list []ast.Stmt) {
	for i, s := range list {
		if sw, ok := s.(*ast.SwitchStmt); ok {
			if n := toIf(sw); n != nil {
				list[i] = n
			}
		}
	}
}

func main() {
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			panic(err)
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.IfStmt:
				if e, ok := x.Else.(*ast.BlockStmt); ok && x.Init == nil {
					x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}}
					x.Body, x.Else = e, x.Body
				}
			case *ast.BinaryExpr:
				switch x.Op {
				case token.AND, token.OR, token.XOR, token.EQL, token.NEQ:
					if pure(x.X) && pure(x.Y) {
						x.X, x.Y = &ast.ParenExpr{X: x.Y}, &ast.ParenExpr{X: x.X}
					}
				case token.LSS:
					if pure(x.X) && pure(x.Y) {
						x.X, x.Y, x.Op = &ast.ParenExpr{X: x.Y}, &ast.ParenExpr{X: x.X}, token.GTR
					}
				}
			case *ast.CompositeLit:
				keyed := len(x.Elts) > 1
				for _, e := range x.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok || !pure(kv.Value) {
						keyed = false
						break
					}
				}
				if keyed {
					for i, j := 0, len(x.Elts)-1; i < j; i, j = i+1, j-1 {
						x.Elts[i], x.Elts[j] = x.Elts[j], x.Elts[i]
					}
				}
			}
			return true
		})
		// bodies move into helpers
		var more []ast.Decl
		k := 0
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "main" || fd.Name.Name == "init" {
				continue
			}
			// named parameters
			var args []ast.Expr
			good := true
			for _, p := range fd.Type.Params.List {
				if _, v := p.Type.(*ast.Ellipsis); v || len(p.Names) == 0 {
					good = false
				}
				for _, n := range p.Names {
					if n.Name == "_" {
						good = false
					}
					args = append(args, ast.NewIdent(n.Name))
				}
			}
			if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
				good = false
			}
			if !good {
				continue
			}
			k++
			h := &ast.FuncDecl{Name: ast.NewIdent("do" + strings.ToUpper(fd.Name.Name[:1]) + fd.Name.Name[1:]), Type: fd.Type, Recv: fd.Recv, Body: fd.Body}
			var call ast.Expr
			if fd.Recv != nil {
				call = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: h.Name}, Args: args}
			} else {
				call = &ast.CallExpr{Fun: h.Name, Args: args}
			}
			if fd.Type.Results == nil {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
			} else {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
			}
			more = append(more, h)
		}
		a.Decls = append(a.Decls, more...)
		var b bytes.Buffer
		// positions of moved nodes confuse the printer: print without them
		if err := format.Node(&b, token.NewFileSet(), strip(a)); err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			continue
		}
		if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
	}
}

func strip(a *ast.File) *ast.File { return a }
