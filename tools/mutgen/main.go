// mutgen FILE [N] lists the mutations of a Go file, or prints the file with
// mutation N applied.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var (
	fset  = token.NewFileSet()
	want  = -1
	count int
)

func try(pos token.Pos, what string, do func()) {
	if want < 0 {
		fmt.Printf("%d\t%d\t%s\n", count, fset.Position(pos).Line, what)
	} else if want == count {
		do()
	}
	count++
}

func src(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := b.String()
	if i := bytes.IndexByte(b.Bytes(), '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 70 {
		s = s[:70]
	}
	return s
}

var swap = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
	token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.REM: {token.MUL},
}

func list(l []ast.Stmt) {
	for i, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
			i := i
			try(s.Pos(), "delete "+src(s), func() { l[i] = &ast.EmptyStmt{} })
		case *ast.AssignStmt:
			i := i
			if x.Tok != token.DEFINE {
				try(s.Pos(), "delete "+src(s), func() {
					for j := range x.Lhs {
						x.Lhs[j] = ast.NewIdent("_")
					}
					x.Tok = token.ASSIGN
					l[i] = x
				})
			}
		case *ast.ReturnStmt:
			for j, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					j := j
					try(s.Pos(), "return nil for err", func() { x.Results[j] = ast.NewIdent("nil") })
				}
			}
		}
	}
}

func main() {
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				try(x.OpPos, "'"+src(x)+"' with "+t.String(), func() { x.Op = t })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				try(x.Pos(), "literal "+x.Value+" + 1", func() { x.Value = "(" + x.Value + "+1)" })
				if x.Value != "0" {
					try(x.Pos(), "literal "+x.Value+" - 1", func() { x.Value = "(" + x.Value + "-1)" })
				}
			}
			if x.Kind == token.STRING && x.Value != `""` && len(x.Value) < 12 {
				try(x.Pos(), "literal "+x.Value+" empty", func() { x.Value = `""` })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				try(x.Pos(), "negate "+x.Name, func() { x.Name = map[string]string{"true": "false", "false": "true"}[x.Name] })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				try(x.Pos(), "drop ! of "+src(x), func() { x.X = &ast.ParenExpr{X: &ast.UnaryExpr{Op: token.NOT, X: x.X}} })
			}
		case *ast.IfStmt:
			for _, b := range []string{"false", "true"} {
				b := b
				op := token.LAND
				if b == "true" {
					op = token.LOR
				}
				try(x.Pos(), "if "+src(x.Cond)+" always "+b, func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: op, Y: ast.NewIdent(b)}
				})
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		}
		return true
	})
	if want >= 0 {
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			panic(err)
		}
		os.Stdout.Write(b.Bytes())
	}
}
