// mutate lists or applies small source mutations: mutate FILE [N]. Without N it prints the number of
// mutations; with N it prints the mutated file on standard output and a description on standard error.
// Development tool: no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mutation struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutation
	add := func(p token.Pos, what string, do func()) { ms = append(ms, mutation{p, what, do}) }
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			i := i
			drop := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				drop = true
			case *ast.AssignStmt:
				drop = x.Tok != token.DEFINE
			case *ast.IfStmt:
				drop = x.Else == nil
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE && x.Label == nil {
					add(x.Pos(), "continue -> break", func() { x.Tok = token.BREAK })
				} else if x.Tok == token.BREAK && x.Label == nil {
					add(x.Pos(), "break -> continue", func() { x.Tok = token.CONTINUE })
				}
			}
			if drop {
				var b bytes.Buffer
				_ = printer.Fprint(&b, fs, s)
				t := b.String()
				if len(t) > 80 {
					t = t[:80]
				}
				add(s.Pos(), "drop "+strconv.Quote(t), func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, to := range swap[x.Op] {
				from, to := x.Op, to
				if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
					continue
				}
				if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING && from == token.ADD {
					continue
				}
				var b bytes.Buffer
				_ = printer.Fprint(&b, fs, x)
				add(x.OpPos, fmt.Sprintf("%v -> %v in %s", from, to, b.String()), func() { x.Op = to })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil && v < 10000 {
					add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = strconv.Itoa(v + 1) })
				}
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				i := i
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r.Pos(), "return nil for err", func() { x.Results[i] = ast.NewIdent("nil") })
				} else if ok && id.Name == "true" {
					add(r.Pos(), "return false for true", func() { x.Results[i] = ast.NewIdent("false") })
				} else if ok && id.Name == "false" {
					add(r.Pos(), "return true for false", func() { x.Results[i] = ast.NewIdent("true") })
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "! removed", func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.X}} })
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	if len(os.Args) < 3 {
		fmt.Println(len(ms))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := ms[k]
	fmt.Fprintf(os.Stderr, "%s: %s\n", fs.Position(m.pos), m.what)
	m.do()
	if err := printer.Fprint(os.Stdout, fs, f); err != nil {
		panic(err)
	}
}
