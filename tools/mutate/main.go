// mutate lists or applies small syntactic mutations of Go files: mutate list FILE... | mutate apply FILE N > out
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	desc string
	do   func()
}

func muts(fset *token.FileSet, f *ast.File) (out []mut) {
	add := func(p token.Pos, desc string, do func()) {
		out = append(out, mut{fmt.Sprintf("%d:%s", fset.Position(p).Line, desc), do})
	}
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	var stmts func(list *[]ast.Stmt)
	stmts = func(list *[]ast.Stmt) {
		for i := range *list {
			i := i
			s := (*list)[i]
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt:
				_ = x
				add(s.Pos(), "delete statement", func() { (*list)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() {
						var l []ast.Expr
						for _, e := range x.Rhs {
							_ = e
							l = append(l, ast.NewIdent("_"))
						}
						if len(l) != len(x.Lhs) {
							l = nil
							for range x.Lhs {
								l = append(l, ast.NewIdent("_"))
							}
						}
						x.Lhs = l
						x.Tok = token.ASSIGN
					})
				}
			case *ast.BranchStmt:
				add(s.Pos(), "delete "+x.Tok.String(), func() { (*list)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				if x.Tok == token.BREAK {
					add(s.Pos(), "break->continue", func() { x.Tok = token.CONTINUE })
				}
				if x.Tok == token.CONTINUE {
					add(s.Pos(), "continue->break", func() { x.Tok = token.BREAK })
				}
			}
			if i+1 < len(*list) {
				switch s.(type) {
				case *ast.AssignStmt, *ast.ExprStmt, *ast.IfStmt:
					switch (*list)[i+1].(type) {
					case *ast.AssignStmt, *ast.ExprStmt, *ast.IfStmt:
						add(s.Pos(), "swap with next statement", func() { (*list)[i], (*list)[i+1] = (*list)[i+1], (*list)[i] })
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				add(x.OpPos, x.Op.String()+" -> "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "keep left operand only", func() { x.Y = x.X })
				add(x.OpPos, "keep right operand only", func() { x.X = x.Y })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, "drop !", func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.BasicLit:
			v := x.Value
			switch x.Kind {
			case token.INT:
				if k, err := strconv.ParseInt(v, 0, 64); err == nil {
					add(x.Pos(), v+" + 1", func() { x.Value = fmt.Sprint(k + 1) })
					if k > 0 {
						add(x.Pos(), v+" - 1", func() { x.Value = fmt.Sprint(k - 1) })
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(v); err == nil && len(s) > 0 {
					add(x.Pos(), "cut string "+v, func() { x.Value = strconv.Quote(s[:len(s)-1]) })
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(v[1:], '\''); err == nil {
					add(x.Pos(), "next character "+v, func() { x.Value = strconv.QuoteRune(r + 1) })
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), "true->false", func() { x.Name = "false" })
			}
			if x.Name == "false" {
				add(x.Pos(), "false->true", func() { x.Name = "true" })
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN {
				add(x.TokPos, "+= -> -=", func() { x.Tok = token.SUB_ASSIGN })
				add(x.TokPos, "+= -> =", func() { x.Tok = token.ASSIGN })
			}
			if x.Tok == token.SUB_ASSIGN {
				add(x.TokPos, "-= -> +=", func() { x.Tok = token.ADD_ASSIGN })
			}
		case *ast.IncDecStmt:
			add(x.TokPos, "flip ++/--", func() {
				if x.Tok == token.INC {
					x.Tok = token.DEC
				} else {
					x.Tok = token.INC
				}
			})
		case *ast.IfStmt:
			add(x.Pos(), "if true", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
			add(x.Pos(), "if false", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
		case *ast.BlockStmt:
			stmts(&x.List)
		case *ast.CaseClause:
			stmts(&x.Body)
			for i := range x.List {
				i := i
				if len(x.List) > 1 {
					add(x.List[i].Pos(), "drop case value", func() { x.List = append(append([]ast.Expr(nil), x.List[:i]...), x.List[i+1:]...) })
				}
			}
		case *ast.SliceExpr:
			if x.High != nil {
				add(x.Pos(), "slice high - 1", func() { x.High = &ast.BinaryExpr{X: x.High, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
			if x.Max != nil {
				add(x.Pos(), "slice without cap", func() { x.Max = nil; x.Slice3 = false })
			}
			if x.Low != nil {
				add(x.Pos(), "slice low + 1", func() { x.Low = &ast.BinaryExpr{X: x.Low, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				i := i
				if x.Ellipsis == token.NoPos || i+2 < len(x.Args) {
					add(x.Pos(), fmt.Sprintf("swap arguments %d and %d", i, i+1), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
				}
			}
		case *ast.KeyValueExpr:
			if id, ok := x.Key.(*ast.Ident); ok {
				_ = id
			}
		case *ast.CompositeLit:
			if len(x.Elts) > 0 {
				if _, ok := x.Elts[0].(*ast.KeyValueExpr); ok {
					for i := range x.Elts {
						i := i
						add(x.Elts[i].Pos(), "drop field of literal", func() {
							x.Elts = append(append([]ast.Expr(nil), x.Elts[:i]...), x.Elts[i+1:]...)
						})
					}
				}
			}
		}
		return true
	})
	return
}

func main() {
	load := func(p string) (*token.FileSet, *ast.File) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			panic(err)
		}
		return fset, f
	}
	if os.Args[1] == "list" {
		for _, p := range os.Args[2:] {
			fset, f := load(p)
			for i, m := range muts(fset, f) {
				fmt.Printf("%s\t%d\t%s\n", p, i, m.desc)
			}
		}
		return
	}
	fset, f := load(os.Args[2])
	n, _ := strconv.Atoi(os.Args[3])
	m := muts(fset, f)
	m[n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
