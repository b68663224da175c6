// mutate lists or applies small semantic changes to a Go file.
//
//	mutate FILE              prints one line per change: index, position, what
//	mutate FILE INDEX OUT    writes the changed file
//
// Used while building, to find out what the checks miss; by no check.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var cs []change
	add := func(p token.Pos, what string, do func()) { cs = append(cs, change{p, what, do}) }
	str := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fs, n)
		s := b.String()
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
	}
	fn := ""
	// conditions: drop a conjunct or disjunct
	var cond func(e *ast.Expr)
	cond = func(e *ast.Expr) {
		switch x := (*e).(type) {
		case *ast.ParenExpr:
			cond(&x.X)
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), fn+": drop "+str(x.X), func() { *e = x.Y })
				add(x.Pos(), fn+": drop "+str(x.Y), func() { *e = x.X })
				cond(&x.X)
				cond(&x.Y)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.IfStmt:
			cond(&x.Cond)
			if x.Else == nil && x.Init == nil {
				if len(x.Body.List) > 0 {
					switch x.Body.List[len(x.Body.List)-1].(type) {
					case *ast.ReturnStmt, *ast.BranchStmt:
						add(x.Pos(), fn+": guard off: if "+str(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
					default:
						add(x.Pos(), fn+": always: if "+str(x.Cond), func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
					}
				}
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				cond(&x.Cond)
			}
		case *ast.ReturnStmt:
			for i := range x.Results {
				cond(&x.Results[i])
			}
		case *ast.BinaryExpr:
			var to token.Token
			switch x.Op {
			case token.LSS:
				to = token.LEQ
			case token.LEQ:
				to = token.LSS
			case token.GTR:
				to = token.GEQ
			case token.GEQ:
				to = token.GTR
			default:
				return true
			}
			op := x.Op
			add(x.Pos(), fn+": "+str(x)+" to "+to.String(), func() { x.Op = to; _ = op })
		case *ast.BlockStmt:
			for i := range x.List {
				switch s := x.List[i].(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s.Pos(), fn+": delete "+str(s), func() { x.List[i] = blank(s) })
					}
				case *ast.ExprStmt:
					if c, ok := s.X.(*ast.CallExpr); ok {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok {
							if id, ok := se.X.(*ast.Ident); ok && id.Name == "slog" {
								break
							}
						}
					}
					add(s.Pos(), fn+": delete "+str(s), func() { x.List[i] = &ast.EmptyStmt{Implicit: true} })
				case *ast.IncDecStmt:
					add(s.Pos(), fn+": delete "+str(s), func() { x.List[i] = &ast.EmptyStmt{Implicit: true} })
				}
			}
		case *ast.TypeAssertExpr:
			_ = x
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, c := range cs {
			fmt.Printf("%d\t%s\t%s\n", i, fs.Position(c.pos), c.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	cs[k].do()
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		panic(err)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0o644)
}

// blank keeps the operands used.
func blank(s *ast.AssignStmt) ast.Stmt {
	var l []ast.Expr
	for range s.Rhs {
		l = append(l, ast.NewIdent("_"))
	}
	if len(s.Rhs) != len(s.Lhs) {
		return &ast.EmptyStmt{Implicit: true}
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: s.Rhs}
}
