// mutate lists and applies small changes to a Go file: mutate FILE (lists) | mutate FILE N (prints the changed file).
// Development tool: finds changes that compile and pass the tests, to see whether a check notices them.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos  token.Pos
	desc string
	do   func()
}

func src(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := b.String()
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return s
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var muts []mut
	add := func(n ast.Node, desc string, do func()) { muts = append(muts, mut{n.Pos(), desc, do}) }
	isTrace := func(s ast.Stmt) bool {
		e, ok := s.(*ast.ExprStmt)
		if !ok {
			return false
		}
		c, ok := e.X.(*ast.CallExpr)
		if !ok {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && (id.Name == "trace" || id.Name == "traceData")
	}
	list := func(ls *[]ast.Stmt) {
		for i, s := range *ls {
			i, s := i, s
			if isTrace(s) {
				continue
			}
			del := false
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
				del = true
			case *ast.AssignStmt:
				del = s.Tok != token.DEFINE
			case *ast.ReturnStmt:
				del = len(*ls) >= 1
			case *ast.IfStmt:
				del = true
			}
			if del {
				add(s, "delete "+src(fset, s), func() {
					n := append([]ast.Stmt{}, (*ls)[:i]...)
					*ls = append(n, (*ls)[i+1:]...)
				})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(&n.List)
		case *ast.CaseClause:
			list(&n.Body)
			if len(n.List) > 1 {
				for i, e := range n.List {
					i := i
					add(e, "drop case "+src(fset, e), func() {
						l := append([]ast.Expr{}, n.List[:i]...)
						n.List = append(l, n.List[i+1:]...)
					})
				}
			}
		case *ast.SwitchStmt:
			for i, c := range n.Body.List {
				i := i
				add(c, "drop clause "+src(fset, c), func() {
					l := append([]ast.Stmt{}, n.Body.List[:i]...)
					n.Body.List = append(l, n.Body.List[i+1:]...)
				})
			}
		case *ast.TypeSwitchStmt:
			for i, c := range n.Body.List {
				i := i
				add(c, "drop clause "+src(fset, c), func() {
					l := append([]ast.Stmt{}, n.Body.List[:i]...)
					n.Body.List = append(l, n.Body.List[i+1:]...)
				})
			}
		case *ast.IfStmt:
			add(n.Cond, "negate "+src(fset, n.Cond), func() {
				n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n.Cond}}
			})
			if n.Else != nil {
				add(n.Else, "drop else", func() { n.Else = nil })
			}
		case *ast.BinaryExpr:
			var to []token.Token
			switch n.Op {
			case token.EQL:
				to = []token.Token{token.NEQ}
			case token.NEQ:
				to = []token.Token{token.EQL}
			case token.LSS:
				to = []token.Token{token.LEQ}
			case token.GTR:
				to = []token.Token{token.GEQ}
			case token.LEQ:
				to = []token.Token{token.LSS}
			case token.GEQ:
				to = []token.Token{token.GTR}
			case token.LAND:
				to = []token.Token{token.LOR}
			case token.LOR:
				to = []token.Token{token.LAND}
			case token.SUB:
				to = []token.Token{token.ADD}
			}
			for _, t := range to {
				t := t
				add(n, fmt.Sprintf("%s: %v -> %v", src(fset, n), n.Op, t), func() { n.Op = t })
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				neutral := "true"
				if n.Op == token.LOR {
					neutral = "false"
				}
				add(n.X, "operand "+src(fset, n.X)+" -> "+neutral, func() { n.X = ast.NewIdent(neutral) })
				add(n.Y, "operand "+src(fset, n.Y)+" -> "+neutral, func() { n.Y = ast.NewIdent(neutral) })
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.Atoi(n.Value)
				if err == nil && v < 1000 {
					add(n, "literal "+n.Value+"+1", func() { n.Value = strconv.Itoa(v + 1) })
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.SelectorExpr); ok {
				sw := map[string]string{"HasPrefix": "HasSuffix", "HasSuffix": "Contains", "TrimPrefix": "TrimSuffix", "TrimSuffix": "TrimPrefix", "Contains": "HasPrefix", "ContainsAny": "ContainsRune"}
				if t, ok := sw[id.Sel.Name]; ok {
					add(n, src(fset, n)+" -> "+t, func() { id.Sel.Name = t })
				}
			}
		case *ast.KeyValueExpr:
			add(n, "kv "+src(fset, n), nil)
			m := &muts[len(muts)-1]
			m.do = nil
			muts = muts[:len(muts)-1]
		case *ast.CompositeLit:
			for i, e := range n.Elts {
				i := i
				add(e, "drop element "+src(fset, e), func() {
					l := append([]ast.Expr{}, n.Elts[:i]...)
					n.Elts = append(l, n.Elts[i+1:]...)
				})
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range muts {
			fmt.Printf("%d\t%d\t%q\n", i, fset.Position(m.pos).Line, m.desc)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	muts[k].do()
	f.Comments = nil
	// directives and docs are lost, which is fine for a scratch copy
	format.Node(os.Stdout, fset, f)
}
