// mutate lists or applies small changes of Go source files.
//
//	mutate list FILE...      one line per change: file, index, line, kind, text
//	mutate apply FILE INDEX  writes FILE with that change in place
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos  token.Pos
	kind string
	do   func()
}

func changes(f *ast.File) (cs []change) {
	add := func(p token.Pos, k string, do func()) { cs = append(cs, change{p, k, do}) }
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ},
		token.GEQ: {token.GTR, token.LSS}, token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND, token.XOR},
		token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND_NOT: {token.AND}, token.REM: {token.QUO},
	}
	body := func(list *[]ast.Stmt) {
		for i := range *list {
			i := i
			s := (*list)[i]
			if uninteresting(s) {
				continue
			}
			drop := func() { (*list)[i] = &ast.EmptyStmt{Semicolon: s.Pos()} }
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
				add(s.Pos(), "drop statement", drop)
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "drop assignment", drop)
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s.Pos(), "drop if", drop)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add(s.Pos(), "drop return", drop)
				}
			}
			if i+1 < len(*list) {
				_, a := s.(*ast.AssignStmt)
				_, b := (*list)[i+1].(*ast.AssignStmt)
				_, c := s.(*ast.ExprStmt)
				_, d := (*list)[i+1].(*ast.ExprStmt)
				if (a || c) && (b || d) {
					add(s.Pos(), "swap statements", func() { (*list)[i], (*list)[i+1] = (*list)[i+1], (*list)[i] })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(ast.Stmt); ok && uninteresting(s) {
			return false
		}
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			body(&x.List)
		case *ast.CaseClause:
			body(&x.Body)
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				add(x.OpPos, x.Op.String()+" to "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				l, r := x.X, x.Y
				keep := &ast.Ident{Name: map[bool]string{true: "true", false: "false"}[x.Op == token.LAND]}
				add(x.OpPos, "only left", func() { x.X, x.Y = l, keep })
				add(x.OpPos, "only right", func() { x.X, x.Y = keep, r })
			}
		case *ast.AssignStmt:
			alt := map[token.Token]token.Token{token.ADD_ASSIGN: token.SUB_ASSIGN, token.SUB_ASSIGN: token.ADD_ASSIGN,
				token.OR_ASSIGN: token.AND_ASSIGN, token.AND_ASSIGN: token.OR_ASSIGN}
			if t, ok := alt[x.Tok]; ok {
				o := x.Tok
				add(x.TokPos, o.String()+" to "+t.String(), func() { x.Tok = t })
			}
		case *ast.IncDecStmt:
			add(x.TokPos, "inc/dec", func() {
				if x.Tok == token.INC {
					x.Tok = token.DEC
				} else {
					x.Tok = token.INC
				}
			})
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseUint(x.Value, 0, 64)
				if err == nil {
					add(x.ValuePos, x.Value+" plus 1", func() { x.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(x.ValuePos, x.Value+" minus 1", func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 3 {
				add(x.ValuePos, x.Value+" shortened", func() { x.Value = x.Value[:len(x.Value)-2] + x.Value[len(x.Value)-1:] })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				o := x.Name
				add(x.NamePos, o+" negated", func() { x.Name = map[string]string{"true": "false", "false": "true"}[o] })
			}
			alt := map[string][]string{"uint32": {"int32", "uint16"}, "int32": {"uint32", "int16"}, "uint16": {"uint8"}, "uint64": {"uint32", "int64"}, "int64": {"int32"},
				"RLock": {"TryRLock"}, "Lock": {"TryLock"}}
			for _, a := range alt[x.Name] {
				a := a
				o := x.Name
				add(x.NamePos, o+" to "+a, func() { x.Name = a })
			}
		case *ast.IfStmt:
			c := x.Cond
			add(x.If, "negate condition", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
		case *ast.SliceExpr:
			if x.Low != nil {
				l := x.Low
				add(x.Pos(), "low bound plus 1", func() { x.Low = &ast.BinaryExpr{X: l, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
			if x.High != nil {
				h := x.High
				add(x.Pos(), "high bound minus 1", func() { x.High = &ast.BinaryExpr{X: h, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 {
				add(x.Pos(), "swap arguments", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
			}
		}
		return true
	})
	return
}

// uninteresting statements: log lines, sizes of buffers, stringer's assertions
func uninteresting(s ast.Stmt) bool {
	if x, ok := s.(*ast.AssignStmt); ok && len(x.Lhs) == 1 {
		id, ok := x.Lhs[0].(*ast.Ident)
		return ok && id.Name == "_"
	}
	x, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := x.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	return f.Sel.Name == "Writef" || f.Sel.Name == "Write" && len(c.Args) == 1 && fmt.Sprintf("%T", c.Args[0]) == "*ast.BasicLit" || f.Sel.Name == "Grow"
}

func main() {
	if os.Args[1] == "list" {
		for _, name := range os.Args[2:] {
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			for i, c := range changes(f) {
				fmt.Printf("%s\t%d\t%d\t%s\n", name, i, fs.Position(c.pos).Line, c.kind)
			}
		}
		return
	}
	name := os.Args[2]
	k, _ := strconv.Atoi(os.Args[3])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	changes(f)[k].do()
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
