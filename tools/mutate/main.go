// Command mutate lists or applies small changes to Go source files, to measure how much of the
// code the checks judge. It works on copies only.
//
//	mutate list FILE          prints one line per mutant: index, line, description
//	mutate apply FILE INDEX   prints the mutated source
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
	line     int
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var out []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(from, to token.Pos, t, what string) {
		out = append(out, edit{off(from), off(to), t, what, fs.Position(from).Line})
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"/"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if s := text(n.Fun); strings.HasPrefix(s, "errs.") || s == "panic" { // error texts
				return false
			}
		case *ast.BinaryExpr:
			if strings.Contains(text(n.X), "\"") || strings.Contains(text(n.Y), "\"") {
				break
			}
			for _, o := range swap[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o)
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" + 1")
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" - 1")
					}
				}
			case token.STRING:
				if len(n.Value) > 3 && n.Value[0] == '"' && !strings.Contains(n.Value, "%") {
					add(n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"~\"", "text "+n.Value)
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "true -> false")
			}
			if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "false -> true")
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if false: "+text(n.Cond))
			add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if true: "+text(n.Cond))
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "for false: "+text(n.Cond))
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				del(s, add, text)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				del(s, add, text)
			}
			if len(n.List) > 1 {
				for i, e := range n.List {
					if i > 0 {
						add(n.List[i-1].End(), e.End(), "", "case without "+text(e))
					}
				}
			}
		case *ast.CompositeLit:
			for i := range n.Elts {
				if i > 0 {
					add(n.Elts[i-1].End(), n.Elts[i].End(), "", "without "+text(n.Elts[i]))
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, "", "! dropped")
			}
		}
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].from < out[j].from })
	if os.Args[1] == "list" {
		for i, e := range out {
			fmt.Printf("%d\t%d\t%s\n", i, e.line, strings.ReplaceAll(e.what, "\n", " "))
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[3])
	e := out[k]
	fmt.Print(string(src[:e.from]) + e.text + string(src[e.to:]))
}

func del(s ast.Stmt, add func(from, to token.Pos, t, what string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		add(s.Pos(), s.End(), "", "deleted "+text(s))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "deleted "+text(s))
		}
	case *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "deleted "+text(s))
	}
}
