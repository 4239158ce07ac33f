// mutate lists small changes of a Go file, for measuring what the checks notice. It is not used by any check.
//
//	mutate FILE        lists the changes: number, line, kind, text
//	mutate FILE N      prints the file with change N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	from, to int
	text     string
	kind     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
	var out []change
	add := func(n ast.Node, kind, t string) { out = append(out, change{at(n.Pos()), at(n.End()), t, kind}) }
	logs := func(n ast.Node) bool {
		t := text(n)
		return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print")
	}
	var stmts func(l []ast.Stmt)
	stmts = func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.ExprStmt:
				if !logs(s) {
					add(s, "delete", "")
				}
			case *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				add(s, "delete", "")
			case *ast.AssignStmt:
				if s.Tok == token.ASSIGN || s.Tok == token.ADD_ASSIGN {
					add(s, "delete", "")
				} else if s.Tok == token.DEFINE {
					break
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil {
					add(s, "delete if", "")
				}
			case *ast.BranchStmt:
				add(s, "delete", "")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok != token.IMPORT
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.IfStmt:
			add(n.Cond, "negate", "!("+text(n.Cond)+")")
		case *ast.BinaryExpr:
			sw := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
			if t, ok := sw[n.Op]; ok {
				if n.Op == token.ADD && strings.Contains(text(n), `"`) {
					break
				}
				out = append(out, change{at(n.OpPos), at(n.OpPos) + len(n.Op.String()), t, "operator"})
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n, "literal", "("+n.Value+" + 1)")
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n, "literal", "false")
			} else if n.Name == "false" {
				add(n, "literal", "true")
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if t := text(r); t == "err" {
					add(r, "no error", "nil")
				}
			}
		}
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].from < out[j].from })
	if len(os.Args) > 2 {
		n, _ := strconv.Atoi(os.Args[2])
		c := out[n]
		fmt.Print(string(src[:c.from]) + c.text + string(src[c.to:]))
		return
	}
	for i, c := range out {
		line := 1 + strings.Count(string(src[:c.from]), "\n")
		t := strings.Join(strings.Fields(string(src[c.from:c.to])), " ")
		if len(t) > 90 {
			t = t[:90]
		}
		fmt.Printf("%d\t%d\t%s\t%s -> %s\n", i, line, c.kind, t, c.text)
	}
}
