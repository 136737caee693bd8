// mutate lists the small changes of a Go file: "mutate FILE" prints one JSON line per
// change {line, what, off, len, new}. (tools/mutants.py applies them to copies of /repo.)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	Line int
	What string
	Off  int
	Len  int
	New  string
}

var fset = token.NewFileSet()
var src []byte
var all []change

func add(from, to token.Pos, new, what string) {
	p := fset.Position(from)
	old := string(src[p.Offset:fset.Position(to).Offset])
	if old == new {
		return
	}
	all = append(all, change{p.Line, what, p.Offset, len(old), new})
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"},
}

// turn gives the names of the same thing on the other axes.
func turn(n string) (out []string) {
	for _, s := range []string{"XYZ", "xyz"} {
		for i := range s {
			k := strings.IndexByte(n, s[i])
			if k < 0 || strings.Count(n, string(s[i])) != 1 || len(n) > 9 {
				continue
			}
			ok := len(n) <= 3 || k == len(n)-1 || k == 0
			if ok {
				out = append(out, n[:k]+string(s[(i+1)%3])+n[k+1:])
			}
		}
	}
	return out
}

func quiet(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := s.X.(*ast.Ident)
	return ok && (x.Name == "log" && strings.HasPrefix(s.Sel.Name, "Print") || x.Name == "fmt" && strings.HasPrefix(s.Sel.Name, "Fprint") && text(c.Args[0]) == "os.Stderr")
}

func walk(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncDecl: // for messages only
		if n.Name.Name == "String" {
			return false
		}
	case *ast.AssignStmt:
		if text(n.Lhs[0]) == "flag.Usage" {
			return false
		}
	case *ast.CallExpr:
		if quiet(n) {
			return false
		}
		if s, ok := n.Fun.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && (x.Name == "flag" || x.Name == "errors" || (x.Name == "fmt" && s.Sel.Name == "Errorf") || (x.Name == "log" && strings.HasPrefix(s.Sel.Name, "Fatal"))) {
				return false
			}
		}
	case *ast.BinaryExpr:
		for _, o := range ops[n.Op] {
			add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "operator")
		}
	case *ast.BasicLit:
		if n.Kind == token.INT {
			if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
				add(n.Pos(), n.End(), fmt.Sprint(v+1), "constant")
				if v > 0 {
					add(n.Pos(), n.End(), fmt.Sprint(v-1), "constant")
				}
			}
		}
		if n.Kind == token.FLOAT {
			add(n.Pos(), n.End(), n.Value+"*1.5", "constant")
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT || n.Op == token.SUB {
			add(n.OpPos, n.OpPos+1, "", "unary")
		}
	case *ast.IfStmt:
		add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "condition")
		add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
		if n.Init == nil {
			add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
		}
	case *ast.SelectorExpr:
		for _, t := range turn(n.Sel.Name) {
			add(n.Sel.Pos(), n.Sel.End(), t, "axis")
		}
		ast.Inspect(n.X, walk)
		return false
	case *ast.Ident:
		for _, t := range turn(n.Name) {
			add(n.Pos(), n.End(), t, "axis")
		}
	case *ast.BlockStmt:
		stmts(n.List)
	case *ast.CaseClause:
		stmts(n.Body)
	case *ast.ReturnStmt:
		for _, r := range n.Results {
			if id, ok := r.(*ast.Ident); ok && strings.HasSuffix(strings.ToLower(id.Name), "err") {
				add(r.Pos(), r.End(), "nil", "error")
			} else if c, ok := r.(*ast.CallExpr); ok && text(c.Fun) == "fmt.Errorf" {
				add(r.Pos(), r.End(), "nil", "error")
			}
		}
	case *ast.FuncType, *ast.ImportSpec, *ast.StructType, *ast.Field:
		return false
	}
	return true
}

func stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.ExprStmt:
			if !quiet(s.X) {
				add(s.Pos(), s.End(), "", "statement")
			}
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s.Pos(), s.End(), "", "statement")
			}
		case *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt, *ast.SendStmt:
			add(s.Pos(), s.End(), "", "statement")
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				add(s.Pos(), s.End(), "", "statement")
			}
		case *ast.IfStmt:
			if s.Else == nil {
				add(s.Pos(), s.End(), "", "statement")
			}
		case *ast.ForStmt, *ast.RangeStmt:
			add(s.Pos(), s.End(), "", "statement")
		}
	}
}

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

func main() {
	var err error
	if src, err = os.ReadFile(os.Args[1]); err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		ast.Inspect(d, walk)
	}
	for _, c := range all {
		b, _ := json.Marshal(c)
		fmt.Println(string(b))
	}
}
