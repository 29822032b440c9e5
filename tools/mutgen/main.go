// mutgen FILE: writes small changes of a Go source file as JSON lines
// {"off":,"end":,"new":,"line":,"op":}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(op string, from, to token.Pos, new string) {
		enc.Encode(map[string]any{"off": off(from), "end": off(to), "new": new, "old": string(src[off(from):off(to)]), "line": fs.Position(from).Line, "op": op})
	}
	isLog := func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return false
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		return ok && (x.Name == "slog" || x.Name == "log" || s.Sel.Name == "Debug" || s.Sel.Name == "Info" && len(c.Args) > 0 || s.Sel.Name == "Warn" || s.Sel.Name == "Error" && len(c.Args) > 1)
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if isLog(n) {
				return false
			}
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			return false
		case *ast.IfStmt:
			emit("if-not", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
			emit("if-false", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			if _, ok := n.Cond.(*ast.BinaryExpr); ok {
				b := n.Cond.(*ast.BinaryExpr)
				if b.Op == token.LAND || b.Op == token.LOR {
					emit("drop-left", n.Cond.Pos(), n.Cond.End(), text(b.Y))
					emit("drop-right", n.Cond.Pos(), n.Cond.End(), text(b.X))
				}
			}
			if n.Else != nil {
				emit("no-else", n.Else.Pos(), n.Else.End(), "{}")
			}
		case *ast.BinaryExpr:
			for _, o := range swap[n.Op] {
				emit("op"+n.Op.String()+o, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					emit("int+1", n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit("int-1", n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.ExprStmt:
			if !isLog(n.X) {
				emit("del-call", n.Pos(), n.End(), "_ = 0")
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				emit("del-assign", n.Pos(), n.End(), "_ = 0")
			}
		case *ast.IncDecStmt:
			emit("del-inc", n.Pos(), n.End(), "_ = 0")
		case *ast.SendStmt:
			emit("del-send", n.Pos(), n.End(), "_ = 0")
		case *ast.DeferStmt:
			emit("del-defer", n.Pos(), n.End(), "_ = 0")
			emit("undefer", n.Pos(), n.Call.Pos(), "")
		case *ast.GoStmt:
			emit("ungo", n.Pos(), n.Call.Pos(), "")
			emit("del-go", n.Pos(), n.End(), "_ = 0")
		case *ast.BranchStmt:
			if n.Tok == token.CONTINUE {
				emit("cont-break", n.Pos(), n.Pos()+8, "break")
				emit("del-cont", n.Pos(), n.End(), "_ = 0")
			} else if n.Tok == token.BREAK {
				emit("del-break", n.Pos(), n.End(), "_ = 0")
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 0 {
				emit("del-return", n.Pos(), n.End(), "_ = 0")
			} else if last := n.Results[len(n.Results)-1]; text(last) == "err" {
				emit("nil-err", last.Pos(), last.End(), "nil")
			} else if text(last) == "true" || text(last) == "false" {
				emit("flip-ret", last.Pos(), last.End(), map[string]string{"true": "false", "false": "true"}[text(last)])
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 && n.List != nil {
				emit("empty-case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "_ = 0")
			}
		}
		return true
	})
}
