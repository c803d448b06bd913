// Lists small source mutations of Go files as JSON lines: {"file","line","off","end","new","what"}. No check uses this.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, repl, what string) {
			_ = enc.Encode(mut{f, fs.Position(a).Line, off(a), off(b), repl, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var swaps = map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "drop right of "+x.Op.String())
					emit(x.Pos(), x.End(), text(x.Y), "drop left of "+x.Op.String())
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "", "drop !")
				} else if x.Op == token.SUB {
					emit(x.OpPos, x.OpPos+1, "", "drop -")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if always")
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseUint(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
						}
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\''); err == nil {
						emit(x.Pos(), x.End(), strconv.QuoteRune(v+1), x.Value+" + 1")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "drop statement "+text(x))
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop defer")
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "drop "+text(x))
					if x.Tok == token.ADD_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "-=", "+= -> -=")
					}
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.BREAK:
					emit(x.Pos(), x.End(), "", "drop break")
				case token.CONTINUE:
					emit(x.Pos(), x.End(), "", "drop continue")
					if x.Label == nil {
						emit(x.Pos(), x.End(), "break", "continue -> break")
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i := range x.List {
						a, b := x.List[i].Pos(), x.List[i].End()
						if i+1 < len(x.List) {
							b = x.List[i+1].Pos()
						} else {
							a = x.List[i-1].End()
						}
						emit(a, b, "", "drop case "+text(x.List[i]))
					}
				} else if len(x.List) == 1 && len(x.Body) > 0 {
					emit(x.Pos(), x.End(), "", "drop case clause "+text(x.List[0]))
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low bound + 1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high bound - 1")
				}
				if x.Max != nil {
					emit(x.High.End(), x.Max.End(), "", "drop capacity bound")
				}
			case *ast.ReturnStmt:
				for _, e := range x.Results {
					if id, ok := e.(*ast.Ident); ok && id.Name == "err" {
						emit(e.Pos(), e.End(), "nil", "return nil error")
					}
				}
			case *ast.RangeStmt:
				emit(x.Body.Lbrace+1, x.Body.Lbrace+1, " if true { break };", "never loops")
			}
			return true
		})
	}
}
