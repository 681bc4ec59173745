// mutgen lists small source changes (development aid, see tools/mutants.py):
// one JSON object {file, off, end, new, op, line} per line for the Go files given.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		emit := func(a, b token.Pos, n, op string) {
			enc.Encode(mut{file, at(a), at(b), n, op, fs.Position(a).Line})
		}
		logging := func(n ast.Node) bool { return strings.HasPrefix(text(n), "log.") || strings.Contains(text(n), "Errorf(") }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				if logging(x) {
					return false
				}
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.SHL: {">>"}}
				for _, a := range alts[x.Op] {
					if x.Op == token.ADD && strings.Contains(text(x), "\"") {
						continue
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op "+x.Op.String())
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.X.Pos(), x.Y.Pos(), "", "drop left operand")
					emit(x.X.End(), x.Y.End(), "", "drop right operand")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), "'\\x7f'", "char")
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && !strings.Contains(s, ":") && len(s) < 40 && !strings.HasPrefix(x.Value, "`") {
						emit(x.Pos(), x.End(), strconv.Quote(s+"_"), "string")
					}
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
				if x.Else == nil && x.Init == nil {
					emit(x.Pos(), x.End(), "", "drop if")
				}
				if x.Else != nil {
					emit(x.Body.End(), x.Else.End(), "", "drop else")
				}
			case *ast.ExprStmt:
				if !logging(x) {
					emit(x.Pos(), x.End(), "", "drop call")
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop incdec")
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop defer")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "drop assignment")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "break->continue")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue->break")
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					last := x.Results[len(x.Results)-1]
					if text(last) == "err" || text(last) == "e" {
						emit(last.Pos(), last.End(), "nil", "return nil error")
					}
					if text(last) == "true" {
						emit(last.Pos(), last.End(), "false", "return false")
					}
					if text(last) == "false" {
						emit(last.Pos(), last.End(), "true", "return true")
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					emit(x.List[0].Pos(), x.List[1].Pos(), "", "drop case value")
					l := len(x.List)
					emit(x.List[l-2].End(), x.List[l-1].End(), "", "drop case value")
				}
				if len(x.List) > 0 && len(x.Body) > 0 {
					emit(x.Pos(), x.End(), "", "drop case")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true->false")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false->true")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice low+1")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice high-1")
				}
			}
			return true
		})
	}
}
