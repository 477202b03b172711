// mutate lists small source mutations of Go files (development tool):
// one JSON object per line {file, line, off, end, new, kind}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Old  string `json:"old"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		emit := func(p, e token.Pos, n, kind string) {
			o, q := fs.Position(p).Offset, fs.Position(e).Offset
			enc.Encode(mut{f, fs.Position(p).Line, o, q, n, kind, string(src[o:q])})
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "binop")
				}
			case *ast.IfStmt:
				if x.Init == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])+")", "iffalse")
				}
				emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])+")", "ifneg")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
						emit(s.Pos(), s.End(), "", "del")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "delassign")
						}
						if y.Tok == token.ADD_ASSIGN {
							emit(y.TokPos, y.TokPos+2, "=", "add=")
						}
					case *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "delbranch")
					case *ast.IfStmt:
						if y.Else == nil {
							emit(s.Pos(), s.End(), "", "delif")
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch s.(type) {
					case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
						emit(s.Pos(), s.End(), "", "delcase")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			}
			return true
		})
	}
}
