// mutate lists small changes to a Go file, one JSON object per line: offset, length, replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File string
	Off  int
	Len  int
	New  string
	Old  string
	Line int
	Kind string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		emit := func(kind string, a, b token.Pos, repl string) {
			enc.Encode(M{f, pos(a), pos(b) - pos(a), repl, string(src[pos(a):pos(b)]), fs.Position(a).Line, kind})
		}
		del := func(s ast.Stmt) {
			emit("delete", s.Pos(), s.End(), "{}")
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					del(s)
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						blank := false
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
								blank = true
							}
						}
						if !blank || len(x.Lhs) == 1 {
							del(s)
						} else {
							del(s)
						}
					}
				case *ast.BranchStmt:
					del(s)
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						del(s)
					}
				case *ast.GoStmt:
					emit("nogo", x.Pos(), x.Call.Pos(), "")
				}
				if i+1 < len(l) {
					ok := func(s ast.Stmt) bool {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt:
							return true
						case *ast.AssignStmt:
							return x.Tok != token.DEFINE
						}
						return false
					}
					if ok(s) && ok(l[i+1]) {
						emit("swap", s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s))
					}
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.IfStmt:
				emit("not", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit("never", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				emit("always", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("once", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&"}, token.AND_NOT: {"&"}}
				for _, a := range alt[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), text(x.X))
					emit("right", x.Pos(), x.End(), text(x.Y))
				}
				if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.OR || x.Op == token.AND {
					emit("left", x.Pos(), x.End(), text(x.X))
					emit("right", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit("const", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("const", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit("slice", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")*0")
				}
				if x.High != nil {
					emit("slice", x.High.Pos(), x.High.End(), "max(("+text(x.High)+")-1, 0)")
				}
			}
			return true
		})
	}
}
