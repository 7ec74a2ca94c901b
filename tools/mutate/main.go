// mutate lists small changes of Go files: one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	Off, End int
	New      string `json:"new"`
	What     string `json:"what"`
}

var ops = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.MUL: {token.ADD},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{f, fs.Position(a).Line, off(a), off(b), s, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.BranchStmt:
					out(s.Pos(), s.End(), "", "delete "+fmt.Sprintf("%T", s))
				case *ast.AssignStmt:
					if s.(*ast.AssignStmt).Tok != token.DEFINE {
						out(s.Pos(), s.End(), "", "delete assignment")
					}
				case *ast.ReturnStmt:
					if i < len(l)-1 || true {
						out(s.Pos(), s.End(), "", "delete return")
					}
				}
				if i+1 < len(l) {
					out(s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s), "swap statements")
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o.String(), n.Op.String()+" to "+o.String())
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					out(n.Pos(), n.End(), text(n.X), "first operand only")
					out(n.Pos(), n.End(), text(n.Y), "second operand only")
				}
			case *ast.IfStmt:
				out(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
				out(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseUint(n.Value, 0, 63); err == nil {
						out(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+"+1")
						if v > 0 {
							out(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+"-1")
						}
					}
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					out(n.Pos(), n.End(), `""`, "empty string")
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						out(r.Pos(), r.End(), "nil", "nil error")
					}
					if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
						out(r.Pos(), r.End(), "false", "false")
					}
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" && len(n.Results) == 1 {
						continue
					}
				}
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE {
					out(n.Pos(), n.End(), "break", "break")
				}
				if n.Tok == token.BREAK {
					out(n.Pos(), n.End(), "continue", "continue")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					out(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "low+1")
				}
				if n.High != nil {
					out(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "high-1")
				}
			case *ast.CompositeLit:
				for i, e := range n.Elts {
					if i+1 < len(n.Elts) {
						out(e.Pos(), n.Elts[i+1].End(), text(n.Elts[i+1])+", "+text(e), "swap elements")
					}
				}
			case *ast.CallExpr:
				for i := range n.Args {
					if i+1 < len(n.Args) {
						out(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap arguments")
					}
				}
			}
			return true
		})
	}
}
