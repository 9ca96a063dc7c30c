package main // x

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type M struct {
	File     string
	Off, Len int
	New      string
	Desc     string
	Line     int
}

func main() {
	var out []M
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile("/repo/" + f)
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		add := func(lo, hi token.Pos, s, d string) {
			out = append(out, M{f, off(lo), off(hi) - off(lo), s, d, fs.Position(lo).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
		for _, d := range a.Decls {
			var body ast.Node
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				body = d.Body
			case *ast.GenDecl:
				if d.Tok != token.CONST && !(d.Tok == token.VAR && d.End()-d.Pos() < 1500) {
					continue
				}
				body = d
			}
			ast.Inspect(body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[n.Op] {
						add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						add(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" +1")
						if n.Value != "0" {
							add(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+" -1")
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 {
						add(n.Pos(), n.End(), `""`, "empty string "+n.Value)
					}
				case *ast.IfStmt:
					add(n.Cond.Pos(), n.Cond.End(), "(("+text(n.Cond)+")) && false", "if false")
					add(n.Cond.Pos(), n.Cond.End(), "(("+text(n.Cond)+")) || true", "if true")
				case *ast.ExprStmt:
					add(n.Pos(), n.End(), "_ = 0", "delete "+text(n))
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						t := "_ = 0"
						add(n.Pos(), n.End(), t, "delete "+text(n))
					}
				case *ast.IncDecStmt:
					if n.Tok == token.INC {
						add(n.TokPos, n.TokPos+2, "--", "++ -> --")
					}
				case *ast.BranchStmt:
					add(n.Pos(), n.End(), "_ = 0", "delete "+text(n))
				case *ast.ReturnStmt:
					if k := len(n.Results); k > 0 {
						last := n.Results[k-1]
						t := text(last)
						if t != "nil" && k > 1 {
							add(last.Pos(), last.End(), "nil", "return nil instead of "+t)
						}
						if t == "true" {
							add(last.Pos(), last.End(), "false", "true->false")
						}
						if t == "false" {
							add(last.Pos(), last.End(), "true", "false->true")
						}
					}
				case *ast.Ident:
					if len(n.Name) > 5 && (n.Name[len(n.Name)-5:] == "Index" || n.Name == "FirstHardenedChild") && n.Obj == nil {
						add(n.Pos(), n.End(), "("+n.Name+"+1)", n.Name+"+1")
						add(n.Pos(), n.End(), "("+n.Name+"-1)", n.Name+"-1")
					}
				case *ast.CallExpr:
					if t := text(n.Fun); t == "append" && len(n.Args) == 2 && n.Ellipsis == 0 {
						add(n.Pos(), n.End(), text(n.Args[0]), "no append "+text(n))
					}
				}
				return true
			})
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
	fmt.Fprintln(os.Stderr, len(out))
}
