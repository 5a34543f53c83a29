// mutate lists small source changes of the Go files given, as JSON: one object per change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File, Kind, New string
	Off, Len, Line  int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, kind, repl string) {
			enc.Encode(mutant{file, kind, repl, off(n.Pos()), off(n.End()) - off(n.Pos()), fset.Position(n.Pos()).Line})
		}
		wrap := func(s ast.Stmt, kind string) { emit(s, kind, "if false {\n"+text(s)+"\n}") }
		isErr := func(e ast.Expr) bool {
			b, ok := e.(*ast.BinaryExpr)
			if !ok || b.Op != token.NEQ {
				return false
			}
			x, ok1 := b.X.(*ast.Ident)
			y, ok2 := b.Y.(*ast.Ident)
			return ok1 && ok2 && len(x.Name) >= 3 && y.Name == "nil" && (x.Name == "err" || x.Name[len(x.Name)-3:] == "Err")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if call, ok := n.(*ast.CallExpr); ok {
				// nothing depends on the text of an error
				if sel, ok := call.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "Sprintf" || text(call.Fun) == "errors.New") {
					if len(call.Args) > 1 && sel.Sel.Name == "Sprintf" {
						return strings.HasPrefix(text(call.Args[0]), "\"%")
					}
					return false
				}
			}
			switch v := n.(type) {
			case *ast.GenDecl:
				return v.Tok != token.IMPORT
			case *ast.IfStmt:
				if isErr(v.Cond) {
					emit(v.Cond, "skip-err", "("+text(v.Cond)+") && false")
				} else {
					emit(v.Cond, "cond-false", "("+text(v.Cond)+") && false")
					emit(v.Cond, "cond-true", "("+text(v.Cond)+") || true")
				}
				if v.Else != nil {
					if b, ok := v.Else.(*ast.BlockStmt); ok {
						emit(b, "no-else", "{}")
					}
				}
			case *ast.BinaryExpr:
				if isErr(v) {
					return true
				}
				swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, op := range swap[v.Op] {
					emit(v, "op", text(v.X)+" "+op+" "+text(v.Y))
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					emit(v, "left", text(v.X))
					emit(v, "right", text(v.Y))
				}
				if v.Op == token.ADD || v.Op == token.SUB {
					emit(v, "left", text(v.X))
				}
			case *ast.ExprStmt:
				wrap(v, "drop")
			case *ast.IncDecStmt:
				wrap(v, "drop")
			case *ast.AssignStmt:
				if v.Tok != token.DEFINE {
					wrap(v, "drop")
				}
			case *ast.DeferStmt:
				wrap(v, "drop")
			case *ast.BranchStmt:
				if v.Label == nil {
					wrap(v, "drop")
					if v.Tok == token.CONTINUE {
						emit(v, "branch", "break")
					}
					if v.Tok == token.BREAK {
						emit(v, "branch", "continue")
					}
				}
			case *ast.RangeStmt:
				if k, ok := v.Key.(*ast.Ident); ok || v.Key == nil {
					_ = k
					emit(v.X, "skip-first", "("+text(v.X)+")[1:]")
					emit(v.X, "skip-last", "("+text(v.X)+")[:len("+text(v.X)+")-1]")
				}
				if len(v.Body.List) > 0 {
					body := text(v.Body)
					emit(v.Body, "one-round", body[:len(body)-1]+"\nif true { break }\n}")
				}
			case *ast.ForStmt:
				if len(v.Body.List) > 0 {
					body := text(v.Body)
					emit(v.Body, "one-round", body[:len(body)-1]+"\nif true { break }\n}")
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					emit(v, "int", "("+v.Value+" + 1)")
					if v.Value != "0" {
						emit(v, "int", "("+v.Value+" - 1)")
					}
				}
				if v.Kind == token.CHAR {
					emit(v, "char", "("+v.Value+" + 1)")
				}
				if v.Kind == token.STRING && len(v.Value) > 2 && v.Value[0] == '"' && v.Value[1] != '%' {
					emit(v, "string", v.Value[:len(v.Value)-1]+"z\"")
				}
			case *ast.Ident:
				if v.Name == "true" {
					emit(v, "bool", "false")
				}
				if v.Name == "false" {
					emit(v, "bool", "true")
				}
			case *ast.SliceExpr:
				if v.Low != nil {
					emit(v.Low, "low", "("+text(v.Low)+")+1")
				}
				if v.High != nil {
					emit(v.High, "high", "("+text(v.High)+")-1")
				}
			case *ast.CallExpr:
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "append" && len(v.Args) > 1 {
					emit(v, "no-append", text(v.Args[0]))
					if v.Ellipsis == token.NoPos && len(v.Args) == 2 {
						emit(v, "append-twice", "append("+text(v.Args[0])+", "+text(v.Args[1])+", "+text(v.Args[1])+")")
					}
				}
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "len" {
					emit(v, "len", "("+text(v)+" - 1)")
					emit(v, "len", "("+text(v)+" + 1)")
				}
				for i := 0; i+1 < len(v.Args); i++ {
					a, b := v.Args[i], v.Args[i+1]
					if text(a) == text(b) || v.Ellipsis != token.NoPos {
						continue
					}
					// exchange two neighbours
					lo, hi := off(a.Pos()), off(b.End())
					mid := string(src[off(a.End()):off(b.Pos())])
					enc.Encode(mutant{file, "swap-args", text(b) + mid + text(a), lo, hi - lo, fset.Position(a.Pos()).Line})
				}
			case *ast.SelectorExpr:
			case *ast.ReturnStmt:
				if len(v.Results) == 2 {
					if id, ok := v.Results[1].(*ast.Ident); ok && id.Name == "nil" {
						return true
					}
				}
			}
			return true
		})
		_ = fmt.Sprint
	}
}
