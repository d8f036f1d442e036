// mutate FILE.go... lists small changes of Go files, one JSON object per line:
// {"file","line","func","from","to","what","op","new"} where bytes [from,to) become new.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(from, to token.Pos, nw, op string) {
				a, b := off(from), off(to)
				enc.Encode(mut{fn, fs.Position(from).Line, fd.Name.Name, a, b, string(src[a:b]), nw, op})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			isLog := func(s string) bool {
				return strings.HasPrefix(s, "log.Print") || strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "log.Set")
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"}, token.XOR: {"|"},
					}[x.Op]
					for _, a := range alt {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "binop")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "left-only")
						emit(x.Pos(), x.End(), text(x.Y), "right-only")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT || x.Kind == token.FLOAT {
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", "lit+1")
						if x.Value != "0" {
							emit(x.Pos(), x.End(), "("+x.Value+"-1)", "lit-1")
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit(x.Pos(), x.End(), text(x.X), "unop")
					}
				case *ast.IfStmt:
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if-false")
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "if-true")
					} else {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if-false")
					}
				case *ast.ExprStmt:
					if !isLog(text(x)) {
						emit(x.Pos(), x.End(), "", "del-call")
					}
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "del-defer")
				case *ast.GoStmt:
					emit(x.Pos(), x.Call.Pos(), "", "no-go")
				case *ast.SendStmt:
					emit(x.Pos(), x.End(), "", "del-send")
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok != token.FALLTHROUGH {
						emit(x.Pos(), x.End(), "", "del-branch")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := ""
						for _, r := range x.Rhs { // keeps everything used
							s += fmt.Sprintf("_ = %s; ", text(r))
						}
						if len(x.Lhs) == len(x.Rhs) {
							emit(x.Pos(), x.End(), s, "del-assign")
						} else {
							emit(x.Pos(), x.End(), "", "del-assign")
						}
					}
					switch x.Tok {
					case token.ADD_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "-=", "assignop")
					case token.SUB_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "+=", "assignop")
					case token.OR_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "^=", "assignop")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "del-inc")
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						t := text(l)
						if strings.HasPrefix(t, "fmt.Errorf") || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "status.Error") || t == "err" {
							emit(l.Pos(), l.End(), "nil", "ret-nil")
						}
					}
				case *ast.SelectorExpr:
					swap := map[string]string{"X": "Y", "Y": "Z", "Z": "X", "TX": "TY", "TY": "TZ", "TZ": "TX", "NX": "NY", "NY": "NZ", "NZ": "NX", "V1": "V2", "V2": "V3", "V3": "V1", "Floor": "Ceil", "Ceil": "Floor", "Min": "Max", "Max": "Min", "Lock": "RLock", "Unlock": "RUnlock"}
					if w := swap[x.Sel.Name]; w != "" && !strings.Contains(w, "ock") {
						emit(x.Sel.Pos(), x.Sel.End(), w, "swap-field")
					}
				case *ast.CallExpr:
					if s := text(x.Fun); s == "log.Fatal" {
						emit(x.Fun.Pos(), x.Fun.End(), "log.Print", "fatal-print")
					} else if s == "log.Fatalf" {
						emit(x.Fun.Pos(), x.Fun.End(), "log.Printf", "fatal-print")
					} else if s == "min" || s == "max" {
						emit(x.Fun.Pos(), x.Fun.End(), map[string]string{"min": "max", "max": "min"}[s], "minmax")
					}
				}
				return true
			})
		}
	}
}
