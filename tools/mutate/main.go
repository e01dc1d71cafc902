// mutate lists small changes of a Go source file: one JSON object per line with the byte range to be
// replaced and its replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"+"},
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, text, what string) {
			b, _ := json.Marshal(mutant{file, fs.Position(from).Line, what, off(from), off(to), text})
			fmt.Println(string(b))
		}
		old := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		short := func(n ast.Node) string {
			s := old(n)
			if len(s) > 60 {
				s = s[:60]
			}
			return s
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, r := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, short(n)+": "+n.Op.String()+" -> "+r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), old(n.X), short(n)+" -> left operand")
					emit(n.Pos(), n.End(), old(n.Y), short(n)+" -> right operand")
				}
				if n.Op == token.ADD || n.Op == token.SUB {
					emit(n.Pos(), n.End(), old(n.X), short(n)+" -> left operand")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.Atoi(n.Value); err == nil {
						emit(n.Pos(), n.End(), strconv.Itoa(v+1), n.Value+" + 1")
						if v > 0 {
							emit(n.Pos(), n.End(), strconv.Itoa(v-1), n.Value+" - 1")
						}
					}
				case token.FLOAT:
					emit(n.Pos(), n.End(), "("+n.Value+"*1.5+0.25)", n.Value+" changed")
				case token.STRING:
					if len(n.Value) == 2 {
						emit(n.Pos(), n.End(), `"x"`, "empty string -> x")
					} else if n.Value[0] == '"' {
						emit(n.Pos(), n.End(), `""`, n.Value+" -> empty")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					emit(n.Pos(), n.End(), old(n.X), short(n)+": without "+n.Op.String())
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "("+old(n.Cond)+") && false", "if "+short(n.Cond)+" -> never")
				emit(n.Cond.Pos(), n.Cond.End(), "("+old(n.Cond)+") || true", "if "+short(n.Cond)+" -> always")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "without else of "+short(n.Cond))
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "", "without "+short(n))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "", "without "+short(n))
					if n.Tok == token.ADD_ASSIGN {
						emit(n.TokPos, n.TokPos+2, "-=", short(n)+" -> -=")
						emit(n.TokPos, n.TokPos+2, "=", short(n)+" -> =")
					}
				}
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "", "without "+short(n))
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "", "without "+short(n))
			case *ast.BranchStmt:
				switch n.Tok {
				case token.BREAK:
					emit(n.Pos(), n.Pos()+5, "continue", "break -> continue")
					emit(n.Pos(), n.Pos()+5, "", "without break")
				case token.CONTINUE:
					emit(n.Pos(), n.Pos()+8, "break", "continue -> break")
					emit(n.Pos(), n.Pos()+8, "", "without continue")
				}
			case *ast.ReturnStmt:
				for _, x := range n.Results {
					if id, ok := x.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							emit(x.Pos(), x.End(), "nil", short(n)+": err -> nil")
						case "true":
							emit(x.Pos(), x.End(), "false", short(n)+": true -> false")
						case "false":
							emit(x.Pos(), x.End(), "true", short(n)+": false -> true")
						}
					} else if c, ok := x.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok {
							if p, ok := s.X.(*ast.Ident); ok && (p.Name == "errors" || p.Name == "fmt" && s.Sel.Name == "Errorf") {
								emit(x.Pos(), x.End(), "nil", short(n)+": error -> nil")
							}
						}
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "case without its body: "+short(n))
				}
				for _, x := range n.List {
					_ = x
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						emit(kv.Pos(), kv.End()+1, "", "without "+short(kv))
					}
				}
			case *ast.CallExpr:
				// arguments of the same kind exchanged
				for i := 0; i+1 < len(n.Args); i++ {
					emit(n.Args[i].Pos(), n.Args[i+1].End(), old(n.Args[i+1])+", "+old(n.Args[i]), short(n)+": arguments exchanged")
				}
			case *ast.SelectorExpr:
				for a, b := range map[string]string{"Left": "Right", "Right": "Left", "Top": "Bottom", "Bottom": "Top", "Width": "Height", "Height": "Width", "x0": "x1", "x1": "x0", "y0": "y1", "y1": "y0",
					"First": "Last", "Last": "First", "OffsetX": "OffsetY", "OffsetY": "OffsetX", "Row": "Col", "Col": "Row", "RowSpan": "ColSpan", "ColSpan": "RowSpan"} {
					if n.Sel.Name == a {
						emit(n.Sel.Pos(), n.Sel.End(), b, short(n)+" -> "+b)
					}
				}
			case *ast.Ident:
				for a, b := range map[string]string{"x0": "x1", "x1": "x0", "y0": "y1", "y1": "y0", "width": "height", "height": "width", "row": "col", "col": "row"} {
					if n.Name == a && n.Obj != nil && n.Pos() != n.Obj.Pos() {
						emit(n.Pos(), n.End(), b, a+" -> "+b)
					}
				}
			}
			return true
		})
	}
}
