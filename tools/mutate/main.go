// Command mutate lists small changes to Go files, as JSON: file, offset, the
// text there and the text to put in its place.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File     string
	Off, End int
	Old, New string
	Line     int
	Func     string
	Kind     string
}

func main() {
	var out []change
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		add := func(a, b token.Pos, new, kind string) {
			out = append(out, change{f, off(a), off(b), string(src[off(a):off(b)]), new, fs.Position(a).Line, fn, kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Recv != nil {
					fn = text(n.Recv.List[0].Type) + "." + fn
				}
			case *ast.GenDecl:
				if n.Tok == token.CONST || n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				ops := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, o := range ops[n.Op] {
					if n.Op == token.ADD {
						if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							add(n.X.End(), n.Y.End(), "", "drop operand")
							continue
						}
					}
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n.X.Pos(), n.Y.Pos(), "", "drop left condition")
					add(n.X.End(), n.Y.End(), "", "drop right condition")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.OpPos, n.OpPos+1, "", "drop !")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
				if n.Else != nil {
					add(n.Body.End(), n.Else.End(), "", "drop else")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), "number")
						if v > 0 {
							add(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), "number")
						}
					}
				case token.STRING:
					s, err := strconv.Unquote(n.Value)
					if err != nil {
						break
					}
					if n.Value[0] == '`' && strings.Contains(s, `xml:"`) {
						for _, o := range []string{",omitempty"} {
							if strings.Contains(s, o) {
								add(n.Pos(), n.End(), strings.Replace(n.Value, o, "", 1), "tag")
							} else if !strings.Contains(s, `"-"`) && !strings.Contains(s, "XMLName") {
								i := strings.LastIndex(n.Value, `"`)
								add(n.Pos(), n.End(), n.Value[:i]+",omitempty"+n.Value[i:], "tag")
							}
						}
						break
					}
					if len(s) > 0 {
						add(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "string")
						add(n.Pos(), n.End(), strconv.Quote(s+"X"), "string")
					}
				case token.CHAR:
					add(n.Pos(), n.End(), "'X'", "char")
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false", "boolean")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "true", "boolean")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.RangeStmt, *ast.ForStmt, *ast.IfStmt:
						add(s.Pos(), s.End(), "", "drop statement")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "drop statement")
							if len(s.Lhs) == 1 && s.Tok == token.ASSIGN {
								add(s.Pos(), s.End(), "_ = "+text(s.Rhs[0]), "drop assignment")
							}
						}
					case *ast.ReturnStmt:
						for _, r := range s.Results {
							if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
								add(r.Pos(), r.End(), "nil", "no error")
							}
							if id, ok := r.(*ast.Ident); ok && id.Name == "nil" && len(s.Results) == 1 {
								_ = id
							}
						}
					}
				}
				for i := 0; i+1 < len(n.List); i++ {
					a, b := n.List[i], n.List[i+1]
					add(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap")
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						add(s.Pos(), s.End(), "", "drop statement")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "drop statement")
						}
					}
				}
				for i, e := range n.List {
					if len(n.List) > 1 {
						if i+1 < len(n.List) {
							add(e.Pos(), n.List[i+1].Pos(), "", "drop case")
						} else {
							add(n.List[i-1].End(), e.End(), "", "drop case")
						}
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					add(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap arguments")
				}
			case *ast.SelectorExpr:
			}
			return true
		}
		ast.Inspect(af, visit)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
