// mutgen FILE...: prints, one JSON object per line, small source mutations.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func, Desc string
	Line, From, To   int
	New              string
}

var enc = json.NewEncoder(os.Stdout)

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				name = t.(*ast.Ident).Name + "." + name
			}
			emit := func(p, e token.Pos, nw, desc string) {
				enc.Encode(mut{f, name, desc, fs.Position(p).Line, off(p), off(e), nw})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			stmts := func(l []ast.Stmt) {
				for i, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit(s.Pos(), s.End(), "", "remove "+text(s))
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "remove "+text(s))
						}
					case *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "remove "+text(s))
					case *ast.IfStmt:
						if x.Else == nil && x.Init == nil {
							emit(s.Pos(), s.End(), "", "remove if "+text(x.Cond))
						}
					}
					if i+1 < len(l) {
						a, b := l[i], l[i+1]
						if _, ok := b.(*ast.ReturnStmt); !ok {
							if as, ok := a.(*ast.AssignStmt); !ok || as.Tok != token.DEFINE {
								emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap statements")
							}
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
					for _, e := range x.List {
						if len(x.List) > 1 {
							// drop one element
							s := ""
							for _, o := range x.List {
								if o != e {
									if s != "" {
										s += ", "
									}
									s += text(o)
								}
							}
							emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), s, "case without "+text(e))
						}
					}
				case *ast.BinaryExpr:
					rep := map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "!="}, token.GEQ: {">", "=="},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"},
					}
					for _, r := range rep[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, text(x)+" with "+r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), text(x)+" -> left")
						emit(x.Pos(), x.End(), text(x.Y), text(x)+" -> right")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+"+1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+"-1")
							}
						}
					case token.STRING:
						if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 0 && len(v) < 8 {
							emit(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), x.Value+" shortened")
						}
					case token.CHAR:
						if v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\''); err == nil {
							emit(x.Pos(), x.End(), strconv.QuoteRune(v+1), x.Value+"+1")
						}
					}
				case *ast.Ident:
					switch x.Name {
					case "true":
						emit(x.Pos(), x.End(), "false", "true->false")
					case "false":
						emit(x.Pos(), x.End(), "true", "false->true")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "e") {
							emit(r.Pos(), r.End(), "nil", "return nil for "+id.Name)
						}
						if id, ok := r.(*ast.Ident); ok && len(id.Name) > 3 && id.Name[:3] == "Err" {
							emit(r.Pos(), r.End(), "nil", "return nil for "+id.Name)
						}
						if c, ok := r.(*ast.CallExpr); ok {
							t := text(c.Fun)
							if t == "errors.Wrap" || t == "errors.Wrapf" || t == "NewJSONError" || t == "errors.NewAggregate" {
								emit(r.Pos(), r.End(), "nil", "return nil for "+t)
							}
						}
					}
				}
				return true
			})
		}
	}
}
