// Command mutate lists small changes of the sources of a tree, to find out
// which of them the checks do not see.  It is a tool of the framework's
// development; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File    string
	At, End int
	Text    string
	Line    int
	What    string
}

func main() {
	root := os.Args[1]
	var out []mutant
	filepath.Walk(root, func(p string, fi os.FileInfo, e error) error {
		if e != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return e
		}
		rel, _ := filepath.Rel(root, p)
		src, e := os.ReadFile(p)
		if e != nil {
			return e
		}
		fset := token.NewFileSet()
		f, e := parser.ParseFile(fset, p, src, 0)
		if e != nil {
			return e
		}
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, text, what string) {
			out = append(out, mutant{rel, off(from), off(to), text, fset.Position(from).Line, what})
		}
		short := func(n ast.Node) string {
			s := strings.Join(strings.Fields(txt(n)), " ")
			if len(s) > 60 {
				s = s[:60]
			}
			return s
		}
		var list func(ss []ast.Stmt)
		list = func(ss []ast.Stmt) {
			for i, s := range ss {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
					add(s.Pos(), s.End(), "{}", "delete "+short(s))
				case *ast.DeferStmt:
					add(s.Pos(), s.End(), "{}", "delete "+short(s))
					add(s.Pos(), s.End(), txt(x.Call), "no defer "+short(s))
				case *ast.BranchStmt:
					add(s.Pos(), s.End(), "{}", "delete "+short(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						var use []string
						for range x.Rhs {
							use = append(use, "_")
						}
						t := "{}"
						if len(x.Rhs) == 1 {
							if _, ok := x.Rhs[0].(*ast.CallExpr); !ok {
								t = "_ = " + txt(x.Rhs[0])
							} else if len(x.Lhs) == 1 {
								t = "_ = " + txt(x.Rhs[0])
								add(s.Pos(), s.End(), "{}", "delete call and assignment "+short(s))
							}
						}
						add(s.Pos(), s.End(), t, "delete assignment "+short(s))
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						add(s.Pos(), s.End(), "_ = "+txt(x.Cond), "delete "+short(s))
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "e" || id.Name == "err") {
							add(r.Pos(), r.End(), "nil", "return nil for "+short(s))
						}
					}
				}
				// swap neighbours
				if i+1 < len(ss) {
					_, a := s.(*ast.ExprStmt)
					_, b := ss[i+1].(*ast.ExprStmt)
					as, c := s.(*ast.AssignStmt)
					bs, d := ss[i+1].(*ast.AssignStmt)
					c = c && as.Tok != token.DEFINE
					d = d && bs.Tok != token.DEFINE
					if (a || c) && (b || d) {
						add(s.Pos(), ss[i+1].End(), txt(ss[i+1])+"\n"+txt(s), "swap "+short(s)+" | "+short(ss[i+1]))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate if "+short(x.Cond))
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate for "+short(x.Cond))
				}
			case *ast.BinaryExpr:
				to := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}[x.Op]
				for _, t := range to {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, x.Op.String()+" -> "+t+" in "+short(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), txt(x.X), "only left of "+short(x))
					add(x.Pos(), x.End(), txt(x.Y), "only right of "+short(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, e := strconv.Atoi(x.Value); e == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1), fmt.Sprintf("%d -> %d", v, v+1))
						if v > 1 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1), fmt.Sprintf("%d -> %d", v, v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					to := map[string]string{"Lock": "RLock", "Unlock": "RUnlock", "PushBack": "PushFront", "MoveToBack": "MoveToFront", "Front": "Back", "Update": "View", "Seek": "Seek", "Before": "After", "After": "Before"}[s.Sel.Name]
					if to != "" && to != s.Sel.Name {
						add(s.Sel.Pos(), s.Sel.End(), to, s.Sel.Name+" -> "+to+" in "+short(x))
					}
				}
			}
			return true
		})
		return nil
	})
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
