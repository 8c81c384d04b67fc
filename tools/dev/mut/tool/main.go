package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Repl string `json:"repl"`
	Op   string `json:"op"`
	Fn   string `json:"fn"`
}

func main() {
	root := os.Args[1]
	var out []mut
	for _, file := range os.Args[2:] {
		src, err := os.ReadFile(root + "/" + file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		add := func(from, to token.Pos, repl, op string) {
			out = append(out, mut{file, fset.Position(from).Line, off(from), off(to) - off(from), repl, op, fn})
		}
		seen := map[string]bool{}
		_ = seen
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				// maps and lists at package level
				fn = "package"
			} else {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.IfStmt:
					add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
					add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
					add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always")
				case *ast.ForStmt:
					if n.Cond != nil {
						add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "noloop")
					}
				case *ast.RangeStmt:
					// skip first, stop after first
					add(n.Body.Rbrace, n.Body.Rbrace, "\nbreak\n", "once")
				case *ast.BinaryExpr:
					var to []string
					switch n.Op {
					case token.LAND:
						to = []string{"||"}
					case token.LOR:
						to = []string{"&&"}
					case token.EQL:
						to = []string{"!="}
					case token.NEQ:
						to = []string{"=="}
					case token.LSS:
						to = []string{"<=", ">="}
					case token.LEQ:
						to = []string{"<"}
					case token.GTR:
						to = []string{">=", "<="}
					case token.GEQ:
						to = []string{">"}
					case token.ADD:
						to = []string{"-"}
					case token.SUB:
						to = []string{"+"}
					}
					for _, t := range to {
						add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "op "+n.Op.String()+" to "+t)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						add(n.Pos(), n.End(), "("+text(n.X)+")", "left only")
						add(n.Pos(), n.End(), "("+text(n.Y)+")", "right only")
					}
					if n.Op == token.ADD {
						add(n.Pos(), n.End(), text(n.X), "left only")
						add(n.Pos(), n.End(), text(n.Y), "right only")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						add(n.Pos(), n.End(), text(n.X), "drop !")
					}
				case *ast.Ident:
					if n.Name == "true" {
						add(n.Pos(), n.End(), "false", "true to false")
					} else if n.Name == "false" {
						add(n.Pos(), n.End(), "true", "false to true")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							add(n.Pos(), n.End(), fmt.Sprint(v+1), "int+1")
							if v > 0 {
								add(n.Pos(), n.End(), fmt.Sprint(v-1), "int-1")
							}
						}
					} else if n.Kind == token.STRING && len(n.Value) > 2 {
						add(n.Pos(), n.End(), `""`, "empty string")
					} else if n.Kind == token.CHAR {
						add(n.Pos(), n.End(), `'\x01'`, "other char")
					}
				case *ast.CallExpr:
					name := text(n.Fun)
					switch name {
					case "strings.HasPrefix":
						add(n.Fun.Pos(), n.Fun.End(), "strings.HasSuffix", "suffix")
						add(n.Fun.Pos(), n.Fun.End(), "strings.Contains", "contains")
					case "strings.HasSuffix":
						add(n.Fun.Pos(), n.Fun.End(), "strings.HasPrefix", "prefix")
						add(n.Fun.Pos(), n.Fun.End(), "strings.Contains", "contains")
					case "strings.Contains":
						add(n.Fun.Pos(), n.Fun.End(), "strings.HasPrefix", "prefix")
					case "strings.EqualFold":
						add(n.Pos(), n.End(), "("+text(n.Args[0])+") == ("+text(n.Args[1])+")", "exact case")
					case "strings.ToLower", "strings.TrimSpace", "strings.ToUpper", "filepath.Clean", "path.Clean":
						add(n.Pos(), n.End(), text(n.Args[0]), "drop "+name)
					case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.ReplaceAll":
						add(n.Pos(), n.End(), text(n.Args[0]), "drop "+name)
					case "strings.SplitN":
						add(n.Pos(), n.End(), "strings.Split("+text(n.Args[0])+","+text(n.Args[1])+")", "split all")
					case "strings.Index":
						add(n.Fun.Pos(), n.Fun.End(), "strings.LastIndex", "last index")
					case "append":
						if len(n.Args) == 2 && n.Ellipsis == 0 {
							add(n.Pos(), n.End(), text(n.Args[0])+", *(func() *"+"int{return nil}())", "x")
							out = out[:len(out)-1]
						}
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						stmts(s, text, add)
					}
				case *ast.CaseClause:
					for _, s := range n.Body {
						stmts(s, text, add)
					}
					if len(n.List) > 1 {
						for i, e := range n.List {
							var rest []string
							for j, x := range n.List {
								if i != j {
									rest = append(rest, text(x))
								}
							}
							_ = e
							add(n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(rest, ", "), "drop case value")
						}
					} else if len(n.List) == 1 && len(n.Body) > 0 {
						add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
					}
				case *ast.CommClause:
					for _, s := range n.Body {
						stmts(s, text, add)
					}
				case *ast.SliceExpr:
					if n.Low != nil && n.High == nil {
						add(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "slice low+1")
					}
					if n.High != nil {
						add(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice high-1")
					}
				case *ast.CompositeLit:
					if len(n.Elts) > 0 {
						for i, e := range n.Elts {
							end := e.End()
							if i+1 < len(n.Elts) {
								end = n.Elts[i+1].Pos()
							}
							if kv, ok := e.(*ast.KeyValueExpr); ok {
								_ = kv
							}
							add(e.Pos(), end, "", "drop element")
							if i+1 == len(n.Elts) {
								// a trailing comma may follow: replace by nothing breaks; handle by eating it
								k := off(end)
								for k < len(src) && (src[k] == ' ' || src[k] == '\t') {
									k++
								}
								if k < len(src) && src[k] == ',' {
									out[len(out)-1].Len = k + 1 - out[len(out)-1].Off
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}

func stmts(s ast.Stmt, text func(ast.Node) string, add func(from, to token.Pos, repl, op string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "delete")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			var names []string
			for _, e := range s.Rhs {
				names = append(names, text(e))
			}
			// keep variables used
			if len(s.Lhs) == len(s.Rhs) {
				add(s.Pos(), s.End(), strings.Repeat("_, ", len(s.Lhs)-1)+"_ = "+strings.Join(names, ", "), "delete assignment")
			} else {
				add(s.Pos(), s.End(), strings.Repeat("_, ", len(s.Lhs)-1)+"_ = "+strings.Join(names, ", "), "delete assignment")
			}
		}
	case *ast.BranchStmt:
		add(s.Pos(), s.End(), "", "delete branch")
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add(s.Pos(), s.End(), "", "delete return")
			return
		}
		last := text(s.Results[len(s.Results)-1])
		if len(s.Results) > 1 && last != "nil" {
			var rs []string
			for _, r := range s.Results[:len(s.Results)-1] {
				rs = append(rs, text(r))
			}
			add(s.Pos(), s.End(), "return "+strings.Join(rs, ", ")+", nil", "return nil error")
		}
		if len(s.Results) == 1 && (strings.Contains(last, "rr") || strings.Contains(last, "fmt.Errorf")) {
			add(s.Pos(), s.End(), "return nil", "return nil error")
		}
		// without the return (the rest goes on)
		add(s.Pos(), s.End(), "if false { "+text(s)+" }", "skip return")
	}
}
