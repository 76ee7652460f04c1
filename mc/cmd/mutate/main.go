// Command mutate lists small edits of a package, as JSON lines: relational,
// logical and arithmetic operators, constants, conditions and statements.
//
//	mutate PACKAGE_DIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	New      string `json:"new"`
	Line     int    `json:"line"`
	What     string `json:"what"`
}

func main() {
	names, _ := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	enc := json.NewEncoder(os.Stdout)
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to int, repl, what string) {
			line := 1 + strings.Count(string(src[:from]), "\n")
			enc.Encode(mutant{filepath.Base(name), from, to, repl, line, what})
		}
		node := func(n ast.Node, repl, what string) { emit(off(n.Pos()), off(n.End()), repl, what) }
		rel := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			node(e, "!("+text(e)+")", "negate")
			node(e, "("+text(e)+") && false", "never")
			node(e, "("+text(e)+") || true", "always")
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					node(s, "", "drop "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						blank := ""
						for i, r := range s.Rhs {
							_ = i
							blank += "_ = " + text(r) + ";"
						}
						if len(s.Lhs) == len(s.Rhs) {
							node(s, blank, "drop "+text(s))
						}
					}
				case *ast.BranchStmt:
					if s.Tok == token.BREAK {
						node(s, "", "drop break")
					}
					if s.Tok == token.CONTINUE {
						node(s, "", "drop continue")
					}
				case *ast.IfStmt:
					if s.Init == nil && s.Else == nil {
						node(s, "", "drop if "+text(s.Cond))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, r := range rel[n.Op] {
					emit(off(n.OpPos), off(n.OpPos)+len(n.Op.String()), r, n.Op.String()+" to "+r)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					node(n, text(n.X), "only left of "+n.Op.String())
					node(n, text(n.Y), "only right of "+n.Op.String())
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					node(n, text(n.X), "drop !")
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit(off(n.TokPos), off(n.TokPos)+2, "--", "++ to --")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						node(n, fmt.Sprint(v+1), n.Value+" +1")
						node(n, fmt.Sprint(v-1), n.Value+" -1")
					}
				case token.CHAR:
					node(n, "'~'", n.Value+" to '~'")
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" {
						node(n, strconv.Quote(s[:len(s)-1]), n.Value+" cut")
						node(n, strconv.Quote(s+"~"), n.Value+" longer")
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					node(n.Low, text(n.Low)+"+1", "low +1")
				}
				if n.High != nil {
					node(n.High, text(n.High)+"-1", "high -1")
				}
			case *ast.IfStmt:
				cond(n.Cond)
			case *ast.ForStmt:
				if n.Cond != nil {
					node(n.Cond, "("+text(n.Cond)+") && false", "never loop")
				}
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.Body) > 0 {
					emit(off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), "", "empty case")
				}
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i == 0 {
							emit(off(e.Pos()), off(n.List[1].Pos()), "", "drop case "+text(e))
						} else {
							emit(off(n.List[i-1].End()), off(e.End()), "", "drop case "+text(e))
						}
					}
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch t := text(r); t {
					case "true":
						node(r, "false", "true to false")
					case "false":
						node(r, "true", "false to true")
					case "err":
						node(r, "nil", "err to nil")
					case "nil":
					default:
						if strings.Contains(t, "Errorf") || strings.Contains(t, "rrors.New") || strings.Contains(t, "applyError(") {
							node(r, "nil", "error to nil: "+t)
						}
					}
				}
			case *ast.CallExpr:
				if t := text(n.Fun); strings.HasPrefix(t, "strings.") {
					swap := map[string]string{"strings.TrimSpace": "strings.TrimSuffix", "strings.HasPrefix": "strings.Contains", "strings.HasSuffix": "strings.Contains", "strings.IndexByte": "strings.LastIndexByte", "strings.Index": "strings.LastIndex", "strings.LastIndex": "strings.Index", "strings.LastIndexByte": "strings.IndexByte", "strings.TrimPrefix": "strings.TrimLeft", "strings.TrimSuffix": "strings.TrimRight", "strings.EqualFold": "strings.HasPrefix", "strings.IndexAny": "strings.LastIndexAny", "strings.IndexRune": "strings.LastIndexByte", "strings.IndexFunc": "strings.LastIndexFunc", "strings.TrimRight": "strings.TrimSuffix", "strings.TrimLeft": "strings.TrimPrefix"}
					if s := swap[t]; s != "" && t != "strings.TrimSpace" {
						node(n.Fun, s, t+" to "+s)
					}
					if t == "strings.TrimSpace" {
						node(n, text(n.Args[0]), "drop TrimSpace")
					}
				}
				if len(n.Args) == 1 && !strings.Contains(text(n.Fun), ".") && strings.HasPrefix(text(n.Fun), "trim") {
					node(n, text(n.Args[0]), "drop "+text(n.Fun))
				}
			}
			return true
		})
	}
}
