// Command instrument writes a build overlay that puts a scheduling point, or a
// step count, in front of every statement of a package.
//
//	instrument [-steps] PACKAGE_DIR OUT_DIR    writes OUT_DIR/overlay.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

// VerifSchedHook is called before every statement of this package.
var VerifSchedHook func()

//go:norace
func VerifSchedPoint() {
	if VerifSchedHook != nil {
		VerifSchedHook()
	}
}
`

// stepHook counts; it does not tell goroutines apart.
const stepHook = `package %s

// VerifSteps counts the statements of this package that have begun.
var VerifSteps int64

var VerifStepLimit int64 = 1 << 62

// VerifStepsExceeded is called when VerifSteps passes VerifStepLimit.
var VerifStepsExceeded func()

func VerifSchedPoint() {
	VerifSteps++
	if VerifSteps > VerifStepLimit {
		VerifStepsExceeded()
	}
}
`

func main() {
	args := os.Args[1:]
	h := hook
	if len(args) > 0 && args[0] == "-steps" {
		args, h = args[1:], stepHook
	}
	if len(args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: instrument [-steps] PACKAGE_DIR OUT_DIR")
		os.Exit(2)
	}
	if err := run(args[0], args[1], h); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func run(dir, out, hook string) error {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	replace := map[string]string{}
	pkg := ""
	points := 0
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			return err
		}
		pkg = f.Name.Name
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			loop := func(b *ast.BlockStmt) {
				if len(b.List) == 0 { // still one step for each turn
					at = append(at, fset.Position(b.Rbrace).Offset)
				}
			}
			switch n := n.(type) {
			case *ast.ForStmt:
				loop(n.Body)
			case *ast.RangeStmt:
				loop(n.Body)
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for _, o := range at {
			b.Write(src[last:o])
			b.WriteString("VerifSchedPoint(); ")
			last = o
		}
		b.Write(src[last:])
		points += len(at)
		p := filepath.Join(out, filepath.Base(name))
		if err := os.WriteFile(p, []byte(b.String()), 0o644); err != nil {
			return err
		}
		replace[name] = p
	}
	p := filepath.Join(out, "verif_sched_hook.go")
	if err := os.WriteFile(p, []byte(fmt.Sprintf(hook, pkg)), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(dir, "verif_sched_hook.go")] = p
	js, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return err
	}
	fmt.Printf("%d scheduling points in %d files\n", points, len(replace)-1)
	return os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644)
}
