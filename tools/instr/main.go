// Command instr writes an overlay that adds a scheduling point before every
// statement of the given Go files, and a file declaring the point's hook.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	out, pkgDir, pkgName := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	points := 0
	for _, f := range os.Args[4:] {
		path := filepath.Join(pkgDir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			fail(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, path, src, parser.ParseComments)
		if err != nil {
			fail(err)
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				at = append(at, fs.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				switch {
				case len(n.List) > 0:
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true // the body of a switch or select
					}
					list(n.List)
				}
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		sort.Ints(at)
		var b []byte
		prev := 0
		for i, o := range at {
			if i > 0 && at[i-1] == o {
				continue
			}
			b = append(b, src[prev:o]...)
			b = append(b, "verifPoint();"...)
			prev = o
			points++
		}
		b = append(b, src[prev:]...)
		dst := filepath.Join(out, "instr_"+f)
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			fail(err)
		}
		repl[path] = dst
	}
	hook := filepath.Join(out, "zz_verif_sched.go")
	src := "package " + pkgName + `

// VerifHook is called before every statement.
var VerifHook func()

func verifPoint() {
	if VerifHook != nil {
		VerifHook()
	}
}
`
	if err := os.WriteFile(hook, []byte(src), 0o644); err != nil {
		fail(err)
	}
	repl[filepath.Join(pkgDir, "zz_verif_sched.go")] = hook
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fail(err)
	}
	fmt.Fprintln(os.Stderr, points, "scheduling points")
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
