// Command instr inserts a call to vs.Y() before every statement of the Go
// files given (build-constraint-selected by the caller), without changing line
// numbers. Usage: instr OUTDIR FILE... ; prints "src<TAB>dst" lines.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	out := os.Args[1]
	for _, src := range os.Args[2:] {
		b, err := os.ReadFile(src)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, src, b, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				at = append(at, off(s.Pos()))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var sb strings.Builder
		ipos := off(f.Name.End())
		last := 0
		emit := func(to int, s string) {
			sb.Write(b[last:to])
			sb.WriteString(s)
			last = to
		}
		emit(ipos, "; import zzvs \"go.opencensus.io/internal/zzv/vs\"")
		prev := -1
		for _, o := range at {
			if o == prev || o < ipos {
				continue
			}
			prev = o
			emit(o, "zzvs.Y(); ")
		}
		sb.Write(b[last:])
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(src, "/"), "/", "__"))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s\t%s\n", src, dst)
	}
}
