// Command weave copies the files of a Go package with a call to verifY(id)
// inserted before every statement, and writes the entries of a go build
// overlay. The calls let the harness delay a goroutine at any point between
// two statements.
//
//	weave OUT OVERLAY DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

// VerifY is called before every statement of the package.
var VerifY func(id int)

func verifY(id int) {
	if f := VerifY; f != nil {
		f(id)
	}
}
`

func fatal(v ...any) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(1)
}

func main() {
	out, overlay, dirs := os.Args[1], os.Args[2], os.Args[3:]
	repl := map[string]string{}
	id := 0
	for n, dir := range dirs {
		ents, err := os.ReadDir(dir)
		if err != nil {
			fatal(err)
		}
		pkg := ""
		for _, e := range ents {
			name := e.Name()
			if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") {
				continue
			}
			path := filepath.Join(dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			if strings.HasPrefix(string(src), "//go:build") {
				continue
			}
			pkg = f.Name.Name
			var offs []int
			add := func(l []ast.Stmt) {
				for _, s := range l {
					if _, ok := s.(*ast.EmptyStmt); !ok {
						offs = append(offs, fset.Position(s.Pos()).Offset)
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					// the body of a switch or select consists of clauses
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			sort.Ints(offs)
			var sb strings.Builder
			last := 0
			for _, o := range offs {
				sb.Write(src[last:o])
				fmt.Fprintf(&sb, "verifY(%d); ", id)
				id++
				last = o
			}
			sb.Write(src[last:])
			dst := filepath.Join(out, fmt.Sprintf("%d-%s", n, name))
			if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
				fatal(err)
			}
			repl[path] = dst
		}
		dst := filepath.Join(out, fmt.Sprintf("%d-verif_y.go", n))
		if err := os.WriteFile(dst, []byte(fmt.Sprintf(hook, pkg)), 0o644); err != nil {
			fatal(err)
		}
		repl[filepath.Join(dir, "verif_y.go")] = dst
	}
	b, err := json.Marshal(map[string]any{"Replace": repl})
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(overlay, b, 0o644); err != nil {
		fatal(err)
	}
}
