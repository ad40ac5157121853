// schedpt copies Go files, inserting a schedule point (verifh.Point()) before
// every statement. Nothing else changes; line numbers are preserved.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()
	for _, f := range flag.Args() {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.SkipObjectResolution)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		type ins struct {
			off int
			s   string
		}
		is := []ins{{fs.Position(af.Name.End()).Offset, `; import verifh "github.com/openconfig/gnmi/verifh"`}}
		is = append(is, ins{len(src), "\nvar _ = verifh.Point\n"})
		add := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				is = append(is, ins{fs.PositionFor(s.Pos(), false).Offset, "verifh.Point(); "})
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
		var res []byte
		p := 0
		for _, i := range is {
			res = append(res, src[p:i.off]...)
			res = append(res, i.s...)
			p = i.off
		}
		res = append(res, src[p:]...)
		if err := os.WriteFile(filepath.Join(*out, filepath.Base(f)), res, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
}
