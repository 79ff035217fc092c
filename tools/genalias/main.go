// genalias writes aliases for every exported name of a standard package that the virtual
// replacement in /verif/mc does not define itself. Run by hand when a v-package changes.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	dir, path := os.Args[1], os.Args[2]
	out := dir + "/alias.go"
	os.Remove(out)
	fset := token.NewFileSet()
	pk, err := parser.ParseDir(fset, dir, nil, 0)
	if err != nil {
		panic(err)
	}
	have := map[string]bool{}
	name := ""
	for n, p := range pk {
		name = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	base := path[strings.LastIndex(path, "/")+1:]
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by tools/genalias; DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n", name, path)
	var names []string
	for _, n := range p.Scope().Names() {
		if token.IsExported(n) && !have[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", n, base, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", n, base, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, base, n)
		}
	}
	os.WriteFile(out, []byte(b.String()), 0644)
}
