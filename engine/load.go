package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// load type-checks the harness package and everything it depends on from
// /repo's working tree and builds SSA for the program.
func load(repo string, overlay map[string][]byte, pats []string, env []string) (*Engine, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     append(os.Environ(), env...),
		Overlay: overlay,
	}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, "github.com/iden3/go-iden3-core") {
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, redirect: map[string]*ssa.Function{}, yieldKinds: map[string]bool{}, pkgs: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		if sp.Pkg != nil {
			e.pkgs[sp.Pkg.Path()] = sp
		}
	}
	e.errorT = types.Universe.Lookup("error").Type()
	e.byteT = types.Typ[types.Uint8]
	if ep := e.pkgs["errors"]; ep != nil {
		e.errStrT = types.NewPointer(ep.Pkg.Scope().Lookup("errorString").Type())
	} else {
		return nil, nil, fmt.Errorf("package errors not loaded")
	}
	return e, pk, nil
}
