package main

import (
	"go/ast"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// parseEntries reads "//verif:entry key=value ..." directives above the
// harness functions.
func parseEntries(hp *ssa.Package, f *ast.File) []*entryCfg {
	var r []*entryCfg
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || fd.Recv != nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if !strings.HasPrefix(c.Text, "//verif:entry") {
				continue
			}
			en := &entryCfg{name: fd.Name.Name, fn: hp.Func(fd.Name.Name), steps: 4000000, params: map[string]int{}}
			for _, kv := range strings.Fields(strings.TrimPrefix(c.Text, "//verif:entry")) {
				i := strings.IndexByte(kv, '=')
				if i < 0 {
					continue
				}
				k, v := kv[:i], kv[i+1:]
				n, _ := strconv.Atoi(v)
				switch k {
				case "preempt":
					en.preempt = n
				case "yields":
					en.yields = strings.Split(v, ",")
				case "steps":
					en.steps = n
				case "maxpaths":
					en.maxp = n
				case "secs":
					en.secs = n
				case "reach":
					en.reach = strings.Split(v, ",")
				case "tier":
					en.tier = v
				case "name":
					en.name = v
				default:
					en.params[k] = n
				}
			}
			r = append(r, en)
		}
	}
	return r
}

// bindModels redirects dependency functions to the Go models annotated with
// "//verif:model <qualified function>".
func (e *Engine) bindModels(prefix string, pks []*packages.Package) {
	packages.Visit(pks, nil, func(q *packages.Package) {
		if !strings.HasPrefix(q.PkgPath, prefix) {
			return
		}
		sp := e.pkgs[q.PkgPath]
		sp.Build()
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:model ") {
						n := strings.TrimSpace(strings.TrimPrefix(c.Text, "//verif:model "))
						e.redirect[strings.TrimPrefix(n, "native ")] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
}
